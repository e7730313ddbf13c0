use serde_json::{json, Map, Value};

/// The collections of a model and the word that introduces each in a SIMPLE file
pub const KINDS: [(&str, &str); 13] = [("spaces", "Space"), ("substances", "Substance"), ("materials", "Material"), ("constructions", "Construction"), ("surfaces", "Surface"), ("fenestrations", "Fenestration"), ("buildings", "Building"), ("hvacs", "HVAC"), ("luminaires", "Luminaire"), ("objects", "Object"), ("outputs", "Output"), ("site_details", "SiteDetails"), ("solar_options", "SolarOptions")];

/// What everything else may refer to: a substance `s`, a material `m`, a construction `c`,
/// a space `room`, a building `b` and a wall `w` of the construction `c`
pub fn scaffold() -> Map<String, Value> {
    let v = json!({
        "buildings": [{"name": "b"}],
        "substances": [{"type": "Normal", "name": "s", "thermal_conductivity": 1.5}],
        "materials": [{"name": "m", "substance": "s", "thickness": 0.1}],
        "constructions": [{"name": "c", "materials": ["m", "m"]}],
        "spaces": [{"name": "room", "volume": 30.0}],
        "surfaces": [{"name": "w", "construction": "c", "vertices": [0,0,0, 6,0,0, 6,0,3, 0,0,3], "front_boundary": {"type": "Space", "space": "room"}, "back_boundary": {"type": "Ground"}}],
    });
    let Value::Object(m) = v else { unreachable!() };
    m
}
pub fn single(c: &str) -> bool { c == "site_details" || c == "solar_options" }
/// Puts an object in the collection of a model
pub fn put(m: &mut Map<String, Value>, c: &str, v: Value) {
    if single(c) { m.insert(c.into(), v); } else { m.entry(c).or_insert(json!([])).as_array_mut().unwrap().push(v); }
}
/// The text of a SIMPLE file with the same objects
pub fn spl(m: &Map<String, Value>) -> String {
    let mut s = String::new();
    for (k, v) in m {
        if k == "name" { continue }
        let word = KINDS.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(k);
        if single(k) { s += &format!("{word} {v}\n") } else { for o in v.as_array().into_iter().flatten() { s += &format!("{word} {o}\n") } }
    }
    s
}
/// Equal up to the rounding of the last digits, and to fields that are null
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); x == y || (x - y).abs() <= 1e-15 * x.abs().max(y.abs()) }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.iter().all(|(k, v)| v.is_null() || y.get(k).is_some_and(|w| same(v, w))) && y.iter().all(|(k, w)| w.is_null() || x.contains_key(k)),
        _ => a == b,
    }
}
/// As `same`, but `b` may have fields that `a` does not
pub fn within(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.iter().all(|(k, v)| v.is_null() || y.get(k).is_some_and(|w| within(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| within(p, q)),
        _ => same(a, b),
    }
}

/// An object with some required and some optional fields, and the values that each may take
pub struct Shape { pub coll: &'static str, pub required: Vec<(&'static str, Vec<Value>)>, pub optional: Vec<(&'static str, Vec<Value>)>, pub defaults: Value }
fn floats() -> Vec<Value> { vec![json!(0.25), json!(12), json!(0.0), json!(-3.75), json!(1e-9), json!(123456.789), json!(1.0 / 3.0), json!(1e15), json!(2.5e-7), json!(0.1)] }
fn counts() -> Vec<Value> { vec![json!(2), json!(0), json!(1), json!(100000)] }
fn texts() -> Vec<Value> { ["x", "", "two words", "it's", "a \"quoted\" one", "back\\slash", "{open", "clo}se", "(a", "b)", "// not a comment", "/* nor this */", "*/", "new\nline", "tab\t", "ñandú ✓", "\u{1}", "null", "a, b", "'", "\\\"", "end"].iter().map(|x| json!(x)).collect() }
fn boundaries() -> Vec<Value> { let mut v = vec![json!({"type": "Outdoor"}), json!({"type": "Ground"}), json!({"type": "Adiabatic"}), json!({"type": "Space", "space": "room"})]; v.extend(floats().into_iter().take(4).map(|f| json!({"type": "AmbientTemperature", "temperature": f}))); v }
fn words(w: &str) -> Vec<Value> { w.split(' ').map(|x| json!(x)).collect() }
fn polygons() -> Vec<Value> {
    vec![json!([0, 0, 5, 2, 0, 5, 2, 2, 5, 0, 2, 5]), json!([0.1, 0, 0.3, 2.7, 0, 0.3, 2.7, 0, 1.1]), json!([0, 0, 0, 3, 0, 0, 3, 1, 0, 1, 1, 0, 1, 3, 0, 0, 3, 0]), json!([1, 1, 1, 2, 2, 1, 2, 2, 3.5, 1, 1, 3.5]), json!([0, 0, 0, 1, 0, 0, 2, 0, 0, 2, 2, 0, 0, 2, 0])]
}
fn points() -> Vec<Value> { vec![json!({"x": 1.5, "y": 0, "z": -2.25}), json!({"x": 0.1, "y": 1e-7, "z": 300})] }
fn specs() -> Vec<Value> {
    let mut v: Vec<Value> = "Other Bathtub Bed Dishwasher Fireplace Oven Refrigerator Sink Stairs Stove Television Toilet WasherDryer Chair Sofa Storage Table".split(' ').map(|t| json!({"type": t})).collect();
    for s in "Other Dining Office Stool".split(' ') { for a in ["Existing", "Missing"] { for b in ["Existing", "Missing"] { for l in "Four Three Star Other".split(' ') { v.push(json!({"type": "Chair", "subtype": s, "arms": a, "back": b, "legs": l})) } } } }
    for s in "Other Rectangular SingleSeat LShaped LShapedExtension".split(' ') { v.push(json!({"type": "Sofa", "subtype": s})) }
    for s in "Cabinet Shelf".split(' ') { v.push(json!({"type": "Storage", "subtype": s})) }
    for s in "Other Dining Coffee".split(' ') { for f in "Other Rectangular Circular LShaped".split(' ') { v.push(json!({"type": "Table", "subtype": s, "shape": f})) } }
    v
}
pub fn shapes() -> Vec<Shape> {
    let f = floats;
    let mut v = vec![];
    let mut add = |coll, required: Vec<(&'static str, Vec<Value>)>, optional: Vec<(&'static str, Vec<Value>)>, defaults: Value| v.push(Shape { coll, required, optional, defaults });
    let none = json!({});
    add("buildings", vec![("name", texts())], vec![("n_storeys", counts()), ("shelter_class", words("NoObstructions IsolatedRural Urban LargeLotUrban SmallLotUrban")), ("stack_coefficient", f()), ("wind_coefficient", f())], none.clone());
    add("substances", vec![("type", words("Normal")), ("name", texts())], vec![("thermal_conductivity", f()), ("specific_heat_capacity", f()), ("density", f()), ("front_solar_absorbtance", f()), ("back_solar_absorbtance", f()), ("solar_transmittance", f()), ("front_visible_reflectance", f()), ("back_visible_reflectance", f()), ("visible_transmissivity", f()), ("front_thermal_absorbtance", f()), ("back_thermal_absorbtance", f())], none.clone());
    add("substances", vec![("type", words("Gas")), ("name", texts())], vec![("gas", words("Air Argon Krypton Xenon"))], none.clone());
    add("materials", vec![("name", texts()), ("substance", texts()), ("thickness", f())], vec![], none.clone());
    add("constructions", vec![("name", texts()), ("materials", vec![json!(["m"]), json!([]), json!(["m", "n", "m"]), json!(["a \"q\" {", "}"])])], vec![], none.clone());
    let mut inf: Vec<Value> = vec![];
    for x in f().into_iter().take(4) { for k in ["Constant", "Blast", "Doe2"] { inf.push(json!({"type": k, "flow": x})) } inf.push(json!({"type": "DesignFlowRate", "a": x, "b": 0.5, "c": 1.25, "d": -2, "phi": 7.125})); inf.push(json!({"type": "EffectiveAirLeakageArea", "area": x})); }
    add("spaces", vec![("name", texts())], vec![("volume", f()), ("infiltration", inf), ("building", texts()), ("storey", counts()), ("purposes", vec![json!(words("Bathroom Bedroom DiningRoom Kitchen LivingRoom Office Storage Garage Hallway Laundry")), json!(["Kitchen"]), json!(["Other", "Office", "Other"])])], none.clone());
    let wall = json!({"front_boundary": {"type": "Outdoor"}, "back_boundary": {"type": "Outdoor"}});
    add("surfaces", vec![("name", texts()), ("construction", words("c")), ("vertices", polygons())], vec![("front_boundary", boundaries()), ("back_boundary", boundaries()), ("category", words("ExteriorWall InteriorWall GroundFloor ExteriorFloor InteriorFloor Ceiling Roof Other")), ("precalculated_front_convection_coef", f()), ("precalculated_back_convection_coef", f())], wall.clone());
    let mut window = wall;
    window["category"] = json!("Window");
    let mut op = vec![json!({"type": "Fixed"}), json!({"type": "Continuous"}), json!({"type": "Binary"})];
    for x in f().into_iter().take(3) { op.push(json!({"type": "Fixed", "fraction": x})); op.push(json!({"type": "Continuous", "max": x})); op.push(json!({"type": "Continuous", "max": x, "min": 0.125})); op.push(json!({"type": "Binary", "open": x})); op.push(json!({"type": "Binary", "open": 0.5, "closed": x})); }
    add("fenestrations", vec![("name", texts()), ("construction", words("c")), ("vertices", polygons())], vec![("category", words("Window Door Opening")), ("operation", op), ("front_boundary", boundaries()), ("back_boundary", boundaries()), ("precalculated_front_convection_coef", f()), ("precalculated_back_convection_coef", f())], window);
    add("hvacs", vec![("type", words("ElectricHeater")), ("name", texts())], vec![("target_space", texts()), ("max_heating_power", f()), ("heating_setpoint", f())], none.clone());
    add("hvacs", vec![("type", words("IdealHeaterCooler")), ("name", texts())], vec![("target_space", texts()), ("max_heating_power", f()), ("max_cooling_power", f()), ("heating_setpoint", f()), ("cooling_setpoint", f())], none.clone());
    add("luminaires", vec![("name", texts())], vec![("max_power", f()), ("target_space", texts())], none.clone());
    add("objects", vec![("name", texts()), ("dimensions", points())], vec![("location", points()), ("up", points()), ("front", points()), ("specifications", specs()), ("space", words("room"))], json!({"location": {"x": 0, "y": 0, "z": 0}, "up": {"x": 0, "y": 0, "z": 1}, "front": {"x": 0, "y": 1, "z": 0}, "specifications": {"type": "Other"}}));
    for o in OUTPUTS.split(' ') { add("outputs", vec![(o, texts())], vec![], none.clone()) }
    add("site_details", vec![], vec![("altitude", f()), ("terrain", words("Country Suburbs City Ocean Urban")), ("latitude", f()), ("longitude", f()), ("standard_meridian", f())], none.clone());
    add("solar_options", vec![], vec![("n_solar_irradiance_points", counts()), ("solar_ambient_divitions", counts()), ("solar_sky_discretization", counts()), ("optical_data_path", texts())], none);
    v
}
pub const OUTPUTS: &str = "FenestrationOpenFraction HeatingCoolingPowerConsumption LuminairePowerConsumption SurfaceFrontConvectionCoefficient SurfaceBackConvectionCoefficient SurfaceFrontConvectiveHeatFlow SurfaceBackConvectiveHeatFlow SurfaceFrontSolarIrradiance SurfaceBackSolarIrradiance SurfaceFrontIRIrradiance SurfaceBackIRIrradiance FenestrationFrontConvectionCoefficient FenestrationBackConvectionCoefficient FenestrationFrontConvectiveHeatFlow FenestrationBackConvectiveHeatFlow FenestrationFrontSolarIrradiance FenestrationBackSolarIrradiance FenestrationFrontIRIrradiance FenestrationBackIRIrradiance SpaceDryBulbTemperature SpaceInfiltrationVolume SpaceInfiltrationTemperature SpaceVentilationVolume SpaceVentilationTemperature SpaceAirExchangeVolume SurfaceNodeTemperature FenestrationNodeTemperature";
impl Shape {
    /// Every subset of the optional fields with their first value, and every value of each field
    /// on its own, with none and with all of the other optional fields
    pub fn objects(&self) -> Vec<Value> {
        let base = |n: usize| -> Map<String, Value> { let mut m: Map<String, Value> = self.required.iter().map(|(k, v)| (k.to_string(), v[0].clone())).collect(); for (i, (k, v)) in self.optional.iter().enumerate() { if n >> i & 1 == 1 { m.insert(k.to_string(), v[0].clone()); } } m };
        let mut out = vec![];
        let all = (1usize << self.optional.len()) - 1;
        for n in 0..=all { out.push(Value::Object(base(n))) }
        for n in [0, all] { for (k, v) in self.required.iter().chain(&self.optional) { for x in v.iter().skip(1) { let mut m = base(n); m.insert(k.to_string(), x.clone()); out.push(Value::Object(m)) } } }
        // pairs of values of two different fields
        let f: Vec<_> = self.required.iter().chain(&self.optional).collect();
        for i in 0..f.len() { for j in 0..i { for x in f[i].1.iter().skip(1) { for y in f[j].1.iter().skip(1) { let mut m = base(0); m.insert(f[i].0.into(), x.clone()); m.insert(f[j].0.into(), y.clone()); out.push(Value::Object(m)) } } } }
        out
    }
}
