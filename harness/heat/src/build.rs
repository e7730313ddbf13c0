//! Small building models, made through the public API, and access to their simulation state by element.
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use heat::heat_model::{ThermalModel, ThermalModelMemory};
use model::*;
use serde_json::json;
use weather::{CurrentWeather, WeatherTrait};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lay { Sol(Sol), Gas(&'static str, f64) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sol { pub th: f64, pub k: f64, pub rho: f64, pub cp: f64, pub ef: f64, pub eb: f64, pub tau: f64, pub af: f64, pub ab: f64 }
impl Sol {
    pub fn flipped(self) -> Sol { Sol { ef: self.eb, eb: self.ef, af: self.ab, ab: self.af, ..self } }
}
impl Lay {
    pub fn flipped(self) -> Lay { if let Lay::Sol(s) = self { Lay::Sol(s.flipped()) } else { self } }
    pub fn th(self) -> f64 { match self { Lay::Sol(s) => s.th, Lay::Gas(_, t) => t } }
}
pub const fn sol(th: f64, k: f64, rho: f64, cp: f64) -> Sol { Sol { th, k, rho, cp, ef: 0.9, eb: 0.6, tau: 0., af: 0.7, ab: 0.4 } }

#[derive(Clone, Debug, PartialEq)]
pub enum B { Out, Space(usize), Amb(f64), Adiabatic }
impl B {
    fn json(&self) -> serde_json::Value {
        match self {
            B::Out => json!({"type": "Outdoor"}),
            B::Space(i) => json!({"type": "Space", "space": mcc::room(*i)}),
            B::Amb(t) => json!({"type": "AmbientTemperature", "temperature": t}),
            B::Adiabatic => json!({"type": "Adiabatic"}),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Wall { pub layers: Vec<Lay>, pub poly: Vec<[f64; 3]>, pub front: B, pub back: B, pub window: bool, pub hs: (Option<f64>, Option<f64>) }
impl Wall {
    /// the very same wall, seen from the other side
    pub fn mirrored(&self) -> Wall {
        let mut poly = self.poly.clone();
        poly.reverse();
        Wall { layers: self.layers.iter().rev().map(|l| l.flipped()).collect(), poly, front: self.back.clone(), back: self.front.clone(), window: self.window, hs: (self.hs.1, self.hs.0) }
    }
    pub fn normal(&self) -> [f64; 3] {
        let p = &self.poly;
        let mut n = [0.0; 3];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            n[0] += (a[1] - b[1]) * (a[2] + b[2]);
            n[1] += (a[2] - b[2]) * (a[0] + b[0]);
            n[2] += (a[0] - b[0]) * (a[1] + b[1]);
        }
        let l = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
        [n[0] / l, n[1] / l, n[2] / l]
    }
    pub fn area(&self) -> f64 {
        let p = &self.poly;
        let mut n = [0.0; 3];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            n[0] += (a[1] - b[1]) * (a[2] + b[2]);
            n[1] += (a[2] - b[2]) * (a[0] + b[0]);
            n[2] += (a[0] - b[0]) * (a[1] + b[1]);
        }
        (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt() / 2.
    }
    pub fn perimeter(&self) -> f64 {
        let p = &self.poly;
        (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt() }).sum()
    }
    pub fn z(&self) -> f64 { self.poly.iter().map(|p| p[2]).sum::<f64>() / self.poly.len() as f64 }
}
/// a 3 x 2 rectangle looking towards azimuth `az` and tilt `tilt` (degrees; tilt 0 looks up), centred at height `z`
pub fn rect(az: f64, tilt: f64, z: f64) -> Vec<[f64; 3]> {
    let (a, t) = (az.to_radians(), tilt.to_radians());
    let r = [a.cos(), -a.sin(), 0.]; // to the right hand of the normal ...
    let n = [a.sin() * t.sin(), a.cos() * t.sin(), t.cos()];
    let u = [n[1] * r[2] - n[2] * r[1], n[2] * r[0] - n[0] * r[2], n[0] * r[1] - n[1] * r[0]];
    [(-1.5, -1.0), (1.5, -1.0), (1.5, 1.0), (-1.5, 1.0)].iter().map(|(x, y)| [x * r[0] + y * u[0], x * r[1] + y * u[1], z + x * r[2] + y * u[2]]).collect()
}

#[derive(Clone, Default)]
pub struct Building { pub walls: Vec<Wall>, pub volumes: Vec<f64>, pub lamps: Vec<usize>, pub heaters: Vec<(bool, usize)>, pub air: bool, pub hole: bool }

pub struct Sim { pub model: Model, pub header: SimulationStateHeader, pub tm: ThermalModel, pub state: SimulationState, pub mem: ThermalModelMemory }

pub fn model_of(b: &Building) -> Result<Model, String> {
    let mut m = Model::default();
    for (i, v) in b.volumes.iter().enumerate() {
        let mut s = Space::new(mcc::room(i));
        s.set_volume(*v);
        m.add_space(s);
    }
    // an opening comes before any other fenestration; air goes through it, and no heat
    if b.hole { m.add_fenestration(serde_json::from_value(json!({"name": "hole", "construction": "none", "category": "Opening", "vertices": [0, 500, 0, 3, 500, 0, 3, 500, 2, 0, 500, 2], "front_boundary": {"type": "Space", "space": "space0"}, "back_boundary": {"type": "Space", "space": "space1"}})).map_err(|e| e.to_string())?)?; }
    for (w, wall) in b.walls.iter().enumerate() {
        let mut c = Construction::new(format!("con{w}"));
        for (l, lay) in wall.layers.iter().enumerate() {
            let o = match lay {
                Lay::Sol(s) => {
                    let mut o = json!({"name": format!("s{w}-{l}"), "type": "Normal", "thermal_conductivity": s.k, "density": s.rho, "specific_heat_capacity": s.cp,
                        "front_thermal_absorbtance": s.ef, "back_thermal_absorbtance": s.eb, "front_solar_absorbtance": s.af, "back_solar_absorbtance": s.ab});
                    // 0.84 is the default of all four
                    for (k, v) in [("front_thermal_absorbtance", s.ef), ("back_thermal_absorbtance", s.eb), ("front_solar_absorbtance", s.af), ("back_solar_absorbtance", s.ab)] { if v == 0.84 { o.as_object_mut().unwrap().remove(k); } }
                    if s.tau > 0. { o["solar_transmittance"] = s.tau.into(); }
                    o
                }
                Lay::Gas(g, _) => json!({"name": format!("s{w}-{l}"), "type": "Gas", "gas": g}),
            };
            let s: Substance = serde_json::from_value(o).map_err(|e| e.to_string())?;
            m.add_substance(s);
            m.add_material(Material::new(format!("m{w}-{l}"), format!("s{w}-{l}"), lay.th()));
            c.materials.push(format!("m{w}-{l}"));
        }
        m.add_construction(c);
        let mut o = json!({"name": format!("wall{w}"), "construction": format!("con{w}"), "vertices": wall.poly.iter().flatten().collect::<Vec<_>>(), "front_boundary": wall.front.json(), "back_boundary": wall.back.json()});
        if let Some(h) = wall.hs.0 { o["precalculated_front_convection_coef"] = h.into(); }
        if let Some(h) = wall.hs.1 { o["precalculated_back_convection_coef"] = h.into(); }
        if wall.window {
            o["category"] = "Window".into();
            m.add_fenestration(serde_json::from_value(o).map_err(|e| e.to_string())?)?;
        } else {
            m.add_surface(serde_json::from_value(o).map_err(|e| e.to_string())?)?;
        }
    }
    for (i, z) in b.lamps.iter().enumerate() {
        let mut l = Luminaire::new(format!("lamp{i}"));
        l.set_target_space(mcc::room(*z));
        m.add_luminaire(l)?;
    }
    for (i, (ideal, z)) in b.heaters.iter().enumerate() {
        if *ideal {
            let mut h = hvac::IdealHeaterCooler::new(format!("hvac{i}"));
            h.set_target_space(mcc::room(*z));
            m.add_hvac(h.wrap())?;
        } else {
            let mut h = hvac::ElectricHeater::new(format!("hvac{i}"));
            h.set_target_space(mcc::room(*z));
            m.add_hvac(h.wrap())?;
        }
    }
    Ok(m)
}
pub fn meta() -> MetaOptions { MetaOptions { latitude: 0., longitude: 0., standard_meridian: 0., elevation: 0. } }

impl Sim {
    pub fn new(b: &Building, n: usize) -> Result<Sim, String> {
        let mut model = model_of(b)?;
        let mut header = model.take_state().ok_or("no state")?;
        if b.air {
            for (i, s) in model.spaces.iter().enumerate() {
                use SimulationStateElement as E;
                s.set_infiltration_volume_index(header.push(E::SpaceInfiltrationVolume(i), 0.)?)?;
                s.set_infiltration_temperature_index(header.push(E::SpaceInfiltrationTemperature(i), 0.)?)?;
                s.set_ventilation_volume_index(header.push(E::SpaceVentilationVolume(i), 0.)?)?;
                s.set_ventilation_temperature_index(header.push(E::SpaceVentilationTemperature(i), 0.)?)?;
            }
        }
        let tm = ThermalModel::new(&meta(), (), &model, &mut header, n)?;
        let state = header.take_values().ok_or("no values")?;
        let mem = tm.allocate_memory(&state)?;
        Ok(Sim { model, header, tm, state, mem })
    }
    pub fn idx(&self, e: SimulationStateElement) -> usize { self.header.elements.iter().position(|x| *x == e).unwrap_or_else(|| panic!("harness: no state element {e:?}")) }
    pub fn set(&mut self, e: SimulationStateElement, v: f64) { let i = self.idx(e); self.state[i] = v; }
    pub fn get(&self, e: SimulationStateElement) -> f64 { self.state[self.idx(e)] }
    /// the indices of the node temperatures of wall `i` (the k-th surface or fenestration)
    pub fn nodes(&self, i: usize, window: bool) -> std::ops::RangeInclusive<usize> {
        if window { let f = &self.model.fenestrations[i]; f.first_node_temperature_index().unwrap()..=f.last_node_temperature_index().unwrap() } else { let f = &self.model.surfaces[i]; f.first_node_temperature_index().unwrap()..=f.last_node_temperature_index().unwrap() }
    }
    pub fn set_nodes(&mut self, i: usize, window: bool, t: &[f64]) {
        for (k, j) in self.nodes(i, window).enumerate() { self.state[j] = t[k]; }
        self.mem = self.tm.allocate_memory(&self.state).unwrap();
    }
    pub fn get_nodes(&self, i: usize, window: bool) -> Vec<f64> { self.nodes(i, window).map(|j| self.state[j]).collect() }
    pub fn solar(&mut self, i: usize, window: bool, front: f64, back: f64) {
        use SimulationStateElement as E;
        if window { self.set(E::FenestrationFrontSolarIrradiance(i), front); self.set(E::FenestrationBackSolarIrradiance(i), back); }
        else { self.set(E::SurfaceFrontSolarIrradiance(i), front); self.set(E::SurfaceBackSolarIrradiance(i), back); }
    }
    pub fn ir(&mut self, i: usize, window: bool, front: f64, back: f64) {
        use SimulationStateElement as E;
        if window { self.set(E::FenestrationFrontIRIrradiance(i), front); self.set(E::FenestrationBackIRIrradiance(i), back); }
        else { self.set(E::SurfaceFrontIRIrradiance(i), front); self.set(E::SurfaceBackIRIrradiance(i), back); }
    }
    pub fn zone(&mut self, i: usize, t: f64) { self.set(SimulationStateElement::SpaceDryBulbTemperature(i), t) }
    pub fn zone_t(&self, i: usize) -> f64 { self.get(SimulationStateElement::SpaceDryBulbTemperature(i)) }
    pub fn march(&mut self, w: &Wth) -> Result<(), String> { self.march_at(Date { month: 6, day: 15, hour: 12.0 }, w) }
    pub fn march_at<W: WeatherTrait>(&mut self, d: Date, w: &W) -> Result<(), String> { self.tm.march(d, w, &self.model, &mut self.state, &mut self.mem) }
}
/// weather that changes all the time: everything is linear in the hours since June 15th, noon
#[derive(Clone, Copy, Debug)]
pub struct Trend { pub start: Wth, pub t: f64, pub wind: f64, pub dir: f64 }
impl Trend {
    pub fn at(&self, hours: f64) -> Wth { Wth { t: self.start.t + self.t * hours, wind: self.start.wind + self.wind * hours, dir: self.start.dir + self.dir * hours } }
}
impl WeatherTrait for Trend {
    fn get_weather_data(&self, date: Date) -> CurrentWeather { self.at((date.day as f64 - 15.) * 24. + date.hour - 12.).get_weather_data(date) }
}

/// weather that never changes
#[derive(Clone, Copy, Debug)]
pub struct Wth { pub t: f64, pub wind: f64, pub dir: f64 }
impl WeatherTrait for Wth {
    fn get_weather_data(&self, date: Date) -> CurrentWeather {
        CurrentWeather { date, dry_bulb_temperature: self.t, wind_speed: self.wind, wind_direction: self.dir, ..Default::default() }
    }
}
pub const SIGMA: f64 = 5.670374419e-8;
pub fn ir_of(t: f64) -> f64 { SIGMA * (t + 273.15).powi(4) }
