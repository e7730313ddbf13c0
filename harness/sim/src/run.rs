//! U01: what a simulation reports; U02: the thermostats; U04: the modules that a simulation puts together
use crate::air::weather as cw;
use crate::light::{rect, B};
use air::air_model::AirFlowModel;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use heat::heat_model::ThermalModel;
use ::light::SolarModel;
use mcc::*;
use model::{Model, Output, SimulationState, SimulationStateElement as E, SimulationStateHeader};
use serde_json::{json, Value};
use simple::control_trait::SimpleControl;
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::void_control::VoidControl;
use simple::{MultiphysicsModel, OccupantBehaviour};
use std::io::Write;
use weather::{CurrentWeather, Location, Weather};

/// two rooms with a wall each, a window, two HVACs, a luminaire and infiltration; `path` keeps the optical data, which is random
pub fn house(path: Option<&str>) -> Value {
    let mut m = json!({
        "substances": [{"name": "brick", "type": "Normal", "thermal_conductivity": 0.8, "density": 1600., "specific_heat_capacity": 800., "front_thermal_absorbtance": 0.9, "back_thermal_absorbtance": 0.9, "front_solar_absorbtance": 0.7, "back_solar_absorbtance": 0.7},
            {"name": "glass", "type": "Normal", "thermal_conductivity": 1.0, "density": 2500., "specific_heat_capacity": 840., "front_thermal_absorbtance": 0.84, "back_thermal_absorbtance": 0.84, "solar_transmittance": 0.8, "front_solar_absorbtance": 0.1, "back_solar_absorbtance": 0.1}],
        "materials": [{"name": "brick", "substance": "brick", "thickness": 0.2}, {"name": "glass", "substance": "glass", "thickness": 0.004}],
        "constructions": [{"name": "brick1", "materials": ["brick"]}, {"name": "glass1", "materials": ["glass"]}],
        "spaces": [{"name": "Room 1 Room", "volume": 40.}, {"name": "Room", "volume": 50., "infiltration": {"type": "Blast", "flow": 0.02}}],
        "surfaces": [
            {"name": "w0", "construction": "brick1", "vertices": rect(180., 90., [0., 0., 5.], 4., 2.).concat(), "front_boundary": B::Out.json(), "back_boundary": B::Space(0).json()},
            {"name": "w1", "construction": "brick1", "vertices": rect(0., 90., [20., 20., 5.], 3., 2.).concat(), "front_boundary": B::Out.json(), "back_boundary": B::Space(1).json()},
            {"name": "w2", "construction": "brick1", "vertices": rect(0., 90., [40., 20., 5.], 3., 2.).concat(), "front_boundary": B::Space(0).json(), "back_boundary": B::Space(1).json()}],
        "fenestrations": [{"name": "f0", "category": "Window", "construction": "glass1", "vertices": rect(90., 90., [0., 40., 5.], 2., 1.).concat(), "front_boundary": B::Out.json(), "back_boundary": B::Space(0).json()},
            {"name": "f1", "category": "Opening", "construction": "none", "vertices": rect(90., 90., [0., 60., 5.], 2., 1.).concat(), "front_boundary": B::Space(1).json(), "back_boundary": B::Space(0).json()}],
        "hvacs": [{"type": "ElectricHeater", "name": "heater", "target_space": "Room 1 Room", "max_heating_power": 900., "heating_setpoint": 21.},
            {"type": "IdealHeaterCooler", "name": "ideal", "target_space": "Room", "max_heating_power": 700., "heating_setpoint": 18., "max_cooling_power": 800., "cooling_setpoint": 23.}],
        "luminaires": [{"name": "lamp", "target_space": "Room", "max_power": 60.}],
    });
    m["solar_options"] = json!({"n_solar_irradiance_points": 10, "solar_ambient_divitions": 30, "solar_sky_discretization": 1});
    if let Some(p) = path { m["solar_options"]["optical_data_path"] = json!(p) }
    m
}
pub fn model(v: &Value, outputs: &[Value]) -> Result<(Model, SimulationStateHeader), String> {
    let (mut m, h) = Model::from_json(&v.to_string())?;
    m.outputs = outputs.iter().map(|o| serde_json::from_value::<Output>(o.clone()).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    Ok((m, h))
}
/// hours since the first instant of the year, and back
pub const DAYS: [u32; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
pub fn date(mut h: f64) -> Date {
    h = h.rem_euclid(8760.);
    let (mut d, hour) = ((h / 24.).floor() as u32, h - (h / 24.).floor() * 24.);
    let mut m = 0;
    while d >= DAYS[m] { d -= DAYS[m]; m += 1; }
    Date { month: m as u8 + 1, day: d as u8 + 1, hour }
}
fn hours(d: Date) -> f64 { (DAYS[..d.month as usize - 1].iter().sum::<u32>() + d.day as u32 - 1) as f64 * 24. + d.hour }
/// one record per hour, with every quantity different at every hour
pub fn weather(from: f64, n: usize) -> Weather {
    let location = Location { latitude: -33f64.to_radians(), longitude: -70f64.to_radians(), timezone: -4, elevation: 500., ..Location::default() };
    let data = (0..n).map(|i| {
        let h = from + i as f64;
        let d = date(h);
        let x = (((hours(d) - 8.) / 24.).fract() * 6.28).sin();
        let sun = x.max(0.);
        CurrentWeather { date: d, global_horizontal_radiation: 700. * sun, direct_normal_radiation: 600. * sun, diffuse_horizontal_radiation: 150. * sun, horizontal_infrared_radiation_intensity: Some(300. + 20. * x), ..cw(12. + 9. * x, 2. + x) }
    }).collect();
    Weather { data, location }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctl { Void, People, Script }
pub const SCRIPT: &str = "let t = space(\"Room 1 Room\").dry_bulb_temperature;\nlet h = hvac(\"heater\");\nif t < 20.0 { h.power_consumption = 700.0; } else { h.power_consumption = 0; }\nlet l = luminaire(0);\nl.power_consumption = t;\n";
pub fn pos(h: &[E], e: E) -> usize { h.iter().position(|x| *x == e).unwrap_or(usize::MAX) }
fn control(c: Ctl, h: &[E], s: &mut SimulationState) {
    let t = |i: usize| pos(h, E::SpaceDryBulbTemperature(i));
    let p = |i: usize| pos(h, E::HeatingCoolingPowerConsumption(i));
    match c {
        Ctl::Void => {}
        Ctl::People => {
            s[p(0)] = if s[t(0)] < 21. { 900. } else { 0. };
            s[p(1)] = if s[t(1)] < 18. { 700. } else if s[t(1)] > 23. { -800. } else { 0. };
        }
        Ctl::Script => {
            s[p(0)] = if s[t(0)] < 20. { 700. } else { 0. };
            let l = pos(h, E::LuminairePowerConsumption(0));
            s[l] = s[t(0)];
        }
    }
}
/// the simulation, with the modules one by one; rows of (date, state)
pub fn own(v: &Value, mut w: Weather, n: usize, from: f64, steps: usize, c: Ctl) -> Result<(Vec<E>, Vec<(Date, Vec<f64>)>), String> {
    let (m, mut h) = model(v, &[])?;
    w.data.sort_by(|a, b| hours(a.date).partial_cmp(&hours(b.date)).unwrap());
    let mo = MetaOptions { latitude: w.location.latitude, longitude: w.location.longitude, standard_meridian: (w.location.timezone as f64 * 15.).to_radians(), elevation: w.location.elevation };
    let (th, ai) = (ThermalModel::new(&mo, (), &m, &mut h, n)?, AirFlowModel::new(&mo, (), &m, &mut h, n)?);
    let so = SolarModel::new(&mo, m.solar_options.clone().ok_or("no options")?, &m, &mut h, n)?;
    let mut st = h.take_values().ok_or("no values")?;
    let mut mem = th.allocate_memory(&st)?;
    let mut rows = vec![];
    for k in 1..=steps {
        let d = date(from + k as f64 / n as f64);
        control(c, &h.elements, &mut st);
        so.march(d, &w, &m, &mut st, &mut ())?;
        ai.march(d, &w, &m, &mut st, &mut ())?;
        th.march(d, &w, &m, &mut st, &mut mem)?;
        rows.push((d, st.to_vec()));
    }
    Ok((h.elements.clone(), rows))
}
/// how many steps fit: none reaches the last record, from which a tenth of an hour is taken away
fn steps(hours: f64, n: usize) -> usize { ((hours - 0.1) * n as f64 + 1e-6).floor() as usize }

/// takes `k` bytes at a time, is interrupted before each of them, and fails after `fail` bytes
pub struct Slow<'a> { pub k: usize, pub intr: bool, pub turn: bool, pub fail: Option<usize>, pub zero: bool, pub got: &'a mut Vec<u8> }
impl Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.turn = !self.turn;
        if self.intr && self.turn { return Err(std::io::ErrorKind::Interrupted.into()); }
        let mut n = b.len().min(self.k);
        if let Some(f) = self.fail {
            n = n.min(f - self.got.len());
            if n == 0 && !b.is_empty() { return if self.zero { Ok(0) } else { Err(std::io::ErrorKind::StorageFull.into()) }; }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn go<T: Write>(v: &Value, outputs: &[Value], o: &SimOptions, c: Ctl, out: T) -> Result<(), String> {
    let (m, mut h) = model(v, outputs)?;
    match c {
        Ctl::Void => run(&m, &mut h, o, out, VoidControl {}),
        Ctl::People => run(&m, &mut h, o, out, OccupantBehaviour::new(&m)?),
        Ctl::Script => run_rhai(m, &mut h, o, o.control_file.as_ref().unwrap(), out),
    }
}
const EPW: &str = "LOCATION,SANTIAGO,-,CHL,IWEC Data,855740,-33,-70,-4.0,500.0\nDESIGN CONDITIONS,0\nTYPICAL/EXTREME PERIODS,0\nGROUND TEMPERATURES,1,.5,,,,1,2,3,4,5,6,7,8,9,10,11,12\nHOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0\nCOMMENTS 1,\"IWEC, the file\"\nCOMMENTS 2, soil\nDATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31\n";
struct Env { sc: Scratch, v: Value, cells: std::sync::Mutex<usize> }
impl Env {
    fn new(tag: &str) -> Result<Self, String> {
        let sc = Scratch::new(tag);
        let v = house(Some(&sc.path("optics.json").to_string_lossy()));
        own(&v, weather(0., 5), 1, 0., 1, Ctl::Void)?; // writes the optics
        std::fs::write(sc.path("c.rhai"), SCRIPT).map_err(|e| e.to_string())?;
        Ok(Self { sc, v, cells: std::sync::Mutex::new(0) })
    }
    fn fresh(&self) -> usize { let mut c = self.cells.lock().unwrap(); *c += 1; *c }
    fn options(&self, w: &Weather, n: usize) -> Result<SimOptions, String> {
        let p = self.sc.path(&format!("w{}.sw", self.fresh()));
        std::fs::write(&p, serde_json::to_string(w).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        Ok(SimOptions { weather_file: Some(p.to_string_lossy().to_string()), control_file: Some(self.sc.path("c.rhai").to_string_lossy().to_string()), n, ..SimOptions::default() })
    }
}
fn parse(t: &str) -> (Vec<String>, Vec<(String, Vec<String>)>) {
    // names go between quotes, and this model has no commas in them
    let cols = |l: &str| l.split(',').map(|x| x.to_string()).collect::<Vec<_>>();
    let mut ls = t.split('\n');
    let head = cols(ls.next().unwrap_or(""));
    let mut rows: Vec<_> = ls.map(|l| { let mut c = cols(l); let d = c.remove(0); (d, c) }).collect();
    if rows.last().map(|(a, b)| a.is_empty() && b.is_empty()) == Some(true) { rows.pop(); } else { rows.push(("<no end of line>".into(), vec![])); }
    (head, rows)
}
/// midnight might be hour 24 of the day before, and minutes are rounded
fn same_date(t: &str, d: Date) -> bool {
    let f: Vec<Option<f64>> = t.split(|c| c == '/' || c == '-' || c == ':').map(|x| x.trim().parse().ok()).collect();
    let [Some(m), Some(day), Some(h), Some(min)] = f[..] else { return false };
    if !(1. ..=12.).contains(&m) || !(1. ..=31.).contains(&day) { return false }
    let x = hours(Date { month: m as u8, day: day as u8, hour: h + min / 60. }) - hours(d);
    (x.rem_euclid(8760.)).min((-x).rem_euclid(8760.)) < 0.51 / 60.
}
/// compares a report with the simulation; `asked` are positions in the state, or nothing for outputs that do not exist
fn judge(cx: &Ctx, key: &str, text: &str, names: &[Option<(String, usize)>], rows: &[(Date, Vec<f64>)], loose: usize) {
    let (head, got) = parse(text);
    let mut want = vec!["Date".to_string()];
    want.extend(names.iter().flatten().map(|x| x.0.clone()));
    if !cx.check(head == want, || ("header".into(), format!("{key}: {head:?}, expected {want:?}"))) { return }
    let count = got.len().abs_diff(rows.len()) <= loose;
    if !cx.check(count, || ("number of rows".into(), format!("{key}: {} rows, expected {}: first {:?} last {:?}", got.len(), rows.len(), got.first(), got.last()))) { return }
    for ((d, vals), (wd, st)) in got.iter().zip(rows) {
        cx.step();
        if !cx.check(same_date(d, *wd), || ("date".into(), format!("{key}: date {d}, expected {wd}"))) { return }
        let idx: Vec<usize> = names.iter().flatten().map(|x| x.1).collect();
        if !cx.check(vals.len() == idx.len(), || ("number of columns".into(), format!("{key}: {d}: {} values for {} columns", vals.len(), idx.len()))) { return }
        for (v, i) in vals.iter().zip(&idx) {
            let ok = v.parse::<f64>().map_or(false, |x| (x - st[*i]).abs() <= 0.002 + 1e-6 * st[*i].abs());
            if !cx.check(ok, || ("value".into(), format!("{key}: {d}: state {i} reported as {v}, is {}", st[*i]))) { return }
        }
    }
}
fn name_of(e: E) -> Value {
    let s = ["w0", "w1", "w2"]; let sp = ["Room 1 Room", "Room"]; let f = ["f0", "f1"]; let hv = ["heater", "ideal"];
    match e {
        E::FenestrationOpenFraction(i) => json!({"FenestrationOpenFraction": f[i]}),
        E::HeatingCoolingPowerConsumption(i) => json!({"HeatingCoolingPowerConsumption": hv[i]}),
        E::LuminairePowerConsumption(_) => json!({"LuminairePowerConsumption": "lamp"}),
        E::SpaceDryBulbTemperature(i) => json!({"SpaceDryBulbTemperature": sp[i]}),
        E::SpaceInfiltrationVolume(i) => json!({"SpaceInfiltrationVolume": sp[i]}),
        E::SpaceInfiltrationTemperature(i) => json!({"SpaceInfiltrationTemperature": sp[i]}),
        E::SurfaceFrontSolarIrradiance(i) => json!({"SurfaceFrontSolarIrradiance": s[i]}),
        E::SurfaceBackIRIrradiance(i) => json!({"SurfaceBackIRIrradiance": s[i]}),
        E::FenestrationFrontSolarIrradiance(i) => json!({"FenestrationFrontSolarIrradiance": f[i]}),
        _ => Value::Null,
    }
}
pub fn u01(cx: &Ctx) {
    let env = match Env::new("u01") { Ok(e) => e, Err(e) => return cx.fail("setup", &e) };
    let from = 24. * 40. + 7.;
    // what can be asked for: present, present more than once, and absent
    let kinds = [E::SpaceDryBulbTemperature(0), E::SpaceDryBulbTemperature(1), E::HeatingCoolingPowerConsumption(1), E::SurfaceFrontSolarIrradiance(1), E::FenestrationFrontSolarIrradiance(0), E::SpaceInfiltrationVolume(1)];
    let absent = [json!({"SpaceDryBulbTemperature": "nowhere"}), json!({"SpaceVentilationVolume": "Room 1 Room"})];
    let nk = kinds.len() + absent.len();
    let depth = cx.pick(3, 4);
    let mut asks: Vec<Vec<usize>> = vec![vec![]];
    let mut last = asks.clone();
    for _ in 0..depth { last = last.iter().flat_map(|a| (0..nk).map(move |k| { let mut b = a.clone(); b.push(k); b })).collect(); asks.extend(last.clone()); }
    // and long ones, in and out of order
    for len in [5usize, 7, 12, 40] { for step in [1usize, 3, 5, 7] { asks.push((0..len).map(|i| i * step % nk).collect()) } }
    let ctls = [Ctl::Void, Ctl::People, Ctl::Script];
    let w = weather(from, 7);
    cx.section("outputs", &format!("every sequence of up to {depth} outputs out of 6 that exist and 2 that do not (repeated or not), and 16 of up to 40 outputs, with each controller: header, dates and values"), || {
        let wanted: Vec<_> = ctls.iter().map(|c| own(&env.v, w.clone(), 2, from, steps(6., 2), *c)).collect();
        cx.par_named("outputs", asks.len() * 3, |k| {
            let (c, ask) = (ctls[k % 3], &asks[k / 3]);
            let (el, rows) = match &wanted[k % 3] { Ok(v) => v, Err(e) => return cx.fail("setup", e) };
            cx.state();
            let outs: Vec<Value> = ask.iter().map(|i| if *i < kinds.len() { name_of(kinds[*i]) } else { absent[*i - kinds.len()].clone() }).collect();
            let key = format!("{c:?} {outs:?}");
            let Some(Ok(o)) = cx.no_panic(|| key.clone(), || env.options(&w, 2)) else { return };
            let mut out = vec![];
            let r = cx.no_panic(|| key.clone(), || go(&env.v, &outs, &o, c, &mut out));
            let Some(r) = r else { return };
            if !cx.check(r.is_ok(), || ("refused".into(), format!("{key}: {r:?}"))) { return }
            let text = String::from_utf8_lossy(&out);
            let mut names: Vec<_> = ask.iter().map(|i| (*i < kinds.len()).then(|| (name_of(kinds[*i]).to_string(), pos(el, kinds[*i])))).collect();
            if names.iter().all(|x| x.is_none()) {
                // everything: the names of the ones that are known, in their places
                let head = parse(&text).0;
                names = el.iter().enumerate().map(|(i, e)| { let n = name_of(*e); let is = head.get(i + 1).cloned().unwrap_or_default(); Some((if n.is_null() { is } else { n.to_string() }, i)) }).collect();
            }
            judge(cx, &key, &text, &names, rows, 0);
        });
    });
    let starts: Vec<f64> = cx.pick(vec![0., 7., 1410.5, 8753.], vec![0., 0.5, 7., 1410.5, 1415., 4000.25, 8736., 8753., 8757., 8759.]);
    let lens: Vec<usize> = cx.pick(vec![2, 3, 9], vec![2, 3, 4, 9, 30]);
    let ns: Vec<usize> = cx.pick(vec![1, 2, 3, 4, 5, 6, 7, 10, 12, 59, 60, 61, 1000], (1..=62).chain([100, 100000]).collect());
    cx.section("periods", &format!("weather that starts at {} instants of the year (some before new year, some off the hour) and lasts {:?} records, in and out of order, with {} numbers of steps per hour", starts.len(), lens, ns.len()), || {
        cx.par_named("periods", starts.len() * lens.len() * ns.len(), |k| {
            let (s, l, n) = (starts[k % starts.len()], lens[k / starts.len() % lens.len()], ns[k / starts.len() / lens.len()]);
            let c = ctls[k % 2 * 2];
            let real = n.min(60);
            let mut w = weather(s, l);
            if l > 3 { w.data.swap(1, l - 2); }
            let key = format!("start {s} records {l} n {n} {c:?}");
            cx.state();
            let outs = [name_of(kinds[1]), name_of(kinds[2])];
            let (el, rows) = match own(&env.v, w.clone(), real, s, steps((l - 1) as f64, real), c) { Ok(v) => v, Err(e) => return cx.fail("setup", &e) };
            let mut out = vec![];
            let r = cx.no_panic(|| key.clone(), || env.options(&w, n).and_then(|o| go(&env.v, &outs, &o, c, &mut out)));
            let Some(r) = r else { return };
            if !cx.check(r.is_ok(), || ("refused".into(), format!("{key}: {r:?}"))) { return }
            let names: Vec<_> = [1, 2].iter().map(|i| Some((name_of(kinds[*i]).to_string(), pos(&el, kinds[*i])))).collect();
            judge(cx, &key, &String::from_utf8_lossy(&out), &names, &rows, if (s + l as f64 - 1.) % 24. == 0. { real / 10 + 1 } else { (real % 10 == 0) as usize }); // the last step is a matter of rounding in these
        });
    });
    cx.section("epw", "the same hours of weather as EPW and as JSON, from every hour of two days and for 2 to 8 records: the same report", || {
        cx.par_named("epw", 48 * 4, |k| {
            let (s, l) = (24. * 57. + (k % 48) as f64, [2, 3, 5, 8][k / 48]);
            let w = weather(s, l);
            let key = format!("epw start {s} records {l}");
            cx.state();
            let text = EPW.to_string() + w.data.iter().map(|c| {
                let h = hours(c.date) - 1.;
                let d = date(h);
                format!("1999,{},{},{},60,?,{},{},50,101325,0,0,{},{},{},{},0,0,0,0,{},{},0,0,0,0,0,0,0,0,0,0,0,0,0\n", d.month, d.day, d.hour as usize + 1, c.dry_bulb_temperature, c.dew_point_temperature, c.horizontal_infrared_radiation_intensity.unwrap(), c.global_horizontal_radiation, c.direct_normal_radiation, c.diffuse_horizontal_radiation, c.wind_direction.to_degrees(), c.wind_speed)
            }).collect::<String>().as_str();
            let p = env.sc.path(&format!("e{k}.epw"));
            let _ = std::fs::write(&p, text);
            let o = SimOptions { weather_file: Some(p.to_string_lossy().to_string()), n: 2, ..SimOptions::default() };
            let (el, rows) = match own(&env.v, w, 2, s, steps((l - 1) as f64, 2), Ctl::Void) { Ok(v) => v, Err(e) => return cx.fail("setup", &e) };
            let mut out = vec![];
            let Some(r) = cx.no_panic(|| key.clone(), || go(&env.v, &[name_of(kinds[1]), name_of(kinds[3])], &o, Ctl::Void, &mut out)) else { return };
            if !cx.check(r.is_ok(), || ("refused".into(), format!("{key}: {r:?}"))) { return }
            let names: Vec<_> = [1, 3].iter().map(|i| Some((name_of(kinds[*i]).to_string(), pos(&el, kinds[*i])))).collect();
            // hour 24 is a moment before midnight
            judge(cx, &key, &String::from_utf8_lossy(&out), &names, &rows, ((s + l as f64 - 1.) % 24. == 0. || s % 24. == 0.) as usize);
        });
    });
    cx.section("writers", "outputs that take 1 to 12 bytes at a time, interrupted or not, and that fail or take nothing any more after every byte: everything is written, or what was is reported as an error", || {
        let outs = [name_of(kinds[0]), name_of(kinds[2])];
        let w = weather(from, 4);
        for c in ctls {
            let mut whole = vec![];
            let Ok(o) = env.options(&w, 1) else { return };
            if let Err(e) = go(&env.v, &outs, &o, c, &mut whole) { return cx.fail("setup", &e) }
            for k in 1..13 { for intr in [false, true] {
                cx.state();
                let mut got = vec![];
                let key = format!("{c:?} {k} bytes at a time, interrupted {intr}");
                let r = cx.no_panic(|| key.clone(), || go(&env.v, &outs, &o, c, Slow { k, intr, turn: false, fail: None, zero: false, got: &mut got }));
                if let Some(r) = r { cx.check(r.is_ok() && got == whole, || ("short writes".into(), format!("{key}: {r:?}, {} of {} bytes", got.len(), whole.len()))); }
            } }
            let step = cx.pick(3, 1);
            cx.par_named("writers", (whole.len() + step - 1) / step * 2, |k| {
                let (f, zero) = (k / 2 * step, k % 2 == 1);
                cx.state();
                let mut got = vec![];
                let key = format!("{c:?} fails after {f} bytes (takes nothing {zero})");
                let r = cx.no_panic(|| key.clone(), || go(&env.v, &outs, &o, c, Slow { k: 1000, intr: false, turn: false, fail: Some(f), zero, got: &mut got }));
                if let Some(r) = r { cx.check(r.is_err() && whole.starts_with(&got), || ("failed writes".into(), format!("{key}: {r:?}, {} of {} bytes", got.len(), whole.len()))); }
            });
        }
    });
    cx.section("refused", "options without weather, with files that do not exist, of other kinds, cut at every 50 bytes or without data, no steps per hour, and scripts that are missing, wrong, or fail: an error and no panic", || {
        let w = weather(from, 4);
        let Ok(o) = env.options(&w, 1) else { return };
        let text = std::fs::read_to_string(o.weather_file.as_ref().unwrap()).unwrap_or_default();
        let file = |n: &str, t: &str| { let p = env.sc.path(n); let _ = std::fs::write(&p, t); Some(p.to_string_lossy().to_string()) };
        let with = |wf: Option<String>, cf: Option<String>, n: usize| SimOptions { weather_file: wf, control_file: cf, n, ..SimOptions::default() };
        let ok = (o.weather_file.clone(), o.control_file.clone());
        let mut cases: Vec<(String, SimOptions, Ctl)> = vec![];
        for c in ctls {
            let cf = ok.1.clone();
            cases.push(("no weather".into(), with(None, cf.clone(), 1), c));
            cases.push(("no steps".into(), with(ok.0.clone(), cf.clone(), 0), c));
            for n in ["missing.sw", "missing.epw", "missing.txt", "c.rhai", "", ".", ".sw", ".epw"] { cases.push((format!("weather {n}"), with(Some(env.sc.path(n).to_string_lossy().to_string()), cf.clone(), 1), c)); }
            for (n, t) in [("empty.sw", ""), ("empty.epw", ""), ("json.sw", "{}"), ("nodata.sw", &serde_json::to_string(&Weather { data: vec![], ..weather(0., 1) }).unwrap()), ("csv.epw", "a,b,c\n1,2,3\n")] { cases.push((format!("weather {n}"), with(file(n, t), cf.clone(), 1), c)); }
            for i in (1..text.len()).step_by(50) { cases.push((format!("weather cut at {i}"), with(file(&format!("cut{i}.sw"), &text[..i]), cf.clone(), 1), c)); }
        }
        for (i, t) in ["let x = ;", "let o = space(\"nowhere\"); o.dry_bulb_temperature = 1.0;", "let o = space(7); o.dry_bulb_temperature = 1.0;", "let o = space(-1); o.dry_bulb_temperature = 1.0;", "let o = luminaire(1); o.power_consumption = 1.0;", "1", "throw \"no\";", "let o = space(0); o.colour = 1;", "let o = space(0); o.brightness = 1.0;", "let a = space(0).loudness;"].iter().enumerate() { cases.push((format!("script {t}"), with(ok.0.clone(), file(&format!("{i}.rhai"), t), 1), Ctl::Script)); }
        cases.push(("no script".into(), with(ok.0.clone(), Some(env.sc.path("missing.rhai").to_string_lossy().to_string()), 1), Ctl::Script));
        for (key, o, c) in cases {
            cx.state();
            let mut out = vec![];
            if let Some(r) = cx.no_panic(|| format!("{key} {c:?}"), || go(&env.v, &[], &o, c, &mut out)) { cx.check(r.is_err(), || ("accepted".into(), format!("{key} {c:?} accepted, wrote {} bytes", out.len()))); }
        }
    });
}

// ---------------------------------------------------------------------------------------------------- U02
#[derive(Clone, Copy, Debug)]
struct Hv { ideal: bool, target: Option<usize>, heat: (Option<f64>, Option<f64>), cool: (Option<f64>, Option<f64>) }
fn hv_json(i: usize, h: &Hv) -> Value {
    let mut v = json!({"type": if h.ideal { "IdealHeaterCooler" } else { "ElectricHeater" }, "name": format!("hvac{i}")});
    if let Some(t) = h.target { v["target_space"] = json!(mcc::room(t)) }
    let mut set = |k: &str, x: Option<f64>| if let Some(x) = x { v[k] = json!(x) };
    set("max_heating_power", h.heat.0); set("heating_setpoint", h.heat.1);
    if h.ideal { set("max_cooling_power", h.cool.0); set("cooling_setpoint", h.cool.1); }
    v
}
fn thermostat(h: &Hv, t: impl Fn(usize) -> f64, old: f64) -> f64 {
    let Some(s) = h.target else { return old };
    let t = t(s);
    let mut r = None;
    if let (Some(p), Some(sp)) = h.heat { r = Some(if t < sp { p } else { 0. }) }
    if let (Some(p), Some(sp), true) = (h.cool.0, h.cool.1, h.ideal) { if t > sp { r = Some(-p) } else if r.is_none() { r = Some(0.) } }
    r.unwrap_or(old)
}
pub fn u02(cx: &Ctx) {
    let heats: Vec<(Option<f64>, Option<f64>)> = vec![(None, None), (Some(500.), None), (None, Some(20.)), (Some(500.), Some(20.)), (Some(300.), Some(25.))];
    let cools: Vec<(Option<f64>, Option<f64>)> = vec![(None, None), (Some(400.), None), (None, Some(24.)), (Some(400.), Some(24.)), (Some(250.), Some(20.))];
    let mut all = vec![];
    for target in [Some(0), Some(1)] { for heat in &heats {
        all.push(Hv { ideal: false, target, heat: *heat, cool: (None, None) });
        for cool in &cools { all.push(Hv { ideal: true, target, heat: *heat, cool: *cool }); }
    } }
    let temps: Vec<f64> = cx.pick(vec![-10., 19.999, 20., 20.001, 23.999, 24., 24.5, 25., 40.], vec![-10., 0., 19., 19.999, 20., 20.001, 22., 23.999, 24., 24.001, 24.5, 24.999, 25., 25.001, 40.]);
    let olds = [0., 123., -55.];
    let run1 = |hs: &[Hv], temps: &[(f64, f64)], key: &str| {
        let m = json!({"spaces": [{"name": "Room 1 Room", "volume": 40.}, {"name": "Room", "volume": 50.}], "hvacs": hs.iter().enumerate().map(|(i, h)| hv_json(i, h)).collect::<Vec<_>>(), "luminaires": [{"name": "lamp", "target_space": "Room 1 Room"}],
            "solar_options": {"n_solar_irradiance_points": 1, "solar_ambient_divitions": 1, "solar_sky_discretization": 1}});
        let r = cx.no_panic(|| key.to_string(), || -> Result<(), String> {
            let (m, mut h) = model(&m, &[])?;
            let p = MultiphysicsModel::new(&MetaOptions::default(), (), &m, &mut h, 1)?;
            let base = h.take_values().ok_or("no values")?;
            let c = OccupantBehaviour::new(&m)?;
            let el = &h.elements;
            for (t0, t1) in temps { for old in olds {
                let mut st = base.clone();
                for (i, x) in st.iter_mut().enumerate() { *x = 1000. + i as f64 }
                st[pos(el, E::SpaceDryBulbTemperature(0))] = *t0;
                st[pos(el, E::SpaceDryBulbTemperature(1))] = *t1;
                for i in 0..hs.len() { st[pos(el, E::HeatingCoolingPowerConsumption(i))] = old + i as f64 }
                let mut want = st.clone();
                for (i, h) in hs.iter().enumerate() { want[pos(el, E::HeatingCoolingPowerConsumption(i))] = thermostat(h, |s| if s == 0 { *t0 } else { *t1 }, old + i as f64) }
                cx.state(); cx.step();
                c.control(&m, &p, &mut st)?;
                cx.check(st.iter().zip(want.iter()).all(|(a, b)| a == b), || ("thermostat".into(), format!("{key} at {t0} {t1} from {old}: {:?}, expected {:?}", st.to_vec(), want.to_vec())));
            } }
            Ok(())
        });
        if let Some(Err(e)) = r { cx.fail("refused", &format!("{key}: {e}")) }
    };
    cx.section("one", &format!("every kind of HVAC with every combination of target and missing or given powers and setpoints (apart, equal and overlapping), at {} x 2 temperatures and 3 previous consumptions", temps.len()), || {
        let ts: Vec<(f64, f64)> = temps.iter().flat_map(|t| [(*t, 22.), (22., *t)]).collect();
        cx.par_named("one", all.len(), |k| run1(&[all[k]], &ts, &format!("{:?}", all[k])));
    });
    cx.section("two", "every pair of HVACs, in the same space or in different ones: each minds its own space and consumption", || {
        let ts: Vec<(f64, f64)> = cx.pick(vec![(15., 30.), (30., 15.), (22., 19.)], vec![(15., 30.), (30., 15.), (22., 19.), (20., 24.), (15., 15.), (30., 30.), (24.5, 22.)]);
        cx.par_named("two", all.len() * all.len(), |k| { let (a, b) = (all[k % all.len()], all[k / all.len()]); run1(&[a, b], &ts, &format!("{a:?} {b:?}")) });
    });
}

// ---------------------------------------------------------------------------------------------------- U04
pub fn u04(cx: &Ctx) {
    // a house with each part left out
    let sc = Scratch::new("u04");
    let ns = cx.pick(vec![1, 4], vec![1, 2, 3, 4, 6, 12]);
    let parts = ["surfaces", "fenestrations", "hvacs", "luminaires", "infiltration", "solar_options"];
    cx.section("modules", &format!("a house with every subset of {parts:?}, through a day of weather with {ns:?} steps per hour and a state that is set by hand at every step: the same as solar, air and heat in that order"), || {
        cx.par_named("modules", 64 * ns.len(), |k| {
            let (mask, n) = (k % 64, ns[k / 64]);
            let key = format!("without {:?} n {n}", parts.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1).collect::<Vec<_>>());
            let default_options = mask >> 5 & 1 == 1;
            // without options the optics are random, and there is nothing to compare if there is something to be calculated
            if default_options && mask & 3 != 3 { return }
            let path = sc.path(&format!("o{k}.json")).to_string_lossy().to_string();
            let mut v = house(Some(&path));
            for (i, p) in parts.iter().enumerate() { if mask >> i & 1 == 1 && i < 4 { v[*p] = json!([]) } }
            if mask >> 4 & 1 == 1 { v["spaces"][1].as_object_mut().unwrap().remove("infiltration"); }
            cx.state();
            let r = cx.no_panic(|| key.clone(), || -> Result<(), String> {
                let w = weather(24. * 200. + 5., 24);
                let mo = MetaOptions { latitude: -0.5, longitude: -1.2, standard_meridian: -1.05, elevation: 100. };
                let (m1, mut h1) = model(&v, &[])?;
                let opt = m1.solar_options.clone().ok_or("no options")?;
                let (th, ai) = (ThermalModel::new(&mo, (), &m1, &mut h1, n)?, AirFlowModel::new(&mo, (), &m1, &mut h1, n)?);
                let so = SolarModel::new(&mo, opt, &m1, &mut h1, n)?;
                if default_options { v.as_object_mut().unwrap().remove("solar_options"); }
                let (m2, mut h2) = model(&v, &[])?;
                let mp = MultiphysicsModel::new(&mo, (), &m2, &mut h2, n)?;
                cx.check(mp.dt_subdivisions == n && (mp.dt - 3600. / n as f64).abs() < 1e-9, || ("time step".into(), format!("{key}: {} of {} s", mp.dt_subdivisions, mp.dt)));
                // the same elements, whatever their order
                let map: Vec<usize> = h1.elements.iter().map(|e| pos(&h2.elements, *e)).collect();
                if !cx.check(h1.elements.len() == h2.elements.len() && map.iter().all(|x| *x < h2.elements.len()), || ("state".into(), format!("{key}: {:?} and {:?}", h1.elements, h2.elements))) { return Ok(()) }
                let (mut s1, mut s2) = (h1.take_values().ok_or("no values")?, h2.take_values().ok_or("no values")?);
                let (mut mem1, mut mem2) = (th.allocate_memory(&s1)?, mp.allocate_memory(&s2)?);
                let same = |s1: &SimulationState, s2: &SimulationState| map.iter().enumerate().find(|(i, j)| !close(s1[*i], s2[**j], 1e-9)).map(|(i, j)| format!("{:?}: {} and {}", h1.elements[i], s2[*j], s1[i]));
                for step in 0..cx.pick(8, 23) * n {
                    let d = date(24. * 200. + 5. + step as f64 / n as f64);
                    // somebody switches things on and off
                    for (i, e) in h1.elements.iter().enumerate() {
                        let x = match e { E::HeatingCoolingPowerConsumption(q) => 200. * ((step + q) % 3) as f64, E::LuminairePowerConsumption(_) => 10. * (step % 4) as f64, _ => continue };
                        s1[i] = x; s2[map[i]] = x;
                    }
                    cx.step();
                    so.march(d, &w, &m1, &mut s1, &mut ())?;
                    ai.march(d, &w, &m1, &mut s1, &mut ())?;
                    th.march(d, &w, &m1, &mut s1, &mut mem1)?;
                    mp.march(d, &w, &m2, &mut s2, &mut mem2)?;
                    let diff = same(&s1, &s2);
                    if !cx.check(diff.is_none(), || ("march".into(), format!("{key} step {step}: {diff:?}"))) { break }
                }
                Ok(())
            });
            if let Some(Err(e)) = r { cx.fail("refused", &format!("{key}: {e}")) }
        });
    });
}
