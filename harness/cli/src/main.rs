//! U05: the command line program
use mcc::*;
use model::Model;
use serde_json::{json, Value};
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::void_control::VoidControl;
use simple::OccupantBehaviour;
use std::path::{Path, PathBuf};
use std::process::Command;
mod pictures;

fn house(optics: &Path) -> Value {
    let wall = |n: &str, x: f64, s: &str| json!({"name": n, "construction": "brick1", "vertices": [x, 0., 0., x + 3., 0., 0., x + 3., 0., 2., x, 0., 2.], "front_boundary": {"type": "Outdoor"}, "back_boundary": {"type": "Space", "space": s}});
    json!({
        "substances": [{"name": "brick", "type": "Normal", "thermal_conductivity": 0.8, "density": 1600., "specific_heat_capacity": 800., "front_thermal_absorbtance": 0.9, "back_thermal_absorbtance": 0.9, "front_solar_absorbtance": 0.7, "back_solar_absorbtance": 0.7}],
        "materials": [{"name": "brick", "substance": "brick", "thickness": 0.2}],
        "constructions": [{"name": "brick1", "materials": ["brick"]}],
        "spaces": [{"name": "Room 1 Room", "volume": 40.}, {"name": "Room", "volume": 50.}],
        "surfaces": [wall("w0", 0., "Room 1 Room"), wall("w1", 9., "Room")],
        "hvacs": [{"type": "ElectricHeater", "name": "heater", "target_space": "Room 1 Room", "max_heating_power": 900., "heating_setpoint": 28.}],
        "luminaires": [{"name": "lamp", "target_space": "Room", "max_power": 60.}],
        "outputs": [{"SpaceDryBulbTemperature": "Room 1 Room"}, {"SpaceDryBulbTemperature": "Room"}, {"HeatingCoolingPowerConsumption": "heater"}, {"LuminairePowerConsumption": "lamp"}],
        "solar_options": {"n_solar_irradiance_points": 5, "solar_ambient_divitions": 10, "solar_sky_discretization": 1, "optical_data_path": optics.to_string_lossy()},
    })
}
fn weather() -> weather::Weather {
    let location = weather::Location { latitude: -0.58, longitude: -1.22, timezone: -4, elevation: 500., ..Default::default() };
    let data = (0..5).map(|i| weather::CurrentWeather { date: calendar::Date { month: 2, day: 3, hour: 7. + i as f64 }, dry_bulb_temperature: 8. + i as f64, dew_point_temperature: 3., global_horizontal_radiation: 100. * i as f64, direct_normal_radiation: 90. * i as f64, diffuse_horizontal_radiation: 30. * i as f64, wind_speed: 2., wind_direction: 1., horizontal_infrared_radiation_intensity: Some(310.), opaque_sky_cover: 0., relative_humidity: 0.5, pressure: 101325. }).collect();
    weather::Weather { data, location }
}
fn read(p: &Path) -> Result<Model, String> {
    let n = p.to_string_lossy().to_string();
    Ok(if n.ends_with(".json") { Model::from_json_file(n)?.0 } else { Model::from_file(n)?.0 })
}
fn listing(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}
const NONE: &str = "";
fn u05(cx: &Ctx) {
    let exe = match std::env::current_exe() { Ok(p) => p.with_file_name("simple_cli"), Err(e) => return cx.fail("setup", &e.to_string()) };
    let sc = Scratch::new("u05");
    let base = sc.path("base");
    let inputs = ["house.spl", "house.json", "missing.spl", "missing.json", "cut.spl", "cut.json", "house.txt", "house", "empty.json"];
    let good = |i: &str| i == "house.spl" || i == "house.json";
    let prepared = (|| -> Result<String, String> {
        let e = |e: std::io::Error| e.to_string();
        std::fs::create_dir_all(&base).map_err(e)?;
        let (m, _) = Model::from_json(&house(&sc.path("optics.json")).to_string())?;
        let f = |n: &str| base.join(n).to_string_lossy().to_string();
        m.print_to_file(&f("house.spl"))?;
        m.print_to_json_file(&f("house.json"))?;
        let (spl, js) = (std::fs::read(f("house.spl")).map_err(e)?, std::fs::read(f("house.json")).map_err(e)?);
        std::fs::write(f("house.txt"), &spl).map_err(e)?;
        std::fs::write(f("house"), &spl).map_err(e)?;
        std::fs::write(f("cut.json"), &js[..js.len() / 2]).map_err(e)?;
        let end = spl.iter().rposition(|c| *c == b'}').ok_or("no end")?;
        std::fs::write(f("cut.spl"), &spl[..end]).map_err(e)?;
        std::fs::write(f("empty.json"), "").map_err(e)?;
        std::fs::write(f("w.sw"), serde_json::to_string(&weather()).map_err(|e| e.to_string())?).map_err(e)?;
        std::fs::write(f("w.txt"), "no").map_err(e)?;
        std::fs::write(f("c.rhai"), "let l = luminaire(0); l.power_consumption = space(1).dry_bulb_temperature;").map_err(e)?;
        std::fs::write(f("bad.rhai"), "let l = luminaire(7);").map_err(e)?;
        Ok(m.to_string())
    })();
    let text = match prepared { Ok(t) => t, Err(e) => return cx.fail("setup", &e) };
    // what the library reports
    let report = |c: &str, n: usize| -> Result<Vec<u8>, String> {
        let f = |n: &str| base.join(n).to_string_lossy().to_string();
        let (m, mut h) = Model::from_json_file(f("house.json"))?;
        let o = SimOptions { weather_file: Some(f("w.sw")), control_file: Some(f("c.rhai")), n, ..Default::default() };
        let mut out = vec![];
        match c { NONE => run(&m, &mut h, &o, &mut out, VoidControl {})?, "people" => run(&m, &mut h, &o, &mut out, OccupantBehaviour::new(&m)?)?, _ => run_rhai(m, &mut h, &o, &f("c.rhai"), &mut out)? }
        Ok(out)
    };
    let controls = [NONE, "people", "c.rhai", "bad.rhai", "missing.rhai"];
    let weathers = ["w.sw", NONE, "missing.sw", "w.txt"];
    let outputs = [NONE, "out.csv", "nodir/out.csv"];
    let ns: Vec<&str> = cx.pick(vec![NONE, "2", "0", "x"], vec![NONE, "1", "2", "7", "60", "61", "0", "-1", "x", "1.5"]);
    let mut reports = std::collections::BTreeMap::new();
    for c in &controls[..3] { for n in &ns { let k = if *n == NONE { 1 } else if let Ok(k) = n.parse::<usize>() { k } else { continue }; if k > 0 { match report(c, k) { Ok(v) => { reports.insert((*c, k), v); } Err(e) => return cx.fail("setup", &e) } } } }
    let distinct: std::collections::BTreeSet<_> = controls[..3].iter().map(|c| &reports[&(*c, 1)]).collect();
    if !cx.check(distinct.len() == 3, || ("setup".into(), "the controllers do not differ".into())) { return }
    /// exit code, standard output and error, and the files that were there before and changed, or appeared
    struct Done { code: Option<i32>, out: Vec<u8>, err: String, dir: PathBuf, new: Vec<String> }
    let go = |k: usize, args: &[(&str, &str)]| -> Result<Done, String> {
        let dir = sc.path(&format!("d{k}"));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let before = listing(&base);
        for f in &before { std::fs::copy(base.join(f), dir.join(f)).map_err(|e| e.to_string())?; }
        let mut c = Command::new(&exe);
        c.current_dir(&dir).stdin(std::process::Stdio::null()).env("RUST_BACKTRACE", "0");
        for (a, b) in args { if *b != NONE { c.arg(a); if *b != "+" { c.arg(b); } } }
        let o = c.output().map_err(|e| e.to_string())?;
        let new = listing(&dir).into_iter().filter(|f| !before.contains(f) || std::fs::read(dir.join(f)).ok() != std::fs::read(base.join(f)).ok()).collect();
        Ok(Done { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).to_string(), dir, new })
    };
    let failed = |d: &Done| d.code.map_or(false, |c| c != 0) && !d.err.trim().is_empty() && !d.err.contains("panicked at");
    let long = |i: usize| if i % 2 == 0 { ["-i", "-w", "-c", "-o", "-n", "-t"] } else { ["--input-file", "--weather-file", "--control-file", "--output", "--n", "--translate"] };
    let (ni, nc, nw, no, nn) = (inputs.len(), controls.len(), weathers.len(), outputs.len(), ns.len());
    cx.section("simulate", &format!("{ni} input files x {nw} weather files x {nc} controls x {no} outputs x {nn} steps per hour: the report of the library, or an error and no report"), || {
        cx.par_named("simulate", ni * nc * nw * no * nn, |k| {
            let (i, w, c, o, n) = (inputs[k % ni], weathers[k / ni % nw], controls[k / ni / nw % nc], outputs[k / ni / nw / nc % no], ns[k / ni / nw / nc / no]);
            let a = long(k);
            let args = [(a[0], i), (a[1], w), (a[2], c), (a[3], o), (a[4], n)];
            let key = format!("{args:?}");
            cx.state();
            let d = match go(k, &args) { Ok(d) => d, Err(e) => return cx.fail("setup", &e) };
            cx.step();
            let steps = if n == NONE { Some(1) } else { n.parse::<usize>().ok().filter(|n| *n > 0) };
            let fine = good(i) && w == "w.sw" && controls[..3].contains(&c) && o != "nodir/out.csv";
            if let (true, Some(s)) = (fine, steps) {
                let want = &reports[&(c, s)];
                let got = if o == NONE { d.out.clone() } else { std::fs::read(d.dir.join(o)).unwrap_or_default() };
                let others: Vec<&String> = d.new.iter().filter(|f| f.as_str() != o).collect();
                cx.check(d.code == Some(0) && others.is_empty() && (o == NONE || d.out.is_empty()) && got == *want, || ("report".into(), format!("{key}: {:?} {:?} new {:?}, {} bytes (expected {})", d.code, d.err.lines().last(), d.new, got.len(), want.len())));
            } else {
                // the report might be begun
                let others: Vec<&String> = d.new.iter().filter(|f| f.as_str() != o).collect();
                let rows = std::fs::read(d.dir.join(o)).unwrap_or_default().iter().chain(&d.out).filter(|c| **c == b'\n').count();
                cx.check(failed(&d) && others.is_empty() && rows <= 1, || ("error".into(), format!("{key}: {:?} {:?} new {:?}, {rows} rows", d.code, d.err, d.new)));
            }
            let _ = std::fs::remove_dir_all(&d.dir);
        });
    });
    let targets = ["out.json", "out.spl", "out.txt", "out", "nodir/out.json", "house.json", "house.spl", "w.sw"];
    let nt = targets.len();
    cx.section("translate", &format!("{ni} input files x {nt} targets x check x weather x output: the same model in the other format, nothing simulated and no other file touched, or an error that touches nothing"), || {
        cx.par_named("translate", ni * nt * 8, |k| {
            let (i, t, check, w, o) = (inputs[k % ni], targets[k / ni % nt], k / ni / nt & 1 == 1, k / ni / nt & 2 == 2, k / ni / nt & 4 == 4);
            let a = long(k);
            let args = [(a[0], i), (a[5], t), ("--check", if check { "+" } else { NONE }), (a[1], if w { "w.sw" } else { NONE }), (a[3], if o { "out.csv" } else { NONE })];
            let key = format!("{args:?}");
            cx.state();
            let d = match go(1_000_000 + k, &args) { Ok(d) => d, Err(e) => return cx.fail("setup", &e) };
            cx.step();
            let fine = good(i) && !t.starts_with("nodir") && (t.ends_with(".json") || t.ends_with(".spl"));
            if fine {
                let m = read(&d.dir.join(t)).map(|m| m.to_string());
                let others: Vec<&String> = d.new.iter().filter(|f| f.as_str() != t).collect();
                cx.check(d.code == Some(0) && d.out.is_empty() && others.is_empty() && m.as_ref() == Ok(&text), || ("translation".into(), format!("{key}: {:?} {:?} new {:?} {:?}", d.code, d.err, d.new, m.map(|m| m.len()))));
            } else {
                cx.check(failed(&d) && d.out.is_empty() && d.new.is_empty(), || ("translation error".into(), format!("{key}: {:?} {:?} new {:?}", d.code, d.err, d.new)));
            }
            let _ = std::fs::remove_dir_all(&d.dir);
        });
    });
    cx.section("check", &format!("{ni} input files checked, with every combination of weather, control and output: says whether the model can be read, and simulates and writes nothing"), || {
        cx.par_named("check", ni * nw * nc * no, |k| {
            let (i, w, c, o) = (inputs[k % ni], weathers[k / ni % nw], controls[k / ni / nw % nc], outputs[k / ni / nw / nc]);
            let args = [("--check", "+"), ("-i", i), ("-w", w), ("-c", c), ("-o", o)];
            let key = format!("{args:?}");
            cx.state();
            let d = match go(2_000_000 + k, &args) { Ok(d) => d, Err(e) => return cx.fail("setup", &e) };
            cx.step();
            cx.check(d.new.is_empty() && d.out.is_empty() && if good(i) { d.code == Some(0) } else { failed(&d) }, || ("check".into(), format!("{key}: {:?} {:?} new {:?}", d.code, d.err, d.new)));
            let _ = std::fs::remove_dir_all(&d.dir);
        });
    });
}
fn main() { mcc::main_with(&[("U05", u05), ("U06", pictures::u06)]) }
