//! U03: what control scripts can see and do
use crate::light::{rect, B};
use crate::run::pos;
use mcc::*;
use model::{Model, SimulationState, SimulationStateElement as E, SimulationStateHeader};
use serde_json::{json, Value};
use simple::rhai_script_controller::RhaiControlScript;
use std::sync::Arc;

type Prop = (&'static str, &'static str, fn(usize) -> E);
/// kind, property and what it is
const PROPS: [Prop; 29] = [
    ("space", "dry_bulb_temperature", E::SpaceDryBulbTemperature), ("space", "infiltration_volume", E::SpaceInfiltrationVolume), ("space", "infiltration_temperature", E::SpaceInfiltrationTemperature),
    ("space", "ventilation_volume", E::SpaceVentilationVolume), ("space", "ventilation_temperature", E::SpaceVentilationTemperature),
    ("surface", "front_temperature", |i| E::SurfaceNodeTemperature(i, 0)), ("surface", "back_temperature", |i| E::SurfaceNodeTemperature(i, 4)),
    ("surface", "front_convection_coefficient", E::SurfaceFrontConvectionCoefficient), ("surface", "back_convection_coefficient", E::SurfaceBackConvectionCoefficient),
    ("surface", "front_convective_heat_flow", E::SurfaceFrontConvectiveHeatFlow), ("surface", "back_convective_heat_flow", E::SurfaceBackConvectiveHeatFlow),
    ("surface", "front_incident_solar_irradiance", E::SurfaceFrontSolarIrradiance), ("surface", "back_incident_solar_irradiance", E::SurfaceBackSolarIrradiance),
    ("surface", "front_ir_irradiance", E::SurfaceFrontIRIrradiance), ("surface", "back_ir_irradiance", E::SurfaceBackIRIrradiance),
    ("fenestration", "front_temperature", |i| E::FenestrationNodeTemperature(i, 0)), ("fenestration", "back_temperature", |i| E::FenestrationNodeTemperature(i, 4)),
    ("fenestration", "front_convection_coefficient", E::FenestrationFrontConvectionCoefficient), ("fenestration", "back_convection_coefficient", E::FenestrationBackConvectionCoefficient),
    ("fenestration", "front_convective_heat_flow", E::FenestrationFrontConvectiveHeatFlow), ("fenestration", "back_convective_heat_flow", E::FenestrationBackConvectiveHeatFlow),
    ("fenestration", "front_incident_solar_irradiance", E::FenestrationFrontSolarIrradiance), ("fenestration", "back_incident_solar_irradiance", E::FenestrationBackSolarIrradiance),
    ("fenestration", "front_ir_irradiance", E::FenestrationFrontIRIrradiance), ("fenestration", "back_ir_irradiance", E::FenestrationBackIRIrradiance),
    ("fenestration", "open_fraction", E::FenestrationOpenFraction), ("luminaire", "power_consumption", E::LuminairePowerConsumption),
    ("hvac", "power_consumption", E::HeatingCoolingPowerConsumption), ("hvac", "power_consumption", E::HeatingCoolingPowerConsumption),
];
const KINDS: [&str; 5] = ["space", "surface", "fenestration", "luminaire", "hvac"];

fn build(names: &[Vec<String>; 5], ideal: usize) -> Result<(Model, SimulationStateHeader), String> {
    let wall = |n: &String, i: usize, k: usize, fen: bool| { let mut v = json!({"name": n, "construction": "c", "vertices": rect(90. * k as f64, 90., [30. * k as f64, 30. * i as f64, 5.], 2., 2.).concat(), "front_boundary": B::Out.json(), "back_boundary": B::Out.json()}); if fen { v["category"] = json!("Window") } v };
    let each = |k: usize, f: &dyn Fn(&String, usize) -> Value| names[k].iter().enumerate().map(|(i, n)| f(n, i)).collect::<Vec<_>>();
    let m = json!({
        "substances": [{"name": "s", "type": "Normal", "thermal_conductivity": 0.8, "density": 1600., "specific_heat_capacity": 800.}], "materials": [{"name": "m", "substance": "s", "thickness": 0.2}], "constructions": [{"name": "c", "materials": ["m"]}],
        "spaces": each(0, &|n, _| json!({"name": n, "volume": 30.})), "surfaces": each(1, &|n, i| wall(n, i, 1, false)), "fenestrations": each(2, &|n, i| wall(n, i, 2, true)), "luminaires": each(3, &|n, _| json!({"name": n})),
        "hvacs": each(4, &|n, i| json!({"type": if ideal >> i & 1 == 1 { "IdealHeaterCooler" } else { "ElectricHeater" }, "name": n})),
    });
    Model::from_json(&m.to_string())
}
/// gives the object its place in the state
fn assign(m: &Model, kind: &str, i: usize, prop: &str, at: usize) -> Result<(), String> {
    macro_rules! wall { ($o:expr) => { match prop {
        "front_temperature" => $o.set_first_node_temperature_index(at), "back_temperature" => $o.set_last_node_temperature_index(at),
        "front_convection_coefficient" => $o.set_front_convection_coefficient_index(at), "back_convection_coefficient" => $o.set_back_convection_coefficient_index(at),
        "front_convective_heat_flow" => $o.set_front_convective_heat_flow_index(at), "back_convective_heat_flow" => $o.set_back_convective_heat_flow_index(at),
        "front_incident_solar_irradiance" => $o.set_front_incident_solar_irradiance_index(at), "back_incident_solar_irradiance" => $o.set_back_incident_solar_irradiance_index(at),
        "front_ir_irradiance" => $o.set_front_ir_irradiance_index(at), "back_ir_irradiance" => $o.set_back_ir_irradiance_index(at), p => Err(p.to_string()),
    } } }
    match kind {
        "space" => { let o = &m.spaces[i]; match prop { "dry_bulb_temperature" => o.set_dry_bulb_temperature_index(at), "infiltration_volume" => o.set_infiltration_volume_index(at), "infiltration_temperature" => o.set_infiltration_temperature_index(at), "ventilation_volume" => o.set_ventilation_volume_index(at), "ventilation_temperature" => o.set_ventilation_temperature_index(at), p => Err(p.to_string()) } }
        "surface" => wall!(m.surfaces[i]),
        "fenestration" => wall!(m.fenestrations[i]),
        _ => Err(kind.to_string()),
    }
}
fn own_already(p: &Prop) -> bool { matches!(p.1, "open_fraction" | "power_consumption") }
struct World { m: Arc<Model>, el: Vec<E>, st: SimulationState }
/// `which` tells which properties have a value
fn world(names: &[Vec<String>; 5], ideal: usize, which: impl Fn(usize, usize) -> bool) -> Result<World, String> {
    let (m, mut h) = build(names, ideal)?;
    for (pi, p) in PROPS.iter().enumerate().rev() {
        let k = KINDS.iter().position(|x| *x == p.0).unwrap();
        for i in (0..names[k].len()).rev() { if !own_already(p) && which(pi, i) { h.push(p.2(i), 0.)?; assign(&m, p.0, i, p.1, h.elements.len() - 1)?; } }
    }
    let mut st = h.take_values().ok_or("no values")?;
    for (i, x) in st.iter_mut().enumerate() { *x = 10. + i as f64 * 1.25 }
    Ok(World { m: Arc::new(m), el: h.elements.clone(), st })
}
/// runs a script; what the state becomes
fn script(cx: &Ctx, w: &World, s: &str, times: usize) -> Option<Result<Vec<f64>, (String, Vec<f64>)>> {
    cx.no_panic(|| "script/panic".into(), || {
        let (c, st) = RhaiControlScript::new(&w.m, w.st.clone(), s, false).map_err(|e| (e, w.st.to_vec()))?;
        let mut r = Ok(());
        for _ in 0..times { r = c.control(); if r.is_err() { break } }
        let now = match st.lock() { Ok(x) => x.to_vec(), Err(_) => return Err(("poisoned".to_string(), vec![])) };
        r.map(|_| now.clone()).map_err(|e| (e, now))
    })
}
fn lit(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")) }
pub fn names(n: [usize; 5]) -> [Vec<String>; 5] { std::array::from_fn(|k| (0..n[k]).map(|i| mcc::room(i)).collect()) }

pub fn u03(cx: &Ctx) {
    let n = cx.pick(3usize, 4);
    let nm = names([n; 5]);
    // every property of every object; the HVACs are of both kinds
    let objs: Vec<(usize, usize)> = (0..PROPS.len() - 1).flat_map(|p| (0..n).map(move |i| (p, i))).collect();
    let access = |p: usize, i: usize, by_name: bool| if by_name { format!("{}({})", PROPS[p].0, lit(&nm[KINDS.iter().position(|x| *x == PROPS[p].0).unwrap()][i])) } else { format!("{}({i})", PROPS[p].0) };
    cx.section("pairs", &format!("every property of every one of {n} objects of each kind set from every other one, by name and by number, with numbers of both kinds: what is read and changed is its own, and nothing else changes"), || {
        let w = match world(&nm, 0b10, |_, _| true) { Ok(w) => w, Err(e) => return cx.fail("setup", &e) };
        cx.par_named("pairs", objs.len() * objs.len(), |k| {
            let ((p, i), (q, j)) = (objs[k % objs.len()], objs[k / objs.len()]);
            cx.state();
            let (by_a, by_b) = ((i + q) % 2 == 0, (p + j) % 2 == 0);
            let (a, b) = (pos(&w.el, PROPS[p].2(i)), pos(&w.el, PROPS[q].2(j)));
            let (ac, bc) = (access(p, i, by_a), access(q, j, by_b));
            let (body, want): (String, f64) = match k % 4 {
                0 => (format!("let a = {ac}; let b = {bc}; a.{} = b.{};", PROPS[p].1, PROPS[q].1), w.st[b]),
                1 => (format!("let b = {bc}; let a = {ac}; a.{} = b.{} * 2.0 - 1.0;", PROPS[p].1, PROPS[q].1), w.st[b] * 2. - 1.),
                2 => (format!("let a = {ac}; a.{} += {bc}.{};", PROPS[p].1, PROPS[q].1), w.st[a] + w.st[b]),
                _ => (format!("let a = {ac}; let b = {bc}; if b.{} > {:.3} {{ a.{} = 7; }} else {{ a.{} = -3; }}", PROPS[q].1, 40., PROPS[p].1, PROPS[p].1), if w.st[b] > 40. { 7. } else { -3. }),
            };
            let Some(r) = script(cx, &w, &body, 1) else { return };
            let mut exp = w.st.to_vec();
            exp[a] = want;
            cx.step();
            match r {
                Ok(g) => { cx.check(g.len() == exp.len() && g.iter().zip(&exp).all(|(x, y)| close(*x, *y, 1e-12)), || ("state".into(), format!("{body}: {g:?}, expected {exp:?}"))); }
                Err((e, _)) => { cx.fail("refused", &format!("{body}: {e}")); }
            }
        });
    });
    cx.section("unset", "every property of every object when it has no value, and the others do: reading and writing are errors that change nothing; properties that no object has are refused", || {
        let w2 = |p: usize, i: usize| world(&nm, 0b10, move |a, b| !(a == p && b == i));
        cx.par_named("unset", objs.len(), |k| {
            let (p, i) = objs[k];
            if own_already(&PROPS[p]) { return }
            let w = match w2(p, i) { Ok(w) => w, Err(e) => return cx.fail("setup", &e) };
            for by in [true, false] { for body in [format!("let a = {}; a.{} = 3.5;", access(p, i, by), PROPS[p].1), format!("let a = {}; a.{} = 3;", access(p, i, by), PROPS[p].1), format!("let x = {}.{};", access(p, i, by), PROPS[p].1), format!("let a = {}; a.{} += 1.0;", access(p, i, by), PROPS[p].1)] {
                cx.state();
                let Some(r) = script(cx, &w, &body, 1) else { continue };
                cx.check(matches!(&r, Err((_, s)) if *s == w.st.to_vec()), || ("unset".into(), format!("{body}: {r:?}")));
            } }
            // the others of the same kind still work
            for j in 0..n { if j != i {
                cx.state();
                let body = format!("let a = {}; a.{} = 3.5;", access(p, j, true), PROPS[p].1);
                let at = pos(&w.el, PROPS[p].2(j));
                if let Some(r) = script(cx, &w, &body, 1) { cx.check(matches!(&r, Ok(s) if s[at] == 3.5), || ("others".into(), format!("{body}: {r:?}"))); }
            } }
        });
        let Ok(w) = world(&nm, 0b10, |_, _| true) else { return };
        for k in KINDS { for (prop, _) in PROPS.iter().map(|p| (p.1, 0)).chain([("colour", 0), ("name", 0), ("brightness", 0), ("loudness", 0), ("first_node_temperature", 0), ("heating_cooling_consumption", 0)]) {
            if PROPS.iter().any(|p| p.0 == k && p.1 == prop) { continue }
            for body in [format!("let a = {k}(0); a.{prop} = 3.5;"), format!("let x = {k}(0).{prop}; x + 1.0;")] {
                cx.state();
                if let Some(r) = script(cx, &w, &body, 1) { cx.check(matches!(&r, Err((_, s)) if *s == w.st.to_vec()), || ("unknown".into(), format!("{body}: {r:?}"))); }
            }
        } }
    });
    cx.section("lookup", "models with 0 to 3 objects of each kind, looked for by every number from -2 to 5 and extreme ones, and every name: the right one or an error, never a panic", || {
        cx.par_named("lookup", 5 * 4, |k| {
            let (kind, count) = (k % 5, k / 5);
            let mut sizes = [1; 5];
            sizes[kind] = count;
            let nm = names(sizes);
            let p = PROPS.iter().position(|x| x.0 == KINDS[kind] && (x.1 == "dry_bulb_temperature" || x.1 == "back_temperature" || x.1 == "power_consumption")).unwrap();
            for ideal in 0..8 {
                if ideal > 0 && (kind != 4 || ideal >= 1 << count) { continue }
                let w = match world(&nm, ideal, |_, _| true) { Ok(w) => w, Err(e) => return cx.fail("setup", &e) };
                let refs: Vec<(String, Option<usize>)> = (-2..6i64).chain([i64::MAX, i64::MIN + 1, 1 << 32, (1 << 32) + 1]).map(|i| (i.to_string(), usize::try_from(i).ok().filter(|i| *i < count)))
                    .chain((0..5).map(|i| (lit(&mcc::room(i)), (i < count).then_some(i)))).chain(["", "0", "space0 ", "Space0", "hvac", "surface"].iter().map(|s| (format!("\"{s}\""), None)))
                    .chain(KINDS.iter().enumerate().filter(|(j, _)| *j != kind).map(|(_, s)| (format!("\"{s}0\""), None))).chain([("1.0".to_string(), None), ("()".to_string(), None), ("'0'".to_string(), None)]).collect();
                for (r, want) in refs {
                    let body = format!("let a = {}({r}); a.{} = 77.5;", KINDS[kind], PROPS[p].1);
                    cx.state();
                    let Some(got) = script(cx, &w, &body, 1) else { continue };
                    let mut exp = w.st.to_vec();
                    if let Some(i) = want { exp[pos(&w.el, PROPS[p].2(i))] = 77.5 }
                    cx.check(match (&got, want) { (Ok(s), Some(_)) => *s == exp, (Err((_, s)), None) => *s == exp, _ => false }, || ("lookup".into(), format!("{body} with {count} of them: {got:?}")));
                }
            }
        });
    });
    cx.section("names", "objects with odd names, and names that repeat: the first one that is called so", || {
        let odd = ["a b", "ñandú 冷", "it's", "\"q\"", "back\\slash", "0", "-1", "", "x{y}", "line\nbreak", "dup", "dup", "end"];
        for kind in 0..5 {
            let mut nm = names([1; 5]);
            nm[kind] = odd.iter().map(|s| s.to_string()).collect();
            let w = match world(&nm, 0b1010101, |_, _| true) { Ok(w) => w, Err(e) => { cx.fail("setup", &e); continue } };
            let p = PROPS.iter().position(|x| x.0 == KINDS[kind] && (x.1 == "dry_bulb_temperature" || x.1 == "back_temperature" || x.1 == "power_consumption")).unwrap();
            for (i, s) in odd.iter().enumerate() {
                if i == 11 { continue }
                cx.state();
                let body = format!("let a = {}({}); a.{} = 77.5;", KINDS[kind], lit(s), PROPS[p].1);
                let mut exp = w.st.to_vec();
                exp[pos(&w.el, PROPS[p].2(i))] = 77.5;
                if let Some(r) = script(cx, &w, &body, 1) { cx.check(matches!(&r, Ok(s) if *s == exp), || ("names".into(), format!("{body}: {r:?}"))); }
            }
        }
    });
    let len = cx.pick(4, 5);
    cx.section("sequences", &format!("every script of {len} lines out of 9 that set, add, swap, fail or branch, run once and three times in a row: line by line, up to the one that fails"), || {
        let w = match world(&nm, 0b10, |p, _| PROPS[p].1 != "ventilation_volume") { Ok(w) => w, Err(e) => return cx.fail("setup", &e) };
        let at = |e: E| pos(&w.el, e);
        let (t0, l0, l1, h1, f0) = (at(E::SpaceDryBulbTemperature(0)), at(E::LuminairePowerConsumption(0)), at(E::LuminairePowerConsumption(1)), at(E::HeatingCoolingPowerConsumption(1)), at(E::FenestrationOpenFraction(0)));
        type Op = (&'static str, fn(&mut Vec<f64>, [usize; 5]) -> bool);
        let ops: [Op; 9] = [
            ("let a = luminaire(0); a.power_consumption = 5;", |s, x| { s[x[1]] = 5.; true }),
            ("let a = luminaire(1); a.power_consumption += 2.5;", |s, x| { s[x[2]] += 2.5; true }),
            ("let a = luminaire(\"Room 1 Room\"); let b = luminaire(1); let t = a.power_consumption; a.power_consumption = b.power_consumption; b.power_consumption = t;", |s, x| { s.swap(x[1], x[2]); true }),
            ("let h = hvac(\"Room\"); if space(0).dry_bulb_temperature < 20 { h.power_consumption = 900.0; } else { h.power_consumption = 0.0; }", |s, x| { s[x[3]] = if s[x[0]] < 20. { 900. } else { 0. }; true }),
            ("let z = space(\"Room 1 Room\"); z.dry_bulb_temperature = z.dry_bulb_temperature * 0.5;", |s, x| { s[x[0]] *= 0.5; true }),
            ("let f = fenestration(0); f.open_fraction = 1.0 - f.open_fraction;", |s, x| { s[x[4]] = 1. - s[x[4]]; true }),
            ("let z = space(0); z.ventilation_volume = 1.0;", |_, _| false),
            ("let l = luminaire(9);", |_, _| false),
            ("let i = 0; while i < 3 { let l = luminaire(1); l.power_consumption = l.power_consumption - 1.0; i += 1; }", |s, x| { s[x[2]] -= 3.; true }),
        ];
        let ix = [t0, l0, l1, h1, f0];
        cx.par_named("sequences", ops.len().pow(len), |k| {
            let mut c = k;
            let seq: Vec<usize> = (0..len).map(|_| { let r = c % ops.len(); c /= ops.len(); r }).collect();
            let body = seq.iter().map(|o| ops[*o].0).collect::<Vec<_>>().join("\n");
            for times in [1, 3] {
                let mut s = w.st.to_vec();
                let ok = (0..times).all(|_| seq.iter().all(|o| ops[*o].1(&mut s, ix)));
                cx.state();
                let Some(r) = script(cx, &w, &body, times) else { continue };
                let good = match &r { Ok(g) => ok && g.iter().zip(&s).all(|(a, b)| close(*a, *b, 1e-12)), Err((_, g)) => !ok && g.iter().zip(&s).all(|(a, b)| close(*a, *b, 1e-12)) };
                cx.check(good, || ("sequence".into(), format!("{body:?} {times} times: {r:?}, expected {ok} {s:?}")));
            }
        });
    });
}
