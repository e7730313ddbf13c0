//! I01: the infiltration of every Space follows the equation of its kind, in any combination of weather and indoor temperatures
use ::air::air_model::AirFlowModel;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use mcc::*;
use model::{Model, SimulationStateElement as E};
use serde_json::json;
use weather::{CurrentWeather, WeatherTrait};

pub struct Fixed(pub CurrentWeather);
impl WeatherTrait for Fixed {
    fn get_weather_data(&self, _d: Date) -> CurrentWeather { self.0 }
}
pub const TERRAINS: [(&str, f64, f64); 5] = [("Country", 0.14, 270.), ("Suburbs", 0.22, 370.), ("City", 0.33, 460.), ("Ocean", 0.10, 210.), ("Urban", 0.22, 370.)];
/// wind speed 1 m above ground in terms of that of the weather station; suburbs is the default
fn wind_factor(t: Option<usize>) -> f64 { let (_, a, d) = TERRAINS[t.unwrap_or(1)]; (270f64 / 10.).powf(0.14) * (1. / d).powf(a) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Inf { None, Constant(f64), Blast(f64), Doe2(f64), Design([f64; 5]), Leak(f64) }
#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct Bld { storeys: Option<usize>, shelter: Option<usize>, cs: Option<f64>, cw: Option<f64> }
const SHELTER: [(&str, [f64; 3]); 5] = [("NoObstructions", [0.000319, 0.000420, 0.000494]), ("IsolatedRural", [0.000246, 0.000325, 0.000382]), ("Urban", [0.000172, 0.000231, 0.000271]), ("LargeLotUrban", [0.000104, 0.000137, 0.000161]), ("SmallLotUrban", [0.000032, 0.000042, 0.000049])];
impl Bld {
    fn coefs(self) -> Option<(f64, f64)> {
        let cs = self.cs.or_else(|| match self.storeys? { 0 => None, n => Some([0.000145, 0.000290, 0.000435][n.min(3) - 1]) })?;
        let cw = self.cw.or_else(|| { let n = self.storeys?; Some(SHELTER[self.shelter?].1[n.max(1).min(3) - 1]) })?;
        Some((cs, cw))
    }
}
fn model(spaces: &[(Inf, bool)], b: Bld, terrain: Option<usize>, site: bool) -> Result<(Model, model::SimulationStateHeader), String> {
    let sp: Vec<_> = spaces.iter().enumerate().map(|(i, (inf, in_b))| {
        let mut s = json!({"name": mcc::room(i), "volume": 30.0 + i as f64});
        let v = match inf {
            Inf::None => None,
            Inf::Constant(f) => Some(json!({"type": "Constant", "flow": f})),
            Inf::Blast(f) => Some(json!({"type": "Blast", "flow": f})),
            Inf::Doe2(f) => Some(json!({"type": "Doe2", "flow": f})),
            Inf::Design([a, b, c, d, phi]) => Some(json!({"type": "DesignFlowRate", "a": a, "b": b, "c": c, "d": d, "phi": phi})),
            Inf::Leak(a) => Some(json!({"type": "EffectiveAirLeakageArea", "area": a})),
        };
        if let Some(v) = v { s["infiltration"] = v }
        if *in_b { s["building"] = json!("b") }
        s
    }).collect();
    let mut bj = json!({"name": "b"});
    if let Some(n) = b.storeys { bj["n_storeys"] = json!(n) }
    if let Some(n) = b.shelter { bj["shelter_class"] = json!(SHELTER[n].0) }
    if let Some(n) = b.cs { bj["stack_coefficient"] = json!(n) }
    if let Some(n) = b.cw { bj["wind_coefficient"] = json!(n) }
    let mut m = json!({"buildings": [bj], "spaces": sp});
    if site { m["site_details"] = json!({"altitude": 10.0}); if let Some(t) = terrain { m["site_details"]["terrain"] = json!(TERRAINS[t].0) } }
    Model::from_json(&m.to_string())
}
pub fn weather(t: f64, ws: f64) -> CurrentWeather {
    CurrentWeather { date: Date { month: 1, day: 1, hour: 0. }, dry_bulb_temperature: t, dew_point_temperature: t - 3., global_horizontal_radiation: 0., direct_normal_radiation: 0., diffuse_horizontal_radiation: 0., wind_speed: ws, wind_direction: 1.0, horizontal_infrared_radiation_intensity: None, opaque_sky_cover: 0., relative_humidity: 0.5, pressure: 101325. }
}
fn expected(i: Inf, b: Bld, wf: f64, t_in: f64, t_out: f64, ws: f64) -> Option<f64> {
    let d = (t_in - t_out).abs();
    let f = |p: f64, a: f64, b: f64, c: f64, e: f64| p * (a + b * d + c * ws * wf + e * (ws * wf).powi(2));
    Some(match i {
        Inf::None => return None,
        Inf::Constant(p) => p,
        Inf::Blast(p) => f(p, 0.606, 0.03636, 0.1177, 0.),
        Inf::Doe2(p) => f(p, 0., 0., 0.224, 0.),
        Inf::Design([a, b, c, e, p]) => f(p, a, b, c, e),
        Inf::Leak(a) => { let (cs, cw) = b.coefs().unwrap(); a * 1e4 / 1000. * (cs * d + cw * ws * ws).sqrt() }
    })
}

fn run(cx: &Ctx, spaces: &[(Inf, bool)], b: Bld, terrain: Option<usize>, site: bool, hist: &[(f64, f64)], temps: &[f64]) {
    let d = || format!("{spaces:?} {b:?} terrain {terrain:?}");
    let Some(r) = cx.no_panic(|| format!("model {}", d()), || -> Result<_, String> {
        let (m, mut h) = model(spaces, b, terrain, site)?;
        for (i, s) in m.spaces.iter().enumerate() { let k = h.push(E::SpaceDryBulbTemperature(i), 0.)?; s.set_dry_bulb_temperature_index(k)?; }
        let a = AirFlowModel::new(&MetaOptions::default(), (), &m, &mut h, 1).map_err(|e| format!("new: {e}"))?;
        Ok((m, h, a))
    }) else { return };
    let enough = spaces.iter().all(|(i, inb)| !matches!(i, Inf::Leak(_)) || (*inb && b.coefs().is_some()));
    // a building without storeys and with its stack coefficient given does not have a clear wind coefficient
    if b.storeys == Some(0) && b.cs.is_some() && b.cw.is_none() { cx.outcome("unclear"); return }
    let (m, mut h, a) = match r {
        Ok(v) => { if !cx.check(enough, || ("infiltration accepted without the data it needs".into(), d())) { return } v }
        Err(e) => { cx.check(!enough, || ("infiltration refused".into(), format!("{}: {e}", d()))); cx.outcome("refused"); return }
    };
    cx.outcome("accepted");
    let Some(mut st) = h.take_values() else { return };
    let mem = a.allocate_memory(&st);
    #[allow(clippy::let_unit_value)]
    let Ok(mut mem) = mem else { cx.fail("no memory", &d()); return };
    for (k, &(t_out, ws)) in hist.iter().enumerate() {
        for (i, s) in m.spaces.iter().enumerate() { if s.set_dry_bulb_temperature(&mut st, temps[(i + k) % temps.len()]).is_err() { cx.fail("cannot set temperature", &d()) } }
        let before: Vec<f64> = (0..h.elements.len()).map(|i| st[i]).collect();
        let Some(Ok(())) = cx.no_panic(|| format!("march {}", d()), || a.march(Date { month: 1, day: 1, hour: k as f64 }, &Fixed(weather(t_out, ws)), &m, &mut st, &mut mem)) else { cx.fail("march failed", &d()); return };
        cx.state(); cx.step();
        let wf = wind_factor(if site { terrain } else { None });
        let mut exp = before;
        for (i, s) in m.spaces.iter().enumerate() {
            let pos = |e: E| h.elements.iter().position(|x| *x == e);
            let (Some(pv), Some(pt)) = (pos(E::SpaceInfiltrationVolume(i)), pos(E::SpaceInfiltrationTemperature(i))) else { cx.fail("no infiltration in the state", &d()); return };
            match expected(spaces[i].0, b, wf, temps[(i + k) % temps.len()], t_out, ws) {
                Some(v) => { exp[pv] = v; exp[pt] = t_out }
                None => { exp[pv] = 0. }
            }
            cx.check(s.infiltration_volume(&st) == Some(st[pv]) && s.infiltration_temperature(&st) == Some(st[pt]), || ("the Space reads another state element".into(), d()));
        }
        for i in 0..exp.len() {
            // the published tables round the coefficient of one-storey urban buildings in two ways
            let tol = if b.shelter == Some(2) && b.storeys == Some(1) && b.cw.is_none() { 0.013 } else { 1e-9 };
            let none_t = matches!(h.elements[i], E::SpaceInfiltrationTemperature(k) if spaces[k].0 == Inf::None);
            cx.check(none_t || (st[i] - exp[i]).abs() <= tol * exp[i].abs() + 1e-12, || (format!("{:?}", std::mem::discriminant(&h.elements[i])), format!("{}: {:?} is {} and should be {} with {t_out} C and {ws} m/s outside; temperatures {temps:?}", d(), h.elements[i], st[i], exp[i])));
        }
    }
}

pub fn i01(cx: &Ctx) {
    let kinds = [Inf::None, Inf::Constant(0.03), Inf::Blast(0.02), Inf::Doe2(0.05), Inf::Design([0.5, 0.02, 0.1, 0.03, 0.04]), Inf::Design([0., 0., 0., 0.01, 0.1]), Inf::Leak(0.05)];
    let good = Bld { storeys: Some(2), shelter: Some(2), cs: None, cw: None };
    let hist: Vec<(f64, f64)> = { let t = cx.pick(vec![-15., 0., 20., 35.], vec![-40., -15., -1., 0., 10., 20., 21., 35., 60.]); let w = cx.pick(vec![0., 1., 6.5, 25.], vec![0., 0.5, 1., 3., 6.5, 12., 25., 40.]); t.iter().flat_map(|a| w.iter().map(move |b| (*a, *b))).collect() };
    cx.section("kinds", &format!("every kind of infiltration in models of 1 to 3 spaces (every combination), in every terrain, through {} weathers and rotating indoor temperatures", hist.len()), || {
        let sites: Vec<(bool, Option<usize>)> = [(false, None), (true, None)].into_iter().chain((0..5).map(|t| (true, Some(t)))).collect();
        let n = kinds.len();
        let combos: Vec<Vec<usize>> = (0..n).map(|a| vec![a]).chain((0..n * n).map(|k| vec![k % n, k / n])).chain((0..n * n * n).map(|k| vec![k % n, k / n % n, k / n / n])).collect();
        cx.par_named("kinds", combos.len() * sites.len(), |k| {
            let (s, t) = sites[k % sites.len()];
            let sp: Vec<_> = combos[k / sites.len()].iter().map(|i| (kinds[*i], true)).collect();
            run(cx, &sp, good, t, s, &hist, &[20., -3., 35.]);
        });
    });
    cx.section("buildings", "effective leakage area in buildings with every combination of storeys (none, 0..5), shelter class, and stack and wind coefficients given or not; in the building or not", || {
        let opt = |n: usize| (0..=n).map(|i| i.checked_sub(1)).collect::<Vec<_>>();
        for st in opt(6) { for sh in opt(5) { for cs in [None, Some(0.0002), Some(0.00003), Some(0.001), Some(0.)] { for cw in [None, Some(0.0003), Some(0.00002), Some(0.002), Some(0.)] { for inb in [true, false] {
            let b = Bld { storeys: st, shelter: sh, cs, cw };
            for temps in [vec![20.], vec![-5., 30.]] {
                run(cx, &[(Inf::Leak(0.05), inb)], b, None, true, &hist, &temps);
                run(cx, &[(Inf::Constant(0.02), inb), (Inf::Leak(0.15), inb), (Inf::Leak(0.01), true)], b, Some(2), true, &hist, &temps);
            }
        } } } } }
    });
}
