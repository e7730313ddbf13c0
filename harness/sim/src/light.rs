//! L01: long-wave irradiance and view factors; L02: solar irradiance; L03: the file of optical data
use crate::air::Fixed;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use heat::heat_model::ThermalModel;
use ::light::SolarModel;
use mcc::*;
use model::{Model, SimulationState, SimulationStateElement as E, SimulationStateHeader, SolarOptions};
use serde_json::{json, Value};
use weather::{CurrentWeather, PerezSky, ReinhartSky, SkyUnits, Solar};

pub const SIGMA: f64 = 5.670374419e-8;
pub fn ir_of(t: f64) -> f64 { SIGMA * (t + 273.15).powi(4) }
pub type V3 = [f64; 3];
/// a w x h rectangle looking towards azimuth `az` and tilt `tilt` (degrees; tilt 0 looks up), centred at c
pub fn rect(az: f64, tilt: f64, c: V3, w: f64, h: f64) -> Vec<V3> {
    let (a, t) = (az.to_radians(), tilt.to_radians());
    let r = [a.cos(), -a.sin(), 0.];
    let n = [a.sin() * t.sin(), a.cos() * t.sin(), t.cos()];
    let u = [n[1] * r[2] - n[2] * r[1], n[2] * r[0] - n[0] * r[2], n[0] * r[1] - n[1] * r[0]];
    [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)].iter().map(|(x, y)| { let (x, y) = (x * w, y * h); [c[0] + x * r[0] + y * u[0], c[1] + x * r[1] + y * u[1], c[2] + x * r[2] + y * u[2]] }).collect()
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Out, Space(usize), Amb(f64), Adiabatic, Ground }
impl B {
    pub fn json(self) -> Value {
        match self {
            B::Out => json!({"type": "Outdoor"}),
            B::Space(i) => json!({"type": "Space", "space": mcc::room(i)}),
            B::Amb(t) => json!({"type": "AmbientTemperature", "temperature": t}),
            B::Adiabatic => json!({"type": "Adiabatic"}),
            B::Ground => json!({"type": "Ground"}),
        }
    }
}
#[derive(Clone, Debug)]
pub struct W { pub poly: Vec<V3>, pub front: B, pub back: B, pub window: bool, pub layers: usize, pub cat: &'static str }
pub fn wall(poly: Vec<V3>, front: B, back: B) -> W { W { poly, front, back, window: false, layers: 1, cat: "Window" } }
pub fn model(ws: &[W]) -> Result<(Model, SimulationStateHeader), String> {
    let mut m = json!({
        "substances": [{"name": "brick", "type": "Normal", "thermal_conductivity": 0.8, "density": 1600., "specific_heat_capacity": 800., "front_thermal_absorbtance": 0.9, "back_thermal_absorbtance": 0.9, "front_solar_absorbtance": 0.7, "back_solar_absorbtance": 0.7},
            {"name": "glass", "type": "Normal", "thermal_conductivity": 1.0, "density": 2500., "specific_heat_capacity": 840., "front_thermal_absorbtance": 0.84, "back_thermal_absorbtance": 0.84, "solar_transmittance": 0.8, "front_solar_absorbtance": 0.1, "back_solar_absorbtance": 0.1}],
        "materials": [{"name": "brick", "substance": "brick", "thickness": 0.2}, {"name": "glass", "substance": "glass", "thickness": 0.004}],
        "constructions": [{"name": "brick1", "materials": ["brick"]}, {"name": "brick2", "materials": ["brick", "brick"]}, {"name": "glass1", "materials": ["glass"]}],
        "spaces": [{"name": "Room 1 Room", "volume": 40.}, {"name": "Room", "volume": 50.}],
        "surfaces": [], "fenestrations": [],
    });
    for (i, w) in ws.iter().enumerate() {
        let mut o = json!({"name": format!("w{i}"), "construction": if w.window && w.cat != "Door" { "glass1".to_string() } else { format!("brick{}", w.layers) }, "vertices": w.poly.iter().flatten().collect::<Vec<_>>(), "front_boundary": w.front.json(), "back_boundary": w.back.json()});
        if w.window { o["category"] = w.cat.into(); }
        m[if w.window { "fenestrations" } else { "surfaces" }].as_array_mut().unwrap().push(o);
    }
    Model::from_json(&m.to_string())
}
pub fn opts(points: usize, amb: usize, mf: usize, path: Option<&str>) -> SolarOptions {
    let mut o = SolarOptions::new();
    o.set_n_solar_irradiance_points(points).set_solar_ambient_divitions(amb).set_solar_sky_discretization(mf);
    if let Some(p) = path { o.set_optical_data_path(p.to_string()); }
    o
}
// the place of a wall among the walls, or of a window among the windows
pub fn idx(ws: &[W], i: usize) -> usize { ws[..i].iter().filter(|w| w.window == ws[i].window).count() }
pub struct Sim { pub m: Model, pub h: SimulationStateHeader, pub s: SolarModel, pub st: SimulationState }
pub fn sim(ws: &[W], meta: &MetaOptions, o: SolarOptions, heat: bool) -> Result<Sim, String> {
    let (m, mut h) = model(ws)?;
    if heat { ThermalModel::new(meta, (), &m, &mut h, 1)?; }
    let s = SolarModel::new(meta, o, &m, &mut h, 1)?;
    let st = h.take_values().ok_or("no values")?;
    Ok(Sim { m, h, s, st })
}
impl Sim {
    pub fn march(&mut self, d: Date, w: CurrentWeather) -> Result<(), String> { self.s.march(d, &Fixed(w), &self.m, &mut self.st, &mut ()) }
    pub fn pos(&self, e: E) -> Option<usize> { self.h.elements.iter().position(|x| *x == e) }
    pub fn get(&self, e: E) -> f64 { self.pos(e).map_or(f64::NAN, |i| self.st[i]) }
    pub fn set(&mut self, e: E, v: f64) { if let Some(i) = self.pos(e) { self.st[i] = v } }
}
pub const MARK: f64 = -77.25;
fn ir_e(window: bool, i: usize, front: bool) -> E { match (window, front) { (false, true) => E::SurfaceFrontIRIrradiance(i), (false, false) => E::SurfaceBackIRIrradiance(i), (true, true) => E::FenestrationFrontIRIrradiance(i), (true, false) => E::FenestrationBackIRIrradiance(i) } }
fn sol_e(window: bool, i: usize, front: bool) -> E { match (window, front) { (false, true) => E::SurfaceFrontSolarIrradiance(i), (false, false) => E::SurfaceBackSolarIrradiance(i), (true, true) => E::FenestrationFrontSolarIrradiance(i), (true, false) => E::FenestrationBackSolarIrradiance(i) } }
pub fn meta(lat: f64, lon: f64, gmt: f64) -> MetaOptions { MetaOptions { latitude: lat.to_radians(), longitude: lon.to_radians(), standard_meridian: (gmt * 15.).to_radians(), elevation: 0. } }
/// Clark and Allen, as in EnergyPlus; `n` is the fraction of the sky that is covered
fn sky_ir(db: f64, dp: f64, n: f64) -> f64 { let n = n * 10.; (0.787 + 0.764 * ((dp + 273.15) / 273.).ln()) * (1. + 0.0224 * n - 0.0035 * n * n + 0.00028 * n * n * n) * ir_of(db) }

/// the share of a side that gets to see the sky and that of everything else that is outdoors, as in EnergyPlus: the low part of the sky counts as air
fn sky_share(f: f64) -> f64 { f * f.sqrt() }
/// from the middle of a small element to a parallel x by y rectangle, centred at a distance d
fn parallel(x: f64, y: f64, d: f64) -> f64 {
    let (x, y) = (x / 2. / d, y / 2. / d);
    let (a, b) = ((1. + x * x).sqrt(), (1. + y * y).sqrt());
    4. / (2. * std::f64::consts::PI) * (x / a * (y / a).atan() + y / b * (x / b).atan())
}
fn cw(db: f64, dp: f64, ir: Option<f64>, cover: f64) -> CurrentWeather { CurrentWeather { dry_bulb_temperature: db, dew_point_temperature: dp, horizontal_infrared_radiation_intensity: ir, opaque_sky_cover: cover, ..crate::air::weather(db, 2.) } }
const NIGHT: Date = Date { month: 3, day: 3, hour: 2. };

/// the share of a side that is sky (only the sky is warm) and the rest of it
fn shares(cx: &Ctx, key: &str, ws: &[W], which: usize, points: usize) -> Option<[[f64; 2]; 2]> {
    let r = cx.no_panic(|| key.to_string(), || -> Result<_, String> {
        let mut s = sim(ws, &meta(0., 0., 0.), opts(points, 1, 1, None), true)?;
        let window = ws[which].window;
        let i = ws[..which].iter().filter(|w| w.window == window).count();
        let mut r = [[0.; 2]; 2];
        for (k, (db, ir)) in [(-273.15, 300.), (20., 0.)].into_iter().enumerate() {
            s.march(NIGHT, cw(db, 0., Some(ir), 0.))?;
            for (f, front) in [true, false].into_iter().enumerate() { r[f][k] = s.get(ir_e(window, i, front)) / if k == 0 { 300. } else { ir_of(20.) }; }
        }
        Ok(r)
    })?;
    match r { Ok(v) => { cx.state(); Some(v) } Err(e) => { cx.fail("model refused", &format!("{key}: {e}")); None } }
}

// a flat polygon, the part of it with x < c in the shade of a large screen just above it: (polygon, c, share in the shade)
fn partly() -> Vec<(Vec<V3>, f64, f64)> {
    let polys: Vec<Vec<(f64, f64)>> = vec![
        vec![(0., 0.), (2., 0.), (2., 1.), (0., 1.)],
        vec![(0., 0.), (5., 0.), (5., 3.), (0.5, 3.), (0., 2.5)],      // one side cuts a corner
        vec![(0., 0.), (6., 0.), (6., 0.5), (1., 0.5), (1., 4.), (0., 4.)], // L
        vec![(0., 0.), (8., 1.), (8., 1.5), (0., 4.)],
        vec![(0., 0.), (1., 2.), (2., 0.), (3., 2.), (4., 0.), (4., 5.), (0., 5.)],
    ];
    let area = |p: &[(f64, f64)]| (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a.0 * b.1 - a.1 * b.0 }).sum::<f64>() / 2.;
    let mut r = vec![];
    for p in &polys { for q in [0.25, 0.5, 0.75] {
        let c = q * p.iter().map(|x| x.0).fold(0., f64::max);
        let mut cut = vec![];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            if a.0 <= c { cut.push(a) }
            if (a.0 - c) * (b.0 - c) < 0. { let t = (c - a.0) / (b.0 - a.0); cut.push((c, a.1 + t * (b.1 - a.1))) }
        }
        r.push((p.iter().map(|x| [x.0, x.1, 10.]).collect(), c, area(&cut) / area(p)));
    } }
    r
}
fn screen(c: f64) -> W { wall(vec![[c - 60., -50., 10.02], [c, -50., 10.02], [c, 50., 10.02], [c - 60., 50., 10.02]], B::Out, B::Out) }

pub fn l01(cx: &Ctx) {
    let azs: Vec<f64> = cx.pick(vec![0., 37., 180., 270.], (0..12).map(|i| i as f64 * 30. + 3.).collect());
    let tilts: Vec<f64> = cx.pick(vec![0., 20., 45., 60., 90., 120., 135., 180.], (0..=18).map(|i| i as f64 * 10.).collect());
    cx.section("free", &format!("a lonely wall or window, towards {} azimuths x {} tilts, seen from both sides", azs.len(), tilts.len()), || {
        cx.par_named("free", azs.len() * tilts.len() * 2, |k| {
            let (az, tilt, window) = (azs[k / 2 % azs.len()], tilts[k / 2 / azs.len()], k % 2 == 1);
            let w = W { window, ..wall(rect(az, tilt, [1., 2., 30.], 2., 1.), B::Out, B::Out) };
            let extra = wall(rect(0., 90., [500., 500., -100.], 0.1, 0.1), B::Out, B::Out); // there has to be some surface
            let Some(s) = shares(cx, "free", &[extra, w], 1, 4) else { return };
            for side in 0..2 {
                let c = if side == 0 { tilt } else { 180. - tilt };
                let sky = sky_share((1. + c.to_radians().cos()) / 2.);
                let tol = 0.02;
                cx.check((s[side][0] - sky).abs() < tol, || ("share of the sky".into(), format!("azimuth {az} tilt {tilt} window {window} side {side}: the sky is {} of the view and should be {sky}", s[side][0])));
                cx.check((s[side][0] + s[side][1] - 1.).abs() < 1e-6, || ("the view does not add up to 1".into(), format!("azimuth {az} tilt {tilt} window {window} side {side}: {} + {}", s[side][0], s[side][1])));
            }
        });
    });
    let sizes: Vec<(f64, f64)> = cx.pick(vec![(1., 1.), (2., 6.), (10., 3.), (40., 40.)], vec![(0.5, 0.5), (1., 1.), (2., 2.), (2., 6.), (6., 2.), (10., 3.), (20., 5.), (40., 40.), (400., 400.)]);
    let dists: Vec<f64> = cx.pick(vec![0.5, 1., 3., 8.], vec![0.3, 0.5, 1., 2., 3., 5., 8., 12.]);
    cx.section("obstructed", &format!("a small element in front of a parallel obstacle of {} sizes at {} distances, looking up, sideways (two azimuths) and down; obstacles in front, behind and on both sides", sizes.len(), dists.len()), || {
        cx.par_named("obstructed", sizes.len() * dists.len() * 4 * 3 * 2, |k| {
            let (size, dist, dir, who, window) = (sizes[k / 24 % sizes.len()], dists[k / 24 / sizes.len()], k % 4, k / 4 % 3, k / 12 % 2 == 1);
            let (az, tilt) = [(0., 0.), (0., 90.), (45., 90.), (0., 180.)][dir];
            let n = [(az as f64).to_radians().sin() * (tilt as f64).to_radians().sin(), (az as f64).to_radians().cos() * (tilt as f64).to_radians().sin(), (tilt as f64).to_radians().cos()];
            let c = [3., 4., 30.];
            let mut ws = vec![wall(rect(0., 90., [5000., 5000., -100.], 0.1, 0.1), B::Out, B::Out), W { window, ..wall(rect(az, tilt, c, 0.02, 0.02), B::Out, B::Out) }];
            for s in 0..2 { if who == 2 || who == s { let d = if s == 0 { dist } else { -dist }; ws.push(wall(rect(az, tilt, [c[0] + n[0] * d, c[1] + n[1] * d, c[2] + n[2] * d], size.0, size.1), B::Out, B::Out)); } }
            let Some(s) = shares(cx, "obstructed", &ws, 1, 4) else { return };
            for side in 0..2 {
                let c = if side == 0 { tilt } else { 180. - tilt };
                let free = (1. + (c as f64).to_radians().cos()) / 2.; // none, half or all of the sky; the obstacles are symmetrical
                let f = if who == 2 || who == side { parallel(size.0, size.1, dist) } else { 0. };
                let (lo, hi) = ((free * (1. - f) - 0.01f64).max(0.), (free * (1. - f) + 0.01).min(1.));
                // the low part of the sky counts as air, and it may or may not be the obstructed one
                let (sky_lo, sky_hi) = (lo * lo.sqrt() - 0.005, hi * free.sqrt() + 0.005);
                cx.check(s[side][0] >= sky_lo && s[side][0] <= sky_hi, || ("share of the sky behind obstacles".into(), format!("{size:?} at {dist} azimuth {az} tilt {tilt} obstacles {who} window {window} side {side}: the sky is {} of the view and should be within {sky_lo} and {sky_hi}", s[side][0])));
                cx.check((s[side][0] + s[side][1] - 1.).abs() < 1e-6, || ("the view does not add up to 1".into(), format!("{size:?} at {dist} azimuth {az} tilt {tilt} obstacles {who} window {window} side {side}: {} + {}", s[side][0], s[side][1])));
            }
        });
    });
    cx.section("partial", "5 polygons whose triangles are uneven, as walls and windows, with 3 shares of them in the shade of a screen", || {
        let cases = partly();
        cx.par_named("partial", cases.len(), |k| {
            let (poly, c, f) = &cases[k];
            let ws = [W { window: k % 2 == 1, ..wall(poly.clone(), B::Out, B::Out) }, screen(*c)];
            let Some(s) = shares(cx, "partial", &ws, 0, 300) else { return };
            let (raw, tol) = (s[0][0].max(0.).powf(2. / 3.), 5.5 * (f * (1. - f) / 300.).sqrt() + 0.02);
            cx.check((raw - (1. - f)).abs() < tol, || ("share of the sky of a wall partly covered".into(), format!("window {} {poly:?}: {f} of it is covered and {raw} sees the sky", k % 2 == 1)));
            cx.check(s[1][0] < 1e-6, || ("sky below".into(), format!("{poly:?}: {s:?}")));
        });
    });
    cx.section("boundaries", "walls of 1 and 2 layers and windows with every pair of boundaries, in three temperatures x infrared radiation of the sky given or derived from 4 sky covers x 2 dew points", || {
        let bs = [B::Out, B::Space(0), B::Space(1), B::Amb(-5.), B::Amb(31.), B::Adiabatic, B::Ground];
        cx.par_named("boundaries", bs.len() * bs.len() * 2, |k| {
            let (f, b, turned) = (bs[k % bs.len()], bs[k / bs.len() % bs.len()], k / bs.len() / bs.len() == 1);
            let tilt = if turned { 45. } else { 90. };
            // panes far from each other, and a hole in another direction among them
            let mut ws: Vec<W> = (0..5).map(|i| wall(rect(10., if i == 2 { 10. } else { tilt }, [i as f64 * 3000., 0., 20.], 2., 2.), f, b)).collect();
            ws[1].layers = 2; for i in 2..5 { ws[i].window = true; }
            ws[2].cat = if turned { "Opening" } else { "Door" }; ws[4].cat = if turned { "Door" } else { "Opening" };
            let is: Vec<(bool, usize)> = (0..5).filter(|i| ws[*i].cat != "Opening").map(|i| (ws[i].window, idx(&ws, i))).collect();
            let panes: Vec<usize> = (0..5).filter(|i| ws[*i].cat != "Opening").collect();
            let Some(r) = cx.no_panic(|| format!("boundaries {f:?} {b:?}"), || sim(&ws, &meta(0., 0., 0.), opts(4, 1, 1, None), true)) else { return };
            let mut s = match r { Ok(s) => s, Err(e) => { cx.outcome("refused"); let _ = e; return } };
            cx.outcome("built");
            // every node has its own temperature
            for j in 0..s.h.elements.len() { match s.h.elements[j] { E::SurfaceNodeTemperature(a, n) => s.st[j] = 10. + 3. * a as f64 + 0.7 * n as f64, E::FenestrationNodeTemperature(a, n) => s.st[j] = 40. + 3. * a as f64 + 0.7 * n as f64, _ => {} } }
            for db in [-12., 15., 33.] { for (dp, ir, cover) in [(5., Some(315.), 0.3), (5., Some(0.), 1.), (4., None, 0.), (4., None, 0.3), (11., None, 0.5), (11., None, 1.)] {
                for (w, i) in &is { s.set(ir_e(*w, *i, true), MARK); s.set(ir_e(*w, *i, false), MARK); }
                let before: Vec<f64> = (0..s.h.elements.len()).map(|j| s.st[j]).collect();
                let w = cw(db, dp, ir, cover);
                let Some(Ok(())) = cx.no_panic(|| "march".into(), || s.march(NIGHT, w)) else { cx.fail("march failed", &format!("{f:?} {b:?}")); return };
                cx.state(); cx.step();
                for (q, (win, i)) in is.iter().enumerate() { for front in [true, false] {
                    let (win, i) = (*win, *i);
                    let tilt = if panes[q] == 2 { 10. } else { tilt };
                    let nodes: Vec<f64> = (0..s.h.elements.len()).filter(|j| match s.h.elements[*j] { E::SurfaceNodeTemperature(a, _) => !win && a == i, E::FenestrationNodeTemperature(a, _) => win && a == i, _ => false }).map(|j| before[j]).collect();
                    let c = if front { tilt } else { 180. - tilt };
                    let (exp, tol) = match if front { f } else { b } {
                        B::Out => { let k = sky_share((1. + (c as f64).to_radians().cos()) / 2.); let sky = ir.unwrap_or(sky_ir(db, dp, cover)); (k * sky + (1. - k) * ir_of(db), 0.02 * (sky - ir_of(db)).abs() + 0.01) }
                        B::Space(_) => (ir_of(if front { nodes.iter().cloned().fold(f64::MAX, f64::min) } else { nodes.iter().cloned().fold(f64::MIN, f64::max) }), 1e-6),
                        B::Amb(t) => (ir_of(t), 1e-6),
                        B::Adiabatic | B::Ground => (MARK, 0.),
                    };
                    let v = s.get(ir_e(win, i, front));
                    cx.check((v - exp).abs() <= tol, || (format!("irradiance {:?}", std::mem::discriminant(if front { &f } else { &b })), format!("front {f:?} back {b:?} tilt {tilt} {} {i}, front side {front}: {v} W/m2 and should be {exp} with {w:?}", if win { "window" } else { "wall" })));
                } }
                for j in 0..before.len() {
                    let e = s.h.elements[j];
                    let mine = matches!(e, E::SurfaceFrontIRIrradiance(_) | E::SurfaceBackIRIrradiance(_) | E::FenestrationFrontIRIrradiance(_) | E::FenestrationBackIRIrradiance(_) | E::SurfaceFrontSolarIrradiance(_) | E::SurfaceBackSolarIrradiance(_) | E::FenestrationFrontSolarIrradiance(_) | E::FenestrationBackSolarIrradiance(_));
                    cx.check(mine || s.st[j] == before[j], || ("something else of the state was changed".into(), format!("{e:?}: {} -> {}", before[j], s.st[j])));
                }
            } }
        });
    });
}

// ---------------------------------------------------------------- L02
/// towards the sun (x east, y north), from the textbook; longitude in degrees east, clock time of the time zone
pub fn sun(lat: f64, lon: f64, gmt: f64, d: Date) -> V3 {
    let n = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][d.month as usize - 1] as f64 + d.day as f64;
    let b = (n - 1.) * std::f64::consts::TAU / 365.;
    let eot = 229.2 * (0.000075 + 0.001868 * b.cos() - 0.032077 * b.sin() - 0.014615 * (2. * b).cos() - 0.04089 * (2. * b).sin());
    let t = d.hour + (4. * (lon - 15. * gmt) + eot) / 60.;
    let w = ((t - 12.) * 15.).to_radians();
    let dec = (23.45 * (std::f64::consts::TAU * (284. + n) / 365.).sin()).to_radians();
    let l = lat.to_radians();
    [-dec.cos() * w.sin(), l.cos() * dec.sin() - l.sin() * dec.cos() * w.cos(), l.sin() * dec.sin() + l.cos() * dec.cos() * w.cos()]
}
fn frame(n: V3) -> (V3, V3) {
    let a = if n[2].abs() < 0.9 { [0., 0., 1.] } else { [1., 0., 0.] };
    let c = |a: V3, b: V3| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let u = c(a, n);
    let l = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]).sqrt();
    let u = [u[0] / l, u[1] / l, u[2] / l];
    (u, c(n, u))
}
/// the integral of the cosine over each patch of the sky, for a side that looks towards n
fn patches(n: V3, mf: usize) -> Vec<f64> {
    let r = ReinhartSky::new(mf);
    let (u, v) = frame(n);
    let mut k = vec![0.; r.n_bins];
    let m = 1500;
    for i in 0..m { for j in 0..m {
        let (rad, phi) = (((i as f64 + 0.5) / m as f64).sqrt(), (j as f64 + 0.5) / m as f64 * std::f64::consts::TAU);
        let (x, y, z) = (rad * phi.cos(), rad * phi.sin(), (1. - rad * rad).sqrt());
        let d: Vec<f64> = (0..3).map(|q| x * u[q] + y * v[q] + z * n[q]).collect();
        k[r.dir_to_bin(geometry::Vector3D::new(d[0], d[1], d[2]))] += std::f64::consts::PI / (m * m) as f64;
    } }
    k
}
fn normal(az: f64, tilt: f64) -> V3 { let (a, t) = (az.to_radians(), tilt.to_radians()); [a.sin() * t.sin(), a.cos() * t.sin(), t.cos()] }
fn wth(dni: f64, dhi: f64) -> CurrentWeather { CurrentWeather { direct_normal_radiation: dni, diffuse_horizontal_radiation: dhi, ..cw(15., 11., Some(300.), 0.) } }
fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }

pub fn l02(cx: &Ctx) {
    let places: Vec<(f64, f64, f64)> = cx.pick(vec![(-41.3, 174.78, 12.), (41.28, 2.07, 1.), (-33.4, -70.8, -4.), (5., -30., 3.)], vec![(-41.3, 174.78, 12.), (41.28, 2.07, 1.), (-33.4, -70.8, -4.), (5., -30., 3.), (60., 25., 2.), (0., 0., 0.), (-20., 120., 3.), (35., -100., -11.)]);
    let dates: Vec<(u8, u8)> = cx.pick(vec![(1, 10), (6, 21), (9, 22)], (1..=12).map(|m| (m, 15)).collect());
    let hours: Vec<f64> = cx.pick(vec![0.5, 7.5, 10., 12.5, 15., 18.5], (0..24).map(|h| h as f64 + 0.5).collect());
    let skies = [(0., 0.), (800., 100.), (300., 200.), (0., 250.), (950., 0.), (0., 0.7), (0.6, 0.)];
    let dirs: Vec<(f64, f64)> = vec![(0., 0.), (0., 90.), (45., 90.), (90., 90.), (135., 90.), (200., 60.), (300., 30.), (20., 120.)];
    for (mf, tag) in [(1usize, "1"), (2, "2")] {
        let (az_k, samples) = cx.pick((10usize, 2000usize), (20, 6000));
        cx.section(&format!("free mf{tag}"), &format!("walls and windows looking in 8 directions (and their backs), in {} places x {} dates x {} hours x {} skies; sky of {tag} subdivision(s)", places.len(), dates.len(), hours.len(), skies.len()), || {
            // the same walls for every place: calculated once, through the file of optical data
            let sc = Scratch::new("l02");
            let path = sc.path("optics.json");
            let path = path.to_string_lossy().to_string();
            let mut ws = Vec::new();
            // a hole, a window, a wall, a door, a wall, ... : the holes are not in the list of what is judged
            for (i, (az, tilt)) in dirs.iter().enumerate() { ws.push(W { window: i % 2 == 1, cat: ["Window", "Window", "Window", "Door"][i % 4], ..wall(rect(*az, *tilt, [4000. * i as f64, 10., 30.], 2., 2.), B::Out, B::Out) }); }
            ws.push(W { window: true, cat: "Opening", ..wall(rect(77., 50., [50., 7000., 30.], 2., 2.), B::Out, B::Out) });
            ws.rotate_right(1);
            let judged: Vec<(bool, usize)> = (1..ws.len()).map(|i| (ws[i].window, idx(&ws, i))).collect();
            let ks: Vec<[Vec<f64>; 2]> = dirs.iter().map(|(a, t)| { let n = normal(*a, *t); [patches(n, mf), patches([-n[0], -n[1], -n[2]], mf)] }).collect();
            let r = ReinhartSky::new(mf);
            let c_near: Vec<Vec<f64>> = (0..r.n_bins).map(|b| dirs.iter().map(|(a, t)| { let c = if b == 0 { [0., 0., -1.] } else { let v = r.bin_dir(b); [v.x, v.y, v.z] }; dot(normal(*a, *t), c) }).collect()).collect();
            if let Some(Err(e)) = cx.no_panic(|| "free".into(), || sim(&ws, &meta(0., 0., 0.), opts(az_k, samples, mf, Some(&path)), true)) { cx.fail("model refused", &e); return }
            cx.par_named("free", places.len() * dates.len() * hours.len(), |k| {
                let (p, (month, day), hour) = (places[k % places.len()], dates[k / places.len() % dates.len()], hours[k / places.len() / dates.len()]);
                let d = Date { month, day, hour };
                let Some(Ok(mut s)) = cx.no_panic(|| "free".into(), || sim(&ws, &meta(p.0, p.1, p.2), opts(az_k, samples, mf, Some(&path)), true)) else { cx.fail("model refused", "with the optical data of a previous run"); return };
                let to_sun = sun(p.0, p.1, p.2, d);
                for (dni, dhi) in skies {
                    if to_sun[2] < 0.05 && dni > 0. { continue }
                    let w = wth(dni, dhi);
                    let up = to_sun[2] > 0.05;
                    for (w, i) in &judged { for f in [true, false] { s.set(sol_e(*w, *i, f), 0.); } }
                    let Some(r) = cx.no_panic(|| format!("march {p:?} {d} {dni} {dhi}"), || s.march(d, w)) else { continue };
                    if let Err(e) = r { if up { cx.fail("march failed", &format!("{p:?} {d} {dni} {dhi}: {e}")); } cx.outcome("refused"); continue }
                    cx.state(); cx.step();
                    let sky = if dni + dhi < 1e-4 { None } else {
                        match PerezSky::gen_sky_vec(mf, &Solar::new(p.0.to_radians(), -p.1.to_radians(), -(p.2 * 15.).to_radians()), d, w, SkyUnits::Solar, 0.2, true, true) { Ok(v) => Some(v), Err(_) => continue }
                    };
                    for i in 0..judged.len() { for (side, f) in [true, false].into_iter().enumerate() {
                        let v = 2. * s.get(sol_e(judged[i].0, judged[i].1, f));
                        let det = || format!("{p:?} {d} direct {dni} diffuse {dhi} wall {:?} side {side}: {v}", dirs[i]);
                        let Some(sky) = &sky else { cx.check(v == 0., || ("sun at night".into(), det())); continue };
                        let exp: f64 = (0..ks[i][side].len()).map(|b| ks[i][side][b] * sky.get(b, 0).unwrap()).sum();
                        // the error of the sampling is the largest when one patch has it all
                        let err: f64 = (0..ks[i][side].len()).map(|b| { let q = ks[i][side][b] / std::f64::consts::PI; 
                            // a sliver of a patch may get a ray, or none
                            let q = if b > 0 && c_near[b][i] * (if f { 1. } else { -1. }) > -0.3 { q + 1. / (az_k * samples) as f64 } else { q };
                            (sky.get(b, 0).unwrap() * std::f64::consts::PI).powi(2) * q / (az_k * samples) as f64 }).sum::<f64>().sqrt();
                        cx.check((v - exp).abs() <= 7. * err + 0.01 * exp + (0.1 * (dni + dhi)).min(0.5), || ("solar irradiance".into(), format!("{} W/m2 and should be {exp} +- {err}", det())));
                        if up && to_sun[2] > 0.15 && dni > 0. {
                            let n = normal(dirs[i].0, dirs[i].1);
                            let c = dot(n, to_sun) * if f { 1. } else { -1. };
                            // patches of the sky are some 12 degrees wide
                            let (lo, hi) = ((c.clamp(-1., 1.).acos() + 0.25).cos().max(0.) * dni, (c.clamp(-1., 1.).acos() - 0.25).max(0.).cos().max(0.) * dni + 1.6 * dhi + 0.25 * (dni * to_sun[2] + dhi));
                            let lo = if c.acos() + 0.25 > 3.14 { 0. } else { lo };
                            cx.check(v >= 0.75 * lo - 1. && v <= 1.3 * hi + 20., || ("sun on the wrong side".into(), format!("{} W/m2; the sun is at {to_sun:?}, thus between {lo} and {hi}", det())));
                        }
                    } }
                }
            });
        });
    }
    cx.section("history", "every sequence of 4 steps out of night, clear sky, cloudy sky and clear sky in the afternoon, from two initial states, with 7 x 7 boundaries", || {
        let bs = [B::Out, B::Space(0), B::Space(1), B::Amb(-5.), B::Adiabatic, B::Ground];
        cx.par_named("history", bs.len() * bs.len(), |k| {
            let (f, b) = (bs[k % bs.len()], bs[k / bs.len()]);
            let mut ws: Vec<W> = (0..5).map(|i| wall(rect(10., 80., [i as f64 * 3000., 0., 20.], 2., 2.), f, b)).collect();
            // two walls, a hole, a window and a door
            for i in 2..5 { ws[i].window = true; }
            ws[2].cat = "Opening"; ws[4].cat = "Door";
            ws[2].front = B::Out; ws[2].back = B::Space(0);
            let Some(Ok(mut s)) = cx.no_panic(|| "history".into(), || sim(&ws, &meta(-41.3, 174.78, 12.), opts(2, 100, 1, None), true)) else { cx.fail("model refused", &format!("{f:?} {b:?}")); return };
            let steps = [(2., 0., 0.), (11., 700., 100.), (12., 0., 200.), (17., 500., 90.)];
            let es: Vec<(E, bool)> = [0, 1, 3, 4].into_iter().flat_map(|i| [(sol_e(ws[i].window, idx(&ws, i), true), f), (sol_e(ws[i].window, idx(&ws, i), false), b)]).map(|(e, b)| (e, matches!(b, B::Out | B::Space(_)))).collect();
            let mut go = |s: &mut Sim, st: (f64, f64, f64)| { let r = cx.no_panic(|| "history".into(), || s.march(Date { month: 2, day: 2, hour: st.0 }, wth(st.1, st.2))); if !matches!(r, Some(Ok(()))) { cx.fail("march failed", &format!("{st:?}")); } cx.step(); };
            // what each of the steps brings
            let mut inst = [[0.; 8]; 4];
            for (q, st) in steps.iter().enumerate() { for (e, _) in &es { s.set(*e, 0.); } go(&mut s, *st); for (j, (e, sun)) in es.iter().enumerate() { inst[q][j] = 2. * s.get(*e); cx.check(if q == 0 || !*sun { inst[q][j] == 0. } else { inst[q][j] > 1. }, || ("sun or no sun".into(), format!("{f:?} {b:?} {e:?} step {q}: {}", inst[q][j]))); } }
            for seq in 0..256 { for start in [0., 333.] {
                let mut old = [start; 8];
                for (e, _) in &es { s.set(*e, start); }
                for t in 0..4 {
                    let q = seq >> (2 * t) & 3;
                    go(&mut s, steps[q]);
                    for (j, (e, sun)) in es.iter().enumerate() {
                        let exp = if q == 0 || !*sun { 0. } else { (old[j] + inst[q][j]) / 2. };
                        let v = s.get(*e);
                        cx.check((v - exp).abs() < 1e-6, || ("mean of the period".into(), format!("{f:?} {b:?} {e:?}: step {t} of {seq} from {start}: {v} and should be {exp}")));
                        old[j] = v;
                    }
                    cx.state();
                }
            } }
        });
    });
    cx.section("partial", "5 polygons whose triangles are uneven, as walls and windows, with 3 shares of them in the shade of a screen, under a diffuse sky and under the sun", || {
        let cases = partly();
        let d = Date { month: 3, day: 21, hour: 12.2 };
        let points = 300;
        cx.par_named("partial", cases.len(), |k| {
            let (poly, c, f) = &cases[k];
            let w = W { window: k % 2 == 1, ..wall(poly.clone(), B::Out, B::Out) };
            let skies = [(0., 300.), (800., 0.)];
            let mut v = [[0.; 2]; 2];
            for (q, far) in [0., 9000.].into_iter().enumerate() {
                let mut sc = screen(*c);
                for p in sc.poly.iter_mut() { p[0] += far }
                let o = if far == 0. { opts(points, 100, 1, None) } else { opts(2, 15000, 1, None) };
                let Some(Ok(mut s)) = cx.no_panic(|| "partial".into(), || sim(&[w.clone(), sc], &meta(0., 0., 0.), o, true)) else { cx.fail("model refused", "partial"); return };
                for (j, (dni, dhi)) in skies.iter().enumerate() {
                    s.set(sol_e(w.window, 0, true), 0.);
                    let Some(Ok(())) = cx.no_panic(|| "partial".into(), || s.march(d, wth(*dni, *dhi))) else { cx.fail("march failed", "partial"); return };
                    cx.state(); cx.step();
                    v[q][j] = s.get(sol_e(w.window, 0, true));
                }
            }
            for (j, sky) in skies.iter().enumerate() {
                let share = v[0][j] / v[1][j];
                // the rays that find the sun are few
                let tol = 5.5 * (f * (1. - f) / points as f64).sqrt() + if j == 0 { 0.03 } else { 0.07 };
                cx.check((share - (1. - f)).abs() < tol, || ("sun of a wall partly covered".into(), format!("window {} {poly:?} direct and diffuse {sky:?}: {f} of it is covered and gets {share} of the sun", k % 2 == 1)));
            }
        });
    });
    cx.section("shade", "sunny walls behind an obstacle, in front of one, inside a closed room and inside a room with a window to the sun", || {
        // noon at the equinox in the south: the sun is in the north
        let d = Date { month: 9, day: 22, hour: 12. };
        let m = meta(-40., 0., 0.);
        let to_sun = sun(-40., 0., 0., d);
        let run = |ws: &[W], dni: f64, dhi: f64, points: usize| -> Option<Vec<[f64; 2]>> {
            let Some(Ok(mut s)) = cx.no_panic(|| "shade".into(), || sim(ws, &m, opts(points, cx.pick(40000, 160000) / points, 1, None), true)) else { cx.fail("model refused", "shade"); return None };
            let Some(Ok(())) = cx.no_panic(|| "shade".into(), || s.march(d, wth(dni, dhi))) else { cx.fail("march failed", "shade"); return None };
            cx.state(); cx.step();
            let (mut a, mut b) = (0, 0);
            Some(ws.iter().map(|w| { let i = if w.window { a += 1; a - 1 } else { b += 1; b - 1 }; [2. * s.get(sol_e(w.window, i, true)), 2. * s.get(sol_e(w.window, i, false))] }).collect())
        };
        cx.par_named("shade", 39, |k| if k >= 3 {
            let (k, q) = ((k - 3) / 2, [0.2, 2.][(k - 3) % 2]);
            let (az, tilt, win) = ([0., 30., -30.][k % 3], [90., 60., 30.][k / 3 % 3], k / 9 == 1);
            let n = normal(az, tilt);
            let dummy = wall(rect(0., 90., [5000., 5000., -100.], 0.1, 0.1), B::Out, B::Out);
            let w = W { window: win, ..wall(rect(az, tilt, [0., 0., 30.], 1., 1.), B::Out, B::Out) };
            let Some(free) = run(&[dummy.clone(), w.clone()], 800., 0., 8) else { return };
            // the sun is as wide as a patch of the sky
            let sky = PerezSky::gen_sky_vec(1, &Solar::new(-40f64.to_radians(), 0., 0.), d, wth(800., 0.), SkyUnits::Solar, 0.2, true, true);
            let Ok(sky) = sky else { cx.fail("no sky", "shade"); return };
            let free_e: f64 = patches(n, 1).iter().enumerate().map(|(b, k)| k * sky.get(b, 0).unwrap()).sum();
            cx.check((free_e / (dot(n, to_sun) * 800.) - 1.).abs() < 0.3, || ("harness: the sun is elsewhere".into(), format!("{free_e}")));
            cx.check((free[1][0] - free_e).abs() < 0.35 * free_e, || ("beam on a free wall".into(), format!("azimuth {az} tilt {tilt}: {} and should be about {free_e}", free[1][0])));
            {
                // a large screen across the beam; a dark one would be nicer
                let sc = wall(rect(az, tilt, [n[0] * q, n[1] * q, 30. + n[2] * q], 40., 40.), B::Out, B::Out);
                if let Some(v) = run(&[dummy.clone(), w.clone(), sc.clone()], 800., 0., 8) { cx.check(v[1][0] < 0.25 * free_e, || ("screen across the beam".into(), format!("azimuth {az} tilt {tilt} screen at {q}: {} of {free_e}", v[1][0]))); }
                let sc = wall(rect(az, tilt, [-n[0] * q, -n[1] * q, 30. - n[2] * q], 40., 40.), B::Out, B::Out);
                if let Some(v) = run(&[dummy.clone(), w.clone(), sc], 800., 0., 8) { cx.check((v[1][0] - free_e).abs() < 0.35 * free_e, || ("screen behind".into(), format!("azimuth {az} tilt {tilt} screen at {q} behind: {} and should be about {free_e}", v[1][0]))); }
            }
        } else {
            let glazed = [None, Some(0usize), Some(1)][k];
            // a 4 x 4 x 3 room with a wall to the north (0) and one to the south (1); fronts look outside
            let c = [0., 0., 11.5];
            let mut ws = vec![];
            for (az, tilt, off, w, h) in [(0., 90., [0., 2., 0.], 4., 3.), (180., 90., [0., -2., 0.], 4., 3.), (90., 90., [2., 0., 0.], 4., 3.), (270., 90., [-2., 0., 0.], 4., 3.), (0., 0., [0., 0., 1.5], 4., 4.), (0., 180., [0., 0., -1.5], 4., 4.)] {
                ws.push(wall(rect(az, tilt, [c[0] + off[0], c[1] + off[1], c[2] + off[2]], w, h), B::Out, B::Space(0)));
            }
            if let Some(g) = glazed { ws[g].window = true; }
            let Some(v) = run(&ws, 800., 100., cx.pick(100, 200)) else { return };
            let inside: f64 = (0..6).filter(|i| Some(*i) != glazed).map(|i| v[i][1] * if i < 4 { 12. } else { 16. }).sum();
            let det = || format!("room with window {glazed:?}: {v:?}");
            match glazed {
                None => { cx.check(inside < 0.01 * 64. * 800., || ("sun in a closed room".into(), det())); }
                Some(g) => {
                    let through = v[g][0] * 12.;
                    // each ray is reflected once at most
                    cx.check(inside < 1.1 * through && inside > 0.4 * through, || ("sun through a window".into(), format!("{}; {inside} W inside and {through} W on the window", det())));
                    // the sun that comes in from the north reaches the floor, and the wall behind less than the floor when it is high
                    if g == 0 { cx.check(v[5][1] > v[4][1], || ("sun on the ceiling".into(), det())); }
                }
            }
            for i in 0..6 { let c = dot(normal([0., 180., 90., 270., 0., 0.][i], [90., 90., 90., 90., 0., 180.][i]), to_sun); if c > 0.3 { cx.check(v[i][0] > 0.7 * c * 800., || ("outside of the room".into(), format!("{i} {}", det()))); } }
        }); 
    });
}

// ---------------------------------------------------------------- L03
fn some_walls(n: usize, m: usize) -> Vec<W> {
    (0..n + m).map(|i| W { window: i >= n, cat: if i < n { "Window" } else { ["Window", "Opening", "Door"][(i - n) % 3] }, ..wall(rect(40. * i as f64, 90., [i as f64 * 50., 0., 10.], 2., 2.), B::Out, if i % 2 == 0 { B::Space(0) } else { B::Out }) }).collect()
}
pub fn l03(cx: &Ctx) {
    let d = Date { month: 2, day: 2, hour: 12. };
    let m = meta(-41.3, 174.78, 12.);
    // what a model does in some weathers, from a clean state
    let run = |ws: &[W], path: Option<&str>, mf: usize, heat: bool| -> Option<Result<(Vec<String>, Vec<f64>), String>> {
        cx.no_panic(|| format!("{} walls with mf {mf}, thermal model {heat}, data {}", ws.len(), path.is_some()), || {
            let mut s = sim(ws, &m, opts(2, 50, mf, path), heat)?;
            let mut r = vec![];
            for w in [wth(0., 0.), wth(700., 100.), wth(0., 250.)] { s.march(d, w)?; cx.step(); for i in 0..s.h.elements.len() { r.push(s.st[i]) } }
            Ok((s.h.elements.iter().map(|e| format!("{e:?}")).collect(), r))
        })
    };
    let maxn = cx.pick(3, 5);
    cx.section("reuse", &format!("models of 0 to {maxn} walls x 0 to {maxn} windows, sky of 1 to 3 subdivisions, with and without a thermal model: calculated, calculated and written, read, and read while asking for another subdivision"), || {
        cx.par_named("reuse", (maxn + 1) * (maxn + 1) * 3 * 2, |k| {
            let (n, w, mf, heat) = (k % (maxn + 1), k / (maxn + 1) % (maxn + 1), k / (maxn + 1) / (maxn + 1) % 3 + 1, k / (maxn + 1) / (maxn + 1) / 3 == 1);
            let ws = some_walls(n, w);
            let sc = Scratch::new(&format!("l03-{k}"));
            let path = sc.path("data.json").to_string_lossy().to_string();
            let key = format!("{n} walls {w} windows mf {mf} thermal model {heat}");
            let Some(r0) = run(&ws, None, mf, heat) else { return };
            let Ok((el0, v0)) = r0 else { cx.fail("refused", &format!("{key}: {:?}", r0.err())); return };
            let Some(r1) = run(&ws, Some(&path), mf, heat) else { return };
            let Ok((el1, v1)) = r1 else { cx.fail("refused when writing", &format!("{key}: {:?}", r1.err())); return };
            cx.check(el0 == el1 && v0.len() == v1.len(), || ("another state when writing".into(), key.clone()));
            let Ok(bytes) = std::fs::read(&path) else { cx.fail("no file of optical data", &key); return };
            for mf2 in [mf, mf % 3 + 1] {
                let Some(r2) = run(&ws, Some(&path), mf2, heat) else { continue };
                let Ok((el2, v2)) = r2 else { cx.fail("refused when reading", &format!("{key}: {:?}", r2.err())); continue };
                cx.state();
                cx.check(el1 == el2, || ("another state when reading".into(), format!("{key}: {el1:?} {el2:?}")));
                let same = v1.len() == v2.len() && v1.iter().zip(&v2).all(|(a, b)| (a - b).abs() <= 1e-3 * a.abs().max(1.)); // colours and such have few decimals
                cx.check(same, || ("the data read gives something else".into(), format!("{key} then mf {mf2}: {v1:?} {v2:?}")));
                cx.check(std::fs::read(&path).ok().as_ref() == Some(&bytes), || ("the file changed".into(), key.clone()));
            }
        });
    });
    cx.section("torn", "the file cut short at every byte, and with every byte removed: refused, or understood as data that suits the model", || {
        let sc = Scratch::new("l03-torn");
        let path = sc.path("data.json").to_string_lossy().to_string();
        let ws = some_walls(1, 1);
        if !matches!(run(&ws, Some(&path), 1, true), Some(Ok(_))) { cx.fail("refused", "torn"); return }
        let Ok(full) = std::fs::read(&path) else { return };
        // one byte of each kind of place is enough where digits go
        let at: Vec<usize> = (0..full.len()).filter(|i| *i < 400 || *i + 400 > full.len() || !full[*i].is_ascii_digit() || i % cx.pick(17, 3) == 0).collect();
        cx.par_named("torn", at.len(), |k| {
            let i = at[k];
            for (cut, data) in [(true, full[..i].to_vec()), (false, full.iter().enumerate().filter(|(j, _)| *j != i).map(|x| *x.1).collect())] {
                let p = sc.path(&format!("{k}-{cut}.json")).to_string_lossy().to_string();
                if std::fs::write(&p, &data).is_err() { return }
                cx.state();
                let r = run(&ws, Some(&p), 1, true);
                let whole = serde_json::from_slice::<Value>(&data).is_ok();
                match r { Some(Ok(_)) => { cx.outcome("accepted"); cx.check(whole, || ("torn data accepted".into(), format!("byte {i} cut {cut}"))); } Some(Err(_)) => cx.outcome("refused"), None => {} }
                let _ = std::fs::remove_file(&p);
            }
        });
    });
    cx.section("other", "data written for each model of up to 2 walls and 2 windows, and used for each of them: refused unless it has one entry per wall and window", || {
        let sc = Scratch::new("l03-other");
        let all: Vec<(usize, usize)> = (0..3).flat_map(|a| (0..3).map(move |b| (a, b))).collect();
        for (a, b) in &all { if !matches!(run(&some_walls(*a, *b), Some(&sc.path(&format!("{a}-{b}.json")).to_string_lossy()), 1, true), Some(Ok(_))) { cx.fail("refused", "other"); } }
        for (a, b) in &all { for (c, d) in &all {
            let r = run(&some_walls(*c, *d), Some(&sc.path(&format!("{a}-{b}.json")).to_string_lossy()), 1, true);
            cx.state();
            match r { Some(Ok(_)) => { cx.check((a, b) == (c, d), || ("data of another model accepted".into(), format!("data of {a} walls and {b} windows in a model of {c} and {d}"))); } Some(Err(e)) => { cx.check((a, b) != (c, d), || ("own data refused".into(), format!("{a} {b}: {e}"))); } None => {} }
        } }
        // not a file, not a place to write
        for p in [sc.path("."), sc.path("nowhere/data.json")] { cx.check(matches!(run(&some_walls(1, 0), Some(&p.to_string_lossy()), 1, true), Some(Err(_))), || ("impossible path accepted".into(), format!("{p:?}"))); }
    });
}
