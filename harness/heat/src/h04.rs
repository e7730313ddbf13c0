use crate::build::*;
use heat::cavity::Cavity;
use heat::convection::ConvectionParams;
use heat::gas::{Gas, AIR, ARGON, KRYPTON, XENON};
use mcc::*;
use model::{SimulationStateElement as E, TerrainClass};

/// properties of the gas at the mean temperature (K): conductivity, viscosity, heat capacity, molecular mass (ISO 15099 Annex B)
pub fn props(g: usize, t: f64) -> (f64, f64, f64, f64) {
    let c: [([f64; 2], [f64; 2], [f64; 2], f64); 4] = [
        ([2.873e-3, 7.760e-5], [3.723e-6, 4.94e-8], [1002.7370, 1.2324e-2], 28.97),
        ([2.285e-3, 5.149e-5], [3.379e-6, 6.451e-8], [521.9285, 0.], 39.948),
        ([9.443e-4, 2.826e-5], [2.213e-6, 7.777e-8], [248.0907, 0.], 83.8),
        ([4.538e-4, 1.723e-5], [1.069e-6, 7.414e-8], [158.3397, 0.], 131.30),
    ];
    let c = c[g];
    (c.0[0] + c.0[1] * t, c.1[0] + c.1[1] * t, c.2[0] + c.2[1] * t, c.3)
}
/// the Nusselt number of ISO 15099:2003 (5.3.3); `gamma` in degrees, 0 being horizontal and heated from below
pub fn nusselt(ra: f64, gamma: f64, ag: f64) -> f64 {
    let nu60 = || { let g = 0.5 / (1. + (ra / 3160.).powf(20.6)).powf(0.1); let a = (1. + (0.0936 * ra.powf(0.314) / (1. + g)).powi(7)).powf(1. / 7.); a.max((0.104 + 0.175 / ag) * ra.powf(0.283)) };
    let nu90 = || { let a = if ra > 5e4 { 0.0673838 * ra.powf(1. / 3.) } else if ra > 1e4 { 0.028154 * ra.powf(0.4134) } else { 1. + 1.7596678e-10 * ra.powf(2.2984755) }; a.max(0.242 * (ra / ag).powf(0.272)) };
    if gamma < 60. {
        let rc = ra * gamma.to_radians().cos();
        let pos = |x: f64| x.max(0.);
        1. + 1.44 * pos(1. - 1708. / rc) * (1. - 1708. * (1.8 * gamma).to_radians().sin().powf(1.6) / rc) + pos((rc / 5830.).powf(1. / 3.) - 1.)
    } else if gamma <= 90. { let x = (gamma - 60.) / 30.; nu60() * (1. - x) + nu90() * x }
    else { 1. + (nu90() - 1.) * gamma.to_radians().sin() }
}
pub fn rayleigh(g: usize, th: f64, tf: f64, tb: f64) -> f64 {
    let t = (tf + tb) / 2. + 273.15;
    let (l, mu, cp, m) = props(g, t);
    let rho = 101325. * m / (8314.46261815324 * t);
    rho * rho * th.powi(3) * 9.81 * cp * (tf - tb).abs() / (t * mu * l)
}
/// natural convection (TARP): `up` is the cosine of the tilt of the side that is in contact with the air
pub fn natural(t_air: f64, t_s: f64, up: f64) -> f64 {
    let d = (t_air - t_s).abs();
    let c = up.abs();
    let h = if d < 1e-3 || c < 1e-3 { 1.31 * d.powf(1. / 3.) } else if (t_s > t_air) == (up > 0.) { 9.482 * d.powf(1. / 3.) / (7.238 - c) } else { 1.81 * d.powf(1. / 3.) / (1.382 + c) };
    h.max(0.1)
}
pub fn terrain(t: TerrainClass, z: f64) -> f64 {
    if z < 1e-5 { return 0. }
    let (a, d) = match t { TerrainClass::Country => (0.14, 270.), TerrainClass::Suburbs => (0.22, 370.), TerrainClass::City => (0.33, 460.), TerrainClass::Ocean => (0.10, 210.), TerrainClass::Urban => (0.22, 370.) };
    27f64.powf(0.14) * (z / d).powf(a)
}
/// wind plus natural convection; `n` is the normal pointing to the air
pub fn exterior(t_air: f64, t_s: f64, n: [f64; 3], wind: f64, dir: f64, area: f64, per: f64, zmod: f64) -> f64 {
    let windward = n[2].abs() >= 0.98 || n[0] * dir.to_radians().sin() + n[1] * dir.to_radians().cos() > 0.;
    2.537 * if windward { 1. } else { 0.5 } * 1.67 * (per * wind * zmod / area).sqrt() + natural(t_air, t_s, n[2])
}

pub fn h04(cx: &Ctx) {
    let gases: [(&str, Gas); 4] = [("air", AIR), ("argon", ARGON), ("krypton", KRYPTON), ("xenon", XENON)];
    let angles: Vec<f64> = cx.pick(vec![0., 15., 30., 45., 59., 60., 62., 75., 89., 90., 92., 120., 150., 179., 180.], (0..=180).map(|x| x as f64).collect());
    let temps: Vec<f64> = cx.pick(vec![-20., 0., 10., 21., 22., 22.001, 45., 80.], vec![-40., -20., -5., 0., 5., 10., 15., 20., 21., 22., 22.001, 23., 30., 45., 60., 80., 120.]);
    let ths: Vec<f64> = cx.pick(vec![0.001, 0.006, 0.012, 0.02, 0.05, 0.1, 0.3], vec![0.001, 0.003, 0.006, 0.009, 0.012, 0.016, 0.02, 0.03, 0.05, 0.075, 0.1, 0.2, 0.3, 0.6]);
    cx.section("cavities", &format!("4 gases x {} thicknesses x {} tilts x all pairs of {} temperatures x 3 heights", ths.len(), angles.len(), temps.len()), || {
        cx.par_named("cavities", 4 * ths.len() * angles.len(), |k| {
            let (g, th, an) = (k % 4, ths[k / 4 % ths.len()], angles[k / 4 / ths.len()]);
            let ang = an.to_radians();
            for tf in &temps { for tb in &temps { for height in [0.5, 1., 2.5] {
                cx.state();
                let key = || format!("{} cavity of {th} m, {height} m high, tilted {an} between {tf} and {tb} C", gases[g].0);
                let Some(h) = cx.no_panic(key, || gases[g].1.cavity_convection(height, th, ang, *tf, *tb)) else { continue };
                cx.step();
                let t = (tf + tb) / 2. + 273.15;
                let lam = props(g, t).0;
                // the front of a cavity tilted 0 degrees is on top
                let gamma = if tf > tb { 180. - an } else { an };
                let ra = rayleigh(g, th, *tf, *tb).max(1e-7);
                cx.check(h * th / lam >= 1. - 1e-9, || (key(), format!("conducts less ({h}) than still gas ({})", lam / th)));
                cx.check(close(h, nusselt(ra, gamma, height / th) * lam / th, 1e-6), || (key(), format!("convection {h} instead of {}", nusselt(ra, gamma, height / th) * lam / th)));
                let (e1, e2) = (0.84, 0.2);
                let mk = |angle: f64| Cavity { thickness: th, height, gas: gases[g].1.clone(), eout: e1, ein: e2, angle };
                let u = mk(ang).u_value(*tf, *tb);
                let rad = 4. * SIGMA * t.powi(3) / (1. / e1 + 1. / e2 - 1.);
                cx.check(close(u, h + rad, 1e-9), || (key(), format!("U {u} instead of {}", h + rad)));
                let v = mk((180. - an).to_radians()).u_value(*tb, *tf);
                cx.check(close(u, v, 1e-6), || (key(), format!("U {u} but {v} when turned around")));
            } } }
        });
    });
    cx.section("all Rayleigh numbers", "4 gases x 4 tilts x every representable thickness around the limits of the correlations", || {
        // the thickness at which the Rayleigh number reaches each limit, and its neighbours
        for (g, (name, gas)) in gases.iter().enumerate() { for an in [0., 45., 90., 135.] { for lim in [1e2, 1e4, 5e4, 1e5, 2e7] { for (tf, tb) in [(10., 20.), (0., 50.), (-20., 21.)] {
            let c = rayleigh(g, 1., tf, tb);
            let mut th = (lim / c).powf(1. / 3.);
            for _ in 0..400 { th = f64::from_bits(th.to_bits() - 1) }
            for _ in 0..800 {
                cx.state();
                th = f64::from_bits(th.to_bits() + 1);
                let key = || format!("{name} cavity of {th} m tilted {an} between {tf} and {tb} C");
                let Some(h) = cx.no_panic(key, || gas.cavity_convection(1., th, (an as f64).to_radians(), tf, tb)) else { break };
                let lam = props(g, (tf + tb) / 2. + 273.15).0;
                let ra = rayleigh(g, th, tf, tb);
                let w = [nusselt(ra * (1. - 1e-12), an, 1. / th), nusselt(ra, an, 1. / th), nusselt(ra * (1. + 1e-12), an, 1. / th)].map(|x| x * lam / th);
                cx.step();
                cx.check(w.iter().any(|w| close(h, *w, 1e-9)), || (key(), format!("convection {h} instead of {}", w[1])));
            }
        } } } }
    });
    let ups: Vec<f64> = cx.pick(vec![0., 5e-4, 2e-3, 0.01, 0.035, 0.2, 0.5, 0.7071, 0.9, 0.999, 1.], (0..=200).map(|x| x as f64 / 200.).chain([5e-4, 2e-3, 0.0123]).collect());
    let dts: Vec<f64> = cx.pick(vec![0., 5e-4, 2e-3, 0.05, 0.7, 3.3, 12., 40.], (0..=60).map(|x| (x as f64 * 0.2).powi(2)).chain([5e-4, 2e-3]).collect());
    cx.section("correlations", &format!("6 roughnesses x {} inclinations either way x {} differences of temperature either way x 5 winds x 4 shapes x windward or leeward", ups.len(), dts.len()), || {
        const ROUGH: [f64; 6] = [2.17, 1.67, 1.52, 1.13, 1.11, 1.0];
        for (ri, rf) in ROUGH.iter().enumerate() { for up in ups.iter().flat_map(|u| [*u, -u]) { for dt in dts.iter().flat_map(|d| [*d, -d]) {
            let (ta, ts) = (18.25, 18.25 + dt);
            let p = ConvectionParams { air_temperature: ta, air_speed: 0., rad_temperature: 3., surface_temperature: ts, roughness_index: ri, cos_surface_tilt: -up }; // the surfaces pass it upside down
            cx.state();
            let key = || format!("air {ta} C, surface {ts} C, cosine of the tilt {up}, roughness {ri}");
            let Some(n) = cx.no_panic(key, || p.get_tarp_natural_convection_coefficient()) else { continue };
            cx.step();
            // on the limits both sides of them are right
            let limit = (dt.abs() - 1e-3).abs() < 1e-9 || (up.abs() - 1e-3).abs() < 1e-9;
            cx.check(limit || close(n, natural(ta, ts, up), 1e-9), || (key(), format!("natural convection {n} instead of {}", natural(ta, ts, up))));
            for v in [0., 0.3, 2., 7., 25.] { for (area, per) in [(1., 4.), (0.04, 0.8), (12., 14.), (600., 100.)] { for windward in [true, false] {
                let p = ConvectionParams { air_speed: v, ..p };
                let Some(h) = cx.no_panic(key, || p.get_tarp_convection_coefficient(area, per, windward)) else { continue };
                cx.step();
                let want = n + 2.537 * if windward { 1. } else { 0.5 } * rf * (per * v / area).sqrt();
                cx.check(close(h, want, 1e-9), || (format!("{}, wind {v}, area {area}, perimeter {per}, {}", key(), if windward { "windward" } else { "leeward" }), format!("convection {h} instead of {want}")));
            } } }
        } } }
    });
    let dirs: Vec<(f64, f64)> = cx.pick(vec![(0., 90.), (90., 90.), (200., 90.), (45., 45.), (0., 0.), (0., 180.), (180., 120.), (30., 89.), (250., 91.5)], { let mut v = vec![(0., 0.), (0., 180.), (0., 1.), (10., 179.)]; for a in 0..12 { for t in [20., 45., 70., 89., 90., 100., 135., 160.] { v.push((a as f64 * 30., t)) } } v });
    let winds = [(0., 0.), (4., 0.), (4., 100.), (9., 190.), (2., 315.)];
    let ts = cx.pick(vec![(22., 22.), (10., 21.5), (35., 12.), (22., 22.0005)], vec![(22., 22.), (10., 21.5), (35., 12.), (22., 22.0005), (22.01, 22.), (-20., 30.), (60., 5.), (0., 1.)]);
    let bounds = [B::Out, B::Space(0), B::Amb(15.), B::Adiabatic];
    let nd = dirs.len();
    cx.section("surfaces of walls", &format!("{nd} orientations x 4 x 4 boundaries x surface or window x {} temperatures x {} winds x 5 terrains x 3 heights", ts.len(), winds.len()), || {
        cx.par_named("surfaces", nd * 16 * 2, |k| {
            let ((az, tilt), fb, bb, window) = (dirs[k % nd], bounds[k / nd % 4].clone(), bounds[k / nd / 4 % 4].clone(), k / nd / 16 == 1);
            if fb == B::Adiabatic && bb == B::Adiabatic { return }
            for (zi, z) in [3., 30., 0.].into_iter().enumerate() { for ter in [None, Some(TerrainClass::Country), Some(TerrainClass::Suburbs), Some(TerrainClass::City), Some(TerrainClass::Ocean), Some(TerrainClass::Urban)] {
                if zi > 0 && tilt != 90. { continue }
                let wall = Wall { layers: vec![Lay::Sol(sol(0.1, 0.8, 1700., 800.)), Lay::Sol(sol(0.1, 0.5, 1000., 800.))], poly: rect(az, tilt, z), front: fb.clone(), back: bb.clone(), window, hs: (None, None) };
                let b = Building { walls: vec![wall.clone()], volumes: vec![50.], ..Default::default() };
                let mut model = model_of(&b).unwrap();
                let mut header = model.take_state().unwrap();
                if let Some(t) = ter { let mut s = model::SiteDetails::new(); s.set_terrain(t); model.site_details = Some(s) }
                use communication::SimulationModel;
                let tm = match cx.no_panic(|| format!("{wall:?}"), || heat::heat_model::ThermalModel::new(&meta(), (), &model, &mut header, 4)) { Some(Ok(t)) => t, Some(Err(e)) => { cx.fail(&format!("{wall:?}"), &e); continue } None => continue };
                let state = header.take_values().unwrap();
                let mem = tm.allocate_memory(&state).unwrap();
                let mut sim = Sim { model, header, tm, state, mem };
                let n = wall.normal();
                let zm = terrain(ter.unwrap_or_default(), wall.z());
                for (t_air, t_s) in &ts { for (wind, dir) in winds {
                    cx.state();
                    // the air at the back is cooler and its surface warmer, so that sides cannot be confused
                    let (tfa, tba) = (*t_air, t_air - 3.25);
                    let tfa = if let B::Amb(t) = fb { t } else { tfa };
                    let tba = if let B::Amb(t) = bb { t } else { tba };
                    let (tfa, tba) = (if fb == B::Adiabatic { tba } else { tfa }, if bb == B::Adiabatic { tfa } else { tba });
                    let nn = sim.nodes(0, window).count();
                    let (tfs, tbs) = (*t_s, t_s + 1.5);
                    let nodes: Vec<f64> = (0..nn).map(|i| if i == 0 { tfs } else if i == nn - 1 { tbs } else { 50. }).collect();
                    sim.set_nodes(0, window, &nodes);
                    sim.ir(0, window, ir_of(-7.), ir_of(3.));
                    let key = || format!("{} facing azimuth {az} tilt {tilt} at {z} m ({ter:?}), front {fb:?} {tfa} C, back {bb:?} {tba} C, surfaces at {tfs} and {tbs}, wind {wind} from {dir}", if window { "window" } else { "wall" });
                    let Some((fe, be, fh, bh)) = cx.no_panic(key, || if window { sim.tm.fenestrations[0].calc_border_conditions(&sim.state, tfa, tba, (dir as f64).to_radians(), wind) } else { sim.tm.surfaces[0].calc_border_conditions(&sim.state, tfa, tba, (dir as f64).to_radians(), wind) }) else { continue };
                    cx.step();
                    let back_n = [-n[0], -n[1], -n[2]];
                    let want = |b: &B, ta: f64, tsf: f64, n: [f64; 3], ir: f64| match b {
                        B::Out => (ta, ir, tsf, exterior(ta, tsf, n, wind, dir, wall.area(), wall.perimeter(), zm)),
                        _ => (ta, ta, tsf, natural(ta, tsf, n[2])),
                    };
                    let wf = want(&fb, tfa, tfs, n, -7.);
                    let wb = want(&bb, tba, tbs, back_n, 3.);
                    let (wf, wb) = (if fb == B::Adiabatic { wb } else { wf }, if bb == B::Adiabatic { wf } else { wb });
                    for (side, e, h, w) in [("front", fe, fh, wf), ("back", be, bh, wb)] {
                        cx.check(close(e.air_temperature, w.0, 1e-9) && (e.rad_temperature - w.1).abs() < 1e-6 && close(e.surface_temperature, w.2, 1e-9), || (format!("{} {side}", key()), format!("air {} radiant {} surface {} C instead of {} {} {}", e.air_temperature, e.rad_temperature, e.surface_temperature, w.0, w.1, w.2)));
                        cx.check(close(h, w.3, 1e-6), || (format!("{} {side}", key()), format!("convection {h} instead of {}", w.3)));
                    }
                } }
            } }
        });
    });
}
