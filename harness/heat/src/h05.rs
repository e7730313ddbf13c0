use crate::build::*;
use calendar::Date;
use crate::h04::*;
use mcc::*;
use model::SimulationStateElement as E;

fn air_rho(t: f64) -> f64 { 101325. * 28.97 / (8314.46261815324 * (t + 273.15)) }
fn air_cp(t: f64) -> f64 { 1002.7370 + 1.2324e-2 * (t + 273.15) }

#[derive(Clone, Debug)]
struct Air { inf_v: f64, inf_t: f64, vent_v: f64, vent_t: f64 }

pub fn h05(cx: &Ctx) {
    let s = |th, k, rho, cp| Lay::Sol(sol(th, k, rho, cp));
    let pane = |th: f64, tau: f64| Lay::Sol(Sol { tau, af: 0.1, ab: 0.15, ..sol(th, 1., 2500., 840.) });
    let heavy = vec![s(0.2, 0.816, 1700., 800.)];
    let light = vec![s(0.012, 0.16, 950., 840.), s(0.1, 0.0252, 17.5, 2400.), s(0.012, 0.16, 950., 840.)];
    let glazing = vec![pane(0.003, 0.8), Lay::Gas("Air", 0.012), pane(0.006, 0.5)];
    let scale = |p: Vec<[f64; 3]>, x: f64| -> Vec<[f64; 3]> { p.iter().map(|v| [v[0] * x, v[1] * x, v[2]]).collect() };
    // every way of putting two of these elements between three spaces and the outdoors
    let ends = [B::Out, B::Space(0), B::Space(1), B::Space(2), B::Amb(12.), B::Adiabatic];
    let mut places = vec![];
    for f in &ends { for b in &ends { if f != b || *f == B::Out { if !(*f == B::Adiabatic && *b == B::Adiabatic) { places.push((f.clone(), b.clone())) } } } }
    let np = places.len();
    // what happens in the spaces: (heaters (ideal, space, W), lamps (space, W))
    let gains: Vec<(Vec<(bool, usize, f64)>, Vec<(usize, f64)>)> = vec![
        (vec![], vec![]),
        (vec![(false, 1, 1500.)], vec![]),
        (vec![(true, 0, -800.), (false, 2, 300.)], vec![(2, 60.)]),
        (vec![(true, 2, 500.), (true, 2, 250.)], vec![(0, 40.), (0, 25.), (1, 10.)]),
        (vec![(true, 1, 700.), (false, 0, 200.)], vec![(1, 30.), (2, 20.)]),
    ];
    let airs: Vec<Option<[Air; 3]>> = vec![
        None,
        Some([Air { inf_v: 0., inf_t: 0., vent_v: 0., vent_t: 0. }, Air { inf_v: 0.03, inf_t: -5., vent_v: 0., vent_t: 40. }, Air { inf_v: 0., inf_t: 5., vent_v: 0.08, vent_t: 14. }]),
        Some([Air { inf_v: 0.01, inf_t: 30., vent_v: 0.02, vent_t: 18. }, Air { inf_v: 0., inf_t: 0., vent_v: 0., vent_t: 0. }, Air { inf_v: 0.5, inf_t: -12., vent_v: 0.3, vent_t: 25. }]),
    ];
    let zts = [[22., 22., 22.], [18., 27., 21.], [-3., 35., 60.]];
    let wths = vec![Wth { t: -6., wind: 4., dir: 20. }, Wth { t: 33., wind: 0., dir: 0. }, Wth { t: 22., wind: 9., dir: 270. }, Wth { t: 12., wind: 0.6, dir: 350. }];
    cx.section("zones", &format!("3 spaces x {np} x {np} places of a wall and of a lighter wall or window x {} gains x {} air flows x {} temperatures x {} weathers, three substeps each", gains.len(), airs.len(), zts.len(), wths.len()), || {
        cx.par_named("zones", np * np, |k| {
            let ((f1, b1), (f2, b2)) = (places[k % np].clone(), places[k / np].clone());
            for (gi, (heaters, lamps)) in gains.iter().enumerate() { for (ai, air) in airs.iter().enumerate() {
                let window = (gi + ai) % 2 == 0;
                let hole = gi >= 2;
                let walls = vec![
                    Wall { layers: heavy.clone(), poly: scale(rect(0., 90., 3.), 2.), front: f1.clone(), back: b1.clone(), window: false, hs: (None, None) },
                    Wall { layers: if window { glazing.clone() } else { light.clone() }, poly: rect(90., if gi == 1 { 40. } else { 90. }, 3.), front: f2.clone(), back: b2.clone(), window, hs: (None, None) },
                ];
                let volumes = vec![30., 75., 12.];
                let b = Building { walls: walls.clone(), volumes: volumes.clone(), lamps: lamps.iter().map(|l| l.0).collect(), heaters: heaters.iter().map(|h| (h.0, h.1)).collect(), air: air.is_some(), hole };
                let base = || format!("wall {f1:?}|{b1:?}, {} {f2:?}|{b2:?}, heaters {heaters:?}, lamps {lamps:?}, air {air:?}", if window { "window" } else { "wall" });
                let mut sim = match cx.no_panic(base, || Sim::new(&b, 4)) { Some(Ok(s)) => s, Some(Err(e)) => { cx.fail(&base(), &format!("refused: {e}")); continue } None => continue };
                sim.tm.dt_subdivisions = 1;
                let dt = sim.tm.dt;
                for zt in &zts { for w in &wths {
                    cx.state();
                    let key = || format!("{}, spaces at {zt:?}, {w:?}", base());
                    for i in 0..3 { sim.zone(i, zt[i]) }
                    for (i, h) in heaters.iter().enumerate() { sim.set(E::HeatingCoolingPowerConsumption(i), h.2) }
                    for (i, l) in lamps.iter().enumerate() { sim.set(E::LuminairePowerConsumption(i), l.1) }
                    if let Some(a) = air { for i in 0..3 { sim.set(E::SpaceInfiltrationVolume(i), a[i].inf_v); sim.set(E::SpaceInfiltrationTemperature(i), a[i].inf_t); sim.set(E::SpaceVentilationVolume(i), a[i].vent_v); sim.set(E::SpaceVentilationTemperature(i), a[i].vent_t); } }
                    let which = [(0, false), (if window { hole as usize } else { 1 }, window)];
                    for (i, win) in which { let n = sim.get_nodes(i, win).len(); sim.set_nodes(i, win, &vec![22.; n]); sim.solar(i, win, 50., 20.); sim.ir(i, win, ir_of(w.t - 5.), ir_of(w.t)); }
                    for sub in 0..3 {
                        let old: Vec<f64> = (0..3).map(|i| sim.zone_t(i)).collect();
                        match cx.no_panic(key, || sim.march(w)) { Some(Ok(())) => {} Some(Err(e)) => { cx.fail(&key(), &e); break } None => break }
                        cx.step();
                        let (mut a, mut bb) = ([0.0; 3], [0.0; 3]);
                        for h in heaters { a[h.1] += h.2 }
                        for l in lamps { a[l.0] += l.1 }
                        if let Some(x) = air { for i in 0..3 { for (v, t) in [(x[i].inf_v, x[i].inf_t), (x[i].vent_v, x[i].vent_t)] { let m = v * air_rho(t) * air_cp(t); a[i] += m * t; bb[i] += m } } }
                        for (wi, (i, win)) in which.into_iter().enumerate() {
                            let wall = &walls[wi];
                            let t = sim.get_nodes(i, win);
                            let n = wall.normal();
                            let air_t = |b: &B| match b { B::Out => w.t, B::Space(s) => old[*s], B::Amb(t) => *t, B::Adiabatic => f64::NAN };
                            let side = |b: &B, ts: f64, n: [f64; 3]| { let ta = air_t(b); match b { B::Out => exterior(ta, ts, n, w.wind, w.dir, wall.area(), wall.perimeter(), terrain(Default::default(), wall.z())), _ => natural(ta, ts, n[2]) } };
                            let (tf, tb) = (t[0], *t.last().unwrap());
                            let (mut hf, mut hb) = (side(&wall.front, tf, n), side(&wall.back, tb, [-n[0], -n[1], -n[2]]));
                            let (mut taf, mut tab) = (air_t(&wall.front), air_t(&wall.back));
                            if wall.front == B::Adiabatic { hf = hb; taf = tab }
                            if wall.back == B::Adiabatic { hb = hf; tab = taf }
                            let el = if win { [E::FenestrationFrontConvectionCoefficient(i), E::FenestrationBackConvectionCoefficient(i), E::FenestrationFrontConvectiveHeatFlow(i), E::FenestrationBackConvectiveHeatFlow(i)] } else { [E::SurfaceFrontConvectionCoefficient(i), E::SurfaceBackConvectionCoefficient(i), E::SurfaceFrontConvectiveHeatFlow(i), E::SurfaceBackConvectiveHeatFlow(i)] };
                            let got: Vec<f64> = el.iter().map(|e| sim.get(*e)).collect();
                            let want = [hf, hb, hf * (tf - taf), hb * (tb - tab)];
                            cx.check(got.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-6 * (1. + b.abs())), || (format!("{} wall {wi} substep {sub}", key()), format!("coefficients and flows {got:.5?} instead of {want:.5?}")));
                            if let B::Space(s) = wall.front { a[s] += hf * wall.area() * tf; bb[s] += hf * wall.area() }
                            if let B::Space(s) = wall.back { a[s] += hb * wall.area() * tb; bb[s] += hb * wall.area() }
                        }
                        for i in 0..3 {
                            let c = volumes[i] * air_rho(old[i]) * air_cp(old[i]);
                            let e = if bb[i] < 1e-9 { old[i] + a[i] * dt / c } else { a[i] / bb[i] + (old[i] - a[i] / bb[i]) * (-bb[i] * dt / c).exp() };
                            let g = sim.zone_t(i);
                            cx.check((g - e).abs() < 1e-6 * (1. + e.abs()), || (format!("{} space {i} substep {sub}", key()), format!("goes from {} to {g} C in {dt} s instead of {e}", old[i])));
                        }
                    }
                } }
            } }
        });
    });
    // a timestep is the sequence of its substeps, each with the weather at its own end
    let trends = [Trend { start: Wth { t: 10., wind: 3., dir: 80. }, t: 12., wind: 0., dir: 0. }, Trend { start: Wth { t: 25., wind: 2., dir: 10. }, t: -20., wind: 6., dir: 90. }];
    let ns = [1usize, 2, 4, 12, 20];
    cx.section("substeps", &format!("3 spaces x {np} places of a wall x {np} of a window x {} timesteps x 2 weathers that change all the time, from noon and before midnight: the substeps add up to the timestep and each uses the weather at its end", ns.len()), || {
        cx.par_named("substeps", np * np, |k| {
            let ((f1, b1), (f2, b2)) = (places[k % np].clone(), places[k / np].clone());
            let walls = vec![
                Wall { layers: if k % 2 == 0 { heavy.clone() } else { light.clone() }, poly: rect(0., 90., 3.), front: f1.clone(), back: b1.clone(), window: false, hs: (None, None) },
                Wall { layers: glazing.clone(), poly: rect(90., 90., 3.), front: f2.clone(), back: b2.clone(), window: true, hs: (None, None) },
            ];
            let b = Building { walls: walls.clone(), volumes: vec![30., 75., 12.], lamps: vec![1], heaters: vec![(false, 0)], ..Default::default() };
            for n in ns { for (wi, w) in trends.iter().enumerate() {
                cx.state();
                let key = || format!("{n} steps per hour, weather {wi}: wall {f1:?}|{b1:?}, window {f2:?}|{b2:?}");
                let start = if wi == 0 { Date { month: 6, day: 15, hour: 12.0 } } else { Date { month: 6, day: 15, hour: 24. - 0.5 / n as f64 } };
                let make = || { let mut s = Sim::new(&b, n)?; for i in 0..3 { s.zone(i, 18. + 3. * i as f64) } s.set(E::LuminairePowerConsumption(0), 60.); s.set(E::HeatingCoolingPowerConsumption(0), 400.);
                    for win in [false, true] { let m = s.get_nodes(0, win).len(); s.set_nodes(0, win, &(0..m).map(|i| 19. + 0.5 * i as f64).collect::<Vec<_>>()); s.solar(0, win, 120., 30.); s.ir(0, win, ir_of(5.), ir_of(15.)); } Ok::<Sim, String>(s) };
                let (mut whole, mut parts) = match cx.no_panic(key, || (make(), make())) { Some((Ok(a), Ok(b))) => (a, b), Some((Err(e), _)) | Some((_, Err(e))) => { cx.fail(&key(), &e); continue } None => continue };
                let sub = whole.tm.dt_subdivisions;
                cx.check((whole.tm.dt * sub as f64 - 3600. / n as f64).abs() < 1e-6, || (key(), format!("{sub} substeps of {} s are not a timestep", whole.tm.dt)));
                let ok = cx.no_panic(key, || whole.march_at(start, w));
                if !matches!(ok, Some(Ok(()))) { cx.fail(&key(), &format!("{ok:?}")); continue }
                parts.tm.dt_subdivisions = 1;
                let h0 = (start.hour - 12.) + if start.day == 15 { 0. } else { 24. };
                for i in 0..sub {
                    let mut d = start;
                    let h = start.hour + i as f64 * parts.tm.dt / 3600.;
                    if h >= 24. { d.day = 16; d.hour = h - 24. } else { d.hour = h }
                    let ok = cx.no_panic(key, || parts.march_at(d, w));
                    if !matches!(ok, Some(Ok(()))) { cx.fail(&key(), &format!("substep {i}: {ok:?}")); return }
                    cx.step();
                }
                let all = |s: &Sim| -> Vec<f64> { let mut v: Vec<f64> = (0..3).map(|i| s.zone_t(i)).collect(); v.extend(s.get_nodes(0, false)); v.extend(s.get_nodes(0, true)); v };
                let (a, p) = (all(&whole), all(&parts));
                cx.check(a.iter().zip(&p).all(|(x, y)| (x - y).abs() < 1e-6), || (key(), format!("a timestep leads to {a:.5?} but its {sub} substeps lead to {p:.5?}")));
                // what the outdoor faces saw last
                let last = w.at(h0 + 1. / n as f64);
                for (win, wall) in [(false, &walls[0]), (true, &walls[1])] {
                    let t = whole.get_nodes(0, win);
                    let n3 = wall.normal();
                    for (back, bd) in [(false, &wall.front), (true, &wall.back)] {
                        if *bd != B::Out { continue }
                        let ts = if back { *t.last().unwrap() } else { t[0] };
                        let nn = if back { [-n3[0], -n3[1], -n3[2]] } else { n3 };
                        let h = exterior(last.t, ts, nn, last.wind, last.dir, wall.area(), wall.perimeter(), terrain(Default::default(), wall.z()));
                        let q = whole.get(match (win, back) { (false, false) => E::SurfaceFrontConvectiveHeatFlow(0), (false, true) => E::SurfaceBackConvectiveHeatFlow(0), (true, false) => E::FenestrationFrontConvectiveHeatFlow(0), (true, true) => E::FenestrationBackConvectiveHeatFlow(0) });
                        let e = h * (ts - last.t);
                        cx.check((q - e).abs() < 1e-4 * (1. + e.abs()), || (format!("{} {} {}", key(), if win { "window" } else { "wall" }, if back { "back" } else { "front" }), format!("loses {q:.4} W/m2 to the air at the end of the timestep instead of {e:.4}")));
                    }
                }
            } }
        });
    });
    // a building at the temperature of everything around it stays there; whole timesteps
    cx.section("equilibrium", &format!("3 spaces x {np} x {np} places of two walls x 3 temperatures x 2 timesteps: nothing happens when everything is at the same temperature"), || {
        cx.par_named("equilibrium", np * np, |k| {
            for t in [0., 22., 41.] { for n in [1, 12] {
                cx.state();
                let fix = |b: &B| if let B::Amb(_) = b { B::Amb(t) } else { b.clone() };
                let ((f1, b1), (f2, b2)) = (&places[k % np], &places[k / np]);
                let walls = vec![Wall { layers: heavy.clone(), poly: rect(0., 90., 3.), front: fix(f1), back: fix(b1), window: false, hs: (None, None) }, Wall { layers: glazing.clone(), poly: rect(90., 40., 3.), front: fix(f2), back: fix(b2), window: true, hs: (None, None) }];
                let b = Building { walls, volumes: vec![30., 75., 12.], ..Default::default() };
                let key = || format!("everything at {t} C, {n} steps per hour: wall {f1:?}|{b1:?}, window {f2:?}|{b2:?}");
                let mut sim = match cx.no_panic(key, || Sim::new(&b, n)) { Some(Ok(s)) => s, _ => continue };
                for i in 0..3 { sim.zone(i, t) }
                for (i, w) in [(0, false), (0, true)] { sim.ir(i, w, ir_of(t), ir_of(t)); sim.solar(i, w, 0., 0.); let n = sim.get_nodes(i, w).len(); sim.set_nodes(i, w, &vec![t; n]); }
                for _ in 0..2 { if !matches!(cx.no_panic(key, || sim.march(&Wth { t, wind: 3., dir: 50. })), Some(Ok(()))) { return } cx.step(); }
                let mut all: Vec<f64> = (0..3).map(|i| sim.zone_t(i)).collect();
                all.extend(sim.get_nodes(0, false)); all.extend(sim.get_nodes(0, true));
                cx.check(all.iter().all(|x| (x - t).abs() < 1e-6), || (key(), format!("temperatures become {all:.6?}")));
            } }
        });
    });
}
