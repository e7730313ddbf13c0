use crate::build::*;
use heat::discretization::UValue;
use heat::glazing::Glazing;
use mcc::*;
pub fn close(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * a.abs().max(b.abs()).max(1e-300) }

/// What each layer of a wall is divided into, worked out from the discretisation itself: (nodes of the layer, elements)
pub fn spans(ne: &[usize]) -> Vec<(usize, usize)> {
    let mut at = 0;
    ne.iter().map(|n| { let s = at; at += (*n).max(1); (s, at) }).collect()
}

pub fn solids() -> Vec<Sol> {
    vec![
        sol(0.2, 0.816, 1700., 800.),   // concrete
        sol(0.1, 0.0252, 17.5, 2400.),  // polyurethane
        sol(0.012, 0.16, 950., 840.),   // plasterboard
        sol(0.003, 1., 2500., 840.),    // glass
        sol(0.11, 0.6, 1600., 850.),    // brick
        sol(0.001, 50., 7800., 450.),   // steel sheet
        sol(0.02, 0.14, 600., 1210.),   // wood
        sol(0.6, 1.5, 2000., 900.),     // thick stone
    ]
}

pub fn h01(cx: &Ctx) {
    let sl = solids();
    let thick: Vec<f64> = cx.pick(vec![0.001, 0.01, 0.04, 0.05, 0.051, 0.1, 0.15, 0.2, 0.33, 0.5, 1.0], vec![0.001, 0.003, 0.006, 0.01, 0.02, 0.03, 0.04, 0.049, 0.05, 0.051, 0.07, 0.08, 0.099, 0.1, 0.101, 0.12, 0.15, 0.17, 0.2, 0.25, 0.33, 0.5, 0.77, 1.0]);
    let ns = [1usize, 2, 3, 4, 6, 10, 12, 15, 20, 30, 60];
    let one = |cx: &Ctx, layers: Vec<Lay>, n: usize| {
        cx.state();
        let key = || format!("{:?} at {n} steps per hour", layers.iter().map(|l| match l { Lay::Sol(s) => format!("{}m k{} rc{}", s.th, s.k, s.rho * s.cp), Lay::Gas(g, t) => format!("{g} {t}m") }).collect::<Vec<_>>());
        let tilt = 60.0f64;
        let b = Building { walls: vec![Wall { layers: layers.clone(), poly: rect(30., tilt, 3.), front: B::Out, back: B::Out, window: false, hs: (None, None) }], ..Default::default() };
        let sim = match cx.no_panic(key, || Sim::new(&b, n)) { Some(Ok(s)) => s, Some(Err(e)) => { cx.fail(&key(), &format!("refused: {e}")); return } None => return };
        let d = &sim.tm.surfaces[0].discretization;
        let main_dt = 3600. / n as f64;
        let sub = d.tstep_subdivision.max(1);
        cx.check(sim.tm.dt_subdivisions >= 1 && close(sim.tm.dt * sim.tm.dt_subdivisions as f64, main_dt, 1e-9), || (key(), format!("{} steps of {} s do not make {main_dt} s", sim.tm.dt_subdivisions, sim.tm.dt)));
        cx.check(sim.tm.dt <= main_dt / sub as f64 + 1e-9, || (key(), format!("the wall asks for {sub} substeps but the model takes {} of {} s", sim.tm.dt_subdivisions, sim.tm.dt)));
        if d.n_elements.len() != layers.len() { cx.fail(&key(), &format!("elements {:?}", d.n_elements)); return; }
        let sp = spans(&d.n_elements);
        let nodes = sp.last().unwrap().1 + 1;
        if d.segments.len() != nodes { cx.fail(&key(), &format!("{} nodes for elements {:?}", d.segments.len(), d.n_elements)); return; }
        cx.step();
        let mut mass = vec![0.0; nodes];
        for (l, lay) in layers.iter().enumerate() {
            let (a, z) = sp[l];
            let ne = d.n_elements[l];
            match lay {
                Lay::Sol(s) => {
                    let mut r = 0.;
                    for i in a..z {
                        match &d.segments[i].1 { UValue::Solid(u) => { r += 1. / u; cx.check(close(*u, s.k * (z - a) as f64 / s.th, 1e-9), || (key(), format!("conductance {u} of element {i} of layer {l}"))); } o => cx.fail(&key(), &format!("element {i} of solid layer {l} is {o:?}")) }
                    }
                    cx.check(close(r, s.th / s.k, 1e-9), || (key(), format!("layer {l} has resistance {r} instead of {}", s.th / s.k)));
                    if ne > 0 {
                        cx.check(s.th / ne as f64 <= 0.05 + 1e-9, || (key(), format!("elements of layer {l} are {} m thick", s.th / ne as f64)));
                        for i in a..z { mass[i] += s.rho * s.cp * s.th / ne as f64 / 2.; mass[i + 1] += s.rho * s.cp * s.th / ne as f64 / 2.; }
                        // Euler's restriction with a surface coefficient of 20 W/m2K, which is enough for RK4
                        let dx = s.th / ne as f64;
                        let dt = main_dt / sub as f64;
                        let l2 = dt * 20. / (s.rho * s.cp * dx) + 2. * dt * s.k / (s.rho * s.cp * dx * dx);
                        cx.check(l2 <= 2. + 1e-9, || (key(), format!("layer {l}: {ne} elements with steps of {dt} s are unstable ({l2})")));
                    } else {
                        // a layer is only left without mass when no timestep of a minute or more (up to 13 substeps) suits it
                        let e = (s.th / 0.05 - 1e-9).ceil();
                        let dx = s.th / e;
                        let easy = (1..=13).any(|q| { let dt = main_dt / q as f64; let l2 = dt * 20. / (s.rho * s.cp * dx) + 2. * dt * s.k / (s.rho * s.cp * dx * dx); dt >= 60. && l2 <= 0.25 });
                        cx.check(!easy, || (key(), format!("layer {l} lost its thermal mass although it can be simulated")));
                    }
                }
                Lay::Gas(g, t) => {
                    cx.check(ne == 0, || (key(), format!("gas layer {l} has {ne} elements")));
                    match &d.segments[a].1 {
                        UValue::Cavity(c) => {
                            let (ein, eout) = (match layers[l + 1] { Lay::Sol(s) => s.ef, _ => 0. }, match layers[l - 1] { Lay::Sol(s) => s.eb, _ => 0. });
                            cx.check(c.thickness == *t && close(c.angle, tilt.to_radians(), 1e-9) && c.eout == eout && c.ein == ein, || (key(), format!("cavity of layer {l}: thickness {} angle {} emissivities {} {}", c.thickness, c.angle, c.eout, c.ein)));
                            let gm = match *g { "Air" => 28.97, "Argon" => 39.948, "Krypton" => 83.8, _ => 131.30 };
                            cx.check(c.gas.mass() == gm, || (key(), format!("gas {g} has molecular mass {}", c.gas.mass())));
                        }
                        o => cx.fail(&key(), &format!("gas layer {l} is {o:?}")),
                    }
                }
            }
        }
        for i in 0..nodes { cx.check(close(d.segments[i].0, mass[i], 1e-9), || (key(), format!("node {i} has {} J/m2K instead of {}", d.segments[i].0, mass[i]))); }
        cx.check(matches!(d.segments[nodes - 1].1, UValue::Back), || (key(), "the last node is not the back".into()));
        // the chunks partition the nodes into those with and without mass
        let s = &sim.tm.surfaces[0];
        let mut seen = vec![0; nodes];
        for (massive, ch) in [(true, &s.massive_chunks), (false, &s.nomass_chunks)] {
            for (a, z) in ch.iter() { for i in *a..*z { seen[i] += 1; cx.check((mass[i] > 1e-5) == massive, || (key(), format!("node {i} is taken as {}", if massive { "massive" } else { "massless" }))); }
                cx.check(*a == 0 || (mass[*a - 1] > 1e-5) != massive, || (key(), format!("chunk ({a},{z}) is not whole")));
            }
        }
        cx.check(seen.iter().all(|x| *x == 1), || (key(), format!("chunks visit the nodes {seen:?} times")));
        cx.outcome(&format!("{} of {} layers with mass", d.n_elements.iter().filter(|x| **x > 0).count(), layers.len()));
    };
    cx.section("single layers", &format!("{} materials x {} thicknesses x {} timesteps", sl.len(), thick.len(), ns.len()), || {
        cx.par_named("single", sl.len() * thick.len() * ns.len(), |k| {
            let mut s = sl[k % sl.len()];
            s.th = thick[k / sl.len() % thick.len()];
            one(cx, vec![Lay::Sol(s)], ns[k / sl.len() / thick.len()]);
        });
    });
    let nl = sl.len();
    cx.section("stacks", &format!("all stacks of 2 and 3 layers of {nl} materials and 4 gases x 5 timesteps"), || {
        let gases = ["Air", "Argon", "Krypton", "Xenon"];
        cx.par_named("stacks", nl * nl * (nl + 5), |k| {
            let (a, b, m) = (k % nl, k / nl % nl, k / nl / nl);
            let mut v = vec![Lay::Sol(sl[a])];
            if m < nl { v.push(Lay::Sol(Sol { ef: 0.3, eb: 0.2, ..sl[m] })) } else if m < nl + 4 { v.push(Lay::Gas(gases[m - nl], 0.012 + 0.01 * (m - nl) as f64)) }
            v.push(Lay::Sol(Sol { ef: 0.5, eb: 0.8, ..sl[b] }));
            for n in cx.pick(vec![1, 4, 12, 30], vec![1, 2, 3, 4, 6, 10, 12, 15, 20, 30, 60]) { one(cx, v.clone(), n); }
        });
    });
    cx.section("two gaps", &format!("all stacks of 3 out of {nl} materials with two different gaps between them, and their default or given emissivities"), || {
        let gases = ["Air", "Argon", "Krypton", "Xenon"];
        cx.par_named("gaps", nl * nl * nl * 2, |k| {
            let (a, b, c, def) = (k % nl, k / nl % nl, k / nl / nl % nl, k / nl / nl / nl == 1);
            let e = |s: Sol, ef: f64, eb: f64| Lay::Sol(Sol { ef: if def { 0.84 } else { ef }, eb, ..s });
            for g in 0..4 {
                one(cx, vec![e(sl[a], 0.9, 0.15), Lay::Gas(gases[g], 0.012 + 0.004 * g as f64), e(sl[b], 0.35, 0.84), Lay::Gas(gases[(g + 1) % 4], 0.02), e(sl[c], 0.55, 0.75)], 4);
            }
        });
    });
}

/// Absorbed by each layer, reflected and transmitted for unit radiation on the front: the linear system of the radiation
/// that goes both ways in every gap.
pub fn net(layers: &[(f64, f64, f64)]) -> (Vec<f64>, f64, f64) {
    let n = layers.len();
    // unknowns: p_1..p_n (towards the back), m_0..m_{n-1} (towards the front)
    let dim = 2 * n;
    let (pi, mi) = (|i: usize| i - 1, |i: usize| n + i);
    let mut a = vec![vec![0.0; dim + 1]; dim];
    for (i, (t, rf, rb)) in layers.iter().enumerate() {
        let r = i;
        a[r][pi(i + 1)] += 1.;
        if i == 0 { a[r][dim] += t } else { a[r][pi(i)] -= t }
        if i + 1 < n { a[r][mi(i + 1)] -= rb }
        let r = n + i;
        a[r][mi(i)] += 1.;
        if i == 0 { a[r][dim] += rf } else { a[r][pi(i)] -= rf }
        if i + 1 < n { a[r][mi(i + 1)] -= t }
    }
    for c in 0..dim {
        let p = (c..dim).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        for r in 0..dim { if r != c && a[r][c] != 0. { let f = a[r][c] / a[c][c]; for k in c..=dim { let v = a[c][k]; a[r][k] -= f * v; } } }
    }
    let x: Vec<f64> = (0..dim).map(|i| a[i][dim] / a[i][i]).collect();
    let p = |i: usize| if i == 0 { 1. } else { x[pi(i)] };
    let m = |i: usize| if i == n { 0. } else { x[mi(i)] };
    let abs = layers.iter().enumerate().map(|(i, (t, rf, rb))| (1. - t - rf) * p(i) + (1. - t - rb) * m(i + 1)).collect();
    (abs, m(0), p(n))
}

pub fn h02(cx: &Ctx) {
    let mut g: Vec<(f64, f64, f64)> = vec![];
    for t in [0., 0.1, 0.5, 0.9] { for rf in [0., 0.1, 0.45, 0.9] { for rb in [0., 0.3, 0.85] { if t + rf <= 1. && t + rb <= 1. { g.push((t, rf, rb)) } } } }
    let ng = g.len();
    let deep: usize = cx.pick(3, 4);
    cx.section("stacks of panes", &format!("all stacks of 1 to {deep} panes out of {ng} with different front and back reflectance"), || {
        cx.par_named("panes", ng * ng, |k| {
            let mut stacks: Vec<Vec<usize>> = vec![vec![k % ng, k / ng]];
            if k / ng == 0 { stacks.push(vec![k % ng]) }
            let mut last = vec![vec![k % ng, k / ng]];
            for _ in 2..deep { last = last.iter().flat_map(|s| (0..ng).map(move |x| { let mut s = s.clone(); s.push(x); s })).collect(); stacks.extend(last.clone()); }
            let gl: Vec<Glazing> = g.iter().map(|(t, rf, rb)| Glazing::new(*t, *rf, *rb)).collect();
            for s in stacks {
                cx.state();
                let key = || format!("panes (tau, rho_f, rho_b) {:?}", s.iter().map(|i| g[*i]).collect::<Vec<_>>());
                let lay: Vec<Glazing> = s.iter().map(|i| gl[*i]).collect();
                let (abs, r, t) = net(&s.iter().map(|i| g[*i]).collect::<Vec<_>>());
                let back: Vec<(f64, f64, f64)> = s.iter().rev().map(|i| (g[*i].0, g[*i].2, g[*i].1)).collect();
                let (_, rb, tb) = net(&back);
                let Some((al, c)) = cx.no_panic(key, || (Glazing::alphas(&lay), Glazing::combine_layers(&lay))) else { continue };
                cx.step();
                cx.check(al.len() == s.len() && al.iter().zip(&abs).all(|(x, y)| (x - y).abs() < 1e-9), || (key(), format!("absorbed {al:?} instead of {abs:?}")));
                cx.check((c.tau() - t).abs() < 1e-9 && (c.rho_front() - r).abs() < 1e-9 && (c.rho_back() - rb).abs() < 1e-9 && (t - tb).abs() < 1e-9, || (key(), format!("together tau {} rho_f {} rho_b {} instead of {t} {r} {rb}", c.tau(), c.rho_front(), c.rho_back())));
                cx.check((al.iter().sum::<f64>() + c.tau() + c.rho_front() - 1.).abs() < 1e-9 && al.iter().all(|x| *x >= -1e-12), || (key(), format!("absorbed {al:?} + reflected {} + transmitted {} is not all", c.rho_front(), c.tau())));
            }
        });
    });
    let small: Vec<usize> = (0..ng).filter(|i| g[*i].0 > 0.).step_by(3).collect();
    let n4 = small.len();
    cx.section("four panes", &format!("all stacks of 4 panes out of {n4}: what each of them absorbs"), || {
        cx.par_named("panes", n4 * n4, |k| {
            for c in 0..n4 { for d in 0..n4 {
                cx.state();
                let s = [small[k % n4], small[k / n4], small[c], small[d]];
                let key = || format!("panes (tau, rho_f, rho_b) {:?}", s.map(|i| g[i]));
                let lay: Vec<Glazing> = s.iter().map(|i| Glazing::new(g[*i].0, g[*i].1, g[*i].2)).collect();
                let (abs, _, _) = net(&s.map(|i| g[i]));
                let Some(al) = cx.no_panic(key, || Glazing::alphas(&lay)) else { continue };
                cx.step();
                cx.check(al.len() == 4 && al.iter().zip(&abs).all(|(x, y)| (x - y).abs() < 1e-9), || (key(), format!("absorbed {al:?} instead of {abs:?}")));
            } }
        });
    });
    // inside walls and windows
    let mk = |th: f64, k: f64, rc: f64, tau: f64, af: f64, ab: f64| Sol { tau, af, ab, ..sol(th, k, rc / 800., 800.) };
    let panes = vec![mk(0.003, 1., 2e6, 0.8, 0.1, 0.1), mk(0.006, 1., 2e6, 0.5, 0.4, 0.15), mk(0.1, 0.8, 1.4e6, 0.3, 0.2, 0.6), mk(0.004, 0.9, 2e6, 0.004, 0.5, 0.7)];
    let np = panes.len();
    let opaque = vec![mk(0.2, 0.8, 1.4e6, 0., 0.7, 0.4), mk(0.003, 1., 2e6, 0., 0.35, 0.9), mk(0.05, 0.03, 1e5, 0., 0.2, 0.95)];
    let all: Vec<Sol> = panes.iter().chain(&opaque).cloned().collect();
    let mut walls: Vec<Vec<usize>> = vec![]; // indices in `all`; 100 is a gas
    for a in 0..all.len() {
        walls.push(vec![a]);
        for b in 0..all.len() {
            walls.push(vec![a, 100, b]);
            if a >= np && b >= np { walls.push(vec![a, b]) }
            for c in 0..all.len() { walls.push(vec![a, 100, b, 100, c]); if a >= np && c >= np { for d in np..all.len() { if b == np { walls.push(vec![a, d, c]) } } } }
        }
    }
    let nw = walls.len();
    cx.section("absorbed by walls", &format!("{nw} walls and windows of up to 3 solid layers x surface or window: where the radiation on either side is absorbed"), || {
        cx.par_named("walls", nw * 2, |k| {
            cx.state();
            let (ids, window) = (&walls[k % nw], k / nw == 1);
            let key = || format!("{} of layers {ids:?} (0-3 panes, 4-6 opaque, 100 gas)", if window { "window" } else { "wall" });
            let layers: Vec<Lay> = ids.iter().map(|i| if *i == 100 { Lay::Gas("Air", 0.02) } else { Lay::Sol(all[*i]) }).collect();
            let b = Building { walls: vec![Wall { layers: layers.clone(), poly: rect(0., 90., 3.), front: B::Out, back: B::Out, window, hs: (None, None) }], ..Default::default() };
            let sim = match cx.no_panic(key, || Sim::new(&b, 4)) { Some(Ok(s)) => s, Some(Err(e)) => { cx.fail(&key(), &format!("refused: {e}")); return } None => return };
            let (fa, ba, d) = if window { let s = &sim.tm.fenestrations[0]; (&s.front_alphas, &s.back_alphas, &s.discretization) } else { let s = &sim.tm.surfaces[0]; (&s.front_alphas, &s.back_alphas, &s.discretization) };
            let sp = spans(&d.n_elements);
            let nodes = d.segments.len();
            let side = |front: bool| {
                let order: Vec<usize> = if front { (0..ids.len()).collect() } else { (0..ids.len()).rev().collect() };
                let mut vis = vec![];
                for l in order { if ids[l] == 100 { continue } vis.push(l); if all[ids[l]].tau == 0. { break } }
                let opt: Vec<_> = vis.iter().map(|l| { let s = all[ids[*l]]; let (f, b) = (1. - s.tau - s.af, 1. - s.tau - s.ab); if front { (s.tau, f, b) } else { (s.tau, b, f) } }).collect();
                let (abs, _, _) = net(&opt);
                let mut e = vec![0.0; nodes];
                for (l, a) in vis.iter().zip(abs) {
                    let (s, z) = sp[*l];
                    if all[ids[*l]].tau > 0. { for i in s..=z { e[i] += a / (z - s + 1) as f64 } } else if front { e[s] += a } else { e[z] += a }
                }
                e
            };
            for (front, got) in [(true, fa), (false, ba)] {
                let e = side(front);
                let v: Vec<f64> = (0..nodes).map(|i| got.get(i, 0).unwrap()).collect();
                cx.step();
                cx.check(v.iter().zip(&e).all(|(a, b)| (a - b).abs() < 1e-9), || (format!("{} {}", key(), if front { "front" } else { "back" }), format!("nodes absorb {v:.5?} instead of {e:.5?}")));
            }
        });
    });
}
