use model::SimulationStateElement as E;
use crate::build::*;
use crate::h04::*;
use crate::h12::{net, spans};
use mcc::*;

/// What is on one side of a wall: air temperature, radiant temperature and convection coefficient
#[derive(Clone, Copy, Debug)]
pub struct Env { pub air: f64, pub rad: f64, pub h: f64, pub ts: f64 }

pub struct Net { pub c: Vec<f64>, pub seg: Vec<Seg>, pub ef: f64, pub eb: f64, tilt: f64 }
#[derive(Clone, Copy)]
pub enum Seg { U(f64), Gas { g: usize, th: f64, eo: f64, ei: f64 } }
impl Net {
    pub fn new(w: &Wall, ne: &[usize]) -> Net {
        let sp = spans(ne);
        let n = sp.last().unwrap().1 + 1;
        let (mut c, mut seg) = (vec![0.0; n], vec![]);
        for (l, lay) in w.layers.iter().enumerate() {
            let (a, z) = sp[l];
            for i in a..z {
                match lay {
                    Lay::Sol(s) => {
                        if ne[l] > 0 { c[i] += s.rho * s.cp * s.th / ne[l] as f64 / 2.; c[i + 1] += s.rho * s.cp * s.th / ne[l] as f64 / 2. }
                        seg.push(Seg::U(s.k * (z - a) as f64 / s.th));
                    }
                    Lay::Gas(g, th) => {
                        let g = ["Air", "Argon", "Krypton", "Xenon"].iter().position(|x| x == g).unwrap();
                        let (Lay::Sol(p), Lay::Sol(q)) = (w.layers[l - 1], w.layers[l + 1]) else { unreachable!() };
                        seg.push(Seg::Gas { g, th: *th, eo: p.eb, ei: q.ef });
                    }
                }
            }
        }
        let (Lay::Sol(f), Lay::Sol(b)) = (w.layers[0], *w.layers.last().unwrap()) else { unreachable!() };
        Net { c, seg, ef: f.ef, eb: b.eb, tilt: w.normal()[2].clamp(-1., 1.).acos().to_degrees() }
    }
    fn u(&self, i: usize, t: &[f64]) -> f64 {
        match self.seg[i] {
            Seg::U(u) => u,
            Seg::Gas { g, th, eo, ei } => {
                let (a, b) = (t[i], t[i + 1]);
                let tm = (a + b) / 2. + 273.15;
                let ra = if (a - b).abs() < 1e-10 { 1e-7 } else { rayleigh(g, th, a, b) };
                let mut gam = if a > b { 180. - self.tilt } else { self.tilt };
                for x in [60., 90.] { if (gam - x).abs() < 0.5 { gam = x } }
                nusselt(ra, gam, 1. / th) * props(g, tm).0 / th + 4. * SIGMA * tm.powi(3) / (1. / eo + 1. / ei - 1.)
            }
        }
    }
    /// heat reaching node i (W/m2), with the radiant coefficients given
    fn flow(&self, i: usize, t: &[f64], f: Env, b: Env, hr: (f64, f64), sun: &[f64], u: &[f64]) -> f64 {
        let n = t.len();
        let mut q = sun[i];
        if i > 0 { q += u[i - 1] * (t[i - 1] - t[i]) } else { q += f.h * (f.air - t[0]) + hr.0 * (f.rad - t[0]) }
        if i + 1 < n { q += u[i] * (t[i + 1] - t[i]) } else { q += b.h * (b.air - t[n - 1]) + hr.1 * (b.rad - t[n - 1]) }
        q
    }
    fn cond(&self, i: usize, f: Env, b: Env, hr: (f64, f64), u: &[f64]) -> f64 {
        let n = self.c.len();
        (if i > 0 { u[i - 1] } else { f.h + hr.0 }) + if i + 1 < n { u[i] } else { b.h + hr.1 }
    }
    fn hr(&self, f: Env, b: Env) -> (f64, f64) {
        let h = |e: f64, r: f64, s: f64| 4. * e * SIGMA * (273.15 + (r + s) / 2.).powi(3);
        (h(self.ef, f.rad, f.ts), h(self.eb, b.rad, b.ts))
    }
    /// balances the massless nodes of `t` (all of them with `every`)
    fn balance(&self, t: &mut [f64], f: Env, b: Env, hr: (f64, f64), sun: &[f64], every: bool) {
        let n = t.len();
        let free: Vec<bool> = self.c.iter().map(|c| every || *c < 1e-5).collect();
        for _ in 0..2000 {
            let u: Vec<f64> = (0..n - 1).map(|i| self.u(i, t)).collect();
            // tridiagonal elimination over every node; the massive ones stay where they are
            let (mut al, mut be) = (vec![0.0; n], vec![0.0; n]);
            for i in 0..n {
                let (lo, up) = (if i > 0 { u[i - 1] } else { 0. }, if i + 1 < n { u[i] } else { 0. });
                let mut rhs = sun[i];
                if i == 0 { rhs += f.h * f.air + hr.0 * f.rad }
                if i + 1 == n { rhs += b.h * b.air + hr.1 * b.rad }
                let d = self.cond(i, f, b, hr, &u);
                let (lo, up, rhs, d) = if free[i] { (lo, up, rhs, d) } else { (0., 0., t[i], 1.) };
                let (pa, pb) = if i > 0 { (al[i - 1], be[i - 1]) } else { (0., 0.) };
                let den = d - lo * pa;
                al[i] = up / den;
                be[i] = (rhs + lo * pb) / den;
            }
            let mut new = vec![0.0; n];
            for i in (0..n).rev() { new[i] = be[i] + if i + 1 < n { al[i] * new[i + 1] } else { 0. } }
            let mut e = 0.0f64;
            for i in 0..n { let v = 0.5 * (t[i] + new[i]); e = e.max((v - t[i]).abs()); t[i] = v }
            if e < 1e-10 { break }
        }
    }
    /// one timestep: massless nodes are in balance with the rest, and massive ones follow their heat balance
    pub fn step(&self, t0: &[f64], f: Env, b: Env, sun: &[f64], dt: f64) -> Vec<f64> {
        let n = t0.len();
        let hr = self.hr(f, b);
        let mut t = t0.to_vec();
        self.balance(&mut t, f, b, hr, sun, false);
        let u: Vec<f64> = (0..n - 1).map(|i| self.u(i, &t)).collect();
        let start = t.clone();
        // the radiant exchange stays as it was at the beginning of the timestep
        let (rf, rb) = (hr.0 * (f.rad - start[0]), hr.1 * (b.rad - start[n - 1]));
        let der = |t: &[f64]| -> Vec<f64> { (0..n).map(|i| if self.c[i] < 1e-5 { 0. } else { let mut q = self.flow(i, t, f, b, (0., 0.), sun, &u); if i == 0 { q += rf } if i + 1 == n { q += rb } q / self.c[i] }).collect() };
        let stiff = (0..n).filter(|i| self.c[*i] >= 1e-5).map(|i| dt * self.cond(i, f, b, hr, &u) / self.c[i]).fold(0.0, f64::max);
        let sub = ((stiff * 8.).ceil() as usize).max(16);
        let h = dt / sub as f64;
        for _ in 0..sub {
            let add = |k: &[f64], m: f64| -> Vec<f64> { t.iter().zip(k).map(|(a, b)| a + m * b).collect() };
            let k1 = der(&t);
            let k2 = der(&add(&k1, h / 2.));
            let k3 = der(&add(&k2, h / 2.));
            let k4 = der(&add(&k3, h));
            t = (0..n).map(|i| t[i] + h / 6. * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i])).collect();
        }
        t
    }
    pub fn stiffness(&self, dt: f64) -> f64 {
        let n = self.c.len();
        let t = vec![20.; n];
        let e = Env { air: 20., rad: 20., h: 10., ts: 20. };
        let u: Vec<f64> = (0..n - 1).map(|i| self.u(i, &t)).collect();
        (0..n).filter(|i| self.c[*i] >= 1e-5).map(|i| dt * self.cond(i, e, e, (6., 6.), &u) / self.c[i]).fold(0.0, f64::max)
    }
}

/// where the radiation on each side of a wall is absorbed, per node
pub fn sun_nodes(w: &Wall, ne: &[usize], front: f64, back: f64) -> Vec<f64> {
    let sp = spans(ne);
    let mut e = vec![0.0; sp.last().unwrap().1 + 1];
    let n = w.layers.len();
    for (side, s) in [(true, front), (false, back)] {
        let order: Vec<usize> = if side { (0..n).collect() } else { (0..n).rev().collect() };
        let (mut vis, mut opt) = (vec![], vec![]);
        for l in order {
            let Lay::Sol(s) = w.layers[l] else { continue };
            vis.push((l, s));
            let (f, b) = (1. - s.tau - s.af, 1. - s.tau - s.ab);
            opt.push(if side { (s.tau, f, b) } else { (s.tau, b, f) });
            if s.tau == 0. { break }
        }
        let (abs, _, _) = net(&opt);
        for ((l, m), a) in vis.iter().zip(abs) {
            let (i, z) = sp[*l];
            if m.tau > 0. { for k in i..=z { e[k] += s.max(0.) * a / (z - i + 1) as f64 } } else { e[if side { i } else { z }] += s.max(0.) * a }
        }
    }
    e
}

pub fn walls_list() -> Vec<(&'static str, Vec<Lay>)> {
    let s = |th, k, rho, cp| Lay::Sol(sol(th, k, rho, cp));
    let pane = |th: f64, tau: f64| Lay::Sol(Sol { tau, af: 0.1, ab: 0.15, ..sol(th, 1., 2500., 840.) });
    let low = |l: Lay, ef: f64, eb: f64| if let Lay::Sol(s) = l { Lay::Sol(Sol { ef, eb, ..s }) } else { l };
    let conc = s(0.2, 0.816, 1700., 800.);
    let brick = s(0.11, 0.6, 1600., 850.);
    let pu = s(0.1, 0.0252, 17.5, 2400.);
    let board = s(0.012, 0.16, 950., 840.);
    let wood = s(0.02, 0.14, 600., 1210.);
    vec![
        ("concrete", vec![conc]),
        ("insulation", vec![pu]),
        ("pane", vec![pane(0.003, 0.8)]),
        ("double glazing", vec![pane(0.003, 0.8), Lay::Gas("Air", 0.012), pane(0.006, 0.5)]),
        ("triple glazing", vec![low(pane(0.004, 0.7), 0.84, 0.1), Lay::Gas("Argon", 0.016), low(pane(0.003, 0.8), 0.84, 0.84), Lay::Gas("Krypton", 0.01), low(pane(0.006, 0.5), 0.25, 0.7)]),
        ("brick insulation board", vec![brick, pu, board]),
        ("board insulation board", vec![board, pu, board]),
        ("concrete insulation", vec![conc, pu]),
        ("insulation concrete", vec![pu, conc]),
        ("cavity wall", vec![brick, Lay::Gas("Air", 0.05), Lay::Sol(Sol { af: 0.3, ab: 0.9, ef: 0.2, eb: 0.5, ..sol(0.1, 0.8, 1700., 800.) })]),
        ("glass before concrete", vec![pane(0.006, 0.6), Lay::Gas("Air", 0.1), conc]),
        ("concrete insulation brick", vec![conc, pu, brick]),
        ("insulation concrete insulation", vec![pu, conc, pu]),
        ("wood air board", vec![wood, Lay::Gas("Xenon", 0.03), board]),
        ("thick stone", vec![s(0.6, 1.5, 2000., 900.)]),
        ("light concrete and wood", vec![s(0.15, 0.2, 600., 1000.), wood]),
    ]
}
/// a thin sheet of a good conductor bonded to a heavy layer
fn sheets() -> Vec<(&'static str, Vec<Lay>)> {
    let s = |th, k, rho, cp| Lay::Sol(sol(th, k, rho, cp));
    let conc = s(0.2, 0.816, 1700., 800.);
    let steel = s(0.001, 50., 7800., 450.);
    vec![("steel concrete", vec![steel, conc]), ("concrete steel", vec![conc, steel]), ("concrete steel concrete", vec![conc, steel, conc])]
}

#[derive(Clone, Copy, Debug)]
pub struct Case { pub t_out: f64, pub wind: f64, pub dir: f64, pub zones: (f64, f64), pub sun: (f64, f64), pub ir: (f64, f64) }

/// the environments of both sides of `w`
pub fn envs(w: &Wall, c: &Case, ts: (f64, f64)) -> (Env, Env) {
    let n = w.normal();
    let side = |b: &B, ts: f64, n: [f64; 3], ir: f64, fixed: Option<f64>| match b {
        B::Out => Env { air: c.t_out, rad: ir, h: fixed.unwrap_or(exterior(c.t_out, ts, n, c.wind, c.dir, w.area(), w.perimeter(), terrain(Default::default(), w.z()))), ts },
        B::Space(i) => { let t = if *i == 0 { c.zones.0 } else { c.zones.1 }; Env { air: t, rad: t, h: fixed.unwrap_or(natural(t, ts, n[2])), ts } }
        B::Amb(t) => Env { air: *t, rad: *t, h: fixed.unwrap_or(natural(*t, ts, n[2])), ts },
        B::Adiabatic => Env { air: f64::NAN, rad: f64::NAN, h: f64::NAN, ts },
    };
    let f = side(&w.front, ts.0, n, c.ir.0, w.hs.0);
    let b = side(&w.back, ts.1, [-n[0], -n[1], -n[2]], c.ir.1, w.hs.1);
    (if w.front == B::Adiabatic { b } else { f }, if w.back == B::Adiabatic { f } else { b })
}

pub fn prepare(cx: &Ctx, w: &Wall, n: usize, key: &dyn Fn() -> String) -> Option<Sim> {
    let b = Building { walls: vec![w.clone()], volumes: vec![1e9, 1e9], ..Default::default() };
    match cx.no_panic(|| key(), || Sim::new(&b, n)) { Some(Ok(s)) => Some(s), Some(Err(e)) => { cx.fail(&key(), &format!("refused: {e}")); None } None => None }
}
pub fn load(sim: &mut Sim, w: &Wall, c: &Case, nodes: &[f64]) {
    sim.zone(0, c.zones.0);
    sim.zone(1, c.zones.1);
    sim.solar(0, w.window, c.sun.0, c.sun.1);
    sim.ir(0, w.window, ir_of(c.ir.0), ir_of(c.ir.1));
    sim.set_nodes(0, w.window, nodes);
}
fn elements(sim: &Sim, w: &Wall) -> Vec<usize> { if w.window { sim.tm.fenestrations[0].discretization.n_elements.clone() } else { sim.tm.surfaces[0].discretization.n_elements.clone() } }

pub fn h03(cx: &Ctx) {
    let list = walls_list();
    let bounds: Vec<(B, B)> = { let o = [B::Out, B::Space(0), B::Amb(15.), B::Adiabatic, B::Space(1)]; let mut v = vec![]; for f in &o { for b in &o { if f != b || *f == B::Out || matches!(f, B::Amb(_)) { v.push((f.clone(), b.clone())) } } } v.retain(|(f, b)| !(*f == B::Adiabatic && *b == B::Adiabatic)); v };
    let orient = cx.pick(vec![(0., 90.), (120., 30.), (0., 180.)], vec![(0., 90.), (90., 90.), (200., 90.), (120., 30.), (240., 140.), (0., 0.), (0., 180.)]);
    let mut cases = vec![];
    for (t_out, zones) in [(22., (22., 22.)), (-8., (20., 26.)), (34., (24., 18.))] {
        for (wind, dir) in [(0., 0.), (5., 30.)] {
            for sun in [(0., 0.), (600., 0.), (0., 350.), (250., 120.), (-1., 90.), (70., -30.)] {
                for ir in [(t_out, t_out), (t_out - 12., t_out - 4.)] { cases.push(Case { t_out, wind, dir, zones, sun, ir }) }
            }
        }
    }
    let nb = bounds.len();
    let pattern = |p: usize, n: usize| -> Vec<f64> { (0..n).map(|i| { let x = if n == 1 { 0. } else { i as f64 / (n - 1) as f64 }; match p { 0 => 22., 1 => -5. + 30. * x, 2 => 40. - 25. * x, _ => if i % 2 == 0 { 17. } else { 25. } } }).collect() };
    let one = |cx: &Ctx, name: &str, w: &Wall, n: usize, deep: bool| {
        let base = || format!("{} of {name}, front {:?}, back {:?}, normal {:.2?}, {n} steps per hour{}", if w.window { "window" } else { "wall" }, w.front, w.back, w.normal(), if w.hs.0.is_some() { ", fixed coefficients" } else { "" });
        let Some(mut sim) = prepare(cx, w, n, &base) else { return };
        let m = w.mirrored();
        let Some(mut mir) = prepare(cx, &m, n, &base) else { return };
        sim.tm.dt_subdivisions = 1;
        mir.tm.dt_subdivisions = 1;
        let ne = elements(&sim, w);
        let netw = Net::new(w, &ne);
        let nodes = netw.c.len();
        let massless = netw.c.iter().any(|c| *c < 1e-5);
        for (ci, c) in cases.iter().enumerate() {
            for p in 0..4 {
                if !deep && (ci + p) % 3 != 0 { continue }
                cx.state();
                let t0 = pattern(p, nodes);
                let key = || format!("{} nodes from {:.1?}: {c:?}", base(), t0);
                load(&mut sim, w, c, &t0);
                let wth = Wth { t: c.t_out, wind: c.wind, dir: c.dir };
                match cx.no_panic(key, || sim.march(&wth)) { Some(Ok(())) => {} Some(Err(e)) => { cx.fail(&key(), &e); continue } None => continue }
                cx.step();
                let t1 = sim.get_nodes(0, w.window);
                let (f, b) = envs(w, c, (t0[0], t0[nodes - 1]));
                let sun = sun_nodes(w, &ne, c.sun.0, c.sun.1);
                let e = netw.step(&t0, f, b, &sun, sim.tm.dt);
                let tol = if massless { 0.12 } else { 0.005 + 0.005 * t0.iter().zip(&e).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max) };
                cx.check(t1.iter().zip(&e).all(|(a, b)| (a - b).abs() <= tol), || (key(), format!("after {} s the nodes are at {t1:.3?} instead of {e:.3?}", sim.tm.dt)));
                if c.sun.0 <= 0. && c.sun.1 <= 0. {
                    let all: Vec<f64> = t0.iter().cloned().chain([f.air, f.rad, b.air, b.rad]).collect();
                    let (lo, hi) = (all.iter().cloned().fold(f64::MAX, f64::min), all.iter().cloned().fold(f64::MIN, f64::max));
                    cx.check(t1.iter().all(|t| *t >= lo - 0.02 && *t <= hi + 0.02), || (key(), format!("nodes at {t1:.3?} are beyond everything around them ({lo} to {hi})")));
                }
                // what its faces say that they give to the air around them
                let (tf, tb) = (t1[0], t1[nodes - 1]);
                let (ef, eb) = envs(w, c, (tf, tb));
                let el = if w.window { [E::FenestrationFrontConvectionCoefficient(0), E::FenestrationBackConvectionCoefficient(0), E::FenestrationFrontConvectiveHeatFlow(0), E::FenestrationBackConvectiveHeatFlow(0)] } else { [E::SurfaceFrontConvectionCoefficient(0), E::SurfaceBackConvectionCoefficient(0), E::SurfaceFrontConvectiveHeatFlow(0), E::SurfaceBackConvectiveHeatFlow(0)] };
                let got: Vec<f64> = el.iter().map(|e| sim.get(*e)).collect();
                let want = [ef.h, eb.h, ef.h * (tf - ef.air), eb.h * (tb - eb.air)];
                cx.check(got.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-6 * (1. + b.abs())), || (format!("flows {}", key()), format!("with faces at {tf} and {tb}, coefficients and flows are {got:.5?} instead of {want:.5?}")));
                // the very same wall described from the other side
                let mc = Case { sun: (c.sun.1, c.sun.0), ir: (c.ir.1, c.ir.0), ..*c };
                let mut r0 = t0.clone();
                r0.reverse();
                load(&mut mir, &m, &mc, &r0);
                match cx.no_panic(key, || mir.march(&wth)) { Some(Ok(())) => {} Some(Err(e)) => { cx.fail(&key(), &e); continue } None => continue }
                let mut r1 = mir.get_nodes(0, w.window);
                r1.reverse();
                cx.step();
                cx.check(t1.iter().zip(&r1).all(|(a, b)| (a - b).abs() <= 1e-3), || (format!("mirrored {}", key()), format!("nodes at {t1:.4?} but {r1:.4?} when the wall is described from the other side")));
            }
        }
    };
    cx.section("steps", &format!("{} walls x {nb} boundaries x {} orientations x surface or window x {} environments x 4 initial temperatures: one step against the heat balance, the extremes around it, and the same wall described from behind", list.len(), orient.len(), cases.len()), || {
        cx.par_named("steps", list.len() * nb * orient.len() * 2, |k| {
            let (l, bd, o, window) = (k % list.len(), k / list.len() % nb, k / list.len() / nb % orient.len(), k / list.len() / nb / orient.len() == 1);
            let w = Wall { layers: list[l].1.clone(), poly: rect(orient[o].0, orient[o].1, 4.), front: bounds[bd].0.clone(), back: bounds[bd].1.clone(), window, hs: (None, None) };
            one(cx, list[l].0, &w, 4, cx.thorough() || (o == 0 && !window));
            if bd < 3 { let w = Wall { hs: (Some(8.), Some(3.)), ..w }; one(cx, list[l].0, &w, [1, 2, 20][o % 3], false); }
        });
    });
    cx.section("closed on both sides", &format!("{} walls and windows, adiabatic on both sides, x 3 weathers x 4 initial temperatures x 3 timesteps: at one temperature they stay, at several they stay between them", list.len()), || {
        cx.par_named("closed", list.len() * 2, |k| {
            let (l, window) = (k % list.len(), k / list.len() == 1);
            let w = Wall { layers: list[l].1.clone(), poly: rect(20., 70., 4.), front: B::Adiabatic, back: B::Adiabatic, window, hs: (None, None) };
            for n in [1, 4, 20] { for (t_out, wind) in [(-12., 6.), (22., 0.), (45., 2.)] { for p in 0..4 {
                cx.state();
                let key = || format!("closed {} of {}, {n} steps per hour, {t_out} C outdoors, temperatures {p}", if window { "window" } else { "wall" }, list[l].0);
                let Some(mut sim) = prepare(cx, &w, n, &key) else { return };
                let nodes = sim.get_nodes(0, window).len();
                let c = Case { t_out, wind, dir: 10., zones: (30., 5.), sun: (0., 0.), ir: (t_out, t_out) };
                let t0 = pattern(p, nodes);
                let (lo, hi) = t0.iter().fold((f64::MAX, f64::MIN), |(l, h), t| (l.min(*t), h.max(*t)));
                load(&mut sim, &w, &c, &t0);
                for _ in 0..3 {
                    if !matches!(cx.no_panic(key, || sim.march(&Wth { t: t_out, wind, dir: 10. })), Some(Ok(()))) { return }
                    sim.zone(0, 30.); sim.zone(1, 5.);
                    cx.step();
                    let t = sim.get_nodes(0, window);
                    if !cx.check(t.iter().all(|t| *t >= lo - 0.02 && *t <= hi + 0.02), || (key(), format!("from {t0:.2?} the nodes go to {t:.2?}"))) { break }
                }
            } } }
        });
    });
    // sheets: recorded behaviour (see known findings), kept apart
    let sh = sheets();
    cx.section("thin conductors", "metal sheets bonded to heavy layers: temperatures stay between those around the wall", || {
        for (name, layers) in &sh {
            cx.state();
            let w = Wall { layers: layers.clone(), poly: rect(0., 90., 4.), front: B::Out, back: B::Space(0), window: false, hs: (None, None) };
            let key = || format!("thin conductor: {name}");
            let Some(mut sim) = prepare(cx, &w, 4, &key) else { continue };
            let n = sim.get_nodes(0, false).len();
            let c = Case { t_out: -8., wind: 3., dir: 0., zones: (20., 20.), sun: (0., 0.), ir: (-10., 0.) };
            load(&mut sim, &w, &c, &vec![22.; n]);
            for _ in 0..4 { if !matches!(cx.no_panic(key, || sim.march(&Wth { t: -8., wind: 3., dir: 0. })), Some(Ok(()))) { break } }
            let t = sim.get_nodes(0, false);
            cx.step();
            cx.check(t.iter().all(|t| *t > -10.1 && *t < 22.1), || (key(), format!("after an hour between -10 and 22 C the nodes are at {t:.1?}")));
        }
    });
    // constant conditions lead to the steady state, and the steady state is kept
    let days = cx.pick(20, 60);
    cx.section("steady states", &format!("{} walls x 6 boundaries x {days} days or more of constant weather: the temperatures reach those of the steady heat balance", list.len()), || {
        let bs = [(B::Out, B::Space(0)), (B::Space(1), B::Out), (B::Out, B::Amb(15.)), (B::Amb(30.), B::Space(0)), (B::Space(0), B::Adiabatic), (B::Adiabatic, B::Out)];
        let cs = [Case { t_out: -8., wind: 3., dir: 30., zones: (20., 27.), sun: (0., 0.), ir: (-15., -12.) }, Case { t_out: 30., wind: 0., dir: 0., zones: (22., 24.), sun: (300., 80.), ir: (18., 25.) }, Case { t_out: 21., wind: 2., dir: 200., zones: (21., 21.), sun: (0., 0.), ir: (21., 21.) }];
        cx.par_named("steady", list.len() * bs.len() * cs.len() * 2, |k| {
            let (l, bd, c, o) = (k % list.len(), k / list.len() % 6, cs[k / list.len() / 6 % 3], k / list.len() / 18);
            cx.state();
            let fixed = if o == 1 { (Some(6.5), Some(2.5)) } else { (None, None) };
            let w = Wall { layers: list[l].1.clone(), poly: rect(0., if o == 1 { 60. } else { 90. }, 4.), front: bs[bd].0.clone(), back: bs[bd].1.clone(), window: false, hs: fixed };
            if o == 1 && bd >= 4 { return }
            let key = || format!("steady {}: front {:?} back {:?} {c:?} fixed {:?}", list[l].0, w.front, w.back, fixed);
            let Some(mut sim) = prepare(cx, &w, 2, &key) else { return };
            let ne = elements(&sim, &w);
            let netw = Net::new(&w, &ne);
            let n = netw.c.len();
            load(&mut sim, &w, &c, &vec![22.; n]);
            let wth = Wth { t: c.t_out, wind: c.wind, dir: c.dir };
            let days = if netw.c.iter().any(|c| *c < 1e-5) { 3 * days } else { days };
            for _ in 0..days * 48 {
                match guarded(|| sim.march(&wth)) { Ok(Ok(())) => cx.step(), Ok(Err(e)) | Err(e) => { cx.fail(&key(), &e); return } }
                sim.zone(0, c.zones.0);
                sim.zone(1, c.zones.1);
            }
            let t = sim.get_nodes(0, false);
            // our own steady state
            let sun = sun_nodes(&w, &ne, c.sun.0, c.sun.1);
            let mut e = t.clone();
            for _ in 0..400 {
                let (f, b) = envs(&w, &c, (e[0], e[n - 1]));
                let hr = netw.hr(f, b);
                let mut x = e.clone();
                netw.balance(&mut x, f, b, hr, &sun, true);
                for i in 0..n { e[i] = 0.7 * e[i] + 0.3 * x[i] }
            }
            let slow = (0..n).map(|i| netw.c[i]).sum::<f64>() > 6e5;
            let tol = if slow { 0.4 } else { 0.15 };
            cx.check(t.iter().zip(&e).all(|(a, b)| (a - b).abs() < tol), || (key(), format!("nodes at {t:.3?} after {days} days instead of {e:.3?}")));
        });
    });
}
