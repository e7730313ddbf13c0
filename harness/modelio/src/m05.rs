//! Asking a model: sizes of spaces, setpoints, location, orientations, and the states of its objects
use mcc::*;
use model::*;
use serde_json::json;

type E = SimulationStateElement;
/// What can be attached to a surface: (add, where it should be, read, write)
fn add<T: SurfaceTrait>(s: &T, what: usize, h: &mut SimulationStateHeader, i: usize) -> Result<(), String> {
    match what {
        0 => s.add_front_convection_state(h, i),
        1 => s.add_back_convection_state(h, i),
        2 => s.add_front_convective_heatflow_state(h, i),
        3 => s.add_back_convective_heatflow_state(h, i),
        4 => s.add_front_solar_irradiance_state(h, i),
        5 => s.add_back_solar_irradiance_state(h, i),
        6 => s.add_front_ir_irradiance_state(h, i),
        7 => s.add_back_ir_irradiance_state(h, i),
        _ => s.add_node_temperature_states(h, i, 3),
    }
}
fn elements(fen: bool, what: usize, i: usize) -> Vec<E> {
    match (fen, what) {
        (false, 0) => vec![E::SurfaceFrontConvectionCoefficient(i)],
        (false, 1) => vec![E::SurfaceBackConvectionCoefficient(i)],
        (false, 2) => vec![E::SurfaceFrontConvectiveHeatFlow(i)],
        (false, 3) => vec![E::SurfaceBackConvectiveHeatFlow(i)],
        (false, 4) => vec![E::SurfaceFrontSolarIrradiance(i)],
        (false, 5) => vec![E::SurfaceBackSolarIrradiance(i)],
        (false, 6) => vec![E::SurfaceFrontIRIrradiance(i)],
        (false, 7) => vec![E::SurfaceBackIRIrradiance(i)],
        (false, _) => (0..3).map(|n| E::SurfaceNodeTemperature(i, n)).collect(),
        (true, 0) => vec![E::FenestrationFrontConvectionCoefficient(i)],
        (true, 1) => vec![E::FenestrationBackConvectionCoefficient(i)],
        (true, 2) => vec![E::FenestrationFrontConvectiveHeatFlow(i)],
        (true, 3) => vec![E::FenestrationBackConvectiveHeatFlow(i)],
        (true, 4) => vec![E::FenestrationFrontSolarIrradiance(i)],
        (true, 5) => vec![E::FenestrationBackSolarIrradiance(i)],
        (true, 6) => vec![E::FenestrationFrontIRIrradiance(i)],
        (true, 7) => vec![E::FenestrationBackIRIrradiance(i)],
        (true, _) => (0..3).map(|n| E::FenestrationNodeTemperature(i, n)).collect(),
    }
}
macro_rules! access {
    ($s:expr, $what:expr, $state:expr, $v:expr) => {
        match $what {
            0 => ($s.front_convection_coefficient(&$state), $s.set_front_convection_coefficient(&mut $state, $v).is_ok()),
            1 => ($s.back_convection_coefficient(&$state), $s.set_back_convection_coefficient(&mut $state, $v).is_ok()),
            2 => ($s.front_convective_heat_flow(&$state), $s.set_front_convective_heat_flow(&mut $state, $v).is_ok()),
            3 => ($s.back_convective_heat_flow(&$state), $s.set_back_convective_heat_flow(&mut $state, $v).is_ok()),
            4 => ($s.front_incident_solar_irradiance(&$state), $s.set_front_incident_solar_irradiance(&mut $state, $v).is_ok()),
            5 => ($s.back_incident_solar_irradiance(&$state), $s.set_back_incident_solar_irradiance(&mut $state, $v).is_ok()),
            6 => ($s.front_ir_irradiance(&$state), $s.set_front_ir_irradiance(&mut $state, $v).is_ok()),
            _ => ($s.back_ir_irradiance(&$state), $s.set_back_ir_irradiance(&mut $state, $v).is_ok()),
        }
    };
}
/// The nodes of a surface are read and written as a column, and its ends are its front and back
fn nodes<T: SurfaceTrait>(s: &T, state: &mut Vec<f64>) -> Option<(Vec<f64>, f64, f64)> {
    let mut m = matrix::Matrix::new(0., 3, 1);
    s.get_node_temperatures(state, &mut m).ok()?;
    let r = ((0..3).map(|i| m.get(i, 0).unwrap()).collect(), s.front_temperature(state), s.back_temperature(state));
    for i in 0..3 { m.set(i, 0, -1. - i as f64).unwrap(); }
    s.set_node_temperatures(state, &m);
    Some(r)
}

pub fn m05(cx: &Ctx) {
    sizes(cx);
    setpoints(cx);
    orientations(cx);
    fields(cx);
    let objs = 4; // two surfaces and two fenestrations
    let n_ops: usize = 9 * objs;
    let depth = cx.pick(3, 4);
    cx.section("states of surfaces", &format!("all sequences of {depth} attachments of {n_ops}: nine kinds of state to two surfaces and two fenestrations"), || {
        cx.par_named("st", n_ops.pow(depth as u32), |k| {
            cx.state();
            let ops: Vec<usize> = (0..depth).map(|i| k / n_ops.pow(i as u32) % n_ops).collect();
            let key = || format!("states/{ops:?}");
            let v = json!([0, 0, 0, 4, 0, 0, 4, 0, 3, 0, 0, 3]);
            let s: [Surface; 2] = std::array::from_fn(|_| serde_json::from_value(json!({"name": "s", "construction": "c", "vertices": v})).unwrap());
            let f: [Fenestration; 2] = std::array::from_fn(|_| serde_json::from_value(json!({"name": "s", "construction": "c", "vertices": v})).unwrap());
            let mut h = SimulationStateHeader::new();
            let mut want: Vec<E> = vec![];
            let mut at: Vec<Option<usize>> = vec![None; n_ops];
            for op in &ops {
                cx.step();
                let (o, what) = (op / 9, op % 9);
                let i = o % 2;
                let r = if o < 2 { add(&s[i], what, &mut h, i) } else { add(&f[i], what, &mut h, i) };
                cx.check(r.is_ok() || at[*op].is_some(), || (key(), format!("attaching {op} gives {r:?}")));
                if at[*op].is_none() {
                    at[*op] = Some(want.len());
                    want.extend(elements(o >= 2, what, i));
                }
                cx.check(h.elements == want, || (key(), format!("the state has {:?} instead of {want:?}", h.elements)));
            }
            for op in 0..n_ops {
                let (o, what) = (op / 9, op % 9);
                let i = o % 2;
                let before: Vec<f64> = (0..want.len()).map(|i| i as f64 + 0.5).collect();
                let mut after = before.clone();
                if what < 8 {
                    let (got, wrote) = if o < 2 { access!(s[i], what, after, -1.) } else { access!(f[i], what, after, -1.) };
                    let ok = got == at[op].map(|i| before[i]) && wrote == at[op].is_some() && (0..want.len()).all(|j| after[j] == if at[op] == Some(j) { -1. } else { before[j] });
                    cx.check(ok, || (key(), format!("{:?} is read as {got:?} from {before:?} and writing gives {after:?}", elements(o >= 2, what, i))));
                } else if let Some(a) = at[op] {
                    let got = if o < 2 { nodes(&s[i], &mut after) } else { nodes(&f[i], &mut after) };
                    let exp = Some(((0..3).map(|n| before[a + n]).collect::<Vec<_>>(), before[a], before[a + 2]));
                    let ok = got == exp && (0..want.len()).all(|j| after[j] == if (a..a + 3).contains(&j) { -1. - (j - a) as f64 } else { before[j] });
                    cx.check(ok, || (key(), format!("the nodes of {o} are read as {got:?} from {before:?} and writing gives {after:?}")));
                }
            }
        });
    });
}

/// The floor of a space is what lies below it and is called a floor
fn sizes(cx: &Ctx) {
    let cats = ["ExteriorWall", "InteriorWall", "GroundFloor", "ExteriorFloor", "InteriorFloor", "Ceiling", "Roof", "Other", ""];
    let floor = |c: &str| c.ends_with("Floor");
    // planes: (direction of x, direction of y); all of unit length
    let planes: [([f64; 3], [f64; 3]); 4] = [([1., 0., 0.], [0., 1., 0.]), ([0., -1., 0.], [1., 0., 0.]), ([0.8, 0., 0.6], [0., 1., 0.]), ([0., 0.6, -0.8], [1., 0., 0.])];
    let sides = ["a", "b", "ground", "out"];
    let side = |x: &str| match x { "ground" => json!({"type": "Ground"}), "out" => json!({"type": "Outdoor"}), s => json!({"type": "Space", "space": s}) };
    let mut one: Vec<(usize, usize, bool, usize, usize)> = vec![]; // (category, plane, flipped, front, back)
    for c in 0..cats.len() { for p in 0..4 { for flip in [false, true] { for f in 0..4 { for b in 0..4 { one.push((c, p, flip, f, b)) } } } } }
    let second: Vec<_> = one.iter().filter(|o| floor(cats[o.0]) && o.1 == 0 && o.3 != o.4).cloned().collect();
    cx.section("sizes of spaces", &format!("all models of one or two surfaces: {} surfaces of every category, boundaries and orientation, with and without a hole, and {} floors", one.len(), second.len()), || {
        cx.par_named("sizes", one.len() * (second.len() + 1) * 2, |k| {
            cx.state();
            cx.step();
            let hole = k % 2 == 1;
            let (a, b) = (one[k / 2 / (second.len() + 1)], k / 2 % (second.len() + 1));
            let list: Vec<_> = std::iter::once(a).chain(second.get(b).cloned()).collect();
            let mut m = Model::default();
            m.add_construction(Construction::new("c"));
            for s in ["a", "b", "empty"] { m.add_space(Space::new(s)); }
            let mut want = [0., 0.];
            for (n, (c, p, flip, f, bk)) in list.iter().enumerate() {
                let (dx, dy) = planes[*p];
                let pt = |x: f64, y: f64| -> [f64; 3] { std::array::from_fn(|i| x * dx[i] + y * dy[i]) };
                let (w, l) = (3. + n as f64, 4.);
                let mut v = vec![pt(0., 0.), pt(w, 0.), pt(w, l), pt(0., l)];
                let nz = dx[0] * dy[1] - dx[1] * dy[0];
                if *flip { v.reverse() }
                let mut o = json!({"name": format!("s{n}"), "construction": "c", "vertices": v.concat(), "front_boundary": side(sides[*f]), "back_boundary": side(sides[*bk])});
                if !cats[*c].is_empty() { o["category"] = json!(cats[*c]) }
                let Ok(s) = serde_json::from_value::<Surface>(o) else { return cx.fail(&format!("sizes/{k}"), "not a surface") };
                m.add_surface(s).unwrap();
                if hole {
                    let h = vec![pt(1., 1.), pt(2., 1.), pt(2., 2.), pt(1., 2.)];
                    m.add_fenestration(serde_json::from_value(json!({"name": format!("h{n}"), "construction": "c", "parent_surface": format!("s{n}"), "vertices": h.concat()})).unwrap()).unwrap();
                }
                let up = (nz > 0.) != *flip;
                let above = sides[if up { *f } else { *bk }];
                if floor(cats[*c]) && above.len() == 1 { want[(above == "b") as usize] += w * l - hole as usize as f64 }
            }
            let (total, per) = m.get_space_sizes();
            let got = [per.get("a").copied(), per.get("b").copied(), per.get("empty").copied()];
            let ok = per.len() == 3 && got.iter().zip([want[0], want[1], 0.]).all(|(g, w)| g.is_some_and(|g| close(g, w, 1e-9))) && close(total, want[0] + want[1], 1e-9);
            cx.check(ok, || (format!("sizes/{:?}/{hole}", list.iter().map(|o| (cats[o.0], o.1, o.2, sides[o.3], sides[o.4])).collect::<Vec<_>>()), format!("the sizes are {got:?}, {total} in total, instead of {want:?}")));
        });
    });
}

fn setpoints(cx: &Ctx) {
    // each HVAC: kind, heating, cooling
    let temps = [None, Some(19.5), Some(26.25), Some(-4.), Some(0.)];
    let n = 2 * 25;
    let make = |k: usize, name: &str| -> (HVAC, [Option<f64>; 2]) {
        let (ideal, h, c) = (k % 2 == 1, temps[k / 2 % 5], temps[k / 10]);
        if ideal {
            let mut x = hvac::IdealHeaterCooler::new(name);
            if let Some(t) = h { x.set_heating_setpoint(t); }
            if let Some(t) = c { x.set_cooling_setpoint(t); }
            (x.wrap(), [h, c])
        } else {
            let mut x = hvac::ElectricHeater::new(name);
            if let Some(t) = h { x.set_heating_setpoint(t); }
            (x.wrap(), [h, None])
        }
    };
    cx.section("setpoints", &format!("all ordered pairs of {n} HVACs"), || {
        cx.par_named("sp", n * n, |k| {
            cx.state();
            let mut m = Model::default();
            let (a, wa) = make(k % n, "a");
            let (b, wb) = make(k / n, "b");
            m.add_hvac(a).unwrap();
            m.add_hvac(b).unwrap();
            let got = m.get_hvac_setpoints();
            cx.check(got.len() == 2 && got.get("a") == Some(&wa) && got.get("b") == Some(&wb), || (format!("setpoints/{k}"), format!("{got:?} instead of a: {wa:?}, b: {wb:?}")));
        });
    });
    cx.section("location", "a site with any of its fields", || {
        for k in 0..64 {
            cx.state();
            let mut m = json!({});
            let v = [("latitude", -33.5), ("longitude", 70.25), ("standard_meridian", -60.), ("altitude", 500.)];
            let mut d = json!({});
            for (i, (n, x)) in v.iter().enumerate() { if k >> i & 1 == 1 { d[*n] = json!(x) } }
            if k >> 4 & 1 == 1 { d["terrain"] = json!("Urban") }
            if k >> 5 & 1 == 1 { m["site_details"] = d }
            let r = Model::from_json(&m.to_string());
            let want = if k >> 5 & 1 == 1 && k & 7 == 7 { Some((-33.5, 70.25, -60.)) } else { None };
            cx.check(r.as_ref().is_ok_and(|r| r.0.geolocation() == want), || (format!("location/{k}"), format!("{m} gives {:?} instead of {want:?}", r.as_ref().map(|r| r.0.geolocation()))));
        }
    });
}

fn orientations(cx: &Ctx) {
    let step = cx.pick(10, 2); // tenths of a degree
    let az: Vec<i64> = (0..3600).step_by(step).collect();
    let el: Vec<i64> = (-900..=900).step_by(25).collect();
    let names = ["North", "NorthEast", "East", "SouthEast", "South", "SouthWest", "West", "NorthWest"];
    let bound = |o: &Orientation| format!("{o:?}");
    cx.section("orientations", &format!("{} azimuths x {} elevations, but for the limits between two orientations: the octant of the direction, or horizontal above 45 degrees; and what is seen outside and inside of a wall", az.len(), el.len()), || {
        cx.par_named("az", az.len(), |k| {
            for e in &el {
                if e.abs() == 450 || (az[k] % 450 == 225) { continue }
                cx.state();
                let (a, r) = ((az[k] as f64 / 10.).to_radians(), (*e as f64 / 10.).to_radians());
                let n = geometry::Vector3D::new(r.cos() * a.sin(), r.cos() * a.cos(), r.sin());
                let want = if e.abs() > 450 { "Horizontal" } else { names[((az[k] + 225) / 450 % 8) as usize] };
                let key = || format!("orientation/{}/{e}", az[k]);
                let Some(got) = cx.no_panic(key, || get_orientation(n)) else { continue };
                cx.check(bound(&got) == want, || (key(), format!("azimuth {} and elevation {} (tenths of degrees) is {got:?} instead of {want}", az[k], e)));
            }
        });
        // walls looking at each of the 16 half-octants
        let bs = [("out", json!({"type": "Outdoor"})), ("in", json!({"type": "Space", "space": "s"})), ("ground", json!({"type": "Ground"}))];
        for k in 0..16 {
            let a = (k as f64 * 22.5 + 11.).to_radians();
            let (t, want) = ([a.cos(), -a.sin()], names[((k * 225 + 110 + 225) / 450 % 8) as usize]);
            let opp = names[((k * 225 + 110 + 225 + 1800) / 450 % 8) as usize];
            let v = [[0., 0., 0.], [-t[0] * 3., -t[1] * 3., 0.], [-t[0] * 3., -t[1] * 3., 2.], [0., 0., 2.]].concat();
            for (fn_, f) in &bs {
                for (bn, b) in &bs {
                    cx.state();
                    let s: Surface = serde_json::from_value(json!({"name": "s", "construction": "c", "vertices": v, "front_boundary": f, "back_boundary": b})).unwrap();
                    let w: Fenestration = serde_json::from_value(json!({"name": "s", "construction": "c", "vertices": v, "front_boundary": f, "back_boundary": b})).unwrap();
                    let exp = match (*fn_, *bn) { ("out", "in") => (Some(want), Some(opp)), ("in", "out") => (Some(opp), Some(want)), _ => (None, None) };
                    for (what, o, i, n) in [("surface", s.outside_orientation(), s.inside_orientation(), s.orientation()), ("fenestration", w.outside_orientation(), w.inside_orientation(), w.orientation())] {
                        let got = (o.as_ref().map(bound), i.as_ref().map(bound));
                        cx.check(bound(&n) == want && (got.0.as_deref(), got.1.as_deref()) == exp, || (format!("walls/{what}/{k}/{fn_}/{bn}"), format!("a {what} facing {want} ({n:?}), in front {fn_} and behind {bn}, looks {got:?} instead of {exp:?}")));
                    }
                }
            }
        }
    });
}

/// What every surface and window answers through their common interface
fn shared<T: SurfaceTrait>(s: &mut T, e: &Expected) -> Result<(), String> {
    let same = |w: &str, ok: bool, got: String| if ok { Ok(()) } else { Err(format!("{w} is {got}")) };
    let b = |b: &Boundary| format!("{b:?}");
    same("the name", s.name() == "a name", s.name().clone())?;
    same("the area", (s.area() - e.area).abs() < 1e-9, s.area().to_string())?;
    same("the normal", (s.normal() - e.normal).length() < 1e-9, s.normal().to_string())?;
    same("the front boundary", b(s.front_boundary()) == b(&e.front), b(s.front_boundary()))?;
    same("the back boundary", b(s.back_boundary()) == b(&e.back), b(s.back_boundary()))?;
    same("the fixed front coefficient", s.fixed_front_hs() == e.hs.0, format!("{:?}", s.fixed_front_hs()))?;
    same("the fixed back coefficient", s.fixed_back_hs() == e.hs.1, format!("{:?}", s.fixed_back_hs()))?;
    let bb = s.bbox()?;
    same("the bounding box", (bb.min - e.min).length() < 1e-9 && (bb.max - e.max).length() < 1e-9, format!("{} {}", bb.min, bb.max))?;
    same("the outline", s.outer().len() == e.corners && s.mut_outer().len() == e.corners && s.vertices().outer().len() == e.corners && (s.mut_vertices().area() - e.area).abs() < 1e-9, s.outer().len().to_string())?;
    // states: each one is read and written in its own place
    let mut h = SimulationStateHeader::new();
    let order = [3, 0, 8, 7, 2, 5, 4, 1, 6];
    for k in order { if k == 8 { s.add_node_temperature_states(&mut h, 0, e.nodes)?; } else { add(s, k, &mut h, 0)?; } }
    let mut st: Vec<f64> = h.take_values().ok_or("no values")?;
    for (i, v) in st.iter_mut().enumerate() { *v = 100. + i as f64; }
    let at = |k: usize| { let p = order.iter().position(|x| *x == k).unwrap(); if p > 2 { p + e.nodes - 1 } else { p } };
    same("the number of values", st.len() == 8 + e.nodes, st.len().to_string())?;
    let mut m = matrix::Matrix::new(0., e.nodes, 1);
    s.get_node_temperatures(&st, &mut m)?;
    same("the column of nodes", (0..e.nodes).all(|i| m.get(i, 0) == Ok(102. + i as f64)), format!("{m:?}"))?;
    same("the last node", s.back_temperature(&st) == 101. + e.nodes as f64, format!("{} of {st:?}", s.back_temperature(&st)))?;
    let before = st.clone();
    for i in 0..e.nodes { m.set(i, 0, -1. - i as f64)?; }
    s.set_node_temperatures(&mut st, &m);
    same("the state after writing nodes", (0..st.len()).all(|i| st[i] == if (2..2 + e.nodes).contains(&i) { 1. - i as f64 } else { before[i] }), format!("{st:?}"))?;
    st = before;
    let got = [s.front_convection_coefficient(&st), s.back_convection_coefficient(&st), None, None, Some(s.front_solar_irradiance(&st)), Some(s.back_solar_irradiance(&st)), Some(s.front_infrared_irradiance(&st)), Some(s.back_infrared_irradiance(&st)), Some(s.front_temperature(&st))];
    for (k, g) in got.iter().enumerate() { if k != 2 && k != 3 { same(&format!("state {k}"), *g == Some(100. + at(k) as f64), format!("{g:?} out of {st:?}"))?; } }
    for k in 0..4 {
        let before = st.clone();
        match k {
            0 => s.set_front_convection_coefficient(&mut st, -7.)?,
            1 => s.set_back_convection_coefficient(&mut st, -7.)?,
            2 => s.set_front_convective_heat_flow(&mut st, -7.)?,
            _ => s.set_back_convective_heat_flow(&mut st, -7.)?,
        }
        same(&format!("the state after writing {k}"), (0..st.len()).all(|i| st[i] == if i == at(k) { -7. } else { before[i] }), format!("{st:?}"))?;
        st = before;
    }
    // each boundary is set on its own
    s.set_front_boundary(Boundary::Ground);
    same("the boundaries with ground in front", b(s.front_boundary()) == b(&Boundary::Ground) && b(s.back_boundary()) == b(&e.back), format!("{:?} {:?}", s.front_boundary(), s.back_boundary()))?;
    s.set_front_boundary(e.front.clone());
    s.set_back_boundary(Boundary::Ground);
    same("the boundaries with ground behind", b(s.front_boundary()) == b(&e.front) && b(s.back_boundary()) == b(&Boundary::Ground), format!("{:?} {:?}", s.front_boundary(), s.back_boundary()))
}
struct Expected { area: f64, normal: geometry::Vector3D, front: Boundary, back: Boundary, hs: (Option<f64>, Option<f64>), min: geometry::Point3D, max: geometry::Point3D, corners: usize, nodes: usize }
fn fields(cx: &Ctx) {
    let shapes: [(&[f64], f64, [f64; 3]); 3] = [
        (&[0., 0., 0., 4., 0., 0., 4., 0., 3., 0., 0., 3.], 12., [0., -1., 0.]),
        (&[1., 1., 5., 3., 1., 5., 1., 4., 5.], 3., [0., 0., 1.]),
        (&[2., 0., 0., 2., 3., 0., 2., 3., 2., 2., 1., 2., 2., 1., 1., 2., 0., 1.], 5., [1., 0., 0.]),
    ];
    let sides: [fn() -> Boundary; 5] = [|| Boundary::Outdoor, || Boundary::Ground, || Boundary::Adiabatic, || Boundary::Space { space: "x".into() }, || Boundary::AmbientTemperature { temperature: 3.5 }];
    cx.section("fields of a surface", "surfaces and windows of 3 shapes, with all pairs of 5 boundaries and fixed coefficients on any side: what their common interface answers, and what it changes", || {
        for (v, area, n) in shapes { for f in 0..5 { for b in 0..5 { for hs in 0..4 { for fen in [false, true] {
            cx.state();
            let p: Vec<[f64; 3]> = v.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
            let lim = |pick: fn(f64, f64) -> f64| { let q: [f64; 3] = std::array::from_fn(|i| p.iter().map(|x| x[i]).reduce(pick).unwrap()); geometry::Point3D::new(q[0], q[1], q[2]) };
            let e = Expected { area, normal: geometry::Vector3D::new(n[0], n[1], n[2]), front: sides[f](), back: sides[b](), hs: ((hs & 1 != 0).then_some(2.25), (hs & 2 != 0).then_some(7.5)), min: lim(f64::min), max: lim(f64::max), corners: p.len(), nodes: 1 + (f + 2 * b + hs) % 5 };
            let mut j = json!({"name": "a name", "construction": "c", "vertices": v});
            if let Some(x) = e.hs.0 { j["precalculated_front_convection_coef"] = json!(x); }
            if let Some(x) = e.hs.1 { j["precalculated_back_convection_coef"] = json!(x); }
            j["front_boundary"] = serde_json::to_value(&e.front).unwrap();
            j["back_boundary"] = serde_json::to_value(&e.back).unwrap();
            let what = j.to_string();
            let r = guarded(|| if fen { serde_json::from_value::<Fenestration>(j).map_err(|e| e.to_string()).and_then(|mut s| shared(&mut s, &e)) } else { serde_json::from_value::<Surface>(j).map_err(|e| e.to_string()).and_then(|mut s| shared(&mut s, &e)) });
            if !cx.check(matches!(r, Ok(Ok(()))), || (format!("fields/{}", if fen { "window" } else { "surface" }), format!("{what}: {r:?}"))) { return; }
        } } } } }
    });
}
