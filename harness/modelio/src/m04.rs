//! Building a model piece by piece: what is refused changes nothing, what is added is linked to its own state
use mcc::*;
use model::*;
use serde_json::{json, Value};
use std::sync::Arc;

fn wall(name: &str, constr: &str, front: Value, back: Value) -> Surface { serde_json::from_value(json!({"name": name, "construction": constr, "vertices": [0,0,0, 9,0,0, 9,0,3, 0,0,3], "front_boundary": front, "back_boundary": back})).unwrap() }
/// A fenestration of the wall that takes `x0..x1` of it, looking at the same side or at the other
fn fen(name: &str, constr: &str, cat: &str, parent: Option<&str>, x: (f64, f64), flip: bool) -> Fenestration {
    let mut v = vec![[x.0, 0., 1.], [x.1, 0., 1.], [x.1, 0., 2.], [x.0, 0., 2.]];
    if flip { v.reverse() }
    let v: Vec<f64> = v.concat();
    let mut o = json!({"name": name, "construction": constr, "category": cat, "vertices": v});
    if let Some(p) = parent { o["parent_surface"] = json!(p) }
    serde_json::from_value(o).unwrap()
}
fn space(s: &str) -> Value { json!({"type": "Space", "space": s}) }

#[derive(Default, Clone, Debug)]
struct Want { constr: usize, spaces: usize, walls: Vec<(String, Vec<(f64, f64)>)>, fens: Vec<(String, &'static str, &'static str)>, hvacs: Vec<String>, lums: Vec<String>, objs: usize, elements: Vec<SimulationStateElement>, gone: bool }
impl Want {
    fn push(&mut self, e: SimulationStateElement) { if !self.gone { self.elements.push(e) } }
}
const OPS: [&str; 19] = ["construction c", "space s1", "wall", "wall of no construction", "wall facing no space", "window A", "opening B of no construction, seen from behind", "window of no construction", "window of no parent", "window outside of its parent", "window over A", "window on its own", "again the last window", "heater", "cooler", "again the last HVAC", "luminaire", "again the last luminaire", "take the state"];
const EXTRA: [&str; 5] = ["object", "object in a space", "hold the last wall", "let it go", "second wall"];

pub fn m04(cx: &Ctx) {
    let all: Vec<usize> = (0..OPS.len() + EXTRA.len()).collect();
    let depth = cx.pick(4, 5);
    let run = |ops: &[usize]| history(cx, ops);
    cx.section("sequences from nothing", &format!("all sequences of {depth} of {} operations on an empty model", all.len()), || {
        cx.par_named("h", all.len().pow(depth as u32), |k| run(&(0..depth).map(|i| k / all.len().pow(i as u32) % all.len()).collect::<Vec<_>>()));
    });
    cx.section("sequences from a wall", &format!("a model with a construction, a space, and a wall, then all sequences of {depth} of {} operations", all.len()), || {
        cx.par_named("h", all.len().pow(depth as u32), |k| {
            let mut ops = vec![0, 1, 2];
            ops.extend((0..depth).map(|i| k / all.len().pow(i as u32) % all.len()));
            run(&ops)
        });
    });
    boundaries(cx);
    let n = ROOMS.len();
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    let mut last = orders.clone();
    for _ in 0..cx.pick(4, 6) {
        last = last.iter().flat_map(|o| (0..n).filter(|i| !o.contains(i)).map(|i| [o.clone(), vec![i]].concat()).collect::<Vec<_>>()).collect();
        orders.extend(last.clone());
    }
    cx.section("similar names", &format!("{} ordered choices of objects of each kind out of {n} names that are the beginning, end, part or another case of one another: each name finds its own, and a window opens its own wall", orders.len()), || {
        cx.par_named("names", orders.len(), |k| {
            cx.state();
            similar(cx, &orders[k]);
        });
    });
    cx.section("repeated names", "two objects of each kind that share a name: both stay, and asking for the name gives the first", || {
        cx.state();
        let mut m = Model::default();
        let c = |x: &str, ok: bool| { cx.check(ok, || (format!("repeated/{x}"), format!("asking for a repeated {x} does not give the first"))); };
        for _ in 0..2 {
            m.add_substance(substance::Normal::new("x").wrap());
            m.add_material(Material::new("x", "x", 0.1 * (1 + m.materials.len()) as f64));
            m.add_construction(Construction::new("x"));
            m.add_building(Building::new("x"));
            m.add_space(Space::new("x"));
            m.add_surface(wall("x", "x", space("x"), json!({"type": "Outdoor"}))).unwrap();
            m.add_fenestration(fen("x", "x", "Window", None, (1., 2.), false)).unwrap();
            m.add_hvac(hvac::ElectricHeater::new("x").wrap()).unwrap();
            m.add_luminaire(Luminaire::new("x")).unwrap();
        }
        c("number of objects", m.substances.len() == 2 && m.materials.len() == 2 && m.constructions.len() == 2 && m.buildings.len() == 2 && m.spaces.len() == 2 && m.surfaces.len() == 2 && m.fenestrations.len() == 2 && m.hvacs.len() == 2 && m.luminaires.len() == 2);
        c("material", m.get_material("x").is_ok_and(|v| Arc::ptr_eq(&v, &m.materials[0])));
        c("construction", m.get_construction("x").is_ok_and(|v| Arc::ptr_eq(&v, &m.constructions[0])));
        c("building", m.get_building("x").is_ok_and(|v| Arc::ptr_eq(&v, &m.buildings[0])));
        c("space", m.get_space("x").is_ok_and(|v| Arc::ptr_eq(&v, &m.spaces[0])));
        c("surface", m.get_surface("x").is_ok_and(|v| Arc::ptr_eq(&v, &m.surfaces[0])));
        c("fenestration", m.get_fenestration("x").is_ok_and(|v| Arc::ptr_eq(&v, &m.fenestrations[0])));
        c("luminaire", m.get_luminaire("x").is_ok_and(|v| Arc::ptr_eq(&v, &m.luminaires[0])));
        for n in ["", "X", "x ", "xx"] {
            c(&format!("absent '{n}'"), m.get_substance(n).is_err() && m.get_material(n).is_err() && m.get_construction(n).is_err() && m.get_building(n).is_err() && m.get_space(n).is_err() && m.get_surface(n).is_err() && m.get_fenestration(n).is_err() && m.get_hvac(n).is_err() && m.get_luminaire(n).is_err() && m.get_material_substance(n).is_err());
        }
    });
}

fn history(cx: &Ctx, ops: &[usize]) {
    cx.state();
    let names = || ops.iter().map(|o| OPS.get(*o).copied().unwrap_or_else(|| EXTRA[*o - OPS.len()])).collect::<Vec<_>>().join(" > ");
    let key = || format!("history/{}", names());
    let mut m = Model::default();
    let mut w = Want::default();
    let mut header: Option<SimulationStateHeader> = None;
    let mut held: Option<(usize, Arc<Surface>)> = None;
    for (step, op) in ops.iter().enumerate() {
        cx.step();
        let n = format!("{step}");
        // the outcome of the step and the one that was expected
        let got: Option<Result<(), String>> = cx.no_panic(key, || match op {
            0 => { m.add_construction(Construction::new("c")); Ok(()) }
            1 => { m.add_space(Space::new("s1")); Ok(()) }
            2 => m.add_surface(wall("w", "c", space("s1"), json!({"type": "Ground"}))).map(|_| ()),
            3 => m.add_surface(wall("w", "none", space("s1"), json!({"type": "Ground"}))).map(|_| ()),
            4 => m.add_surface(wall("w", "c", json!({"type": "Outdoor"}), space("s9"))).map(|_| ()),
            5 => m.add_fenestration(fen(&n, "c", "Window", Some("w"), (1., 2.), false)).map(|_| ()),
            6 => m.add_fenestration(fen(&n, "none", "Opening", Some("w"), (3., 4.), true)).map(|_| ()),
            7 => m.add_fenestration(fen(&n, "none", "Window", Some("w"), (5., 6.), true)).map(|_| ()),
            8 => m.add_fenestration(fen(&n, "c", "Window", Some("w9"), (5., 6.), false)).map(|_| ()),
            9 => m.add_fenestration(fen(&n, "c", "Window", Some("w"), (8., 11.), false)).map(|_| ()),
            10 => m.add_fenestration(fen(&n, "c", "Window", Some("w"), (1.5, 2.5), false)).map(|_| ()),
            11 => m.add_fenestration(fen(&n, "c", "Window", None, (5., 6.), false)).map(|_| ()),
            12 => match m.fenestrations.last().map(|f| (**f).clone()) { Some(f) => m.add_fenestration(f).map(|_| ()), None => Ok(()) },
            13 => m.add_hvac(hvac::ElectricHeater::new(n.clone()).wrap()).map(|_| ()),
            14 => m.add_hvac(hvac::IdealHeaterCooler::new(n.clone()).wrap()).map(|_| ()),
            15 => match m.hvacs.last().cloned() { Some(h) => m.add_hvac(h).map(|_| ()), None => Ok(()) },
            16 => m.add_luminaire(Luminaire::new(n.clone())).map(|_| ()),
            17 => match m.luminaires.last().map(|f| (**f).clone()) { Some(f) => m.add_luminaire(f).map(|_| ()), None => Ok(()) },
            18 => {
                let h = m.take_state();
                if h.is_some() == w.gone { return Err("the state was given twice or never".into()) }
                if h.is_some() { header = h }
                Ok(())
            }
            19 => m.add_object(serde_json::from_value(json!({"name": n, "dimensions": {"x": 1, "y": 1, "z": 1}})).unwrap()),
            20 => m.add_object(serde_json::from_value(json!({"name": n, "dimensions": {"x": 1, "y": 1, "z": 1}, "space": "s1"})).unwrap()),
            21 => { held = m.surfaces.last().map(|s| (m.surfaces.len() - 1, s.clone())); Ok(()) }
            22 => { held = None; Ok(()) }
            _ => m.add_surface(wall("w", "c", json!({"type": "Outdoor"}), json!({"type": "Adiabatic"}))).map(|_| ()),
        });
        let Some(got) = got else { return };
        let free = held.as_ref().is_none_or(|h| h.0 != 0); // windows go to the first wall called "w"
        let fits = |w: &Want, x: (f64, f64)| free && w.walls.first().is_some_and(|q| q.1.iter().all(|h| h.1 < x.0 || x.1 < h.0));
        let ok = match op {
            2 => w.constr > 0 && w.spaces > 0,
            3 | 4 | 7 | 8 | 9 => false,
            5 => !w.gone && w.constr > 0 && fits(&w, (1., 2.)),
            6 => !w.gone && fits(&w, (3., 4.)),
            10 => !w.gone && w.constr > 0 && fits(&w, (1.5, 2.5)),
            11 => !w.gone && w.constr > 0,
            12 => w.fens.is_empty(),
            13 | 14 | 16 => !w.gone,
            15 => w.hvacs.is_empty(),
            17 => w.lums.is_empty(),
            20 => w.spaces > 0,
            23 => w.constr > 0,
            _ => true,
        };
        if !cx.check(got.is_ok() == ok, || (key(), format!("step {step} gives {got:?}"))) { return }
        if ok {
            match op {
                0 => w.constr += 1,
                1 => w.spaces += 1,
                2 | 23 => w.walls.push((if *op == 2 { "s1" } else { "out" }.into(), vec![])),
                5 | 6 | 10 => {
                    w.walls[0].1.push(match op { 5 => (1., 2.), 6 => (3., 4.), _ => (1.5, 2.5) });
                    let (f, b) = if w.walls[0].0 == "s1" { ("Space", "Ground") } else { ("Outdoor", "Adiabatic") };
                    let i = w.fens.len();
                    w.push(SimulationStateElement::FenestrationOpenFraction(i));
                    w.fens.push(if *op == 6 { (n, b, f) } else { (n, f, b) });
                }
                11 => {
                    let i = w.fens.len();
                    w.push(SimulationStateElement::FenestrationOpenFraction(i));
                    w.fens.push((n, "Outdoor", "Outdoor"));
                }
                13 | 14 => {
                    let i = w.hvacs.len();
                    w.push(SimulationStateElement::HeatingCoolingPowerConsumption(i));
                    w.hvacs.push(n);
                }
                16 => {
                    let i = w.lums.len();
                    w.push(SimulationStateElement::LuminairePowerConsumption(i));
                    w.lums.push(n);
                }
                18 => w.gone = true,
                19 | 20 => w.objs += 1,
                _ => {}
            }
        }
    }
    drop(held);
    let word = |b: &Boundary| match b { Boundary::Space { .. } => "Space", Boundary::Ground => "Ground", Boundary::Outdoor => "Outdoor", Boundary::Adiabatic => "Adiabatic", Boundary::AmbientTemperature { .. } => "Ambient" };
    let c = |ok: bool, d: String| { cx.check(ok, || (key(), d)) };
    let sizes = (m.constructions.len(), m.spaces.len(), m.surfaces.len(), m.fenestrations.len(), m.hvacs.len(), m.luminaires.len(), m.objects.len());
    let expected = (w.constr, w.spaces, w.walls.len(), w.fens.len(), w.hvacs.len(), w.lums.len(), w.objs);
    if !c(sizes == expected, format!("there are {sizes:?} objects instead of {expected:?}")) { return }
    for (s, (_, holes)) in m.surfaces.iter().zip(&w.walls) {
        let area = 27. - holes.iter().map(|h| h.1 - h.0).sum::<f64>();
        c(s.vertices.n_inner_loops() == holes.len() && (s.area() - area).abs() < 1e-9, format!("a wall has {} holes and {} m2 instead of {} and {area}", s.vertices.n_inner_loops(), s.area(), holes.len()));
    }
    let h = header.or_else(|| m.take_state());
    let Some(h) = h else { return cx.fail(&key(), "the state is lost") };
    c(h.elements == w.elements && h.default_values.as_ref().is_some_and(|v| v.len() == w.elements.len()), format!("the state is {:?} instead of {:?}", h.elements, w.elements));
    if h.elements != w.elements { return }
    let state: SimulationState = (0..h.len()).map(|i| i as f64 + 0.5).collect();
    for (i, f) in m.fenestrations.iter().enumerate() {
        let x = &w.fens[i];
        c(f.name() == &x.0 && word(&f.front_boundary) == x.1 && word(&f.back_boundary) == x.2, format!("fenestration {i} is {} between {} and {} instead of {x:?}", f.name(), word(&f.front_boundary), word(&f.back_boundary)));
        let at = w.elements.iter().position(|e| *e == SimulationStateElement::FenestrationOpenFraction(i));
        let mut s2 = state.clone();
        let _ = f.set_open_fraction(&mut s2, -1.);
        c(f.open_fraction_index() == at && f.open_fraction(&state) == at.map(|i| state[i]) && (0..state.len()).all(|j| s2[j] == if at == Some(j) { -1. } else { state[j] }), format!("fenestration {i} is linked to {:?} instead of {at:?}", f.open_fraction_index()));
    }
    for (i, f) in m.hvacs.iter().enumerate() {
        let at = w.elements.iter().position(|e| *e == SimulationStateElement::HeatingCoolingPowerConsumption(i));
        let mut s2 = state.clone();
        let (ix, v) = match f {
            HVAC::ElectricHeater(f) => { let _ = f.set_heating_cooling_consumption(&mut s2, -1.); (f.heating_cooling_consumption_index(), f.heating_cooling_consumption(&state)) }
            HVAC::IdealHeaterCooler(f) => { let _ = f.set_heating_cooling_consumption(&mut s2, -1.); (f.heating_cooling_consumption_index(), f.heating_cooling_consumption(&state)) }
        };
        c(f.name() == &w.hvacs[i] && ix == at && v == at.map(|i| state[i]) && (0..state.len()).all(|j| s2[j] == if at == Some(j) { -1. } else { state[j] }), format!("HVAC {i} is linked to {ix:?} instead of {at:?}"));
    }
    for (i, f) in m.luminaires.iter().enumerate() {
        let at = w.elements.iter().position(|e| *e == SimulationStateElement::LuminairePowerConsumption(i));
        let mut s2 = state.clone();
        let _ = f.set_power_consumption(&mut s2, -1.);
        c(f.name() == &w.lums[i] && f.power_consumption_index() == at && f.power_consumption(&state) == at.map(|i| state[i]) && (0..state.len()).all(|j| s2[j] == if at == Some(j) { -1. } else { state[j] }), format!("luminaire {i} is linked to {:?} instead of {at:?}", f.power_consumption_index()));
    }
}

/// A window looks where its wall looks
fn boundaries(cx: &Ctx) {
    let bs = [json!({"type": "Outdoor"}), json!({"type": "Ground"}), json!({"type": "Adiabatic"}), space("s1"), space("s2"), json!({"type": "AmbientTemperature", "temperature": 11.5})];
    // walls in several planes: a point and two directions
    let planes: [[[f64; 3]; 3]; 6] = [[[0., 0., 0.], [1., 0., 0.], [0., 0., 1.]], [[1., 2., 3.], [0., 1., 0.], [0., 0., 1.]], [[0., 0., 2.5], [1., 0., 0.], [0., 1., 0.]], [[5., -5., 0.], [0.6, 0.8, 0.], [0., 0., 1.]], [[0., 0., 0.], [0.8, 0., 0.6], [0., 1., 0.]], [[-3., 1., 1.], [0., -1., 0.], [-0.6, 0., 0.8]]];
    cx.section("boundaries of windows", &format!("walls in {} planes, two orientations and {} boundaries on each side; windows of both orientations, of every first vertex, that state other boundaries", planes.len(), bs.len()), || {
        cx.par_named("b", planes.len() * bs.len() * bs.len(), |k| {
            let (pl, f, b) = (&planes[k / 36], &bs[k / 6 % 6], &bs[k % 6]);
            let pt = |x: f64, y: f64| -> [f64; 3] { std::array::from_fn(|i| pl[0][i] + x * pl[1][i] + y * pl[2][i]) };
            for flip in 0..4 {
                for first in 0..4 {
                    for own in [None, Some((&bs[4], &bs[1]))] {
                        cx.state();
                        cx.step();
                        let mut wv = vec![pt(0., 0.), pt(4., 0.), pt(4., 3.), pt(0., 3.)];
                        let mut fv = vec![pt(1., 1.), pt(2., 1.), pt(2., 2.), pt(1., 2.)];
                        if flip & 1 == 1 { wv.reverse() }
                        if flip & 2 == 2 { fv.reverse() }
                        fv.rotate_left(first);
                        let mut m = Model::default();
                        m.add_construction(Construction::new("c"));
                        m.add_space(Space::new("s1"));
                        m.add_space(Space::new("s2"));
                        let key = || format!("boundaries/{k}/{flip}/{first}/{}", own.is_some());
                        let s: Surface = serde_json::from_value(json!({"name": "w", "construction": "c", "vertices": wv.concat(), "front_boundary": f, "back_boundary": b})).unwrap();
                        let mut o = json!({"name": "f", "construction": "c", "parent_surface": "w", "vertices": fv.concat()});
                        if let Some((p, q)) = own { o["front_boundary"] = p.clone(); o["back_boundary"] = q.clone(); }
                        let r = m.add_surface(s).map(|_| ()).and_then(|_| m.add_fenestration(serde_json::from_value(o).unwrap()).map(|_| ()));
                        if !cx.check(r.is_ok(), || (key(), format!("{r:?}"))) { continue }
                        let same = (flip & 1 == 1) == (flip & 2 == 2);
                        let want = if same { (f, b) } else { (b, f) };
                        let x = &m.fenestrations[0];
                        let got = (serde_json::to_value(&x.front_boundary).unwrap(), serde_json::to_value(&x.back_boundary).unwrap());
                        cx.check((&got.0, &got.1) == want, || (key(), format!("a wall between {f} and {b} gives a window between {} and {}, {}", got.0, got.1, if same { "in the same direction" } else { "in the opposite direction" })));
                        cx.check((m.surfaces[0].area() - 11.).abs() < 1e-9 && (x.area() - 1.).abs() < 1e-9, || (key(), format!("areas are {} and {}", m.surfaces[0].area(), x.area())));
                    }
                }
            }
        });
    });
}

fn similar(cx: &Ctx, o: &[usize]) {
    let mut m = Model::default();
    for (i, r) in o.iter().enumerate() {
        let x = ROOMS[*r];
        let mut sub = substance::Normal::new(x);
        sub.set_density(1000. + i as f64);
        m.add_substance(sub.wrap());
        m.add_material(Material::new(x, x, 0.1 * (1 + i) as f64));
        let mut c = Construction::new(x);
        c.materials.push(x.into());
        m.add_construction(c);
        m.add_building(Building::new(x));
        m.add_space(Space::new(x));
    }
    let mut ok = true;
    for r in o { ok &= m.add_surface(wall(ROOMS[*r], ROOMS[*r], space(ROOMS[*r]), json!({"type": "Outdoor"}))).is_ok(); }
    for (i, r) in o.iter().enumerate() {
        let x = ROOMS[*r];
        ok &= m.add_fenestration(fen(x, x, "Window", Some(x), (1., 2. + i as f64), false)).is_ok();
        let mut h = hvac::ElectricHeater::new(x);
        h.set_target_space(x);
        ok &= m.add_hvac(h.wrap()).is_ok();
        let mut l = Luminaire::new(x);
        l.set_target_space(x);
        ok &= m.add_luminaire(l).is_ok();
    }
    let d = || o.iter().map(|i| ROOMS[*i]).collect::<Vec<_>>();
    if !cx.check(ok, || ("similar/add".into(), format!("objects called {:?} are refused", d()))) { return }
    for (r, x) in ROOMS.iter().enumerate() {
        let at = o.iter().position(|i| *i == r);
        let c = |kind: &str, got: Option<usize>| { cx.check(got == at, || (format!("similar/{kind}"), format!("{kind} '{x}' among {:?}: found {got:?}, is {at:?}", d()))); };
        c("material", m.get_material(*x).ok().and_then(|v| m.materials.iter().position(|w| Arc::ptr_eq(&v, w))));
        c("construction", m.get_construction(*x).ok().and_then(|v| m.constructions.iter().position(|w| Arc::ptr_eq(&v, w))));
        c("building", m.get_building(*x).ok().and_then(|v| m.buildings.iter().position(|w| Arc::ptr_eq(&v, w))));
        c("space", m.get_space(*x).ok().and_then(|v| m.spaces.iter().position(|w| Arc::ptr_eq(&v, w))));
        c("surface", m.get_surface(*x).ok().and_then(|v| m.surfaces.iter().position(|w| Arc::ptr_eq(&v, w))));
        c("fenestration", m.get_fenestration(*x).ok().and_then(|v| m.fenestrations.iter().position(|w| Arc::ptr_eq(&v, w))));
        c("luminaire", m.get_luminaire(*x).ok().and_then(|v| m.luminaires.iter().position(|w| Arc::ptr_eq(&v, w))));
        c("HVAC", m.get_hvac(*x).ok().and_then(|v| o.iter().position(|i| v.name() == ROOMS[*i])));
        let rho = |s: Result<Substance, String>| s.ok().and_then(|s| match s { Substance::Normal(s) => s.density().ok().map(|v| (*v - 1000.).round() as usize), _ => None });
        c("substance", rho(m.get_substance(*x)));
        c("substance of the material", rho(m.get_material_substance(*x)));
    }
    for (i, r) in o.iter().enumerate() {
        // its window takes 1 + i of the 27 of each wall
        let a = m.surfaces[i].vertices.area();
        cx.check((a - 26. + i as f64).abs() < 1e-9, || ("similar/parent".into(), format!("wall '{}' among {:?} is left with an area of {a} by a window of {}", ROOMS[*r], d(), 1 + i)));
        let b = &m.fenestrations[i].front_boundary;
        cx.check(matches!(b, Boundary::Space { space } if space == ROOMS[*r]), || ("similar/boundary".into(), format!("window '{}' among {:?} looks at {b:?}", ROOMS[*r], d())));
    }
}
