use mcc::*;
use model::{SimulationStateElement as E, SimulationStateHeader};

/// The three kinds of elements: personal, operational and physical
fn element(kind: usize, i: usize) -> E {
    match kind { 0 => E::Clothing, 1 => match i % 3 { 0 => E::FenestrationOpenFraction(i), 1 => E::HeatingCoolingPowerConsumption(i), _ => E::LuminairePowerConsumption(i) }, _ => match i % 4 { 0 => E::SpaceDryBulbTemperature(i), 1 => E::SurfaceNodeTemperature(i, 2), 2 => E::SpaceAirExchangeVolume(i, 1), _ => E::FenestrationFrontIRIrradiance(i) } }
}
const NAMES: [&str; 4] = ["personal", "operational", "physical", "take the values"];

pub fn m01(cx: &Ctx) {
    let depth = cx.pick(7, 10);
    let n = 4usize.pow(depth as u32);
    cx.section("histories of a header", &format!("all sequences of {depth} pushes of each kind of element and takings of the values"), || {
        cx.par_named("histories", n, |k| {
            cx.state();
            let ops: Vec<usize> = (0..depth).map(|i| k / 4usize.pow(i as u32) % 4).collect();
            let key = || format!("{:?}", ops.iter().map(|o| NAMES[*o]).collect::<Vec<_>>());
            let mut h = SimulationStateHeader::new();
            let mut want: Vec<E> = vec![];
            let mut vals: Option<Vec<f64>> = Some(vec![]);
            let mut top = 0;
            for (i, op) in ops.iter().enumerate() {
                cx.step();
                if *op == 3 {
                    let got = h.take_values();
                    cx.check(got == vals, || (key(), format!("the values are {got:?} instead of {vals:?}")));
                    vals = None;
                } else {
                    let e = element(*op, i);
                    let got = h.push(e, i as f64 * 1.5);
                    let ok = *op >= top && vals.is_some();
                    cx.check(got.is_ok() == ok, || (key(), format!("push {i} gives {got:?}")));
                    if ok {
                        cx.check(got == Ok(want.len()), || (key(), format!("push {i} says it is element {got:?} instead of {}", want.len())));
                        top = *op;
                        want.push(e);
                        if let Some(v) = &mut vals { v.push(i as f64 * 1.5) }
                    }
                }
                let count = |f: &dyn Fn(&E) -> bool| want.iter().filter(|e| f(e)).count();
                cx.check(h.len() == want.len() && h.is_empty() == want.is_empty() && (0..want.len()).all(|i| h[i] == want[i]) && h.elements == want, || (key(), format!("after step {i} the elements are {:?} instead of {want:?}", h.elements)));
                cx.check(h.n_individual() == count(&|e| e.is_personal()) && h.n_operational() == count(&|e| e.is_operational()), || (key(), format!("after step {i} there are {} individual and {} operational elements in {want:?}", h.n_individual(), h.n_operational())));
                cx.check(h.default_values == vals, || (key(), format!("after step {i} the values are {:?} instead of {vals:?}", h.default_values)));
            }
            // copying each part of a state touches nothing else
            let m = want.len();
            let from: Vec<f64> = (0..m).map(|i| 100. + i as f64).collect();
            for part in 0..3 {
                let mut to: Vec<f64> = (0..m).map(|i| -1. - i as f64).collect();
                let before = to.clone();
                match part { 0 => h.copy_individual_state(&from, &mut to), 1 => h.copy_operational_state(&from, &mut to), _ => h.copy_physical_state(&from, &mut to) }
                for i in 0..m {
                    let mine = match part { 0 => want[i].is_personal(), 1 => want[i].is_operational(), _ => want[i].is_physical() };
                    cx.check(to[i] == if mine { from[i] } else { before[i] }, || (key(), format!("copying the {} state left {} in element {i} ({:?})", NAMES[part], to[i], want[i])));
                }
            }
            let mut other = h.clone();
            other.copy_from(&h);
            cx.check(other.elements == want, || (key(), "a copied header differs".into()));
        });
    });
    // every element is of exactly one kind
    let all = |a: usize, b: usize| vec![E::Clothing, E::FenestrationOpenFraction(a), E::HeatingCoolingPowerConsumption(a), E::LuminairePowerConsumption(a), E::SurfaceFrontConvectionCoefficient(a), E::SurfaceBackConvectionCoefficient(a), E::SurfaceFrontConvectiveHeatFlow(a), E::SurfaceBackConvectiveHeatFlow(a), E::SurfaceFrontSolarIrradiance(a), E::SurfaceBackSolarIrradiance(a), E::SurfaceFrontIRIrradiance(a), E::SurfaceBackIRIrradiance(a), E::FenestrationFrontConvectionCoefficient(a), E::FenestrationBackConvectionCoefficient(a), E::FenestrationFrontConvectiveHeatFlow(a), E::FenestrationBackConvectiveHeatFlow(a), E::FenestrationFrontSolarIrradiance(a), E::FenestrationBackSolarIrradiance(a), E::FenestrationFrontIRIrradiance(a), E::FenestrationBackIRIrradiance(a), E::SpaceDryBulbTemperature(a), E::SpaceInfiltrationVolume(a), E::SpaceInfiltrationTemperature(a), E::SpaceVentilationVolume(a), E::SpaceVentilationTemperature(a), E::SpaceAirExchangeVolume(a, b), E::SurfaceNodeTemperature(a, b), E::FenestrationNodeTemperature(a, b)];
    cx.section("kinds of elements", "every element is personal, operational or physical, and only one of them", || {
        for (i, e) in all(1, 2).iter().enumerate() {
            cx.state();
            cx.step();
            let want = if i == 0 { (true, false, false) } else if i < 4 { (false, true, false) } else { (false, false, true) };
            let got = (e.is_personal(), e.is_operational(), e.is_physical());
            cx.check(got == want, || (format!("kind of {e:?}"), format!("personal, operational, physical: {got:?}")));
        }
    });
    cx.section("names of elements", "the requested output of every element is told from any other, whatever the names of the objects", || {
        use model::*;
        let names: Vec<(&str, &str)> = vec![("a", "b"), ("room 1", "room 10"), ("a\"b", "a'b"), ("a\\", "a"), ("á", "à"), ("{x}", "{}"), ("a-b", "a-c"), ("tab\t", "line\n")];
        for (x, y) in names {
            let mut m = Model::default();
            for n in [x, y] {
                m.add_space(Space::new(n));
                m.add_hvac(hvac::ElectricHeater::new(n).wrap()).unwrap();
                m.add_luminaire(Luminaire::new(n)).unwrap();
                let v = "[0,0,0, 1,0,0, 1,1,0, 0,1,0]";
                let nm = serde_json::to_string(n).unwrap();
                m.surfaces.push(std::sync::Arc::new(serde_json::from_str(&format!("{{\"name\":{nm},\"construction\":\"c\",\"vertices\":{v}}}")).unwrap()));
                m.fenestrations.push(std::sync::Arc::new(serde_json::from_str(&format!("{{\"name\":{nm},\"construction\":\"c\",\"vertices\":{v}}}")).unwrap()));
            }
            let mut es = vec![];
            for a in 0..2 { for b in 0..2 { for (i, e) in all(a, b).into_iter().enumerate() { if !es.iter().any(|(_, o, _, _)| *o == e) && i > 0 { es.push((i, e, a, b)) } } } }
            for (i, e, a, b) in &es {
                cx.state();
                let key = || format!("name of {e:?} among '{x}' and '{y}'");
                let Some(s) = cx.no_panic(key, || e.stringify(&m)) else { continue };
                cx.step();
                // the very text of the output that a user would request
                let full = format!("{e:?}");
                let variant = full.split('(').next().unwrap();
                let n = |k: usize| if k == 0 { x } else { y };
                let arg = if *i == 25 { format!("{}-{}", n(*a), n(*b)) } else if *i >= 26 { format!("{}-{}", n(*a), b) } else { n(*a).to_string() };
                let want = serde_json::to_string(&serde_json::json!({ variant: arg })).unwrap();
                cx.check(s == want, || (key(), format!("is {s} instead of {want}")));
                let back: Result<Output, _> = serde_json::from_str(&s);
                match back { Ok(o) => { let again = serde_json::to_string(&o).unwrap(); cx.check(again == s, || (key(), format!("{s} is requested as {again}"))); } Err(er) => cx.fail(&key(), &format!("{s} cannot be requested: {er}")) }
            }
        }
    });
}
