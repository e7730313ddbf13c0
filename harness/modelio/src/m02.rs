use crate::gen::*;
use mcc::*;
use model::{Model, SimulationStateHeader};
use serde_json::{json, Map, Value};

type Read = Result<(Model, SimulationStateHeader), String>;
pub fn from_json(cx: &Ctx, m: &Map<String, Value>, key: impl Fn() -> String) -> Option<Read> { let s = serde_json::to_string(m).unwrap(); cx.no_panic(|| format!("JSON: {}", key()), || Model::from_json(&s)) }
pub fn from_spl(cx: &Ctx, s: &str, key: impl Fn() -> String) -> Option<Read> { cx.no_panic(|| format!("SPL: {}", key()), || Model::from_bytes(s.as_bytes())) }
pub fn value(m: &Model) -> Value { serde_json::to_value(m).unwrap() }
fn header(h: &SimulationStateHeader) -> String { format!("{:?} {:?}", h.elements, h.default_values) }

/// The same model comes from its JSON and from its SPL text, and is what was written
fn there_and_back(cx: &Ctx, doc: &Map<String, Value>, defaults: &dyn Fn(&str, &Value) -> Value, key: impl Fn() -> String) -> Option<Model> {
    cx.step();
    let (a, ha) = match from_json(cx, doc, &key)? { Ok(x) => x, Err(e) => { cx.fail(&format!("JSON: {}", key()), &format!("is refused: {e}")); return None } };
    let va = value(&a);
    for (c, v) in doc {
        let want = if single(c) || c == "name" { v.clone() } else { Value::Array(v.as_array().unwrap().iter().map(|o| defaults(c, o)).collect()) };
        let got = va.get(c).cloned().unwrap_or(Value::Null);
        let ok = if c == "objects" { within(&want, &got) } else { same(&want, &got) };
        cx.check(ok, || (format!("JSON: {}", key()), format!("{c} are {got} instead of {want}")));
    }
    for (c, got) in va.as_object().unwrap() { if !doc.contains_key(c) { cx.check(got.as_array().is_some_and(|x| x.is_empty()), || (format!("JSON: {}", key()), format!("{c} are {got}, unasked"))); } }
    cx.step();
    let text = spl(doc);
    match from_spl(cx, &text, &key)? {
        Err(e) => cx.fail(&format!("SPL: {}", key()), &format!("is refused: {e}")),
        Ok((b, hb)) => { let vb = value(&b); cx.check(same(&strip(&va), &vb) && header(&ha) == header(&hb), || (format!("SPL: {}", key()), format!("the SPL gives {vb} and the JSON {va}"))); }
    }
    // translate it to the other format, and back
    cx.step();
    let t = a.to_string();
    match from_spl(cx, &t, || format!("translated {}", key()))? {
        Err(e) => cx.fail(&format!("SPL: translated {}", key()), &format!("is refused: {e}")),
        Ok((b, hb)) => { let vb = value(&b); cx.check(same(&strip(&va), &vb) && header(&ha) == header(&hb), || (format!("SPL: translated {}", key()), format!("becomes {vb} instead of {va}"))); }
    }
    match va { Value::Object(m) => match from_json(cx, &m, || format!("translated {}", key()))? {
        Err(e) => cx.fail(&format!("JSON: translated {}", key()), &format!("is refused: {e}")),
        Ok((b, hb)) => { let vb = value(&b); cx.check(same(&Value::Object(m.clone()), &vb) && header(&ha) == header(&hb), || (format!("JSON: translated {}", key()), format!("becomes {vb} instead of {m:?}"))); }
    }, _ => unreachable!() }
    Some(a)
}
/// A SIMPLE file has no place for the name of the model
fn strip(v: &Value) -> Value { let mut v = v.clone(); v.as_object_mut().unwrap().remove("name"); v }
fn fill(c: &str, o: &Value, shapes: &[Shape]) -> Value {
    let mut o = o.clone();
    if let (Some(s), Some(m)) = (shapes.iter().find(|s| s.coll == c), o.as_object_mut()) { for (k, v) in s.defaults.as_object().unwrap() { m.entry(k.clone()).or_insert(v.clone()); } }
    o
}

pub fn m02(cx: &Ctx) {
    let shapes = shapes();
    let defaults = |c: &str, o: &Value| fill(c, o, &shapes);
    let mut all: Vec<(&str, Value)> = vec![];
    for s in &shapes { for o in s.objects() { all.push((s.coll, o)) } }
    cx.section("every kind of object", &format!("{} objects: all the subsets of their optional fields, all the values of every field and of every two fields", all.len()), || {
        cx.par_named("objects", all.len(), |k| {
            cx.state();
            let (c, o) = &all[k];
            let mut doc = scaffold();
            put(&mut doc, c, o.clone());
            there_and_back(cx, &doc, &defaults, || format!("{c} {o}"));
        });
    });
    cx.section("several objects of a kind", "every ordered pair of kinds, with two objects of each, one of them twice", || {
        let n = shapes.len();
        cx.par_named("pairs", n * n, |k| {
            cx.state();
            let mut doc = scaffold();
            doc.insert("name".into(), json!("my \"model\""));
            for (i, s) in [&shapes[k / n], &shapes[k % n]].iter().enumerate() {
                let o = s.objects();
                let (x, y) = (o[i].clone(), o[o.len() - 1 - i].clone());
                for v in [&x, &y, &x] { put(&mut doc, s.coll, v.clone()) }
            }
            there_and_back(cx, &doc, &defaults, || format!("pair of kinds {} and {}", shapes[k / n].coll, shapes[k % n].coll));
        });
    });
    let rich = || {
        let mut doc = scaffold();
        let mut outputs = 0;
        for s in &shapes { if s.coll == "outputs" { outputs += 1; if outputs > 2 { continue } } let o = s.objects(); put(&mut doc, s.coll, o[(1usize << s.optional.len()) - 1].clone()) }
        doc.get_mut("surfaces").unwrap()[0]["front_boundary"] = json!({"type": "Space", "space": "room"});
        put(&mut doc, "fenestrations", json!({"name": "hole", "construction": "c", "vertices": [1, 0, 1, 2, 0, 1, 2, 0, 2, 1, 0, 2], "parent_surface": "w"}));
        put(&mut doc, "objects", json!({"name": "table", "space": "room", "dimensions": {"x": 1, "y": 1, "z": 1}}));
        doc
    };
    cx.section("order of the file", "all permutations of the seven collections that refer to each other, and rotations of all of them, in JSON and in SPL", || {
        let reference = from_json(cx, &rich(), || "the model in order".into());
        let canon = |m: &Model| value(m);
        let Some(Ok((m0, h0))) = from_spl(cx, &spl(&rich()), || "the model in order".into()) else { cx.fail("SPL: the model in order", "is refused"); return };
        if let Some(r) = reference { cx.check(r.is_ok(), || ("JSON: the model in order".into(), format!("{:?}", r.err()))); }
        let v0 = canon(&m0);
        let cs = ["fenestrations", "surfaces", "constructions", "materials", "spaces", "objects", "hvacs"];
        let mut perms: Vec<Vec<&str>> = vec![vec![]];
        for c in cs { perms = perms.into_iter().flat_map(|p| (0..=p.len()).map(move |i| { let mut q = p.clone(); q.insert(i, c); q })).collect(); }
        let rest: Vec<String> = rich().keys().filter(|k| !cs.contains(&k.as_str())).cloned().collect();
        cx.par_named("orders", perms.len() * 2, |k| {
            cx.state();
            let p = &perms[k / 2];
            let mut order: Vec<String> = p.iter().map(|x| x.to_string()).collect();
            if k % 2 == 0 { order.extend(rest.iter().cloned()) } else { order.splice(0..0, rest.iter().rev().cloned()); }
            let doc = rich();
            let text = format!("{{{}}}", order.iter().map(|c| format!("{:?}: {}", c, doc[c])).collect::<Vec<_>>().join(", "));
            let key = || format!("order {p:?} {}", k % 2);
            cx.step();
            if let Some(r) = cx.no_panic(|| format!("JSON: {}", key()), || Model::from_json(&text)) {
                match r { Err(e) => cx.fail(&format!("JSON: {}", key()), &format!("is refused: {e}")), Ok((m, h)) => { let v = canon(&m); cx.check(same(&v, &v0) && header(&h) == header(&h0), || (format!("JSON: {}", key()), format!("is {v} {} instead of {v0} {}", header(&h), header(&h0)))); } }
            }
            cx.step();
            let text: String = order.iter().map(|c| { let mut one = Map::new(); one.insert(c.clone(), doc[c].clone()); spl(&one) }).collect();
            if let Some(r) = from_spl(cx, &text, key) {
                match r { Err(e) => cx.fail(&format!("SPL: {}", key()), &format!("is refused: {e}")), Ok((m, h)) => { let v = canon(&m); cx.check(same(&v, &v0) && header(&h) == header(&h0), || (format!("SPL: {}", key()), format!("is {v} {} instead of {v0} {}", header(&h), header(&h0)))); } }
            }
        });
    });
    cx.section("files", "models written to a file are read back, in both formats", || {
        let every = 7usize;
        let n = all.len() / every;
        let dir = Scratch::new("m02");
        cx.par_named("files", n, |k| {
            cx.state();
            let (c, o) = &all[k * every];
            let mut doc = rich();
            if single(c) { doc.remove(*c); }
            put(&mut doc, c, o.clone());
            let key = || format!("{c} {o} in a file");
            let Some(Ok((m, _))) = from_json(cx, &doc, key) else { cx.fail(&format!("JSON: {}", key()), "is refused"); return };
            let v = value(&m);
            let (p, q) = (dir.path(&format!("{k}.spl")).display().to_string(), dir.path(&format!("{k}.json")).display().to_string());
            cx.step();
            let w = (m.print_to_file(&p), m.print_to_json_file(&q));
            cx.check(w.0.is_ok() && w.1.is_ok(), || (key(), format!("cannot be written: {w:?}")));
            for (f, r) in [("SPL", cx.no_panic(|| format!("SPL: {}", key()), || Model::from_file(p.clone()))), ("JSON", cx.no_panic(|| format!("JSON: {}", key()), || Model::from_json_file(q.clone())))] {
                let Some(r) = r else { continue };
                match r { Err(e) => cx.fail(&format!("{f}: {}", key()), &format!("is refused: {e}")), Ok((b, _)) => { let vb = value(&b); cx.check(same(&v, &vb), || (format!("{f}: {}", key()), format!("becomes {vb} instead of {v}"))); } }
            }
            let _ = (std::fs::remove_file(&p), std::fs::remove_file(&q));
        });
    });
}
