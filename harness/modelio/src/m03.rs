use crate::gen::*;
use crate::m02::{from_json, value};
use mcc::*;
use model::Model;
use serde_json::{json, Map, Value};

/// What a text should mean
#[derive(PartialEq)]
enum Meaning { Doc(Map<String, Value>), Refused, Unclear }

fn blank(b: &[u8], i: &mut usize) -> bool {
    while *i < b.len() {
        match b[*i] {
            b' ' | b'\t' | b'\r' | b'\n' => *i += 1,
            b'/' if b.get(*i + 1) == Some(&b'/') => while *i < b.len() && b[*i] != b'\n' { *i += 1 },
            b'/' if b.get(*i + 1) == Some(&b'*') => { let mut j = *i + 2; loop { if j + 1 >= b.len() { *i = b.len(); return false } if b[j] == b'*' && b[j + 1] == b'/' { break } j += 1 } *i = j + 2 }
            _ => break,
        }
    }
    true
}
fn read(t: &str) -> Meaning {
    let b = t.as_bytes();
    let mut i = 0;
    let mut doc = Map::new();
    let mut unknown = false;
    let refused = |u: bool| if u { Meaning::Unclear } else { Meaning::Refused };
    loop {
        if !blank(b, &mut i) { return Meaning::Unclear }
        if i >= b.len() { break }
        let a = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
        let word = &t[a..i];
        let kind = KINDS.iter().find(|k| k.1 == word).map(|k| k.0);
        if word.is_empty() { return refused(unknown) }
        unknown |= kind.is_none();
        if !blank(b, &mut i) || i >= b.len() || b[i] != b'{' { return refused(unknown) }
        let a = i;
        let mut level = 0;
        loop {
            if !blank(b, &mut i) || i >= b.len() { return refused(unknown) }
            match b[i] {
                b'{' => level += 1,
                b'}' => level -= 1,
                q @ (b'"' | b'\'') => { i += 1; while i < b.len() && b[i] != q { if b[i] == b'\\' { i += 1 } i += 1 } if i >= b.len() { return refused(unknown) } }
                _ => {}
            }
            i += 1;
            if level == 0 { break }
        }
        if let Some(c) = kind {
            // (the reading of a single object is that of JSON5: no repeated fields, for example)
            fn ok<'a, T: serde::Deserialize<'a>>(t: &'a str) -> bool { json5::from_str::<T>(t).is_ok() }
            use model::*;
            let t1 = &t[a..i];
            let fine = match c { "spaces" => ok::<Space>(t1), "substances" => ok::<Substance>(t1), "materials" => ok::<Material>(t1), "constructions" => ok::<Construction>(t1), "surfaces" => ok::<Surface>(t1), "fenestrations" => ok::<Fenestration>(t1), "buildings" => ok::<Building>(t1), "hvacs" => ok::<HVAC>(t1), "luminaires" => ok::<Luminaire>(t1), "objects" => ok::<Object>(t1), "outputs" => ok::<Output>(t1), "site_details" => ok::<SiteDetails>(t1), _ => ok::<SolarOptions>(t1) };
            if !fine { return refused(unknown) }
            let Ok(v) = json5::from_str::<Value>(&t[a..i]) else { return refused(unknown) };
            if single(c) { // the last one stays, but all of them have to make sense
                let mut one = Map::new();
                one.insert(c.into(), v.clone());
                if Model::from_json(&Value::Object(one).to_string()).is_err() { return refused(unknown) }
            }
            put(&mut doc, c, v);
        }
    }
    Meaning::Doc(doc)
}

fn judge(cx: &Ctx, t: &str, key: impl Fn() -> String) {
    cx.step();
    let Some(got) = cx.no_panic(&key, || Model::from_bytes(t.as_bytes())) else { return };
    let doc = match read(t) {
        Meaning::Unclear => { cx.outcome("unclear"); return }
        Meaning::Refused => { cx.outcome("refused"); cx.check(got.is_err(), || (key(), format!("the text {t:?} is read as {}", value(&got.as_ref().unwrap().0)))); return }
        Meaning::Doc(d) => d,
    };
    let Some(want) = from_json(cx, &doc, &key) else { return };
    match (got, want) {
        (Ok((a, _)), Ok((b, _))) => { cx.outcome("read"); let (a, b) = (value(&a), value(&b)); cx.check(same(&b, &a), || (key(), format!("the text {t:?} is read as {a} instead of {b}"))); }
        (Err(_), Err(_)) => cx.outcome("both refuse"),
        (Ok((a, _)), Err(e)) => cx.fail(&key(), &format!("the text {t:?} is read as {}, but its JSON is refused: {e}", value(&a))),
        (Err(e), Ok((b, _))) => cx.fail(&key(), &format!("the text {t:?} is refused ({e}), but its JSON is {}", value(&b))),
    }
}

pub fn m03(cx: &Ctx) {
    let tokens = ["Building", "Space", "{", "}", "name:", "\"x\"", "'}'", "\"{\"", ",", " ", "// {\n", "/* } */", "(", "\\"];
    let n = tokens.len();
    let depth = cx.pick(5, 6);
    cx.section("sequences of tokens", &format!("all sequences of up to {depth} of {n} tokens, on their own and after an object, and inside an object"), || {
        for d in 0..=depth {
            cx.par_named(&format!("{d} tokens"), n.pow(d as u32), |k| {
                cx.state();
                let s: String = (0..d).map(|i| tokens[k / n.pow(i as u32) % n]).collect();
                judge(cx, &s, || format!("tokens {s:?}"));
                if d < depth {
                    let t = format!("Space {{name: 'a'}} {s}");
                    judge(cx, &t, || format!("tokens {t:?}"));
                    let t = format!("Building {{name: {s}}} Space{{name: 'b'}}");
                    judge(cx, &t, || format!("tokens {t:?}"));
                }
            });
        }
    });
    let text = "Space {name: 'the \"room\"', volume: 3.5}\n// a {comment\nSubstance { type: 'Normal', name: \"s}\" }/* } */\nMaterial{name:'m',substance:'s}',thickness:.1,}\nConstruction { name: 'c', /* in { */ materials: ['m', 'm'], }\nSurface {name:'w',construction:'c',vertices:[0,0,0,4,0,0,4,0,3,0,0,3],front_boundary:{type:'Space',space:'the \"room\"'}}\nFenestration {\n  name: 'it\\'s', construction: 'c', // hole }\n  parent_surface: 'w', vertices: [1,0,1, 2,0,1, 2,0,2, 1,0,2]\n}\nHVAC {type:'ElectricHeater',name:'h'}\nOutput { SpaceDryBulbTemperature: 'the \"room\"' }\nSiteDetails { latitude: -33, terrain: \"City\" }\nSolarOptions{n_solar_irradiance_points:3}\nLuminaire{name:'l'} Object{name:'o',dimensions:{x:1,y:2,z:3},space:'the \"room\"'}";
    let bytes: Vec<char> = text.chars().collect();
    cx.section("cut files", "every prefix and every suffix of a file with every kind of object", || {
        cx.par_named("cuts", bytes.len() * 2 + 1, |k| {
            cx.state();
            let n = bytes.len();
            let t: String = if k <= n { bytes[..k].iter().collect() } else { bytes[k - n..].iter().collect() };
            judge(cx, &t, || if k <= n { format!("the first {k} characters") } else { format!("without its first {} characters", k - n) });
        });
    });
    let chars: Vec<char> = "{}\"'\\/*(),:\nx0 [é\0\r\t".chars().collect();
    cx.section("mistyped files", "every character of a file removed, replaced or preceded by each of 20 characters; thorough: every two removed", || {
        let per = 1 + 2 * chars.len();
        cx.par_named("typos", bytes.len() * per, |k| {
            cx.state();
            let (i, j) = (k / per, k % per);
            let mut b = bytes.clone();
            let what = if j == 0 { b.remove(i); "removed".to_string() } else { let c = chars[(j - 1) / 2]; if j % 2 == 0 { b[i] = c; format!("replaced by {c:?}") } else { b.insert(i, c); format!("preceded by {c:?}") } };
            let t: String = b.iter().collect();
            judge(cx, &t, || format!("character {i} ({:?}) {what}", bytes[i]));
        });
        if cx.thorough() {
            let n = bytes.len();
            cx.par_named("two typos", n * n, |k| {
                let (i, j) = (k / n, k % n);
                if j >= i { return }
                cx.state();
                let mut b = bytes.clone();
                b.remove(i);
                b.remove(j);
                let t: String = b.iter().collect();
                judge(cx, &t, || format!("characters {j} and {i} removed"));
            });
        }
    });
    let breaks = ["\n", "\r\n", "\n\n\n", "// { a comment\n", "/* a\n * \" comment\n*/", "/*\n*/\n\t//\n", "\\\n"];
    let tails = ["\n%", "\n, ", "\nSpace {name: 3}\n", "\nSpace {name: \n'x'", "\nSpace {name: \"x\n", "\nWhatever", "\nSurface {\n\n name: 'z' }\n\n"];
    cx.section("line of an error", "a correct file with one of 7 breaks (lines, comments, continued texts) put between any two characters where it is still correct, and one of 7 errors after it: the error is said to be as many lines below as there are in the break", || {
        let line = |t: &str| match Model::from_bytes(t.as_bytes()) { Ok(_) => None, Err(e) => Some(e.split("line ").nth(1).map(|r| r.chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|d| d.parse::<usize>().ok()).ok_or(e)) };
        let base: Vec<Option<Result<usize, String>>> = tails.iter().map(|x| line(&format!("{text}{x}"))).collect();
        for (x, b) in tails.iter().zip(&base) { cx.outcome(match b { Some(Ok(_)) => "with a line", Some(Err(_)) => "without a line", None => "accepted" }); cx.check(b.is_some(), || ("accepted".into(), format!("{x:?} after a correct file"))); }
        cx.par_named("lines", bytes.len() * breaks.len(), |k| {
            let (i, b) = (k / breaks.len(), breaks[k % breaks.len()]);
            let t: String = bytes[..i].iter().copied().chain(b.chars()).chain(bytes[i..].iter().copied()).collect();
            if !matches!(read(&t), Meaning::Doc(_)) || Model::from_bytes(t.as_bytes()).is_err() { return }
            cx.state();
            let n = b.matches('\n').count();
            for (x, at) in tails.iter().zip(&base) {
                let Some(Ok(at)) = at else { continue };
                cx.step();
                let Some(r) = cx.no_panic(|| "line of an error".into(), || line(&format!("{t}{x}"))) else { return };
                cx.check(r == Some(Ok(at + n)), || ("line of an error".into(), format!("{b:?} before character {i} and {x:?} at the end: {r:?} instead of line {}", at + n)));
            }
        });
    });
    // wrong values in the fields of every object
    let wrong = [json!(null), json!(true), json!("text"), json!(3), json!(-1), json!(1.5), json!([]), json!([1]), json!({}), json!(["a"]), json!([[1, 2, 3]]), json!({"type": "Nothing"}), json!({"a": 1}), json!([0, 0, 0, 1, 0, 0]), json!([0, 0, 0, 1, 0, 0, 1, 1]), json!([0, 0, 0, 1, 0, 0, 1, 1, "z"]), json!([0, 0, 0, 1, 0, 0, 1, 1, null, 0, 1, 0]), json!([0, 0, 0, 1, 0, 0, 2, 0, 0]), json!([0, 0, 0, 0, 0, 0, 0, 0, 0]), json!([0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 1, 5]), json!([0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 1, 0]), json!([0, 0, 0, 1, 0, 0, 1, 1, 0, 1, 0, 0]), json!([0, 0, 0, 1e300, 0, 0, 1, 1, 0])];
    let shapes = shapes();
    let mut cases: Vec<(&str, Value, String, bool)> = vec![];
    for s in &shapes {
        let o = s.objects()[(1 << s.optional.len()) - 1].clone();
        let m = o.as_object().unwrap();
        for (i, k) in m.keys().enumerate() {
            let required = s.required.iter().any(|r| r.0 == k);
            let mut v = o.clone();
            v.as_object_mut().unwrap().remove(k);
            cases.push((s.coll, v, format!("without {k}"), required));
            for w in &wrong {
                let mut v = o.clone();
                v[k] = w.clone();
                cases.push((s.coll, v.clone(), format!("{k}: {w}"), false));
                if let Some(inner) = o[k].as_object() { for q in inner.keys() { let mut v = o.clone(); v[k][q] = w.clone(); cases.push((s.coll, v, format!("{k}.{q}: {w}"), false)); let mut v = o.clone(); v[k].as_object_mut().unwrap().remove(q); cases.push((s.coll, v, format!("{k} without {q}"), false)); } }
            }
            if i == 0 { let mut v = o.clone(); v["nonsense"] = json!(1); cases.push((s.coll, v, "with a nonsense field".into(), s.coll != "outputs")); cases.push((s.coll, json!("text"), "a text".into(), true)); cases.push((s.coll, json!([]), "a list".into(), s.coll != "site_details" && s.coll != "solar_options")); cases.push((s.coll, json!(null), "null".into(), !single(s.coll))); }
        }
    }
    let refer = [("materials", json!({"name": "x", "substance": "none", "thickness": 1}), false), ("surfaces", json!({"name": "x", "construction": "none", "vertices": [0, 0, 0, 1, 0, 0, 1, 1, 0]}), true), ("surfaces", json!({"name": "x", "construction": "c", "vertices": [0, 0, 0, 1, 0, 0, 1, 1, 0], "front_boundary": {"type": "Space", "space": "none"}}), true), ("surfaces", json!({"name": "x", "construction": "c", "vertices": [0, 0, 0, 1, 0, 0, 1, 1, 0], "back_boundary": {"type": "Space", "space": "none"}}), true), ("fenestrations", json!({"name": "x", "construction": "none", "vertices": [0, 0, 0, 1, 0, 0, 1, 1, 0]}), true), ("fenestrations", json!({"name": "x", "construction": "none", "category": "Opening", "vertices": [0, 0, 0, 1, 0, 0, 1, 1, 0]}), false), ("fenestrations", json!({"name": "x", "construction": "c", "parent_surface": "none", "vertices": [0, 0, 0, 1, 0, 0, 1, 1, 0]}), true), ("fenestrations", json!({"name": "x", "construction": "c", "parent_surface": "w", "vertices": [0, 0, 10, 1, 0, 10, 1, 1, 10]}), true), ("objects", json!({"name": "x", "dimensions": {"x": 1, "y": 1, "z": 1}, "space": "none"}), true)];
    for (c, v, refuse) in refer { cases.push((c, v, "refers to something else".into(), refuse)) }
    cx.section("wrong values", &format!("{} objects with a missing, nonsensical or wrong field, or that refer to what is not there", cases.len()), || {
        cx.par_named("wrong", cases.len(), |k| {
            cx.state();
            let (c, o, what, refuse) = &cases[k];
            let mut doc = scaffold();
            put(&mut doc, c, o.clone());
            let key = || format!("{c} {what} ({k})");
            cx.step();
            let Some(a) = from_json(cx, &doc, key) else { return };
            cx.step();
            // JSON5 is more lenient: it rounds 1.5 to a count, for example, so it may accept more
            let t = spl(&doc);
            let Some(b) = cx.no_panic(|| format!("SPL: {}", key()), || Model::from_bytes(t.as_bytes())) else { return };
            if *refuse { cx.check(a.is_err(), || (format!("JSON: {}", key()), format!("{o} is accepted"))); cx.check(b.is_err(), || (format!("SPL: {}", key()), format!("{o} is accepted"))); }
            if !single(c) || o.is_object() { cx.check(a.is_err() || b.is_ok(), || (key(), format!("{o} in JSON: {:?}, in SPL: {:?}", a.as_ref().err(), b.as_ref().err()))); }
            if let (Ok((a, _)), Ok((b, _))) = (&a, &b) { let (x, y) = (value(a), value(b)); cx.check(same(&x, &y), || (key(), format!("{o} is read as {x} in JSON, and {y} in SPL"))); }
            cx.outcome(if a.is_ok() { "accepted" } else { "refused" });
        });
    });
}
