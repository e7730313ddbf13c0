//! R06: what scene loaders put into the scene is what the source describes.
use geometry::*;
use mcc::*;
use model::{Construction, Fenestration, Model, Substance, Surface};
use rendering::from_simple_model::{SceneElement, SimpleModelReader};
use rendering::material::*;
use rendering::primitive::Primitive;
use rendering::*;

type P = [f64; 3];
fn sub(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn cross(a: P, b: P) -> P { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: P, b: P) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn newell(p: &[P]) -> P {
    let mut r = [0.; 3];
    for i in 1..p.len().max(2) - 1 { let c = cross(sub(p[i], p[0]), sub(p[i + 1], p[0])); for k in 0..3 { r[k] += c[k] / 2.; } }
    r
}
/// p inside the planar polygon, or within a thousandth of its border
fn covers(poly: &[P], p: P) -> bool {
    let n = newell(poly);
    let k = (0..3).max_by(|a, b| n[*a].abs().total_cmp(&n[*b].abs())).unwrap();
    let (u, v) = ((k + 1) % 3, (k + 2) % 3);
    if (dot(sub(p, poly[0]), n) / dot(n, n).sqrt()).abs() > 1e-3 { return false; }
    let mut inside = false;
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        let d = sub(b, a);
        let t = (dot(sub(p, a), d) / dot(d, d)).clamp(0., 1.);
        let q = [a[0] + d[0] * t - p[0], a[1] + d[1] * t - p[1], a[2] + d[2] * t - p[2]];
        if dot(q, q) < 1e-6 { return true; }
        if (a[v] > p[v]) != (b[v] > p[v]) && p[u] < a[u] + (p[v] - a[v]) / d[v] * d[u] { inside = !inside; }
    }
    inside
}
/// The triangles tile the polygon: every one within it, no more and no less than its area. Returns what is wrong.
fn tiles(tris: &[[P; 3]], poly: &[P], holes: &[Vec<P>], same_side: bool) -> Option<String> {
    let n = newell(poly);
    let mut area = dot(n, n).sqrt();
    for h in holes { let m = newell(h); area -= dot(m, m).sqrt(); }
    let mut got = 0.;
    for t in tris {
        let m = newell(t);
        got += dot(m, m).sqrt();
        if same_side && dot(m, n) <= 0. { return Some(format!("triangle {t:?} faces the other way")); }
        for w in [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0.5, 0.5, 0.], [0., 0.5, 0.5], [0.5, 0., 0.5], [0.34, 0.33, 0.33]] {
            let p = [0, 1, 2].map(|k| t[0][k] * w[0] + t[1][k] * w[1] + t[2][k] * w[2]);
            if !covers(poly, p) { return Some(format!("triangle {t:?} leaves the surface")); }
            if w[0] == 0.34 && holes.iter().any(|h| covers(h, p)) { return Some(format!("triangle {t:?} covers a hole")); }
        }
    }
    ((got - area).abs() > 1e-4 * (1. + area)).then(|| format!("{got} m2 instead of {area} in {} triangles", tris.len()))
}
fn tri(s: &Scene, i: usize) -> [P; 3] {
    let t = &s.triangles[i];
    let f = |k: usize| [t[3 * k] as f64, t[3 * k + 1] as f64, t[3 * k + 2] as f64];
    [f(0), f(1), f(2)]
}

// ---------------------------------------------------------------- Radiance
#[derive(Clone, Debug)]
enum Geo { Poly(Vec<P>), Ball(f64, P), Sun(P, f64) }
#[derive(Clone, Debug)]
enum Read { Mat(String), Obj(Geo) }
/// Independent reader: the materials in order, the objects with the material they use
struct Want { mats: Vec<String>, objs: Vec<(Geo, String)>, unsure: bool }
fn parse(src: &str) -> Result<Want, String> {
    let toks: Vec<&str> = src.split_ascii_whitespace().collect();
    let mut i = 0;
    let mut w = Want { mats: vec![], objs: vec![], unsure: false };
    let mut names: Vec<(String, String)> = vec![];
    while i < toks.len() {
        let mut next = || { i += 1; toks.get(i - 1).copied().ok_or("the end") };
        let (modifier, kind, name) = (next()?, next()?, next()?);
        let n: &[usize] = match kind { "plastic" | "metal" | "dielectric" => &[5], "light" | "mirror" => &[3], "glass" => &[3, 4], "sphere" | "source" => &[4], "polygon" => &[], _ => return Err("kind".into()) };
        if next()? != "0" || next()? != "0" { return Err("arguments".into()); }
        let k: usize = next()?.parse().map_err(|_| "count")?;
        if !n.is_empty() && !n.contains(&k) || k % 3 != 0 && n.is_empty() || k > 1000 { return Err("count".into()); }
        let mut v = vec![];
        for _ in 0..k { v.push(next()?.parse::<f64>().map_err(|_| "number")?); }
        let c = || format!("{:?}", Spectrum([v[0] as _, v[1] as _, v[2] as _]));
        let read = match kind {
            "plastic" | "metal" if v[3] < 1e-5 => Read::Mat(format!("Diffuse(Diffuse {{ colour: {} }})", c())),
            "plastic" => Read::Mat(format!("Plastic(Plastic {{ colour: {}, specularity: {:?}, roughness: {:?} }})", c(), v[3], v[4])),
            "metal" => Read::Mat(format!("Metal(Metal {{ colour: {}, specularity: {:?}, roughness: {:?} }})", c(), v[3], v[4])),
            "light" => Read::Mat(format!("Light(Light({}))", c())),
            "mirror" => Read::Mat(format!("Mirror(Mirror({}))", c())),
            "dielectric" => Read::Mat(format!("Dielectric(Dielectric {{ colour: {}, refraction_index: {:?} }})", c(), v[3])),
            "glass" => Read::Mat(format!("Glass(Glass {{ colour: {}, refraction_index: {:?} }})", c(), v.get(3).unwrap_or(&1.52))),
            "sphere" => Read::Obj(Geo::Ball(v[3], [v[0], v[1], v[2]])),
            "source" => Read::Obj(Geo::Sun([v[0], v[1], v[2]], v[3])),
            _ => Read::Obj(Geo::Poly(v.chunks(3).map(|c| [c[0], c[1], c[2]]).collect())),
        };
        match read {
            Read::Mat(m) => { names.push((name.into(), m.clone())); w.mats.push(m); }
            Read::Obj(g) => {
                let m = names.iter().rev().find(|x| x.0 == modifier).ok_or("modifier")?.1.clone();
                match &g {
                    Geo::Poly(p) => { let a = newell(p); if p.len() < 3 || dot(a, a).sqrt() < 0.05 || !POOL_SHAPES.with(|s| s.contains(p)) { w.unsure = true } }
                    Geo::Ball(r, _) => if *r <= 0. { w.unsure = true },
                    Geo::Sun(d, a) => if dot(*d, *d) == 0. || *a <= 0. || *a > 180. || !m.starts_with("Light") { w.unsure = true },
                }
                w.objs.push((g, m));
            }
        }
    }
    Ok(w)
}
const TRI: [P; 3] = [[0., 0., 0.], [2., 0., 0.], [0., 3., 0.]];
const QUAD: [P; 4] = [[1., 1., 1.], [3., 1., 1.], [3., 1., 4.], [1., 1., 4.]];
const ELL: [P; 6] = [[0., 0., 2.], [4., 0., 2.], [4., 1., 2.], [1., 1., 2.], [1., 3., 2.], [0., 3., 2.]];
thread_local! { static POOL_SHAPES: Vec<Vec<P>> = vec![TRI.to_vec(), QUAD.to_vec(), ELL.to_vec()]; }
fn poly_text(p: &[P]) -> String {
    p.iter().fold(format!("0 0 {}", 3 * p.len()), |s, v| format!("{s} {} {} {}", v[0], v[1], v[2]))
}
fn pool() -> Vec<String> {
    let mut r = vec![];
    for name in ["m0", "m1"] {
        for (k, v) in [("plastic", "5 0.5 0.4 0.3 0 0"), ("plastic", "5 0.6 0.6 0.6 0.05 0.1"), ("metal", "5 0.7 0.6 0.5 0.9 0.05"), ("light", "3 10 20 30"), ("mirror", "3 1 0.9 0.8"), ("dielectric", "5 0.9 0.9 0.8 1.5 0"), ("glass", "3 0.8 0.7 0.6"), ("glass", "4 0.8 0.7 0.6 1.7")] {
            r.push(format!("void {k} {name} 0 0 {v}"));
        }
    }
    for name in ["m0", "m1"] {
        for p in [&TRI[..], &QUAD, &ELL] { r.push(format!("{name} polygon p {}", poly_text(p))); }
        r.push(format!("{name} sphere s 0 0 4 1 2 3 0.5"));
        r.push(format!("{name} source q 0 0 4 0.6 0 0.8 0.5"));
    }
    r
}
/// What the scene holds against what the text says
fn judge(src: &str, got: &Result<Scene, String>) -> Option<String> {
    let w = match (parse(src), got) {
        (Err(_), Err(_)) => return None,
        (Err(e), Ok(s)) => return Some(format!("accepted ({} materials, {} triangles) although the {e} is wrong", s.materials.len(), s.triangles.len())),
        (Ok(w), Err(e)) => return (!w.unsure).then(|| format!("refused: {e}")),
        (Ok(w), Ok(_)) => w,
    };
    if w.unsure { return None; }
    let s = got.as_ref().unwrap();
    let mats: Vec<String> = s.materials.iter().map(|m| format!("{m:?}")).collect();
    if mats != w.mats { return Some(format!("materials {mats:?} instead of {:?}", w.mats)); }
    let n = s.triangles.len();
    if [s.normals.len(), s.front_material_indexes.len(), s.back_material_indexes.len()] != [n; 3] { return Some("tables of different lengths".into()); }
    // triangles come in the order of the text
    let (mut at, mut lamps, mut suns) = (0, s.lights.iter(), s.distant_lights.iter());
    for (g, m) in &w.objs {
        let lamp = m.starts_with("Light");
        let take = |at: &mut usize, k: usize| -> Result<Vec<[P; 3]>, String> {
            if *at + k > n { return Err(format!("{g:?} is not there")); }
            for i in *at..*at + k {
                for x in [s.front_material_indexes[i], s.back_material_indexes[i]] { if &mats[x] != m { return Err(format!("{g:?} is made of {} instead of {m}", mats[x])); } }
            }
            *at += k;
            Ok((*at - k..*at).map(|i| tri(s, i)).collect())
        };
        let r = match g {
            Geo::Poly(p) => (|| {
                let t = take(&mut at, p.len() - 2)?;
                if let Some(e) = tiles(&t, p, &[], true) { return Err(format!("polygon {p:?}: {e}")); }
                if lamp { for x in &t {
                    let Some(o) = lamps.next() else { return Err("a lamp is missing".into()) };
                    let Primitive::Triangle(q) = &o.primitive else { return Err("wrong lamp".to_string()) };
                    let q = [q.a(), q.b(), q.c()].map(|v| [v.x, v.y, v.z]);
                    if (0..3).any(|i| (0..3).any(|k| (q[i][k] - x[i][k]).abs() > 1e-6)) || o.front_material_index != s.front_material_indexes[0] && !mats[o.front_material_index].starts_with("Light") { return Err("wrong lamp".into()) }
                } }
                Ok(())
            })(),
            Geo::Ball(r, c) => (|| {
                let mut k = 0;
                while at + k < n && (0..3).all(|i| { let d = sub(tri(s, at + k)[i], *c); (dot(d, d).sqrt() - r).abs() < 1e-4 }) { k += 1; }
                // several spheres of the pool coincide: their meshes are alike
                let same = mesh_size();
                if k < same { return Err(format!("{g:?} has {k} triangles")); }
                take(&mut at, same)?;
                if lamp {
                    let Some(o) = lamps.next() else { return Err("a lamp is missing".into()) };
                    let Primitive::Sphere(b) = &o.primitive else { return Err("wrong lamp".to_string()) };
                    if (b.radius - r).abs() > 1e-6 || (b.centre() - Point3D::new(c[0], c[1], c[2])).length() > 1e-6 { return Err("wrong lamp".into()) }
                }
                Ok(())
            })(),
            Geo::Sun(d, a) => (|| {
                let Some(o) = suns.next() else { return Err("a sun is missing".into()) };
                let Primitive::Source(b) = &o.primitive else { return Err("wrong sun".to_string()) };
                if (b.direction - Vector3D::new(d[0], d[1], d[2]).get_normalized()).length() > 1e-6 || (b.angle - a.to_radians()).abs() > 1e-9 || &mats[o.front_material_index] != m { return Err("wrong sun".into()) }
                Ok(())
            })(),
        };
        if let Err(e) = r { return Some(e); }
    }
    if at != n || lamps.next().is_some() || suns.next().is_some() { return Some("more in the scene than in the text".into()); }
    None
}
fn mesh_size() -> usize {
    let mut s = Scene::new();
    let m = s.push_material(Material::Diffuse(Diffuse { colour: Spectrum::gray(0.5) }));
    s.push_object(m, m, Primitive::Sphere(Sphere3D::new(0.5, Point3D::new(1., 2., 3.))));
    s.triangles.len()
}
/// A refusal may be an error or a panic: the reader reports most mistakes by panicking, on purpose
fn read(src: &[u8]) -> Result<Scene, String> {
    guarded(|| Scene::from_radiance_source(src)).unwrap_or_else(Err)
}
fn radiance(cx: &Ctx) {
    let pool = pool();
    let depth = cx.pick(3, 4);
    let np = pool.len();
    cx.section("radiance", &format!("all files of up to {depth} objects out of {np}: materials (two names, redefined at will) and surfaces"), || {
        cx.par_named("radiance", np * np, |k| {
            let mut todo = vec![vec![k / np, k % np]];
            if k % np == 0 { todo.push(vec![k / np]); }
            if k == 0 { todo.push(vec![]); }
            while let Some(s) = todo.pop() {
                cx.state();
                let src = s.iter().enumerate().fold(String::new(), |t, (i, o)| format!("{t}{}{}", ["", "\n", "\r\n\t", "\n\n  "][i % 4], pool[*o]));
                let got = read(src.as_bytes());
                let e = judge(&src, &got);
                if !cx.check(e.is_none(), || ("radiance/scene".into(), format!("{src:?}: {}", e.unwrap()))) { return; }
                if s.len() >= 2 && s.len() < depth { for i in 0..np { let mut t = s.clone(); t.push(i); todo.push(t); } }
            }
        });
    });
    let tokens = ["", "0", "3", "4", "5", "9", "-1", "0.25", "x", "m0", "zz", "plastic", "polygon", "sphere", "void", "1e400x", "é"];
    let mats: Vec<&String> = pool.iter().filter(|x| x.contains(" m0 ")).collect();
    let objs: Vec<&String> = pool.iter().filter(|x| x.starts_with("m0")).collect();
    cx.section("torn", &format!("{} two-object files cut at every byte; every token removed, doubled, or replaced by each of {} tokens", mats.len() * objs.len(), tokens.len()), || {
        cx.par_named("torn", mats.len() * objs.len(), |k| {
            let src = format!("{}\n{}", mats[k % mats.len()], objs[k / mats.len()]);
            let mut all: Vec<Vec<u8>> = (0..src.len()).map(|i| src.as_bytes()[..i].to_vec()).collect();
            let t: Vec<&str> = src.split_ascii_whitespace().collect();
            for i in 0..t.len() {
                let mut u = t.clone(); u.remove(i); all.push(u.join(" ").into());
                let mut u = t.clone(); u.insert(i, t[i]); all.push(u.join(" ").into());
                for x in tokens { let mut u = t.clone(); u[i] = x; all.push(u.join("\n").into()); all.push(format!("{} ", u.join(" ")).into()); }
                let mut u = src.clone().into_bytes(); u[i * 3 % src.len()] = 0xff; all.push(u);
            }
            for b in all {
                cx.state();
                let got = read(&b);
                let Ok(s) = String::from_utf8(b.clone()) else { if !cx.check(got.is_err(), || ("torn/utf8".into(), format!("{b:?}"))) { return } continue };
                let e = judge(&s, &got);
                if !cx.check(e.is_none(), || ("torn/scene".into(), format!("{s:?}: {}", e.unwrap()))) { return; }
            }
        });
    });
}

// ---------------------------------------------------------------- OBJ
fn obj(cx: &Ctx) {
    // simple polygons on the integer points of a square, anticlockwise from above
    let n = cx.pick(3usize, 4);
    let maxv = cx.pick(6, 7);
    let pts: Vec<(i32, i32)> = (0..n * n).map(|k| ((k % n) as i32, (k / n) as i32)).collect();
    let np = pts.len();
    cx.section("obj", &format!("all simple polygons of 3 to {maxv} corners on a {n} x {n} grid (no corner straight), 4 planes, 4 ways of writing a face"), || {
        cx.par_named("obj", np * np, |k| {
            let (a, b) = (k / np, k % np);
            if a == b { return; }
            let mut todo = vec![vec![a, b]];
            while let Some(s) = todo.pop() {
                if s.len() >= 3 && simple(&s.iter().map(|i| pts[*i]).collect::<Vec<_>>(), true) {
                    let q: Vec<(i32, i32)> = s.iter().map(|i| pts[*i]).collect();
                    for plane in 0..4 {
                        let p: Vec<P> = q.iter().map(|&(x, y)| { let (x, y) = (x as f64, y as f64); match plane { 0 => [x, y, 0.], 1 => [1.5, x, y], 2 => [y, -1., x], _ => [x + 1., y - x, 2. * y + 0.5 * x] } }).collect();
                        cx.state();
                        let form = (s[0] + s.len() + plane) % 4;
                        let mut src = String::from("o thing\n");
                        for v in [[9., 9., 9.]].iter().chain(&p) { src += &format!("v {} {} {}\n", v[0], v[1], v[2]); }
                        src += "vt 0 0\nvt 1 1\nvn 0 0 1\nvn 1 0 0\nf";
                        for i in 0..p.len() { src += &match form { 0 => format!(" {}", i + 2), 1 => format!(" {}/2", i + 2), 2 => format!(" {}//1", i + 2), _ => format!(" {}/1/2", i + 2) }; }
                        src += "\n";
                        let mut sc = Scene::new();
                        let f = sc.push_material(Material::Diffuse(Diffuse { colour: Spectrum::gray(0.5) }));
                        let g = sc.push_material(Material::Diffuse(Diffuse { colour: Spectrum::gray(0.7) }));
                        if cx.no_panic(|| "obj/panic".into(), || sc.add_from_obj_source(src.as_bytes(), f, g)).is_none() { return; }
                        let t: Vec<[P; 3]> = (0..sc.triangles.len()).map(|i| tri(&sc, i)).collect();
                        let e = tiles(&t, &p, &[], true).or_else(|| (sc.front_material_indexes.iter().any(|x| *x != f) || sc.back_material_indexes.iter().any(|x| *x != g)).then(|| "wrong materials".to_string()));
                        if !cx.check(e.is_none(), || (format!("obj/{}", if p.len() > 4 { "many-corners" } else { "face" }), format!("{src:?}: {}", e.unwrap()))) { return; }
                    }
                }
                if s.len() < maxv { for i in 0..np { if !s.contains(&i) && (s.len() < 2 || simple(&s.iter().chain([&i]).map(|i| pts[*i]).collect::<Vec<_>>(), false)) { let mut t = s.clone(); t.push(i); todo.push(t); } } }
            }
        });
    });
}
fn orient(a: (i32, i32), b: (i32, i32), c: (i32, i32)) -> i32 { ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).signum() }
/// whether the chain (closed or not) never crosses or touches itself, and has no straight corners
fn simple(q: &[(i32, i32)], closed: bool) -> bool {
    let n = q.len();
    let edges = if closed { n } else { n - 1 };
    let e = |i: usize| (q[i], q[(i + 1) % n]);
    for i in 0..edges {
        if (closed || i + 2 < n) && orient(q[i], q[(i + 1) % n], q[(i + 2) % n]) == 0 { return false; }
        for j in i + 2..edges {
            if closed && i == 0 && j == n - 1 { continue; }
            let ((a, b), (c, d)) = (e(i), e(j));
            let on = |p: (i32, i32), s: (i32, i32), t: (i32, i32)| orient(s, t, p) == 0 && p.0 >= s.0.min(t.0) && p.0 <= s.0.max(t.0) && p.1 >= s.1.min(t.1) && p.1 <= s.1.max(t.1);
            if on(a, c, d) || on(b, c, d) || on(c, a, b) || on(d, a, b) { return false; }
            if orient(a, b, c) != orient(a, b, d) && orient(c, d, a) != orient(c, d, b) { return false; }
        }
    }
    !closed || (0..n).map(|i| { let (a, b) = e(i); a.0 * b.1 - a.1 * b.0 }).sum::<i32>() > 0
}

// ---------------------------------------------------------------- Simple models
fn models(cx: &Ctx) {
    let square = |x: f64, y: f64, w: f64, h: f64, out: bool| { let mut p = vec![[x, 0., y], [x + w, 0., y], [x + w, 0., y + h], [x, 0., y + h]]; if !out { p.reverse(); } p };
    // substances: front and back absorptance, transmittance
    let subs: Vec<(Option<f64>, Option<f64>, Option<f64>)> = vec![(None, None, None), (Some(0.2), Some(0.9), None), (Some(0.6), None, None), (None, Some(0.3), None), (Some(0.1), Some(0.1), Some(0.8)), (Some(0.3), Some(0.25), Some(0.4)), (Some(0.5), Some(0.4), Some(0.))];
    let ns = subs.len();
    let build = |subs: &[(Option<f64>, Option<f64>, Option<f64>)]| {
        let mut m = Model::default();
        for (i, s) in subs.iter().enumerate() {
            let mut o = serde_json::json!({"name": format!("s{i}"), "type": "Normal"});
            for (k, v) in [("front_solar_absorbtance", s.0), ("back_solar_absorbtance", s.1), ("solar_transmittance", s.2)] { if let Some(v) = v { o[k] = v.into(); } }
            let s: Substance = serde_json::from_value(o).unwrap();
            m.add_substance(s);
            m.add_material(model::Material::new(format!("m{i}"), format!("s{i}"), 0.01));
        }
        let gas: Substance = serde_json::from_value(serde_json::json!({"name": "gas", "type": "Gas", "gas": "Air"})).unwrap();
        m.add_substance(gas);
        m.add_material(model::Material::new("mgas".to_string(), "gas".to_string(), 0.01));
        m
    };
    let surface = |name: &str, con: &str, p: &[P]| -> Surface {
        serde_json::from_value(serde_json::json!({"name": name, "construction": con, "vertices": p.iter().flatten().collect::<Vec<_>>()})).unwrap()
    };
    let fen = |name: &str, con: &str, p: &[P], cat: &str, parent: Option<&str>| -> Fenestration {
        let mut o = serde_json::json!({"name": name, "construction": con, "category": cat, "vertices": p.iter().flatten().collect::<Vec<_>>()});
        if let Some(x) = parent { o["parent_surface"] = x.into(); }
        serde_json::from_value(o).unwrap()
    };
    // what a side of a layer looks like
    let look = |s: &(Option<f64>, Option<f64>, Option<f64>), front: bool| -> (&'static str, f64) {
        if let Some(t) = s.2.filter(|t| *t > 0.) { return ("Glass", ((0.8402528435f64 + 0.0072522239 * t * t).sqrt() - 0.9166530661) / 0.0036261119 / t); }
        ("Plastic", 1. - if front { s.0 } else { s.1 }.unwrap_or(0.7))
    };
    let is = |m: &Material, w: (&str, f64)| match m {
        Material::Glass(g) => w.0 == "Glass" && g.colour.0.iter().all(|x| (*x as f64 - w.1).abs() < 1e-9),
        Material::Plastic(g) => w.0 == "Plastic" && g.colour.0.iter().all(|x| (*x as f64 - w.1).abs() < 1e-9),
        _ => false,
    };
    cx.section("model", &format!("walls of 1 to 3 layers out of {ns} substances and a gas x windows, doors and openings with and without a parent wall: the solar scene"), || {
        cx.par_named("model", (ns + 1) * (ns + 1) * 2, |k| {
            let (first, last, three) = (k % (ns + 1), k / (ns + 1) % (ns + 1), k / (ns + 1) / (ns + 1) == 1);
            let lay = |i: usize| if i == ns { "mgas".to_string() } else { format!("m{i}") };
            for (cat, parent) in [("Window", true), ("Window", false), ("Door", true), ("Opening", true), ("Opening", false)] {
                for flip in [false, true] {
                    {
                        cx.state();
                        let mut m = build(&subs);
                        let mut c = Construction::new("wall");
                        c.materials.push(lay(first));
                        if three { c.materials.push(lay(1)); }
                        if three || first != last { c.materials.push(lay(last)); }
                        m.add_construction(c);
                        let mut c = Construction::new("pane");
                        c.materials.push(lay(4)); c.materials.push("mgas".into()); c.materials.push(lay(1));
                        m.add_construction(c);
                        let wall = square(0., 0., 4., 3., !flip);
                        let big: Vec<P> = vec![[0., 5., 0.], [4., 5., 0.], [4., 5., 2.], [2., 5., 2.], [2., 5., 3.], [0., 5., 3.]];
                        let hole = square(1., 1., 1., 1., flip);
                        let two = square(2.5, 1., 1., 0.5, true);
                        m.add_surface(surface("W", "wall", &wall)).unwrap();
                        m.add_surface(surface("L", "pane", &big)).unwrap();
                        m.add_fenestration(fen("F", "wall", &hole, cat, parent.then_some("W"))).unwrap();
                        m.add_fenestration(fen("G", "pane", &two, "Window", Some("W"))).unwrap();
                        let Some(r) = cx.no_panic(|| "model/panic".into(), || SimpleModelReader::default().build_scene(&m, &Wavelengths::Solar)) else { return };
                        let kd = |w: &str, x: String| (format!("model/{w}"), format!("wall of {} .. {} (three layers: {three}), {cat} with parent {parent} and flipped {flip}: {x}", lay(first), lay(last)));
                        let gas = first == ns || last == ns;
                        let (s, map) = match r { Ok(x) => x, Err(e) => { if !cx.check(gas, || kd("refused", e)) { return } continue } };
                        if !cx.check(!gas, || kd("gas", "a wall with a gas at its face is accepted".into())) { return; }
                        if !cx.check(map.len() == s.triangles.len() && s.lights.is_empty() && s.distant_lights.is_empty(), || kd("map", format!("{} triangles, {} in the map", s.triangles.len(), map.len()))) { return; }
                        let d = 0;
                        let mut seen = 0;
                        for (what, i, poly, holes, mats) in [
                            (SceneElement::Surface, d, &wall, if parent { vec![hole.clone(), two.clone()] } else { vec![two.clone()] }, (first, last)),
                            (SceneElement::Surface, d + 1, &big, vec![], (4, 1)),
                            (SceneElement::Fenestration, 0, &hole, vec![], (first, last)),
                            (SceneElement::Fenestration, 1, &two, vec![], (4, 1)),
                        ] {
                            cx.step();
                            let t: Vec<usize> = (0..map.len()).filter(|j| map[*j] == (what, i)).collect();
                            seen += t.len();
                            if what == SceneElement::Fenestration && i == 0 && cat == "Opening" {
                                if !cx.check(t.is_empty(), || kd("opening", "an opening is solid".into())) { return; }
                                continue;
                            }
                            let e = tiles(&t.iter().map(|j| tri(&s, *j)).collect::<Vec<_>>(), poly, &holes, true);
                            if !cx.check(e.is_none(), || kd("surface", format!("{what:?} {i}: {}", e.unwrap()))) { return; }
                            for j in t {
                                let (f, b) = (&s.materials[s.front_material_indexes[j]], &s.materials[s.back_material_indexes[j]]);
                                let (wf, wb) = (look(&subs[mats.0], true), look(&subs[mats.1], false));
                                if !cx.check(is(f, wf), || kd("front", format!("{what:?} {i} looks {f:?} in front instead of {wf:?}"))) { return; }
                                if !cx.check(is(b, wb), || kd("back", format!("{what:?} {i} looks {b:?} from behind instead of {wb:?}"))) { return; }
                            }
                        }
                        if !cx.check(seen == map.len(), || kd("extra", format!("{} triangles belong to nothing", map.len() - seen))) { return; }
                    }
                }
            }
        });
    });
}
pub fn r06(cx: &Ctx) {
    radiance(cx);
    obj(cx);
    models(cx);
    cx.assume("polygons too small, degenerate, or with corners the pool does not hold are not judged; a refusal may be an error or a panic, as the reader's own tests ask; OBJ faces are planar and reference existing corners");
}
