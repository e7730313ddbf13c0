//! R01: the acceleration structure answers like a brute-force search.
use geometry::intersection::SurfaceSide;
use geometry::*;
use mcc::*;
use rendering::material::*;
use rendering::primitive::Primitive;
use rendering::{Scene, Spectrum};

type V = [f64; 3];
type Tri = [V; 3];
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn unit(a: V) -> V {
    let l = dot(a, a).sqrt();
    [a[0] / l, a[1] / l, a[2] / l]
}
fn p3(v: V) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}
#[derive(Clone, Copy, PartialEq)]
enum Hit {
    No,
    Yes(f64),
    Edge(f64),
}
/// plane + inside test, independent of the code's parametrisation
fn hit(t: &Tri, o: V, d: V) -> Hit {
    let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    let nl = dot(n, n).sqrt();
    let den = dot(n, d) / nl;
    if den.abs() < 1e-9 {
        return Hit::No;
    }
    let s = dot(n, sub(t[0], o)) / nl / den;
    if s < 0. {
        return Hit::No;
    }
    let p = [o[0] + s * d[0], o[1] + s * d[1], o[2] + s * d[2]];
    let (mut inside, mut edge) = (true, den.abs() < 1e-3);
    for i in 0..3 {
        let (a, b) = (t[i], t[(i + 1) % 3]);
        let e = sub(b, a);
        let dist = dot(cross(e, sub(p, a)), n) / nl / dot(e, e).sqrt();
        if dist < 1e-6 {
            if dist > -1e-6 {
                edge = true;
            } else {
                inside = false;
            }
        }
    }
    if !inside {
        Hit::No
    } else if edge {
        Hit::Edge(s)
    } else {
        Hit::Yes(s)
    }
}
fn scene(tris: &[Tri]) -> (Scene, Vec<usize>) {
    let mut s = Scene::new();
    for k in 0..5 {
        s.push_material(Material::Plastic(Plastic { colour: Spectrum::gray(0.1 * k as f64), specularity: 0., roughness: 0. }));
    }
    for (i, t) in tris.iter().enumerate() {
        s.push_object(i % 5, (i / 5) % 5, Primitive::Triangle(Triangle3D::new(p3(t[0]), p3(t[1]), p3(t[2])).unwrap()));
    }
    let m = s.build_accelerator();
    (s, m)
}
fn rays(th: bool) -> Vec<(V, V)> {
    let mut dirs = vec![];
    for x in [-1., 0., 1.] {
        for y in [-1., 0., 1.] {
            for z in [-1., 0., 1.] {
                if x != 0. || y != 0. || z != 0. {
                    dirs.push(unit([x, y, z]));
                }
            }
        }
    }
    for v in [[0.9, 0.3, -0.2], [-0.4, 0.8, 0.3], [0.1, -0.25, 0.9], [-0.7, -0.6, -0.35], [0.05, 0.02, -1.], [-1., 0.03, 0.01]] {
        dirs.push(unit(v));
    }
    let n = if th { 4 } else { 3 };
    let mut r = vec![];
    for x in 0..n {
        for y in 0..n {
            for z in 0..n {
                let c = |i: usize, k: f64| -1.37 + 5.1 * i as f64 / (n - 1) as f64 + 0.05 * k;
                for d in &dirs {
                    r.push(([c(x, 1.), c(y, -1.3), c(z, 0.4)], *d));
                }
            }
        }
    }
    r
}
fn check_scene(cx: &Ctx, name: &str, tris: &[Tri], rays: &[(V, V)]) {
    let Some((sc, map)) = cx.no_panic(|| format!("{name}/build"), || scene(tris)) else { return };
    // the reordering is a permutation that keeps triangles, normals and materials together
    let mut seen = vec![false; tris.len()];
    let mut ok = map.len() == tris.len() && sc.triangles.len() == tris.len();
    if ok {
        for (new, old) in map.iter().enumerate() {
            ok &= *old < tris.len() && !std::mem::replace(&mut seen[*old], true);
            if !ok {
                break;
            }
            let t = &tris[*old];
            ok &= (0..9).all(|k| sc.triangles[new][k] == t[k / 3][k % 3]) && sc.front_material_indexes[new] == old % 5 && sc.back_material_indexes[new] == (old / 5) % 5;
            let n = unit(cross(sub(t[1], t[0]), sub(t[2], t[0])));
            for m in [sc.normals[new].0, sc.normals[new].1, sc.normals[new].2] {
                ok &= (dot([m.x, m.y, m.z], n) - 1.).abs() < 1e-9;
            }
        }
    }
    if !cx.check(ok, || (format!("{name}/order"), format!("{name}: building the accelerator lost or mixed up triangles, normals or materials (mapping {:?})", &map[..map.len().min(20)]))) {
        return;
    }
    for (o, d) in rays {
        cx.state();
        let ray = Ray3D { origin: p3(*o), direction: Vector3D::new(d[0], d[1], d[2]) };
        let mut aux = [0usize; 32];
        let Some(got) = cx.no_panic(|| format!("{name}/panic"), || sc.cast_ray(ray, &mut aux)) else { return };
        let (mut near, mut edge) = (f64::MAX, f64::MAX);
        let mut all: Vec<(usize, f64)> = vec![];
        let mut tiny = false;
        for (i, t) in tris.iter().enumerate() {
            match hit(t, *o, *d) {
                Hit::Yes(s) => {
                    tiny |= s < 0.02;
                    near = near.min(s);
                    all.push((i, s));
                }
                Hit::Edge(s) => {
                    edge = edge.min(s);
                    all.push((i, s));
                }
                Hit::No => {}
            }
        }
        let first: Vec<usize> = all.iter().filter(|h| h.1 < near + 1e-7).map(|h| h.0).collect();
        if tiny || edge < near {
            continue; // grazing an edge, or starting on a surface: not judged
        }
        let kd = |w: String| (format!("{name}/rays"), format!("{name}: ray from {o:?} along {d:?}: {w}"));
        match got {
            None => {
                cx.check(near == f64::MAX, || kd(format!("nothing hit, but triangle {:?} is at {near}", first)));
            }
            Some((i, int)) => {
                let t = (int.point - p3(*o)).length();
                if cx.check((t - near).abs() < 1e-5 && first.contains(&map[i]), || kd(format!("hit triangle {} at {t}, expected {first:?} at {near}", map[i]))) {
                    let tr = &tris[map[i]];
                    let n = unit(cross(sub(tr[1], tr[0]), sub(tr[2], tr[0])));
                    let front = dot(n, *d) < 0.;
                    let g = int.geometry_shading;
                    let m = [g.normal.x, g.normal.y, g.normal.z];
                    cx.check((dot(m, n) - if front { 1. } else { -1. }).abs() < 1e-6 && g.side == if front { SurfaceSide::Front } else { SurfaceSide::Back }, || kd(format!("normal {m:?} side {:?} on a triangle of normal {n:?}", g.side)));
                    let w = int.wo;
                    cx.check((dot([w.x, w.y, w.z], *d) + 1.).abs() < 1e-9, || kd("outgoing direction is not opposite to the ray".into()));
                }
            }
        }
        // obstruction tests around the nearest hit
        for (dist, want) in [(near * 0.9, true), (near * 1.1 + 0.05, false), (1e4, near == f64::MAX)] {
            if near == f64::MAX && dist != 1e4 || edge < dist * 1.01 + 0.01 {
                continue;
            }
            let got = sc.unobstructed_distance(ray, dist * dist, &mut aux);
            cx.check(got == want, || kd(format!("unobstructed_distance({dist})={got}, nearest surface at {near}")));
        }
    }
}

pub fn r01(cx: &Ctx) {
    let th = cx.thorough();
    let rs = rays(th);
    // a small library of overlapping, parallel, tilted, degenerate-position triangles
    let lib: Vec<Tri> = vec![
        [[0., 0., 0.], [2., 0., 0.], [0., 2., 0.]],
        [[0., 0., 1.], [2., 0., 1.], [2., 2., 1.]],
        [[0., 0., 0.], [2., 0., 0.], [0., 2., 0.]],
        [[0., 2., 0.], [0., 0., 2.], [0., 0., 0.]],
        [[2., 0., 0.], [2., 2., 0.], [2., 1., 2.]],
        [[-1., -1., -1.], [3., -1., 0.], [1., 3., 2.5]],
        [[0., 1., 0.], [2., 1., 0.], [1., 1., 2.]],
        [[0.9, 0.9, 0.9], [1.2, 0.9, 0.9], [0.9, 1.2, 1.1]],
        [[2., 2., 0.5], [0., 0., 0.5], [0., 2., 0.5]],
        [[5., 5., 5.], [6., 5., 5.], [5., 6., 5.5]],
        [[0., 0., 0.5], [0.3, 0., 0.5], [0., 0.3, 0.5]],
        [[1., 1., -1.], [1., 1., 3.], [1., 3., 1.]],
    ];
    cx.section("subsets", &format!("every subset of up to {} of 12 triangles x {} rays", cx.pick(4, 7), rs.len()), || {
        let subs: Vec<u32> = (1u32..1 << 12).filter(|m| m.count_ones() <= cx.pick(4, 7)).collect();
        cx.par_named("subsets", subs.len(), |k| {
            let t: Vec<Tri> = (0..12).filter(|i| subs[k] >> i & 1 == 1).map(|i| lib[i]).collect();
            check_scene(cx, &format!("subsets/{:03x}", subs[k]), &t, &rs);
        });
    });
    // structured larger scenes: every generator x size
    let mut big: Vec<(String, Vec<Tri>)> = vec![];
    let sizes: &[usize] = cx.pick(&[1, 2, 3, 4, 5, 6, 9, 16, 23, 24, 25, 26, 40, 60, 120, 500, 2000], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 23, 24, 25, 26, 27, 33, 40, 48, 60, 90, 120, 200, 400, 500, 800, 1500, 2000, 4000]);
    let small = |c: V, k: usize| -> Tri {
        let w = 0.15 + 0.05 * (k % 3) as f64;
        match k % 4 {
            0 => [c, [c[0] + w, c[1], c[2]], [c[0], c[1] + w, c[2]]],
            1 => [c, [c[0], c[1] + w, c[2]], [c[0], c[1], c[2] + w]],
            2 => [c, [c[0], c[1], c[2] + w], [c[0] + w, c[1], c[2]]],
            _ => [c, [c[0] + w, c[1] + w, c[2]], [c[0], c[1] + w, c[2] + w]],
        }
    };
    for &n in sizes {
        let f = |k: usize| k as f64 / n as f64;
        let mut add = |nm: &str, g: &dyn Fn(usize) -> Tri| big.push((format!("{nm}-{n}"), (0..n).map(g).collect()));
        add("line-x", &|k| small([3. * f(k), 1., 1.], k));
        add("line-y", &|k| small([1., 3. * f(k) - 0.5, 0.5], k));
        add("line-z-reverse", &|k| small([1., 1., 3. - 3. * f(k)], k));
        add("diagonal", &|k| small([3. * f(k), 3. * f(k), 3. * f(k)], k));
        add("blind", &|k| { let z = 2.5 * f(k); [[0., 0., z], [2., 0., z + 0.01], [2., 0.1, z]] });
        add("blind-rows", &|k| { let (y, z) = (0.5 * (k % 2) as f64, 2.5 * f(k / 2 * 2)); [[0., y, z], [2., y, z + 0.01], [2., y + 0.1, z]] });
        add("stack", &|k| { let z = 2.5 * f(k); [[0., 0., z], [2., 0., z], [0., 2., z]] });
        add("coincident", &|_| [[0., 0., 1.], [2., 0., 1.], [0., 2., 1.]]);
        add("spiral", &|k| { let a = 0.7 * k as f64; small([1. + a.cos() * (0.3 + f(k)), 1. + a.sin() * (0.3 + f(k)), 2. * f(k)], k) });
        add("grid", &|k| small([(k % 5) as f64 * 0.7, ((k / 5) % 5) as f64 * 0.7, (k / 25) as f64 * 0.7], k));
        add("geometric", &|k| { let s = 2.5 * 0.8f64.powi((k % 40) as i32); small([s, 1. + 0.01 * (k / 40) as f64, 1.], k) });
        add("geometric-half", &|k| { let s = 3. * 0.5f64.powi((k % 25) as i32); small([s, 1., 1. + 0.2 * (k / 25) as f64], k) });
        add("clusters", &|k| { let c = (k % 3) as f64; small([3. * c * 0.5, 1e-3 * (k / 3) as f64, 1. + 1e-3 * (k / 3) as f64], k) });
        if n > 2 { add("fan", &|k| { let a = 6.283 * f(k); let b = 6.283 * f(k + 1); [[1., 1., 1.], [1. + a.cos(), 1. + a.sin(), 1. + 0.3 * (2. * a).cos()], [1. + b.cos(), 1. + b.sin(), 1. + 0.3 * (2. * b).cos()]] }); }
        add("one-far", &|k| if k == 0 { [[900., 900., 900.], [901., 900., 900.], [900., 901., 900.]] } else { small([2. * f(k), 1., 1. + f(k)], k) });
    }
    cx.section("structured", &format!("{} scenes (15 arrangements x {} sizes) x {} rays", big.len(), sizes.len(), rs.len()), || {
        cx.par_named("structured", big.len(), |k| check_scene(cx, &format!("structured/{}", big[k].0), &big[k].1, &rs));
    });
    cx.section("deep", "geometric progressions of centroids (9 ratios x 6 sizes x constant or proportional size x 2 scales): deep trees", || {
        let mut all = vec![];
        for r in [0.97, 0.95, 0.9, 0.8, 0.7, 0.5, 0.3, 0.2, 0.1] {
            for n in [30, 60, 120, 250, 500, 1000] {
                for prop in [false, true] {
                    for sc in [2., 200.] {
                        all.push((r, n, prop, sc));
                    }
                }
            }
        }
        cx.par_named("deep", all.len(), |k| {
            let (r, n, prop, sc) = all[k];
            let tris: Vec<Tri> = (0..n).map(|i| {
                let x: f64 = sc * f64::powi(r, i);
                let w = if prop { (0.5 * x).max(0.02) } else { 0.15 };
                [[x, 1., 1.], [x, 1. + w, 1.], [x + 0.1 * w, 1., 1. + w]]
            }).collect();
            check_scene(cx, &format!("deep/{r}/{n}/{prop}/{sc}"), &tris, &rs[..if th { rs.len() } else { 96 }]);
        });
    });
    cx.section("small-triangles", "one triangle scaled by 10^0..10^-2 x 10 rays through its inside from both sides", || {
        for e in 0..5 {
            let s = 10f64.powf(-(e as f64) / 2.);
            let t: Tri = [[1., 1., 1.], [1. + s, 1., 1.], [1., 1. + s, 1. + 0.5 * s]];
            let (sc, _) = scene(&[t]);
            for (u, v) in [(0.3, 0.3), (0.1, 0.1), (0.8, 0.1), (0.1, 0.8), (0.45, 0.45)] {
                for h in [2., -2.] {
                    cx.state();
                    let q = [1. + s * u, 1. + s * v, 1. + 0.5 * s * v];
                    let o = [q[0] + 0.3, q[1] - 0.2, q[2] + h];
                    let d = unit(sub(q, o));
                    let ray = Ray3D { origin: p3(o), direction: Vector3D::new(d[0], d[1], d[2]) };
                    let got = sc.cast_ray(ray, &mut [0usize; 32]);
                    cx.check(got.is_some(), || (format!("small/{e}"), format!("a triangle of size {s:.4} is not hit by a ray aimed at its inside ({u},{v})")));
                }
            }
        }
    });
    cx.section("spheres", "meshed spheres of 6 radii x 26 directions inwards and outwards: hit within 1% of the radius, outside is the front", || {
        let rad = [0.01, 0.05, 0.1, 0.5, 1., 10.];
        cx.par_named("spheres", rad.len(), |k| {
            let r = rad[k];
            let c = [0.3, -0.2, 1.];
            let mut s = Scene::new();
            s.push_material(Material::Plastic(Plastic { colour: Spectrum::gray(0.5), specularity: 0., roughness: 0. }));
            s.push_object(0, 0, Primitive::Sphere(Sphere3D::new(r, p3(c))));
            s.build_accelerator();
            for (i, (_, d)) in rs.iter().take(32).enumerate() {
                let d0 = unit([d[0] + 0.0123, d[1] - 0.0071, d[2] + 0.0034]);
                for (o, back) in [(3. * r + 0.5, false), (0.2 * r, true)] {
                    cx.state();
                    // from outside towards the centre, from near the centre outwards
                    let og = [c[0] + d0[0] * o, c[1] + d0[1] * o, c[2] + d0[2] * o];
                    let dd = if back { d0 } else { [-d0[0], -d0[1], -d0[2]] };
                    let ray = Ray3D { origin: p3(og), direction: Vector3D::new(dd[0], dd[1], dd[2]) };
                    let got = s.cast_ray(ray, &mut [0usize; 32]);
                    let want = if back { 0.8 * r } else { 2. * r + 0.5 };
                    let ok = got.as_ref().is_some_and(|(_, int)| ((int.point - p3(og)).length() - want).abs() < 0.01 * r && (int.geometry_shading.side == SurfaceSide::Back) == back);
                    cx.check(ok, || (format!("spheres/{r}/{i}/{back}"), format!("sphere of radius {r}: ray {} along {dd:?}: got {:?}", if back { "from inside" } else { "from outside" }, got.map(|g| (g.1.point, g.1.geometry_shading.side)))));
                }
            }
        });
    });
}
