//! R02: sampling routines cover their domain evenly; light samples match their density.
use crate::rng::*;
use geometry::*;
use mcc::*;
use rendering::primitive::Primitive;
use rendering::samplers::*;

fn grid(n: usize) -> Vec<(f64, f64)> {
    (0..n * n).map(|k| (((k % n) as f64 + 0.5) / n as f64, ((k / n) as f64 + 0.5) / n as f64)).collect()
}
/// every one of the `cells` equal-measure cells receives its share of the grid
fn even(cx: &Ctx, name: &str, n: usize, cells: usize, f: &dyn Fn((f64, f64)) -> Result<usize, String>) {
    let mut count = vec![0usize; cells];
    for u in grid(n) {
        cx.state();
        match f(u) {
            Ok(c) => count[c.min(cells - 1)] += 1,
            Err(e) => {
                cx.fail(&format!("{name}/domain"), &format!("{name}: u={u:?}: {e}"));
                return;
            }
        }
    }
    let want = (n * n) as f64 / cells as f64;
    for (c, k) in count.iter().enumerate() {
        cx.check((*k as f64 - want).abs() < 0.06 * want, || (format!("{name}/even"), format!("{name}: cell {c} of {cells} receives {k} of {} samples, expected about {want}", n * n)));
    }
}
fn unit(v: Vector3D) -> Result<(), String> {
    if (v.length() - 1.).abs() < 1e-9 { Ok(()) } else { Err(format!("direction {v:?} is not of unit length")) }
}
fn turn(x: f64, y: f64) -> f64 {
    y.atan2(x).rem_euclid(std::f64::consts::TAU) / std::f64::consts::TAU
}
fn cell(a: f64, na: usize, b: f64, nb: usize) -> usize {
    ((a * na as f64) as usize).min(na - 1) * nb + ((b * nb as f64) as usize).min(nb - 1)
}
fn solid_angle(o: Point3D, t: &Triangle3D) -> f64 {
    let (a, b, c) = (t.a() - o, t.b() - o, t.c() - o);
    let (la, lb, lc) = (a.length(), b.length(), c.length());
    let num = a * b.cross(c);
    let den = la * lb * lc + (a * b) * lc + (a * c) * lb + (b * c) * la;
    (2. * num.atan2(den)).abs()
}

pub fn r02(cx: &Ctx) {
    let n = cx.pick(384, 1536);
    let edges = [0., 1e-12, 0.5, 1. - 1e-12, 1. - f64::EPSILON / 2.];
    cx.section("maps", &format!("{n}x{n} grid of unit-square draws through each sampling map, with several radii, triangles and bases"), || {
        even(cx, "disc", n, 8 * 12, &|u| {
            let (x, y) = uniform_sample_horizontal_disc(u, 2.5);
            let r2 = (x * x + y * y) / 6.25;
            if r2 > 1. + 1e-12 { return Err(format!("({x}, {y}) outside the disc")); }
            Ok(cell(r2, 8, turn(x, y), 12))
        });
        even(cx, "cosine-hemisphere", n, 8 * 12, &|u| {
            let v = sample_cosine_weighted_horizontal_hemisphere(u);
            unit(v)?;
            if v.z < 0. { return Err(format!("{v:?} points down")); }
            Ok(cell(1. - v.z * v.z, 8, turn(v.x, v.y), 12))
        });
        even(cx, "uniform-hemisphere", n, 8 * 12, &|u| {
            let v = sample_uniform_hemisphere(u);
            unit(v)?;
            if v.z < 0. { return Err(format!("{v:?} points down")); }
            Ok(cell(v.z, 8, turn(v.x, v.y), 12))
        });
        even(cx, "sphere", n, 8 * 12, &|u| {
            let p = uniform_sample_sphere(u);
            unit(Vector3D::new(p.x, p.y, p.z))?;
            Ok(cell(0.5 * (p.z + 1.), 8, turn(p.x, p.y), 12))
        });
        for (k, t) in tris().iter().enumerate() {
            let (v1, v2) = (t.b() - t.a(), t.c() - t.a());
            let nn = v1.cross(v2);
            even(cx, &format!("triangle-{k}"), n, 64, &|u| {
                let p = uniform_sample_triangle(u, t.a(), t.b(), t.c());
                let d = p - t.a();
                let (bu, bv) = (d.cross(v2) * nn / (nn * nn), v1.cross(d) * nn / (nn * nn));
                if bu < -1e-9 || bv < -1e-9 || bu + bv > 1. + 1e-9 || (d * nn).abs() > 1e-9 { return Err(format!("{p:?} outside the triangle")); }
                // 64 congruent sub-triangles
                let (x, y) = (bu * 8., bv * 8.);
                let (i, j) = ((x.floor() as usize).min(7), (y.floor() as usize).min(7));
                let upper = x.fract() + y.fract() > 1.;
                // row-major index of the sub-triangle
                let s = 7 - j;
                let before: usize = (0..j).map(|r| 2 * (8 - r) - 1).sum();
                let _ = s;
                Ok(before + 2 * i + upper as usize)
            });
        }
        for nv in [[0., 0., 1.], [0., 0., -1.], [1., 0., 0.], [1., 2., -3.], [-0.2, 0.1, 0.97]] {
            let nrm = Vector3D::new(nv[0], nv[1], nv[2]).get_normalized();
            let e2 = nrm.get_perpendicular().unwrap();
            let e1 = e2.cross(nrm);
            even(cx, &format!("tilted-hemisphere-{nv:?}"), n / 2, 8 * 12, &|u| {
                let v = uniform_sample_tilted_hemisphere(u, e1, e2, nrm);
                unit(v)?;
                if v * nrm < -1e-12 { return Err(format!("{v:?} behind the surface")); }
                Ok(cell(v * nrm, 8, turn(v * e1, v * e2), 12))
            });
            let c = Point3D::new(3., -1., 2.);
            even(cx, &format!("tilted-disc-{nv:?}"), n / 2, 8 * 12, &|u| {
                let d = uniform_sample_tilted_disc(u, 1.5, c, nrm) - c;
                let r2 = d * d / 2.25;
                if (d * nrm).abs() > 1e-9 || r2 > 1. + 1e-9 { return Err(format!("offset {d:?} outside the disc")); }
                Ok(cell(r2, 8, turn(d * e1, d * e2), 12))
            });
        }
        // the ends of the range
        for a in edges {
            for b in edges {
                cx.state();
                let all = [sample_cosine_weighted_horizontal_hemisphere((a, b)), sample_uniform_hemisphere((a, b))];
                let p = uniform_sample_sphere((a, b));
                for v in [all[0], all[1], Vector3D::new(p.x, p.y, p.z)] {
                    cx.check((v.length() - 1.).abs() < 1e-6, || ("edges".into(), format!("u=({a},{b}) gives {v:?}")));
                }
            }
        }
    });
    let m = cx.pick(64, 128);
    cx.section("lights", &format!("light samples drawn with every cell of a {m}x{m} grid of random numbers: triangles, spheres and the sun, from points around them; what each sixteenth of the light gets"), || {
        let pts: Vec<Point3D> = [[0.3, 0.4, 2.], [3., -1., 1.5], [-2., 2.5, 0.7], [0.5, 0.5, 6.], [0.7, 0.2, -1.5], [-3., -3., -2.], [4., 0.3, 4.2]].iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect();
        let t = Table::new(256);
        cx.par_named("lights", prims().len() * pts.len(), |k| {
            let prims = prims();
            let (prim, p) = (&prims[k / pts.len()], pts[k % pts.len()]);
            let name = format!("lights/{}", prim.id());
            let desc = format!("{prim:?} from {p:?}");
            let omega = match prim {
                Primitive::Triangle(t) => solid_angle(p, t),
                Primitive::Sphere(s) => { let d = (s.centre() - p).length(); std::f64::consts::TAU * (1. - (1. - (s.radius / d).powi(2)).sqrt()) }
                Primitive::Source(s) => std::f64::consts::TAU * (1. - (s.angle / 2.).cos()),
                _ => unreachable!(),
            };
            if omega < 1e-3 && matches!(prim, Primitive::Triangle(_)) {
                return; // seen almost edge-on
            }
            // the light is split in 16 parts; the average of 1/density over the samples on each is the solid angle of that part
            let parts: Vec<Triangle3D> = if let Primitive::Triangle(t) = prim { split(t).iter().flat_map(split).collect() } else { vec![] };
            let (dist, dir) = prim.direction(p);
            let e1 = dir.get_perpendicular().unwrap();
            let e2 = dir.cross(e1);
            let part = |at: Point3D, d: Vector3D| -> usize { match prim {
                Primitive::Triangle(_) => (0..16).max_by(|a, b| inside(&parts[*a], at).total_cmp(&inside(&parts[*b], at))).unwrap(),
                _ => cell((1. - d * dir) / (omega / std::f64::consts::TAU), 4, turn(d * e1, d * e2), 4),
            } };
            // the draws that choose the point may be the first and second or the third and fourth ones
            let run = |first: bool| -> Option<(f64, usize, usize, Vec<f64>)> {
                let (mut sum, mut cnt, mut missed, mut by) = (0., 0usize, 0usize, vec![0.0; 16]);
                for u in grid(m) {
                    cx.state();
                    let mut rng = if first { t.rng2(u.0, u.1) } else { t.rng_skip2(u.0, u.1) };
                    let d = prim.sample_direction(&mut rng, p);
                    if !cx.check((d.length() - 1.).abs() < 1e-9, || (format!("{name}/unit"), format!("{desc}: direction {d:?}"))) { return None; }
                    let ray = Ray3D { origin: p, direction: d };
                    match prim.intersect(&ray) {
                        None => missed += 1,
                        Some(i) => {
                            let pdf = prim.solid_angle_pdf(&i, &ray);
                            if !cx.check(pdf.is_finite() && pdf > 0., || (format!("{name}/pdf"), format!("{desc}: density {pdf} for a direction {d:?} that hits the light"))) { return None; }
                            sum += 1. / pdf;
                            by[part(i.p, d)] += 1. / pdf;
                            cnt += 1;
                        }
                    }
                }
                Some((sum, cnt, missed, by))
            };
            let want: Vec<f64> = (0..16).map(|i| if parts.is_empty() { omega / 16. } else { solid_angle(p, &parts[i]) }).collect();
            let off = |by: &[f64]| by.iter().zip(&want).map(|(b, w)| (b / (m * m) as f64 - w).abs()).fold(0.0, f64::max);
            let (Some(one), Some(two)) = (run(true), run(false)) else { return };
            let (sum, cnt, missed, by) = if off(&one.3) < off(&two.3) { one } else { two };
            let e = off(&by);
            cx.check(e < 0.12 * omega / 16. || (!parts.is_empty() && e < 0.02 * omega), || (format!("{name}/shares"), format!("{desc}: the parts of the light get {:.5?} sr instead of {want:.5?}", by.iter().map(|b| b / (m * m) as f64).collect::<Vec<_>>())));
            cx.check(missed * 200 <= m * m, || (format!("{name}/miss"), format!("{desc}: {missed} of {} sampled directions miss the light", m * m)));
            let got = sum / cnt.max(1) as f64;
            cx.check((got - omega).abs() < 0.03 * omega, || (format!("{name}/density"), format!("{desc}: subtends {omega} sr but the average of 1/density is {got}")));
            let ray = Ray3D { origin: p, direction: dir };
            cx.check((dir.length() - 1.).abs() < 1e-9 && prim.intersect(&ray).is_some_and(|i| dist > 1e300 || ((i.p - p).length() - dist).abs() < 1e-6), || (format!("{name}/centre"), format!("{desc}: direction() = {dir:?} at {dist}")));
        });
    });
}
fn tris() -> Vec<Triangle3D> {
    [
        [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]],
        [[0., 0., 0.], [0., 1., 0.], [1., 0., 0.]],
        [[2., 0., 1.], [2., 2., 1.5], [2.5, 0.3, 3.]],
        [[-1., -1., -1.], [0.5, -1., -0.8], [-1.2, -0.6, 0.4]],
        [[5., 5., 0.], [5.3, 5., 0.], [5., 5.2, 0.1]],
    ]
    .iter()
    .map(|t| Triangle3D::new(Point3D::new(t[0][0], t[0][1], t[0][2]), Point3D::new(t[1][0], t[1][1], t[1][2]), Point3D::new(t[2][0], t[2][1], t[2][2])).unwrap())
    .collect()
}
/// four equal triangles that make up `t`
fn split(t: &Triangle3D) -> Vec<Triangle3D> {
    let (a, b, c) = (t.a(), t.b(), t.c());
    let m = |p: Point3D, q: Point3D| (p + q) * 0.5;
    let (ab, bc, ca) = (m(a, b), m(b, c), m(c, a));
    [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)].iter().map(|(a, b, c)| Triangle3D::new(*a, *b, *c).unwrap()).collect()
}
/// how far inside of `t` is `p` (smallest of its barycentric coordinates)
fn inside(t: &Triangle3D, p: Point3D) -> f64 {
    let (u, v, w) = (t.b() - t.a(), t.c() - t.a(), p - t.a());
    let (uu, uv, vv, wu, wv) = (u * u, u * v, v * v, w * u, w * v);
    let d = uu * vv - uv * uv;
    let (s, r) = ((vv * wu - uv * wv) / d, (uu * wv - uv * wu) / d);
    s.min(r).min(1. - s - r)
}
fn prims() -> Vec<Primitive> {
        let mut prims: Vec<Primitive> = tris().into_iter().map(Primitive::Triangle).collect();
        for (r, c) in [(0.5, [0.2, 0.1, -4.]), (1., [0., 0., -8.]), (0.05, [1., 7., 0.]), (0.8, [0.3, 0.4, 0.9])] {
            prims.push(Primitive::Sphere(Sphere3D::new(r, Point3D::new(c[0], c[1], c[2]))));
        }
        for (d, deg) in [([0., 0., 1.], 0.533), ([1., -0.5, 0.4], 0.533), ([0.2, 1., -0.3], 5.), ([1., 1., 1.], 20.)] {
            prims.push(Primitive::Source(DistantSource3D::new(Vector3D::new(d[0], d[1], d[2]).get_normalized(), f64::to_radians(deg))));
        }
    prims
}
