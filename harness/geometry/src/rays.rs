//! G07: ray intersections against an independent analytic oracle.
use crate::xform::*;
use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::*;
use mcc::*;
use std::f64::consts::PI;

#[derive(Clone, Debug)]
enum Shape {
    /// radius, zmin, zmax, phi_max (degrees)
    Sphere(f64, f64, f64, f64),
    /// radius, zmin, zmax, phi_max
    Cyl(f64, f64, f64, f64),
    /// built by `Cylinder3D::new_partial` between two points
    CylPts(V, V, f64, f64),
    /// centre, normal, radius, inner radius, phi zero, phi max
    Disk(V, V, f64, f64, V, f64),
    Tri(V, V, V),
}

#[derive(Debug, Clone, Copy)]
enum Want {
    Miss,
    Hit(f64, V),
    /// too close to a boundary for the claim to be decided by rounding-free reasoning
    Edge,
}
const M: f64 = 1e-6;
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn at(o: V, d: V, t: f64) -> V {
    [o[0] + d[0] * t, o[1] + d[1] * t, o[2] + d[2] * t]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn unit(a: V) -> V {
    let l = dot(a, a).sqrt();
    [a[0] / l, a[1] / l, a[2] / l]
}
/// `Some(true)` inside the angular range, `None` too close to its ends
fn in_phi(x: f64, y: f64, max_deg: f64) -> Option<bool> {
    if max_deg >= 360. {
        return Some(true);
    }
    let mut phi = y.atan2(x);
    if phi < 0. {
        phi += 2. * PI;
    }
    let m = max_deg * PI / 180.;
    if phi < M || (phi - 2. * PI).abs() < M || (phi - m).abs() < M || x * x + y * y < M {
        None
    } else {
        Some(phi < m)
    }
}
fn in_range(z: f64, a: f64, b: f64) -> Option<bool> {
    if (z - a).abs() < M || (z - b).abs() < M {
        None
    } else {
        Some(z > a && z < b)
    }
}
/// candidates of a quadric in increasing order; None = tangent / degenerate
fn roots(a: f64, b: f64, c: f64) -> Option<Vec<f64>> {
    if a < 1e-9 {
        return if a < 1e-20 { Some(vec![]) } else { None };
    }
    let disc = b * b - 4. * a * c;
    if disc.abs() < 1e-6 * (b * b + (4. * a * c).abs() + a * a) {
        return None;
    }
    if disc < 0. {
        return Some(vec![]);
    }
    let s = disc.sqrt();
    Some(vec![(-b - s) / (2. * a), (-b + s) / (2. * a)])
}
/// local-space answer: nearest admissible hit and the surface normal there (up to sign)
fn want(sh: &Shape, o: V, d: V) -> Want {
    let pick = |cands: Option<Vec<f64>>, ok: &dyn Fn(V) -> Option<bool>, n: &dyn Fn(V) -> V| -> Want {
        let Some(c) = cands else { return Want::Edge };
        for t in c {
            if t < -M {
                continue;
            }
            if t < M {
                return Want::Edge;
            }
            let p = at(o, d, t);
            match ok(p) {
                None => return Want::Edge,
                Some(true) => return Want::Hit(t, n(p)),
                Some(false) => {}
            }
        }
        Want::Miss
    };
    match sh {
        Shape::Sphere(r, z0, z1, phi) => {
            let c = roots(dot(d, d), 2. * dot(o, d), dot(o, o) - r * r);
            pick(
                c,
                &|p| {
                    if (p[0].abs() < 2e-5 * r) && (p[1].abs() < 2e-5 * r) {
                        return None; // the code nudges hits at the poles
                    }
                    let a = in_phi(p[0], p[1], *phi)?;
                    let lo = if *z0 <= -*r { true } else { in_range(p[2], *z0, 1e9)? };
                    let hi = if *z1 >= *r { true } else { in_range(p[2], -1e9, *z1)? };
                    Some(a && lo && hi)
                },
                &|p| p,
            )
        }
        Shape::Cyl(r, z0, z1, phi) => {
            let c = roots(d[0] * d[0] + d[1] * d[1], 2. * (o[0] * d[0] + o[1] * d[1]), o[0] * o[0] + o[1] * o[1] - r * r);
            pick(c, &|p| Some(in_phi(p[0], p[1], *phi)? && in_range(p[2], *z0, *z1)?), &|p| [p[0], p[1], 0.])
        }
        Shape::CylPts(..) => unreachable!(),
        Shape::Disk(c, n, r, ri, z, phi) => {
            let n = unit(*n);
            let den = dot(n, d);
            if den.abs() < 1e-6 {
                return if dot(n, sub(*c, o)).abs() < M || den.abs() > 1e-12 { Want::Edge } else { Want::Miss };
            }
            let t = dot(n, sub(*c, o)) / den;
            let z = sub(*z, at([0.; 3], n, dot(*z, n)));
            let z = unit(z);
            let y = cross(n, z);
            pick(
                Some(vec![t]),
                &|p| {
                    let q = sub(p, *c);
                    let rr = dot(q, q).sqrt();
                    let a = in_phi(dot(q, z), dot(q, y), *phi);
                    if *phi < 360. && a.is_none() {
                        return None;
                    }
                    let inr = if *ri > 0. { in_range(rr, *ri, *r)? } else { in_range(rr, -1., *r)? };
                    Some(inr && a.unwrap_or(true))
                },
                &|_| n,
            )
        }
        Shape::Tri(a, b, c) => {
            let n = cross(sub(*b, *a), sub(*c, *a));
            let den = dot(n, d);
            if den.abs() < 1e-6 {
                return if dot(n, sub(*a, o)).abs() < M || den.abs() > 1e-12 { Want::Edge } else { Want::Miss };
            }
            let t = dot(n, sub(*a, o)) / den;
            pick(
                Some(vec![t]),
                &|p| {
                    let mut inside = true;
                    for (x, y) in [(a, b), (b, c), (c, a)] {
                        let s = dot(cross(sub(*y, *x), sub(p, *x)), n) / dot(n, n);
                        if s.abs() < M {
                            return None;
                        }
                        inside &= s > 0.;
                    }
                    Some(inside)
                },
                &|_| n,
            )
        }
    }
}
enum Real {
    S(Sphere3D),
    C(Cylinder3D),
    D(Disk3D),
    T(Triangle3D),
}
impl Real {
    fn info(&self, r: &Ray3D) -> Option<IntersectionInfo> {
        match self {
            Real::S(s) => s.intersect(r),
            Real::C(s) => s.intersect(r),
            Real::D(s) => s.intersect(r),
            Real::T(s) => s.intersect(r),
        }
    }
    fn simple(&self, r: &Ray3D) -> Option<Point3D> {
        match self {
            Real::S(s) => s.simple_intersect(r),
            Real::C(s) => s.simple_intersect(r),
            Real::D(s) => s.simple_intersect(r),
            Real::T(s) => s.simple_intersect(r),
        }
    }
    fn bounds(&self) -> Option<BBox3D> {
        match self {
            Real::S(s) => Some(s.world_bounds()),
            Real::C(s) => Some(s.world_bounds()),
            Real::D(_) => None, // explicitly not offered by the library
            Real::T(s) => Some(s.world_bounds()),
        }
    }
}
fn real(sh: &Shape, w: &[Gen]) -> Real {
    let t = if w.is_empty() { None } else { Some(std::rc::Rc::new(build(w))) };
    match sh {
        Shape::Sphere(r, a, b, p) => Real::S(Sphere3D::new_partial_transformed(*r, *a, *b, *p, t)),
        Shape::Cyl(r, a, b, p) => Real::C(Cylinder3D::new_transformed(*r, *a, *b, *p, t)),
        Shape::CylPts(a, b, r, p) => Real::C(Cylinder3D::new_partial(p3(*a), p3(*b), *r, *p)),
        Shape::Disk(c, n, r, i, z, p) => Real::D(Disk3D::new_detailed(p3(*c), v3(*n), *r, *i, v3(*z), *p, t)),
        Shape::Tri(a, b, c) => Real::T(Triangle3D::new(p3(fwd(w, *a)), p3(fwd(w, *b)), p3(fwd(w, *c))).unwrap()),
    }
}

pub fn g07(cx: &Ctx) {
    let th = cx.thorough();
    let mut shapes = vec![
        Shape::Sphere(1.5, -3., 3., 360.),
        Shape::Sphere(1., -0.6, 0.4, 360.),
        Shape::Sphere(2., -4., 0.3, 200.),
        Shape::Sphere(1.25, -0.2, 2., 90.),
        Shape::Cyl(1., -1., 1.5, 360.),
        Shape::Cyl(0.75, 0.2, 2., 180.),
        Shape::Cyl(1.5, -0.5, 0.5, 270.),
        Shape::Disk([0.; 3], [0., 0., 1.], 1.5, 0., [1., 0., 0.], 360.),
        Shape::Disk([0.2, -0.1, 0.4], [0., 1., 1.], 1.4, 0.5, [1., 0., 0.], 360.),
        Shape::Disk([0., 0., 0.5], [1., 2., 2.], 1.75, 0., [2., -2., 1.], 140.),
        Shape::Disk([0., 0.3, 0.], [-1., 0., 0.], 1., 0.25, [0., 1., 0.], 300.),
        Shape::Tri([0., 0., 0.], [2., 0., 0.], [0., 2., 0.]),
        Shape::Tri([1., -1., 0.5], [-1., 1., 1.], [-2., -1., -0.5]),
        Shape::Tri([0., -2., 0.], [0., 1., -1.], [0., 1.5, 2.]),
    ];
    let words: Vec<Vec<Gen>> = vec![
        vec![],
        vec![Gen::T(0.5, -0.25, 0.75)],
        vec![Gen::R(0, 90.)],
        vec![Gen::T(0.3, 0.2, -0.5), Gen::R(2, 30.), Gen::R(1, -50.)],
        vec![Gen::S(1.5, 1.5, 1.5), Gen::R(0, 25.)],
        vec![Gen::S(-1., 1., 1.), Gen::T(0.2, 0., 0.1)],
        vec![Gen::S(1.5, 0.8, 1.2)],
        vec![Gen::R(2, 200.), Gen::S(1., 2., 0.7), Gen::T(0., 0.4, 0.)],
    ];
    let mut dirs: Vec<V> = vec![];
    for x in [-1., 0., 1.] {
        for y in [-1., 0., 1.] {
            for z in [-1., 0., 1.] {
                if x != 0. || y != 0. || z != 0. {
                    dirs.push(unit([x, y, z]));
                }
            }
        }
    }
    for v in [[0.9, 0.3, -0.2], [-0.4, 0.8, 0.3], [0.1, -0.25, 0.9], [-0.7, -0.6, -0.35], [0.05, 0.02, -1.], [-1., 0.03, 0.01]] {
        dirs.push(unit(v));
    }
    if th {
        for v in [[0.6, -0.5, 0.2], [0.33, 0.66, 0.77], [-0.2, -0.9, 0.4], [0.5, 0.1, 0.5], [-0.8, 0.5, -0.1], [0.3, -0.8, -0.7], [2., 1., 0.], [-3., 0., 1.]] {
            dirs.push(v); // not normalized on purpose for the last ones
        }
    }
    let n = cx.pick(5, 9);
    let mut origins: Vec<V> = vec![];
    for off in [0., 0.137] {
        for x in 0..n {
            for y in 0..n {
                for z in 0..n {
                    let c = |i: usize, k: f64| -2.8 + 5.6 * i as f64 / (n - 1) as f64 + off * k;
                    origins.push([c(x, 1.), c(y, -0.7), c(z, 0.45)]);
                }
            }
        }
    }
    let mut configs: Vec<(Shape, Vec<Gen>, Shape, Vec<Gen>, Vec<Gen>)> = vec![];
    for s in &shapes {
        for w in &words {
            // triangles have their vertices transformed instead
            configs.push((s.clone(), w.clone(), s.clone(), w.clone(), vec![]));
        }
    }
    shapes.clear();
    // cylinders between two points: same surface as a z-cylinder rotated and moved there
    for (a, b) in [
        ([0., 0., 0.], [0., 0., 2.]),
        ([0.2, 0.1, 1.], [0.2, 0.1, -1.]),
        ([0., 0., 0.], [2., 0., 0.]),
        ([-1., 0., 0.], [-1., 1.5, 0.]),
        ([0.5, 0.5, -0.5], [1.5, 1.5, 1.]),
        ([0., 0., 0.], [-1., 1., 0.5]),
        ([0., 1., 0.], [1., -1., -0.5]),
        ([-1., -1., -1.], [-1.5, -2., 0.5]),
    ] {
        let l = sub(b, a);
        let len = dot(l, l).sqrt();
        let th = (l[0] * l[0] + l[1] * l[1]).sqrt().atan2(l[2]).to_degrees();
        let ph = l[1].atan2(l[0]).to_degrees();
        let w = vec![Gen::T(a[0], a[1], a[2]), Gen::R(2, ph), Gen::R(1, th)];
        configs.push((Shape::CylPts(a, b, 0.6, 360.), vec![], Shape::Cyl(0.6, 0., len, 360.), w, vec![]));
    }
    cx.section("shapes", &format!("{} shape/transform configurations x {} origins x {} directions", configs.len(), origins.len(), dirs.len()), || {
        cx.par_named("shapes", configs.len(), |ci| {
            let (sh, w, model, mw, _) = &configs[ci];
            let r = real(sh, w);
            let name = format!("shapes/{sh:?}/{w:?}");
            let bb = r.bounds();
            let tri = matches!(sh, Shape::Tri(..));
            let tsh = if let Shape::Tri(a, b, c) = model { Shape::Tri(fwd(mw, *a), fwd(mw, *b), fwd(mw, *c)) } else { model.clone() };
            let mw: &[Gen] = if tri { &[] } else { mw };
            for o in &origins {
                for d in &dirs {
                    cx.state();
                    let (lo, ld) = (bwd(mw, *o), bwd_vec(mw, *d));
                    let ray = Ray3D { origin: p3(*o), direction: v3(*d) };
                    let kd = |what: String| (name.clone(), format!("{sh:?} under {w:?}, ray from {o:?} towards {d:?}: {what}"));
                    let (Some(info), Some(simple)) = (cx.no_panic(|| format!("{name}/panic/{o:?}/{d:?}"), || r.info(&ray)), cx.no_panic(|| format!("{name}/panic/{o:?}/{d:?}"), || r.simple(&ray))) else { continue };
                    let wnt = want(&tsh, lo, ld);
                    match wnt {
                        Want::Miss => {
                            cx.check(info.is_none(), || kd(format!("hit reported at {:?}, but the ray misses", info.map(|i| pv(i.p)))));
                            cx.check(simple.is_none(), || kd(format!("simple hit reported at {:?}, but the ray misses", simple.map(pv))));
                        }
                        Want::Hit(t, n) => {
                            let p = at(*o, *d, t);
                            cx.check(simple.is_some_and(|s| near(pv(s), p, 1e-6)), || kd(format!("simple hit {:?}, expected {p:?}", simple.map(pv))));
                            if !cx.check(info.is_some_and(|s| near(pv(s.p), p, 1e-6)), || kd(format!("hit {:?}, expected {p:?}", info.map(|i| pv(i.p))))) {
                                continue;
                            }
                            let info = info.unwrap();
                            // normal: along the true normal, facing the ray; side says which face
                            let tn = if mw.is_empty() { n } else {
                                // inverse-transpose through the pairing with the transformed basis
                                let e = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
                                [dot(n, bwd_vec(mw, e[0])), dot(n, bwd_vec(mw, e[1])), dot(n, bwd_vec(mw, e[2]))]
                            };
                            let (a, b) = (unit(tn), vv(info.normal));
                            let l = dot(b, b).sqrt();
                            if dot(a, unit(*d)).abs() > 1e-4 {
                                cx.check(l > 1e-9 && (dot(a, b).abs() / l - 1.).abs() < 1e-6, || kd(format!("normal {b:?} is not along {a:?}")));
                                cx.check(dot(b, *d) < 0., || kd(format!("normal {b:?} does not face the incoming ray")));
                                // outwards for sphere; along the given normal for disk and triangle
                                let out = dot(a, *d) < 0.;
                                match sh {
                                    Shape::Sphere(..) | Shape::Disk(..) | Shape::Tri(..) => {
                                        cx.check(info.side == if out { SurfaceSide::Front } else { SurfaceSide::Back }, || kd(format!("side {:?} for a ray {} the normal", info.side, if out { "against" } else { "along" })));
                                    }
                                    _ => {
                                        cx.check(info.side == if out { SurfaceSide::Back } else { SurfaceSide::Front }, || kd(format!("side {:?}", info.side)));
                                    }
                                }
                            }
                            if let Some(bb) = bb {
                                cx.check((0..3).all(|i| pv(bb.min)[i] - 1e-6 <= p[i] && p[i] <= pv(bb.max)[i] + 1e-6), || kd(format!("world_bounds {bb:?} does not contain the hit {p:?}")));
                            }
                        }
                        Want::Edge => {
                            for p in [info.map(|i| pv(i.p)), simple.map(pv)].into_iter().flatten() {
                                cx.check(p.iter().all(|x| x.is_finite()), || kd(format!("non-finite hit {p:?}")));
                            }
                        }
                    }
                    cx.trace();
                }
            }
        });
    });
    cx.section("tri-lattice", "all triangles on {0,1,2}^2 in 3 frames x rays through every half-lattice point of [-0.25,2.25]^2 from both sides, straight and slanted", || {
        let mut tris = vec![];
        let pts: Vec<(f64, f64)> = (0..9).map(|i| ((i % 3) as f64, (i / 3) as f64)).collect();
        for a in 0..9 {
            for b in 0..9 {
                for c in 0..9 {
                    let (p, q, r) = (pts[a], pts[b], pts[c]);
                    if ((q.0 - p.0) * (r.1 - p.1) - (q.1 - p.1) * (r.0 - p.0)).abs() > 0.5 {
                        tris.push((p, q, r));
                    }
                }
            }
        }
        let fr = crate::lattice::frames(th);
        cx.par_named("tri-lattice", tris.len(), |i| {
            let (p, q, r) = tris[i];
            for f in &fr {
                let nrm = vv(f.normal());
                let e = |x: (f64, f64)| pv(f.pt(x.0, x.1));
                let sh = Shape::Tri(e(p), e(q), e(r));
                let t = real(&sh, &[]);
                for ix in 0..11 {
                    for iy in 0..11 {
                        let (x, y) = (-0.25 + 0.25 * ix as f64 + 0.01, -0.25 + 0.25 * iy as f64 + 0.023);
                        let target = pv(f.pt(x, y));
                        for (h, sx) in [(1.5, 0.), (-2., 0.), (1., 0.8), (-1., -0.6)] {
                            let o = pv(f.off(f.pt(x + sx, y - sx * 0.5), h));
                            let d = unit(sub(target, o));
                            cx.state();
                            let ray = Ray3D { origin: p3(o), direction: v3(d) };
                            let got = t.simple(&ray).map(pv);
                            let ok = match want(&sh, o, d) {
                                Want::Miss => got.is_none(),
                                Want::Hit(s, _) => got.is_some_and(|g| near(g, at(o, d, s), 1e-9)),
                                Want::Edge => true,
                            };
                            let _ = nrm;
                            cx.check(ok, || (format!("tri-lattice/{p:?}{q:?}{r:?}/{}", f.name), format!("triangle {p:?} {q:?} {r:?} in frame {}: ray through ({x},{y}) gives {got:?}, expected {:?}", f.name, want(&sh, o, d))));
                        }
                    }
                }
            }
        });
    });
    cx.section("watertight", "pairs of lattice triangles sharing an edge (all vertex rotations) in all frames: rays through every 1/8 point of the shared edge from 2x27 origins must hit at least one", || {
        let fr = crate::lattice::frames(true);
        let quads: Vec<[(f64, f64); 4]> = vec![
            [(0., 0.), (1., 0.), (1., 1.), (0., 1.)],
            [(0., 0.), (3., 0.), (3., 2.7), (0., 2.7)],
            [(0., 0.), (4., 1.), (5., 4.), (1., 3.)],
            [(0.1, 0.7), (4.3, 0.7), (4.3, 3.1), (0.1, 3.1)],
        ];
        cx.par_named("watertight", quads.len() * fr.len(), |i| {
            let (q, f) = (quads[i % quads.len()], &fr[i / quads.len()]);
            let e = |x: (f64, f64)| f.pt(x.0, x.1);
            for r1 in 0..3 {
                for r2 in 0..3 {
                    let mut a = vec![q[0], q[1], q[2]];
                    let mut b = vec![q[0], q[2], q[3]];
                    a.rotate_left(r1);
                    b.rotate_left(r2);
                    let t1 = Triangle3D::new(e(a[0]), e(a[1]), e(a[2])).unwrap();
                    let t2 = Triangle3D::new(e(b[0]), e(b[1]), e(b[2])).unwrap();
                    for k in 1..8 {
                        let s = k as f64 / 8.;
                        let target = e((q[0].0 + s * (q[2].0 - q[0].0), q[0].1 + s * (q[2].1 - q[0].1)));
                        for m in 0..54 {
                            let h = if m < 27 { [1.3, 0.4, 7.][m / 9] } else { -[1.3, 0.4, 7.][(m - 27) / 9] };
                            let o = f.off(e(([0.3, 1.7, -2.][m % 3], [0.1, 0.9, 2.3][(m / 3) % 3])), h);
                            let d = unit(sub(pv(target), pv(o)));
                            cx.state();
                            let ray = Ray3D { origin: o, direction: v3(d) };
                            let ok = t1.simple_intersect(&ray).is_some() || t2.simple_intersect(&ray).is_some();
                            cx.check(ok, || (format!("watertight/{q:?}/{}/{r1}{r2}/{k}/{m}", f.name), format!("triangles {a:?} and {b:?} in frame {}: the ray from {o} to {target} on their shared edge slips between them", f.name)));
                        }
                    }
                }
            }
        });
    });
    cx.section("distant", "distant sources: 26 directions x 4 aperture angles x all rays of the direction set", || {
        for d in dirs.iter().take(26) {
            for ang in [0.01, 0.2, 1., 2.] {
                let s = DistantSource3D::new(v3([d[0] * 3., d[1] * 3., d[2] * 3.]), ang);
                for r in &dirs {
                    cx.state();
                    let c = dot(unit(*r), *d).clamp(-1., 1.).acos();
                    if (c - ang / 2.).abs() < 1e-6 {
                        continue;
                    }
                    let ray = Ray3D { origin: p3([1., 2., 3.]), direction: v3(*r) };
                    let hit = s.simple_intersect(&ray).is_some();
                    cx.check(hit == (c < ang / 2.), || (format!("distant/{d:?}/{ang}/{r:?}"), format!("source towards {d:?} of angle {ang}: ray {r:?} hit={hit}")));
                    let full = s.intersect(&ray);
                    cx.check(full.is_some() == hit, || (format!("distant/{d:?}/{ang}/{r:?}/full"), format!("source towards {d:?} of angle {ang}: ray {r:?} detailed and simple intersection disagree")));
                }
            }
        }
    });
}
