//! G10: arithmetic, measures and incidence of points, vectors, segments, planes,
//! rays and triangles, on exact lattices.
use crate::xform::*;
use geometry::PointInTriangle as T;
use geometry::*;
use mcc::*;

type I = [i64; 3];
fn f(a: I, s: f64, o: V) -> V {
    [a[0] as f64 * s + o[0], a[1] as f64 * s + o[1], a[2] as f64 * s + o[2]]
}
fn isub(a: I, b: I) -> I {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn idot(a: I, b: I) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn icross(a: I, b: I) -> I {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn grid(n: i64) -> Vec<I> {
    let mut v = vec![];
    for x in 0..n {
        for y in 0..n {
            for z in 0..n {
                v.push([x, y, z]);
            }
        }
    }
    v
}
fn pow2(x: i64) -> bool {
    let x = x.unsigned_abs();
    x == 0 || x.is_power_of_two()
}
fn near(a: V, b: V, tol: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= tol)
}
fn vv(v: Vector3D) -> V {
    [v.x, v.y, v.z]
}
fn v3(v: V) -> Vector3D {
    Vector3D::new(v[0], v[1], v[2])
}
/// the two ways in which a lattice is placed in space (sizes and offsets are
/// exact in binary, so that the arithmetic of the lattice is exact too)
const PLACES: [(f64, V); 3] = [(1., [0., 0., 0.]), (0.25, [-2., 16., 0.5]), (8., [-8., -8., -8.])];

pub fn g10(cx: &Ctx) {
    arithmetic(cx);
    lines(cx);
    segments(cx);
    triangles(cx);
}

fn arithmetic(cx: &Ctx) {
    let lat = [-3., -0.5, 0., 1., 4.];
    let mut pts: Vec<V> = vec![];
    for x in lat {
        for y in lat {
            for z in lat {
                pts.push([x, y, z]);
            }
        }
    }
    let sc = [-2., -0.25, 0.5, 1., 8.];
    cx.section("arithmetic", "all pairs of the 125 vectors with components in {-3, -1/2, 0, 1, 4} and 5 scales: every operator of points and vectors in its plain and assigning form", || {
        cx.par_named("arithmetic", pts.len(), |i| {
            let a = pts[i];
            let (pa, va) = (p3(a), v3(a));
            let key = |w: &str, b: V| (format!("arithmetic/{a:?}/{b:?}/{w}"), format!("{a:?} and {b:?}: {w}"));
            let eq = |got: V, want: V, w: &str, b: V| {
                cx.check(near(got, want, 1e-12), || (format!("arithmetic/{a:?}/{b:?}/{w}"), format!("{a:?} {w} {b:?} = {got:?}, expected {want:?}")));
            };
            for b in &pts {
                cx.state();
                let b = *b;
                let (pb, vb) = (p3(b), v3(b));
                let sum = [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
                let dif = [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
                let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
                eq(pv(pa + pb), sum, "point+point", b);
                eq(pv(pa + vb), sum, "point+vector", b);
                eq(vv(va + vb), sum, "vector+vector", b);
                eq(vv(pa - pb), dif, "point-point", b);
                eq(pv(pa - vb), dif, "point-vector", b);
                eq(vv(va - vb), dif, "vector-vector", b);
                let mut p = pa;
                p += pb;
                eq(pv(p), sum, "point+=point", b);
                let mut p = pa;
                p += vb;
                eq(pv(p), sum, "point+=vector", b);
                let mut p = pa;
                p -= vb;
                eq(pv(p), dif, "point-=vector", b);
                let mut v = va;
                v += vb;
                eq(vv(v), sum, "vector+=vector", b);
                let mut v = va;
                v -= vb;
                eq(vv(v), dif, "vector-=vector", b);
                for (w, d) in [("vector.vector", va * vb), ("vector.point", va * pb), ("point.vector", pa * vb), ("point.point", pa * pb)] {
                    cx.check((d - dot).abs() <= 1e-12, || key(w, b));
                }
                eq(pv(pa.scale_components(b[0], b[1], b[2])), [a[0] * b[0], a[1] * b[1], a[2] * b[2]], "scale_components of a point", b);
                eq(vv(va.scale_components(b[0], b[1], b[2])), [a[0] * b[0], a[1] * b[1], a[2] * b[2]], "scale_components of a vector", b);
                let cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
                eq(vv(va.cross(vb)), cr, "cross", b);
                let d2 = dif[0] * dif[0] + dif[1] * dif[1] + dif[2] * dif[2];
                cx.check((pa.squared_distance(pb) - d2).abs() <= 1e-12, || key("squared_distance", b));
                cx.check((pa.distance(pb) - d2.sqrt()).abs() <= 1e-12, || key("distance", b));
                cx.check(pa.compare(pb) == (a == b) && va.compare(vb) == (a == b), || key("compare", b));
                let (a2, b2) = (va.length_squared(), vb.length_squared());
                let par = a2 > 0. && b2 > 0. && cr == [0., 0., 0.];
                cx.check(va.is_parallel(vb) == par, || key("is_parallel", b));
                cx.check(va.is_same_direction(vb) == (par && dot > 0.), || key("is_same_direction", b));
                for r in [0.125, 1., 3., 6.] {
                    if (d2 - r * r).abs() > 1e-9 {
                        cx.check(pa.compare_by(pb, r) == (d2 < r * r), || key("compare_by", b));
                    }
                }
            }
            let z = [0., 0., 0.];
            for s in sc {
                cx.state();
                let m = [a[0] * s, a[1] * s, a[2] * s];
                let d = [a[0] / s, a[1] / s, a[2] / s];
                let w = |o: &str| format!("{o} {s}");
                eq(pv(pa * s), m, &w("point*"), z);
                eq(vv(va * s), m, &w("vector*"), z);
                eq(pv(pa / s), d, &w("point/"), z);
                eq(vv(va / s), d, &w("vector/"), z);
                let mut p = pa;
                p *= s;
                eq(pv(p), m, &w("point*="), z);
                let mut p = pa;
                p /= s;
                eq(pv(p), d, &w("point/="), z);
                let mut v = va;
                v *= s;
                eq(vv(v), m, &w("vector*="), z);
                let mut v = va;
                v /= s;
                eq(vv(v), d, &w("vector/="), z);
                let r = Ray3D { origin: p3([1., -2., 0.5]), direction: va };
                eq(pv(r.project(s)), [1. + m[0], -2. + m[1], 0.5 + m[2]], &w("ray.project"), z);
                let mut r = r;
                r.advance(s);
                eq(pv(r.origin), [1. + m[0], -2. + m[1], 0.5 + m[2]], &w("ray.advance"), z);
                eq(vv(r.direction), a, &w("direction after ray.advance"), z);
            }
            let l2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
            cx.check((va.length_squared() - l2).abs() <= 1e-12 && (va.length() - l2.sqrt()).abs() <= 1e-12, || key("length", z));
            cx.check(va.is_zero() == (l2 == 0.) && pa.is_zero() == (l2 == 0.), || key("is_zero", z));
            eq(vv(va.abs()), [a[0].abs(), a[1].abs(), a[2].abs()], "abs", z);
            eq(pv(va.as_point3d()), a, "as_point3d", z);
            eq(pv(Point3D::from(va)), a, "Point3D::from", z);
            eq(vv(Vector3D::from(pa)), a, "Vector3D::from", z);
            if l2 > 0. {
                let l = l2.sqrt();
                let n = [a[0] / l, a[1] / l, a[2] / l];
                eq(vv(va.get_normalized()), n, "get_normalized", z);
                let mut v = va;
                v.normalize();
                eq(vv(v), n, "normalize", z);
                match va.get_perpendicular() {
                    Ok(p) => {
                        cx.check((p * va).abs() <= 1e-12, || key("get_perpendicular is not perpendicular", z));
                        cx.check((p.length() - 1.).abs() <= 1e-12, || key("get_perpendicular is not of unit length", z));
                    }
                    Err(e) => cx.fail(&format!("arithmetic/{a:?}/get_perpendicular"), &e),
                }
            } else {
                cx.check(va.get_perpendicular().is_err(), || key("a perpendicular to nothing", z));
            }
        });
        eq_axis(cx);
    });
}
fn eq_axis(cx: &Ctx) {
    for (v, w) in [(Vector3D::x(), [1., 0., 0.]), (Vector3D::y(), [0., 1., 0.]), (Vector3D::z(), [0., 0., 1.])] {
        cx.check(vv(v) == w, || (format!("arithmetic/axis/{w:?}"), format!("axis vector {w:?} is {v}")));
    }
}

/// points against lines and planes
fn lines(cx: &Ctx) {
    let n = cx.pick(4, 5);
    let g = grid(n);
    cx.section("lines", "all triples of points of the 4x4x4 (thorough: 5x5x5) lattice, in 3 sizes and positions: distance to a line, to a plane, projections, collinearity, planes and rays", || {
        cx.par_named("lines", g.len() * g.len(), |k| {
            let (a, b) = (g[k / g.len()], g[k % g.len()]);
            let d = isub(b, a);
            let l2 = idot(d, d) as f64;
            for (s, o) in PLACES {
                let (pa, pb) = (p3(f(a, s, o)), p3(f(b, s, o)));
                for c in &g {
                    cx.state();
                    let pc = p3(f(*c, s, o));
                    let e = isub(*c, a);
                    let cr = icross(d, e);
                    let c2 = idot(cr, cr) as f64;
                    let key = |w: &str| (format!("lines/{a:?}{b:?}{c:?}x{s}/{w}"), format!("lattice points {a:?}, {b:?}, {c:?} (size {s}, at {o:?}): {w}"));
                    let same = (a == b) as u8 + (a == *c) as u8 + (b == *c) as u8;
                    match pa.is_collinear(pb, pc) {
                        Ok(r) => {
                            cx.check(same < 3 && r == (c2 == 0.), || key("is_collinear"));
                        }
                        Err(_) => {
                            cx.check(same == 3, || key("is_collinear refuses"));
                        }
                    }
                    if a == b {
                        continue;
                    }
                    // the line a-b
                    let want2 = c2 / l2 * s * s;
                    let sq = pc.squared_distance_to_line(pa, pb);
                    cx.check((sq - want2).abs() < 1e-9 * s * s, || key(&format!("squared_distance_to_line is {sq}, expected {want2}")));
                    // (the root of a zero that was only rounded is up to 1e-6)
                    let dl = pc.distance_to_line(pa, pb);
                    cx.check((dl - want2.sqrt()).abs() < 1e-5 * s, || key(&format!("distance_to_line is {dl}, expected {}", want2.sqrt())));
                    // the plane through a, with normal along a-b
                    let u = v3([d[0] as f64, d[1] as f64, d[2] as f64]) / l2.sqrt();
                    let t = idot(d, e) as f64;
                    let dist = pc.distance_to_plane(pa, u);
                    let want = t / l2.sqrt() * s;
                    cx.check((dist - want).abs() < 1e-9 * s, || key(&format!("distance_to_plane is {dist}, expected {want}")));
                    let pr = pv(pc.project_into_plane(pa, u));
                    let wp: V = {
                        let q = f(*c, s, o);
                        [q[0] - d[0] as f64 * t / l2 * s, q[1] - d[1] as f64 * t / l2 * s, q[2] - d[2] as f64 * t / l2 * s]
                    };
                    cx.check(near(pr, wp, 1e-9 * s), || key(&format!("project_into_plane is {pr:?}, expected {wp:?}")));
                    let pl = Plane3D::new(pa, u * 3.);
                    cx.check((pl.normal.length() - 1.).abs() < 1e-12 && near(vv(pl.normal), vv(u), 1e-12), || key("the normal of the plane"));
                    // points in the plane are judged where its equation is exact
                    if t != 0. {
                        cx.check(!pl.test_point(pc), || key("a point off the plane is taken to be in it"));
                    } else if d.iter().filter(|x| **x != 0).count() == 1 {
                        cx.check(pl.test_point(pc), || key("a point of the plane is taken to be off it"));
                    }
                    // rays from c along every lattice direction
                    for q in &g {
                        let r = [q[0] - 1, q[1] - 1, q[2] - 1];
                        if q.iter().any(|x| *x > 3) {
                            continue;
                        }
                        if r == [0, 0, 0] {
                            continue;
                        }
                        let rv = v3([r[0] as f64, r[1] as f64, r[2] as f64]);
                        let den = idot(d, r) as f64;
                        let got = pl.intersect(&Ray3D { origin: pc, direction: rv });
                        if den == 0. {
                            // (a normal that is rounded may leave a tiny slope)
                            if d.iter().filter(|x| **x != 0).count() == 1 {
                                cx.check(got.is_none(), || key("a parallel ray hits the plane"));
                            }
                        } else {
                            let want = -t / den * s;
                            if want > 1e-9 {
                                cx.check(matches!(got, Some(x) if (x - want).abs() < 1e-9 * (1. + want.abs())), || key(&format!("the ray towards {r:?} meets the plane at {got:?}, expected {want}")));
                            } else if want < -1e-9 {
                                cx.check(got.is_none(), || key(&format!("the ray towards {r:?} meets a plane behind it at {got:?}")));
                            }
                        }
                    }
                }
            }
        });
    });
}

fn segments(cx: &Ctx) {
    let g: Vec<I> = if cx.thorough() { grid(5).into_iter().filter(|p| p[1] < 4 && p[2] < 3).collect() } else { grid(3) };
    let n = g.len();
    let perms: [[usize; 3]; 3] = [[0, 1, 2], [1, 2, 0], [2, 0, 1]];
    let places = &PLACES;
    cx.section("segments", "all ordered pairs of segments with ends on the 3x3x3 lattice (thorough: 5x4x3), in 3 sizes and positions and the 3 cyclic orders of the axes: where they meet, exactly", || {
        cx.par_named("segments", n * n, |k| {
            let (a, b) = (g[k / n], g[k % n]);
            for pm in perms {
                let ax = |p: I| -> I { [p[pm[0]], p[pm[1]], p[pm[2]]] };
                let (a, b) = (ax(a), ax(b));
                let d = isub(b, a);
                for (s, o) in places.iter() {
                    let (s, o) = (*s, *o);
                    let pt = |p: I| p3(f(p, s, o));
                    let s1 = Segment3D::new(pt(a), pt(b));
                    let key1 = |w: &str| (format!("segments/{a:?}{b:?}x{s}/{w}"), format!("segment {a:?}-{b:?} (size {s}, at {o:?}): {w}"));
                    cx.check((s1.length() - (idot(d, d) as f64).sqrt() * s).abs() < 1e-12 * s, || key1("length"));
                    cx.check(s1.start() == pt(a) && s1.end() == pt(b), || key1("ends"));
                    cx.check(vv(s1.as_vector3d()) == vv(pt(b) - pt(a)) && vv(s1.as_reversed_vector3d()) == vv(pt(a) - pt(b)), || key1("as_vector3d"));
                    let m = pv(s1.midpoint());
                    let (fa, fb) = (f(a, s, o), f(b, s, o));
                    cx.check(near(m, [(fa[0] + fb[0]) / 2., (fa[1] + fb[1]) / 2., (fa[2] + fb[2]) / 2.], 1e-12), || key1("midpoint"));
                    for c in &g {
                        let c = ax(*c);
                        cx.state();
                        let on = {
                            let e = isub(c, a);
                            let t = idot(d, e);
                            icross(d, e) == [0, 0, 0] && t >= 0 && t <= idot(d, d)
                        };
                        let key = |w: &str| (format!("segments/{a:?}{b:?}/{c:?}x{s}/{w}"), format!("segment {a:?}-{b:?}, point {c:?} (size {s}, at {o:?}): {w}"));
                        if a != b {
                            match s1.contains_point(pt(c)) {
                                Ok(r) => {
                                    cx.check(r == on, || key("contains_point"));
                                }
                                Err(e) => cx.fail(&key("").0, &format!("{}: {e}", key("contains_point").1)),
                            }
                        }
                        for e in &g {
                            let e = ax(*e);
                            cx.state();
                            let key = |w: &str| (format!("segments/{a:?}{b:?}/{c:?}{e:?}x{s}/{w}"), format!("segments {a:?}-{b:?} and {c:?}-{e:?} (size {s}, at {o:?}): {w}"));
                            let s2 = Segment3D::new(pt(c), pt(e));
                            cx.check(s1.compare(&s2) == ((a, b) == (c, e) || (a, b) == (e, c)), || key("compare"));
                            if a == b || c == e {
                                continue;
                            }
                            if icross(d, isub(c, a)) == [0, 0, 0] && icross(d, isub(e, a)) == [0, 0, 0] {
                                let l = idot(d, d);
                                let (t, u) = (idot(d, isub(c, a)), idot(d, isub(e, a)));
                                let want = t >= 0 && t <= l && u >= 0 && u <= l;
                                cx.check(s1.contains(&s2) == Ok(want), || key("contains"));
                            } else {
                                cx.check(s1.contains(&s2) == Ok(false), || key("contains"));
                            }
                            // a + d t = c + h u
                            let h = isub(e, c);
                            let nrm = icross(d, h);
                            let w = isub(c, a);
                            let got = s1.get_intersection_pt(&s2);
                            let mut out = Point3D::new(9e9, 9e9, 9e9);
                            let hit = s1.intersect(&s2, &mut out);
                            let mut out2 = Point3D::new(9e9, 9e9, 9e9);
                            let tch = s1.touches(&s2, &mut out2);
                            if nrm == [0, 0, 0] || idot(nrm, w) != 0 {
                                cx.check(got.is_none(), || key(&format!("parallel or skew lines meet at {got:?}")));
                                cx.check(!hit, || key("parallel or skew segments intersect"));
                                cx.check(!tch, || key("parallel or skew segments touch"));
                                continue;
                            }
                            let nn = idot(nrm, nrm);
                            let (tn, un) = (idot(icross(w, h), nrm), idot(icross(w, d), nrm));
                            let (t, u) = (tn as f64 / nn as f64, un as f64 / nn as f64);
                            cx.check(matches!(got, Some((x, y)) if (x - t).abs() < 1e-12 && (y - u).abs() < 1e-12), || key(&format!("the lines meet at {got:?}, expected ({t}, {u})")));
                            // where an end lies exactly on the other segment, the answer is
                            // judged only if the division by the determinant is exact
                            let exact = nrm.iter().all(|x| pow2(*x));
                            let end = tn == 0 || tn == nn || un == 0 || un == nn;
                            let want_hit = tn >= 0 && tn <= nn && un > 0 && un < nn;
                            let want_tch = tn >= 0 && tn <= nn && un >= 0 && un <= nn;
                            if hit || want_hit {
                                cx.check(hit == want_hit, || key("intersect"));
                            }
                            if !end || exact {
                                cx.check(tch == want_tch, || key("touches"));
                            }
                            let p: V = [0, 1, 2].map(|i| (a[i] as f64 + d[i] as f64 * t) * s + o[i]);
                            if hit {
                                cx.check(near(pv(out), p, 1e-9 * s), || key(&format!("intersect puts the point at {out}, expected {p:?}")));
                            }
                            if tch {
                                cx.check(near(pv(out2), p, 1e-9 * s), || key(&format!("touches puts the point at {out2}, expected {p:?}")));
                            }
                        }
                    }
                }
            }
        });
    });
}

fn triangles(cx: &Ctx) {
    let g: Vec<I> = grid(3);
    let n = g.len();
    cx.section("triangles", "all ordered triples of points of the 3x3x3 lattice, in 3 sizes and positions: area, normal, centres, radius, aspect ratio, edges; every barycentric lattice point of step 1/6 in and around each", || {
        cx.par_named("triangles", n * n, |k| {
            let (a, b) = (g[k / n], g[k % n]);
            for c in &g {
                let c = *c;
                let (e1, e2) = (isub(b, a), isub(c, a));
                let nr = icross(e1, e2);
                let n2 = idot(nr, nr);
                for (s, o) in PLACES {
                    cx.state();
                    let key = |w: &str| (format!("triangles/{a:?}{b:?}{c:?}x{s}/{w}"), format!("triangle {a:?}, {b:?}, {c:?} (size {s}, at {o:?}): {w}"));
                    let (pa, pb, pc) = (p3(f(a, s, o)), p3(f(b, s, o)), p3(f(c, s, o)));
                    let t = match Triangle3D::new(pa, pb, pc) {
                        Ok(t) => {
                            if !cx.check(n2 != 0, || key("flat, and accepted")) {
                                continue;
                            }
                            t
                        }
                        Err(_) => {
                            cx.check(n2 == 0, || key("refused"));
                            continue;
                        }
                    };
                    measure(cx, &t, [a, b, c], s, o, &key);
                    // every way of moving one vertex to another lattice point gives the same triangle
                    if s == 1. {
                        for q in &g {
                            let ok = |x: I, y: I, z: I| icross(isub(y, x), isub(z, x)) != [0, 0, 0];
                            let pq = p3(f(*q, s, o));
                            if ok(*q, b, c) {
                                let mut u = t;
                                u.set_a(pq);
                                measure(cx, &u, [*q, b, c], s, o, &key);
                            }
                            if ok(a, *q, c) {
                                let mut u = t;
                                u.set_b(pq);
                                measure(cx, &u, [a, *q, c], s, o, &key);
                            }
                            if ok(a, b, *q) {
                                let mut u = t;
                                u.set_c(pq);
                                measure(cx, &u, [a, b, *q], s, o, &key);
                            }
                        }
                    }
                    // where points are
                    for i in -1..=7i64 {
                        for j in -1..=7i64 {
                            cx.state();
                            let w = 6 - i - j;
                            let q: V = [0, 1, 2].map(|x| (a[x] as f64 + (e1[x] * i + e2[x] * j) as f64 / 6.) * s + o[x]);
                            let want = match (i, j, w) {
                                (i, j, w) if i < 0 || j < 0 || w < 0 => T::Outside,
                                (0, 0, _) => T::VertexA,
                                (0, _, 0) => T::VertexC,
                                (_, 0, 0) => T::VertexB,
                                (0, _, _) => T::EdgeAC,
                                (_, 0, _) => T::EdgeAB,
                                (_, _, 0) => T::EdgeBC,
                                _ => T::Inside,
                            };
                            let got = t.test_point(p3(q));
                            cx.check(got == want, || key(&format!("the point at ({i}, {j})/6 is {got:?}, expected {want:?}")));
                            let (v, e) = (matches!(want, T::VertexA | T::VertexB | T::VertexC), matches!(want, T::EdgeAB | T::EdgeBC | T::EdgeAC));
                            cx.check(want.is_vertex() == v && want.is_edge() == e, || key("is_vertex or is_edge"));
                            cx.check(t.has_vertex(p3(q)) == v, || key("has_vertex"));
                        }
                    }
                    // edges, by their ends and as segments, in both directions; other triangles
                    let v = [pa, pb, pc];
                    for i in 0..3 {
                        cx.check(t.vertex(i) == Ok(v[i]), || key("vertex"));
                        let (x, y) = (v[i], v[(i + 1) % 3]);
                        cx.check(matches!(t.segment(i), Ok(z) if z.start == x && z.end == y), || key("segment"));
                        for (x, y) in [(x, y), (y, x)] {
                            cx.check(t.get_edge_index_from_points(x, y) == Some(i), || key("get_edge_index_from_points"));
                            cx.check(t.get_edge_index_from_segment(&Segment3D::new(x, y)) == Some(i), || key("get_edge_index_from_segment"));
                        }
                    }
                    cx.check(t.vertex(3).is_err() && t.segment(3).is_err(), || key("a fourth vertex or edge"));
                    for q in &g {
                        let pq = p3(f(*q, s, o));
                        let other = *q != a && *q != b && *q != c;
                        if other {
                            cx.check(v.iter().all(|x| t.get_edge_index_from_points(*x, pq).is_none()), || key("an edge that it does not have"));
                        }
                        for (x, y, z) in [(pa, pb, pq), (pq, pa, pb), (pb, pq, pa), (pc, pq, pb), (pa, pq, pc)] {
                            if let Ok(u) = Triangle3D::new(x, y, z) {
                                let want = [pa, pb, pc].iter().all(|v| [x, y, z].contains(v));
                                cx.check(t.compare(&u) == want, || key("compare"));
                            }
                        }
                    }
                }
            }
        });
    });
}

fn measure(cx: &Ctx, t: &Triangle3D, v: [I; 3], s: f64, o: V, key: &dyn Fn(&str) -> (String, String)) {
    let [a, b, c] = v;
    let key = |w: String| {
        let k = key("");
        (format!("{}{v:?}{w}", k.0), format!("{}with vertices {v:?}: {w}", k.1))
    };
    let (e1, e2, e3) = (isub(b, a), isub(c, a), isub(c, b));
    let nr = icross(e1, e2);
    let n2 = idot(nr, nr) as f64;
    let area = n2.sqrt() / 2. * s * s;
    cx.check((t.area() - area).abs() < 1e-7 * s * s, || key(format!("area is {}, expected {area}", t.area())));
    let nv: V = [nr[0] as f64, nr[1] as f64, nr[2] as f64].map(|x| x / n2.sqrt());
    cx.check(near(vv(t.normal()), nv, 1e-9), || key(format!("normal is {}, expected {nv:?}", t.normal())));
    let fv = [f(a, s, o), f(b, s, o), f(c, s, o)];
    let cen: V = [0, 1, 2].map(|i| (fv[0][i] + fv[1][i] + fv[2][i]) / 3.);
    cx.check(near(pv(t.centroid()), cen, 1e-9 * s), || key(format!("centroid is {}, expected {cen:?}", t.centroid())));
    let q = |x: I| idot(x, x) as f64;
    let r = (q(e1) * q(e2) * q(e3)).sqrt() / (2. * n2.sqrt()) * s;
    cx.check((t.circumradius() - r).abs() < 1e-6 * r, || key(format!("circumradius is {}, expected {r}", t.circumradius())));
    let ar = r / (q(e1).min(q(e2)).min(q(e3)).sqrt() * s);
    cx.check((t.aspect_ratio() - ar).abs() < 1e-6 * ar, || key(format!("aspect_ratio is {}, expected {ar}", t.aspect_ratio())));
    let cc = pv(t.circumcenter());
    let off = (0..3).map(|i| (cc[i] - fv[0][i]) * nv[i]).sum::<f64>();
    cx.check(off.abs() < 1e-7 * s, || key(format!("circumcenter {cc:?} is off the plane")));
    for w in fv {
        let d = (0..3).map(|i| (cc[i] - w[i]) * (cc[i] - w[i])).sum::<f64>().sqrt();
        cx.check((d - r).abs() < 1e-6 * r, || key(format!("circumcenter {cc:?} is {d} from a vertex, expected {r}")));
    }
    cx.check(t.a() == p3(fv[0]) && t.b() == p3(fv[1]) && t.c() == p3(fv[2]), || key("vertices".into()));
}
