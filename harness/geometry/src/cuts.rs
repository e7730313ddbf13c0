//! G11: cutting loops with segments and with other loops.
use crate::lattice::*;
use geometry::*;
use mcc::*;

type F = (f64, f64);
fn crs(a: F, b: F, c: F) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
fn farea(v: &[F]) -> f64 {
    (0..v.len()).map(|i| { let (a, b) = (v[i], v[(i + 1) % v.len()]); a.0 * b.1 - a.1 * b.0 }).sum::<f64>() / 2.
}
/// the part of `v` to the left of a-b (exact for convex or not, as an area)
fn clip(v: &[F], a: F, b: F) -> Vec<F> {
    let mut out = vec![];
    for i in 0..v.len() {
        let (p, q) = (v[i], v[(i + 1) % v.len()]);
        let (x, y) = (crs(a, b, p), crs(a, b, q));
        if x >= 0. {
            out.push(p)
        }
        if (x > 0. && y < 0.) || (x < 0. && y > 0.) {
            let t = x / (x - y);
            out.push((p.0 + (q.0 - p.0) * t, p.1 + (q.1 - p.1) * t));
        }
    }
    out
}
fn ccw(v: &[F]) -> Vec<F> {
    let mut v = v.to_vec();
    if farea(&v) < 0. {
        v.reverse()
    }
    v
}
fn inter(a: &[F], b: &[F]) -> Vec<F> {
    let (mut r, b) = (ccw(a), ccw(b));
    for i in 0..b.len() {
        r = clip(&r, b[i], b[(i + 1) % b.len()]);
        if r.is_empty() {
            break;
        }
    }
    r
}
fn convex(v: &[P]) -> bool {
    let s = area2(v).signum();
    (0..v.len()).all(|i| cross(v[i], v[(i + 1) % v.len()], v[(i + 2) % v.len()]).signum() == s)
}
fn lp(f: &Frame, v: &[F]) -> Result<Loop3D, String> {
    let mut l = Loop3D::new();
    for p in v {
        l.push(f.pt(p.0, p.1))?;
    }
    l.close()?;
    Ok(l)
}

fn to_f(v: &[P]) -> Vec<F> {
    v.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()
}
fn crossings(a: &[F], b: &[F]) -> usize {
    let mut n = 0;
    for x in 0..a.len() {
        for y in 0..b.len() {
            let (p, q, r, t) = (a[x], a[(x + 1) % a.len()], b[y], b[(y + 1) % b.len()]);
            n += (crs(p, q, r) * crs(p, q, t) < 0. && crs(r, t, p) * crs(r, t, q) < 0.) as usize
        }
    }
    n
}
/// the coordinates of a point in the frame
fn back(f: &Frame, p: Point3D) -> F {
    let d = [p.x - f.o[0], p.y - f.o[1], p.z - f.o[2]];
    let dot = |w: [f64; 3]| (0..3).map(|i| w[i] * d[i]).sum::<f64>() / f.s;
    (dot(f.u), dot(f.v))
}
/// same closed outline, up to the first vertex and the direction
fn same_set(a: &[F], b: &[F]) -> bool {
    let n = a.len();
    let near = |p: F, q: F| (p.0 - q.0).abs() < 1e-6 && (p.1 - q.1).abs() < 1e-6;
    n == b.len() && (0..n).any(|k| (0..n).all(|i| near(a[i], b[(i + k) % n])) || (0..n).all(|i| near(a[i], b[(k + n - i) % n])))
}
/// without repeated and straight vertices
fn tidy(v: &[F]) -> Vec<F> {
    let mut w: Vec<F> = vec![];
    for p in v {
        if !w.iter().any(|q| (p.0 - q.0).abs() < 1e-9 && (p.1 - q.1).abs() < 1e-9) {
            w.push(*p)
        }
    }
    let n = w.len();
    (0..n).filter(|i| crs(w[(i + n - 1) % n], w[*i], w[(i + 1) % n]).abs() > 1e-9).map(|i| w[i]).collect()
}
/// distance between the vertices of each outline and the other outline
fn clearance(a: &[F], b: &[F]) -> f64 {
    let one = |v: &[F], w: &[F]| {
        let mut r = 1e9f64;
        for p in v {
            for i in 0..w.len() {
                let (c, d) = (w[i], w[(i + 1) % w.len()]);
                let l2 = (d.0 - c.0).powi(2) + (d.1 - c.1).powi(2);
                let t = (((p.0 - c.0) * (d.0 - c.0) + (p.1 - c.1) * (d.1 - c.1)) / l2).clamp(0., 1.);
                r = r.min((p.0 - c.0 - t * (d.0 - c.0)).hypot(p.1 - c.1 - t * (d.1 - c.1)));
            }
        }
        r
    };
    one(a, b).min(one(b, a))
}
fn shortest(v: &[F]) -> f64 {
    (0..v.len()).map(|i| { let (a, b) = (v[i], v[(i + 1) % v.len()]); (a.0 - b.0).hypot(a.1 - b.1) }).fold(1e9, f64::min)
}

pub fn g11(cx: &Ctx) {
    let fr = frames(cx.thorough());
    overlaps(cx, &fr);
    splits(cx, &fr);
    relations(cx, &fr);
}

fn overlaps(cx: &Ctx, fr: &[Frame]) {
    let w = cx.pick(3, 4);
    let shapes: Vec<Vec<P>> = polygons(w, 3, 3, 2).into_iter().chain(polygons(w, 3, 4, 2)).filter(|p| convex(p)).collect();
    let shifts = [(0.4, (1.13, 0.91)), (0.8, (0.37, 0.23)), (0.83, (1.61, -0.77)), (1.47, (-0.33, -0.59))];
    cx.section("overlaps", "all ordered pairs of convex loops of 3 and 4 vertices on a 3x3 (thorough: 4x3) lattice (every first vertex through the lattice, both directions), the second in 4 sizes and positions so that no vertex lies on the other outline; pairs whose outlines cross twice or not at all", || {
        cx.par_named("overlaps", shapes.len(), |i| {
            let a = to_f(&shapes[i]);
            for (j, b) in shapes.iter().enumerate() {
                for (k, (s, o)) in shifts.iter().enumerate() {
                    let b: Vec<F> = b.iter().map(|p| (p.0 as f64 * s + o.0, p.1 as f64 * s + o.1)).collect();
                    let n = crossings(&a, &b);
                    let want = tidy(&inter(&a, &b));
                    if n > 2 || clearance(&a, &b) < 0.002 || (!want.is_empty() && shortest(&want) < 0.01) {
                        cx.outcome("not judged");
                        continue;
                    }
                    let f = &fr[(i + j + k) % fr.len()];
                    cx.state();
                    let key = |w: &str| (format!("overlaps/{i}/{j}/{k}/{}", f.name), format!("loops {a:?} and {b:?} (plane {}): {w}", f.name));
                    let (la, lb) = match (lp(f, &a), lp(f, &b)) {
                        (Ok(x), Ok(y)) => (x, y),
                        _ => {
                            cx.check(false, || key("refused"));
                            continue;
                        }
                    };
                    match cx.no_panic(|| key("").0, || la.intersection(&lb)) {
                        Some(Ok(Some(l))) => {
                            let got: Vec<F> = l.vertices().iter().map(|p| back(f, *p)).collect();
                            cx.check(same_set(&tidy(&got), &want), || key(&format!("the overlap is {got:?}, expected {want:?}")));
                            cx.check(l.is_closed(), || key("the overlap is not closed"));
                            let ar = farea(&want).abs() * f.s * f.s;
                            cx.check(matches!(l.area(), Ok(x) if (x - ar).abs() < 1e-6), || key(&format!("the area of the overlap is {:?}, expected {ar}", l.area())));
                            cx.check((l.normal() * la.normal() - 1.).abs() < 1e-9, || key("the normal of the overlap is not that of the first loop"));
                            cx.outcome("overlap");
                        }
                        Some(Ok(None)) => {
                            cx.check(want.is_empty(), || key(&format!("no overlap, expected {want:?}")));
                            cx.outcome("apart");
                        }
                        Some(Err(e)) => {
                            cx.check(false, || key(&e));
                        }
                        None => {}
                    }
                }
            }
            // never with a loop in another plane, or at a distance
            let f = &fr[i % fr.len()];
            if let Ok(la) = lp(f, &a) {
                let mut l = Loop3D::new();
                for p in &a {
                    let _ = l.push(f.off(f.pt(p.0, p.1), 0.5));
                }
                let _ = l.close();
                cx.check(matches!(la.intersection(&l), Ok(None)), || (format!("overlaps/{i}/above"), format!("loop {a:?}: overlaps a loop half a metre above it")));
            }
        });
    });
}

fn splits(cx: &Ctx, fr: &[Frame]) {
    let mut shapes: Vec<Vec<P>> = polygons(3, 3, 3, 2).into_iter().chain(polygons(3, 3, 4, 2)).collect();
    if cx.thorough() {
        shapes.extend(polygons(3, 3, 5, 2));
    }
    // ends of the cutters: all around and within
    let ends: Vec<P> = (-1..=5).flat_map(|x| (-1..=5).map(move |y| (x, y))).collect();
    cx.section("splits", "all loops of 3 and 4 vertices (thorough: 5) on a 3x3 lattice, convex or not, cut by all segments with ends on a 7x7 lattice around and within", || {
        cx.par_named("splits", shapes.len(), |i| {
            let v = &shapes[i];
            let a = to_f(v);
            let n = v.len();
            let f = &fr[i % fr.len()];
            let l = match lp(f, &a) {
                Ok(l) => l,
                Err(e) => {
                    cx.fail(&format!("splits/{i}/refused"), &format!("loop {a:?}: {e}"));
                    return;
                }
            };
            for p in &ends {
                for q in &ends {
                    if p == q {
                        continue;
                    }
                    cx.state();
                    let key = |w: &str| (format!("splits/{i}/{p:?}{q:?}"), format!("loop {v:?} (plane {}) and segment {p:?}-{q:?}: {w}", f.name));
                    let seg = Segment3D::new(f.ip(*p), f.ip(*q));
                    // the exact points where the segment, without its ends, meets edges that are not along it
                    let mut want: Vec<F> = vec![];
                    for k in 0..n {
                        let (c, d) = (v[k], v[(k + 1) % n]);
                        let (x, y) = (cross(*p, *q, c), cross(*p, *q, d));
                        let (z, w) = (cross(c, d, *p), cross(c, d, *q));
                        if z == w || x.signum() * y.signum() > 0 || z.signum() * w.signum() >= 0 {
                            continue;
                        }
                        let t = z as f64 / (z - w) as f64;
                        let pt = (p.0 as f64 + (q.0 - p.0) as f64 * t, p.1 as f64 + (q.1 - p.1) as f64 * t);
                        if !want.iter().any(|o| (o.0 - pt.0).abs() < 1e-9 && (o.1 - pt.1).abs() < 1e-9) {
                            want.push(pt)
                        }
                    }
                    let got = l.intersect(&seg);
                    let ok = got.len() == want.len()
                        && got.iter().all(|(e, g)| {
                            let g2 = back(f, *g);
                            want.iter().any(|w| (w.0 - g2.0).abs() < 1e-7 && (w.1 - g2.1).abs() < 1e-7) && {
                                // it is on the edge it is said to be
                                let (c, d) = (a[*e % n], a[(*e + 1) % n]);
                                *e < n && crs(c, d, g2).abs() < 1e-6 && (g2.0 - c.0) * (g2.0 - d.0) <= 1e-6 && (g2.1 - c.1) * (g2.1 - d.1) <= 1e-6
                            }
                        });
                    cx.check(ok, || key(&format!("meets the outline at {got:?}, expected {want:?}")));
                    // pieces (more than one cut through a loop that is not convex is not judged)
                    if want.len() > 1 && !convex(v) {
                        cx.outcome("not judged");
                        continue;
                    }
                    let r = match cx.no_panic(|| key("").0, || l.split(&seg)) {
                        Some(Ok(r)) => r,
                        Some(Err(e)) => {
                            cx.check(false, || key(&e));
                            continue;
                        }
                        None => continue,
                    };
                    let whole = r.len() == 1 && same_set(&r[0].vertices().iter().map(|p| back(f, *p)).collect::<Vec<_>>(), &a);
                    if want.len() < 2 {
                        cx.check(whole, || key(&format!("does not go through, yet the loop becomes {} pieces: {r:?}", r.len())));
                        cx.outcome("left whole");
                    } else if want.len() == 2 && locate(v, *p) < 0 && locate(v, *q) < 0 && {
                        // through the inside
                        let m = ((want[0].0 + want[1].0) / 2., (want[0].1 + want[1].1) / 2.);
                        (0..n).all(|k| crs(a[k], a[(k + 1) % n], m).abs() > 1e-9)
                    } {
                        let (pf, qf) = ((p.0 as f64, p.1 as f64), (q.0 as f64, q.1 as f64));
                        let c = ccw(&a);
                        let parts = [tidy(&clip(&c, pf, qf)), tidy(&clip(&c, qf, pf))];
                        if parts.iter().any(|x| shortest(x) < 0.01) {
                            continue;
                        }
                        let got: Vec<Vec<F>> = r.iter().map(|l| tidy(&l.vertices().iter().map(|p| back(f, *p)).collect::<Vec<_>>())).collect();
                        let ok = got.len() == 2 && ((same_set(&got[0], &parts[0]) && same_set(&got[1], &parts[1])) || (same_set(&got[0], &parts[1]) && same_set(&got[1], &parts[0])));
                        cx.check(ok, || key(&format!("split into {got:?}, expected {parts:?}")));
                        for x in &r {
                            cx.check(x.is_closed() && (x.normal() * l.normal() - 1.).abs() < 1e-9, || key("a piece is open or faces the other way"));
                        }
                        let sum: f64 = r.iter().map(|x| x.area().unwrap_or(f64::NAN)).sum();
                        cx.check((sum - farea(&c) * f.s * f.s).abs() < 1e-6, || key(&format!("the pieces add up to {sum}")));
                        cx.outcome("split in two");
                    } else {
                        cx.outcome("not judged");
                    }
                }
            }
        });
    });
}

fn relations(cx: &Ctx, fr: &[Frame]) {
    let mut shapes: Vec<Vec<P>> = polygons(3, 3, 3, 2).into_iter().chain(polygons(3, 3, 4, 2)).chain(polygons(3, 3, 5, 2)).collect();
    if cx.thorough() {
        shapes.extend(polygons(3, 3, 6, 2));
    }
    let fr2 = frames(true);
    cx.section("relations", "all loops of 3 to 5 vertices (thorough: 6) on a 3x3 lattice: vertices, edges and diagonals by every pair of 5x5 lattice points, snapping, and the distance to and projection on 7 planes", || {
        cx.par_named("relations", shapes.len(), |i| {
            let v = &shapes[i];
            let a = to_f(v);
            let n = v.len();
            let f = &fr[i % fr.len()];
            let key = |w: &str| (format!("relations/{i}/{w}"), format!("loop {v:?} (plane {}): {w}", f.name));
            let l = match lp(f, &a) {
                Ok(l) => l,
                Err(e) => {
                    cx.check(false, || key(&e));
                    return;
                }
            };
            cx.state();
            for x in 0..5i64 {
                for y in 0..5i64 {
                    let p = (x, y);
                    let first = (0..n).find(|k| on_seg(v[*k], v[(*k + 1) % n], p));
                    cx.check(l.containing_segment(f.ip(p)) == first, || key(&format!("the edge that contains {p:?} is {:?}, expected {first:?}", l.containing_segment(f.ip(p)))));
                    cx.check(l.containing_segment(f.off(f.ip(p), 0.1)).is_none(), || key(&format!("an edge contains a point above {p:?}")));
                    for eps in [0.01, 0.9, 1.2, 2.1] {
                        // (the lattice step is one, its diagonal 1.41, ...)
                        let want = v.iter().any(|q| (((p.0 - q.0).pow(2) + (p.1 - q.1).pow(2)) as f64).sqrt() <= eps);
                        cx.check(l.contains_vertex(f.ip(p), eps * f.s) == want, || key(&format!("contains_vertex {p:?} within {eps}")));
                    }
                }
            }
            for a in 0..n {
                for b in 0..n {
                    if a == b {
                        continue;
                    }
                    let s = Segment3D::new(f.ip(v[a]), f.ip(v[b]));
                    let adj = (a + 1) % n == b || (b + 1) % n == a;
                    cx.check(l.contains_segment(&s) == adj, || key(&format!("contains_segment {a}-{b}")));
                    // exact: meets the outline only at its ends, and its middle is inside
                    let (p, q) = (v[a], v[b]);
                    let mut diag = !adj;
                    for k in 0..n {
                        if k != a && k != b && on_seg(p, q, v[k]) {
                            diag = false;
                        }
                        diag &= !seg_cross(p, q, v[k], v[(k + 1) % n]);
                    }
                    let m = ((p.0 + q.0) / 2, (p.1 + q.1) / 2);
                    diag &= locate(v, m) > 0;
                    cx.check(l.is_diagonal(s) == Ok(diag), || key(&format!("is_diagonal {a}-{b} is {:?}, expected {diag}", l.is_diagonal(s))));
                }
            }
            // snapping to points at a known distance from each vertex
            for k in 0..n {
                for (d, reach, yes) in [(0.05, 0.06, true), (0.05, 0.04, false)] {
                    let mut m = l.clone();
                    let to = f.pt(a[k].0 + d, a[k].1);
                    let r = m.snap(&[to], reach * f.s);
                    cx.check(r == if yes { Some(1) } else { None }, || key(&format!("snap of vertex {k} at {d} within {reach} gives {r:?}")));
                    for j in 0..n {
                        let w = if yes && j == k { to } else { l.vertices()[j] };
                        cx.check(m.vertices()[j].squared_distance(w) < 1e-18, || key(&format!("snap of vertex {k} moves vertex {j} to {}", m.vertices()[j])));
                    }
                    let mut b = a.clone();
                    if yes {
                        b[k].0 += d
                    }
                    let want = farea(&b).abs() * f.s * f.s;
                    cx.check(matches!(m.area(), Ok(x) if (x - want).abs() < 1e-7), || key(&format!("after the snap of vertex {k} the area is {:?}, expected {want}", m.area())));
                }
            }
            // other planes
            for (gi, g) in fr2.iter().enumerate() {
                let base = match lp(g, &[(0., 0.), (1., 0.), (0., 1.)]) {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                cx.state();
                let cosine = (f.normal() * g.normal()).abs();
                let key = |w: &str| (format!("relations/{i}/{gi}/{w}"), format!("loop {v:?} (plane {}) and plane {}: {w}", f.name, g.name));
                let mut m = l.clone();
                if cosine < 0.01 {
                    continue; // it would be flat
                }
                if m.project_into_plane(&base).is_err() {
                    cx.check(false, || key("projection refused"));
                    continue;
                }
                let o = g.pt(0., 0.);
                for (p, q) in l.vertices().iter().zip(m.vertices()) {
                    let d = (*p - o) * g.normal();
                    let want = *p - g.normal() * d;
                    cx.check(want.squared_distance(*q) < 1e-16, || key(&format!("{p} projects to {q}, expected {want}")));
                }
                let want = l.normal() * g.normal();
                cx.check(m.normal().is_parallel(g.normal()) && (m.normal() * l.normal() > 0.) && (m.normal().length() - 1.).abs() < 1e-9, || key(&format!("the normal becomes {} ({want})", m.normal())));
                let ar = l.area().unwrap_or(f64::NAN) * cosine;
                cx.check(matches!(m.area(), Ok(x) if (x - ar).abs() < 1e-6), || key(&format!("the projected area is {:?}, expected {ar}", m.area())));
                // the same as the outline of a polygon, with a hole if there is room for it
                if let Ok(mut pg) = Polygon3D::new(l.clone()) {
                    let c = (a.iter().map(|p| p.0).sum::<f64>() / n as f64, a.iter().map(|p| p.1).sum::<f64>() / n as f64);
                    let h: Vec<F> = a.iter().map(|p| (c.0 + (p.0 - c.0) * 0.3, c.1 + (p.1 - c.1) * 0.3)).collect();
                    let mut left = 1.;
                    if convex(v) {
                        match lp(f, &h).and_then(|h| pg.cut_hole(h)) {
                            Ok(()) => left = 0.91,
                            Err(e) => cx.fail(&key("hole").0, &key(&e).1),
                        }
                    }
                    let r = pg.project_into_plane(&base);
                    cx.check(r.is_ok(), || key(&format!("projection of the polygon: {r:?}")));
                    cx.check((pg.area() - ar * left).abs() < 1e-6, || key(&format!("the area of the projected polygon is {}, expected {}", pg.area(), ar * left)));
                    cx.check((pg.normal() - m.normal()).length_squared() < 1e-12, || key(&format!("the normal of the projected polygon is {}", pg.normal())));
                    let corner = pg.outer().vertices()[0];
                    let to = corner + (pg.outer().vertices()[1] - corner) * 0.1;
                    let r = pg.snap(&[to], corner.distance(to) * 1.01);
                    let tri = Triangle3D::new(corner, to, pg.outer().vertices()[n - 1]).map(|t| t.area()).unwrap_or(0.);
                    cx.check(r.is_some(), || key("nothing of the polygon is snapped"));
                    if convex(v) && r == Some(1) {
                        cx.check((pg.area() - (ar * left - tri)).abs() < 1e-6, || key(&format!("the area of the snapped polygon is {}, expected {}", pg.area(), ar * left - tri)));
                    }
                }
                let pts = m.vertices();
                let per: f64 = (0..n).map(|k| pts[k].distance(pts[(k + 1) % n])).sum();
                cx.check(matches!(m.perimeter(), Ok(x) if (x - per).abs() < 1e-6), || key(&format!("the projected perimeter is {:?}, expected {per}", m.perimeter())));
            }
            for d in [-2., -0.25, 0., 0.5, 3.] {
                for rev in [false, true] {
                    let mut m = Loop3D::new();
                    let pts: Vec<Point3D> = a.iter().map(|p| f.off(f.pt(p.0, p.1), d)).collect();
                    let pts: Vec<Point3D> = if rev { pts.into_iter().rev().collect() } else { pts };
                    for p in pts {
                        let _ = m.push(p);
                    }
                    let _ = m.close();
                    // along the normal of the first loop, positive if it is ahead of the second
                    let want = -d * (f.normal() * l.normal()).signum();
                    let got = l.normal_distance(&m);
                    cx.check(matches!(got, Ok(x) if (x - want).abs() < 1e-9), || key(&format!("normal_distance is {got:?}, expected {want}")));
                }
            }
        });
    });
}
