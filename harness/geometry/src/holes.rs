//! G03 holes and bridging, G04 triangulation.
use crate::lattice::*;
use geometry::{Point3D, Polygon3D, Triangulation3D, Vector3D};
use mcc::*;

pub fn dist_ok(f: &Frame, p: Point3D) -> Option<P> {
    // inverse of the embedding, must be (nearly) a lattice point
    let d = p - Point3D::new(f.o[0], f.o[1], f.o[2]);
    let u = Vector3D::new(f.u[0], f.u[1], f.u[2]);
    let v = Vector3D::new(f.v[0], f.v[1], f.v[2]);
    let (x, y) = ((d * u) / f.s, (d * v) / f.s);
    let off = (d * f.normal()).abs();
    if (x - x.round()).abs() > 1e-6 || (y - y.round()).abs() > 1e-6 || off > 1e-6 {
        return None;
    }
    Some((x.round() as i64, y.round() as i64))
}
/// hole strictly inside the outer polygon and clear of the other holes
pub fn strictly_inside(outer: &[P], hole: &[P]) -> bool {
    hole.iter().all(|p| locate(outer, *p) > 0) && !edges_touch(outer, hole)
}
pub fn edges_touch(a: &[P], b: &[P]) -> bool {
    (0..a.len()).any(|i| (0..b.len()).any(|j| seg_touch(a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()])))
}
pub fn edges_cross(a: &[P], b: &[P]) -> bool {
    (0..a.len()).any(|i| (0..b.len()).any(|j| seg_cross(a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()])))
}
pub fn disjoint(a: &[P], b: &[P]) -> bool {
    !edges_touch(a, b) && a.iter().all(|p| locate(b, *p) < 0) && b.iter().all(|p| locate(a, *p) < 0)
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
/// The edges of a polygon, in steps that go from a lattice point to the next one
pub fn steps(a: &[P]) -> Vec<(P, P)> {
    let mut v = vec![];
    for i in 0..a.len() {
        let (p, q) = (a[i], a[(i + 1) % a.len()]);
        let g = gcd(q.0 - p.0, q.1 - p.1);
        for k in 0..g {
            let d = ((q.0 - p.0) / g, (q.1 - p.1) / g);
            v.push(((p.0 + d.0 * k, p.1 + d.1 * k), (p.0 + d.0 * (k + 1), p.1 + d.1 * (k + 1))));
        }
    }
    v
}
/// Whether some part of the sides of `a` is strictly on one side (1: inside, -1: outside) of `b`.
/// (Touching happens at lattice points only.)
pub fn some(a: &[P], b: &[P], side: i8) -> bool {
    let twice: Vec<P> = b.iter().map(|p| (p.0 * 2, p.1 * 2)).collect();
    steps(a).iter().any(|(p, q)| locate(b, *p) == side || locate(&twice, (p.0 + q.0, p.1 + q.1)) == side)
}
/// The directed steps of a set of walks that are not walked back
fn net(walks: &[Vec<P>]) -> std::collections::BTreeMap<(P, P), i64> {
    let mut m = std::collections::BTreeMap::new();
    for w in walks {
        for (p, q) in steps(w) {
            if p < q { *m.entry((p, q)).or_insert(0) += 1 } else { *m.entry((q, p)).or_insert(0) -= 1 }
        }
    }
    m.retain(|_, v| *v != 0);
    m
}
pub fn outers() -> Vec<Vec<P>> {
    let s = 10;
    vec![
        vec![(0, 0), (s, 0), (s, s), (0, s)],
        vec![(0, 0), (12, 0), (0, 12)],
        vec![(0, 0), (12, 0), (12, 6), (6, 6), (6, 12), (0, 12)], // L
        vec![(0, 0), (12, 0), (12, 10), (8, 10), (8, 6), (4, 6), (4, 10), (0, 10)], // U
        vec![(3, 0), (9, 0), (12, 5), (9, 10), (3, 10), (0, 5)],  // hexagon
        vec![(0, 0), (6, 3), (12, 0), (10, 6), (12, 12), (6, 10), (0, 12), (2, 6)], // star-like
    ]
}
/// candidate holes: every lattice polygon of the 3x3 grid (step 2) shifted to start at (dx,dy)
pub fn hole_shapes(kmax: usize) -> Vec<Vec<P>> {
    let mut v = vec![];
    for k in 3..=kmax {
        v.extend(polygons(3, 3, k, 2));
    }
    v
}
fn nm(f: &Frame, v: &[P], h: &[Vec<P>]) -> String {
    format!("{}/{:?}-{:?}", f.name, v, h).replace(' ', "")
}

pub fn g03(c: &Ctx) {
    let fr = frames(true);
    let holes = hole_shapes(c.pick(5, 6));
    let outs = outers();
    let step = 1;
    let offs: Vec<P> = (0..=8).step_by(step).flat_map(|x| (0..=8).step_by(step).map(move |y| (x, y))).collect();
    c.section("single-hole", &format!("{} outer shapes x both orientations x {} hole polygons (both orientations) x {} offsets x 2 planes: accepted iff strictly inside, area, membership, bridged loop", outs.len(), holes.len(), offs.len()), || {
        c.par_named("hole", holes.len() * outs.len(), |i| {
            let (h, o) = (&holes[i / outs.len()], &outs[i % outs.len()]);
            for (oi, off) in offs.iter().enumerate() {
                let hole: Vec<P> = h.iter().map(|p| (p.0 + off.0, p.1 + off.1)).collect();
                let inside = strictly_inside(o, &hole);
                let outside = edges_cross(o, &hole) || some(&hole, o, -1) || some(o, &hole, 1);
                let touches = !inside && !outside;
                let f = &fr[(oi + i) % fr.len()];
                for flip in [false, true] {
                    let mut o = o.clone();
                    if flip {
                        o.reverse()
                    }
                    c.state();
                    let k = nm(f, &o, &[hole.clone()]);
                    let mut poly = f.poly(&o).unwrap();
                    let a0 = poly.area();
                    let r = poly.cut_hole(f.lp(&hole).unwrap());
                    if outside {
                        c.outcome("hole not inside: refused");
                        c.check(r.is_err() && poly.area() == a0 && poly.n_inner_loops() == 0, || (format!("hole-outside/{k}"), format!("hole {hole:?} is not inside {o:?} but was cut")));
                        continue;
                    }
                    if touches {
                        // it may be refused, but not cut wrongly
                        match r {
                            Err(_) => {
                                c.outcome("touching hole refused");
                                c.check(poly.area() == a0 && poly.n_inner_loops() == 0, || (format!("hole-touches/{k}"), format!("hole {hole:?} of {o:?} refused but cut")));
                            }
                            Ok(()) => {
                                c.outcome("touching hole cut");
                                check_poly(c, f, &o, &[hole.clone()], &poly, &k, oi % 5 == 0);
                            }
                        }
                        continue;
                    }
                    c.outcome("hole cut");
                    if !c.check(r.is_ok() && poly.n_inner_loops() == 1, || (format!("hole-inside/{k}"), format!("hole {hole:?} strictly inside {o:?} refused: {r:?}"))) {
                        continue;
                    }
                    check_poly(c, f, &o, &[hole.clone()], &poly, &k, oi % 5 == 0);
                }
            }
        });
    });
    let small: Vec<Vec<P>> = hole_shapes(4).into_iter().filter(|h| area2(h).abs() <= 8).collect();
    c.section("two-holes", &format!("square outer, all ordered pairs of {} small holes x 3 relative placements: accepted iff disjoint", small.len()), || {
        let o = vec![(0, 0), (14, 0), (14, 14), (0, 14)];
        c.par_named("two", small.len(), |i| {
            for (j, g) in small.iter().enumerate() {
                for (pi, (oa, ob)) in PLACES.iter().enumerate() {
                    let a: Vec<P> = small[i].iter().map(|p| (p.0 + oa.0, p.1 + oa.1)).collect();
                    let b: Vec<P> = g.iter().map(|p| (p.0 + ob.0, p.1 + ob.1)).collect();
                    let dis = disjoint(&a, &b);
                    let overlap = edges_cross(&a, &b) || a.iter().any(|p| locate(&b, *p) > 0) || b.iter().any(|p| locate(&a, *p) > 0);
                    let overlap = overlap || some(&a, &b, 1) || some(&b, &a, 1) || net(&[a.clone()]).keys().eq(net(&[b.clone()]).keys());
                    let f = &fr[(i + j + pi) % 4];
                    c.state();
                    let k = nm(f, &o, &[a.clone(), b.clone()]);
                    let mut poly = f.poly(&o).unwrap();
                    poly.cut_hole(f.lp(&a).unwrap()).unwrap();
                    let a1 = poly.area();
                    let r = poly.cut_hole(f.lp(&b).unwrap());
                    if overlap {
                        c.outcome("overlapping hole refused");
                        c.check(r.is_err() && poly.area() == a1 && poly.n_inner_loops() == 1, || (format!("hole-overlap/{k}"), format!("hole {b:?} overlaps hole {a:?} but was cut")));
                    } else if !dis {
                        // they touch each other: it may be refused, but not cut wrongly
                        match r {
                            Err(_) => {
                                c.outcome("touching hole refused");
                                c.check(poly.area() == a1 && poly.n_inner_loops() == 1, || (format!("hole-touches/{k}"), format!("hole {b:?} refused but cut")));
                            }
                            Ok(()) => {
                                c.outcome("touching hole cut");
                                check_poly(c, f, &o, &[a, b], &poly, &k, (i + j) % 7 == 0);
                            }
                        }
                    } else if c.check(r.is_ok(), || (format!("second-hole/{k}"), format!("disjoint second hole {b:?} refused (first {a:?}): {r:?}"))) {
                        c.outcome("second hole cut");
                        check_poly(c, f, &o, &[a, b], &poly, &k, (i + j) % 7 == 0);
                    }
                }
            }
        });
    });
    let any = doors();
    c.section("doors-and-windows", &format!("{} outer shapes x all ordered pairs of {} holes at every place, which may touch the border and each other", outs.len(), any.len()), || {
        c.par_named("doors", any.len() * outs.len(), |i| {
            let (a, o) = (&any[i / outs.len()], &outs[i % outs.len()]);
            let f = &fr[i % fr.len()];
            let mut one = f.poly(o).unwrap();
            if one.cut_hole(f.lp(a).unwrap()).is_err() {
                return;
            }
            for b in &any {
                let mut poly = one.clone();
                if poly.cut_hole(f.lp(b).unwrap()).is_err() {
                    continue;
                }
                c.state();
                let k = nm(f, o, &[a.clone(), b.clone()]);
                if edges_cross(a, b) || some(a, b, 1) || some(b, a, 1) || a == b {
                    c.fail(&format!("hole-overlap/{k}"), &format!("hole {b:?} overlaps hole {a:?} but was cut"));
                    continue;
                }
                c.outcome("two holes cut");
                check_poly(c, f, o, &[a.clone(), b.clone()], &poly, &k, false);
            }
        });
    });
    c.section("surrounding-hole", &format!("square outer, {} small holes, then a larger hole that surrounds them (refused, nothing changes), 1 and 2 existing holes", small.len()), || {
        let o = vec![(0, 0), (20, 0), (20, 20), (0, 20)];
        let around: [Vec<P>; 3] = [vec![(1, 1), (19, 1), (19, 19), (1, 19)], vec![(1, 1), (1, 19), (19, 19), (19, 1)], vec![(1, 10), (10, 1), (19, 10), (10, 19)]];
        c.par_named("surround", small.len(), |i| {
            for second in [false, true] {
                for a in &around {
                    let f = &fr[i % fr.len()];
                    c.state();
                    let h: Vec<P> = small[i].iter().map(|p| (p.0 + 8, p.1 + 8)).collect();
                    let mut poly = f.poly(&o).unwrap();
                    if second {
                        poly.cut_hole(f.lp(&[(2, 2), (3, 2), (2, 3)]).unwrap()).unwrap();
                    }
                    poly.cut_hole(f.lp(&h).unwrap()).unwrap();
                    let (a0, n0) = (poly.area(), poly.n_inner_loops());
                    let r = poly.cut_hole(f.lp(a).unwrap());
                    c.check(r.is_err() && poly.area() == a0 && poly.n_inner_loops() == n0, || (format!("hole-surrounds/{}", nm(f, &o, &[h.clone(), a.clone()])), format!("hole {a:?} surrounds hole {h:?} but was cut")));
                }
            }
        });
    });
    c.section("off-plane-holes", "parallel plane and tilted holes are refused", || {
        let o = &outs[0];
        for f in &fr {
            for h in holes.iter().filter(|h| h.len() <= 4) {
                c.state();
                let hole: Vec<P> = h.iter().map(|p| (p.0 + 3, p.1 + 3)).collect();
                let mut g = *f;
                let n = f.normal();
                g.o = [f.o[0] + n.x * 0.5, f.o[1] + n.y * 0.5, f.o[2] + n.z * 0.5];
                let mut poly = f.poly(o).unwrap();
                c.check(poly.cut_hole(g.lp(&hole).unwrap()).is_err(), || (format!("hole-offset/{}", nm(f, o, &[hole.clone()])), "hole in a parallel plane accepted".into()));
                let t = Frame { v: [n.x, n.y, n.z], ..*f };
                c.check(poly.cut_hole(t.lp(&hole).unwrap()).is_err(), || (format!("hole-tilted/{}", nm(f, o, &[hole.clone()])), "hole in a perpendicular plane accepted".into()));
            }
        }
    });
}

fn check_poly(c: &Ctx, f: &Frame, o: &[P], holes: &[Vec<P>], poly: &Polygon3D, k: &str, points: bool) {
    let want2 = area2(o).abs() - holes.iter().map(|h| area2(h).abs()).sum::<i64>();
    let want = want2 as f64 / 2. * f.s * f.s;
    c.close(poly.area(), want, 1e-9, || format!("holed-area/{k}"));
    let nn = f.normal() * area2(o).signum() as f64;
    c.check((poly.normal() - nn).length() < 1e-6, || (format!("holed-normal/{k}"), "normal".into()));
    if points {
        for x in -1..=13i64 {
            for y in -1..=13i64 {
                let q = (x, y);
                let lo = locate(o, q);
                let hs: Vec<i8> = holes.iter().map(|h| locate(h, q)).collect();
                if hs.contains(&0) {
                    continue; // border of a hole: unspecified
                }
                let w = lo >= 0 && hs.iter().all(|h| *h < 0);
                let g = poly.test_point(f.ip(q));
                c.check(g == Ok(w), || (format!("holed-inside/{k}/{q:?}"), format!("point {q:?} of {o:?} with holes {holes:?}: {g:?} expected {w}")));
            }
        }
    }
    // bridged loop: one closed walk around the outer border and all holes, each hole walked against the outer border
    let Some(l) = c.no_panic(|| format!("bridge/{k}"), || poly.get_closed_loop()) else { return };
    let vs: Option<Vec<P>> = l.vertices().iter().map(|p| dist_ok(f, *p)).collect();
    let Some(vs) = vs else {
        c.fail(&format!("bridge/{k}"), "bridged loop has foreign vertices");
        return;
    };
    let sum2: i64 = area2(&vs) * area2(o).signum();
    c.check(sum2 == want2, || (format!("bridge-area/{k}"), format!("bridged loop {vs:?} encloses {} instead of {}", sum2 as f64 / 2., want2 as f64 / 2.)));
    // what is left after dropping what is walked back and forth is the borders
    let so = area2(o).signum();
    let mut walks = vec![o.to_vec()];
    for h in holes {
        let mut h = h.clone();
        if area2(&h).signum() == so {
            h.reverse()
        }
        walks.push(h);
    }
    c.check(net(&[vs.clone()]) == net(&walks), || (format!("bridge-walk/{k}"), format!("bridged loop {vs:?} of {o:?} with holes {holes:?} does not go around their borders")));
    if holes.iter().any(|h| edges_touch(o, h)) || (0..holes.len()).any(|i| (0..i).any(|j| edges_touch(&holes[i], &holes[j]))) {
        return;
    }
    // every border edge is walked exactly once, every bridge twice (in both directions)
    let n = vs.len();
    let mut edges: Vec<(P, P)> = (0..n).map(|i| (vs[i], vs[(i + 1) % n])).collect();
    let mut ok = true;
    for (b, s) in std::iter::once((o, 1)).chain(holes.iter().map(|h| (h.as_slice(), -1))) {
        let rev = area2(b).signum() * so != s;
        for i in 0..b.len() {
            let (mut p, mut q) = (b[i], b[(i + 1) % b.len()]);
            if rev {
                std::mem::swap(&mut p, &mut q)
            }
            match edges.iter().position(|e| *e == (p, q)) {
                Some(j) => {
                    edges.swap_remove(j);
                }
                None => ok = false,
            }
        }
    }
    ok &= edges.len() == 2 * holes.len();
    while let Some((a, b)) = edges.pop() {
        match edges.iter().position(|e| *e == (b, a)) {
            Some(j) => {
                edges.swap_remove(j);
            }
            None => {
                ok = false;
                break;
            }
        }
    }
    c.check(ok, || (format!("bridge-walk/{k}"), format!("bridged loop {vs:?} of {o:?} with holes {holes:?} is not a walk over every border edge plus one two-way bridge per hole")));
}

/// triangles (in lattice coordinates, times 6 so that centroids are integers) exactly tile the polygon
pub fn tiles(tri: &[[P; 3]], o: &[P], holes: &[Vec<P>], only_vertices: bool) -> Result<(), String> {
    let s6 = |v: &[P]| -> Vec<P> { v.iter().map(|p| (p.0 * 6, p.1 * 6)).collect() };
    let want2 = area2(o).abs() - holes.iter().map(|h| area2(h).abs()).sum::<i64>();
    let mut sum = 0;
    let so = area2(o).signum();
    let (ob, hb): (Vec<P>, Vec<Vec<P>>) = (s6(o), holes.iter().map(|h| s6(h)).collect());
    for t in tri {
        let a = area2(t);
        if a == 0 {
            return Err(format!("degenerate triangle {t:?}"));
        }
        if a.signum() != so {
            return Err(format!("triangle {t:?} is oriented against the polygon"));
        }
        sum += a.abs();
        if only_vertices && !t.iter().all(|p| o.contains(p) || holes.iter().any(|h| h.contains(p))) {
            return Err(format!("triangle {t:?} has a vertex that is not of the polygon"));
        }
        let cen = ((t[0].0 + t[1].0 + t[2].0) * 2, (t[0].1 + t[1].1 + t[2].1) * 2);
        if locate(&ob, cen) <= 0 || hb.iter().any(|h| locate(h, cen) >= 0) {
            return Err(format!("triangle {t:?} lies outside the polygon"));
        }
        for b in std::iter::once(o).chain(holes.iter().map(|h| h.as_slice())) {
            if edges_cross(t, b) {
                return Err(format!("triangle {t:?} crosses the border"));
            }
        }
    }
    if sum != want2 {
        return Err(format!("triangles add up to {}, polygon has {}", sum as f64 / 2., want2 as f64 / 2.));
    }
    for i in 0..tri.len() {
        for j in 0..i {
            let (a, b) = (s6(&tri[i]), s6(&tri[j]));
            let ca = ((tri[i][0].0 + tri[i][1].0 + tri[i][2].0) * 2, (tri[i][0].1 + tri[i][1].1 + tri[i][2].1) * 2);
            let cb = ((tri[j][0].0 + tri[j][1].0 + tri[j][2].0) * 2, (tri[j][0].1 + tri[j][1].1 + tri[j][2].1) * 2);
            if edges_cross(&a, &b) || locate(&a, cb) > 0 || locate(&b, ca) > 0 {
                return Err(format!("triangles {:?} and {:?} overlap", tri[i], tri[j]));
            }
        }
    }
    Ok(())
}

fn triangulate(c: &Ctx, f: &Frame, o: &[P], holes: &[Vec<P>], poly: &Polygon3D) {
    c.state();
    let k = nm(f, o, holes);
    let Some(t) = c.no_panic(|| format!("triangulate/{k}"), || Triangulation3D::try_from(poly)) else { return };
    match t {
        Err(e) => c.fail(&format!("triangulate/{k}"), &format!("{o:?} holes {holes:?} in {}: {e}", f.name)),
        Ok(t) => {
            let list = t.get_trilist();
            let tri: Option<Vec<[P; 3]>> = list.iter().map(|t| Some([dist_ok(f, t.a())?, dist_ok(f, t.b())?, dist_ok(f, t.c())?])).collect();
            let r = match tri {
                None => Err("foreign vertices".to_string()),
                Some(tri) => {
                    // (a polygon pinched by a touching hole needs fewer, or more if the hole's corners break a side)
                    let free = holes.iter().enumerate().all(|(i, h)| strictly_inside(o, h) && holes[..i].iter().all(|g| disjoint(g, h)));
                    let want_n = o.len() + holes.iter().map(|h| h.len() + 2).sum::<usize>() - 2;
                    if free && (tri.len() != want_n || t.n_valid_triangles() != want_n || t.n_triangles() != want_n) {
                        Err(format!("{} triangles, expected {want_n}", tri.len()))
                    } else {
                        tiles(&tri, o, holes, true)
                    }
                }
            };
            let e = r.clone().err().unwrap_or_default();
            c.check(r.is_ok(), || (format!("tiling/{k}"), format!("triangulation of {o:?} holes {holes:?} in {}: {e}", f.name)));
        }
    }
}

fn doors() -> Vec<Vec<P>> {
    let places: Vec<P> = (0..=12).step_by(2).flat_map(|x| (0..=12).step_by(2).map(move |y| (x, y))).collect();
    let kinds: [Vec<P>; 4] = [vec![(0, 0), (2, 0), (2, 2), (0, 2)], vec![(0, 0), (0, 4), (2, 4), (2, 0)], vec![(0, 0), (4, 0), (2, 2)], vec![(0, 0), (4, 0), (4, 4), (0, 4)]];
    kinds.iter().flat_map(|k| places.iter().map(move |d| k.iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect())).collect()
}

pub fn g04(c: &Ctx) {
    let fr = frames(true);
    let mut sh = vec![];
    for k in 3..=6 {
        sh.extend(polygons(3, 3, k, 2));
    }
    sh.extend(polygons(4, 3, 5, 2));
    sh.extend(polygons(3, 3, 7, 2));
    if c.thorough() {
        sh.extend(polygons(4, 3, 6, 2));
        sh.extend(polygons(3, 3, 8, 2));
        sh.extend(polygons(4, 3, 7, 2));
    }
    sh.extend(outers());
    c.section("plain", &format!("{} simple lattice polygons x every start vertex x {} planes", sh.len(), fr.len()), || {
        c.par_named("tri", sh.len(), |i| {
            for f in &fr {
                for r in 0..sh[i].len() {
                    let v = rot(&sh[i], r);
                    let Ok(p) = f.poly(&v) else { continue };
                    triangulate(c, f, &v, &[], &p);
                }
            }
        });
    });
    let holes = hole_shapes(c.pick(4, 5));
    let outs = outers();
    let offs: Vec<P> = (0..=8).flat_map(|x| (0..=8).map(move |y| (x, y))).collect();
    c.section("one-hole", &format!("{} outers x {} holes x {} offsets (all those that are accepted), 1 plane each", outs.len(), holes.len(), offs.len()), || {
        c.par_named("tri1", holes.len() * outs.len(), |i| {
            let (h, o) = (&holes[i / outs.len()], &outs[i % outs.len()]);
            for (oi, off) in offs.iter().enumerate() {
                let hole: Vec<P> = h.iter().map(|p| (p.0 + off.0, p.1 + off.1)).collect();
                let f = &fr[(oi + i) % fr.len()];
                let mut poly = f.poly(o).unwrap();
                if poly.cut_hole(f.lp(&hole).unwrap()).is_err() {
                    continue;
                }
                triangulate(c, f, o, &[hole], &poly);
            }
        });
    });
    let small: Vec<Vec<P>> = hole_shapes(4).into_iter().filter(|h| area2(h).abs() <= 8).collect();
    c.section("two-holes", &format!("square outer, all ordered pairs of {} small holes x 5 relative placements, disjoint ones", small.len()), || {
        let o = vec![(0, 0), (14, 0), (14, 14), (0, 14)];
        c.par_named("tri2", small.len(), |i| {
            for (j, g) in small.iter().enumerate() {
                for (pi, (oa, ob)) in PLACES.iter().enumerate() {
                    let a: Vec<P> = small[i].iter().map(|p| (p.0 + oa.0, p.1 + oa.1)).collect();
                    let b: Vec<P> = g.iter().map(|p| (p.0 + ob.0, p.1 + ob.1)).collect();
                    if !disjoint(&a, &b) {
                        continue;
                    }
                    let f = &fr[(i + j + pi) % fr.len()];
                    let mut poly = f.poly(&o).unwrap();
                    if poly.cut_hole(f.lp(&a).unwrap()).is_err() || poly.cut_hole(f.lp(&b).unwrap()).is_err() {
                        continue;
                    }
                    triangulate(c, f, &o, &[a, b], &poly);
                }
            }
        });
    });
    let any = doors();
    c.section("doors-and-windows", &format!("{} outer shapes x all ordered pairs of {} holes at every place, which may touch the border and each other", outs.len(), any.len()), || {
        c.par_named("doors", any.len() * outs.len(), |i| {
            let (a, o) = (&any[i / outs.len()], &outs[i % outs.len()]);
            let f = &fr[i % fr.len()];
            let mut one = f.poly(o).unwrap();
            if one.cut_hole(f.lp(a).unwrap()).is_err() {
                return;
            }
            for b in &any {
                let mut poly = one.clone();
                if poly.cut_hole(f.lp(b).unwrap()).is_err() {
                    continue;
                }
                triangulate(c, f, o, &[a.clone(), b.clone()], &poly);
            }
        });
    });
    let sizes: Vec<usize> = if c.thorough() { (3..=150).collect() } else { (3..=60).chain([80, 120, 150]).collect() };
    c.section("many-vertices", &format!("combs (zig-zag teeth) and convex chains of {} sizes up to 150 vertices x 2 start vertices x {} planes", sizes.len(), fr.len()), || {
        c.par_named("big", sizes.len(), |i| {
            let n = sizes[i];
            let mut comb: Vec<P> = vec![];
            for x in 0..n as i64 {
                comb.push((2 * x, if x % 2 == 0 { 0 } else { 4 }));
            }
            let last = comb[n - 1].0;
            comb.push((last + 5, 10));
            comb.push((-5, 10));
            let parab: Vec<P> = (0..n as i64).map(|x| (x, (x * (x - n as i64)))).collect();
            for v in [comb, parab] {
                for f in fr.iter() {
                    for r in [0, v.len() / 2] {
                        let v = rot(&v, r);
                        let Ok(p) = f.poly(&v) else { continue };
                        triangulate(c, f, &v, &[], &p);
                    }
                }
            }
        });
    });
}
pub const PLACES: [(P, P); 5] = [((1, 1), (8, 8)), ((2, 5), (7, 3)), ((3, 3), (5, 4)), ((4, 4), (4, 4)), ((8, 2), (1, 9))];
