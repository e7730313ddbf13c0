//! G05 mesh refinement and point insertion.
use crate::holes::*;
use crate::lattice::*;
use geometry::{Point3D, Polygon3D, Triangulation3D, Vector3D};
use mcc::*;

fn uv(f: &Frame, p: Point3D) -> (f64, f64, f64) {
    let d = p - Point3D::new(f.o[0], f.o[1], f.o[2]);
    let u = Vector3D::new(f.u[0], f.u[1], f.u[2]);
    let v = Vector3D::new(f.v[0], f.v[1], f.v[2]);
    ((d * u) / f.s, (d * v) / f.s, d * f.normal())
}
fn sgn_area(t: &[(f64, f64); 3]) -> f64 {
    ((t[1].0 - t[0].0) * (t[2].1 - t[0].1) - (t[1].1 - t[0].1) * (t[2].0 - t[0].0)) / 2.
}
fn in_tri(t: &[(f64, f64); 3], p: (f64, f64)) -> bool {
    let s = sgn_area(t).signum();
    (0..3).all(|i| s * sgn_area(&[t[i], t[(i + 1) % 3], p]) > 0.)
}
/// floating point tiling check of a refined mesh
fn check_mesh(c: &Ctx, f: &Frame, o: &[P], holes: &[Vec<P>], t: &Triangulation3D, max_area: f64, max_ar: f64, k: &str) {
    let n = t.n_triangles();
    c.check(t.n_valid_triangles() == n && t.len() == n, || (format!("mesh-valid/{k}"), "invalid triangles left".into()));
    let so = area2(o).signum() as f64;
    let mut sum = 0.;
    let mut tri = vec![];
    for q in t.get_trilist() {
        let mut l = [(0., 0.); 3];
        for (i, p) in [q.a(), q.b(), q.c()].into_iter().enumerate() {
            let (x, y, z) = uv(f, p);
            if !c.check(z.abs() < 1e-5, || (format!("mesh-plane/{k}"), format!("mesh vertex leaves the plane by {z}"))) {
                return;
            }
            l[i] = (x, y);
        }
        let a = sgn_area(&l) * so;
        if !c.check(a > 0., || (format!("mesh-orientation/{k}"), format!("triangle {l:?} degenerate or flipped (area {a})"))) {
            return;
        }
        c.check((q.area() - a * f.s * f.s).abs() <= 1e-6 * (1. + a * f.s * f.s), || (format!("mesh-triarea/{k}"), format!("triangle area {} should be {}", q.area(), a * f.s * f.s)));
        let ar = q.aspect_ratio();
        let area = q.area();
        c.check(area <= max_area * (1. + 1e-9) || area < 1e-3, || (format!("mesh-maxarea/{k}"), format!("triangle of area {area} in a mesh refined to {max_area}")));
        c.check(ar <= max_ar * (1. + 1e-9) || area < 1e-3, || (format!("mesh-maxratio/{k}"), format!("triangle of ratio {ar} in a mesh refined to {max_ar}")));
        sum += a;
        tri.push(l);
    }
    let want = (area2(o).abs() - holes.iter().map(|h| area2(h).abs()).sum::<i64>()) as f64 / 2.;
    c.check((sum - want).abs() < 1e-6 * want, || (format!("mesh-area/{k}"), format!("mesh area {sum}, polygon {want}")));
    // every probe strictly inside the polygon is in exactly one triangle (probes avoid mesh lines)
    let (mx, my) = (o.iter().map(|p| p.0).max().unwrap(), o.iter().map(|p| p.1).max().unwrap());
    let sc = 1000i64;
    let big: Vec<P> = o.iter().map(|p| (p.0 * sc, p.1 * sc)).collect();
    let hb: Vec<Vec<P>> = holes.iter().map(|h| h.iter().map(|p| (p.0 * sc, p.1 * sc)).collect()).collect();
    for x in 0..mx * 2 {
        for y in 0..my * 2 {
            let q = (x * sc / 2 + 137, y * sc / 2 + 311);
            let inside = locate(&big, q) > 0 && hb.iter().all(|h| locate(h, q) < 0);
            let p = (q.0 as f64 / sc as f64, q.1 as f64 / sc as f64);
            // points within rounding of an internal edge can be in none; perturb and retry
            let cnt = |p: (f64, f64)| tri.iter().filter(|t| in_tri(t, p)).count();
            let mut m = cnt(p);
            if m != inside as usize && m == 0 {
                m = cnt((p.0 + 1.3e-5, p.1 - 2.1e-5));
            }
            c.check(m == inside as usize, || (format!("mesh-cover/{k}/{p:?}"), format!("point {p:?} is covered by {m} triangles")));
        }
    }
}

pub fn g05(c: &Ctx) {
    let fr = frames(true);
    // A. insertion histories
    let mut bases: Vec<(Vec<P>, Vec<Vec<P>>)> = vec![
        (vec![(0, 0), (4, 0), (4, 4), (0, 4)], vec![]),
        (vec![(0, 0), (4, 0), (0, 4)], vec![]),
        (vec![(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)], vec![]),
        (vec![(0, 0), (5, 1), (4, 5), (1, 4)], vec![]),
        (vec![(0, 0), (6, 0), (6, 6), (0, 6)], vec![vec![(2, 2), (4, 2), (4, 4), (2, 4)]]),
        (vec![(0, 0), (6, 0), (3, 6)], vec![vec![(2, 1), (4, 1), (3, 3)]]),
    ];
    for (o, _) in bases.clone() {
        let mut r = o.clone();
        r.reverse();
        bases.push((r, vec![]));
    }
    let depth = c.pick(2, 3);
    c.section("insertion", &format!("{} polygons, every sequence of {} lattice points inserted (inside, on edges, on vertices, outside), {} planes", bases.len(), depth, fr.len()), || {
        let jobs: Vec<(usize, usize)> = (0..bases.len()).flat_map(|b| (0..fr.len()).map(move |f| (b, f))).collect();
        c.par_named("ins", jobs.len(), |ji| {
            let (o, holes) = &bases[jobs[ji].0];
            let f = &fr[jobs[ji].1];
            let mut poly = f.poly(o).unwrap();
            for h in holes {
                poly.cut_hole(f.lp(h).unwrap()).unwrap();
            }
            let t0 = Triangulation3D::try_from(&poly).unwrap();
            let pts: Vec<P> = (-1..=7).flat_map(|x| (-1..=7).map(move |y| (x, y))).filter(|p| p.0 <= o.iter().map(|q| q.0).max().unwrap() + 1 && p.1 <= o.iter().map(|q| q.1).max().unwrap() + 1).collect();
            fn rec(c: &Ctx, f: &Frame, o: &[P], holes: &[Vec<P>], t: &Triangulation3D, pts: &[P], verts: &mut Vec<P>, left: usize, hist: &mut Vec<P>) {
                if left == 0 {
                    return;
                }
                for p in pts {
                    c.state();
                    let lo = locate(o, *p);
                    let lh = holes.iter().map(|h| locate(h, *p)).max().unwrap_or(-1);
                    let inside = lo >= 0 && lh <= 0;
                    hist.push(*p);
                    let k = || format!("{}/{o:?}/{hist:?}", f.name).replace(' ', "");
                    let mut u = t.clone();
                    let Some(r) = c.no_panic(|| format!("insert-panic/{}", k()), || u.add_point(f.ip(*p))) else {
                        hist.pop();
                        continue;
                    };
                    let is_v = verts.contains(p);
                    let want: Option<bool> = if !inside { None } else { Some(!is_v) };
                    let ok = c.check(r.clone().ok() == want, || (format!("insert-verdict/{}", k()), format!("add_point returned {r:?}; inside={inside} already a vertex={is_v}")));
                    if ok && want == Some(true) {
                        c.outcome("inserted");
                        let tri: Option<Vec<[P; 3]>> = u.get_trilist().iter().map(|t| Some([dist_ok(f, t.a())?, dist_ok(f, t.b())?, dist_ok(f, t.c())?])).collect();
                        let r = match &tri {
                            None => Err("foreign vertices".to_string()),
                            Some(l) if !l.iter().any(|t| t.contains(p)) => Err("the point is not a vertex".into()),
                            Some(l) => tiles(l, o, holes, false),
                        };
                        let e = r.clone().err().unwrap_or_default();
                        if c.check(r.is_ok() && u.n_valid_triangles() == u.n_triangles(), || (format!("insert-tiling/{}", k()), format!("after inserting {hist:?} into {o:?} in {}: {e}", f.name))) {
                            verts.push(*p);
                            rec(c, f, o, holes, &u, pts, verts, left - 1, hist);
                            verts.pop();
                        }
                    } else if want.is_none() {
                        c.outcome("outside: refused");
                    } else {
                        c.outcome("vertex: ignored");
                    }
                    hist.pop();
                }
            }
            let mut verts: Vec<P> = o.iter().chain(holes.iter().flatten()).copied().collect();
            rec(c, f, o, holes, &t0, &pts, &mut verts, depth, &mut vec![]);
        });
    });
    // B. refinement
    let mut shapes: Vec<(Vec<P>, Vec<Vec<P>>)> = vec![];
    for k in 3..=c.pick(4, 5) {
        for v in polygons(3, 3, k, 2) {
            shapes.push((v, vec![]));
        }
    }
    for o in outers() {
        shapes.push((o.clone(), vec![]));
        for h in [vec![(0, 0), (1, 0), (1, 1), (0, 1)], vec![(0, 0), (1, 1), (0, 1)]] {
            for off in [(1, 1), (4, 3), (5, 2), (2, 4)] {
                let h: Vec<P> = h.iter().map(|p: &P| (p.0 + off.0, p.1 + off.1)).collect();
                if strictly_inside(&o, &h) {
                    shapes.push((o.clone(), vec![h]));
                }
            }
        }
    }
    let fs = [fr[0], fr[3], fr[4]];
    let areas = [0.1, 0.25, 0.5, 1.7, 1e9];
    let ars = [1.3, 2., 5., 1e9];
    c.section("refinement", &format!("{} polygons (with and without holes) x {} planes x max area as a fraction {:?} of the polygon x max aspect ratio {:?}", shapes.len(), fs.len(), areas, ars), || {
        c.par_named("mesh", shapes.len(), |i| {
            let (o, holes) = &shapes[i];
            for f in &fs {
                for fa in areas {
                    for ar in ars {
                        let mut poly: Polygon3D = f.poly(o).unwrap();
                        for h in holes {
                            poly.cut_hole(f.lp(h).unwrap()).unwrap();
                        }
                        let ma = fa * poly.area();
                        c.state();
                        let k = format!("{}/{o:?}-{holes:?}/{fa}/{ar}", f.name).replace(' ', "");
                        let Some(r) = c.no_panic(|| format!("mesh-panic/{k}"), || Triangulation3D::mesh_polygon(&poly, ma, ar)) else { continue };
                        match r {
                            Err(e) => {
                                // very strict aspect ratios may be unattainable: a reported error is acceptable
                                c.outcome("mesh error");
                                c.check(ar < 5., || (format!("mesh-error/{k}"), format!("meshing {o:?} {holes:?}: {e}")));
                            }
                            Ok(t) => {
                                c.outcome("meshed");
                                check_mesh(c, f, o, holes, &t, ma, ar, &k);
                            }
                        }
                    }
                }
            }
        });
    });
}
