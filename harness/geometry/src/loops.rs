//! G01 loop measures, G02 membership.
use crate::lattice::*;
use geometry::{Loop3D, Point3D};
use mcc::*;

fn shapes(c: &Ctx, big: bool) -> Vec<Vec<P>> {
    let mut v = vec![];
    for k in 3..=5 {
        v.extend(polygons(3, 3, k, 2));
    }
    v.extend(polygons(3, 3, 6, 2));
    if big {
        v.extend(polygons(4, 3, 5, 2));
        if c.thorough() {
            v.extend(polygons(4, 3, 6, 2));
            v.extend(polygons(4, 3, 7, 2));
            v.extend(polygons(3, 3, 8, 2));
        }
        v.extend(polygons(3, 3, 7, 2));
    }
    v
}
fn nm(f: &Frame, v: &[P], r: usize) -> String {
    format!("{}/{:?}/r{r}", f.name, v).replace(' ', "")
}
fn v3(p: geometry::Vector3D) -> [f64; 3] {
    [p.x, p.y, p.z]
}

pub fn g01(c: &Ctx) {
    let sh = shapes(c, true);
    let fr = frames(true);
    c.section("measures", &format!("{} simple lattice polygons x every start vertex x {} planes", sh.len(), fr.len()), || {
        c.par_named("measures", sh.len(), |i| {
            let base = &sh[i];
            for f in &fr {
                for r in 0..base.len() {
                    let v = rot(base, r);
                    c.state();
                    let k = nm(f, &v, r);
                    let l = match f.lp(&v) {
                        Ok(l) => l,
                        Err(e) => {
                            c.fail(&format!("refused/{k}"), &format!("simple polygon {v:?} in plane {} refused: {e}", f.name));
                            continue;
                        }
                    };
                    let n = v.len();
                    let s = f.s;
                    let want_a = area2(&v).abs() as f64 / 2. * s * s;
                    c.close(l.area().unwrap_or(f64::NAN), want_a, 1e-9, || format!("area/{k}"));
                    let per: f64 = (0..n).map(|i| { let (a, b) = (v[i], v[(i + 1) % n]); (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt() }).sum::<f64>() * s;
                    c.close(l.perimeter().unwrap_or(f64::NAN), per, 1e-9, || format!("perimeter/{k}"));
                    let sg = (area2(&v).signum()) as f64;
                    let nn = f.normal() * sg;
                    let d = l.normal() - nn;
                    c.check(d.length() < 1e-6, || (format!("normal/{k}"), format!("normal of {v:?} in plane {}: {} expected {nn}", f.name, l.normal())));
                    c.check(l.len() == n && l.closed() && l.is_closed() && l.segments().len() == n, || (format!("vertices/{k}"), format!("{} vertices expected, found {}", n, l.len())));
                    // cyclic sequence of vertices kept
                    let ok = l.len() == n && (0..n).any(|o| (0..n).all(|j| l[(j + o) % n].distance(f.ip(v[j])) < 1e-9));
                    c.check(ok, || (format!("vertices-order/{k}"), format!("vertices of {v:?} changed: {l}")));
                    if ok {
                        let segs = l.segments();
                        c.check((0..n).all(|j| segs[j].start.distance(l[j]) < 1e-12 && segs[j].end.distance(l[(j + 1) % n]) < 1e-12 && (segs[j].length - segs[j].start.distance(segs[j].end)).abs() < 1e-12), || (format!("segments/{k}"), "segments".into()));
                        c.check((0..n).all(|j| l.contains_segment(&segs[j])), || (format!("contains_segment/{k}"), "contains_segment".into()));
                    }
                    let (sx, sy) = v.iter().fold((0, 0), |a, p| (a.0 + p.0, a.1 + p.1));
                    let cen = f.pt(sx as f64 / n as f64, sy as f64 / n as f64);
                    c.check(l.centroid().map(|p| p.distance(cen) < 1e-9) == Ok(true), || (format!("centroid/{k}"), format!("{:?} vs {cen}", l.centroid())));
                    if let Ok(b) = l.bbox() {
                        let ps: Vec<Point3D> = v.iter().map(|p| f.ip(*p)).collect();
                        let mn = |g: fn(&Point3D) -> f64| ps.iter().map(g).fold(f64::MAX, f64::min);
                        let mx = |g: fn(&Point3D) -> f64| ps.iter().map(g).fold(-f64::MAX, f64::max);
                        let e = (b.min.x - mn(|p| p.x)).abs() + (b.min.y - mn(|p| p.y)).abs() + (b.min.z - mn(|p| p.z)).abs() + (b.max.x - mx(|p| p.x)).abs() + (b.max.y - mx(|p| p.y)).abs() + (b.max.z - mx(|p| p.z)).abs();
                        c.check(e < 1e-9, || (format!("bbox/{k}"), format!("bbox {b:?} of {v:?}")));
                    } else {
                        c.fail(&format!("bbox/{k}"), "no bbox");
                    }
                    // reversed
                    let rv = l.get_reversed();
                    let dn = v3(rv.normal()).iter().zip(v3(l.normal())).map(|(a, b)| (a + b).abs()).sum::<f64>();
                    c.check(dn < 1e-12 && rv.area() == l.area() && rv.perimeter() == l.perimeter() && (0..n).all(|j| rv[j] == l[n - 1 - j]), || (format!("reverse/{k}"), "reversed loop".into()));
                    c.check(l.is_equal(&rv, 1e-6) == Ok(true) && l.is_equal(&l.clone(), 1e-6) == Ok(true), || (format!("is_equal/{k}"), "a loop must equal itself and its reverse".into()));
                    // serialisation round trip
                    if f.name == "xy" || f.name == "oblique" {
                        let js = serde_json::to_string(&l).unwrap();
                        match guarded(|| serde_json::from_str::<Loop3D>(&js)) {
                            Ok(Ok(b)) => {
                                c.check(b.is_closed() && (b.area().unwrap_or(-1.) - want_a).abs() < 1e-6 && b.len() == n && (b.normal() - l.normal()).length() < 1e-6, || (format!("serde/{k}"), format!("{js} read back as {b}")));
                            }
                            e => c.fail(&format!("serde/{k}"), &format!("{js}: {e:?}")),
                        }
                    }
                }
            }
        });
    });
    c.section("collinear-vertices", "every subset of edges of every polygon with a vertex added at its midpoint, 2 planes, every start", || {
        let small: Vec<&Vec<P>> = sh.iter().filter(|v| v.len() <= c.pick(5, 6)).collect();
        c.par_named("collinear", small.len(), |i| {
            let base = small[i];
            let n = base.len();
            for mask in 1..(1u32 << n) {
                let mut v = vec![];
                for j in 0..n {
                    v.push(base[j]);
                    if mask >> j & 1 == 1 {
                        let (a, b) = (base[j], base[(j + 1) % n]);
                        v.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
                    }
                }
                for f in [&fr[0], &fr[3]] {
                    for r in 0..v.len() {
                        c.state();
                        let w = rot(&v, r);
                        let k = nm(f, &w, r);
                        match f.lp(&w) {
                            Ok(l) => {
                                let want = area2(base).abs() as f64 / 2.;
                                c.check((l.area().unwrap() - want).abs() < 1e-9 && l.len() == n, || (format!("collinear/{k}"), format!("{w:?}: area {:?} (expected {want}), {} vertices (expected {n}): {l}", l.area(), l.len())));
                                let per: f64 = (0..n).map(|i| { let (a, b) = (base[i], base[(i + 1) % n]); (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt() }).sum::<f64>();
                                c.close(l.perimeter().unwrap(), per, 1e-9, || format!("collinear-perimeter/{k}"));
                            }
                            Err(e) => c.fail(&format!("collinear-refused/{k}"), &format!("{w:?} refused: {e}")),
                        }
                    }
                }
            }
        });
    });
    c.section("self-intersection", "every vertex sequence of 4 or 5 lattice points of the 3x3 grid with two properly crossing edges", || {
        let pts: Vec<P> = (0..3).flat_map(|x| (0..3).map(move |y| (x * 2, y * 2))).collect();
        for k in [4usize, 5] {
            c.par_named("selfx", 9usize.pow(k as u32), |id| {
                let mut x = id;
                let idx: Vec<usize> = (0..k).map(|_| { let r = x % 9; x /= 9; r }).collect();
                for a in 0..k { for b in 0..a { if idx[a] == idx[b] { return; } } }
                let v: Vec<P> = idx.iter().map(|i| pts[*i]).collect();
                // skip straight runs (their middle vertices are dropped)
                if (0..k).any(|i| cross(v[i], v[(i + 1) % k], v[(i + 2) % k]) == 0) { return; }
                let crossing = (0..k).any(|i| (i + 2..k).any(|j| !(i == 0 && j == k - 1) && seg_cross(v[i], v[(i + 1) % k], v[j], v[(j + 1) % k])));
                if !crossing { return; }
                for f in [&fr[0], &fr[2], &fr[3]] {
                    c.state();
                    c.check(f.lp(&v).is_err(), || (format!("self-intersecting/{}", nm(f, &v, 0)), format!("self-intersecting {v:?} accepted in plane {}", f.name)));
                }
            });
        }
    });
    c.section("coplanarity-and-protocol", "every polygon: a 4th point off the plane, push to closed, measures of open loops", || {
        for v in sh.iter().filter(|v| v.len() <= 4) {
            for f in &fr {
                for d in [-1.0, -0.01, 0.01, 2.0] {
                    c.state();
                    let mut l = Loop3D::new();
                    for p in &v[..3] { l.push(f.ip(*p)).unwrap(); }
                    let far = f.off(f.pt(v[2].0 as f64 + 0.3, v[2].1 as f64 + 0.7), d);
                    c.check(l.push(far).is_err() && l.len() == 3, || (format!("non-coplanar/{}/{d}", nm(f, v, 0)), format!("point {d} off the plane accepted")));
                    c.check(l.area().is_err() && l.perimeter().is_err() && l.centroid().is_err() && l.test_point(far).is_err(), || (format!("open-loop/{}", nm(f, v, 0)), "open loop has measures".into()));
                    if l.close().is_ok() {
                        c.check(l.push(f.pt(0.5, 0.5)).is_err(), || (format!("push-closed/{}", nm(f, v, 0)), "pushed a point to a closed loop".into()));
                    }
                }
                let mut two = Loop3D::new();
                two.push(f.ip(v[0])).unwrap();
                c.check(guarded(|| two.clone().close()).map(|r| r.is_err()).unwrap_or(false), || ("close-1/x".into(), "closed one point".into()));
                two.push(f.ip(v[1])).unwrap();
                c.check(guarded(|| two.clone().close()).map(|r| r.is_err()).unwrap_or(false), || ("close-2/x".into(), "closed two points".into()));
            }
        }
    });
}

/// half-lattice query points around the shape (coordinates are even numbers, queries all integers and beyond)
fn queries(v: &[P]) -> Vec<P> {
    let (mx, my) = (v.iter().map(|p| p.0).max().unwrap(), v.iter().map(|p| p.1).max().unwrap());
    (-1..=mx + 1).flat_map(|x| (-1..=my + 1).map(move |y| (x, y))).collect()
}

pub fn g02(c: &Ctx) {
    let sh = shapes(c, true);
    let fr = frames(true);
    c.section("loop-membership", &format!("{} polygons x every start vertex x {} planes x all half-lattice points", sh.len(), fr.len()), || {
        c.par_named("inside", sh.len(), |i| {
            let base = &sh[i];
            for f in &fr {
                for r in 0..base.len() {
                    let v = rot(base, r);
                    let Ok(l) = f.lp(&v) else { continue };
                    c.state();
                    for q in queries(&v) {
                        let want = locate(&v, q) >= 0;
                        let p = f.ip(q);
                        let got = l.test_point(p);
                        c.check(got == Ok(want), || (format!("inside/{}/{q:?}", nm(f, &v, r)), format!("point {q:?} of polygon {v:?} in plane {}: {got:?}, expected {want}", f.name)));
                    }
                    for d in [-1.0, 0.01] {
                        let p = f.off(f.ip((2, 2)), d);
                        c.check(l.test_point(p) == Ok(false), || (format!("off-plane/{}/{d}", nm(f, &v, r)), "a point off the plane is inside".into()));
                    }
                }
            }
        });
    });
}
