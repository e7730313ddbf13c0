//! G08: bounding boxes as sets, and ray/box tests.
use crate::xform::*;
use geometry::*;
use mcc::*;

/// exact rational-free slab test on small dyadic numbers: parameter interval of
/// the ray inside the closed box, None if empty
fn slab(lo: V, hi: V, o: V, d: V) -> Option<(f64, f64)> {
    let (mut a, mut b) = (0f64, f64::INFINITY);
    for i in 0..3 {
        if d[i] == 0. {
            if o[i] < lo[i] || o[i] > hi[i] {
                return None;
            }
        } else {
            let (x, y) = ((lo[i] - o[i]) / d[i], (hi[i] - o[i]) / d[i]);
            a = a.max(x.min(y));
            b = b.min(x.max(y));
        }
    }
    if a <= b {
        Some((a, b))
    } else {
        None
    }
}

pub fn g08(cx: &Ctx) {
    let lat = [-1., 0., 0.5, 2.];
    let mut iv = vec![];
    for (i, a) in lat.iter().enumerate() {
        for b in &lat[i..] {
            iv.push((*a, *b));
        }
    }
    let mut boxes = vec![];
    for x in &iv {
        for y in &iv {
            for z in &iv {
                boxes.push(([x.0, y.0, z.0], [x.1, y.1, z.1]));
            }
        }
    }
    let mk = |b: &(V, V)| BBox3D::new(p3(b.0), p3(b.1));
    cx.section("algebra", "all pairs of the 1000 boxes (flat ones included) with corners on a 4-point lattice, all corner orders, 64 lattice points", || {
        let mut pts = vec![];
        for x in lat {
            for y in lat {
                for z in lat {
                    pts.push([x, y, z]);
                }
            }
        }
        cx.par_named("algebra", boxes.len(), |i| {
            let (lo, hi) = boxes[i];
            let b = mk(&boxes[i]);
            let key = |w: &str| (format!("algebra/{lo:?}{hi:?}/{w}"), format!("box {lo:?} - {hi:?}: {w}"));
            for m in 0..8 {
                let p = |k: usize| if m >> k & 1 == 1 { (hi[k], lo[k]) } else { (lo[k], hi[k]) };
                let r = BBox3D::new(p3([p(0).0, p(1).0, p(2).0]), p3([p(0).1, p(1).1, p(2).1]));
                cx.check(pv(r.min) == lo && pv(r.max) == hi, || key("corner order changes the box"));
            }
            let e: V = [hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2]];
            cx.check((b.surface_area() - 2. * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2])).abs() < 1e-12, || key("surface_area"));
            let k = b.max_extent() as usize;
            cx.check((0..3).all(|j| e[j] <= e[k]), || key("max_extent is not the longest axis"));
            for p in &pts {
                cx.state();
                let ins = (0..3).all(|k| lo[k] <= p[k] && p[k] <= hi[k]);
                let exc = (0..3).all(|k| lo[k] <= p[k] && p[k] < hi[k]);
                cx.check(b.point_inside(p3(*p)) == ins, || key("point_inside"));
                cx.check(b.point_inside_exclusive(p3(*p)) == exc, || key("point_inside_exclusive"));
                let u = BBox3D::from_union_point(&b, p3(*p));
                cx.check((0..3).all(|k| pv(u.min)[k] == lo[k].min(p[k]) && pv(u.max)[k] == hi[k].max(p[k])), || key("from_union_point is not the smallest box"));
            }
            for (lo2, hi2) in &boxes {
                cx.state();
                let c = BBox3D::new(p3(*lo2), p3(*hi2));
                let meet = (0..3).all(|k| lo[k].max(lo2[k]) <= hi[k].min(hi2[k]));
                let key = |w: &str| (format!("algebra/{lo:?}{hi:?}/{lo2:?}{hi2:?}/{w}"), format!("boxes {lo:?}-{hi:?} and {lo2:?}-{hi2:?}: {w}"));
                cx.check(b.overlaps(&c) == meet, || key("overlaps"));
                let u = BBox3D::from_union(&b, &c);
                cx.check((0..3).all(|k| pv(u.min)[k] == lo[k].min(lo2[k]) && pv(u.max)[k] == hi[k].max(hi2[k])), || key("from_union is not the smallest box"));
                if meet {
                    let x = BBox3D::from_intersection(&b, &c);
                    cx.check((0..3).all(|k| pv(x.min)[k] == lo[k].max(lo2[k]) && pv(x.max)[k] == hi[k].min(hi2[k])), || key("from_intersection"));
                }
            }
        });
    });
    let mut dirs: Vec<V> = vec![];
    let comp: &[f64] = cx.pick(&[-1., -0.0, 0., 1.], &[-2., -1., -0.25, -0.0, 0., 0.5, 1.]);
    for x in comp {
        for y in comp {
            for z in comp {
                if *x != 0. || *y != 0. || *z != 0. {
                    dirs.push([*x, *y, *z]);
                }
            }
        }
    }
    for v in [[0.3, 0.5, -1.], [-2., 0.25, 0.125], [1e-3, 1., -1.], [0.5, -0.75, 4.]] {
        dirs.push(v);
    }
    let ol = [-2., -1., -0.25, 0., 0.25, 0.5, 1., 2., 3.];
    cx.section("rays", &format!("1000 boxes x 729 origins (on, inside, outside the slabs) x {} directions (signed zeros included)", dirs.len()), || {
        cx.par_named("rays", boxes.len(), |i| {
            let (lo, hi) = boxes[i];
            let b = mk(&boxes[i]);
            let mut n = 0;
            for ox in ol {
                for oy in ol {
                    for oz in ol {
                        let o = [ox, oy, oz];
                        for d in &dirs {
                            n += 1;
                            let ray = Ray3D { origin: p3(o), direction: v3(*d) };
                            let inv = Vector3D::new(1. / d[0], 1. / d[1], 1. / d[2]);
                            let got = b.intersect(ray, &inv);
                            // strictly through: positive time in every thick slab's interior
                            let grown: (V, V) = ([lo[0] - 1e-6, lo[1] - 1e-6, lo[2] - 1e-6], [hi[0] + 1e-6, hi[1] + 1e-6, hi[2] + 1e-6]);
                            let thin = |k: usize| lo[k] == hi[k];
                            // a ray running inside the plane of a flat box is not a crossing
                            let inplane = (0..3).any(|k| thin(k) && d[k] == 0.);
                            let shrunk: (V, V) = (
                                [0, 1, 2].map(|k| if thin(k) { lo[k] } else { lo[k] + 1e-6 }),
                                [0, 1, 2].map(|k| if thin(k) { hi[k] } else { hi[k] - 1e-6 }),
                            );
                            let must = !inplane && (0..3).filter(|k| thin(*k)).count() <= 1 && slab(shrunk.0, shrunk.1, o, *d).is_some_and(|(_, b)| b > 1e-6);
                            let may = slab(grown.0, grown.1, o, *d).is_some();
                            let key = |w: &str| (format!("rays/{lo:?}{hi:?}/{o:?}/{d:?}"), format!("box {lo:?}-{hi:?}, ray from {o:?} along {d:?}: {w}"));
                            if must && !got {
                                cx.fail(&key("").0, &key("passes through the box but intersect() is false").1);
                            }
                            if !may && got {
                                cx.fail(&key("").0, &key("stays away from the box but intersect() is true").1);
                            }
                        }
                    }
                }
            }
            cx.add_states(n);
            cx.add_steps(n);
        });
    });
}
