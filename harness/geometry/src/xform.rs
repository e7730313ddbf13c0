//! G06: transforms. All words over the generators are composed with the real
//! `*=` and compared with the composition of elementary maps (no matrices).
use geometry::*;
use mcc::*;

pub type V = [f64; 3];
#[derive(Clone, Copy, Debug)]
pub enum Gen {
    T(f64, f64, f64),
    S(f64, f64, f64),
    R(usize, f64),
}
impl Gen {
    pub fn real(&self) -> Transform {
        match *self {
            Gen::T(x, y, z) => Transform::translate(x, y, z),
            Gen::S(x, y, z) => Transform::scale(x, y, z),
            Gen::R(0, a) => Transform::rotate_x(a),
            Gen::R(1, a) => Transform::rotate_y(a),
            Gen::R(_, a) => Transform::rotate_z(a),
        }
    }
    pub fn vec(&self, v: V) -> V {
        match *self {
            Gen::T(..) => v,
            Gen::S(x, y, z) => [v[0] * x, v[1] * y, v[2] * z],
            Gen::R(ax, a) => {
                let (s, c) = (a * std::f64::consts::PI / 180.).sin_cos();
                let (i, j) = ((ax + 1) % 3, (ax + 2) % 3);
                let mut w = v;
                w[i] = c * v[i] - s * v[j];
                w[j] = s * v[i] + c * v[j];
                w
            }
        }
    }
    pub fn pt(&self, v: V) -> V {
        match *self {
            Gen::T(x, y, z) => [v[0] + x, v[1] + y, v[2] + z],
            _ => self.vec(v),
        }
    }
    pub fn inv(&self) -> Gen {
        match *self {
            Gen::T(x, y, z) => Gen::T(-x, -y, -z),
            Gen::S(x, y, z) => Gen::S(1. / x, 1. / y, 1. / z),
            Gen::R(ax, a) => Gen::R(ax, -a),
        }
    }
    fn flips(&self) -> bool {
        matches!(*self, Gen::S(x, y, z) if x * y * z < 0.)
    }
}
/// `word[0] * word[1] * ...`: the last generator acts first
pub fn fwd(w: &[Gen], p: V) -> V {
    w.iter().rev().fold(p, |p, g| g.pt(p))
}
pub fn fwd_vec(w: &[Gen], p: V) -> V {
    w.iter().rev().fold(p, |p, g| g.vec(p))
}
pub fn bwd(w: &[Gen], p: V) -> V {
    w.iter().fold(p, |p, g| g.inv().pt(p))
}
pub fn bwd_vec(w: &[Gen], p: V) -> V {
    w.iter().fold(p, |p, g| g.inv().vec(p))
}
pub fn build(w: &[Gen]) -> Transform {
    let mut t = Transform::new();
    for g in w {
        t *= g.real();
    }
    t
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen::T(1., -2., 3.),
        Gen::T(0., 0.5, 0.),
        Gen::S(2., 3., 0.5),
        Gen::S(-1., 1., 1.),
        Gen::S(1., -2., -1.5),
        Gen::S(-1., -1., -1.),
        Gen::R(0, 30.),
        Gen::R(0, 90.),
        Gen::R(1, -45.),
        Gen::R(1, 135.),
        Gen::R(2, 90.),
        Gen::R(2, 210.),
    ]
}
pub fn p3(v: V) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}
pub fn v3(v: V) -> Vector3D {
    Vector3D::new(v[0], v[1], v[2])
}
pub fn pv(p: Point3D) -> V {
    [p.x, p.y, p.z]
}
pub fn vv(p: Vector3D) -> V {
    [p.x, p.y, p.z]
}
pub fn near(a: V, b: V, tol: f64) -> bool {
    let s = 1. + b.iter().fold(0f64, |m, x| m.max(x.abs()));
    (0..3).all(|i| (a[i] - b[i]).abs() <= tol * s)
}
pub fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

pub fn g06(cx: &Ctx) {
    let g = gens();
    let depth = cx.pick(4, 5);
    let words: Vec<Vec<usize>> = {
        let mut all: Vec<Vec<usize>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..depth {
            let mut next = vec![];
            for w in &last {
                for k in 0..g.len() {
                    let mut w = w.clone();
                    w.push(k);
                    next.push(w);
                }
            }
            all.extend(next.iter().cloned());
            last = next;
        }
        all
    };
    let lat = [-1., 0.25, 2.];
    let mut pts: Vec<V> = vec![];
    for x in lat {
        for y in lat {
            for z in lat {
                pts.push([x, y, z]);
            }
        }
    }
    let chunk = 64;
    cx.section("words", &format!("all {} words of length <= {depth} over 12 generators (translations, rotations, scalings incl. mirroring) x 27 points/vectors", words.len()), || {
        cx.par_named("words", words.len().div_ceil(chunk), |c| {
            for wi in &words[c * chunk..words.len().min((c + 1) * chunk)] {
                cx.state();
                let w: Vec<Gen> = wi.iter().map(|i| g[*i]).collect();
                let t = build(&w);
                let k = || format!("words/{wi:?}");
                let kd = |what: &str| (format!("words/{wi:?}/{what}"), format!("transform composed of {w:?}: {what}"));
                cx.check(t.changes_hands() == (w.iter().filter(|g| g.flips()).count() % 2 == 1), || kd("changes_hands"));
                for (i, p) in pts.iter().enumerate() {
                    cx.step();
                    let (fp, bp) = (fwd(&w, *p), bwd(&w, *p));
                    let (fv, bv) = (fwd_vec(&w, *p), bwd_vec(&w, *p));
                    cx.check(near(pv(t.transform_pt(p3(*p))), fp, 1e-9), || kd("transform_pt is not the composition"));
                    cx.check(near(pv(t.inv_transform_pt(p3(*p))), bp, 1e-9), || kd("inv_transform_pt is not the inverse of the composition"));
                    cx.check(near(vv(t.transform_vec(v3(*p))), fv, 1e-9), || kd("transform_vec"));
                    cx.check(near(vv(t.inv_transform_vec(v3(*p))), bv, 1e-9), || kd("inv_transform_vec"));
                    // normals: the pairing with vectors is preserved
                    let n = pts[(i * 7 + 5) % pts.len()];
                    let (tn, itn) = (vv(t.transform_normal(v3(n))), vv(t.inv_transform_normal(v3(n))));
                    let sc = 1. + dot(n, n).sqrt() * dot(*p, *p).sqrt();
                    cx.check((dot(tn, fv) - dot(n, *p)).abs() < 1e-8 * sc, || kd("transform_normal does not preserve the pairing with vectors"));
                    cx.check((dot(itn, bv) - dot(n, *p)).abs() < 1e-8 * sc, || kd("inv_transform_normal does not preserve the pairing with vectors"));
                    // error-carrying versions
                    for (name, got, err, want) in [
                        ("transform_pt_with_error", pv(t.transform_pt_with_error(p3(*p)).0), pv(t.transform_pt_with_error(p3(*p)).1), fp),
                        ("inv_transform_pt_with_error", pv(t.inv_transform_pt_with_error(p3(*p)).0), pv(t.inv_transform_pt_with_error(p3(*p)).1), bp),
                        ("transform_vec_with_error", vv(t.transform_vec_with_error(v3(*p)).0), pv(t.transform_vec_with_error(v3(*p)).1), fv),
                        ("inv_transform_vec_with_error", vv(t.inv_transform_vec_with_error(v3(*p)).0), pv(t.inv_transform_vec_with_error(v3(*p)).1), bv),
                    ] {
                        cx.check(near(got, want, 1e-9), || kd(name));
                        cx.check(err.iter().all(|e| *e >= 0. && *e < 1e-8), || kd(&format!("{name}: error bound {err:?} is negative or not of rounding size")));
                    }
                    // propagated errors: contain the image of any perturbed input
                    let e = 1e-3;
                    let ep = [p[0] + e, p[1] - e, p[2] + e];
                    let (q, qe) = t.transform_pt_propagate_error(p3(*p), p3([e; 3]));
                    let img = fwd(&w, ep);
                    cx.check((0..3).all(|i| (img[i] - pv(q)[i]).abs() <= pv(qe)[i] + 1e-9), || kd("transform_pt_propagate_error does not bound a perturbed point"));
                    let (q, qe) = t.inv_transform_pt_propagate_error(p3(*p), p3([e; 3]));
                    let img = bwd(&w, ep);
                    cx.check((0..3).all(|i| (img[i] - pv(q)[i]).abs() <= pv(qe)[i] + 1e-9), || kd("inv_transform_pt_propagate_error does not bound a perturbed point"));
                    // rays
                    let d = n;
                    if dot(d, d) > 0. {
                        let ray = Ray3D { origin: p3(*p), direction: v3(d) };
                        let z = p3([0.; 3]);
                        for (name, r, inv) in [
                            ("transform_ray", t.transform_ray(&ray).0, false),
                            ("inv_transform_ray", t.inv_transform_ray(&ray).0, true),
                            ("transform_ray_propagate_error", t.transform_ray_propagate_error(&ray, z, z).0, false),
                            ("inv_transform_ray_propagate_error", t.inv_transform_ray_propagate_error(&ray, z, z).0, true),
                        ] {
                            for s in [0., 1., 4.] {
                                let x = [p[0] + s * d[0], p[1] + s * d[1], p[2] + s * d[2]];
                                let want = if inv { bwd(&w, x) } else { fwd(&w, x) };
                                cx.check(near(pv(r.project(s)), want, 1e-8), || kd(&format!("{name}: the ray's point at a given time is not carried over")));
                            }
                        }
                    }
                }
                // boxes
                for (a, b) in [([-1., 0.25, -1.], [2., 2., 0.25]), ([0., 0., 0.], [1., 1., 0.]), ([-3., 1., 2.], [-1., 4., 5.])] {
                    let bb = BBox3D::new(p3(a), p3(b));
                    for inv in [false, true] {
                        cx.step();
                        let r = if inv { t.inv_transform_bbox(bb) } else { t.transform_bbox(bb) };
                        let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
                        for m in 0..8 {
                            let c = [if m & 1 > 0 { a[0] } else { b[0] }, if m & 2 > 0 { a[1] } else { b[1] }, if m & 4 > 0 { a[2] } else { b[2] }];
                            let q = if inv { bwd(&w, c) } else { fwd(&w, c) };
                            for i in 0..3 {
                                lo[i] = lo[i].min(q[i]);
                                hi[i] = hi[i].max(q[i]);
                            }
                        }
                        cx.check(near(pv(r.min), lo, 1e-9) && near(pv(r.max), hi, 1e-9), || kd(if inv { "inv_transform_bbox is not the box of the transformed corners" } else { "transform_bbox is not the box of the transformed corners" }));
                    }
                }
                cx.trace();
                let _ = k;
            }
        });
    });
}
