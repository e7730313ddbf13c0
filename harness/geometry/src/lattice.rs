//! Exhaustive generation of lattice polygons, exact integer oracles and embeddings in 3D planes.
use geometry::{Loop3D, Point3D, Polygon3D, Vector3D};

pub type P = (i64, i64);
pub fn cross(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn on_seg(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
/// closed segments share a point
pub fn seg_touch(a: P, b: P, c: P, d: P) -> bool {
    let (d1, d2, d3, d4) = (cross(c, d, a).signum(), cross(c, d, b).signum(), cross(a, b, c).signum(), cross(a, b, d).signum());
    if d1 * d2 < 0 && d3 * d4 < 0 {
        return true;
    }
    on_seg(c, d, a) || on_seg(c, d, b) || on_seg(a, b, c) || on_seg(a, b, d)
}
/// properly cross: interiors intersect at a single point that is interior to both
pub fn seg_cross(a: P, b: P, c: P, d: P) -> bool {
    cross(c, d, a).signum() * cross(c, d, b).signum() < 0 && cross(a, b, c).signum() * cross(a, b, d).signum() < 0
}
pub fn area2(v: &[P]) -> i64 {
    (0..v.len()).map(|i| { let (a, b) = (v[i], v[(i + 1) % v.len()]); a.0 * b.1 - a.1 * b.0 }).sum()
}
/// +1 inside, 0 on the boundary, -1 outside (exact)
pub fn locate(v: &[P], p: P) -> i8 {
    let n = v.len();
    for i in 0..n {
        if on_seg(v[i], v[(i + 1) % n], p) {
            return 0;
        }
    }
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if a.1 <= p.1 {
            if b.1 > p.1 && cross(a, b, p) > 0 {
                w += 1
            }
        } else if b.1 <= p.1 && cross(a, b, p) < 0 {
            w -= 1
        }
    }
    if w != 0 { 1 } else { -1 }
}
pub fn is_simple(v: &[P]) -> bool {
    let n = v.len();
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if a == b || cross(a, b, v[(i + 2) % n]) == 0 {
            return false;
        }
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if seg_touch(a, b, v[j], v[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}
/// All simple polygons without straight angles with vertices on the w x h lattice (scaled by `s`),
/// with k vertices; each polygon once per orientation, starting from its smallest vertex.
pub fn polygons(w: i64, h: i64, k: usize, s: i64) -> Vec<Vec<P>> {
    let pts: Vec<P> = (0..w).flat_map(|x| (0..h).map(move |y| (x * s, y * s))).collect();
    let mut out = vec![];
    fn rec(pts: &[P], cur: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<P>>) {
        if cur.len() == k {
            let v: Vec<P> = cur.iter().map(|i| pts[*i]).collect();
            if is_simple(&v) {
                out.push(v)
            }
            return;
        }
        for i in cur[0] + 1..pts.len() {
            if cur.contains(&i) {
                continue;
            }
            // prune: the new edge must not touch earlier non adjacent edges, nor be straight
            let m = cur.len();
            let (a, b) = (pts[cur[m - 1]], pts[i]);
            if m >= 2 && cross(pts[cur[m - 2]], a, b) == 0 {
                continue;
            }
            if m >= 3 && (0..m - 2).any(|j| seg_touch(a, b, pts[cur[j]], pts[cur[j + 1]])) {
                continue;
            }
            cur.push(i);
            rec(pts, cur, k, out);
            cur.pop();
        }
    }
    for f in 0..pts.len() {
        rec(&pts, &mut vec![f], k, &mut out);
    }
    out
}

/// An embedding of the lattice plane in 3D.
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub name: &'static str,
    pub o: [f64; 3],
    pub u: [f64; 3],
    pub v: [f64; 3],
    pub s: f64,
}
impl Frame {
    pub fn pt(&self, x: f64, y: f64) -> Point3D {
        let f = |i: usize| self.o[i] + self.s * (self.u[i] * x + self.v[i] * y);
        Point3D::new(f(0), f(1), f(2))
    }
    pub fn ip(&self, p: P) -> Point3D {
        self.pt(p.0 as f64, p.1 as f64)
    }
    pub fn normal(&self) -> Vector3D {
        Vector3D::new(self.u[0], self.u[1], self.u[2]).cross(Vector3D::new(self.v[0], self.v[1], self.v[2]))
    }
    pub fn off(&self, p: Point3D, d: f64) -> Point3D {
        p + self.normal() * d
    }
    pub fn lp(&self, v: &[P]) -> Result<Loop3D, String> {
        let mut l = Loop3D::new();
        for p in v {
            l.push(self.ip(*p))?;
        }
        l.close()?;
        Ok(l)
    }
    pub fn poly(&self, v: &[P]) -> Result<Polygon3D, String> {
        Polygon3D::new(self.lp(v)?)
    }
}
/// orthonormal frames: axis planes (both orders), oblique rational planes, shifted and scaled
pub fn frames(all: bool) -> Vec<Frame> {
    let t = 1. / 3.;
    let mut f = vec![
        Frame { name: "xy", o: [0., 0., 0.], u: [1., 0., 0.], v: [0., 1., 0.], s: 1. },
        Frame { name: "zx", o: [0., 0., 0.], u: [0., 0., 1.], v: [1., 0., 0.], s: 1. },
        Frame { name: "yz", o: [0., 0., 0.], u: [0., 1., 0.], v: [0., 0., 1.], s: 1. },
        Frame { name: "oblique", o: [1.5, -2., 0.25], u: [2. * t, -2. * t, t], v: [t, 2. * t, 2. * t], s: 1. },
    ];
    if all {
        f.extend([
            Frame { name: "yx-shift", o: [5., 3., -2.], u: [0., 1., 0.], v: [1., 0., 0.], s: 0.5 },
            Frame { name: "oblique-big", o: [10., 20., 3.], u: [0.6, 0.8, 0.], v: [-0.8 * 0.28, 0.6 * 0.28, 0.96], s: 3.7 },
            Frame { name: "xz-wall", o: [-4., 7., 1.], u: [1., 0., 0.], v: [0., 0., 1.], s: 2.5 },
        ]);
    }
    f
}
pub fn rot(v: &[P], k: usize) -> Vec<P> {
    let mut w = v.to_vec();
    w.rotate_left(k);
    w
}
