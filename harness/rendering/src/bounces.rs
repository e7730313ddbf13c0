//! R08: light is followed through any number of bounces, and from every source that is not hidden.
use geometry::*;
use mcc::*;
use ::rand::{rngs::SmallRng, SeedableRng};
use rendering::material::*;
use rendering::primitive::Primitive;
use rendering::{RayTracer, Scene, Spectrum};
use std::f64::consts::PI;

type V = Vector3D;
fn p3(x: f64, y: f64, z: f64) -> Point3D { Point3D::new(x, y, z) }
fn quad(s: &mut Scene, front: usize, back: usize, mut q: [Point3D; 4], flip: bool) {
    if flip { q.swap(1, 3); }
    for (a, b, c) in [(0, 1, 2), (0, 2, 3)] {
        s.push_object(front, back, Primitive::Triangle(Triangle3D::new(q[a], q[b], q[c]).unwrap()));
    }
}
/// mean and standard error of groups of paths, per channel
pub fn mean(tr: impl Fn() -> RayTracer, sc: &Scene, ray: Ray3D, groups: usize) -> ([f64; 3], [f64; 3]) {
    let mut rng = SmallRng::seed_from_u64(7);
    let all: Vec<Spectrum> = (0..groups).map(|_| tr().trace_all_rays(&mut rng, sc, ray, &mut [0usize; 32])).collect();
    stats(&all.iter().map(|s| s.0).collect::<Vec<_>>())
}
pub fn stats(all: &[[f64; 3]]) -> ([f64; 3], [f64; 3]) {
    let n = all.len() as f64;
    let m = [0, 1, 2].map(|c| all.iter().map(|s| s[c]).sum::<f64>() / n);
    (m, [0, 1, 2].map(|c| (all.iter().map(|s| (s[c] - m[c]).powi(2)).sum::<f64>() / (n - 1.) / n).sqrt()))
}
/// A sphere of radius 1 around the origin, made of many triangles facing in or out, without its cap above `top`
pub fn cavity(s: &mut Scene, m: usize, top: f64) {
    let (nr, na) = (40, 80);
    let at = |i: usize, j: usize| {
        let z = -1. + (top + 1.) * (i as f64 / nr as f64);
        // rings closer to each other at the bottom (and at the top, if it is closed)
        let z = if top >= 1. { -(PI * i as f64 / nr as f64).cos() } else { let a0 = (-top).acos(); let _ = z; -(a0 * i as f64 / nr as f64).cos() };
        let (r, a) = ((1. - z * z).max(0.).sqrt(), 2. * PI * (j % na) as f64 / na as f64);
        p3(r * a.cos(), r * a.sin(), z)
    };
    for i in 0..nr {
        for j in 0..na {
            let q = [at(i, j), at(i, j + 1), at(i + 1, j + 1), at(i + 1, j)];
            let mut ts = vec![];
            if i > 0 { ts.push((q[0], q[1], q[2])); }
            if i + 1 < nr || top < 1. { ts.push((q[0], q[2], q[3])); }
            if i == 0 { ts = vec![(q[0], q[2], q[3])]; }
            if i + 1 == nr && top >= 1. { ts = vec![(q[0], q[1], q[2])]; }
            for (k, (a, b, c)) in ts.into_iter().enumerate() {
                let (b, c) = if (i + j + k) % 2 == 0 { (b, c) } else { (c, b) };
                s.push_object(m, m, Primitive::Triangle(Triangle3D::new(a, b, c).unwrap()));
            }
        }
    }
}
pub fn matte(colour: Spectrum, plastic: bool) -> Material {
    if plastic { Material::Plastic(Plastic { colour, specularity: 0., roughness: 0. }) } else { Material::Diffuse(Diffuse { colour }) }
}

/// Two facing mirrors, and something at their far end
fn corridor(cx: &Ctx, bounces: usize, depth: usize) {
    let sky = |d: V| 2. + d.x + 0.5 * d.y - 0.3 * d.z;
    for (ci, rho) in [Spectrum::ONE, Spectrum([0.9, 0.9, 0.9]), Spectrum([1., 0.7, 0.4])].into_iter().enumerate() {
        for flip in 0..4 {
            for end in 0..6 {
                cx.state();
                let mut sc = Scene::new();
                let m = sc.push_material(Material::Mirror(Mirror(rho)));
                // the ray crosses 2 m of corridor per 1.5 m of length
                let (dx, dy) = (0.8f64, 0.6f64);
                let dz: f64 = 0.01;
                let d = V::new(dx, dy, dz).get_normalized();
                let len = 0.75 * (2 * bounces) as f64 + 0.01;
                let (lo, hi) = (-3., len);
                if bounces > 0 {
                    quad(&mut sc, m, m, [p3(2., lo, -3.), p3(2., hi, -3.), p3(2., hi, 3.), p3(2., lo, 3.)], flip & 1 != 0);
                    quad(&mut sc, m, m, [p3(0., lo, -3.), p3(0., hi, -3.), p3(0., hi, 3.), p3(0., lo, 3.)], flip & 2 != 0);
                }
                let out = V::new(if bounces % 2 == 0 { d.x } else { -d.x }, d.y, d.z);
                let y = hi + 0.5;
                let wall = [p3(-9., y, -9.), p3(9., y, -9.), p3(9., y, 9.), p3(-9., y, 9.)];
                // the normal of the wall, and which of its faces is seen
                let face = flip & 1 == 0; // (1,0,0)x(0,0,1) = (0,-1,0): the front is seen when not flipped
                let (a, b) = (Spectrum([1., 2., 3.]), Spectrum([30., 20., 10.]));
                let mut power = Spectrum::ONE;
                for _ in 0..bounces { power = power * rho; }
                let reach = bounces <= depth;
                let what = ["the sky", "a distant source", "a distant source elsewhere", "a lamp", "a matte wall in the sun", "a matte wall in the shade"][end];
                let mut want = Spectrum::BLACK;
                match end {
                    0 => { sc.sky = Some(Box::new(sky)); want = power * sky(out); }
                    1 | 2 => {
                        let l = sc.push_material(Material::Light(Light(b)));
                        let dir = if end == 1 { out } else { V::new(-out.x, out.y, out.z) };
                        sc.push_object(l, l, Primitive::Source(DistantSource3D::new(dir, f64::to_radians(2.))));
                        if end == 1 { want = power * b; }
                    }
                    3 => {
                        let (la, lb) = (sc.push_material(Material::Light(Light(a))), sc.push_material(Material::Light(Light(b))));
                        quad(&mut sc, la, lb, wall, flip & 1 != 0);
                        want = power * if face { a } else { b };
                    }
                    _ => {
                        let w = sc.push_material(Material::Diffuse(Diffuse { colour: a * 0.3 }));
                        let l = sc.push_material(Material::Light(Light(b)));
                        quad(&mut sc, w, w, wall, flip & 1 != 0);
                        let s = V::new(0., if end == 4 { -0.3 } else { 0.3 }, 0.95).get_normalized();
                        let half = f64::to_radians(1.);
                        sc.push_object(l, l, Primitive::Source(DistantSource3D::new(s, 2. * half)));
                        if end == 4 { want = power * a * 0.3 * b * (-s.y * half.sin().powi(2)); }
                        // one more bounce, off the wall, is not followed
                        if depth > bounces { continue; }
                    }
                }
                sc.build_accelerator();
                if !reach { want = Spectrum::BLACK; }
                let ray = Ray3D { origin: p3(1., 0., 0.), direction: d };
                let kd = |w: &str, x: String| (format!("corridor/{w}"), format!("{bounces} mirrors of {rho:?} (orientation {flip}), at most {depth} bounces, then {what}: {x}"));
                let tracer = |n| RayTracer { max_depth: depth, n_shadow_samples: 1, n_ambient_samples: n };
                let Some((got, err)) = cx.no_panic(|| "corridor/panic".into(), || if ci == 0 { (tracer(1).trace_ray(&mut SmallRng::seed_from_u64(3), &sc, ray, &mut [0usize; 32]).0, [0.; 3]) } else { mean(|| tracer(100), &sc, ray, 30) }) else { return };
                let tol = |c: usize| 0.01 * want.0[c] + 8. * err[c] + 1e-6;
                if !cx.check((0..3).all(|c| (got[c] - want.0[c]).abs() <= tol(c)), || kd("light", format!("carries {got:?} (standard error {err:?}), expected {want:?}"))) { return; }
            }
        }
    }
}

/// A matte round cavity lit through its opening or by a lamp in its middle: every point of a sphere sees all others alike,
/// so light adds up as a geometric series
fn sphere(cx: &Ctx, top: f64, rho: Spectrum, plastic: bool) {
    let open = top < 1.;
    let mut sc = Scene::new();
    let m = sc.push_material(matte(rho, plastic));
    cavity(&mut sc, m, top);
    let (le, r2) = (Spectrum([5., 6., 7.]), 0.01);
    if open { sc.sky = Some(Box::new(|_| 3.)); } else {
        let l = sc.push_material(Material::Light(Light(le)));
        sc.push_object(l, l, Primitive::Sphere(Sphere3D::new(f64::sqrt(r2), p3(0., 0., 0.))));
    }
    sc.build_accelerator();
    let f = (1. - top) / 2.;
    for depth in [0, 1, 2, 3, 5, 60] {
        for d in [V::new(0., 0.02, -1.), V::new(0.6, 0.1, -0.7), V::new(-0.8, 0.5, -0.3)] {
            cx.state();
            let ray = Ray3D { origin: p3(0.02, -0.15, 0.3), direction: d.get_normalized() };
            let tracer = || RayTracer { max_depth: depth, n_shadow_samples: 1, n_ambient_samples: cx.pick(100, 1000) };
            let Some((got, err)) = cx.no_panic(|| "cavity/panic".into(), || mean(tracer, &sc, ray, 40)) else { return };
            let want: [f64; 3] = [0, 1, 2].map(|c| {
                let r = rho.0[c];
                if open { (1..=depth).map(|k| 3. * f * r.powi(k as i32) * (1. - f).powi(k as i32 - 1)).sum() } else { (0..=depth).map(|k| le.0[c] * r2 * r * (r * (1. - r2)).powi(k as i32)).sum() }
            });
            let ok = (0..3).all(|c| (got[c] - want[c]).abs() <= 0.02 * want[c] + 8. * err[c] + 1e-9);
            if !cx.check(ok, || (format!("cavity/{}", if open { "open" } else { "lamp" }), format!("cavity of {rho:?} (plastic {plastic}), {} seen along {d:?} with at most {depth} bounces: {got:?} (standard error {err:?}), expected {want:?}", if open { format!("open above {top}") } else { "with a lamp inside".into() }))) { return; }
        }
    }
}

/// A matte surface under all subsets of lamps and distant sources, each of them hidden or not
fn several(cx: &Ctx, present: usize) {
    let colour = Spectrum([0.1, 0.5, 0.9]);
    let emit = [Spectrum([500., 900., 100.]), Spectrum([90., 10., 40.]), Spectrum([9000., 4000., 2000.]), Spectrum([3000., 8000., 5000.])];
    let other = Spectrum([20., 60., 80.]);
    let half = f64::to_radians(1.);
    let sph = |z: f64, a: f64| { let s = (1. - z * z).sqrt(); V::new(s * a.cos(), s * a.sin(), z) };
    for shade in 0..16usize {
        if shade & !present != 0 { continue; }
        for back in 0..6 {
            // what the lamp of triangles is made of, and which way it faces
            if present & 2 == 0 && back > 0 { continue; }
            let mut sc = Scene::new();
            let m = sc.push_material(matte(colour, false));
            let black = sc.push_material(matte(Spectrum::BLACK, false));
            let ls = emit.map(|e| sc.push_material(Material::Light(Light(e))));
            let o = sc.push_material(Material::Light(Light(other)));
            quad(&mut sc, m, m, [p3(-20., -20., 0.), p3(20., -20., 0.), p3(20., 20., 0.), p3(-20., 20., 0.)], back & 1 != 0);
            let dirs = [sph(0.8, 0.2), sph(0.9, 2.5), sph(0.6, 1.3), sph(0.3, 4.4)];
            let dist = [4., 3., 2.5, 2.5];
            let mut want = Spectrum::BLACK;
            for k in [2, 0, 3, 1] {
                if present >> k & 1 == 0 { continue; }
                let c = p3(0., 0., 0.) + dirs[k] * dist[k];
                let mut add = Spectrum::BLACK;
                match k {
                    0 => { sc.push_object(ls[0], ls[0], Primitive::Sphere(Sphere3D::new(0.05, c))); add = colour * emit[0] * (dirs[0].z * (0.05f64 / dist[0]).powi(2)); }
                    1 => {
                        let h = 0.2;
                        let (front, rear) = match back / 2 { 0 => (ls[1], ls[1]), 1 => (ls[1], o), _ => (ls[1], m) };
                        // wound so that its front is above, unless flipped
                        let q = [c + V::new(-h, -h, 0.), c + V::new(h, -h, 0.), c + V::new(h, h, 0.), c + V::new(-h, h, 0.)];
                        let flip = back & 1 != 0;
                        quad(&mut sc, front, rear, q, flip);
                        let le = if flip { Some(emit[1]) } else { match back / 2 { 0 => Some(emit[1]), 1 => Some(other), _ => None } };
                        let g = 60;
                        for i in 0..g { for j in 0..g {
                            let w = c + V::new(((2 * i + 1) as f64 / g as f64 - 1.) * h, ((2 * j + 1) as f64 / g as f64 - 1.) * h, 0.) - p3(0., 0., 0.);
                            if let Some(le) = le { add += colour * le * (w.z * w.z / w.length_squared().powi(2) * 4. * h * h / (g * g) as f64 / PI); }
                        } }
                    }
                    _ => { sc.push_object(ls[k], ls[k], Primitive::Source(DistantSource3D::new(dirs[k], 2. * half))); add = colour * emit[k] * (dirs[k].z * half.sin().powi(2)); }
                }
                if shade >> k & 1 == 0 { want += add; } else {
                    let e2 = dirs[k].get_perpendicular().unwrap();
                    let e1 = e2.cross(dirs[k]);
                    let (c, h) = (p3(0., 0., 0.) + dirs[k] * (0.5 * dist[k]), 0.3);
                    quad(&mut sc, black, black, [c - e1 * h - e2 * h, c + e1 * h - e2 * h, c + e1 * h + e2 * h, c - e1 * h + e2 * h], back & 1 != 0);
                }
            }
            sc.build_accelerator();
            for (shadow, n) in [(1, cx.pick(60, 400)), (3, cx.pick(60, 400)), (0, 1)] {
                cx.state();
                let d = V::new(0.3, 0.35, -0.85).get_normalized();
                let ray = Ray3D { origin: p3(0., 0., 0.) - d * 2., direction: d };
                let tracer = || RayTracer { max_depth: 0, n_shadow_samples: shadow, n_ambient_samples: 1 };
                let Some((got, err)) = cx.no_panic(|| "several/panic".into(), || mean(tracer, &sc, ray, 40 * n)) else { return };
                let want = if shadow == 0 { Spectrum::BLACK } else { want };
                let tol = |c: usize| 0.015 * want.0[c] + 6. * err[c] + 1e-9;
                if !cx.check((0..3).all(|c| (got[c] - want.0[c]).abs() <= tol(c)), || (format!("several/{}", back / 2), format!("a matte surface under lights {present:#06b} of which {shade:#06b} are hidden (kind of lamp {back}), {shadow} shadow rays: {got:?} (standard error {err:?}), expected {want:?}"))) { return; }
            }
        }
    }
}
pub fn sections(cx: &Ctx) {
    let n = cx.pick(8, 12);
    cx.section("corridor", &format!("0 to {n} mirrors in a row x at most 0 to {n} bounces followed x 3 reflectances x 4 orientations x 6 ends (sky, distant source, lamp, matte wall in the sun or the shade)"), || {
        cx.par_named("corridor", (n + 1) * (n + 1), |k| corridor(cx, k % (n + 1), k / (n + 1)));
    });
    let rhos = [Spectrum([0.2, 0.5, 0.8]), Spectrum::gray(0.9), Spectrum([0.95, 0.1, 0.4])];
    cx.section("cavity", "matte round cavities of 6000 triangles, open at the top (3 sizes) or with a lamp inside x 3 colours x 2 materials x at most 0, 1, 2, 3, 5, 60 bounces x 3 views, against the geometric series", || {
        cx.par_named("cavity", 24, |k| sphere(cx, [0.2, 0.6, 0.9, 1.][k % 4], rhos[k / 4 % 3], k >= 12));
    });
    cx.section("several", "all subsets of 2 lamps and 2 distant sources x all ways of hiding some of them x 6 kinds of lamp (front and back of different or no light, facing either way) x 0, 1, 3 shadow rays", || {
        cx.par_named("several", 16, |k| several(cx, k));
    });
}
pub fn r08(cx: &Ctx) {
    sections(cx);
    cx.assume("expected values of random choices are compared with the mean of fixed (seeded) sequences of draws, within 1 to 2 % and 6 to 8 standard errors");
}
