//! W02: the patches of the sky.
use geometry::Vector3D;
use mcc::*;
use std::f64::consts::PI;
use weather::ReinhartSky;

const ROW: [usize; 7] = [30, 30, 24, 24, 18, 12, 6];
pub fn dir(alt: f64, azi: f64) -> Vector3D {
    Vector3D::new(alt.cos() * azi.sin(), alt.cos() * azi.cos(), alt.sin())
}
/// (row, cell in row, altitude limits, azimuth centre, azimuth half width) of every patch but ground and cap
pub fn layout(mf: usize) -> Vec<(f64, f64, f64, f64)> {
    let h = PI / 2. / (7. * mf as f64 + 0.5);
    let mut v = vec![];
    for row in 0..7 * mf {
        let m = mf * ROW[row / mf];
        for k in 0..m {
            v.push((row as f64 * h, (row + 1) as f64 * h, 2. * PI * k as f64 / m as f64, PI / m as f64));
        }
    }
    v
}
pub fn w02(cx: &Ctx) {
    let mfs = cx.pick(6, 12);
    let sub = cx.pick(9, 15);
    cx.section("patches", &format!("subdivisions 1..={mfs}: every patch, {sub} x {sub} directions inside each patch and all their counterparts below the horizon; indices past the end"), || {
        cx.par_named("patches", mfs, |m| {
            let mf = m + 1;
            let r = ReinhartSky::new(mf);
            let lay = layout(mf);
            let kd = |w: &str, d: String| (format!("patches/{w}"), format!("subdivision {mf}: {d}"));
            let n = lay.len() + 2;
            if !cx.check(r.n_bins == n && ReinhartSky::n_bins(mf) == n && r.mf == mf, || kd("count", format!("{} patches (and {} by formula) instead of {n}", r.n_bins, ReinhartSky::n_bins(mf)))) { return; }
            let h = PI / 2. / (7. * mf as f64 + 0.5);
            let cap_alt = 7. * mf as f64 * h;
            let mut total = 0.;
            for b in 0..n {
                cx.state();
                let Some((d, w)) = cx.no_panic(|| "patches/panic".into(), || (r.bin_dir(b), r.bin_solid_angle(b))) else { return };
                let (want_d, want_w) = if b == 0 { (Vector3D::new(0., 0., -1.), 2. * PI) }
                    else if b == n - 1 { (Vector3D::new(0., 0., 1.), 2. * PI * (1. - cap_alt.sin())) }
                    else { let (lo, hi, az, half) = lay[b - 1]; (dir((lo + hi) / 2., az), 2. * half * (hi.sin() - lo.sin())) };
                if !cx.check((d - want_d).length() < 1e-6, || kd("direction", format!("patch {b} is seen towards {d} instead of {want_d}"))) { return; }
                // the cap of the implementation has half the height of a row
                if !cx.check((w - want_w).abs() < 1e-9 + 1e-6 * want_w, || kd("solid-angle", format!("patch {b} subtends {w} sr instead of {want_w}"))) { return; }
                if b > 0 { total += w; }
                let Some(back) = cx.no_panic(|| "patches/panic".into(), || r.dir_to_bin(d)) else { return };
                if !cx.check(back == b, || kd("inverse", format!("the direction of patch {b} belongs to patch {back}"))) { return; }
                // all directions of the patch
                let cells: Vec<Vector3D> = (0..sub * sub).map(|k| {
                    let (u, v) = (((k % sub) as f64 + 0.5) / sub as f64, ((k / sub) as f64 + 0.5) / sub as f64);
                    if b == 0 { dir(-PI / 2. * u, 2. * PI * v) }
                    else if b == n - 1 { dir(cap_alt + (PI / 2. - cap_alt) * u.max(1e-4), 2. * PI * v) }
                    else { let (lo, hi, az, half) = lay[b - 1]; dir(lo + (hi - lo) * u, az + half * (2. * v - 1.) * 0.9999) }
                }).collect();
                for c in cells {
                    cx.step();
                    let Some(g) = cx.no_panic(|| "patches/panic".into(), || r.dir_to_bin(c)) else { return };
                    if !cx.check(g == b, || kd("membership", format!("direction {c} lies in patch {b} but is assigned to {g}"))) { return; }
                }
            }
            cx.check((total - 2. * PI).abs() < 1e-6, || kd("total", format!("the sky patches add up to {total} sr instead of 2 pi")));
            for b in [n, n + 1, n + 5, 10 * n] {
                cx.state();
                let (a, c) = (guarded(|| r.bin_dir(b)), guarded(|| r.bin_solid_angle(b)));
                cx.check(a.is_err() && c.is_err(), || kd("past-the-end", format!("patch {b} of {n} is answered with {a:?} {c:?} instead of being refused")));
            }
        });
    });
    cx.section("edges", &format!("subdivisions 1..={mfs}: axis directions, vertical within rounding, horizon"), || {
        for mf in 1..=mfs {
            let r = ReinhartSky::new(mf);
            let eps = [0., 1e-16, 1e-9, -1e-9, -1e-16];
            for ex in eps { for ey in eps { for ez in eps {
                for base in [[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0., 0., -1.]] {
                    cx.state();
                    let v = Vector3D::new(base[0] + ex, base[1] + ey, base[2] + ez);
                    let Some(b) = cx.no_panic(|| "edges/panic".into(), || r.dir_to_bin(v)) else { return };
                    let ok = b < r.n_bins && (b == 0) == (v.z < 0.) && (base[2] < 0.5 || b == r.n_bins - 1);
                    // the patch must contain the direction up to rounding
                    let near = b == 0 || b == r.n_bins - 1 || { let l = layout(mf)[b - 1]; let az = v.x.atan2(v.y); let d = (az - l.2).rem_euclid(2. * PI); d.min(2. * PI - d) <= l.3 + 1e-6 && l.0 <= v.z.asin() + 1e-6 && v.z.asin() <= l.1 + 1e-6 };
                    if !cx.check(ok && near, || ("edges/patch".into(), format!("subdivision {mf}: direction {v:?} is assigned to patch {b}"))) { return; }
                }
            } } }
        }
    });
}
