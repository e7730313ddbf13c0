//! W04: the Perez sky. W05: radiation from cloud cover.
use crate::sky::dir;
use crate::sun::date;
use geometry::Vector3D;
use matrix::Matrix;
use mcc::*;
use std::f64::consts::PI;
use weather::{CurrentWeather, Location, PerezSky, ReinhartSky, SkyUnits, Solar, Time, Weather};

fn col(m: &Matrix) -> Vec<f64> {
    (0..m.size().0).map(|k| m.get(k, 0).unwrap()).collect()
}
const LATS: [f64; 5] = [-33.38, 0., 23.44, 52., 66.];
/// instants with very different sun heights: (latitude, day, hour)
fn instants(cx: &Ctx) -> Vec<(f64, usize, f64)> {
    let mut v = vec![];
    let hs = cx.pick(1., 0.5);
    for &l in &LATS {
        for d in [0, 80, 171, 172, 300, 355] {
            if !cx.thorough() && d == 300 { continue; }
            let mut h = 0.;
            while h < 24. { v.push((l, d, h)); h += hs; }
        }
    }
    v
}
const DIF: [f64; 8] = [0., 0.5, 7., 60., 150., 300., 480., 700.];
const DNI: [f64; 8] = [0., 0.5, 15., 90., 300., 650., 900., 1050.];

/// Perez, Seals and Michalsky (1993), table 1
const PEREZ: [[f64; 20]; 8] = [
    [1.3525, -0.2576, -0.2690, -1.4366, -0.7670, 0.0007, 1.2734, -0.1233, 2.8000, 0.6004, 1.2375, 1.0000, 1.8734, 0.6297, 0.9738, 0.2809, 0.0356, -0.1246, -0.5718, 0.9938],
    [-1.2219, -0.7730, 1.4148, 1.1016, -0.2054, 0.0367, -3.9128, 0.9156, 6.9750, 0.1774, 6.4477, -0.1239, -1.5798, -0.5081, -1.7812, 0.1080, 0.2624, 0.0672, -0.2190, -0.4285],
    [-1.1000, -0.2515, 0.8952, 0.0156, 0.2782, -0.1812, -4.5000, 1.1766, 24.7219, -13.0812, -37.7000, 34.8438, -5.0000, 1.5218, 3.9229, -2.6204, -0.0156, 0.1597, 0.4199, -0.5562],
    [-0.5484, -0.6654, -0.2672, 0.7117, 0.7234, -0.6219, -5.6812, 2.6297, 33.3389, -18.3000, -62.2500, 52.0781, -3.5000, 0.0016, 1.1477, 0.1062, 0.4659, -0.3296, -0.0876, -0.0329],
    [-0.6000, -0.3566, -2.5000, 2.3250, 0.2937, 0.0496, -5.6812, 1.8415, 21.0000, -4.7656, -21.5906, 7.2492, -3.5000, -0.1554, 1.4062, 0.3988, 0.0032, 0.0766, -0.0656, -0.1294],
    [-1.0156, -0.3670, 1.0078, 1.4051, 0.2875, -0.5328, -3.8500, 3.3750, 14.0000, -0.9999, -7.1406, 7.5469, -3.4000, -0.1078, -1.0750, 1.5702, -0.0672, 0.4016, 0.3017, -0.4844],
    [-1.0000, 0.0211, 0.5025, -0.5119, -0.3000, 0.1922, 0.7023, -1.6317, 19.0000, -5.0000, 1.2438, -1.9094, -4.0000, 0.0250, 0.3844, 0.2656, 1.0468, -0.3788, -2.4517, 1.4656],
    [-1.0500, 0.0289, 0.4260, 0.3590, -0.3250, 0.1156, 0.7781, 0.0025, 31.0625, -14.5000, -46.1148, 55.3750, -7.2312, 0.4050, 13.3500, 0.6234, 1.5000, -0.6426, 1.8564, 0.5636],
];
/// Perez et al. (1990), table 4: luminous efficacy of the diffuse and of the direct radiation
const EFF_DIF: [[f64; 4]; 8] = [[97.24, -0.46, 12.00, -8.91], [107.22, 1.15, 0.59, -3.95], [104.97, 2.96, -5.53, -8.77], [102.39, 5.59, -13.95, -13.90], [100.71, 5.94, -22.75, -23.74], [106.42, 3.83, -36.15, -28.83], [141.88, 1.90, -53.24, -14.03], [152.23, 0.35, -45.27, -7.98]];
const EFF_DIR: [[f64; 4]; 8] = [[57.20, -4.55, -2.98, 117.12], [98.99, -3.46, -1.21, 12.38], [109.83, -4.90, -1.71, -8.81], [110.34, -5.84, -1.99, -4.56], [106.36, -3.97, -1.75, -6.16], [107.19, -1.25, -1.51, -26.73], [105.75, 0.77, -1.26, -34.44], [101.18, 1.58, -1.10, -8.29]];
const LIMITS: [f64; 7] = [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2];
/// the all-weather sky of Perez for a sun at zenith angle `z`: the five parameters and the two efficacies, or nothing where rounding decides the category
fn all_weather(z: f64, i0: f64, dif: f64, dni: f64, dew: f64) -> Option<([f64; 5], f64, f64)> {
    let cz = z.cos();
    let z = z.clamp(3f64.to_radians(), PI / 2.);
    let z3 = 1.041 * z.powi(3);
    let eps = (((dif + dni) / dif + z3) / (1. + z3)).min(11.9);
    let mass = 1. / (z.cos() + 0.15 * (93.885 - z.to_degrees()).powf(-1.253));
    let bright = (dif * mass / i0).max(0.01);
    if LIMITS.iter().any(|l| (eps - l).abs() < 1e-9) { return None }
    let k = LIMITS.iter().filter(|l| eps > **l).count();
    let water = (0.07 * dew - 0.075).exp();
    let e = EFF_DIF[k];
    let edif = e[0] + e[1] * water + e[2] * cz + e[3] * bright.ln();
    let e = EFF_DIR[k];
    let edir = (e[0] + e[1] * water + e[2] * (5.73 * z - 5.).exp() + e[3] * bright).max(0.);
    let d = if eps > 1.065 && eps < 2.8 { bright.max(0.2) } else { bright };
    let t = &PEREZ[k];
    let x = |i: usize| t[4 * i] + t[4 * i + 1] * z + d * (t[4 * i + 2] + t[4 * i + 3] * z);
    let mut p = [x(0), x(1), x(2), x(3), x(4)];
    if k == 0 {
        p[2] = (d * (t[8] + t[9] * z)).powf(t[10]).exp() - t[11];
        p[3] = -(d * (t[12] + t[13] * z)).exp() + t[14] + d * t[15];
    }
    Some((p, edif, edir))
}
fn distribution(cx: &Ctx, ins: &[(f64, usize, f64)]) {
    cx.section("distribution", &format!("{} instants x 64 pairs of radiation x 2 dew points x both units: every patch, and directions between them, against an own all-weather sky of Perez", ins.len()), || {
        let r = ReinhartSky::new(1);
        let dirs: Vec<Vector3D> = (0..r.n_bins).map(|b| r.bin_dir(b)).collect();
        let om: Vec<f64> = (0..r.n_bins).map(|b| r.bin_solid_angle(b)).collect();
        cx.par_named("distribution", ins.len(), |k| {
            let (latd, d, h) = ins[k];
            let s = Solar::new(f64::to_radians(latd), 0., 0.);
            let dt = date(d, h);
            let Some(sun) = s.sun_position_from_standard_time(dt) else { return };
            let az = sun.x.atan2(sun.y);
            let z = sun.z.clamp(-1., 1.).acos();
            // (judged by the section on brightness)
            let i0 = s.normal_extraterrestrial_radiation(s.unwrap_solar_time(Time::Standard(dt.day_of_year())));
            for dif in DIF { for dni in DNI { for dew in [-5., 18.] {
                if dif < 0.1 { continue }
                let Some((p, edif, edir)) = all_weather(z, i0, dif, dni, dew) else { continue };
                let f = |v: Vector3D| {
                    let c = (sun * v).clamp(-1., 1.);
                    let x = (1. + p[0] * (p[1] / v.z.max(0.01)).exp()) * (1. + p[2] * (p[3] * c.acos()).exp() + p[4] * c * c);
                    if x.is_finite() { x.max(0.) } else { 0. }
                };
                let norm: f64 = (1..r.n_bins).map(|b| f(dirs[b]) * om[b] * dirs[b].z).sum();
                if !norm.is_finite() || norm < 1e-3 { continue }
                let top = dirs[1..].iter().map(|v| f(*v)).fold(0., f64::max) / norm;
                for unit in [SkyUnits::Solar, SkyUnits::Visible] {
                    cx.state();
                    let solar = matches!(unit, SkyUnits::Solar);
                    let total = if solar { dif } else { dif * edif / 179. };
                    let kd = |w: &str, x: String| (format!("distribution/{w}"), format!("latitude {latd} day {d} hour {h} (sun {sun}), diffuse {dif} direct {dni} dew point {dew}, solar units {solar}: {x}"));
                    let Some(g) = cx.no_panic(|| "distribution/panic".into(), || PerezSky::get_sky_func_standard_time(unit, &s, dt, dew, dif, dni)) else { return };
                    let between = (0..6).flat_map(|i| (0..8).map(move |j| dir((i as f64 + 0.4) / 6. * PI / 2., az + (j as f64 + 0.3) / 8. * PI * 2.)));
                    for v in dirs[1..].iter().cloned().chain(between) {
                        let want = total * f(v) / norm;
                        let got = g(v);
                        if !cx.check((got - want).abs() <= 1e-6 * (want.abs() + top * total.abs()), || kd("function", format!("towards {v} there is {got}, Perez gives {want}"))) { return }
                    }
                    let cw = CurrentWeather { date: dt, dew_point_temperature: dew, diffuse_horizontal_radiation: dif, direct_normal_radiation: dni, ..CurrentWeather::default() };
                    let Some(Ok(v)) = cx.no_panic(|| "distribution/panic".into(), || PerezSky::gen_sky_vec(1, &s, dt, cw, unit, 0.3, false, true)) else { return };
                    let v = col(&v);
                    let direct: f64 = (1..v.len()).map(|b| v[b] * om[b]).sum();
                    let want = if dni < 1e-4 { 0. } else if solar { dni } else { dni * edir / 179. };
                    if !cx.check((direct - want).abs() <= 1e-6 * want, || kd("sun", format!("facing the sun there is {direct}, Perez gives {want}"))) { return }
                    let ground = 0.3 / PI * if solar { dif + dni * sun.z.max(0.) } else { (dif * edif + dni * edir * sun.z.max(0.)) / 179. };
                    if !cx.check((v[0] - ground).abs() <= 1e-6 * (dif + dni), || kd("ground", format!("the ground reflects {}, should {ground}", v[0]))) { return }
                }
            } } }
        });
    });
}

pub fn w04(cx: &Ctx) {
    let ins = instants(cx);
    let mfs: &[usize] = if cx.thorough() { &[1, 2, 3, 4] } else { &[1, 2] };
    cx.section("vector", &format!("subdivisions {mfs:?} x {} instants x 64 pairs of diffuse and direct radiation x 2 dew points x both units x ground on/off; vectors reused after every kind of content", ins.len()), || {
        cx.par_named("vector", ins.len(), |k| {
            let (latd, d, h) = ins[k];
            let s = Solar::new(f64::to_radians(latd), 0., 0.);
            let dt = date(d, h);
            let sun = s.sun_position_from_standard_time(dt);
            for &mf in mfs {
                let r = ReinhartSky::new(mf);
                let n = r.n_bins;
                let dirs: Vec<Vector3D> = (0..n).map(|b| r.bin_dir(b)).collect();
                let om: Vec<f64> = (0..n).map(|b| r.bin_solid_angle(b)).collect();
                for dif in DIF { for dni in DNI { for dew in [-5., 18.] {
                    if !cx.thorough() && (mf > 1 || dew < 0.) && (dif * 7. + dni) as usize % 3 != 0 { continue; }
                    let cw = CurrentWeather { date: dt, dew_point_temperature: dew, dry_bulb_temperature: 20., diffuse_horizontal_radiation: dif, direct_normal_radiation: dni, ..CurrentWeather::default() };
                    let mut per_unit = vec![];
                    for unit in [SkyUnits::Solar, SkyUnits::Visible] {
                        let solar = matches!(unit, SkyUnits::Solar);
                        let gen = |albedo: f64, sky: bool, sn: bool| cx.no_panic(|| "vector/panic".into(), || PerezSky::gen_sky_vec(mf, &s, dt, cw, unit, albedo, sky, sn));
                        let what = || format!("subdivision {mf}, latitude {latd} day {d} hour {h} (sun {sun:?}), diffuse {dif} direct {dni} dew point {dew}, solar units {solar}");
                        let kd = |w: &str, s: String| (format!("vector/{w}"), format!("{}: {s}", what()));
                        cx.state();
                        let (Some(Ok(sky)), Some(Ok(sn)), Some(Ok(both)), Some(Ok(none))) = (gen(0., true, false), gen(0., false, true), gen(0.2, true, true), gen(0.2, false, false)) else { cx.check(false, || kd("refused", String::new())); return };
                        let (sky, sn, both, none) = (col(&sky), col(&sn), col(&both), col(&none));
                        let lit = sun.is_some() && dif + dni >= 1e-4;
                        for v in [&sky, &sn, &both, &none] {
                            let bad = v.iter().position(|x| !(x.is_finite() && *x >= 0.));
                            if !cx.check(v.len() == n && bad.is_none(), || kd("negative", format!("patch {} (towards {}) has {}", bad.unwrap_or(0), dirs[bad.unwrap_or(0)], v[bad.unwrap_or(0)]))) { return; }
                            if !cx.check(lit || v.iter().all(|x| *x == 0.), || kd("night", "a sky without sun is not dark".into())) { return; }
                        }
                        if !lit { continue; }
                        let z = sun.unwrap().z;
                        let scale = dif + dni;
                        let add = (0..n).find(|&b| (both[b] - sky[b] - sn[b] - none[b]).abs() > 1e-6 * (scale + both[b]));
                        if !cx.check(add.is_none(), || kd("additive", format!("patch {:?}: sky and sun together are not their sum", add))) { return; }
                        if !cx.check(none[1..].iter().all(|x| *x == 0.) && sky[0] == 0. && sn[0] == 0., || kd("ground", "light in the wrong hemisphere".into())) { return; }
                        let horizontal: f64 = (1..n).map(|b| sky[b] * om[b] * dirs[b].z).sum();
                        let normal: f64 = (1..n).map(|b| sn[b] * om[b]).sum();
                        if solar {
                            let g = 0.2 * (dif + dni * z) / PI;
                            if !cx.check((none[0] - g).abs() < 1e-6 * scale, || kd("ground", format!("ground radiance {} instead of {g}", none[0]))) { return; }
                            let tol = if mf == 1 { 1e-6 } else if dif >= 50. && dif < 0.7 * 1367. * z && z > 0.15 { 0.2 } else { 1e30 };
                            if !cx.check((horizontal - dif).abs() <= tol * dif + 1e-9, || kd("diffuse", format!("the sky gives {horizontal} on a horizontal plane"))) { return; }
                            let want = if dni > 1e-4 { dni } else { 0. };
                            if !cx.check((normal - want).abs() <= 1e-6 * want, || kd("direct", format!("the sun patches give {normal} facing the sun"))) { return; }
                        }
                        // the sun sits in the patches around it
                        let far = (1..n).find(|&b| sn[b] > 0. && dirs[b] * sun.unwrap() < f64::cos(0.55 / mf as f64));
                        let count = sn.iter().filter(|x| **x > 0.).count();
                        let home = r.dir_to_bin(sun.unwrap());
                        let peak = (1..n).max_by(|a, b| (sn[*a] * om[*a]).total_cmp(&(sn[*b] * om[*b]))).unwrap();
                        // and is shared among the four nearest by their closeness, as in gendaymtx
                        let mut order: Vec<usize> = (0..n).collect();
                        order.sort_by(|a, b| (dirs[*b] * sun.unwrap()).total_cmp(&(dirs[*a] * sun.unwrap())));
                        let w: Vec<f64> = order[..4].iter().map(|b| 1. / (1.002 - dirs[*b] * sun.unwrap())).collect();
                        let tie = (dirs[order[3]] - dirs[order[4]]) * sun.unwrap() < 1e-9;
                        let shared = (0..4).find(|i| (sn[order[*i]] * om[order[*i]] - normal * w[*i] / w.iter().sum::<f64>()).abs() > 1e-6 * normal);
                        if !cx.check(tie || shared.is_none(), || kd("sun-share", format!("patch {} at cosine {} of the sun has {} of {normal}", order[shared.unwrap()], dirs[order[shared.unwrap()]] * sun.unwrap(), sn[order[shared.unwrap()]] * om[order[shared.unwrap()]]))) { return; }
                        let near = dirs.iter().map(|x| *x * sun.unwrap()).fold(-1., f64::max) - 1e-9;
                        if !cx.check(dni <= 1e-4 || solar && count == 4 && far.is_none() && sn[home] > 0. && dirs[peak] * sun.unwrap() >= near || !solar && count <= 4, || kd("sun-place", format!("{count} patches lit by the sun, far one {far:?}, its own patch {home} has {}, the brightest is {peak}", sn[home]))) { return; }
                        // reusing a vector gives the same as a new one
                        for old in [0., 123., -4.] {
                            let mut m = Matrix::new(old, n, 1);
                            let Some(u) = cx.no_panic(|| "vector/panic".into(), || PerezSky::update_sky_vec(&mut m, mf, &s, dt, cw, unit, 0.2, true, true)) else { return };
                            if !cx.check(u.is_ok() && col(&m) == both, || kd("reuse", format!("updating a vector that held {old} everywhere gives something else than a new vector (first patches {:?} instead of {:?})", &col(&m)[..3], &both[..3]))) { return; }
                        }
                        per_unit.push((sky, sn));
                    }
                    // visible and solar skies have the same shape
                    if per_unit.len() == 2 {
                        let b0 = (1..n).max_by(|a, b| per_unit[0].0[*a].total_cmp(&per_unit[0].0[*b])).unwrap();
                        for b in 1..n {
                            let (p, q) = (&per_unit[0].0, &per_unit[1].0);
                            if !cx.check((p[b] * q[b0] - q[b] * p[b0]).abs() <= 1e-9 * (1. + p[b0] * q[b0]), || ("vector/units".into(), format!("latitude {latd} day {d} hour {h}: the visible sky is not proportional to the solar sky"))) { return; }
                        }
                    }
                } } }
                let mut small = Matrix::new(0., n - 1, 1);
                let cw = CurrentWeather { direct_normal_radiation: 500., diffuse_horizontal_radiation: 100., ..CurrentWeather::default() };
                cx.check(PerezSky::update_sky_vec(&mut small, mf, &s, dt, cw, SkyUnits::Solar, 0.2, true, true).is_err(), || ("vector/size".into(), "a vector of the wrong size is accepted".into()));
            }
        });
    });
    distribution(cx, &ins);
    cx.section("function", &format!("{} instants x 64 radiation pairs: sky values around the sun (within rounding of it too), over the whole dome and mirrored about the solar meridian", ins.len()), || {
        cx.par_named("function", ins.len(), |k| {
            let (latd, d, h) = ins[k];
            let s = Solar::new(f64::to_radians(latd), 0., 0.);
            let dt = date(d, h);
            let Some(sun) = s.sun_position_from_standard_time(dt) else { return };
            for dif in DIF { for dni in DNI {
                if dif < 0.1 { continue; }
                cx.state();
                let Some(f) = cx.no_panic(|| "function/panic".into(), || PerezSky::get_sky_func_standard_time(SkyUnits::Solar, &s, dt, 11., dif, dni)) else { return };
                let kd = |w: &str, x: String| (format!("function/{w}"), format!("latitude {latd} day {d} hour {h} (sun {sun}), diffuse {dif} direct {dni}: {x}"));
                let az = sun.x.atan2(sun.y);
                let alt = sun.z.clamp(-1., 1.).asin();
                let eps = [0., 1e-16, -1e-16, 3e-16, -3e-16, 1e-12, -1e-12];
                let around: Vec<f64> = eps.iter().flat_map(|a| eps.iter().map(move |b| (*a, *b))).map(|(a, b)| f(Vector3D::new(sun.x + a, sun.y + b, sun.z + a))).collect();
                let v0 = f(dir(alt - 1e-6, az));
                if !cx.check(dif > 1367. * sun.z || around.iter().all(|v| (v - v0).abs() <= 1e-3 * (1. + v0.abs())), || kd("at-the-sun", format!("towards the sun {around:?}, a millionth of a radian below it {v0}"))) { return; }
                for i in 0..12 { for j in 0..24 {
                    let (a, b) = ((i as f64 + 0.5) / 12. * PI / 2., PI * (j as f64 + 0.5) / 24.);
                    let (x, y) = (f(dir(a, az + b)), f(dir(a, az - b)));
                    if !cx.check(x >= 0. && y >= 0. && x.is_finite() && (x - y).abs() <= 1e-6 * (1. + x), || kd("dome", format!("altitude {a}, {b} rad either side of the sun: {x} and {y}"))) { return; }
                } }
            } }
        });
    });
    cx.section("brightness", "air mass, precipitable water, extraterrestrial radiation and efficacy over their whole range", || {
        let s = Solar::new(0.5, 0., 0.);
        let mut last = 0.;
        for k in 0..=900 {
            cx.state();
            let z = f64::to_radians(k as f64 / 10.);
            let m = weather::solar::air_mass(z);
            cx.check(m.is_finite() && m >= last && m >= 0.99 && m < 40. && (k > 600 || (m * z.cos() - 1.).abs() < 0.01), || ("brightness/air-mass".into(), format!("air mass {m} at zenith {}", k as f64 / 10.)));
            last = m;
        }
        for d in 0..3650 {
            cx.state();
            let n = d as f64 / 10.;
            let e = s.normal_extraterrestrial_radiation(n);
            let want = 1367. * (1. + 0.0334 * (2. * PI * (n - 3.) / 365.).cos());
            cx.check((e - want).abs() < 6., || ("brightness/extraterrestrial".into(), format!("day {n}: {e} W/m2 instead of about {want}")));
            let _ = Time::Solar(n);
        }
        let mut prev = 0;
        for k in 0..1500 {
            let c = PerezSky::clearness_category(1. + k as f64 / 100.);
            cx.check(c <= 7 && (c == prev || c == prev + 1), || ("brightness/category".into(), format!("clearness {} is category {c}", 1. + k as f64 / 100.)));
            prev = c;
        }
    });
}

pub fn w05(cx: &Ctx) {
    decomposition(cx);
    let lats = LATS;
    let days: Vec<usize> = if cx.thorough() { (0..365).step_by(7).collect() } else { vec![0, 46, 80, 126, 172, 222, 265, 310, 355] };
    cx.section("cloud-cover", &format!("5 latitudes x {} days of hourly records from 0, 8 or 16 o'clock x 36 patterns of cloud cover x 3 humidities x 2 winds x 5 temperature swings x 3 pressures, filled over every earlier content", days.len()), || {
        cx.par_named("cloud-cover", lats.len() * days.len(), |k| {
            let (latd, d) = (lats[k % 5], days[k / 5]);
            let loc = Location { latitude: f64::to_radians(latd), longitude: f64::to_radians(-70.), timezone: -5, ..Location::default() };
            let s = loc.get_solar();
            for pat in 0..36usize { for rh in [0., 0.5, 1.] { for wind in [0., 12.] { for swing in [0., 4., -6., 30., -30.] { for pr in [101300., 82000., 60000.] {
                if !cx.thorough() && (pat + k) % 4 != 0 { continue; }
                let cover = |h: usize| { let (a, b) = (pat % 6, pat / 6); (if h % 2 == 0 { a } else { b }) as f64 / 5. };
                // the records start at midnight, in the morning or in the afternoon
                let start = pat * 5 % 3 * 8;
                let at = |h: usize| date((d + (h + start) / 24) % 365, ((h + start) % 24) as f64 + 0.999);
                let mk = |old: f64| Weather { location: loc.clone(), data: (0..24).map(|h| CurrentWeather {
                    date: at(h), dry_bulb_temperature: 15. + swing * (h as f64 * 0.7).sin(), dew_point_temperature: 8., wind_speed: wind, relative_humidity: rh, pressure: pr, opaque_sky_cover: cover(h),
                    global_horizontal_radiation: old, direct_normal_radiation: old / 2., diffuse_horizontal_radiation: old / 3., ..CurrentWeather::default() }).collect() };
                cx.state();
                let kd = |w: &str, x: String| (format!("cloud-cover/{w}"), format!("latitude {latd} day {d} cover pattern {pat} humidity {rh} wind {wind} swing {swing} pressure {pr}: {x}"));
                let mut w = mk(0.);
                let Some(r) = cx.no_panic(|| "cloud-cover/panic".into(), || w.fill_solar_radiation_data()) else { return };
                if !cx.check(r.is_ok(), || kd("refused", format!("{r:?}"))) { return; }
                for (h, c) in w.data.iter().enumerate() {
                    cx.step();
                    let (dn, df, g) = (c.direct_normal_radiation, c.diffuse_horizontal_radiation, c.global_horizontal_radiation);
                    let sun = s.sun_position_from_standard_time(c.date);
                    let z = sun.map_or(0., |v| v.z);
                    let e = s.normal_extraterrestrial_radiation(d as f64 + 1.);
                    if !cx.check([dn, df, g].iter().all(|x| x.is_finite() && *x >= 0.) && (z > 0. || dn + df + g == 0.), || kd("range", format!("hour {h}: direct {dn} diffuse {df} global {g} with the sun at {z}"))) { return; }
                    if !cx.check((df + dn * z - g).abs() < 1e-6 * (1. + g), || kd("closure", format!("hour {h}: diffuse {df} + direct {dn} x {z} is not the global {g}"))) { return; }
                    if !cx.check(dn <= e * 1.001, || kd("extraterrestrial", format!("hour {h}: direct {dn} exceeds the extraterrestrial {e}"))) { return; }
                }
                let globals: Vec<f64> = w.data.iter().map(|c| c.global_horizontal_radiation).collect();
                for h in 3..23 {
                    let (c, sun) = (w.data[h], s.sun_position_from_standard_time(w.data[h].date));
                    let Some(sun) = sun else { continue };
                    let want = cloud_global(sun.z, cover(h), c.dry_bulb_temperature - w.data[h - 3].dry_bulb_temperature, wind, rh);
                    if !cx.check((globals[h] - want).abs() < 1e-6 * (1. + want), || kd("global", format!("hour {h}: global {} instead of {want}", globals[h]))) { return; }
                    if !(globals[h] > 0.) { continue; }
                    let want = s.perez_direct_normal_radiation(sun, c, Some(w.data[h + 1]), Some(w.data[h - 1])).min(globals[h] / sun.z);
                    if !cx.check((c.direct_normal_radiation - want).abs() < 1e-6 * (1. + want), || kd("direct", format!("hour {h}: direct {} instead of the {want} that its neighbours give", c.direct_normal_radiation))) { return; }
                }
                for old in [77., 800.] {
                    let mut v = mk(old);
                    let Some(_) = cx.no_panic(|| "cloud-cover/panic".into(), || v.fill_solar_radiation_data()) else { return };
                    let bad = (0..24).find(|&h| v.data[h] != w.data[h]);
                    if !cx.check(bad.is_none(), || kd("purely", format!("hour {bad:?} depends on the radiation the records had before"))) { return; }
                }
                let mut v = w.clone();
                let _ = guarded(|| v.fill_solar_radiation_data());
                if !cx.check(v.data == w.data, || kd("idempotent", "filling twice gives something else".into())) { return; }
            } } } } }
        });
    });
}

/// Global radiation from clouds (Zhang and Huang, with the coefficients of all climates averaged)
fn cloud_global(sin_alt: f64, cover: f64, rise: f64, wind: f64, rh: f64) -> f64 {
    let f = 0.749833333 + 0.043947778 * cover - 0.28806125 * cover * cover + 0.016512222 * rise - 0.0029925 * 100. * rh + 0.003777778 * wind;
    (1367.7 * sin_alt * f - 5.949946667).max(0.)
}
/// DISC (Maxwell, 1987); the first constant of the clear-sky limit is 0.866 or 0.886, depending on who quotes it
fn disc(kt: f64, m: f64) -> f64 {
    let p = |c: [f64; 4]| c[0] + c[1] * kt + c[2] * kt * kt + c[3] * kt.powi(3);
    let [a, b, c] = if kt > 0.6 { [p([-5.743, 21.77, -27.49, 11.56]), p([41.4, -118.5, 66.05, 31.9]), p([-47.01, 184.2, -222., 73.81])] } else { [p([0.512, -1.56, 2.286, -2.222]), p([0.37, 0.962, 0., 0.]), p([-0.28, 0.932, -2.048, 0.])] };
    0.876 - 0.122 * m + 0.0121 * m * m - 0.000653 * m.powi(3) + 0.000014 * m.powi(4) - (a + b * (c * m).exp())
}
/// the bin of a value; None when it is decided by rounding
fn bin(x: f64, edges: &[f64]) -> Option<usize> {
    if edges.iter().any(|e| (x - e).abs() < 1e-9) { return None; }
    Some(edges.iter().filter(|e| x > **e).count())
}
/// The direct radiation that goes with a global one: bins and coefficients of Perez et al. (1992) on top of DISC
fn decomposition(cx: &Ctx) {
    let steps = [0., 0.02, -0.06, 0.12, 0.25, -0.5, -1., 1.5];
    let ins = instants(cx);
    cx.section("decomposition", &format!("{} instants x 28 clearness indices x 64 pairs of neighbours x 5 dew points x 3 pressures: the coefficient of the right bins, on top of DISC", ins.len()), || {
        cx.par_named("decomposition", ins.len(), |k| {
            let (latd, d, h) = ins[k];
            let s = Solar::new(f64::to_radians(latd), 0., 0.);
            let dt = date(d, h);
            let Some(sun) = s.sun_position_from_standard_time(dt) else { return };
            let z = sun.z.clamp(-1., 1.).acos();
            if z > 79.999f64.to_radians() { return; }
            let n = Time::Standard(dt.day_of_year());
            let extra = s.normal_extraterrestrial_radiation(s.unwrap_solar_time(n));
            for kn in 0..28 { for pr in [101300., 80000., 60000.] {
                let kt = 0.02 + kn as f64 * 0.04;
                let m = weather::solar::air_mass(z) * pr / 101300.;
                let norm = 1.031 * (-1.4 / (0.9 + 9.4 / m)).exp() + 0.1;
                let ktp = (kt.min(1.) / norm).clamp(0., 1.);
                let base = s.disc_direct_solar(n, sun, kt * extra, pr);
                let want = (extra * disc(kt.min(1.), m)).max(0.);
                let kd = |w: &str, x: String| (format!("decomposition/{w}"), format!("latitude {latd} day {d} hour {h} (zenith {} degrees), clearness {kt}, pressure {pr}: {x}", z.to_degrees()));
                if !cx.check((base - want).abs() <= 0.0101 * extra, || kd("disc", format!("DISC gives {base} W/m2 of direct light instead of {want}"))) { return; }
                for dew in [-20., 5., 15., 20., 35.] { for a in steps { for b in steps {
                    cx.state();
                    let rec = |f: f64| CurrentWeather { date: dt, dew_point_temperature: dew, pressure: pr, global_horizontal_radiation: kt * f * extra * sun.z, ..CurrentWeather::default() };
                    let Some(got) = cx.no_panic(|| "decomposition/panic".into(), || s.perez_direct_normal_radiation(sun, rec(1.), Some(rec(1. + a)), Some(rec(1. + b)))) else { return };
                    // neighbours beyond the range of the clearness may be brought into it first
                    let ok = [true, false].iter().any(|&cap| {
                        let near = |f: f64| { let v = kt * f / norm; if cap { v.min(1.) } else { v } };
                        let dk = (0.5 * ((ktp - near(1. + a)).abs() + (ktp - near(1. + b)).abs())).min(1.);
                        let w = (0.07 * dew - 0.075).exp();
                        let (Some(i), Some(j), Some(q), Some(r)) = (bin(ktp, &[0.24, 0.4, 0.56, 0.7, 0.8]), bin(z.to_degrees(), &[25., 40., 55., 70., 80.]), bin(dk, &[0.015, 0.035, 0.07, 0.15, 0.3]), bin(w, &[1., 2., 3.])) else { return true };
                        (got - base * crate::dirint::DIRINT[i][j][q][r]).abs() <= 1e-6 * (1. + base)
                    });
                    if !cx.check(ok, || kd("coefficient", format!("dew point {dew}, neighbours {a:+} and {b:+}: {got} W/m2 on top of {base}, not the coefficient of the bins"))) { return; }
                } } }
            } }
        });
    });
}
