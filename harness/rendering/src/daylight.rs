//! R05: skies in scenes and daylight coefficients.
use geometry::*;
use mcc::*;
use rendering::material::*;
use rendering::primitive::Primitive;
use rendering::*;
use std::f64::consts::PI;
use weather::{CurrentWeather, PerezSky, ReinhartSky, SkyUnits, Solar};

/// The unit directions of the points of a lattice around the origin
fn lattice_dirs(n: i32) -> Vec<Vector3D> {
    let mut r: Vec<Vector3D> = vec![];
    for x in -n..=n { for y in -n..=n { for z in -n..=n {
        if (x, y, z) == (0, 0, 0) { continue; }
        let v = Vector3D::new(x as f64, y as f64, z as f64).get_normalized();
        if !r.iter().any(|u| (*u - v).length() < 1e-9) { r.push(v); }
    } } }
    r
}
const MD: [u8; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
fn date(day: usize, hour: f64) -> calendar::Date {
    let (mut d, mut m) = (day, 0);
    while d >= MD[m] as usize { d -= MD[m] as usize; m += 1; }
    calendar::Date { month: m as u8 + 1, day: d as u8 + 1, hour }
}
fn quad(s: &mut Scene, front: usize, back: usize, p: [Point3D; 4]) {
    for (a, b, c) in [(0, 1, 2), (0, 2, 3)] {
        s.push_object(front, back, Primitive::Triangle(Triangle3D::new(p[a], p[b], p[c]).unwrap()));
    }
}
fn p3(x: f64, y: f64, z: f64) -> Point3D { Point3D::new(x, y, z) }
fn rows(m: &ColourMatrix) -> Vec<Vec<[f64; 3]>> {
    let (r, c) = m.size();
    (0..r).map(|i| (0..c).map(|j| m.get(i, j).unwrap().0).collect()).collect()
}
pub fn r05(cx: &Ctx) {
    let hs = cx.pick(24, 96);
    let days: Vec<usize> = if cx.thorough() { (0..365).step_by(5).collect() } else { vec![0, 46, 80, 110, 172, 200, 265, 355] };
    let lats = [-33.38, -12., 0., 8.5, 23.44, 52., 66.];
    cx.section("sky", &format!("{} latitudes x {} days x {hs} clock times (night included) x 42 radiation pairs x 3 sites: the sky and the sun put into a scene", lats.len(), days.len()), || {
        cx.par_named("sky", lats.len() * days.len(), |k| {
            let (lat, d) = (lats[k % lats.len()], days[k / lats.len()]);
            for q in 0..hs {
                for (lon, mer) in [(0., 0.), (70.2, 60.), (84.1, 86.25)] {
                    let dt = date(d, 24. * (q as f64 + 0.01) / hs as f64);
                    let s = Solar::new(f64::to_radians(lat), f64::to_radians(lon), f64::to_radians(mer));
                    let sun = s.sun_position_from_standard_time(dt);
                    for dif in [0.5, 20., 90., 150., 300., 500., 0.] {
                        for dni in [0., 5., 80., 300., 700., 950.] {
                            if !cx.thorough() && (q + dif as usize + dni as usize) % 3 != 0 { continue; }
                            cx.state();
                            let kd = |w: &str, x: String| (format!("sky/{w}"), format!("latitude {lat} longitude {lon} day {d} hour {} (sun {sun:?}) diffuse {dif} direct {dni}: {x}", dt.hour));
                            let mut sc = Scene::new();
                            if cx.no_panic(|| format!("sky/panic-{}", if sun.is_some() { "day" } else { "night" }), || sc.add_perez_sky(dt, lat, lon, mer, dif, dni)).is_none() { return; }
                            let Some(f) = &sc.sky else { cx.check(false, || kd("no-sky", String::new())); return };
                            let Some(sun) = sun else {
                                let dark = lattice_dirs(2).iter().all(|v| f(*v) == 0.);
                                if !cx.check(dark && sc.distant_lights.is_empty(), || kd("night", "the night sky is lit".into())) { return; }
                                continue;
                            };
                            if !cx.check(sc.distant_lights.len() == 1 && sc.lights.is_empty() && sc.triangles.is_empty(), || kd("sun-count", format!("{} suns", sc.distant_lights.len()))) { return; }
                            let o = &sc.distant_lights[0];
                            let (Primitive::Source(src), Material::Light(l), Material::Light(lb)) = (&o.primitive, &sc.materials[o.front_material_index], &sc.materials[o.back_material_index]) else { cx.check(false, || kd("sun-kind", String::new())); return };
                            if !cx.check((src.direction - sun).length() < 1e-6 && (src.angle - f64::to_radians(0.533)).abs() < 1e-6, || kd("sun-direction", format!("the sun is put towards {} with an opening of {}", src.direction, src.angle))) { return; }
                            // the disc carries what the sun patches of the sky vector carry
                            let cw = CurrentWeather { date: dt, dew_point_temperature: 11., diffuse_horizontal_radiation: dif, direct_normal_radiation: dni, ..CurrentWeather::default() };
                            let r = ReinhartSky::new(1);
                            let v = PerezSky::gen_sky_vec(1, &s, dt, cw, SkyUnits::Visible, 0., false, true).unwrap();
                            let want: f64 = (1..r.n_bins).map(|b| v.get(b, 0).unwrap() * r.bin_solid_angle(b)).sum();
                            let omega = 2. * PI * (1. - (src.angle / 2.).cos());
                            for b in [l.0, lb.0] {
                                let got = b.0[0] * omega;
                                if !cx.check(b.0.iter().all(|x| *x == b.0[0]) && (dif + dni < 1e-3 || dni < 1e-3 || (got - want).abs() <= 1e-4 * (1. + want)), || kd("sun-brightness", format!("the sun disc gives {got}, the sun patches of the sky vector {want}"))) { return; }
                            }
                            let g = PerezSky::get_sky_func_standard_time(SkyUnits::Visible, &s, dt, 11., dif, dni);
                            if !cx.check(lattice_dirs(2).iter().all(|v| f(*v) == g(*v) || f(*v).is_nan() && g(*v).is_nan()), || kd("sky-value", "the sky of the scene is not the visible Perez sky".into())) { return; }
                        }
                    }
                }
            }
        });
    });
    let dirs = lattice_dirs(cx.pick(2, 3));
    let mfs: &[usize] = if cx.thorough() { &[1, 2, 3, 4] } else { &[1, 2] };
    cx.section("open", &format!("{} sensor orientations x subdivisions {mfs:?} x 1, 7, 300 rays: nothing around", dirs.len()), || {
        let mut sc = Scene::new();
        // something far behind every sensor, so that there is a tree to search
        let m = sc.push_material(Material::Diffuse(Diffuse { colour: Spectrum::gray(0.5) }));
        sc.push_object(m, m, Primitive::Triangle(Triangle3D::new(p3(0., 1e7, 0.), p3(1., 1e7, 0.), p3(0., 1e7, 1.)).unwrap()));
        sc.build_accelerator();
        for &mf in mfs {
            for n in [1, 7, 300] {
                cx.state();
                let dc = DCFactory { reinhart: ReinhartSky::new(mf), max_depth: 100, n_ambient_samples: n };
                let rays: Vec<Ray3D> = dirs.iter().map(|d| Ray3D { origin: p3(0.3, -0.2, 1.), direction: *d }).collect();
                let Some(m) = cx.no_panic(|| "open/panic".into(), || dc.calc_dc(&rays, &sc, None)) else { return };
                let nb = dc.reinhart.n_bins;
                if !cx.check(m.size() == (rays.len(), nb), || ("open/size".into(), format!("{:?}", m.size()))) { return; }
                for (i, row) in rows(&m).iter().enumerate() {
                    cx.step();
                    for ch in 0..3 {
                        let sum: f64 = row.iter().map(|v| v[ch]).sum();
                        if !cx.check((sum - PI).abs() < 1e-6, || ("open/sum".into(), format!("subdivision {mf}, {n} rays, sensor facing {}: the coefficients add up to {sum} instead of pi", dirs[i]))) { return; }
                    }
                    for (b, v) in row.iter().enumerate() {
                        let rad = if b == 0 { PI } else { 0.5 / mf as f64 };
                        let lit = v.iter().any(|x| *x != 0.);
                        // each ray brings pi / n
                        let whole = v.iter().all(|x| { let y = x * n as f64 / PI; (y - y.round()).abs() < 1e-6 && *x >= 0. });
                        let facing = b == 0 && dirs[i].z < 0.9999 || b > 0 && dc.reinhart.bin_dir(b) * dirs[i] > -f64::sin(rad);
                        if !cx.check(whole && (!lit || facing), || ("open/hemisphere".into(), format!("subdivision {mf}, {n} rays, sensor facing {}: patch {b} contributes {v:?}", dirs[i]))) { return; }
                    }
                }
            }
        }
    });
    cx.section("statistics-free", "diffuse walls, mirrors, black and white closed rooms x sensor places x 5 reflectances: what arrives is a sum of whole ray contributions", || {
        let n = 200;
        let dc = DCFactory { reinhart: ReinhartSky::new(1), max_depth: 190, n_ambient_samples: n };
        for rho in [0., 0.33, 0.5, 0.8, 1.] {
            // a wall of 20 km by the sensor, at its front and back faces
            for flip in [false, true] { for kind in 0..2 {
                cx.state();
                let mut sc = Scene::new();
                let m = sc.push_material(if kind == 0 { Material::Diffuse(Diffuse { colour: Spectrum::gray(rho) }) } else { Material::Mirror(Mirror(Spectrum::gray(rho))) });
                let mut q = [p3(2., -1e4, -1e4), p3(2., 1e4, -1e4), p3(2., 1e4, 1e4), p3(2., -1e4, 1e4)];
                if flip { q.swap(1, 3); }
                quad(&mut sc, m, m, q);
                sc.build_accelerator();
                let k = f64::sqrt(0.5);
                let sensors = [Vector3D::new(0., 0., 1.), Vector3D::new(1., 0., 0.), Vector3D::new(k, 0., k), Vector3D::new(-1., 0., 0.)];
                let rays: Vec<Ray3D> = sensors.iter().map(|d| Ray3D { origin: p3(0., 0., 0.), direction: *d }).collect();
                let Some(m) = cx.no_panic(|| "statistics-free/panic".into(), || dc.calc_dc(&rays, &sc, None)) else { return };
                for (i, row) in rows(&m).iter().enumerate() {
                    let kd = |w: &str, x: String| (format!("statistics-free/{w}"), format!("{} wall of reflectance {rho} (flipped {flip}), sensor facing {}: {x}", ["matte", "mirror"][kind], sensors[i]));
                    let sum: f64 = row.iter().map(|v| v[1]).sum::<f64>() * n as f64 / PI;
                    // sum = misses + rho * hits, hits + misses = n (every reflected ray leaves); below 1/pi the survivors are boosted to 1/pi
                    let w = if rho * PI >= 1. { rho } else { 1. / PI };
                    let hits = if w < 1. { (n as f64 - sum) / (1. - w) } else { 0. };
                    let (lo, hi) = match i { 3 => (0., 0.), 1 => (n as f64, n as f64), _ => (0., n as f64) };
                    let whole = (hits - hits.round()).abs() < 1e-3;
                    let ok = if rho == 1. { (sum - n as f64).abs() < 1e-4 } else if rho == 0. { (sum - sum.round()).abs() < 1e-4 && sum <= n as f64 - lo + 1e-6 && (i != 3 || (sum - n as f64).abs() < 1e-6) }
                        else if rho * PI < 1. { sum <= n as f64 + 1e-6 && sum >= 0. }
                        else { whole && hits >= lo - 1e-3 && hits <= hi + 1e-3 };
                    if !cx.check(ok, || kd("energy", format!("{sum} of {n} rays arrive"))) { return; }
                    // nothing arrives from behind the wall
                    let behind = (1..row.len()).find(|&b| row[b][1] > 0. && dc.reinhart.bin_dir(b).x > 0.45);
                    if !cx.check(behind.is_none(), || kd("behind", format!("patch {behind:?} behind the wall contributes"))) { return; }
                }
            } }
            // closed rooms are dark and the calculation ends
            cx.state();
            let mut sc = Scene::new();
            let m = sc.push_material(Material::Diffuse(Diffuse { colour: Spectrum::gray(rho) }));
            let c = |k: usize| p3((k & 1) as f64 * 400. - 200., (k >> 1 & 1) as f64 * 400. - 200., (k >> 2) as f64 * 300. - 100.);
            for f in [[0, 1, 3, 2], [4, 5, 7, 6], [0, 1, 5, 4], [2, 3, 7, 6], [0, 2, 6, 4], [1, 3, 7, 5]] {
                quad(&mut sc, m, m, f.map(c));
            }
            sc.build_accelerator();
            let rays: Vec<Ray3D> = dirs.iter().map(|d| Ray3D { origin: p3(0.1, 0.2, 0.3), direction: *d }).collect();
            let Some(m) = cx.no_panic(|| "statistics-free/panic".into(), || dc.calc_dc(&rays, &sc, None)) else { return };
            let leak: f64 = rows(&m).iter().flatten().map(|v| v[0] + v[1] + v[2]).sum();
            // (a ray leaving a point closer than the tracer's epsilon to an edge may slip through: one in millions here)
            if !cx.check(leak <= 0.01 * PI * 3. * dirs.len() as f64, || ("statistics-free/closed".into(), format!("a closed room of reflectance {rho} lets {leak} in"))) { return; }
        }
    });
    let rhos = [Spectrum([0.2, 0.5, 0.8]), Spectrum::gray(0.9), Spectrum([0.95, 0.1, 0.4])];
    cx.section("cavity", "sensors in matte round cavities of 6000 triangles open at the top (3 sizes) x 3 colours x at most 0, 1, 2, 3, 5, 60 bounces x 3 subdivisions, against the geometric series of light that bounces between all walls alike", || {
        cx.par_named("cavity", 9, |k| {
            let (top, rho) = ([0.2, 0.6, 0.9][k % 3], rhos[k / 3]);
            let mut sc = Scene::new();
            let m = sc.push_material(crate::bounces::matte(rho, false));
            crate::bounces::cavity(&mut sc, m, top);
            sc.build_accelerator();
            let f = (1. - top) / 2.;
            for depth in [0, 1, 2, 3, 5, 60] {
                cx.state();
                // a sensor close to the wall sees the opening as any point of the wall does
                let dir = Vector3D::new(0.3, -0.4, 0.6).get_normalized();
                let rays: Vec<Ray3D> = (0..40).map(|_| Ray3D { origin: p3(0., 0., 0.) - dir * 0.98, direction: dir }).collect();
                let dc = DCFactory { reinhart: ReinhartSky::new(1 + k % 3), max_depth: depth, n_ambient_samples: cx.pick(150, 1500) };
                let Some(m) = cx.no_panic(|| "cavity/panic".into(), || dc.calc_dc(&rays, &sc, None)) else { return };
                let sums: Vec<[f64; 3]> = rows(&m).iter().map(|r| [0, 1, 2].map(|c| r.iter().map(|v| v[c]).sum())).collect();
                let (got, err) = crate::bounces::stats(&sums);
                let want: [f64; 3] = [0, 1, 2].map(|c| PI * f * (0..=depth).map(|n| (rho.0[c] * (1. - f)).powi(n as i32)).sum::<f64>());
                let ok = (0..3).all(|c| (got[c] - want[c]).abs() <= 0.03 * want[c] + 8. * err[c]);
                if !cx.check(ok, || ("cavity/sum".into(), format!("cavity of {rho:?} open above {top}, at most {depth} bounces: the coefficients add up to {got:?} (standard error {err:?}), expected {want:?}"))) { return; }
            }
        });
    });
    cx.assume("the generator of the daylight coefficients is seeded by the system: only facts that hold for every draw are judged, and means of many draws within 3 % and 8 standard errors; clock times are those of the sun vector of W01");
}
