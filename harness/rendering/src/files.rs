//! R04: images and matrices survive storage; cameras and pixels match.
use geometry::*;
use matrix::Matrix;
use mcc::*;
use rendering::colour_matrix::*;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::*;

const VALS: [f64; 9] = [0., 1., 0.12345, -2.5, 1e5, 0.00001, 3.14159, 777.00002, 0.5];

fn spec_close(a: &Spectrum, b: &Spectrum) -> bool {
    (0..3).all(|k| (a.0[k] - b.0[k]).abs() <= 5.1e-6)
}
pub fn r04(cx: &Ctx) {
    let dir = Scratch::new("r04");
    let sizes: Vec<(usize, usize)> = (1..=cx.pick(4, 6)).flat_map(|r| (1..=cx.pick(4, 6)).map(move |c| (r, c))).collect();
    cx.section("matrices", &format!("{} sizes x 9 value patterns, plain and colour; every truncation of every stored file", sizes.len()), || {
        for &(r, c) in &sizes {
            for s in 0..9 {
                let val = |i: usize, j: usize, k: usize| VALS[(s + 5 * i + 2 * j + 7 * k + i * j) % 9];
                let (mut m, mut cm) = (Matrix::new(0., r, c), ColourMatrix::new(Spectrum::BLACK, r, c));
                for i in 0..r {
                    for j in 0..c {
                        m.set(i, j, val(i, j, 0)).unwrap();
                        cm.set(i, j, Spectrum([0, 1, 2].map(|k| val(i, j, k)))).unwrap();
                    }
                }
                let f = dir.path("m.txt");
                let kd = |w: &str, d: String| (format!("matrices/{w}"), format!("{r}x{c} pattern {s}: {d}"));
                for colour in [false, true] {
                    cx.state();
                    let saved = if colour { save_colour_matrix(&cm, &f) } else { save_matrix(&m, &f) };
                    if !cx.check(saved.is_ok(), || kd("save", format!("{saved:?}"))) { return; }
                    let same = |path: &std::path::Path| -> Result<bool, String> {
                        if colour {
                            let b = read_colour_matrix(path)?;
                            Ok(b.size() == (r, c) && (0..r * c).all(|k| spec_close(&b.get(k / c, k % c).unwrap(), &cm.get(k / c, k % c).unwrap())))
                        } else {
                            let b = read_matrix(path)?;
                            Ok(b.size() == (r, c) && (0..r * c).all(|k| (b.get(k / c, k % c).unwrap() - m.get(k / c, k % c).unwrap()).abs() <= 1e-9 * b.get(k / c, k % c).unwrap().abs()))
                        }
                    };
                    let Some(back) = cx.no_panic(|| "matrices/panic".into(), || same(&f)) else { return };
                    if !cx.check(back == Ok(true), || kd("round-trip", format!("colour={colour}: {back:?}"))) { return; }
                    // the wrong kind of matrix is refused
                    let wrong = if colour { read_matrix(&f).is_err() } else { read_colour_matrix(&f).is_err() };
                    cx.check(wrong, || kd("kind", format!("colour={colour}: read as the other kind")));
                    // a write cut short
                    if s % 3 == 0 {
                        let bytes = std::fs::read(&f).unwrap();
                        let last = bytes.iter().rposition(|b| !b.is_ascii_whitespace()).unwrap() + 1;
                        let tok = bytes[..last].iter().rposition(|b| b.is_ascii_whitespace()).unwrap() + 1;
                        for cut in 0..bytes.len() {
                            cx.step();
                            if cut > tok && cut < last { continue; } // a shorter number is still a number
                            let g = dir.path("cut.txt");
                            std::fs::write(&g, &bytes[..cut]).unwrap();
                            let Some(b) = cx.no_panic(|| "matrices/torn-panic".into(), || same(&g)) else { return };
                            if !cx.check(b.is_err() || b == Ok(true) && cut >= last, || kd("torn", format!("colour={colour}: the file cut to {cut} of {} bytes is read as a (different) matrix", bytes.len()))) { return; }
                        }
                    }
                }
                // conversions keep the cells in place
                let (rad, lum) = (colour_matrix_to_radiance(&cm), colour_matrix_to_luminance(&cm));
                let avg = average_matrix(&m);
                let ok = (0..r * c).all(|k| {
                    let x = cm.get(k / c, k % c).unwrap();
                    let want = 0.265 * x.0[0] + 0.67 * x.0[1] + 0.065 * x.0[2]; // as Radiance weighs colours
                    (rad.get(k / c, k % c).unwrap() - want).abs() < 1e-6 && (lum.get(k / c, k % c).unwrap() - 179. * want).abs() < 1e-3
                }) && avg.size() == (1, c) && (0..c).all(|j| (avg.get(0, j).unwrap() - (0..r).map(|i| m.get(i, j).unwrap()).sum::<f64>() / r as f64).abs() < 1e-6);
                cx.check(ok, || kd("conversion", "radiance, luminance or average matrix is wrong".into()));
            }
        }
    });
    let isz: Vec<(usize, usize)> = (1..=cx.pick(5, 9)).flat_map(|w| (1..=cx.pick(5, 9)).map(move |h| (w, h))).collect();
    cx.section("images", &format!("{} sizes, pixel values of 45 magnitudes x 27 colours, every truncation of the stored file", isz.len()), || {
        let f = dir.path("i.hdr");
        let pal: Vec<Spectrum> = (0..45 * 27).map(|k| {
            let m = f64::powf(10., (k / 27) as f64 - 14.) * 1.7;
            let ch = [0., 0.3, 1.];
            Spectrum([m * ch[k % 3], m * ch[k / 3 % 3], m * ch[k / 9 % 3]])
        }).chain((0..60).map(|k| Spectrum([f64::powi(2., k - 30), f64::powi(2., k - 30) * (1. - 1e-13), f64::powi(2., k - 31)]))).chain((0..300).map(|k| Spectrum([k as f64 / 256., 1., 0.5]))).collect();
        let check = |w: usize, h: usize, px: Vec<Spectrum>| {
            cx.state();
            let kd = |k: &str, d: String| (format!("images/{k}"), format!("{w}x{h}: {d}"));
            let img = ImageBuffer::from_pixels(w, h, px.clone());
            let Some(r) = cx.no_panic(|| "images/panic".into(), || img.save_hdre(&f).and_then(|_| ImageBuffer::from_file(&f))) else { return };
            let back = match r { Ok(b) => b, Err(e) => { cx.check(false, || kd("round-trip", e)); return; } };
            if !cx.check((back.width, back.height, back.pixels.len()) == (w, h, px.len()), || kd("size", format!("comes back {}x{} with {} pixels", back.width, back.height, back.pixels.len()))) { return; }
            for (i, p) in px.iter().enumerate() {
                cx.step();
                let tol = p.max() * (1. / 127.) + 1e-18;
                let q = &back.pixels[i];
                if !cx.check((0..3).all(|k| (q.0[k] - p.0[k]).abs() <= tol && q.0[k] >= 0.), || kd("value", format!("pixel {i} {p:?} comes back as {q:?}"))) { return; }
                let (x, y) = (i % w, i / w);
                if !cx.check(img[(x, y)].0 == p.0, || kd("index", format!("pixel ({x},{y})"))) { return; }
            }
        };
        check(45, 27, pal[..45 * 27].to_vec());
        check(360, 1, pal[45 * 27..].to_vec());
        for &(w, h) in &isz {
            check(w, h, (0..w * h).map(|k| pal[(k * 37 + w) % pal.len()]).collect());
            let bytes = std::fs::read(&f).unwrap();
            for cut in 0..bytes.len() {
                cx.state();
                let g = dir.path("cut.hdr");
                std::fs::write(&g, &bytes[..cut]).unwrap();
                let Some(r) = cx.no_panic(|| "images/torn-panic".into(), || ImageBuffer::from_file(&g).is_err()) else { return };
                if !cx.check(r, || ("images/torn".into(), format!("{w}x{h}: a file cut to {cut} of {} bytes is accepted", bytes.len()))) { return; }
            }
            // differences
            let (a, b) = (ImageBuffer::from_pixels(w, h, (0..w * h).map(|k| pal[k % 99 + 300]).collect()), ImageBuffer::from_pixels(w, h, (0..w * h).map(|k| pal[k % 50 + 320]).collect()));
            let d = a.diff(&b).unwrap();
            let ok = (0..w * h).all(|k| { let x = (a.pixels[k].radiance() - b.pixels[k].radiance()).abs(); d.pixels[k].0.iter().all(|y| (y - x).abs() <= 1e-9 * x) }) && (d.width, d.height) == (w, h);
            cx.check(ok, || ("images/diff".into(), format!("{w}x{h}")));
            cx.check(a.diff(&ImageBuffer::new(w + 1, h)).is_err() && a.diff(&ImageBuffer::new(w, h + 1)).is_err(), || ("images/diff-size".into(), format!("{w}x{h}")));
        }
    });
    cx.section("colourmap", "5 colour maps x 2500 ranges x 66 values, the neighbours of both limits included", || {
        let maps = || [Colourmap::Radiance, Colourmap::Inferno, Colourmap::Magma, Colourmap::Plasma, Colourmap::Viridis];
        for (mi, m) in maps().iter().enumerate() {
            for k in 0..2500 {
                let min = -3. + 0.137 * (k % 50) as f64;
                let max = min + 0.01 + 0.213 * (k / 50) as f64;
                let col = |x: f64| cx.no_panic(|| "colourmap/panic".into(), || m.map_linear(x, min, max));
                let mut xs: Vec<f64> = (0..=58).map(|i| min + (max - min) * i as f64 / 58.).collect();
                let next = |x: f64, up: bool| f64::from_bits(if (x > 0.) == up { x.to_bits() + 1 } else { x.to_bits() - 1 });
                xs.extend([min - 1., max + 1., next(max, false), next(min, true), next(next(max, false), false), max - 1e-13, f64::MIN]);
                let (Some(first), Some(last)) = (col(min), col(max)) else { return };
                for x in xs {
                    cx.state();
                    let Some(c) = col(x) else { return };
                    let ok = c.iter().all(|v| (0. ..=1.).contains(v)) && (x > min || c == first) && (x < max || c == last);
                    let near = |a: [f64; 3], b: [f64; 3], t: f64| (0..3).all(|i| (a[i] - b[i]).abs() <= t);
                    // the same relative position in the unit range has the same colour, neighbours are alike
                    let Some(u) = cx.no_panic(|| "colourmap/panic".into(), || m.map_linear((x - min) / (max - min), 0., 1.)) else { return };
                    if !cx.check(ok && near(c, u, 1e-6) && (x > max || x < min || near(c, col((x + 1e-4 * (max - min)).min(max)).unwrap(), 0.02)), || ("colourmap/value".into(), format!("map {mi}: {x} in [{min}, {max}] has colour {c:?} (first {first:?}, last {last:?}, same relative position in [0, 1]: {u:?})"))) { return; }
                }
            }
        }
    });
    cx.section("camera", "all resolutions up to 7x7 (and four large ones) x 5 views x 4 fields of view: every pixel; directions around the frustum", || {
        let mut res: Vec<(usize, usize)> = (1..=7).flat_map(|w| (1..=7).map(move |h| (w, h))).collect();
        res.extend([(64, 48), (48, 64), (100, 10), (33, 77)]);
        let views = [([0., 0., 0.], [0., 1., 0.], [0., 0., 1.]), ([1., 2., 3.], [1., 1., -0.5], [0., 0., 1.]), ([0., 0., 5.], [0., 0., -2.], [0., 1., 0.]), ([-3., 1., 0.], [-1., 0.2, 0.1], [0.3, 0., 1.]), ([5., 5., 1.], [0., -3., 0.4], [1., 0., 0.2])];
        let v3 = |a: [f64; 3]| Vector3D::new(a[0], a[1], a[2]);
        for &(w, h) in &res {
            for (p, d, u) in views {
                for fov in [20., 60., 90., 140.] {
                    let cam = Pinhole::new(View { view_point: Point3D::new(p[0], p[1], p[2]), view_direction: v3(d), view_up: v3(u), field_of_view: fov }, Film { resolution: (w, h) });
                    // independent frame
                    let n = v3(d).get_normalized();
                    let right = n.cross(v3(u)).get_normalized();
                    let up = right.cross(n);
                    let half = f64::to_radians(fov / 2.).tan();
                    let kd = |k: &str, s: String| (format!("camera/{k}"), format!("film {w}x{h}, view from {p:?} along {d:?} (up {u:?}) of {fov} degrees: {s}"));
                    for y in 0..h {
                        for x in 0..w {
                            cx.state();
                            let (ray, _) = cam.gen_ray(&CameraSample { p_film: (x, y) });
                            let sx = half * (2. * (x as f64 + 0.5) / w as f64 - 1.);
                            let sy = half * (h as f64 - 2. * (y as f64 + 0.5)) / w as f64;
                            let want = (n + right * sx + up * sy).get_normalized();
                            if !cx.check((ray.direction - want).length() < 1e-9 && (ray.origin - Point3D::new(p[0], p[1], p[2])).length() < 1e-12, || kd("ray", format!("pixel ({x},{y}) looks along {:?}, expected {want:?}", ray.direction))) { return; }
                            let (px, wt) = cam.pixel_from_ray(&ray);
                            if !cx.check(px == (x, y) && wt > 0., || kd("pixel", format!("the ray of pixel ({x},{y}) is assigned to {px:?} (weight {wt})"))) { return; }
                            cx.check(cam.pixel_index((x, y)) == y * w + x, || kd("index", format!("({x},{y})")));
                            let back = Ray3D { origin: ray.origin, direction: ray.direction * -1. };
                            if !cx.check(cam.pixel_from_ray(&back).1 == 0., || kd("behind", format!("a ray opposite to pixel ({x},{y}) is seen"))) { return; }
                        }
                    }
                    for (a, b) in [(1.02, 0.), (-1.02, 0.), (0., 1.02), (0., -1.02), (1.5, 1.5), (0.98, 0.98), (-0.98, 0.98), (0.98, -0.98)] {
                        let dir = (n + right * (half * a) + up * (half * b * h as f64 / w as f64)).get_normalized();
                        let inside = f64::abs(a) < 1. && f64::abs(b) < 1.;
                        let (px, wt) = cam.pixel_from_ray(&Ray3D { origin: Point3D::new(p[0], p[1], p[2]), direction: dir });
                        let want = (if a > 0. { w - 1 } else { 0 }, if b > 0. { 0 } else { h - 1 });
                        if !cx.check((wt > 0.) == inside && (!inside || w > 40 || h > 40 || px == want), || kd("frustum", format!("direction at ({a}, {b}) of the film's half size: pixel {px:?}, weight {wt}"))) { return; }
                    }
                }
            }
        }
    });
}
