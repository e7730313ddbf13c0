//! U06: the programs that make, colour and compare pictures
use mcc::pic::{jpeg, seen, Look, Tri};
use mcc::*;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::Spectrum;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};

fn exe(n: &str) -> Result<PathBuf, String> { Ok(std::env::current_exe().map_err(|e| e.to_string())?.with_file_name(format!("{n}_cli"))) }
fn go(e: &Path, dir: &Path, args: &[String]) -> Result<Output, String> {
    Command::new(e).current_dir(dir).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").args(args).output().map_err(|e| e.to_string())
}
fn said(o: &Output) -> String { String::from_utf8_lossy(&o.stderr).chars().rev().take(300).collect::<String>().chars().rev().collect() }
fn failed(o: &Output) -> bool { o.status.code().map_or(false, |c| c != 0) && !o.stderr.is_empty() && !said(o).contains("panicked at") }
fn s(a: &[&str]) -> Vec<String> { a.iter().map(|x| x.to_string()).collect() }

pub fn u06(cx: &Ctx) {
    let sc = Scratch::new("u06");
    let _ = std::fs::create_dir_all(&sc.0);
    let (spict, sfalse, scomp) = match (exe("spict"), exe("sfalsecolor"), exe("scompare")) { (Ok(a), Ok(b), Ok(c)) => (a, b, c), _ => return cx.fail("setup", "no programs") };
    // lamps of colours that pictures hold exactly, and black walls
    let tris = [
        Tri { v: [[-2., 4., -1.5], [1.5, 4., -1.2], [-0.3, 4., 2.]], rgb: [1., 0.5, 0.25] },
        Tri { v: [[-3., 7., -3.], [3.3, 7., -2.9], [0.1, 7.5, 4.]], rgb: [2., 4., 8.] },
        Tri { v: [[-4., -3., -1.], [4., -3., -1.], [0., -3.5, 3.]], rgb: [0.125, 0.75, 0.5] },
        Tri { v: [[-1.2, 3., 1.], [1.4, 3.2, 1.1], [0.2, 3.7, 1.9]], rgb: [0.; 3] },
        Tri { v: [[-5., -5., -2.], [6., -4., -2.], [0.3, 9., -2.]], rgb: [3., 3., 3.] },
    ];
    let mut rad = String::from("void plastic black 0 0 5 0 0 0 0 0\n");
    for (i, t) in tris.iter().enumerate() {
        let c = t.rgb;
        if c[0] > 0. { rad += &format!("void light l{i} 0 0 3 {} {} {}\n", c[0], c[1], c[2]); }
        rad += &format!("{} polygon p{i} 0 0 9 {}\n", if c[0] > 0. { format!("l{i}") } else { "black".into() }, t.v.concat().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    let model = crate::house(&sc.path("optics.json"));
    let prepared = (|| -> Result<(), String> {
        let e = |e: std::io::Error| e.to_string();
        std::fs::write(sc.path("s.rad"), &rad).map_err(e)?;
        std::fs::write(sc.path("s.txt"), &rad).map_err(e)?;
        model::Model::from_json(&model.to_string())?.0.print_to_file(&sc.path("m.spl").to_string_lossy())?;
        let t = std::fs::read(sc.path("m.spl")).map_err(e)?;
        std::fs::write(sc.path("cut.spl"), &t[..t.len() / 2]).map_err(e)
    })();
    if let Err(e) = prepared { return cx.fail("setup", &e) }
    let three = |a: [f64; 3]| format!("{} {} {}", a[0], a[1], a[2]);
    let views = [([0., 0., 0.], [0., 1., 0.], [0., 0., 1.]), ([0.4, -2., 0.7], [0., 2., -0.4], [0., 0.1, 3.]), ([-1., 9., 0.5], [-0.2, -1., -0.1], [-0.3, 0., 1.]), ([0., 3.3, 9.], [0.05, 0., -1.], [0., 1., 0.]), ([-2., -1., -1.5], [-1.5, 4., -2.], [0., 0., 1.])];
    let res = [(7, 5), (33, 8), (1, 1), (12, 130)];
    let names = [("-i", "-o", "-x", "-y", "-p", "-d", "-u", "-h", "-b", "-s", "-a"), ("--input", "--output", "--x", "--y", "--view-point", "--view-direction", "--view-up", "--view_horizontal", "--max_depth", "--shadow_samples", "--ambient_samples")];
    let (nv, nr) = (views.len(), res.len());
    let counts: Vec<[&str; 3]> = cx.pick(vec![["0", "0", "0"], ["2", "3", "1"]], vec![["0", "0", "0"], ["2", "3", "1"], ["1", "1", "70"], ["0", "5", "9"]]);
    cx.section("spict", &format!("{nv} views (points, directions and ups with negative coordinates among them) x {nr} sizes x fields of view x short and long options x {} counts of rays, each option given or left out: the picture of a scene of lamps and black walls", counts.len()), || {
        cx.par_named("spict", nv * nr * 4 * 2 * counts.len() * 2, |k| {
            let ((p, d, up), (w, h), fov, n, c, ups) = (views[k % nv], res[k / nv % nr], [None, Some(25.), Some(60.), Some(110.)][k / nv / nr % 4], names[k / nv / nr / 4 % 2], counts[k / nv / nr / 8 % counts.len()], k / nv / nr / 8 / counts.len() == 1);
            if !ups && up != [0., 0., 1.] { return }
            let out = format!("p{k}.hdr");
            let mut a = s(&[n.0, "s.rad", n.1, &out, n.2, &w.to_string(), n.3, &h.to_string(), n.4, &three(p), n.5, &three(d), n.8, c[0], n.9, c[1], n.10, c[2]]);
            if ups { a.extend(s(&[n.6, &three(up)])); }
            if let Some(f) = fov { a.extend([n.7.to_string(), f.to_string()]); }
            let look = Look { p, d, up, fov: fov.unwrap_or(60.), w, h };
            cx.state();
            let o = match go(&spict, &sc.0, &a) { Ok(o) => o, Err(e) => return cx.fail("setup", &e) };
            let img = ImageBuffer::from_file(&sc.path(&out));
            let _ = std::fs::remove_file(sc.path(&out));
            let img = match img { Ok(i) if o.status.success() => i, i => return { cx.check(false, || ("spict/fails".into(), format!("{a:?}: {:?} {} ({:?})", o.status.code(), said(&o), i.err()))); } };
            if !cx.check((img.width, img.height) == (w, h), || ("spict/size".into(), format!("{a:?}: the picture is {}x{}", img.width, img.height))) { return }
            for y in 0..h { for x in 0..w {
                cx.step();
                let Some(want) = seen(&tris, p, look.ray(x, y)) else { continue };
                let got = img.pixels[y * w + x].0;
                let tol = want.iter().cloned().fold(0., f64::max) / 120.;
                if !cx.check((0..3).all(|i| (got[i] - want[i]).abs() <= tol), || ("spict/pixel".into(), format!("{a:?}: column {x}, row {y} holds {got:?} instead of {want:?}"))) { return }
            } }
        });
        // nothing but what is required
        let a = s(&["-i", "s.rad", "-o", "d.hdr", "-p", "0 0 0", "-d", "0 1 0"]);
        let o = go(&spict, &sc.0, &a);
        let ok = o.as_ref().map_or(false, |o| o.status.success()) && ImageBuffer::from_file(&sc.path("d.hdr")).map_or(false, |i| (i.width, i.height) == (512, 512));
        cx.check(ok, || ("spict/defaults".into(), format!("{a:?}: {:?}", o.as_ref().map(said))));
        let base = [("-i", "s.rad"), ("-o", "e.hdr"), ("-x", "5"), ("-y", "3"), ("-p", "0 0 0"), ("-d", "0 1 0")];
        let wrong = [("-i", "missing.rad"), ("-i", "missing.spl"), ("-i", "cut.spl"), ("-i", "s.txt"), ("-i", "s"), ("-i", ""), ("-o", "nodir/e.hdr"), ("-x", "-5"), ("-x", "a"), ("-y", "1.5"), ("-p", "0 0"), ("-p", "0 0 0 0"), ("-p", "a b c"), ("-d", "1,2,3"), ("-d", ""), ("-h", "wide"), ("-b", "-1"), ("-s", "x"), ("-a", "-3")];
        for (o, v) in wrong {
            let mut a: Vec<String> = base.iter().filter(|b| b.0 != o).flat_map(|b| s(&[b.0, b.1])).collect();
            a.extend(s(&[o, v]));
            cx.state();
            let r = match go(&spict, &sc.0, &a) { Ok(o) => o, Err(e) => return cx.fail("setup", &e) };
            cx.check(failed(&r) && !sc.path("e.hdr").exists(), || ("spict/error".into(), format!("{a:?}: {:?} {}", r.status.code(), said(&r))));
            let _ = std::fs::remove_file(sc.path("e.hdr"));
        }
        for o in ["-i", "-o", "-p", "-d"] {
            let a: Vec<String> = base.iter().filter(|b| b.0 != o).flat_map(|b| s(&[b.0, b.1])).collect();
            cx.state();
            let r = match go(&spict, &sc.0, &a) { Ok(o) => o, Err(e) => return cx.fail("setup", &e) };
            cx.check(failed(&r) && !sc.path("e.hdr").exists(), || ("spict/missing".into(), format!("{a:?}: {:?} {}", r.status.code(), said(&r))));
        }
        let r = go(&spict, &sc.0, &s(&["-i", "m.spl", "-o", "m.hdr", "-x", "6", "-y", "4", "-p", "0 0 0", "-d", "0 1 0"]));
        let ok = r.as_ref().map_or(false, |o| o.status.success()) && ImageBuffer::from_file(&sc.path("m.hdr")).map_or(false, |i| (i.width, i.height) == (6, 4) && i.pixels.iter().all(|p| p.0.iter().all(|v| v.is_finite())));
        cx.check(ok, || ("spict/model".into(), format!("the picture of a model: {:?}", r.as_ref().map(said))));
        for (e, n) in [(&spict, "spict"), (&sfalse, "sfalsecolor"), (&scomp, "scompare")] {
            cx.state();
            let r = go(e, &sc.0, &s(&["--help"]));
            cx.check(r.as_ref().map_or(false, |o| o.status.success() && !o.stdout.is_empty()), || (format!("{n}/help"), format!("{:?}", r.as_ref().map(said))));
        }
    });
    cx.section("rays", "mirror corridors with a lamp after 0 to 6 reflections x 9 depths: the lamp is seen when the depth allows it; matte floors under a lamp, and pools, x 4 counts of shadow and of ambient rays: as many as asked for are sent", || {
        let shot = |rad: &str, name: &str, x: usize, y: usize, p: &str, d: &str, up: &str, fov: &str, b: usize, sh: usize, a: usize| -> Result<ImageBuffer, String> {
            let (f, o) = (format!("{name}.rad"), format!("{name}.hdr"));
            std::fs::write(sc.path(&f), rad).map_err(|e| e.to_string())?;
            let r = go(&spict, &sc.0, &s(&["-i", &f, "-o", &o, "-x", &x.to_string(), "-y", &y.to_string(), "-p", p, "-d", d, "-u", up, "-h", fov, "-b", &b.to_string(), "-s", &sh.to_string(), "-a", &a.to_string()]))?;
            let i = ImageBuffer::from_file(&sc.path(&o));
            let _ = std::fs::remove_file(sc.path(&o));
            let _ = std::fs::remove_file(sc.path(&f));
            if r.status.success() { i.map_err(|e| e.to_string()) } else { Err(said(&r)) }
        };
        cx.par_named("corridors", 7 * 9, |k| {
            let (n, b) = (k % 7, k / 7);
            // a ray that climbs by a half meets a mirror every two metres
            let y = 2. * n as f64 + 0.01;
            let rad = format!("void mirror m 0 0 3 1 1 1\nvoid light l 0 0 3 4 2 1\nm polygon down 0 0 12 -3 -1 0 3 -1 0 3 40 0 -3 40 0\nm polygon up 0 0 12 -3 -1 1 -3 40 1 3 40 1 3 -1 1\nl polygon lamp 0 0 12 -3 {y} -1 3 {y} -1 3 {y} 2 -3 {y} 2\n");
            cx.state();
            for (sh, a) in [(0, 1), (3, 2)] {
                let key = || format!("rays/corridor {n} reflections, -b {b} -s {sh} -a {a}");
                let i = match shot(&rad, &format!("c{k}"), 1, 1, "0 0 0.5", "0 1 0.5", "0 0 1", "1", b, sh, a) { Ok(i) => i, Err(e) => { cx.check(false, || (key(), e)); continue } };
                cx.step();
                let want = if n <= b { [4., 2., 1.] } else { [0.; 3] };
                cx.check((0..3).all(|c| (i.pixels[0].0[c] - want[c]).abs() < 0.05), || (key(), format!("the pixel holds {:?} instead of {want:?}", i.pixels[0].0)));
            }
        });
        cx.par_named("floors", 4 * 4 * 2, |k| {
            let (sh, a, big) = ([0, 1, 3, 8][k % 4], [1, 2, 3, 5][k / 4 % 4], k / 16 == 1);
            // lamps over matte floors are found by shadow rays; the ambient rays choose between reflection and refraction
            let rad = if big { "void dielectric d 0 0 5 1 1 1 1.5 0\nvoid light l 0 0 3 4 4 4\nl polygon lamp 0 0 12 -90 30 0.5 90 30 0.5 90 30 99 -90 30 99\nd polygon floor 0 0 12 -99 -99 0 99 -99 0 99 99 0 -99 99 0\n" } else { "void plastic w 0 0 5 1 1 1 0 0\nvoid light l 0 0 3 4 4 4\nl polygon lamp 0 0 9 0 0 1 0 0.01 1 0.01 0 1\nw polygon floor 0 0 12 -100 -100 0 100 -100 0 100 100 0 -100 100 0\n" };
            cx.state();
            let key = || format!("rays/{} lamp, -s {sh} -a {a}", if big { "pool under a" } else { "floor under a small" });
            let i = match shot(rad, &format!("f{k}"), 24, 8, if big { "0 0 1" } else { "-0.5 0 0.5" }, if big { "0 1 -0.2" } else { "0 0 -1" }, if big { "0 0 1" } else { "0 1 0" }, if big { "2" } else { "20" }, 1, sh, a) { Ok(i) => i, Err(e) => { cx.check(false, || (key(), e)); return } };
            let v: Vec<f64> = i.pixels.iter().map(|p| p.0[0]).collect();
            cx.step();
            if !big {
                cx.check(v.iter().all(|v| (*v > 0.) == (sh > 0)), || (key(), format!("pixels between {:?} and {:?}", v.iter().cloned().reduce(f64::min), v.iter().cloned().reduce(f64::max))));
            } else {
                let parts: Vec<f64> = v.iter().map(|v| v / 4. * a as f64).collect();
                cx.check(parts.iter().all(|p| (p - p.round()).abs() < 0.03 && *p < a as f64 + 0.03), || (key(), format!("pixels are not averages of {a} rays: {:?}", parts.iter().take(12).collect::<Vec<_>>())));
                // of 192 pixels some saw the lamp, and not with all the rays
                cx.check(parts.iter().any(|p| p.round() >= 1.) && parts.iter().any(|p| (p.round() as usize) < a) && (a == 1 || parts.iter().any(|p| p.round() == 1.)), || (key(), format!("all rays of a pixel are the same: {:?}", parts.iter().take(12).collect::<Vec<_>>())));
            }
        });
    });
    cx.section("sfluxmtx", "1, 2 and 3 sensors on the standard input, looking up and down: a row of the matrix for each", || {
        let _ = std::fs::write(sc.path("floor.rad"), "void plastic black 0 0 5 0 0 0 0 0\nblack polygon floor 0 0 12 -9 -9 0 9 -9 0 9 9 0 -9 9 0\n");
        let Ok(e) = exe("sfluxmtx") else { return cx.fail("setup", "no program") };
        for n in 1..=3 {
            cx.state();
            let sensors: String = (0..n).map(|i| format!("{i} 0 1 0 0 {}\n", if i == 1 { -1 } else { 1 })).collect();
            let r = (|| -> Result<Output, String> {
                let mut c = Command::new(&e).current_dir(&sc.0).args(["-i", "floor.rad", "-o", "m.txt", "-a", "50", "-b", "1", "-n", &n.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
                if let Some(mut i) = c.stdin.take() { let _ = std::io::Write::write_all(&mut i, sensors.as_bytes()); }
                c.wait_with_output().map_err(|e| e.to_string())
            })();
            let m = rendering::colour_matrix::read_colour_matrix(&sc.path("m.txt"));
            let _ = std::fs::remove_file(sc.path("m.txt"));
            let ok = r.as_ref().map_or(false, |o| o.status.success()) && m.as_ref().map_or(false, |m| m.size().0 == n && (0..n).all(|i| ((0..m.size().1).map(|j| m.get(i, j).unwrap().radiance()).sum::<f64>() > 0.) == (i != 1)));
            cx.check(ok, || ("sfluxmtx/sensors".into(), format!("{n} sensors: {:?}, matrix of {:?}", r.as_ref().map(|o| o.status.code()), m.map(|m| m.size()))));
        }
        for mf in 1..=4 { for (f, bright) in [("dim.rad", false), ("void.rad", true)] {
            cx.state();
            let _ = std::fs::write(sc.path("dim.rad"), "void plastic black 0 0 5 0 0 0 0 0\nblack polygon above 0 0 12 -999 -999 1.5 999 -999 1.5 999 999 1.5 -999 999 1.5\n");
            let _ = std::fs::write(sc.path("void.rad"), "void plastic black 0 0 5 0 0 0 0 0\nblack polygon below 0 0 12 -9 -9 -1 9 -9 -1 9 9 -1 -9 9 -1\n");
            let r = go(&e, &sc.0, &s(&["-i", f, "-o", "c.txt", "-a", "300", "-b", "1", "-m", &mf.to_string()]));
            let m = rendering::colour_matrix::read_colour_matrix(&sc.path("c.txt"));
            let _ = std::fs::remove_file(sc.path("c.txt"));
            let n = weather::ReinhartSky::new(mf).n_bins;
            let sums: Vec<f64> = m.as_ref().map_or(vec![], |m| (0..m.size().0).map(|i| (0..m.size().1).map(|j| m.get(i, j).unwrap().radiance()).sum::<f64>()).collect());
            // whatever looks up has the whole sky, or none of it
            let ok = r.as_ref().map_or(false, |o| o.status.success()) && m.as_ref().map_or(false, |m| m.size().1 == n) && !sums.is_empty() && sums.iter().all(|x| if bright { (x / std::f64::consts::PI - 1.).abs() < 0.01 } else { *x < 0.05 });
            cx.check(ok, || ("sfluxmtx/columns".into(), format!("-m {mf} {f}: {:?}, matrix of {:?} instead of {n} columns, rows add up to {sums:?}", r.as_ref().map(|o| o.status.code()), m.map(|m| m.size()))));
        } }
        for wrong in [["-m", "x"], ["-m", "-1"], ["-a", "1.5"], ["-b", "deep"], ["-i", "missing.rad"], ["-i", "cut.spl"], ["-i", "s.txt"], ["-o", "nodir/c.txt"], ["-n", "none"]] {
            let mut a: Vec<String> = [("-i", "void.rad"), ("-o", "c.txt"), ("-a", "9"), ("-b", "1")].iter().filter(|b| b.0 != wrong[0]).flat_map(|b| s(&[b.0, b.1])).collect();
            a.extend(s(&wrong));
            cx.state();
            let r = go(&e, &sc.0, &a);
            cx.check(r.as_ref().map_or(false, failed) && !sc.path("c.txt").exists(), || ("sfluxmtx/error".into(), format!("{a:?}: {:?}", r.as_ref().map(said))));
            let _ = std::fs::remove_file(sc.path("c.txt"));
        }
        let r = go(&e, &sc.0, &s(&["-i", "m.spl", "-o", "c.txt", "-a", "20", "-b", "2"]));
        let m = rendering::colour_matrix::read_colour_matrix(&sc.path("c.txt"));
        cx.check(r.as_ref().map_or(false, |o| o.status.success()) && m.as_ref().map_or(false, |m| m.size().1 == 146), || ("sfluxmtx/model".into(), format!("{:?}", r.as_ref().map(said))));
    });
    // pictures of blocks of 8 x 8 equal pixels, which JPEG keeps (to a level or two)
    let levels = [0., 0.25, 0.5, 1., 1.5, 2., 3., 4., 6., 8., 0.001953125, 100.];
    let pic = |w: usize, h: usize, rot: usize, grey: bool| -> ImageBuffer {
        let px = (0..64 * w * h).map(|i| {
            let (x, y) = (i % (8 * w) / 8, i / (8 * w) / 8);
            let v = levels[(y * w + x + rot) % levels.len()];
            if grey { Spectrum::gray(v) } else { Spectrum([v, v / 2., v / 4.]) }
        }).collect();
        ImageBuffer::from_pixels(8 * w, 8 * h, px)
    };
    // a picture as its file keeps it
    let stored = |i: &ImageBuffer, f: &str| i.save_hdre(&sc.path(f)).and_then(|_| ImageBuffer::from_file(&sc.path(f)));
    let maps: [(&str, fn() -> Colourmap); 5] = [("radiance", || Colourmap::Radiance), ("inferno", || Colourmap::Inferno), ("magma", || Colourmap::Magma), ("plasma", || Colourmap::Plasma), ("viridis", || Colourmap::Viridis)];
    let lum = |p: [f64; 3]| 179. * (0.265 * p[0] + 0.67 * p[1] + 0.065 * p[2]);
    // what a falsecolour picture of some luminances has to look like
    let coloured = |v: &[f64], map: Colourmap, log: bool, min: Option<f64>, max: Option<f64>| -> Vec<[f64; 3]> {
        let top = v.iter().cloned().fold(0., f64::max);
        let (lo, hi) = (min.unwrap_or(0.), max.unwrap_or(top));
        v.iter().map(|x| {
            let r = if log { let lo = lo.max(0.001); (x.log10() - lo.log10()) / (hi.log10() - lo.log10()) } else { (x - lo) / (hi - lo) };
            map.map_linear(r, 0., 1.).map(|c| (c * 256.).min(255.))
        }).collect()
    };
    let same = |k: &str, what: &dyn Fn() -> String, f: &Path, w: usize, h: usize, want: &[[f64; 3]]| {
        let got = std::fs::read(f).map_err(|e| e.to_string()).and_then(|b| jpeg(&b));
        let _ = std::fs::remove_file(f);
        let (gw, gh, px) = match got { Ok(g) => g, Err(e) => return { cx.check(false, || (format!("{k}/unreadable"), format!("{}: {e}", what()))); } };
        if !cx.check((gw, gh) == (w, h), || (format!("{k}/size"), format!("{}: the picture is {gw}x{gh}", what()))) { return }
        for (i, p) in px.iter().enumerate() {
            cx.step();
            if !cx.check((0..3).all(|c| (p[c] - want[i][c]).abs() <= 3.), || (format!("{k}/colour"), format!("{}: column {}, row {} is {p:?} instead of {:?}", what(), i % w, i / w, want[i]))) { return }
        }
    };
    let sizes = [(1, 1), (3, 2), (2, 7), (12, 1)];
    let mins = [None, Some(0.), Some(50.), Some(0.001)];
    let maxs = [None, Some(100.), Some(2000.), Some(0.5)];
    let nb = sizes.len() * mins.len() * maxs.len() * 2 * 5;
    // dim pictures: everything below one
    let dims: Vec<usize> = cx.pick(vec![0, 1], vec![0, 1, 2, 3]);
    cx.section("sfalsecolor", &format!("{} sizes x {} brightnesses x 5 colour maps x linear and logarithmic scales x {} lower and {} upper limits, given or not: every pixel has the colour of its luminance", sizes.len(), dims.len(), mins.len(), maxs.len()), || {
        cx.par_named("sfalsecolor", nb * dims.len(), |k| {
            let ((w, h), min, max, log, (mn, map), dim) = (sizes[k % 4], mins[k / 4 % 4], maxs[k / 16 % 4], k / 64 % 2 == 1, maps[k / 128 % 5], dims[k / 640]);
            if log && min == Some(50.) && max == Some(0.5) || min >= max && max.is_some() { return }
            let mut img = pic(w, h, k % 3, k % 2 == 0);
            let f = [1., 0.0001220703125, 0.03125, 1e-9][dim];
            for p in img.pixels.iter_mut() { *p = *p * f; }
            let i = format!("f{k}.hdr");
            let img = match stored(&img, &i) { Ok(i) => i, Err(e) => return cx.fail("setup", &e) };
            let v: Vec<f64> = img.pixels.iter().map(|p| lum(p.0)).collect();
            // (a scale needs a length)
            let top = v.iter().cloned().fold(0., f64::max);
            if max.is_none() && top <= 1.0001 * min.unwrap_or(0f64).max(if log { 0.001 } else { 0. }) { return }
            let o = format!("f{k}.jpg");
            let long = k % 2 == 1;
            let mut a = if long { s(&["--input", &i, "--output", &o, "--map", mn]) } else { s(&["-i", &i, "-o", &o, "-m", mn]) };
            if log { a.push(if long { "--log" } else { "-l" }.into()); }
            if let Some(m) = min { a.extend(["--min".into(), m.to_string()]); }
            if let Some(m) = max { a.extend([if long { "--max" } else { "-s" }.to_string(), m.to_string()]); }
            cx.state();
            let r = match go(&sfalse, &sc.0, &a) { Ok(o) => o, Err(e) => return cx.fail("setup", &e) };
            let _ = std::fs::remove_file(sc.path(&i));
            if !cx.check(r.status.success(), || ("sfalsecolor/fails".into(), format!("{a:?}: {:?} {}", r.status.code(), said(&r)))) { return }
            same("sfalsecolor", &|| format!("{a:?} of a picture of luminances up to {top}"), &sc.path(&o), 8 * w, 8 * h, &coloured(&v, map(), log, min, max));
        });
        if let Err(e) = pic(2, 2, 0, true).save_hdre(&sc.path("g.hdr")) { return cx.fail("setup", &e) }
        let full = std::fs::read(sc.path("g.hdr")).unwrap_or_default();
        let _ = std::fs::write(sc.path("cut.hdr"), &full[..full.len() - 7]);
        for (i, o, m) in [("missing.hdr", "x.jpg", "magma"), ("cut.hdr", "x.jpg", "magma"), ("s.rad", "x.jpg", "magma"), ("g.hdr", "nodir/x.jpg", "magma"), ("g.hdr", "x.jpg", "purple")] {
            for p in [&sfalse, &scomp] {
                cx.state();
                let a = if p == &sfalse { s(&["-i", i, "-o", o, "-m", m]) } else { s(&["-a", i, "-b", "g.hdr", "-o", o, "-m", m]) };
                let r = match go(p, &sc.0, &a) { Ok(o) => o, Err(e) => return cx.fail("setup", &e) };
                cx.check(failed(&r) && !sc.path("x.jpg").exists(), || ("error".into(), format!("{p:?} {a:?}: {:?} {}", r.status.code(), said(&r))));
                let _ = std::fs::remove_file(sc.path("x.jpg"));
            }
        }
    });
    cx.section("scompare", &format!("{} sizes x 12 shifts between two pictures x either order x none or one of 5 colour maps, linear and logarithmic, with and without limits: the difference of each pixel; pictures of different sizes are refused", sizes.len()), || {
        cx.par_named("scompare", 4 * 12 * 2 * 11 * 2, |k| {
            let ((w, h), shift, order, m, limits) = (sizes[k % 4], k / 4 % 12, k / 48 % 2, k / 96 % 11, k / 1056 == 1);
            let (x, y, o) = (format!("a{k}.hdr"), format!("b{k}.hdr"), format!("c{k}.out"));
            let (a, b) = match (stored(&pic(w, h, 0, shift % 2 == 0), &x), stored(&pic(w, h, shift, true), &y)) { (Ok(a), Ok(b)) => (a, b), _ => return cx.fail("setup", "cannot write") };
            let rad = |p: &Spectrum| lum(p.0) / 179.;
            let d: Vec<f64> = a.pixels.iter().zip(&b.pixels).map(|(x, y)| (rad(x) - rad(y)).abs()).collect();
            let (log, map) = (m > 5, if m == 0 { None } else { Some(maps[(m - 1) % 5]) });
            let mut args = if order == 0 { s(&["-a", &x, "-b", &y, "-o", &o]) } else { s(&["-b", &x, "-a", &y, "--output", &o]) };
            if log { args.push("-l".into()); }
            if let Some((n, _)) = map { args.extend(s(&["-m", n])); }
            let (min, max) = if limits { (Some(20.), Some(900.)) } else { (None, None) };
            if limits { args.extend(s(&["--min", "20", "-s", "900"])); }
            cx.state();
            let r = match go(&scomp, &sc.0, &args) { Ok(o) => o, Err(e) => return cx.fail("setup", &e) };
            for f in [&x, &y] { let _ = std::fs::remove_file(sc.path(f)); }
            if !cx.check(r.status.success(), || ("scompare/fails".into(), format!("{args:?}: {:?} {}", r.status.code(), said(&r)))) { return }
            let f = sc.path(&o);
            let what = || format!("{args:?}, {w}x{h} blocks shifted by {shift}");
            match map {
                Some((_, m)) => {
                    let v: Vec<f64> = d.iter().map(|x| x * 179.).collect();
                    // (a scale needs a length)
                    if !limits && v.iter().all(|x| *x <= 0.0011) { let _ = std::fs::remove_file(&f); return }
                    // (near the end of the scale small differences are large on a logarithmic one: the files keep 1 part in 256)
                    same("scompare", &what, &f, 8 * w, 8 * h, &coloured(&v, m(), log, min, max))
                }
                None => {
                    let img = ImageBuffer::from_file(&f);
                    let _ = std::fs::remove_file(&f);
                    let img = match img { Ok(i) => i, Err(e) => return { cx.check(false, || ("scompare/unreadable".into(), format!("{}: {e}", what()))); } };
                    let ok = (img.width, img.height) == (8 * w, 8 * h) && img.pixels.iter().zip(&d).all(|(p, d)| p.0.iter().all(|v| (v - d).abs() <= d / 120.));
                    let at = img.pixels.iter().zip(&d).position(|(p, d)| !p.0.iter().all(|v| (v - d).abs() <= d / 120.)).unwrap_or(0);
                    cx.check(ok, || ("scompare/difference".into(), format!("{}: the picture is {}x{}, pixel {at} holds {:?} instead of {:?}", what(), img.width, img.height, img.pixels.get(at), d.get(at))));
                }
            }
        });
        for (w, h) in [(1, 2), (2, 1), (1, 1), (4, 1)] {
            if pic(2, 2, 0, true).save_hdre(&sc.path("g.hdr")).and(pic(w, h, 0, true).save_hdre(&sc.path("h.hdr"))).is_err() { return cx.fail("setup", "cannot write") }
            for (x, y) in [("g.hdr", "h.hdr"), ("h.hdr", "g.hdr"), ("g.hdr", "missing.hdr")] {
                cx.state();
                let a = s(&["-a", x, "-b", y, "-o", "z.out"]);
                let r = match go(&scomp, &sc.0, &a) { Ok(o) => o, Err(e) => return cx.fail("setup", &e) };
                cx.check(failed(&r) && !sc.path("z.out").exists(), || ("scompare/error".into(), format!("{a:?}: {:?} {}", r.status.code(), said(&r))));
            }
        }
    });
}
