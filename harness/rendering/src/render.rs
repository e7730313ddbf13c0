//! R07: pictures
use geometry::*;
use mcc::pic::{seen, Look, Tri};
use mcc::*;
use rendering::camera::{Film, Pinhole, View};
use rendering::material::*;
use rendering::primitive::Primitive;
use rendering::*;

fn pt(a: [f64; 3]) -> Point3D { Point3D::new(a[0], a[1], a[2]) }
fn v3(a: [f64; 3]) -> Vector3D { Vector3D::new(a[0], a[1], a[2]) }
fn cam(l: &Look) -> Pinhole {
    Pinhole::new(View { view_point: pt(l.p), view_direction: v3(l.d), view_up: v3(l.up), field_of_view: l.fov }, Film { resolution: (l.w, l.h) })
}
pub fn r07(cx: &Ctx) {
    // triangles around the origin: facing, slanted, edge-on, crossing each other, one behind another, out of sight
    let places: Vec<[[f64; 3]; 3]> = vec![
        [[-2., 4., -1.5], [1.5, 4., -1.2], [-0.3, 4., 2.]],
        [[-1., 3., -1.], [2., 6., -1.1], [0.7, 4.2, 1.6]],
        [[-3., 7., -3.], [3.3, 7., -2.9], [0.1, 7.5, 4.]],
        [[0.2, 2., -2.], [0.3, 9., -2.2], [0.25, 5., 2.]],
        [[-4., -3., -1.], [4., -3., -1.], [0., -3.5, 3.]],
        [[-5., -5., -2.], [6., -4., -2.], [0.3, 9., -2.]],
        [[-1.2, 5., 1.], [1.4, 5.2, 1.1], [0.2, 3.7, 1.9]],
        [[1., 1., 0.3], [1.2, 2., -0.9], [3., 2., 0.6]],
    ];
    let res = [(1, 1), (2, 3), (16, 9), (13, 11), (129, 1), (1, 130), (40, 7), (33, 32)];
    let views = [([0., 0., 0.], [0., 1., 0.], [0., 0., 1.]), ([0.4, -2., 0.7], [0., 2., -0.4], [0., 0.1, 3.]), ([1., 9., 0.5], [-0.2, -1., -0.1], [0.3, 0., 1.]), ([0., 3.3, 9.], [0.05, 0., -1.], [0., 1., 0.])];
    let n = places.len();
    cx.section("pictures", &format!("every arrangement of three out of {n} triangles, each a lamp of its own colour or a black wall, x {} views x 3 fields of view x {} resolutions: what each pixel holds is what its ray sees", views.len(), res.len()), || {
        let sets: Vec<[usize; 3]> = (0..n * n * n).map(|k| [k % n, k / n % n, k / n / n]).filter(|s| s[0] < s[1] && s[1] < s[2]).collect();
        let ways = cx.pick(3, 8);
        cx.par_named("pictures", sets.len() * ways, |k| {
            let (s, way) = (sets[k / ways], [0b111, 0b101, 0b010, 0b001, 0b011, 0b100, 0b110, 0][k % ways]);
            let mut sc = Scene::new();
            let black = sc.push_material(Material::Diffuse(Diffuse { colour: Spectrum::BLACK }));
            let mut tris = vec![];
            for (i, p) in s.iter().enumerate() {
                let rgb = if way >> i & 1 == 1 { [1. + i as f64, 10. * (i + 1) as f64, 0.3] } else { [0.; 3] };
                let m = if rgb[0] > 0. { sc.push_material(Material::Light(Light(Spectrum(rgb)))) } else { black };
                let Some(t) = cx.no_panic(|| "pictures/panic".into(), || Triangle3D::new(pt(places[*p][0]), pt(places[*p][1]), pt(places[*p][2]))) else { return };
                let Ok(t) = t else { return cx.fail("pictures/setup", &format!("{:?} is not a triangle", places[*p])) };
                sc.push_object(m, m, Primitive::Triangle(t));
                tris.push(Tri { v: places[*p], rgb });
            }
            sc.build_accelerator();
            for (p, d, up) in views {
                for fov in [30., 60., 110.] {
                    for (w, h) in res {
                        let l = Look { p, d, up, fov, w, h };
                        let depth = (w + h) % 3;
                        let tr = RayTracer { max_depth: depth, n_shadow_samples: 1 + w % 2, n_ambient_samples: 1 + h % 3 };
                        cx.state();
                        let Some(img) = cx.no_panic(|| "pictures/panic".into(), || tr.render(&sc, &cam(&l))) else { return };
                        if !cx.check((img.width, img.height, img.pixels.len()) == (w, h, w * h), || ("pictures/size".into(), format!("a picture of {w}x{h} comes out {}x{}", img.width, img.height))) { return }
                        for y in 0..h { for x in 0..w {
                            cx.step();
                            let Some(want) = seen(&tris, p, l.ray(x, y)) else { continue };
                            let got = img.pixels[y * w + x].0;
                            if !cx.check((0..3).all(|c| (got[c] - want[c]).abs() <= 1e-9 * want[c]), || ("pictures/pixel".into(), format!("triangles {s:?} (lamps {way:03b}), {l:?}: column {x}, row {y} holds {got:?} instead of {want:?}"))) { return }
                        } }
                    }
                }
            }
        });
    });
    let mats = [Material::Diffuse(Diffuse { colour: Spectrum::gray(0.5) }), Material::Plastic(Plastic { colour: Spectrum::gray(0.4), specularity: 0.05, roughness: 0.1 }), Material::Metal(Metal { colour: Spectrum::gray(0.7), specularity: 0.6, roughness: 0.05 }), Material::Mirror(Mirror(Spectrum::gray(0.8))), Material::Glass(Glass { colour: Spectrum::gray(0.8), refraction_index: 1.52 }), Material::Dielectric(Dielectric { colour: Spectrum::ONE, refraction_index: 1.4 })];
    // heights above (and below) the floor, among them the height from which shadow rays leave
    let zs = [0., 0.001, -0.001, 0.5, 1e-6];
    let shapes: Vec<Vec<[f64; 3]>> = {
        let mut v = vec![];
        for z in zs {
            v.push(vec![[1., -1., z], [2., -1., z], [1.5, 2., z]]); // lying
            v.push(vec![[0., -1., z], [2., -1., z], [0., 2., z]]); // lying, under the view
            v.push(vec![[1., 0., z], [2., 0., z], [1.5, 0., z + 1.]]); // standing in the plane of the view
            v.push(vec![[1., -1., z], [1., 1., z], [1., 0., z + 1.]]); // standing across it
            v.push(vec![[1., -1., z], [2., 1., z], [1.5, 0.5, z + 1.]]); // leaning
        }
        v
    };
    let (ns, nm) = (shapes.len(), mats.len());
    let orbs = [([1., 0., 0.5], 0.5), ([1., 0., 0.], 0.5), ([0., 0., 0.001], 0.001), ([1., 1., 2.], 1.)];
    let suns = [[0., 0., 1.], [1., 0., 0.], [0., 0.3, -1.], [1., 1., 1e-3]];
    let total = ns + orbs.len() + suns.len();
    let counts: Vec<[usize; 3]> = (0..27).map(|k| [k % 3, k / 3 % 3, k / 9]).filter(|c| c[0] < 2 || cx.thorough()).collect();
    cx.section("ends", &format!("{total} lamps (lying, standing and leaning triangles, balls and suns, on, in, just over, under and far over a surface) x {nm} materials x {} counts of bounces, shadow rays and samples: the picture is finished, and every pixel is a number that is not negative", counts.len()), || {
        cx.par_named("ends", total * nm * counts.len(), |k| {
            let (lamp, m, c) = (k % total, k / total % nm, counts[k / total / nm]);
            let mut sc = Scene::new();
            let f = sc.push_material(mats[m].clone());
            let l = sc.push_material(Material::Light(Light(Spectrum::gray(10.))));
            let tri = |v: &[[f64; 3]]| Triangle3D::new(pt(v[0]), pt(v[1]), pt(v[2]));
            sc.push_object(f, f, Primitive::Triangle(tri(&[[-5., -5., 0.], [9., -5., 0.], [0., 9., 0.]]).unwrap()));
            sc.push_object(f, f, Primitive::Triangle(tri(&[[4., -5., -1.], [4., 5., -1.], [4., 0., 5.]]).unwrap()));
            let what;
            if lamp < ns {
                what = format!("a lamp with corners {:?}", shapes[lamp]);
                let Ok(t) = tri(&shapes[lamp]) else { return cx.fail("ends/setup", &what) };
                sc.push_object(l, l, Primitive::Triangle(t));
            } else if lamp < ns + orbs.len() {
                let (o, r) = orbs[lamp - ns];
                what = format!("a ball at {o:?} of radius {r}");
                sc.push_object(l, l, Primitive::Sphere(Sphere3D::new(r, pt(o))));
            } else {
                let d = suns[lamp - ns - orbs.len()];
                what = format!("a sun towards {d:?}");
                sc.push_object(l, l, Primitive::Source(DistantSource3D::new(v3(d), 0.533f64.to_radians())));
            }
            sc.build_accelerator();
            for (p, d) in [([-3., 0., 2.], [1., 0., -0.4]), ([0., 0., 3.], [0., 0., -1.]), ([1., 0., -2.], [0., 0., 1.])] {
                let look = Look { p, d, up: if d[0] == 0. { [0., 1., 0.] } else { [0., 0., 1.] }, fov: 50., w: 5, h: 5 };
                let tr = RayTracer { n_ambient_samples: c[0], n_shadow_samples: c[1], max_depth: c[2] };
                let at = format!("{what} and a {:?} floor and wall seen from {p:?} with {} samples, {} shadow rays and {} bounces", mats[m], c[0], c[1], c[2]);
                cx.state();
                let Some(img) = cx.watch(16 + k % 48, || at.clone(), || cx.no_panic(|| "ends/panic".into(), || tr.render(&sc, &cam(&look)))) else { return };
                for (i, q) in img.pixels.iter().enumerate() {
                    cx.step();
                    if !cx.check(q.0.iter().all(|v| v.is_finite() && *v >= 0.), || ("ends/number".into(), format!("{at}: pixel {i} holds {q:?}"))) { return }
                }
            }
        });
    });
}
