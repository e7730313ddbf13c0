//! W01: where the sun is.
use calendar::Date;
use mcc::*;
use std::f64::consts::PI;
use weather::{Location, Solar, Time};

const MD: [u8; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
pub fn date(day: usize, hour: f64) -> Date {
    let (mut d, mut m) = (day, 0);
    while d >= MD[m] as usize { d -= MD[m] as usize; m += 1; }
    Date { month: m as u8 + 1, day: d as u8 + 1, hour }
}
/// Spencer's series, written down independently (b = 0 on the first of January).
fn declination(n: f64) -> f64 {
    let g = 2. * PI * (n - 1.) / 365.;
    0.006918 - 0.399912 * g.cos() + 0.070257 * g.sin() - 0.006758 * (2. * g).cos() + 0.000907 * (2. * g).sin() - 0.002697 * (3. * g).cos() + 0.00148 * (3. * g).sin()
}
fn eot(n: f64) -> f64 {
    let g = 2. * PI * (n - 1.) / 365.;
    229.2 * (0.000075 + 0.001868 * g.cos() - 0.032077 * g.sin() - 0.014615 * (2. * g).cos() - 0.04089 * (2. * g).sin())
}
/// East, north, up of the sun for a day-of-year `n` (solar time).
pub fn reference(lat: f64, n: f64) -> [f64; 3] {
    let w = 2. * PI * (n.rem_euclid(1.) - 0.5);
    let d = declination(n);
    [-d.cos() * w.sin(), lat.cos() * d.sin() - lat.sin() * d.cos() * w.cos(), lat.sin() * d.sin() + lat.cos() * d.cos() * w.cos()]
}

pub fn w01(cx: &Ctx) {
    let lats: Vec<f64> = {
        let st = cx.pick(5, 1);
        let mut v: Vec<f64> = (-89..=89).filter(|l| l % st == 0).map(|l| l as f64).collect();
        v.extend([-89., -66.56, -66.5, -23.45, 23.45, 51.4772, 66.5, 66.56, 68.1, 89., -33.38]);
        v
    };
    let days: Vec<usize> = (0..365).filter(|d| cx.thorough() || d % 5 == 0 || *d < 2 || *d > 362 || (170..174).contains(d)).collect();
    let sub = cx.pick(4, 12);
    cx.section("solar-time", &format!("{} latitudes x {} days x {} instants of the day (and on the hour, and just after) in solar time, from one day before the new year on", lats.len(), days.len(), 24 * sub), || {
        cx.par_named("solar-time", lats.len(), |li| {
            let latd = lats[li];
            let lat = latd.to_radians();
            let s = Solar::new(lat, 1., 1.);
            for &d in days.iter() {
                for q in 0..24 * sub {
                    // the first days are also seen from the previous evening
                    for shift in [0., -1.] {
                        if shift != 0. && d > 0 { continue; }
                        for off in [0.123, 0., 1e-4] {
                            let n = d as f64 + shift + (q as f64 + off) / (24 * sub) as f64;
                            one(cx, &s, lat, n, Time::Solar(n), "solar-time", &|| format!("latitude {latd}, solar day {n}"));
                        }
                    }
                }
            }
        });
    });
    let lons: Vec<f64> = (-12..12).map(|k| 15. * k as f64 + 3.3).collect();
    cx.section("clock", &format!("13 latitudes x {} longitudes x 27 time zones x {} days x 24 hours: places on the map (east positive) at local clock time; solar and clock time are inverse", lons.len(), days.len()), || {
        cx.par_named("clock", lons.len(), |k| {
            let lon = lons[k];
            for tz in -12i8..=14 {
                for la in -6..=6 {
                    let latd = 14.7 * la as f64;
                    let loc = Location { latitude: latd.to_radians(), longitude: lon.to_radians(), timezone: tz, ..Location::default() };
                    let s = loc.get_solar();
                    // places far from their own meridian are only seen on some days
                    let far = (lon - 15. * tz as f64).abs() > 50.;
                    for &d in days.iter().filter(|d| !far || **d < 2 || **d > 362) {
                        for h in 0..24 {
                            let dt = date(d, h as f64 + 0.37);
                            let std = d as f64 + (h as f64 + 0.37) / 24.;
                            let n = std + (4. * (lon - 15. * tz as f64) + eot(std)) / 1440.;
                            let key = |w: &str| (format!("clock/{w}"), format!("latitude {latd} longitude {lon} time zone {tz}, day {d} hour {}", h as f64 + 0.37));
                            let got = s.unwrap_solar_time(Time::Standard(std));
                            if !cx.check((got - n).abs() < 1e-9, || { let (a, b) = key("solar-time"); (a, format!("{b}: solar time {got} instead of {n}")) }) { return; }
                            let back = s.unwrap_standard_time(Time::Solar(got));
                            if !cx.check((back - std).abs() < 5e-4 && s.unwrap_solar_time(Time::Solar(n)) == n && s.unwrap_standard_time(Time::Standard(n)) == n, || { let (a, b) = key("inverse"); (a, format!("{b}: clock -> solar -> clock gives {back}")) }) { return; }
                            one(cx, &s, lat_of(latd), n, Time::Standard(std), "clock", &|| key("").1);
                            let (a, b) = (s.sun_position_from_standard_time(dt), s.sun_position(Time::Standard(std)));
                            let same = match (a, b) { (None, None) => true, (Some(a), Some(b)) => (a - b).length() < 1e-6, _ => false };
                            if !cx.check(same, || { let (x, y) = key("date"); (x, format!("{y}: the date gives {a:?}, the day number {b:?}")) }) { return; }
                            let (a, b) = (s.sun_position_from_solar_time(dt), s.sun_position(Time::Solar(std)));
                            let same = match (a, b) { (None, None) => true, (Some(a), Some(b)) => (a - b).length() < 1e-6, _ => false };
                            if !cx.check(same, || key("solar-date")) { return; }
                        }
                    }
                }
            }
        });
    });
    let mers: Vec<f64> = (-48..=48).map(|k| 3.75 * k as f64).chain([86.25, -67.3, 0.4, -0.4, 12.345]).collect();
    cx.section("meridian", &format!("{} standard meridians, whole or not x 5 offsets of the longitude from them x 4 latitudes x {} days x 24 hours of clock time", mers.len(), days.len()), || {
        cx.par_named("meridian", mers.len(), |k| {
            for off in [-22.5, -0.3, 0., 7.5, 31.] { for latd in [-41.3f64, 0.5, 27.7, 60.] {
                let s = Solar::new(latd.to_radians(), (mers[k] + off).to_radians(), mers[k].to_radians());
                for &d in &days { for h in 0..24 {
                    let std = d as f64 + (h as f64 + 0.37) / 24.;
                    // west is positive here
                    let n = std + (-4. * off + eot(std)) / 1440.;
                    let got = s.unwrap_solar_time(Time::Standard(std));
                    let what = || format!("meridian {} longitude {} latitude {latd} day {d} hour {h}.37", mers[k], mers[k] + off);
                    if !cx.check((got - n).abs() < 1e-9, || ("meridian/solar-time".into(), format!("{}: solar time {got} instead of {n}", what()))) { return; }
                    one(cx, &s, latd.to_radians(), n, Time::Standard(std), "meridian", &what);
                } }
            } }
        });
    });
    cx.section("day-length", &format!("{} latitudes x {} days: sunrise and sunset are symmetric about solar noon and the sun is on the horizon at both", lats.len(), days.len()), || {
        for &latd in &lats {
            let s = Solar::new(latd.to_radians(), 0., 0.);
            for &d in &days {
                cx.state();
                let n = d as f64 + 0.5;
                let (Time::Solar(a), Time::Solar(b)) = s.sunrise_sunset(n) else { cx.check(false, || ("day-length/kind".into(), "not in solar time".into())); return };
                let x = -(latd.to_radians().tan()) * declination(n).tan();
                if x.abs() >= 1. {
                    // polar day or night
                    let up = s.sun_position(Time::Solar(n)).is_some();
                    if x.abs() > 1.001 && !cx.check(up == (x < 0.), || ("day-length/polar".into(), format!("latitude {latd} day {d}: sun up at noon = {up}"))) { return; }
                    continue;
                }
                let half = x.acos() / (2. * PI);
                if !cx.check((a + b - 2. * n).abs() < 1e-9 && (b - n - half).abs() < 1e-7, || ("day-length/value".into(), format!("latitude {latd} day {d}: sunrise {a} sunset {b}, expected {} {}", n - half, n + half))) { return; }
            }
        }
    });
    cx.assume("days are counted as the code does (0 for the first of January, Spencer's series); directions within 0.8 degrees of the vertical may be reported as vertical; the poles themselves are not judged");
}
fn lat_of(d: f64) -> f64 { d.to_radians() }

fn one(cx: &Ctx, s: &Solar, lat: f64, n: f64, t: Time, sec: &str, what: &dyn Fn() -> String) {
    cx.state();
    let Some(p) = cx.no_panic(|| format!("{sec}/panic"), || s.sun_position(t)) else { return };
    let r = reference(lat, n);
    match p {
        None => { cx.check(r[2] < 2e-3, || (format!("{sec}/missing-sun"), format!("{}: no sun, although it stands at altitude sine {}", what(), r[2]))); }
        Some(p) => {
            let vertical = (p.x, p.y, p.z) == (0., 0., 1.) && r[2] > 0.9998;
            let dist = ((p.x - r[0]).powi(2) + (p.y - r[1]).powi(2) + (p.z - r[2]).powi(2)).sqrt();
            let ok = r[2] > -2e-3 && (vertical || dist < 2e-3) && (p.length() - 1.).abs() < 1e-6;
            cx.check(ok, || (format!("{sec}/direction"), format!("{}: sun at {p} instead of {r:?}", what())));
        }
    }
}
