//! P01: polynomials, schedules and weather made of schedules.
use calendar::Date;
use crate::sun::date;
use mcc::*;
use polynomial::{poly, Polynomial};
use schedule::{EmptySchedule, Schedule, ScheduleConstant};
use weather::{CurrentWeather, SyntheticWeather, WeatherTrait};

const P3: Polynomial = poly![1., -2., 0.5];

/// what a schedule written by a user may do: another value for every hour, and none in the afternoon
struct Hours(f64);
impl Schedule<f64> for Hours {
    fn get(&self, d: Date) -> Option<f64> { if d.hour < 12. { Some(self.0 + d.month as f64 + 0.01 * d.day as f64 + 0.0001 * d.hour) } else { None } }
}

fn polynomials(cx: &Ctx) {
    let xs = [0., 1., -1., 0.5, -0.5, 2., -3., 10., 300., 1e-3, 1e6, -1e6];
    let cs = [0., 1., -2.5, 1e-5];
    let macros: Vec<(Polynomial, Vec<f64>)> = vec![
        (poly![], vec![]), (poly![7.], vec![7.]), (poly![0., 3.], vec![0., 3.]), (P3, vec![1., -2., 0.5]), (poly![1., 2., 3., 4.], vec![1., 2., 3., 4.]),
        (poly![1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 11., 12.], (1..13).map(|k| k as f64).collect()),
    ];
    let value = |c: &[f64], x: f64| c.iter().rev().fold((0., 0.), |(v, m): (f64, f64), c| (v * x + c, m * x.abs() + c.abs()));
    let look = |p: &Polynomial, c: &[f64], how: &str| -> bool {
        cx.state();
        let kd = |w: &str, x: String| (format!("polynomial/{w}"), format!("{how}, with coefficients {c:?}: {x}"));
        let same = p.len() == c.len() && p.len == c.len() && p.is_empty() == c.is_empty() && (0..12).all(|k| p.coefficients[k] == *c.get(k).unwrap_or(&0.));
        if !cx.check(same, || kd("coefficients", format!("{} coefficients {:?}", p.len(), p.coefficients))) { return false; }
        for x in xs {
            cx.step();
            let Some(y) = cx.no_panic(|| "polynomial/panic".into(), || p.eval(x)) else { return false };
            let (want, size) = value(c, x);
            if !cx.check((y - want).abs() <= 1e-12 * size, || kd("value", format!("{y} at {x}, instead of {want}"))) { return false; }
        }
        true
    };
    cx.section("polynomial", "all sequences of up to 6 coefficients out of 4 (and constant ones of up to 12), pushed one by one, at 12 points; one coefficient too many; coefficients beyond the length", || {
        for (p, c) in &macros { if !look(p, c, "made by the macro") { return; } }
        for n in 0..=6u32 {
            for k in 0..4usize.pow(n) {
                let c: Vec<f64> = (0..n).map(|i| cs[k / 4usize.pow(i) % 4]).collect();
                let mut p = if k % 2 == 0 { Polynomial::new() } else { Polynomial::default() };
                for (i, v) in c.iter().enumerate() { p.push(*v); if p.len() != i + 1 { break; } }
                if !look(&p, &c, "pushed") { return; }
                // whatever is stored beyond the length has no part in it
                let mut q = p;
                for i in p.len..12 { q.coefficients[i] = 1e3; }
                if !cx.check(xs.iter().all(|x| q.eval(*x) == p.eval(*x)), || ("polynomial/beyond".into(), format!("{c:?}: coefficients beyond the length change the value"))) { return; }
            }
        }
        for v in cs { for n in 7..=13 {
            let mut p = Polynomial::new();
            let r = guarded(|| { for _ in 0..n { p.push(v); } p });
            if n == 13 {
                cx.state();
                cx.check(r.is_err(), || ("polynomial/too-many".into(), "a thirteenth coefficient is accepted".into()));
            } else {
                let Ok(p) = r else { cx.check(false, || ("polynomial/too-many".into(), format!("{n} coefficients are refused"))); return };
                if !look(&p, &vec![v; n], "pushed") { return; }
            }
        } }
    });
}

fn synthetic(cx: &Ctx) {
    cx.section("synthetic", "weather made of all subsets of 11 schedules (constant, by the hour or absent), at 24 hours of 5 days: each field is its schedule or its documented default", || {
        cx.par_named("synthetic", 2048, |set| {
            for kind in 0..2 {
                let mk = |k: usize| -> Box<dyn Schedule<f64>> {
                    if set >> k & 1 == 0 { Box::new(EmptySchedule) } else if (kind + k) % 2 == 0 { Box::new(ScheduleConstant::new(100. * k as f64 + 3.)) } else { Box::new(Hours(100. * k as f64)) }
                };
                let w = SyntheticWeather {
                    dry_bulb_temperature: mk(0), dew_point_temperature: mk(1), global_horizontal_radiation: mk(2), direct_normal_radiation: mk(3), diffuse_horizontal_radiation: mk(4), wind_speed: mk(5),
                    wind_direction: mk(6), horizontal_infrared_radiation_intensity: mk(7), opaque_sky_cover: mk(8), relative_humidity: mk(9), pressure: mk(10),
                };
                for d in [0, 58, 180, 300, 364] { for h in 0..24 {
                    cx.state();
                    let dt = date(d, h as f64 + 0.25);
                    let get = |k: usize| if set >> k & 1 == 0 { None } else if (kind + k) % 2 == 0 { Some(100. * k as f64 + 3.) } else { Hours(100. * k as f64).get(dt) };
                    let or = |k: usize, v: f64| get(k).unwrap_or(v);
                    let want = CurrentWeather {
                        date: dt, dry_bulb_temperature: or(0, 0.), dew_point_temperature: or(1, 0.), global_horizontal_radiation: or(2, 0.), direct_normal_radiation: or(3, 0.), diffuse_horizontal_radiation: or(4, 0.),
                        wind_speed: or(5, 0.), wind_direction: or(6, 0.), horizontal_infrared_radiation_intensity: get(7), opaque_sky_cover: or(8, 0.), relative_humidity: or(9, 0.5), pressure: or(10, 101300.),
                    };
                    let Some(got) = cx.no_panic(|| "synthetic/panic".into(), || w.get_weather_data(dt)) else { return };
                    if !cx.check(got == want, || ("synthetic/field".into(), format!("schedules {set:#013b} (kind {kind}) on {dt}: {got:?} instead of {want:?}"))) { return; }
                } }
            }
        });
        let w = SyntheticWeather::default().get_weather_data(date(0, 0.));
        cx.check(w == CurrentWeather { date: date(0, 0.), relative_humidity: 0.5, pressure: 101300., dry_bulb_temperature: 0., dew_point_temperature: 0., global_horizontal_radiation: 0., direct_normal_radiation: 0., diffuse_horizontal_radiation: 0., wind_speed: 0., wind_direction: 0., horizontal_infrared_radiation_intensity: None, opaque_sky_cover: 0. }, || ("synthetic/default".into(), format!("{w:?}")));
        for v in [true, false] { cx.check(ScheduleConstant::new(v).get(date(3, 4.)) == Some(v) && Schedule::<bool>::get(&EmptySchedule, date(3, 4.)).is_none(), || ("synthetic/schedule".into(), "a schedule of truth values".into())); }
    });
}
pub fn p01(cx: &Ctx) { polynomials(cx); synthetic(cx); }
