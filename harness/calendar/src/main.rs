//! C01 date arithmetic, C02 periods.
use calendar::{Date, Period};
use chrono::{Datelike, NaiveDate, Timelike};
use mcc::*;
use std::cmp::Ordering;

const ML: [u32; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
/// month/day of the 0-based day `d` (walks the months: independent of the code's tables)
fn md(d: u32) -> (u8, u8) {
    let mut d = d % 365;
    let mut m = 0;
    while d >= ML[m] {
        d -= ML[m];
        m += 1;
    }
    (m as u8 + 1, d as u8 + 1)
}
fn date(d: u32, h: f64) -> Date {
    let (month, day) = md(d);
    Date { month, day, hour: h }
}
/// model position of a date in hours since Jan 1st 0:00
fn pos(d: Date) -> Option<f64> {
    if d.month < 1 || d.month > 12 || d.day < 1 || d.day as u32 > ML[d.month as usize - 1] || !(0.0..24.0).contains(&d.hour) {
        return None;
    }
    let days: u32 = ML[..d.month as usize - 1].iter().sum::<u32>() + d.day as u32 - 1;
    Some(days as f64 * 24.0 + d.hour)
}
fn circ(a: f64, b: f64) -> f64 {
    let y = 8760.0;
    let d = (a - b).rem_euclid(y);
    d.min(y - d)
}

fn c01(c: &Ctx) {
    let hours: Vec<f64> = if c.thorough() {
        (0..96).map(|i| i as f64 / 4.0).chain([1e-9, 0.1, 7.7777, 23.999, 23.9999999]).collect()
    } else {
        vec![0.0, 1e-9, 0.1, 0.5, 1.0, 5.99, 6.0, 7.7777, 12.0, 12.5, 17.25, 18.0, 22.5, 23.0, 23.5, 23.999, 23.9999999]
    };
    c.section("day-of-year", "all 365 days x hour grid", || {
        for d in 0..365u32 {
            for &h in &hours {
                c.state();
                let x = date(d, h);
                let want = d as f64 + h / 24.0;
                c.close(x.day_of_year(), want, 1e-12, || format!("day_of_year/{d}/{h}"));
                // inverse: from the model's own day number and from the code's
                for n in [want, x.day_of_year()] {
                    let Some(b) = c.no_panic(|| format!("from_day_of_year/{d}/{h}"), || Date::from_day_of_year(n)) else { continue };
                    let ok = pos(b).map(|p| circ(p, want * 24.0) < 1e-6).unwrap_or(false);
                    c.check(ok, || (format!("from_day_of_year/{d}/{h}"), format!("Date::from_day_of_year({n}) = {b:?}")));
                }
                // serde
                let s = serde_json::to_string(&x).unwrap();
                let y: Result<Date, _> = serde_json::from_str(&s);
                c.check(matches!(&y, Ok(y) if y.month == x.month && y.day == x.day && (y.hour - x.hour).abs() < 1e-12), || (format!("serde/{d}/{h}"), format!("{x:?} -> {s} -> {y:?}")));
                // printed form: month/day - h:mm within half a minute
                let p = format!("{x}");
                let nums: Vec<f64> = p.split(|ch: char| !ch.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                let ok = nums.len() == 4 && nums[3] < 60. && {
                    let b = date_from(nums[0] as u8, nums[1] as u8);
                    b.map(|b| circ(b * 24.0 + nums[2] + nums[3] / 60., d as f64 * 24.0 + h) <= 0.5 / 60. + 1e-9).unwrap_or(false)
                };
                c.check(ok, || (format!("display/{d}/{h}"), format!("{x:?} prints as '{p}'")));
            }
        }
    });
    c.section("out-of-range-day-numbers", "boundary values", || {
        for n in [-1.0, -1e-9, 365.0, 366.0, 1e9, f64::NAN] {
            c.state();
            c.check(guarded(|| Date::from_day_of_year(n)).is_err(), || (format!("from_day_of_year-range/{n}"), format!("accepted impossible day of the year {n}")));
        }
    });
    c.section("order-and-difference", "all pairs of 365 days x 3 hours", || {
        let hs = [0.0, 11.75, 23.5];
        c.par_named("order", 365, |a| {
            for b in 0..365u32 {
                for (i, &ha) in hs.iter().enumerate() {
                    for &hb in &hs[i % 2..] {
                        c.state();
                        let (x, y) = (date(a as u32, ha), date(b, hb));
                        let (px, py) = (a as f64 * 24. + ha, b as f64 * 24. + hb);
                        let want = px.partial_cmp(&py).unwrap();
                        c.check(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want) && (x < y) == (want == Ordering::Less) && (x >= y) == (want != Ordering::Less) && (x == y) == (want == Ordering::Equal), || (format!("order/{a}-{ha}/{b}-{hb}"), format!("{x:?} vs {y:?}: expected {want:?}, got {:?}", x.cmp(&y))));
                        c.close(x - y, (px - py) / 24., 1e-10, || format!("difference/{a}-{ha}/{b}-{hb}"));
                        c.check(x.same_day(y) == (a as u32 == b), || (format!("same_day/{a}/{b}"), format!("same_day({x:?},{y:?})")));
                        #[allow(deprecated)]
                        let e = x.is_earlier(y);
                        c.check(e == (want == Ordering::Less), || (format!("is_earlier/{a}-{ha}/{b}-{hb}"), format!("is_earlier({x:?},{y:?})")));
                    }
                }
            }
        });
    });
    let maxd = c.pick(800usize, 4000);
    c.section("add_days", &format!("all 365 start days x every count 0..={maxd}"), || {
        c.par_named("add_days", 365, |d| {
            for n in 0..=maxd {
                c.state();
                let mut x = date(d as u32, 7.25);
                x.add_days(n);
                let want = date((d + n) as u32, 7.25);
                c.check(x == want, || (format!("add_days/{d}/{n}"), format!("{:?} + {n} days = {x:?}, expected {want:?}", date(d as u32, 7.25))));
            }
        });
    });
    // durations in hours
    let mut dur: Vec<f64> = vec![0.0, 1. / 3600., 1. / 60., 0.05, 0.1, 0.25, 1. / 3., 0.5, 0.75, 1.0, 1.5, 5.0, 11.9, 12.0, 23.0, 23.999, 24.0, 24.001, 25.0, 36.0, 47.5, 48.0];
    let kmax = c.pick(420, 1500);
    for k in 1..kmax {
        dur.extend([k as f64 * 24.0, k as f64 * 24.0 + 0.5, k as f64 * 24.0 - 0.5, k as f64 * 24. + 13.3]);
    }
    c.section("add_hours/minutes/seconds", &format!("365 days x hour grid x {} durations x 3 units", dur.len()), || {
        let hs: &[f64] = if c.thorough() { &[0.0, 0.7, 6.0, 11.9, 12.5, 18.0, 23.0, 23.999] } else { &[0.0, 12.5, 23.5] };
        c.par_named("add_hours", 365, |d| {
            for &h in hs {
                for &n in &dur {
                    c.state();
                    let x0 = date(d as u32, h);
                    let want = d as f64 * 24. + h + n;
                    for (u, f) in [("hours", 1.0), ("minutes", 60.0), ("seconds", 3600.0)] {
                        let mut x = x0;
                        match u {
                            "hours" => x.add_hours(n * f),
                            "minutes" => x.add_minutes(n * f),
                            _ => x.add_seconds(n * f),
                        }
                        let ok = pos(x).map(|p| circ(p, want) < 1e-6).unwrap_or(false);
                        c.check(ok, || (format!("add_{u}/{d}-{h}/{n}"), format!("{x0:?} + {} {u} = {x:?}", n * f)));
                    }
                }
            }
        });
    });
    c.section("interpolate", "all pairs of 73 days x 2 hours x 5 fractions", || {
        c.par_named("interpolate", 73, |a| {
            for b in 0..73u32 {
                for (ha, hb) in [(0.0, 0.0), (23.5, 1.0), (3.0, 23.9)] {
                    for x in [0.0, 0.25, 0.5, 0.9, 1.0] {
                        c.state();
                        let (da, db) = (date(a as u32 * 5, ha), date(b * 5 + 4, hb));
                        let (pa, mut pb) = (a as f64 * 120. + ha, (b * 5 + 4) as f64 * 24. + hb);
                        if pb < pa {
                            pb += 8760.
                        }
                        let want = pa + x * (pb - pa);
                        let Some(g) = c.no_panic(|| format!("interpolate/{a}-{ha}/{b}-{hb}/{x}"), || da.interpolate(db, x)) else { continue };
                        let ok = pos(g).map(|p| circ(p, want) < 1e-6).unwrap_or(false);
                        c.check(ok, || (format!("interpolate/{a}-{ha}/{b}-{hb}/{x}"), format!("{da:?} -> {db:?} at {x} = {g:?}")));
                    }
                }
            }
        });
    });
    c.section("chrono", "365 days x every minute x seconds grid, year 2023, both ways", || {
        let secs: &[u32] = if c.thorough() { &[0, 1, 15, 29, 30, 31, 45, 59] } else { &[0, 29, 59] };
        c.par_named("chrono", 365, |d| {
            let (m, day) = md(d as u32);
            for mi in 0..1440u32 {
                for &s in secs {
                    c.state();
                    let t = NaiveDate::from_ymd_opt(2023, m as u32, day as u32).unwrap().and_hms_opt(mi / 60, mi % 60, s).unwrap();
                    let x: Date = t.into();
                    let want = mi as f64 / 60. + s as f64 / 3600.;
                    c.check(x.month == m && x.day == day && (x.hour - want).abs() < 1e-9, || (format!("from-chrono/{d}/{mi}/{s}"), format!("{t} -> {x:?}")));
                    match x.into_naive_datetime(2023) {
                        Ok(b) => {
                            let err = (b.signed_duration_since(t)).num_seconds().abs();
                            c.check(err <= 1 && b.year() == 2023 && b.second() < 60, || (format!("to-chrono/{d}/{mi}/{s}"), format!("{x:?} (made from {t}) -> {b}")));
                        }
                        Err(e) => c.fail(&format!("to-chrono/{d}/{mi}/{s}"), &format!("{x:?} -> Err({e})")),
                    }
                }
            }
        });
    });
}
fn date_from(m: u8, d: u8) -> Option<f64> {
    if m < 1 || m > 12 || d < 1 || d as u32 > ML[m as usize - 1] {
        return None;
    }
    Some((ML[..m as usize - 1].iter().sum::<u32>() + d as u32 - 1) as f64)
}

fn c02(c: &Ctx) {
    // start/end positions in hours: all values are multiples of 1/8 h, dt of 450 s: the arithmetic is exact
    let days: Vec<u32> = if c.thorough() { (0..365).step_by(9).chain([30, 31, 58, 59, 363, 364]).collect() } else { vec![0, 1, 30, 31, 58, 59, 100, 180, 211, 212, 300, 333, 334, 363, 364] };
    let hs = [0.0, 0.125, 12.5, 23.0, 23.875];
    let dts: Vec<f64> = vec![450., 900., 3600., 5400., 7200., 21600., 43200., 86400., 90000., 604800., 40. * 86400., 200. * 86400., 363. * 86400.];
    let pts: Vec<(u32, f64)> = days.iter().flat_map(|d| hs.iter().map(move |h| (*d, *h))).collect();
    let n = pts.len();
    c.section("iteration", &format!("all ordered pairs of {n} instants x {} steps; every produced date compared", dts.len()), || {
        c.par_named("period", n * n, |ij| {
            let ((ds, h0), (de, h1)) = (pts[ij / n], pts[ij % n]);
            let (s, e) = (date(ds, h0), date(de, h1));
            let (ps, pe) = (ds as f64 * 24. + h0, de as f64 * 24. + h1);
            let len = if pe >= ps { pe - ps } else { pe - ps + 8760. };
            for &dt in &dts {
                if !c.thorough() && len * 3600. / dt > 1500. && ij % 37 != 0 {
                    continue; // small steps over long periods: thorough tier (and a fixed subset here)
                }
                c.state();
                let want = (len * 3600. / dt).floor() as u64;
                let mut k = 0u64;
                let mut it = Period::new(s, e, dt);
                let mut bad = None;
                let mut steps = 0;
                loop {
                    let Some(x) = it.next() else { break };
                    k += 1;
                    steps += 1;
                    let exp = ps + k as f64 * dt / 3600.;
                    if !pos(x).map(|p| circ(p, exp) < 1e-9).unwrap_or(false) {
                        bad = Some(format!("item {k} is {x:?}, expected hour {exp} of the year"));
                        break;
                    }
                    if !it.contains(x) {
                        bad = Some(format!("produced {x:?}, which the period does not contain"));
                        break;
                    }
                    if k > want + 3 {
                        bad = Some(format!("goes on after {k} items; only {want} fit"));
                        break;
                    }
                }
                c.add_steps(steps);
                if bad.is_none() && k != want {
                    bad = Some(format!("produced {k} dates; {want} fit"));
                }
                // exhausted iterators stay exhausted
                if bad.is_none() && it.next().is_some() {
                    bad = Some("produced a date after having ended".into());
                }
                c.check(bad.is_none(), || (format!("iterate/{ds}-{h0}/{de}-{h1}/{dt}"), format!("period {s:?} .. {e:?} every {dt} s: {}", bad.unwrap())));
            }
        });
    });
    c.section("simulation-steps", "sub-hourly steps n=1..=60 per hour over 3-day windows across year end", || {
        for (a, b) in [(10u32, 13u32), (57, 60), (362, 364), (363, 1), (364, 0), (180, 183)] {
            for n in 1..=60u32 {
                c.state();
                let dt = 3600. / n as f64;
                let (s, e) = (date(a, 0.0), date(b, 23.9));
                let len = (b as f64 * 24. + 23.9 - a as f64 * 24.).rem_euclid(8760.);
                let want = len * n as f64;
                let items: Vec<Date> = Period::new(s, e, dt).take(want as usize + 10).collect();
                let k = items.len() as f64;
                c.check((k - want.floor()).abs() <= 1., || (format!("count/{a}/{b}/{n}"), format!("{s:?}..{e:?} step {dt}: {k} dates; {want} fit")));
                for (i, x) in items.iter().enumerate() {
                    let exp = a as f64 * 24. + (i + 1) as f64 / n as f64;
                    c.check(pos(*x).map(|p| circ(p, exp) < 1e-6).unwrap_or(false), || (format!("item/{a}/{b}/{n}/{i}"), format!("{s:?}..{e:?} step {dt}: item {i} is {x:?}")));
                }
            }
        }
    });
    c.section("contains", "all ordered pairs of instants x 365 days x 3 hours", || {
        c.par_named("contains", n * n, |ij| {
            let ((ds, h0), (de, h1)) = (pts[ij / n], pts[ij % n]);
            let (s, e) = (date(ds, h0), date(de, h1));
            let (ps, pe) = (ds as f64 * 24. + h0, de as f64 * 24. + h1);
            let len = if pe >= ps { pe - ps } else { pe - ps + 8760. };
            let p = Period::new(s, e, 3600.);
            for d in (0..365u32).chain([ds, de]) {
                for h in [h0, h1, 11.0] {
                    c.state();
                    let off = (d as f64 * 24. + h - ps).rem_euclid(8760.);
                    let want = off <= len;
                    let got = p.contains(date(d, h));
                    c.check(got == want, || (format!("contains/{ds}-{h0}/{de}-{h1}/{d}-{h}"), format!("period {s:?}..{e:?} contains {:?}: {got}, expected {want}", date(d, h))));
                }
            }
        });
    });
    c.section("validation", "hours >= 24", || {
        for h in [24.0, 24.5, 100.0] {
            c.state();
            let bad = Date { month: 1, day: 1, hour: h };
            let ok = Date { month: 1, day: 1, hour: 0.0 };
            c.check(guarded(|| Period::new(bad, ok, 60.)).is_err() && guarded(|| Period::new(ok, bad, 60.)).is_err(), || (format!("hour-range/{h}"), format!("period accepted hour {h}")));
        }
    });
}

fn main() {
    main_with(&[("C01", c01), ("C02", c02)])
}
