//! W03: EPW files are read field by field or refused; weather is interpolated around the year.
use calendar::Date;
use mcc::*;
use std::f64::consts::PI;
use weather::{CurrentWeather, EPWWeather, EPWWeatherLine, Location, Weather, WeatherTrait};

const HEAD: &str = "LOCATION,SANTIAGO,-,CHL,IWEC Data,855740,-33.38,-70.78,-4.0,476.0\nDESIGN CONDITIONS,0\nTYPICAL/EXTREME PERIODS,0\nGROUND TEMPERATURES,1,.5,,,,1,2,3,4,5,6,7,8,9,10,11,12\nHOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0\nCOMMENTS 1,\"IWEC, the file\"\nCOMMENTS 2, soil\nDATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31\n";
const NF: usize = 35;
/// the fields of record `i`; all different from each other
fn fields(i: usize) -> Vec<String> {
    (0..NF).map(|f| match f {
        0 => format!("{}", 1987 + i),
        1 => format!("{}", i % 12 + 1),
        2 => format!("{}", i % 28 + 2),
        3 => format!("{}", i % 24 + 1),
        4 => format!("{}", 60 - i % 20),
        5 => "C9C9C9C9*0?9".to_string(),
        20 => format!("{}", 37 * (i + 3) % 360),
        22 | 23 => format!("{}", (i + f) % 11),
        31 => format!("{}", 300 + i),
        _ => format!("{}", f as f64 * 3.25 + 100. + i as f64 / 8.),
    }).collect()
}
fn get(l: &EPWWeatherLine, f: usize) -> Option<f64> {
    Some(match f {
        0 => l.year as f64, 1 => l.month as f64, 2 => l.day as f64, 3 => l.hour, 4 => l.minute as f64, 5 => return None,
        6 => l.dry_bulb_temperature, 7 => l.dew_point_temperature, 8 => l.relative_humidity, 9 => l.atmospheric_station_pressure,
        10 => l.extraterrestrial_horizontal_radiation, 11 => l.extraterrestrial_direct_normal_radiation, 12 => l.horizontal_infrared_radiation_intensity,
        13 => l.global_horizontal_radiation, 14 => l.direct_normal_radiation, 15 => l.diffuse_horizontal_radiation,
        16 => l.global_horizontal_illuminance, 17 => l.direct_normal_illuminance, 18 => l.diffuse_horizontal_illuminance, 19 => l.zenith_luminance,
        20 => l.wind_direction, 21 => l.wind_speed, 22 => l.total_sky_cover, 23 => l.opaque_sky_cover, 24 => l.visibility, 25 => l.ceiling_height,
        26 => l.present_weather_observation, 27 => l.present_weather_codes, 28 => l.precipitable_water, 29 => l.aerosol_optical_depth, 30 => l.snow_depth,
        31 => l.last_day_since_last_snowfall as f64, 32 => l.albedo, 33 => l.liquid_precipitation_depth, 34 => l.liquid_precipitation_quantity,
        _ => unreachable!(),
    })
}
fn line_ok(l: &EPWWeatherLine, src: &[String]) -> Result<(), String> {
    for f in 0..NF {
        if let Some(v) = get(l, f) {
            let w: f64 = src[f].parse().map_err(|_| format!("field {f} was {:?}", src[f]))?;
            if (v - w).abs() > 1e-9 { return Err(format!("field {} of the record is {w} in the file but {v} when read", f + 1)); }
        }
    }
    Ok(())
}
fn conv_ok(c: &CurrentWeather, s: &[String]) -> Result<(), String> {
    let v = |f: usize| s[f].parse::<f64>().unwrap();
    let want = [("dry bulb", c.dry_bulb_temperature, v(6)), ("dew point", c.dew_point_temperature, v(7)), ("humidity", c.relative_humidity, v(8) / 100.), ("pressure", c.pressure, v(9)),
        ("infrared", c.horizontal_infrared_radiation_intensity.unwrap_or(f64::NAN), v(12)), ("global", c.global_horizontal_radiation, v(13)), ("direct", c.direct_normal_radiation, v(14)), ("diffuse", c.diffuse_horizontal_radiation, v(15)),
        ("wind direction", c.wind_direction, v(20).to_radians()), ("wind speed", c.wind_speed, v(21)), ("sky cover", c.opaque_sky_cover, v(23) / 10.),
        ("month", c.date.month as f64, v(1)), ("day", c.date.day as f64, v(2))];
    for (n, a, b) in want { if !((a - b).abs() <= 1e-9) { return Err(format!("{n} is {a} instead of {b}")); } }
    if !((c.date.hour - v(3)).abs() < 1e-4) { return Err(format!("hour {} instead of {}", c.date.hour, v(3))); }
    Ok(())
}
fn body(recs: &[Vec<String>], eol: &str) -> String {
    recs.iter().map(|r| r.join(",") + eol).collect()
}

pub fn w03(cx: &Ctx) {
    let dir = Scratch::new("w03");
    let read = |i: usize, text: &[u8]| -> Option<Result<EPWWeather, String>> {
        let f = dir.path(&format!("f{i}.epw"));
        std::fs::write(&f, text).unwrap();
        cx.no_panic(|| "epw/panic".into(), || EPWWeather::from_file(f.to_str().unwrap().to_string()))
    };
    let nrec = cx.pick(60, 400);
    cx.section("records", &format!("files of 0..{nrec} records in different positions, LF and CRLF, with and without a final line break; every field of every record and its conversion"), || {
        for n in (0..nrec).step_by(7).chain([1, 2, 3]) {
            for eol in ["\n", "\r\n"] {
                for fin in [true, false] {
                    cx.state();
                    let recs: Vec<Vec<String>> = (0..n).map(|i| fields(i * 3 + n)).collect();
                    let mut t = HEAD.replace('\n', eol) + &body(&recs, eol);
                    if !fin { t.truncate(t.len() - eol.len()); }
                    let Some(r) = read(0, t.as_bytes()) else { return };
                    let kd = |w: &str, d: String| (format!("records/{w}"), format!("{n} records, line break {eol:?}, final break {fin}: {d}"));
                    let e = match r { Ok(e) => e, Err(e) => { cx.check(false, || kd("refused", e)); return; } };
                    if !cx.check(e.data.len() == n, || kd("count", format!("{} records read", e.data.len()))) { return; }
                    let w: Weather = e.clone().into();
                    for i in 0..n {
                        cx.step();
                        let r = line_ok(&e.data[i], &recs[i]);
                        if !cx.check(r.is_ok(), || kd("field", format!("record {i}: {}", r.unwrap_err()))) { return; }
                        let r = conv_ok(&w.data[i], &recs[i]);
                        if !cx.check(r.is_ok(), || kd("conversion", format!("record {i}: {}", r.unwrap_err()))) { return; }
                    }
                    let l = &w.location;
                    let ok = l.city == "SANTIAGO" && l.state == "-" && l.country == "CHL" && l.source == "IWEC Data" && l.wmo == "855740" && (l.latitude.to_degrees() + 33.38).abs() < 1e-9 && (l.longitude.to_degrees() + 70.78).abs() < 1e-9 && l.timezone == -4 && l.elevation == 476.;
                    if !cx.check(ok, || kd("location", format!("{l:?}"))) { return; }
                    let g = &e.ground_temperature;
                    if !cx.check(g.len() == 1 && g[0].depth == 0.5 && g[0].soil_density.is_none() && (0..12).all(|m| g[0].average_monthly_temperature[m] == m as f64 + 1.), || kd("ground", format!("{g:?}"))) { return; }
                }
            }
        }
        // every value of the fields with a conversion of their own
        for d in 0..=360 {
            cx.state();
            let mut f = fields(1);
            f[20] = d.to_string();
            let Some(Ok(e)) = read(0, (HEAD.to_string() + &body(&[f.clone()], "\n")).as_bytes()) else { cx.check(false, || ("records/wind".into(), format!("wind direction {d} refused"))); return };
            let c: CurrentWeather = (&e.data[0]).into();
            if !cx.check(conv_ok(&c, &f).is_ok(), || ("records/wind-direction".into(), format!("a wind direction of {d} degrees is read as {} degrees", c.wind_direction.to_degrees()))) { return; }
        }
        let mut f = fields(1);
        f[20] = "999".into();
        let Some(Ok(e)) = read(0, (HEAD.to_string() + &body(&[f], "\n")).as_bytes()) else { cx.check(false, || ("records/wind".into(), "missing wind direction refused".into())); return };
        let mut f = fields(1);
        f[12] = "9999".into();
        let Some(Ok(q)) = read(0, (HEAD.to_string() + &body(&[f], "\n")).as_bytes()) else { cx.check(false, || ("records/infrared".into(), "missing infrared radiation refused".into())); return };
        let c: CurrentWeather = (&q.data[0]).into();
        cx.check(c.horizontal_infrared_radiation_intensity.is_none(), || ("records/infrared-missing".into(), format!("missing infrared radiation (9999) is read as {:?} W/m2", c.horizontal_infrared_radiation_intensity)));
        cx.check((0. ..=360.).contains(&e.data[0].wind_direction), || ("records/wind-missing".into(), format!("a missing wind direction is read as {} degrees", e.data[0].wind_direction)));
    });
    places(cx, &read);
    cx.section("ground", "0..4 layers x all patterns of present and missing soil data", || {
        for n in 0..=3usize {
            for pat in 0..8usize.pow(n as u32) {
                cx.state();
                let mut t = format!("GROUND TEMPERATURES,{n}");
                for l in 0..n {
                    t += &format!(",{}", 0.5 + l as f64);
                    for b in 0..3 { t += ","; if pat >> (3 * l + b) & 1 == 1 { t += &format!("{}", 100 * b + l + 1); } }
                    for m in 0..12 { t += &format!(",{}", 20. - m as f64 + 100. * l as f64); }
                }
                for tail in ["\n", "", "\r\n", "\nLOCATION,A,B,C,D,E,1,2,3,4\n"] {
                    let Some(r) = read(1, (t.clone() + tail).as_bytes()) else { return };
                    let ok = match &r {
                        Ok(e) => e.ground_temperature.len() == n && (0..n).all(|l| {
                            let g = &e.ground_temperature[l];
                            let soil = [g.soil_conductivity, g.soil_density, g.soil_specific_heat];
                            g.depth == 0.5 + l as f64 && (0..3).all(|b| soil[b] == (pat >> (3 * l + b) & 1 == 1).then_some((100 * b + l + 1) as f64)) && (0..12).all(|m| g.average_monthly_temperature[m] == 20. - m as f64 + 100. * l as f64)
                        }) && (!tail.contains("LOC") || e.location.city == "A"),
                        Err(_) => false,
                    };
                    if !cx.check(ok, || ("ground/layers".into(), format!("{n} layers, soil data pattern {pat:b}, ending {tail:?}: {:?}", r.map(|e| e.ground_temperature)))) { return; }
                }
            }
        }
    });
    cx.section("malformed", "every field of a record, the location and the header x 9 malformed values; records one field short or long at each place; each kind of stray quote, line and header", || {
        let recs: Vec<Vec<String>> = (0..3).map(fields).collect();
        let good = HEAD.to_string() + &body(&recs, "\n");
        let bad = ["", "x", " ", "1 2", "--1", "1,", "\"", "é", "\u{0}"];
        for k in 0..3 {
            for f in 0..NF {
                for b in bad {
                    cx.state();
                    if f == 5 && b != "1," { continue; }
                    let mut r = recs.clone();
                    r[k][f] = b.to_string();
                    let Some(e) = read(2, (HEAD.to_string() + &body(&r, "\n")).as_bytes()) else { return };
                    if !cx.check(e.is_err(), || ("malformed/accepted".into(), format!("record {k} of 3 with field {} = {b:?} is accepted: {:?}", f + 1, e.map(|e| e.data)))) { return; }
                }
                // one field too few, one too many
                for long in [false, true] {
                    cx.state();
                    let mut r = recs.clone();
                    if long { r[k].insert(f, "1".into()); } else { r[k].remove(f); }
                    for eol in ["\n", "\r\n"] {
                        let Some(e) = read(2, (HEAD.replace('\n', eol) + &body(&r, eol)).as_bytes()) else { return };
                        if !cx.check(e.is_err(), || ("malformed/length".into(), format!("record {k} of 3 with {} fields is accepted", r[k].len()))) { return; }
                    }
                }
            }
        }
        // a record broken over two lines, the file ending with or without a line break
        for k in 0..3 {
            for f in 1..NF {
                for fin in [true, false] {
                    cx.state();
                    let mut r = recs[..=k].to_vec();
                    r[k][f] = "\n".to_string() + &r[k][f];
                    let mut t = (HEAD.to_string() + &body(&r, "\n")).replace(",\n", "\n");
                    if !fin { t.pop(); }
                    let Some(e) = read(2, t.as_bytes()) else { return };
                    if !cx.check(e.is_err(), || ("malformed/broken".into(), format!("record {k} broken before field {} is accepted", f + 1))) { return; }
                }
            }
        }
        for (f, vals) in [(1, ["0", "13", "300", "-1"]), (2, ["0", "32", "99", "-2"]), (3, ["-1", "26", "1e9", "NaN"])] {
            for v in vals {
                cx.state();
                let mut r = recs.clone();
                r[1][f] = v.into();
                let Some(e) = read(2, (HEAD.to_string() + &body(&r, "\n")).as_bytes()) else { return };
                if !cx.check(e.is_err(), || ("malformed/date".into(), format!("a record with field {} = {v} is accepted", f + 1))) { return; }
            }
        }
        // headers
        for (a, b, refuse) in [("DATA PERIODS,1,1", "DATA PERIODS,2,1", true), ("DATA PERIODS,1,1", "DATA PERIODS,0,1", true), ("DATA PERIODS,1,1", "DATA PERIODS,1,2", true), ("DATA PERIODS,1,1", "DATA PERIODS,,", true), ("DATA PERIODS,1,1", "DATA PERIODS,x,1", true),
            ("-33.38", "", true), ("-33.38", "south", true), ("-70.78", "x", true), ("-4.0", "x", true), ("476.0", "", true), ("TEMPERATURES,1,.5", "TEMPERATURES,x,.5", true), ("TEMPERATURES,1,.5", "TEMPERATURES,1,", true), (",12\n", ",\n", true),
            ("COMMENTS 2, soil", "COMMENTS 2, a 3\" pipe", false), ("COMMENTS 2, soil", "COMMENTS 2, \"soil", false), ("LOCATION,", ",\nLOCATION,", false), ("LOCATION,", "\nLOCATION,", false), ("COMMENTS 2, soil", "", false), ("COMMENTS 2, soil", "COMMENTS 2, \"\"\"x\"\"\"", false)] {
            for eol in ["\n", "\r\n"] {
                cx.state();
                let t = good.replacen(a, b, 1).replace('\n', eol);
                assert!(good.contains(a));
                let Some(e) = read(2, t.as_bytes()) else { return };
                let ok = match &e { Err(_) => refuse, Ok(e) => !refuse && e.data.len() == 3 && (0..3).all(|i| line_ok(&e.data[i], &recs[i]).is_ok()) && e.location.city == "SANTIAGO" };
                if !cx.check(ok, || ("malformed/header".into(), format!("{a:?} replaced by {b:?} (line break {eol:?}): {:?}", e.map(|e| (e.data.len(), e.location))))) { return; }
            }
        }
        let missing = cx.no_panic(|| "epw/panic".into(), || EPWWeather::from_file(dir.path("nothing").to_str().unwrap().to_string()).is_err());
        cx.check(missing == Some(true), || ("malformed/no-file".into(), "a missing file is accepted".into()));
    });
    cx.section("torn", "a file of 4 records cut at every byte", || {
        for eol in ["\n", "\r\n"] {
            let recs: Vec<Vec<String>> = (0..4).map(fields).collect();
            let t = HEAD.replace('\n', eol) + &body(&recs, eol);
            let starts: Vec<usize> = (0..=4).map(|k| HEAD.replace('\n', eol).len() + body(&recs[..k], eol).len()).collect();
            cx.par_named("torn", t.len(), |cut| {
                cx.state();
                let Some(e) = read(10 + cut, &t.as_bytes()[..cut]) else { return };
                if let Ok(e) = e {
                    let full = (0..4).filter(|k| starts[k + 1] <= cut).count();
                    // a last record may miss its line break or some digits of its last number
                    let extra = e.data.len() == full + 1 && full < 4 && cut > starts[full] && t[starts[full]..cut].matches(',').count() == NF - 1;
                    let ok = (e.data.len() == full || extra) && (cut < starts[0] || e.location.city == "SANTIAGO") && (0..full).all(|i| line_ok(&e.data[i], &recs[i]).is_ok()) && (!extra || (0..NF - 1).all(|f| get(&e.data[full], f).is_none_or(|v| (v - recs[full][f].parse::<f64>().unwrap()).abs() < 1e-9)));
                    // within a record the file is not complete
                    let partial = cut > starts[0] && !starts.contains(&cut) && !extra;
                    cx.check(ok && !partial, || ("torn/accepted".into(), format!("a file with line break {eol:?} cut at byte {cut} of {} (records start at {starts:?}) is read as {} records", t.len(), e.data.len())));
                }
                let _ = std::fs::remove_file(dir.path(&format!("f{}.epw", 10 + cut)));
            });
        }
    });
    let depth = cx.pick(5, 6);
    cx.section("soup", &format!("all sequences of up to {depth} tokens out of 9"), || {
        let toks: [&[u8]; 9] = [b"LOCATION", b"DATA PERIODS", b"GROUND TEMPERATURES", b",", b"\n", b"1", b"\"", b"\r", b"\xff"];
        for d in 0..=depth {
            cx.par_named("soup", 9usize.pow(d as u32), |k| {
                cx.state();
                let mut t = vec![];
                let mut x = k;
                for _ in 0..d { t.extend_from_slice(toks[x % 9]); x /= 9; }
                let f = dir.path(&format!("s{:?}.epw", std::thread::current().id()));
                std::fs::write(&f, &t).unwrap();
                if let Err(p) = guarded(|| EPWWeather::from_file(f.to_str().unwrap().to_string()).is_ok()) {
                    cx.fail("soup/panic", &format!("{:?}: {p}", String::from_utf8_lossy(&t)));
                }
            });
        }
    });
    interpolation(cx);
}

fn day(d: &Date) -> f64 {
    const C: [f64; 12] = [0., 31., 59., 90., 120., 151., 181., 212., 243., 273., 304., 334.];
    C[d.month as usize - 1] + d.day as f64 - 1. + d.hour / 24.
}
fn rec(k: usize, date: Date) -> CurrentWeather {
    let f = |j: usize| ((k * 7 + j * 5) % 11) as f64 - 3.;
    CurrentWeather {
        date, dry_bulb_temperature: f(0), dew_point_temperature: f(1), global_horizontal_radiation: 100. * f(2).abs(), direct_normal_radiation: 10. * f(3).abs(), diffuse_horizontal_radiation: 7. * f(4).abs(),
        wind_speed: f(5).abs(), wind_direction: [0., 10., 350., 90., 170., 190., 355., 45., 359.5][k % 9] * PI / 180., horizontal_infrared_radiation_intensity: (k % 5 != 3).then_some(300. + f(6)),
        opaque_sky_cover: f(7).abs() / 10., relative_humidity: f(8).abs() / 10., pressure: 101000. + f(9),
    }
}
fn vals(c: &CurrentWeather) -> [f64; 10] {
    [c.dry_bulb_temperature, c.dew_point_temperature, c.global_horizontal_radiation, c.direct_normal_radiation, c.diffuse_horizontal_radiation, c.wind_speed, c.horizontal_infrared_radiation_intensity.unwrap_or(-1.), c.opaque_sky_cover, c.relative_humidity, c.pressure]
}
fn interpolation(cx: &Ctx) {
    let d = |month, day, hour| Date { month, day, hour };
    let pool = [d(1, 1, 0.), d(1, 1, 1.), d(1, 2, 0.5), d(2, 28, 23.5), d(3, 1, 0.), d(6, 30, 12.), d(12, 31, 21.), d(12, 31, 23.), d(12, 31, 23.999999), d(7, 1, 0.)];
    let np = cx.pick(8, 10);
    cx.section("interpolation", &format!("all non-empty sets of records out of {np} instants, in every rotation, asked at and around all instants; records in order after sorting and joining"), || {
        cx.par_named("interpolation", 1 << np, |mask| {
            let idx: Vec<usize> = (0..np).filter(|k| mask >> k & 1 == 1).collect();
            if idx.is_empty() { return; }
            // hand the records over in two parts and out of order
            for rot in 0..idx.len().min(3) {
                let mut all: Vec<CurrentWeather> = idx.iter().map(|&k| rec(k, pool[k])).collect();
                all.rotate_left(rot);
                let cut = all.len() / 2;
                let mut w = Weather { data: all[..cut].to_vec(), location: Location::default() };
                w += Weather { data: all[cut..].to_vec(), location: Location::default() };
                w.sort_data();
                let mut sorted = all.clone();
                sorted.sort_by(|a, b| day(&a.date).total_cmp(&day(&b.date)));
                if !cx.check(w.data == sorted, || ("interpolation/sorting".into(), format!("records {idx:?} rotated by {rot}"))) { return; }
                let times: Vec<f64> = sorted.iter().map(|c| day(&c.date)).collect();
                let mut qs: Vec<f64> = pool.iter().map(|p| day(p)).collect();
                qs.extend(pool.iter().flat_map(|p| [0.01, -0.01, 0.1, 3.3].map(|s| (day(p) + s).rem_euclid(365.))));
                qs.extend((0..24).map(|k| k as f64 * 15.2083 + 0.1));
                for q in qs {
                    cx.state();
                    let exact = sorted.iter().find(|c| day(&c.date) == q);
                    let date = match exact { Some(c) => c.date, None => Date::from_day_of_year(q) };
                    let Some(got) = cx.no_panic(|| "interpolation/panic".into(), || w.get_weather_data(date)) else { return };
                    let kd = |w: &str, s: String| (format!("interpolation/{w}"), format!("records at days {times:?}, asked for day {q}: {s}"));
                    if let Some(e) = exact {
                        if !cx.check(got == *e, || kd("exact", "not the record of that instant".into())) { return; }
                        continue;
                    }
                    let n = sorted.len();
                    let i = times.iter().filter(|t| **t <= q).count();
                    let (b, a) = ((i + n - 1) % n, i % n);
                    let span = { let s = (times[a] - times[b]).rem_euclid(365.); if s == 0. { 365. } else { s } };
                    let x = (q - times[b]).rem_euclid(365.) / span;
                    let (vb, va) = (vals(&sorted[b]), vals(&sorted[a]));
                    let ir = sorted[b].horizontal_infrared_radiation_intensity.is_some() && sorted[a].horizontal_infrared_radiation_intensity.is_some();
                    let g = vals(&got);
                    for f in 0..10 {
                        let want = if f == 6 && !ir { -1. } else { vb[f] + x * (va[f] - vb[f]) };
                        if !cx.check((g[f] - want).abs() < 1e-5 * (1. + want.abs()), || kd("value", format!("quantity {f} is {} instead of {want} (between {} and {})", g[f], vb[f], va[f]))) { return; }
                    }
                    // the wind turns the short way round
                    let turn = { let t = (sorted[a].wind_direction - sorted[b].wind_direction).rem_euclid(2. * PI); if t > PI { t - 2. * PI } else { t } };
                    let err = (got.wind_direction - sorted[b].wind_direction - x * turn).rem_euclid(2. * PI);
                    let half = (turn.abs() - PI).abs() < 1e-9;
                    if !cx.check(half || err.min(2. * PI - err) < 1e-5 && (-1e-9..=2. * PI + 1e-9).contains(&got.wind_direction), || kd("wind", format!("the wind blows from {:.3} degrees between {:.3} and {:.3}", got.wind_direction.to_degrees(), sorted[b].wind_direction.to_degrees(), sorted[a].wind_direction.to_degrees()))) { return; }
                    // and the answer is about the instant asked for
                    let dd = (day(&got.date) - q).rem_euclid(365.);
                    if !cx.check(n == 1 || dd.min(365. - dd) < 1e-6, || kd("date", format!("the answer is dated {:?}", got.date))) { return; }
                }
            }
        });
    });
    cx.assume("a file cut inside the last number of a record is not told from a complete one");
}

type Read<'a> = dyn Fn(usize, &[u8]) -> Option<Result<EPWWeather, String>> + Sync + 'a;
fn places(cx: &Ctx, read: &Read) {
    let zones: Vec<f64> = (-12..=14).map(|z| z as f64).chain([-9.5, -3.5, 3.5, 4.5, 5.5, 5.75, 6.5, 8.75, 9.5, 10.5, 12.75]).collect();
    let texts = ["SANTIAGO", "", "-", "\"Santiago, Chile\"", "\"\"", "\"a,b\",\"", "LOCATION", "São Paulo", "DATA PERIODS", "\"DATA PERIODS,1,1\""];
    let rest = HEAD.split_once('\n').unwrap().1;
    cx.section("places", &format!("{} time zones, whole or not; 5 texts of the location x {} texts, some with commas in quotes; signs of latitude, longitude and elevation", zones.len(), texts.len() - 1), || {
        let go = |t: [&str; 5], lat: f64, lon: f64, z: f64, el: f64, key: &str| {
            cx.state();
            let head = format!("LOCATION,{},{lat},{lon},{z},{el}\n{rest}", t.join(","));
            let Some(r) = read(0, (head.clone() + &body(&[fields(1)], "\n")).as_bytes()) else { return };
            let line = head.lines().next().unwrap().to_string();
            match r {
                Err(e) => { cx.check(false, || (format!("places/{key}"), format!("'{line}' is refused: {e}"))); }
                Ok(e) => {
                    let l = &e.location;
                    let ok = [&l.city, &l.state, &l.country, &l.source, &l.wmo].iter().zip(t).all(|(a, b)| **a == b || **a == b.trim_matches('"')) && (l.latitude - lat.to_radians()).abs() < 1e-12 && (l.longitude - lon.to_radians()).abs() < 1e-12 && l.elevation == el && l.timezone as f64 == z && e.data.len() == 1;
                    cx.check(ok, || (format!("places/{key}"), format!("'{line}' is read as {l:?} with {} records", e.data.len())));
                }
            }
        };
        let t0 = ["SANTIAGO", "-", "CHL", "IWEC Data", "855740"];
        for z in &zones { go(t0, -33.38, -70.78, *z, 476., &format!("timezone/{z}")); }
        for k in 0..5 { for t in texts {
            if t.matches('"').count() % 2 == 1 { continue }
            let mut x = t0;
            x[k] = t;
            go(x, 12., 77., 5., 20., "texts");
        } }
        for lat in [-90., -0.5, 0., 45.25, 90.] { for lon in [-180., -0.25, 0., 179.5] { for el in [-400., 0., 3650.5] { go(t0, lat, lon, 1., el, "numbers"); } } }
    });
}
