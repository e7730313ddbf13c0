//! G09: interval arithmetic carries every admissible value.
use geometry::round_error::ApproxFloat;
use mcc::*;

pub fn g09(cx: &Ctx) {
    let vals = [-1e9, -3., -1., -0.1, -1e-12, 0., 1e-12, 0.1, 1. / 3., 1., 2.5, 1e6];
    let errs = [0., 1e-15, 1e-6, 0.25, 1.5];
    let mut ivs = vec![];
    for v in vals {
        for e in errs {
            ivs.push((v, e));
        }
    }
    let mk = |(v, e): (f64, f64)| ApproxFloat::from_value_and_error(v, e);
    let inside = |(v, e): (f64, f64)| [v - e, v - e / 2., v, v + e / 3., v + e];
    let has = |a: ApproxFloat, x: f64| a.low <= x && x <= a.high;
    cx.section("ops", "all pairs of 60 intervals x 5x5 member values x {+,-,*,/ in value, assign and scalar forms, neg, sqrt}", || {
        cx.par_named("ops", ivs.len(), |i| {
            let a = ivs[i];
            let ia = mk(a);
            let key = |w: &str| (format!("ops/{a:?}/{w}"), format!("interval {a:?}: {w}"));
            for x in inside(a) {
                cx.state();
                cx.check(has(ia, x), || key("does not contain its own values"));
                cx.check(has(-ia, -x), || key("negation loses a value"));
                if a.0 - a.1 >= 0. {
                    cx.check(has(ia.sqrt(), x.sqrt()), || key("sqrt loses a value"));
                }
            }
            cx.check((ia.midpoint() - a.0).abs() <= 1e-12 * (1. + a.0.abs()), || key("midpoint"));
            for b in &ivs {
                let ib = mk(*b);
                let div = (b.0 - b.1) * (b.0 + b.1) > 0.;
                let mut add = ia;
                add += ib;
                let mut sub = ia;
                sub -= ib;
                let mut mul = ia;
                mul *= ib;
                let mut dv = ia;
                if div {
                    dv /= ib;
                }
                for x in inside(a) {
                    for y in inside(*b) {
                        cx.state();
                        let k = |w: &str| (format!("ops/{a:?}/{b:?}/{w}"), format!("intervals {a:?} {w} {b:?}: result of {x} {w} {y} is outside the computed bounds"));
                        cx.check(has(ia + ib, x + y) && has(add, x + y), || k("+"));
                        cx.check(has(ia - ib, x - y) && has(sub, x - y), || k("-"));
                        cx.check(has(ia * ib, x * y) && has(mul, x * y), || k("*"));
                        if div {
                            cx.check(has(ia / ib, x / y) && has(dv, x / y), || k("/"));
                        }
                    }
                    if b.1 == 0. {
                        let c = b.0;
                        let k = |w: &str| (format!("ops/{a:?}/{c}/{w}"), format!("interval {a:?} {w} {c}: result of {x} {w} {c} is outside the computed bounds"));
                        let (mut p, mut m, mut t, mut d) = (ia, ia, ia, ia);
                        p += c;
                        m -= c;
                        t *= c;
                        cx.check(has(ia + c, x + c) && has(p, x + c), || k("+"));
                        cx.check(has(ia - c, x - c) && has(m, x - c), || k("-"));
                        cx.check(has(ia * c, x * c) && has(t, x * c), || k("*"));
                        if c != 0. {
                            d /= c;
                            cx.check(has(ia / c, x / c) && has(d, x / c), || k("/"));
                        }
                    }
                }
            }
        });
    });
    cx.section("quadratic", "a(x-r)(x-s) for all a in 5 values, roots on a 9-point lattice, plus rootless and nearly tangent cases", || {
        let rs = [-100., -3., -1., -0.5, 1e-3, 0.25, 1., 7., 1e4];
        for a in [1., 0.25, 3., 50., 1e-3] {
            for r in rs {
                for s in rs {
                    cx.state();
                    let (b, c) = (-a * (r + s), a * r * s);
                    let got = cx.no_panic(|| format!("quadratic/{a}/{r}/{s}"), || ApproxFloat::solve_quadratic(a.into(), b.into(), c.into()));
                    let Some(got) = got else { continue };
                    if r != s {
                        let (lo, hi): (f64, f64) = if r < s { (r, s) } else { (s, r) };
                        let ok = got.is_some_and(|(x, y)| (x.as_float() - lo).abs() < 1e-6 * (1. + lo.abs()) && (y.as_float() - hi).abs() < 1e-6 * (1. + hi.abs()));
                        cx.check(ok, || (format!("quadratic/{a}/{r}/{s}"), format!("{a}(x-{r})(x-{s})=0: got {got:?}")));
                    }
                    // lifted clear of the axis: no real root
                    let up = a * ((r - s) / 2.).powi(2) + 1e-3 * (1. + c.abs());
                    let got = ApproxFloat::solve_quadratic(a.into(), b.into(), (c + up).into());
                    cx.check(got.is_none(), || (format!("quadratic/none/{a}/{r}/{s}"), format!("{a}(x-{r})(x-{s})+{up}=0 has no root: got {got:?}")));
                }
            }
        }
    });
}
