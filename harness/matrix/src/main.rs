//! A01 dense algebra, A02 banded algebra, A03 linear solvers.
use matrix::{Matrix, NDiagMatrix};
use mcc::*;

type D = Vec<Vec<f64>>;
fn mat(d: &D) -> Matrix {
    Matrix::from_data(d.len(), d[0].len(), d.iter().flatten().copied().collect())
}
fn eqm(m: &Matrix, d: &D) -> bool {
    m.size() == (d.len(), d[0].len()) && (0..d.len()).all(|r| (0..d[0].len()).all(|c| m.get(r, c) == Ok(d[r][c]) && m.as_slice()[r * d[0].len() + c] == d[r][c]))
}
fn prod(a: &D, b: &D) -> D {
    let mut o = vec![vec![0.0; b[0].len()]; a.len()];
    for (i, row) in a.iter().enumerate() {
        for (k, x) in row.iter().enumerate() {
            for j in 0..b[0].len() {
                o[i][j] += x * b[k][j];
            }
        }
    }
    o
}
fn unit(r: usize, c: usize, i: usize, j: usize, v: f64) -> D {
    let mut d = vec![vec![0.0; c]; r];
    d[i][j] = v;
    d
}
/// integer pattern (exact arithmetic), different for every tag
fn pat(r: usize, c: usize, tag: i64) -> D {
    (0..r).map(|i| (0..c).map(|j| (((i as i64 * 31 + j as i64 * 17 + tag * 7) * 13 + tag) % 23 - 11) as f64).collect()).collect()
}
fn zip(a: &D, b: &D, f: impl Fn(f64, f64) -> f64) -> D {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| f(*p, *q)).collect()).collect()
}

fn binary(c: &Ctx, key: &str, a: &D, b: &D) {
    c.state();
    let (ma, mb) = (mat(a), mat(b));
    let same = a.len() == b.len() && a[0].len() == b[0].len();
    let k = |op: &str| (format!("{op}/{key}"), format!("{op} of {a:?} and {b:?} ({key})"));
    if same {
        let s = zip(a, b, |x, y| x + y);
        let d = zip(a, b, |x, y| x - y);
        c.check(eqm(&(&ma + &mb), &s), || k("add"));
        c.check(eqm(&(&ma - &mb), &d), || k("sub"));
        let mut x = ma.clone();
        x += &mb;
        c.check(eqm(&x, &s), || k("add_assign"));
        let mut x = ma.clone();
        x -= &mb;
        c.check(eqm(&x, &d), || k("sub_assign"));
        for junk in [0.0, 7.0, f64::NAN, f64::INFINITY] {
            let mut o = Matrix::new(junk, a.len(), a[0].len());
            c.check(ma.add_into(&mb, &mut o) == Ok(()) && eqm(&o, &s), || k("add_into"));
            let mut o = Matrix::new(junk, a.len(), a[0].len());
            c.check(ma.sub_into(&mb, &mut o) == Ok(()) && eqm(&o, &d), || k("sub_into"));
        }
        c.check(ma.compare(&mb) == (a == b) && ma.compare(&ma.clone()), || k("compare"));
        let mut x = ma.clone();
        x.copy_from(&mb);
        c.check(eqm(&x, b), || k("copy_from"));
    } else {
        let mut o = Matrix::new(3.0, a.len(), a[0].len());
        c.check(ma.add_into(&mb, &mut o).is_err() && ma.sub_into(&mb, &mut o).is_err() && eqm(&o, &vec![vec![3.0; a[0].len()]; a.len()]), || k("size-error-add"));
        c.check(guarded(|| &ma + &mb).is_err() && guarded(|| &ma - &mb).is_err(), || k("size-panic-add"));
        let mut x = ma.clone();
        c.check(guarded(|| x += &mb).is_err(), || k("size-panic-add_assign"));
        let mut x = ma.clone();
        c.check(guarded(|| x -= &mb).is_err(), || k("size-panic-sub_assign"));
        let mut x = ma.clone();
        c.check(guarded(|| x.copy_from(&mb)).is_err(), || k("size-panic-copy_from"));
        c.check(!ma.compare(&mb), || k("compare"));
    }
    if a[0].len() == b.len() {
        let p = prod(a, b);
        c.check(eqm(&(&ma * &mb), &p), || k("mul"));
        for junk in [0.0, 7.0, f64::NAN, f64::INFINITY] {
            let mut o = Matrix::new(junk, a.len(), b[0].len());
            c.check(ma.prod_into(&mb, &mut o) == Ok(()) && eqm(&o, &p), || k("prod_into"));
        }
        for (dr, dc) in [(1usize, 0usize), (0, 1), (1, 1)] {
            let mut o = Matrix::new(1.0, a.len() + dr, b[0].len() + dc);
            c.check(ma.prod_into(&mb, &mut o).is_err() && o.as_slice().iter().all(|x| *x == 1.0), || k("prod-result-size"));
        }
    } else {
        let mut o = Matrix::new(3.0, a.len(), b[0].len());
        c.check(ma.prod_into(&mb, &mut o).is_err() && o.as_slice().iter().all(|x| *x == 3.0), || k("size-error-prod"));
        c.check(guarded(|| &ma * &mb).is_err(), || k("size-panic-mul"));
    }
    // concatenation
    let mut x = ma.clone();
    let r = x.concat_rows(&mb);
    if a[0].len() == b[0].len() {
        let mut w = a.clone();
        w.extend(b.iter().cloned());
        c.check(r == Ok(()) && eqm(&x, &w), || k("concat_rows"));
    } else {
        c.check(r.is_err() && eqm(&x, a), || k("concat_rows-size"));
    }
}

fn a01(c: &Ctx) {
    let n = c.pick(4usize, 5);
    c.section("shapes", &format!("all shape pairs up to {n}x{n}, two patterns each"), || {
        let sh: Vec<(usize, usize)> = (1..=n).flat_map(|r| (1..=n).map(move |q| (r, q))).collect();
        for &(r, q) in &sh {
            for &(s, t) in &sh {
                for tag in 0..2 {
                    binary(c, &format!("{r}x{q}.{s}x{t}#{tag}"), &pat(r, q, tag), &pat(s, t, tag + 5));
                }
            }
        }
    });
    let u = c.pick(3usize, 4);
    c.section("unit-matrices", &format!("all pairs of unit matrices E_ij, E_kl of every compatible shape up to {u} (a bilinear product is determined by them)"), || {
        for r in 1..=u {
            for k in 1..=u {
                for q in 1..=u {
                    for i in 0..r {
                        for j in 0..k {
                            for l in 0..k {
                                for m in 0..q {
                                    binary(c, &format!("E{r}x{k}({i},{j})E{k}x{q}({l},{m})"), &unit(r, k, i, j, 2.0), &unit(k, q, l, m, 3.0));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    c.section("all-2x2", "all pairs of 2x2 matrices over {-1,0,2}", || {
        let vals = [-1.0, 0.0, 2.0];
        let all: Vec<D> = (0..81usize).map(|i| vec![vec![vals[i % 3], vals[i / 3 % 3]], vec![vals[i / 9 % 3], vals[i / 27]]]).collect();
        c.par_named("all2x2", 81, |i| {
            for (j, b) in all.iter().enumerate() {
                binary(c, &format!("2x2#{i}.{j}"), &all[i], b)
            }
        });
    });
    c.section("large", "row/inner/column counts across chunk boundaries", || {
        for (r, k, q) in [(1, 64, 1), (64, 1, 64), (128, 3, 5), (7, 130, 66), (257, 4, 3), (2, 300, 2), (300, 2, 300), (1000, 5, 7)] {
            binary(c, &format!("{r}x{k}x{q}"), &pat(r, k, 3), &pat(k, q, 4));
        }
        let z = [1usize, 2, 5, 7, 8, 9, 16, 17, 31, 33, 64, 65];
        c.par_named("large", z.len().pow(3), |i| {
            let (r, k, q) = (z[i % z.len()], z[i / z.len() % z.len()], z[i / z.len() / z.len()]);
            binary(c, &format!("{r}x{k}x{q}"), &pat(r, k, 3), &pat(k, q, 4));
        });
    });
    c.section("element-histories", "all sequences of 3 element operations on shapes up to 3x3, incl. out of range", || {
        for r in 1..=3usize {
            for q in 1..=3usize {
                let idx: Vec<(usize, usize)> = (0..=r).flat_map(|i| (0..=q).map(move |j| (i, j))).collect();
                let nops = idx.len() * 3;
                c.par_named("elements", nops * nops, |ab| {
                    for third in 0..nops {
                        c.state();
                        let mut d = pat(r, q, 9);
                        let mut m = mat(&d);
                        let mut ok = true;
                        for (step, o) in [ab / nops, ab % nops, third].into_iter().enumerate() {
                            let ((i, j), kind, v) = (idx[o / 3], o % 3, (step + 2) as f64);
                            let inr = i < r && j < q;
                            let res = match kind {
                                0 => m.set(i, j, v).map(|x| x == v),
                                1 => m.add_to_element(i, j, v).map(|_| true),
                                _ => m.scale_element(i, j, v).map(|_| true),
                            };
                            ok &= res.is_ok() == inr && res != Ok(false);
                            if inr {
                                match kind {
                                    0 => d[i][j] = v,
                                    1 => d[i][j] += v,
                                    _ => d[i][j] *= v,
                                }
                            }
                        }
                        c.check(ok && eqm(&m, &d) && m.get(r, 0).is_err() && m.get(0, q).is_err(), || (format!("elements/{r}x{q}/{ab}/{third}"), format!("element operations {ab},{third} on {r}x{q} gave {m}")));
                    }
                });
            }
        }
    });
    c.section("scalars-and-constructors", "shapes up to 5x5 x scalars", || {
        for r in 1..=5usize {
            for q in 1..=5usize {
                for s in [-2.0, 0.0, 0.5, 3.0] {
                    c.state();
                    let d = pat(r, q, 2);
                    let m = mat(&d);
                    let sc: D = d.iter().map(|x| x.iter().map(|v| v * s).collect()).collect();
                    let dv: D = d.iter().map(|x| x.iter().map(|v| v / (s + 4.)).collect()).collect();
                    let k = |op: &str| (format!("{op}/{r}x{q}/{s}"), format!("{op} {r}x{q} by {s}"));
                    c.check(eqm(&(&m * s), &sc), || k("scale"));
                    c.check(eqm(&(&m / (s + 4.)), &dv), || k("divide"));
                    let mut x = m.clone();
                    x *= s;
                    c.check(eqm(&x, &sc), || k("mul_assign"));
                    let mut x = m.clone();
                    x /= s + 4.;
                    c.check(eqm(&x, &dv), || k("div_assign"));
                    let mut o = Matrix::new(f64::NAN, r, q);
                    c.check(m.scale_into(s, &mut o) == Ok(()) && eqm(&o, &sc), || k("scale_into"));
                    let mut o = Matrix::new(1.0, r + 1, q);
                    c.check(m.scale_into(s, &mut o).is_err(), || k("scale_into-size"));
                    let mut o = Matrix::new(1.0, r, q + 1);
                    c.check(m.scale_into(s, &mut o).is_err(), || k("scale_into-size"));
                    c.check(eqm(&Matrix::new(s, r, q), &vec![vec![s; q]; r]), || k("new"));
                }
            }
            let d = pat(r, r, 4);
            let eye: D = (0..r).map(|i| (0..r).map(|j| (i == j) as u8 as f64).collect()).collect();
            let dg: D = (0..r).map(|i| (0..r).map(|j| if i == j { 2. + i as f64 } else { 0. }).collect()).collect();
            c.check(eqm(&Matrix::eye(r), &eye) && eqm(&(&Matrix::eye(r) * &mat(&d)), &d), || (format!("eye/{r}"), "identity".into()));
            c.check(eqm(&Matrix::diag((0..r).map(|i| 2. + i as f64).collect()), &dg), || (format!("diag/{r}"), "diagonal".into()));
            c.check(guarded(|| Matrix::from_data(r, r + 1, vec![0.0; r * r])).is_err(), || (format!("from_data/{r}"), "wrong data length accepted".into()));
        }
        c.check(Matrix::empty().is_empty() && Matrix::empty().size() == (0, 0) && !Matrix::new(0., 1, 1).is_empty(), || ("empty/0".into(), "empty".into()));
    });
}

fn band(d: &D, n: usize) -> D {
    let s = (n - 1) / 2;
    d.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, v)| if i.abs_diff(j) <= s { *v } else { 0.0 }).collect()).collect()
}

fn ndiag<const N: usize>(c: &Ctx, max: usize) {
    let s = (N - 1) / 2;
    for r in 1..=max {
        for q in 1..=max {
            c.state();
            let key = |op: &str| format!("{op}/{N}-diag/{r}x{q}");
            let Some(m) = c.no_panic(|| key("new"), || NDiagMatrix::<N>::new(2.5, r, q)) else { continue };
            let inb = |i: usize, j: usize| i < r && j < q && i.abs_diff(j) <= s;
            c.check(m.size() == (r, q), || (key("size"), "size".into()));
            c.no_panic(|| key("access"), || {
                for i in 0..=r {
                    for j in 0..=q {
                        let want = if i < r && j < q { Some(if inb(i, j) { 2.5 } else { 0.0 }) } else { None };
                        c.check(m.get(i, j).ok() == want, || (format!("{}/{i},{j}", key("initial")), format!("{N}-diagonal {r}x{q} filled with 2.5: element ({i},{j}) is {:?}", m.get(i, j))));
                        // every single-element update changes just that element
                        for kind in 0..3 {
                            let mut x = m.clone();
                            let res = match kind {
                                0 => x.set(i, j, 9.0),
                                1 => x.add_to_element(i, j, 9.0),
                                _ => x.scale_element(i, j, 9.0),
                            };
                            let nv = [9.0, 11.5, 22.5][kind];
                            let mut ok = res.is_ok() == inb(i, j);
                            for a in 0..r {
                                for b in 0..q {
                                    let w = if !inb(a, b) {
                                        0.0
                                    } else if (a, b) == (i, j) {
                                        nv
                                    } else {
                                        2.5
                                    };
                                    ok &= x.get(a, b) == Ok(w);
                                }
                            }
                            c.check(ok, || (format!("{}/{i},{j}/{kind}", key("update")), format!("operation {kind} on element ({i},{j}) of a {N}-diagonal {r}x{q} matrix")));
                        }
                    }
                }
            });
            // product by a column: every unit vector and a pattern
            c.no_panic(|| key("column-product"), || {
                let mut m = m.clone();
                let d = band(&pat(r, q, 6), N);
                for i in 0..r {
                    for j in 0..q {
                        if inb(i, j) {
                            m.set(i, j, d[i][j]).unwrap();
                        }
                    }
                }
                for u in 0..=q {
                    let v: Vec<f64> = (0..q).map(|j| if u == q { (j * j) as f64 - 3.0 } else { (j == u) as u8 as f64 }).collect();
                    for junk in [0.0, 5.0, f64::NAN] {
                        let mut o = vec![junk; r];
                        let res = m.column_prod_into(&v, &mut o);
                        let w: Vec<f64> = (0..r).map(|i| (0..q).map(|j| d[i][j] * v[j]).sum()).collect();
                        c.check(res.is_ok() && o == w, || (format!("{}/{u}", key("column-product")), format!("{N}-diagonal {r}x{q} times {v:?}: {res:?} {o:?}, expected {w:?}")));
                    }
                }
                let mut o = vec![0.0; r];
                c.check(m.column_prod_into(&vec![0.0; q + 1], &mut o).is_err(), || (key("column-size"), "wrong vector size accepted".into()));
                let mut o = vec![0.0; r + 1];
                c.check(m.column_prod_into(&vec![0.0; q], &mut o).is_err(), || (key("column-size"), "wrong destination size accepted".into()));
                // scaling
                let mut x = NDiagMatrix::<N>::new(0.0, r, q);
                c.check(m.scale_into(3.0, &mut x).is_ok() && (0..r).all(|i| (0..q).all(|j| x.get(i, j) == Ok(3.0 * d[i][j]))), || (key("scale_into"), "scale_into".into()));
                let mut x = NDiagMatrix::<N>::new(0.0, r + 1, q);
                c.check(m.scale_into(3.0, &mut x).is_err(), || (key("scale_into-size"), "scale_into".into()));
                let mut x = m.clone();
                x *= -2.0;
                c.check((0..r).all(|i| (0..q).all(|j| x.get(i, j) == Ok(-2.0 * d[i][j]))), || (key("mul_assign"), "mul_assign".into()));
                let mut x = NDiagMatrix::<N>::new(0.0, r, q);
                x.copy_from(&m);
                c.check((0..r).all(|i| (0..q).all(|j| x.get(i, j) == Ok(d[i][j]))), || (key("copy_from"), "copy_from".into()));
            });
        }
    }
}

fn a02(c: &Ctx) {
    let max = c.pick(16usize, 40);
    c.section("compact", &format!("N in 1,3,5,7; all shapes up to {max}x{max}; every element; every unit column"), || {
        ndiag::<1>(c, max);
        ndiag::<3>(c, max);
        ndiag::<5>(c, max);
        ndiag::<7>(c, max);
    });
    c.section("banded-product", &format!("dense matrices with a band of n=1,3,5,7, square up to {max}, result columns 1..4"), || {
        for n in [1usize, 3, 5, 7] {
            for r in 1..=max {
                for q in 1..=4usize {
                    c.state();
                    let a = band(&pat(r, r, 8), n);
                    let full = pat(r, r, 8);
                    let b = pat(r, q, 1);
                    let w = prod(&a, &b);
                    let key = |o: &str| (format!("{o}/{n}/{r}/{q}"), format!("{o}: {n}-diagonal {r}x{r} times {r}x{q}"));
                    for junk in [0.0, 4.0, f64::NAN, f64::INFINITY] {
                        let mut o = Matrix::new(junk, r, q);
                        c.check(mat(&a).prod_n_diag_into(&mat(&b), n, &mut o) == Ok(()) && eqm(&o, &w), || key("prod_n_diag_into"));
                        // elements off the band are ignored
                        let mut o = Matrix::new(junk, r, q);
                        c.check(mat(&full).prod_n_diag_into(&mat(&b), n, &mut o) == Ok(()) && eqm(&o, &w), || key("prod_n_diag_into-off-band"));
                        if n == 3 {
                            let mut o = Matrix::new(junk, r, q);
                            c.check(mat(&a).prod_tri_diag_into(&mat(&b), &mut o) == Ok(()) && eqm(&o, &w), || key("prod_tri_diag_into"));
                        }
                    }
                    c.check(mat(&a).from_prod_n_diag(&mat(&b), n).map(|o| eqm(&o, &w)) == Ok(true), || key("from_prod_n_diag"));
                    let mut o = Matrix::new(0.0, r + 1, q);
                    c.check(mat(&a).prod_n_diag_into(&mat(&b), n, &mut o).is_err(), || key("result-size"));
                    let mut o = Matrix::new(0.0, r, q);
                    c.check(mat(&a).prod_n_diag_into(&mat(&pat(r + 1, q, 1)), n, &mut o).is_err(), || key("operand-size"));
                }
            }
        }
    });
}

/// determinant-free reference: leading pivots of elimination without swaps, exact check with residuals
fn pivots(d: &D) -> Vec<f64> {
    let n = d.len();
    let mut a = d.clone();
    let mut p = vec![];
    for k in 0..n {
        p.push(a[k][k]);
        if a[k][k] == 0.0 {
            break;
        }
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] -= f * a[k][j];
            }
        }
    }
    p
}

fn solve_case(c: &Ctx, key: &str, a: &D, n: usize, bc: usize) {
    c.state();
    let r = a.len();
    let b = pat(r, bc, 3);
    let pv = pivots(a);
    let minp = pv.iter().fold(f64::INFINITY, |m, x| m.min(x.abs()));
    let scale = a.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    let ma = mat(a);
    let res = ma.n_diag_gaussian(&mat(&b), n);
    if pv.len() < r || pv[r - 1] == 0.0 {
        c.outcome("zero pivot -> error");
        c.check(res.is_err(), || (format!("zero-pivot/{key}"), format!("{a:?} has a zero pivot, but was 'solved': {res:?}")));
        return;
    }
    if minp < 1e-9 * scale.max(1e-300) {
        c.outcome("nearly singular: unspecified");
        return;
    }
    c.outcome("solved");
    match res {
        Ok(x) => {
            let mut err: f64 = 0.0;
            let mut mag: f64 = 1e-300;
            for i in 0..r {
                for j in 0..bc {
                    let mut s = -b[i][j];
                    for k in 0..r {
                        s += a[i][k] * x.get(k, j).unwrap();
                        mag = mag.max((a[i][k] * x.get(k, j).unwrap()).abs());
                    }
                    err = err.max(s.abs());
                }
            }
            c.check(err <= 1e-9 * mag * (scale / minp).max(1.0), || (format!("residual/{key}"), format!("A={a:?} n={n}: residual {err}")));
            c.check(eqm(&ma, a), || (format!("clone/{key}"), "non-mutating solver changed A".into()));
        }
        Err(e) => c.fail(&format!("refused/{key}"), &format!("{a:?} is solvable (pivots {pv:?}) but: {e}")),
    }
}

fn nsolve<const N: usize>(c: &Ctx, key: &str, a: &D) {
    let r = a.len();
    let mut m = NDiagMatrix::<N>::new(0.0, r, r);
    for i in 0..r {
        for j in 0..r {
            if i.abs_diff(j) <= (N - 1) / 2 {
                m.set(i, j, a[i][j]).unwrap();
            }
        }
    }
    let b: Vec<f64> = (0..r).map(|i| i as f64 * 2.0 - 3.0).collect();
    let mut x = b.clone();
    let res = m.mut_gaussian(&mut x);
    let ok = res.is_ok() && (0..r).all(|i| ((0..r).map(|j| a[i][j] * x[j]).sum::<f64>() - b[i]).abs() < 1e-8);
    c.check(ok, || (format!("compact-solve/{N}/{key}"), format!("A={a:?} b={b:?}: {res:?} x={x:?}")));
}

fn a03(c: &Ctx) {
    c.section("gaussian-2x2", "all 2x2 over {-2..2}", || {
        let v = [-2.0, -1.0, 0.0, 1.0, 2.0];
        for i in 0..625usize {
            solve_case(c, &format!("2x2#{i}"), &vec![vec![v[i % 5], v[i / 5 % 5]], vec![v[i / 25 % 5], v[i / 125]]], 3, 1);
        }
    });
    let vals: &[f64] = if c.thorough() { &[-2.0, -1.0, 0.0, 1.0, 3.0] } else { &[-1.0, 0.0, 2.0] };
    c.section("gaussian-3x3", &format!("all 3x3 over {vals:?} as full band (n=5)"), || {
        let m = vals.len();
        c.par_named("g3", m.pow(9), |i| {
            let mut i2 = i;
            let a: D = (0..3)
                .map(|_| {
                    (0..3)
                        .map(|_| {
                            let v = vals[i2 % m];
                            i2 /= m;
                            v
                        })
                        .collect()
                })
                .collect();
            solve_case(c, &format!("3x3#{i}"), &a, 5, 2);
        });
    });
    c.section("tridiagonal-4x4", "all tridiagonal 4x4 over {-1,0,2}", || {
        let vals = [-1.0, 0.0, 2.0];
        c.par_named("t4", 3usize.pow(10), |i| {
            let mut i2 = i;
            let mut a = vec![vec![0.0; 4]; 4];
            for r in 0..4usize {
                for q in 0..4usize {
                    if r.abs_diff(q) <= 1 {
                        a[r][q] = vals[i2 % 3];
                        i2 /= 3;
                    }
                }
            }
            solve_case(c, &format!("t4#{i}"), &a, 3, 1);
        });
    });
    let max = c.pick(40usize, 120);
    c.section("dominant", &format!("diagonally dominant banded matrices, n=1,3,5,7 (and wider band argument), sizes 1..={max}, tags 0..8; Gauss-Seidel and compact solver"), || {
        for n in [1usize, 3, 5, 7] {
            for r in 1..=max {
                for tag in 0..8 {
                    let mut a = band(&pat(r, r, tag), n);
                    for i in 0..r {
                        let s: f64 = a[i].iter().map(|x| x.abs()).sum();
                        a[i][i] = (s + 1.0) * if tag % 2 == 0 { 1.0 } else { -1.0 };
                    }
                    for wider in [n, n + 2, 2 * r + 1] {
                        solve_case(c, &format!("dom/{n}/{r}/{tag}/{wider}"), &a, wider, 1 + tag as usize % 3);
                    }
                    let key = format!("dom/{n}/{r}/{tag}");
                    match n {
                        1 => nsolve::<1>(c, &key, &a),
                        3 => nsolve::<3>(c, &key, &a),
                        5 => nsolve::<5>(c, &key, &a),
                        _ => nsolve::<7>(c, &key, &a),
                    }
                    // Gauss-Seidel converges for strictly dominant matrices from any start
                    for x0 in [0.0, 1e3] {
                        c.state();
                        let b = pat(r, 1, 2);
                        let mut x = Matrix::new(x0, r, 1);
                        let res = mat(&a).gauss_seidel(&mat(&b), &mut x, 5000, 1e-10);
                        let ok = res.is_ok()
                            && (0..r).all(|i| {
                                let s: f64 = (0..r).map(|k| a[i][k] * x.get(k, 0).unwrap()).sum();
                                (s - b[i][0]).abs() < 1e-6 * (1.0 + a[i][i].abs())
                            });
                        c.check(ok, || (format!("gauss-seidel/{key}/{x0}"), format!("A={a:?} b={b:?} start {x0}: {res:?} {x}")));
                    }
                }
            }
        }
    });
    c.section("gauss-seidel-honesty", "all 2x2 over {-2..2}: Ok only with a small residual, else Err", || {
        let v = [-2.0, -1.0, 0.0, 1.0, 2.0];
        for i in 0..625usize {
            for x0 in [0.0, 1.0] {
                c.state();
                let a = vec![vec![v[i % 5], v[i / 5 % 5]], vec![v[i / 25 % 5], v[i / 125]]];
                let mut x = Matrix::new(x0, 2, 1);
                let b = [3.0, -4.0];
                let res = mat(&a).gauss_seidel(&Matrix::from_data(2, 1, b.to_vec()), &mut x, 200, 1e-9);
                c.outcome(if res.is_ok() { "gs converged" } else { "gs error" });
                let small = (0..2).all(|r| (a[r][0] * x.get(0, 0).unwrap() + a[r][1] * x.get(1, 0).unwrap() - b[r]).abs() < 1e-6);
                c.check(res.is_err() || small, || (format!("gs-honest/{i}/{x0}"), format!("A={a:?} b={b:?}: reported success with x={x}")));
            }
        }
    });
    c.section("sizes", "shape mismatches up to 4", || {
        for r in 1..=4usize {
            for q in 1..=4usize {
                for b in 1..=4usize {
                    c.state();
                    let a = Matrix::new(1.0, r, q);
                    let bad = r != q || b != r;
                    if bad {
                        c.check(matches!(guarded(|| a.n_diag_gaussian(&Matrix::new(1.0, b, 1), 3)), Ok(Err(_))), || (format!("gaussian-size/{r}/{q}/{b}"), "sizes do not match, no error".into()));
                        let mut x = Matrix::new(0.0, r, 1);
                        c.check(matches!(guarded(|| a.gauss_seidel(&Matrix::new(1.0, b, 1), &mut x, 10, 1e-3)), Ok(Err(_))), || (format!("gs-size/{r}/{q}/{b}"), "sizes do not match, no error".into()));
                    } else {
                        let mut x = Matrix::new(0.0, r + 1, 1);
                        c.check(matches!(guarded(|| a.gauss_seidel(&Matrix::new(1.0, b, 1), &mut x, 10, 1e-3)), Ok(Err(_))), || (format!("gs-size-x/{r}"), "x has the wrong size, no error".into()));
                        let mut x = Matrix::new(0.0, r, 2);
                        c.check(matches!(guarded(|| Matrix::eye(r).gauss_seidel(&Matrix::new(1.0, b, 1), &mut x, 10, 1e-3)), Ok(Err(_))), || (format!("gs-cols-x/{r}"), "x is not a column, no error".into()));
                    }
                }
            }
        }
    });
}

fn main() {
    main_with(&[("A01", a01), ("A02", a02), ("A03", a03)])
}
