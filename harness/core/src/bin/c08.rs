//! C08: envelope Cholesky and LDL' factorisations reproduce the matrix.
use bugi::matrix::solve::direct::{cholesky_envelope, cholesky_envelope_no_root, solve_ldl, solve_ll};
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

/// number `code` of all envelopes of n rows: row i stores 1..=i+1 elements
fn envelope(n: usize, d: &mut Digits) -> Vec<usize> {
    (0..n).map(|i| d.take(i as u64 + 1) + 1).collect()
}
fn count(n: usize) -> u64 {
    (1..=n as u64).product()
}
/// the lower triangle of `a` inside `env`
fn lower_env(a: &M, env: &[usize]) -> LowerRowEnvelope {
    let mut l = LowerRowEnvelope::from_envelope(env.to_vec());
    for i in 0..env.len() {
        for j in i + 1 - env[i]..=i {
            l[(i, j)] = a[i][j]
        }
    }
    l
}
fn in_env(a: &M, env: &[usize]) -> bool {
    (0..env.len()).all(|i| (0..env.len()).all(|j| a[i][j] == 0.0 || (j <= i && j + env[i] >= i + 1)))
}
fn llt(l: &M) -> M {
    la::mul(l, &la::transpose(l))
}
fn ldlt(l: &M, d: &[f64]) -> M {
    let dl: M = la::transpose(l).iter().enumerate().map(|(i, r)| r.iter().map(|x| x * d[i]).collect()).collect();
    la::mul(l, &dl)
}

/// right-hand sides: units (sparse), dense, alternating, zero
fn rhss(n: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = (0..n).map(|k| (0..n).map(|i| (i == k) as u8 as f64).collect()).collect();
    v.push((0..n).map(|i| 1.0 + ((i * 7) % 5) as f64).collect());
    v.push((0..n).map(|i| if i % 2 == 0 { -2.0 } else { 0.0 }).collect());
    v.push(vec![0.0; n]);
    v
}

fn substitutions(rec: &mut Rec, l: &LowerRowEnvelope, lm: &M, hist: &dyn Fn() -> String) {
    let n = lm.len();
    let lt = la::transpose(lm);
    let tol = 1e-14 * n as f64;
    for b in rhss(n) {
        for (what, m, x) in [
            ("forward", lm, rec.call(|| {
                let mut x = vec![77.0; n];
                l.solve(&b, &mut x);
                x
            })),
            ("transposed", &lt, rec.call(|| {
                let mut x = vec![77.0; n];
                l.solve_transposed(&b, &mut x);
                x
            })),
        ] {
            match x {
                Err(e) => rec.fail("substitution-panics", format!("{} {} L {:?} b {:?}: {}", what, hist(), lm, b, e)),
                Ok(x) => {
                    let e = la::backward_error(m, &x, &b);
                    rec.check(e <= tol, "substitution", || format!("{} {} L {:?} b {:?} gave {:?} (error {:e})", what, hist(), lm, b, x, e));
                }
            }
        }
        // the combined solve L L' x = b
        let x = rec.call(|| {
            let mut x = vec![55.0; n];
            solve_ll(l, &b, &mut x);
            x
        });
        match x {
            Err(e) => rec.fail("solve-ll-panics", format!("{} {:?} {:?}: {}", hist(), lm, b, e)),
            Ok(x) => {
                let e = la::backward_error(&llt(lm), &x, &b);
                let scale = la::normf(lm).powi(2) / la::normf(&llt(lm)).max(1e-300);
                rec.check(e <= 1e-12 * scale, "solve-ll", || format!("{} L {:?} b {:?} gave {:?} (error {:e})", hist(), lm, b, x, e));
            }
        }
    }
    // every trailing and inner submatrix
    for s in 0..n {
        for e in s + 1..=n {
            let sub: M = (s..e).map(|i| (s..e).map(|j| lm[i][j]).collect()).collect();
            for b in rhss(e - s) {
                let x = rec.call(|| {
                    let mut x = vec![33.0; e - s];
                    l.solve_submatrix(&b, &mut x, (s, e));
                    x
                });
                match x {
                    Err(m) => rec.fail("submatrix-panics", format!("{} L {:?} rows {}..{}: {}", hist(), lm, s, e, m)),
                    Ok(x) => {
                        let er = la::backward_error(&sub, &x, &b);
                        rec.check(er <= tol, "submatrix", || format!("{} L {:?} rows {}..{} b {:?} gave {:?}", hist(), lm, s, e, b, x));
                    }
                }
            }
        }
    }
    let bad = [
        rec.call(|| l.solve(&vec![1.0; n + 1], &mut vec![0.0; n + 1])).is_err(),
        rec.call(|| l.solve(&vec![1.0; n], &mut vec![0.0; n + 1])).is_err(),
        rec.call(|| l.solve_transposed(&vec![1.0; n + 1], &mut vec![0.0; n + 1])).is_err(),
        rec.call(|| l.solve_submatrix(&vec![1.0; n + 1], &mut vec![0.0; n + 1], (0, n + 1))).is_err(),
        rec.call(|| l.solve_submatrix(&vec![1.0; n + 1], &mut vec![0.0; n + 1], (0, n))).is_err(),
        rec.call(|| solve_ll(l, &vec![1.0; n + 1], &mut vec![0.0; n + 1])).is_err(),
    ];
    rec.check(bad.iter().all(|x| *x), "length-accepted", || format!("{} {} unknowns: {:?}", hist(), n, bad));
}

/// A = L0 L0' with the given factor; `env` at least as wide as the factor's rows
fn cholesky(rec: &mut Rec, l0: &M, env: &[usize]) {
    let n = l0.len();
    let a = llt(l0);
    let hist = || format!("factor {:?} envelope {:?}", l0, env);
    let s = lower_env(&a, env);
    let l = match rec.call(|| cholesky_envelope(&s)) {
        Err(e) => {
            rec.fail("cholesky-panics", format!("{}: {}", hist(), e));
            return;
        }
        Ok(l) => l,
    };
    rec.check(l.envelope() == env, "envelope-changed", || format!("{} became {:?}", hist(), l.envelope()));
    let lm = read(&l);
    if !rec.check(l.shape() == (n, n) && lm.iter().flatten().all(|x| x.is_finite()), "cholesky", || format!("{}: {:?}", hist(), lm)) {
        return;
    }
    let e = la::normf(&la::sub(&llt(&lm), &a));
    let ok = e <= 1e-14 * (n * n) as f64 * la::normf(&lm).powi(2) && in_env(&lm, env) && (0..n).all(|i| lm[i][i] > 0.0);
    rec.check(ok, "cholesky", || format!("{}: L {:?} (LL' off by {:e})", hist(), lm, e));
    rec.check(read(&s) == read(&lower_env(&a, env)), "argument-changed", hist);
    substitutions(rec, &l, &lm, &hist);
    // solving with the factor solves with A
    for b in rhss(n) {
        let x = rec.call(|| {
            let mut x = vec![0.0; n];
            solve_ll(&l, &b, &mut x);
            x
        });
        if let Ok(x) = x {
            let e = la::backward_error(&a, &x, &b);
            let g = la::normf(&lm).powi(2) / la::normf(&a);
            rec.check(e <= 1e-12 * g, "solve", || format!("{} b {:?}: {:?} (error {:e})", hist(), b, x, e));
        }
    }
    ldl(rec, l0, None, env);
}

/// A = L0 D L0' (D from the squares of L0's diagonal when None)
fn ldl(rec: &mut Rec, l0: &M, d0: Option<&[f64]>, env: &[usize]) {
    let n = l0.len();
    let ones = vec![1.0; n];
    let d0v = d0.unwrap_or(&ones);
    let a = ldlt(l0, d0v);
    let hist = || format!("factor {:?} d {:?} envelope {:?}", l0, d0v, env);
    let s = lower_env(&a, env);
    let (l, d) = match rec.call(|| cholesky_envelope_no_root(&s)) {
        Err(e) => {
            rec.fail("ldl-panics", format!("{}: {}", hist(), e));
            return;
        }
        Ok(x) => x,
    };
    let lm = read(&l);
    let dv: Vec<f64> = (0..n).map(|i| d[i]).collect();
    if !rec.check(lm.iter().flatten().chain(&dv).all(|x| x.is_finite()), "ldl", || format!("{}: {:?} {:?}", hist(), lm, dv)) {
        return;
    }
    let abs: M = lm.iter().map(|r| r.iter().map(|x| x.abs()).collect()).collect();
    let g = la::normf(&ldlt(&abs, &dv.iter().map(|x| x.abs()).collect::<Vec<_>>())) + la::normf(&a);
    let e = la::normf(&la::sub(&ldlt(&lm, &dv), &a));
    let ok = e <= 1e-13 * n as f64 * g && in_env(&lm, env) && (0..n).all(|i| lm[i][i] == 1.0) && l.envelope() == env;
    rec.check(ok, "ldl", || format!("{}: L {:?} D {:?} (off by {:e})", hist(), lm, dv, e));
    // inertia: as many negative entries as A has negative eigenvalues
    let (ev, _) = la::jacobi(&a);
    let neg = ev.iter().filter(|x| **x < 0.0).count();
    let clear = ev.iter().all(|x| x.abs() > 1e-9 * la::normf(&a));
    if clear {
        rec.check(d.num_neg() == neg && dv.iter().filter(|x| **x < 0.0).count() == neg, "inertia", || format!("{}: D {:?} counts {}, eigenvalues {:?}", hist(), dv, d.num_neg(), ev));
    }
    let det: f64 = ev.iter().product();
    rec.check((d.product() - det).abs() <= 1e-9 * det.abs().max(1e-300) * (g / la::normf(&a)).powi(2).max(1.0) || !clear, "determinant", || format!("{}: D {:?} product {}, want {}", hist(), dv, d.product(), det));
    for b in rhss(n) {
        let x = rec.call(|| {
            let mut x = vec![44.0; n];
            solve_ldl(&l, &d, &b, &mut x);
            x
        });
        match x {
            Err(e) => rec.fail("solve-ldl-panics", format!("{} b {:?}: {}", hist(), b, e)),
            Ok(x) => {
                let e = la::backward_error(&a, &x, &b);
                let r = 1e-12 * (g / la::normf(&a)).max(1.0) * la::cond_l(&lm);
                rec.check(e <= r, "solve-ldl", || format!("{} b {:?} gave {:?} (error {:e})", hist(), b, x, e));
            }
        }
    }
    let bad = [
        rec.call(|| solve_ldl(&l, &d, &vec![1.0; n + 1], &mut vec![0.0; n + 1])).is_err(),
        rec.call(|| solve_ldl(&l, &Diagonal::from(vec![1.0; n + 1]), &vec![1.0; n], &mut vec![0.0; n])).is_err(),
    ];
    rec.check(bad.iter().all(|x| *x), "length-accepted", || format!("{}: {:?}", hist(), bad));
}

/// the widest-fitting factor pattern inside env: values over `vals`, digit per stored off-diagonal
fn fill(env: &[usize], diag: impl Fn(usize) -> f64, mut off: impl FnMut(usize, usize) -> f64) -> M {
    let n = env.len();
    let mut m = zeros(n, n);
    for i in 0..n {
        for j in i + 1 - env[i]..i {
            m[i][j] = off(i, j)
        }
        m[i][i] = diag(i)
    }
    m
}

/// envelope number `kind` of 6 and a factor inside it
fn larger_factor(n: usize, kind: usize) -> (Vec<usize>, M) {
    let env: Vec<usize> = (0..n)
        .map(|i| match kind {
            0 => i + 1,
            1 => (i + 1).min(4),
            2 => if i % 5 == 4 { i + 1 } else { 1 },
            3 => (i + 1).min(1 + (i * 7) % 5),
            4 => if i + 1 == n { n } else { 1 },
            _ => if i % 6 == 0 { 1 } else { i % 6 + 1 },
        })
        .collect();
    let l0 = fill(&env, |i| 2.0 + (i % 3) as f64, |i, j| ((i * 5 + j * 11) % 9) as f64 / 8.0 - 0.5);
    (env, l0)
}
fn larger(rec: &mut Rec, n: usize, kind: usize) {
    let (env, l0) = larger_factor(n, kind);
    rec.state((n, kind));
    cholesky(rec, &l0, &env);
    let dv: Vec<f64> = (0..n).map(|k| if k % 3 == 1 { -1.0 - k as f64 / 8.0 } else { 1.5 }).collect();
    ldl(rec, &fill(&env, |_| 1.0, |i, j| l0[i][j] / 4.0), Some(&dv), &env);
    rec.trace();
}
/// only the factorisations themselves, which stay affordable: weak coupling keeps the factor well conditioned
fn large(rec: &mut Rec, n: usize, kind: usize) {
    let (env, l0) = larger_factor(n, kind);
    rec.state((n, kind, "large"));
    let weak: M = (0..n).map(|i| (0..n).map(|j| if i == j { l0[i][j] } else { l0[i][j] / 8.0 / (env[i] as f64) }).collect()).collect();
    // only products inside the envelopes are formed
    let prod = |l: &M, d: &dyn Fn(usize) -> f64| -> M {
        (0..n)
            .map(|i| {
                (0..n)
                    .map(|j| {
                        let (a, b) = (i.min(j), i.max(j));
                        (b + 1 - env[b]..=a).filter(|k| *k + env[a] > a).map(|k| l[a][k] * l[b][k] * d(k)).sum()
                    })
                    .collect()
            })
            .collect()
    };
    let a = prod(&weak, &|_| 1.0);
    let close = |x: &M, y: &M| (0..n).all(|i| (0..n).all(|j| (x[i][j] - y[i][j]).abs() <= 1e-10));
    let b: Vec<f64> = (0..n).map(|i| ((i * 7) % 11) as f64 - 4.0).collect();
    let got = rec.call(|| {
        let l = cholesky_envelope(&lower_env(&a, &env));
        (read(&l), l.envelope())
    });
    rec.check(matches!(&got, Ok((l, e)) if *e == env && close(l, &weak)), "cholesky", || format!("{} rows, envelope kind {}", n, kind));
    let unit: M = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { weak[i][j] }).collect()).collect();
    let dv: Vec<f64> = (0..n).map(|k| if k % 3 == 1 { -1.0 - (k % 8) as f64 / 8.0 } else { 1.5 }).collect();
    let a2 = prod(&unit, &|k| dv[k]);
    let got = rec.call(|| {
        let (l, d) = cholesky_envelope_no_root(&lower_env(&a2, &env));
        let ok = (0..n).all(|k| (d[k] - dv[k]).abs() <= 1e-10);
        (close(&read(&l), &unit), ok, d.num_neg())
    });
    rec.check(got == Ok((true, true, dv.iter().filter(|x| **x < 0.0).count())), "ldl", || format!("{} rows, envelope kind {}: {:?}", n, kind, got));
    // substitutions, through the product with the known factor
    let want: Vec<f64> = (0..n).map(|i| weak[i].iter().zip(&b).map(|(x, y)| x * y).sum()).collect();
    let wantt: Vec<f64> = (0..n).map(|j| (0..n).map(|i| weak[i][j] * b[i]).sum()).collect();
    let got = rec.call(|| {
        let l = lower_env(&weak, &env);
        let (mut x, mut y) = (vec![7.0; n], vec![-3.0; n]);
        l.solve(&want, &mut x);
        l.solve_transposed(&wantt, &mut y);
        (x, y)
    });
    let near = |x: &Vec<f64>| x.iter().zip(&b).all(|(p, q)| (p - q).abs() <= 1e-9);
    rec.check(matches!(&got, Ok((x, y)) if near(x) && near(y)), "substitution", || format!("{} rows, envelope kind {}", n, kind));
    // parts of the system, and the whole of it through both factors
    for (s, e) in [(0, n), (1, n), (n / 2, n), (n - 3, n), (0, n / 2), (3, n - 2), (n / 3, 2 * n / 3)] {
        let part: Vec<f64> = (s..e).map(|i| (s..=i).map(|j| weak[i][j] * b[j]).sum()).collect();
        let got = rec.call(|| {
            let mut x = vec![5.0; e - s];
            lower_env(&weak, &env).solve_submatrix(&part, &mut x, (s, e));
            x
        });
        rec.check(matches!(&got, Ok(x) if x.iter().zip(&b[s..e]).all(|(p, q)| (p - q).abs() <= 1e-9)), "submatrix", || format!("{} rows, envelope kind {}, rows {}..{}", n, kind, s, e));
    }
    let (ab, a2b) = (la::mulv(&a, &b), la::mulv(&a2, &b));
    let got = rec.call(|| {
        let (mut x, mut y) = (vec![7.0; n], vec![-3.0; n]);
        solve_ll(&lower_env(&weak, &env), &ab, &mut x);
        solve_ldl(&lower_env(&unit, &env), &Diagonal::from(dv.clone()), &a2b, &mut y);
        (x, y)
    });
    let near = |x: &Vec<f64>| x.iter().zip(&b).all(|(p, q)| (p - q).abs() <= 1e-7);
    rec.check(matches!(&got, Ok((x, y)) if near(x) && near(y)), "solve", || format!("{} rows, envelope kind {}", n, kind));
    rec.trace();
}

/// rows and columns of A = L0 L0' scaled by powers of two: everything scales with them
fn sized_factor(rec: &mut Rec, l0: &M, env: &[usize], kind: u64) {
    let n = l0.len();
    let s: Vec<f64> = (0..n).map(|i| sized(kind, i).abs()).collect();
    let hist = || format!("factor {:?} rows x {:?} envelope {:?}", l0, s, env);
    let near = |x: f64, y: f64| (x - y).abs() <= 1e-11 * (1.0 + y.abs());
    let times = |a: M| -> M { (0..n).map(|i| (0..n).map(|j| a[i][j] * s[i] * s[j]).collect()).collect() };
    let a = times(llt(l0));
    match rec.call(|| read(&cholesky_envelope(&lower_env(&a, env)))) {
        Err(e) => rec.fail("cholesky-panics", format!("{}: {}", hist(), e)),
        Ok(l) => {
            rec.check((0..n).all(|i| (0..n).all(|j| near(l[i][j] / s[i], l0[i][j]))), "cholesky", || format!("{}: {:?}", hist(), l));
        }
    }
    // L0 = U diag(l0_ii) with a unit factor U; signs alternate in the indefinite case
    let unit: M = (0..n).map(|i| (0..n).map(|j| l0[i][j] / l0[j][j]).collect()).collect();
    for signs in 0..2usize {
        let dv: Vec<f64> = (0..n).map(|i| l0[i][i] * l0[i][i] * if signs == 1 && i % 2 == 0 { -1.0 } else { 1.0 }).collect();
        let a = times(ldlt(&unit, &dv));
        let neg = dv.iter().filter(|x| **x < 0.0).count();
        match rec.call(|| {
            let (l, d) = cholesky_envelope_no_root(&lower_env(&a, env));
            (read(&l), (0..n).map(|i| d[i]).collect::<Vec<f64>>(), d.num_neg())
        }) {
            Err(e) => rec.fail("ldl-panics", format!("{}: {}", hist(), e)),
            Ok((l, d, k)) => {
                let good = k == neg && (0..n).all(|i| near(d[i] / s[i] / s[i], dv[i]) && (0..n).all(|j| near(l[i][j] * s[j] / s[i], unit[i][j])));
                rec.check(good, "ldl", || format!("{} D {:?}: {:?} {:?}, {} negative", hist(), dv, l, d, k));
            }
        }
    }
    // substitutions with the scaled factor S L0 and with its transpose
    let m: M = (0..n).map(|i| l0[i].iter().map(|x| x * s[i]).collect()).collect();
    let l = lower_env(&m, env);
    let x: Vec<f64> = (0..n).map(|i| [1.0, -2.0, 0.5, 3.0][i % 4]).collect();
    let b = la::mulv(l0, &x);
    let bt = la::mulv(&la::transpose(l0), &x);
    // the right-hand side, and so the answer, times a power of two of its own
    for t in [1.0, 2f64.powi(-60), 2f64.powi(70)] {
        let sb: Vec<f64> = (0..n).map(|i| b[i] * s[i] * t).collect();
        let tb: Vec<f64> = bt.iter().map(|x| x * t).collect();
        let both: Vec<f64> = la::mulv(&llt(l0), &x).iter().zip(&s).map(|(x, f)| x * f * t).collect();
        let unit_l = lower_env(&(0..n).map(|i| unit[i].iter().zip(&s).map(|(x, f)| x * s[i] / f).collect()).collect(), env);
        let dd = Diagonal::from((0..n).map(|i| l0[i][i] * l0[i][i] * s[i] * s[i]).collect::<Vec<f64>>());
        let got = rec.call(|| {
            let mut v = vec![vec![7.0; n]; 5];
            l.solve(&sb, &mut v[0]);
            l.solve_submatrix(&sb, &mut v[1], (0, n));
            l.solve_transposed(&tb, &mut v[2]);
            solve_ll(&l, &both, &mut v[3]);
            solve_ldl(&unit_l, &dd, &both, &mut v[4]);
            v
        });
        let good = matches!(&got, Ok(v) if (0..5).all(|k| (0..n).all(|i| near(v[k][i] / t * if k < 2 { 1.0 } else { s[i] }, x[i]))));
        rec.check(good, "substitution", || format!("{} times {:e}: {:?}, want {:?}", hist(), t, got, x));
    }
}

fn main() {
    let mut h = Harness::new("C08");
    h.assume("positive definite matrices are built from an exact factor; indefinite ones from an exact LDL' with nonzero D, so every leading minor is nonzero");
    for n in 1..=5usize {
        let off = |e: &[usize]| e.iter().map(|x| x - 1).sum::<usize>() as u32;
        // index: envelope, then 3 values for each of the n(n-1)/2 possible positions
        let k = (n * (n - 1) / 2) as u32;
        let base = if n == 5 { 2u64 } else { 3 };
        h.family(&format!("cholesky {}", n), "every envelope x every factor inside it over {-1,0,2} (n = 5: {0,-1}) x 2 diagonals", count(n) * pow(base, k) * 2, |i, rec| {
            let mut d = Digits(i);
            let dk = d.take(2);
            let env = envelope(n, &mut d);
            if d.0 >= pow(base, off(&env)) {
                return;
            }
            let l0 = fill(&env, |i| if dk == 0 { 1.0 + i as f64 } else { [2.0, 1.0, 3.0, 0.5][i % 4] }, |_, _| [0.0, -1.0, 2.0][d.take(base)]);
            rec.state(i);
            cholesky(rec, &l0, &env);
            rec.sample(|| format!("{:?} {:?}", env, l0));
            rec.trace();
        });
        h.family(&format!("indefinite {}", n), "every envelope x every unit factor over {0,-1,2} (n = 5: {0,-1}) x every sign pattern of D", count(n) * pow(base, k) << n, |i, rec| {
            let mut d = Digits(i);
            let signs = d.take(1 << n);
            let env = envelope(n, &mut d);
            if d.0 >= pow(base, off(&env)) {
                return;
            }
            let l0 = fill(&env, |_| 1.0, |_, _| [0.0, -1.0, 2.0][d.take(base)]);
            let dv: Vec<f64> = (0..n).map(|i| (1.0 + ((i * 2) % 3) as f64) * if signs >> i & 1 == 1 { -1.0 } else { 1.0 }).collect();
            rec.state(i);
            ldl(rec, &l0, Some(&dv), &env);
            rec.trace();
        });
        h.family(&format!("substitutions {}", n), "every envelope x 3 diagonals: forward, transposed, combined and every submatrix range, sparse right-hand sides", count(n) * 3, |i, rec| {
            let mut d = Digits(i);
            let dk = d.take(3);
            let env = envelope(n, &mut d);
            let l0 = fill(&env, |i| [1.0, -2.0 - i as f64, 0.25][dk], |i, j| 0.5 + ((i * 3 + j) % 4) as f64);
            rec.state(i);
            substitutions(rec, &lower_env(&l0, &env), &l0, &|| format!("{:?}", env));
            rec.trace();
        });
    }
    for n in 6..=h.pick(7usize, 8) {
        h.family(&format!("envelopes {}", n), "every envelope, 4 kinds of data (factors full, alternating, single column; diagonally dominant)", count(n) * 4, |i, rec| {
            let mut d = Digits(i);
            let kind = d.take(4);
            let env = envelope(n, &mut d);
            let l0 = fill(&env, |i| [2.0, 1.5, 1.0 + i as f64, 4.0][kind], |i, j| match kind {
                0 => ((i * 5 + j * 3) % 7) as f64 / 4.0 - 0.75,
                1 => if (i + j) % 2 == 0 { 1.0 } else { 0.0 },
                2 => if j == 0 || j + env[i] == i + 1 { -1.0 } else { 0.0 },
                _ => -0.5,
            });
            rec.state(i);
            cholesky(rec, &l0, &env);
            let dv: Vec<f64> = (0..n).map(|k| if (i as usize / 4 >> (k % 7)) & 1 == 1 { -(1.0 + k as f64) } else { 2.0 + (k % 2) as f64 }).collect();
            ldl(rec, &fill(&env, |_| 1.0, |i, j| l0[i][j] / 2.0), Some(&dv), &env);
            rec.trace();
        });
    }
    h.family("same matrix, every envelope that holds it", "n = 4: every sparsity pattern x every envelope at least as wide; results agree with the full envelope", 64 * 24, |i, rec| {
        let mut d = Digits(i);
        let pat = d.take(64);
        let env = envelope(4, &mut d);
        let mut k = 0;
        let mut a = zeros(4, 4);
        for r in 0..4 {
            for c in 0..r {
                if pat >> k & 1 == 1 {
                    a[r][c] = -(1.0 + (k % 3) as f64 / 2.0);
                    a[c][r] = a[r][c];
                }
                k += 1
            }
            a[r][r] = 8.0 + r as f64;
        }
        let fits = (0..4).all(|r| (0..r).all(|c| a[r][c] == 0.0 || c + env[r] >= r + 1));
        if !fits {
            return;
        }
        rec.state(i);
        let full = vec![1, 2, 3, 4];
        let x = rec.call(|| read(&cholesky_envelope(&lower_env(&a, &env))));
        let y = rec.call(|| read(&cholesky_envelope(&lower_env(&a, &full))));
        let z = rec.call(|| {
            let (l, d) = cholesky_envelope_no_root(&lower_env(&a, &env));
            ldlt(&read(&l), &(0..4).map(|i| d[i]).collect::<Vec<_>>())
        });
        match (x, y, z) {
            (Ok(x), Ok(y), Ok(z)) => {
                rec.check(la::normf(&la::sub(&x, &y)) <= 1e-13 * la::normf(&y), "envelope-matters", || format!("{:?} in {:?}: {:?}, full {:?}", a, env, x, y));
                rec.check(la::normf(&la::sub(&z, &a)) <= 1e-13 * la::normf(&a), "ldl", || format!("{:?} in {:?}: {:?}", a, env, z));
                rec.check(la::normf(&la::sub(&llt(&x), &a)) <= 1e-13 * la::normf(&a), "cholesky", || format!("{:?} in {:?}: {:?}", a, env, x));
            }
            e => rec.fail("panics", format!("{:?} in {:?}: {:?}", a, env, e)),
        }
        rec.trace();
    });
    h.family("widely scaled", "n in 2..6, diagonal scalings 10^(k i), every envelope of 4 structured kinds", 5 * 7 * 4, |i, rec| {
        let mut d = Digits(i);
        let n = d.take(5) + 2;
        let p = d.take(7) as i32 - 3;
        let kind = d.take(4);
        let env: Vec<usize> = (0..n).map(|i| match kind { 0 => i + 1, 1 => 1 + (i > 0) as usize, 2 => if i + 1 == n { n } else { 1 }, _ => 1 + i / 2 }).collect();
        let l0 = fill(&env, |_| 1.0, |i, j| if (i + j) % 3 == 0 { -0.5 } else { 0.25 });
        let s: Vec<f64> = (0..n).map(|i| 10f64.powi(p * i as i32)).collect();
        let l1: M = (0..n).map(|i| l0[i].iter().map(|x| x * s[i]).collect()).collect();
        rec.state(i);
        // the factor of S A S is S L: row by row accurate
        let a = llt(&l1);
        let x = rec.call(|| read(&cholesky_envelope(&lower_env(&a, &env))));
        match x {
            Ok(x) => {
                for r in 0..n {
                    let e: Vec<f64> = (0..n).map(|c| (x[r][c] - l1[r][c]) / s[r]).collect();
                    rec.check(la::norm(&e) <= 1e-11, "cholesky", || format!("scaled by 10^{}: {:?}, want {:?}", p, x, l1));
                }
            }
            Err(e) => rec.fail("cholesky-panics", e),
        }
        let y = rec.call(|| {
            let (l, d) = cholesky_envelope_no_root(&lower_env(&a, &env));
            (read(&l), (0..n).map(|i| d[i]).collect::<Vec<f64>>())
        });
        match y {
            Ok((l, dv)) => {
                for r in 0..n {
                    rec.check((dv[r] / (l1[r][r] * l1[r][r]) - 1.0).abs() <= 1e-11, "ldl", || format!("scaled by 10^{}: D {:?}", p, dv));
                    for c in 0..r {
                        rec.check((l[r][c] * l1[c][c] - l1[r][c]).abs() <= 1e-11 * s[r], "ldl", || format!("scaled by 10^{}: L {:?}", p, l));
                    }
                }
            }
            Err(e) => rec.fail("ldl-panics", e),
        }
        rec.trace();
    });
    for n in 1..=4usize {
        let k = (n * (n - 1) / 2) as u32;
        h.family(&format!("sized {}", n), "every envelope x every factor inside it over {-1,0,2} x 5 sizes (rows scaled by powers of two from 2^-90 to 2^70, alike and unlike): factors, inertia and substitutions follow", count(n) * pow(3, k) * 5, |i, rec| {
            let mut d = Digits(i);
            let kind = [1, 2, 3, 4, 6][d.take(5)];
            let env = envelope(n, &mut d);
            if d.0 >= pow(3, env.iter().map(|x| x - 1).sum::<usize>() as u32) {
                return;
            }
            let l0 = fill(&env, |i| [2.0, 1.0, 4.0, 0.5][i % 4], |_, _| [0.0, -1.0, 2.0][d.take(3)]);
            rec.state(i);
            sized_factor(rec, &l0, &env, kind);
            rec.trace();
        });
    }
    h.family("larger", "n to the bound, 6 envelope kinds", h.pick(20, 40) * 6, |i, rec| {
        let mut d = Digits(i);
        let kind = d.take(6);
        larger(rec, d.0 as usize + 7, kind);
    });
    h.family("large", "65, 129, 257 and 300 rows, 6 envelope kinds: factors, products, substitutions and parts of them", 4 * 6, |i, rec| {
        let mut d = Digits(i);
        let kind = d.take(6);
        large(rec, [65, 129, 257, 300][d.take(4)], kind);
    });
    h.finish()
}
