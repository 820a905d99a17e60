//! C07: determinants, LU factors and inverses agree with exact algebra.
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

type I = Vec<Vec<i64>>;

fn int_matrix(n: usize, vals: &[i64], d: &mut Digits) -> I {
    (0..n).map(|_| (0..n).map(|_| *d.pick(vals)).collect()).collect()
}
/// leading principal minors, exactly
fn minors(a: &I) -> Vec<i128> {
    (1..=a.len()).map(|k| la::det_int(&a[..k].iter().map(|r| r[..k].to_vec()).collect::<Vec<_>>())).collect()
}
/// Hadamard's bound: the natural size of a determinant
fn size(a: &M) -> f64 {
    a.iter().map(|r| la::norm(r)).product()
}
fn close(x: f64, y: f64, tol: f64) -> bool {
    (x - y).abs() <= tol
}

struct Want {
    det: f64,
    singular: bool,
    /// smallest |leading minor|, relative to its natural size; 0 when one vanishes
    lu_ok: bool,
    /// condition number
    cond: f64,
}

fn check_inverse(rec: &mut Rec, what: &str, a: &M, cond: f64, r: Result<M, String>) {
    let n = a.len();
    match r {
        Err(e) => rec.fail("inverse-panics", format!("{} inverse of {:?}: {}", what, a, e)),
        Ok(x) => {
            let l = la::sub(&la::mul(a, &x), &la::eye(n));
            let r = la::sub(&la::mul(&x, a), &la::eye(n));
            let e = la::normf(&l).max(la::normf(&r));
            rec.check(e <= 1e-13 * cond * cond + 1e-11, "inverse", || format!("{} inverse of {:?} gave {:?} (off by {:e}, condition {:.1e})", what, a, x, e, cond));
        }
    }
}

fn check_all(rec: &mut Rec, a: &M, w: &Want) {
    let n = a.len();
    let m = dense(a);
    let tol = 1e-12 * size(a).max(w.det.abs());
    let mut mt = dense(&la::transpose(a));
    mt.transpose();
    let dets: Vec<(&str, Result<Result<f64, ()>, String>)> = vec![
        ("determinant", rec.call(|| m.determinant().map_err(|_| ()))),
        ("det_lu_pivot", rec.call(|| m.det_lu_pivot().map_err(|_| ()))),
        ("determinant (transposed layout)", rec.call(|| mt.determinant().map_err(|_| ()))),
        ("determinant (dictionary)", rec.call(|| dict_of(a).determinant().map_err(|_| ()))),
        ("det_lu_pivot (dictionary)", rec.call(|| dict_of(a).det_lu_pivot().map_err(|_| ()))),
    ];
    for (what, d) in dets {
        match d {
            Err(e) => rec.fail("determinant-panics", format!("{} of {:?}: {}", what, a, e)),
            Ok(Err(())) => {
                rec.check(w.singular, "determinant-refused", || format!("{} of {:?}: error, want {}", what, a, w.det));
            }
            Ok(Ok(d)) => {
                rec.check(close(d, w.det, tol), "determinant", || format!("{} of {:?}: {}, want {}", what, a, d, w.det));
            }
        }
    }
    rec.check(read(&m) == *a, "argument-changed", || format!("{:?} became {:?}", a, read(&m)));
    if w.lu_ok {
        for (what, m) in [("dense", &m), ("transposed layout", &mt)] {
            match rec.call(|| {
                let (l, u) = m.lu_decompose();
                (read(&l), read(&u))
            }) {
                Err(e) => rec.fail("lu-panics", format!("{} {:?}: {}", what, a, e)),
                Ok((l, u)) => {
                    let unit = (0..n).all(|i| l[i][i] == 1.0) || (0..n).all(|i| u[i][i] == 1.0);
                    let g = la::normf(&l) * la::normf(&u);
                    let e = la::normf(&la::sub(&la::mul(&l, &u), a));
                    rec.check(unit && e <= 1e-13 * n as f64 * g, "lu", || format!("{} {:?}: L {:?} U {:?}", what, a, l, u));
                    let det: f64 = (0..n).map(|i| u[i][i] * l[i][i]).product();
                    rec.check(close(det, w.det, 1e-12 * g.powi(n as i32).max(tol)), "lu-determinant", || format!("{:?}: {} want {}", a, det, w.det));
                }
            }
            let d = rec.call(|| m.det_lu());
            rec.check(matches!(d, Ok(d) if close(d, w.det, 1e-10 * size(a).max(1.0))), "det-lu", || format!("{} {:?}: {:?}, want {}", what, a, d, w.det));
        }
        if w.cond < 1e6 {
            let x = rec.call(|| read(&m.inv_lu()));
            check_inverse(rec, "lu", a, w.cond * 10.0, x);
        }
    }
    if w.cond < 1e6 {
        let flat: Vec<f64> = a.iter().flatten().cloned().collect();
        let x = rec.call(|| read(&m.inverse()));
        check_inverse(rec, "dense", a, w.cond, x);
        let x = rec.call(|| read(&mt.inverse()));
        check_inverse(rec, "transposed layout", a, w.cond, x);
        let x = rec.call(|| read(&dict_of(a).inverse()));
        check_inverse(rec, "dictionary", a, w.cond, x);
        let x = rec.call(|| read(&CompressedRow::from_flat((n, n), flat.clone()).inverse()));
        check_inverse(rec, "compressed row", a, w.cond, x);
        match n {
            1 => {
                let x = rec.call(|| read(&ConstMatrix::<1>::from_flat((1, 1), flat.clone()).inverse()));
                check_inverse(rec, "fixed", a, w.cond, x);
            }
            2 => {
                let x = rec.call(|| read(&ConstMatrix::<4>::from_flat((2, 2), flat.clone()).inverse()));
                check_inverse(rec, "fixed", a, w.cond, x);
            }
            3 => {
                let x = rec.call(|| read(&ConstMatrix::<9>::from_flat((3, 3), flat.clone()).inverse()));
                check_inverse(rec, "fixed", a, w.cond, x);
            }
            _ => {}
        }
    }
}

fn int_case(rec: &mut Rec, a: &I) {
    let m = minors(a);
    let n = a.len();
    let det = m[n - 1];
    let f = la::to_f(a);
    let w = Want { det: det as f64, singular: det == 0, lu_ok: m[..n - 1].iter().all(|&x| x != 0) && det != 0, cond: if det == 0 { f64::INFINITY } else { la::cond(&f) } };
    rec.outcome((det.signum(), w.lu_ok));
    check_all(rec, &f, &w);
}

fn triangular(rec: &mut Rec, low: &M) {
    let n = low.len();
    let up = la::transpose(low);
    let mut l = LowerTriangular::zeros((n, n));
    let mut u = UpperTriangular::zeros((n, n));
    for i in 0..n {
        for j in 0..=i {
            l[(i, j)] = low[i][j];
            u[(j, i)] = low[i][j];
        }
    }
    let want = la::inverse(low).unwrap();
    let scale = la::normf(&want) * la::normf(low);
    match rec.call(|| (l.tri_inv(), u.tri_inv())) {
        Err(e) => rec.fail("tri-inv-panics", format!("{:?}: {}", low, e)),
        Ok((li, ui)) => {
            let (a, b) = (read(&li), read(&ui));
            let e = la::normf(&la::sub(&a, &want)).max(la::normf(&la::sub(&la::transpose(&b), &want)));
            rec.check(e <= 1e-13 * scale * la::normf(&want), "tri-inv", || format!("{:?}: lower {:?} upper {:?}, want {:?}", low, a, b, want));
            let back = la::sub(&la::mul(&a, low), &la::eye(n));
            rec.check(la::normf(&back) <= 1e-13 * scale, "tri-inv", || format!("{:?}: {:?}", low, a));
        }
    }
    for k in 0..n + 2 {
        let b: Vec<f64> = (0..n).map(|i| if k < n { (i == k) as u8 as f64 } else if k == n { 3.0 - 2.0 * i as f64 } else { ((i * 5 + 1) % 3) as f64 }).collect();
        for (what, m, x) in [("forward", low, rec.call(|| l.forward_sub(&b))), ("backward", &up, rec.call(|| u.backward_sub(&b)))] {
            match x {
                Err(e) => rec.fail("substitution-panics", format!("{} {:?} {:?}: {}", what, m, b, e)),
                Ok(x) => {
                    let ok = x.len() == n && la::backward_error(m, &x, &b) <= 1e-14 * n as f64;
                    rec.check(ok, "substitution", || format!("{} {:?} x = {:?} gave {:?}", what, m, b, x));
                }
            }
        }
    }
    for bad in [n - 1, n + 1] {
        let r = (rec.call(|| l.forward_sub(&vec![1.0; bad])), rec.call(|| u.backward_sub(&vec![1.0; bad])));
        rec.check(r.0.is_err() && r.1.is_err(), "substitution-length", || format!("{} unknowns, {} values: {:?}", n, bad, r));
    }
    // a determinant through the triangular types themselves
    let det: f64 = (0..n).map(|i| low[i][i]).product();
    let d = rec.call(|| (l.diag().product::<f64>(), u.diag().product::<f64>()));
    rec.check(d == Ok((det, det)), "triangular-diagonal", || format!("{:?}: {:?}", low, d));
}

fn diagonal(rec: &mut Rec, v: &[f64]) {
    let d = Diagonal::from(v.to_vec());
    let n = v.len();
    let want_neg = v.iter().filter(|x| **x < 0.0).count();
    let p: f64 = v.iter().product();
    let got = rec.call(|| (d.num_neg(), d.product(), d.product_scaled(-2.0), d.mean()));
    let ok = matches!(got, Ok((a, b, c, m)) if a == want_neg && b == p && close(c, p * (-2f64).powi(n as i32), 1e-9) && close(m, v.iter().sum::<f64>() / n as f64, 1e-14));
    rec.check(ok, "diagonal", || format!("{:?}: {:?}", v, got));
    if v.iter().all(|x| *x != 0.0) {
        let b: Vec<f64> = (0..n).map(|i| 1.5 * i as f64 - 2.0).collect();
        let got = rec.call(|| {
            let mut x = b.clone();
            d.solve(&mut x);
            x
        });
        let want: Vec<f64> = b.iter().zip(v).map(|(x, y)| x / y).collect();
        let ok = matches!(&got, Ok(x) if x.len() == n && x.iter().zip(&want).all(|(p, q)| close(*p, *q, 1e-15 * q.abs())));
        rec.check(ok, "diagonal-solve", || format!("{:?} x = {:?}: {:?}", v, b, got));
    }
}

fn main() {
    let mut h = Harness::new("C07");
    h.assume("inverses are judged for condition numbers below 1e6, LU without pivoting only when every leading minor is nonzero");
    let v: Vec<i64> = (-3..=3).collect();
    h.family("1x1", "every value in -3..3", 7, |i, rec| {
        rec.state(i);
        int_case(rec, &vec![vec![i as i64 - 3]]);
        rec.trace();
    });
    h.family("2x2", "every matrix over -3..3", 2401, |i, rec| {
        rec.state(i);
        let a = int_matrix(2, &v, &mut Digits(i));
        int_case(rec, &a);
        rec.sample(|| format!("{:?}", a));
        rec.trace();
    });
    h.family("3x3", "every matrix over {-1,0,1}", 19683, |i, rec| {
        rec.state(i);
        int_case(rec, &int_matrix(3, &[-1, 0, 1], &mut Digits(i)));
        rec.trace();
    });
    h.family("3x3 mixed sizes", "every matrix over {-5,0,1,2}", 262144, |i, rec| {
        if !rec.thorough() && i % 4 != 0 && i / 4 % 4 != 0 {
            // quick: those with a zero in one of the first two positions
            return;
        }
        rec.state(i);
        int_case(rec, &int_matrix(3, &[0, 1, -5, 2], &mut Digits(i)));
        rec.trace();
    });
    h.family("4x4 zero-one", "every zero-one matrix", 65536, |i, rec| {
        rec.state(i);
        int_case(rec, &int_matrix(4, &[0, 1], &mut Digits(i)));
        rec.trace();
    });
    h.family("4x4 signed patterns", "every pattern of 4x4 entries with fixed distinct signed values", 65536, |i, rec| {
        rec.state(i);
        let a: I = (0..4).map(|r| (0..4).map(|c| if i >> (r * 4 + c) & 1 == 1 { [3, -2, 1, 4, -1, 5, 2, -3, 1, 1, -4, 2, 6, -1, 2, 1][r * 4 + c] } else { 0 }).collect()).collect();
        int_case(rec, &a);
        rec.trace();
    });
    for n in 2..=h.pick(5usize, 6) {
        let perms = permutations(n);
        h.family(&format!("row orders {}", n), "every row order of 6 integer base matrices (permutation parity)", perms.len() as u64 * 6, |i, rec| {
            let mut d = Digits(i);
            let kind = d.take(6);
            let p = &perms[d.0 as usize];
            let a: I = p
                .iter()
                .map(|&r| {
                    (0..n)
                        .map(|c| match kind {
                            0 => (r == c) as i64,
                            1 => if r == c { 4 } else { -((r.abs_diff(c) == 1) as i64) },
                            2 => if c >= r { (1 + r + c) as i64 } else { 0 },
                            3 => ((r * 7 + c * 5 + r * c) % 11) as i64 - 5,
                            4 => (r + c + 1 == n) as i64 * -3 + (r == c) as i64,
                            _ => if c == 0 || r == c { 2 + r as i64 } else { 0 },
                        })
                        .collect()
                })
                .collect();
            rec.state(i);
            int_case(rec, &a);
            rec.trace();
        });
    }
    h.family("scaled", "nonsingular 3x3 matrices over {-1,0,2} times powers of two from 2^-60 to 2^60, uniformly or per row", 19683 * 4, |i, rec| {
        let mut d = Digits(i);
        let k = d.take(4);
        let a = int_matrix(3, &[-1, 0, 2], &mut d);
        let det = la::det_int(&a);
        if det == 0 {
            return;
        }
        let s: [f64; 3] = match k {
            0 => [2f64.powi(-60); 3],
            1 => [2f64.powi(60); 3],
            2 => [2f64.powi(8), 1.0, 2f64.powi(-8)],
            _ => [2f64.powi(-20); 3],
        };
        let f: M = (0..3).map(|r| (0..3).map(|c| a[r][c] as f64 * s[r]).collect()).collect();
        let m = minors(&a);
        let w = Want { det: det as f64 * s[0] * s[1] * s[2], singular: false, lu_ok: m.iter().all(|&x| x != 0) && k != 1, cond: if k == 2 { 1e9 } else { la::cond(&la::to_f(&a)) } };
        rec.state(i);
        // the tolerances of check_all scale with the size of the matrix
        check_all(rec, &f, &w);
        rec.trace();
    });
    h.family("sized", "nonsingular 3x3 matrices over {-1,0,2} with rows scaled by powers of two from 2^-320 to 2^300, alike and unlike: the determinant and the inverse follow", 19683 * 8, |i, rec| {
        let mut d = Digits(i);
        let k = d.take(8);
        let a = int_matrix(3, &[-1, 0, 2], &mut d);
        let det = la::det_int(&a);
        if det == 0 {
            return;
        }
        rec.state(i);
        let s: Vec<f64> = match k {
            5 => vec![2f64.powi(-320); 3],
            6 => vec![2f64.powi(300); 3],
            7 => vec![2f64.powi(-310), 2f64.powi(-300), 2f64.powi(-290)],
            _ => (0..3).map(|r| sized([1, 2, 3, 4, 6][k], r)).collect(),
        };
        let f: M = (0..3).map(|r| (0..3).map(|c| a[r][c] as f64 * s[r]).collect()).collect();
        let want = det as f64 * s[0] * s[1] * s[2];
        let mut mt = dense(&la::transpose(&f));
        mt.transpose();
        for (what, m) in [("dense", dense(&f)), ("transposed layout", mt)] {
            let got = rec.call(|| (m.determinant().map_err(|_| ()), m.det_lu_pivot().map_err(|_| ())));
            let near = |x: &Result<f64, ()>| matches!(x, Ok(x) if (x / want - 1.0).abs() < 1e-11);
            rec.check(matches!(&got, Ok((x, y)) if near(x) && near(y)), "determinant", || format!("{} {:?}: {:?}, want {:e}", what, f, got, want));
            // the inverse of S A is A^-1 S^-1: every column in its own unit
            let x = rec.call(|| read(&m.inverse()));
            let inv = la::inverse(&la::to_f(&a)).unwrap();
            let good = matches!(&x, Ok(x) if x.len() == 3 && (0..3).all(|r| (0..3).all(|c| (x[r][c] * s[c] - inv[r][c]).abs() < 1e-9)));
            rec.check(good, "inverse", || format!("{} {:?}: {:?}", what, f, x));
        }
        rec.trace();
    });
    h.family("sized triangular", "every 4x4 triangular matrix with off-diagonals in {-1,0,2}, rows scaled by powers of two, alike and unlike: substitutions and inverses follow", 729 * 6, |i, rec| {
        let mut d = Digits(i);
        let kind = [1, 2, 3, 4, 5, 6][d.take(6)];
        let mut m = zeros(4, 4);
        for r in 0..4 {
            for c in 0..r {
                m[r][c] = *d.pick(&[-1.0, 0.0, 2.0])
            }
            m[r][r] = [1.0, -2.0, 4.0, 0.5][r];
        }
        rec.state(i);
        let s: Vec<f64> = (0..4).map(|r| sized(kind, r)).collect();
        let (mut l, mut u) = (LowerTriangular::zeros((4, 4)), UpperTriangular::zeros((4, 4)));
        for r in 0..4 {
            for c in 0..=r {
                l[(r, c)] = m[r][c] * s[r];
                u[(c, r)] = m[r][c] * s[r];
            }
        }
        let inv = la::inverse(&m).unwrap();
        let b = [3.0, -1.0, 0.0, 2.0];
        let x = la::mulv(&inv, &b);
        let y = la::mulv(&la::transpose(&inv), &b);
        let sb: Vec<f64> = (0..4).map(|r| b[r] * s[r]).collect();
        let got = rec.call(|| (l.forward_sub(&sb), u.backward_sub(&b.to_vec()), read(&l.tri_inv()), read(&u.tri_inv())));
        let e = 1e-12;
        let good = matches!(&got, Ok((p, q, li, ui)) if (0..4).all(|r| (p[r] - x[r]).abs() < e && (q[r] * s[r] - y[r]).abs() < e
            && (0..4).all(|c| (li[r][c] * s[c] - inv[r][c]).abs() < e && (ui[c][r] * s[c] - inv[r][c]).abs() < e)));
        rec.check(good, "sized-triangular", || format!("{:?} rows x {:?}: {:?}", m, s, got));
        rec.trace();
    });
    for n in 1..=h.pick(3usize, 4) {
        let k = n * (n - 1) / 2;
        h.family(&format!("triangular {}", n), "every triangular matrix with off-diagonals in {-1,0,2} and diagonals in {1,-2,3}", pow(3, k as u32) * pow(3, n as u32), |i, rec| {
            let mut d = Digits(i);
            let mut m = zeros(n, n);
            for r in 0..n {
                for c in 0..r {
                    m[r][c] = *d.pick(&[-1.0, 0.0, 2.0])
                }
                m[r][r] = *d.pick(&[1.0, -2.0, 3.0])
            }
            rec.state(i);
            triangular(rec, &m);
            rec.trace();
        });
    }
    h.family("triangular patterns", "every sparsity pattern of 4x4 triangular matrices, and structured ones to n = 12", 64 + 8 * 6, |i, rec| {
        let m: M = if i < 64 {
            let mut k = 0;
            let mut m = zeros(4, 4);
            for r in 0..4 {
                for c in 0..r {
                    m[r][c] = if i >> k & 1 == 1 { 0.75 + k as f64 } else { 0.0 };
                    k += 1
                }
                m[r][r] = 2.0 + r as f64
            }
            m
        } else {
            let mut d = Digits(i - 64);
            let kind = d.take(6);
            let n = d.0 as usize + 5;
            (0..n).map(|r| (0..n).map(|c| if r == c { 3.0 + (r % 3) as f64 } else if c > r { 0.0 } else { match kind { 0 => 1.0, 1 => (r - c == 1) as u8 as f64, 2 => (c == 0) as u8 as f64, 3 => (r + 1 == n) as u8 as f64, 4 => -((r + c) as f64 % 3.0), _ => lattice(r as u64, c as u64) } }).collect()).collect()
        };
        rec.state(i);
        triangular(rec, &m);
        rec.trace();
    });
    h.family("diagonal", "every diagonal over {-2,0,0.5,3} to length 4", 4 + 16 + 64 + 256, |i, rec| {
        let (n, k) = if i < 4 { (1, i) } else if i < 20 { (2, i - 4) } else if i < 84 { (3, i - 20) } else { (4, i - 84) };
        let mut d = Digits(k);
        let v: Vec<f64> = (0..n).map(|_| *d.pick(&[-2.0, 0.0, 0.5, 3.0])).collect();
        rec.state(i);
        diagonal(rec, &v);
        rec.trace();
    });
    h.family("sized diagonal", "every diagonal over {-2,0,0.5,3} of length 4, entries scaled by powers of two, alike and unlike", 256 * 6, |i, rec| {
        let mut d = Digits(i);
        let kind = [1, 2, 3, 4, 5, 6][d.take(6)];
        let v: Vec<f64> = (0..4).map(|k| *d.pick(&[-2.0, 0.0, 0.5, 3.0]) * sized(kind, k)).collect();
        rec.state(i);
        diagonal(rec, &v);
        rec.trace();
    });
    h.family("non-square", "every non-square shape to 4x4", 16, |i, rec| {
        let (r, c) = ((i % 4) as usize + 1, (i / 4) as usize + 1);
        if r == c {
            return;
        }
        let m = dense(&(0..r).map(|x| (0..c).map(|y| (x * 3 + y * y + 1) as f64).collect()).collect());
        let a = rec.call(|| m.det_lu_pivot().is_ok());
        let b = rec.call(|| m.determinant().is_ok());
        let l = rec.call(|| m.lu_decompose());
        rec.check(a != Ok(true) && b != Ok(true) && l.is_err(), "non-square-accepted", || format!("{}x{}: {:?} {:?} {}", r, c, a, b, l.is_ok()));
        rec.state(i);
        rec.trace();
    });
    let far: &[usize] = h.pick(&[33, 65, 80], &[33, 64, 65, 66, 101, 130]);
    let near = h.pick(12, 30);
    h.family("larger", "n to the bound and of 33, 65 and 80 (thorough to 130), 4 dense families in natural and reversed row order", (near + far.len() as u64) * 8, |i, rec| {
        let mut d = Digits(i);
        let kind = d.take(4);
        let rev = d.take(2) == 1;
        let n = if d.0 < near { d.0 as usize + 3 } else { far[(d.0 - near) as usize] };
        let mut a = family(n, kind);
        // reference determinant: complete pivoting through the eigenvalue-free product of solves
        let det = ref_det(&a);
        let mut sign = 1.0;
        if rev {
            a.reverse();
            if (n / 2) % 2 == 1 {
                sign = -1.0
            }
        }
        rec.state(i);
        check_all(rec, &a, &Want { det: det * sign, singular: false, lu_ok: !rev, cond: la::cond(&a) });
        rec.trace();
    });
    // rows turned and riffled, so that elimination meets zero pivots at every column
    let most = h.pick(16, 28u64);
    h.family("turned rows", "the 4 families of 4 to 16 (thorough 28) rows, rows turned by every amount, then as they are, reversed or riffled", (most - 3) * most * 4 * 3, |i, rec| {
        let mut d = Digits(i);
        let (kind, then) = (d.take(4), d.take(3));
        let n = 4 + d.take(most as usize - 3);
        let turn = d.0 as usize;
        if turn >= n {
            return;
        }
        let mut order: Vec<usize> = (0..n).map(|k| (k + turn) % n).collect();
        match then {
            0 => (),
            1 => order.reverse(),
            _ => order = (0..n).map(|k| order[if 2 * k < n { 2 * k } else { 2 * (k - (n + 1) / 2) + 1 }]).collect(),
        }
        let a0 = family(n, kind);
        let odd = (0..n).map(|i| (0..i).filter(|&j| order[j] > order[i]).count()).sum::<usize>() % 2 == 1;
        let a: M = order.iter().map(|k| a0[*k].clone()).collect();
        let same = order.iter().enumerate().all(|(i, k)| i == *k);
        rec.state(i);
        check_all(rec, &a, &Want { det: ref_det(&a0) * if odd { -1.0 } else { 1.0 }, singular: false, lu_ok: same, cond: la::cond(&a) });
        rec.trace();
    });
    h.finish()
}

/// the four dense families
fn family(n: usize, kind: usize) -> M {
    (0..n)
        .map(|r| {
            (0..n)
                .map(|c| match kind {
                    0 => lattice(r as u64, c as u64) - 0.5 + if r == c { n as f64 } else { 0.0 },
                    1 => (if (r + c) % 2 == 0 { 1.0 } else { -1.0 }) / (1.0 + r.abs_diff(c) as f64) + if r == c { 2.0 } else { 0.0 },
                    2 => if r == 0 || c == 0 { 1.0 } else if r == c { -(2.0 + r as f64) } else { 0.0 },
                    _ => if r == c { 2.5 } else if r.abs_diff(c) == 1 { -1.0 } else { 0.0 },
                })
                .collect()
        })
        .collect()
}

/// determinant by elimination with complete pivoting
fn ref_det(a: &M) -> f64 {
    let n = a.len();
    let mut m = a.clone();
    let mut det = 1.0;
    for k in 0..n {
        let (mut p, mut q) = (k, k);
        for i in k..n {
            for j in k..n {
                if m[i][j].abs() > m[p][q].abs() {
                    p = i;
                    q = j
                }
            }
        }
        if p != k {
            m.swap(p, k);
            det = -det
        }
        if q != k {
            for r in m.iter_mut() {
                r.swap(q, k)
            }
            det = -det
        }
        det *= m[k][k];
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..n {
                m[i][j] -= f * m[k][j]
            }
        }
    }
    det
}
