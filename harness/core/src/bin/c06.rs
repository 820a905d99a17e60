//! C06: dense elimination never returns a wrong solution as a success.
use bugi::matrix::solve::direct::DenseGaussSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

type I = Vec<Vec<i64>>;
const BE: f64 = 1e-11;

/// which failures of the real code are acceptable for this matrix
enum Expect {
    /// nonsingular and reasonably conditioned
    Solve,
    /// has an exactly zero column
    Refuse,
    /// singular or nearly so: an error, or values that satisfy the system
    Either,
}

fn classify(rec: &mut Rec, what: &str, a: &M, b: &[f64], exp: &Expect, exact: &Option<Vec<f64>>, r: Result<Result<Vec<f64>, ()>, String>) {
    match r {
        Err(p) => rec.fail("panics", format!("{}: {:?} x = {:?} panicked: {}", what, a, b, p)),
        Ok(Err(())) => {
            rec.outcome((what, "err"));
            rec.check(!matches!(exp, Expect::Solve), "nonsingular-refused", || format!("{}: {:?} x = {:?} reported an error", what, a, b));
        }
        Ok(Ok(x)) => {
            rec.outcome((what, "ok"));
            rec.check(!matches!(exp, Expect::Refuse), "zero-column-accepted", || format!("{}: {:?} x = {:?} gave {:?}", what, a, b, x));
            if x.len() != a.len() {
                rec.fail("length", format!("{}: {:?} x = {:?} gave {} values", what, a, b, x.len()));
                return;
            }
            let e = la::backward_error(a, &x, b);
            rec.check(e <= BE, "wrong-solution", || format!("{}: {:?} x = {:?} gave {:?} (backward error {:e})", what, a, b, x, e));
            if let (Some(w), Expect::Solve) = (exact, exp) {
                let d: Vec<f64> = w.iter().zip(&x).map(|(p, q)| p - q).collect();
                rec.check(la::norm(&d) <= 1e-9 * (1.0 + la::norm(w)) * 1e3, "inaccurate-solution", || format!("{}: {:?} x = {:?} gave {:?}, want {:?}", what, a, b, x, w));
            }
        }
    }
}

fn run(rec: &mut Rec, a: &M, b: &[f64], exp: Expect, exact: Option<Vec<f64>>) {
    let n = a.len();
    let col = || LinearMatrix::from_flat((n, 1), b.iter().cloned());
    let out = |r: Result<LinearMatrix, MatrixError>| r.map(|x| x.flat().cloned().collect::<Vec<f64>>()).map_err(|_| ());
    let r = rec.call(|| out(dense(a).solve_gausselim(col())));
    classify(rec, "dense", a, b, &exp, &exact, r);
    let r = rec.call(|| {
        let mut m = dense(&la::transpose(a));
        m.transpose();
        let mut c = LinearMatrix::from_flat((1, n), b.iter().cloned());
        c.transpose();
        out(m.solve_gausselim(c))
    });
    classify(rec, "dense, transposed layout", a, b, &exp, &exact, r);
    let r = rec.call(|| dict_of(a).solve_gausselim(dict(n, 1, &(0..n).map(|i| ((i, 0), b[i])).collect::<Vec<_>>())).map(|x| x.flat().cloned().collect::<Vec<f64>>()).map_err(|_| ()));
    classify(rec, "dictionary", a, b, &exp, &exact, r);
    let r = rec.call(|| DenseGaussSolver::new(System::from_kr(&dense(a), &col())).solve());
    classify(rec, "solver", a, b, &exp, &exact, r);
}

fn run_int(rec: &mut Rec, a: &I, b: &[i64]) {
    let n = a.len();
    let det = la::det_int(a);
    let zero_col = (0..n).any(|j| (0..n).all(|i| a[i][j] == 0));
    let exact = if det != 0 { la::solve_int(a, b).map(|v| v.iter().map(|q| q.f()).collect()) } else { None };
    let exp = if zero_col {
        Expect::Refuse
    } else if det != 0 {
        Expect::Solve
    } else {
        Expect::Either
    };
    run(rec, &la::to_f(a), &b.iter().map(|&x| x as f64).collect::<Vec<_>>(), exp, exact);
}

/// the same equations, each multiplied by a power of two: the answer stays what it was
fn run_sized(rec: &mut Rec, a: &I, b: &[i64], kind: u64) {
    let n = a.len();
    let f: Vec<f64> = (0..n).map(|r| sized(kind, r)).collect();
    let det = la::det_int(a);
    let exp = if (0..n).any(|j| (0..n).all(|i| a[i][j] == 0)) {
        Expect::Refuse
    } else if det != 0 {
        Expect::Solve
    } else {
        Expect::Either
    };
    let exact = la::solve_int(a, b).map(|v| v.iter().map(|q| q.f()).collect());
    let m: M = (0..n).map(|r| a[r].iter().map(|&x| x as f64 * f[r]).collect()).collect();
    run(rec, &m, &(0..n).map(|r| b[r] as f64 * f[r]).collect::<Vec<_>>(), exp, if det != 0 { exact } else { None });
}

fn int_matrix(n: usize, vals: &[i64], d: &mut Digits) -> I {
    (0..n).map(|_| (0..n).map(|_| *d.pick(vals)).collect()).collect()
}

fn rhs(n: usize, k: usize) -> Vec<i64> {
    match k {
        0 => (0..n).map(|i| [3, -1, 2, 5, -4, 1, 7][i % 7]).collect(),
        1 => (0..n).map(|i| (i == 0) as i64).collect(),
        2 => (0..n).map(|i| (i + 1 == n) as i64 * -2).collect(),
        _ => vec![0; n],
    }
}

fn main() {
    let mut h = Harness::new("C06");
    h.assume("accuracy is judged by the normwise backward error (1e-11) and, for small integer systems, against the exact rational solution");
    let v7: Vec<i64> = (-3..=3).collect();
    h.family("1x1", "every value in -3..3, several right-hand sides", 7 * 4, |i, rec| {
        rec.state(i);
        run_int(rec, &vec![vec![(i % 7) as i64 - 3]], &rhs(1, (i / 7) as usize));
        rec.trace();
    });
    h.family("sized 2x2", "every matrix over -3..3 x 3 right-hand sides x 6 sizes (rows scaled by powers of two from 2^-500 to 2^70, alike and unlike)", 2401 * 3 * 6, |i, rec| {
        let mut d = Digits(i);
        let (kind, b) = ([1, 2, 3, 4, 5, 6][d.take(6)], rhs(2, d.take(3)));
        let a = int_matrix(2, &v7, &mut d);
        rec.state(i);
        run_sized(rec, &a, &b, kind);
        rec.trace();
    });
    h.family("sized 3x3", "every matrix over {-1,0,1} x 6 sizes", 19683 * 6, |i, rec| {
        let mut d = Digits(i);
        let kind = [1, 2, 3, 4, 5, 6][d.take(6)];
        let a = int_matrix(3, &[-1, 0, 1], &mut d);
        rec.state(i);
        run_sized(rec, &a, &rhs(3, 0), kind);
        rec.trace();
    });
    h.family("2x2", "every matrix over -3..3 x every right-hand side over {-1,0,2} ", 2401 * 9, |i, rec| {
        let mut d = Digits(i);
        let b: Vec<i64> = (0..2).map(|_| *d.pick(&[-1, 0, 2])).collect();
        let a = int_matrix(2, &v7, &mut d);
        rec.state(i);
        run_int(rec, &a, &b);
        rec.sample(|| format!("{:?} x = {:?}", a, b));
        rec.trace();
    });
    h.family("3x3", "every matrix over {-1,0,1} x 4 right-hand sides", 19683 * 4, |i, rec| {
        let mut d = Digits(i);
        let b = rhs(3, d.take(4));
        let a = int_matrix(3, &[-1, 0, 1], &mut d);
        rec.state(i);
        run_int(rec, &a, &b);
        rec.sample(|| format!("{:?} x = {:?}", a, b));
        rec.trace();
    });
    h.family("3x3 mixed sizes", "every matrix over {-5,0,1,2} ", 262144, |i, rec| {
        let mut d = Digits(i);
        let a = int_matrix(3, &[-5, 0, 1, 2], &mut d);
        rec.state(i);
        run_int(rec, &a, &rhs(3, 0));
        rec.trace();
    });
    h.family("4x4 zero-one", "every zero-one matrix", 65536, |i, rec| {
        let mut d = Digits(i);
        let a = int_matrix(4, &[0, 1], &mut d);
        rec.state(i);
        run_int(rec, &a, &rhs(4, 0));
        rec.trace();
    });
    if h.thorough() {
        h.family("3x3 wide", "every matrix over {-2,-1,0,1,2}", 1953125, |i, rec| {
            let mut d = Digits(i);
            let a = int_matrix(3, &[-2, -1, 0, 1, 2], &mut d);
            rec.state(i);
            run_int(rec, &a, &rhs(3, 0));
            rec.trace();
        });
        h.family("4x4 signed rows", "every 4x4 matrix over {-1,0,1} with a fixed first row pattern", 4 * 531441, |i, rec| {
            let mut d = Digits(i);
            let first = [[0, 1, -1, 2], [1, 0, 0, 0], [0, 0, 0, 1], [-1, -1, 1, 1]][d.take(4)];
            let mut a: I = vec![first.to_vec()];
            for _ in 0..3 {
                a.push((0..4).map(|_| d.take(3) as i64 - 1).collect())
            }
            rec.state(i);
            run_int(rec, &a, &rhs(4, 0));
            rec.trace();
        });
    }
    // every row order of structured matrices with signs and scales per row
    for n in 2..=h.pick(5usize, 6) {
        let perms = permutations(n);
        let np = perms.len() as u64;
        h.family(&format!("row orders {}", n), "every row order x 6 base matrices x every sign per row (n <= 5) x 9 row scalings", np * 6 * 32 * 9, |i, rec| {
            let mut d = Digits(i);
            let p = &perms[d.take(np)];
            let kind = d.take(6);
            let sign = d.take(32);
            if n < 5 && sign >> n != 0 {
                return;
            }
            let sc = d.take(9);
            let base: I = (0..n)
                .map(|r| {
                    (0..n)
                        .map(|c| match kind {
                            0 => (r == c) as i64,                                             // permutation matrices
                            1 => if r == c { 4 } else { -((r.abs_diff(c) == 1) as i64) },     // tridiagonal
                            2 => if c >= r { (1 + r + c) as i64 } else { 0 },                 // triangular
                            3 => 1 + (((r * 7 + c * 5 + r * c) % 11) as i64) + if r == c { 15 } else { 0 },
                            4 => (r + c + 1 == n) as i64 * 3 + (r == c) as i64,               // both diagonals
                            _ => if c == 0 || r == c { 2 + r as i64 } else { 0 },             // first column and diagonal
                        })
                        .collect()
                })
                .collect();
            let scale = |r: usize| match sc {
                0 => 1.0,
                1 => 10f64.powi(if r % 2 == 0 { 6 } else { -6 }),
                2 => 10f64.powi(3 * r as i32 - 6),
                k => sized(k as u64 - 2, r),
            };
            let a: M = p.iter().map(|&r| base[r].iter().map(|&x| x as f64 * scale(r) * if sign >> r & 1 == 1 { -1.0 } else { 1.0 }).collect()).collect();
            let b0 = rhs(n, 0);
            let b: Vec<f64> = p.iter().map(|&r| b0[r] as f64 * scale(r) * if sign >> r & 1 == 1 { -1.0 } else { 1.0 }).collect();
            // undo the row operations: the exact answer does not depend on them
            let det = la::det_int(&base);
            let exact: Option<Vec<f64>> = la::solve_int(&base, &b0).map(|v| v.iter().map(|q| q.f()).collect());
            rec.state(i);
            let exp = if det != 0 { Expect::Solve } else { Expect::Either };
            run(rec, &a, &b, exp, if sc == 0 { exact } else { None });
            rec.trace();
        });
    }
    h.family("pivot positions", "matrices whose column k has its only usable pivot in row r, n to 6, every (k, r)", 5 * 6 * 6 * 2, |i, rec| {
        let mut d = Digits(i);
        let n = d.take(5) + 2;
        let (k, r) = (d.take(6), d.take(6));
        let s = if d.take(2) == 0 { 1 } else { -1 };
        if k >= n || r < k || r >= n {
            return;
        }
        // identity with rows k and r exchanged, a large negative pivot and noise above
        let mut a: I = (0..n).map(|x| (0..n).map(|y| (x == y) as i64 + if y > x { ((x * 3 + y) % 4) as i64 - 1 } else { 0 }).collect()).collect();
        a[k][k] *= -7 * s;
        a.swap(k, r);
        rec.state(i);
        for kb in 0..4 {
            run_int(rec, &a, &rhs(n, kb));
        }
        rec.trace();
    });
    h.family("zero columns", "n to 6, every zero column, 3 fillings", 6 * 6 * 3, |i, rec| {
        let mut d = Digits(i);
        let n = d.take(6) + 1;
        let z = d.take(6);
        let kind = d.take(3);
        if z >= n {
            return;
        }
        let a: I = (0..n).map(|r| (0..n).map(|c| if c == z { 0 } else { match kind { 0 => ((r * 5 + c * 3) % 7) as i64 - 3, 1 => (r == c) as i64, _ => 0 } }).collect()).collect();
        rec.state(i);
        for kb in 0..4 {
            run_int(rec, &a, &rhs(n, kb));
        }
        rec.trace();
    });
    h.family("malformed shapes", "every shape to 4x4 with every right-hand side shape to 4x3", 4 * 4 * 4 * 3, |i, rec| {
        let mut d = Digits(i);
        let (r, c, p, q) = (d.take(4) + 1, d.take(4) + 1, d.take(4) + 1, d.take(3) + 1);
        let good = r == c && p == r && q == 1;
        let a: M = (0..r).map(|x| (0..c).map(|y| if x == y { 2.0 } else { 0.5 / (1 + x + y) as f64 }).collect()).collect();
        let b: M = (0..p).map(|x| (0..q).map(|y| (x + y) as f64 + 1.0).collect()).collect();
        rec.state(i);
        let x = rec.call(|| dense(&a).solve_gausselim(dense(&b)).is_ok());
        let y = rec.call(|| dict_of(&a).solve_gausselim(dict_of(&b)).is_ok());
        rec.check(x == Ok(good) && y == Ok(good), "shape", || format!("{}x{} with right-hand side {}x{}: dense {:?}, dictionary {:?}", r, c, p, q, x, y));
        let s = rec.call(|| DenseGaussSolver::new(System::from_kr(&dense(&a), &dense(&b))).solve().is_ok());
        rec.check((s == Ok(true)) == good, "shape", || format!("system {}x{} with right-hand side {}x{}: {:?}", r, c, p, q, s));
        rec.trace();
    });
    let far: &[usize] = h.pick(&[33, 65, 80], &[64, 65, 66, 101, 130]);
    let near = h.pick(24, 50);
    h.family("larger", "n to the bound and of 33, 65 and 80 (thorough to 130), 6 dense families (shifted, sign-alternating, Hilbert-like, Wilkinson growth, arrow, cyclic)", (near + far.len() as u64) * 6, |i, rec| {
        let mut d = Digits(i);
        let kind = d.take(6);
        let n = if d.0 < near { d.0 as usize + 1 } else { far[(d.0 - near) as usize] };
        let a: M = (0..n)
            .map(|r| {
                (0..n)
                    .map(|c| match kind {
                        0 => lattice(r as u64, c as u64) - 0.5,
                        1 => (if (r + c) % 2 == 0 { 1.0 } else { -1.0 }) / (1.0 + r.abs_diff(c) as f64),
                        2 => 1.0 / (1.0 + (r + c) as f64) + if (r + 1) % n == c { 1.0 } else { 0.0 },
                        // what partial pivoting may lose stays small: 1.5^50, 1.02^130
                        3 => if c + 1 == n || c == r { 1.0 } else if c < r { if n > 50 { -0.02 } else { -0.5 } } else { 0.0 },
                        4 => if r == 0 || c == 0 { 1.0 } else if r == c { -(2.0 + r as f64) } else { 0.0 },
                        _ => if (r + 1) % n == c { -3.0 } else if r == c { 1e-9 } else { 0.0 },
                    })
                    .collect()
            })
            .collect();
        let b: Vec<f64> = (0..n).map(|x| lattice(x as u64, 99) - 0.5).collect();
        let cond = la::cond(&a);
        rec.state(i);
        run(rec, &a, &b, if cond < 1e7 { Expect::Solve } else { Expect::Either }, None);
        rec.trace();
    });
    h.finish()
}
