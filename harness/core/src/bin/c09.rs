//! C09: all linear solvers return the same answer in the caller's numbering.
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

type Contribution = ((usize, usize), f64);

/// positive definite matrix with the sparsity of the graph, every entry different
fn spd(n: usize, edges: &[(usize, usize)], dominance: f64) -> M {
    let mut a = zeros(n, n);
    for (k, &(i, j)) in edges.iter().enumerate() {
        let w = (1.0 + (k % 4) as f64 / 2.0) * if (i + j) % 3 == 0 { 1.0 } else { -1.0 };
        a[i][j] = w;
        a[j][i] = w;
    }
    for i in 0..n {
        a[i][i] = dominance * a[i].iter().map(|x| x.abs()).sum::<f64>() + 1.0 + i as f64 / 4.0;
    }
    a
}

/// the same matrix as a list of contributions, in presentation number `k`
fn contributions(a: &M, k: usize) -> Vec<Contribution> {
    let n = a.len();
    let all: Vec<Contribution> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| ((i, j), a[i][j])).filter(|x| x.1 != 0.0).collect();
    match k {
        0 => all,
        1 => all.into_iter().rev().collect(),
        // columns first
        2 => {
            let mut v = all;
            v.sort_by_key(|x| (x.0 .1, x.0 .0));
            v
        }
        // each in three unequal parts, far apart (the sum is exact: halves and quarters)
        3 => {
            let mut v: Vec<Contribution> = all.iter().map(|x| (x.0, x.1 / 2.0)).collect();
            v.extend(all.iter().rev().map(|x| (x.0, x.1 / 4.0)));
            v.extend(all.iter().map(|x| (x.0, x.1 / 4.0)));
            v
        }
        // element by element, like an assembly: edge contributions repeated on the diagonal
        4 => {
            let mut v = vec![];
            for i in 0..n {
                for j in 0..i {
                    if a[i][j] != 0.0 {
                        let w = a[i][j].abs();
                        v.extend([((i, i), w), ((i, j), a[i][j]), ((j, i), a[i][j]), ((j, j), w)]);
                    }
                }
            }
            for i in 0..n {
                let w: f64 = (0..n).filter(|&j| j != i).map(|j| a[i][j].abs()).sum();
                v.push(((i, i), a[i][i] - w));
            }
            v
        }
        // contributions that cancel, leaving stored zeros
        _ => {
            // in the units of the matrix, so that nothing is rounded away
            let w = 4.0 * 2f64.powi(a[0][0].abs().log2().floor() as i32);
            let mut v = vec![((0, n - 1), w), ((n - 1, 0), w)];
            v.extend(all);
            v.extend([((0, n - 1), -w), ((n - 1, 0), -w)]);
            v
        }
    }
}

fn build(n: usize, c: &[Contribution], b: &[f64], rhs_first: bool) -> System {
    let mut s = System::new(n);
    let add_rhs = |s: &mut System| {
        for (i, &x) in b.iter().enumerate() {
            if x != 0.0 || b.iter().all(|y| *y == 0.0) {
                s.add_rhs_val(i, x / 2.0);
            }
        }
        for (i, &x) in b.iter().enumerate().rev() {
            s.add_rhs_val(i, x / 2.0);
        }
    };
    if rhs_first {
        add_rhs(&mut s)
    }
    for &(l, v) in c {
        s.add_k_coefficient(l, v)
    }
    if !rhs_first {
        add_rhs(&mut s)
    }
    s
}

fn solve_all(rec: &mut Rec, a: &M, b: &[f64], iterative: bool, hist: &dyn Fn() -> String, make: &dyn Fn() -> System) {
    let n = a.len();
    let want = la::solve(a, b).expect("reference");
    let dg = rec.call(|| DenseGaussSolver::new(make()).solve());
    let ch = rec.call(|| CholeskyEnvelopeSolver::new(make()).solve());
    for (what, r) in [("dense", dg), ("cholesky", ch)] {
        match r {
            Ok(Ok(x)) => {
                let e = if x.len() == n { la::backward_error(a, &x, b) } else { f64::INFINITY };
                rec.check(e <= 1e-12, "direct-wrong", || format!("{} {}: {:?}, want {:?}", what, hist(), x, want));
            }
            r => rec.fail("direct-fails", format!("{} {}: {:?}", what, hist(), r)),
        }
    }
    if iterative {
        let r = rec.call(|| GaussSeidelSolver::new(make()).solve());
        match r {
            Ok(Ok(x)) => {
                let d: Vec<f64> = x.iter().zip(&want).map(|(p, q)| p - q).collect();
                let tol = iterative_bound(a) * la::norm(&want);
                rec.check(x.len() == n && la::norm(&d) <= tol, "iterative-wrong", || format!("{}: {:?}, want {:?} within {:e}", hist(), x, want, tol));
                rec.outcome(((la::norm(&d) / la::norm(&want).max(1e-300)) * 1e4) as u64);
            }
            r => rec.fail("iterative-fails", format!("{}: {:?}", hist(), r)),
        }
    }
}

fn rhs(n: usize, k: usize) -> Vec<f64> {
    match k {
        0 => (0..n).map(|i| [3.0, -1.0, 2.5, 5.0, -4.0][i % 5]).collect(),
        1 => (0..n).map(|i| (i == 0) as u8 as f64).collect(),
        2 => (0..n).map(|i| if i + 1 == n { -2.0 } else { 0.0 }).collect(),
        _ => vec![0.0; n],
    }
}

/// reordering permutes matrix and right-hand side consistently
fn reduced(rec: &mut Rec, a: &M, b: &[f64], hist: &dyn Fn() -> String, make: &dyn Fn() -> System) {
    let n = a.len();
    let want = la::solve(a, b).expect("reference");
    let r = rec.call(|| {
        let mut s = make();
        let before: Vec<usize> = s.k_envelope().collect();
        s.reduce_envelope();
        let after: Vec<usize> = s.k_envelope().collect();
        (before, after, s.dofs(), DenseGaussSolver::new(s).solve())
    });
    match r {
        Ok((before, after, dofs, Ok(mut x))) => {
            let env: Vec<usize> = (0..n).map(|i| (0..=i).find(|&j| a[i][j] != 0.0).map(|j| i - j + 1).unwrap_or(0)).collect();
            rec.check(dofs == n && after.len() == n && after.iter().enumerate().all(|(i, e)| *e >= 1 && *e <= i + 1), "envelope", || format!("{}: {:?}", hist(), after));
            rec.check(before.iter().zip(&env).all(|(p, q)| p >= q), "envelope", || format!("{}: {:?}, want {:?}", hist(), before, env));
            // the reordered system has the same solution up to the order of its entries
            let mut w = want.clone();
            x.sort_by(|p, q| p.total_cmp(q));
            w.sort_by(|p, q| p.total_cmp(q));
            let d: Vec<f64> = x.iter().zip(&w).map(|(p, q)| p - q).collect();
            rec.check(la::norm(&d) <= 1e-10 * (1.0 + la::norm(&w)), "reordered", || format!("{}: {:?}, want the entries {:?}", hist(), x, w));
        }
        r => rec.fail("reorder-fails", format!("{}: {:?}", hist(), r.map(|x| x.3))),
    }
}

fn edges_of(n: usize, code: u64) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = 0;
    for a in 0..n {
        for b in a + 1..n {
            if code >> k & 1 == 1 {
                v.push((a, b))
            }
            k += 1;
        }
    }
    v
}

/// larger graph families
fn family(kind: usize, n: usize) -> Vec<(usize, usize)> {
    let w = (n as f64).sqrt().ceil() as usize;
    match kind {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| (0, i)).collect(),
        2 => (0..n).flat_map(|i| [(i, i + 1, (i + 1) % w != 0), (i, i + w, true)]).filter(|x| x.1 < n && x.2).map(|x| (x.0, x.1)).collect(),
        3 => (1..n).map(|i| ((i - 1) / 2, i)).collect(),
        4 => (0..n).filter(|i| i % 3 != 2 && i + 1 < n).map(|i| (i, i + 1)).collect(),
        5 => (0..n).map(|i| (i.min((i * 7 + 3) % n), i.max((i * 7 + 3) % n))).filter(|x| x.0 != x.1).collect(),
        6 => vec![],
        _ => (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect(),
    }
}

fn main() {
    let mut h = Harness::new("C09");
    h.assume("Gauss-Seidel is compared on diagonally dominant systems, where it converges within its iteration limit, to the error its relative step of 1e-3 leaves");
    for n in 1..=5usize {
        let g = 1u64 << (n * (n - 1) / 2);
        h.family(&format!("graphs {}", n), "every sparsity graph x 6 contribution presentations x 4 right-hand sides x right-hand side added first or last", g * 6 * 4 * 2, |i, rec| {
            let mut d = Digits(i);
            let (pres, kb, first) = (d.take(6), d.take(4), d.take(2) == 1);
            let e = edges_of(n, d.0);
            let a = spd(n, &e, 1.5);
            let b = rhs(n, kb);
            let c = contributions(&a, pres);
            rec.state(i);
            let hist = || format!("edges {:?} presentation {} rhs {:?}", e, pres, b);
            let make = || build(n, &c, &b, first);
            solve_all(rec, &a, &b, true, &hist, &make);
            if kb == 0 {
                reduced(rec, &a, &b, &hist, &make);
            }
            rec.sample(&hist);
            rec.trace();
        });
    }
    h.family("graphs 6", "every 6-vertex sparsity graph, barely dominant data, direct solvers", 1 << 15, |i, rec| {
        if !rec.thorough() && i % 4 != 0 && i % 4 != 3 {
            return;
        }
        let e = edges_of(6, i);
        let a = spd(6, &e, 1.0);
        let b = rhs(6, 0);
        let c = contributions(&a, (i % 6) as usize);
        rec.state(i);
        solve_all(rec, &a, &b, false, &|| format!("edges {:?}", e), &|| build(6, &c, &b, false));
        rec.trace();
    });
    h.family("contribution orders", "2-node and 3-node chains: every order of the individual contributions (3-node: off-diagonal and diagonal, 7 contributions)", 24 + 5040, |i, rec| {
        let (n, k) = if i < 24 { (2, i as usize) } else { (3, i as usize - 24) };
        let e = family(0, n);
        let a = spd(n, &e, 1.2);
        let all = contributions(&a, 0);
        let o = nth_perm(all.len(), k);
        let c: Vec<Contribution> = o.iter().map(|&j| all[j]).collect();
        let b = rhs(n, 0);
        rec.state(i);
        solve_all(rec, &a, &b, n == 2, &|| format!("order {:?}", c), &|| build(n, &c, &b, true));
        rec.trace();
    });
    for n in 1..=4usize {
        let g = 1u64 << (n * (n - 1) / 2);
        let bound = if n <= 3 { 2 } else { h.pick(1, 2) };
        h.family(&format!("hash orders {}", n), "every sparsity graph under hash visiting orders (n <= 2 all, else first-entry deviations within the bound)", g, |i, rec| {
            let e = edges_of(n, i);
            let a = spd(n, &e, 1.5);
            let b = rhs(n, 0);
            let c = contributions(&a, 4);
            rec.state(i);
            let (mode, bd, cap) = if n <= 2 { (Mode::Full, 3, 20000) } else { (Mode::Front, bound, 20000) };
            let hist = || format!("edges {:?}", e);
            let make = || build(n, &c, &b, false);
            let want = la::solve(&a, &b).unwrap();
            for which in 0..3 {
                rec.explore(mode, bd, cap, |rec| {
                    let r = rec.call(|| match which {
                        0 => DenseGaussSolver::new(make()).solve(),
                        1 => CholeskyEnvelopeSolver::new(make()).solve(),
                        _ => GaussSeidelSolver::new(make()).solve(),
                    });
                    let tol = if which == 2 { iterative_bound(&a) } else { 1e-11 } * la::norm(&want);
                    let ok = matches!(&r, Ok(Ok(x)) if la::norm(&x.iter().zip(&want).map(|(p, q)| p - q).collect::<Vec<_>>()) <= tol);
                    rec.check(ok, ["direct-wrong", "direct-wrong", "iterative-wrong"][which], || format!("{}: {:?}, want {:?}", hist(), r, want));
                    rec.trace();
                });
            }
        });
    }
    h.family("renumbering", "every permutation of 8 graph families of 5 vertices: the answer follows the numbering", 120 * 8, |i, rec| {
        let p = &permutations(5)[(i / 8) as usize];
        let e = family((i % 8) as usize, 5);
        let a = spd(5, &e, 1.5);
        let b = rhs(5, 0);
        let mut pa = zeros(5, 5);
        let mut pb = vec![0.0; 5];
        for x in 0..5 {
            pb[p[x]] = b[x];
            for y in 0..5 {
                pa[p[x]][p[y]] = a[x][y]
            }
        }
        rec.state(i);
        let c = contributions(&pa, 4);
        solve_all(rec, &pa, &pb, true, &|| format!("{:?} renumbered {:?}", e, p), &|| build(5, &c, &pb, false));
        rec.trace();
    });
    h.family("conversions", "systems built from matrices of other schemes, 8 graph families, n to 7; bad shapes refused", 8 * 7, |i, rec| {
        let (kind, n) = ((i % 8) as usize, (i / 8) as usize + 1);
        let a = spd(n, &family(kind, n), 1.5);
        let b = rhs(n, 0);
        rec.state(i);
        let r = LinearMatrix::from_flat((n, 1), b.iter().cloned());
        let hist = || format!("family {} n {}", kind, n);
        solve_all(rec, &a, &b, true, &hist, &|| System::from_kr(&dense(&a), &r));
        solve_all(rec, &a, &b, true, &hist, &|| System::from_kr(&CompressedRow::from(dict_of(&a)), &r));
        solve_all(rec, &a, &b, true, &hist, &|| System::from_kr(&dict_of(&a), &r));
        solve_all(rec, &a, &b, true, &hist, &|| System::from_kr(&BiEnvelope::from(dict_of(&a)), &r));
        let bad = [
            rec.call(|| System::from_kr(&dense(&a), &LinearMatrix::zeros((n + 1, 1))).dofs()).is_err(),
            rec.call(|| System::from_kr(&dense(&a), &LinearMatrix::zeros((n, 2))).dofs()).is_err(),
            rec.call(|| System::from_kr(&LinearMatrix::zeros((n, n + 1)), &LinearMatrix::zeros((n, 1))).dofs()).is_err(),
        ];
        rec.check(bad.iter().all(|x| *x), "shape-accepted", || format!("{:?}", bad));
        rec.trace();
    });
    for n in 1..=4usize {
        let g = 1u64 << (n * (n - 1) / 2);
        h.family(&format!("with a mass {}", n), "every sparsity graph x 6 contribution presentations x 3 masses (diagonal, the stiffness itself, on the odd unknowns) given before or after x 2 right-hand sides: the static answer does not change, reordering takes all three along", g * 6 * 3 * 2 * 2, |i, rec| {
            let mut d = Digits(i);
            let (pres, mass, first, kb) = (d.take(6), d.take(3), d.take(2) == 1, d.take(2));
            let e = edges_of(n, d.0);
            let a = spd(n, &e, 1.5);
            let b = rhs(n, kb);
            let c = contributions(&a, pres);
            rec.state(i);
            let hist = || format!("edges {:?} presentation {} mass {} rhs {:?}", e, pres, mass, b);
            let add = |s: &mut System| {
                for (&(r, q), &v) in c.iter().map(|(l, v)| (l, v)) {
                    match mass {
                        0 if r == q => s.add_m_coefficient((r, q), 7.0 + r as f64),
                        1 => s.add_m_coefficient((r, q), v),
                        2 if r == q && (r % 2 == 1 || r == 0) => s.add_m_coefficient((r, q), v),
                        _ => (),
                    }
                }
            };
            let make = || {
                if first {
                    // the mass before anything else
                    let mut s = System::new(n);
                    add(&mut s);
                    for (i, &x) in b.iter().enumerate() {
                        s.add_rhs_val(i, x);
                    }
                    for &(l, v) in c.iter() {
                        s.add_k_coefficient(l, v)
                    }
                    s
                } else {
                    let mut s = build(n, &c, &b, true);
                    add(&mut s);
                    s
                }
            };
            solve_all(rec, &a, &b, true, &hist, &make);
            if kb == 0 {
                reduced(rec, &a, &b, &hist, &make);
                let r = rec.call(|| {
                    let mut s = make();
                    s.reduce_envelope();
                    (s.k_envelope().collect::<Vec<_>>(), s.m_envelope().collect::<Vec<_>>())
                });
                let ok = match (&r, mass) {
                    (Ok((k, m)), 1) => k == m,
                    (Ok((_, m)), 0) => m.iter().all(|x| *x == 1),
                    (Ok((_, m)), _) => m.len() == n && m.iter().all(|x| *x <= 1) && m.iter().sum::<usize>() == (0..n).filter(|r| r % 2 == 1 || *r == 0).count(),
                    _ => false,
                };
                rec.check(ok, "mass-reordered", || format!("{}: {:?}", hist(), r));
            }
            rec.trace();
        });
    }
    let top = h.pick(40u64, 90);
    h.family("larger", "8 graph families, n to the bound, 3 presentations, 3 right-hand sides", top * 8 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (kind, pres, kb) = (d.take(8), [0, 3, 4][d.take(3)], [0, 2, 3][d.take(3)]);
        let n = d.0 as usize + 1;
        let mut e = family(kind, n);
        e.sort();
        e.dedup();
        let a = spd(n, &e, 1.5);
        let b = rhs(n, kb);
        let c = contributions(&a, pres);
        rec.state(i);
        let hist = || format!("family {} n {} presentation {} rhs {}", kind, n, pres, kb);
        let make = || build(n, &c, &b, false);
        solve_all(rec, &a, &b, true, &hist, &make);
        if kb == 0 {
            reduced(rec, &a, &b, &hist, &make);
        }
        rec.trace();
    });
    h.family("large", "7 sparse graph families of 127 to 300 vertices, 2 presentations, 2 right-hand sides", 7 * 6 * 2 * 2, |i, rec| {
        let mut d = Digits(i);
        let (kind, n, pres, kb) = (d.take(7), [127, 129, 200, 255, 257, 300][d.take(6)], [0, 4][d.take(2)], [0, 2][d.take(2)]);
        let mut e = family(kind, n);
        e.sort();
        e.dedup();
        let mut a = spd(n, &e, 1.5);
        // the diagonal grows with the vertex in spd: keep the weights alike
        for i in 0..n {
            a[i][i] -= (i - i % 8) as f64 / 4.0;
        }
        let b = rhs(n, kb);
        let c = contributions(&a, pres);
        rec.state(i);
        let hist = || format!("family {} n {} presentation {} rhs {}", kind, n, pres, kb);
        if n < 150 && kb == 0 {
            solve_all(rec, &a, &b, false, &hist, &|| build(n, &c, &b, false));
        }
        let tell = |x: Vec<f64>, tol: f64| if x.len() == n { la::backward_error(&a, &x, &b) <= tol } else { false };
        let r = rec.call(|| CholeskyEnvelopeSolver::new(build(n, &c, &b, false)).solve().map(|x| tell(x, 1e-12)));
        rec.check(matches!(r, Ok(Ok(true))), "direct-wrong", || format!("cholesky {}: {:?}", hist(), r));
        let r = rec.call(|| GaussSeidelSolver::new(build(n, &c, &b, false)).solve().map(|x| tell(x, 1e-2)));
        rec.check(matches!(r, Ok(Ok(true))), "iterative-wrong", || format!("{}: {:?}", hist(), r));
        rec.trace();
    });
    h.family("units", "every 3- and 4-vertex sparsity graph, stiffness in units of 2^-140, 2^-40, 1, 2^40 and 2^140 and loads in units of 2^-100, 2^-40, 1 and 2^40: all three solvers follow", (8 + 64) * 5 * 4, |i, rec| {
        let mut d = Digits(i);
        let (ku, bu) = (2f64.powi([-140, -40, 0, 40, 140][d.take(5)]), 2f64.powi([-100, -40, 0, 40][d.take(4)]));
        let (n, code) = if d.0 < 8 { (3, d.0) } else { (4, d.0 - 8) };
        let e = edges_of(n, code);
        let a: M = spd(n, &e, 1.5).iter().map(|r| r.iter().map(|x| x * ku).collect()).collect();
        let b: Vec<f64> = rhs(n, (i % 3) as usize).iter().map(|x| x * bu).collect();
        let c = contributions(&a, (i % 6) as usize);
        rec.state((n, i));
        let hist = || format!("edges {:?} stiffness times {:e}, loads times {:e}", e, ku, bu);
        solve_all(rec, &a, &b, true, &hist, &|| build(n, &c, &b, true));
        rec.trace();
    });
    // D A D with powers of two is solved by D^-1 x exactly as A is by x: nothing may be dropped
    // for being small beside something else
    for n in 1..=5usize {
        let g = 1u64 << (n * (n - 1) / 2);
        let scales = [-30i32, 0, 24];
        let picks = pow(3, n as u32);
        let every = if n == 5 { h.pick(16u64, 1) } else { 1 };
        h.family(&format!("graded {}", n), "every sparsity graph (quick: every 16th on 5 vertices) x every assignment of the scales 2^-30, 1 and 2^24 to its unknowns, given in 5 forms: each unknown to 1e-9 of its own size", g * picks / every, |i, rec| {
            let mut d = Digits(i * every + i % every);
            let s: Vec<f64> = (0..n).map(|_| 2f64.powi(scales[d.take(3)])).collect();
            let e = edges_of(n, d.0 % g);
            let a0 = spd(n, &e, 1.5);
            let b0 = rhs(n, 0);
            let want = la::solve(&a0, &b0).expect("reference");
            let a: M = (0..n).map(|i| (0..n).map(|j| s[i] * a0[i][j] * s[j]).collect()).collect();
            let b: Vec<f64> = (0..n).map(|i| s[i] * b0[i]).collect();
            let c = contributions(&a, (i % 3) as usize);
            rec.state((n, i));
            let form = (i.wrapping_mul(0x9e3779b97f4a7c15) >> 60) % 5;
            let hist = || format!("edges {:?} scales {:?} form {}", e, s, form);
            let make = || {
                let r = LinearMatrix::from_flat((n, 1), b.iter().cloned());
                match form {
                    0 => build(n, &c, &b, false),
                    1 => System::from_kr(&dense(&a), &r),
                    2 => System::from_kr(&CompressedRow::from(dict_of(&a)), &r),
                    3 => System::from_kr(&dict_of(&a), &r),
                    _ => System::from_kr(&BiEnvelope::from(dict_of(&a)), &r),
                }
            };
            match rec.call(|| CholeskyEnvelopeSolver::new(make()).solve()) {
                Ok(Ok(x)) => {
                    let y: Vec<f64> = x.iter().zip(&s).map(|(x, s)| x * s).collect();
                    let size = la::norm(&want);
                    rec.check(y.len() == n && y.iter().zip(&want).all(|(p, q)| (p - q).abs() <= 1e-9 * size), "graded-wrong", || format!("{}: unscaled {:?}, want {:?}", hist(), y, want));
                }
                r => rec.fail("graded-fails", format!("{}: {:?}", hist(), r)),
            }
            match rec.call(|| DenseGaussSolver::new(make()).solve()) {
                Ok(Ok(x)) => {
                    let e = la::backward_error(&a, &x, &b);
                    rec.check(x.len() == n && e <= 1e-12, "graded-wrong", || format!("dense {}: {:?}", hist(), x));
                }
                r => rec.fail("graded-fails", format!("dense {}: {:?}", hist(), r)),
            }
            rec.trace();
        });
    }
    h.finish()
}

fn nth_perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for m in (1..=n).rev() {
        let f: usize = (1..m).product();
        out.push(pool.remove(k / f % m));
        k %= f;
    }
    out
}
