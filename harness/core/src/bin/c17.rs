//! C17: quadrature integrates polynomials exactly to its order.
use bugi::element::integrate::{gauss_segment_mat, gauss_tri};
use bugi::matrix::{LinearMatrix, MatrixLike};
use hcore::read;
use mcheck::*;

/// x^a y^b over the triangle (0,0) (1,0) (0,1): a! b! / (a + b + 2)!
fn tri_monomial(a: u32, b: u32) -> f64 {
    let f = |n: u32| (1..=n as u64).product::<u64>() as f64;
    f(a) * f(b) / f(a + b + 2)
}

/// coefficients in t of (p + (q - p) t)^e
fn power(p: i128, q: i128, e: u32) -> Vec<i128> {
    let mut c = vec![1i128];
    for _ in 0..e {
        let mut n = vec![0; c.len() + 1];
        for (k, x) in c.iter().enumerate() {
            n[k] += x * p;
            n[k + 1] += x * (q - p);
        }
        c = n;
    }
    c
}
/// x^i y^j along the segment from a to b (integer ends): the exact mean value over [0, 1], by expanding in t
fn mean(a: (i64, i64), b: (i64, i64), i: u32, j: u32) -> f64 {
    let (x, y) = (power(a.0 as i128, b.0 as i128, i), power(a.1 as i128, b.1 as i128, j));
    let mut c = vec![0i128; x.len() + y.len() - 1];
    for (m, p) in x.iter().enumerate() {
        for (n, q) in y.iter().enumerate() {
            c[m + n] += p * q;
        }
    }
    // exact: common denominator lcm(1..=8) = 840
    let s: i128 = c.iter().enumerate().map(|(k, x)| x * 840 / (k as i128 + 1)).sum();
    s as f64 / 840.0
}
fn len(a: (i64, i64), b: (i64, i64)) -> f64 {
    (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt()
}
/// all (i, j) with i + j <= d
fn exponents(d: u32) -> Vec<(u32, u32)> {
    (0..=d).flat_map(|s| (0..=s).map(move |i| (i, s - i))).collect()
}
fn value(x: f64, y: f64, e: (u32, u32)) -> f64 {
    x.powi(e.0 as i32) * y.powi(e.1 as i32)
}
/// rounding relative to the largest the integrand can get
fn close(got: f64, want: f64, size: f64) -> bool {
    got.is_finite() && (got - want).abs() <= 2e-14 * size
}

fn segment(rec: &mut Rec, a: (i64, i64), b: (i64, i64), order: usize, shift: (f64, f64), scale: f64) {
    let es = exponents(2 * order as u32 - 1);
    // every monomial is one entry of a matrix-valued integrand, in each of three shapes
    let n = es.len();
    let pt = |p: (i64, i64)| (p.0 as f64 * scale + shift.0, p.1 as f64 * scale + shift.1);
    let hist = |e: &(u32, u32)| format!("x^{} y^{} from {:?} to {:?}, {} points, scaled {} shifted {:?}", e.0, e.1, a, b, order, scale, shift);
    for shape in [(n, 1), (1, n), (2, (n + 1) / 2)] {
        let got = rec.call(|| {
            let m = gauss_segment_mat(
                |p| {
                    // the integrand in the unscaled coordinates
                    let (x, y) = ((p[0] - shift.0) / scale, (p[1] - shift.1) / scale);
                    let mut v: Vec<f64> = es.iter().map(|&e| value(x, y, e)).collect();
                    v.resize(shape.0 * shape.1, 0.0);
                    LinearMatrix::from_flat(shape, v)
                },
                pt(a).into(),
                pt(b).into(),
                order,
            );
            (m.shape(), read(&m))
        });
        rec.trace();
        match got {
            Err(e) => return rec.fail("line-fails", format!("{}: {}", hist(&es[0]), e)),
            Ok((sh, m)) => {
                if !rec.check(sh == shape, "line-shape", || format!("{}: shape {:?} want {:?}", hist(&es[0]), sh, shape)) {
                    return;
                }
                let flat: Vec<f64> = m.into_iter().flatten().collect();
                for (k, g) in flat.iter().enumerate() {
                    if k >= n {
                        rec.check(*g == 0.0, "line", || format!("zero integrand gave {}", g));
                        continue;
                    }
                    let e = es[k];
                    let want = mean(a, b, e.0, e.1) * len(a, b) * scale;
                    let big = |d: usize| (if d == 0 { a.0.abs().max(b.0.abs()) } else { a.1.abs().max(b.1.abs()) } as f64).max(1.0);
                    let size = big(0).powi(e.0 as i32) * big(1).powi(e.1 as i32) * (len(a, b) * scale).max(1e-300);
                    let noise = 1.0 + (shift.0.abs() + shift.1.abs()) / scale;
                    rec.check(close(*g, want, size * noise * 16.0), "line", || format!("{}: {} want {}", hist(&e), g, want));
                    rec.outcome(g.to_bits());
                }
            }
        }
    }
}

fn main() {
    let mut h = Harness::new("C17");
    let es = exponents(2);
    h.family("triangle", "every monomial of degree at most 2 over the reference triangle, scalar and as each entry of matrices of 8 shapes", 9, |i, rec| {
        rec.state(i);
        for &(a, b) in &es {
            let want = tri_monomial(a, b);
            if i == 0 {
                let got = rec.call(|| gauss_tri(|p| value(p[0], p[1], (a, b))));
                rec.trace();
                rec.check(matches!(got, Ok(x) if close(x, want, 1.0)), "triangle-scalar", || format!("x^{} y^{}: {:?} want {}", a, b, got, want));
                continue;
            }
            let (r, c) = [(1, 1), (1, 6), (6, 1), (2, 2), (3, 3), (6, 6), (2, 6), (4, 6)][i as usize - 1];
            // each entry alone carries the monomial, the others carry a known different one
            for (x, y) in (0..r).flat_map(|x| (0..c).map(move |y| (x, y))) {
                let got = rec.call(|| {
                    read(&gauss_tri(|p| {
                        let mut m = LinearMatrix::zeros((r, c));
                        for k in 0..r {
                            for l in 0..c {
                                m[(k, l)] = if (k, l) == (x, y) { value(p[0], p[1], (a, b)) } else { 1.0 + (k * c + l) as f64 * p[0] };
                            }
                        }
                        m
                    }))
                });
                rec.trace();
                match got {
                    Err(e) => rec.fail("triangle-fails", e),
                    Ok(m) => {
                        let ok = m.len() == r
                            && m.iter().all(|q| q.len() == c)
                            && (0..r).all(|k| (0..c).all(|l| close(m[k][l], if (k, l) == (x, y) { want } else { 0.5 + (k * c + l) as f64 / 6.0 }, 40.0)));
                        rec.check(ok, "triangle-matrix", || format!("x^{} y^{} at ({}, {}) of {}x{}: {:?}", a, b, x, y, r, c, m));
                    }
                }
            }
        }
    });
    h.family("triangle combinations", "every quadratic with coefficients in -2..2 (scalar), against the sum of its monomials", 5u64.pow(6), |i, rec| {
        let mut d = Digits(i);
        let c: Vec<f64> = (0..6).map(|_| d.take(5) as f64 - 2.0).collect();
        rec.state(i);
        let want: f64 = es.iter().zip(&c).map(|(e, c)| c * tri_monomial(e.0, e.1)).sum();
        let got = rec.call(|| gauss_tri(|p| es.iter().zip(&c).map(|(e, c)| c * value(p[0], p[1], *e)).sum::<f64>()));
        rec.trace();
        rec.check(matches!(got, Ok(x) if close(x, want, 10.0)), "triangle-scalar", || format!("coefficients {:?}: {:?} want {}", c, got, want));
        rec.outcome((want * 24.0) as i64);
    });
    let g = h.pick(2i64, 4);
    let w = (2 * g + 1) as u64;
    h.family("segments", "every segment between lattice points of [-2, 2]^2 (thorough [-4, 4]^2) x 1 to 4 points x every monomial to degree 2n - 1 as an entry of 3 shapes", w.pow(4) * 4, |i, rec| {
        let mut d = Digits(i);
        let order = 1 + d.take(4);
        let mut t = || d.take(w) as i64 - g;
        let (a, b) = ((t(), t()), (t(), t()));
        rec.state(i);
        segment(rec, a, b, order, (0.0, 0.0), 1.0);
        rec.sample(|| format!("{:?} to {:?} with {} points", a, b, order));
    });
    h.family("moved segments", "lattice segments of [-1, 1]^2 moved and scaled, 1 to 4 points", 3u64.pow(4) * 4 * 4 * 5, |i, rec| {
        let mut d = Digits(i);
        let order = 1 + d.take(4);
        let scale = [1e-6, 0.37, 3.0, 1e5][d.take(4)];
        let sh = [(0.0, 0.0), (1.0, 0.0), (0.0, -1.0), (0.7, 0.3), (-5.0, 11.0)][d.take(5)];
        let mut t = || d.take(3) as i64 - 1;
        let (a, b) = ((t(), t()), (t(), t()));
        rec.state(i);
        segment(rec, a, b, order, (sh.0 * scale, sh.1 * scale), scale);
    });
    h.family("orders", "0 and 5 to 20 points: no such rule, refused", 21, |i, rec| {
        if (1..=4).contains(&i) {
            return;
        }
        rec.state(i);
        let r = rec.call(|| gauss_segment_mat(|_| LinearMatrix::from_flat((1, 1), vec![1.0]), (0.0, 0.0).into(), (1.0, 0.0).into(), i as usize));
        // a larger rule would be as good, as long as it integrates
        if let Ok(m) = r {
            rec.check(close(m[(0, 0)], 1.0, 1.0), "orders", || format!("{} points integrate 1 over a unit segment to {}", i, m[(0, 0)]));
        }
        rec.trace();
    });
    h.finish()
}
