//! Boring reference linear algebra: exact rationals for small integers, plain f64 otherwise.

pub type M = Vec<Vec<f64>>;

pub fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}
pub fn eye(n: usize) -> M {
    let mut m = zeros(n, n);
    for i in 0..n {
        m[i][i] = 1.0
    }
    m
}
pub fn transpose(a: &M) -> M {
    if a.is_empty() {
        return vec![];
    }
    (0..a[0].len()).map(|c| a.iter().map(|r| r[c]).collect()).collect()
}
pub fn mul(a: &M, b: &M) -> M {
    let n = b[0].len();
    a.iter().map(|r| (0..n).map(|c| r.iter().zip(b).map(|(x, br)| x * br[c]).sum()).collect()).collect()
}
pub fn mulv(a: &M, x: &[f64]) -> Vec<f64> {
    a.iter().map(|r| r.iter().zip(x).map(|(p, q)| p * q).sum()).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(v: &[f64]) -> f64 {
    // a value that is not a number makes the norm infinite, so that no comparison hides it
    if v.iter().any(|x| x.is_nan()) {
        return f64::INFINITY;
    }
    // scaled, so that extreme values do not overflow
    let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
pub fn normf(a: &M) -> f64 {
    norm(&a.iter().flatten().cloned().collect::<Vec<_>>())
}
pub fn sub(a: &M, b: &M) -> M {
    a.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(x, y)| x - y).collect()).collect()
}
pub fn finite(v: &[f64]) -> bool {
    v.iter().all(|x| x.is_finite())
}

/// ‖Ax−b‖ / (‖A‖‖x‖+‖b‖)
pub fn backward_error(a: &M, x: &[f64], b: &[f64]) -> f64 {
    if !finite(x) {
        return f64::INFINITY;
    }
    let ax = mulv(a, x);
    let r: Vec<f64> = ax.iter().zip(b).map(|(p, q)| p - q).collect();
    let d = normf(a) * norm(x) + norm(b);
    if d == 0.0 {
        0.0
    } else {
        norm(&r) / d
    }
}

/// complete pivoting; None if numerically singular
pub fn solve(a: &M, b: &[f64]) -> Option<Vec<f64>> {
    let n = a.len();
    let mut m: M = a.iter().zip(b).map(|(r, &y)| r.iter().cloned().chain([y]).collect()).collect();
    let mut colp: Vec<usize> = (0..n).collect();
    let scale = normf(a);
    for k in 0..n {
        let (mut pr, mut pc, mut best) = (k, k, 0.0);
        for i in k..n {
            for j in k..n {
                if m[i][j].abs() > best {
                    best = m[i][j].abs();
                    pr = i;
                    pc = j;
                }
            }
        }
        if !(best > 1e-14 * scale) {
            return None;
        }
        m.swap(k, pr);
        if pc != k {
            for r in m.iter_mut() {
                r.swap(k, pc)
            }
            colp.swap(k, pc);
        }
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            if f != 0.0 {
                for j in k..=n {
                    m[i][j] -= f * m[k][j]
                }
            }
        }
    }
    let mut y = vec![0.0; n];
    for i in (0..n).rev() {
        let s: f64 = (i + 1..n).map(|j| m[i][j] * y[j]).sum();
        y[i] = (m[i][n] - s) / m[i][i];
    }
    let mut x = vec![0.0; n];
    for i in 0..n {
        x[colp[i]] = y[i]
    }
    Some(x)
}

pub fn inverse(a: &M) -> Option<M> {
    let n = a.len();
    let mut cols = vec![];
    for i in 0..n {
        let mut e = vec![0.0; n];
        e[i] = 1.0;
        cols.push(solve(a, &e)?);
    }
    Some(transpose(&cols))
}

/// symmetric eigenproblem by Jacobi rotations: ascending values with matching columns
pub fn jacobi(a: &M) -> (Vec<f64>, M) {
    let n = a.len();
    let mut a = a.clone();
    let mut v = eye(n);
    for _ in 0..200 {
        let off: f64 = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j).map(|(i, j)| a[i][j] * a[i][j]).sum();
        let tot: f64 = a.iter().flatten().map(|x| x * x).sum();
        if off <= 1e-34 * tot || tot == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| a[i][i].partial_cmp(&a[j][j]).unwrap_or(std::cmp::Ordering::Equal));
    let vals = idx.iter().map(|&i| a[i][i]).collect();
    let vecs = (0..n).map(|r| idx.iter().map(|&i| v[r][i]).collect()).collect();
    (vals, vecs)
}

pub fn cholesky(a: &M) -> Option<M> {
    let n = a.len();
    let mut l = zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..j).map(|k| l[i][k] * l[j][k]).sum();
            if i == j {
                let d = a[i][i] - s;
                if !(d > 0.0) {
                    return None;
                }
                l[i][i] = d.sqrt();
            } else {
                l[i][j] = (a[i][j] - s) / l[j][j];
            }
        }
    }
    Some(l)
}

/// K v = λ M v with M positive definite: ascending λ, M-orthonormal columns
pub fn gen_eig(k: &M, m: &M) -> Option<(Vec<f64>, M)> {
    let n = k.len();
    let l = cholesky(m)?;
    // C = L^-1 K L^-T
    let fwd = |b: &[f64]| -> Vec<f64> {
        let mut x = vec![0.0; n];
        for i in 0..n {
            let s: f64 = (0..i).map(|j| l[i][j] * x[j]).sum();
            x[i] = (b[i] - s) / l[i][i];
        }
        x
    };
    let t: Vec<Vec<f64>> = (0..n).map(|c| fwd(&k.iter().map(|r| r[c]).collect::<Vec<_>>())).collect(); // columns of L^-1 K
    let linvk = transpose(&t);
    let c: M = (0..n).map(|r| fwd(&linvk[r])).collect(); // rows of (L^-1 K) L^-T
    let c: M = (0..n).map(|i| (0..n).map(|j| 0.5 * (c[i][j] + c[j][i])).collect()).collect();
    let (vals, y) = jacobi(&c);
    // v = L^-T y
    let mut v = zeros(n, n);
    for col in 0..n {
        for i in (0..n).rev() {
            let s: f64 = (i + 1..n).map(|j| l[j][i] * v[j][col]).sum();
            v[i][col] = (y[i][col] - s) / l[i][i];
        }
    }
    Some((vals, v))
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t
    }
    a
}

/// exact rational
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Q(pub i128, pub i128);
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q(s * n / g, s * d / g)
    }
    pub fn int(n: i128) -> Q {
        Q(n, 1)
    }
    pub fn add(self, o: Q) -> Q {
        Q::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1)
    }
    pub fn sub(self, o: Q) -> Q {
        Q::new(self.0 * o.1 - o.0 * self.1, self.1 * o.1)
    }
    pub fn mul(self, o: Q) -> Q {
        Q::new(self.0 * o.0, self.1 * o.1)
    }
    pub fn div(self, o: Q) -> Q {
        Q::new(self.0 * o.1, self.1 * o.0)
    }
    pub fn zero(self) -> bool {
        self.0 == 0
    }
    pub fn f(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}

/// exact determinant of an integer matrix (Bareiss)
pub fn det_int(a: &[Vec<i64>]) -> i128 {
    let n = a.len();
    let mut m: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let mut sign = 1;
    let mut prev = 1i128;
    for k in 0..n {
        if m[k][k] == 0 {
            match (k + 1..n).find(|&i| m[i][k] != 0) {
                Some(i) => {
                    m.swap(i, k);
                    sign = -sign
                }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
            }
        }
        prev = m[k][k];
    }
    if n == 0 {
        1
    } else {
        sign * m[n - 1][n - 1]
    }
}

/// exact solution of an integer system; None when singular
pub fn solve_int(a: &[Vec<i64>], b: &[i64]) -> Option<Vec<Q>> {
    let n = a.len();
    let mut m: Vec<Vec<Q>> = a
        .iter()
        .zip(b)
        .map(|(r, &y)| r.iter().map(|&x| Q::int(x as i128)).chain([Q::int(y as i128)]).collect())
        .collect();
    for k in 0..n {
        let p = (k..n).find(|&i| !m[i][k].zero())?;
        m.swap(p, k);
        for i in 0..n {
            if i != k && !m[i][k].zero() {
                let f = m[i][k].div(m[k][k]);
                for j in k..=n {
                    let t = f.mul(m[k][j]);
                    m[i][j] = m[i][j].sub(t);
                }
            }
        }
    }
    Some((0..n).map(|i| m[i][n].div(m[i][i])).collect())
}

pub fn to_f(a: &[Vec<i64>]) -> M {
    a.iter().map(|r| r.iter().map(|&x| x as f64).collect()).collect()
}

/// 2-norm condition number of a symmetric matrix, or of A through AᵀA
pub fn cond(a: &M) -> f64 {
    let ata = mul(&transpose(a), a);
    let (v, _) = jacobi(&ata);
    let (lo, hi) = (v[0].max(0.0), v[v.len() - 1]);
    if lo <= 0.0 {
        f64::INFINITY
    } else {
        (hi / lo).sqrt()
    }
}

/// how far solving with a triangular matrix can amplify: |L| |L^-1|
pub fn cond_l(l: &M) -> f64 {
    match inverse(l) {
        Some(x) => (normf(l) * normf(&x)).powi(2),
        None => f64::INFINITY,
    }
}
