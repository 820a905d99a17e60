//! Helpers shared by the checks of the matrix, element and drawing layers.
use bugi::matrix::*;
pub mod draw;
pub mod fe;
use mcheck::*;

pub type M = Vec<Vec<f64>>;

/// Every way of reading a matrix, compared with the model; returns true when all agree.
pub fn observe<T: MatrixLike>(rec: &mut Rec, m: &T, a: &M, rows: usize, cols: usize, hist: &dyn Fn() -> String) -> bool {
    let before = rec.failures();
    let got = rec.call(|| {
        let mut bad: Vec<String> = vec![];
        if m.shape() != (rows, cols) {
            bad.push(format!("shape {:?}, want {:?}", m.shape(), (rows, cols)));
            return bad;
        }
        for i in 0..rows + 2 {
            for j in 0..cols + 2 {
                let want = if i < rows && j < cols { Some(a[i][j]) } else { None };
                let got = m.get((i, j)).cloned();
                if got != want {
                    bad.push(format!("get({},{}) = {:?}, want {:?}", i, j, got, want));
                }
                if let Some(w) = want {
                    if m[(i, j)] != w {
                        bad.push(format!("index({},{}) = {:?}, want {:?}", i, j, m[(i, j)], w));
                    }
                }
            }
        }
        for i in 0..rows {
            let row: Vec<f64> = m.row(i).cloned().collect();
            if row != a[i] {
                bad.push(format!("row({}) = {:?}", i, row));
            }
        }
        for j in 0..cols {
            let col: Vec<f64> = m.col(j).cloned().collect();
            if col != a.iter().map(|r| r[j]).collect::<Vec<_>>() {
                bad.push(format!("col({}) = {:?}", j, col));
            }
        }
        let diag: Vec<f64> = m.diag().cloned().collect();
        if diag != (0..rows.min(cols)).map(|i| a[i][i]).collect::<Vec<_>>() {
            bad.push(format!("diag = {:?}", diag));
        }
        let flat: Vec<f64> = m.flat().cloned().collect();
        if flat != a.iter().flatten().cloned().collect::<Vec<_>>() {
            bad.push(format!("flat = {:?}", flat));
        }
        let mut nz: Vec<((usize, usize), f64)> = m.nzs().filter(|x| x.1 != 0.0).collect();
        nz.sort_by_key(|x| x.0);
        let want: Vec<((usize, usize), f64)> = (0..rows).flat_map(|i| (0..cols).map(move |j| (i, j))).map(|(i, j)| ((i, j), a[i][j])).filter(|x| x.1 != 0.0).collect();
        if nz != want {
            bad.push(format!("nzs = {:?}", nz));
        }
        bad
    });
    match got {
        Ok(bad) => {
            rec.check(bad.is_empty(), "observation", || format!("{}: {} | model {:?}", hist(), bad.join("; "), a));
        }
        Err(e) => rec.fail("observation-panics", format!("{}: {} | model {:?}", hist(), e, a)),
    }
    rec.failures() == before
}

/// positions outside the shape are refused by indexing
pub fn refuses_oob<T: MatrixLike>(rec: &mut Rec, m: &T, rows: usize, cols: usize, hist: &dyn Fn() -> String) {
    for loc in [(rows, 0), (0, cols), (rows, cols), (rows + 3, 0), (0, cols + 3), (usize::MAX / 2, 0)] {
        let r = rec.call(|| m[loc]);
        rec.check(r.is_err(), "oob-read", || format!("{}: index {:?} gave {:?}", hist(), loc, r));
        let mut k = m.clone();
        let r = rec.call(|| k[loc] = 1.0);
        rec.check(r.is_err(), "oob-write", || format!("{}: index {:?} was written", hist(), loc));
        let r = rec.call(|| {
            k.put(loc, 2.0);
            k.mutate(loc, |x| *x = 3.0);
            k.get_mut(loc).is_none()
        });
        rec.check(r == Ok(true), "oob-write", || format!("{}: get_mut {:?}: {:?}", hist(), loc, r));
        let same = rec.call(|| (0..rows).all(|i| (0..cols).all(|j| k[(i, j)] == m[(i, j)])));
        rec.check(same == Ok(true), "oob-write-changes", || format!("{}: a write to {:?} changed an element", hist(), loc));
    }
}

/// factors (powers of two) for values of every size: 0 plain, then tiny, huge, mixed and least ones
pub const SIZES: u64 = 8;
pub fn sized(kind: u64, place: usize) -> f64 {
    let p = |k: i32| 2f64.powi(k);
    match kind % SIZES {
        0 => 1.0,
        1 => p(-60),
        2 => p(70),
        3 => [p(-60), 1.0, p(50)][place % 3],
        4 => [1.0, p(-90), -1.0, -p(40), p(-45)][place % 5],
        5 => p(-500),
        6 => [1.0, p(-30)][place % 2],
        _ => -p(-1060),
    }
}

pub fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}
pub fn dense(m: &M) -> LinearMatrix {
    LinearMatrix::from_flat((m.len(), m[0].len()), m.iter().flatten().cloned())
}
pub fn read<T: MatrixLike>(m: &T) -> M {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}
/// a dictionary holding exactly the listed positions (zeros included)
pub fn dict(rows: usize, cols: usize, entries: &[((usize, usize), f64)]) -> Dictionary {
    let mut d = Dictionary::zeros((rows, cols));
    for &(l, v) in entries {
        d[l] = v
    }
    d
}
pub fn dict_of(m: &M) -> Dictionary {
    let e: Vec<_> = (0..m.len()).flat_map(|i| (0..m[0].len()).map(move |j| (i, j))).map(|(i, j)| ((i, j), m[i][j])).filter(|x| x.1 != 0.0).collect();
    dict(m.len(), m[0].len(), &e)
}
pub fn show(m: &M) -> String {
    format!("{:?}", m)
}

/// the error the iteration may leave when it stops at a relative step of 1e-3 (relaxation 1 .. 1.5)
pub fn iterative_bound(a: &M) -> f64 {
    let n = a.len();
    let mut worst = 1.0f64;
    for (_, g) in sor(a) {
        if let Some(x) = la::inverse(&la::sub(&la::eye(n), &g)) {
            worst = worst.max(la::normf(&la::mul(&g, &x)));
        }
    }
    2e-3 * worst
}

/// iteration matrices of successive over-relaxation with factors around 1.3
fn sor(a: &M) -> Vec<(f64, M)> {
    let n = a.len();
    let mut out = vec![];
    for w in [1.0, 1.3, 1.5] {
        let lower: M = (0..n).map(|i| (0..n).map(|j| if j < i { a[i][j] } else if i == j { a[i][i] / w } else { 0.0 }).collect()).collect();
        let upper: M = (0..n).map(|i| (0..n).map(|j| if j > i { -a[i][j] } else if i == j { a[i][i] * (1.0 / w - 1.0) } else { 0.0 }).collect()).collect();
        if let Some(li) = la::inverse(&lower) {
            out.push((w, la::mul(&li, &upper)));
        }
    }
    out
}

/// how much an iteration shrinks the error, at worst (relaxation 1 .. 1.5)
pub fn iterative_rate(a: &M) -> f64 {
    let mut worst = 0.0f64;
    for (_, mut g) in sor(a) {
        for _ in 0..6 {
            g = la::mul(&g, &g);
        }
        worst = worst.max(la::normf(&g).powf(1.0 / 64.0));
    }
    worst
}

/// does something with a matrix of whatever scheme
pub trait Visitor {
    fn go<T: MatrixLike>(&mut self, m: &T);
}

pub const KINDS: [&str; 12] = [
    "dense", "dense-transposed", "compressed-row", "compressed-row-from-dict", "dictionary", "dictionary-with-zeros", "lower", "upper", "diagonal", "lower-envelope", "two-sided", "fixed",
];

pub fn is_lower(a: &M) -> bool {
    a.len() == a[0].len() && (0..a.len()).all(|i| (i + 1..a.len()).all(|j| a[i][j] == 0.0))
}
pub fn tr(a: &M) -> M {
    la::transpose(a)
}

/// Build `a` in scheme `kind` and hand it over; false when the scheme cannot hold it.
pub fn with<V: Visitor>(kind: usize, a: &M, v: &mut V) -> bool {
    let (r, c) = (a.len(), a[0].len());
    let flat: Vec<f64> = a.iter().flatten().cloned().collect();
    let square = r == c;
    match kind {
        0 => v.go(&dense(a)),
        1 => {
            let mut m = dense(&tr(a));
            m.transpose();
            v.go(&m)
        }
        2 => v.go(&CompressedRow::from_flat((r, c), flat)),
        3 => v.go(&CompressedRow::from(dict_of(a))),
        4 => v.go(&dict_of(a)),
        5 => {
            let e: Vec<_> = (0..r).rev().flat_map(|i| (0..c).rev().map(move |j| (i, j))).map(|(i, j)| ((i, j), a[i][j])).collect();
            v.go(&dict(r, c, &e))
        }
        6 => {
            if !is_lower(a) {
                return false;
            }
            let mut m = LowerTriangular::zeros((r, r));
            for i in 0..r {
                for j in 0..=i {
                    m[(i, j)] = a[i][j]
                }
            }
            v.go(&m)
        }
        7 => {
            if !square || !is_lower(&tr(a)) {
                return false;
            }
            let mut m = UpperTriangular::zeros((r, r));
            for i in 0..r {
                for j in i..r {
                    m[(i, j)] = a[i][j]
                }
            }
            v.go(&m)
        }
        8 => {
            if !is_lower(a) || !is_lower(&tr(a)) {
                return false;
            }
            let d: Vec<f64> = (0..r).map(|i| a[i][i]).collect();
            v.go(&Diagonal::from(d))
        }
        9 => {
            if !is_lower(a) {
                return false;
            }
            // the smallest envelope that holds the row, at least the diagonal
            let env: Vec<usize> = (0..r).map(|i| (0..=i).find(|&j| a[i][j] != 0.0).map(|j| i - j + 1).unwrap_or(1)).collect();
            let mut m = LowerRowEnvelope::from_envelope(env.clone());
            for i in 0..r {
                for j in i + 1 - env[i]..=i {
                    m[(i, j)] = a[i][j]
                }
            }
            v.go(&m)
        }
        10 => {
            if !square {
                return false;
            }
            v.go(&BiEnvelope::from(dict_of(a)))
        }
        _ => match r * c {
            1 => v.go(&ConstMatrix::<1>::from_flat((r, c), flat)),
            2 => v.go(&ConstMatrix::<2>::from_flat((r, c), flat)),
            3 => v.go(&ConstMatrix::<3>::from_flat((r, c), flat)),
            4 => v.go(&ConstMatrix::<4>::from_flat((r, c), flat)),
            6 => v.go(&ConstMatrix::<6>::from_flat((r, c), flat)),
            9 => v.go(&ConstMatrix::<9>::from_flat((r, c), flat)),
            _ => return false,
        },
    }
    true
}

