//! C01: dense matrices behave as plain arrays. Every operation sequence up to a depth, on every
//! small shape, against a Vec<Vec<f64>> model; the full observation is compared after each step.
use hcore::{sized, SIZES};
use bugi::matrix::{ConstMatrix, LinearMatrix, MatrixLike};
use mcheck::*;

type Model = Vec<Vec<f64>>;

#[derive(Clone, Debug)]
struct Arr {
    r: usize,
    c: usize,
    v: Model,
}

impl Arr {
    fn new(r: usize, c: usize) -> Self {
        Arr { r, c, v: vec![vec![0.0; c]; r] }
    }
    fn filled(r: usize, c: usize, base: f64) -> Self {
        let mut a = Arr::new(r, c);
        for i in 0..r {
            for j in 0..c {
                a.v[i][j] = base + (i * 10 + j) as f64
            }
        }
        a
    }
    fn flat(&self) -> Vec<f64> {
        self.v.iter().flatten().cloned().collect()
    }
    fn t(&self) -> Arr {
        let mut a = Arr::new(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                a.v[j][i] = self.v[i][j]
            }
        }
        a
    }
}

/// everything that can be read off a matrix, compared with the model
fn observe<T: MatrixLike + PartialEq>(rec: &mut Rec, m: &T, a: &Arr, hist: &dyn Fn() -> String) -> bool {
    rec.steps(1);
    let before = rec.failures();
    let got = rec.call(|| {
        let mut bad: Vec<String> = vec![];
        if m.shape() != (a.r, a.c) {
            bad.push(format!("shape {:?}", m.shape()));
            return bad;
        }
        for i in 0..a.r + 2 {
            for j in 0..a.c + 2 {
                let inside = i < a.r && j < a.c;
                let want = if inside { Some(a.v[i][j]) } else { None };
                if m.get((i, j)).cloned() != want {
                    bad.push(format!("get({},{}) = {:?}, want {:?}", i, j, m.get((i, j)), want));
                }
                if inside && m[(i, j)] != a.v[i][j] {
                    bad.push(format!("index({},{}) = {:?}", i, j, m[(i, j)]));
                }
            }
        }
        for i in 0..a.r {
            let row: Vec<f64> = m.row(i).cloned().collect();
            if row != a.v[i] {
                bad.push(format!("row({}) = {:?}", i, row));
            }
        }
        for j in 0..a.c {
            let col: Vec<f64> = m.col(j).cloned().collect();
            if col != a.v.iter().map(|r| r[j]).collect::<Vec<_>>() {
                bad.push(format!("col({}) = {:?}", j, col));
            }
        }
        let diag: Vec<f64> = m.diag().cloned().collect();
        if diag != (0..a.r.min(a.c)).map(|i| a.v[i][i]).collect::<Vec<_>>() {
            bad.push(format!("diag = {:?}", diag));
        }
        let flat: Vec<f64> = m.flat().cloned().collect();
        if flat != a.flat() {
            bad.push(format!("flat = {:?}", flat));
        }
        let idx: Vec<(usize, usize)> = m.indices().collect();
        let want: Vec<(usize, usize)> = (0..a.r).flat_map(|i| (0..a.c).map(move |j| (i, j))).collect();
        if idx != want {
            bad.push(format!("indices = {:?}", idx));
        }
        let mut nz: Vec<((usize, usize), f64)> = m.nzs().collect();
        nz.sort_by_key(|x| x.0);
        let want: Vec<((usize, usize), f64)> = want.into_iter().map(|(i, j)| ((i, j), a.v[i][j])).filter(|x| x.1 != 0.0).collect();
        if nz != want {
            bad.push(format!("nzs = {:?}", nz));
        }
        if !(m == m) || !(m.clone() == *m) {
            bad.push("not equal to itself".into());
        }
        bad
    });
    match got {
        Ok(bad) => {
            rec.check(bad.is_empty(), "observation", || format!("{}: {} | model {:?}", hist(), bad.join("; "), a));
        }
        Err(e) => rec.fail("observation-panics", format!("{}: {} | model {:?}", hist(), e, a)),
    }
    rec.failures() == before
}

const OPS: u64 = 19;
const NAMES: [&str; OPS as usize] = [
    "put", "index=", "mutate", "transpose", "swap_rows", "swap_cols", "set_row", "set_col", "mutate_row", "mutate_col", "+=scalar", "*=scalar", "+=matrix", "+=transposed-built", "add_ass", "sub_ass", "self+other", "self-other", "oob writes",
];

/// an operand with the model `o`, laid out the other way round when `flip`
fn operand(o: &Arr, flip: bool) -> LinearMatrix {
    if flip {
        let mut m = LinearMatrix::from_flat((o.c, o.r), o.t().flat());
        m.transpose();
        m
    } else {
        LinearMatrix::from_flat((o.r, o.c), o.flat())
    }
}

/// apply operation `op` with step number `s` deciding positions and values (all distinct)
fn apply(op: usize, s: usize, m: &mut LinearMatrix, a: &mut Arr) {
    let (r, c) = (a.r, a.c);
    let (i, j) = ((s + 1) % r, (s * 2 + 1) % c);
    let (i2, j2) = ((i + 1) % r, (j + 1) % c);
    let val = 0.5 + s as f64 * 100.0;
    let o = Arr::filled(r, c, val);
    match op {
        0 => {
            m.put((i, j), val);
            a.v[i][j] = val;
        }
        1 => {
            m[(i, j)] = -val;
            a.v[i][j] = -val;
        }
        2 => {
            m.mutate((i2, j2), |x| *x = *x * 2.0 + val);
            a.v[i2][j2] = a.v[i2][j2] * 2.0 + val;
        }
        3 => {
            m.transpose();
            *a = a.t();
        }
        4 => {
            m.swap_rows(i, i2);
            a.v.swap(i, i2);
        }
        5 => {
            m.swap_cols(j, j2);
            a.v.iter_mut().for_each(|x| x.swap(j, j2));
        }
        6 => {
            let new: Vec<f64> = (0..c).map(|k| val + k as f64).collect();
            m.set_row(i, new.clone());
            a.v[i] = new;
        }
        7 => {
            let new: Vec<f64> = (0..r).map(|k| val - k as f64).collect();
            m.set_col(j, new.clone());
            for k in 0..r {
                a.v[k][j] = new[k]
            }
        }
        8 => {
            m.mutate_row(i2, |x| *x += 1.0);
            a.v[i2].iter_mut().for_each(|x| *x += 1.0);
        }
        9 => {
            m.mutate_col(j2, |x| *x -= 2.0);
            a.v.iter_mut().for_each(|x| x[j2] -= 2.0);
        }
        10 => {
            *m += 3.0;
            a.v.iter_mut().flatten().for_each(|x| *x += 3.0);
        }
        11 => {
            *m *= -2.0;
            a.v.iter_mut().flatten().for_each(|x| *x *= -2.0);
        }
        12 | 13 => {
            *m += operand(&o, op == 13);
            for k in 0..r {
                for l in 0..c {
                    a.v[k][l] += o.v[k][l]
                }
            }
        }
        14 => {
            m.add_ass(&operand(&o, s % 2 == 0));
            for k in 0..r {
                for l in 0..c {
                    a.v[k][l] += o.v[k][l]
                }
            }
        }
        15 => {
            m.sub_ass(&operand(&o, s % 2 == 1));
            for k in 0..r {
                for l in 0..c {
                    a.v[k][l] -= o.v[k][l]
                }
            }
        }
        16 => {
            *m = &*m + &operand(&o, s % 2 == 0);
            for k in 0..r {
                for l in 0..c {
                    a.v[k][l] += o.v[k][l]
                }
            }
        }
        17 => {
            *m = &*m - &operand(&o, s % 2 == 0);
            for k in 0..r {
                for l in 0..c {
                    a.v[k][l] -= o.v[k][l]
                }
            }
        }
        18 => {
            // none of these may change anything
            m.put((r, 0), 77.0);
            m.put((0, c), 77.0);
            m.put((r, c), 77.0);
            m.put((r + 1, c + 1), 77.0);
            m.mutate((r, j), |x| *x = 77.0);
            m.mutate((i, c), |x| *x = 77.0);
            assert!(m.get_mut((r, 0)).is_none() && m.get_mut((0, c)).is_none(), "get_mut outside the shape");
        }
        _ => unreachable!(),
    }
}

fn refusals(rec: &mut Rec, m: &LinearMatrix, a: &Arr, hist: &dyn Fn() -> String) {
    let (r, c) = (a.r, a.c);
    let mut try_bad = |rec: &mut Rec, what: &str, f: &mut dyn FnMut(&mut LinearMatrix)| {
        let mut k = m.clone();
        let res = rec.call(|| f(&mut k));
        rec.check(res.is_err(), "oob-accepted", || format!("{}: {} was accepted", hist(), what));
        rec.check(k.flat().cloned().collect::<Vec<_>>() == a.flat(), "oob-changes", || format!("{}: {} changed the matrix", hist(), what));
    };
    try_bad(rec, "index (r,0)", &mut |k| {
        let _ = k[(r, 0)];
    });
    try_bad(rec, "index (0,c)", &mut |k| {
        let _ = k[(0, c)];
    });
    try_bad(rec, "index= (r,0)", &mut |k| k[(r, 0)] = 1.0);
    try_bad(rec, "index= (0,c)", &mut |k| k[(0, c)] = 1.0);
    try_bad(rec, "row(r)", &mut |k| {
        let _ = k.row(r).count();
    });
    try_bad(rec, "col(c)", &mut |k| {
        let _ = k.col(c).count();
    });
    try_bad(rec, "set_row of wrong length", &mut |k| k.set_row(0, vec![1.0; c + 1]));
    try_bad(rec, "set_col of wrong length", &mut |k| k.set_col(0, vec![1.0; r + 1]));
    if r != c {
        try_bad(rec, "add_ass of other shape", &mut |k| k.add_ass(&LinearMatrix::zeros((c, r))));
        try_bad(rec, "sub_ass of other shape", &mut |k| k.sub_ass(&LinearMatrix::zeros((c, r))));
        try_bad(rec, "+= of other shape", &mut |k| *k += LinearMatrix::zeros((c, r)));
        try_bad(rec, "+ of other shape", &mut |k| {
            let _ = &*k + &LinearMatrix::zeros((c, r));
        });
        try_bad(rec, "- of other shape", &mut |k| {
            let _ = &*k - &LinearMatrix::zeros((c, r));
        });
    }
}

fn main() {
    let mut h = Harness::new("C01");
    h.assume("shapes up to 4x4, operation sequences up to depth 3 (thorough 4) over a 19-operation alphabet with position and value fixed by the step; all values exactly representable");
    let shapes: Vec<(usize, usize)> = vec![(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (4, 4)];
    let depth = h.pick(4u32, 5);
    let seqs = pow(OPS, depth);
    h.family("operation sequences", "9 shapes x 19 operations ^ depth, the whole array observed after every operation", shapes.len() as u64 * seqs, |i, rec| {
        let mut d = Digits(i);
        let (r, c) = *d.pick(&shapes);
        let mut a = Arr::filled(r, c, 1.0);
        let mut m = LinearMatrix::from_flat((r, c), a.flat());
        let mut ops = vec![];
        for s in 0..depth as usize {
            let op = d.take(OPS);
            ops.push(op);
            let hist = || format!("{}x{} {:?}", r, c, ops.iter().map(|&o| NAMES[o]).collect::<Vec<_>>());
            let res = rec.call(|| apply(op, s, &mut m, &mut a));
            if let Err(e) = res {
                rec.fail("operation-panics", format!("{}: {}", hist(), e));
                return;
            }
            // shorter prefixes are observed by the sequences that end there (op 18 never changes anything)
            if s + 1 == depth as usize || i % 7 == 0 {
                if !observe(rec, &m, &a, &hist) {
                    return;
                }
            }
        }
        rec.state((a.r, a.c, a.flat().iter().map(|x| x.to_bits()).collect::<Vec<_>>(), format!("{:?}", m).contains("row_maj: true")));
        if i % 97 == 0 {
            let hist = || format!("{}x{} {:?}", r, c, ops.iter().map(|&o| NAMES[o]).collect::<Vec<_>>());
            refusals(rec, &m, &a, &hist);
            // equality does not depend on the layout, and sees every element
            let same = operand(&a, false);
            let flipped = operand(&a, true);
            let eq = rec.call(|| (m == same, m == flipped, same == flipped, flipped == m));
            rec.check(eq == Ok((true, true, true, true)), "equality-layout", || format!("{}: {:?}", hist(), eq));
            for x in 0..a.r {
                for y in 0..a.c {
                    let mut b = a.clone();
                    b.v[x][y] += 0.25;
                    let ne = rec.call(|| (m == operand(&b, false), m == operand(&b, true)));
                    rec.check(ne == Ok((false, false)), "equality-element", || format!("{}: differing at ({},{}) compares {:?}", hist(), x, y, ne));
                }
            }
            if a.r != a.c {
                let ne = rec.call(|| m == LinearMatrix::from_flat((a.c, a.r), a.flat()));
                rec.check(ne == Ok(false), "equality-shape", || hist());
            }
        }
        rec.sample(|| format!("{}x{} {:?} -> {:?}", r, c, ops.iter().map(|&o| NAMES[o]).collect::<Vec<_>>(), a.flat()));
        rec.trace();
    });
    // swaps over every pair of rows and columns, in both layouts; also row/col replacement everywhere
    h.family("swaps and replacements", "every index pair on every shape up to 7x7, both layouts", 49 * 2, |i, rec| {
        let mut d = Digits(i);
        let (r, c) = (d.take(7) + 1, d.take(7) + 1);
        let flip = d.take(2) == 1;
        let base = Arr::filled(r, c, 1.0);
        rec.state((r, c, flip));
        for x in 0..r {
            for y in 0..r {
                let mut m = operand(&base, flip);
                let mut a = base.clone();
                a.v.swap(x, y);
                if rec.call(|| m.swap_rows(x, y)).is_err() {
                    rec.fail("operation-panics", format!("swap_rows({},{}) on {}x{}", x, y, r, c));
                }
                observe(rec, &m, &a, &|| format!("swap_rows({},{}) flip={}", x, y, flip));
            }
            let mut m = operand(&base, flip);
            let mut a = base.clone();
            a.v[x] = (0..c).map(|k| -1.0 - k as f64).collect();
            let new = a.v[x].clone();
            let _ = rec.call(|| m.set_row(x, new));
            observe(rec, &m, &a, &|| format!("set_row({}) flip={}", x, flip));
            let mut m = operand(&base, flip);
            let mut a = base.clone();
            a.v[x].iter_mut().for_each(|v| *v = v.mul_add(2.0, 1.0));
            let _ = rec.call(|| m.mutate_row(x, |v| *v = *v * 2.0 + 1.0));
            observe(rec, &m, &a, &|| format!("mutate_row({}) flip={}", x, flip));
        }
        for x in 0..c {
            for y in 0..c {
                let mut m = operand(&base, flip);
                let mut a = base.clone();
                a.v.iter_mut().for_each(|v| v.swap(x, y));
                let _ = rec.call(|| m.swap_cols(x, y));
                observe(rec, &m, &a, &|| format!("swap_cols({},{}) flip={}", x, y, flip));
            }
            let mut m = operand(&base, flip);
            let mut a = base.clone();
            let new: Vec<f64> = (0..r).map(|k| -1.0 - k as f64).collect();
            for k in 0..r {
                a.v[k][x] = new[k]
            }
            let _ = rec.call(|| m.set_col(x, new));
            observe(rec, &m, &a, &|| format!("set_col({}) flip={}", x, flip));
            let mut m = operand(&base, flip);
            let mut a = base.clone();
            a.v.iter_mut().for_each(|v| v[x] = v[x] * 2.0 + 1.0);
            let _ = rec.call(|| m.mutate_col(x, |v| *v = *v * 2.0 + 1.0));
            observe(rec, &m, &a, &|| format!("mutate_col({}) flip={}", x, flip));
        }
        rec.trace();
    });
    // values of every size, zeros among them
    h.family("sizes", "9 shapes x both layouts x 8 sizes (powers of two from 2^-1060 to 2^70, mixed) x 3 placings of zeros x 18 operations: the whole array observed", shapes.len() as u64 * 2 * SIZES * 3 * (OPS - 1), |i, rec| {
        let mut d = Digits(i);
        let (r, c) = *d.pick(&shapes);
        let (flip, kind, zeros, op) = (d.take(2) == 1, d.0 % SIZES, d.0 / SIZES % 3, (d.0 / SIZES / 3) as usize);
        let mut a = Arr::filled(r, c, 1.0);
        for x in 0..r {
            for y in 0..c {
                a.v[x][y] *= sized(kind, x * c + y);
                if zeros > 0 && (x + y) as u64 % 3 == zeros {
                    a.v[x][y] = 0.0
                }
            }
        }
        rec.state(i);
        let mut m = operand(&a, flip);
        let hist = || format!("{}x{} size {} zeros {} flip={} {}", r, c, kind, zeros, flip, NAMES[op]);
        if !observe(rec, &m, &a, &|| format!("before {}", hist())) {
            return;
        }
        if let Err(e) = rec.call(|| apply(op, 1, &mut m, &mut a)) {
            return rec.fail("operation-panics", format!("{}: {}", hist(), e));
        }
        observe(rec, &m, &a, &hist);
        // a difference of any size is a difference
        for x in 0..a.r {
            for y in 0..a.c {
                let mut b = a.clone();
                b.v[x][y] += if b.v[x][y] == 0.0 { sized(7, 0) } else { b.v[x][y] * 2f64.powi(-52) };
                if b.v[x][y] == a.v[x][y] {
                    continue;
                }
                let ne = rec.call(|| (m == operand(&b, false), m == operand(&b, true)));
                rec.check(ne == Ok((false, false)), "equality-element", || format!("{}: differing at ({},{}) by one digit compares {:?}", hist(), x, y, ne));
            }
        }
        rec.trace();
    });
    let factors = [0.0, -0.0, 1.0, -1.0, -0.5, 3.0, 1e-300, -1e-13, 1e300, 1.0 + f64::EPSILON];
    let entries = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, -1e-13, 1e100, 3.0, -2.0];
    h.family("scalars", "9 shapes x both layouts x every pair of neighbouring entries and a scalar from 10 values each (both zeros, tiny, huge) added, multiplied or both: every entry is the one product or sum", shapes.len() as u64 * 2 * 3 * 1000, |i, rec| {
        let mut d = Digits(i);
        let (r, c) = *d.pick(&shapes);
        let (flip, how, f, x, y) = (d.take(2) == 1, d.take(3), factors[d.take(10)], d.take(10), d.take(10));
        let mut a = Arr::new(r, c);
        for k in 0..r * c {
            a.v[k / c][k % c] = entries[(x + k * (y + 1)) % 10];
        }
        rec.state(i);
        let mut m = operand(&a, flip);
        let hist = || format!("{}x{} {:?} flip={} scalar {:e} how {}", r, c, entries[x], flip, f, how);
        let done = rec.call(|| match how {
            0 => m += f,
            1 => m *= f,
            _ => {
                m *= f;
                m += f;
            }
        });
        if let Err(e) = done {
            return rec.fail("operation-panics", format!("{}: {}", hist(), e));
        }
        a.v.iter_mut().flatten().for_each(|v| {
            *v = match how {
                0 => *v + f,
                1 => *v * f,
                _ => *v * f + f,
            }
        });
        observe(rec, &m, &a, &hist);
        // both zeros are the same number
        let mut b = a.clone();
        b.v.iter_mut().flatten().for_each(|v| if *v == 0.0 { *v = -*v });
        let eq = rec.call(|| (m == operand(&b, false), m == operand(&b, true)));
        rec.check(eq == Ok((true, true)), "equality-zeros", || format!("{}: {:?}", hist(), eq));
        rec.trace();
    });
    // constructors
    h.family("constructors", "zeros, eye, from_rows, row_vec, col_vec, from vector, rotation, from_flat with every wrong length, shapes up to 9x9", 81, |i, rec| {
        let mut d = Digits(i);
        let (r, c) = (d.take(9) + 1, d.take(9) + 1);
        let a = Arr::filled(r, c, 2.0);
        rec.state((r, c));
        let name = format!("{}x{}", r, c);
        macro_rules! obs {
            ($e:expr, $a:expr, $w:expr) => {
                match rec.call(|| $e) {
                    Ok(m) => {
                        let m: LinearMatrix = m;
                        observe(rec, &m, &$a, &|| format!("{} {}", $w, name));
                    }
                    Err(e) => rec.fail("constructor-panics", format!("{} {}: {}", $w, name, e)),
                }
            };
        }
        obs!(LinearMatrix::zeros((r, c)), Arr::new(r, c), "zeros");
        obs!(LinearMatrix::from_rows(a.v.clone()), a, "from_rows");
        obs!(LinearMatrix::from_flat((r, c), a.flat()), a, "from_flat");
        let mut e = Arr::new(r, r);
        (0..r).for_each(|k| e.v[k][k] = 1.0);
        obs!(LinearMatrix::eye(r), e, "eye");
        let v: Vec<f64> = (0..c).map(|k| k as f64 - 1.5).collect();
        obs!(LinearMatrix::row_vec(v.clone()), Arr { r: 1, c, v: vec![v.clone()] }, "row_vec");
        let col = Arr { r: c, c: 1, v: v.iter().map(|&x| vec![x]).collect() };
        obs!(LinearMatrix::col_vec(v.clone()), col, "col_vec");
        obs!(LinearMatrix::from(v.clone()), col, "from vec");
        for len in 0..r * c + 3 {
            if len != r * c {
                let bad = rec.call(|| LinearMatrix::from_flat((r, c), vec![1.0; len]));
                rec.check(bad.is_err(), "from-flat-length", || format!("from_flat({}x{}) accepted {} values", r, c, len));
            }
        }
        if r > 1 {
            let mut rows = a.v.clone();
            rows[r - 1].push(1.0);
            let bad = rec.call(|| LinearMatrix::from_rows(rows));
            rec.check(bad.is_err(), "from-rows-ragged", || name.clone());
            for x in 0..r {
                for y in 0..r {
                    let t = 0.3 + x as f64;
                    let got = rec.call(|| LinearMatrix::rotation(r, x, y, t));
                    if x == y {
                        rec.check(got.is_err(), "rotation-same-axis", || name.clone());
                        continue;
                    }
                    let mut e = Arr::new(r, r);
                    (0..r).for_each(|k| e.v[k][k] = 1.0);
                    e.v[x][x] = t.cos();
                    e.v[y][y] = t.cos();
                    e.v[x][y] = -t.sin();
                    e.v[y][x] = t.sin();
                    let ok = match &got {
                        Ok(m) => (0..r).all(|p| (0..r).all(|q| (m[(p, q)] - e.v[p][q]).abs() < 1e-14)),
                        Err(_) => false,
                    };
                    rec.check(ok, "rotation", || format!("rotation({},{},{},{}) = {:?}", r, x, y, t, got));
                }
            }
        }
        rec.trace();
    });
    // fixed-size matrices, through the same observations
    fn fixed<const N: usize>(rec: &mut Rec, i: u64, r: usize, c: usize) {
        assert_eq!(r * c, N);
        let mut a = Arr::filled(r, c, 1.0);
        let name = format!("ConstMatrix<{}> {}x{}", N, r, c);
        let m = rec.call(|| ConstMatrix::<N>::from_flat((r, c), a.flat()));
        let mut m = match m {
            Ok(m) => m,
            Err(e) => {
                rec.fail("fixed-constructor", format!("{}: {}", name, e));
                return;
            }
        };
        observe(rec, &m, &a, &|| name.clone());
        let mut arr = [0.0; N];
        arr.copy_from_slice(&a.flat());
        match rec.call(|| ConstMatrix::<N>::from_flat_array((r, c), arr)) {
            Ok(n) => {
                observe(rec, &n, &a, &|| format!("{} from array", name));
                rec.check(n == m, "fixed-equality", || name.clone());
            }
            Err(e) => rec.fail("fixed-constructor", format!("{}: {}", name, e)),
        }
        match rec.call(|| ConstMatrix::<N>::zeros((r, c))) {
            Ok(n) => {
                observe(rec, &n, &Arr::new(r, c), &|| format!("{} zeros", name));
            }
            Err(e) => rec.fail("fixed-constructor", format!("{}: {}", name, e)),
        }
        for len in [0, N.saturating_sub(1), N + 1] {
            if len != N {
                let bad = rec.call(|| ConstMatrix::<N>::from_flat((r, c), vec![1.0; len]));
                rec.check(bad.is_err(), "fixed-length", || format!("{} accepted {} values", name, len));
            }
        }
        for (br, bc) in [(r + 1, c), (r, c + 1), (r + 1, c + 1)] {
            let bad = rec.call(|| ConstMatrix::<N>::from_flat((br, bc), a.flat()));
            rec.check(bad.is_err(), "fixed-shape", || format!("{} accepted the shape {}x{}", name, br, bc));
            let bad = rec.call(|| ConstMatrix::<N>::zeros((br, bc)));
            rec.check(bad.is_err(), "fixed-shape", || format!("{} zeros accepted the shape {}x{}", name, br, bc));
            let bad = rec.call(|| ConstMatrix::<N>::from_flat_array((br, bc), arr));
            rec.check(bad.is_err(), "fixed-shape", || format!("{} array accepted the shape {}x{}", name, br, bc));
        }
        let mut d = Digits(i);
        let mut hist = vec![];
        for s in 0..3 {
            let (x, y) = ((s + 1) % r, (2 * s + 1) % c);
            let (x2, y2) = ((x + 1) % r, (y + 1) % c);
            let val = 5.0 + s as f64;
            let op = d.take(9);
            hist.push(op);
            let o = Arr::filled(r, c, val);
            let om = ConstMatrix::<N>::from_flat((r, c), o.flat());
            let res = rec.call(|| match op {
                0 => m.put((x, y), val),
                1 => m[(x, y)] = -val,
                2 => m.swap_rows(x, x2),
                3 => m.swap_cols(y, y2),
                4 => m.set_row(x, (0..c).map(|k| val + k as f64).collect()),
                5 => m.set_col(y, (0..r).map(|k| val - k as f64).collect()),
                6 => m.add_ass(&om),
                7 => m.sub_ass(&om),
                _ => {
                    m.put((r, y), 9.0);
                    m.put((x, c), 9.0);
                    m.mutate((x2, y2), |v| *v *= 2.0);
                }
            });
            if let Err(e) = res {
                rec.fail("operation-panics", format!("{} {:?}: {}", name, hist, e));
                return;
            }
            match op {
                0 => a.v[x][y] = val,
                1 => a.v[x][y] = -val,
                2 => a.v.swap(x, x2),
                3 => a.v.iter_mut().for_each(|v| v.swap(y, y2)),
                4 => a.v[x] = (0..c).map(|k| val + k as f64).collect(),
                5 => (0..r).for_each(|k| a.v[k][y] = val - k as f64),
                6 => (0..r).for_each(|k| (0..c).for_each(|l| a.v[k][l] += o.v[k][l])),
                7 => (0..r).for_each(|k| (0..c).for_each(|l| a.v[k][l] -= o.v[k][l])),
                _ => a.v[x2][y2] *= 2.0,
            }
            observe(rec, &m, &a, &|| format!("{} {:?}", name, hist));
        }
        let (oob1, oob2) = (rec.call(|| m[(r, 0)]), rec.call(|| m[(0, c)]));
        rec.check(oob1.is_err() && oob2.is_err(), "oob-accepted", || name.clone());
        rec.state((N, r, hist));
        rec.trace();
    }
    h.family("fixed-size operation sequences", "9 shapes x 9 operations ^ 3", 9 * 729, |i, rec| {
        let mut d = Digits(i);
        let k = d.take(9);
        let j = d.0;
        match k {
            0 => fixed::<1>(rec, j, 1, 1),
            1 => fixed::<4>(rec, j, 2, 2),
            2 => fixed::<4>(rec, j, 4, 1),
            3 => fixed::<6>(rec, j, 2, 3),
            4 => fixed::<6>(rec, j, 3, 2),
            5 => fixed::<9>(rec, j, 3, 3),
            6 => fixed::<12>(rec, j, 4, 3),
            7 => fixed::<18>(rec, j, 3, 6),
            _ => fixed::<3>(rec, j, 1, 3),
        }
    });
    let large = [(65, 63), (257, 255), (260, 260), (70000, 1), (1, 70000), (3, 66000), (33000, 2)];
    h.family("large operations", "7 shapes from 65x63 to 70000x1 in both layouts x 19 operations at 5 places, the whole array observed after each", 7 * 2 * OPS * 5, |i, rec| {
        let mut d = Digits(i);
        let ((r, c), flip, op, s) = (large[d.take(7)], d.take(2) == 1, d.take(OPS), [1usize, 255, 256, 65535, 65536][d.take(5)]);
        let mut a = Arr::filled(r, c, 1.0);
        let mut m = operand(&a, flip);
        let hist = || format!("{}x{} flip={} {} at step {}", r, c, flip, NAMES[op], s);
        rec.state((r, c, flip, op, s));
        if let Err(e) = rec.call(|| apply(op, s, &mut m, &mut a)) {
            return rec.fail("operation-panics", format!("{}: {}", hist(), e));
        }
        observe(rec, &m, &a, &hist);
        rec.trace();
    });
    h.finish()
}
