//! C02: structured matrices read back what was stored and zero everywhere else.
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

/// position kinds a write can meet
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cell {
    Stored,
    Zero,
    Oob,
}

/// one write through each of the write interfaces; a refused write must change nothing
fn write<T: MatrixLike>(rec: &mut Rec, m: &mut T, a: &mut M, cell: Cell, loc: (usize, usize), kind: usize, val: f64, hist: &dyn Fn() -> String) {
    match kind {
        0 => {
            let r = rec.call(|| m[loc] = val);
            rec.check(r.is_ok() == (cell == Cell::Stored), "index-write", || format!("{}: m[{:?}] = {} gave {:?} on a {:?} position", hist(), loc, val, r, cell));
            if cell == Cell::Stored {
                a[loc.0][loc.1] = val
            }
        }
        1 => {
            let r = rec.call(|| m.put(loc, val));
            rec.check(r.is_ok(), "put-panics", || format!("{}: put {:?}: {:?}", hist(), loc, r));
            if cell == Cell::Stored {
                a[loc.0][loc.1] = val
            }
        }
        _ => {
            let r = rec.call(|| m.get_mut(loc).map(|x| {
                *x += val;
            }).is_some());
            rec.check(r == Ok(cell == Cell::Stored), "get-mut", || format!("{}: get_mut {:?} gave {:?} on a {:?} position", hist(), loc, r, cell));
            if cell == Cell::Stored {
                a[loc.0][loc.1] += val
            }
        }
    }
}

/// every write sequence of length `depth` over all positions (one ring outside the shape included)
fn sequences<T: MatrixLike>(h: &mut Harness, name: &str, rows: usize, cols: usize, depth: u32, make: impl Fn() -> T + Sync, cell: impl Fn(usize, usize) -> Cell + Sync) {
    let places = ((rows + 1) * (cols + 1)) as u64;
    h.family(name, &format!("all {} writes ^ {} through index, put and get_mut", places * 3, depth), pow(places * 3, depth), |i, rec| {
        let mut d = Digits(i);
        let mut m = make();
        let mut a = zeros(rows, cols);
        let mut done = vec![];
        for s in 0..depth {
            let p = d.take(places);
            let kind = d.take(3);
            let loc = (p / (cols + 1), p % (cols + 1));
            let c = if loc.0 >= rows || loc.1 >= cols { Cell::Oob } else { cell(loc.0, loc.1) };
            done.push((loc, kind));
            let hist = || format!("{} {:?}", name, done);
            write(rec, &mut m, &mut a, c, loc, kind, (1.5 + s as f64) * sized(i % 37, s as usize + p), &hist);
        }
        let hist = || format!("{} {:?}", name, done);
        observe(rec, &m, &a, rows, cols, &hist);
        rec.state(a.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
        rec.sample(|| format!("{:?} -> {:?}", done, a));
        rec.trace();
    });
}

/// fill every storable position with a distinct value, check, overwrite in the reverse order, check
fn fill<T: MatrixLike>(rec: &mut Rec, m: &mut T, rows: usize, cols: usize, cell: &dyn Fn(usize, usize) -> Cell, hist: &dyn Fn() -> String) {
    let mut a = zeros(rows, cols);
    if !observe(rec, m, &a, rows, cols, &|| format!("{} fresh", hist())) {
        return;
    }
    let all: Vec<(usize, usize)> = (0..rows).flat_map(|i| (0..cols).map(move |j| (i, j))).collect();
    for (k, &l) in all.iter().enumerate() {
        write(rec, m, &mut a, cell(l.0, l.1), l, k % 3, 1.0 + k as f64, hist);
    }
    observe(rec, m, &a, rows, cols, &|| format!("{} filled", hist()));
    for (k, &l) in all.iter().enumerate().rev() {
        write(rec, m, &mut a, cell(l.0, l.1), l, (k + 1) % 3, -0.5 - k as f64, hist);
    }
    observe(rec, m, &a, rows, cols, &|| format!("{} refilled", hist()));
    // values of every size
    for size in 1..SIZES {
        for (k, &l) in all.iter().enumerate() {
            write(rec, m, &mut a, cell(l.0, l.1), l, k % 2, (2.0 + k as f64) * sized(size, k), hist);
        }
        observe(rec, m, &a, rows, cols, &|| format!("{} filled with values of size {}", hist(), size));
    }
    refuses_oob(rec, m, rows, cols, hist);
}

fn lower(i: usize, j: usize) -> Cell {
    if j <= i {
        Cell::Stored
    } else {
        Cell::Zero
    }
}
fn upper(i: usize, j: usize) -> Cell {
    lower(j, i)
}
fn diagonal(i: usize, j: usize) -> Cell {
    if i == j {
        Cell::Stored
    } else {
        Cell::Zero
    }
}

/// envelope number `code` of an n-row lower envelope
fn envelope(n: usize, mut code: u64) -> Vec<usize> {
    (0..n)
        .map(|r| {
            let x = (code % (r as u64 + 1)) as usize + 1;
            code /= r as u64 + 1;
            x
        })
        .collect()
}

fn check_envelope(rec: &mut Rec, env: &[usize]) {
    let n = env.len();
    rec.state(env);
    let hist = || format!("envelope {:?}", env);
    let made = rec.call(|| LowerRowEnvelope::from_envelope(env.to_vec()));
    let mut m = match made {
        Ok(m) => m,
        Err(e) => {
            rec.fail("from-envelope-panics", format!("{}: {}", hist(), e));
            return;
        }
    };
    let cell = |i: usize, j: usize| if j <= i && j + env[i] > i { Cell::Stored } else { Cell::Zero };
    fill(rec, &mut m, n, n, &cell, &hist);
    let a = read(&m);
    // the stored slices are the rows of the structure
    for r in 0..n {
        let start = r + 1 - env[r];
        let want: Vec<f64> = (start..=r).map(|c| a[r][c]).collect();
        let got = rec.call(|| {
            let (s, v) = m.row_stored(r);
            (s, v.to_vec())
        });
        rec.check(got == Ok((start, want.clone())), "row-stored", || format!("{}: row_stored({}) = {:?}, want {:?}", hist(), r, got, (start, &want)));
        let got = rec.call(|| {
            let (s, v) = m.row_stored_nodiag(r);
            (s, v.to_vec())
        });
        let mut nd = want.clone();
        nd.pop();
        rec.check(got == Ok((start, nd)), "row-stored-nodiag", || format!("{}: row_stored_nodiag({}) = {:?}", hist(), r, got));
        let mut k = m.clone();
        let got = rec.call(|| {
            let (s, v) = k.row_stored_mut(r);
            v.iter_mut().for_each(|x| *x += 1000.0);
            (s, v.len())
        });
        rec.check(got == Ok((start, env[r])), "row-stored-mut", || format!("{}: row_stored_mut({}) = {:?}", hist(), r, got));
        let mut b = a.clone();
        (start..=r).for_each(|c| b[r][c] += 1000.0);
        observe(rec, &k, &b, n, n, &|| format!("{} after row_stored_mut({})", hist(), r));
    }
    let e = rec.call(|| m.envelope());
    rec.check(e.as_deref() == Ok(env), "envelope", || format!("{}: envelope() = {:?}", hist(), e));
    let c = rec.call(|| m.non_zero_count());
    rec.check(c == Ok(env.iter().sum()), "non-zero-count", || format!("{}: non_zero_count() = {:?}", hist(), c));
    rec.sample(|| hist());
    rec.trace();
}

/// the pattern `bits` of a rows x cols matrix with distinct values
fn pattern(rows: usize, cols: usize, bits: u64) -> M {
    (0..rows).map(|i| (0..cols).map(|j| if bits >> (i * cols + j) & 1 == 1 { (1.0 + (i * cols + j) as f64) * sized(bits % 11, i * cols + j) } else { 0.0 }).collect()).collect()
}

fn check_crs(rec: &mut Rec, mut m: CompressedRow, a: &M, stored: &dyn Fn(usize, usize) -> bool, hist: &dyn Fn() -> String) {
    let (rows, cols) = (a.len(), a[0].len());
    if !observe(rec, &m, a, rows, cols, hist) {
        return;
    }
    for r in 0..rows {
        let want: Vec<(usize, f64)> = (0..cols).filter(|&c| stored(r, c)).map(|c| (c, a[r][c])).collect();
        let got = rec.call(|| {
            let mut v: Vec<(usize, f64)> = m.row_nzs(r).collect();
            v.sort_by_key(|x| x.0);
            v
        });
        rec.check(got.as_ref() == Ok(&want), "row-nzs", || format!("{}: row_nzs({}) = {:?}, want {:?}", hist(), r, got, want));
    }
    let cnt = (0..rows).map(|r| (0..cols).filter(|&c| stored(r, c)).count()).sum::<usize>();
    let got = rec.call(|| m.non_zero_count());
    rec.check(got == Ok(cnt), "non-zero-count", || format!("{}: non_zero_count {:?}, want {}", hist(), got, cnt));
    let mut b = a.clone();
    for i in 0..rows {
        for j in 0..cols {
            let cell = if stored(i, j) { Cell::Stored } else { Cell::Zero };
            write(rec, &mut m, &mut b, cell, (i, j), (i + j) % 3, 50.0 + (i * cols + j) as f64, hist);
        }
    }
    observe(rec, &m, &b, rows, cols, &|| format!("{} rewritten", hist()));
    refuses_oob(rec, &m, rows, cols, hist);
}

/// row and column numbers on both sides of every width an index could be cut to
const FAR: [usize; 13] = [0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 69999];

/// two writes far apart in a huge matrix: read back there, and zero wherever a cut index would put them
fn far_pair<T: MatrixLike>(rec: &mut Rec, what: &str, make: impl FnOnce() -> T, cell: &dyn Fn(usize, usize) -> Cell, at: &[(usize, usize)]) {
    let got = rec.call(|| {
        let mut m = make();
        for (k, &p) in at.iter().enumerate() {
            if cell(p.0, p.1) == Cell::Stored {
                m.put(p, 1.5 + k as f64)
            }
        }
        let mut bad = vec![];
        for i in FAR {
            for j in FAR {
                let want = at.iter().rposition(|&p| p == (i, j) && cell(i, j) == Cell::Stored).map_or(0.0, |k| 1.5 + k as f64);
                if m[(i, j)] != want || m.get((i, j)) != Some(&want) {
                    bad.push(((i, j), m[(i, j)], want));
                }
            }
        }
        for p in [(70000, 0), (0, 70000), (70000, 70000), (65536 + 70000, 1)] {
            if m.get(p).is_some() {
                bad.push((p, f64::NAN, f64::NAN));
            }
        }
        bad
    });
    rec.trace();
    match got {
        Ok(b) => {
            rec.check(b.is_empty(), "far-index", || format!("{} after writing {:?}: (place, read, written) {:?}", what, at, &b[..b.len().min(5)]));
        }
        Err(e) => rec.fail("far-index", format!("{} after writing {:?}: {}", what, at, e)),
    }
}

fn main() {
    let mut h = Harness::new("C02");
    h.assume("write sequences to depth 3 (thorough 4 on 2x2) on 3x3 structures, all sparsity patterns up to 9-12 cells, all envelopes up to 6 (7) rows; larger dimensions (to 24) by complete fill only");
    let depth = 3;
    let t = h.thorough();
    sequences(&mut h, "lower triangular 2x2", 2, 2, 4, || LowerTriangular::zeros(2), lower);
    sequences(&mut h, "lower triangular 3x3", 3, 3, depth, || LowerTriangular::zeros(3), lower);
    sequences(&mut h, "upper triangular 2x2", 2, 2, 4, || UpperTriangular::zeros(2), upper);
    sequences(&mut h, "upper triangular 3x3", 3, 3, depth, || UpperTriangular::zeros(3), upper);
    sequences(&mut h, "diagonal 3x3", 3, 3, depth, || Diagonal::zeros(3), diagonal);
    sequences(&mut h, "dictionary 3x3", 3, 3, depth, || Dictionary::zeros(3), |_, _| Cell::Stored);
    sequences(&mut h, "dictionary 2x3", 2, 3, depth, || Dictionary::zeros((2, 3)), |_, _| Cell::Stored);
    sequences(&mut h, "dictionary 3x1", 3, 1, 4, || Dictionary::zeros((3, 1)), |_, _| Cell::Stored);
    for code in 0..6u64 {
        let env = envelope(3, code);
        let e2 = env.clone();
        sequences(&mut h, &format!("lower envelope {:?}", env), 3, 3, if t { 3 } else { 2 }, move || LowerRowEnvelope::from_envelope(env.clone()), move |i, j| if j <= i && j + e2[i] > i { Cell::Stored } else { Cell::Zero });
    }
    h.family("complete fills", "triangular, diagonal, dictionary of dimension 1..24", 24, |i, rec| {
        let n = i as usize + 1;
        rec.state(n);
        fill(rec, &mut LowerTriangular::zeros(n), n, n, &lower, &|| format!("lower {}", n));
        fill(rec, &mut UpperTriangular::zeros(n), n, n, &upper, &|| format!("upper {}", n));
        fill(rec, &mut Diagonal::zeros(n), n, n, &diagonal, &|| format!("diagonal {}", n));
        for c in [1, n, n + 2] {
            fill(rec, &mut Dictionary::zeros((n, c)), n, c, &|_, _| Cell::Stored, &|| format!("dictionary {}x{}", n, c));
        }
        rec.trace();
    });
    h.family("equality", "every pair of triangular matrices to dimension 3 over {0, 2}, and of diagonals, dictionaries and envelopes holding the same entries: equal exactly when their entries are, and a copy keeps its own entries", 1 + 64 + 4096, |i, rec| {
        let (n, code) = if i < 1 { (1usize, i) } else if i < 65 { (2, i - 1) } else { (3, i - 65) };
        let k = n * (n + 1) / 2;
        let (p, q) = (code % (1 << k), code / (1 << k));
        rec.state(i);
        fn twin<T: MatrixLike + Clone + PartialEq>(rec: &mut Rec, name: &str, a: T, b: T, spots: &[(usize, usize)], p: u64, q: u64) {
            let fill = |m: &T, code: u64| {
                let mut m = m.clone();
                for (k, &l) in spots.iter().enumerate() {
                    m[l] = 2.0 * (code >> k & 1) as f64
                }
                m
            };
            let r = rec.call(|| {
                let (x, y) = (fill(&a, p), fill(&b, q));
                let mut z = x.clone();
                let last = *spots.last().unwrap();
                z[last] = 7.0;
                (x == y, y == x, x == fill(&b, p), x == z, x[last] == 7.0, z[last] == 7.0)
            });
            rec.check(r == Ok((p == q, p == q, true, false, false, true)), "equality", || format!("{} {:b} and {:b}: (x == y, y == x, x == same entries, x == changed copy, changed) {:?}", name, p, q, r));
        }
        let low: Vec<(usize, usize)> = (0..n).flat_map(|r| (0..=r).map(move |c| (r, c))).collect();
        let up: Vec<(usize, usize)> = low.iter().map(|l| (l.1, l.0)).collect();
        let dia: Vec<(usize, usize)> = (0..n).map(|r| (r, r)).collect();
        let env: Vec<usize> = (1..=n).collect();
        let (pd, qd) = (p % (1 << n), q % (1 << n));
        twin(rec, "lower", LowerTriangular::zeros(n), LowerTriangular::zeros(n), &low, p, q);
        twin(rec, "upper", UpperTriangular::zeros(n), UpperTriangular::zeros(n), &up, p, q);
        twin(rec, "diagonal", Diagonal::zeros(n), Diagonal::zeros(n), &dia, pd, qd);
        twin(rec, "dictionary", Dictionary::zeros((n, n)), Dictionary::zeros((n, n)), &up, p, q);
        twin(rec, "envelope", LowerRowEnvelope::from_envelope(env.clone()), LowerRowEnvelope::from_envelope(env), &low, p, q);
        let r = rec.call(|| (LowerTriangular::zeros(n) == LowerTriangular::zeros(n + 1), UpperTriangular::zeros(n + 1) == UpperTriangular::zeros(n), Diagonal::zeros(n) == Diagonal::zeros(n + 1), Dictionary::zeros((n, n)) == Dictionary::zeros((n, n + 1))));
        rec.check(r == Ok((false, false, false, false)), "equality", || format!("zeros of {} and {}: {:?}", n, n + 1, r));
        // a diagonal is also written by one index
        let r = rec.call(|| {
            let mut m = Diagonal::zeros(n);
            (0..n).for_each(|i| m[i] = 1.5 + i as f64);
            m[n - 1] += 2.0;
            (0..n).map(|i| (m[i], m[(i, i)])).collect::<Vec<_>>()
        });
        let want: Vec<(f64, f64)> = (0..n).map(|i| 1.5 + i as f64 + if i + 1 == n { 2.0 } else { 0.0 }).map(|x| (x, x)).collect();
        rec.check(r.as_ref() == Ok(&want), "index-write", || format!("diagonal written by one index: {:?}, want {:?}", r, want));
        let r = rec.call(|| Diagonal::zeros(n)[n] = 1.0);
        rec.check(r.is_err(), "index-write", || format!("entry {} of a diagonal of {} was written", n, n));
        rec.trace();
    });
    h.family("diagonal from values", "every vector over {-2,0,3,0.5} of length 1..5", 4 + 16 + 64 + 256 + 1024, |i, rec| {
        let mut k = i;
        let mut n = 1;
        while k >= pow(4, n) {
            k -= pow(4, n);
            n += 1
        }
        let mut d = Digits(k);
        let v: Vec<f64> = (0..n).map(|_| [-2.0, 0.0, 3.0, 0.5][d.take(4)]).collect();
        rec.state(v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        let n = n as usize;
        let mut a = zeros(n, n);
        (0..n).for_each(|i| a[i][i] = v[i]);
        match rec.call(|| Diagonal::from(v.clone())) {
            Ok(m) => {
                observe(rec, &m, &a, n, n, &|| format!("Diagonal::from({:?})", v));
                let r = rec.call(|| {
                    let mut x: Vec<f64> = (0..n).map(|i| 3.0 * v[i]).collect();
                    if v.iter().all(|&y| y != 0.0) {
                        m.solve(&mut x);
                    } else {
                        x = vec![3.0; n];
                    }
                    (m.num_neg(), m.product(), m.product_scaled(2.0), m.mean(), x, (0..n).map(|i| m[i]).collect::<Vec<_>>())
                });
                let neg = v.iter().filter(|&&x| x < 0.0).count();
                let prod: f64 = v.iter().product();
                let ok = match &r {
                    Ok((g, p, ps, mean, x, idx)) => *g == neg && *p == prod && *ps == prod * 2f64.powi(n as i32) && (mean - v.iter().sum::<f64>() / n as f64).abs() < 1e-15 * 10.0 && x.iter().all(|&y| y == 3.0) && idx == &v,
                    Err(_) => false,
                };
                rec.check(ok, "diagonal-queries", || format!("{:?}: {:?}", v, r));
                let oob = rec.call(|| m[n]);
                rec.check(oob.is_err(), "oob-read", || format!("{:?}[{}]", v, n));
            }
            Err(e) => rec.fail("constructor-panics", e),
        }
        rec.trace();
    });
    for n in 1..=h.pick(6usize, 7) {
        let count: u64 = (1..=n as u64).product();
        h.family(&format!("all envelopes n={}", n), "every lower envelope, complete fill, stored slices", count, |i, rec| check_envelope(rec, &envelope(n, i)));
    }
    h.family("wide envelopes", "n in 8..40, band, arrow and ragged envelopes", 33 * 4, |i, rec| {
        let mut d = Digits(i);
        let n = d.take(33) + 8;
        let k = d.take(4);
        let env: Vec<usize> = (0..n)
            .map(|r| match k {
                0 => (r + 1).min(3),
                1 => r + 1,
                2 => 1 + (r * 7 + 3) % (r + 1),
                _ => if r % 5 == 4 { r + 1 } else { 1 },
            })
            .collect();
        check_envelope(rec, &env)
    });
    h.family("refused envelopes", "a row of width zero or wider than the triangle, n<=4", 4 * 4 * 2, |i, rec| {
        let mut d = Digits(i);
        let n = d.take(4) + 1;
        let r = d.take(4) % n;
        let wide = d.take(2) == 1;
        let mut env: Vec<usize> = (0..n).map(|r| r + 1).collect();
        env[r] = if wide { r + 2 } else { 0 };
        rec.state(&env);
        let res = rec.call(|| LowerRowEnvelope::from_envelope(env.clone()));
        rec.check(res.is_err(), "bad-envelope-accepted", || format!("{:?}", env));
        rec.trace();
    });
    let shapes: Vec<(usize, usize)> = vec![(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2), (4, 3), (3, 4)];
    let shapes: Vec<(usize, usize)> = shapes.into_iter().filter(|s| t || s.0 * s.1 <= 12).collect();
    for &(r, c) in &shapes {
        h.family(&format!("compressed row {}x{}", r, c), "every sparsity pattern, from labelled values in three orders, from flat data, and empty", 1 << (r * c), |i, rec| {
            let a = pattern(r, c, i);
            rec.state(i);
            let stored = |x: usize, y: usize| i >> (x * c + y) & 1 == 1;
            let vals: Vec<((usize, usize), f64)> = (0..r).flat_map(|x| (0..c).map(move |y| (x, y))).filter(|&(x, y)| stored(x, y)).map(|(x, y)| ((x, y), a[x][y])).collect();
            let mut shuffled = vals.clone();
            shuffled.sort_by_key(|&((x, y), _)| (y * 7 + x * 3) % 11);
            for (w, v) in [("ascending", vals.clone()), ("descending", vals.iter().rev().cloned().collect()), ("shuffled", shuffled)] {
                match rec.call(|| CompressedRow::from_labeled_vals((r, c), v.clone())) {
                    Ok(m) => check_crs(rec, m, &a, &stored, &|| format!("{}x{} {} {:?}", r, c, w, v)),
                    Err(e) => rec.fail("constructor-panics", format!("{:?}: {}", v, e)),
                }
            }
            match rec.call(|| CompressedRow::from_flat((r, c), a.iter().flatten().cloned())) {
                Ok(m) => check_crs(rec, m, &a, &stored, &|| format!("{}x{} from_flat {:?}", r, c, a)),
                Err(e) => rec.fail("constructor-panics", e),
            }
            // explicitly stored zeros are stored
            if i % 5 == 1 {
                let z: Vec<_> = vals.iter().map(|x| (x.0, 0.0)).collect();
                match rec.call(|| CompressedRow::from_labeled_vals((r, c), z.clone())) {
                    Ok(m) => check_crs(rec, m, &zeros(r, c), &stored, &|| format!("{}x{} zeros {:?}", r, c, z)),
                    Err(e) => rec.fail("constructor-panics", e),
                }
            }
            if i == 0 {
                match rec.call(|| CompressedRow::zeros((r, c))) {
                    Ok(m) => check_crs(rec, m, &zeros(r, c), &|_, _| false, &|| format!("CompressedRow::zeros({}x{})", r, c)),
                    Err(e) => rec.fail("constructor-panics", e),
                }
            }
            rec.sample(|| format!("{:?}", a));
            rec.trace();
        });
    }
    // two-sided envelopes are made from dictionaries holding the two ends of every row
    for n in 1..=h.pick(4usize, 5) {
        let iv: Vec<(usize, usize)> = (0..n).flat_map(|s| (s + 1..=n).map(move |e| (s, e))).chain([(0, 0)]).collect();
        let cnt = pow(iv.len() as u64, n as u32);
        h.family(&format!("two-sided envelopes n={}", n), "every choice of row intervals, empty rows included", cnt, |i, rec| {
            let mut d = Digits(i);
            let b: Vec<(usize, usize)> = (0..n).map(|_| *d.pick(&iv)).collect();
            let mut e = vec![];
            let mut a = zeros(n, n);
            for (r, &(s, t)) in b.iter().enumerate() {
                if t > s {
                    let z = i % 11;
                    let (v, w) = ((3.0 + r as f64) * sized(z, r), (1.5 + r as f64) * sized(z, r + 1));
                    e.push(((r, t - 1), v));
                    e.push(((r, s), w));
                    a[r][t - 1] = v;
                    a[r][s] = w;
                }
            }
            rec.state(&b);
            let hist = || format!("rows {:?}", b);
            let bounds = rec.call(|| dict(n, n, &e).row_bounds());
            let ok = matches!(&bounds, Ok(v) if v.len() == n && v.iter().zip(&b).all(|(x, y)| x == y || (y.0 == y.1 && x.0 >= x.1)));
            rec.check(ok, "row-bounds", || format!("{}: row_bounds {:?}", hist(), bounds));
            match rec.call(|| BiEnvelope::from(dict(n, n, &e))) {
                Ok(mut m) => {
                    if observe(rec, &m, &a, n, n, &hist) {
                        for r in 0..n {
                            let got = rec.call(|| {
                                let (s, v) = m.row_stored(r);
                                (s, v.to_vec())
                            });
                            let want: Vec<f64> = a[r][b[r].0..b[r].1].to_vec();
                            let ok = matches!(&got, Ok((s, v)) if *v == want && (want.is_empty() || *s == b[r].0));
                            rec.check(ok, "row-stored", || format!("{}: row_stored({}) = {:?}, want {:?}", hist(), r, got, (b[r].0, want)));
                        }
                        for x in 0..n {
                            for y in 0..n {
                                let cell = if y >= b[x].0 && y < b[x].1 { Cell::Stored } else { Cell::Zero };
                                write(rec, &mut m, &mut a, cell, (x, y), (x + y) % 3, 9.0 + (x * n + y) as f64, &hist);
                            }
                        }
                        observe(rec, &m, &a, n, n, &|| format!("{} rewritten", hist()));
                        if i % 16 == 0 {
                            refuses_oob(rec, &m, n, n, &hist);
                        }
                    }
                }
                Err(m) => rec.fail("bienvelope-panics", format!("{}: {}", hist(), m)),
            }
            rec.sample(|| hist());
            rec.trace();
        });
    }
    let nf = FAR.len() as u64;
    h.family("far indices", "a 70000x70000 dictionary: every ordered pair of writes at 13x13 places around 2^7, 2^8, 2^15 and 2^16", pow(nf, 4), |i, rec| {
        let mut d = Digits(i);
        let p: Vec<(usize, usize)> = (0..2).map(|_| (*d.pick(&FAR), *d.pick(&FAR))).collect();
        rec.state(&p);
        far_pair(rec, "dictionary", || Dictionary::zeros(70000), &|_, _| Cell::Stored, &p);
    });
    h.family("far rows", "70000x70000 diagonal, envelopes and compressed rows holding every one of 13x13 places around 2^7, 2^8, 2^15 and 2^16", 12, |i, rec| {
        let all: Vec<(usize, usize)> = FAR.iter().flat_map(|&i| FAR.iter().map(move |&j| (i, j))).collect();
        rec.state(i);
        match i {
            0 => far_pair(rec, "diagonal", || Diagonal::zeros(70000), &diagonal, &all),
            1..=5 => {
                // each far row reaches back to the k-th far column
                let k = FAR[[0, 1, 4, 7, 9][i as usize - 1]];
                let width = |r: usize| if FAR.contains(&r) && r >= k { r - k + 1 } else { 1 };
                let env: Vec<usize> = (0..70000).map(width).collect();
                far_pair(rec, &format!("lower envelope back to {}", k), || LowerRowEnvelope::from_envelope(env.clone()), &|i, j| if j <= i && j + width(i) > i { Cell::Stored } else { Cell::Zero }, &all);
            }
            6..=9 => {
                let take: Vec<(usize, usize)> = all.iter().enumerate().filter(|(n, _)| n % 4 != i as usize - 6).map(|x| *x.1).collect();
                let vals: Vec<((usize, usize), f64)> = take.iter().rev().map(|&p| (p, 0.25)).collect();
                far_pair(rec, "compressed row", || CompressedRow::from_labeled_vals((70000, 70000), vals.clone()), &|i, j| if take.contains(&(i, j)) { Cell::Stored } else { Cell::Zero }, &all);
                let got = rec.call(|| {
                    let m = CompressedRow::from_labeled_vals((70000, 70000), vals.clone());
                    let mut rows: Vec<Vec<usize>> = vec![];
                    for r in FAR {
                        let mut c: Vec<usize> = m.row_nzs(r).map(|x| x.0).collect();
                        c.sort();
                        rows.push(c);
                    }
                    (rows, m.row_nzs(2).count() + m.row_nzs(40000).count(), m.non_zero_count())
                });
                let want: Vec<Vec<usize>> = FAR.iter().map(|&r| take.iter().filter(|p| p.0 == r).map(|p| p.1).collect()).collect();
                rec.check(got == Ok((want, 0, take.len())), "far-index", || format!("row_nzs {:?}", got));
            }
            10 => {
                // two-sided rows from 0 to each of the far columns
                let e: Vec<((usize, usize), f64)> = all.iter().filter(|p| p.0 == 69999 || p.0 == p.1 || p.1 == 0).map(|&p| (p, 2.0)).chain((0..70000).map(|i| ((i, i), 1.0))).collect();
                let has = |i: usize, j: usize| i == j || i == 69999 || (FAR.contains(&i) && j <= i);
                far_pair(rec, "two-sided envelope", || {
                    let mut m = BiEnvelope::from(dict(70000, 70000, &e));
                    for p in &all {
                        m.put(*p, 0.0);
                    }
                    m
                }, &|i, j| if has(i, j) { Cell::Stored } else { Cell::Zero }, &all);
            }
            _ => {
                let got = rec.call(|| {
                    let v: Vec<f64> = (0..70000).map(|i| i as f64).collect();
                    let m = Diagonal::from(v);
                    FAR.iter().all(|&i| m[i] == i as f64 && m[(i, i)] == i as f64)
                });
                rec.check(got == Ok(true), "far-index", || format!("diagonal from values {:?}", got));
            }
        }
    });
    h.family("large fills", "triangular matrices, dictionaries and envelopes of dimension 129, 257 and 363 filled completely", 3 * 5, |i, rec| {
        let mut d = Digits(i);
        let (n, k) = ([129, 257, 363][d.take(3)], d.take(5));
        rec.state((n, k));
        match k {
            0 => fill(rec, &mut LowerTriangular::zeros(n), n, n, &lower, &|| format!("lower {}", n)),
            1 => fill(rec, &mut UpperTriangular::zeros(n), n, n, &upper, &|| format!("upper {}", n)),
            2 => fill(rec, &mut Dictionary::zeros((n, 150)), n, 150, &|_, _| Cell::Stored, &|| format!("dictionary {}x150", n)),
            3 => {
                let env: Vec<usize> = (0..n).map(|r| if r % 7 == 3 { r + 1 } else { (r + 1).min(5) }).collect();
                let cell = |i: usize, j: usize| if j <= i && j + env[i] > i { Cell::Stored } else { Cell::Zero };
                fill(rec, &mut LowerRowEnvelope::from_envelope(env.clone()), n, n, &cell, &|| format!("ragged envelope {}", n))
            }
            _ => {
                let env: Vec<usize> = (0..n).map(|r| r + 1).collect();
                fill(rec, &mut LowerRowEnvelope::from_envelope(env), n, n, &lower, &|| format!("full envelope {}", n))
            }
        }
        rec.trace();
    });
    h.finish()
}
