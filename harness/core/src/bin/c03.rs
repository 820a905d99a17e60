//! C03: conversions between storage schemes lose nothing, in any insertion and visiting order.
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

type Entries = Vec<((usize, usize), f64)>;

fn model(r: usize, c: usize, e: &Entries) -> M {
    let mut a = zeros(r, c);
    for &((i, j), v) in e {
        a[i][j] = v
    }
    a
}
fn lower_of(a: &M) -> M {
    let mut b = a.clone();
    for i in 0..b.len() {
        for j in i + 1..b[0].len() {
            b[i][j] = 0.0
        }
    }
    b
}

/// all conversions out of one dictionary
fn from_dictionary(rec: &mut Rec, r: usize, c: usize, e: &Entries) {
    let a = model(r, c, e);
    let hist = || format!("{}x{} {:?}", r, c, e);
    let d = match rec.call(|| dict(r, c, e)) {
        Ok(d) => d,
        Err(m) => {
            rec.fail("dictionary-panics", format!("{}: {}", hist(), m));
            return;
        }
    };
    match rec.call(|| LinearMatrix::from(d.clone())) {
        Ok(m) => {
            observe(rec, &m, &a, r, c, &|| format!("dense from {}", hist()));
        }
        Err(m) => rec.fail("dense-panics", format!("{}: {}", hist(), m)),
    }
    match rec.call(|| CompressedRow::from(d.clone())) {
        Ok(m) => {
            observe(rec, &m, &a, r, c, &|| format!("compressed row from {}", hist()));
            for row in 0..r {
                let got = rec.call(|| {
                    let mut v: Vec<(usize, f64)> = m.row_nzs(row).collect();
                    v.sort_by_key(|x| x.0);
                    v
                });
                let mut want: Vec<(usize, f64)> = e.iter().filter(|x| x.0 .0 == row).map(|x| (x.0 .1, x.1)).collect();
                want.sort_by_key(|x| x.0);
                rec.check(got.as_ref() == Ok(&want), "row-nzs", || format!("{}: row {} {:?}, want {:?}", hist(), row, got, want));
            }
        }
        Err(m) => rec.fail("compressed-row-panics", format!("{}: {}", hist(), m)),
    }
    // bounds computed from the dictionary itself
    let bounds = rec.call(|| d.row_bounds());
    let ok = matches!(&bounds, Ok(b) if b.len() == r && (0..r).all(|i| {
        let cols: Vec<usize> = e.iter().filter(|x| x.0 .0 == i).map(|x| x.0 .1).collect();
        if cols.is_empty() { b[i].0 >= b[i].1 } else { b[i] == (*cols.iter().min().unwrap(), cols.iter().max().unwrap() + 1) }
    }));
    rec.check(ok, "row-bounds", || format!("{}: {:?}", hist(), bounds));
    if r != c {
        return;
    }
    let env: Vec<usize> = (0..r).map(|i| e.iter().filter(|x| x.0 .0 == i && x.0 .1 <= i).map(|x| i - x.0 .1 + 1).max().unwrap_or(0)).collect();
    let got = rec.call(|| d.envelope());
    rec.check(got.as_ref() == Ok(&env), "envelope", || format!("{}: envelope {:?}, want {:?}", hist(), got, env));
    let got = rec.call(|| LowerRowEnvelope::from(d.clone()));
    if env.iter().all(|&x| x > 0) {
        match got {
            Ok(m) => {
                observe(rec, &m, &lower_of(&a), r, c, &|| format!("lower envelope from {}", hist()));
                rec.check(m.envelope() == env, "envelope-kept", || format!("{}: {:?}", hist(), m.envelope()));
            }
            Err(m) => rec.fail("lower-envelope-panics", format!("{}: {}", hist(), m)),
        }
    } else {
        // a row with nothing to store cannot be represented: refused, or represented faithfully
        if let Ok(m) = got {
            observe(rec, &m, &lower_of(&a), r, c, &|| format!("lower envelope from {}", hist()));
        }
    }
    match rec.call(|| BiEnvelope::from(d.clone())) {
        Ok(b) => {
            observe(rec, &b, &a, r, c, &|| format!("two-sided envelope from {}", hist()));
            let spans = (0..r).all(|i| {
                let cols: Vec<usize> = e.iter().filter(|x| x.0 .0 == i).map(|x| x.0 .1).collect();
                !cols.is_empty() && *cols.iter().min().unwrap() <= i && *cols.iter().max().unwrap() >= i
            });
            let got = rec.call(|| LowerRowEnvelope::from_bienv(&b));
            match got {
                Ok(l) => {
                    observe(rec, &l, &lower_of(&a), r, c, &|| format!("lower from two-sided from {}", hist()));
                    if spans {
                        // it can be used like any other envelope: overwriting reads back
                        let mut l2 = l.clone();
                        let mut want = lower_of(&a);
                        for i in 0..r {
                            l2.put((i, i), 100.0 + i as f64);
                            want[i][i] = 100.0 + i as f64;
                        }
                        observe(rec, &l2, &want, r, c, &|| format!("lower from two-sided rewritten from {}", hist()));
                    }
                }
                Err(m) => {
                    rec.check(!spans, "from-bienv-panics", || format!("{}: {}", hist(), m));
                }
            }
        }
        Err(m) => rec.fail("two-sided-panics", format!("{}: {}", hist(), m)),
    }
}

fn from_flat_all(rec: &mut Rec, r: usize, c: usize, a: &M) {
    let flat: Vec<f64> = a.iter().flatten().cloned().collect();
    let hist = || format!("{}x{} flat {:?}", r, c, flat);
    macro_rules! one {
        ($t:ty, $w:expr) => {
            match rec.call(|| <$t>::from_flat((r, c), flat.clone())) {
                Ok(m) => {
                    observe(rec, &m, a, r, c, &|| format!("{} {}", $w, hist()));
                    // and on into every other scheme that can be built from flat data
                    match rec.call(|| (LinearMatrix::from_flat((r, c), m.flat().cloned()), CompressedRow::from_flat((r, c), m.flat().cloned()), Dictionary::from_flat((r, c), m.flat().cloned()))) {
                        Ok((x, y, z)) => {
                            observe(rec, &x, a, r, c, &|| format!("{} to dense {}", $w, hist()));
                            observe(rec, &y, a, r, c, &|| format!("{} to compressed row {}", $w, hist()));
                            observe(rec, &z, a, r, c, &|| format!("{} to dictionary {}", $w, hist()));
                        }
                        Err(e) => rec.fail("from-flat-panics", format!("{} {}: {}", $w, hist(), e)),
                    }
                }
                Err(e) => rec.fail("from-flat-panics", format!("{} {}: {}", $w, hist(), e)),
            }
        };
    }
    one!(LinearMatrix, "dense");
    one!(CompressedRow, "compressed row");
    one!(Dictionary, "dictionary");
    if r == c {
        let low = lower_of(a);
        let has_upper = low != *a;
        let empty_row = low.iter().any(|x| x.iter().all(|&v| v == 0.0));
        let got = rec.call(|| LowerRowEnvelope::from_flat((r, c), flat.clone()));
        match got {
            Ok(m) => {
                rec.check(!has_upper, "upper-accepted", || hist());
                observe(rec, &m, &low, r, c, &|| format!("lower envelope {}", hist()));
            }
            Err(e) => {
                rec.check(has_upper || empty_row, "from-flat-panics", || format!("lower envelope {}: {}", hist(), e));
            }
        }
    }
}

fn main() {
    let mut h = Harness::new("C03");
    h.assume("every pattern up to 3x3 and 2x4/4x2 with distinct values; all insertion orders up to 4 entries, all visiting orders up to 3 entries, first-entry deviations beyond; dimensions to 14 by structured patterns");
    let shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)];
    for &(r, c) in &shapes {
        h.family(&format!("patterns {}x{}", r, c), "every sparsity pattern, values of 8 sizes; flat data and dictionary into every scheme", 1 << (r * c), |i, rec| {
            let e: Entries = (0..r * c).filter(|k| i >> k & 1 == 1).map(|k| ((k / c, k % c), 1.5 + k as f64)).collect();
            rec.state(i);
            for size in 0..SIZES {
                let e: Entries = e.iter().enumerate().map(|(k, x)| (x.0, x.1 * sized(size, k))).collect();
                from_dictionary(rec, r, c, &e);
                from_flat_all(rec, r, c, &model(r, c, &e));
            }
            // stored zeros count as entries
            let z: Entries = e.iter().enumerate().map(|(k, x)| (x.0, if k % 2 == 0 { 0.0 } else { x.1 })).collect();
            from_dictionary(rec, r, c, &z);
            rec.sample(|| format!("{:?}", e));
            rec.trace();
        });
        h.family(&format!("orders {}x{}", r, c), "every sparsity pattern x every insertion order (<= 4 entries) x hash visiting orders (all up to 3 entries, 2 deviations beyond)", 1 << (r * c), |i, rec| {
            let e: Entries = (0..r * c).filter(|k| i >> k & 1 == 1).map(|k| ((k / c, k % c), 1.5 + k as f64)).collect();
            let n = e.len();
            let orders = if n <= 4 { permutations(n) } else { vec![(0..n).collect(), (0..n).rev().collect()] };
            for o in orders {
                let x: Entries = o.iter().map(|&k| e[k]).collect();
                from_dictionary(rec, r, c, &x);
            }
            let (mode, bound, cap) = if n <= 3 { (Mode::Full, 64, 2000) } else { (Mode::Front, if rec.thorough() { 2 } else { 1 }, 2000) };
            rec.explore(mode, bound, cap, |rec| {
                let d = dict(r, c, &e);
                let a = model(r, c, &e);
                // one conversion at a time keeps the number of choice points small
                observe(rec, &LinearMatrix::from(d.clone()), &a, r, c, &|| format!("dense from {:?}", e));
                observe(rec, &CompressedRow::from(d.clone()), &a, r, c, &|| format!("compressed row from {:?}", e));
                rec.trace();
            });
            if r == c {
                rec.explore(mode, bound, cap, |rec| {
                    let d = dict(r, c, &e);
                    let a = model(r, c, &e);
                    observe(rec, &BiEnvelope::from(d.clone()), &a, r, c, &|| format!("two-sided from {:?}", e));
                    let diag = (0..r).all(|i| e.iter().any(|x| x.0 .0 == i && x.0 .1 <= i));
                    if diag {
                        observe(rec, &LowerRowEnvelope::from(d), &lower_of(&a), r, c, &|| format!("lower from {:?}", e));
                    }
                    rec.trace();
                });
            }
            rec.state((1, i));
        });
    }
    if h.thorough() {
        h.family("patterns 4x4", "every sparsity pattern", 1 << 16, |i, rec| {
            let e: Entries = (0..16).filter(|k| i >> k & 1 == 1).map(|k| ((k / 4, k % 4), 1.5 + k as f64)).collect();
            rec.state(i);
            from_dictionary(rec, 4, 4, &e);
            from_flat_all(rec, 4, 4, &model(4, 4, &e));
            rec.trace();
        });
    }
    h.family("patterns 4x4 with diagonal", "every lower/upper pattern of a 4x4 matrix whose diagonal is stored", 1 << 12, |i, rec| {
        let mut k = 0;
        let mut e: Entries = vec![];
        for r in 0..4 {
            for c in 0..4 {
                if r == c {
                    e.push(((r, c), 10.0 + r as f64))
                } else {
                    if i >> k & 1 == 1 {
                        e.push(((r, c), 1.5 + k as f64))
                    }
                    k += 1;
                }
            }
        }
        rec.state(i);
        from_dictionary(rec, 4, 4, &e);
        from_flat_all(rec, 4, 4, &model(4, 4, &e));
        rec.trace();
    });
    h.family("structured patterns", "n in 5..14, 8 pattern kinds, square and rectangular", 10 * 8 * 3, |i, rec| {
        let mut d = Digits(i);
        let n = d.take(10) + 5;
        let kind = d.take(8);
        let c = [n, n + 3, n - 2][d.take(3)];
        let e: Entries = (0..n)
            .flat_map(|x| (0..c).map(move |y| (x, y)))
            .filter(|&(x, y)| match kind {
                0 => x.abs_diff(y) <= 1,
                1 => x.abs_diff(y) <= 3,
                2 => x == y || x == 0 || y == 0,
                3 => x == y || x + 1 == n || y + 1 == c,
                4 => (x * 5 + y * 3) % 7 < 2 || x == y,
                5 => (x * 5 + y * 3) % 7 < 2,
                6 => x % 3 != 1 && (x + y) % 2 == 0,
                _ => true,
            })
            .map(|(x, y)| ((x, y), (1.0 + (x * c + y) as f64) * sized(i % 11, x * c + y)))
            .collect();
        rec.state((n, kind, c));
        from_dictionary(rec, n, c, &e);
        let mut rev = e.clone();
        rev.reverse();
        from_dictionary(rec, n, c, &rev);
        from_flat_all(rec, n, c, &model(n, c, &e));
        rec.explore(Mode::Front, 0, 1, |rec| from_dictionary(rec, n, c, &e));
        rec.explore(Mode::Reversed, 0, 1, |rec| from_dictionary(rec, n, c, &e));
        rec.trace();
    });
    let large: [(usize, usize); 10] = [(65, 65), (129, 129), (257, 257), (300, 300), (300, 70), (70, 300), (2, 66000), (66000, 2), (1, 70000), (70000, 1)];
    h.family("large patterns", "ten shapes from 65x65 to 70000x1, 5 pattern kinds, three insertion orders", 10 * 5 * 3, |i, rec| {
        let mut d = Digits(i);
        let ((r, c), kind, order) = (large[d.take(10)], d.take(5), d.take(3));
        let far = |k: usize| [0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537].contains(&k) || k + 1 == r.max(c);
        let mut e: Entries = (0..r)
            .flat_map(|x| (0..c).map(move |y| (x, y)))
            .filter(|&(x, y)| match kind {
                0 => x.abs_diff(y) <= 1,
                1 => x == y || x % 64 == 0 && y % 64 == 0,
                2 => (x * 5 + y * 3) % 97 < 2 || x == y,
                3 => far(x) && far(y),
                _ => x == y || far(x) && (x + y) % 3 == 0,
            })
            .map(|(x, y)| ((x, y), (1.0 + (x * c + y) as f64) * sized(i % 11, x * c + y)))
            .collect();
        match order {
            1 => e.reverse(),
            2 => e.sort_by_key(|x| ((x.0 .0 * 7919 + x.0 .1 * 104729) % 65537, x.0)),
            _ => (),
        }
        rec.state((r, c, kind, order));
        let a = model(r, c, &e);
        let what = || format!("{}x{} pattern {} order {}", r, c, kind, order);
        let square = r == c;
        let got = rec.call(|| {
            let d = dict(r, c, &e);
            (LinearMatrix::from(d.clone()), CompressedRow::from(d.clone()), d)
        });
        match got {
            Err(m) => rec.fail("large-panics", format!("{}: {}", what(), m)),
            Ok((l, m, d)) => {
                observe(rec, &l, &a, r, c, &|| format!("dense from {}", what()));
                if c < 1000 {
                    observe(rec, &m, &a, r, c, &|| format!("compressed row from {}", what()));
                } else {
                    let got = rec.call(|| (0..r).all(|x| (0..c).all(|y| m[(x, y)] == a[x][y])));
                    rec.check(got == Ok(true), "large-compressed-row", || what());
                }
                let cells: Vec<f64> = a.iter().flatten().copied().collect();
                let got = rec.call(|| (LinearMatrix::from_flat((r, c), cells.clone()) == l, CompressedRow::from_flat((r, c), cells.clone()).row_nzs(r - 1).count()));
                rec.check(got == Ok((true, a[r - 1].iter().filter(|x| **x != 0.0).count())), "large-from-flat", || format!("{}: {:?}", what(), got));
                if square {
                    let low = lower_of(&a);
                    let got = rec.call(|| (BiEnvelope::from(d.clone()), d.envelope(), LowerRowEnvelope::from(d.clone())));
                    let first: Vec<usize> = (0..r).map(|x| (0..=x).find(|&y| a[x][y] != 0.0).map_or(0, |y| x - y + 1)).collect();
                    if first.iter().any(|x| *x == 0) {
                        return;
                    }
                    match got {
                        Err(m) => rec.fail("large-panics", format!("{}: {}", what(), m)),
                        Ok((b, env, lo)) => {
                            observe(rec, &b, &a, r, c, &|| format!("two-sided from {}", what()));
                            observe(rec, &lo, &low, r, c, &|| format!("lower envelope from {}", what()));
                            rec.check(env == first, "envelope", || format!("{}: {:?}", what(), env));
                            match rec.call(|| LowerRowEnvelope::from_bienv(&b)) {
                                Err(m) => rec.fail("large-panics", format!("{}: {}", what(), m)),
                                Ok(l) => {
                                    observe(rec, &l, &low, r, c, &|| format!("lower from two-sided from {}", what()));
                                }
                            }
                        }
                    }
                }
            }
        }
        rec.trace();
    });
    h.finish()
}
