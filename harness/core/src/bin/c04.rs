//! C04: products, sums, transposes and reindexings equal their textbook definition exactly.
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

struct Outer<'a> {
    rec: &'a mut Rec,
    a: &'a M,
    b: &'a M,
    ka: usize,
    kinds: &'a [usize],
}
struct Inner<'a, A: MatrixLike> {
    rec: &'a mut Rec,
    left: &'a A,
    a: &'a M,
    b: &'a M,
    ka: usize,
    kb: usize,
}
impl<'a> Visitor for Outer<'a> {
    fn go<T: MatrixLike>(&mut self, m: &T) {
        for &kb in self.kinds {
            let mut i = Inner { rec: self.rec, left: m, a: self.a, b: self.b, ka: self.ka, kb };
            with(kb, self.b, &mut i);
        }
    }
}
impl<'a, A: MatrixLike> Visitor for Inner<'a, A> {
    fn go<T: MatrixLike>(&mut self, right: &T) {
        let (ka, kb, a, b) = (self.ka, self.kb, self.a, self.b);
        if a[0].len() != b.len() {
            let l = self.left;
            let r = self.rec.call(|| {
                let p: LinearMatrix = l.mul(right);
                p.shape()
            });
            self.rec.check(r.is_err(), "incompatible-accepted", || format!("{} {:?} times {} {:?} gave {:?}", KINDS[ka], a, KINDS[kb], b, r));
            return;
        }
        let want = la::mul(a, b);
        let l = self.left;
        let got = self.rec.call(|| {
            let x: LinearMatrix = l.mul(right);
            let y: CompressedRow = l.mul(right);
            let z: Dictionary = l.mul(right);
            (read(&x), read(&y), read(&z))
        });
        match got {
            Ok((x, y, z)) => {
                let ok = x == want && y == want && z == want;
                self.rec.check(ok, "product", || format!("{} {:?} times {} {:?}: dense {:?}, compressed {:?}, dictionary {:?}, want {:?}", KINDS[ka], a, KINDS[kb], b, x, y, z, want));
            }
            Err(e) => self.rec.fail("product-panics", format!("{} {:?} times {} {:?}: {}", KINDS[ka], a, KINDS[kb], b, e)),
        }
    }
}

fn products(rec: &mut Rec, a: &M, b: &M, left: &[usize], right: &[usize]) {
    for &ka in left {
        let mut o = Outer { rec, a, b, ka, kinds: right };
        with(ka, a, &mut o);
    }
}

fn dict_product(rec: &mut Rec, a: &M, b: &M, x: &Dictionary, y: &Dictionary) {
    let got = rec.call(|| {
        let p = x.mul_dict(y);
        (p.shape(), read(&p))
    });
    if a[0].len() != b.len() {
        rec.check(got.is_err(), "incompatible-accepted", || format!("mul_dict {:?} times {:?} gave {:?}", a, b, got));
        return;
    }
    let want = la::mul(a, b);
    rec.check(got == Ok(((a.len(), b[0].len()), want.clone())), "mul-dict", || format!("{:?} times {:?}: {:?}, want {:?}", a, b, got, want));
}

fn unary(rec: &mut Rec, a: &M) {
    let (r, c) = (a.len(), a[0].len());
    // transposed copies of sparse matrices
    let d = dict_of(a);
    let t = tr(a);
    match rec.call(|| d.transposed()) {
        Ok(x) => {
            observe(rec, &x, &t, c, r, &|| format!("transposed copy of {:?}", a));
            let back = rec.call(|| x.transposed());
            if let Ok(back) = back {
                observe(rec, &back, a, r, c, &|| format!("transposed twice {:?}", a));
                rec.check(back == d, "transposed-twice", || format!("{:?}", a));
            } else {
                rec.fail("transposed-panics", format!("{:?}", a));
            }
            // the original is not changed
            observe(rec, &d, a, r, c, &|| format!("original after transposed copy of {:?}", a));
            // a a' through the copy
            dict_product(rec, a, &t, &d, &x);
            dict_product(rec, &t, a, &x, &d);
            // stored entries of the copy can be overwritten and new ones added
            let mut y = x.clone();
            let mut w = t.clone();
            let ok = rec.call(|| {
                for i in 0..c {
                    for j in 0..r {
                        y[(i, j)] = (i * 7 + j) as f64 + 0.5;
                        w[i][j] = (i * 7 + j) as f64 + 0.5;
                    }
                }
            });
            rec.check(ok.is_ok(), "transposed-write", || format!("{:?}: {:?}", a, ok));
            observe(rec, &y, &w, c, r, &|| format!("rewritten transposed copy of {:?}", a));
        }
        Err(e) => rec.fail("transposed-panics", format!("{:?}: {}", a, e)),
    }
    // in-place transposition where the scheme offers it
    for layout in 0..2 {
        let mut m = if layout == 0 {
            dense(a)
        } else {
            let mut m = dense(&t);
            m.transpose();
            m
        };
        if rec.call(|| m.transpose()).is_ok() {
            observe(rec, &m, &t, c, r, &|| format!("dense transpose of {:?}", a));
        } else {
            rec.fail("transpose-panics", format!("{:?}", a));
        }
    }
    struct Norms<'a> {
        rec: &'a mut Rec,
        a: &'a M,
        kind: usize,
    }
    impl<'a> Visitor for Norms<'a> {
        fn go<T: MatrixLike>(&mut self, m: &T) {
            let a = self.a;
            let want = a.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
            let got = self.rec.call(|| m.frobenius());
            self.rec.check(got == Ok(want), "frobenius", || format!("{} {:?}: {:?}, want {}", KINDS[self.kind], a, got, want));
            for i in 0..a.len() {
                for j in 0..a.len() {
                    let got = self.rec.call(|| dot(m.row(i), m.row(j)));
                    let want = la::dot(&a[i], &a[j]);
                    self.rec.check(got == Ok(want), "dot", || format!("{} {:?} rows {} {}: {:?}, want {}", KINDS[self.kind], a, i, j, got, want));
                }
            }
            // sums: exact or refused, never wrong
            let mut s = m.clone();
            if self.rec.call(|| s.add_ass(m)).is_ok() {
                let w: M = a.iter().map(|r| r.iter().map(|x| 2.0 * x).collect()).collect();
                let got = self.rec.call(|| read(&s));
                self.rec.check(got.as_ref() == Ok(&w), "sum", || format!("{} {:?}: {:?}", KINDS[self.kind], a, got));
                let mut s2 = s.clone();
                if self.rec.call(|| s2.sub_ass(m)).is_ok() {
                    let got = self.rec.call(|| read(&s2));
                    self.rec.check(got.as_ref() == Ok(a), "difference", || format!("{} {:?}: {:?}", KINDS[self.kind], a, got));
                }
            } else {
                self.rec.check(![0, 1, 4, 5, 11].contains(&self.kind), "sum-panics", || format!("{} {:?}", KINDS[self.kind], a));
            }
        }
    }
    for kind in 0..KINDS.len() {
        with(kind, a, &mut Norms { rec, a, kind });
    }
    // edges of the connection graph
    let e = rec.call(|| {
        let mut e: Vec<_> = d.edges().collect();
        e.sort();
        let mut l: Vec<_> = d.edges_lower().collect();
        l.sort();
        (e, l)
    });
    let we: Vec<_> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|&(i, j)| a[i][j] != 0.0).collect();
    match e {
        Ok((e, l)) => {
            rec.check(e == we, "edges", || format!("{:?}: {:?}", a, e));
            // one triangle with the diagonal: enough to know a symmetric pattern
            let up: Vec<_> = we.iter().cloned().filter(|x| x.0 <= x.1).collect();
            let lo: Vec<_> = we.iter().cloned().filter(|x| x.0 >= x.1).collect();
            rec.check(l == up || l == lo, "edges-lower", || format!("{:?}: {:?}", a, l));
        }
        Err(e) => rec.fail("edges-panics", format!("{:?}: {}", a, e)),
    }
}

fn masks(rec: &mut Rec, a: &M) {
    let n = a.len();
    let d = dict_of(a);
    for m in 0..1u32 << n {
        let mask: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
        let keep: Vec<usize> = (0..n).filter(|&i| mask[i]).collect();
        let want: M = keep.iter().map(|&i| keep.iter().map(|&j| a[i][j]).collect()).collect();
        match rec.call(|| d.clone().mask(&mask)) {
            Ok(x) => {
                let k = keep.len();
                if k > 0 {
                    observe(rec, &x, &want, k, k, &|| format!("{:?} masked by {:?}", a, mask));
                } else {
                    rec.check(x.shape() == (0, 0), "mask-shape", || format!("{:?}", x.shape()));
                }
            }
            Err(e) => rec.fail("mask-panics", format!("{:?} masked by {:?}: {}", a, mask, e)),
        }
    }
    for bad in [n - 1, n + 1] {
        let r = rec.call(|| d.clone().mask(&vec![true; bad]).shape());
        rec.check(r.is_err(), "mask-length-accepted", || format!("{}x{} masked by {} flags: {:?}", n, n, bad, r));
    }
}

/// every permutation of 0..n that reordering can produce, together with the inverses
fn all_perms(n: usize) -> Vec<Permutation> {
    let mut out: Vec<Permutation> = vec![Permutation::identity(n)];
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    for code in 0..1u64 << pairs.len() {
        let e: Vec<_> = pairs.iter().enumerate().filter(|(k, _)| code >> k & 1 == 1).map(|x| *x.1).collect();
        let p = Graph::from_edges(n, e.into_iter()).reverse_cuthill_mckee();
        let inv = p.clone().invert();
        for q in [p, inv] {
            if !out.contains(&q) {
                out.push(q)
            }
        }
    }
    out
}

fn permutes(rec: &mut Rec, a: &M, p: &Permutation) {
    let n = a.len();
    let mut d = dict_of(a);
    let before = d.clone();
    if let Err(e) = rec.call(|| d.permute(p)) {
        rec.fail("permute-panics", format!("{:?} by {:?}: {}", a, p, e));
        return;
    }
    let mut want = zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            want[p.permute(i)][p.permute(j)] = a[i][j]
        }
    }
    observe(rec, &d, &want, n, n, &|| format!("{:?} permuted by {:?}", a, p));
    // consistent with permuting vectors: (P A P') (P x) = P (A x)
    let x: Vec<f64> = (0..n).map(|i| (i * i + 1) as f64).collect();
    let mut px = x.clone();
    p.permute_slice(&mut px);
    let mut pax = la::mulv(a, &x);
    p.permute_slice(&mut pax);
    let got = rec.call(|| la::mulv(&read(&d), &px));
    rec.check(got.as_ref() == Ok(&pax), "permute-inconsistent", || format!("{:?} by {:?}: {:?} vs {:?}", a, p, got, pax));
    let inv = p.clone().invert();
    if rec.call(|| d.permute(&inv)).is_ok() {
        rec.check(d == before, "permute-back", || format!("{:?} by {:?} and back gave {:?}", a, p, read(&d)));
    } else {
        rec.fail("permute-panics", format!("{:?} by {:?} back", a, p));
    }
}

fn scaled_add(rec: &mut Rec, env: &[usize], rows: &[(usize, usize)], scale: f64, (e, f): (i32, i32)) {
    // the matrix in units of 2^e, the added one of 2^f
    let (p, q) = (2f64.powi(e), 2f64.powi(f));
    let scale = scale * p / q;
    let n = env.len();
    let mut l = LowerRowEnvelope::from_envelope(env.to_vec());
    let mut a = zeros(n, n);
    for i in 0..n {
        for j in i + 1 - env[i]..=i {
            let v = ((i * n + j) as f64 + 1.0) * p;
            l[(i, j)] = v;
            a[i][j] = v;
        }
    }
    let mut b = zeros(n, n);
    for i in 0..n {
        for j in rows[i].0..rows[i].1 {
            b[i][j] = (((i * 5 + j * 3) % 7) as f64 + 1.0) * q
        }
    }
    let bm = BiEnvelope::from(dict_of(&b));
    let fits = (0..n).all(|i| rows[i].0 == rows[i].1 || rows[i].0 >= i + 1 - env[i] || rows[i].0 > i);
    let got = rec.call(|| {
        l.add_scaled_bienv(&bm, scale);
        l
    });
    match got {
        Ok(l) => {
            if rec.check(fits, "left-of-envelope-accepted", || format!("envelope {:?}, added rows {:?}", env, rows)) {
                let mut w = a.clone();
                for i in 0..n {
                    for j in 0..=i {
                        w[i][j] += scale * b[i][j]
                    }
                }
                observe(rec, &l, &w, n, n, &|| format!("envelope {:?} plus {} times rows {:?}", env, scale, rows));
                rec.check(l.envelope() == env, "envelope-changed", || format!("{:?}", env));
            }
        }
        Err(e) => {
            rec.check(!fits, "scaled-add-panics", || format!("envelope {:?} plus rows {:?}: {}", env, rows, e));
        }
    }
}

/// the same with any scale, each entry to the rounding of one product and one sum
fn rough_add(rec: &mut Rec, env: &[usize], rows: &[(usize, usize)], scale: f64) {
    let n = env.len();
    let mut l = LowerRowEnvelope::from_envelope(env.to_vec());
    let mut b = zeros(n, n);
    let first = |i: usize, j: usize| ((i * 13 + j * 7) % 101) as f64 / 3.0 - 11.0;
    for i in 0..n {
        for j in i + 1 - env[i]..=i {
            l[(i, j)] = first(i, j);
        }
        for j in rows[i].0..rows[i].1 {
            b[i][j] = ((i * 5 + j * 3) % 17) as f64 / 7.0 + 0.1
        }
    }
    let bm = BiEnvelope::from(dict_of(&b));
    let got = rec.call(|| {
        l.add_scaled_bienv(&bm, scale);
        for i in 0..n {
            for j in 0..n {
                let had = if j <= i && j + env[i] > i { first(i, j) } else { 0.0 };
                let add = if j <= i { b[i][j] * scale } else { 0.0 };
                let x = l.get((i, j)).cloned();
                if !x.is_some_and(|x| (x - (had + add)).abs() <= 4e-16 * (had.abs() + add.abs())) {
                    return Some((i, j, x, had, add));
                }
            }
        }
        None
    });
    rec.check(got == Ok(None), "scaled-add", || format!("{} rows plus {} times: (row, column, found, was, added) {:?}", n, scale, got));
}

fn mat_vec(rec: &mut Rec, a: &M) {
    let n = a.len();
    let b = BiEnvelope::from(dict_of(a));
    for k in 0..n + 3 {
        let x: Vec<f64> = (0..n).map(|i| if k < n { (i == k) as u8 as f64 } else { ((i * (k + 1) + 2) % 5) as f64 - 2.0 }).collect();
        let want = la::mulv(a, &x);
        // the output is overwritten, whatever was there
        let got = rec.call(|| {
            let mut y = vec![99.0; n];
            b.mul_vec(&x, &mut y);
            y
        });
        rec.check(got.as_ref() == Ok(&want), "mul-vec", || format!("{:?} times {:?}: {:?}, want {:?}", a, x, got, want));
    }
    for (lx, ly) in [(n + 1, n + 1), (n, n + 1), (n + 1, n)] {
        let r = rec.call(|| {
            let mut y = vec![0.0; ly];
            b.mul_vec(&vec![1.0; lx], &mut y)
        });
        rec.check(r.is_err(), "incompatible-accepted", || format!("{}x{} times vector {} into {}", n, n, lx, ly));
    }
}

/// which sizes case `i` gets: half the cases keep plain values
fn which(i: u64) -> u64 {
    (i + 1).wrapping_mul(0x9e3779b97f4a7c15) >> 60
}
/// the factors of a product with every row, column and inner index in a unit of its own:
/// all products stay exact
fn graded(a: M, b: M, z: u64) -> (M, M) {
    let (r, s, c): ([i32; 3], [i32; 3], [i32; 3]) = match z {
        0..=7 => return (a, b),
        8 => ([-60; 3], [0; 3], [-50; 3]),
        9 => ([70; 3], [0; 3], [-300; 3]),
        10 => ([0; 3], [-90; 3], [0; 3]),
        11 => ([0, -60, 50], [0; 3], [-45, 0, 0]),
        12 => ([0; 3], [0, 45, -70], [0; 3]),
        13 => ([-40, 0, 0], [50, 0, -50], [0, 0, -60]),
        14 => ([0; 3], [0; 3], [0, -50, 50]),
        _ => ([50, 0, -80], [-70, 0, 40], [0, 60, -100]),
    };
    let f = |m: M, p: [i32; 3], q: [i32; 3], sign: i32| -> M { m.iter().enumerate().map(|(i, v)| v.iter().enumerate().map(|(j, x)| x * 2f64.powi(p[i % 3]) * 2f64.powi(sign * q[j % 3])).collect()).collect() };
    (f(a, r, s, -1), f(b, s, c, 1))
}
/// the rows in units of their own
fn by_rows(a: M, z: u64) -> M {
    let n = a[0].len();
    graded(a, la::eye(n), z & !2 & !4).0
}
fn by_place(a: M, z: u64) -> M {
    let z = z.saturating_sub(7);
    a.iter().enumerate().map(|(i, v)| v.iter().enumerate().map(|(j, x)| x * sized(z, i * 7 + j)).collect()).collect()
}
fn uniform(a: M, z: u64) -> M {
    let f = 2f64.powi([0, 0, 0, 0, 0, 0, 0, 0, -60, -45, -400, 70, 300, -30, -40, -120][z as usize]);
    a.iter().map(|v| v.iter().map(|x| x * f).collect()).collect()
}

fn pattern(r: usize, c: usize, code: u64, sign: bool) -> M {
    (0..r).map(|i| (0..c).map(|j| if code >> (i * c + j) & 1 == 1 { (if sign && (i + j) % 2 == 1 { -1.0 } else { 1.0 }) * (i * c + j + 1) as f64 } else { 0.0 }).collect()).collect()
}
/// structured pattern number `kind` of 12
fn structured(r: usize, c: usize, kind: usize) -> M {
    (0..r)
        .map(|x| {
            (0..c)
                .map(|y| {
                    let on = match kind {
                        0 => x == y,
                        1 => x.abs_diff(y) <= 1,
                        2 => x == y || x == 0 || y == 0,
                        3 => (x * 5 + y * 3) % 7 < 2,
                        4 => x % 3 != 1 && (x + y) % 2 == 0,
                        5 => x >= y,
                        6 => x <= y,
                        7 => x + y + 1 == r.max(c),
                        8 => y + 1 == c,
                        9 => x == 0,
                        10 => x >= y && x < y + 3,
                        _ => true,
                    };
                    if on {
                        ((x * 3 + y * 5) % 11) as f64 - 4.5
                    } else {
                        0.0
                    }
                })
                .collect()
        })
        .collect()
}

/// sums and differences in every operator form, both layouts on either side
fn sums(rec: &mut Rec, a: &M, b: &M) {
    let (r, c) = (a.len(), a[0].len());
    let zip = |f: &dyn Fn(f64, f64) -> f64| -> M { (0..r).map(|i| (0..c).map(|j| f(a[i][j], b[i][j])).collect()).collect() };
    let (plus, minus) = (zip(&|x, y| x + y), zip(&|x, y| x - y));
    let lay = |m: &M, l: usize| {
        if l == 0 {
            dense(m)
        } else {
            let mut t = dense(&tr(m));
            t.transpose();
            t
        }
    };
    for l in 0..4 {
        let (x, y) = (lay(a, l % 2), lay(b, l / 2));
        let forms: [(&str, &M, Result<M, String>); 5] = [
            ("x + y", &plus, rec.call(|| read(&(&x + &y)))),
            ("x - y", &minus, rec.call(|| read(&(&x - &y)))),
            ("x += y", &plus, rec.call(|| {
                let mut z = x.clone();
                z += y.clone();
                read(&z)
            })),
            ("x.add_ass(y)", &plus, rec.call(|| {
                let mut z = x.clone();
                z.add_ass(&y);
                read(&z)
            })),
            ("x.sub_ass(y)", &minus, rec.call(|| {
                let mut z = x.clone();
                z.sub_ass(&y);
                read(&z)
            })),
        ];
        for (what, want, got) in forms {
            rec.check(got.as_ref() == Ok(want), "sum", || format!("{} of {:?} and {:?}, layouts {} {}: {:?}", what, a, b, l % 2, l / 2, got));
        }
        // scaled and shifted in place
        let got = rec.call(|| {
            let mut z = x.clone();
            z *= -2.0;
            z += 0.5;
            read(&z)
        });
        let want: M = a.iter().map(|r| r.iter().map(|x| x * -2.0 + 0.5).collect()).collect();
        rec.check(got.as_ref() == Ok(&want), "scaled", || format!("{:?} layout {}: {:?}", a, l % 2, got));
    }
    // other schemes: the sum, or a refusal where the scheme cannot hold it, never something else
    fn pair<T: MatrixLike>(rec: &mut Rec, name: &str, must: bool, x: T, y: T, (a, b): (&M, &M), plus: &M, minus: &M) {
        for (what, want) in [("add_ass", plus), ("sub_ass", minus)] {
            let got = rec.call(|| {
                let mut z = x.clone();
                if what == "add_ass" {
                    z.add_ass(&y)
                } else {
                    z.sub_ass(&y)
                }
                read(&z)
            });
            rec.check((!must && got.is_err()) || got.as_ref() == Ok(want), "sum", || format!("{} {:?} {} {:?}: {:?}", name, a, what, b, got));
        }
    }
    let (p, q) = (&plus, &minus);
    let flat = |m: &M| m.iter().flatten().cloned().collect::<Vec<f64>>();
    pair(rec, "dictionary", true, dict_of(a), dict_of(b), (a, b), p, q);
    pair(rec, "compressed-row", false, CompressedRow::from_flat((r, c), flat(a)), CompressedRow::from(dict_of(b)), (a, b), p, q);
    if (r, c) == (2, 3) {
        pair(rec, "fixed", true, ConstMatrix::<6>::from_flat((r, c), flat(a)), ConstMatrix::<6>::from_flat((r, c), flat(b)), (a, b), p, q);
    }
    if r == c {
        pair(rec, "two-sided", false, BiEnvelope::from(dict_of(a)), BiEnvelope::from(dict_of(b)), (a, b), p, q);
    }
    if is_lower(a) && is_lower(b) && (0..r).all(|i| a[i][i] != 0.0 && b[i][i] != 0.0) {
        pair(rec, "lower-envelope", false, LowerRowEnvelope::from_flat((r, c), flat(a)), LowerRowEnvelope::from_flat((r, c), flat(b)), (a, b), p, q);
    }
}

fn main() {
    let mut h = Harness::new("C04");
    h.assume("data are small integers or halves, in half the cases with every row, column and inner index in a unit of its own (powers of two from 2^-400 to 2^300), so every product and sum is exact in double precision");
    let vals = [-1.0, 0.0, 2.0];
    let sq2: Vec<M> = (0..81).map(|i| { let mut d = Digits(i); (0..2).map(|_| (0..2).map(|_| vals[d.take(3)]).collect()).collect() }).collect();
    let all: Vec<usize> = (0..KINDS.len()).collect();
    let general = [0usize, 1, 2, 4];
    h.family("2x2 products", "every pair of 2x2 matrices over {-1,0,2} in every pair of storage schemes, into dense, compressed and dictionary results", 81 * 81, |i, rec| {
        let (a, b) = graded(sq2[(i / 81) as usize].clone(), sq2[(i % 81) as usize].clone(), which(i));
        rec.state(i);
        products(rec, &a, &b, &all, &all);
        dict_product(rec, &a, &b, &dict_of(&a), &dict_of(&b));
        rec.sample(|| format!("{:?} x {:?}", a, b));
        rec.trace();
    });
    let shapes: Vec<((usize, usize), (usize, usize))> = vec![((1, 2), (2, 3)), ((3, 2), (2, 1)), ((2, 3), (3, 2)), ((1, 3), (3, 1)), ((3, 1), (1, 3)), ((2, 1), (1, 2)), ((1, 1), (1, 3)), ((3, 1), (1, 1)), ((2, 2), (2, 3)), ((2, 3), (3, 1)), ((1, 4), (4, 2)), ((4, 2), (2, 1))];
    for &(sa, sb) in &shapes {
        let (na, nb) = (1u64 << (sa.0 * sa.1), 1u64 << (sb.0 * sb.1));
        h.family(&format!("products {:?} {:?}", sa, sb), "every pair of sparsity patterns, every scheme that can hold them", na * nb, |i, rec| {
            let (a, b) = graded(pattern(sa.0, sa.1, i % na, true), pattern(sb.0, sb.1, i / na, false), which(i));
            rec.state(i);
            products(rec, &a, &b, &all, &all);
            dict_product(rec, &a, &b, &dict_of(&a), &dict_of(&b));
            rec.trace();
        });
    }
    let tri: Vec<M> = (0..64).map(|k| { let mut m = zeros(3, 3); let mut p = 0; for i in 0..3 { for j in 0..=i { if k >> p & 1 == 1 { m[i][j] = (p + 1) as f64 } p += 1; } } m }).collect();
    h.family("3x3 triangular products", "every lower (and transposed: upper) pattern against every other in every scheme", 64 * 64 * 4, |i, rec| {
        let mut d = Digits(i);
        let (mut a, mut b) = (tri[d.take(64)].clone(), tri[d.take(64)].clone());
        if d.take(2) == 1 {
            a = tr(&a)
        }
        if d.take(2) == 1 {
            b = tr(&b)
        }
        (a, b) = graded(a, b, which(i));
        rec.state(i);
        products(rec, &a, &b, &all, &[0, 2, 4, 6, 7, 8, 9, 10]);
        rec.trace();
    });
    let thorough = h.thorough();
    h.family("3x3 sparse products", "every pair of 3x3 sparsity patterns", 512 * 512, |i, rec| {
        let (a, b) = graded(pattern(3, 3, i % 512, true), pattern(3, 3, i / 512, true), which(i));
        dict_product(rec, &a, &b, &dict_of(&a), &dict_of(&b));
        if thorough {
            products(rec, &a, &b, &general, &[0, 1, 2, 4, 10]);
        } else {
            products(rec, &a, &b, &[2], &[0]);
        }
        rec.state(i);
        rec.trace();
    });
    h.family("product orders", "every pair of 2x2 patterns under every hash visiting order", 256, |i, rec| {
        let (a, b) = graded(pattern(2, 2, i % 16, true), pattern(2, 2, i / 16, false), which(i));
        rec.explore(Mode::Full, 64, 20000, |rec| {
            dict_product(rec, &a, &b, &dict_of(&a), &dict_of(&b));
            rec.trace();
        });
        rec.explore(Mode::Full, 64, 2000, |rec| {
            let d = dict_of(&a);
            let t = d.transposed();
            rec.check(read(&t) == tr(&a), "transposed", || format!("{:?}", a));
            rec.trace();
        });
        rec.state(i);
    });
    for (r, c) in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)] {
        h.family(&format!("single matrices {}x{}", r, c), "every sparsity pattern: transposes, norms, dot products, sums, edges", 1 << (r * c), |i, rec| {
            rec.state(i);
            for z in [0, 8, 9, 10, 11, 12] {
                unary(rec, &uniform(pattern(r, c, i, true), z));
            }
            rec.trace();
        });
    }
    // long vectors: a product of unit vectors at every place, and of full ones
    h.family("long dot products", "vectors of every length to 70 and about every power of two to 2^17, with a single product at the start, in the middle, at the end and beyond one vector's end, and full", (70 + 3 * 11) * 5, |i, rec| {
        let (k, kind) = (i / 5, i % 5);
        let n = if k < 70 { k as usize + 1 } else { (1usize << (7 + (k - 70) / 3)) + ((k - 70) % 3) as usize - 1 };
        let a: Vec<f64> = (0..n).map(|j| (j * 7 % 11) as f64 - 5.0).collect();
        let at = [0, n / 2, n - 1][kind as usize % 3];
        let b: Vec<f64> = match kind {
            0..=2 => (0..n).map(|j| if j == at { 3.0 } else { 0.0 }).collect(),
            3 => (0..n).map(|j| (j * 5 % 13) as f64 - 6.0).collect(),
            _ => (0..n).rev().map(|j| (j % 3) as f64 * 1024.0 - 1.0).collect(),
        };
        let a: Vec<f64> = if kind < 3 { a.iter().map(|x| x + 9.0).collect() } else { a };
        let want: f64 = a.iter().zip(&b).map(|(x, y)| x * y).sum();
        rec.state(i);
        let got = rec.call(|| (dot(&a, &b), dot(b.iter(), a.iter())));
        rec.check(got == Ok((want, want)), "dot", || format!("vectors of {} ({}): {:?}, want {}", n, kind, got, want));
        let sq: f64 = a.iter().map(|x| x * x).sum();
        let got = rec.call(|| {
            let mut m = LinearMatrix::col_vec(a.clone());
            let f = m.frobenius();
            m.transpose();
            (f, m.frobenius(), dot(m.row(0), &a))
        });
        rec.check(got == Ok((sq.sqrt(), sq.sqrt(), sq)), "frobenius", || format!("vectors of {} ({}): {:?}, want {} and {}", n, kind, got, sq.sqrt(), sq));
        rec.trace();
    });
    for (r, c) in [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2)] {
        let n = 1u64 << (r * c);
        h.family(&format!("sums {}x{}", r, c), "every pair of sparsity patterns in either dense layout on both sides, every operator form; the other schemes too", n * n, |i, rec| {
            rec.state(i);
            let z = which(i);
            sums(rec, &by_place(pattern(r, c, i % n, true), z), &by_place(pattern(r, c, i / n, false), z));
            rec.trace();
        });
    }
    h.family("sums 3x3", "every lower pattern plus every lower pattern and its transpose", 64 * 64 * 2, |i, rec| {
        let mut d = Digits(i);
        let (a, b) = (tri[d.take(64)].clone(), tri[d.take(64)].clone());
        rec.state(i);
        let b = if d.take(2) == 1 { tr(&b) } else { b };
        sums(rec, &by_place(a, which(i)), &by_place(b, which(i)));
        rec.trace();
    });
    h.family("incompatible products", "every pair of shapes up to 4x4 whose inner dimensions differ, every scheme", 256, |i, rec| {
        let mut d = Digits(i);
        let (r, c, p, q) = (d.take(4) + 1, d.take(4) + 1, d.take(4) + 1, d.take(4) + 1);
        if c == p {
            return;
        }
        rec.state(i);
        for kind in [0, 5, 6, 11] {
            let (a, b) = (structured(r, c, kind), structured(p, q, kind));
            products(rec, &a, &b, &all, &all);
            dict_product(rec, &a, &b, &dict_of(&a), &dict_of(&b));
        }
        rec.trace();
    });
    h.family("incompatible sums", "every pair of different shapes up to 3x3", 81, |i, rec| {
        let mut d = Digits(i);
        let (r, c, p, q) = (d.take(3) + 1, d.take(3) + 1, d.take(3) + 1, d.take(3) + 1);
        if (r, c) == (p, q) {
            return;
        }
        rec.state(i);
        let (a, b) = (structured(r, c, 11), structured(p, q, 11));
        for la in 0..2 {
            let (x, y) = (dense(&a), dense(&b));
            let mut x = x;
            if la == 1 {
                x = dense(&tr(&a));
                x.transpose();
            }
            let rs = [
                rec.call(|| {
                    let mut z = x.clone();
                    z.add_ass(&y)
                }),
                rec.call(|| {
                    let mut z = x.clone();
                    z.sub_ass(&y)
                }),
                rec.call(|| {
                    let _ = &x + &y;
                }),
                rec.call(|| {
                    let _ = &x - &y;
                }),
                rec.call(|| {
                    let mut z = x.clone();
                    z += y.clone()
                }),
                rec.call(|| {
                    let mut z = dict_of(&a);
                    z.add_ass(&dict_of(&b))
                }),
            ];
            rec.check(rs.iter().all(|r| r.is_err()), "incompatible-accepted", || format!("sums of {}x{} and {}x{}: {:?}", r, c, p, q, rs));
        }
        rec.trace();
    });
    for n in 1..=h.pick(3usize, 4) {
        let envs: u64 = (1..=n as u64).product();
        let ivs: Vec<(usize, usize)> = std::iter::once((0, 0)).chain((0..n).flat_map(|a| (a + 1..=n).map(move |b| (a, b)))).collect();
        let k = ivs.len() as u64;
        h.family(&format!("scaled additions {}", n), "every lower envelope x every choice of one contiguous run (or none) per added row x scale {-2, 0, 1, 0.5}", envs * pow(k, n as u32) * 4, |i, rec| {
            let mut d = Digits(i);
            let scale = *d.pick(&[-2.0, 0.0, 1.0, 0.5]);
            let env: Vec<usize> = (1..=n).map(|m| d.take(m as u64) + 1).collect();
            let rows: Vec<(usize, usize)> = (0..n).map(|_| *d.pick(&ivs)).collect();
            rec.state(i);
            let unit = match which(i) {
                8 | 9 => (0, -70),
                10 | 11 => (-60, 0),
                12 => (-60, -60),
                13 | 14 => (50, -50),
                _ => (0, 0),
            };
            scaled_add(rec, &env, &rows, scale, unit);
            rec.trace();
        });
    }
    h.family("large scaled additions", "envelopes of 5 shapes to 130 rows x added rows of 5 shapes within them x scales {-2, 1, 1/3, -0.1, 1e-9/3, 7e5/3}", 5 * 5 * 6 * 5, |i, rec| {
        let mut d = Digits(i);
        let (shape, added) = (d.take(5), d.take(5));
        let scale = *d.pick(&[-2.0, 1.0, 1.0 / 3.0, -0.1, 1e-9 / 3.0, 7e5 / 3.0]);
        let n = [3usize, 17, 41, 66, 130][d.take(5)];
        let env: Vec<usize> = (0..n)
            .map(|i| match shape {
                0 => i + 1,
                1 => (i + 1).min(3),
                2 => (i + 1).min(45),
                3 => 1 + (i * 7) % (i + 1),
                _ => {
                    if i + 1 == n {
                        n
                    } else {
                        1
                    }
                }
            })
            .collect();
        let rows: Vec<(usize, usize)> = (0..n)
            .map(|i| {
                let from = i + 1 - env[i];
                match added {
                    0 => (from, i + 1),
                    1 => (i, i + 1),
                    2 => ((from + i) / 2, n),
                    3 if i % 3 == 1 => (0, 0),
                    3 => (from, (from + 1).max(i / 2)),
                    _ => (i, n.min(i + 50)),
                }
            })
            .collect();
        rec.state((6, i));
        if scale == -2.0 || scale == 1.0 {
            scaled_add(rec, &env, &rows, scale, (0, 0));
        }
        rough_add(rec, &env, &rows, scale);
        rec.trace();
    });
    h.family("matrix times vector", "every 3x3 sparsity pattern (and 1x1, 2x2) x unit and dense vectors", 2 + 16 + 512, |i, rec| {
        let a = if i < 2 { pattern(1, 1, i, true) } else if i < 18 { pattern(2, 2, i - 2, true) } else { pattern(3, 3, i - 18, true) };
        rec.state(i);
        for z in [0, 8, 9, 11, 15] {
            mat_vec(rec, &by_rows(a.clone(), z));
        }
        rec.trace();
    });
    let perms: Vec<Vec<Permutation>> = (0..=5).map(|n| if n == 0 { vec![] } else { all_perms(n) }).collect();
    h.note("permutations explored", perms.iter().map(|p| p.len().to_string()).collect::<Vec<_>>().join(","));
    for n in 1..=3usize {
        h.family(&format!("permutations {}", n), "every sparsity pattern x every permutation reordering can produce and its inverse", (1 << (n * n)) * perms[n].len() as u64, |i, rec| {
            let p = &perms[n][(i % perms[n].len() as u64) as usize];
            let a = by_rows(pattern(n, n, i / perms[n].len() as u64, true), which(i));
            rec.state(i);
            permutes(rec, &a, p);
            if n <= 2 {
                rec.explore(Mode::Front, 2, 100000, |rec| {
                    permutes(rec, &a, p);
                    rec.trace()
                });
            }
            rec.trace();
        });
    }
    for n in 4..=5usize {
        h.family(&format!("permutations {}", n), "12 structured patterns x every permutation reordering can produce and its inverse", 12 * perms[n].len() as u64, |i, rec| {
            let p = &perms[n][(i / 12) as usize];
            let a = by_rows(structured(n, n, (i % 12) as usize), which(i));
            rec.state(i);
            permutes(rec, &a, p);
            rec.trace();
        });
    }
    for n in 1..=3usize {
        h.family(&format!("masks {}", n), "every sparsity pattern x every mask", 1 << (n * n), |i, rec| {
            let a = by_place(pattern(n, n, i, true), which(i));
            rec.state(i);
            masks(rec, &a);
            if i.count_ones() <= 3 {
                rec.explore(Mode::Front, 1, 100000, |rec| {
                    masks(rec, &a);
                    rec.trace()
                });
            }
            rec.trace();
        });
    }
    h.family("masks, larger", "n in 4..8, 12 structured patterns, every mask; non-square refused", 4 * 12, |i, rec| {
        let n = (i / 12) as usize + 4;
        let a = by_place(structured(n, n, (i % 12) as usize), which(i));
        rec.state(i);
        masks(rec, &a);
        let b = structured(n, n + 1, (i % 12) as usize);
        for l in [n, n + 1] {
            let r = rec.call(|| dict_of(&b).mask(&vec![true; l]).shape());
            rec.check(r.is_err(), "mask-nonsquare-accepted", || format!("{:?}", r));
        }
        rec.trace();
    });
    let top = h.pick(9usize, 14);
    h.family("structured products", "12 x 12 structured patterns, inner dimension to the bound, three outer shapes", 144 * (top as u64 - 3) * 3, |i, rec| {
        let mut d = Digits(i);
        let (ka, kb) = (d.take(12), d.take(12));
        let n = d.take(top as u64 - 3) + 4;
        let (r, c) = [(n, n), (n - 2, n + 3), (n + 2, 1)][d.take(3)];
        let (a, b) = graded(structured(r, n, ka), structured(n, c, kb), which(i));
        rec.state(i);
        products(rec, &a, &b, &all, &[0, 1, 3, 4, 6, 7, 9, 10]);
        dict_product(rec, &a, &b, &dict_of(&a), &dict_of(&b));
        if r == c && kb == 0 {
            unary(rec, &a);
            mat_vec(rec, &a);
        }
        rec.trace();
    });
    h.family("large products", "12 structured patterns against 4, inner dimension 65, 130, 257 and 300 between narrow sides, and 66x66 square", 12 * 4 * 5, |i, rec| {
        let mut d = Digits(i);
        let (ka, kb) = (d.take(12), [1, 3, 7, 11][d.take(4)]);
        let (r, n, c) = [(3, 65, 2), (2, 130, 3), (3, 257, 2), (2, 300, 2), (66, 66, 66)][d.take(5)];
        let (a, b) = graded(structured(r, n, ka), structured(n, c, kb), which(i));
        rec.state((4, i));
        if r == c && n > 70 {
            products(rec, &a, &b, &all, &[0, 1, 3, 4]);
        } else {
            products(rec, &a, &b, &all, &[0, 1, 3, 4, 6, 7, 9, 10]);
        }
        dict_product(rec, &a, &b, &dict_of(&a), &dict_of(&b));
        rec.trace();
    });
    let top_n = h.pick(2u64, 3);
    h.family("large single matrices", "12 structured patterns of dimension 65 and 129 (thorough: 257): transposes, norms, sums, products with vectors, reindexings and masks", 12 * top_n, |i, rec| {
        let mut d = Digits(i);
        let (k, n) = (d.take(12), [65, 129, 257][d.take(top_n)]);
        let a = structured(n, n, k);
        rec.state((5, i));
        unary(rec, &a);
        if n < 200 {
            mat_vec(rec, &a);
            sums(rec, &a, &tr(&a));
        }
        for step in [1usize, 7, 19] {
            let e: Vec<(usize, usize)> = (1..n).map(|i| ((i - 1) * step % n, i * step % n)).filter(|e| e.0 != e.1).collect();
            if let Ok(p) = rec.call(|| Graph::from_edges(n, e.into_iter()).reverse_cuthill_mckee()) {
                permutes(rec, &a, &p);
            }
        }
        for modulus in [2, 3, 64, 200] {
            let mask: Vec<bool> = (0..n).map(|i| i % modulus != 1).collect();
            let keep: Vec<usize> = (0..n).filter(|&i| mask[i]).collect();
            let want: M = keep.iter().map(|&i| keep.iter().map(|&j| a[i][j]).collect()).collect();
            match rec.call(|| dict_of(&a).mask(&mask)) {
                Ok(x) => {
                    observe(rec, &x, &want, keep.len(), keep.len(), &|| format!("{}x{} pattern {} masked every {}", n, n, k, modulus));
                }
                Err(e) => rec.fail("mask-panics", e),
            }
        }
        rec.trace();
    });
    h.finish()
}
