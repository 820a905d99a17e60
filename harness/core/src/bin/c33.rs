//! C33: what is printed is what is stored.
use bugi::matrix::MatrixLike;
use bugi::verif::Point;
use hcore::*;
use mcheck::*;

/// how exactly a number is shown
#[derive(Clone, Copy)]
enum Exact {
    Significant(i32),
    Decimals(i32),
}

/// what is wrong with a printed number, if anything
fn number(text: &str, x: f64, how: Exact) -> Option<String> {
    if x != 0.0 && text.starts_with('-') != (x < 0.0) {
        return Some(format!("{} for {:e}: sign", text, x));
    }
    let got: f64 = match text.parse() {
        Ok(g) => g,
        Err(_) => return Some(format!("{} for {:e}: no number", text, x)),
    };
    let unit = match how {
        Exact::Decimals(n) => 10f64.powi(-n),
        Exact::Significant(_) if x == 0.0 => 0.0,
        // rounding may reach the next power of ten
        Exact::Significant(n) => 10f64.powi(x.abs().log10().floor() as i32 - n + 1),
    };
    if (got - x).abs() > unit * 0.5000001 {
        return Some(format!("{} for {:e}", text, x));
    }
    None
}

fn page(text: &str, a: &M, how: Exact) -> Option<String> {
    let (r, c) = (a.len(), a[0].len());
    let mut lines = text.lines();
    let head: Vec<usize> = lines.next()?.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
    if head != [r, c] {
        return Some(format!("header {:?} for {}x{}", head, r, c));
    }
    let rest: Vec<Vec<&str>> = lines.map(|l| l.split_whitespace().collect()).collect();
    if rest.len() != r || rest.iter().any(|l| l.len() != c) {
        return Some(format!("{} lines of {:?} numbers for {}x{}", rest.len(), rest.iter().map(|l| l.len()).collect::<Vec<_>>(), r, c));
    }
    (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).find_map(|(i, j)| number(rest[i][j], a[i][j], how).map(|e| format!("({},{}): {}", i, j, e)))
}

struct Print<'a> {
    rec: &'a mut Rec,
    a: &'a M,
    kind: usize,
}
impl<'a> Visitor for Print<'a> {
    fn go<T: MatrixLike>(&mut self, m: &T) {
        let (a, kind) = (self.a, KINDS[self.kind]);
        match self.rec.call(|| (m.to_string(), m.disp(), format!("{}", m.clone()))) {
            Ok((t, d, e)) => {
                // dense matrices are shown in plain decimals
                let how = if self.kind < 2 { Exact::Decimals(5) } else { Exact::Significant(2) };
                let bad = page(&t, a, how);
                self.rec.check(bad.is_none(), "printed", || format!("{} {:?}: {} in {:?}", kind, a, bad.unwrap(), t));
                let bad = page(&d, a, Exact::Significant(2));
                self.rec.check(bad.is_none(), "printed-short", || format!("{} {:?}: {} in {:?}", kind, a, bad.unwrap(), d));
                self.rec.check(t == e, "printed-twice", || format!("{} {:?}: {:?} and {:?}", kind, a, t, e));
            }
            Err(e) => self.rec.fail("printing-fails", format!("{} {:?}: {}", kind, a, e)),
        }
        let (r, c) = (a.len(), a[0].len());
        observe(self.rec, m, a, r, c, &|| format!("{} after printing", kind));
        self.rec.trace();
    }
}

fn all(rec: &mut Rec, a: &M) {
    for kind in 0..KINDS.len() {
        let mut p = Print { rec, a, kind };
        with(kind, a, &mut p);
    }
}

const MANTISSAS: [f64; 12] = [1.0, 1.04, 1.06, 2.5, 3.14159, 4.449, 5.551, 7.0, 9.44, 9.94, 9.96, 9.999];

fn main() {
    let mut h = Harness::new("C33");
    h.assume("numbers are judged to half a unit of the last digit due; the layout of a line beyond its order and separation by blanks is left open");
    for (r, c) in [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2)] {
        let n = r * c;
        h.family(&format!("patterns {}x{}", r, c), "every pattern of stored entries x 4 value sets, in every storage scheme that holds it", (1u64 << n) * 4, |i, rec| {
            let mut d = Digits(i);
            let set = d.take(4);
            let a: M = (0..r).map(|x| (0..c).map(|y| {
                let k = x * c + y;
                if d.0 >> k & 1 == 0 {
                    return 0.0;
                }
                match set {
                    0 => k as f64 + 1.0,
                    1 => -(k as f64) * 1.7 - 0.031,
                    2 => 10f64.powi(k as i32 * 7 - 30) * if k % 2 == 0 { -3.3 } else { 8.8 },
                    _ => MANTISSAS[k % 12] * 1e5,
                }
            }).collect()).collect();
            rec.state(i);
            all(rec, &a);
            rec.sample(|| format!("{:?}", a));
        });
    }
    h.family("sizes", "12 mantissas (round, near a tie, near the next power) x every power of ten from 1e-300 to 1e300 x both signs and all places of a 3x3 diagonal matrix", 12 * 601 * 2 * 3, |i, rec| {
        let mut d = Digits(i);
        let (m, e, s, at) = (MANTISSAS[d.take(12)], d.take(601) as i32 - 300, d.take(2), d.take(3));
        let x = format!("{}{}e{}", if s == 1 { "-" } else { "" }, m, e).parse::<f64>().unwrap();
        let mut a = zeros(3, 3);
        a[at][at] = x;
        rec.state(i);
        all(rec, &a);
    });
    let wide = h.pick(60usize, 200);
    h.family("shapes", "dense and sparse matrices of 1 to 60 (thorough: 200) rows or columns, 3 fillings", wide as u64 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (fill, form, n) = (d.take(3), d.take(3), d.0 as usize + 1);
        let (r, c) = match form {
            0 => (n, 3),
            1 => (3, n),
            _ => (n, n),
        };
        let a: M = (0..r).map(|x| (0..c).map(|y| match fill {
            0 => (x * 31 + y * 7) as f64 / 8.0 - 5.0,
            1 if x == y || x == y + 1 => -1.0 - x as f64,
            2 if (x * 5 + y * 3) % 7 == 0 => 0.001 * (y + 1) as f64,
            _ => 0.0,
        }).collect()).collect();
        rec.state(i);
        all(rec, &a);
    });
    let vals = [0.0, 1.0, -2.5, 0.00004, 0.00006, 1234.56789, -99999.99996];
    h.family("points", "points of 1 to 3 coordinates from 7 values: every coordinate in order to four decimals", 7 + 49 + 343, |i, rec| {
        let (n, mut d) = if i < 7 { (1, Digits(i)) } else if i < 56 { (2, Digits(i - 7)) } else { (3, Digits(i - 56)) };
        let x: Vec<f64> = (0..n).map(|_| vals[d.take(7)]).collect();
        rec.state(i);
        let r = rec.call(|| format!("{}", Point::new(&x)));
        let ok = r.as_ref().map_or(false, |t| {
            let got: Vec<Option<f64>> = t.trim_start_matches('(').trim_end_matches(')').split(',').map(|p| p.trim().parse().ok()).collect();
            got.len() == n && got.iter().zip(&x).all(|(g, w)| g.map_or(false, |g| (g - w).abs() <= 0.5000001e-4))
        });
        rec.check(ok, "point", || format!("{:?} printed {:?}", x, r));
        rec.trace();
    });
    h.finish()
}
