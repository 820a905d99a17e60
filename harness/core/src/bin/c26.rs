//! C26: geometric predicates agree with exact integer arithmetic.
use bugi::verif::predicates::{self, Orient};
use bugi::verif::Point;
use mcheck::*;
use std::convert::{TryFrom, TryInto};

type P2 = [i64; 2];
type P3 = [i64; 3];

fn real2(p: P2, s: f64) -> Point {
    (p[0] as f64 * s, p[1] as f64 * s).into()
}
fn real3(p: P3, s: f64) -> Point {
    (p[0] as f64 * s, p[1] as f64 * s, p[2] as f64 * s).into()
}
fn cell2(k: usize, n: usize, off: P2) -> P2 {
    [(k % n) as i64 + off[0], (k / n) as i64 + off[1]]
}
fn cross(a: P2, b: P2, c: P2) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
fn det(m: &[Vec<i128>]) -> i128 {
    if m.len() == 1 {
        return m[0][0];
    }
    (0..m.len())
        .map(|k| {
            let minor: Vec<Vec<i128>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, v)| *v).collect()).collect();
            m[0][k] * det(&minor) * if k % 2 == 0 { 1 } else { -1 }
        })
        .sum()
}
/// positive when `p` lies inside the circle through the anticlockwise a, b, c
fn circle(p: P2, a: P2, b: P2, c: P2) -> i128 {
    let row = |q: P2| {
        let (x, y) = ((q[0] - p[0]) as i128, (q[1] - p[1]) as i128);
        vec![x, y, x * x + y * y]
    };
    det(&[row(a), row(b), row(c)])
}
fn tet(a: P3, b: P3, c: P3, d: P3) -> i128 {
    let row = |q: P3| vec![(q[0] - d[0]) as i128, (q[1] - d[1]) as i128, (q[2] - d[2]) as i128];
    det(&[row(a), row(b), row(c)])
}
/// sign of the lifted determinant of (a, b, c, d, p)
fn sphere(p: P3, a: P3, b: P3, c: P3, d: P3) -> i128 {
    let row = |q: P3| {
        let v: Vec<i128> = (0..3).map(|k| (q[k] - p[k]) as i128).collect();
        let l = v.iter().map(|x| x * x).sum();
        vec![v[0], v[1], v[2], l]
    };
    det(&[row(a), row(b), row(c), row(d)])
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * b.abs().max(1e-12)
}

fn main() {
    let mut h = Harness::new("C26");
    h.assume("points exactly on a sphere are not judged; barycentric coordinates need a triangle with an area");
    let n = h.pick(4usize, 5);
    // units far from 1 are powers of two, so that every coordinate stays exact
    let (tiny, huge) = ((2.0f64).powi(-20), (2.0f64).powi(20));
    let frames: [(P2, f64); 8] = [([0, 0], 1.0), ([-2, -1], 0.5), ([1000, -300], 1.0), ([100_000, 100_000], 0.25), ([-7, 30], 1e3), ([0, 0], tiny), ([5, -3], tiny), ([-1, -1], huge)];

    h.family("circles", "every ordered quadruple of a 4x4 (thorough: 5x5) lattice in 8 frames", ((n * n).pow(4) * frames.len()) as u64, |i, rec| {
        let mut d = Digits(i);
        let (off, s) = frames[d.take(frames.len())];
        let q: Vec<P2> = (0..4).map(|_| cell2(d.take(n * n), n, off)).collect();
        let (p, a, b, c) = (q[0], q[1], q[2], q[3]);
        let area = cross(a, b, c);
        if area == 0 {
            return;
        }
        let side = circle(p, a, b, c);
        rec.state(i);
        rec.trace();
        let r = rec.call(|| predicates::in_circle(real2(p, s), (real2(a, s), real2(b, s), real2(c, s))));
        rec.outcome((side.signum(), area.signum()));
        match r {
            // nothing on the circle is inside
            Ok(r) => {
                rec.check(r == (side > 0), "in-circle", || format!("{:?} in circle of {:?} {:?} {:?} (x {}): {}", p, a, b, c, s, r));
            }
            Err(e) => rec.fail("in-circle-fails", format!("{:?} in circle of {:?} {:?} {:?}: {}", p, a, b, c, e)),
        }
        rec.sample(|| format!("{:?} in circle of {:?} {:?} {:?}", p, a, b, c));
    });
    // twelve lattice points of one circle, a thirteenth moved a hair off it: judged by exact integers
    h.family("near circles", "every ordered triple of the twelve lattice points of circles of radius 5 to 5 10^7, against each of the twelve and its eight neighbours", 12 * 11 * 10 * 12 * 9 * 8, |i, rec| {
        let mut d = Digits(i);
        let r = [1i64, 10, 100, 1000, 10_000, 100_000, 1_000_000, 10_000_000][d.take(8)];
        let on: Vec<P2> = [[5, 0], [4, 3], [3, 4], [0, 5], [-3, 4], [-4, 3], [-5, 0], [-4, -3], [-3, -4], [0, -5], [3, -4], [4, -3]].iter().map(|p: &P2| [p[0] * r, p[1] * r]).collect();
        let mut left: Vec<usize> = (0..12).collect();
        let t: Vec<P2> = (0..3).map(|k| on[left.remove(d.take(12 - k))]).collect();
        let (near, move_) = (on[d.take(12)], d.take(9));
        let p = [near[0] + move_ as i64 % 3 - 1, near[1] + move_ as i64 / 3 - 1];
        let side = circle(p, t[0], t[1], t[2]);
        // only while the products are exact, or the distance from the circle is well above rounding
        let rel: Vec<[f64; 3]> = t.iter().map(|q| [(q[0] - p[0]) as f64, (q[1] - p[1]) as f64]).map(|q| [q[0].abs(), q[1].abs(), q[0] * q[0] + q[1] * q[1]]).collect();
        let size: f64 = (0..3).map(|k| (rel[k], rel[(k + 1) % 3], rel[(k + 2) % 3])).map(|(a, b, c)| a[2] * (b[0] * c[1] + b[1] * c[0])).sum();
        if r > 100 && (side as f64).abs() < 1e-12 * size {
            return;
        }
        rec.state(i);
        rec.trace();
        let got = rec.call(|| predicates::in_circle(real2(p, 1.0), (real2(t[0], 1.0), real2(t[1], 1.0), real2(t[2], 1.0))));
        rec.check(got == Ok(side > 0), "in-circle", || format!("{:?} in circle of {:?}: {:?}", p, t, got));
    });
    h.family("triangles", "every ordered quadruple of a 4x4 (thorough: 5x5) lattice in 8 frames: barycentric coordinates and containment", ((n * n).pow(4) * frames.len()) as u64, |i, rec| {
        let mut d = Digits(i);
        let (off, s) = frames[d.take(frames.len())];
        let q: Vec<P2> = (0..4).map(|_| cell2(d.take(n * n), n, off)).collect();
        let (p, a, b, c) = (q[0], q[1], q[2], q[3]);
        let area = cross(a, b, c);
        if area == 0 {
            return;
        }
        let w = [cross(b, c, p), cross(c, a, p), cross(a, b, p)];
        let inside = w.iter().all(|x| x * area >= 0);
        rec.state(i);
        rec.trace();
        rec.outcome(w.map(|x| x.signum() * area.signum()));
        let tri = (real2(a, s), real2(b, s), real2(c, s));
        match rec.call(|| (predicates::in_triangle(real2(p, s), tri), predicates::bary_coor(real2(p, s), tri))) {
            Ok((r, l)) => {
                rec.check(r == inside, "in-triangle", || format!("{:?} in triangle {:?} {:?} {:?} (x {}): {}", p, a, b, c, s, r));
                let ok = [l.0, l.1, l.2].iter().zip(&w).all(|(l, w)| (l - *w as f64 / area as f64).abs() <= 1e-12);
                rec.check(ok, "barycentric", || format!("{:?} in triangle {:?} {:?} {:?} (x {}): {:?} want {:?} / {}", p, a, b, c, s, l, w, area));
            }
            Err(e) => rec.fail("in-triangle-fails", format!("{:?} in triangle {:?} {:?} {:?}: {}", p, a, b, c, e)),
        }
    });
    let n = h.pick(7usize, 10);
    h.family("wide triangles", "every point of a 7x7 (thorough: 10x10) lattice against every triangle of it", ((n * n).pow(3) * n) as u64, |i, rec| {
        let mut d = Digits(i);
        let (a, b, c) = (cell2(d.take(n * n), n, [0, 0]), cell2(d.take(n * n), n, [0, 0]), cell2(d.take(n * n), n, [0, 0]));
        let area = cross(a, b, c);
        if area == 0 {
            return;
        }
        rec.state(i);
        rec.trace();
        let tri = (real2(a, 1.0), real2(b, 1.0), real2(c, 1.0));
        let x = d.take(n) as i64;
        for y in 0..n as i64 {
            let p = [x, y];
            let inside = [cross(b, c, p), cross(c, a, p), cross(a, b, p)].iter().all(|w| w * area >= 0);
            let r = rec.call(|| predicates::in_triangle(real2(p, 1.0), tri));
            rec.check(r == Ok(inside), "in-triangle", || format!("{:?} in triangle {:?} {:?} {:?}: {:?}", p, a, b, c, r));
        }
    });
    let n = h.pick(5usize, 7);
    h.family("circumcentres", "every ordered triple of a 5x5 (thorough: 7x7) lattice in 8 frames", ((n * n).pow(3) * frames.len()) as u64, |i, rec| {
        let mut d = Digits(i);
        let (off, s) = frames[d.take(frames.len())];
        let q: Vec<P2> = (0..3).map(|_| cell2(d.take(n * n), n, off)).collect();
        let (a, b, c) = (q[0], q[1], q[2]);
        let area = cross(a, b, c);
        rec.state(i);
        rec.trace();
        rec.outcome(area.signum());
        match rec.call(|| predicates::circumcenter((real2(a, s), real2(b, s), real2(c, s)))) {
            Ok(None) => {
                rec.check(area == 0, "circumcentre-missing", || format!("{:?}", q));
            }
            Ok(Some(o)) => {
                if !rec.check(area != 0, "circumcentre-of-a-line", || format!("{:?}: {:?}", q, o)) {
                    return;
                }
                // from a, in integers: 2 * area * (o - a)
                let (u, v) = ([b[0] - a[0], b[1] - a[1]], [c[0] - a[0], c[1] - a[1]]);
                let (uu, vv) = (u[0] * u[0] + u[1] * u[1], v[0] * v[0] + v[1] * v[1]);
                let x = a[0] as f64 + (v[1] * uu - u[1] * vv) as f64 / (2 * area) as f64;
                let y = a[1] as f64 + (u[0] * vv - v[0] * uu) as f64 / (2 * area) as f64;
                let far = off[0].abs().max(off[1].abs()).max(1) as f64;
                let tol = 1e-11 * far * far * s;
                rec.check((o[0] - x * s).abs() <= tol && (o[1] - y * s).abs() <= tol, "circumcentre", || format!("{:?} (x {}): {:?} want ({}, {})", q, s, o, x * s, y * s));
            }
            Err(e) => rec.fail("circumcentre-fails", format!("{:?}: {}", q, e)),
        }
    });

    let pts = |k: usize| -> P3 { [(k % 3) as i64, (k / 3 % 3) as i64 - 1, (k / 9) as i64] };
    h.family("tetrahedra", "every ordered quadruple of a 3x3x3 lattice in 3 units", 27u64.pow(4) * 3, |i, rec| {
        let mut d = Digits(i);
        let s = [1.0, tiny, huge][d.take(3)];
        let q: Vec<P3> = (0..4).map(|_| pts(d.take(27))).collect();
        let v = tet(q[0], q[1], q[2], q[3]);
        let want = if v > 0 { Orient::Positive } else if v < 0 { Orient::Negative } else { Orient::Zero };
        rec.state(i);
        rec.trace();
        rec.outcome(v);
        let r = rec.call(|| predicates::tetrahedron_dir((real3(q[0], s), real3(q[1], s), real3(q[2], s), real3(q[3], s))));
        rec.check(r == Ok(want), "tetrahedron", || format!("{:?} (x {}): {:?} want {:?}", q, s, r, want));
    });
    let pts = |k: usize| -> P3 { [(k & 1) as i64, (k >> 1 & 1) as i64 * 2, (k >> 2) as i64 * 3 - 1] };
    let m = h.pick(8u64, 12);
    h.family("spheres", "every ordered quadruple of 8 (thorough: 12) corners against every point of a 4x4x4 lattice in 3 units", m.pow(4) * 64 * 3, |i, rec| {
        let mut d = Digits(i);
        let s = [1.0, (2.0f64).powi(-10), (2.0f64).powi(10)][d.take(3)];
        let k = d.take(64);
        let p = [(k % 4) as i64 - 1, (k / 4 % 4) as i64, (k / 16) as i64];
        let q: Vec<P3> = (0..4).map(|_| pts(d.take(m as usize))).collect();
        // right-handed like the one whose lifted determinant is positive inside
        let v = tet(q[0], q[1], q[2], q[3]);
        let side = sphere(p, q[0], q[1], q[2], q[3]);
        if v == 0 || side == 0 {
            return;
        }
        rec.state(i);
        rec.trace();
        rec.outcome((v.signum(), side.signum()));
        let r = rec.call(|| predicates::in_sphere(real3(p, s), (real3(q[0], s), real3(q[1], s), real3(q[2], s), real3(q[3], s))));
        rec.check(r == Ok(side > 0), "in-sphere", || format!("{:?} in sphere of {:?} (x {}): {:?}", p, q, s, r));
    });

    let vals = [-2.0, 0.0, 1.0, 3.5];
    h.family("points", "every ordered pair of points of dimension 1 to 3 with coordinates from 4 values, 4 factors", 64 * 64 * 3 * 4, |i, rec| {
        let mut d = Digits(i);
        let (n, f) = (d.take(3) + 1, vals[d.take(4)]);
        let mut take = || -> Vec<f64> { (0..3).map(|_| vals[d.take(4)]).collect::<Vec<f64>>()[..n].to_vec() };
        let (a, b) = (take(), take());
        rec.state((n, f.to_bits(), format!("{:?}{:?}", a, b)));
        rec.trace();
        let r = rec.call(|| {
            let (p, q) = (Point::new(&a), Point::new(&b));
            let mut e = vec![];
            let mut is = |what: &str, got: Vec<f64>, want: Vec<f64>| {
                if got.len() != want.len() || !got.iter().zip(&want).all(|(g, w)| same(*g, *w)) {
                    e.push(format!("{} is {:?} not {:?}", what, got, want));
                }
            };
            let zip = |g: &dyn Fn(f64, f64) -> f64| a.iter().zip(&b).map(|(x, y)| g(*x, *y)).collect::<Vec<f64>>();
            let sum = |v: Vec<f64>| v.iter().sum::<f64>();
            is("dim", vec![p.dim() as f64], vec![n as f64]);
            is("coordinates", p.to_vec(), a.clone());
            is("index", (0..n).map(|k| p[k]).collect(), a.clone());
            is("into Vec", p.into(), a.clone());
            is("sum", (p + q).to_vec(), zip(&|x, y| x + y));
            is("difference", (p - q).to_vec(), zip(&|x, y| x - y));
            is("multiple", (p * f).to_vec(), a.iter().map(|x| x * f).collect());
            is("middle", p.mid(q).to_vec(), zip(&|x, y| (x + y) / 2.0));
            is("distance", vec![p.dist(q)], vec![sum(zip(&|x, y| (x - y) * (x - y))).sqrt()]);
            is("dot", vec![p.dot(q)], vec![sum(zip(&|x, y| x * y))]);
            let len = a.iter().map(|x| x * x).sum::<f64>().sqrt();
            is("norm", vec![p.norm()], vec![len]);
            if len > 0.0 {
                is("unit", p.unit().to_vec(), a.iter().map(|x| x / len).collect());
            }
            is("zero", Point::zero(n).to_vec(), vec![0.0; n]);
            let mut w = p;
            w[n - 1] = 9.0;
            is("write", vec![w[n - 1]], vec![9.0]);
            is("from Vec", Point::try_from(a.clone()).unwrap().to_vec(), a.clone());
            let one: Result<f64, _> = p.try_into();
            let two: Result<(f64, f64), _> = p.try_into();
            let three: Result<(f64, f64, f64), _> = p.try_into();
            is("tuples", vec![one.is_ok() as u8 as f64, two.is_ok() as u8 as f64, three.is_ok() as u8 as f64], (1..4).map(|k| (k == n) as u8 as f64).collect());
            match n {
                1 => {
                    is("to f64", vec![one.unwrap()], a.clone());
                    is("from f64", Point::from(a[0]).to_vec(), a.clone());
                }
                2 => {
                    let t = two.unwrap();
                    is("to pair", vec![t.0, t.1], a.clone());
                    is("from pair", Point::from((a[0], a[1])).to_vec(), a.clone());
                    let s: spacemath::two::Point = p.into();
                    is("through spacemath", Point::from(s).to_vec(), a.clone());
                }
                _ => {
                    let t = three.unwrap();
                    is("to triple", vec![t.0, t.1, t.2], a.clone());
                    is("from triple", Point::from((a[0], a[1], a[2])).to_vec(), a.clone());
                }
            }
            is("equality", vec![(p == q) as u8 as f64], vec![(a == b) as u8 as f64]);
            e
        });
        match r {
            Ok(e) => {
                rec.check(e.is_empty(), "point", || format!("{:?} {:?} {}: {:?}", a, b, f, e));
            }
            Err(e) => rec.fail("point-fails", format!("{:?} {:?} {}: {}", a, b, f, e)),
        }
    });
    h.family("small and large points", "every ordered pair of points of dimension 1 to 3 with coordinates from 4 values, in units from 2^-400 to 2^400", 64 * 64 * 3 * 7, |i, rec| {
        let mut d = Digits(i);
        let (n, s) = (d.take(3) + 1, 2f64.powi([-400, -140, -40, -20, 20, 140, 400][d.take(7)]));
        let mut take = || -> Vec<f64> { (0..3).map(|_| vals[d.take(4)]).collect::<Vec<f64>>()[..n].to_vec() };
        let (a, b) = (take(), take());
        rec.state(i);
        rec.trace();
        let len = a.iter().map(|x| x * x).sum::<f64>().sqrt();
        let apart = a.iter().zip(&b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt();
        let grown = |v: &[f64]| Point::new(&v.iter().map(|x| x * s).collect::<Vec<f64>>());
        let r = rec.call(|| {
            let (p, q) = (grown(&a), grown(&b));
            let mut v = vec![p.norm() / s, p.dist(q) / s];
            v.extend(p.mid(q).to_vec().iter().map(|x| x / s));
            v.extend((p - q).to_vec().iter().map(|x| x / s));
            v.push(p.dot(q) / s / s);
            v.push((p == q) as u8 as f64);
            if len > 0.0 {
                v.extend(p.unit().to_vec());
            }
            v
        });
        let mut want = vec![len, apart];
        want.extend(a.iter().zip(&b).map(|(x, y)| (x + y) / 2.0));
        want.extend(a.iter().zip(&b).map(|(x, y)| x - y));
        want.push(a.iter().zip(&b).map(|(x, y)| x * y).sum());
        want.push((a == b) as u8 as f64);
        if len > 0.0 {
            want.extend(a.iter().map(|x| x / len));
        }
        rec.check(matches!(&r, Ok(v) if v.len() == want.len() && v.iter().zip(&want).all(|(x, y)| same(*x, *y))), "point", || format!("{:?} {:?} x {:e}: {:?}, want {:?}", a, b, s, r, want));
    });
    h.family("refusals", "coordinates beyond the dimension, sums across dimensions, lists of 0 and 4 values", 3 * 4, |i, rec| {
        let mut d = Digits(i);
        let (n, k) = (d.take(3) + 1, d.take(4));
        rec.state(i);
        rec.trace();
        let p = Point::zero(n);
        match k {
            0 => {
                let r = rec.call(|| p[n]);
                rec.check(r.is_err(), "coordinate-beyond", || format!("{} of {}", n, n));
            }
            1 => {
                let r = rec.call(|| p + Point::zero(n % 3 + 1));
                rec.check(r.is_err(), "sum-across", || format!("{} and {}", n, n % 3 + 1));
            }
            2 => {
                let r = rec.call(|| p - Point::zero(n % 3 + 1));
                rec.check(r.is_err(), "sum-across", || format!("{} and {}", n, n % 3 + 1));
            }
            _ => {
                let r = rec.call(|| (Point::try_from(vec![]).is_err(), Point::try_from(vec![0.0; 4]).is_err()));
                rec.check(r == Ok((true, true)), "list-length", || format!("{:?}", r));
            }
        }
    });
    h.finish()
}
