//! C16: recovered stresses follow from the displacements; stress states behave like tensors.
use bugi::element::stress::{StressState, StressType};
use bugi::element::Deformation;
use bugi::matrix::solve::direct::CholeskyEnvelopeSolver;
use bugi::matrix::{Average, LinearMatrix, MatrixLike};
use hcore::read;
use hcore::fe::*;
use mcheck::la::{self, M};
use mcheck::*;

fn state(v: &[f64], column: bool) -> StressState {
    StressState::from_vector(if column { LinearMatrix::from_flat((v.len(), 1), v.to_vec()) } else { LinearMatrix::from_flat((1, v.len()), v.to_vec()) })
}
/// the full tensor a stress vector stands for
fn tensor(v: &[f64]) -> M {
    match v.len() {
        1 => vec![vec![v[0], 0.0, 0.0], vec![0.0; 3], vec![0.0; 3]],
        3 => vec![vec![v[0], v[2], 0.0], vec![v[2], v[1], 0.0], vec![0.0; 3]],
        4 => vec![vec![v[0], v[2], 0.0], vec![v[2], v[1], 0.0], vec![0.0, 0.0, v[3]]],
        _ => vec![vec![v[0], v[3], v[5]], vec![v[3], v[1], v[4]], vec![v[5], v[4], v[2]]],
    }
}
fn equivalent(t: &M) -> f64 {
    let p = (t[0][0] + t[1][1] + t[2][2]) / 3.0;
    let mut s = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = t[i][j] - if i == j { p } else { 0.0 };
            s += d * d;
        }
    }
    (1.5 * s).sqrt()
}
fn near(a: f64, b: f64, scale: f64) -> bool {
    a.is_finite() && (a - b).abs() <= 1e-12 * scale
}

fn vm_check(rec: &mut Rec, key: &str, s: &StressState, t: &M, hist: &dyn Fn() -> String) {
    let size = t.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    match rec.call(|| s.von_mises()) {
        Ok(v) => {
            // the root of the accumulated squares: rounding shows at sqrt(eps) when they cancel
            let want = equivalent(t);
            let ok = v.is_finite() && v >= 0.0 && (v - want).abs() <= 1e-12 * want + 1e-7 * size * ((want < 1e-3 * size) as u8 as f64) && (size > 0.0 || v == 0.0);
            rec.check(ok, key, || format!("{}: von Mises {} want {}", hist(), v, want));
            rec.outcome(v.to_bits());
        }
        Err(e) => rec.fail("von-mises-fails", format!("{}: {}", hist(), e)),
    }
}
fn cauchy_check(rec: &mut Rec, s: &StressState, want: &M, n: usize, hist: &dyn Fn() -> String) {
    match rec.call(|| {
        let c = s.to_cauchy();
        (c.shape(), read(&c))
    }) {
        Ok((sh, got)) => {
            rec.check(sh == (n, n), "cauchy-shape", || format!("{}: shape {:?}", hist(), sh));
            for i in 0..n.min(sh.0) {
                for j in 0..n.min(sh.1) {
                    rec.check(got[i][j] == want[i][j], "cauchy-component", || format!("{}: component ({}, {}) is {} want {}", hist(), i, j, got[i][j], want[i][j]));
                }
            }
        }
        Err(e) => rec.fail("cauchy-fails", format!("{}: {}", hist(), e)),
    }
}

const LENS: [usize; 4] = [1, 3, 4, 6];

/// judge everything recovered from a deformation against the constant-strain elements
fn judge(rec: &mut Rec, m: &Model, d: &Deformation, hist: &dyn Fn() -> String) {
    let u = displacements(d, &m.nodes);
    let want = m.stresses(&u);
    let c = c_matrix(m.cond, m.mat.youngs, m.mat.poisson);
    let umax = u.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let cmax = c.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    let hmin = m.edges().iter().map(|e| ((m.nodes[e.0].0 - m.nodes[e.1].0).powi(2) + (m.nodes[e.0].1 - m.nodes[e.1].1).powi(2)).sqrt()).fold(f64::MAX, f64::min);
    let tol = 1e-11 * cmax * umax / hmin + 1e-27 * cmax;
    let got = match rec.call(|| d.stresses()) {
        Ok(g) => g,
        Err(e) => return rec.fail("stresses-fail", format!("{}: {}", hist(), e)),
    };
    let vm = match rec.call(|| d.von_mises()) {
        Ok(g) => g,
        Err(e) => return rec.fail("von-mises-fails", format!("{}: {}", hist(), e)),
    };
    rec.trace();
    if !rec.check(got.len() == m.nodes.len() && vm.len() == m.nodes.len(), "count", || format!("{}: {} stresses, {} equivalents", hist(), got.len(), vm.len())) {
        return;
    }
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let (g, w) = match (g, w) {
            (None, None) => {
                rec.check(vm[i] == 0.0, "unused-node", || format!("{}: node {} is in no element but has von Mises {}", hist(), i, vm[i]));
                continue;
            }
            (Some(g), Some(w)) => (g, w),
            _ => {
                rec.fail("presence", format!("{}: node {} has stress {:?}, want {:?}", hist(), i, g, w));
                continue;
            }
        };
        let t = vec![vec![w[0], w[2], 0.0], vec![w[2], w[1], 0.0], vec![0.0, 0.0, w[3]]];
        if m.cond.plane() {
            let c = read(&g.to_cauchy());
            if !rec.check(c.len() >= 2, "cauchy-shape", || format!("{}: {:?}", hist(), c)) {
                continue;
            }
            for r in 0..2 {
                for k in 0..2 {
                    rec.check((c[r][k] - t[r][k]).abs() <= tol, "nodal-stress", || format!("{}: node {} component ({}, {}) is {} want {}", hist(), i, r, k, c[r][k], t[r][k]));
                }
            }
        } else {
            // the distortional part, probed with known states (von Mises is a quadratic form)
            let size = w.iter().fold(0.0f64, |a, x| a.max(x.abs())).max(1e-300);
            for p in 0..4 {
                let mut v = vec![0.0; 4];
                v[p] = size;
                let sum = g.clone() + state(&v, true);
                let mut z = t.clone();
                let (a, b) = [(0, 0), (1, 1), (0, 1), (2, 2)][p];
                z[a][b] += size;
                if p == 2 {
                    z[1][0] += size;
                }
                let (x, y) = (sum.von_mises(), equivalent(&z));
                rec.check((x - y).abs() <= 3.0 * tol + 1e-7 * size, "nodal-stress", || format!("{}: node {} probed along {}: {} want {}", hist(), i, p, x, y));
            }
        }
        // vm is 1-Lipschitz-like in the components (factor 3 covers it); its root amplifies rounding only near zero
        let (x, y) = (vm[i], equivalent(&t));
        rec.check(x >= 0.0 && (x - y).abs() <= 6.0 * tol, "nodal-von-mises", || format!("{}: node {} von Mises {} want {} ({:?})", hist(), i, x, y, w));
        rec.outcome((x * 1e6) as i64);
    }
}

fn solved(rec: &mut Rec, m: &Model, hist: &dyn Fn() -> String) {
    let mut e = m.build();
    match rec.call(|| e.calc_displacements::<CholeskyEnvelopeSolver>()) {
        Ok(d) => judge(rec, m, &d, hist),
        Err(x) => rec.fail("solve-fails", format!("{}: {}", hist(), x)),
    }
}

fn held(m: &mut Model, k: usize) {
    let n = m.nodes.len();
    m.sup = vec![Sup::Free; n];
    match k {
        0 => {
            m.sup[0] = Sup::XY;
            m.sup[1] = Sup::Y;
        }
        _ => {
            m.sup[n - 1] = Sup::XY;
            m.sup[0] = Sup::X;
            m.sup[1] = Sup::Angle(0.7);
        }
    }
}
fn conds(k: usize) -> Cond {
    [Cond::Stress(0.1), Cond::Strain(2.0), Cond::Axi][k]
}
/// unit loads at one degree of freedom (linearity of the model extends this to every load)
fn loaded(m: &mut Model, k: usize) {
    m.point = vec![(k / 2, if k % 2 == 0 { (1.0, 0.0) } else { (0.0, 1.0) })];
}

fn main() {
    let mut h = Harness::new("C16");
    for n in LENS {
        let vals: &[f64] = if n == 6 { h.pick(&[-1.0, 0.0, 1.0, 3.0][..], &[-2.0, -1.0, 0.0, 1.0, 3.0][..]) } else { &[-7.0, -2.0, -1.0, 0.0, 1.0, 3.0, 5.0] };
        let total = (vals.len() as u64).pow(n as u32);
        h.family(&format!("vectors of {}", n), "every integer stress vector over the alphabet, as row and as column: components, equivalent stress, sum, product, quotient", total, |i, rec| {
            let mut d = Digits(i);
            let v: Vec<f64> = (0..n).map(|_| *d.pick(vals)).collect();
            let t = tensor(&v);
            rec.state(i);
            for col in [false, true] {
                let hist = || format!("stress vector {:?} (as {})", v, if col { "column" } else { "row" });
                let s = match rec.call(|| state(&v, col)) {
                    Ok(s) => s,
                    Err(e) => return rec.fail("from-vector-fails", format!("{}: {}", hist(), e)),
                };
                let ty = match n {
                    1 => StressType::Bar,
                    3 => StressType::Plane,
                    4 => StressType::AxiSym,
                    _ => StressType::ThreeD,
                };
                rec.check(s.state_type == ty, "type", || format!("{}: {:?}", hist(), s.state_type));
                vm_check(rec, "von-mises", &s, &t, &hist);
                if n != 4 {
                    cauchy_check(rec, &s, &t, if n == 1 { 1 } else if n == 3 { 2 } else { 3 }, &hist);
                }
                // linear operations, component by component
                for (k, f) in [(2.0, "s * 2"), (0.25, "s / 4"), (-1.0, "s * -1")] {
                    let r = match f {
                        "s / 4" => s.clone() / 4.0,
                        _ => s.clone() * k,
                    };
                    let w: Vec<f64> = v.iter().map(|x| x * k).collect();
                    let hist = || format!("{} of {:?}", f, v);
                    vm_check(rec, "scaled", &r, &tensor(&w), &hist);
                    if n != 4 {
                        cauchy_check(rec, &r, &tensor(&w), if n == 1 { 1 } else if n == 3 { 2 } else { 3 }, &hist);
                    }
                }
                let other: Vec<f64> = (0..n).map(|k| [1.0, -4.0, 2.0, 8.0, -16.0, 32.0][k]).collect();
                let r = s.clone() + state(&other, col);
                let w: Vec<f64> = v.iter().zip(&other).map(|(a, b)| a + b).collect();
                let hist = || format!("{:?} + {:?}", v, other);
                vm_check(rec, "sum", &r, &tensor(&w), &hist);
                if n != 4 {
                    cauchy_check(rec, &r, &tensor(&w), if n == 1 { 1 } else if n == 3 { 2 } else { 3 }, &hist);
                }
                rec.trace();
            }
            rec.sample(|| format!("{:?}", v));
        });
    }
    h.family("scaled vectors", "every stress vector over {-2, 0, 1, 3} in 10 strengths (2^-240 to 2^240), and every one with components of 3 strengths apart", 4 * 10 * 4096 + 4 * 4096, |i, rec| {
        let mut d = Digits(i);
        let n = LENS[d.take(4)];
        let k = d.0 / 4096;
        let mut e = Digits(d.0 % 4096);
        let v: Vec<f64> = (0..n).map(|_| *e.pick(&[-2.0, 0.0, 1.0, 3.0])).collect();
        if e.0 > 0 {
            return;
        }
        let f = |p: i32| 2f64.powi(p);
        let v: Vec<f64> = if k < 10 {
            v.iter().map(|x| x * f([-240, -120, -60, -30, -10, 10, 30, 60, 120, 240][k as usize])).collect()
        } else {
            v.iter().enumerate().map(|(j, x)| x * f([-60, 0, 60][j * 2 % 3])).collect()
        };
        let t = tensor(&v);
        rec.state(i);
        let hist = || format!("stress vector {:?}", v);
        match rec.call(|| state(&v, false)) {
            Ok(s) => {
                vm_check(rec, "von-mises", &s, &t, &hist);
                if n != 4 {
                    cauchy_check(rec, &s, &t, if n == 1 { 1 } else if n == 3 { 2 } else { 3 }, &hist);
                }
            }
            Err(e) => rec.fail("from-vector-fails", format!("{}: {}", hist(), e)),
        }
        rec.trace();
    });
    h.family("scaled models", "4 meshes x 3 conditions in 7 sizes (1e-6 to 1e6) and 7 strengths (1e-15 to 1e15) of a load", 4 * 3 * 7 * 7 * 8, |i, rec| {
        let mut d = Digits(i);
        let (k, c, size, st) = ([0usize, 1, 2, 5][d.take(4)], d.take(3), d.take(7) as i32 * 2 - 6, d.take(7) as i32 * 5 - 15);
        let (nodes, tris) = mesh(k);
        let q = d.0 as usize;
        if q >= 2 * nodes.len() {
            return;
        }
        let nodes = nodes.iter().map(|p| (p.0 * 10f64.powi(size), p.1 * 10f64.powi(size))).collect();
        let mut m = Model::new(nodes, tris, conds(c), material(1));
        held(&mut m, 1);
        loaded(&mut m, q);
        m.point[0].1 .0 *= 10f64.powi(st);
        m.point[0].1 .1 *= 10f64.powi(st);
        rec.state(i);
        if m.solve().is_none() {
            rec.outcome("unsupported");
            return;
        }
        solved(rec, &m, &|| format!("{:?}", m));
    });
    h.family("other lengths", "vectors of every length to 8 and flat/non-flat shapes: refused unless 1, 3, 4 or 6 in a row or column", 9 * 4, |i, rec| {
        let (a, b) = (i as usize % 9, i as usize / 9 + 1);
        if a == 0 {
            return;
        }
        rec.state(i);
        let ok = (a == 1 && LENS.contains(&b)) || (b == 1 && LENS.contains(&a));
        let r = rec.call(|| StressState::from_vector(LinearMatrix::zeros((a, b))));
        rec.check(r.is_ok() == ok, "length", || format!("shape ({}, {}): {:?}", a, b, r.as_ref().map(|s| s.state_type)));
    });
    h.family("mixed types", "sums of states of different kinds are refused", 16, |i, rec| {
        let (a, b) = (LENS[i as usize % 4], LENS[i as usize / 4]);
        rec.state(i);
        let r = rec.call(|| state(&vec![1.0; a], true) + state(&vec![1.0; b], true)).is_ok();
        rec.check(r == (a == b), "mixed-sum", || format!("lengths {} + {}: accepted {}", a, b, r));
    });
    let angles = h.pick(12u64, 24);
    h.family("rotations", "integer states turned about every coordinate axis: the equivalent stress stays", 7u64.pow(3) * 3 * angles, |i, rec| {
        let mut d = Digits(i);
        let al = [-7.0, -2.0, -1.0, 0.0, 1.0, 3.0, 5.0];
        let (x, y, z) = (*d.pick(&al), *d.pick(&al), *d.pick(&al));
        let (ax, an) = (d.take(3), d.take(angles) as f64 * std::f64::consts::PI / 7.3);
        let v = [x, y, 2.0, z, -1.0, 0.5];
        let (s, c) = an.sin_cos();
        let (p, q) = [(0, 1), (1, 2), (0, 2)][ax];
        let mut r = la::eye(3);
        r[p][p] = c;
        r[q][q] = c;
        r[p][q] = -s;
        r[q][p] = s;
        let t = tensor(&v);
        let t2 = la::mul(&r, &la::mul(&t, &la::transpose(&r)));
        let v2 = [t2[0][0], t2[1][1], t2[2][2], t2[0][1], t2[1][2], t2[0][2]];
        rec.state(i);
        let (a, b) = (state(&v, true).von_mises(), state(&v2, true).von_mises());
        rec.check(near(a, b, 20.0), "rotation", || format!("{:?} turned by {} about axis {}: {} became {}", v, an, ax, a, b));
        // in the plane
        if ax == 0 {
            for z in [None, Some(z)] {
                let t = tensor(&[x, y, z.unwrap_or(0.0), 2.0, 0.0, 0.0]);
                let t2 = la::mul(&r, &la::mul(&t, &la::transpose(&r)));
                let (mut a, mut b) = (vec![x, y, 2.0], vec![t2[0][0], t2[1][1], t2[0][1]]);
                if let Some(z) = z {
                    a.push(z);
                    b.push(z);
                }
                let (p, q) = (state(&a, false).von_mises(), state(&b, false).von_mises());
                rec.check(near(p, q, 20.0), "rotation", || format!("{:?} became {:?}: {} became {}", a, b, p, q));
            }
        }
        rec.trace();
    });
    h.family("averages", "every sequence of at most 6 values over 5: the mean, in any order; none for none", (0..=6u32).map(|k| 5u64.pow(k)).sum(), |mut i, rec| {
        let mut n = 0;
        while i >= 5u64.pow(n) {
            i -= 5u64.pow(n);
            n += 1;
        }
        let mut d = Digits(i);
        let v: Vec<f64> = (0..n).map(|_| *d.pick(&[-8.0, 0.0, 1.0, 5.0, 1e6])).collect();
        rec.state((n, i));
        let g = rec.call(|| {
            let mut a = Average::new();
            v.iter().for_each(|x| a.update(*x));
            a.consume()
        });
        let want = if v.is_empty() { None } else { Some(v.iter().sum::<f64>() / v.len() as f64) };
        let ok = match (&g, want) {
            (Ok(None), None) => true,
            (Ok(Some(x)), Some(y)) => (x - y).abs() <= 1e-9 * (1.0 + y.abs()),
            _ => false,
        };
        rec.trace();
        rec.check(ok, "average", || format!("{:?}: {:?} want {:?}", v, g, want));
    });
    h.family("meshes", "7 meshes x 3 conditions x 4 materials x 2 support schemes, a unit load on every degree of freedom", 7 * 3 * 4 * 2, |i, rec| {
        let mut d = Digits(i);
        let (k, c, mt, s) = (d.take(7), d.take(3), d.take(4), d.take(2));
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, conds(c), material(mt));
        held(&mut m, s);
        if k == 4 {
            m.sup[4] = Sup::XY; // a hinge otherwise
        }
        rec.state(i);
        for k in 0..2 * m.nodes.len() {
            let mut m = m.clone();
            loaded(&mut m, k);
            m.point[0].1 .0 *= m.mat.youngs * 1e-3;
            m.point[0].1 .1 *= m.mat.youngs * 1e-3;
            if m.solve().is_none() {
                rec.outcome("unsupported");
                continue;
            }
            solved(rec, &m, &|| format!("{:?}", m));
        }
        rec.sample(|| format!("{:?}", m));
    });
    h.family("axis", "axisymmetric triangles and pairs with one, two or no corners on the axis, listed in every way, unit loads", 4 * 36 * 8 * 3, |i, rec| {
        let mut d = Digits(i);
        let (kind, a, b, k, mt) = (d.take(4), d.take(6), d.take(6), d.take(8), d.take(3));
        let nodes = [
            vec![(0.0, 0.0), (2.0, 0.2), (2.1, 1.5), (0.0, 1.0)],
            vec![(0.0, 0.5), (1.0, 0.0), (2.0, 0.6), (1.0, 1.5)],
            vec![(0.5, 0.0), (2.0, 0.0), (2.0, 1.0), (0.0, 1.0)],
            vec![(1.0, 0.0), (2.0, 0.0), (2.0, 1.0), (1.0, 1.0)],
        ][kind]
            .clone();
        let mut m = Model::new(nodes, vec![listed([0, 1, 2], a), listed([0, 2, 3], b)], Cond::Axi, material(mt));
        m.sup[0] = Sup::XY;
        loaded(&mut m, k);
        m.point[0].1 .0 *= m.mat.youngs * 1e-3;
        m.point[0].1 .1 *= m.mat.youngs * 1e-3;
        // motion off the axis is not prevented there by the model itself
        if m.solve().is_none() {
            rec.outcome("unsupported");
            return;
        }
        rec.state(i);
        solved(rec, &m, &|| format!("{:?}", m));
    });
    h.family("listings", "four triangles: every listing of every triangle's corners (1296) and every order of the elements (24), 2 conditions", 1296 * 24 * 2, |i, rec| {
        let mut d = Digits(i);
        let c = [1, 2][d.take(2)];
        let o = nth_perm(4, d.take(24));
        let (nodes, tris) = mesh(2);
        let mut m = Model::new(nodes, tris.clone(), conds(c), material(2));
        held(&mut m, 1);
        m.point = vec![(1, (1.0, 0.5)), (2, (-2.0, 3.0)), (4, (0.0, 1.0))];
        let ls: Vec<[usize; 3]> = tris.iter().map(|t| listed(*t, d.take(6))).collect();
        m.tris = o.iter().map(|&x| ls[x]).collect();
        rec.state(i);
        solved(rec, &m, &|| format!("{:?}", m));
    });
    for (k, n) in [(1usize, 4usize), (2, 5), (3, 6), (4, 5)] {
        let f: u64 = (1..=n as u64).product();
        h.family(&format!("numberings {}", k), "every numbering of the nodes x 3 conditions, with one node that no element uses", f * 3, |i, rec| {
            let mut d = Digits(i);
            let c = d.take(3);
            let p = nth_perm(n, d.0 as usize);
            let (nodes, tris) = mesh(k);
            let mut m = Model::new(nodes, tris, conds(c), material(0));
            held(&mut m, if k == 3 { 1 } else { 0 });
            if k == 4 {
                m.sup[4] = Sup::XY;
            }
            m.point = vec![(2, (1e6, -2e6)), (n - 1, (0.0, 4e6))];
            let mut m = m.renumbered(&p);
            m.nodes.insert(0, (9.0, 9.0));
            m.sup.insert(0, Sup::XY);
            m.tris.iter_mut().flatten().for_each(|x| *x += 1);
            m.point.iter_mut().for_each(|x| x.0 += 1);
            if m.solve().is_none() {
                return;
            }
            rec.state(i);
            solved(rec, &m, &|| format!("{:?}", m));
        });
    }
    h.family("modes", "stresses of vibration modes: 7 meshes x 2 plane conditions x 4 materials", 7 * 2 * 4, |i, rec| {
        let mut d = Digits(i);
        let (k, c, mt) = (d.take(7), d.take(2), d.take(4));
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, conds(c), material(mt));
        held(&mut m, 0);
        if k == 4 {
            m.sup[4] = Sup::XY;
        }
        let Some((w, _)) = m.modes() else { return };
        let q = 2.min(w.len());
        if w.windows(2).take(q).any(|x| (x[1] - x[0]) / x[1] < 1e-3) {
            return;
        }
        rec.state(i);
        let mut e = m.build();
        match rec.call(|| e.calc_modes(q)) {
            Ok(ds) => {
                for d in &ds {
                    judge(rec, &m, d, &|| format!("mode of {:?}", m))
                }
            }
            Err(x) => rec.fail("modes-fail", format!("{:?}: {}", m, x)),
        }
    });
    let big = h.pick(3usize, 5);
    h.family("grids", "grids of up to 3x2 (thorough 5x2) cells with every choice of diagonals, 3 conditions, 2 load sets", (1..=big).map(|b| (1u64 << (2 * b)) * 6).sum(), |mut i, rec| {
        let mut b = 1;
        while i >= (1 << (2 * b)) * 6 {
            i -= (1 << (2 * b)) * 6;
            b += 1;
        }
        let mut d = Digits(i);
        let (c, l) = (d.take(3), d.take(2));
        let (nodes, tris) = grid(b, 2, d.0);
        let mut m = Model::new(nodes, tris, conds(c), material((i % 3) as usize));
        held(&mut m, 0);
        let e = m.mat.youngs * 1e-3;
        let n = m.nodes.len();
        m.point = if l == 0 { vec![(n - 1, (e, 0.0)), (2, (0.0, -e))] } else { (0..n).map(|k| (k, (e * (k as f64 - 2.0), e * lattice(k as u64, 3)))).collect() };
        rec.state((b, i));
        solved(rec, &m, &|| format!("{:?}", m));
    });
    // a model of which some parts are held at rest
    let (wx, wy) = (h.pick(5usize, 7), 3usize);
    h.family("parts at rest", "grids of 5x3 (thorough 7x3) cells, every rectangle of nodes held and a load elsewhere, alone or beside an unloaded body, 3 conditions", ((wx + 1) * (wx + 1) * (wy + 1) * (wy + 1) * 6) as u64, |i, rec| {
        let mut d = Digits(i);
        let (c, two, x0, x1, y0, y1) = (d.take(3), d.take(2), d.take(wx as u64 + 1), d.take(wx as u64 + 1), d.take(wy as u64 + 1), d.take(wy as u64 + 1));
        if x0 > x1 || y0 > y1 || (x0, y0) == (x1, y1) || (x1 - x0 == wx && y1 - y0 == wy) {
            return;
        }
        let (mut nodes, mut tris) = grid(wx, wy, 0b1011_0010_1101_0011_0101);
        let n = nodes.len();
        let inside = |k: usize| (x0..=x1).contains(&(k % (wx + 1))) && (y0..=y1).contains(&(k / (wx + 1)));
        if two == 1 {
            let (b, t) = (nodes.clone(), tris.clone());
            nodes.extend(b.iter().map(|p| (p.0 + 20.0, p.1)));
            tris.extend(t.iter().map(|t| [t[0] + n, t[1] + n, t[2] + n]));
        }
        let mut m = Model::new(nodes, tris, conds(c), material(2));
        m.sup = (0..m.nodes.len()).map(|k| if k < n { inside(k) } else { k % 5 == 0 }).map(|h| if h { Sup::XY } else { Sup::Free }).collect();
        let e = m.mat.youngs * 1e-3;
        let at = (0..n).filter(|k| !inside(*k)).last().unwrap();
        m.point = vec![(at, (e, -0.5 * e))];
        rec.state(i);
        solved(rec, &m, &|| format!("nodes {:?} to {:?} held{}, {:?}", (x0, y0), (x1, y1), ["", ", two bodies"][two], m.cond));
    });
    // many elements around one node, many nodes
    let fans = [50usize, 255, 256, 257, 1025, 4099];
    h.family("fans", "50 to 4099 triangles around one node, numbered first, in the middle or last, 3 conditions", fans.len() as u64 * 9, |i, rec| {
        let mut d = Digits(i);
        let (c, hub, n) = (d.take(3), d.take(3), fans[d.take(fans.len())]);
        let hub = [0, n / 2, n][hub];
        let rim = |k: usize| if k % n < hub { k % n } else { k % n + 1 };
        let mut nodes = vec![(3.0, 0.0); n + 1];
        for k in 0..n {
            let t = std::f64::consts::TAU * k as f64 / n as f64;
            nodes[rim(k)] = (3.0 + 2.0 * t.cos(), 1.5 * t.sin());
        }
        let tris = (0..n).map(|k| listed([hub, rim(k), rim(k + 1)], k % 6)).collect();
        let mut m = Model::new(nodes, tris, conds(c), material(2));
        // the rim is held in part, so that the elements around the node are strained differently
        m.sup = (0..=n).map(|k| if k == hub { Sup::Free } else { [Sup::XY, Sup::X, Sup::XY, Sup::Y, Sup::XY][k % 5] }).collect();
        let e = m.mat.youngs * 1e-3;
        m.point = vec![(hub, (e, -2.0 * e)), (rim(1), (0.0, 0.1 * e))];
        rec.state(i);
        solved(rec, &m, &|| format!("fan of {} around node {}, {:?}", n, hub, m.cond));
    });
    let longest = 5u64;
    h.family("long strips", "strips of 50 to 16500 cells, three numberings, 3 conditions", longest * 9, |i, rec| {
        let mut d = Digits(i);
        let (c, numbering, nx) = (d.take(3), d.take(3), [50usize, 127, 300, 1100, 16500][d.take(longest as usize)]);
        let (nodes, tris) = grid(nx, 1, 0);
        let n = nodes.len();
        let mut m = Model::new(nodes, tris, conds(c), material(2));
        (0..=nx).for_each(|k| m.sup[k] = if k % 3 == 0 { Sup::XY } else { Sup::Y });
        let e = m.mat.youngs * 1e-3;
        m.point = (0..=nx).map(|k| (nx + 1 + k, (e * ((k % 5) as f64 - 2.0), e * (k % 7) as f64))).collect();
        let p: Vec<usize> = match numbering {
            0 => (0..n).rev().collect(),
            1 => (0..n).map(|k| if k <= nx { 2 * k } else { 2 * (k - nx - 1) + 1 }).collect(),
            _ => {
                let step = (n / 3..).find(|s| (2..=*s).all(|k| s % k != 0 || n % k != 0)).unwrap();
                (0..n).map(|k| k * step % n).collect()
            }
        };
        let m = m.renumbered(&p);
        rec.state(i);
        solved(rec, &m, &|| format!("strip of {} cells, numbering {}, {:?}", nx, numbering, m.cond));
    });
    let (bound, cap) = (h.pick(1, 2), h.pick(400u64, 10000));
    h.family("hash orders", "3 meshes x 3 conditions under hash visiting orders (deviations within the bound)", 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, c) = ([0, 1, 2][d.take(3)], d.take(3));
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, conds(c), material(2));
        held(&mut m, 1);
        m.point = vec![(1, (1.0, 0.5)), (2, (-2.0, 3.0))];
        rec.state(i);
        rec.explore(Mode::Front, bound, cap, |rec| solved(rec, &m, &|| format!("{:?}", m)));
        rec.explore(Mode::Reversed, 64, 64, |rec| solved(rec, &m, &|| format!("{:?}", m)));
    });
    h.finish()
}

fn nth_perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for m in (1..=n).rev() {
        let f: usize = (1..m).product();
        out.push(pool.remove(k / f % m));
        k %= f;
    }
    out
}
