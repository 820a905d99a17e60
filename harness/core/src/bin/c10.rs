//! C10: requested eigenpairs are the lowest ones, ascending and accurate.
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenPair, EigenSystem};
use bugi::matrix::solve::System;
use bugi::matrix::*;
use hcore::*;
use mcheck::*;

/// stiffness on a graph: grounded springs, all different
fn stiffness(n: usize, edges: &[(usize, usize)], var: usize) -> M {
    let mut a = zeros(n, n);
    for (k, &(i, j)) in edges.iter().enumerate() {
        let w = match var {
            0 => 1.0,
            1 => 1.0 + (k % 3) as f64,
            _ => 1000.0 * (1.0 + ((i * 3 + j * 5) % 7) as f64 / 8.0),
        };
        a[i][j] -= w;
        a[j][i] -= w;
        a[i][i] += w;
        a[j][j] += w;
    }
    for i in 0..n {
        a[i][i] += match var {
            0 => {
                if i == 0 {
                    1.0
                } else {
                    0.25 * i as f64 / n as f64
                }
            }
            1 => 0.5 + i as f64 / 4.0,
            _ => 70.0 * (1.0 + i as f64),
        };
    }
    a
}
/// mass: identity, diagonal, or coupled along the same graph
fn mass(n: usize, edges: &[(usize, usize)], var: usize) -> M {
    let mut m = zeros(n, n);
    for i in 0..n {
        m[i][i] = match var {
            0 => 1.0,
            1 => 0.5 + (i * 3 % 5) as f64 / 2.0,
            _ => 0.25,
        };
    }
    if var == 2 {
        for (k, &(i, j)) in edges.iter().enumerate() {
            let w = 0.25 + (k % 2) as f64 / 8.0;
            m[i][j] += w;
            m[j][i] += w;
            m[i][i] += 2.0 * w;
            m[j][j] += 2.0 * w;
        }
    }
    m
}

fn system(k: &M, m: &M, how: usize) -> System {
    if how == 0 {
        return System::from_km(&dense(k), &dense(m));
    }
    let n = k.len();
    let mut s = System::new(n);
    let order: Vec<usize> = if how == 1 { (0..n).collect() } else { (0..n).rev().collect() };
    for &i in &order {
        for &j in &order {
            if m[i][j] != 0.0 && how == 2 {
                s.add_m_coefficient((i, j), m[i][j] / 4.0);
                s.add_m_coefficient((i, j), m[i][j] / 4.0 * 3.0);
            } else if m[i][j] != 0.0 {
                s.add_m_coefficient((i, j), m[i][j]);
            }
            if k[i][j] != 0.0 {
                s.add_k_coefficient((i, j), k[i][j] / 2.0);
                s.add_k_coefficient((i, j), k[i][j] / 2.0);
            }
        }
    }
    s
}

fn searcher(k: &M, m: &M, how: usize) -> DeterminantSearcher {
    DeterminantSearcher::new(EigenSystem::new(system(k, m, how)))
}

/// smallest relative distance between two eigenvalues
fn gap(w: &[f64]) -> f64 {
    w.windows(2).map(|x| (x[1] - x[0]) / x[1]).fold(1.0, f64::min)
}

fn mnorm(v: &[f64], m: &M) -> f64 {
    la::dot(v, &la::mulv(m, v)).max(0.0).sqrt()
}

/// what is wrong with a list of pairs, if anything
fn judge(pairs: &[EigenPair], n: usize, k: &M, m: &M, w: &[f64], v: &M) -> Option<(&'static str, String)> {
    let dofs = k.len();
    if pairs.len() != n {
        return Some(("count", format!("{} pairs, want {}", pairs.len(), n)));
    }
    for (i, p) in pairs.iter().enumerate() {
        let x = p.vector();
        if x.len() != dofs || !la::finite(x) || !p.value().is_finite() {
            return Some(("not-finite", format!("pair {}: {:?}", i, p)));
        }
        let e = (p.value() - w[i]).abs() / w[i];
        if e > VALUE_TOL {
            return Some(("value", format!("pair {}: {} want {} (all {:?})", i, p.value(), w[i], w)));
        }
        let mass = la::dot(x, &la::mulv(m, x));
        if (mass - 1.0).abs() > 1e-8 {
            return Some(("normalisation", format!("pair {}: v'Mv = {}", i, mass)));
        }
        // the vector is the reference one (up to sign), measured in the mass norm
        let r: Vec<f64> = (0..dofs).map(|a| v[a][i]).collect();
        let s = la::dot(&r, &la::mulv(m, x)).signum();
        let d: Vec<f64> = (0..dofs).map(|a| x[a] - s * r[a]).collect();
        if mnorm(&d, m) > VECTOR_TOL {
            return Some(("vector", format!("pair {} (value {}, want {}): off by {:e}: {:?} want {:?}", i, p.value(), w[i], mnorm(&d, m), x, r)));
        }
    }
    None
}
/// the search stops at a relative step of 1e-6
const VALUE_TOL: f64 = 1e-6;
const VECTOR_TOL: f64 = 3e-3;
/// spectra with closer neighbours than this are left out (the iteration converges slowly there)
const MIN_GAP: f64 = 1e-4;

fn edges_of(n: usize, code: u64) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = 0;
    for a in 0..n {
        for b in a + 1..n {
            if code >> k & 1 == 1 {
                v.push((a, b))
            }
            k += 1;
        }
    }
    v
}

struct Case {
    k: M,
    m: M,
    w: Vec<f64>,
    v: M,
}
/// None when the spectrum has repeated or nearly repeated eigenvalues
fn case(n: usize, e: &[(usize, usize)], kv: usize, mv: usize) -> Option<Case> {
    let (k, m) = (stiffness(n, e, kv), mass(n, e, mv));
    let (w, v) = la::gen_eig(&k, &m)?;
    if n > 1 && gap(&w) < MIN_GAP {
        return None;
    }
    Some(Case { k, m, w, v })
}

fn same(a: &[EigenPair], b: &[EigenPair]) -> bool {
    a.len() <= b.len() && a.iter().zip(b).all(|(x, y)| x.value() == y.value() && x.vector() == y.vector())
}

/// the true number of eigenvalues below shifts between, below and above them
fn counts(rec: &mut Rec, c: &Case, s: &DeterminantSearcher, hist: &dyn Fn() -> String) {
    let n = c.w.len();
    for i in 0..=n {
        let shifts = if i == 0 {
            vec![0.0, c.w[0] * 0.4137]
        } else if i == n {
            vec![c.w[n - 1] * 1.0173, c.w[n - 1] * 7.31]
        } else {
            let d = c.w[i] - c.w[i - 1];
            vec![c.w[i - 1] + 0.0531 * d, c.w[i - 1] + 0.4871 * d, c.w[i - 1] + 0.9469 * d]
        };
        for x in shifts {
            let r = rec.call(|| s.eigenvalues_under(x));
            rec.check(r == Ok(i), "below-shift", || format!("{}: {:?} eigenvalues below {}, want {} of {:?}", hist(), r, x, i, c.w));
        }
    }
}

fn whole(rec: &mut Rec, c: &Case, how: usize, hist: &dyn Fn() -> String) {
    let n = c.w.len();
    for want in 0..=n {
        let r = rec.call(|| {
            let mut s = searcher(&c.k, &c.m, how);
            s.find_eigens(want)
        });
        match r {
            Ok(p) => {
                if let Some((key, d)) = judge(&p, want, &c.k, &c.m, &c.w, &c.v) {
                    rec.fail(key, format!("{}, {} pairs: {}", hist(), want, d));
                }
            }
            Err(e) => rec.fail("search-fails", format!("{}, {} pairs: {}", hist(), want, e)),
        }
        rec.trace();
    }
    match rec.call(|| searcher(&c.k, &c.m, how)) {
        Ok(s) => counts(rec, c, &s, hist),
        Err(e) => rec.fail("search-fails", format!("{}: {}", hist(), e)),
    }
}

/// graph families for larger systems
fn shape(kind: usize, n: usize) -> Vec<(usize, usize)> {
    let w = (n as f64).sqrt().ceil() as usize;
    let mut e: Vec<(usize, usize)> = match kind {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| (0, i)).collect(),
        2 => (0..n).flat_map(|i| [(i, i + 1, (i + 1) % w != 0), (i, i + w, true)]).filter(|x| x.1 < n && x.2).map(|x| (x.0, x.1)).collect(),
        3 => (1..n).map(|i| ((i - 1) / 2, i)).collect(),
        4 => (0..n).filter(|i| i % 3 != 2 && i + 1 < n).map(|i| (i, i + 1)).collect(),
        5 => (0..n).map(|i| (i.min((i * 7 + 3) % n), i.max((i * 7 + 3) % n))).filter(|x| x.0 != x.1).collect(),
        6 => (1..n).flat_map(|i| [(i - 1, i), (i.saturating_sub(2), i)]).collect(),
        _ => (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect(),
    };
    e.sort();
    e.dedup();
    e
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    One,
    Find(usize),
    List,
    Count,
}

/// a history of requests: pairs found stay as they are, and every answer is a correct prefix
fn history(rec: &mut Rec, c: &Case, ops: &[Op], hist: &dyn Fn() -> String) {
    let n = c.w.len();
    let mut s = match rec.call(|| searcher(&c.k, &c.m, 0)) {
        Ok(s) => s,
        Err(e) => return rec.fail("search-fails", format!("{}: {}", hist(), e)),
    };
    let mut found: Vec<EigenPair> = vec![];
    for (at, op) in ops.iter().enumerate() {
        let h2 = || format!("{} ops {:?}", hist(), &ops[..=at]);
        let r = rec.call(|| match op {
            Op::One => {
                s.secant_iterate_one();
                None
            }
            Op::Find(k) => Some(s.find_eigens(*k)),
            Op::List | Op::Count => None,
        });
        let got = match r {
            Ok(g) => g,
            Err(e) => return rec.fail("search-fails", format!("{}: {}", h2(), e)),
        };
        let all = match rec.call(|| s.eigenpairs()) {
            Ok(a) => a,
            Err(e) => return rec.fail("search-fails", format!("{}: {}", h2(), e)),
        };
        rec.check(same(&found, &all), "pairs-changed", || format!("{}: had {:?}, now {:?}", h2(), found, all));
        let grown = match op {
            Op::One => all.len() > found.len() || found.len() == n,
            Op::Find(k) => all.len() >= *k,
            _ => all.len() == found.len(),
        };
        rec.check(grown && all.len() <= n, "count", || format!("{}: {} pairs before, {} after", h2(), found.len(), all.len()));
        if let (Some(g), Op::Find(k)) = (&got, op) {
            rec.check(g.len() == *k && same(g, &all), "prefix", || format!("{}: returned {:?} of {:?}", h2(), g, all));
        }
        if let Some((key, d)) = judge(&all, all.len().min(n), &c.k, &c.m, &c.w, &c.v) {
            rec.fail(key, format!("{}: {}", h2(), d));
        }
        if *op == Op::Count {
            counts(rec, c, &s, &h2);
        }
        found = all;
        rec.state((hist(), found.len(), at));
    }
    rec.trace();
}

fn main() {
    let mut h = Harness::new("C10");
    h.assume("eigenvalues are at least 1e-4 of their size apart; where they repeat the search is not specified");
    h.assume("values are compared to 1e-6 and vectors to 3e-3 in the mass norm: the search stops at a relative step of 1e-6 (largest error seen: below 1e-8 and 5e-4)");
    for n in 1..=5usize {
        let g = 1u64 << (n * (n - 1) / 2);
        h.family(&format!("graphs {}", n), "every sparsity graph x 3 stiffnesses x 3 masses x 3 ways to build the system; every number of pairs; counts at shifts in every interval", g * 27, |i, rec| {
            let mut d = Digits(i);
            let (kv, mv, how) = (d.take(3), d.take(3), d.take(3));
            let e = edges_of(n, d.0);
            let Some(c) = case(n, &e, kv, mv) else {
                rec.outcome("left out");
                return;
            };
            rec.state(i);
            rec.outcome("searched");
            whole(rec, &c, how, &|| format!("edges {:?} stiffness {} mass {} built {}", e, kv, mv, how));
            rec.sample(|| format!("edges {:?} stiffness {:?} mass {:?} eigenvalues {:?}", e, c.k, c.m, c.w));
        });
    }
    // chains of equal springs: every eigenpair is known in closed form
    let lens: &[usize] = h.pick(&[16, 63, 65, 130, 257], &[16, 63, 65, 130, 257, 1025]);
    h.family("chains", "chains of 16 to 257 (thorough: 1025) equal masses and springs in 4 numberings x 3 unit systems (plain, graded by powers of two, uneven): the lowest 1 and 8 pairs, counts at shifts", lens.len() as u64 * 12, |i, rec| {
        let mut d = Digits(i);
        let (unit, numbering, n) = (d.take(3), d.take(4), lens[d.take(lens.len())]);
        let p: Vec<usize> = match numbering {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).map(|k| if 2 * k < n { 2 * k } else { 2 * (n - 1 - k) + 1 }).collect(),
            _ => {
                let step = (n / 3..).find(|s| (2..=*s).all(|k| s % k != 0 || n % k != 0)).unwrap();
                (0..n).map(|k| k * step % n).collect()
            }
        };
        // rescaling the unknowns keeps the eigenvalues
        let u = |k: usize| match unit {
            0 => 1.0,
            1 => 2.0f64.powi(k as i32 % 21 - 10),
            _ => 1.0 + (k % 5) as f64,
        };
        let (mut k, mut m) = (zeros(n, n), zeros(n, n));
        for a in 0..n {
            k[p[a]][p[a]] = 2.0 * u(a) * u(a) * 1e4;
            m[p[a]][p[a]] = u(a) * u(a) / 4.0;
            if a + 1 < n {
                k[p[a]][p[a + 1]] = -u(a) * u(a + 1) * 1e4;
                k[p[a + 1]][p[a]] = -u(a) * u(a + 1) * 1e4;
            }
        }
        let t = std::f64::consts::PI / (n + 1) as f64;
        let w: Vec<f64> = (1..=n).map(|j| 16e4 * (j as f64 * t / 2.0).sin().powi(2)).collect();
        let mut v = zeros(n, n);
        for a in 0..n {
            for j in 0..n {
                v[p[a]][j] = 2.0 * (2.0 / (n + 1) as f64).sqrt() * ((a + 1) as f64 * (j + 1) as f64 * t).sin() / u(a);
            }
        }
        let c = Case { k, m, w, v };
        rec.state(i);
        let hist = || format!("chain of {} numbering {} units {}", n, numbering, unit);
        for want in [1, 8] {
            match rec.call(|| searcher(&c.k, &c.m, 1).find_eigens(want)) {
                Ok(p) => {
                    if let Some((key, d)) = judge(&p, want, &c.k, &c.m, &c.w, &c.v) {
                        rec.fail(key, format!("{}, {} pairs: {}", hist(), want, d));
                    }
                }
                Err(e) => rec.fail("search-fails", format!("{}, {} pairs: {}", hist(), want, e)),
            }
            rec.trace();
        }
        match rec.call(|| searcher(&c.k, &c.m, 1)) {
            Ok(s) => counts(rec, &c, &s, &hist),
            Err(e) => rec.fail("search-fails", format!("{}: {}", hist(), e)),
        }
    });
    let (stride, step) = (h.pick(8u64, 1), 9);
    h.family("graphs 6", "6-vertex sparsity graphs (thorough: all, quick: an eighth) x 3 stiffnesses x 3 masses", (1 << 15) * step, |i, rec| {
        if (i / step) % stride != (i / step / stride) % stride {
            return;
        }
        let mut d = Digits(i);
        let (kv, mv) = (d.take(3), d.take(3));
        let e = edges_of(6, d.0);
        let Some(c) = case(6, &e, kv, mv) else { return };
        rec.state(i);
        whole(rec, &c, 0, &|| format!("edges {:?} stiffness {} mass {}", e, kv, mv));
    });
    let top = h.pick(14u64, 22);
    h.family("larger", "8 graph families, n from 7 to the bound, 3 stiffnesses, 3 masses, 3 ways to build", (top - 6) * 8 * 27, |i, rec| {
        let mut d = Digits(i);
        let (kind, kv, mv, how) = (d.take(8), d.take(3), d.take(3), d.take(3));
        let n = d.0 as usize + 7;
        let e = shape(kind, n);
        let Some(c) = case(n, &e, kv, mv) else {
            rec.outcome("left out");
            return;
        };
        rec.state(i);
        rec.outcome("searched");
        whole(rec, &c, how, &|| format!("family {} n {} stiffness {} mass {} built {}", kind, n, kv, mv, how));
    });
    let top = h.pick(14u64, 20);
    h.family("spectra", "systems with a given spectrum (spread evenly, in steps of 10, of 3, in pairs and triples 1e-3 to 2e-4 apart, packed within a per cent, far above zero, one far below the rest) in 6 bases x 3 masses, n from 2 to the bound", (top - 1) * 9 * 6 * 3, |i, rec| {
        let mut d = Digits(i);
        let (mv, basis, kind) = (d.take(3), d.take(6), d.take(9));
        let n = d.0 as usize + 2;
        let w: Vec<f64> = (0..n)
            .map(|j| {
                let x = j as f64;
                match kind {
                    0 => 1.0 + x,
                    1 => 10f64.powi(j.min(6) as i32) * if j > 6 { x } else { 1.0 },
                    2 => 1e-3 * 3f64.powi(j as i32),
                    3 => (1 + j / 2) as f64 * (1.0 + (j % 2) as f64 * 1e-3),
                    4 => (1 + j / 2) as f64 * (1.0 + (j % 2) as f64 * 2e-4),
                    5 => (1 + j / 3) as f64 * (1.0 + (j % 3) as f64 * 5e-4),
                    6 => 1.0 + 1e-3 * x,
                    7 => 1e6 + 1e3 * x * x + 500.0 * x,
                    _ => {
                        if j == 0 {
                            1e-4
                        } else {
                            1.0 + 0.02 * x
                        }
                    }
                }
            })
            .collect();
        // an orthogonal basis
        let mut q = la::eye(n);
        let reflect = |q: &mut M, u: Vec<f64>| {
            let uu = la::dot(&u, &u);
            for r in q.iter_mut() {
                let s = 2.0 * la::dot(r, &u) / uu;
                for a in 0..n {
                    r[a] -= s * u[a];
                }
            }
        };
        match basis {
            0 => {}
            1 => reflect(&mut q, vec![1.0; n]),
            2 => reflect(&mut q, (0..n).map(|a| 1.0 + ((a * 5 + 2) % 7) as f64).collect()),
            3 => {
                reflect(&mut q, (0..n).map(|a| (a as f64 * 1.7).sin() + 0.1).collect());
                reflect(&mut q, (0..n).map(|a| 1.0 / (1 + a) as f64).collect());
            }
            // each unknown mixes with its neighbour only
            4 => {
                for a in (0..n - 1).step_by(2) {
                    let mut u = vec![0.0; n];
                    u[a] = 1.0;
                    u[a + 1] = -2.0;
                    reflect(&mut q, u);
                }
            }
            // the lowest vectors hardly show in the last unknown, the highest hardly in the first
            _ => {
                for a in 0..n - 1 {
                    let mut u = vec![0.0; n];
                    u[a] = 1.0;
                    u[a + 1] = -8.0;
                    reflect(&mut q, u);
                }
            }
        }
        // mass L L', stiffness L Q D Q' L', vectors L^-T Q
        let mut l = la::eye(n);
        for a in 0..n {
            match mv {
                0 => {}
                1 => l[a][a] = 0.5 + (a % 3) as f64,
                _ => {
                    l[a][a] = 1.0 + (a % 2) as f64 / 2.0;
                    if a > 0 {
                        l[a][a - 1] = 0.5;
                    }
                }
            }
        }
        let lq = la::mul(&l, &q);
        let (mut k, mut m) = (zeros(n, n), zeros(n, n));
        for a in 0..n {
            for b in 0..=a {
                let x: f64 = (0..n).map(|j| lq[a][j] * w[j] * lq[b][j]).sum();
                let y: f64 = (0..n).map(|j| l[a][j] * l[b][j]).sum();
                k[a][b] = x;
                k[b][a] = x;
                m[a][b] = y;
                m[b][a] = y;
            }
        }
        let mut v = q.clone();
        for j in 0..n {
            for a in (0..n).rev() {
                let s: f64 = (a + 1..n).map(|b| l[b][a] * v[b][j]).sum();
                v[a][j] = (v[a][j] - s) / l[a][a];
            }
        }
        if kind == 1 && n > 6 && basis > 0 {
            return; // not representable closely enough
        }
        rec.state(i);
        rec.outcome("searched");
        whole(rec, &Case { k, m, w, v }, 0, &|| format!("spectrum {} of {} in basis {} mass {}", kind, n, basis, mv));
    });
    h.family("renumbering", "every permutation of 8 graph families of 5 vertices: the pairs follow the numbering", 120 * 8 * 2, |i, rec| {
        let mut d = Digits(i);
        let (kind, mv) = (d.take(8), d.take(2) + 1);
        let p = &permutations(5)[d.0 as usize];
        let e = shape(kind, 5);
        let (k, m) = (stiffness(5, &e, 1), mass(5, &e, mv));
        let (mut pk, mut pm) = (zeros(5, 5), zeros(5, 5));
        for x in 0..5 {
            for y in 0..5 {
                pk[p[x]][p[y]] = k[x][y];
                pm[p[x]][p[y]] = m[x][y];
            }
        }
        let Some((w, v)) = la::gen_eig(&pk, &pm) else { return };
        if gap(&w) < MIN_GAP {
            return;
        }
        rec.state(i);
        whole(rec, &Case { k: pk, m: pm, w, v }, 1, &|| format!("family {} mass {} renumbered {:?}", kind, mv, p));
    });
    h.family("scale", "the same systems in units from 1e-6 to 1e9: stiffness and mass scaled separately", 8 * 3 * 16, |i, rec| {
        let mut d = Digits(i);
        let (kind, mv, a, b) = (d.take(8), d.take(3), d.take(4), d.take(4));
        let Some(mut c) = case(5, &shape(kind, 5), 1, mv) else { return };
        let (sk, sm) = ([1e-6, 1.0, 1e4, 1e9][a], [1e-6, 1e-2, 1.0, 1e3][b]);
        c.k.iter_mut().flatten().for_each(|x| *x *= sk);
        c.m.iter_mut().flatten().for_each(|x| *x *= sm);
        c.w.iter_mut().for_each(|x| *x *= sk / sm);
        c.v.iter_mut().flatten().for_each(|x| *x /= f64::sqrt(sm));
        rec.state(i);
        whole(rec, &c, 0, &|| format!("family {} mass {} scaled {:e} {:e}", kind, mv, sk, sm));
    });
    let alphabet = [Op::One, Op::Find(1), Op::Find(2), Op::Find(3), Op::Find(4), Op::Find(0), Op::List, Op::Count];
    let depth = h.pick(3u32, 4);
    h.family("histories", "every history of requests (one step, find 0..4, list, count) to the depth, 6 systems of 4 or 5 unknowns", pow(8, depth) * 6, |i, rec| {
        let mut d = Digits(i);
        let which = d.take(6);
        let ops: Vec<Op> = (0..depth).map(|_| *d.pick(&alphabet)).collect();
        let (n, kind, kv, mv) = [(4, 0, 0, 0), (4, 1, 1, 1), (4, 7, 2, 2), (5, 0, 1, 2), (5, 3, 2, 1), (5, 4, 1, 0)][which];
        let Some(c) = case(n, &shape(kind, n), kv, mv) else { return };
        history(rec, &c, &ops, &|| format!("system {}", which));
    });
    h.family("to the end", "step by step until every pair is found, all graphs of 4 vertices and 9 data", 64 * 9, |i, rec| {
        let mut d = Digits(i);
        let (kv, mv) = (d.take(3), d.take(3));
        let e = edges_of(4, d.0);
        let Some(c) = case(4, &e, kv, mv) else { return };
        history(rec, &c, &[Op::One; 6], &|| format!("edges {:?} {} {}", e, kv, mv));
        history(rec, &c, &[Op::Find(1), Op::Find(2), Op::Find(3), Op::Find(4), Op::One], &|| format!("edges {:?} {} {}", e, kv, mv));
    });
    for n in 2..=4usize {
        let g = 1u64 << (n * (n - 1) / 2);
        h.family(&format!("couplings apart {}", n), "every pair of sparsity graphs for stiffness and mass: where only the mass couples, the stiffness holds a zero (given as such, left by cancelling contributions, or stored in the matrix handed over)", g * g * 3, |i, rec| {
            let mut d = Digits(i);
            let (how, ek, em) = (d.take(3), edges_of(n, d.take(g) as u64), edges_of(n, d.0));
            let (k, m) = (stiffness(n, &ek, 1), mass(n, &em, 2));
            let Some((w, v)) = la::gen_eig(&k, &m) else { return };
            if gap(&w) < MIN_GAP {
                return rec.outcome("left out");
            }
            rec.state(i);
            rec.outcome("searched");
            let make = || {
                if how == 2 {
                    let (mut dk, mut dm) = (Dictionary::zeros(n), Dictionary::zeros(n));
                    for a in 0..n {
                        for b in 0..n {
                            if m[a][b] != 0.0 {
                                dk[(a, b)] = 0.0;
                                dm[(a, b)] = m[a][b];
                            }
                            if k[a][b] != 0.0 {
                                dk[(a, b)] = k[a][b];
                            }
                        }
                    }
                    return System::from_km(&dk, &dm);
                }
                let mut s = System::new(n);
                for a in 0..n {
                    for b in 0..n {
                        if m[a][b] != 0.0 {
                            s.add_m_coefficient((a, b), m[a][b]);
                            if how == 1 {
                                s.add_k_coefficient((a, b), 2.5);
                            }
                        }
                    }
                }
                for a in 0..n {
                    for b in 0..n {
                        if k[a][b] != 0.0 || m[a][b] != 0.0 {
                            s.add_k_coefficient((a, b), k[a][b]);
                        }
                        if m[a][b] != 0.0 && how == 1 {
                            s.add_k_coefficient((a, b), -2.5);
                        }
                    }
                }
                s
            };
            let hist = || format!("stiffness on {:?}, mass on {:?}, built {}", ek, em, how);
            let r = rec.call(|| DeterminantSearcher::new(EigenSystem::new(make())).find_eigens(n));
            match r {
                Ok(p) => {
                    if let Some((key, d)) = judge(&p, n, &k, &m, &w, &v) {
                        rec.fail(key, format!("{}: {}", hist(), d));
                    }
                }
                Err(e) => rec.fail("search-fails", format!("{}: {}", hist(), e)),
            }
            match rec.call(|| DeterminantSearcher::new(EigenSystem::new(make()))) {
                Ok(s) => counts(rec, &Case { k, m, w, v }, &s, &hist),
                Err(e) => rec.fail("search-fails", format!("{}: {}", hist(), e)),
            }
            rec.sample(hist);
            rec.trace();
        });
    }
    h.family("refused", "more pairs than unknowns are refused", 5, |i, rec| {
        let n = i as usize + 1;
        let Some(c) = case(n, &shape(0, n), 1, 1) else { return };
        let r = rec.call(|| searcher(&c.k, &c.m, 0).find_eigens(n + 1));
        rec.check(r.is_err(), "too-many", || format!("n {}: {:?}", n, r));
        rec.state(i);
        rec.trace();
    });
    for n in 1..=3usize {
        let g = 1u64 << (n * (n - 1) / 2);
        h.family(&format!("hash orders {}", n), "every sparsity graph, hash visiting orders (first-entry deviations within the bound)", g * 2, |i, rec| {
            let mv = (i % 2) as usize + 1;
            let e = edges_of(n, i / 2);
            let Some(c) = case(n, &e, 1, mv) else { return };
            let bound = if n < 3 { 3 } else if rec.thorough() { 3 } else { 2 };
            rec.state(i);
            rec.explore(Mode::Front, bound, 20000, |rec| {
                let r = rec.call(|| searcher(&c.k, &c.m, 0).find_eigens(n));
                match r {
                    Ok(p) => {
                        if let Some((key, d)) = judge(&p, n, &c.k, &c.m, &c.w, &c.v) {
                            rec.fail(key, format!("edges {:?}: {}", e, d));
                        }
                    }
                    Err(x) => rec.fail("search-fails", format!("edges {:?}: {}", e, x)),
                }
                rec.trace();
            });
        });
    }
    h.finish()
}
