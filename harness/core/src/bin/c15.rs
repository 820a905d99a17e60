//! C15: vibration modes of a model equal an independent modal analysis.
use hcore::fe::*;
use mcheck::la;
use mcheck::*;

struct Mode1 {
    freq: Option<f64>,
    u: Vec<f64>,
    norms: Vec<f64>,
}

fn real(m: &Model, n: usize) -> Vec<Mode1> {
    let mut e = m.build();
    e.calc_modes(n).iter().map(|d| Mode1 { freq: d.frequency(), u: displacements(d, &m.nodes), norms: d.displacement_norms() }).collect()
}

/// well separated spectra only; the rest is unspecified
fn reference(m: &Model, n: usize) -> Option<(Vec<f64>, Vec<Vec<f64>>)> {
    let (w, v) = m.modes()?;
    // neighbours must be apart up to the one after the last requested
    let upto = (n + 1).min(w.len());
    if w[..upto].windows(2).any(|x| (x[1] - x[0]) / x[1] < 1e-3) {
        return None;
    }
    Some((w, v))
}

fn judge(rec: &mut Rec, m: &Model, n: usize, reference: &(Vec<f64>, Vec<Vec<f64>>), hist: &dyn Fn() -> String) {
    let (w, v) = reference;
    let got = match rec.call(|| real(m, n)) {
        Ok(g) => g,
        Err(e) => return rec.fail("modes-fail", format!("{}: {}", hist(), e)),
    };
    rec.trace();
    if !rec.check(got.len() == n, "count", || format!("{}: {} modes, want {}", hist(), got.len(), n)) {
        return;
    }
    let mm = m.m();
    for (i, g) in got.iter().enumerate() {
        let want = w[i].sqrt();
        let f = g.freq.unwrap_or(f64::NAN);
        if !rec.check((f - want).abs() <= 2e-6 * want, "frequency", || format!("{}: mode {} has frequency {:?}, want {} (all {:?})", hist(), i, g.freq, want, w.iter().map(|x| x.sqrt()).collect::<Vec<_>>())) {
            continue;
        }
        // same shape up to sign, unit mass
        let s = la::dot(&g.u, &la::mulv(&mm, &v[i])).signum();
        let d: Vec<f64> = g.u.iter().zip(&v[i]).map(|(x, y)| x - s * y).collect();
        let e = la::dot(&d, &la::mulv(&mm, &d)).max(0.0).sqrt();
        let mass = la::dot(&g.u, &la::mulv(&mm, &g.u));
        rec.check((mass - 1.0).abs() <= 1e-6, "mode-mass", || format!("{}: mode {} has mass {}", hist(), i, mass));
        rec.check(la::finite(&g.u) && e <= 5e-3, "mode-shape", || format!("{}: mode {} off by {:e}: {:?} want {:?}", hist(), i, e, g.u, v[i]));
        let size = la::norm(&v[i]);
        let norms: Vec<f64> = g.u.chunks(2).map(|c| c[0].hypot(c[1])).collect();
        rec.check(g.norms.len() == norms.len() && g.norms.iter().zip(&norms).all(|(x, y)| (x - y).abs() <= 1e-9 * size), "norms", || format!("{}: mode {} moves its nodes by {:?}, want {:?}", hist(), i, g.norms, norms));
        for (k, sup) in m.sup.iter().enumerate() {
            let held: Vec<(f64, f64)> = match sup {
                Sup::Free => vec![],
                Sup::X => vec![(1.0, 0.0)],
                Sup::Y => vec![(0.0, 1.0)],
                Sup::XY => vec![(1.0, 0.0), (0.0, 1.0)],
                Sup::Angle(a) => vec![(a.cos(), a.sin())],
            };
            for h in held {
                let x = g.u[2 * k] * h.0 + g.u[2 * k + 1] * h.1;
                rec.check(x.abs() <= 1e-12 * size, "constraint-violated", || format!("{}: mode {} moves node {} by {:e}", hist(), i, k, x));
            }
        }
    }
}

fn held(m: &mut Model, k: usize) {
    let n = m.nodes.len();
    m.sup = vec![Sup::Free; n];
    match k {
        0 => {
            m.sup[0] = Sup::XY;
            m.sup[1] = Sup::Y;
        }
        1 => {
            m.sup[n - 1] = Sup::XY;
            m.sup[0] = Sup::XY;
        }
        2 => {
            m.sup[0] = Sup::Angle(0.7);
            m.sup[1] = Sup::XY;
            m.sup[n - 1] = Sup::Angle(-0.4);
        }
        _ => {
            m.sup[0] = Sup::X;
            m.sup[1] = Sup::XY;
            m.sup[n - 1] = Sup::Y;
        }
    }
}
fn cond(k: usize) -> Cond {
    [Cond::Stress(0.1), Cond::Strain(2.0)][k]
}

fn main() {
    let mut h = Harness::new("C15");
    h.assume("squared frequencies at least 1e-3 of their size apart (up to the one after the last requested); axisymmetric modes are not specified");
    h.family("meshes", "7 meshes x 2 conditions x 4 materials x 4 support schemes, every number of modes", 7 * 2 * 4 * 4, |i, rec| {
        let mut d = Digits(i);
        let (k, c, mt, s) = (d.take(7), d.take(2), d.take(4), d.take(4));
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, cond(c), material(mt));
        held(&mut m, s);
        let dofs = m.basis().len();
        rec.state(i);
        for n in 0..=dofs {
            let Some(r) = reference(&m, n) else {
                rec.outcome("left out");
                break;
            };
            rec.outcome("searched");
            judge(rec, &m, n, &r, &|| format!("{} modes of {:?}", n, m));
        }
        rec.sample(|| format!("{:?}", m));
    });
    // loads do not matter to modes
    h.family("loaded", "the same with loads on every node and edge: modes ignore them", 7 * 2 * 4, |i, rec| {
        let mut d = Digits(i);
        let (k, c, s) = (d.take(7), d.take(2), d.take(4));
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, cond(c), material(0));
        held(&mut m, s);
        m.point = (0..m.nodes.len()).map(|x| (x, (1e6, -2e6))).collect();
        m.line = m.edges().iter().map(|e| (e.0, e.1, (3e5, 1e5))).collect();
        let Some(r) = reference(&m, 2) else { return };
        rec.state(i);
        judge(rec, &m, 2, &r, &|| format!("{:?}", m));
    });
    for (k, n) in [(0usize, 3usize), (1, 4), (2, 5), (4, 5), (3, 6)] {
        let f: u64 = (1..=n as u64).product();
        h.family(&format!("numberings {}", k), "every numbering of the nodes x 2 conditions x 2 support schemes, 3 modes", f * 4, |i, rec| {
            let mut d = Digits(i);
            let (c, s) = (d.take(2), [0, 2][d.take(2)]);
            let p = nth_perm(n, d.0 as usize);
            let (nodes, tris) = mesh(k);
            let mut m = Model::new(nodes, tris, cond(c), material(2));
            held(&mut m, s);
            if k == 4 {
                m.sup[4] = Sup::XY;
            }
            let m = m.renumbered(&p);
            let q = m.basis().len().min(3);
            let Some(r) = reference(&m, q) else { return };
            rec.state(i);
            judge(rec, &m, q, &r, &|| format!("{:?} (renumbered {:?})", m, p));
        });
    }
    let kinds = [Sup::Free, Sup::X, Sup::Y, Sup::XY, Sup::Angle(0.5), Sup::Angle(-1.1), Sup::Angle(-4.0)];
    for (k, n) in [(0usize, 3u32), (1, 4)] {
        h.family(&format!("supports {}", n), "every assignment of a support (none, two fixed directions, both, three angles) to every node x 2 conditions, 3 modes", pow(7, n) * 2, |i, rec| {
            let mut d = Digits(i);
            let c = d.take(2);
            let (nodes, tris) = mesh(k);
            let mut m = Model::new(nodes, tris, cond(c), material(2));
            m.sup = (0..n).map(|_| kinds[d.take(7)]).collect();
            let q = m.basis().len().min(3);
            if q == 0 || m.solve().is_none() {
                return;
            }
            let Some(r) = reference(&m, q) else {
                rec.outcome("left out");
                return;
            };
            rec.state(i);
            rec.outcome("searched");
            judge(rec, &m, q, &r, &|| format!("{:?}", m));
        });
    }
    h.family("listings", "four triangles: every listing of every triangle's corners (1296) and 4 orders of the elements", 1296 * 4, |i, rec| {
        let mut d = Digits(i);
        let o = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]][d.take(4)];
        let (nodes, tris) = mesh(2);
        let mut m = Model::new(nodes, tris.clone(), Cond::Strain(0.5), material(2));
        held(&mut m, 1);
        let ls: Vec<[usize; 3]> = tris.iter().map(|t| listed(*t, d.take(6))).collect();
        m.tris = o.iter().map(|&x| ls[x]).collect();
        let Some(r) = reference(&m, 3) else { return };
        rec.state(i);
        judge(rec, &m, 3, &r, &|| format!("{:?}", m));
    });
    let big = h.pick(3usize, 5);
    h.family("grids", "2-high grids of 1 to 3 (thorough 5) cells with every choice of diagonals x 2 conditions x 3 support schemes, 5 modes", (1..=big).map(|b| (1u64 << (2 * b)) * 6).sum(), |mut i, rec| {
        let mut b = 1;
        while i >= (1 << (2 * b)) * 6 {
            i -= (1 << (2 * b)) * 6;
            b += 1;
        }
        let mut d = Digits(i);
        let (c, s) = (d.take(2), d.take(3));
        let (nodes, tris) = grid(b, 2, d.0);
        let mut m = Model::new(nodes, tris, cond(c), material((i % 3) as usize));
        held(&mut m, s);
        let q = 5.min(m.basis().len());
        let Some(r) = reference(&m, q) else { return };
        rec.state((b, i));
        judge(rec, &m, q, &r, &|| format!("{:?}", m));
    });
    h.family("thickness and size", "frequencies do not depend on the thickness and follow the size, stiffness and density: 7 meshes x 4 thicknesses x 6 sizes x 3 materials", 7 * 4 * 6 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, t, a, mt) = (d.take(7), [1e-4, 0.1, 1.0, 50.0][d.take(4)], [1e-3, 0.1, 1.0, 100.0, 1e-6, 1e8][d.take(6)], d.take(3));
        let (mut nodes, tris) = mesh(k);
        nodes.iter_mut().for_each(|p| *p = (p.0 * a, p.1 * a));
        let mut m = Model::new(nodes, tris, Cond::Stress(t), material(mt));
        held(&mut m, 1);
        let q = 3.min(m.basis().len());
        let Some(r) = reference(&m, q) else { return };
        rec.state(i);
        judge(rec, &m, q, &r, &|| format!("{:?}", m));
    });
    let lens: &[usize] = h.pick(&[16, 32, 40], &[16, 32, 40, 66]);
    h.family("long strips", "strips of 16 to 40 (thorough: 66) cells, four numberings, both conditions, 3 modes", lens.len() as u64 * 8, |i, rec| {
        let mut d = Digits(i);
        let (c, numbering, nx) = (d.take(2), d.take(4), lens[d.take(lens.len())]);
        let (nodes, tris) = grid(nx, 1, 0);
        let n = nodes.len();
        let mut m = Model::new(nodes, tris, cond(c), material(2));
        m.sup[0] = Sup::XY;
        (0..=nx).for_each(|k| m.sup[k] = if k % 4 == 0 { Sup::XY } else { Sup::Y });
        m.sup[nx] = Sup::Y;
        let p: Vec<usize> = match numbering {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).map(|k| if k <= nx { 2 * k } else { 2 * (k - nx - 1) + 1 }).collect(),
            _ => {
                let step = (n / 3..).find(|s| (2..=*s).all(|k| s % k != 0 || n % k != 0)).unwrap();
                (0..n).map(|k| k * step % n).collect()
            }
        };
        let m = m.renumbered(&p);
        let Some(r) = reference(&m, 3) else {
            rec.outcome("left out");
            return;
        };
        rec.state(i);
        judge(rec, &m, 3, &r, &|| format!("strip of {} cells, numbering {}, {:?}", nx, numbering, m.cond));
    });
    let (bound, cap) = (h.pick(1, 2), h.pick(1500u64, 20000));
    h.family("hash orders", "3 meshes x 2 conditions x 2 support schemes under hash visiting orders (deviations within the bound), 2 modes", 3 * 4, |i, rec| {
        let mut d = Digits(i);
        let (k, c, s) = ([0, 1, 2][d.take(3)], d.take(2), [0, 2][d.take(2)]);
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, cond(c), material(2));
        held(&mut m, s);
        let q = 2.min(m.basis().len());
        let Some(r) = reference(&m, q) else { return };
        rec.state(i);
        rec.explore(Mode::Front, bound, cap, |rec| judge(rec, &m, q, &r, &|| format!("{:?}", m)));
        rec.explore(Mode::Reversed, 64, 64, |rec| judge(rec, &m, q, &r, &|| format!("{:?}", m)));
    });
    h.finish()
}

fn nth_perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for m in (1..=n).rev() {
        let f: usize = (1..m).product();
        out.push(pool.remove(k / f % m));
        k %= f;
    }
    out
}
