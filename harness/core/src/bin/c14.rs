//! C14: the static solution equals an independent finite element solution.
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use hcore::fe::*;
use hcore::*;
use mcheck::la;
use mcheck::*;

const SOLVERS: [&str; 3] = ["dense", "cholesky", "gauss-seidel"];

fn real(m: &Model, solver: usize) -> Vec<f64> {
    let mut e = m.build();
    let d = match solver {
        0 => e.calc_displacements::<DenseGaussSolver>(),
        1 => e.calc_displacements::<CholeskyEnvelopeSolver>(),
        _ => e.calc_displacements::<GaussSeidelSolver>(),
    };
    displacements(&d, &m.nodes)
}

fn judge(rec: &mut Rec, m: &Model, want: &[f64], solver: usize, hist: &dyn Fn() -> String) {
    let (mut tol, mut may_fail) = (1e-8, false);
    if solver == 2 {
        // the iteration is only promised where it converges well within its limit
        let k = m.reduced_k();
        let rate = iterative_rate(&k);
        if rate > 0.999 {
            return;
        }
        may_fail = rate > 0.95;
        tol += iterative_bound(&k);
    }
    match rec.call(|| real(m, solver)) {
        Ok(u) => {
            let e = if la::norm(want) == 0.0 { la::norm(&u) } else { apart(&u, want) };
            rec.check(e <= tol, if solver == 2 { "iterative-wrong" } else { "displacements" }, || format!("{} {}: off by {:e} (allowed {:e}): {:?} want {:?}", SOLVERS[solver], hist(), e, tol, u, want));
        }
        Err(_) if may_fail => {}
        Err(e) => rec.fail("solution-fails", format!("{} {}: {}", SOLVERS[solver], hist(), e)),
    }
    rec.trace();
}

fn cond(k: usize) -> Cond {
    [Cond::Stress(0.1), Cond::Strain(2.0), Cond::Axi][k]
}

/// the support schemes
fn held(m: &mut Model, k: usize) {
    let n = m.nodes.len();
    m.sup = vec![Sup::Free; n];
    match k {
        0 => {
            m.sup[0] = Sup::XY;
            m.sup[1] = Sup::Y;
        }
        1 => {
            m.sup[n - 1] = Sup::XY;
            m.sup[0] = Sup::X;
            m.sup[n / 2] = Sup::Y;
        }
        2 => {
            m.sup[1] = Sup::XY;
            m.sup[2] = Sup::XY;
        }
        3 => {
            m.sup[0] = Sup::Angle(0.7);
            m.sup[1] = Sup::XY;
            m.sup[n - 1] = Sup::Angle(-0.4);
        }
        _ => {
            m.sup[0] = Sup::X;
            m.sup[1] = Sup::Y;
            m.sup[2] = Sup::X;
            m.sup[n - 1] = Sup::Y;
        }
    }
}
fn load(m: &mut Model, k: usize) {
    let n = m.nodes.len();
    m.point.clear();
    m.line.clear();
    match k {
        0 => m.point = vec![(n - 1, (3.0, -7.0))],
        1 => m.point = (0..n).map(|i| (i, (i as f64 - 1.5, 4.0 - ((i * i) % 5) as f64))).collect(),
        _ => {
            // point loads where line loads do not meet the axisymmetric restriction
            if m.cond.plane() {
                m.line = m.edges().iter().filter(|e| e.2 == 1).map(|e| (e.0, e.1, (1.5, -0.5))).collect();
            }
            m.point = vec![(n / 2, (-2.0, 1.0))];
        }
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn main() {
    let mut h = Harness::new("C14");
    h.assume("Gauss-Seidel is compared where successive over-relaxation converges well within its iteration limit, to the error its stopping rule leaves");
    h.assume("axisymmetric stiffness uses the three-point rule of degree 2, forces are per radian");
    h.family("meshes", "7 meshes x 3 conditions x 4 materials x 5 support schemes x 3 loadings x 3 solvers", 7 * 3 * 4 * 5 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, c, mt, s, l, sv) = (d.take(7), d.take(3), d.take(4), d.take(5), d.take(3), d.take(3));
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, cond(c), material(mt));
        held(&mut m, s);
        load(&mut m, l);
        let Some(want) = m.solve() else {
            rec.outcome("loose");
            return;
        };
        rec.state(i);
        rec.outcome((sv, "solved"));
        judge(rec, &m, &want, sv, &|| format!("{:?}", m));
        rec.sample(|| format!("{} {:?}", SOLVERS[sv], m));
    });
    let big = h.pick(3usize, 4);
    h.family("diagonals", "a 2-high grid with every choice of diagonals x 3 conditions x 3 support schemes x 2 loadings x 3 solvers", (1u64 << (2 * big)) * 3 * 3 * 2 * 3, |i, rec| {
        let mut d = Digits(i);
        let (c, s, l, sv) = (d.take(3), d.take(3), d.take(2) + 1, d.take(3));
        let (nodes, tris) = grid(big, 2, d.0);
        let mut m = Model::new(nodes, tris, cond(c), material((i % 3) as usize));
        held(&mut m, s);
        load(&mut m, l);
        let Some(want) = m.solve() else { return };
        rec.state(i);
        judge(rec, &m, &want, sv, &|| format!("{:?}", m));
    });
    // numbering: the permuted model has the permuted answer
    for (k, n) in [(0usize, 3usize), (1, 4), (2, 5), (4, 5), (3, 6)] {
        let f: u64 = (1..=n as u64).product();
        h.family(&format!("numberings {}", k), "every numbering of the nodes x 3 conditions x 2 support schemes x 2 solvers", f * 3 * 2 * 2, |i, rec| {
            let mut d = Digits(i);
            let (c, s, sv) = (d.take(3), [0, 3][d.take(2)], d.take(2));
            let p = nth_perm(n, d.0 as usize);
            let (nodes, tris) = mesh(k);
            let mut m = Model::new(nodes, tris, cond(c), material(2));
            held(&mut m, s);
            load(&mut m, 2);
            if k == 4 {
                m.sup[4] = Sup::XY;
            }
            let Some(u) = m.solve() else { return };
            let mut want = vec![0.0; 2 * n];
            for x in 0..n {
                want[2 * p[x]] = u[2 * x];
                want[2 * p[x] + 1] = u[2 * x + 1];
            }
            rec.state(i);
            judge(rec, &m.renumbered(&p), &want, sv, &|| format!("{:?} renumbered {:?}", m, p));
        });
    }
    // listings: order of elements, first corner and direction of each
    h.family("listings 1", "two triangles: every order and every listing of their corners x 3 conditions x 3 solvers", 2 * 36 * 9, |i, rec| {
        let mut d = Digits(i);
        let (r, a, b, c, sv) = (d.take(2), d.take(6), d.take(6), d.take(3), d.take(3));
        let (nodes, tris) = mesh(1);
        let mut m = Model::new(nodes, tris.clone(), cond(c), material(2));
        held(&mut m, 0);
        load(&mut m, 2);
        let Some(want) = m.solve() else { return };
        m.tris = vec![listed(tris[0], a), listed(tris[1], b)];
        if r == 1 {
            m.tris.reverse();
        }
        rec.state(i);
        judge(rec, &m, &want, sv, &|| format!("{:?}", m));
    });
    h.family("listings 2", "four triangles: every listing of every triangle's corners (1296), every order of the elements (24) in a stride", 1296 * 24, |i, rec| {
        let mut d = Digits(i);
        let o = nth_perm(4, d.take(24));
        if !rec.thorough() && (i / 24 + i % 24) % 4 != 0 {
            return;
        }
        let (nodes, tris) = mesh(2);
        let mut m = Model::new(nodes, tris.clone(), Cond::Strain(0.5), material(2));
        held(&mut m, 0);
        load(&mut m, 2);
        let Some(want) = m.solve() else { return };
        let ls: Vec<[usize; 3]> = tris.iter().map(|t| listed(*t, d.take(6))).collect();
        m.tris = o.iter().map(|&x| ls[x]).collect();
        rec.state(i);
        judge(rec, &m, &want, 1, &|| format!("{:?}", m));
    });
    // every assignment of supports to nodes
    let kinds = [Sup::Free, Sup::X, Sup::Y, Sup::XY, Sup::Angle(0.5), Sup::Angle(-1.1), Sup::Angle(-4.0)];
    for (k, n) in [(0usize, 3u32), (1, 4), (2, 5)] {
        let a = if k == 2 { h.pick(4u64, 7) } else { 7 };
        h.family(&format!("supports {}", n), "every assignment of a support (none, two fixed directions, both, three angles; on five nodes: none, one direction, two angles) to every node x 3 conditions x 2 loadings x 2 solvers", pow(a, n) * 12, |i, rec| {
            let mut d = Digits(i);
            let (c, l, sv) = (d.take(3), d.take(2) + 1, d.take(2));
            let (nodes, tris) = mesh(k);
            let mut m = Model::new(nodes, tris, cond(c), material(2));
            load(&mut m, l);
            m.sup = (0..n).map(|_| if a == 4 { [Sup::Free, Sup::X, Sup::Angle(0.5), Sup::Angle(-4.0)][d.take(4)] } else { kinds[d.take(7)] }).collect();
            if m.basis().is_empty() {
                return;
            }
            let Some(want) = m.solve() else {
                rec.outcome("loose");
                return;
            };
            rec.state(i);
            rec.outcome("solved");
            judge(rec, &m, &want, sv, &|| format!("{:?}", m));
        });
    }
    // linearity, straight on the code
    h.family("superposition", "7 meshes x 3 conditions x every pair of 4 loadings: solutions scale and add", 7 * 3 * 16, |i, rec| {
        let mut d = Digits(i);
        let (k, c, a, b) = (d.take(7), d.take(3), d.take(4), d.take(4));
        let (nodes, tris) = mesh(k);
        let n = nodes.len();
        let mut m = Model::new(nodes, tris, cond(c), material(0));
        held(&mut m, if k == 4 { 2 } else { 1 });
        if m.solve().is_none() {
            return;
        }
        let pt = |l: usize| -> Vec<(usize, (f64, f64))> { (0..n).filter(|x| (x + l) % 3 != 0).map(|x| (x, (1e4 * (x as f64 - l as f64), 1e5 + (l * x) as f64 * 1e3))).collect() };
        let mut run = |p: Vec<(usize, (f64, f64))>| {
            let mut mm = m.clone();
            mm.point = p;
            rec.call(|| real(&mm, 1))
        };
        let ra = run(pt(a));
        let rb = run(pt(b));
        // 2.5 a - b
        let mut f = vec![(0.0, 0.0); n];
        for (x, v) in pt(a) {
            f[x].0 += 2.5 * v.0;
            f[x].1 += 2.5 * v.1;
        }
        for (x, v) in pt(b) {
            f[x].0 -= v.0;
            f[x].1 -= v.1;
        }
        let rc = run(f.into_iter().enumerate().collect());
        rec.state(i);
        match (ra, rb, rc) {
            (Ok(a), Ok(b), Ok(c)) => {
                let want: Vec<f64> = a.iter().zip(&b).map(|(x, y)| 2.5 * x - y).collect();
                let size = 2.5 * la::norm(&a) + la::norm(&b);
                let d: Vec<f64> = c.iter().zip(&want).map(|(x, y)| x - y).collect();
                rec.check(la::norm(&d) <= 1e-9 * size, "superposition", || format!("mesh {} {:?}: {:?} want {:?}", k, m.cond, c, want));
            }
            (a, b, c) => rec.fail("solution-fails", format!("mesh {}: {:?} {:?} {:?}", k, a.err(), b.err(), c.err())),
        }
        rec.trace();
    });
    // known solutions: a stress that is the same everywhere is reproduced by any mesh
    h.family("patch", "grids with every choice of diagonals and shifted inner nodes: uniform tension is reproduced exactly", 64 * 9 * 2, |i, rec| {
        let mut d = Digits(i);
        let (sx, sy, c) = (d.take(3), d.take(3), d.take(2));
        let (mut nodes, tris) = grid(3, 2, d.0);
        nodes[5].0 += [-0.2, 0.0, 0.25][sx];
        nodes[6].1 += [-0.15, 0.0, 0.2][sy];
        let mut m = Model::new(nodes, tris, cond(c), material(2));
        // left side on rollers, one corner fixed; uniform pull on the right side
        for k in [0, 4, 8] {
            m.sup[k] = Sup::X;
        }
        m.sup[0] = Sup::XY;
        m.line = vec![(3, 7, (5.0, 0.0)), (11, 7, (5.0, 0.0))];
        let (e, nu) = (m.mat.youngs, m.mat.poisson);
        let (t, ex, ey) = match m.cond {
            Cond::Stress(t) => (t, 1.0 / e, -nu / e),
            Cond::Strain(t) => (t, (1.0 - nu * nu) / e, -nu * (1.0 + nu) / e),
            _ => unreachable!(),
        };
        let s = 5.0 / t;
        let want: Vec<f64> = m.nodes.iter().flat_map(|p| [(p.0 - 1.0) * s * ex, p.1 * s * ey]).collect();
        rec.state(i);
        for sv in 0..2 {
            judge(rec, &m, &want, sv, &|| format!("patch {:?}", m));
        }
    });
    h.family("long strips", "strips of 50 to 16500 cells under uniform tension, four numberings of the nodes, both plane conditions, with a displacement known exactly (beyond 300 cells: by Cholesky only)", 7 * 4 * 2, |i, rec| {
        let mut d = Digits(i);
        let (nx, numbering, c) = ([50usize, 62, 65, 127, 300, 1100, 16500][d.take(7)], d.take(4), d.take(2));
        let (nodes, tris) = grid(nx, 1, 0);
        let n = nodes.len();
        let mut m = Model::new(nodes, tris, cond(c), material(2));
        let x0 = m.nodes[0].0;
        let (l, r) = ([0, nx + 1], [nx, 2 * nx + 1]);
        // rolling on its lower side: bending would make a long strip hopelessly soft
        (0..=nx).for_each(|k| m.sup[k] = Sup::Y);
        m.sup[l[0]] = Sup::XY;
        m.sup[l[1]] = Sup::X;
        m.line = vec![(r[0], r[1], (5.0, 0.0))];
        let (e, nu) = (m.mat.youngs, m.mat.poisson);
        let (t, ex, ey) = match m.cond {
            Cond::Stress(t) => (t, 1.0 / e, -nu / e),
            Cond::Strain(t) => (t, (1.0 - nu * nu) / e, -nu * (1.0 + nu) / e),
            _ => unreachable!(),
        };
        let y0 = m.nodes[0].1;
        let s = 5.0 / t;
        let u: Vec<(f64, f64)> = m.nodes.iter().map(|p| ((p.0 - x0) * s * ex, (p.1 - y0) * s * ey)).collect();
        let p: Vec<usize> = match numbering {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            // up and down in turn
            2 => (0..n).map(|k| if k <= nx { 2 * k } else { 2 * (k - nx - 1) + 1 }).collect(),
            _ => {
                let step = (n / 3..).find(|s| (2..=*s).all(|k| s % k != 0 || n % k != 0)).unwrap();
                (0..n).map(|k| k * step % n).collect()
            }
        };
        let mut want = vec![0.0; 2 * n];
        for k in 0..n {
            want[2 * p[k]] = u[k].0;
            want[2 * p[k] + 1] = u[k].1;
        }
        let m = m.renumbered(&p);
        rec.state(i);
        for sv in if nx <= 65 { 0..2 } else { 1..2 } {
            match rec.call(|| real(&m, sv)) {
                Ok(u) => {
                    let e = apart(&u, &want);
                    rec.check(e <= 1e-5, "displacements", || format!("{} strip of {} cells, numbering {}, {:?}: off by {:e}", SOLVERS[sv], nx, numbering, m.cond, e));
                }
                Err(e) => rec.fail("solution-fails", format!("{} strip of {} cells, numbering {}: {}", SOLVERS[sv], nx, numbering, e)),
            }
            rec.trace();
        }
    });
    let tall: &[usize] = if h.thorough() { &[12, 33, 66, 130, 260] } else { &[12, 33, 66, 130] };
    h.family("many nodes", "strips of 26 to 262 (thorough 522) nodes held in 4 ways and loaded in 3, 3 conditions, 4 numberings, the dense solver up to 26 nodes", tall.len() as u64 * 4 * 3 * 3 * 4, |i, rec| {
        let mut d = Digits(i);
        let (ny, s, l, c, num) = (tall[d.take(tall.len() as u64)], d.take(4), d.take(3), d.take(3), d.take(4));
        let (nodes, tris) = grid(1, ny, 0x6b6b);
        let n = nodes.len();
        let mut m = Model::new(nodes, tris, cond(c), material(1));
        for k in 0..n {
            m.sup[k] = match s {
                0 if k % 20 < 2 => Sup::XY,
                1 => [Sup::Free, Sup::X, Sup::Free, Sup::Y, Sup::Free, Sup::Free][k % 6],
                2 if k % 9 == 4 => Sup::XY,
                2 if k % 9 == 7 => Sup::Angle(0.3 + k as f64),
                3 if k + n / 4 > n || k % 25 == 0 => Sup::XY,
                _ => Sup::Free,
            };
        }
        load(&mut m, l);
        let p: Vec<usize> = match num {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).map(|k| if k % 2 == 0 { k / 2 } else { (n + 1) / 2 + k / 2 }).collect(),
            _ => {
                let step = (2..n).find(|s| gcd(*s + n / 3, n) == 1).unwrap() + n / 3;
                (0..n).map(|k| (k * step + 5) % n).collect()
            }
        };
        let m = m.renumbered(&p);
        rec.state(i);
        let Some(want) = m.solve_big() else {
            rec.outcome("loose");
            return;
        };
        rec.outcome("solved");
        for solver in 0..2 {
            if solver == 1 || n <= 26 {
                judge(rec, &m, &want, solver, &|| format!("{} nodes, supports {}, loads {}, numbering {}", n, s, l, num));
            }
        }
    });
    h.family("units", "7 meshes in 7 length units (1e-10 to 1e7), 4 stiffness units and 3 units of force (1e-15 to 1e12), in 3 places", 7 * 7 * 4 * 3 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, a, b, c) = (d.take(7), [1e-10, 1e-6, 1e-3, 1.0, 1e2, 1e4, 1e7][d.take(7)], [1e-3, 1.0, 1e6, 2e11][d.take(4)], d.take(3));
        // far from its axis a ring carries next to nothing
        let by = [(0.0, 0.0), (40.0, -25.0), if c < 2 { (600.0, 700.0) } else { (20.0, 700.0) }][d.take(3)];
        let (mut nodes, tris) = mesh(k);
        nodes.iter_mut().for_each(|p| *p = ((p.0 + by.0) * a, (p.1 + by.1) * a));
        let mt = bugi::element::material::Material { name: "M", youngs: b, poisson: 0.3, density: 1.0 };
        let mut m = Model::new(nodes, tris, cond(c), mt);
        held(&mut m, if k == 4 { 2 } else { 0 });
        load(&mut m, 1);
        let f = [1.0, 1e-15, 1e12][d.take(3)];
        m.point.iter_mut().for_each(|p| p.1 = (p.1 .0 * f, p.1 .1 * f));
        let Some(want) = m.solve() else { return };
        rec.state(i);
        for sv in 0..2 {
            judge(rec, &m, &want, sv, &|| format!("{:?}", m));
        }
    });
    let bound = h.pick(1, 2);
    let cap = h.pick(1500u64, 20000);
    h.family("hash orders", "4 meshes x 3 conditions x 2 support schemes x 3 solvers under hash visiting orders (deviations within the bound)", 4 * 3 * 2 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, c, s, sv) = ([0, 1, 4, 2][d.take(4)], d.take(3), [0, 3][d.take(2)], d.take(3));
        let (nodes, tris) = mesh(k);
        let mut m = Model::new(nodes, tris, cond(c), material(2));
        held(&mut m, s);
        load(&mut m, 2);
        let Some(want) = m.solve() else { return };
        rec.state(i);
        rec.explore(Mode::Front, bound, cap, |rec| judge(rec, &m, &want, sv, &|| format!("{:?}", m)));
        rec.explore(Mode::Reversed, 64, 64, |rec| judge(rec, &m, &want, sv, &|| format!("{:?}", m)));
    });
    h.finish()
}

fn nth_perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for m in (1..=n).rev() {
        let f: usize = (1..m).product();
        out.push(pool.remove(k / f % m));
        k %= f;
    }
    out
}
