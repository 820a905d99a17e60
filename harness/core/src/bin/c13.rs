//! C13: constraints hold exactly in every solution and merge without loss.
use bugi::element::constraint::Constraint;
use bugi::element::{ElementAssemblage, ElementDescriptor};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use hcore::fe::*;
use hcore::*;
use mcheck::la;
use mcheck::*;

fn kinds() -> Vec<Sup> {
    vec![
        Sup::Free,
        Sup::X,
        Sup::Y,
        Sup::XY,
        Sup::Angle(0.0),
        Sup::Angle(std::f64::consts::FRAC_PI_2),
        Sup::Angle(0.5),
        Sup::Angle(-1.1),
        Sup::Angle(2.0),
        Sup::Angle(std::f64::consts::FRAC_PI_4),
        Sup::Angle(7.0),
    ]
}

/// the direction(s) in which the node must not move
fn held(s: Sup) -> Vec<(f64, f64)> {
    match s {
        Sup::Free => vec![],
        Sup::X => vec![(1.0, 0.0)],
        Sup::Y => vec![(0.0, 1.0)],
        Sup::XY => vec![(1.0, 0.0), (0.0, 1.0)],
        Sup::Angle(a) => vec![(a.cos(), a.sin())],
    }
}

fn judge_u(rec: &mut Rec, sup: &[Sup], u: &[f64], want: &[f64], hist: &dyn Fn() -> String) {
    let size = la::norm(want).max(1e-300);
    for (i, s) in sup.iter().enumerate() {
        for d in held(*s) {
            let x = u[2 * i] * d.0 + u[2 * i + 1] * d.1;
            rec.check(x.abs() <= 1e-13 * size, "constraint-violated", || format!("{}: node {} ({:?}) moves {:e} along {:?}", hist(), i, s, x, d));
        }
    }
    let e = if la::norm(want) == 0.0 { la::norm(u) } else { apart(u, want) };
    rec.check(e <= 1e-7, "solution", || format!("{}: off by {:e}: {:?} want {:?}", hist(), e, u, want));
}

fn judge(rec: &mut Rec, m: &Model, solver: usize, hist: &dyn Fn() -> String) {
    let Some(want) = (if m.nodes.len() > 20 { m.solve_big() } else { m.solve() }) else {
        rec.outcome("loose");
        return;
    };
    rec.outcome("held");
    let r = rec.call(|| {
        let mut e = m.build();
        let d = match solver {
            0 => e.calc_displacements::<DenseGaussSolver>(),
            _ => e.calc_displacements::<CholeskyEnvelopeSolver>(),
        };
        (displacements(&d, &m.nodes), d.displacement_norms(), d.displaced_nodes(2.0).iter().flat_map(|p| [p[0], p[1]]).collect::<Vec<_>>(), d.frequency())
    });
    match r {
        Ok((u, norms, moved, f)) => {
            judge_u(rec, &m.sup, &u, &want, hist);
            let ok = norms.len() == m.nodes.len() && norms.iter().enumerate().all(|(i, n)| (n - (want[2 * i].hypot(want[2 * i + 1]))).abs() <= 1e-7 * la::norm(&want));
            rec.check(ok, "norms", || format!("{}: {:?} for {:?}", hist(), norms, want));
            let ok = moved.iter().enumerate().all(|(k, x)| {
                let p = if k % 2 == 0 { m.nodes[k / 2].0 } else { m.nodes[k / 2].1 };
                (x - p - 2.0 * u[k]).abs() <= 1e-12 * (1.0 + p.abs() + u[k].abs())
            });
            rec.check(ok && f.is_none(), "displaced", || format!("{}: {:?} frequency {:?}", hist(), moved, f));
        }
        // a model without any freedom left has an empty system
        Err(_) if m.basis().is_empty() => {}
        Err(e) => rec.fail("solution-fails", format!("{}: {}", hist(), e)),
    }
    rec.trace();
}

fn pushed(mut m: Model) -> Model {
    let f = [(3.0, -1.0), (-2.0, 5.0), (0.5, 7.0), (4.0, 0.25), (-4.0, -6.0), (1.5, 3.0), (2.0, 2.0), (-1.0, 1.0)];
    m.point = (0..m.nodes.len()).map(|i| (i, f[i % 8])).collect();
    m
}

const SCALES: [(f64, f64, (f64, f64)); 5] = [(1.0, 1e-15, (0.0, 0.0)), (1.0, 1e12, (50.0, -20.0)), (1e-4, 1.0, (0.0, 0.0)), (1e3, 1e-6, (0.0, 0.0)), (0.02, 1e5, (-0.3, 0.1))];
fn scale(m: &mut Model, size: f64, push: f64, by: (f64, f64)) {
    for p in &mut m.nodes {
        *p = (p.0 * size + by.0, p.1 * size + by.1)
    }
    for f in &mut m.point {
        f.1 = (f.1 .0 * push, f.1 .1 * push)
    }
}

fn same(c: Constraint, s: Sup) -> bool {
    c == s.real()
}

fn main() {
    let mut h = Harness::new("C13");
    h.assume("a sliding constraint followed or preceded by a fixed direction on the same node: only that fixed directions stay fixed is specified");
    let ks = kinds();
    let nk = ks.len() as u64;
    for kind in [0usize, 1] {
        let (nodes, tris) = mesh(kind);
        let n = nodes.len() as u32;
        let base = pushed(Model::new(nodes, tris, Cond::Stress(1.0), material(1)));
        h.family(&format!("assignments {}", kind), "every assignment of 11 constraints (free, x, y, xy, 7 angles) to the nodes of one and two triangles, 2 solvers, properly supported models", pow(nk, n) * 2, |i, rec| {
            let mut d = Digits(i);
            let solver = d.take(2);
            let mut m = base.clone();
            m.sup = (0..n).map(|_| *d.pick(&ks)).collect();
            rec.state(i);
            judge(rec, &m, solver, &|| format!("{:?} solver {}", m.sup, solver));
            rec.sample(|| format!("{:?}", m));
        });
    }
    let six = [Sup::Free, Sup::X, Sup::Y, Sup::XY, Sup::Angle(0.5), Sup::Angle(-1.1)];
    h.family("assignments 2", "every assignment of 6 constraints to the nodes of a 4-triangle fan, plane strain", pow(6, 5), |i, rec| {
        let mut d = Digits(i);
        let (nodes, tris) = mesh(2);
        let mut m = pushed(Model::new(nodes, tris, Cond::Strain(0.5), material(2)));
        m.sup = (0..5).map(|_| *d.pick(&six)).collect();
        rec.state(i);
        judge(rec, &m, 0, &|| format!("{:?}", m.sup));
    });
    let five = [Sup::Free, Sup::X, Sup::Y, Sup::Angle(0.8), Sup::Angle(4.0)];
    h.family("assignments 3", "every assignment of 5 constraints to the nodes of a 4-triangle strip, axisymmetric", pow(5, 6), |i, rec| {
        let mut d = Digits(i);
        let (nodes, tris) = mesh(3);
        let mut m = pushed(Model::new(nodes, tris, Cond::Axi, material(2)));
        m.sup = (0..6).map(|_| *d.pick(&five)).collect();
        rec.state(i);
        judge(rec, &m, 1, &|| format!("{:?}", m.sup));
    });
    h.family("angles", "sliding supports at 720 angles on one node and at every pair of 24 angles on two nodes", 720 + 24 * 24, |i, rec| {
        let (nodes, tris) = mesh(2);
        let mut m = pushed(Model::new(nodes, tris, Cond::Stress(1.0), material(1)));
        m.sup[0] = Sup::XY;
        if i < 720 {
            m.sup[2] = Sup::Angle(i as f64 * std::f64::consts::PI / 180.0 - std::f64::consts::PI * 2.0);
        } else {
            let k = i - 720;
            m.sup[2] = Sup::Angle((k % 24) as f64 * std::f64::consts::PI / 12.0);
            m.sup[3] = Sup::Angle((k / 24) as f64 * std::f64::consts::PI / 12.0);
        }
        rec.state(i);
        judge(rec, &m, (i % 2) as usize, &|| format!("{:?}", m.sup));
    });
    h.family("fine angles", "sliding supports at the axes and diagonals plus or minus 1e-3 ... 1e-12, and many turns away, with loads and bodies of 5 sizes", 9 * 21 * 5, |i, rec| {
        let mut d = Digits(i);
        let base = [0.0, 0.5, 1.0, -0.5, -1.0, 0.25, -0.75, 40.0, -33.5][d.take(9)] * std::f64::consts::PI;
        let k = d.take(21);
        let off = if k == 0 { 0.0 } else { [1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 0.02][(k - 1) / 2] * if k % 2 == 0 { 1.0 } else { -1.0 } };
        let (size, push, by) = SCALES[d.take(5)];
        let (nodes, tris) = mesh(2);
        let mut m = pushed(Model::new(nodes, tris, Cond::Stress(1.0), material(1)));
        m.sup[0] = Sup::XY;
        m.sup[2] = Sup::Angle(base + off);
        scale(&mut m, size, push, by);
        rec.state(i);
        judge(rec, &m, (i % 2) as usize, &|| format!("{:?} {} {}", m.sup, size, push));
    });
    h.family("scales", "every assignment of 6 constraints to one triangle, in 5 sizes, strengths and places, 3 conditions", pow(6, 3) * 5 * 3, |i, rec| {
        let mut d = Digits(i);
        let (nodes, tris) = mesh(0);
        let cond = [Cond::Stress(1.0), Cond::Strain(0.5), Cond::Axi][d.take(3)];
        let (size, push, by) = SCALES[d.take(5)];
        let by = if cond.plane() { by } else { (2.0 * size, 0.0) };
        let mut m = pushed(Model::new(nodes, tris, cond, material(2)));
        m.sup = (0..3).map(|_| *d.pick(&six)).collect();
        scale(&mut m, size, push, by);
        rec.state(i);
        judge(rec, &m, 0, &|| format!("{:?} {:?} {} {}", m.sup, cond, size, push));
    });
    let tall: &[usize] = if h.thorough() { &[10, 33, 66, 130, 260] } else { &[10, 33, 66, 130] };
    h.family("many nodes", "strips of 22 to 262 (thorough 522) nodes with constraints of every kind along them, 8 patterns", tall.len() as u64 * 8, |i, rec| {
        let mut d = Digits(i);
        let (ny, pat) = (tall[d.take(tall.len() as u64)], d.take(8));
        let (nodes, tris) = grid(1, ny, 0x5a5a);
        let n = nodes.len();
        let mut m = pushed(Model::new(nodes, tris, Cond::Stress(1.0), material(1)));
        for k in 0..n {
            m.sup[k] = match pat {
                0 => ks[k * 7 % ks.len()],
                1 => if k % 5 == 0 { ks[(k / 5) % ks.len()] } else { Sup::Free },
                2 => if k % 20 < 2 { Sup::XY } else if k % 20 == 13 { Sup::Angle(0.5 + k as f64) } else { Sup::Free },
                3 => Sup::Angle(k as f64 * 0.37),
                4 => if k % 2 == 0 { Sup::X } else { Sup::Angle(-(k as f64) * 0.11) },
                5 => if k % 3 == 0 { Sup::Y } else { Sup::X },
                6 => if k + 20 > n || k % 33 == 0 { Sup::XY } else { Sup::Free },
                _ => if k % 16 == 3 { Sup::Angle(1.0 + k as f64) } else if k % 16 == 9 { Sup::XY } else { Sup::Free },
            }
        }
        rec.state(i);
        judge(rec, &m, 1, &|| format!("{} nodes, pattern {}", n, pat));
    });
    // histories of repeated constraints on the same node
    let len = h.pick(5u32, 7);
    let calls = [Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed, Constraint::Free];
    h.family("merging", "every history of x, y, xy and free constraints on one node to the length; the node before and after it stay as they are", (1..=len).map(|k| pow(4, k)).sum(), |mut i, rec| {
        let mut l = 1;
        while i >= pow(4, l) {
            i -= pow(4, l);
            l += 1;
        }
        let mut d = Digits(i);
        let ops: Vec<Constraint> = (0..l).map(|_| *d.pick(&calls)).collect();
        let mut e = ElementAssemblage::new(material(1), Cond::Stress(1.0).real());
        let ids = e.add_nodes(&[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]);
        e.add_constraint(ids[0], Constraint::YFixed);
        let (mut x, mut y) = (false, false);
        for (at, c) in ops.iter().enumerate() {
            if let Err(m) = rec.call(|| e.add_constraint(ids[1], *c)) {
                return rec.fail("merge-fails", format!("{:?}: {}", &ops[..=at], m));
            }
            x |= matches!(c, Constraint::XFixed | Constraint::XYFixed);
            y |= matches!(c, Constraint::YFixed | Constraint::XYFixed);
            let want = [[Sup::Free, Sup::Y], [Sup::X, Sup::XY]][x as usize][y as usize];
            let cs = e.constraints();
            let ok = cs.len() == 3 && cs.iter().enumerate().all(|(k, c)| c.0.into_idx() == k) && same(cs[0].1, Sup::Y) && same(cs[1].1, want) && same(cs[2].1, Sup::Free);
            rec.check(ok, "merge", || format!("after {:?}: {:?}, want {:?}", &ops[..=at], cs, want));
            rec.state((l, i, at));
        }
        rec.trace();
    });
    let calls = [Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed, Constraint::AngleFixed(0.5), Constraint::Free];
    h.family("merging with angles", "every history of x, y, xy, angle and free constraints on one node to the length: directions fixed stay fixed", (1..=len).map(|k| pow(5, k)).sum(), |mut i, rec| {
        let mut l = 1;
        while i >= pow(5, l) {
            i -= pow(5, l);
            l += 1;
        }
        let mut d = Digits(i);
        let ops: Vec<Constraint> = (0..l).map(|_| *d.pick(&calls)).collect();
        let mut e = ElementAssemblage::new(material(1), Cond::Stress(1.0).real());
        let ids = e.add_nodes(&[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]);
        let (mut x, mut y, mut angle) = (false, false, false);
        for (at, c) in ops.iter().enumerate() {
            if let Err(m) = rec.call(|| e.add_constraint(ids[1], *c)) {
                return rec.fail("merge-fails", format!("{:?}: {}", &ops[..=at], m));
            }
            x |= matches!(c, Constraint::XFixed | Constraint::XYFixed);
            y |= matches!(c, Constraint::YFixed | Constraint::XYFixed);
            angle |= matches!(c, Constraint::AngleFixed(_));
            let got = e.constraints()[1].1;
            let ok = if x || y {
                got.is_plain() && (!x || got.plain_dim_struck(0)) && (!y || got.plain_dim_struck(1))
            } else if !angle {
                got == Constraint::Free
            } else {
                matches!(got, Constraint::AngleFixed(a) if (a - 0.5).abs() < 1e-12)
            };
            rec.check(ok, "merge", || format!("after {:?}: {:?}", &ops[..=at], got));
            rec.state((l, i, at, "angle"));
        }
        rec.trace();
    });
    h.family("merging two nodes", "every interleaving of two histories of length 3 (x, y, xy) on the two ends of an edge, then the solution", 27 * 27 * 20, |i, rec| {
        let mut d = Digits(i);
        let three = [Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed];
        let a: Vec<Constraint> = (0..3).map(|_| *d.pick(&three)).collect();
        let b: Vec<Constraint> = (0..3).map(|_| *d.pick(&three)).collect();
        // the d.0-th way to choose which 3 of 6 steps are the first node's
        let sel = (0..64u32).filter(|x| x.count_ones() == 3).nth(d.0 as usize).unwrap();
        let (nodes, tris) = mesh(2);
        let mut m = pushed(Model::new(nodes.clone(), tris.clone(), Cond::Stress(1.0), material(1)));
        let union = |v: &[Constraint]| {
            let x = v.iter().any(|c| *c != Constraint::YFixed);
            let y = v.iter().any(|c| *c != Constraint::XFixed);
            [[Sup::Free, Sup::Y], [Sup::X, Sup::XY]][x as usize][y as usize]
        };
        m.sup[0] = union(&a);
        m.sup[1] = union(&b);
        rec.state(i);
        let Some(want) = m.solve() else { return };
        let r = rec.call(|| {
            let mut e = ElementAssemblage::new(m.mat, m.cond.real());
            let ids = e.add_nodes(&nodes);
            let (mut p, mut q) = (a.iter(), b.iter());
            for k in 0..6 {
                if sel >> k & 1 == 1 {
                    e.add_constraint(ids[0], *p.next().unwrap());
                } else {
                    e.add_constraint(ids[1], *q.next().unwrap());
                }
            }
            for t in &tris {
                e.add_element(ElementDescriptor::new(t.map(|x| ids[x])));
            }
            for (n, f) in &m.point {
                e.add_conc_force(ids[*n], (*f).into());
            }
            displacements(&e.calc_displacements::<DenseGaussSolver>(), &nodes)
        });
        match r {
            Ok(u) => judge_u(rec, &m.sup, &u, &want, &|| format!("{:?} {:?} {:b}", a, b, sel)),
            Err(e) => rec.fail("solution-fails", format!("{:?} {:?}: {}", a, b, e)),
        }
        rec.trace();
    });
    // the displacements of a node given fixed directions and an angle, in any order
    h.family("merged solutions", "every history of x, y, xy and angle constraints of length 1 to 4 on one node of a supported fan: directions fixed stay fixed in the solution", 4 + 16 + 64 + 256, |mut i, rec| {
        rec.state(i);
        let mut l = 1;
        while i >= pow(4, l) {
            i -= pow(4, l);
            l += 1;
        }
        let mut d = Digits(i);
        let ops: Vec<Constraint> = (0..l).map(|_| *d.pick(&calls)).collect();
        let (nodes, tris) = mesh(2);
        let m = pushed(Model::new(nodes.clone(), tris.clone(), Cond::Stress(1.0), material(1)));
        let got = rec.call(|| {
            let mut e = ElementAssemblage::new(m.mat, m.cond.real());
            let ids = e.add_nodes(&nodes);
            e.add_constraint(ids[0], Constraint::XYFixed);
            e.add_constraint(ids[1], Constraint::YFixed);
            for c in &ops {
                e.add_constraint(ids[3], *c);
            }
            for t in &tris {
                e.add_element(ElementDescriptor::new(t.map(|x| ids[x])));
            }
            for (n, f) in &m.point {
                e.add_conc_force(ids[*n], (*f).into());
            }
            displacements(&e.calc_displacements::<DenseGaussSolver>(), &nodes)
        });
        let x = ops.iter().any(|c| matches!(c, Constraint::XFixed | Constraint::XYFixed));
        let y = ops.iter().any(|c| matches!(c, Constraint::YFixed | Constraint::XYFixed));
        match got {
            Ok(u) => {
                let size = la::norm(&u);
                let angle = u[6] * 0.5f64.cos() + u[7] * 0.5f64.sin();
                let ok = size > 0.0 && (!x || u[6].abs() <= 1e-13 * size) && (!y || u[7].abs() <= 1e-13 * size) && (x || y || angle.abs() <= 1e-13 * size);
                rec.check(ok, "merged-solution", || format!("{:?}: {:?}", ops, u));
            }
            Err(e) => rec.fail("solution-fails", format!("{:?}: {}", ops, e)),
        }
        rec.trace();
    });
    h.family("constraint queries", "every constraint kind: which directions it strikes, its text and back", nk, |i, rec| {
        let s = ks[i as usize];
        let c = s.real();
        let plain = matches!(s, Sup::X | Sup::Y | Sup::XY);
        let ok = c.is_plain() == plain && (0..2).all(|d| c.plain_dim_struck(d) == (plain && held(s).iter().any(|v| if d == 0 { v.0 == 1.0 } else { v.1 == 1.0 })));
        rec.check(ok, "plain", || format!("{:?}", c));
        if s != Sup::Free {
            let back: Result<Constraint, ()> = c.to_string().parse();
            rec.check(back == Ok(c), "text", || format!("{:?} -> {} -> {:?}", c, c, back));
        }
        rec.state(i);
        rec.trace();
    });
    // the transformation by itself
    h.family("transformation", "every assignment of 6 constraints to 3 nodes: K, R and u are transformed consistently", pow(6, 3), |i, rec| {
        use bugi::element::constraint::DofTransform;
        use bugi::matrix::MatrixLike;
        let mut d = Digits(i);
        let sup: Vec<Sup> = (0..3).map(|_| *d.pick(&six)).collect();
        let cs: Vec<Constraint> = sup.iter().map(|s| s.real()).collect();
        let (nodes, tris) = mesh(0);
        let mut m = Model::new(nodes, tris, Cond::Stress(1.0), material(2));
        m.sup = sup.clone();
        let (k, t) = (m.k(), m.basis());
        if t.is_empty() {
            return;
        }
        let r: Vec<f64> = (0..6).map(|i| [3.0, -1.0, 4.0, 1.5, -5.0, 9.0][i]).collect();
        let q: Vec<f64> = (0..t.len()).map(|i| [2.0, 7.0, -1.0, 8.0, -2.5, 8.5][i]).collect();
        rec.state(i);
        let got = rec.call(|| {
            let tr = DofTransform::from_constraints(&cs);
            let kb = tr.bar_matrix(&dict_of(&k));
            (read(&kb), tr.bar_vec(&r), tr.unbar_vec(&q), kb.shape())
        });
        match got {
            Ok((kb, rb, u, shape)) => {
                let n = t.len();
                if !rec.check(shape == (n, n) && rb.len() == n && u.len() == 6, "transform-shape", || format!("{:?}: {:?} {}", sup, shape, rb.len())) {
                    return;
                }
                // work and energy are the same in both sets of unknowns, for every unknown (up to sign)
                let w1: f64 = la::dot(&rb, &q);
                let w2: f64 = la::dot(&r, &u);
                rec.check((w1 - w2).abs() <= 1e-10 * la::norm(&r) * la::norm(&u), "transform-work", || format!("{:?}: {} {}", sup, w1, w2));
                let e1 = la::dot(&q, &la::mulv(&kb, &q));
                let e2 = la::dot(&u, &la::mulv(&k, &u));
                rec.check((e1 - e2).abs() <= 1e-10 * e2.abs().max(1.0), "transform-energy", || format!("{:?}: {} {}", sup, e1, e2));
                for (i, s) in sup.iter().enumerate() {
                    for dd in held(*s) {
                        let x = u[2 * i] * dd.0 + u[2 * i + 1] * dd.1;
                        rec.check(x.abs() <= 1e-13 * la::norm(&u), "constraint-violated", || format!("{:?}: node {}: {:e}", sup, i, x));
                    }
                }
                rec.check((la::norm(&u) - la::norm(&q)).abs() <= 1e-12 * la::norm(&q), "transform-length", || format!("{:?}: {:?} {:?}", sup, u, q));
            }
            Err(e) => rec.fail("transform-fails", format!("{:?}: {}", sup, e)),
        }
        rec.trace();
    });
    let bound = h.pick(1, 2);
    h.family("hash orders", "every assignment of 6 constraints to one triangle under hash visiting orders (deviations within the bound)", pow(6, 3), |i, rec| {
        let mut d = Digits(i);
        let (nodes, tris) = mesh(0);
        let mut m = pushed(Model::new(nodes, tris, Cond::Stress(1.0), material(1)));
        m.sup = (0..3).map(|_| *d.pick(&six)).collect();
        rec.state(i);
        if m.solve().is_none() || m.basis().is_empty() {
            return;
        }
        rec.explore(Mode::Front, bound, 3000, |rec| judge(rec, &m, 1, &|| format!("{:?}", m.sup)));
    });
    h.finish()
}
