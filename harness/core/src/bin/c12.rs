//! C12: applied loads enter the model completely and exactly once.
use bugi::element::element::Element;
use bugi::element::{ElementAssemblage, ElementDescriptor};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use hcore::fe::*;
use mcheck::*;

const POINT: [(f64, f64); 8] = [(3.0, -1.0), (-2.0, 5.0), (0.5, 7.0), (11.0, 0.25), (-4.0, -6.0), (1.5, 9.0), (8.0, -2.5), (-7.0, 1.0)];
fn line_value(k: usize) -> (f64, f64) {
    (1.0 + 2.0 * ((k * 5) % 7) as f64, -3.0 + 1.5 * ((k * 3) % 8) as f64)
}

/// three ways to hold the model, so that every load moves something in one of them
fn supports(m: &mut Model, way: usize) {
    let n = m.nodes.len();
    m.sup = vec![Sup::Free; n];
    m.sup[(way * 2) % n] = Sup::XY;
    m.sup[(way * 2 + 1) % n] = [Sup::Y, Sup::XY, Sup::X][way % 3];
    if way == 2 {
        m.sup[(way * 2 + 2) % n] = Sup::Y;
    }
}

/// loads on the nodes and edges picked by `set`; edge (a, b) listed backwards where `back` says
fn loaded(base: &Model, set: u64, back: u64) -> Model {
    let mut m = base.clone();
    let n = m.nodes.len();
    m.point = (0..n).filter(|k| set >> k & 1 == 1).map(|k| (k, POINT[k % 8])).collect();
    m.line = m
        .edges()
        .iter()
        .enumerate()
        .filter(|(k, _)| set >> (n + k) & 1 == 1)
        .map(|(k, e)| if back >> k & 1 == 1 { (e.1, e.0, line_value(k)) } else { (e.0, e.1, line_value(k)) })
        .collect();
    m
}

fn real(m: &Model) -> Vec<f64> {
    let mut e = m.build();
    let nodes = m.nodes.clone();
    let d = e.calc_displacements::<DenseGaussSolver>();
    displacements(&d, &nodes)
}

fn judge(rec: &mut Rec, m: &Model, want: &Option<Vec<f64>>, hist: &dyn Fn() -> String) {
    let Some(want) = want else { return };
    match rec.call(|| real(m)) {
        Ok(u) => {
            let e = if la::norm(want) == 0.0 { la::norm(&u) } else { apart(&u, want) };
            rec.check(e <= 1e-8, "displacements", || format!("{}: off by {:e}: {:?} want {:?}", hist(), e, u, want));
        }
        Err(e) => rec.fail("solution-fails", format!("{}: {}", hist(), e)),
    }
    rec.trace();
}

fn sorted<T: PartialOrd + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

fn main() {
    let mut h = Harness::new("C12");
    h.assume("a line load is a force per unit length of its edge; axisymmetric line loads and repeated nodal forces on one node are not specified");
    // every set of loads
    for kind in [0usize, 1, 4, 2, 3] {
        let (nodes, tris) = mesh(kind);
        let base = Model::new(nodes, tris, Cond::Stress(1.0), material(1));
        let bits = base.nodes.len() + base.edges().len();
        let all = 1u64 << bits;
        let stride = if bits <= 12 { 1 } else { h.pick(if bits > 13 { 23 } else { 7 }, 1) };
        h.family(&format!("sets {}", kind), "every set of nodal and line loads (the larger meshes in a stride in quick) x 3 support schemes x 3 edge directions x plane stress and strain", all / stride * 3 * 3 * 2, |i, rec| {
            let mut d = Digits(i);
            let (way, dir, cnd) = (d.take(3), d.take(3), d.take(2));
            let set = d.0 * stride % all;
            let mut m = loaded(&base, set, [0, u64::MAX, 0x5555_5555][dir]);
            m.cond = if cnd == 0 { Cond::Stress(0.5) } else { Cond::Strain(3.0) };
            m.mat = material([1, 2][cnd]);
            supports(&mut m, way);
            if kind == 4 {
                m.sup[4] = Sup::XY;
                m.sup[0] = Sup::XY;
            }
            rec.state((set, way, dir, cnd));
            let want = m.solve();
            rec.outcome(want.is_some());
            judge(rec, &m, &want, &|| format!("{:?}", m));
            rec.sample(|| format!("{:?}", m));
        });
    }
    // order of adding loads and elements
    h.family("orders of loads", "two triangles: every order of adding 5 loads, every order of the elements, every listing of their corners", 120 * 2 * 36, |i, rec| {
        let mut d = Digits(i);
        let (first, a, b) = (d.take(2), d.take(6), d.take(6));
        let p = &permutations(5)[d.0 as usize];
        let (nodes, mut tris) = mesh(1);
        let mut m = Model::new(nodes, tris.clone(), Cond::Stress(1.0), material(2));
        supports(&mut m, 0);
        m = loaded(&m, 0b1_0010_0000 | 0b1100 | 0b1_0000, 0);
        let want = m.solve();
        tris = vec![listed(tris[0], a), listed(tris[1], b)];
        if first == 1 {
            tris.reverse();
        }
        rec.state(i);
        let (point, line) = (m.point.clone(), m.line.clone());
        let total = point.len() + line.len();
        let r = rec.call(|| {
            let mut e = ElementAssemblage::new(m.mat, m.cond.real());
            let ids = e.add_nodes(&m.nodes);
            // loads may come before, between and after the elements
            for (at, &k) in p.iter().filter(|k| **k < total).enumerate() {
                if at == first {
                    e.add_element(ElementDescriptor::new(tris[0].map(|x| ids[x])));
                }
                if k < point.len() {
                    e.add_conc_force(ids[point[k].0], point[k].1.into());
                } else {
                    let l = line[k - point.len()];
                    e.add_dist_line_force(ids[l.0], ids[l.1], l.2.into());
                }
            }
            e.add_element(ElementDescriptor::new(tris[1].map(|x| ids[x])));
            for (k, s) in m.sup.iter().enumerate() {
                if *s != Sup::Free {
                    e.add_constraint(ids[k], s.real());
                }
            }
            let seen: Vec<(usize, (f64, f64))> = e.conc_forces().iter().map(|x| (x.0.into_idx(), (x.1[0], x.1[1]))).collect();
            let seen_l: Vec<(usize, usize, (f64, f64))> = e.dist_forces().iter().map(|x| (x.0 .0.into_idx(), x.0 .1.into_idx(), (x.1[0], x.1[1]))).collect();
            let nodes = m.nodes.clone();
            let u = displacements(&e.calc_displacements::<DenseGaussSolver>(), &nodes);
            (u, seen, seen_l)
        });
        match r {
            Ok((u, s, l)) => {
                rec.check(apart(&u, want.as_ref().unwrap()) <= 1e-8, "displacements", || format!("order {:?}: {:?} want {:?}", p, u, want));
                rec.check(sorted(&s) == sorted(&point) && sorted(&l) == sorted(&line), "loads-listed", || format!("{:?} {:?} want {:?} {:?}", s, l, point, line));
            }
            Err(e) => rec.fail("solution-fails", format!("order {:?}: {}", p, e)),
        }
        rec.trace();
    });
    // visiting orders of the load tables
    let bound = h.pick(1, 2);
    h.family("hash orders", "one and two triangles, every set of at most 4 loads, hash visiting orders (deviations within the bound)", 64 + 512, |i, rec| {
        let (kind, set) = if i < 64 { (0, i) } else { (1, i - 64) };
        if set.count_ones() > 4 || set.count_ones() < 2 {
            return;
        }
        let (nodes, tris) = mesh(kind);
        let mut m = Model::new(nodes, tris, Cond::Stress(1.0), material(1));
        supports(&mut m, 0);
        let m = loaded(&m, set, 0);
        let want = m.solve();
        rec.state(i);
        rec.explore(Mode::Front, bound, 4000, |rec| judge(rec, &m, &want, &|| format!("{:?}", m)));
        rec.explore(Mode::Reversed, 64, 64, |rec| judge(rec, &m, &want, &|| format!("{:?}", m)));
    });
    // long edges, short edges, every direction
    h.family("edge geometry", "line loads on every edge of triangles with corners on a 4x4 lattice, both directions, 3 listings", 16 * 16 * 16 * 3 * 2 * 3, |i, rec| {
        let mut d = Digits(i);
        let (edge, dir, lst) = (d.take(3), d.take(2), [0, 1, 3][d.take(3)]);
        let p: Vec<(f64, f64)> = (0..3).map(|_| (d.take(4) as f64 * 0.75, d.take(4) as f64 * 1.25)).collect();
        if area2([p[0], p[1], p[2]]) == 0.0 {
            return;
        }
        let mut m = Model::new(p, vec![listed([0, 1, 2], lst)], Cond::Stress(0.3), material(1));
        let (a, b) = (edge, (edge + 1) % 3);
        m.line = vec![if dir == 0 { (a, b, (2.0, -3.0)) } else { (b, a, (2.0, -3.0)) }];
        rec.state(i);
        // the element's own contribution
        let want: Vec<(usize, f64)> = m.load().iter().enumerate().map(|(k, x)| (k, *x)).collect();
        let r = rec.call(|| {
            let e = m.build();
            let ids: Vec<_> = e.node_ids().collect();
            let t = m.tris[0];
            let el = Element::new(&e, [ids[t[0]], ids[t[1]], ids[t[2]]]);
            let l = m.line[0];
            el.int_f_l((ids[l.0], ids[l.1]), l.2.into()).map(|v| v.iter().map(|x| (format!("{:?}", x.0), x.1)).collect::<Vec<_>>())
        });
        match r {
            Ok(Some(v)) => {
                let mut got = vec![0.0; 6];
                for (s, x) in v {
                    let n: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                    got[n[0] * 2 + n[1]] += x;
                }
                rec.check(want.iter().all(|(k, x)| (got[*k] - x).abs() <= 1e-11), "edge-load", || format!("{:?}: {:?} want {:?}", m, got, want));
            }
            r => rec.fail("edge-load-fails", format!("{:?}: {:?}", m, r)),
        }
        // and the whole
        m.sup[(edge + 2) % 3] = Sup::XY;
        m.sup[a] = if m.nodes[a].0 == m.nodes[(edge + 2) % 3].0 { Sup::X } else { Sup::Y };
        let want = m.solve();
        judge(rec, &m, &want, &|| format!("{:?}", m));
    });
    h.family("not an edge", "a pair of nodes that is no edge of the element has no contribution", 4, |i, rec| {
        let (nodes, tris) = mesh(1);
        let m = Model::new(nodes, tris, Cond::Stress(1.0), material(1));
        let e = m.build();
        let ids: Vec<_> = e.node_ids().collect();
        let (a, b) = [(1, 3), (3, 1), (0, 3), (3, 0)][i as usize];
        let r = rec.call(|| Element::new(&e, [ids[0], ids[1], ids[2]]).int_f_l((ids[a], ids[b]), (1.0, 1.0).into()).is_none());
        rec.check(r == Ok(true), "not-an-edge", || format!("{:?} {:?}", (a, b), r));
        rec.state(i);
        rec.trace();
    });
    // more of the same on larger meshes
    let cells = h.pick(3usize, 4);
    h.family("grids", "grids with every choice of diagonals: all boundary edges loaded, all edges loaded, alternate edges; nodal forces everywhere or nowhere", (1u64 << (cells * 2)) * 6, |i, rec| {
        let mut d = Digits(i);
        let (which, pt) = (d.take(3), d.take(2));
        let (nodes, tris) = grid(cells, 2, d.0);
        let mut m = Model::new(nodes, tris, Cond::Strain(0.7), material(2));
        supports(&mut m, 0);
        let es = m.edges();
        m.line = es.iter().enumerate().filter(|(k, e)| [e.2 == 1, true, k % 2 == 0][which]).map(|(k, e)| (e.0, e.1, line_value(k))).collect();
        if pt == 1 {
            m.point = (0..m.nodes.len()).map(|k| (k, POINT[k % 8])).collect();
        }
        rec.state(i);
        let want = m.solve();
        judge(rec, &m, &want, &|| format!("grid {} {:b} {:?}", cells, d.0, m.line));
    });
    // many loads at once
    let tall: &[usize] = if h.thorough() { &[17, 33, 66, 130, 260] } else { &[17, 33, 66, 130] };
    h.family("many loads", "strips of 36 to 262 (thorough 522) nodes, held every 11 nodes: nodal forces and line loads on all, boundary, inner, every third or all but one, both conditions, edges in both directions, loads added in 3 orders", tall.len() as u64 * 2 * 4 * 5 * 2 * 3, |i, rec| {
        let mut d = Digits(i);
        let (ny, c, pt, ln, back, order) = (tall[d.take(tall.len() as u64)], d.take(2), d.take(4), d.take(5), d.take(2), d.take(3));
        let (nodes, tris) = grid(1, ny, 0x2d2d);
        let n = nodes.len();
        let mut m = Model::new(nodes, tris, [Cond::Stress(0.7), Cond::Strain(0.7)][c], material(2));
        for k in (0..n).step_by(11) {
            m.sup[k] = Sup::XY;
        }
        let v = |k: usize| (line_value(k).0 * (1.0 + k as f64 / 50.0), line_value(k).1);
        m.point = (0..n).filter(|k| [false, true, k % 3 == 1, *k + 1 == n][pt]).map(|k| (k, POINT[(k * 3) % 8])).collect();
        let es = m.edges();
        let count = es.len();
        m.line = es
            .iter()
            .enumerate()
            .filter(|(k, e)| [true, e.2 == 1, e.2 == 2, k % 3 == 0, k + 1 < count][ln])
            .map(|(k, e)| if (k + back) % 3 == 0 { (e.1, e.0, v(k)) } else { (e.0, e.1, v(k)) })
            .collect();
        match order {
            0 => {}
            1 => {
                m.line.reverse();
                m.point.reverse();
            }
            _ => {
                let l = m.line.len();
                m.line.rotate_left(l / 2);
                m.point.sort_by_key(|p| (p.0 % 7, p.0));
            }
        }
        rec.state(i);
        let want = m.solve_big();
        rec.outcome(want.is_some());
        let Some(want) = want else { return };
        match rec.call(|| {
            let mut e = m.build();
            displacements(&e.calc_displacements::<CholeskyEnvelopeSolver>(), &m.nodes)
        }) {
            Ok(u) => {
                let e = apart(&u, &want);
                rec.check(e <= 1e-8, "displacements", || format!("{} nodes, {} nodal forces, {} line loads, order {}: off by {:e}", n, m.point.len(), m.line.len(), order, e));
            }
            Err(e) => rec.fail("solution-fails", format!("{} nodes: {}", n, e)),
        }
        rec.trace();
    });
    // no load is too weak or too strong, and no edge too short or too long, to count
    h.family("scales", "3 meshes in 7 sizes (1e-6 to 1e6) x 9 strengths of nodal forces (none, 1e-15 to 1e12) x 9 of line loads x every edge alone, all edges, or one strong and the rest weak", 3 * 7 * 9 * 9 * 8, |i, rec| {
        let mut d = Digits(i);
        let (kind, size, p, l) = ([0usize, 1, 4][d.take(3)], d.take(7) as i32 * 2 - 6, d.take(9), d.take(9));
        let strength = |k: usize| [0.0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e12][k];
        let (nodes, tris) = mesh(kind);
        let nodes: Vec<_> = nodes.iter().map(|q| (q.0 * 10f64.powi(size), q.1 * 10f64.powi(size))).collect();
        let mut m = Model::new(nodes, tris, Cond::Stress(0.25), material(1));
        supports(&mut m, 0);
        if kind == 4 {
            m.sup[4] = Sup::XY;
            m.sup[0] = Sup::XY;
        }
        let es = m.edges();
        let pick = d.0 as usize;
        if pick < 6 && pick >= es.len() {
            return;
        }
        m.point = (0..m.nodes.len()).filter(|_| p > 0).map(|k| (k, (POINT[k % 8].0 * strength(p), POINT[k % 8].1 * strength(p)))).collect();
        m.line = es.iter().enumerate().filter(|(k, _)| l > 0 && (pick >= 6 || *k == pick)).map(|(k, e)| {
            let s = strength(l) * if pick == 7 && k > 0 { 1e-3 } else { 1.0 };
            (e.0, e.1, (line_value(k).0 * s, line_value(k).1 * s))
        }).collect();
        rec.state(i);
        let want = m.solve();
        rec.outcome(want.is_some());
        judge(rec, &m, &want, &|| format!("{:?}", m));
    });
    h.finish()
}
