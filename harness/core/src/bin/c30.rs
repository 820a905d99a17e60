//! C30: a model answers for what was put into it, at every moment of its life.
use bugi::element::stress::StressState;
use bugi::element::{Deformation, ElementAssemblage, ElementDescriptor};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::MatrixLike;
use hcore::fe::*;
use mcheck::la;
use mcheck::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// the next batch of nodes
    Nodes,
    /// the next element of the plan
    Element,
    X,
    Y,
    Slide,
    Point,
    Line,
    Solve,
    SolveDense,
    Modes(usize),
}
const OPS: [Op; 11] = [Op::Nodes, Op::Element, Op::X, Op::Y, Op::Slide, Op::Point, Op::Line, Op::Solve, Op::SolveDense, Op::Modes(1), Op::Modes(3)];

/// what is still to come: batches of nodes, elements, loaded edges
struct Plan {
    nodes: Vec<(f64, f64)>,
    batches: Vec<usize>,
    tris: Vec<[usize; 3]>,
    lines: Vec<(usize, usize)>,
}
fn plan(k: usize) -> Plan {
    let nodes = vec![(1.0, 0.0), (3.0, 0.5), (1.5, 2.0), (3.5, 2.25), (5.0, 1.0), (4.75, 3.0)];
    match k {
        0 => Plan { nodes, batches: vec![3, 1, 2], tris: vec![[0, 1, 2], [1, 3, 2], [1, 4, 3], [3, 4, 5]], lines: vec![(1, 2), (3, 2), (0, 1), (3, 4)] },
        // the same body met in another order: one element reaches back over nodes that came between
        1 => Plan { nodes, batches: vec![4, 2], tris: vec![[2, 1, 3], [4, 3, 1], [0, 1, 2], [5, 3, 4]], lines: vec![(2, 1), (1, 4), (0, 2), (3, 5)] },
        _ => Plan { nodes, batches: vec![6], tris: vec![[0, 1, 2], [3, 4, 5], [1, 3, 2], [1, 4, 3]], lines: vec![(4, 5), (1, 2), (1, 3), (2, 0)] },
    }
}

struct Run {
    plan: Plan,
    real: ElementAssemblage,
    want: Model,
    batch: usize,
}
impl Run {
    fn new(p: usize, cond: Cond, mat: usize) -> Self {
        let real = ElementAssemblage::new(material(mat), cond.real());
        Run { plan: plan(p), real, want: Model::new(vec![], vec![], cond, material(mat)), batch: 0 }
    }
    /// None: not possible here
    fn apply(&mut self, op: Op) -> Option<()> {
        let (m, p) = (&mut self.want, &self.plan);
        let n = m.nodes.len();
        match op {
            Op::Nodes => {
                let b = *p.batches.get(self.batch)?;
                let new = &p.nodes[n..n + b];
                let ids = self.real.add_nodes(new);
                assert_eq!(ids.iter().map(|i| i.into_idx()).collect::<Vec<_>>(), (n..n + b).collect::<Vec<_>>(), "numbers given to new nodes");
                m.nodes.extend_from_slice(new);
                m.sup.resize(n + b, Sup::Free);
                self.batch += 1;
            }
            Op::Element => {
                let t = *p.tris.get(m.tris.len())?;
                if t.iter().any(|x| *x >= n) {
                    return None;
                }
                self.real.add_element(ElementDescriptor::new(t.map(nid)));
                m.tris.push(t);
            }
            Op::X | Op::Y => {
                // the first node of the first element for one direction, its second for the other, then again for both
                let (sup, both) = if op == Op::X { (Sup::X, Sup::Y) } else { (Sup::Y, Sup::X) };
                let i = (0..n).find(|&i| m.sup[i] == both || m.sup[i] == Sup::Free)?;
                self.real.add_constraint(nid(i), sup.real());
                m.sup[i] = if m.sup[i] == both { Sup::XY } else { sup };
            }
            Op::Slide => {
                let i = n.checked_sub(1)?;
                if m.sup[i] != Sup::Free {
                    return None;
                }
                self.real.add_constraint(nid(i), Sup::Angle(0.7).real());
                m.sup[i] = Sup::Angle(0.7);
            }
            Op::Point => {
                let i = (0..n).rev().find(|i| m.point.iter().all(|f| f.0 != *i))?;
                // a force of nothing is a force all the same
                let f = if i == 3 { (0.0, 0.0) } else { (3.0 - i as f64, 0.5 + i as f64) };
                self.real.add_conc_force(nid(i), f.into());
                m.point.push((i, f));
            }
            Op::Line => {
                let (a, b) = *p.lines.get(m.line.len())?;
                if a >= n || b >= n || m.cond == Cond::Axi {
                    return None;
                }
                let f = if m.line.len() == 1 { (0.0, 0.0) } else { (-1.0, 2.0 + a as f64) };
                self.real.add_dist_line_force(nid(a), nid(b), f.into());
                m.line.push((a, b, f));
            }
            Op::Solve | Op::SolveDense | Op::Modes(_) => (),
        }
        Some(())
    }
    /// what the model says of itself
    fn lists(&self) -> Option<String> {
        let (e, m) = (&self.real, &self.want);
        let n = m.nodes.len();
        let pair = |p: bugi_point| (p.0, p.1);
        let nodes: Vec<(f64, f64)> = e.nodes().iter().map(|p| (p[0], p[1])).collect();
        if nodes != m.nodes || e.node_count() != n || e.node_ids().map(|i| i.into_idx()).ne(0..n) || (0..n).any(|i| (e.node(nid(i))[0], e.node(nid(i))[1]) != m.nodes[i]) {
            return Some(format!("nodes {:?}, want {:?}", nodes, m.nodes));
        }
        let tris: Vec<[usize; 3]> = e.element_descriptors().into_iter().map(|d| d.into_parts().map(|i| i.into_idx())).collect();
        if tris != m.tris {
            return Some(format!("elements {:?}, want {:?}", tris, m.tris));
        }
        let sup: Vec<_> = e.constraints().into_iter().map(|(i, c)| (i.into_idx(), c)).collect();
        let want: Vec<_> = m.sup.iter().enumerate().map(|(i, s)| (i, s.real())).collect();
        if sup != want {
            return Some(format!("constraints {:?}, want {:?}", sup, want));
        }
        let mut pf: Vec<_> = e.conc_forces().into_iter().map(|(i, f)| (i.into_idx(), pair((f[0], f[1])))).collect();
        pf.sort_by_key(|x| x.0);
        let mut want = m.point.clone();
        want.sort_by_key(|x| x.0);
        if pf != want {
            return Some(format!("nodal forces {:?}, want {:?}", pf, want));
        }
        let mut lf: Vec<_> = e.dist_forces().into_iter().map(|((i, j), f)| (i.into_idx(), j.into_idx(), pair((f[0], f[1])))).collect();
        lf.sort_by_key(|x| (x.0, x.1));
        let mut want = m.line.clone();
        want.sort_by_key(|x| (x.0, x.1));
        if lf != want {
            return Some(format!("edge loads {:?}, want {:?}", lf, want));
        }
        let sorted = |t: [usize; 3]| {
            let mut t = t;
            t.sort();
            t
        };
        let mut tr: Vec<[usize; 3]> = e.triangles().into_iter().map(|t| sorted([t.0, t.1, t.2])).collect();
        let mut want: Vec<[usize; 3]> = m.tris.iter().map(|t| sorted(*t)).collect();
        tr.sort();
        want.sort();
        if tr != want {
            return Some(format!("triangles {:?}, want {:?}", tr, want));
        }
        let mut ed: Vec<(usize, usize)> = e.edges().into_iter().map(|(a, b)| (a.min(b), a.max(b))).collect();
        let mut want: Vec<(usize, usize)> = m.edges().into_iter().map(|x| (x.0, x.1)).collect();
        // an edge met from both sides may be listed in both directions
        ed.sort();
        ed.dedup();
        want.sort();
        if ed != want {
            return Some(format!("edges {:?}, want {:?}", ed, want));
        }
        if format!("{:?} {:?}", e.condition(), e.material()) != format!("{:?} {:?}", m.cond.real(), m.mat) {
            return Some(format!("{:?} {:?}", e.condition(), e.material()));
        }
        None
    }
}
#[allow(non_camel_case_types)]
type bugi_point = (f64, f64);

fn stress_of(d: &Deformation, plane: bool) -> Vec<Option<[f64; 3]>> {
    // axisymmetric states have no matrix form
    let of = |s: StressState| {
        let c = s.to_cauchy();
        [c[(0, 0)], c[(1, 1)], c[(0, 1)]]
    };
    d.stresses().into_iter().map(|s| s.map(|s| if plane { of(s) } else { [0.0; 3] })).collect()
}

fn solvable(m: &Model) -> Option<Vec<f64>> {
    let edges = m.edges();
    if m.tris.is_empty() || m.line.iter().any(|l| !edges.iter().any(|e| (e.0, e.1) == (l.0.min(l.1), l.0.max(l.1)))) {
        return None;
    }
    // every unknown belongs to some element
    if (0..m.nodes.len()).any(|i| m.sup[i] != Sup::XY && m.tris.iter().all(|t| !t.contains(&i))) {
        return None;
    }
    if m.basis().is_empty() {
        return None;
    }
    m.solve()
}

/// a static solution and everything derived from it, each asked twice
fn statics(rec: &mut Rec, r: &mut Run, dense: bool, hist: &dyn Fn() -> String) {
    let Some(u) = solvable(&r.want) else { return };
    let plane = r.want.cond.plane();
    let got = rec.call(|| {
        let d = if dense { r.real.calc_displacements::<DenseGaussSolver>() } else { r.real.calc_displacements::<CholeskyEnvelopeSolver>() };
        let first = (displacements(&d, &r.want.nodes), stress_of(&d, plane), d.von_mises(), d.displacement_norms(), d.frequency());
        let again = (displacements(&d, &r.want.nodes), stress_of(&d, plane), d.von_mises(), d.displacement_norms(), d.frequency());
        (first, again)
    });
    rec.trace();
    let (a, b) = match got {
        Ok(x) => x,
        Err(e) => return rec.fail("solve-fails", format!("{}: {}", hist(), e)),
    };
    rec.check(a == b, "asked-twice", || format!("{}: {:?} and then {:?}", hist(), a, b));
    let near = |x: &[f64], y: &[f64], scale: f64| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p - q).abs() <= 1e-7 * scale);
    let size = la::norm(&u);
    rec.check(near(&a.0, &u, size), "displacements", || format!("{}: {:?}, want {:?}", hist(), a.0, u));
    let norms: Vec<f64> = u.chunks(2).map(|c| c[0].hypot(c[1])).collect();
    rec.check(near(&a.3, &norms, size), "norms", || format!("{}: {:?}, want {:?}", hist(), a.3, norms));
    let want = r.want.stresses(&u);
    let top = want.iter().flatten().flatten().fold(0.0f64, |x, y| x.max(y.abs()));
    let same = a.1.len() == want.len()
        && a.1.iter().zip(&want).all(|(g, w)| match (g, w) {
            (None, None) => true,
            (Some(g), Some(w)) => !plane || near(g, &w[..3], top),
            _ => false,
        });
    rec.check(same, "stresses", || format!("{}: {:?}, want {:?}", hist(), a.1, want));
    let vm: Vec<f64> = want.iter().map(|s| s.map_or(0.0, |[x, y, t, z]| (((x - y).powi(2) + (y - z).powi(2) + (z - x).powi(2)) / 2.0 + 3.0 * t * t).sqrt())).collect();
    rec.check(near(&a.2, &vm, top), "von-mises", || format!("{}: {:?}, want {:?}", hist(), a.2, vm));
    rec.check(a.4.is_none(), "frequency", || format!("{}: a static solution has frequency {:?}", hist(), a.4));
    rec.outcome(u.iter().map(|x| if size == 0.0 { 0 } else { (x / size * 1e6) as i64 }).collect::<Vec<_>>());
}

fn modes(rec: &mut Rec, r: &mut Run, n: usize, hist: &dyn Fn() -> String) {
    if r.want.cond == Cond::Axi || solvable(&r.want).is_none() || n > r.want.basis().len() {
        return;
    }
    let Some((w, v)) = r.want.modes() else { return };
    let upto = (n + 1).min(w.len());
    if w[..upto].windows(2).any(|x| (x[1] - x[0]) / x[1] < 1e-3) {
        return;
    }
    let got = rec.call(|| r.real.calc_modes(n).iter().map(|d| (d.frequency(), displacements(d, &r.want.nodes))).collect::<Vec<_>>());
    rec.trace();
    let got = match got {
        Ok(g) => g,
        Err(e) => return rec.fail("modes-fail", format!("{}: {}", hist(), e)),
    };
    let mm = r.want.m();
    let ok = got.len() == n
        && got.iter().enumerate().all(|(i, (f, u))| {
            let want = w[i].sqrt();
            let s = la::dot(u, &la::mulv(&mm, &v[i])).signum();
            let d: Vec<f64> = u.iter().zip(&v[i]).map(|(x, y)| x - s * y).collect();
            f.map_or(false, |f| (f - want).abs() <= 2e-6 * want) && la::finite(u) && la::dot(&d, &la::mulv(&mm, &d)).max(0.0).sqrt() <= 5e-3
        });
    rec.check(ok, "modes", || format!("{}: {:?}, want {:?} {:?}", hist(), got, w, v));
}

fn step(rec: &mut Rec, r: &mut Run, op: Op, ask: bool, hist: &dyn Fn() -> String) -> bool {
    match op {
        Op::Solve => statics(rec, r, false, hist),
        Op::SolveDense => statics(rec, r, true, hist),
        Op::Modes(n) => modes(rec, r, n, hist),
        _ => match rec.call(|| r.apply(op)) {
            Ok(Some(())) => (),
            Ok(None) => return false,
            Err(e) => {
                rec.fail("step-fails", format!("{}: {}", hist(), e));
                return false;
            }
        },
    }
    rec.steps(1);
    if ask {
        ask_lists(rec, r, hist);
    }
    true
}
fn ask_lists(rec: &mut Rec, r: &Run, hist: &dyn Fn() -> String) {
    match rec.call(|| r.lists()) {
        Ok(None) => (),
        Ok(Some(e)) => rec.fail("contents", format!("{}: {}", hist(), e)),
        Err(e) => rec.fail("query-fails", format!("{}: {}", hist(), e)),
    }
}
fn end(rec: &mut Rec, r: &mut Run, hist: &dyn Fn() -> String) {
    rec.state(hist());
    ask_lists(rec, r, hist);
    statics(rec, r, false, hist);
    modes(rec, r, 2, hist);
    ask_lists(rec, r, hist);
}

fn start(r: &mut Run) {
    for op in [Op::Nodes, Op::Element, Op::X, Op::Y, Op::Y, Op::Point] {
        r.apply(op);
    }
}
const CONDS: [Cond; 3] = [Cond::Stress(0.5), Cond::Strain(2.0), Cond::Axi];

fn main() {
    let mut h = Harness::new("C30");
    h.assume("at most one force per node and one load per edge; one sliding support per node; answers compared where the model so far is held and every node that can move belongs to an element; loads on pairs that are not yet edges are compared once they are");
    let depth = h.pick(5u32, 6);
    let n = OPS.len() as u64;
    h.family("grown", "every sequence of 11 steps (nodes, elements, supports, loads, solutions, modes) to the depth on a model of one triangle, 2 plans, plane stress and axisymmetric", pow(n, depth) * 4, |i, rec| {
        let mut d = Digits(i);
        let (p, c) = (d.take(2), [0, 2][d.take(2)]);
        let ops: Vec<Op> = (0..depth).map(|_| *d.pick(&OPS)).collect();
        if CONDS[c] == Cond::Axi && ops.iter().any(|o| matches!(o, Op::Modes(_) | Op::Line)) {
            return;
        }
        let mut r = Run::new(p, CONDS[c], (i % 3) as usize);
        let hist = || format!("plan {} {:?}: one element, then {:?}", p, CONDS[c], ops);
        start(&mut r);
        for o in &ops {
            if !step(rec, &mut r, *o, i % 5 != 0, &hist) || rec.failed() {
                return;
            }
        }
        end(rec, &mut r, &hist);
    });
    let depth = h.pick(6u32, 7);
    let build = [Op::Nodes, Op::Element, Op::X, Op::Y, Op::Point, Op::Line];
    h.family("from nothing", "every order of building steps (6) to a further depth, solved after every step, 3 plans, plane strain", pow(6, depth) * 3, |i, rec| {
        let mut d = Digits(i);
        let p = d.take(3);
        let ops: Vec<Op> = (0..depth).map(|_| *d.pick(&build)).collect();
        // nothing can come before nodes, and at least one element must come
        if ops[0] != Op::Nodes || !ops.contains(&Op::Element) {
            return;
        }
        let mut r = Run::new(p, CONDS[1], (i % 3) as usize);
        let hist = || format!("plan {} plane strain: {:?}", p, ops);
        // hold it once it exists, at some point of the sequence
        for o in &ops {
            if !step(rec, &mut r, *o, true, &hist) || rec.failed() {
                return;
            }
            if i % 2 == 0 {
                statics(rec, &mut r, false, &hist);
            }
        }
        for o in [Op::X, Op::Y, Op::Y] {
            step(rec, &mut r, o, false, &hist);
        }
        end(rec, &mut r, &hist);
    });
    h.family("two at once", "every eleventh (thorough: every) pair of histories of 3 steps (11 steps each), one per model, in one of 5 interleavings", pow(n, h.pick(5, 6)), |i, rec| {
        // quick: every eleventh pair
        let i = if rec.thorough() { i } else { i * 11 + i % 11 };
        let mut d = Digits(i);
        let ops: Vec<Op> = (0..6).map(|_| *d.pick(&OPS)).collect();
        let order = [0b000111u32, 0b101010, 0b010101, 0b110010, 0b011001][(i % 5) as usize];
        let hist = || format!("two models, order {:b}: {:?}", order, ops);
        let mut r = [Run::new(0, CONDS[0], 0), Run::new(1, CONDS[1], 2)];
        r.iter_mut().for_each(start);
        for (k, o) in ops.iter().enumerate() {
            if !step(rec, &mut r[(order >> k & 1) as usize], *o, false, &hist) || rec.failed() {
                return;
            }
        }
        for x in r.iter_mut().rev() {
            end(rec, x, &hist);
        }
    });
    let len = h.pick(40usize, 120);
    h.family("long", "long histories: every step of the alphabet's k-th cycle, solved again and again while the model grows", 11 * 11 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (a, b, p, c) = (d.take(11), d.take(11), d.take(3), d.take(3));
        let mut r = Run::new(p, CONDS[c], (i % 3) as usize);
        start(&mut r);
        let mut done = vec![];
        let mut k = a;
        for s in 0..len {
            let o = OPS[k % 11];
            k = k * (b + 1) + s + 1;
            k %= 1021;
            if CONDS[c] == Cond::Axi && matches!(o, Op::Modes(_)) {
                continue;
            }
            done.push(o);
            let hist = || format!("plan {} {:?}: one element, then {:?}", p, CONDS[c], done);
            // steps that are not possible here are left out
            if !step(rec, &mut r, o, true, &hist) {
                done.pop();
            }
            if rec.failed() {
                return;
            }
        }
        let hist = || format!("plan {} {:?}: one element, then {:?}", p, CONDS[c], done);
        end(rec, &mut r, &hist);
    });
    h.finish()
}
