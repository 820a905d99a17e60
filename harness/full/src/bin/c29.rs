//! C29: conditions given on the sides of a body act on all of its mesh that lies there, and on nothing else.
#[allow(dead_code)]
#[path = "../../../core/src/fe.rs"]
mod fe;
use bugi::element::ElementAssemblage;
use bugi::file::{read_to_bound, read_to_elas, save_elas};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::mesher::plane::PlaneTriangulation;
use fe::{Cond, Model, Sup};
use hfull::mesh::*;
use hfull::*;
use mcheck::*;
use std::path::Path;

/// what a side is given: nothing, a fixed direction, or sliding along itself
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hold {
    No,
    X,
    Y,
    XY,
    Slide,
}
const HOLDS: [Hold; 5] = [Hold::No, Hold::X, Hold::Y, Hold::XY, Hold::Slide];

#[derive(Clone, Debug)]
struct Case {
    rings: Rings,
    chew: bool,
    h: f64,
    cond: Cond,
    mat: usize,
    /// one per side, through all rings
    hold: Vec<Hold>,
    load: Vec<Option<P>>,
    /// bit i: the conditions of side i name its ends from last to first
    backwards: u64,
    /// number of modes asked for, or a static solution
    modes: Option<usize>,
    saved: bool,
    dense: bool,
}
const MATS: [&str; 2] = ["AL6061", "TEST"];

fn normal(a: P, b: P) -> f64 {
    (a.0 - b.0).atan2(b.1 - a.1)
}
fn text(c: &Case) -> String {
    let mut s = String::new();
    let mut k = 0;
    let mut sides = String::new();
    for (g, r) in c.rings.iter().enumerate() {
        s.push_str("polygon\n");
        for (i, p) in r.iter().enumerate() {
            s.push_str(&format!("{} {} v{}x{}\n", p.0, p.1, g, i));
            let (a, b) = (*p, r[(i + 1) % r.len()]);
            let (mut u, mut v) = (i, (i + 1) % r.len());
            if c.backwards >> (k % 64) & 1 == 1 {
                std::mem::swap(&mut u, &mut v);
            }
            let word = match c.hold[k] {
                Hold::No => None,
                Hold::X => Some("x".to_string()),
                Hold::Y => Some("y".to_string()),
                Hold::XY => Some("xy".to_string()),
                Hold::Slide => Some(format!("angle:{}", normal(a, b))),
            };
            if let Some(w) = word {
                sides.push_str(&format!("\ndistributed_constraint v{}x{} v{}x{} {}", g, u, g, v, w));
            }
            if let Some(f) = c.load[k] {
                sides.push_str(&format!("\ndistributed_force v{}x{} v{}x{} {} {}", g, u, g, v, f.0, f.1));
            }
            k += 1;
        }
        s.push_str("end\n");
    }
    let cond = match c.cond {
        Cond::Stress(t) => format!("planestress {}", t),
        Cond::Strain(t) => format!("planestrain {}", t),
        Cond::Axi => "axisymmetric".to_string(),
    };
    format!("{}condition {}\nmaterial {}{}", s, cond, MATS[c.mat], sides)
}
fn material(k: usize) -> bugi::element::material::Material {
    real_material(MATS[k]).unwrap()
}

/// the mesh with every condition applied by where its nodes and edges lie
fn reference(c: &Case, e: &ElementAssemblage) -> Option<Model> {
    let m = Mesh::of(e);
    let mut r = Model::new(m.nodes, m.tris, c.cond, material(c.mat));
    let sides = segments(&c.rings);
    let tol = if c.saved { 2e-6 } else { 1e-9 } * (1.0 + extent(&c.rings));
    let on = |p: P, k: usize| gap(p, sides[k].0, sides[k].1) <= tol;
    for (i, p) in r.nodes.iter().enumerate() {
        let (mut x, mut y, mut angle) = (false, false, vec![]);
        for k in (0..sides.len()).filter(|k| on(*p, *k)) {
            match c.hold[k] {
                Hold::No => (),
                Hold::X => x = true,
                Hold::Y => y = true,
                Hold::XY => (x, y) = (true, true),
                Hold::Slide => angle.push(normal(sides[k].0, sides[k].1)),
            }
        }
        r.sup[i] = match (x, y, angle.len()) {
            (true, true, _) => Sup::XY,
            (true, false, _) => Sup::X,
            (false, true, _) => Sup::Y,
            (false, false, 0) => Sup::Free,
            (false, false, 1) => Sup::Angle(angle[0]),
            // two angles at one node
            _ => return None,
        };
    }
    for (a, b, n) in r.edges() {
        for k in 0..sides.len() {
            if n == 1 && on(r.nodes[a], k) && on(r.nodes[b], k) {
                if let Some(f) = c.load[k] {
                    r.line.push((a, b, f));
                }
            }
        }
    }
    Some(r)
}
/// held well enough: no pivot of the reduced stiffness vanishes
fn supported(m: &Model) -> bool {
    let k = m.reduced_k();
    match la::cholesky(&k) {
        Some(l) => (0..k.len()).all(|i| l[i][i] * l[i][i] > 1e-7 * k[i][i]),
        None => false,
    }
}

fn judge(rec: &mut Rec, dir: &Path, c: &Case, id: u64) {
    mcstd::atomic::reset(id);
    let file = dir.join(format!("{:?}.bbnd", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::write(&file, text(c)).unwrap();
    let b = match rec.call(|| read_to_bound(&file)) {
        Ok(Ok(b)) => b,
        e => return rec.fail("no-boundary", format!("{:?}: {:?}\n{}", c, e.map(|e| e.err().map(|e| e.to_string())), text(c))),
    };
    if c.chew {
        // bodies and sizes Chew's method applies to
        let mut t = b.clone();
        if rec.call(|| t.divide_all_segments(c.h)).is_err() || spread(&Bound::of(&t).vertices) < c.h * (1.0 - 1e-9) {
            return;
        }
    }
    let e = rec.call(|| {
        let mut t = PlaneTriangulation::new(b);
        if c.chew {
            t.chew_mesh(c.h)
        } else {
            t.ruppert_mesh(c.h)
        }
        t.assemble().map_err(|e| e.to_string())
    });
    let mut e: ElementAssemblage = match e {
        Ok(Ok(e)) => e,
        Ok(Err(x)) | Err(x) => return rec.fail("no-mesh", format!("{:?}: {}", c, x)),
    };
    if c.saved {
        let mesh = file.with_extension("bmsh");
        save_elas(&mesh, e);
        e = match rec.call(|| read_to_elas(&mesh)) {
            Ok(Ok(e)) => e,
            x => return rec.fail("no-model", format!("{:?}: {:?}", c, x.map(|x| x.err().map(|x| x.to_string())))),
        };
    }
    let Some(m) = reference(c, &e) else { return };
    if m.nodes.len() > if c.rings.len() > 2 { 300 } else { 120 } || m.basis().is_empty() || !supported(&m) {
        return;
    }
    rec.trace();
    rec.steps(m.nodes.len() as u64);
    rec.state((format!("{:?}", c), id));
    rec.outcome((m.nodes.len(), m.tris.len(), m.line.len()));
    let still: Vec<(usize, P)> = m
        .sup
        .iter()
        .enumerate()
        .flat_map(|(i, s)| {
            let v = match s {
                Sup::Free => vec![],
                Sup::X => vec![(1.0, 0.0)],
                Sup::Y => vec![(0.0, 1.0)],
                Sup::XY => vec![(1.0, 0.0), (0.0, 1.0)],
                Sup::Angle(a) => vec![(a.cos(), a.sin())],
            };
            v.into_iter().map(move |d| (i, d))
        })
        .collect();
    let obeys = |rec: &mut Rec, u: &[f64], what: &str| {
        let size = la::norm(u);
        for (i, d) in &still {
            let off = u[2 * i] * d.0 + u[2 * i + 1] * d.1;
            if !rec.check(off.abs() <= 1e-9 * size, "constraint", || format!("{:?}: {}: node {:?} moves by {:e} along {:?}", c, what, m.nodes[*i], off, d)) {
                return;
            }
        }
    };
    if let Some(n) = c.modes {
        // distinct frequencies, up to the one after the last
        let Some((w, v)) = m.modes() else { return };
        let n = n.min(w.len());
        if w[..(n + 1).min(w.len())].windows(2).any(|x| (x[1] - x[0]) / x[1] < 1e-3) {
            return;
        }
        let got = rec.call(|| e.calc_modes(n).iter().map(|d| (d.frequency(), fe::displacements(d, &m.nodes))).collect::<Vec<_>>());
        let got = match got {
            Ok(g) => g,
            Err(x) => return rec.fail("no-modes", format!("{:?}: {}", c, x)),
        };
        if !rec.check(got.len() == n, "mode-count", || format!("{:?}: {} modes", c, got.len())) {
            return;
        }
        let mass = m.m();
        for (i, (f, u)) in got.iter().enumerate() {
            let want = w[i].sqrt();
            rec.check((f.unwrap_or(f64::NAN) - want).abs() <= 2e-6 * want, "frequency", || format!("{:?}: mode {} at {:?} instead of {}", c, i, f, want));
            let s = la::dot(u, &la::mulv(&mass, &v[i])).signum();
            let d: Vec<f64> = u.iter().zip(&v[i]).map(|(x, y)| x - s * y).collect();
            let off = la::dot(&d, &la::mulv(&mass, &d)).max(0.0).sqrt();
            rec.check(la::finite(u) && off <= 5e-3, "mode-shape", || format!("{:?}: mode {} is off by {:e}", c, i, off));
            obeys(rec, u, "mode");
        }
        return;
    }
    let k = m.reduced_k();
    let t = m.basis();
    let q = la::solve(&k, &la::mulv(&t, &m.load())).unwrap();
    let want = la::mulv(&la::transpose(&t), &q);
    let got = rec.call(|| {
        let d = if c.dense { e.calc_displacements::<DenseGaussSolver>() } else { e.calc_displacements::<CholeskyEnvelopeSolver>() };
        fe::displacements(&d, &m.nodes)
    });
    let got = match got {
        Ok(g) => g,
        Err(x) => return rec.fail("no-solution", format!("{:?}: {}", c, x)),
    };
    let tol = if c.saved { 1e-4 } else { 1e-6 };
    let off = if want.iter().all(|x| *x == 0.0) { la::norm(&got) } else { fe::apart(&got, &want) };
    rec.check(off <= tol, "displacement", || {
        let k = (0..m.nodes.len()).max_by(|i, j| {
            let d = |k: usize| (got[2 * k] - want[2 * k]).hypot(got[2 * k + 1] - want[2 * k + 1]);
            d(*i).partial_cmp(&d(*j)).unwrap_or(std::cmp::Ordering::Equal)
        });
        let k = k.unwrap();
        format!("{:?}: displacements are off by {:e}, most at node {:?}: {:?} instead of {:?}", c, off, m.nodes[k], &got[2 * k..2 * k + 2], &want[2 * k..2 * k + 2])
    });
    obeys(rec, &got, "loaded");
    rec.sample(|| format!("{:?}: {} nodes", c, m.nodes.len()));
}

const FORCES: [P; 5] = [(1000.0, 0.0), (0.0, -2000.0), (700.0, 500.0), (-300.0, 0.125), (0.5, 1500.0)];
const CONDS: [Cond; 4] = [Cond::Stress(1.0), Cond::Stress(0.25), Cond::Strain(1.0), Cond::Strain(3.0)];

fn main() {
    let mut h = Harness::new("C29");
    let dir = h.scratch();
    std::env::set_current_dir(&dir).unwrap();
    let dir = &dir;
    h.assume("bodies each mesher applies to; models of up to 120 nodes (300 where there are many rings) that are held well; at most one sliding side at a corner; modes at least 1e-3 apart");
    let deep = h.thorough();
    let mut rings: Vec<Vec<P>> = vec![];
    for n in 3..=(if deep { 5 } else { 4 }) {
        rings.extend(up_to_shift(lattice_rings(4, n)));
    }
    for n in 5..=(if deep { 9 } else { 7 }) {
        rings.extend(up_to_shift(lattice_rings(3, n)));
    }
    let blunt = |r: &Vec<P>| angles(&vec![r.clone()]).iter().all(|a| a.to_degrees() >= 60.0 - 1e-6);
    let base = |rings: Rings| {
        let n = rings.concat().len();
        Case { rings, chew: true, h: 1.0, cond: CONDS[0], mat: 0, hold: vec![Hold::No; n], load: vec![None; n], backwards: 0, modes: None, saved: false, dense: false }
    };
    let may = |c: &Case| c.chew || c.rings.iter().all(blunt);
    let nr = rings.len() as u64;

    // every assignment of what a side may be given, on bodies with three and four sides
    let small: Vec<Vec<P>> = vec![
        vec![(0.0, 0.0), (2.0, 0.0), (1.0, 2.0)],
        vec![(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)],
        vec![(0.0, 0.0), (2.0, 1.0), (1.0, 3.0), (-1.0, 2.0)],
        vec![(0.0, 0.0), (2.0, 0.0), (3.0, 2.0), (0.0, 2.0)],
    ];
    let loads = if deep { 16 } else { 4 };
    h.family("assignments", "4 bodies, every constraint of 5 on every side, 4 (thorough: 16) sets of loaded sides, 2 meshers, ends named either way", 4 * 625 * loads * 2, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![small[x.take(4)].clone()]);
        let n = c.hold.len();
        (c.chew, c.h) = (x.take(2) == 0, 1.0);
        let l = x.take(loads);
        let code = x.0;
        for k in 0..4 {
            let v = x.take(5);
            if k < n {
                c.hold[k] = HOLDS[v];
            } else if v > 0 {
                return;
            }
        }
        let slides = c.hold.iter().filter(|h| **h == Hold::Slide).count();
        if slides > 1 && (n == 3 || (0..n).any(|k| c.hold[k] == Hold::Slide && c.hold[(k + 1) % n] == Hold::Slide)) {
            return;
        }
        let mask = if deep { l as u64 } else { [15, 5, 2, 8][l] };
        for k in 0..n {
            c.load[k] = (mask >> k & 1 == 1).then_some(FORCES[k]);
        }
        c.backwards = code.wrapping_mul(0x9e3779b97f4a7c15) >> 60;
        (c.cond, c.mat) = (CONDS[(code % 4) as usize], (code / 4 % 2) as usize);
        c.dense = code % 3 == 0;
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    h.family("sides", "every ring, every side held in one of 4 ways, every other side loaded, 2 meshers", nr * 9 * 9 * 4 * 2, |i, rec| {
        let mut x = Digits(i);
        let (k, l, w, z) = (x.take(9), x.take(9), x.take(4), x.take(2));
        let r = &rings[x.take(nr)];
        let n = r.len();
        if k >= n || l >= n || k == l {
            return;
        }
        let mut c = base(vec![r.clone()]);
        (c.chew, c.h) = (z == 0, [1.0, 0.7][(k + l) % 2]);
        c.hold[k] = Hold::XY;
        // a second held side, in the ways that meet the first at a corner or not
        c.hold[(k + 1 + w % 2) % n] = HOLDS[1 + w];
        c.hold[k] = Hold::XY;
        c.load[l] = Some(FORCES[w]);
        c.backwards = (i * 7) & 0x1ff;
        c.cond = CONDS[(k + w) % 4];
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    h.family("saved", "every ring, one side held and one sliding, all loaded, through a saved file, 2 meshers", nr * 9 * 2, |i, rec| {
        let mut x = Digits(i);
        let (k, z) = (x.take(9), x.take(2));
        let r = &rings[x.take(nr)];
        let n = r.len();
        if k >= n {
            return;
        }
        let mut c = base(vec![r.clone()]);
        (c.chew, c.h, c.saved) = (z == 0, 0.7, true);
        c.hold[k] = Hold::XY;
        c.hold[(k + 1) % n] = Hold::Slide;
        c.load = (0..n).map(|j| Some(FORCES[j % 5])).collect();
        c.backwards = 0x155;
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    h.family("modes", "every ring, every side held, 2 meshers, 2 sizes, 3 modes", nr * 9 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let (k, z, s) = (x.take(9), x.take(2), x.take(2));
        let r = &rings[x.take(nr)];
        let n = r.len();
        if k >= n {
            return;
        }
        let mut c = base(vec![r.clone()]);
        (c.chew, c.h) = (z == 0, [1.0, 0.8][s]);
        c.hold[k] = Hold::XY;
        c.hold[(k + 2) % n] = [Hold::No, Hold::Slide, Hold::X][(k + s) % 3];
        c.hold[k] = Hold::XY;
        c.load[(k + 1) % n] = Some(FORCES[0]);
        (c.cond, c.mat) = (CONDS[k % 4], s);
        c.modes = Some(3);
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    let holes: Vec<Rings> = holed(0.5).into_iter().filter(|r| r[0][2] == (5.0, 5.0) || r[0][2] == (6.0, 3.0)).collect();
    let nh = holes.len() as u64;
    h.family("holes", "rectangles with a hole at every place of a grid, every side held, every other loaded, 2 meshers", nh * 4 * 4 * 2, |i, rec| {
        let mut x = Digits(i);
        let (k, w, z) = (x.take(4), x.take(4), x.take(2));
        let mut c = base(holes[x.take(nh)].clone());
        let n = c.hold.len();
        (c.chew, c.h) = (z == 0, 1.0);
        // one of the hole's sides is held too, or only loaded
        c.hold[k] = HOLDS[3];
        c.hold[4 + w % (n - 4)] = HOLDS[1 + w];
        c.load[(k + 1) % 4] = Some(FORCES[w]);
        c.load[4 + k % (n - 4)] = Some(FORCES[(w + 2) % 5]);
        c.backwards = i * 11;
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    let cr: Vec<Rings> = crowds().into_iter().filter(|r| r.len() <= if deep { 26 } else { 10 }).collect();
    let ncr = cr.len() as u64;
    h.family("many rings", "plates with up to 9 (thorough: 25) holes, several bodies, bodies inside others: every side held or loaded in turn in 6 ways, each body held, 2 meshers, saved or not", ncr * 6 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let (w, z, s) = (x.take(6), x.take(2), x.take(2));
        let mut c = base(cr[x.take(ncr)].clone());
        (c.chew, c.h, c.saved) = (z == 0, [1.0, 2.0][z], s == 1);
        let mut k = 0;
        for (g, r) in c.rings.clone().iter().enumerate() {
            let body = area(r) > 0.0;
            for j in 0..r.len() {
                if (body && j == w % 4) || (w == 5 && g + 1 == c.rings.len() && j == 0) {
                    c.hold[k] = Hold::XY;
                } else if (g * 5 + j + w) % 7 == 0 {
                    c.hold[k] = [Hold::X, Hold::Y, Hold::Slide][(g + w) % 3];
                } else if (g + j + w) % 3 != 0 {
                    c.load[k] = Some(FORCES[(g * 3 + j + w) % 5]);
                }
                k += 1;
            }
        }
        c.backwards = i.wrapping_mul(0x9e3779b97f4a7c15);
        c.cond = CONDS[w % 4];
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    let few: Vec<Vec<P>> = rings.iter().filter(|r| blunt(r)).step_by(if deep { 2 } else { 5 }).cloned().collect();
    let nf = few.len() as u64;
    h.family("straight-through vertices", "every k-th ring with every extra vertex on its sides, each part given its own conditions, 2 meshers", nf * 2 * 3, |i, rec| {
        let mut x = Digits(i);
        let (z, w) = (x.take(2), x.take(3));
        for v in with_vertices(&few[x.take(nf)]) {
            let n = v.len();
            let mut c = base(vec![v]);
            (c.chew, c.h) = (z == 0, 0.7);
            for k in 0..n {
                c.hold[k] = [Hold::XY, Hold::No, Hold::X, Hold::No, Hold::Y, Hold::No][(k + w) % 6];
                c.load[k] = ((k + w) % 2 == 1).then_some(FORCES[k % 5]);
            }
            c.backwards = 0x2d;
            judge(rec, dir, &c, 0);
        }
    });
    h.family("moved", "every k-th ring turned, scaled from 1e-12 to 1e10 and shifted up to 1e5 x 2 meshers x 2 sizes x a side held x 4 strengths of the loads (quick: one of 4 in turn) x displacements and modes", nf * 2 * 2 * 3 * 2 * if deep { 4 } else { 1 } * MOVES.len() as u64, |i, rec| {
        let mut x = Digits(i);
        let (z, s, k, w) = (x.take(2), x.take(2), x.take(3), x.take(2));
        let f = if deep { x.take(4) } else { (i.wrapping_mul(0x9e3779b97f4a7c15) >> 62) as usize };
        let m = MOVES[x.take(MOVES.len() as u64)];
        let mut c = base(moved(&vec![few[x.take(nf)].clone()], m.0, m.1, m.2));
        let n = c.hold.len();
        (c.chew, c.h) = (z == 0, [1.0, 0.7][s] * m.1);
        c.hold[k] = Hold::XY;
        c.hold[(k + 1) % n] = [Hold::Slide, Hold::Y, Hold::No][k];
        c.load[(k + 1) % n] = Some(FORCES[f]);
        c.load[(k + 2) % n] = Some(FORCES[k]);
        let g = [1e-12, 1e-3, 1.0, 1e9][f];
        c.load = c.load.iter().map(|l| l.map(|l| (l.0 * g, l.1 * g))).collect();
        c.backwards = i * 5;
        c.cond = CONDS[(k + f) % 4];
        c.modes = (w == 1).then_some(2);
        judge(rec, dir, &c, 0);
    });
    h.family("orders", "every k-th ring, 2 meshers, reversed visiting orders and every table started at its k-th entry, displacements and modes", nf * 2 * 12 * 2, |i, rec| {
        let mut x = Digits(i);
        let (z, o, m) = (x.take(2), x.take(12), x.take(2));
        let r = few[x.take(nf)].clone();
        let n = r.len();
        let mut c = base(vec![r]);
        (c.chew, c.h) = (z == 0, 0.9);
        c.hold[o % n] = Hold::XY;
        c.hold[(o + 1) % n] = Hold::Slide;
        c.load[(o + 2) % n] = Some(FORCES[o % 5]);
        c.load[o % n] = Some(FORCES[(o + 1) % 5]);
        c.modes = (m == 1).then_some(2);
        rec.explore(policy(o), 0, 1, |rec| judge(rec, dir, &c, 13 * o as u64));
    });
    let _ = std::env::set_current_dir("/");
    h.finish()
}
