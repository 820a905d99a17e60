//! C28: a body in a uniform state of stress is solved exactly on every mesh.
use bugi::element::constraint::Constraint;
use bugi::element::ElementAssemblage;
use bugi::file::{read_to_bound, read_to_elas, save_elas};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::mesher::plane::PlaneTriangulation;
use hfull::mesh::*;
use hfull::*;
use mcheck::*;
use std::path::Path;

/// how the body is held: the first vertex fixed, and a second one in a direction that stops the rotation;
/// or one side sliding along itself (given in the boundary file), and one of its corners fixed
#[derive(Clone, Copy, Debug, PartialEq)]
enum Held {
    Pinned,
    Side(usize),
}
#[derive(Clone, Debug)]
struct Case {
    rings: Rings,
    chew: bool,
    h: f64,
    stress: [f64; 3],
    /// 's'tress or strai'n', thickness
    cond: (char, f64),
    mat: &'static str,
    held: Held,
    cholesky: bool,
    /// through a saved mesh file
    saved: bool,
    /// loads given from the second to the first end of their side
    backwards: bool,
}

/// strains (exx, eyy, exy) of the state of stress
fn strain(c: &Case) -> [f64; 3] {
    let m = real_material(c.mat).unwrap();
    let (e, nu) = if c.cond.0 == 's' { (m.youngs, m.poisson) } else { (m.youngs / (1.0 - m.poisson * m.poisson), m.poisson / (1.0 - m.poisson)) };
    let [sx, sy, t] = c.stress;
    [(sx - nu * sy) / e, (sy - nu * sx) / e, t * (1.0 + nu) / e]
}
fn text(c: &Case) -> String {
    let mut s = String::new();
    for (k, r) in c.rings.iter().enumerate() {
        s.push_str("polygon\n");
        for (i, p) in r.iter().enumerate() {
            s.push_str(&format!("{} {} v{}x{}\n", p.0, p.1, k, i));
        }
        s.push_str("end\n");
    }
    s.push_str(&format!("condition {} {}\nmaterial {}", if c.cond.0 == 's' { "planestress" } else { "planestrain" }, c.cond.1, c.mat));
    for (k, r) in c.rings.iter().enumerate() {
        let n = r.len();
        for i in 0..n {
            let (a, b) = (r[i], r[(i + 1) % n]);
            let l = dist(a, b);
            // the body is to the left: outward normal
            let (nx, ny) = ((b.1 - a.1) / l, (a.0 - b.0) / l);
            let t = c.cond.1;
            let f = ((c.stress[0] * nx + c.stress[2] * ny) * t, (c.stress[2] * nx + c.stress[1] * ny) * t);
            let (mut u, mut v) = (i, (i + 1) % n);
            if c.backwards {
                std::mem::swap(&mut u, &mut v);
            }
            s.push_str(&format!("\ndistributed_force v{}x{} v{}x{} {} {}", k, u, k, v, f.0, f.1));
            if k == 0 && c.held == Held::Side(i) {
                let word = if nx == 0.0 {
                    "y".to_string()
                } else if ny == 0.0 {
                    "x".to_string()
                } else {
                    format!("angle:{}", ny.atan2(nx))
                };
                s.push_str(&format!("\ndistributed_constraint v{}x{} v{}x{} {}", k, u, k, v, word));
            }
        }
    }
    s
}

fn judge(rec: &mut Rec, dir: &Path, c: &Case, id: u64) {
    mcstd::atomic::reset(id);
    let file = dir.join(format!("{:?}.bbnd", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::write(&file, text(c)).unwrap();
    let b = match rec.call(|| read_to_bound(&file)) {
        Ok(Ok(b)) => b,
        e => return rec.fail("no-boundary", format!("{:?}: {:?}\n{}", c, e.map(|e| e.err().map(|e| e.to_string())), text(c))),
    };
    if c.chew {
        // bodies and sizes Chew's method applies to
        let mut t = b.clone();
        if rec.call(|| t.divide_all_segments(c.h)).is_err() || spread(&Bound::of(&t).vertices) < c.h * (1.0 - 1e-9) {
            return;
        }
    }
    let e = rec.call(|| {
        let mut t = PlaneTriangulation::new(b);
        if c.chew {
            t.chew_mesh(c.h)
        } else {
            t.ruppert_mesh(c.h)
        }
        t.assemble().map_err(|e| e.to_string())
    });
    let mut e: ElementAssemblage = match e {
        Ok(Ok(e)) => e,
        Ok(Err(x)) | Err(x) => return rec.fail("no-mesh", format!("{:?}: {}", c, x)),
    };
    if c.saved {
        let mesh = file.with_extension("bmsh");
        save_elas(&mesh, e);
        e = match rec.call(|| read_to_elas(&mesh)) {
            Ok(Ok(e)) => e,
            x => return rec.fail("no-model", format!("{:?}: {:?}", c, x.map(|x| x.err().map(|x| x.to_string())))),
        };
    }
    let nodes: Vec<P> = e.nodes().iter().map(|p| (p[0], p[1])).collect();
    let ids: Vec<_> = e.node_ids().collect();
    let at = |p: P| {
        let k = (0..nodes.len()).min_by(|i, j| dist(nodes[*i], p).partial_cmp(&dist(nodes[*j], p)).unwrap()).unwrap();
        (k, dist(nodes[k], p))
    };
    let r = &c.rings[0];
    let n = r.len();
    let (i, j) = if let Held::Side(i) = c.held { (i, (i + 1) % n) } else { (0, n / 2) };
    let ((a, da), (q, dq)) = (at(r[i]), at(r[j]));
    if !rec.check(da.max(dq) <= 1e-6 * extent(&c.rings), "corner", || format!("{:?}: corner {:?} or {:?} is no node", c, r[i], r[j])) {
        return;
    }
    e.add_constraint(ids[a], Constraint::XYFixed);
    // the displacement: strain and a rotation about the fixed corner
    let [ex, ey, exy] = strain(c);
    let p0 = nodes[a];
    let d = (nodes[q].0 - p0.0, nodes[q].1 - p0.1);
    let rot = match c.held {
        Held::Pinned if d.0.abs() >= d.1.abs() => {
            e.add_constraint(ids[q], Constraint::YFixed);
            -(exy * d.0 + ey * d.1) / d.0
        }
        Held::Pinned => {
            e.add_constraint(ids[q], Constraint::XFixed);
            (ex * d.0 + exy * d.1) / d.1
        }
        Held::Side(_) => {
            let l = d.0.hypot(d.1);
            let (tx, ty) = (d.0 / l, d.1 / l);
            let (nx, ny) = (ty, -tx);
            // u . n along the side vanishes; the rotation adds w (-y, x), which is -w along (ty, -tx)
            nx * (ex * tx + exy * ty) + ny * (exy * tx + ey * ty)
        }
    };
    let field = |p: P| {
        let (x, y) = (p.0 - p0.0, p.1 - p0.1);
        (ex * x + exy * y - rot * y, exy * x + ey * y + rot * x)
    };
    let res = rec.call(|| {
        let d = if c.cholesky { e.calc_displacements::<CholeskyEnvelopeSolver>() } else { e.calc_displacements::<DenseGaussSolver>() };
        let big = (2.0f64).powi(100);
        let u: Vec<P> = d.displaced_nodes(big).iter().zip(&nodes).map(|(p, n)| ((p[0] - n.0) / big, (p[1] - n.1) / big)).collect();
        let s: Vec<Option<[f64; 3]>> = d
            .stresses()
            .iter()
            .map(|s| {
                s.as_ref().map(|s| {
                    use bugi::matrix::MatrixLike;
                    let t = s.to_cauchy();
                    [t[(0, 0)], t[(1, 1)], t[(0, 1)]]
                })
            })
            .collect();
        (u, s, d.von_mises())
    });
    rec.trace();
    rec.steps(nodes.len() as u64);
    let (u, s, vm) = match res {
        Ok(r) => r,
        Err(x) => return rec.fail("no-solution", format!("{:?}: {}", c, x)),
    };
    // coordinates in a saved file are rounded to six decimals, loads to three
    let tol = if c.saved { 2e-4 } else { 1e-7 };
    let span = nodes.iter().map(|p| field(*p)).fold(0.0f64, |m, f| m.max(f.0.hypot(f.1)));
    for k in 0..nodes.len() {
        let f = field(nodes[k]);
        let off = (u[k].0 - f.0).hypot(u[k].1 - f.1);
        if !rec.check(off <= tol * span, "displacement", || format!("{:?}: node {:?} moves {:?} instead of {:?}", c, nodes[k], u[k], f)) {
            return;
        }
    }
    let [sx, sy, t] = c.stress;
    let sz = if c.cond.0 == 's' { 0.0 } else { real_material(c.mat).unwrap().poisson * (sx + sy) };
    let want = (0.5 * ((sx - sy).powi(2) + (sy - sz).powi(2) + (sz - sx).powi(2)) + 3.0 * t * t).sqrt();
    let top = sx.abs().max(sy.abs()).max(t.abs());
    for k in 0..nodes.len() {
        let ok = s[k].map_or(false, |v| (0..3).all(|i| (v[i] - c.stress[i]).abs() <= 10.0 * tol * top));
        if !rec.check(ok, "stress", || format!("{:?}: stress {:?} at {:?}", c, s[k], nodes[k])) {
            return;
        }
        if !rec.check((vm[k] - want).abs() <= 10.0 * tol * top, "equivalent-stress", || format!("{:?}: equivalent stress {} at {:?} instead of {}", c, vm[k], nodes[k], want)) {
            return;
        }
    }
    rec.state((format!("{:?}", c), id));
    rec.outcome((nodes.len(), c.chew));
    rec.sample(|| format!("{:?}: {} nodes", c, nodes.len()));
}

const STRESSES: [[f64; 3]; 5] = [[1e6, 0.0, 0.0], [0.0, -2e6, 0.0], [0.0, 0.0, 5e5], [1e6, 1e6, 0.0], [3e6, -1e6, 7e5]];
const CONDS: [(char, f64); 4] = [('s', 1.0), ('s', 0.25), ('n', 1.0), ('n', 3.0)];
const SIZES: [f64; 4] = [1.0, 0.7, 0.5, 0.35];

fn main() {
    let mut h = Harness::new("C28");
    let dir = h.scratch();
    std::env::set_current_dir(&dir).unwrap();
    let dir = &dir;
    h.assume("bodies each mesher applies to: for Chew's method sides that divide into pieces between h and sqrt(3) h, for Ruppert's no angle below 60 degrees");
    let deep = h.thorough();
    let mut rings: Vec<Vec<P>> = vec![];
    for n in 3..=(if deep { 6 } else { 5 }) {
        rings.extend(up_to_shift(lattice_rings(4, n)));
    }
    for n in 6..=9 {
        rings.extend(up_to_shift(lattice_rings(3, n)));
    }
    let blunt = |r: &Vec<P>| angles(&vec![r.clone()]).iter().all(|a| a.to_degrees() >= 60.0 - 1e-6);
    let nr = rings.len() as u64;
    let base = |rings: Rings| Case { rings, chew: true, h: 1.0, stress: STRESSES[4], cond: CONDS[0], mat: "AL6061", held: Held::Pinned, cholesky: true, saved: false, backwards: false };
    let may = |c: &Case| c.chew || c.rings.iter().all(blunt);

    h.family("bodies", "every ring of few corners on a 4x4 lattice and of up to 9 on 3x3 x 2 meshers x 4 sizes, a general state of stress", nr * 2 * 4, |i, rec| {
        let mut x = Digits(i);
        let (m, z) = (x.take(2), x.take(4));
        let k = x.take(nr);
        let mut c = base(vec![rings[k].clone()]);
        (c.chew, c.h) = (m == 0, SIZES[z]);
        (c.stress, c.cond) = (STRESSES[4 - k % 2], CONDS[k % 4]);
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    let few: Vec<Vec<P>> = rings.iter().filter(|r| blunt(r)).step_by(if deep { 3 } else { 9 }).cloned().collect();
    let nf = few.len() as u64;
    h.family("choices", "every k-th ring x 2 meshers x 5 stresses x 4 conditions x 2 materials x 2 solvers x saved or not x both directions of loads", nf * 2 * 5 * 4 * 2 * 2 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        (c.chew, c.h) = (x.take(2) == 0, 1.0);
        c.stress = STRESSES[x.take(5)];
        c.cond = CONDS[x.take(4)];
        c.mat = ["AL6061", "TEST"][x.take(2)];
        c.cholesky = x.take(2) == 0;
        c.saved = x.take(2) == 1;
        c.backwards = x.take(2) == 1;
        c.rings = vec![few[x.take(nf)].clone()];
        judge(rec, dir, &c, 0);
    });
    h.family("moved", "every k-th ring turned, scaled from 1e-12 to 1e10 and shifted up to 1e5 x 2 meshers x 3 sizes x 5 strengths of stress (1e-9 to 1e9) x held in two ways (quick: in turn, and one condition of 4)", nf * 2 * 3 * 5 * if deep { 8 } else { 1 } * MOVES.len() as u64, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        let z = x.take(3);
        c.chew = x.take(2) == 0;
        let s = [1e-12, 1e-6, 1.0, 1e3, 1e9][x.take(5)];
        c.stress = STRESSES[4].map(|v| v * s);
        let m = MOVES[x.take(MOVES.len() as u64)];
        c.h = [1.0, 0.7, 0.5][z] * m.1;
        let k = if deep { x.take(8) } else { (i.wrapping_mul(0x9e3779b97f4a7c15) >> 61) as usize };
        c.held = [Held::Pinned, Held::Side(2)][k % 2];
        c.cond = CONDS[k / 2];
        c.rings = moved(&vec![few[x.take(nf)].clone()], m.0, m.1, m.2);
        judge(rec, dir, &c, 0);
    });
    h.family("sliding sides", "every ring, every side of it sliding along itself, 2 meshers, 2 sizes, saved or not", nr * 9 * 2 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        (c.chew, c.h) = (x.take(2) == 0, [1.0, 0.5][x.take(2)]);
        c.saved = x.take(2) == 1;
        let s = x.take(9);
        let r = &rings[x.take(nr)];
        if s >= r.len() {
            return;
        }
        c.held = Held::Side(s);
        c.rings = vec![r.clone()];
        c.backwards = s % 2 == 1;
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    let holes: Vec<Rings> = holed(0.5);
    let nh = holes.len() as u64;
    h.family("holes", "a rectangle with a loaded hole of five shapes at every place of a grid, 2 meshers, 2 sizes, held in two ways", nh * 2 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        (c.chew, c.h) = (x.take(2) == 0, [1.0, 0.5][x.take(2)]);
        c.held = [Held::Pinned, Held::Side(3)][x.take(2)];
        c.rings = holes[x.take(nh)].clone();
        if may(&c) {
            judge(rec, dir, &c, 0);
        }
    });
    // one body each: a pinned corner holds only the body it belongs to
    let plates: Vec<Rings> = crowds().into_iter().filter(|r| r.iter().filter(|r| area(r) > 0.0).count() == 1 && r.len() <= if deep { 26 } else { 17 }).collect();
    let npl = plates.len() as u64;
    h.family("many holes", "plates with up to 16 (thorough: 25) loaded holes, 2 meshers, held in two ways, saved or not", npl * 2 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        c.chew = x.take(2) == 0;
        c.h = if c.chew { [1.0, 0.5][i as usize % 2] } else { 2.0 };
        c.held = [Held::Pinned, Held::Side(3)][x.take(2)];
        c.saved = x.take(2) == 1;
        c.rings = plates[x.take(npl)].clone();
        judge(rec, dir, &c, 0);
    });
    let wide: [Rings; 3] = [
        vec![vec![(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (0.0, 3.0)]],
        vec![vec![(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (1.0, 1.0), (1.0, 4.0), (0.0, 4.0)]],
        vec![vec![(0.0, 0.0), (6.0, 0.0), (6.0, 4.0), (0.0, 4.0)], vec![(2.0, 1.0), (2.0, 3.0), (4.0, 3.0), (4.0, 1.0)]],
    ];
    let fine: Vec<f64> = if deep { vec![0.2, 0.15, 0.1, 0.08, 0.06, 0.05, 0.04] } else { vec![0.2, 0.1, 0.06] };
    h.family("fine", "three bodies at sizes for thousands of triangles, 2 meshers, held in two ways, saved or not", 3 * fine.len() as u64 * 2 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        c.held = [Held::Pinned, Held::Side(2)][x.take(2)];
        c.saved = x.take(2) == 1;
        c.chew = x.take(2) == 0;
        c.rings = wide[x.take(3)].clone();
        c.h = fine[x.take(fine.len() as u64)];
        judge(rec, dir, &c, 0);
    });
    h.family("straight-through vertices", "every k-th ring with every extra vertex on its sides, 2 meshers, saved or not", nf * 4, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        (c.chew, c.h) = (x.take(2) == 0, 0.5);
        c.saved = x.take(2) == 1;
        for v in with_vertices(&few[x.take(nf)]) {
            c.rings = vec![v];
            judge(rec, dir, &c, 0);
        }
    });
    h.family("orders", "every k-th ring, 2 meshers, reversed visiting orders and every table started at its k-th entry", nf * 2 * 12, |i, rec| {
        let mut x = Digits(i);
        let mut c = base(vec![]);
        (c.chew, c.h) = (x.take(2) == 0, 0.7);
        let o = x.take(12);
        c.rings = vec![few[x.take(nf)].clone()];
        rec.explore(policy(o), 0, 1, |rec| judge(rec, dir, &c, 13 * o as u64));
    });
    let _ = std::env::set_current_dir("/");
    h.finish()
}
