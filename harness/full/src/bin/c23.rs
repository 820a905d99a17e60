//! C23: boundary conditions follow a segment through every subdivision.
use bugi::element::constraint::Constraint::{self, *};
use bugi::element::material::AL6061;
use bugi::element::strain::Condition;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use bugi::mesher::plane::PlaneTriangulation;
use hfull::mesh::{crowds, dist, extent, gap, moved, policy, Mesh, Rings, MOVES};
use hfull::*;
use mcheck::*;

/// a piece of the boundary and what it carries
#[derive(Clone, Copy, Debug, PartialEq)]
struct Piece {
    a: P,
    b: P,
    con: Option<Constraint>,
    load: Option<P>,
}
fn lerp(a: P, b: P, t: f64) -> P {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}
const TOL: f64 = 1e-9;

/// what a segment is given: a constraint, a load, and which way round they are declared
#[derive(Clone, Copy, Debug)]
struct Given {
    con: Option<Constraint>,
    load: Option<P>,
    rev: bool,
}
const CONS: [Option<Constraint>; 6] = [None, Some(XFixed), Some(YFixed), Some(XYFixed), Some(AngleFixed(0.7)), Some(AngleFixed(-1.2))];
fn given(x: usize, cons: usize) -> Given {
    let (c, r) = (x % cons, x / cons);
    Given { con: CONS[c], load: if r / 2 == 1 { Some((1.0 + c as f64, -2.0 - r as f64)) } else { None }, rev: r % 2 == 1 }
}

fn build(rings: &Rings, g: &[Given], own: Option<(usize, Constraint)>) -> (PlaneBoundary, Vec<Piece>) {
    let mut b = PlaneBoundary::new();
    let mut pieces = vec![];
    let mut k = 0;
    for r in rings {
        let v = b.store_polygon(r);
        for i in 0..r.len() {
            let j = (i + 1) % r.len();
            let g = g[k];
            k += 1;
            let (p, q) = if g.rev { (v[j], v[i]) } else { (v[i], v[j]) };
            if let Some(c) = g.con {
                b.store_distributed_constraint(p, q, c);
            }
            if let Some(f) = g.load {
                b.store_distributed_force(p, q, f.into());
            }
            pieces.push(Piece { a: r[i], b: r[j], con: g.con, load: g.load });
            if let Some((w, c)) = own {
                if pieces.len() - 1 == w {
                    b.store_constraint(v[i], c);
                }
            }
        }
    }
    (b, pieces)
}

thread_local! {
    /// the size of the body at hand
    static SIZE: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
}
fn near(a: P, b: P) -> bool {
    dist(a, b) <= TOL * SIZE.get() + 1e-12 * (a.0.abs() + a.1.abs())
}

/// the boundary must be exactly these pieces
fn same(b: &PlaneBoundary, pieces: &[Piece], own: &[(P, Constraint)]) -> Result<(), String> {
    let o = Bound::of(b);
    if o.walls.len() != pieces.len() {
        return Err(format!("{} pieces, want {}", o.walls.len(), pieces.len()));
    }
    for p in pieces {
        if o.walls.iter().filter(|w| near(w.0, p.a) && near(w.1, p.b)).count() != 1 {
            return Err(format!("no single piece {:?} in {:?}", p, o.walls));
        }
        let l: Vec<P> = o.forces.iter().filter(|f| (near(f.0, p.a) && near(f.1, p.b)) || (near(f.0, p.b) && near(f.1, p.a))).map(|f| f.2).collect();
        if l != p.load.into_iter().collect::<Vec<_>>() {
            return Err(format!("piece {:?} carries {:?}", p, l));
        }
    }
    if o.forces.len() != pieces.iter().filter(|p| p.load.is_some()).count() {
        return Err(format!("loads off the loaded pieces: {:?} for {:?}", o.forces, pieces));
    }
    // every piece's ends are vertices, each once
    if o.vertices.len() != pieces.len() {
        return Err(format!("{} vertices for {} pieces", o.vertices.len(), pieces.len()));
    }
    let mut marked = 0;
    for v in &o.vertices {
        let mut want = Some(Free);
        for p in pieces.iter().filter(|p| near(p.a, *v) || near(p.b, *v)) {
            want = want.and_then(|w| both(w, p.con.unwrap_or(Free)));
        }
        for (q, c) in own {
            if near(*q, *v) {
                want = want.and_then(|w| both(w, *c));
            }
        }
        let got = o.cons.iter().filter(|c| near(c.0, *v)).map(|c| c.1).collect::<Vec<_>>();
        marked += got.len();
        if let Some(w) = want {
            if got != [w].iter().copied().filter(|c| *c != Free).collect::<Vec<_>>() {
                return Err(format!("vertex {:?} carries {:?}, want {:?}", v, got, w));
            }
        }
    }
    if marked != o.cons.len() {
        return Err(format!("constraints off the boundary: {:?}", o.cons));
    }
    Ok(())
}

/// numbers of pieces with lengths in [h, sqrt(3) h]: surely allowed, possibly allowed
fn counts(len: f64, h: f64) -> (Vec<usize>, Vec<usize>) {
    let ok = |m: f64| move |n: &usize| (len / *n as f64) >= h * (1.0 - m) && (len / *n as f64) <= h * 3f64.sqrt() * (1.0 + m);
    let top = (len / h) as usize + 2;
    ((1..=top).filter(ok(-TOL)).collect(), (1..=top).filter(ok(TOL)).collect())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    /// split the k-th piece (counted from the first ring's start)
    Split(usize),
    Divide(usize, f64),
    DivideAll(f64),
    /// declare a load and a constraint on the k-th piece, against its direction if set
    Declare(usize, bool),
}
/// Err: a violation; Ok(false): nothing further to do
fn apply(b: &mut PlaneBoundary, pieces: &mut Vec<Piece>, op: Op, rec: &mut Rec) -> Result<bool, String> {
    let walls: Vec<Segment> = b.all_walls().collect();
    let find = |k: usize| {
        let s = walls[k % walls.len()];
        let (p, q): (P, P) = (s.get().0.into(), s.get().1.into());
        (s, pieces.iter().position(|x| near(x.a, p) && near(x.b, q)))
    };
    let cut = |p: Piece, n: usize| -> Vec<Piece> { (0..n).map(|i| Piece { a: lerp(p.a, p.b, i as f64 / n as f64), b: lerp(p.a, p.b, (i + 1) as f64 / n as f64), ..p }).collect() };
    // how many vertices the boundary has strictly inside a piece
    let inside = |b: &PlaneBoundary, p: &Piece| Bound::of(b).vertices.iter().filter(|v| gap(**v, p.a, p.b) < TOL * 10.0 * SIZE.get() + 1e-12 * (v.0.abs() + v.1.abs()) && !near(**v, p.a) && !near(**v, p.b)).count();
    match op {
        Op::Split(k) => {
            let (s, at) = find(k);
            let at = at.ok_or("unknown wall")?;
            let (x, y, m) = rec.call(|| b.split_segment(s)).map_err(|e| format!("split panics: {}", e))?;
            if !(x.0 == s.0 && x.1 == m && y.0 == m && y.1 == s.1) || !b.is_segment(x) || !b.is_segment(y) || b.is_segment(s) {
                return Err(format!("split of {:?} returns {:?} {:?} {:?}", s, x, y, m));
            }
            let p = pieces[at];
            pieces.splice(at..=at, cut(p, 2));
        }
        Op::Divide(k, h) => {
            let (s, at) = find(k);
            let at = at.ok_or("unknown wall")?;
            let p = pieces[at];
            let (sure, maybe) = counts(dist(p.a, p.b), h);
            match rec.call(|| b.divide_segment(s, h)) {
                Err(_) if sure.is_empty() => return Ok(false),
                Err(e) => return Err(format!("divide {:?} by {} panics although {:?} pieces fit: {}", p, h, sure, e)),
                Ok(()) => {}
            }
            let n = inside(b, &p) + 1;
            if !maybe.contains(&n) {
                return Err(format!("{:?} divided by {} into {} pieces, want one of {:?}", p, h, n, maybe));
            }
            pieces.splice(at..=at, cut(p, n));
        }
        Op::DivideAll(h) => {
            let all: Vec<_> = pieces.iter().map(|p| counts(dist(p.a, p.b), h)).collect();
            match rec.call(|| b.divide_all_segments(h)) {
                Err(_) if all.iter().any(|c| c.0.is_empty()) => return Ok(false),
                Err(e) => return Err(format!("dividing all by {} panics although {:?} pieces fit: {}", h, all, e)),
                Ok(()) => {}
            }
            let mut out = vec![];
            for (p, c) in pieces.iter().zip(&all) {
                let n = inside(b, p) + 1;
                if !c.1.contains(&n) {
                    return Err(format!("{:?} divided by {} into {} pieces, want one of {:?}", p, h, n, c.1));
                }
                out.extend(cut(*p, n));
            }
            *pieces = out;
        }
        Op::Declare(k, rev) => {
            let (s, at) = find(k);
            let at = at.ok_or("unknown wall")?;
            if pieces[at].con.is_some() || pieces[at].load.is_some() {
                return Ok(true);
            }
            let s = if rev { s.rev() } else { s };
            b.store_distributed_force(s.0, s.1, (7.0, 8.0).into());
            b.store_distributed_constraint(s.0, s.1, YFixed);
            pieces[at].load = Some((7.0, 8.0));
            pieces[at].con = Some(YFixed);
        }
    }
    Ok(true)
}

fn history(rec: &mut Rec, rings: &Rings, g: &[Given], own: Option<(usize, Constraint)>, ops: &[Op]) {
    SIZE.set(extent(rings));
    let (mut b, mut pieces) = build(rings, g, own);
    let own: Vec<(P, Constraint)> = own.iter().map(|(w, c)| (pieces[*w].a, *c)).collect();
    let start = pieces.clone();
    let mut done = 0;
    let mut err = same(&b, &pieces, &own).err();
    for op in ops {
        if err.is_some() {
            break;
        }
        match apply(&mut b, &mut pieces, *op, rec) {
            Ok(true) => err = same(&b, &pieces, &own).err(),
            Ok(false) => break,
            Err(e) => err = Some(e),
        }
        done += 1;
        rec.state(format!("{:?}", pieces));
    }
    rec.trace();
    rec.outcome((pieces.len(), done));
    if let Some(e) = err {
        rec.fail("conditions", format!("{:?} own {:?}, after {:?}: {}", start, own, &ops[..done], e));
    }
}

fn rings(k: usize) -> Rings {
    match k {
        0 => vec![vec![(0.0, 0.0), (3.0, 0.0), (1.2, 3.0)]],
        1 => vec![vec![(-1.0, -1.0), (2.0, -1.5), (2.5, 2.0), (-1.0, 1.0)]],
        2 => vec![vec![(0.0, 0.0), (6.0, 0.0), (6.0, 6.0), (0.0, 6.0)], vec![(2.0, 2.0), (2.0, 4.0), (4.0, 4.0), (4.0, 2.0)]],
        3 => vec![vec![(0.0, 0.0), (2.0, 0.0), (4.0, 0.0), (4.0, 2.0), (2.0, 2.0), (2.0, 4.0), (0.0, 4.0)]],
        _ => vec![vec![(0.0, 0.0), (3.1, 0.1), (3.2, 2.9), (1.5, 3.3), (-0.1, 3.0)]],
    }
}
const HS: [f64; 5] = [0.3, 0.55, 1.0, 1.5, 2.2];

/// which conditions the assembled mesh of a body must carry
fn meshed(rec: &mut Rec, r: &Rings, g: &[Given], ruppert: bool, h: f64) {
    let (mut b, pieces) = build(r, g, None);
    b.set_condition(Condition::PlaneStress(0.5));
    b.set_material(AL6061);
    let m = match rec.call(|| {
        let mut t = PlaneTriangulation::new(b);
        if ruppert {
            t.ruppert_mesh(h)
        } else {
            t.chew_mesh(h)
        }
        Mesh::of(&t.assemble().unwrap())
    }) {
        Ok(m) => m,
        // judged by C21 and C22
        Err(e) => {
            rec.outcome(("no mesh", e));
            return;
        }
    };
    rec.trace();
    rec.state(m.shape());
    rec.outcome(m.nodes.len());
    let mut want = std::collections::BTreeMap::new();
    let tol = 1e-9 * extent(r) + 1e-12 * r[0].iter().map(|p| p.0.abs() + p.1.abs()).fold(0.0, f64::max);
    for t in &m.tris {
        for i in 0..3 {
            let (i, j) = (t[i], t[(i + 1) % 3]);
            if m.tris.iter().any(|u| (0..3).any(|k| u[k] == j && u[(k + 1) % 3] == i)) {
                continue;
            }
            for p in &pieces {
                if let Some(f) = p.load {
                    if gap(m.nodes[i], p.a, p.b) <= tol && gap(m.nodes[j], p.a, p.b) <= tol {
                        want.insert((i.min(j), i.max(j)), f);
                    }
                }
            }
        }
    }
    let mut got: Vec<((usize, usize), P)> = m.dist.iter().map(|(&(a, b), &f)| ((a.min(b), a.max(b)), f)).collect();
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    rec.check(got == want.iter().map(|(k, f)| (*k, *f)).collect::<Vec<_>>(), "mesh-loads", || format!("{:?} {}: loaded edges {:?}, want {:?} of nodes {:?}", pieces, h, got, want, m.nodes));
    for (i, p) in m.nodes.iter().enumerate() {
        let mut w = Some(Free);
        for q in pieces.iter().filter(|q| gap(*p, q.a, q.b) <= tol) {
            w = w.and_then(|w| both(w, q.con.unwrap_or(Free)));
        }
        if let Some(w) = w {
            rec.check(m.cons[i] == w, "mesh-constraints", || format!("{:?} {} {}: node {:?} carries {:?}, want {:?}", pieces, ruppert, h, p, m.cons[i], w));
        }
    }
}

fn main() {
    let mut h = Harness::new("C23");
    h.assume("what a corner carries between an angle constraint and a different constraint is not specified");
    h.assume("dividing into pieces no count of which fits in [h, sqrt(3) h] may be refused");
    let deep = h.thorough();
    // a failing mesher draws its state into the current directory
    std::env::set_current_dir(h.scratch()).unwrap();

    let nc: usize = 6 * 4;
    h.family("conditions", "a triangle with every constraint, load and direction on every side, split or divided in every fixed way", (nc as u64).pow(3) * 5, |i, rec| {
        let mut x = Digits(i);
        let g: Vec<Given> = (0..3).map(|_| given(x.take(nc as u64), 6)).collect();
        let ops: &[Op] = match x.take(5) {
            0 => &[Op::Split(0), Op::Split(1), Op::Split(0)],
            1 => &[Op::Divide(2, 0.9), Op::Divide(0, 1.0)],
            2 => &[Op::DivideAll(0.7), Op::DivideAll(0.3)],
            3 => &[Op::Split(2), Op::Divide(3, 0.8), Op::Split(1), Op::DivideAll(0.2)],
            _ => &[Op::Divide(1, 5.0), Op::Split(1), Op::Divide(1, 2.5)],
        };
        history(rec, &rings(0), &g, None, ops);
        rec.sample(|| format!("{:?} {:?}", g, ops));
    });
    h.family("corners", "a square with every pair of constraints on adjacent sides in both directions, and a constraint of its own on a corner, all kinds", 4 * 6 * 6 * 4 * 6 * 3, |i, rec| {
        let mut x = Digits(i);
        let (at, c, d, r, own, op) = (x.take(4), x.take(6), x.take(6), x.take(4), x.take(6), x.take(3));
        let mut g = vec![Given { con: None, load: None, rev: false }; 4];
        g[at] = Given { con: CONS[c], load: None, rev: r % 2 == 1 };
        g[(at + 1) % 4] = Given { con: CONS[d], load: Some((0.0, 1.0)), rev: r / 2 == 1 };
        let ops = [[Op::Split(at), Op::Split(at + 1)], [Op::DivideAll(0.7), Op::Split(0)], [Op::Divide(at, 0.9), Op::Divide(0, 1.1)]][op];
        history(rec, &rings(1), &g, CONS[own].map(|c| ((at + 1) % 4, c)), &ops);
    });
    // every sequence of operations up to a depth
    let depth = if deep { 4 } else { 3 };
    for k in 0..4 {
        let r = rings(k);
        let n: usize = r.iter().map(|r| r.len()).sum();
        let reach = n.min(4);
        // split or divide one of the pieces, divide all, declare
        let per = reach * 2 + reach * HS.len() + HS.len() + reach * 2;
        let depth = if k >= 2 { depth - 1 } else { depth };
        h.family(&format!("histories {}", k), &format!("every sequence of up to {} splits, divisions and declarations on one body under three sets of conditions", depth), (per as u64).pow(depth as u32) * 3, |i, rec| {
            let mut x = Digits(i);
            let set = x.take(3);
            let g: Vec<Given> = (0..n).map(|s| given([(s * 7 + 5) % nc, (s * 11 + 13) % nc, if s % 2 == 0 { 15 } else { 0 }][set], 6)).collect();
            let ops: Vec<Op> = (0..depth)
                .map(|_| {
                    let o = x.take(per as u64);
                    if o < reach {
                        Op::Split(o)
                    } else if o < 2 * reach {
                        // from the end: pieces made by earlier operations, and the last ring
                        Op::Split(1000 * 27720 - 1 - (o - reach))
                    } else if o < 2 * reach + reach * HS.len() {
                        let y = o - 2 * reach;
                        Op::Divide(y % reach, HS[y / reach])
                    } else if o < 2 * reach + reach * HS.len() + HS.len() {
                        Op::DivideAll(HS[o - 2 * reach - reach * HS.len()])
                    } else {
                        let y = o - (2 * reach + reach * HS.len() + HS.len());
                        Op::Declare(y / 2, y % 2 == 1)
                    }
                })
                .collect();
            history(rec, &r, &g, None, &ops);
        });
    }
    // lengths of one side against the element size
    h.family("lengths", "one side of every length of a ladder divided by every size of a ladder", 400 * 30, |i, rec| {
        let mut x = Digits(i);
        let (l, s) = (0.05 * (1 + x.take(400)) as f64, 0.1 * (1 + x.take(30)) as f64);
        let r = vec![vec![(0.5, 0.25), (0.5 + l, 0.25), (0.5, 30.0)]];
        let g = [given(15, 6), given(0, 6), given(0, 6)];
        history(rec, &r, &g, None, &[Op::Divide(0, s)]);
    });
    // elsewhere, of other sizes, loads of other strengths
    h.family("moved", "four bodies turned, scaled (1e-12 to 1e10) and shifted in 14 ways, 12 sets of conditions, 4 histories", 14 * 4 * 12 * 4, |i, rec| {
        let mut x = Digits(i);
        let ((t, f, by), k, set, how) = (MOVES[x.take(MOVES.len() as u64)], x.take(4), x.take(12), x.take(4));
        let r = moved(&rings(k), t, f, by);
        let n: usize = r.iter().map(|r| r.len()).sum();
        let strength = [1.0, 1e-9, 1e12][set % 3];
        let g: Vec<Given> = (0..n)
            .map(|s| {
                let g = given((set * 5 + s * 7 + 1) % nc, 6);
                Given { load: g.load.map(|l| (l.0 * strength, l.1 * strength)), ..g }
            })
            .collect();
        let ops = [
            vec![Op::DivideAll(0.7 * f), Op::Split(1), Op::DivideAll(0.3 * f)],
            vec![Op::Split(0), Op::Divide(2, 0.55 * f), Op::Split(5)],
            vec![Op::Divide(1, 0.9 * f), Op::DivideAll(0.45 * f)],
            vec![Op::DivideAll(1.0 * f), Op::Divide(0, 0.3 * f), Op::Split(0)],
        ][how]
            .clone();
        history(rec, &r, &g, None, &ops);
    });
    h.family("moved meshes", "assembled Chew and Ruppert meshes of the moved bodies", 14 * 4 * 2 * 6, |i, rec| {
        let mut x = Digits(i);
        let ((t, f, by), k, ru, set) = (MOVES[x.take(MOVES.len() as u64)], x.take(4), x.take(2) == 1, x.take(6));
        let r = moved(&rings(k), t, f, by);
        let n: usize = r.iter().map(|r| r.len()).sum();
        let g: Vec<Given> = (0..n).map(|j| given((set * 5 + j * 7 + 3) % nc, 6)).collect();
        meshed(rec, &r, &g, ru, if k == 2 || k == 3 { 1.0 } else { 0.9 } * f);
    });
    // many sides, many pieces, pieces of pieces
    let many = [40usize, 70, 130, 260];
    h.family("many", "polygons of 40 to 260 sides, every side with conditions of its own, divided; one side split 20 times over; sides of 300 pieces", 4 * 6 * 4, |i, rec| {
        let mut x = Digits(i);
        let (n, set, how) = (many[x.take(4)], x.take(6), x.take(4));
        let r: Rings = vec![(0..n).map(|k| { let t = (k as f64 * 2.0 + 0.3 * (k % 3) as f64) * std::f64::consts::PI / n as f64; (9.0 * t.cos(), 7.0 * t.sin()) }).collect()];
        let g: Vec<Given> = (0..n).map(|j| given((set * 11 + j * 7 + j / 24) % nc, 6)).collect();
        // the shortest side gives a size that every side allows
        let side = (0..n).map(|k| dist(r[0][k], r[0][(k + 1) % n])).fold(f64::INFINITY, f64::min);
        let ops: Vec<Op> = match how {
            0 => vec![Op::DivideAll(side / 3.0)],
            1 => vec![Op::Split(n - 1), Op::Split(n / 2), Op::DivideAll(side / 7.0)],
            2 => (0..20).map(|_| Op::Split(0)).collect(),
            _ => vec![Op::Divide(n - 1, side / 300.0), Op::Divide(3, side / 64.0)],
        };
        history(rec, &r, &g, None, &ops);
    });
    let cr = crowds();
    let ncr = cr.len() as u64;
    h.family("many rings", "plates with up to 25 holes, up to 9 bodies side by side, bodies inside the holes of others, every side with conditions of its own: divided, split near the end of the list, and meshed by both methods", ncr * 6 * 5, |i, rec| {
        let mut x = Digits(i);
        let (how, set) = (x.take(5), x.take(6));
        let r = &cr[x.take(ncr)];
        let n = r.concat().len();
        let g: Vec<Given> = (0..n).map(|j| given((set * 11 + j * 7 + j / 24) % nc, 6)).collect();
        match how {
            0 => history(rec, r, &g, None, &[Op::Split(n - 1), Op::DivideAll(0.9), Op::Split(n)]),
            1 => history(rec, r, &g, Some((n - 2, Constraint::AngleFixed(0.5))), &[Op::DivideAll(0.6), Op::DivideAll(0.3)]),
            2 => history(rec, r, &g, None, &[Op::Divide(n - 1, 0.3), Op::Divide(n - 3, 0.2), Op::Split(n / 2)]),
            3 => meshed(rec, r, &g, false, 0.5),
            _ => meshed(rec, r, &g, true, 1.0),
        }
    });
    let (bound, cap) = (h.pick(2, 3), h.pick(3000u64, 100_000));
    h.family("hash orders", "conditions divided and split under every visiting order of the tables (deviations within the bound, and the reversed order)", 24 * 4, |i, rec| {
        let mut x = Digits(i);
        let (set, how) = (x.take(24), x.take(4));
        let r = rings(0);
        let g: Vec<Given> = (0..3).map(|s| given((set * 5 + s * 7) % nc, 6)).collect();
        let ops: &[Op] = [&[Op::DivideAll(1.4)][..], &[Op::Split(0), Op::DivideAll(1.2)], &[Op::DivideAll(2.0), Op::Split(1)], &[Op::DivideAll(2.0), Op::DivideAll(1.0)]][how];
        rec.explore(Mode::Front, bound, cap, |rec| history(rec, &r, &g, None, ops));
        rec.explore(Mode::Reversed, 0, 1, |rec| history(rec, &r, &g, None, ops));
    });
    // through the mesher
    let sets: u64 = 24 * 24;
    h.family("meshes", "assembled Chew and Ruppert meshes of five bodies with conditions on the sides, three sizes", sets * 5 * 2 * 2, |i, rec| {
        let mut x = Digits(i);
        let (s, k, ru, z) = (x.take(sets), x.take(5), x.take(2) == 1, x.take(2));
        let r = rings(k);
        let n: usize = r.iter().map(|r| r.len()).sum();
        let g: Vec<Given> = (0..n).map(|j| given(if j % 2 == 0 { (s % 24 + j * 5) % nc } else { (s / 24 + j * 7) % nc }, 6)).collect();
        let size = match (k, z) {
            (2 | 3, 0) => 1.0,
            (2 | 3, _) => 0.65,
            (_, 0) => 0.9,
            _ => 0.6,
        };
        meshed(rec, &r, &g, ru, size);
    });
    h.family("meshes under hash orders", "the same under visiting orders (one deviation, capped, and the reversed order)", 5 * 2 * 4, |i, rec| {
        let mut x = Digits(i);
        let (k, ru, s) = (x.take(5), x.take(2) == 1, x.take(4));
        let r = rings(k);
        let n: usize = r.iter().map(|r| r.len()).sum();
        let g: Vec<Given> = (0..n).map(|j| given((s * 5 + j * 7 + 3) % nc, 6)).collect();
        let size = if k == 2 || k == 3 { 1.0 } else { 0.9 };
        let cap = if deep { 3000 } else { 60 };
        rec.explore(Mode::Front, 1, cap, |rec| meshed(rec, &r, &g, ru, size));
        for k in 0..12 {
            rec.explore(policy(k), 0, 1, |rec| meshed(rec, &r, &g, ru, size));
        }
    });
    h.finish()
}
