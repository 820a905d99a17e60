//! C32: a boundary refuses walls that cross and answers truthfully about its geometry.
use bugi::element::constraint::Constraint::*;
use bugi::element::material::{AL6061, TEST};
use bugi::element::strain::Condition;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use hfull::mesh::*;
use hfull::*;
use mcheck::*;

fn at(s: Segment) -> (P, P) {
    let (a, b) = s.get();
    (a.into(), b.into())
}
type V = bugi::mesher::Vertex;
fn place(v: V) -> P {
    at(Segment(v, v)).0
}

/// everything a freshly stored set of rings must answer
fn answers(b: &PlaneBoundary, rings: &Rings, ids: &[Vec<V>]) -> Result<(), String> {
    let flat: Vec<P> = rings.iter().flatten().copied().collect();
    let vs: Vec<V> = b.all_vertices().copied().collect();
    let got: Vec<P> = vs.iter().map(|v| place(*v)).collect();
    if got != flat {
        return Err(format!("vertices {:?}", got));
    }
    if ids.iter().flatten().copied().collect::<Vec<_>>() != vs {
        return Err(format!("the ids returned are not those of the vertices: {:?}", ids));
    }
    let want = segments(rings);
    for (what, walls) in [("walls", b.all_walls().collect::<Vec<Segment>>()), ("base walls", b.all_base_walls().collect())] {
        let w: Vec<(P, P)> = walls.iter().map(|s| at(*s)).collect();
        if w != want {
            return Err(format!("{} {:?}", what, w));
        }
    }
    sides(b, &ids.iter().flat_map(|r| (0..r.len()).map(move |i| (r[i], r[(i + 1) % r.len()]))).collect::<Vec<_>>())?;
    let (lo, hi) = flat.iter().fold(((f64::MAX, f64::MAX), (f64::MIN, f64::MIN)), |(l, h), p| ((l.0.min(p.0), l.1.min(p.1)), (h.0.max(p.0), h.1.max(p.1))));
    let size = (hi.0 - lo.0).max(hi.1 - lo.1);
    if b.size() != size {
        return Err(format!("size {} for {}", b.size(), size));
    }
    if !b.all_constraints().is_empty() || !b.all_distributed_forces().is_empty() {
        return Err("conditions nobody gave".into());
    }
    Ok(())
}
/// is_segment must hold exactly for these
fn sides(b: &PlaneBoundary, want: &[(V, V)]) -> Result<(), String> {
    let vs: Vec<V> = b.all_vertices().copied().collect();
    for p in &vs {
        for q in &vs {
            let w = want.contains(&(*p, *q));
            if b.is_segment((*p, *q)) != w {
                return Err(format!("{:?} to {:?} is{} a segment", place(*p), place(*q), if w { " not" } else { "" }));
            }
        }
    }
    Ok(())
}

/// rings stored in an order: refused if any walls cross, accepted and answering if all is clear
fn stored(rec: &mut Rec, rings: &Rings, detail: bool) {
    let bad = crossing(rings);
    if !bad && !well_formed(rings) {
        return rec.outcome("touching");
    }
    let got = rec.call(|| {
        let mut b = PlaneBoundary::new();
        let ids: Vec<_> = rings.iter().map(|r| b.store_polygon(r)).collect();
        (b, ids)
    });
    rec.trace();
    rec.state(rings.iter().map(|r| r.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<_>>()).collect::<Vec<_>>());
    match got {
        Ok(_) if bad => rec.fail("crossing-accepted", format!("{:?}: walls cross", rings)),
        Err(_) if bad => rec.outcome("refused"),
        Err(e) => rec.fail("refused", format!("{:?}: nothing touches, but {}", rings, e)),
        Ok((b, ids)) => {
            rec.outcome(("accepted", rings.len(), rings.iter().map(|r| r.len()).sum::<usize>()));
            if detail {
                match rec.call(|| answers(&b, rings, &ids)) {
                    Ok(Ok(())) => (),
                    Ok(Err(e)) | Err(e) => rec.fail("answers", format!("{:?}: {}", rings, e)),
                }
            }
        }
    }
}

/// Some(true): the open way from m to x meets no wall except those m or x lie on;
/// Some(false): it crosses one; None: it brushes a corner
fn visible(rings: &Rings, m: P, x: P, tol: f64) -> Option<bool> {
    let mut sure = true;
    for (a, b) in segments(rings) {
        let (dm, dx) = (gap(m, a, b), gap(x, a, b));
        if dm <= tol || dx <= tol {
            continue;
        }
        if cross(a, b, m, x) {
            return Some(false);
        }
        if touch(a, b, m, x) || gap(a, m, x) <= tol || gap(b, m, x) <= tol {
            sure = false;
        }
    }
    sure.then_some(true)
}
/// every edge between two vertices, and whether its middle is seen from every vertex
fn sights(rec: &mut Rec, rings: &Rings, split: usize, any: bool) {
    let hist = || format!("{:?} split {} times", rings, split);
    let got = rec.call(|| {
        let mut b = bound(rings);
        for _ in 0..split {
            for s in b.all_walls().collect::<Vec<_>>() {
                b.split_segment(s);
            }
        }
        let vs: Vec<V> = b.all_vertices().copied().collect();
        let mut ends: Vec<Segment> = b.all_walls().collect();
        if any {
            ends.extend(vs.iter().flat_map(|p| vs.iter().filter(move |q| *q != p).map(move |q| Segment(*p, *q))));
        }
        let mut out = vec![];
        for s in ends {
            for v in &vs {
                out.push((at(s), place(*v), b.midpoint_visible(s, *v)));
            }
        }
        out
    });
    rec.trace();
    rec.state((rings.iter().flatten().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<_>>(), split));
    let tol = 1e-9 * extent(rings);
    match got {
        Err(e) => rec.fail("panic", format!("{}: {}", hist(), e)),
        Ok(v) => {
            rec.steps(v.len() as u64);
            for ((a, b), x, got) in v {
                let m = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0);
                if let Some(w) = visible(rings, m, x, tol) {
                    rec.outcome((w, (a.0 - x.0).to_bits(), (b.1 - x.1).to_bits()));
                    if w != got {
                        return rec.fail("visibility", format!("{}: the middle of {:?} - {:?} is{} seen from {:?}", hist(), a, b, if got { "" } else { " not" }, x));
                    }
                }
            }
        }
    }
}

/// what can be declared about a boundary, again and again
#[derive(Clone, Copy, Debug, PartialEq)]
enum Told {
    Condition(usize),
    Material(bool),
    Constraint(usize, usize),
    Force(usize, usize),
    Line(usize, usize),
    Split(usize),
    Vertex,
}
const TOLD: [Told; 22] = [
    Told::Condition(0), Told::Condition(1), Told::Condition(2), Told::Condition(3),
    Told::Material(false), Told::Material(true),
    Told::Constraint(0, 0), Told::Constraint(0, 1), Told::Constraint(1, 2), Told::Constraint(1, 3), Told::Constraint(3, 4),
    Told::Force(0, 0), Told::Force(0, 1), Told::Force(2, 0), Told::Force(4, 1),
    Told::Line(0, 0), Told::Line(1, 0), Told::Line(2, 1), Told::Line(3, 2),
    Told::Split(0), Told::Split(2),
    Told::Vertex,
];
fn told(rec: &mut Rec, ops: &[Told]) {
    let conds = [Condition::PlaneStress(0.5), Condition::PlaneStress(2.0), Condition::PlaneStrain(1.0), Condition::Axisymmetric];
    let cons = [XFixed, YFixed, XYFixed, AngleFixed(0.5), XYFixed];
    let loads: [P; 2] = [(1.0, 2.0), (-3.0, 0.5)];
    let lines = [XFixed, YFixed, XYFixed];
    let ring: Vec<P> = vec![(0.0, 0.0), (4.0, 0.0), (4.0, 2.0), (0.0, 2.0)];
    let got = rec.call(|| -> Result<(), String> {
        let mut b = PlaneBoundary::new();
        let v = b.store_polygon(&ring);
        let other = b.store_vertex((1.0, 1.0));
        let mut all: Vec<V> = v.iter().copied().chain([other]).collect();
        let mut walls: Vec<(V, V)> = (0..4).map(|i| (v[i], v[(i + 1) % 4])).collect();
        let (mut cond, mut mat) = (None, None);
        let mut own: Vec<(V, usize)> = vec![];
        let mut force: Vec<((V, V), P)> = vec![];
        let mut line: Vec<((V, V), usize)> = vec![];
        // one load or constraint per side: the last one told, on the side as it was then
        for o in ops {
            match *o {
                Told::Condition(k) => {
                    b.set_condition(conds[k]);
                    cond = Some(k)
                }
                Told::Material(k) => {
                    b.set_material(if k { TEST } else { AL6061 });
                    mat = Some(k)
                }
                Told::Constraint(i, k) => {
                    b.store_constraint(v[i], cons[k]);
                    own.retain(|x| x.0 != v[i]);
                    own.push((v[i], k));
                }
                Told::Force(i, k) => {
                    let w = walls[i % walls.len()];
                    b.store_distributed_force(w.0, w.1, loads[k].into());
                    force.retain(|x| x.0 != w);
                    force.push((w, loads[k]));
                }
                Told::Line(i, k) => {
                    let w = walls[i % walls.len()];
                    b.store_distributed_constraint(w.0, w.1, lines[k]);
                    line.retain(|x| x.0 != w);
                    line.push((w, k));
                }
                Told::Split(i) => {
                    let k = i % walls.len();
                    let w = walls[k];
                    let (s, t, m) = b.split_segment(w.into());
                    if (s.0, s.1, t.0, t.1) != (w.0, m, m, w.1) {
                        return Err(format!("halves {:?} {:?} of {:?}", at(s), at(t), w));
                    }
                    let (p, q) = (place(w.0), place(w.1));
                    if place(m) != ((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0) {
                        return Err(format!("the middle of {:?} {:?} is {:?}", p, q, place(m)));
                    }
                    walls.splice(k..k + 1, [(w.0, m), (m, w.1)]);
                    force = force.iter().flat_map(|f| if f.0 == w { vec![((w.0, m), f.1), ((m, w.1), f.1)] } else { vec![*f] }).collect();
                    line = line.iter().flat_map(|f| if f.0 == w { vec![((w.0, m), f.1), ((m, w.1), f.1)] } else { vec![*f] }).collect();
                    all.push(m);
                }
                Told::Vertex => all.push(b.store_vertex((2.0, 1.0))),
            }
            // and nothing else changes
            if b.condition().map(|c| cond_of(c)) != cond.map(|k| cond_of(conds[k])) {
                return Err(format!("condition {:?}, told {:?}", b.condition(), cond));
            }
            if b.material().map(|m| m.youngs) != mat.map(|k| if k { TEST.youngs } else { AL6061.youngs }) {
                return Err(format!("material {:?}, told {:?}", b.material(), mat));
            }
            if b.all_vertices().copied().collect::<Vec<_>>() != all {
                return Err(format!("vertices {:?}", b.all_vertices().map(|v| place(*v)).collect::<Vec<_>>()));
            }
            if b.all_walls().map(|s| (s.0, s.1)).collect::<Vec<_>>() != walls {
                return Err(format!("walls {:?}", b.all_walls().map(at).collect::<Vec<_>>()));
            }
            if b.all_base_walls().map(|s| (s.0, s.1)).collect::<Vec<_>>() != (0..4).map(|i| (v[i], v[(i + 1) % 4])).collect::<Vec<_>>() {
                return Err(format!("base walls {:?}", b.all_base_walls().map(at).collect::<Vec<_>>()));
            }
            sides(&b, &walls)?;
            if b.size() != 4.0 {
                return Err(format!("size {}", b.size()));
            }
            let f = b.all_distributed_forces();
            if f.len() != force.len() || !force.iter().all(|w| f.iter().any(|g| (g.0).0 == (w.0).0 && (g.0).1 == (w.0).1 && P::from(g.1) == w.1)) {
                return Err(format!("loads {:?}, told {:?}", f, force));
            }
            // a vertex carries what it was told itself and what its sides were told
            let got = b.all_constraints();
            for w in &all {
                let mut want = Some(Free);
                for c in own.iter().filter(|o| o.0 == *w).map(|o| cons[o.1]).chain(line.iter().filter(|l| (l.0).0 == *w || (l.0).1 == *w).map(|l| lines[l.1])) {
                    want = want.and_then(|x| both(x, c));
                }
                let g: Vec<_> = got.iter().filter(|g| g.0 == *w).map(|g| g.1).collect();
                if let Some(c) = want {
                    if g != [c].iter().copied().filter(|c| *c != Free).collect::<Vec<_>>() {
                        return Err(format!("{:?} carries {:?}, told {:?}", place(*w), g, c));
                    }
                }
            }
            if got.iter().any(|g| !all.contains(&g.0)) {
                return Err(format!("constraints on strangers: {:?}", got));
            }
        }
        Ok(())
    });
    rec.trace();
    rec.steps(ops.len() as u64);
    rec.state(format!("{:?}", ops));
    match got {
        Ok(Ok(())) => rec.outcome(ops.len()),
        Ok(Err(e)) | Err(e) => rec.fail("history", format!("{:?}: {}", ops, e)),
    }
}

fn main() {
    let mut h = Harness::new("C32");
    let deep = h.thorough();
    h.assume("walls that touch without crossing are left open: whether they are refused is up to spacemath's predicate, which the stand-in only guesses");
    h.assume("a sight that brushes a corner is left open for the same reason");
    // all sequences of corners
    for (n, w) in [(3u32, 4u64), (4, 4), (5, 3), (6, 3), (5, 4)] {
        let c = w * w;
        let bound = format!("every sequence of {} different points of a {}x{} lattice", n, w, w);
        h.family(&format!("rings {} of {}x{}", n, w, w), &bound, c.pow(n), |i, rec| {
            let mut x = Digits(i);
            let r: Vec<P> = (0..n).map(|_| x.take(c)).map(|k| ((k as u64 % w) as f64, (k as u64 / w) as f64)).collect();
            if (1..r.len()).all(|i| !r[..i].contains(&r[i])) {
                stored(rec, &vec![r], true);
            }
        });
    }
    let tri: Vec<Vec<P>> = {
        let mut v = vec![];
        for i in 0..16u64 {
            for j in 0..16 {
                for k in 0..16 {
                    if i < j && i < k && j != k {
                        let p = |k: u64| ((k % 4) as f64, (k / 4) as f64);
                        if orient(p(i), p(j), p(k)) != 0.0 {
                            v.push(vec![p(i), p(j), p(k)]);
                        }
                    }
                }
            }
        }
        v
    };
    let (nt, step) = (tri.len() as u64, if deep { 1 } else { 3 });
    h.family("two rings", "every (quick: every third) ordered pair of triangles on a 4x4 lattice, either way round", nt * nt / step, |i, rec| {
        let mut x = Digits(i * step + i / 7 % step);
        let r = vec![tri[x.take(nt)].clone(), tri[x.take(nt)].clone()];
        stored(rec, &r, i % 5 == 0);
    });
    let quads: Vec<Vec<P>> = lattice_rings(4, 4).into_iter().step_by(if deep { 1 } else { 6 }).collect();
    let small: Vec<Vec<P>> = hole_shapes();
    let (nq, ns) = (quads.len() as u64, small.len() as u64);
    h.family("holes", "every sixth (thorough: every) four-cornered body on a 4x4 lattice with each hole shape at 7x7 places, stored before or after it, and both a second time elsewhere", nq * ns * 49 * 2, |i, rec| {
        let mut x = Digits(i);
        let (q, s, u, v, first) = (x.take(nq), x.take(ns), x.take(7), x.take(7), x.take(2) == 0);
        let hole: Vec<P> = small[s].iter().map(|p| (p.0 + u as f64 * 0.5 - 0.3, p.1 + v as f64 * 0.5 - 0.2)).collect();
        let away: Vec<P> = quads[q].iter().map(|p| (p.0 + 10.0, p.1 - 5.0)).collect();
        let mut r = vec![quads[q].clone(), hole, away];
        if first {
            r.swap(0, 1);
        }
        stored(rec, &r, true);
    });
    let cr = crowds();
    let nc = cr.len() as u64;
    h.family("many rings", "plates with up to 25 holes, up to 9 bodies side by side, bodies inside the holes of others: stored first to last, last to first, and with one more ring that crosses the k-th", nc * 28, |i, rec| {
        let mut x = Digits(i);
        let k = x.take(28);
        let mut r = cr[x.take(nc)].clone();
        if k == 0 {
            stored(rec, &r, true);
            r.reverse();
            stored(rec, &r, true);
        } else if k <= r.len() {
            let w = &r[k - 1];
            let (a, b) = (w[0], w[1]);
            // a sliver over one wall of that ring
            let (m, n) = (((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0), ((b.1 - a.1) * 0.1, (a.0 - b.0) * 0.1));
            r.push(vec![(m.0 - n.0, m.1 - n.1), (m.0 + n.0, m.1 + n.1), (m.0 + n.0 + 0.01 * (b.0 - a.0), m.1 + n.1 + 0.01 * (b.1 - a.1))]);
            stored(rec, &r, false);
        }
    });
    h.family("sights among many rings", "the same bodies, every side, from every vertex, whole and split", nc * 2, |i, rec| {
        let mut x = Digits(i);
        let k = x.take(2);
        let r = &cr[x.take(nc)];
        sights(rec, r, k, k == 0 && r.len() < 6);
    });
    let (side, cells) = if deep { (5u64, 25u64) } else { (4, 16) };
    h.family("loose segments", "every pair of segments between two points of a 4x4 (thorough 5x5) lattice, stored one by one, with vertices of their own or one shared", cells.pow(4) * 2, |i, rec| {
        let mut x = Digits(i);
        let p: Vec<P> = (0..4).map(|_| x.take(cells) as u64).map(|k| ((k % side) as f64, (k / side) as f64)).collect();
        let share = x.take(2) == 1;
        if p[0] == p[1] || p[2] == p[3] || (share && p[1] != p[2]) {
            return;
        }
        let bad = cross(p[0], p[1], p[2], p[3]);
        if !bad && !share && touch(p[0], p[1], p[2], p[3]) {
            return rec.outcome("touching");
        }
        let got = rec.call(|| {
            let mut b = PlaneBoundary::new();
            let v: Vec<V> = p.iter().map(|p| b.store_vertex(*p)).collect();
            let second = (if share { v[1] } else { v[2] }, v[3]);
            b.store_segment((v[0], v[1]));
            b.store_segment(second);
            sides(&b, &[(v[0], v[1]), second])
        });
        rec.trace();
        rec.state((p.iter().map(|p| (p.0 as i64, p.1 as i64)).collect::<Vec<_>>(), share));
        match got {
            Ok(Ok(())) if bad => rec.fail("crossing-accepted", format!("{:?}: the segments cross", p)),
            Err(_) if bad => rec.outcome("refused"),
            Ok(Ok(())) => rec.outcome("accepted"),
            Ok(Err(e)) | Err(e) => rec.fail("refused", format!("{:?} share {}: {}", p, share, e)),
        }
    });
    let lens = [8usize, 33, 70, 140, 300];
    h.family("long loose outlines", "8 to 300 segments stored one by one, joined in a row or apart, in order or back to front; then one more clear of them all or through the k-th", 5 * 4 * 40, |i, rec| {
        let mut x = Digits(i);
        let (joined, back, n) = (x.take(2) == 0, x.take(2) == 1, lens[x.take(5)]);
        let k = x.take(40);
        // a zigzag of n segments, or n strokes side by side
        let p: Vec<P> = (0..=n).map(|j| (j as f64, (j % 2) as f64 * 3.0)).collect();
        let mut segs: Vec<(P, P)> = (0..n).map(|j| if joined { (p[j], p[j + 1]) } else { ((j as f64, 0.0), (j as f64 + 0.5, 3.0)) }).collect();
        if back {
            segs.reverse();
        }
        let at = (k / 2) * (n - 1) / 19;
        let (a, b) = segs[at];
        // one more: across the k-th only, or clear of them all
        let m = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0);
        let (more, bad) = if k % 2 == 0 { (((m.0 - 0.05, m.1 + 0.01), (m.0 + 0.05, m.1 - 0.01)), true) } else { (((-5.0, 4.0 + at as f64), (n as f64 + 5.0, 4.5)), false) };
        let got = rec.call(|| {
            let mut b = PlaneBoundary::new();
            let ids: Vec<V> = p.iter().map(|q| b.store_vertex(*q)).collect();
            let mut all = vec![];
            for s in &segs {
                let e = if joined {
                    let j = (s.0 .0) as usize;
                    (ids[j], ids[j + 1])
                } else {
                    (b.store_vertex(s.0), b.store_vertex(s.1))
                };
                b.store_segment(e);
                all.push(e);
            }
            (b, all)
        });
        rec.trace();
        rec.state(i);
        let (mut bound, mut all) = match got {
            Ok(x) => x,
            Err(e) => return rec.fail("refused", format!("{} segments joined {} back {}: {}", n, joined, back, e)),
        };
        let got = rec.call(|| {
            let e = (bound.store_vertex(more.0), bound.store_vertex(more.1));
            bound.store_segment(e);
            all.push(e);
            sides(&bound, &all)
        });
        rec.trace();
        let hist = || format!("{} segments joined {} back {}, then {:?}", n, joined, back, more);
        match got {
            Ok(Ok(())) if bad => rec.fail("crossing-accepted", format!("{}: crosses {:?}", hist(), (a, b))),
            Err(_) if bad => rec.outcome("refused"),
            Ok(Ok(())) => rec.outcome("accepted"),
            Ok(Err(e)) | Err(e) => rec.fail("refused", format!("{}: {}", hist(), e)),
        }
    });
    let mut bodies: Vec<Rings> = vec![];
    for n in 3..=if deep { 6 } else { 5 } {
        bodies.extend(up_to_shift(lattice_rings(4, n)).into_iter().map(|r| vec![r]));
    }
    bodies.extend((6..=9).flat_map(|n| lattice_rings(3, n)).map(|r| vec![r]));
    let nb = bodies.len() as u64;
    h.family("sights", "every simple ring on a 4x4 lattice (up to 5 corners, thorough 6) or 3x3: the middle of every edge between two vertices, from every vertex; also with all sides split once and twice", nb * 3, |i, rec| {
        let mut x = Digits(i);
        let k = x.take(3);
        sights(rec, &bodies[x.take(nb)], k, k == 0);
    });
    let ho = holed(if deep { 0.25 } else { 0.5 });
    h.family("sights past holes", "a rectangle with a hole of five shapes at every place of a grid", ho.len() as u64 * 2, |i, rec| {
        let mut x = Digits(i);
        let k = x.take(2);
        sights(rec, &ho[x.take(ho.len() as u64)], k, k == 0);
    });
    h.family("sights elsewhere", "every ninth of these bodies turned, scaled from 1e-12 to 1e10 and shifted", (nb / 9) * 10, |i, rec| {
        const MOVES: [(f64, f64, P); 10] = [(0.0, 1e-6, (0.0, 0.0)), (0.0, 1e6, (0.0, 0.0)), (0.7, 1.0, (0.0, 0.0)), (2.1, 1e-3, (0.01, -0.02)), (0.0, 1.0, (100.0, -50.0)), (4.0, 1e4, (1e5, 1e5)), (1.0, 1e-4, (0.0, 0.0)), (5.5, 30.0, (-1e3, 10.0)), (0.0, 1e-12, (0.0, 0.0)), (1.0, 1e10, (0.0, 0.0))];
        let mut x = Digits(i);
        let m = MOVES[x.take(10)];
        sights(rec, &moved(&bodies[x.take(nb / 9) * 9], m.0, m.1, m.2), 1, false);
    });
    let every = if deep { 3 } else { 11 };
    let flat: Vec<Rings> = bodies.iter().chain(&ho).step_by(every).cloned().collect();
    h.family("sights in long bodies", "every eleventh (thorough: third) of these bodies, with and without holes, stretched along x or y by 200 or 3000", flat.len() as u64 * 4, |i, rec| {
        let mut x = Digits(i);
        let (sx, sy) = [(200.0, 1.0), (1.0, 200.0), (3000.0, 1.0), (1.0, 3000.0)][x.take(4)];
        let body: Rings = flat[x.take(flat.len() as u64)].iter().map(|r| r.iter().map(|p| (p.0 * sx, p.1 * sy)).collect()).collect();
        sights(rec, &body, 0, true);
        sights(rec, &body, 1, false);
    });
    let depth = if deep { 5 } else { 4 };
    let n = TOLD.len() as u64;
    for d in 1..=depth {
        h.family(&format!("told {}", d), "every sequence of declarations, splits and new vertices on a rectangle, compared with a list of what was told after every step", n.pow(d), |i, rec| {
            let mut x = Digits(i);
            let ops: Vec<Told> = (0..d).map(|_| TOLD[x.take(n)]).collect();
            told(rec, &ops);
        });
    }
    h.family("segments", "every pair of points of a 7x7 lattice at five scales: length, middle, reversal, ends, and the circle over it", 49 * 49 * 5, |i, rec| {
        let mut x = Digits(i);
        let (p, q, s) = (x.take(49), x.take(49), [1.0, 0.5, 3.0, 1e-3, 1e5][x.take(5)]);
        let f = |k: usize| (((k % 7) as f64 - 3.0) * s, ((k / 7) as f64 - 2.0) * s);
        let (p, q) = (f(p), f(q));
        if p == q {
            return;
        }
        let got = rec.call(|| {
            let mut b = PlaneBoundary::new();
            let (u, v, w) = (b.store_vertex(p), b.store_vertex(q), b.store_vertex(p));
            let s = Segment(u, v);
            let mid: P = s.mid().into();
            let c = s.diametral();
            let centre: P = c.center.into();
            let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * (dist(p, q) + p.0.abs() + p.1.abs());
            if at(s) != (p, q) || at(s.rev()) != (q, p) || s.rev().rev() != s || s.rev() == s {
                return Err("ends");
            }
            if !s.has(u) || !s.has(v) || s.has(w) || !s.rev().has(u) || !s.rev().has(v) {
                return Err("has");
            }
            if !near(s.len(), dist(p, q)) || !near(s.rev().len(), dist(p, q)) {
                return Err("len");
            }
            if !near(mid.0, (p.0 + q.0) / 2.0) || !near(mid.1, (p.1 + q.1) / 2.0) {
                return Err("mid");
            }
            if !near(centre.0, mid.0) || !near(centre.1, mid.1) || !near(c.radius, dist(p, q) / 2.0) {
                return Err("circle");
            }
            Ok(())
        });
        rec.trace();
        rec.state((p.0.to_bits(), p.1.to_bits(), q.0.to_bits(), q.1.to_bits()));
        match got {
            Ok(Ok(())) => rec.outcome(()),
            Ok(Err(e)) => rec.fail("segment", format!("{:?} {:?}: {}", p, q, e)),
            Err(e) => rec.fail("segment", format!("{:?} {:?}: {}", p, q, e)),
        }
    });
    h.finish()
}
