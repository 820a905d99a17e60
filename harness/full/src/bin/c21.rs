//! C21: Chew meshes tile the domain with well-formed Delaunay triangles.
use hfull::mesh::*;
use hfull::*;
use mcheck::*;

/// can the body be meshed at this size by Chew's method: every side divides into pieces between h
/// and sqrt(3) h, and no two boundary points are closer than h
fn fits(rec: &mut Rec, r: &Rings, h: f64) -> Option<Vec<P>> {
    let mut b = bound(r);
    rec.call(|| b.divide_all_segments(h)).ok()?;
    let v = Bound::of(&b).vertices;
    if spread(&v) < h * (1.0 - 1e-9) {
        return None;
    }
    Some(v)
}
fn judge(rec: &mut Rec, r: &Rings, h: f64, id: u64) {
    let edge = match fits(rec, r, h) {
        Some(e) => e,
        None => return,
    };
    if let Some(m) = meshed(rec, r, id, &format!("at {}", h), |t| t.chew_mesh(h)) {
        rec.outcome(("triangles", m.tris.len().next_power_of_two()));
        let c = largest_circumradius(&m);
        rec.check(c <= h * (1.0 + 1e-9), "size", || format!("{:?} at {}: circumradius {}", r, h, c));
        rec.check(edge.iter().all(|p| m.nodes.contains(p)), "boundary-vertices", || format!("{:?} at {}: a boundary vertex is no node", r, h));
    }
}

fn main() {
    let mut h = Harness::new("C21");
    // a failing mesher draws its state into the current directory
    std::env::set_current_dir(h.scratch()).unwrap();
    h.assume("bodies Chew's method applies to: every side divides into pieces between h and sqrt(3) h, boundary points at least h apart");
    h.assume("spacemath's predicates are exact (stand-in)");
    let deep = h.thorough();
    let mut rings: Vec<Vec<P>> = vec![];
    for n in 3..=(if deep { 7 } else { 5 }) {
        rings.extend(up_to_shift(lattice_rings(4, n)));
    }
    for n in 6..=9 {
        rings.extend(up_to_shift(lattice_rings(3, n)));
    }
    let hs: Vec<f64> = (0..20).map(|i| 0.25 + 0.05 * i as f64).collect();
    let (nr, nh) = (rings.len() as u64, hs.len() as u64);
    h.family("rings", "every ring of few corners on a 4x4 lattice and of up to 9 on 3x3, twenty sizes", nr * nh, |i, rec| {
        let mut x = Digits(i);
        let z = hs[x.take(nh)];
        judge(rec, &vec![rings[x.take(nr)].clone()], z, 0);
    });
    // the rest on a part of the rings: every k-th of the list
    let part = |k: usize| -> Vec<Vec<P>> { rings.iter().step_by(k).cloned().collect() };
    let p = part(if deep { 5 } else { 7 });
    let np = p.len() as u64;
    h.family("moved", "the same turned, scaled from 1e-12 to 1e10 and shifted up to 1e5", np * nh * MOVES.len() as u64, |i, rec| {
        let mut x = Digits(i);
        let z = hs[x.take(nh)];
        let (t, s, by) = MOVES[x.take(MOVES.len() as u64)];
        judge(rec, &moved(&vec![p[x.take(np)].clone()], t, s, by), z * s, 0);
    });
    h.family("vertices", "the same with straight-through vertices on the sides", np, |i, rec| {
        for v in with_vertices(&p[i as usize]) {
            for z in &hs {
                judge(rec, &vec![v.clone()], *z, 0);
            }
        }
    });
    let q = part(if deep { 5 } else { 20 });
    let nq = q.len() as u64;
    let no = if deep { 40 } else { 20 };
    h.family("orders", "visiting orders followed throughout: reversed, and every table started at its k-th entry", nq * nh * no, |i, rec| {
        let mut x = Digits(i);
        let (o, z) = (x.take(no), hs[x.take(nh)]);
        let r = vec![q[x.take(nq)].clone()];
        rec.explore(policy(o), 0, 1, |rec| judge(rec, &r, z, 0));
    });
    h.family("numbering", "histories of the process: how many vertices came before", nq * nh * no, |i, rec| {
        let mut x = Digits(i);
        let (o, z) = (x.take(no), hs[x.take(nh)]);
        judge(rec, &vec![q[x.take(nq)].clone()], z, 1 + o as u64 * 13);
    });
    let ho = holed(if deep { 0.25 } else { 0.5 });
    let n = ho.len() as u64;
    h.family("holes", "a rectangle with a hole of five shapes at every place of a grid, twenty sizes, orders and numberings", n * nh * 6, |i, rec| {
        let mut x = Digits(i);
        let (o, z) = (x.take(6), hs[x.take(nh)]);
        let r = &ho[x.take(n)];
        if o < 3 {
            judge(rec, r, z, 17 * o as u64);
        } else {
            rec.explore(policy(o - 3), 0, 1, |rec| judge(rec, r, z, 0));
        }
    });
    // thousands of triangles
    let plates: [Rings; 3] = [
        vec![vec![(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (0.0, 3.0)]],
        vec![vec![(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (1.0, 1.0), (1.0, 4.0), (0.0, 4.0)]],
        vec![vec![(0.0, 0.0), (6.0, 0.0), (6.0, 4.0), (0.0, 4.0)], vec![(2.0, 1.0), (2.0, 3.0), (4.0, 3.0), (4.0, 1.0)]],
    ];
    let fine: Vec<f64> = if deep { vec![0.2, 0.15, 0.1, 0.08, 0.06, 0.05, 0.04, 0.03, 0.025, 0.02] } else { vec![0.2, 0.1, 0.06, 0.04, 0.03, 0.0242] };
    let nf = fine.len() as u64;
    h.family("fine", "three bodies at sizes for thousands of triangles, in three places", 3 * nf * 3, |i, rec| {
        let mut x = Digits(i);
        let (k, z, m) = (x.take(3), fine[x.take(nf)], x.take(3));
        let (t, s, by) = MOVES[m * 4];
        judge(rec, &moved(&plates[k], t, s, by), z * s, 29);
    });
    let cr = crowds();
    let nc = cr.len() as u64;
    h.family("many rings", "plates with up to 25 holes, up to 9 bodies side by side, bodies inside the holes of others, 8 sizes, orders and numberings", nc * 8 * 6, |i, rec| {
        let mut x = Digits(i);
        let (z, o) = ([1.0, 0.9, 0.75, 0.6, 0.55, 0.5, 0.3, 0.25][x.take(8)], x.take(6));
        let r = &cr[x.take(nc)];
        if o < 3 {
            judge(rec, r, z, 17 * o as u64);
        } else {
            rec.explore(policy(o - 3), 0, 1, |rec| judge(rec, r, z, 0));
        }
    });
    let ex = examples();
    h.family("examples", "bodies of the example files and tests, a ladder of sizes", ex.len() as u64 * 16 * 4, |i, rec| {
        let mut x = Digits(i);
        let (k, z, o) = (x.take(ex.len() as u64), 0.5 + 0.05 * x.take(16) as f64, x.take(4));
        let (r, z) = (&ex[k].0, ex[k].1 * z);
        if o == 0 {
            judge(rec, r, z, 5);
        } else {
            rec.explore(policy(o - 1), 0, 1, |rec| judge(rec, r, z, 0));
        }
    });
    let hist: [&[Option<f64>]; 5] = [&[None], &[None, None], &[None, Some(1.0)], &[None, None, Some(1.0)], &[Some(1.0), None]];
    h.family("histories", "wrapping and meshing the same triangulation again in every fixed way", np * nh * hist.len() as u64, |i, rec| {
        let mut x = Digits(i);
        let (k, z) = (x.take(hist.len() as u64), hs[x.take(nh)]);
        let r = vec![p[x.take(np)].clone()];
        if fits(rec, &r, z).is_none() {
            return;
        }
        meshed(rec, &r, 0, &format!("at {} history {:?}", z, hist[k]), |t| {
            for s in hist[k] {
                match s {
                    None => t.gift_wrap(),
                    Some(f) => t.chew_mesh(z * f),
                }
            }
        });
    });
    let small: Vec<(Rings, f64)> = [(0, 0.45), (1, 0.5), (2, 0.6), (3, 0.55)]
        .iter()
        .map(|&(k, z)| {
            let r = [
                vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)],
                vec![(0.0, 0.0), (2.0, 0.0), (1.0, 2.0)],
                vec![(0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (1.0, 1.0), (1.0, 2.0), (0.0, 2.0)],
                vec![(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)],
            ][k]
                .clone();
            (vec![r], z)
        })
        .collect();
    let cap = h.pick(4000, 60_000);
    h.family("order choices", "small bodies under every choice of the entry each visit starts with (up to two deviations, capped)", small.len() as u64, |i, rec| {
        let (r, z) = &small[i as usize];
        rec.explore(Mode::Front, 2, cap, |rec| judge(rec, r, *z, 0));
    });
    h.finish()
}
