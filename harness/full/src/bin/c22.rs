//! C22: Ruppert meshes tile the domain within quality and size bounds.
use hfull::mesh::*;
use hfull::*;
use mcheck::*;

fn judge(rec: &mut Rec, r: &Rings, h: f64, id: u64) {
    if let Some(m) = meshed(rec, r, id, &format!("at {}", h), |t| t.ruppert_mesh(h)) {
        quality(rec, r, h, &m);
    }
}
fn wrap(rec: &mut Rec, r: &Rings, id: u64) {
    meshed(rec, r, id, "triangulated", |t| t.gift_wrap());
}
fn quality(rec: &mut Rec, r: &Rings, h: f64, m: &Mesh) {
    rec.outcome(("triangles", m.tris.len().next_power_of_two()));
    let c = largest_circumradius(m);
    rec.check(c <= h * (1.0 + 1e-9), "size", || format!("{:?} at {}: circumradius {}", r, h, c));
    let q = worst_ratio(m);
    rec.check(q <= 1.415 + 1e-6, "quality", || format!("{:?} at {}: ratio {}", r, h, q));
}
/// no interior angle below 60 degrees
fn blunt(r: &Vec<P>) -> bool {
    angles(&vec![r.clone()]).iter().all(|a| a.to_degrees() >= 60.0 - 1e-6)
}

fn main() {
    let mut h = Harness::new("C22");
    std::env::set_current_dir(h.scratch()).unwrap();
    h.assume("interior angles of at least 60 degrees, for which Ruppert's method is known to end");
    h.assume("spacemath's predicates are exact (stand-in)");
    let deep = h.thorough();
    let mut rings: Vec<Vec<P>> = vec![];
    for n in 3..=(if deep { 8 } else { 6 }) {
        rings.extend(up_to_shift(lattice_rings(4, n)));
    }
    for n in 7..=9 {
        rings.extend(up_to_shift(lattice_rings(3, n)));
    }
    rings.retain(blunt);
    let hs = [100.0, 2.0, 1.0, 0.7, 0.5, 0.33, 0.2];
    let (nr, nh) = (rings.len() as u64, hs.len() as u64);
    h.family("rings", "every ring of few corners on a 4x4 lattice and of up to 9 on 3x3 without small angles, seven sizes", nr * nh, |i, rec| {
        let mut x = Digits(i);
        let z = hs[x.take(nh)];
        judge(rec, &vec![rings[x.take(nr)].clone()], z, 0);
    });
    let part = |k: usize| -> Vec<Vec<P>> { rings.iter().step_by(k).cloned().collect() };
    let p = part(if deep { 2 } else { 3 });
    let np = p.len() as u64;
    h.family("moved", "the same turned, scaled from 1e-12 to 1e10 and shifted up to 1e5", np * 4 * MOVES.len() as u64, |i, rec| {
        let mut x = Digits(i);
        let z = [100.0, 1.0, 0.5, 0.3][x.take(4)];
        let (t, s, by) = MOVES[x.take(MOVES.len() as u64)];
        judge(rec, &moved(&vec![p[x.take(np)].clone()], t, s, by), z * s, 0);
    });
    h.family("vertices", "the same with straight-through vertices on the sides", np, |i, rec| {
        for v in with_vertices(&p[i as usize]) {
            for z in [100.0, 0.5] {
                judge(rec, &vec![v.clone()], z, 0);
            }
        }
    });
    // the triangulation both methods start from, without any limit on angles
    let mut sharp: Vec<Vec<P>> = vec![];
    for n in 3..=(if deep { 8 } else { 6 }) {
        sharp.extend(up_to_shift(lattice_rings(4, n)));
    }
    for n in 7..=9 {
        sharp.extend(up_to_shift(lattice_rings(3, n)));
    }
    let ns = sharp.len() as u64;
    h.family("bare", "triangulating the boundary of every such ring, sharp angles too, with and without straight-through vertices", ns, |i, rec| {
        let r = &sharp[i as usize];
        wrap(rec, &vec![r.clone()], 0);
        for v in with_vertices(r) {
            wrap(rec, &vec![v], 13);
        }
    });
    let shapes = hole_shapes();
    let ps: Vec<&Vec<P>> = sharp.iter().step_by(if deep { 7 } else { 60 }).collect();
    let (np_, nh_) = (ps.len() as u64, shapes.len() as u64);
    h.family("pierced", "bodies with a hole: rings with sharp angles and straight-through vertices, slits, boxes and wedges at every place of a quarter lattice, triangulated; refined too where the angles allow", np_ * nh_ * 13 * 13, |i, rec| {
        let mut x = Digits(i);
        let hole = &shapes[x.take(nh_)];
        let at = (x.take(13) as f64 * 0.25 + 0.01, x.take(13) as f64 * 0.25 + 0.02);
        let r = ps[x.take(np_)];
        let rings = match pierced(r, hole, at) {
            Some(r) => r,
            None => return,
        };
        wrap(rec, &rings, 0);
        let v = with_vertices(&rings[0]);
        wrap(rec, &vec![v[i as usize % v.len()].clone(), rings[1].clone()], 13);
        if rings.iter().all(blunt) {
            judge(rec, &rings, 100.0, 0);
        }
    });
    let no = if deep { 40 } else { 16 };
    h.family("orders", "visiting orders followed throughout: reversed, and every table started at its k-th entry", np * 4 * no, |i, rec| {
        let mut x = Digits(i);
        let (o, z) = (x.take(no), [100.0, 1.0, 0.5, 0.3][x.take(4)]);
        let r = vec![p[x.take(np)].clone()];
        rec.explore(policy(o), 0, 1, |rec| judge(rec, &r, z, 0));
    });
    h.family("numbering", "histories of the process: how many vertices came before", np * 4 * no, |i, rec| {
        let mut x = Digits(i);
        let (o, z) = (x.take(no), [100.0, 1.0, 0.5, 0.3][x.take(4)]);
        judge(rec, &vec![p[x.take(np)].clone()], z, 1 + o as u64 * 13);
    });
    let mut tri: Vec<Vec<P>> = vec![];
    for n in 3..=(if deep { 7 } else { 6 }) {
        tri.extend(up_to_shift(lattice_rings(4, n)));
    }
    tri.iter_mut().flatten().for_each(|p| *p = (p.0 + p.1 * 0.5, p.1 * 0.75f64.sqrt()));
    tri.retain(blunt);
    let nt = tri.len() as u64;
    h.family("triangular lattice", "rings with angles of exactly 60 degrees, orders and numberings", nt * 4 * 6, |i, rec| {
        let mut x = Digits(i);
        let (z, o) = ([100.0, 2.0, 1.0, 0.5][x.take(4)], x.take(6));
        let r = vec![tri[x.take(nt)].clone()];
        if o < 3 {
            judge(rec, &r, z, 17 * o as u64);
        } else {
            rec.explore(policy(o - 3), 0, 1, |rec| judge(rec, &r, z, 0));
        }
    });
    let ho = holed(if deep { 0.25 } else { 0.5 });
    let n = ho.len() as u64;
    h.family("holes", "a rectangle with a hole of five shapes at every place of a grid, orders and numberings", n * 4 * 8, |i, rec| {
        let mut x = Digits(i);
        let (z, o) = ([100.0, 2.0, 1.0, 0.5][x.take(4)], x.take(8));
        let r = &ho[x.take(n)];
        if o < 4 {
            judge(rec, r, z, 17 * o as u64);
        } else {
            rec.explore(policy(o - 4), 0, 1, |rec| judge(rec, r, z, 0));
        }
    });
    // thousands of triangles
    let plates: [Rings; 3] = [
        vec![vec![(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (0.0, 3.0)]],
        vec![vec![(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (1.0, 1.0), (1.0, 4.0), (0.0, 4.0)]],
        vec![vec![(0.0, 0.0), (6.0, 0.0), (6.0, 4.0), (0.0, 4.0)], vec![(2.0, 1.0), (2.0, 3.0), (4.0, 3.0), (4.0, 1.0)]],
    ];
    let fine: Vec<f64> = if deep { vec![0.2, 0.15, 0.1, 0.08, 0.06, 0.05, 0.04, 0.03] } else { vec![0.2, 0.1, 0.06, 0.04] };
    let nf = fine.len() as u64;
    h.family("fine", "three bodies at sizes for thousands of triangles, in three places", 3 * nf * 3, |i, rec| {
        let mut x = Digits(i);
        let (k, z, m) = (x.take(3), fine[x.take(nf)], x.take(3));
        let (t, s, by) = MOVES[m * 4];
        judge(rec, &moved(&plates[k], t, s, by), z * s, 29);
    });
    let cr = crowds();
    let nc = cr.len() as u64;
    h.family("many rings", "plates with up to 25 holes, up to 9 bodies side by side, bodies inside the holes of others, bare and refined to 5 sizes, orders and numberings", nc * 6 * 6, |i, rec| {
        let mut x = Digits(i);
        let (z, o) = ([0.0, 100.0, 2.0, 1.0, 0.5, 0.3][x.take(6)], x.take(6));
        let r = &cr[x.take(nc)];
        let go = |rec: &mut Rec, id: u64| if z == 0.0 { wrap(rec, r, id) } else { judge(rec, r, z, id) };
        if o < 3 {
            go(rec, 17 * o as u64);
        } else {
            rec.explore(policy(o - 3), 0, 1, |rec| go(rec, 0));
        }
    });
    let ex = examples();
    h.family("examples", "bodies of the example files and tests, a ladder of sizes", 6 * 8 * 4, |i, rec| {
        let mut x = Digits(i);
        let (k, z, o) = ([0, 1, 3, 4, 5, 6][x.take(6)], 0.5 + 0.2 * x.take(8) as f64, x.take(4));
        let (r, z) = (&ex[k].0, ex[k].1 * z);
        if !r.iter().all(blunt) {
            return;
        }
        if o == 0 {
            judge(rec, r, z, 5);
        } else {
            rec.explore(policy(o - 1), 0, 1, |rec| judge(rec, r, z, 0));
        }
    });
    let hist: [&[f64]; 6] = [&[0.0, 1.0], &[1.0, 1.0], &[1.0, 0.5], &[1.0, 0.0, 0.5], &[0.5, 1.0], &[0.0, 0.0, 1.0]];
    h.family("histories", "wrapping and meshing the same triangulation again in every fixed way", np * 4 * hist.len() as u64, |i, rec| {
        let mut x = Digits(i);
        let (k, z) = (x.take(hist.len() as u64), [100.0, 2.0, 1.0, 0.5][x.take(4)]);
        let r = vec![p[x.take(np)].clone()];
        let m = meshed(rec, &r, 0, &format!("at {} history {:?}", z, hist[k]), |t| {
            for &f in hist[k] {
                if f == 0.0 {
                    t.gift_wrap()
                } else {
                    t.ruppert_mesh(z * f)
                }
            }
        });
        if let Some(m) = m {
            quality(rec, &r, z * hist[k].last().unwrap(), &m);
        }
    });
    let small: [(Vec<P>, f64); 5] = [
        (vec![(0.0, 0.0), (3.0, 0.0), (3.0, 1.0), (0.0, 1.0)], 0.6),
        (vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (2.0, 0.0), (3.0, 1.0), (0.0, 2.0)], 1.0),
        (vec![(0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (1.0, 1.0), (1.0, 2.0), (0.0, 2.0)], 0.6),
        (vec![(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)], 0.8),
        (vec![(0.0, 0.0), (3.0, 0.0), (3.0, 2.0), (2.0, 2.0), (2.0, 1.0), (1.0, 1.0), (1.0, 2.0), (0.0, 2.0)], 100.0),
    ];
    let cap = h.pick(4000, 60_000);
    h.family("order choices", "small bodies under every choice of the entry each visit starts with (up to two deviations, capped)", small.len() as u64, |i, rec| {
        let (r, z) = &small[i as usize];
        rec.explore(Mode::Front, 2, cap, |rec| judge(rec, &vec![r.clone()], *z, 0));
    });
    h.finish()
}
