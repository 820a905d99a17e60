//! C18: a saved mesh file loads back as the same model.
use bugi::element::constraint::Constraint;
use bugi::file::{read_to_elas, save_elas};
use hfull::*;
use mcheck::*;
use std::cell::RefCell;
use std::path::PathBuf;

thread_local! {
    static FILE: RefCell<Option<PathBuf>> = RefCell::new(None);
}
/// one file per worker, rewritten by every execution
fn path(dir: &PathBuf) -> PathBuf {
    FILE.with(|f| f.borrow_mut().get_or_insert_with(|| dir.join(format!("{:?}.bmsh", std::thread::current().id()).replace(['(', ')'], ""))).clone())
}

fn judge(rec: &mut Rec, dir: &PathBuf, m: &FileModel) {
    let p = path(dir);
    let hist = || format!("{:?}", m);
    // the path holds something longer already
    let longer = "# old\n".repeat(400);
    std::fs::write(&p, longer).unwrap();
    let first = match rec.call(|| {
        save_elas(&p, m.build());
        std::fs::read_to_string(&p).unwrap()
    }) {
        Ok(t) => t,
        Err(e) => return rec.fail("save-fails", format!("{}: {}", hist(), e)),
    };
    // what the file says, by an independent reading
    match read_bmsh(&first) {
        Reading::Accept(w) => {
            if let Some(d) = m.differs(&w, 0.5e-6, 0.5e-3, 0.5e-5) {
                rec.fail("file-differs", format!("{}: the file says otherwise: {}\n{}", hist(), d, first));
            }
        }
        r => rec.fail("file-malformed", format!("{}: {:?}\n{}", hist(), r, first)),
    }
    let load = |rec: &mut Rec| match rec.call(|| read_to_elas(&p)) {
        Ok(Ok(e)) => Some(e),
        Ok(Err(e)) => {
            rec.fail("load-rejected", format!("{}: {}\n{}", hist(), e, first));
            None
        }
        Err(e) => {
            rec.fail("load-fails", format!("{}: {}\n{}", hist(), e, first));
            None
        }
    };
    let Some(e) = load(rec) else { return };
    let back = FileModel::of(&e);
    rec.trace();
    if let Some(d) = m.differs(&back, 0.5e-6, 0.5e-3, 0.5e-5) {
        rec.fail("round-trip", format!("{}: {}\n{}", hist(), d, first));
    }
    // the second time nothing changes, not even the text (up to the order within a section)
    if let Err(x) = rec.call(|| save_elas(&p, e)) {
        return rec.fail("save-fails", format!("again, {}: {}", hist(), x));
    }
    let second = std::fs::read_to_string(&p).unwrap();
    let sorted = |t: &str| {
        let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
        l.sort();
        l
    };
    // -0.0000001 prints as -0.000000
    let norm = |t: &str| sorted(&t.replace("-0.000000", "0.000000").replace("-0.000/", "0.000/").replace("/-0.000\n", "/0.000\n"));
    rec.check(norm(&first) == norm(&second), "second-save", || format!("{}:\n{}\nthen\n{}", hist(), first, second));
    let Some(e) = load(rec) else { return };
    let again = FileModel::of(&e);
    rec.trace();
    rec.check(back.differs(&again, 0.0, 0.0, 0.0).is_none(), "second-round-trip", || format!("{}: {:?} then {:?}", hist(), back, again));
    let _ = std::fs::remove_file(&p);
}

const CONS: [Constraint; 8] = [
    Constraint::Free,
    Constraint::XFixed,
    Constraint::YFixed,
    Constraint::XYFixed,
    Constraint::AngleFixed(0.7),
    Constraint::AngleFixed(-1.5707963267948966),
    Constraint::AngleFixed(1e-7),
    Constraint::AngleFixed(0.1 + 0.2),
];
const CONDS: [(char, f64); 7] = [('a', 0.0), ('s', 1.0), ('s', 0.01), ('s', 12.34567), ('n', 1.0), ('n', 0.00002), ('n', 250000.125)];
const VECS: [(f64, f64); 9] = [
    (0.0, 0.0),
    (1.0, -2.0),
    (0.0, 0.125),
    (-3.5, 0.0),
    (2e8, -2e8),
    (0.0015, -0.0025),
    (123456.789, 0.001),
    (-0.0001, 1e15),
    (1.0 / 3.0, -2.0 / 3.0),
];

fn main() {
    let mut h = Harness::new("C18");
    h.assume("finite numbers; materials the format can name; triangles with an area the printed decimals keep");
    let dir = h.scratch();
    let d = &dir;
    h.family("constraints", "a triangle and a pair, every constraint of 8 on every node x 7 conditions x 2 materials", 8u64.pow(3) * 14 + 8u64.pow(4) * 2, |i, rec| {
        let (kind, mut x) = if i < 8u64.pow(3) * 14 { (0, Digits(i)) } else { (1, Digits(i - 8u64.pow(3) * 14)) };
        let mut m = plain(kind);
        if kind == 0 {
            m.cond = *x.pick(&CONDS);
        }
        m.material = x.pick(&["AL6061", "TEST"]).to_string();
        m.cons.iter_mut().for_each(|c| *c = *x.pick(&CONS));
        rec.state(i);
        judge(rec, d, &m);
        rec.sample(|| format!("{:?}", m));
    });
    h.family("forces", "every one of 9 vectors or none on every node of a triangle, and the constraint of one node", 10u64.pow(3) * 3, |i, rec| {
        let mut x = Digits(i);
        let mut m = plain(0);
        for n in 0..3 {
            let k = x.take(10);
            if k > 0 {
                m.forces.insert(n, VECS[k - 1]);
            }
        }
        m.cons[1] = [Constraint::Free, Constraint::XFixed, Constraint::AngleFixed(2.5)][x.take(3)];
        rec.state(i);
        judge(rec, d, &m);
    });
    h.family("distributed forces", "every set of directed edges of a pair of triangles (10), vectors by position", 1 << 10, |i, rec| {
        let mut m = plain(1);
        let edges = [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0), (2, 3), (3, 2), (0, 3), (3, 0)];
        for (k, e) in edges.iter().enumerate() {
            if i >> k & 1 == 1 {
                m.dist.insert(*e, VECS[k % 9]);
            }
        }
        rec.state(i);
        judge(rec, d, &m);
    });
    h.family("distributed vectors", "every vector on every directed edge of a triangle, with every vector on a node", 9 * 6 * 9, |i, rec| {
        let mut x = Digits(i);
        let mut m = plain(0);
        let e = [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)][x.take(6)];
        m.dist.insert(e, *x.pick(&VECS));
        m.forces.insert(e.1, *x.pick(&VECS));
        rec.state(i);
        judge(rec, d, &m);
    });
    let co = [0.0, 1.0, -1.0, 0.5, -12.25, 1e-6, -1e-6, 4e-7, 6e-7, 0.1234565, 123456.789, -1e9, 7e12, 1.0 / 3.0];
    h.family("coordinates", "every pair of 14 coordinates of every sign and size at a node, in and out of elements", 14 * 14 * 2, |i, rec| {
        let mut x = Digits(i);
        let free = x.take(2) == 0;
        let p = (*x.pick(&co), *x.pick(&co));
        let mut m = plain(0);
        if free {
            m.nodes.insert(1, p);
            m.cons.push(Constraint::Free);
            m.elems = vec![[0, 2, 3]];
        } else {
            // the other two corners keep a clear area
            m.nodes = vec![p, (p.0 + 2.0, p.1 + 0.5), (p.0 + 0.25, p.1 + 3.0)];
        }
        m.forces.insert(0, p);
        rec.state(i);
        judge(rec, d, &m);
    });
    h.family("magnitudes", "every power of two from 2^-30 to 2^45 x 3 mantissas x 2 signs as a coordinate, a nodal force, a distributed force, or the thickness", 76 * 3 * 2 * 7, |i, rec| {
        let mut x = Digits(i);
        let (role, sign, mant, e) = (x.take(7), x.take(2), x.take(3), x.take(76));
        let v = [1.0, -1.0][sign] * [1.0 / 3.0, 0.7, 0.123456789][mant] * 2f64.powi(e as i32 - 30);
        let mut m = plain(0);
        match role {
            0 | 1 => {
                let q = if role == 0 { (v, 0.25) } else { (0.25, v) };
                m.nodes = vec![q, (q.0 + 2.0, q.1 + 0.5), (q.0 + 0.25, q.1 + 3.0)];
            }
            2 | 3 => {
                m.forces.insert(1, if role == 2 { (v, 1.5) } else { (1.5, v) });
            }
            4 | 5 => {
                m.dist.insert((1, 2), if role == 4 { (v, 1.5) } else { (1.5, v) });
            }
            // the format prints five decimals
            _ if v > 2e-5 => m.cond = (['s', 'n'][mant % 2], v),
            _ => return,
        }
        rec.state(i);
        judge(rec, d, &m);
    });
    h.family("thickness", "2 plane conditions x 14 sizes", 28, |i, rec| {
        let mut m = plain(1);
        m.cond = (['s', 'n'][i as usize % 2], co[i as usize / 2].abs());
        if m.cond.1 == 0.0 {
            return;
        }
        rec.state(i);
        judge(rec, d, &m);
    });
    h.family("angles", "400 angles over and beyond a turn, and tiny ones", 400, |i, rec| {
        let mut m = plain(0);
        let a = if i < 360 { (i as f64 - 180.0) * 0.0523598775598 } else { (0.37f64).powi(i as i32 - 360) * if i % 2 == 0 { 1.0 } else { -1.0 } };
        m.cons[i as usize % 3] = Constraint::AngleFixed(a);
        rec.state(i);
        judge(rec, d, &m);
    });
    h.family("meshes", "4 meshes with every subset of their elements, corner listings and conditions", 4 * 16 * 6 * 7, |i, rec| {
        let mut x = Digits(i);
        let (k, keep, l) = (x.take(4), x.take(16), x.take(6));
        let mut m = plain(k);
        m.cond = *x.pick(&CONDS);
        let o = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][l];
        m.elems = m.elems.iter().enumerate().filter(|e| keep >> e.0 & 1 == 1).map(|(_, t)| o.map(|j| t[j])).collect();
        for n in 0..m.nodes.len() {
            m.cons[n] = CONS[(n * 3 + l) % 8];
            m.forces.insert(n, VECS[(n + k) % 9]);
        }
        rec.state(i);
        judge(rec, d, &m);
    });
    let strip = |n: usize, seed: u64| {
        let mut m = plain(0);
        m.nodes.clear();
        m.cons.clear();
        m.elems.clear();
        for k in 0..n {
            m.nodes.push((k as f64 * 0.1, lattice(k as u64, seed) + (k % 2) as f64 * 2.0));
            m.cons.push(CONS[k % 8]);
            if k % 3 == 0 {
                m.forces.insert(k, VECS[k % 9]);
            }
            if k >= 2 {
                m.elems.push([k - 2, k - 1, k]);
                if k % 5 == 0 {
                    m.dist.insert((k, k - 1), VECS[(k / 5) % 9]);
                }
            }
        }
        m
    };
    h.family("empty and large", "no nodes at all; strips of up to 400 nodes", 20, |i, rec| {
        rec.state(i);
        judge(rec, d, &strip(i as usize * 20, i));
    });
    let sizes = [1023usize, 1025, 4097, 10001, 32769, 65535, 65537, 100001];
    h.family("huge", "strips of 1023 to 100001 nodes, with elements, supports and loads all along", if h.thorough() { 8 } else { 7 }, |i, rec| {
        rec.state(i);
        judge(rec, d, &strip(sizes[i as usize], i));
    });
    let (bound, cap) = (h.pick(2, 3), h.pick(2000u64, 20000));
    h.family("hash orders", "models with up to 4 forces and 4 distributed forces under hash visiting orders (deviations within the bound)", 5 * 5, |i, rec| {
        let mut m = plain(2);
        for k in 0..(i % 5) as usize {
            m.forces.insert(k, VECS[k + 1]);
        }
        for k in 0..(i / 5) as usize {
            m.dist.insert([(0, 1), (1, 0), (1, 2), (2, 4)][k], VECS[k + 2]);
        }
        m.cons = (0..5).map(|k| CONS[k + 1]).collect();
        rec.state(i);
        rec.explore(Mode::Front, bound, cap, |rec| judge(rec, d, &m));
        rec.explore(Mode::Full, bound, cap, |rec| judge(rec, d, &m));
        rec.explore(Mode::Reversed, 64, 64, |rec| judge(rec, d, &m));
    });
    h.finish()
}
