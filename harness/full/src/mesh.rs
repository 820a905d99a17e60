//! Judging meshes of polygonal domains from nothing but their nodes and triangles.
use crate::{orient, P};
use bugi::element::constraint::Constraint;
use bugi::element::ElementAssemblage;
use std::collections::BTreeMap;

/// closed rings, body to the left
pub type Rings = Vec<Vec<P>>;

pub struct Mesh {
    pub nodes: Vec<P>,
    pub tris: Vec<[usize; 3]>,
    /// one per node
    pub cons: Vec<Constraint>,
    pub dist: BTreeMap<(usize, usize), P>,
}
impl Mesh {
    pub fn of(e: &ElementAssemblage) -> Self {
        let mut cons = vec![Constraint::Free; e.node_count()];
        for (n, c) in e.constraints() {
            cons[n.into_idx()] = c;
        }
        Mesh {
            nodes: e.nodes().iter().map(|p| (p[0], p[1])).collect(),
            tris: e.element_descriptors().into_iter().map(|d| d.into_parts().map(|n| n.into_idx())).collect(),
            cons,
            dist: e.dist_forces().into_iter().map(|((a, b), f)| ((a.into_idx(), b.into_idx()), (f[0], f[1]))).collect(),
        }
    }
    /// order-free description, for counting distinct outcomes
    pub fn shape(&self) -> Vec<[(u64, u64); 3]> {
        let mut v: Vec<[(u64, u64); 3]> = self
            .tris
            .iter()
            .map(|t| {
                let mut k = t.map(|i| (self.nodes[i].0.to_bits(), self.nodes[i].1.to_bits()));
                k.sort();
                k
            })
            .collect();
        v.sort();
        v
    }
}

pub fn dist(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
/// distance of p from the closed segment ab
pub fn gap(p: P, a: P, b: P) -> f64 {
    let l2 = (b.0 - a.0).powi(2) + (b.1 - a.1).powi(2);
    if l2 == 0.0 {
        return dist(p, a);
    }
    let t = (((p.0 - a.0) * (b.0 - a.0) + (p.1 - a.1) * (b.1 - a.1)) / l2).clamp(0.0, 1.0);
    dist(p, (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)))
}
pub fn area(r: &[P]) -> f64 {
    let o = r[0];
    (1..r.len() - 1).map(|i| orient(o, r[i], r[i + 1]) / 2.0).sum()
}
pub fn segments(rings: &Rings) -> Vec<(P, P)> {
    rings.iter().flat_map(|r| (0..r.len()).map(move |i| (r[i], r[(i + 1) % r.len()]))).collect()
}
pub fn extent(rings: &Rings) -> f64 {
    let p: Vec<P> = rings.concat();
    p.iter().map(|a| dist(*a, p[0])).fold(0.0, f64::max)
}
pub fn circumradius(a: P, b: P, c: P) -> f64 {
    dist(a, b) * dist(b, c) * dist(c, a) / (2.0 * orient(a, b, c).abs())
}
fn angle(at: P, b: P, c: P) -> f64 {
    let (u, v) = ((b.0 - at.0, b.1 - at.1), (c.0 - at.0, c.1 - at.1));
    (u.0 * v.1 - u.1 * v.0).atan2(u.0 * v.0 + u.1 * v.1)
}
/// interior angles of rings with the body to the left
pub fn angles(rings: &Rings) -> Vec<f64> {
    rings
        .iter()
        .flat_map(|r| {
            let n = r.len();
            (0..n).map(move |i| {
                let a = angle(r[i], r[(i + 1) % n], r[(i + n - 1) % n]);
                if a < 0.0 {
                    a + 2.0 * std::f64::consts::PI
                } else {
                    a
                }
            })
        })
        .collect()
}

/// Do the triangles cover exactly the domain, each point once, corner to corner?
///
/// Positively oriented triangles whose uncancelled edges are exactly the pieces of the boundary
/// cover each point as often as the boundary winds around it, which is once inside and never
/// outside. So: all areas positive, no directed edge twice, and the edges without a partner are a
/// subdivision of the rings, in their direction.
pub fn tiles(m: &Mesh, rings: &Rings) -> Result<(), String> {
    let size = extent(rings);
    let tol = 1e-9 * size;
    let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut total = 0.0;
    let mut used = vec![false; m.nodes.len()];
    if let Some(p) = m.nodes.iter().find(|p| !p.0.is_finite() || !p.1.is_finite()) {
        return Err(format!("node {:?}", p));
    }
    for (k, t) in m.tris.iter().enumerate() {
        let [a, b, c] = t.map(|i| m.nodes[i]);
        let o = orient(a, b, c);
        if !(o > 0.0) {
            return Err(format!("triangle {:?} {:?} {:?} has area {}", a, b, c, o / 2.0));
        }
        total += o / 2.0;
        for i in 0..3 {
            used[t[i]] = true;
            if edges.insert((t[i], t[(i + 1) % 3]), k).is_some() {
                return Err(format!("edge {:?} {:?} has two triangles on one side", m.nodes[t[i]], m.nodes[t[(i + 1) % 3]]));
            }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!("node {:?} belongs to no triangle", m.nodes[i]));
    }
    let want: f64 = rings.iter().map(|r| area(r)).sum();
    if (total - want).abs() > 1e-9 * size * size {
        return Err(format!("triangles cover {} of {}", total, want));
    }
    // the edges without a partner, collected per segment as intervals
    let segs = segments(rings);
    let mut along: Vec<Vec<(f64, f64)>> = vec![vec![]; segs.len()];
    for (&(i, j), _) in &edges {
        if edges.contains_key(&(j, i)) {
            continue;
        }
        let (p, q) = (m.nodes[i], m.nodes[j]);
        let s = segs.iter().position(|&(a, b)| gap(p, a, b) <= tol && gap(q, a, b) <= tol && (q.0 - p.0) * (b.0 - a.0) + (q.1 - p.1) * (b.1 - a.1) > 0.0);
        match s {
            None => return Err(format!("edge {:?} {:?} has one triangle but is not on the boundary", p, q)),
            Some(s) => along[s].push((dist(segs[s].0, p), dist(segs[s].0, q))),
        }
    }
    for (s, v) in along.iter_mut().enumerate() {
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut at = 0.0;
        for &(x, y) in v.iter() {
            if (x - at).abs() > 2.0 * tol {
                return Err(format!("pieces of segment {:?} do not follow on: {:?}", segs[s], v));
            }
            at = y;
        }
        if (at - dist(segs[s].0, segs[s].1)).abs() > 2.0 * tol {
            return Err(format!("pieces of segment {:?} do not cover it: {:?}", segs[s], v));
        }
    }
    // every corner of the rings is a node
    for p in rings.iter().flatten() {
        if !m.nodes.iter().any(|n| n == p) {
            return Err(format!("vertex {:?} is no node", p));
        }
    }
    Ok(())
}

/// Locally Delaunay at every edge with triangles on both sides, which makes the triangulation
/// constrained Delaunay.
pub fn delaunay(m: &Mesh) -> Result<(), String> {
    let mut opp: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for t in &m.tris {
        for i in 0..3 {
            opp.insert((t[i], t[(i + 1) % 3]), t[(i + 2) % 3]);
        }
    }
    for (&(i, j), &k) in &opp {
        if let Some(&l) = opp.get(&(j, i)) {
            let n = &m.nodes;
            let s = angle(n[k], n[i], n[j]).abs() + angle(n[l], n[i], n[j]).abs();
            if s > std::f64::consts::PI + 1e-6 {
                return Err(format!("{:?} is inside the circumcircle of {:?} {:?} {:?} (opposite angles add up to {})", n[l], n[i], n[j], n[k], s));
            }
        }
    }
    Ok(())
}

pub fn largest_circumradius(m: &Mesh) -> f64 {
    m.tris.iter().map(|t| circumradius(m.nodes[t[0]], m.nodes[t[1]], m.nodes[t[2]])).fold(0.0, f64::max)
}
/// largest ratio of circumradius to shortest edge
pub fn worst_ratio(m: &Mesh) -> f64 {
    m.tris
        .iter()
        .map(|t| {
            let [a, b, c] = t.map(|i| m.nodes[i]);
            circumradius(a, b, c) / dist(a, b).min(dist(b, c)).min(dist(c, a))
        })
        .fold(0.0, f64::max)
}

/// every simple ring with n corners on a w x w lattice, up to where it starts, body to the left
pub fn lattice_rings(w: i64, n: usize) -> Vec<Vec<P>> {
    fn go(w: i64, n: usize, cur: &mut Vec<P>, out: &mut Vec<Vec<P>>) {
        if cur.len() == n {
            if area(cur) > 0.0 && crate::well_formed(&vec![cur.clone()]) {
                // corners only: straight-through vertices come from rings with fewer corners
                let k = cur.len();
                if (0..k).all(|i| orient(cur[i], cur[(i + 1) % k], cur[(i + 2) % k]) != 0.0) {
                    out.push(cur.clone());
                }
            }
            return;
        }
        for i in 0..w * w {
            let p = ((i % w) as f64, (i / w) as f64);
            // start at the lexicographically least corner
            if cur.contains(&p) || (!cur.is_empty() && crate::less(p, cur[0])) {
                continue;
            }
            let k = cur.len();
            if k >= 2 && (0..k - 2).any(|j| crate::touch(cur[j], cur[j + 1], cur[k - 1], p)) {
                continue;
            }
            cur.push(p);
            go(w, n, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(w, n, &mut vec![], &mut out);
    out
}
/// of the rings that are shifts of one another by lattice vectors, the first
pub fn up_to_shift(v: Vec<Vec<P>>) -> Vec<Vec<P>> {
    v.into_iter()
        .filter(|r| r.iter().map(|p| p.0).fold(9.0, f64::min) == 0.0 && r.iter().map(|p| p.1).fold(9.0, f64::min) == 0.0)
        .collect()
}
/// rotate, scale and shift
pub fn moved(r: &Rings, turn: f64, scale: f64, by: P) -> Rings {
    let (s, c) = turn.sin_cos();
    r.iter().map(|r| r.iter().map(|p| ((p.0 * c - p.1 * s) * scale + by.0, (p.0 * s + p.1 * c) * scale + by.1)).collect()).collect()
}
/// shortest distance between two of the points
pub fn spread(p: &[P]) -> f64 {
    let mut d = f64::INFINITY;
    for i in 0..p.len() {
        for j in 0..i {
            d = d.min(dist(p[i], p[j]));
        }
    }
    d
}

use bugi::mesher::bounds::PlaneBoundary;
use bugi::mesher::plane::PlaneTriangulation;
use mcheck::Rec;

pub fn bound(r: &Rings) -> PlaneBoundary {
    let mut b = PlaneBoundary::new();
    for r in r {
        b.store_polygon(r);
    }
    b.set_condition(bugi::element::strain::Condition::PlaneStress(0.5));
    b.set_material(bugi::element::material::AL6061);
    b
}
/// run a mesher on the body, starting after `id` vertices of the process's history, and judge
/// that the result tiles it and is constrained Delaunay
pub fn meshed(rec: &mut Rec, r: &Rings, id: u64, what: &str, f: impl FnOnce(&mut PlaneTriangulation)) -> Option<Mesh> {
    mcstd::atomic::reset(id);
    let m = rec.call(|| {
        let mut t = PlaneTriangulation::new(bound(r));
        f(&mut t);
        t.assemble().map(|e| Mesh::of(&e))
    });
    rec.trace();
    let m = match m {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => {
            rec.fail("no-mesh", format!("{:?} {} from vertex {}: {}", r, what, id, e));
            return None;
        }
        Err(e) => {
            rec.fail("no-mesh", format!("{:?} {} from vertex {}: {}", r, what, id, e));
            return None;
        }
    };
    rec.state(m.shape());
    rec.outcome((m.nodes.len(), m.tris.len()));
    if let Err(e) = tiles(&m, r) {
        rec.fail("tiling", format!("{:?} {} from vertex {}: {}", r, what, id, e));
    } else if let Err(e) = delaunay(&m) {
        rec.fail("delaunay", format!("{:?} {} from vertex {}: {}", r, what, id, e));
    }
    rec.sample(|| format!("{:?} {}: {} nodes, {} triangles", r, what, m.nodes.len(), m.tris.len()));
    Some(m)
}

/// a rectangle with one hole of each shape at every place of a grid
pub fn holed(step: f64) -> Vec<Rings> {
    let mut out: Vec<Rings> = vec![];
    for (ax, ay) in [(6.0, 6.0), (6.0, 3.0), (5.0, 5.0)] {
        for k in 0..5 {
            let n = (ax / step) as i64;
            for x in 0..n {
                for y in 0..n {
                    let (x, y) = (x as f64 * step, y as f64 * step);
                    let hole = match k {
                        0 => vec![(x, y), (x, y + 2.0), (x + 2.0, y + 2.0), (x + 2.0, y)],
                        1 => vec![(x, y), (x, y + 2.0), (x + 2.0, y)],
                        2 => vec![(x, y), (x - 1.0, y + 1.0), (x, y + 2.0), (x + 1.0, y + 1.0)],
                        3 => vec![(x, y), (x, y + 0.1), (x + 2.0, y + 0.1), (x + 2.0, y)],
                        _ => vec![(x, y), (x + 0.3, y + 0.3), (x + 0.2, y)],
                    };
                    if hole.iter().all(|p| p.0 > 0.0 && p.0 < ax && p.1 > 0.0 && p.1 < ay) {
                        out.push(vec![vec![(0.0, 0.0), (ax, 0.0), (ax, ay), (0.0, ay)], hole]);
                    }
                }
            }
        }
    }
    out
}
/// a plate with m x n holes; the holes are squares, wedges, diamonds and bars in turn (`kinds` of them) and
/// start at every corner in turn
pub fn plate(m: usize, n: usize, kinds: usize) -> Rings {
    let (w, l) = (3.0 * m as f64, 3.0 * n as f64);
    let mut out = vec![vec![(0.0, 0.0), (w, 0.0), (w, l), (0.0, l)]];
    for i in 0..m {
        for j in 0..n {
            let (x, y, k) = (3.0 * i as f64 + 1.0, 3.0 * j as f64 + 1.0, i * n + j);
            let mut r = match k % kinds {
                0 => vec![(x, y), (x, y + 1.0), (x + 1.0, y + 1.0), (x + 1.0, y)],
                1 => vec![(x, y), (x + 0.5, y + 1.0), (x + 1.0, y)],
                2 => vec![(x + 0.5, y), (x, y + 0.5), (x + 0.5, y + 1.0), (x + 1.0, y + 0.5)],
                _ => vec![(x, y + 0.25), (x, y + 0.75), (x + 1.0, y + 0.75), (x + 1.0, y + 0.25)],
            };
            let by = (k + k / 5) % r.len();
            r.rotate_left(by);
            out.push(r);
        }
    }
    out
}
/// plates with up to 25 holes, several bodies side by side, bodies inside the holes of others
pub fn crowds() -> Vec<Rings> {
    let mut out = vec![];
    for (m, n) in [(2, 1), (3, 1), (2, 2), (5, 1), (3, 2), (3, 3), (4, 4), (5, 5)] {
        for kinds in [1, 4] {
            out.push(plate(m, n, kinds));
        }
    }
    for n in [2, 3, 4, 9] {
        let sep: Rings = (0..n)
            .flat_map(|k| {
                let one: Rings = match k % 3 {
                    0 => vec![vec![(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)]],
                    1 => vec![vec![(0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (1.0, 1.0), (1.0, 2.0), (0.0, 2.0)]],
                    _ => plate(1, 1, 1),
                };
                moved(&one, 0.0, 1.0, (4.0 * (k % 3) as f64, 4.0 * (k / 3) as f64))
            })
            .collect();
        out.push(sep);
    }
    // frames inside one another
    for n in [1, 2, 3] {
        let mut r: Rings = vec![];
        for k in 0..n {
            let a = 2.0 * k as f64;
            let b = 4.0 * n as f64 + 1.0 - a;
            r.push(vec![(a, a), (b, a), (b, b), (a, b)]);
            let (a, b) = (a + 1.0, b - 1.0);
            r.push(vec![(a, a), (a, b), (b, b), (b, a)]);
        }
        r.push(vec![(2.0 * n as f64, 2.0 * n as f64), (2.0 * n as f64 + 1.0, 2.0 * n as f64), (2.0 * n as f64 + 1.0, 2.0 * n as f64 + 1.0), (2.0 * n as f64, 2.0 * n as f64 + 1.0)]);
        out.push(r);
    }
    out.iter().for_each(|r| assert!(crate::well_formed(r)));
    out
}
/// holes for a body drawn on a lattice: slits, boxes and wedges of several sizes, lying and standing,
/// at every place of a quarter lattice
pub fn hole_shapes() -> Vec<Vec<P>> {
    let mut out: Vec<Vec<P>> = vec![];
    for w in [0.25, 0.75, 1.5] {
        for h in [0.02, 0.25, 1.0] {
            out.push(vec![(0.0, 0.0), (0.0, h), (w, h), (w, 0.0)]);
            if w != h {
                out.push(vec![(0.0, 0.0), (0.0, w), (h, w), (h, 0.0)]);
            }
        }
    }
    out.push(vec![(0.0, 0.0), (0.5, 1.0), (1.0, 1.1)]);
    out.push(vec![(0.0, 1.0), (0.6, 0.9), (1.2, -0.1)]);
    out.push(vec![(0.0, 0.0), (-0.5, 0.5), (0.0, 1.0), (0.5, 0.5)]);
    // not convex
    out.push(vec![(0.0, 0.0), (0.0, 0.5), (0.1, 0.1), (0.5, 0.0)]);
    out.iter().for_each(|r| assert!(area(r) < 0.0));
    out
}
/// is p inside the ring (not on it)
pub fn inside(p: P, r: &[P]) -> bool {
    let n = r.len();
    let mut odd = false;
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        if (a.1 > p.1) != (b.1 > p.1) && p.0 < a.0 + (b.0 - a.0) * (p.1 - a.1) / (b.1 - a.1) {
            odd = !odd;
        }
    }
    odd
}
/// the body with the hole moved to (x, y), if it is one
pub fn pierced(r: &[P], hole: &[P], at: P) -> Option<Rings> {
    let h: Vec<P> = hole.iter().map(|p| (p.0 + at.0, p.1 + at.1)).collect();
    let rings = vec![r.to_vec(), h];
    let clear = |p: &[P], r: &[P]| p.iter().all(|p| (0..r.len()).all(|i| gap(*p, r[i], r[(i + 1) % r.len()]) > 1e-3));
    (rings[1].iter().all(|p| inside(*p, r)) && clear(r, &rings[1]) && clear(&rings[1], r) && crate::well_formed(&rings)).then_some(rings)
}
/// every way of adding one or two straight-through vertices to a ring's sides
pub fn with_vertices(r: &[P]) -> Vec<Vec<P>> {
    let n = r.len();
    let mut out = vec![];
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        for t in [&[0.5][..], &[0.25, 0.75], &[1.0 / 3.0]] {
            let mut v = r.to_vec();
            for (k, t) in t.iter().enumerate() {
                v.insert(i + 1 + k, (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t));
            }
            out.push(v);
        }
    }
    out
}
/// the bodies of the example files and the repository's tests, with a size that suits each
pub fn examples() -> Vec<(Rings, f64)> {
    let sq = |x: f64, y: f64, s: f64| vec![(x, y), (x, y + s), (x + s, y + s), (x + s, y)];
    let unit = vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)];
    vec![
        (vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 3.0), (2.0, 2.0), (3.0, 3.0), (3.0, 0.0), (4.0, 0.0), (4.0, 1.0), (4.0, 5.0), (3.0, 5.0), (2.0, 4.0), (1.0, 5.0), (0.0, 5.0)]], 0.5),
        (vec![vec![(0.0, 0.0), (3.0, 0.0), (3.0, 10.0), (0.0, 10.0), (0.0, 5.0), (0.0, 4.0)]], 0.8),
        (vec![vec![(0.0, 0.0), (5.0, 0.0), (5.5, -1.0), (6.5, -1.0), (7.0, 0.0), (15.0, 0.0), (15.0, 1.0), (10.0, 1.0), (0.0, 1.0)]], 0.5),
        (vec![unit.clone(), sq(0.25, 0.25, 0.5)], 0.13),
        (vec![unit.clone(), sq(0.25, 0.25, 0.1), sq(0.65, 0.35, 0.1), sq(0.15, 0.45, 0.1), sq(0.85, 0.25, 0.1)], 0.1),
        (vec![unit], 0.2),
        (vec![vec![(0.0, 0.0), (2.0, 0.3), (2.0, 5.0), (-1.0, 3.5)]], 0.6),
    ]
}
/// rotation, scale and offset
pub const MOVES: [(f64, f64, P); 14] = [
    (0.0, 1.0, (100.0, -100.0)),
    (0.0, 1.0, (1000.0, 1000.0)),
    (0.0, 1.0, (0.0, 1e5)),
    (0.0, 1.0, (-10.0, 3.0)),
    (0.0, 1000.0, (0.0, 0.0)),
    (0.0, 1e6, (0.0, 0.0)),
    (0.0, 1e-3, (0.0, 0.0)),
    (0.0, 1e-6, (0.0, 0.0)),
    (0.3, 1.0, (0.0, 0.0)),
    (std::f64::consts::FRAC_PI_4, 1.0, (-1.5, 0.0)),
    (2.0, 10.0, (500.0, 0.0)),
    (std::f64::consts::FRAC_PI_2, 0.7, (0.0, 0.1)),
    (0.0, 1e-12, (0.0, 0.0)),
    (1.0, 1e10, (0.0, 0.0)),
];
/// visiting orders that are followed throughout: reversed, or every table started at its k-th entry
pub fn policy(k: usize) -> mcheck::Mode {
    if k == 0 {
        mcheck::Mode::Reversed
    } else {
        mcheck::Mode::Rotate(k as u32)
    }
}
