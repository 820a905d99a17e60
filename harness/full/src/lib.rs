//! Helpers shared by the checks of the file, mesher and command layers.
pub mod mesh;

use bugi::element::constraint::Constraint;
use bugi::element::material::{Material, AL6061, TEST};
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor};
use std::collections::BTreeMap;

/// What a mesh file says, read off an assemblage through its public accessors or written down.
#[derive(Clone, Debug, PartialEq)]
pub struct FileModel {
    pub material: String,
    /// 's'tress, strai'n' or 'a'xisymmetric, and the thickness
    pub cond: (char, f64),
    pub nodes: Vec<(f64, f64)>,
    pub elems: Vec<[usize; 3]>,
    /// one per node
    pub cons: Vec<Constraint>,
    pub forces: BTreeMap<usize, (f64, f64)>,
    pub dist: BTreeMap<(usize, usize), (f64, f64)>,
}

pub fn cond_of(c: Condition) -> (char, f64) {
    match c {
        Condition::PlaneStress(t) => ('s', t),
        Condition::PlaneStrain(t) => ('n', t),
        Condition::Axisymmetric => ('a', 0.0),
    }
}
pub fn real_cond(c: (char, f64)) -> Condition {
    match c.0 {
        's' => Condition::PlaneStress(c.1),
        'n' => Condition::PlaneStrain(c.1),
        _ => Condition::Axisymmetric,
    }
}
pub fn real_material(name: &str) -> Option<Material> {
    match name {
        "AL6061" => Some(AL6061),
        "TEST" => Some(TEST),
        _ => None,
    }
}

impl FileModel {
    pub fn of(e: &ElementAssemblage) -> Self {
        let m = e.material();
        // a material is what it is made of
        let same = real_material(m.name).map_or(false, |r| r.youngs == m.youngs && r.poisson == m.poisson && r.density == m.density);
        let mut cons = vec![Constraint::Free; e.node_count()];
        for (n, c) in e.constraints() {
            cons[n.into_idx()] = c;
        }
        FileModel {
            material: if same { m.name.to_string() } else { format!("{:?}", m) },
            cond: cond_of(e.condition()),
            nodes: e.nodes().iter().map(|p| (p[0], p[1])).collect(),
            elems: e.element_descriptors().into_iter().map(|d| d.into_parts().map(|n| n.into_idx())).collect(),
            cons,
            forces: e.conc_forces().into_iter().map(|(n, f)| (n.into_idx(), (f[0], f[1]))).collect(),
            dist: e.dist_forces().into_iter().map(|((a, b), f)| ((a.into_idx(), b.into_idx()), (f[0], f[1]))).collect(),
        }
    }
    pub fn build(&self) -> ElementAssemblage {
        let mut e = ElementAssemblage::new(real_material(&self.material).unwrap(), real_cond(self.cond));
        let ids = e.add_nodes(&self.nodes);
        for t in &self.elems {
            e.add_element(ElementDescriptor::new(t.map(|i| ids[i])));
        }
        for (i, c) in self.cons.iter().enumerate() {
            if *c != Constraint::Free {
                e.add_constraint(ids[i], *c);
            }
        }
        for (n, f) in &self.forces {
            e.add_conc_force(ids[*n], (*f).into());
        }
        for ((a, b), f) in &self.dist {
            e.add_dist_line_force(ids[*a], ids[*b], (*f).into());
        }
        e
    }
    /// why two models differ by more than the given decimals (None: they agree)
    pub fn differs(&self, o: &FileModel, node: f64, force: f64, thick: f64) -> Option<String> {
        let near = |a: f64, b: f64, h: f64| (a - b).abs() <= h * (1.0 + 1e-9) + 4.0 * f64::EPSILON * a.abs() || a == b;
        let near2 = |a: &(f64, f64), b: &(f64, f64), h: f64| near(a.0, b.0, h) && near(a.1, b.1, h);
        if self.material != o.material {
            return Some(format!("material {} / {}", self.material, o.material));
        }
        if self.cond.0 != o.cond.0 || !near(self.cond.1, o.cond.1, thick) {
            return Some(format!("condition {:?} / {:?}", self.cond, o.cond));
        }
        if self.nodes.len() != o.nodes.len() {
            return Some(format!("{} / {} nodes", self.nodes.len(), o.nodes.len()));
        }
        for (i, (a, b)) in self.nodes.iter().zip(&o.nodes).enumerate() {
            if !near2(a, b, node) {
                return Some(format!("node {}: {:?} / {:?}", i, a, b));
            }
        }
        if self.elems != o.elems {
            return Some(format!("elements {:?} / {:?}", self.elems, o.elems));
        }
        if self.cons != o.cons {
            return Some(format!("constraints {:?} / {:?}", self.cons, o.cons));
        }
        if self.forces.keys().ne(o.forces.keys()) || !self.forces.iter().all(|(k, f)| near2(f, &o.forces[k], force)) {
            return Some(format!("forces {:?} / {:?}", self.forces, o.forces));
        }
        if self.dist.keys().ne(o.dist.keys()) || !self.dist.iter().all(|(k, f)| near2(f, &o.dist[k], force)) {
            return Some(format!("distributed forces {:?} / {:?}", self.dist, o.dist));
        }
        None
    }
}

/// What an independent reading of a file says about it.
#[derive(Clone, Debug, PartialEq)]
pub enum Reading<T> {
    Accept(T),
    Reject(&'static str),
    /// the format does not say
    Unspecified(&'static str),
}
use Reading::*;

pub enum Num {
    Value(f64),
    Special,
    Bad,
}
/// [sign] digits [. digits] [e [sign] digits]
pub fn number(s: &str) -> Num {
    let low = s.trim_start_matches(['+', '-']).to_ascii_lowercase();
    if ["inf", "infinity", "nan"].iter().any(|k| low.starts_with(k)) {
        return Num::Special;
    }
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let ints = i - d0;
    let mut fracs = 0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let f0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        fracs = i - f0;
    }
    if ints + fracs == 0 {
        return Num::Bad;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let e0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == e0 {
            return Num::Bad;
        }
    }
    if i != b.len() {
        return Num::Bad;
    }
    match s.parse::<f64>() {
        Ok(x) if x.is_finite() => Num::Value(x),
        Ok(_) => Num::Special,
        Err(_) => Num::Bad,
    }
}
fn index(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}
pub fn constraint(s: &str) -> Reading<Constraint> {
    match s {
        "x" => Accept(Constraint::XFixed),
        "y" => Accept(Constraint::YFixed),
        "xy" => Accept(Constraint::XYFixed),
        _ => match s.strip_prefix("angle:").map(number) {
            Some(Num::Value(a)) => Accept(Constraint::AngleFixed(a)),
            Some(Num::Special) => Unspecified("angle not finite"),
            _ => Reject("constraint"),
        },
    }
}

type R<T> = Result<T, Reading<FileModel>>;
/// `a/b` with exactly two numbers
fn pair(s: &str) -> R<(f64, f64)> {
    let parts: Vec<Num> = s.split('/').map(number).collect();
    if parts.iter().any(|p| matches!(p, Num::Bad)) {
        return Err(Reject("coordinates"));
    }
    if parts.iter().any(|p| matches!(p, Num::Special)) {
        return Err(Unspecified("numbers that are not finite"));
    }
    let v: Vec<f64> = parts.iter().map(|p| if let Num::Value(x) = p { *x } else { unreachable!() }).collect();
    match v.len() {
        2 => Ok((v[0], v[1])),
        1 | 3 => Err(Unspecified("points of other dimensions")),
        _ => Err(Reject("coordinates")),
    }
}

/// An independent, line-based reading of the mesh file format.
pub fn read_bmsh(text: &str) -> Reading<FileModel> {
    match bmsh(text) {
        Ok(m) => Accept(m),
        Err(r) => r,
    }
}
fn bmsh(text: &str) -> R<FileModel> {
    let lines: Vec<&str> = text.split('\n').filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let mut at = 0;
    let mut next = || -> R<&str> {
        let l = lines.get(at).copied().ok_or(Reject("file ends early"))?;
        at += 1;
        Ok(l)
    };
    // what the format does not say only matters in a file that is otherwise well formed
    let mut vague: Option<&'static str> = None;
    macro_rules! soft {
        ($e:expr, $default:expr) => {
            match $e {
                Ok(x) => x,
                Err(Unspecified(w)) => {
                    vague = Some(w);
                    $default
                }
                Err(e) => return Err(e),
            }
        };
    }
    let expect = |l: &str, want: &str| if l == want { Ok(()) } else { Err(Reject("section marker")) };
    expect(next()?, "$Header")?;
    let v = index(next()?.strip_prefix("version ").ok_or(Reject("version"))?).ok_or(Reject("version"))?;
    if v != 1 {
        return Err(Reject("version"));
    }
    let material = next()?.strip_prefix("material ").ok_or(Reject("material"))?;
    if real_material(material).is_none() {
        return Err(Reject("material"));
    }
    let c = next()?.strip_prefix("condition ").ok_or(Reject("condition"))?;
    let thick = |s: &str| match number(s) {
        Num::Value(x) => Ok(x),
        Num::Special => Err(Unspecified("thickness not finite")),
        Num::Bad => Err(Reject("thickness")),
    };
    let cond = if c == "axisymmetric" {
        ('a', 0.0)
    } else if let Some(t) = c.strip_prefix("planestress ") {
        ('s', soft!(thick(t), 1.0))
    } else if let Some(t) = c.strip_prefix("planestrain ") {
        ('n', soft!(thick(t), 1.0))
    } else {
        return Err(Reject("condition"));
    };
    expect(next()?, "$EndHeader")?;
    let count = |l: &str| l.strip_prefix("count ").and_then(index).ok_or(Reject("count"));

    expect(next()?, "$Nodes")?;
    let mut nodes = vec![];
    for i in 0..count(next()?)? {
        let (k, p) = next()?.split_once(' ').ok_or(Reject("node"))?;
        if index(k) != Some(i) {
            return Err(Reject("node number"));
        }
        nodes.push(soft!(pair(p), (0.0, 0.0)));
    }
    expect(next()?, "$EndNodes")?;

    expect(next()?, "$Elements")?;
    let mut elems = vec![];
    let known = |s: &str| match index(s) {
        Some(x) if (x as usize) < nodes.len() && x < 1 << 60 => Ok(x as usize),
        _ => Err(Reject("node reference")),
    };
    for i in 0..count(next()?)? {
        let (k, p) = next()?.split_once(' ').ok_or(Reject("element"))?;
        if index(k) != Some(i) {
            return Err(Reject("element number"));
        }
        let v: Vec<usize> = p.split('/').map(known).collect::<Result<_, _>>()?;
        if v.len() != 3 {
            return Err(Reject("element corners"));
        }
        let (a, b, c) = (nodes[v[0]], nodes[v[1]], nodes[v[2]]);
        if (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) == 0.0 {
            vague = Some("element without area");
        }
        elems.push([v[0], v[1], v[2]]);
    }
    expect(next()?, "$EndElements")?;

    expect(next()?, "$Constraints")?;
    let mut cons = vec![Constraint::Free; nodes.len()];
    for _ in 0..count(next()?)? {
        let (k, c) = next()?.split_once(' ').ok_or(Reject("constraint"))?;
        let k = known(k)?;
        let c = match constraint(c) {
            Accept(c) => c,
            Reject(r) => return Err(Reject(r)),
            Unspecified(w) => {
                vague = Some(w);
                Constraint::XFixed
            }
        };
        use Constraint::*;
        cons[k] = match (cons[k], c) {
            (Free, c) => c,
            (a, b) if a == b => a,
            (XFixed | YFixed | XYFixed, XFixed | YFixed | XYFixed) => XYFixed,
            _ => {
                vague = Some("angles on constrained nodes");
                c
            }
        };
    }
    expect(next()?, "$EndConstraints")?;

    expect(next()?, "$Forces")?;
    let mut forces = BTreeMap::new();
    for _ in 0..count(next()?)? {
        let (k, f) = next()?.split_once(' ').ok_or(Reject("force"))?;
        let f = soft!(pair(f), (0.0, 0.0));
        if forces.insert(known(k)?, f).is_some() {
            vague = Some("two forces on a node");
        }
    }
    expect(next()?, "$EndForces")?;

    expect(next()?, "$DistForces")?;
    let mut dist = BTreeMap::new();
    for _ in 0..count(next()?)? {
        let w: Vec<&str> = next()?.splitn(3, ' ').collect();
        if w.len() != 3 {
            return Err(Reject("distributed force"));
        }
        let f = soft!(pair(w[2]), (0.0, 0.0));
        if dist.insert((known(w[0])?, known(w[1])?), f).is_some() {
            vague = Some("two forces on an edge");
        }
    }
    expect(next()?, "$EndDistForces")?;
    if at != lines.len() {
        return Err(Reject("more after the end"));
    }
    match vague {
        Some(w) => Err(Unspecified(w)),
        None => Ok(FileModel { material: material.into(), cond, nodes, elems, cons, forces, dist }),
    }
}

pub const MESH_TRIS: [(&[(f64, f64)], &[[usize; 3]]); 4] = [
    (&[(1.0, 0.0), (3.0, 0.5), (1.5, 2.0)], &[[0, 1, 2]]),
    (&[(1.0, 0.0), (3.0, 0.0), (3.2, 1.0), (1.0, 1.5)], &[[0, 1, 2], [0, 2, 3]]),
    (&[(1.0, 0.0), (3.0, 0.0), (3.0, 2.0), (1.0, 2.0), (2.1, 0.9)], &[[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]),
    (&[(-1.0, 0.0), (-1.0, 1.0), (2.0, 0.1), (2.0, 1.2), (3.0, 0.0), (3.1, 1.0), (9.0, 9.0)], &[[0, 2, 1], [1, 2, 3], [2, 4, 3], [3, 4, 5]]),
];
pub fn plain(kind: usize) -> FileModel {
    let (n, t) = MESH_TRIS[kind];
    FileModel {
        material: "AL6061".into(),
        cond: ('s', 0.5),
        nodes: n.to_vec(),
        elems: t.to_vec(),
        cons: vec![Constraint::Free; n.len()],
        forces: BTreeMap::new(),
        dist: BTreeMap::new(),
    }
}

pub type P = (f64, f64);
/// a boundary read off through its public accessors
#[derive(Clone, Debug)]
pub struct Bound {
    pub vertices: Vec<P>,
    /// directed
    pub walls: Vec<(P, P)>,
    pub cond: Option<(char, f64)>,
    pub material: Option<String>,
    /// end points in a canonical order
    pub forces: Vec<(P, P, P)>,
    /// constrained vertices only
    pub cons: Vec<(P, Constraint)>,
}
pub fn key(p: P) -> P {
    (p.0 + 0.0, p.1 + 0.0)
}
pub fn less(a: P, b: P) -> bool {
    a.0 < b.0 || (a.0 == b.0 && a.1 < b.1)
}
pub fn undirected(a: P, b: P) -> (P, P) {
    let (a, b) = (key(a), key(b));
    if less(b, a) {
        (b, a)
    } else {
        (a, b)
    }
}
fn order(a: &P, b: &P) -> std::cmp::Ordering {
    a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal)
}
impl Bound {
    pub fn sorted(mut self) -> Self {
        self.vertices.iter_mut().for_each(|p| *p = key(*p));
        self.vertices.sort_by(order);
        self.walls.iter_mut().for_each(|w| *w = (key(w.0), key(w.1)));
        self.walls.sort_by(|a, b| order(&a.0, &b.0).then(order(&a.1, &b.1)));
        self.forces.iter_mut().for_each(|f| {
            let (a, b) = undirected(f.0, f.1);
            *f = (a, b, key(f.2))
        });
        self.forces.sort_by(|a, b| order(&a.0, &b.0).then(order(&a.1, &b.1)));
        self.cons.retain(|c| c.1 != Constraint::Free);
        self.cons.iter_mut().for_each(|c| c.0 = key(c.0));
        self.cons.sort_by(|a, b| order(&a.0, &b.0));
        self
    }
    pub fn of(b: &bugi::mesher::bounds::PlaneBoundary) -> Self {
        use bugi::mesher::bounds::Segment;
        let vertices: Vec<P> = b.all_vertices().map(|v| Segment(*v, *v).get().0.into()).collect();
        let walls = if vertices.is_empty() {
            vec![]
        } else {
            b.all_walls()
                .map(|s| {
                    let (p, q) = s.get();
                    (p.into(), q.into())
                })
                .collect()
        };
        Bound {
            vertices,
            walls,
            cond: b.condition().map(cond_of),
            material: b.material().map(|m| m.name.to_string()),
            forces: b
                .all_distributed_forces()
                .into_iter()
                .map(|(s, f)| {
                    let (p, q) = s.get();
                    (p.into(), q.into(), f.into())
                })
                .collect(),
            cons: b.all_constraints().into_iter().map(|(v, c)| (Segment(v, v).get().0.into(), c)).collect(),
        }
        .sorted()
    }
    pub fn differs(&self, o: &Bound) -> Option<String> {
        macro_rules! cmp {
            ($($f:ident),*) => { $(if self.$f != o.$f { return Some(format!("{}: {:?} / {:?}", stringify!($f), self.$f, o.$f)); })* }
        }
        cmp!(vertices, walls, cond, material, forces, cons);
        None
    }
}

/// both constraints; None where the format does not say (angles mixed with others)
pub fn both(a: Constraint, b: Constraint) -> Option<Constraint> {
    use Constraint::*;
    match (a, b) {
        (Free, c) | (c, Free) => Some(c),
        (a, b) if a == b => Some(a),
        (XFixed | YFixed | XYFixed, XFixed | YFixed | XYFixed) => Some(XYFixed),
        _ => None,
    }
}

/// twice the signed area of abc
pub fn orient(a: P, b: P, c: P) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
/// do the closed segments touch at all?
pub fn touch(a: P, b: P, c: P, d: P) -> bool {
    let on = |p: P, q: P, r: P| orient(p, q, r) == 0.0 && r.0 >= p.0.min(q.0) && r.0 <= p.0.max(q.0) && r.1 >= p.1.min(q.1) && r.1 <= p.1.max(q.1);
    let (s, t, u, v) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    (s * t < 0.0 && u * v < 0.0) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)
}
/// do the insides of two segments meet in one point? (certain only where the signs are)
pub fn cross(a: P, b: P, c: P, d: P) -> bool {
    let sure = |p: P, q: P, r: P| {
        let o = orient(p, q, r);
        let size = [p, q, r].iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
        if o.abs() > 1e-12 * size * size { o.signum() } else { 0.0 }
    };
    sure(a, b, c) * sure(a, b, d) < 0.0 && sure(c, d, a) * sure(c, d, b) < 0.0
}
/// do any two walls cross?
pub fn crossing(rings: &[Vec<P>]) -> bool {
    let s: Vec<(P, P)> = rings.iter().flat_map(|r| (0..r.len()).map(move |i| (r[i], r[(i + 1) % r.len()]))).collect();
    (0..s.len()).any(|x| (0..x).any(|y| cross(s[x].0, s[x].1, s[y].0, s[y].1)))
}
/// simple rings that stay clear of each other
pub fn well_formed(rings: &[Vec<P>]) -> bool {
    let mut segs = vec![];
    for (k, r) in rings.iter().enumerate() {
        let n = r.len();
        if n < 3 {
            return false;
        }
        for i in 0..n {
            segs.push((k, i, n, r[i], r[(i + 1) % n]));
        }
    }
    for x in 0..segs.len() {
        let (k, i, n, a, b) = segs[x];
        if a == b {
            return false;
        }
        for y in x + 1..segs.len() {
            let (l, j, _, c, d) = segs[y];
            if k == l && (j == i + 1 || (i == 0 && j == n - 1)) {
                // neighbours: may continue straight on, may not fold back
                let (p, q, r) = if j == i + 1 { (a, b, d) } else { (c, a, b) };
                if orient(p, q, r) == 0.0 && (p.0 - q.0) * (r.0 - q.0) + (p.1 - q.1) * (r.1 - q.1) > 0.0 {
                    return false;
                }
                if n == 3 && orient(p, q, r) == 0.0 {
                    return false;
                }
                continue;
            }
            if touch(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

/// An independent, line-based reading of the boundary file format.
pub fn read_bbnd(text: &str) -> Reading<(Bound, Vec<(P, P, Constraint)>)> {
    match bbnd(text) {
        Ok(b) => Accept(b),
        Err(Ok(w)) => Reject(w),
        Err(Err(w)) => Unspecified(w),
    }
}
fn label(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric())
}
fn bbnd(text: &str) -> Result<(Bound, Vec<(P, P, Constraint)>), Result<&'static str, &'static str>> {
    let mut vague: Option<&'static str> = None;
    let lines: Vec<&str> = if text.is_empty() { vec![] } else { text.split('\n').collect() };
    let mut rings: Vec<Vec<P>> = vec![];
    let mut labels: BTreeMap<&str, P> = BTreeMap::new();
    let (mut cond, mut material) = (None, None);
    let (mut forces, mut cons): (Vec<(&str, &str, P)>, Vec<(&str, &str, Constraint)>) = (vec![], vec![]);
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        i += 1;
        macro_rules! num {
            ($s:expr) => {
                match number($s) {
                    Num::Value(x) => x,
                    Num::Special => {
                        vague = Some("numbers that are not finite");
                        1.0
                    }
                    Num::Bad => return Err(Ok("number")),
                }
            };
        }
        if l.is_empty() {
            // neither promised nor ruled out
            vague = Some("blank line");
        } else if l == "polygon" {
            let mut ring = vec![];
            loop {
                let v = *lines.get(i).ok_or(Ok("polygon without end"))?;
                i += 1;
                if v == "end" {
                    break;
                }
                let w: Vec<&str> = v.split(' ').collect();
                if w.len() != 2 && w.len() != 3 {
                    return Err(Ok("vertex"));
                }
                let p = (num!(w[0]), num!(w[1]));
                if w.len() == 3 {
                    if !label(w[2]) {
                        return Err(Ok("label"));
                    }
                    if labels.insert(w[2], p).is_some() {
                        vague = Some("label used twice");
                    }
                }
                ring.push(p);
            }
            if ring.is_empty() {
                return Err(Ok("empty polygon"));
            }
            rings.push(ring);
        } else if let Some(c) = l.strip_prefix("condition ") {
            let c = if c == "axisymmetric" {
                ('a', 0.0)
            } else if let Some(t) = c.strip_prefix("planestress ") {
                ('s', num!(t))
            } else if let Some(t) = c.strip_prefix("planestrain ") {
                ('n', num!(t))
            } else {
                return Err(Ok("condition"));
            };
            if cond.replace(c).is_some() {
                vague = Some("two conditions");
            }
        } else if let Some(m) = l.strip_prefix("material ") {
            if real_material(m).is_none() {
                return Err(Ok("material"));
            }
            if material.replace(m.to_string()).is_some() {
                vague = Some("two materials");
            }
        } else if let Some(r) = l.strip_prefix("distributed_force ") {
            let w: Vec<&str> = r.split(' ').collect();
            if w.len() != 4 || !label(w[0]) || !label(w[1]) {
                return Err(Ok("distributed force"));
            }
            forces.push((w[0], w[1], (num!(w[2]), num!(w[3]))));
        } else if let Some(r) = l.strip_prefix("distributed_constraint ") {
            let w: Vec<&str> = r.splitn(3, ' ').collect();
            if w.len() != 3 || !label(w[0]) || !label(w[1]) {
                return Err(Ok("distributed constraint"));
            }
            match constraint(w[2]) {
                Accept(c) => cons.push((w[0], w[1], c)),
                Reject(r) => return Err(Ok(r)),
                Unspecified(r) => vague = Some(r),
            }
        } else {
            return Err(Ok("unknown line"));
        }
    }
    let find = |l: &str| labels.get(l).copied().ok_or(Ok("undefined label"));
    let mut b = Bound { vertices: rings.concat(), walls: vec![], cond, material, forces: vec![], cons: vec![] };
    let mut pieces = vec![];
    for r in &rings {
        for k in 0..r.len() {
            b.walls.push((r[k], r[(k + 1) % r.len()]));
        }
    }
    let walls: Vec<(P, P)> = b.walls.iter().map(|w| undirected(w.0, w.1)).collect();
    let mut seen: Vec<(P, P)> = vec![];
    for (x, y, f) in forces {
        let (p, q) = (find(x)?, find(y)?);
        if !walls.contains(&undirected(p, q)) {
            vague = Some("a load that is not on a segment");
        }
        if seen.contains(&undirected(p, q)) {
            vague = Some("two loads on a segment");
        }
        seen.push(undirected(p, q));
        b.forces.push((p, q, f));
    }
    seen.clear();
    for (x, y, c) in cons {
        let (p, q) = (find(x)?, find(y)?);
        if !walls.contains(&undirected(p, q)) {
            vague = Some("a constraint that is not on a segment");
        }
        if seen.contains(&undirected(p, q)) {
            vague = Some("two constraints on a segment");
        }
        seen.push(undirected(p, q));
        for v in [p, q] {
            match b.cons.iter_mut().find(|z| z.0 == v) {
                Some(z) => match both(z.1, c) {
                    Some(c) => z.1 = c,
                    None => vague = Some("angles at a corner with other constraints"),
                },
                None => b.cons.push((v, c)),
            }
        }
        pieces.push((p, q, c));
    }
    if vague.is_none() && crossing(&rings) {
        return Err(Ok("walls that cross"));
    }
    if !well_formed(&rings) {
        vague = Some("boundary that is not made of simple polygons");
    }
    match vague {
        Some(w) => Err(Err(w)),
        None => Ok((b.sorted(), pieces)),
    }
}
