//! An independent, dense, textbook finite element model (constant-strain triangles) to compare with.
use bugi::element::constraint::Constraint;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::{Deformation, ElementAssemblage, ElementDescriptor, NodeId};
use mcheck::la::{self, M};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sup {
    Free,
    X,
    Y,
    XY,
    Angle(f64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cond {
    Stress(f64),
    Strain(f64),
    Axi,
}
impl Cond {
    pub fn real(self) -> Condition {
        match self {
            Cond::Stress(t) => Condition::PlaneStress(t),
            Cond::Strain(t) => Condition::PlaneStrain(t),
            Cond::Axi => Condition::Axisymmetric,
        }
    }
    pub fn plane(self) -> bool {
        self != Cond::Axi
    }
}
impl Sup {
    pub fn real(self) -> Constraint {
        match self {
            Sup::Free => Constraint::Free,
            Sup::X => Constraint::XFixed,
            Sup::Y => Constraint::YFixed,
            Sup::XY => Constraint::XYFixed,
            Sup::Angle(a) => Constraint::AngleFixed(a),
        }
    }
    /// the directions in which the node may move
    pub fn free(self) -> Vec<(f64, f64)> {
        match self {
            Sup::Free => vec![(1.0, 0.0), (0.0, 1.0)],
            Sup::X => vec![(0.0, 1.0)],
            Sup::Y => vec![(1.0, 0.0)],
            Sup::XY => vec![],
            Sup::Angle(a) => vec![(-a.sin(), a.cos())],
        }
    }
}

/// stress = C * strain, strain = [xx, yy, xy (engineering), (zz)]
pub fn c_matrix(cond: Cond, e: f64, nu: f64) -> M {
    match cond {
        Cond::Stress(_) => {
            let f = e / (1.0 - nu * nu);
            vec![vec![f, f * nu, 0.0], vec![f * nu, f, 0.0], vec![0.0, 0.0, e / (2.0 * (1.0 + nu))]]
        }
        Cond::Strain(_) | Cond::Axi => {
            let l = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
            let g = e / (2.0 * (1.0 + nu));
            let d = l + 2.0 * g;
            if cond == Cond::Axi {
                vec![vec![d, l, 0.0, l], vec![l, d, 0.0, l], vec![0.0, 0.0, g, 0.0], vec![l, l, 0.0, d]]
            } else {
                vec![vec![d, l, 0.0], vec![l, d, 0.0], vec![0.0, 0.0, g]]
            }
        }
    }
}

pub fn area2(p: [(f64, f64); 3]) -> f64 {
    (p[1].0 - p[0].0) * (p[2].1 - p[0].1) - (p[1].1 - p[0].1) * (p[2].0 - p[0].0)
}

/// strain interpolation at the point with barycentric coordinates `l`
pub fn b_matrix(cond: Cond, p: [(f64, f64); 3], l: [f64; 3]) -> M {
    let a2 = area2(p);
    let rows = if cond == Cond::Axi { 4 } else { 3 };
    let mut b = la::zeros(rows, 6);
    let r: f64 = (0..3).map(|i| l[i] * p[i].0).sum();
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let (dx, dy) = ((p[j].1 - p[k].1) / a2, (p[k].0 - p[j].0) / a2);
        b[0][2 * i] = dx;
        b[1][2 * i + 1] = dy;
        b[2][2 * i] = dy;
        b[2][2 * i + 1] = dx;
        if cond == Cond::Axi {
            b[3][2 * i] = if r == 0.0 { dx } else { l[i] / r };
        }
    }
    b
}

pub fn elem_k(cond: Cond, mat: &Material, p: [(f64, f64); 3]) -> M {
    let c = c_matrix(cond, mat.youngs, mat.poisson);
    let a = area2(p).abs() / 2.0;
    let mut k = la::zeros(6, 6);
    // one point is exact for constant strain; axisymmetric: the degree-2 rule with 3 inner points
    let pts: Vec<([f64; 3], f64)> = match cond {
        Cond::Stress(t) | Cond::Strain(t) => vec![([1.0 / 3.0; 3], a * t)],
        Cond::Axi => (0..3)
            .map(|i| {
                let mut l = [1.0 / 6.0; 3];
                l[i] = 2.0 / 3.0;
                (l, a / 3.0 * (0..3).map(|j| l[j] * p[j].0).sum::<f64>())
            })
            .collect(),
    };
    for (l, w) in pts {
        let b = b_matrix(cond, p, l);
        let x = la::mul(&la::transpose(&b), &la::mul(&c, &b));
        for i in 0..6 {
            for j in 0..6 {
                k[i][j] += w * x[i][j]
            }
        }
    }
    k
}

/// consistent mass of a plane triangle
pub fn elem_m(t: f64, mat: &Material, p: [(f64, f64); 3]) -> M {
    let f = mat.density * t * area2(p).abs() / 24.0;
    let mut m = la::zeros(6, 6);
    for i in 0..3 {
        for j in 0..3 {
            for d in 0..2 {
                m[2 * i + d][2 * j + d] = if i == j { 2.0 * f } else { f };
            }
        }
    }
    m
}

#[derive(Clone, Debug)]
pub struct Model {
    pub nodes: Vec<(f64, f64)>,
    pub tris: Vec<[usize; 3]>,
    pub cond: Cond,
    pub mat: Material,
    pub sup: Vec<Sup>,
    pub point: Vec<(usize, (f64, f64))>,
    pub line: Vec<(usize, usize, (f64, f64))>,
}

impl Model {
    pub fn new(nodes: Vec<(f64, f64)>, tris: Vec<[usize; 3]>, cond: Cond, mat: Material) -> Self {
        let sup = vec![Sup::Free; nodes.len()];
        Model { nodes, tris, cond, mat, sup, point: vec![], line: vec![] }
    }
    pub fn pts(&self, t: [usize; 3]) -> [(f64, f64); 3] {
        [self.nodes[t[0]], self.nodes[t[1]], self.nodes[t[2]]]
    }
    fn assemble(&self, f: impl Fn([(f64, f64); 3]) -> M) -> M {
        let n = 2 * self.nodes.len();
        let mut k = la::zeros(n, n);
        for t in &self.tris {
            let e = f(self.pts(*t));
            for i in 0..6 {
                for j in 0..6 {
                    k[2 * t[i / 2] + i % 2][2 * t[j / 2] + j % 2] += e[i][j];
                }
            }
        }
        k
    }
    pub fn k(&self) -> M {
        self.assemble(|p| elem_k(self.cond, &self.mat, p))
    }
    pub fn m(&self) -> M {
        match self.cond {
            Cond::Stress(t) | Cond::Strain(t) => self.assemble(|p| elem_m(t, &self.mat, p)),
            Cond::Axi => panic!("not specified"),
        }
    }
    pub fn load(&self) -> Vec<f64> {
        let mut r = vec![0.0; 2 * self.nodes.len()];
        for &(n, f) in &self.point {
            r[2 * n] += f.0;
            r[2 * n + 1] += f.1;
        }
        for &(a, b, f) in &self.line {
            let (p, q) = (self.nodes[a], self.nodes[b]);
            let l = ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt();
            for n in [a, b] {
                r[2 * n] += f.0 * l / 2.0;
                r[2 * n + 1] += f.1 * l / 2.0;
            }
        }
        r
    }
    /// columns: the independent motions the supports allow
    pub fn basis(&self) -> M {
        let mut cols: Vec<Vec<f64>> = vec![];
        for (i, s) in self.sup.iter().enumerate() {
            for d in s.free() {
                let mut c = vec![0.0; 2 * self.nodes.len()];
                c[2 * i] = d.0;
                c[2 * i + 1] = d.1;
                cols.push(c);
            }
        }
        cols
    }
    fn reduce(t: &M, k: &M) -> M {
        // t holds columns as rows
        la::mul(&la::mul(t, k), &la::transpose(t))
    }
    pub fn reduced_k(&self) -> M {
        Self::reduce(&self.basis(), &self.k())
    }
    /// displacements [x0, y0, x1, ...], or None when the model is not properly supported
    pub fn solve(&self) -> Option<Vec<f64>> {
        let t = self.basis();
        if t.is_empty() {
            return Some(vec![0.0; 2 * self.nodes.len()]);
        }
        let kr = Self::reduce(&t, &self.k());
        la::cholesky(&kr)?;
        let w = la::jacobi(&kr).0;
        let (lo, hi) = w.iter().fold((f64::MAX, 0.0f64), |a, x| (a.0.min(*x), a.1.max(*x)));
        if lo < 1e-9 * hi {
            return None;
        }
        let r = la::mulv(&t, &self.load());
        let q = la::solve(&kr, &r)?;
        Some(la::mulv(&la::transpose(&t), &q))
    }
    /// as `solve`, for models of some hundred nodes; None also when the supports hold it too softly to judge
    pub fn solve_big(&self) -> Option<Vec<f64>> {
        let mut at: Vec<(usize, (f64, f64))> = vec![];
        for (i, s) in self.sup.iter().enumerate() {
            for d in s.free() {
                at.push((i, d))
            }
        }
        let n = at.len();
        let (k, load) = (self.k(), self.load());
        let kr: M = at
            .iter()
            .map(|&(i, d)| at.iter().map(|&(j, e)| d.0 * (k[2 * i][2 * j] * e.0 + k[2 * i][2 * j + 1] * e.1) + d.1 * (k[2 * i + 1][2 * j] * e.0 + k[2 * i + 1][2 * j + 1] * e.1)).collect())
            .collect();
        let l = la::cholesky(&kr)?;
        let lt = la::transpose(&l);
        let solve = |b: &[f64]| {
            let mut y = vec![0.0; n];
            for i in 0..n {
                let s: f64 = l[i][..i].iter().zip(&y).map(|(a, b)| a * b).sum();
                y[i] = (b[i] - s) / l[i][i]
            }
            for i in (0..n).rev() {
                let s: f64 = (i + 1..n).map(|j| lt[i][j] * y[j]).sum();
                y[i] = (y[i] - s) / l[i][i]
            }
            y
        };
        // the softest motion, by inverse iteration
        let mut v: Vec<f64> = (0..n).map(|i| 1.0 + (i * 7 % 5) as f64).collect();
        let mut soft = f64::INFINITY;
        for _ in 0..12 {
            let w = solve(&v);
            soft = la::norm(&v) / la::norm(&w);
            let s = la::norm(&w);
            v = w.iter().map(|x| x / s).collect();
        }
        if soft < 1e-8 * la::normf(&kr) {
            return None;
        }
        let q = solve(&at.iter().map(|&(i, d)| d.0 * load[2 * i] + d.1 * load[2 * i + 1]).collect::<Vec<_>>());
        let mut u = vec![0.0; 2 * self.nodes.len()];
        for (x, (i, d)) in q.iter().zip(&at) {
            u[2 * i] += x * d.0;
            u[2 * i + 1] += x * d.1;
        }
        Some(u)
    }
    /// every (eigenvalue, mode shape), ascending
    pub fn modes(&self) -> Option<(Vec<f64>, Vec<Vec<f64>>)> {
        let t = self.basis();
        let (kr, mr) = (Self::reduce(&t, &self.k()), Self::reduce(&t, &self.m()));
        la::cholesky(&kr)?;
        let (w, v) = la::gen_eig(&kr, &mr)?;
        if w[0] < 1e-9 * w[w.len() - 1] {
            return None;
        }
        let v = la::transpose(&v);
        Some((w, v.iter().map(|q| la::mulv(&la::transpose(&t), q)).collect()))
    }
    /// stress per node: [xx, yy, xy, zz], averaged over the elements that meet there
    pub fn stresses(&self, u: &[f64]) -> Vec<Option<[f64; 4]>> {
        let c = c_matrix(self.cond, self.mat.youngs, self.mat.poisson);
        let mut sum = vec![([0.0; 4], 0usize); self.nodes.len()];
        for t in &self.tris {
            let ue: Vec<f64> = (0..6).map(|i| u[2 * t[i / 2] + i % 2]).collect();
            for v in 0..3 {
                let mut l = [0.0; 3];
                l[v] = 1.0;
                let s = la::mulv(&c, &la::mulv(&b_matrix(self.cond, self.pts(*t), l), &ue));
                let z = match self.cond {
                    Cond::Stress(_) => 0.0,
                    Cond::Strain(_) => self.mat.poisson * (s[0] + s[1]),
                    Cond::Axi => s[3],
                };
                let e = &mut sum[t[v]];
                for (k, x) in [s[0], s[1], s[2], z].iter().enumerate() {
                    e.0[k] += x
                }
                e.1 += 1;
            }
        }
        sum.into_iter().map(|(s, n)| if n == 0 { None } else { Some(s.map(|x| x / n as f64)) }).collect()
    }
    /// the same model with node i renamed to p[i]
    pub fn renumbered(&self, p: &[usize]) -> Model {
        let mut m = self.clone();
        for i in 0..p.len() {
            m.nodes[p[i]] = self.nodes[i];
            m.sup[p[i]] = self.sup[i];
        }
        m.tris.iter_mut().flatten().for_each(|x| *x = p[*x]);
        m.point.iter_mut().for_each(|x| x.0 = p[x.0]);
        m.line.iter_mut().for_each(|x| {
            x.0 = p[x.0];
            x.1 = p[x.1]
        });
        m
    }
    pub fn build(&self) -> ElementAssemblage {
        let mut e = ElementAssemblage::new(self.mat, self.cond.real());
        let ids = e.add_nodes(&self.nodes);
        for t in &self.tris {
            e.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
        }
        for (i, s) in self.sup.iter().enumerate() {
            if *s != Sup::Free {
                e.add_constraint(ids[i], s.real());
            }
        }
        for &(n, f) in &self.point {
            e.add_conc_force(ids[n], f.into());
        }
        for &(a, b, f) in &self.line {
            e.add_dist_line_force(ids[a], ids[b], f.into());
        }
        e
    }
    /// every edge of the mesh once, and how many triangles it belongs to
    pub fn edges(&self) -> Vec<(usize, usize, usize)> {
        let mut v: Vec<(usize, usize, usize)> = vec![];
        let mut at = std::collections::BTreeMap::new();
        for t in &self.tris {
            for i in 0..3 {
                let (a, b) = (t[i].min(t[(i + 1) % 3]), t[i].max(t[(i + 1) % 3]));
                let k = *at.entry((a, b)).or_insert(v.len());
                if k == v.len() {
                    v.push((a, b, 1));
                } else {
                    v[k].2 += 1;
                }
            }
        }
        v
    }
}

/// displacements [x0, y0, x1, ...] of a deformation
pub fn displacements(d: &Deformation, nodes: &[(f64, f64)]) -> Vec<f64> {
    let s = (2.0f64).powi(200);
    d.displaced_nodes(s).iter().zip(nodes).flat_map(|(p, n)| [(p[0] - n.0) / s, (p[1] - n.1) / s]).collect()
}

pub fn nid(i: usize) -> NodeId {
    NodeId::new(i)
}

/// relative difference of two vectors
pub fn apart(a: &[f64], b: &[f64]) -> f64 {
    if a.len() != b.len() || !la::finite(a) {
        return f64::INFINITY;
    }
    let d: Vec<f64> = a.iter().zip(b).map(|(x, y)| x - y).collect();
    la::norm(&d) / la::norm(b).max(1e-300)
}

/// meshes with their node positions and triangles (counter-clockwise)
pub fn mesh(kind: usize) -> (Vec<(f64, f64)>, Vec<[usize; 3]>) {
    match kind {
        0 => (vec![(1.0, 0.0), (3.0, 0.5), (1.5, 2.0)], vec![[0, 1, 2]]),
        1 => (vec![(1.0, 0.0), (3.0, 0.0), (3.2, 1.0), (1.0, 1.5)], vec![[0, 1, 2], [0, 2, 3]]),
        // a fan around a centre
        2 => (vec![(1.0, 0.0), (3.0, 0.0), (3.0, 2.0), (1.0, 2.0), (2.1, 0.9)], vec![[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]),
        // a strip
        3 => (vec![(1.0, 0.0), (1.0, 1.0), (2.0, 0.1), (2.0, 1.2), (3.0, 0.0), (3.1, 1.0)], vec![[0, 2, 1], [1, 2, 3], [2, 4, 3], [3, 4, 5]]),
        // two triangles that share one vertex
        4 => (vec![(1.0, 0.0), (2.0, 0.0), (1.0, 1.0), (3.0, 0.5), (2.5, 1.5)], vec![[0, 1, 2], [1, 3, 4]]),
        // an L
        5 => (
            vec![(1.0, 0.0), (2.0, 0.0), (3.0, 0.0), (1.0, 1.0), (2.0, 1.0), (3.0, 1.0), (1.0, 2.0), (2.0, 2.0)],
            vec![[0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4], [3, 4, 7], [3, 7, 6]],
        ),
        // a ring around a square hole
        _ => (
            vec![(1.0, 0.0), (4.0, 0.0), (4.0, 3.0), (1.0, 3.0), (2.0, 1.0), (3.0, 1.0), (3.0, 2.0), (2.0, 2.0)],
            vec![[0, 1, 5], [0, 5, 4], [1, 2, 6], [1, 6, 5], [2, 3, 7], [2, 7, 6], [3, 0, 4], [3, 4, 7]],
        ),
    }
}
pub const MESHES: usize = 7;
/// a structured grid, with the diagonal of cell c leaning the way bit c of `flips` says
pub fn grid(nx: usize, ny: usize, flips: u64) -> (Vec<(f64, f64)>, Vec<[usize; 3]>) {
    let id = |i: usize, j: usize| j * (nx + 1) + i;
    let nodes = (0..=ny).flat_map(|j| (0..=nx).map(move |i| (1.0 + i as f64, 0.75 * j as f64))).collect();
    let mut tris = vec![];
    for j in 0..ny {
        for i in 0..nx {
            let (a, b, c, d) = (id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1));
            if flips.checked_shr((j * nx + i) as u32).unwrap_or(0) & 1 == 0 {
                tris.extend([[a, b, c], [a, c, d]]);
            } else {
                tris.extend([[a, b, d], [b, c, d]]);
            }
        }
    }
    (nodes, tris)
}
/// the six ways to list the corners of a triangle
pub fn listed(t: [usize; 3], k: usize) -> [usize; 3] {
    let o = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][k];
    [t[o[0]], t[o[1]], t[o[2]]]
}
pub fn material(k: usize) -> Material {
    match k {
        0 => Material { name: "AL6061", youngs: 6.89e10, poisson: 0.33, density: 2700.0 },
        1 => Material { name: "TEST", youngs: 1.0, poisson: 0.0, density: 1.0 },
        // widens when it is stretched
        3 => Material { name: "FOAM", youngs: 0.03, poisson: -0.4, density: 50.0 },
        _ => Material { name: "OTHER", youngs: 2.5e3, poisson: 0.45, density: 0.2 },
    }
}
