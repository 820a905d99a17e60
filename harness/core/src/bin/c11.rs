//! C11: element stiffness and mass are physically consistent for every triangle.
use bugi::element::element::Element;
use bugi::element::{ElementAssemblage, NodeDof};
use bugi::matrix::MatrixLike;
use hcore::fe::*;
use hcore::*;
use mcheck::la;
use mcheck::*;

type Tri = [(f64, f64); 3];

/// position of a degree of freedom in the element's own numbering (nodes 0, 1, 2)
fn dof(d: &NodeDof) -> usize {
    let s = format!("{:?}", d);
    let n: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    n[0] * 2 + n[1]
}

fn matrix(c: &[(NodeDof, NodeDof, f64)]) -> M {
    let mut m = zeros(6, 6);
    for (a, b, v) in c {
        m[dof(a)][dof(b)] += v
    }
    m
}

fn biggest(m: &M) -> f64 {
    m.iter().flatten().fold(0.0f64, |a, x| if x.is_nan() { f64::INFINITY } else { a.max(x.abs()) })
}

/// the condition number of the shape scales the rounding
fn slimness(p: Tri) -> f64 {
    let d = |a: (f64, f64), b: (f64, f64)| (a.0 - b.0).powi(2) + (a.1 - b.1).powi(2);
    (d(p[0], p[1]) + d(p[1], p[2]) + d(p[2], p[0])) / area2(p).abs()
}
fn extent(p: Tri) -> f64 {
    let size = area2(p).abs().sqrt();
    1.0 + p.iter().map(|x| x.0.abs().max(x.1.abs())).fold(0.0, f64::max) / size
}

fn element(cond: Cond, mat: &bugi::element::material::Material, p: Tri) -> Element {
    let mut e = ElementAssemblage::new(*mat, cond.real());
    let ids = e.add_nodes(&p);
    Element::new(&e, [ids[0], ids[1], ids[2]])
}

fn judge(rec: &mut Rec, cond: Cond, mat: &bugi::element::material::Material, p: Tri, hist: &dyn Fn() -> String) {
    let r = rec.call(|| {
        let e = element(cond, mat, p);
        (matrix(&e.calc_k()), if cond.plane() { matrix(&e.calc_m()) } else { zeros(6, 6) }, e.jacobian_ratio(), e.calc_k().len(), e.node_points(), e.material())
    });
    let (k, m, ratio, entries, at, mt) = match r {
        Ok(x) => x,
        Err(e) => return rec.fail("element-fails", format!("{}: {}", hist(), e)),
    };
    let tol = 1e-14 * slimness(p).max(1.0) * extent(p).max(1.0) * 50.0;
    let kk = elem_k(cond, mat, p);
    let big = biggest(&kk);
    rec.check(entries == 36, "stiffness-entries", || format!("{}: {} contributions", hist(), entries));
    rec.check(biggest(&la::sub(&k, &kk)) <= tol * big, "stiffness", || format!("{}: {:?} want {:?}", hist(), k, kk));
    let asym = biggest(&la::sub(&k, &la::transpose(&k)));
    rec.check(asym <= 1e-12 * big, "stiffness-asymmetric", || format!("{}: by {:e} of {:e}", hist(), asym, big));
    let w = la::jacobi(&k).0;
    rec.check(w.iter().all(|x| *x >= -10.0 * tol * big), "stiffness-indefinite", || format!("{}: eigenvalues {:?}", hist(), w));
    // rigid motions cause no force
    let centre = (p.iter().map(|x| x.0).sum::<f64>() / 3.0, p.iter().map(|x| x.1).sum::<f64>() / 3.0);
    let size = area2(p).abs().sqrt();
    let mut rigid: Vec<Vec<f64>> = vec![vec![0.0, 1.0, 0.0, 1.0, 0.0, 1.0]];
    if cond.plane() {
        rigid.push(vec![1.0, 0.0, 1.0, 0.0, 1.0, 0.0]);
        rigid.push(p.iter().flat_map(|x| [-(x.1 - centre.1) / size, (x.0 - centre.0) / size]).collect());
    }
    for (i, u) in rigid.iter().enumerate() {
        let f = la::norm(&la::mulv(&k, u));
        rec.check(f <= 20.0 * tol * big * la::norm(u), "rigid-motion", || format!("{}: rigid motion {} causes force {:e}, stiffness {:e}", hist(), i, f, big));
    }
    if let Cond::Stress(t) | Cond::Strain(t) = cond {
        let mm = elem_m(t, mat, p);
        let bm = biggest(&mm);
        rec.check(biggest(&la::sub(&m, &mm)) <= tol * bm, "mass", || format!("{}: {:?} want {:?}", hist(), m, mm));
        let asym = biggest(&la::sub(&m, &la::transpose(&m)));
        rec.check(asym <= 1e-12 * bm, "mass-asymmetric", || format!("{}: by {:e}", hist(), asym));
        let w = la::jacobi(&m).0;
        rec.check(w.iter().all(|x| *x >= -1e-12 * bm), "mass-indefinite", || format!("{}: {:?}", hist(), w));
        let total = mat.density * t * area2(p).abs() / 2.0;
        for d in 0..2 {
            let s: f64 = (0..3).flat_map(|i| (0..3).map(move |j| (i, j))).map(|(i, j)| m[2 * i + d][2 * j + d]).sum();
            rec.check((s - total).abs() <= tol * total.max(bm), "total-mass", || format!("{}: {} in direction {}, want {}", hist(), s, d, total));
        }
    }
    rec.check((ratio - 1.0).abs() < 1e-9, "jacobian-ratio", || format!("{}: {}", hist(), ratio));
    let same = (0..3).all(|i| at[i][0] == p[i].0 && at[i][1] == p[i].1) && mt.youngs == mat.youngs && mt.density == mat.density;
    rec.check(same, "element-data", || format!("{}: {:?} {:?}", hist(), at, mt));
    rec.trace();
}

fn main() {
    let mut h = Harness::new("C11");
    h.assume("axisymmetric stiffness is compared with the three-point rule of degree 2 (an exact integral does not exist in closed polynomial form); axisymmetric mass is not specified");
    let side = h.pick(4u64, 5);
    let pts = side * side;
    let conds = [Cond::Stress(1.0), Cond::Stress(0.1), Cond::Strain(2.5)];
    h.family("lattice", "every ordered triple of points of a square lattice (4x4, thorough 5x5) x 3 plane conditions x 3 materials", pts * pts * pts * 9, |i, rec| {
        let mut d = Digits(i);
        let (c, mt) = (conds[d.take(3)], material(d.take(3)));
        let p: Vec<(f64, f64)> = (0..3).map(|_| (d.take(side) as f64, d.take(side) as f64)).collect();
        let p: Tri = [p[0], p[1], p[2]];
        if area2(p) == 0.0 {
            return;
        }
        rec.state(i);
        rec.outcome(area2(p) as i64);
        judge(rec, c, &mt, p, &|| format!("{:?} {} {:?}", c, mt.name, p));
        rec.sample(|| format!("{:?} {} {:?}", c, mt.name, p));
    });
    h.family("axisymmetric lattice", "every ordered triple of lattice points right of or on the axis x 3 materials", pts * pts * pts * 3 * 2, |i, rec| {
        let mut d = Digits(i);
        let (mt, shift) = (material(d.take(3)), d.take(2) as f64);
        let p: Vec<(f64, f64)> = (0..3).map(|_| (d.take(side) as f64 + shift, d.take(side) as f64 - 1.0)).collect();
        let p: Tri = [p[0], p[1], p[2]];
        if area2(p) == 0.0 {
            return;
        }
        rec.state(i);
        judge(rec, Cond::Axi, &mt, p, &|| format!("axisymmetric {} {:?}", mt.name, p));
    });
    let shapes: [Tri; 6] = [
        [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)],
        [(0.0, 0.0), (1.0, 0.25), (0.5, 2.0)],
        [(0.0, 0.0), (8.0, 0.0), (4.0, 0.5)],
        [(0.0, 0.0), (0.0, 3.0), (-1.0, 1.0)],
        [(0.0, 0.0), (-2.0, -1.0), (1.0, -1.5)],
        [(0.3, 0.1), (0.1, 0.7), (0.9, 0.2)],
    ];
    let shifts = [0.0, 1.0, -7.5, 1e3, -1e5];
    let scales = [1e-9, 1e-6, 1e-3, 0.037, 1.0, 1e3, 1e6];
    // angles with exact and inexact sines
    let turns: [(f64, f64); 12] = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (0.6, 0.8), (-0.8, 0.6), (0.28, 0.96), (-0.6, -0.8), (0.5f64.sqrt(), 0.5f64.sqrt()), (0.96, -0.28), (-0.28, 0.96), (0.8, -0.6)];
    h.family("placed", "6 shapes in every listing of their corners x 12 rotations x 5x5 shifts x 7 scales x 3 conditions", 6 * 6 * 12 * 25 * 7 * 3, |i, rec| {
        let mut d = Digits(i);
        let (s, o, t, sx, sy, sc, c) = (shapes[d.take(6)], d.take(6), turns[d.take(12)], shifts[d.take(5)], shifts[d.take(5)], scales[d.take(7)], conds[d.take(3)]);
        let l = listed([0, 1, 2], o);
        let p = [0, 1, 2].map(|k| {
            let x = s[l[k]];
            ((x.0 * t.0 - x.1 * t.1 + sx) * sc, (x.0 * t.1 + x.1 * t.0 + sy) * sc)
        });
        let mt = material(i as usize % 3);
        rec.state(i);
        judge(rec, c, &mt, p, &|| format!("{:?} {} {:?}", c, mt.name, p));
    });
    h.family("axisymmetric placed", "6 shapes in every listing x 12 rotations x 3 radii x 3 heights x 6 scales", 6 * 6 * 12 * 9 * 6, |i, rec| {
        let mut d = Digits(i);
        let (s, o, t, sx, sy, sc) = (shapes[d.take(6)], d.take(6), turns[d.take(12)], [9.0, 12.5, 1e3][d.take(3)], [0.0, -4.0, 500.0][d.take(3)], [1e-9, 1e-6, 1e-3, 1.0, 40.0, 1e4][d.take(6)]);
        let l = listed([0, 1, 2], o);
        let p = [0, 1, 2].map(|k| {
            let x = s[l[k]];
            ((x.0 * t.0 - x.1 * t.1 + sx) * sc, (x.0 * t.1 + x.1 * t.0 + sy) * sc)
        });
        let mt = material(i as usize % 3);
        rec.state(i);
        judge(rec, Cond::Axi, &mt, p, &|| format!("axisymmetric {} {:?}", mt.name, p));
    });
    let (es, nus, rhos, ts) = ([1e-3, 1.0, 210e9, 1e12], [0.0, 0.1, 0.25, 0.33, 0.45, 0.49, -0.2], [1e-3, 1.0, 7850.0], [1e-4, 0.1, 1.0, 30.0]);
    h.family("materials", "6 shapes x 4 stiffnesses x 7 Poisson ratios x 3 densities x 4 thicknesses x 3 conditions", 6 * 4 * 7 * 3 * 4 * 3, |i, rec| {
        let mut d = Digits(i);
        let s = shapes[d.take(6)];
        let mt = bugi::element::material::Material { name: "M", youngs: es[d.take(4)], poisson: nus[d.take(7)], density: rhos[d.take(3)] };
        let t = ts[d.take(4)];
        let (c, s) = match d.take(3) {
            0 => (Cond::Stress(t), s),
            1 => (Cond::Strain(t), s),
            _ => (Cond::Axi, s.map(|x| (x.0 + 9.0, x.1))),
        };
        rec.state(i);
        judge(rec, c, &mt, s, &|| format!("{:?} {:?} {:?}", c, mt, s));
        // the material law itself
        let want = c_matrix(c, mt.youngs, mt.poisson);
        let got = rec.call(|| (read(&c.real().build_c(mt)), c.real().vec_len(), c.real().thickness((2.5, 7.0).into())));
        match got {
            Ok((g, n, th)) => {
                let ok = g.len() == want.len() && g.iter().all(|r| r.len() == want.len()) && biggest(&la::sub(&g, &want)) <= 1e-12 * biggest(&want);
                rec.check(ok, "material-law", || format!("{:?} {:?}: {:?} want {:?}", c, mt, g, want));
                rec.check(n == want.len(), "strain-length", || format!("{:?}: {}", c, n));
                let tt = if c == Cond::Axi { 2.5 } else { t };
                rec.check(th == tt, "thickness", || format!("{:?}: {}", c, th));
            }
            Err(e) => rec.fail("element-fails", format!("{:?}: {}", c, e)),
        }
    });
    h.family("element queries", "edges, corners and natural coordinates of elements with every choice of node numbers below 4", 64, |i, rec| {
        let mut d = Digits(i);
        let ns = [d.take(4), d.take(4), d.take(4)];
        if ns[0] == ns[1] || ns[1] == ns[2] || ns[0] == ns[2] {
            return;
        }
        rec.state(i);
        let all = [(0.0, 0.0), (2.0, 0.0), (2.5, 3.0), (0.25, 1.0)];
        let r = rec.call(|| {
            let mut e = ElementAssemblage::new(material(0), Cond::Stress(1.0).real());
            let ids = e.add_nodes(&all);
            let el = Element::new(&e, [ids[ns[0]], ids[ns[1]], ids[ns[2]]]);
            let conn: Vec<bool> = (0..16).map(|k| el.nodes_connect(ids[k % 4], ids[k / 4])).collect();
            let nat: Vec<Option<(f64, f64)>> = (0..4).map(|k| el.node_natural(ids[k]).map(|p| (p[0], p[1]))).collect();
            let pos: Vec<Option<(f64, f64)>> = (0..4).map(|k| el.node(ids[k]).map(|p| (p[0], p[1]))).collect();
            let dofs: Vec<usize> = (0..6).map(|k| dof(&el.map_dof(k))).collect();
            let edges: Vec<(usize, usize)> = el.edges().iter().map(|x| (x.0.into_idx(), x.1.into_idx())).collect();
            let tris: Vec<[usize; 3]> = el.triangles().iter().map(|x| [x.0.into_idx(), x.1.into_idx(), x.2.into_idx()]).collect();
            (conn, nat, pos, dofs, edges, tris, el.node_ids().map(|x| x.into_idx()))
        });
        let Ok((conn, nat, pos, dofs, edges, tris, ids)) = r else { return rec.fail("element-fails", format!("{:?}", r.err())) };
        let within = |k: usize| ns.iter().position(|x| *x == k);
        let ok = (0..16).all(|k| conn[k] == (k % 4 != k / 4 && within(k % 4).is_some() && within(k / 4).is_some()));
        rec.check(ok, "connect", || format!("{:?}: {:?}", ns, conn));
        let ok = (0..4).all(|k| nat[k] == within(k).map(|c| [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)][c]) && pos[k] == within(k).map(|_| all[k]));
        rec.check(ok, "corner", || format!("{:?}: {:?} {:?}", ns, nat, pos));
        rec.check((0..6).all(|k| dofs[k] == 2 * ns[k / 2] + k % 2), "dof", || format!("{:?}: {:?}", ns, dofs));
        let mut es: Vec<(usize, usize)> = edges.iter().map(|e| (e.0.min(e.1), e.0.max(e.1))).collect();
        es.sort();
        let mut want: Vec<(usize, usize)> = (0..3).map(|k| (ns[k].min(ns[(k + 1) % 3]), ns[k].max(ns[(k + 1) % 3]))).collect();
        want.sort();
        rec.check(es == want && ids == ns, "edges", || format!("{:?}: {:?} {:?}", ns, edges, ids));
        let mut t = tris.clone();
        t.iter_mut().for_each(|x| x.sort());
        let mut w = ns;
        w.sort();
        rec.check(t == [w], "triangles", || format!("{:?}: {:?}", ns, tris));
        rec.trace();
    });
    h.finish()
}
