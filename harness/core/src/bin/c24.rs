//! C24: drawings place every node, edge and value correctly inside the image.
use bugi::matrix::solve::direct::DenseGaussSolver;
use bugi::visual::{color, VisOptions, Visualizer};
use hcore::draw::*;
use hcore::fe;
use mcheck::*;
use std::cell::Cell;
use std::path::PathBuf;

/// the private point type of the crate, by inference
fn build<P>(add: fn(&mut Visualizer, Vec<P>, usize), groups: &[(Vec<P>, usize)]) -> Visualizer
where
    P: Clone,
    Visualizer: From<Vec<P>>,
{
    let mut v: Visualizer = groups[0].0.clone().into();
    for g in &groups[1..] {
        add(&mut v, g.0.clone(), g.1);
    }
    v
}
fn from2(at: &[(f64, f64)], colors: &[usize]) -> Visualizer {
    fn go<P: From<(f64, f64)> + Clone>(f: fn(&mut Visualizer, Vec<P>, usize), at: &[(f64, f64)], colors: &[usize]) -> Visualizer
    where
        Visualizer: From<Vec<P>>,
    {
        build(f, &groups(at, colors))
    }
    go(Visualizer::add_points, at, colors)
}
fn from3(at: &[(f64, f64, f64)]) -> Visualizer {
    fn go<P: From<(f64, f64, f64)> + Clone>(f: fn(&mut Visualizer, Vec<P>, usize), at: &[(f64, f64, f64)]) -> Visualizer
    where
        Visualizer: From<Vec<P>>,
    {
        build(f, &groups(at, &vec![0; at.len()]))
    }
    go(Visualizer::add_points, at)
}
fn from1(at: &[f64]) -> Visualizer {
    fn go<P: From<f64> + Clone>(f: fn(&mut Visualizer, Vec<P>, usize), at: &[f64]) -> Visualizer
    where
        Visualizer: From<Vec<P>>,
    {
        build(f, &groups(at, &vec![0; at.len()]))
    }
    go(Visualizer::add_points, at)
}
/// runs of equal colour; the first run always has colour 0
fn groups<T: Copy, P: From<T>>(at: &[T], colors: &[usize]) -> Vec<(Vec<P>, usize)> {
    let mut g: Vec<(Vec<P>, usize)> = vec![];
    for (a, c) in at.iter().zip(colors) {
        match g.last_mut() {
            Some(l) if l.1 == *c => l.0.push((*a).into()),
            _ => g.push((vec![(*a).into()], *c)),
        }
    }
    g
}

fn options(s: &Scene, sized: bool) -> VisOptions {
    let mut o = VisOptions::new();
    if sized {
        o = o.im_size(s.size);
    }
    o = match s.map {
        Map::Default => o,
        Map::Hot => o.color_map(color::hot_map_boxed()),
        Map::Rgb => o.color_map(color::rgb_map_boxed()),
        Map::Digits => o.color_map(Box::new(|v| image::Rgb(digits(v)))),
    };
    if !s.show_mesh {
        o = o.show_mesh(false);
    }
    o
}
fn normal(v: &[f64]) -> Vec<f64> {
    let (lo, hi) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    v.iter().map(|x| (x - lo) / (hi - lo)).collect()
}

thread_local! {
    static FILE: Cell<usize> = Cell::new(usize::MAX);
}
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn draw(rec: &mut Rec, dir: &PathBuf, mut vis: Visualizer, s: &Scene, raw: Option<Vec<f64>>, sized: bool) {
    let k = FILE.with(|f| {
        if f.get() == usize::MAX {
            f.set(NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        }
        f.get()
    });
    let path = dir.join(format!("{}.png", k));
    let _ = std::fs::remove_file(&path);
    let (s2, p2) = (s.clone(), path.clone());
    let r = rec.call(move || {
        vis.set_edges(s2.edges.clone());
        vis.set_triangles(s2.tris.clone());
        if let Some(v) = raw {
            vis.set_vals(v);
        }
        vis.draw(p2.to_str().unwrap(), options(&s2, sized));
    });
    rec.trace();
    if let Err(e) = r {
        rec.fail("drawing-fails", format!("{}: {:?}", e, s));
        return;
    }
    match load(&path) {
        Err(e) => rec.fail("no-image", format!("{}: {:?}", e, s)),
        Ok(img) => {
            rec.outcome(img.as_raw());
            if let Some(e) = s.judge(&img) {
                rec.fail("wrong-image", format!("{}: {:?}", e, s));
            }
        }
    }
    rec.sample(|| format!("{:?}", s));
}

fn history(rec: &mut Rec, dir: &PathBuf, quad: &[(f64, f64)], pairs: &[(usize, usize)], faces: &[Tri], ops: &[usize]) {
    let k = FILE.with(|f| {
        if f.get() == usize::MAX {
            f.set(NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        }
        f.get()
    });
    let path = dir.join(format!("{}.png", k));
    let mut vis = from2(quad, &[0; 4]);
    let mut s = Scene::new(quad.to_vec(), 24);
    fn add<P: From<(f64, f64)>>(f: fn(&mut Visualizer, Vec<P>, usize), v: &mut Visualizer, p: (f64, f64), c: usize) {
        f(v, vec![p.into()], c)
    }
    for o in ops.iter().chain(&[9, 10]) {
        let n = s.at.len();
        let r = match o {
            0 | 1 | 2 => {
                s.edges = [pairs[..2].to_vec(), pairs[2..5].to_vec(), vec![]][*o].clone();
                rec.call(|| vis.set_edges(s.edges.clone()))
            }
            3 | 4 | 5 => {
                s.tris = [faces[..1].to_vec(), faces[2..].to_vec(), vec![]][*o - 3].clone();
                rec.call(|| vis.set_triangles(s.tris.clone()))
            }
            6 | 7 => {
                let v: Vec<f64> = (0..n).map(|k| if *o == 6 { (k * k) as f64 - 3.0 } else { 7.0 - 2.0 * k as f64 }).collect();
                s.vals = Some(normal(&v));
                rec.call(|| vis.set_vals(v))
            }
            8 => {
                let p = (12.0 - n as f64, 2.0 * n as f64 - 4.0);
                let c = 1 + n % 3;
                let r = rec.call(|| add(Visualizer::add_points, &mut vis, p, c));
                if s.vals.is_some() {
                    // no value for it: refused, and nothing changes; what else could happen is not specified
                    if r.is_ok() {
                        return;
                    }
                    Ok(())
                } else {
                    s.at.push(p);
                    s.colors.push(c);
                    r
                }
            }
            _ => {
                (s.size, s.show_mesh, s.map) = if *o == 9 { (24, true, Map::Hot) } else { (31, false, Map::Digits) };
                let _ = std::fs::remove_file(&path);
                let r = rec.call(|| vis.draw(path.to_str().unwrap(), options(&s, true)));
                rec.trace();
                if r.is_ok() {
                    match load(&path) {
                        Err(e) => rec.fail("no-image", format!("{}: after {:?}: {:?}", e, ops, s)),
                        Ok(img) => {
                            if let Some(e) = s.judge(&img) {
                                return rec.fail("wrong-image", format!("{}: after {:?}: {:?}", e, ops, s));
                            }
                        }
                    }
                }
                r
            }
        };
        rec.steps(1);
        if let Err(e) = r {
            return rec.fail("step-fails", format!("{}: {:?} of {:?}", e, o, ops));
        }
    }
}

fn lattice(k: usize, n: usize) -> (f64, f64) {
    ((k % n) as f64, (k / n) as f64)
}

fn main() {
    let mut h = Harness::new("C24");
    let dir = h.scratch();
    h.assume("points that fall exactly half-way between two pixels may take either; a triangle whose corners fall on one line of pixels may or may not leave a trace");
    let quick = !h.thorough();

    // every place of two or three points at every small image size, scaled and moved
    let sizes: Vec<u32> = (1..=24).chain([31, 64]).chain(if quick { vec![] } else { vec![25, 26, 27, 28, 29, 30, 33, 40, 100, 101] }).collect();
    let mv = [(1.0, 0.0), (1e-6, 0.0), (3.7, -5.3), (1e6, 2e4), (0.1, 7.0), (1e-12, 0.0), (1e15, 1e14), (-2.0, 1.0), (1e-20, 0.0)];
    h.family("placement", "every ordered triple of distinct points of a 3x3 lattice x 9 scales and offsets x image sizes 1..24, 31, 64 (thorough: up to 101)", (9 * 8 * 7 * mv.len() * sizes.len()) as u64, |i, rec| {
        let mut d = Digits(i);
        let (z, m) = (d.take(sizes.len()), d.take(mv.len()));
        let (a, b, c) = (d.take(9), d.take(8), d.take(7));
        let mut free: Vec<usize> = (0..9).collect();
        let ks = [free.remove(a), free.remove(b), free.remove(c)];
        let at: Vec<_> = ks.iter().map(|k| lattice(*k, 3)).map(|p| (p.0 * mv[m].0 + mv[m].1, p.1 * mv[m].0 - 2.0 * mv[m].1)).collect();
        let mut s = Scene::new(at.clone(), sizes[z]);
        s.colors = vec![0, 1, 1];
        s.edges = vec![(0, 1), (2, 1)];
        rec.state(i);
        draw(rec, &dir, from2(&at, &s.colors), &s, None, true);
    });
    h.family("default size", "every pair of distinct points of a 3x2 lattice, no size asked", 30, |i, rec| {
        let (a, b) = ((i / 5) as usize, (i % 5) as usize);
        let b = b + (b >= a) as usize;
        let at = vec![lattice(a, 3), lattice(b, 3)];
        let s = Scene::new(at.clone(), 256);
        rec.state(i);
        draw(rec, &dir, from2(&at, &s.colors), &s, None, false);
    });

    // one unit is one pixel: every segment and every triangle of a lattice
    let n = if quick { 17usize } else { 33 };
    h.family("segments", "every ordered pair of pixels of a 17x17 (thorough: 33x33) lattice", (n * n * n * n) as u64, |i, rec| {
        let mut d = Digits(i);
        let (a, b) = (d.take(n * n), d.take(n * n));
        let m = (n - 1) as f64;
        let at = vec![(0.0, 0.0), (m, m), lattice(a, n), lattice(b, n)];
        let mut s = Scene::new(at.clone(), if n == 17 { 20 } else { 40 });
        s.edges = vec![(2, 3)];
        s.colors = vec![0, 0, 2, 2];
        rec.state((a, b));
        draw(rec, &dir, from2(&at, &s.colors), &s, None, true);
    });
    let n = if quick { 6usize } else { 9 };
    h.family("triangles", "every ordered triple of pixels of a 6x6 (thorough: 9x9) lattice, values 0, 1 and 5/8", (n * n).pow(3) as u64, |i, rec| {
        let mut d = Digits(i);
        let (a, b, c) = (d.take(n * n), d.take(n * n), d.take(n * n));
        let at = vec![(0.0, 0.0), (8.0, 8.0), lattice(a, n), lattice(b, n), lattice(c, n)];
        let mut s = Scene::new(at.clone(), 10);
        s.tris = vec![(2, 3, 4)];
        let raw = vec![3.0, 3.0, -5.0, 11.0, 5.0];
        s.vals = Some(normal(&raw));
        s.map = Map::Digits;
        s.show_mesh = false;
        rec.state((a, b, c));
        draw(rec, &dir, from2(&at, &s.colors), &s, Some(raw), true);
    });
    let coarse = [0.0, 5.0, 7.0, 12.0, 19.0, 24.0];
    let m = if quick { 5usize } else { 6 };
    h.family("large triangles", "every ordered triple of a coarse 5x5 (thorough: 6x6) lattice of 24x24 pixels", (m * m).pow(3) as u64, |i, rec| {
        let mut d = Digits(i);
        let mut at = vec![(0.0, 0.0), (24.0, 24.0)];
        for _ in 0..3 {
            let k = d.take(m * m);
            at.push((coarse[k % m], coarse[k / m]));
        }
        let mut s = Scene::new(at.clone(), 30);
        s.tris = vec![(2, 3, 4)];
        let raw = vec![0.1, 0.7, -0.3, 0.9, 0.0];
        s.vals = Some(normal(&raw));
        s.map = Map::Digits;
        s.show_mesh = false;
        rec.state(i);
        draw(rec, &dir, from2(&at, &s.colors), &s, Some(raw), true);
    });

    let big: Vec<u32> = if quick { vec![900, 1500] } else { vec![700, 1024, 1500, 2100, 4200] };
    h.family("large images", "every placing of a wide, a tall and a slanted triangle with its edges in images of 900 and 1500 (thorough: up to 4200) pixels, alone and with all at once", (6 * 4 * big.len()) as u64, |i, rec| {
        let mut d = Digits(i);
        let (p, k, px) = (d.take(6), d.take(4), big[d.take(big.len())]);
        let m = (px - 5) as f64;
        let r = |x: f64, y: f64| ((x * m).round(), (y * m).round());
        let mut at = vec![(0.0, 0.0), (m, m), r(0.02, 0.01), r(0.98, 0.05), r(0.93, 0.3), r(0.03, 0.99), r(0.4, 0.9), r(0.02, 0.2), r(0.5, 0.6), r(0.99, 0.97), r(0.45, 0.35)];
        at.truncate(11);
        let pp = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][p];
        let mut s = Scene::new(at.clone(), px);
        for t in 0..3 {
            if k == 3 || k == t {
                let v = [2 + 3 * t + pp[0], 2 + 3 * t + pp[1], 2 + 3 * t + pp[2]];
                s.tris.push((v[0], v[1], v[2]));
                s.edges.extend([(v[0], v[1]), (v[2], v[1])]);
            }
        }
        let raw: Vec<f64> = (0..at.len()).map(|i| (i * 7 % 11) as f64).collect();
        s.vals = Some(normal(&raw));
        s.map = Map::Digits;
        rec.state(i);
        draw(rec, &dir, from2(&at, &s.colors), &s, Some(raw), true);
    });

    // what lies over what
    let quad = [(0.0, 0.0), (10.0, 1.0), (9.0, 8.0), (1.0, 10.0)];
    let pairs = [(0, 1), (2, 1), (2, 3), (0, 3), (0, 2), (3, 1)];
    let faces = [(0, 1, 2), (0, 3, 2), (1, 2, 3), (0, 1, 3)];
    let valss = [vec![0.0, 1.0, 2.0, 3.0], vec![4.0, -4.0, 4.0, 0.0], vec![1.0, 1.0, 1.0, 1.0 + 1e-9], vec![1e9, 3e9, 2e9, 1.5e9]];
    h.family("layers", "every set of edges x every set of triangles of a quadrilateral x 2 colourings x show_mesh x 4 colour maps x 4 value lists or none", 64 * 16 * 2 * 2 * 4 * 5, |i, rec| {
        let mut d = Digits(i);
        let (e, f, c, sm, mp, v) = (d.take(64), d.take(16), d.take(2), d.take(2), d.take(4), d.take(5));
        let mut s = Scene::new(quad.to_vec(), 24);
        s.edges = (0..6).filter(|k| e >> k & 1 == 1).map(|k| pairs[k]).collect();
        s.tris = (0..4).filter(|k| f >> k & 1 == 1).map(|k| faces[k]).collect();
        s.colors = [vec![0, 1, 2, 3], vec![0, 0, 3, 3]][c].clone();
        s.show_mesh = sm == 0;
        s.map = [Map::Default, Map::Hot, Map::Rgb, Map::Digits][mp];
        let raw = valss.get(v).cloned();
        s.vals = raw.as_ref().map(|v| normal(v));
        rec.state(i);
        draw(rec, &dir, from2(&quad, &s.colors), &s, raw, true);
    });

    // values of every magnitude, however close together, and all equal
    let bases = [0.0, 1.0, -1.0, 250.0, -3e3, 1e6, -1e9, 1e12, 1e-9, -1e-6, 1e100, -1e-100];
    let spreads = [0.0, 1e-15, 1e-13, 1e-11, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 1.0, 1e4];
    let shapes = [[0.0, 1.0, 2.0, 3.0], [2.0, 0.0, 1.0, 2.0], [0.0, 0.0, 0.0, 4.0], [3.0, 3.0, 0.0, 3.0], [0.0, -1.0, -4.0, 1.0]];
    h.family("values", "12 values x 11 spreads relative to them (none at all among them) x 5 shapes of four values x 2 colourings x 3 meshes", (bases.len() * spreads.len() * shapes.len() * 2 * 3) as u64, |i, rec| {
        let mut d = Digits(i);
        let (sh, e, m, sp, b) = (d.take(5), d.take(3), d.take(2), d.take(spreads.len()), d.take(bases.len()));
        let unit = if bases[b] == 0.0 { 1.0 } else { f64::abs(bases[b]) };
        let raw: Vec<f64> = shapes[sh].iter().map(|x| bases[b] + x * spreads[sp] * unit).collect();
        let (lo, hi) = (raw.iter().cloned().fold(f64::INFINITY, f64::min), raw.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        let mut s = Scene::new(quad.to_vec(), 24);
        s.tris = [faces[..2].to_vec(), faces[2..3].to_vec(), faces[3..].to_vec()][e].clone();
        s.edges = if e == 1 { pairs[..2].to_vec() } else { vec![] };
        s.show_mesh = e == 1;
        s.map = [Map::Hot, Map::Digits][m];
        // equal values have nowhere to lie but at the low end of the colours
        s.vals = Some(if hi > lo { normal(&raw) } else { vec![0.0; 4] });
        rec.state(i);
        draw(rec, &dir, from2(&quad, &s.colors), &s, Some(raw), true);
    });

    // models of many points, and large images
    let counts: &[usize] = if quick { &[255, 257, 4097, 65537] } else { &[255, 256, 257, 300, 1025, 4097, 65537] };
    let wide = [30u32, 257, 600];
    let perm = [[0, 1, 2, 3], [3, 0, 2, 1], [1, 3, 0, 2], [2, 1, 3, 0]];
    h.family("many points", "255 to 65537 points, all but four of them in the corners, edges and triangles between the four and others whose numbers differ by powers of two, x 4 placings x 3 image sizes x points / edges / triangles", (counts.len() * 4 * wide.len() * 3) as u64, |i, rec| {
        let mut d = Digits(i);
        let (what, z, p, n) = (d.take(3), d.take(wide.len()), d.take(4), counts[d.take(counts.len())]);
        // where the four lie: near the start, the middle, the end
        let four: Vec<usize> = [n / 7, n / 2, n - 2, n - 1].to_vec();
        let place = [(2.0, 3.0), (17.0, 5.0), (14.0, 19.0), (4.0, 15.0)];
        let corner = [(0.0, 0.0), (24.0, 0.0), (24.0, 24.0), (0.0, 24.0)];
        let mut at: Vec<(f64, f64)> = (0..n).map(|k| corner[k * 4 / n]).collect();
        for (k, f) in four.iter().enumerate() {
            at[*f] = place[perm[p][k]];
        }
        let mut s = Scene::new(at.clone(), wide[z]);
        let raw: Vec<f64> = (0..n).map(|k| if let Some(q) = four.iter().position(|f| *f == k) { [5.0, 11.0, 8.0, 6.0][q] } else { 5.0 + (k % 7) as f64 }).collect();
        let mut raw_opt = None;
        match what {
            0 => {
                s.colors = (0..n).map(|k| if k > n / 2 { 1 } else { 0 }).collect();
            }
            1 => s.edges = vec![(four[0], four[3]), (four[2], four[1]), (0, four[3]), (n / 4 + 1, four[2])],
            _ => {
                s.tris = vec![(four[0], four[1], four[3]), (four[3], four[2], four[0])];
                s.vals = Some(normal(&raw));
                s.map = Map::Digits;
                s.show_mesh = false;
                raw_opt = Some(raw);
            }
        }
        rec.state(i);
        draw(rec, &dir, from2(&at, &s.colors), &s, raw_opt, true);
    });
    let many = h.pick(300usize, 1025);
    h.family("many edges", "a fan of 300 (thorough: 1025) edges or triangles around one point, x 3 image sizes", 2 * 3, |i, rec| {
        let (what, z) = ((i % 2) as usize, (i / 2) as usize);
        let mut at = vec![(0.0, 0.0)];
        for k in 0..=many {
            let t = 6.0 * k as f64 / many as f64;
            at.push((7.0 * t.cos(), 5.0 * t.sin()));
        }
        let mut s = Scene::new(at.clone(), [40, 101, 300][z]);
        let mut raw_opt = None;
        if what == 0 {
            s.edges = (1..=many).map(|k| (0, k)).collect();
        } else {
            s.tris = (1..=many).map(|k| (0, k, k + 1)).collect();
            let raw: Vec<f64> = (0..at.len()).map(|k| (k * k % 17) as f64).collect();
            s.vals = Some(normal(&raw));
            s.map = Map::Digits;
            s.show_mesh = false;
            raw_opt = Some(raw);
        }
        rec.state(i);
        draw(rec, &dir, from2(&at, &s.colors), &s, raw_opt, true);
    });
    let cells = h.pick([9usize, 19, 33, 47], [19, 33, 47, 80]);
    h.family("many elements", "bent grids of 9x9 to 47x47 (thorough: to 80x80) cells cut in two, with their edges, their triangles, or both, x 2 image sizes", 4 * 3 * 2, |i, rec| {
        let mut d = Digits(i);
        let (n, what, z) = (cells[d.take(4)], d.take(3), d.take(2));
        // bent by squares, so that few coordinates agree
        let at: Vec<(f64, f64)> = (0..=n).flat_map(|y| (0..=n).map(move |x| (x as f64 + 0.0137 * (y * y) as f64, y as f64 * 0.81 + 0.0073 * (x * x) as f64))).collect();
        let mut s = Scene::new(at.clone(), [97, 331][z]);
        let id = |x: usize, y: usize| y * (n + 1) + x;
        let mut raw_opt = None;
        if what != 1 {
            for y in 0..=n {
                for x in 0..=n {
                    if x < n {
                        s.edges.push((id(x, y), id(x + 1, y)));
                    }
                    if y < n {
                        s.edges.push((id(x, y + 1), id(x, y)));
                    }
                    if x < n && y < n {
                        s.edges.push((id(x, y), id(x + 1, y + 1)));
                    }
                }
            }
        }
        if what != 0 {
            for y in 0..n {
                for x in 0..n {
                    s.tris.push((id(x, y), id(x + 1, y), id(x + 1, y + 1)));
                    s.tris.push((id(x, y), id(x, y + 1), id(x + 1, y + 1)));
                }
            }
            let raw: Vec<f64> = (0..at.len()).map(|k| (k * k % 17) as f64).collect();
            s.vals = Some(normal(&raw));
            s.map = Map::Digits;
            raw_opt = Some(raw);
        }
        s.show_mesh = what != 1;
        if s.open() {
            rec.outcome("open");
            return;
        }
        rec.state(i);
        draw(rec, &dir, from2(&at, &s.colors), &s, raw_opt, true);
    });
    // other dimensions
    h.family("on a line", "every list of 2 or 3 distinct points of a 7-point line x 6 image sizes", 7 * 7 * 8 * 6, |i, rec| {
        let mut d = Digits(i);
        let (a, b, c, z) = (d.take(7), d.take(7), d.take(8), d.take(6));
        if a == b || c == a || c == b {
            return;
        }
        let pos = [-3.0, -1.0, 0.0, 0.5, 2.0, 4.0, 1e3];
        let at: Vec<f64> = [a, b, c].iter().filter(|k| **k < 7).map(|k| pos[*k]).collect();
        let s = Scene::new(at.iter().map(|x| (*x, 0.0)).collect(), [5, 12, 16, 21, 40, 100][z]);
        rec.state(i);
        draw(rec, &dir, from1(&at), &s, None, true);
    });
    h.family("in space", "every set of corners of a cube x edges between the first and all others x 4 image sizes", 256 * 4, |i, rec| {
        let mut d = Digits(i);
        let (z, m) = (d.take(4), d.take(256));
        let at: Vec<(f64, f64, f64)> = (0..8).filter(|k| m >> k & 1 == 1).map(|k| ((k & 1) as f64, (k >> 1 & 1) as f64 * 2.0, (k >> 2 & 1) as f64 * 3.0 - 1.0)).collect();
        if at.len() < 2 {
            return;
        }
        // rotated by 0.5 about y, then by 0.79 about x
        let (sx, cx, sy, cy) = (0.79f64.sin(), 0.79f64.cos(), 0.5f64.sin(), 0.5f64.cos());
        let flat = at
            .iter()
            .map(|(x, y, z)| {
                let (x1, z1) = (cy * x + sy * z, -sy * x + cy * z);
                (x1, cx * y - sx * z1)
            })
            .collect();
        let mut s = Scene::new(flat, [8, 20, 37, 64][z]);
        s.edges = (1..at.len()).map(|k| (0, k)).collect();
        rec.state(i);
        draw(rec, &dir, from3(&at), &s, None, true);
    });

    // solved models
    let scales = [0.0, 1.0, 50.0, -3.0, 0.02, -400.0];
    h.family("deformed models", "7 meshes x 3 value kinds x 6 exaggerations (negative ones too) x show_mesh x 3 image sizes; every node displaced by the exaggeration times its displacement in an independent solution", 7 * 3 * 6 * 2 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, v, x, sm, z) = (d.take(7), d.take(3), d.take(6), d.take(2), d.take(3));
        let (nodes, tris) = fe::mesh(k);
        let mut m = fe::Model::new(nodes.clone(), tris.clone(), fe::Cond::Stress(1.0), fe::material(1));
        m.sup[0] = fe::Sup::XY;
        m.sup[1] = fe::Sup::XY;
        let last = nodes.len() - 1;
        if k == 4 {
            m.sup[last] = fe::Sup::X;
        }
        m.point = vec![(last, (0.002, 0.005))];
        let Some(u) = m.solve() else { return };
        let mut e = m.build();
        let Ok(def) = rec.call(|| e.calc_displacements::<DenseGaussSolver>()) else { return };
        let at: Vec<(f64, f64)> = def.displaced_nodes(scales[x]).iter().map(|p| (p[0], p[1])).collect();
        let size = nodes.iter().flat_map(|n| [n.0, n.1]).chain(u.iter().map(|u| u * scales[x])).fold(0.0f64, |a, b| a.max(b.abs()));
        for (j, (p, n)) in at.iter().zip(&nodes).enumerate() {
            let want = (n.0 + scales[x] * u[2 * j], n.1 + scales[x] * u[2 * j + 1]);
            rec.check((p.0 - want.0).abs().max((p.1 - want.1).abs()) <= 1e-7 * size, "displaced", || format!("node {} displaced to {:?} instead of {:?}, exaggerated {} times; {:?}", j, p, want, scales[x], m));
        }
        let mut s = Scene::new(at, [40, 41, 90][z]);
        s.edges = tris.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
        s.tris = tris.iter().map(|t| (t[0], t[1], t[2])).collect();
        s.show_mesh = sm == 0;
        s.map = Map::Digits;
        let raw = match v {
            0 => Some(def.displacement_norms()),
            1 => Some(def.von_mises()),
            _ => None,
        };
        if let Some(v) = &raw {
            let n = normal(v);
            if n.iter().any(|x| x.is_nan()) || v.iter().fold(0.0f64, |a, b| a.max(b.abs())) < 1e-9 {
                return;
            }
            s.vals = Some(n);
        }
        rec.state(i);
        rec.outcome(format!("{:?}", s.vals));
        // the edges and triangles come from the model, not from us
        let path = dir.join(format!("m{}.png", i));
        let vis = rec.call(|| {
            let mut vis = def.visualize(scales[x]);
            if let Some(v) = raw {
                vis.set_vals(v);
            }
            vis.draw(path.to_str().unwrap(), options(&s, true));
        });
        rec.trace();
        if let Err(e) = vis {
            rec.fail("drawing-fails", format!("{}: {:?}", e, s));
        } else {
            match load(&path) {
                Err(e) => rec.fail("no-image", format!("{}: {:?}", e, s)),
                Ok(img) => {
                    if let Some(e) = s.judge(&img) {
                        rec.fail("wrong-image", format!("model: {}: {:?}", e, s));
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&path);
    });
    h.family("mode shapes", "7 meshes x 3 modes x 6 exaggerations x 2 image sizes: every node displaced by the exaggeration, of either sign, times its place in the shape", 7 * 3 * 6 * 2, |i, rec| {
        let mut d = Digits(i);
        let (k, q, x, z) = (d.take(7), d.take(3), d.take(6), d.take(2));
        let (nodes, tris) = fe::mesh(k);
        let mut m = fe::Model::new(nodes.clone(), tris.clone(), fe::Cond::Stress(1.0), fe::material(1));
        m.sup[0] = fe::Sup::XY;
        m.sup[1] = fe::Sup::XY;
        let last = nodes.len() - 1;
        if k == 4 {
            m.sup[last] = fe::Sup::X;
        }
        if m.solve().is_none() || m.basis().len() <= q {
            return;
        }
        let mut e = m.build();
        let Ok(modes) = rec.call(|| e.calc_modes(q + 1)) else { return };
        let Some(def) = modes.get(q) else { return };
        // the shape as the model gives it; its size is not ours to judge here
        let one = fe::displacements(def, &nodes);
        let size = nodes.iter().flat_map(|n| [n.0, n.1]).chain(one.iter().map(|u| u * scales[x])).fold(0.0f64, |a, b| a.max(b.abs()));
        let at: Vec<(f64, f64)> = def.displaced_nodes(scales[x]).iter().map(|p| (p[0], p[1])).collect();
        for (j, (p, n)) in at.iter().zip(&nodes).enumerate() {
            let want = (n.0 + scales[x] * one[2 * j], n.1 + scales[x] * one[2 * j + 1]);
            rec.check((p.0 - want.0).abs().max((p.1 - want.1).abs()) <= 1e-9 * size, "displaced", || format!("mode {}: node {} displaced to {:?} instead of {:?}, exaggerated {} times; {:?}", q, j, p, want, scales[x], m));
        }
        let mut s = Scene::new(at, [40, 90][z]);
        s.edges = tris.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
        s.tris = tris.iter().map(|t| (t[0], t[1], t[2])).collect();
        rec.state(i);
        let path = dir.join(format!("q{}.png", i));
        let vis = rec.call(|| def.visualize(scales[x]).draw(path.to_str().unwrap(), options(&s, true)));
        rec.trace();
        if let Err(e) = vis {
            rec.fail("drawing-fails", format!("{}: {:?}", e, s));
        } else {
            match load(&path) {
                Err(e) => rec.fail("no-image", format!("{}: {:?}", e, s)),
                Ok(img) => {
                    if let Some(e) = s.judge(&img) {
                        rec.fail("wrong-image", format!("mode {}: {}: {:?}", q, e, s));
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&path);
    });
    // one visualizer, changed and drawn again and again
    let depth = h.pick(4u32, 5);
    h.family("histories", "every sequence of setting edges, triangles (two lists and none), values (two lists), adding points and drawing (two ways) to the depth, then both drawings", pow(11, depth), |i, rec| {
        let mut d = Digits(i);
        let ops: Vec<usize> = (0..depth).map(|_| d.take(11)).collect();
        history(rec, &dir, &quad, &pairs, &faces, &ops);
        rec.state(i);
    });
    let _ = std::fs::remove_dir_all(&dir);
    h.finish()
}
