//! C31: drawings of boundaries and meshes show exactly their vertices and edges.
#[allow(dead_code)]
#[path = "../../../core/src/draw.rs"]
mod draw;
use bugi::mesher::plane::PlaneTriangulation;
use bugi::visual::{VisOptions, Visualizer};
use draw::Scene;
use hfull::mesh::*;
use hfull::*;
use mcheck::*;
use std::cell::Cell;
use std::path::{Path, PathBuf};

/// what is drawn
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
    /// the boundary as given
    Bound,
    /// divided into pieces of a size
    Divided(f64),
    /// with every k-th of its segments split, again and again
    Split(usize),
    /// a triangulation that nothing was done to yet
    Fresh,
    Wrapped,
    Chew(f64),
    Ruppert(f64),
    /// meshed a second time
    Again(f64),
}

thread_local! {
    static FILE: Cell<usize> = Cell::new(usize::MAX);
}
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn file(dir: &Path) -> PathBuf {
    let k = FILE.with(|f| {
        if f.get() == usize::MAX {
            f.set(NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        }
        f.get()
    });
    dir.join(format!("{}.png", k))
}

/// the pieces of all sides, from the vertices that lie on them
fn pieces(rings: &Rings, nodes: &[P]) -> Vec<(usize, usize)> {
    let tol = 1e-9 * extent(rings);
    let mut out = vec![];
    for (a, b) in segments(rings) {
        let mut on: Vec<(f64, usize)> = nodes.iter().enumerate().filter(|(_, p)| gap(**p, a, b) <= tol).map(|(i, p)| (dist(a, *p), i)).collect();
        on.sort_by(|x, y| x.partial_cmp(y).unwrap());
        out.extend(on.windows(2).map(|w| (w[0].1, w[1].1)));
    }
    out
}

fn judge(rec: &mut Rec, dir: &Path, rings: &Rings, stage: Stage, size: u32, id: u64) {
    mcstd::atomic::reset(id);
    let path = file(dir);
    let _ = std::fs::remove_file(&path);
    let hist = || format!("{:?} {:?} at {} pixels", rings, stage, size);
    let show = |mut v: Visualizer| v.draw(path.to_str().unwrap(), VisOptions::new().im_size(size));
    let got = rec.call(|| {
        let mut b = bound(rings);
        match stage {
            Stage::Bound | Stage::Divided(_) | Stage::Split(_) => {
                if let Stage::Divided(h) = stage {
                    b.divide_all_segments(h);
                }
                if let Stage::Split(k) = stage {
                    let mut todo: Vec<_> = b.all_walls().step_by(k).collect();
                    for round in 0..2 {
                        todo = todo.into_iter().flat_map(|s| {
                            let (a, c, _) = b.split_segment(s);
                            if round == 0 { vec![a, c] } else { vec![] }
                        }).collect();
                    }
                }
                show(b.visualize());
                let nodes: Vec<P> = b.all_walls().map(|s| s.get().0.into()).collect();
                Ok((nodes, None))
            }
            _ => {
                let mut t = PlaneTriangulation::new(b);
                match stage {
                    Stage::Wrapped => t.gift_wrap(),
                    Stage::Chew(h) => t.chew_mesh(h),
                    Stage::Ruppert(h) => t.ruppert_mesh(h),
                    Stage::Again(h) => {
                        t.gift_wrap();
                        t.ruppert_mesh(h)
                    }
                    _ => (),
                }
                show(t.visualize());
                t.assemble().map(|e| {
                    let m = Mesh::of(&e);
                    (m.nodes, Some(m.tris))
                })
            }
        }
    });
    rec.trace();
    let (nodes, tris) = match got {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return rec.fail("no-mesh", format!("{}: {}", hist(), e)),
        Err(e) => return rec.fail("drawing-fails", format!("{}: {}", hist(), e)),
    };
    let mut s = Scene::new(nodes.clone(), size);
    s.edges = match &tris {
        None => pieces(rings, &nodes),
        Some(t) => {
            let mut e: Vec<(usize, usize)> = t.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).map(|(a, b)| (a.min(b), a.max(b))).collect();
            e.sort();
            e.dedup();
            e
        }
    };
    if s.open() {
        return;
    }
    rec.state((format!("{:?}", stage), nodes.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<_>>(), size));
    match draw::load(&path) {
        Err(e) => rec.fail("no-image", format!("{}: {}", hist(), e)),
        Ok(img) => {
            rec.outcome(img.as_raw());
            if let Some(e) = s.judge(&img) {
                rec.fail("wrong-image", format!("{}: {}", hist(), e));
            }
        }
    }
    rec.sample(|| format!("{}: {} points, {} edges", hist(), s.at.len(), s.edges.len()));
}
/// Chew's method applies: every side divides, boundary points stay apart
fn chewable(r: &Rings, h: f64) -> bool {
    let fits = segments(r).iter().all(|(a, b)| {
        let d = dist(*a, *b);
        let n = (d / h).floor();
        n >= 1.0 && d / n <= 3f64.sqrt() * h && (d / h - n).abs() > 1e-9 && (d / (3f64.sqrt() * h)).floor() < n
    });
    if !fits {
        return false;
    }
    let mut pts = vec![];
    for (a, b) in segments(r) {
        let n = (dist(a, b) / h).floor() as usize;
        pts.extend((0..n).map(|k| (a.0 + (b.0 - a.0) * k as f64 / n as f64, a.1 + (b.1 - a.1) * k as f64 / n as f64)));
    }
    spread(&pts) >= h
}
fn blunt(r: &Rings) -> bool {
    r.iter().all(|r| angles(&vec![r.clone()]).iter().all(|a| a.to_degrees() >= 60.0 - 1e-6))
}
fn divides(r: &Rings, h: f64) -> bool {
    segments(r).iter().all(|(a, b)| {
        let d = dist(*a, *b);
        (d / (3f64.sqrt() * h)).floor() < (d / h).floor()
    })
}
fn possible(r: &Rings, s: Stage) -> bool {
    match s {
        Stage::Divided(h) => divides(r, h),
        Stage::Chew(h) => chewable(r, h),
        Stage::Ruppert(_) | Stage::Again(_) => blunt(r),
        _ => true,
    }
}
const STAGES: [Stage; 14] = [
    Stage::Bound,
    Stage::Divided(0.45),
    Stage::Divided(0.7),
    Stage::Split(1),
    Stage::Split(2),
    Stage::Split(3),
    Stage::Fresh,
    Stage::Wrapped,
    Stage::Chew(0.45),
    Stage::Chew(0.6),
    Stage::Chew(0.95),
    Stage::Ruppert(1.0),
    Stage::Ruppert(0.5),
    Stage::Again(0.7),
];

fn main() {
    let mut h = Harness::new("C31");
    let dir = h.scratch();
    std::env::set_current_dir(&dir).unwrap();
    let dir = &dir;
    h.assume("bodies each mesher applies to; points that fall exactly half-way between two pixels may take either, pictures with more than nine such coordinates are left out");
    let deep = h.thorough();
    let mut rings: Vec<Vec<P>> = vec![];
    for n in 3..=(if deep { 6 } else { 5 }) {
        rings.extend(up_to_shift(lattice_rings(4, n)));
    }
    for n in 6..=9 {
        rings.extend(up_to_shift(lattice_rings(3, n)));
    }
    let step = if deep { 1 } else { 3 };
    let rings: Vec<Vec<P>> = rings.into_iter().step_by(step).collect();
    let (nr, ns) = (rings.len() as u64, STAGES.len() as u64);
    let sizes = [64u32, 20, 101, 150];
    h.family("rings", "every third (thorough: every) ring of few corners on a 4x4 lattice and of up to 9 on 3x3 x 14 stages from boundary to mesh, one of 4 image sizes", nr * ns, |i, rec| {
        let mut x = Digits(i);
        let s = STAGES[x.take(ns)];
        let r = vec![rings[x.take(nr)].clone()];
        if possible(&r, s) {
            judge(rec, dir, &r, s, sizes[(i % 4) as usize], i % 29);
        }
    });
    let ho = holed(if deep { 0.5 } else { 1.0 });
    let nh = ho.len() as u64;
    h.family("holes", "a rectangle with a hole of five shapes at every place of a grid x 14 stages", nh * ns, |i, rec| {
        let mut x = Digits(i);
        let s = STAGES[x.take(ns)];
        let r = &ho[x.take(nh)];
        if possible(r, s) {
            judge(rec, dir, r, s, [150, 101][(i % 2) as usize], i % 17);
        }
    });
    let cr: Vec<Rings> = crowds();
    let ncr = cr.len() as u64;
    h.family("many rings", "plates with up to 25 holes, up to 9 bodies side by side, bodies inside the holes of others x 14 stages", ncr * ns, |i, rec| {
        let mut x = Digits(i);
        let s = STAGES[x.take(ns)];
        let r = &cr[x.take(ncr)];
        if possible(r, s) {
            judge(rec, dir, r, s, [307, 211][(i % 2) as usize], i % 17);
        }
    });
    let k = if deep { 3 } else { 7 };
    let p: Vec<Rings> = rings.iter().step_by(k).map(|r| vec![r.clone()]).collect();
    let np = p.len() as u64;
    h.family("moved", "the same turned, scaled from 1e-12 to 1e10 and shifted up to 1e5 x 14 stages", np * ns * MOVES.len() as u64, |i, rec| {
        let mut x = Digits(i);
        let (s, m) = (STAGES[x.take(ns)], MOVES[x.take(MOVES.len() as u64)]);
        let r = &p[x.take(np)];
        if possible(r, s) {
            let to = |h: f64| h * m.1;
            let s = match s {
                Stage::Divided(h) => Stage::Divided(to(h)),
                Stage::Chew(h) => Stage::Chew(to(h)),
                Stage::Ruppert(h) => Stage::Ruppert(to(h)),
                Stage::Again(h) => Stage::Again(to(h)),
                s => s,
            };
            judge(rec, dir, &moved(r, m.0, m.1, m.2), s, 64, 0);
        }
    });
    h.family("orders", "every third of those under visiting orders followed throughout", np * ns * 8, |i, rec| {
        let mut x = Digits(i);
        let (s, o) = (STAGES[x.take(ns)], x.take(8));
        let r = &p[x.take(np)];
        if i % 3 == 0 && possible(r, s) {
            rec.explore(policy(o), 0, 1, |rec| judge(rec, dir, r, s, 64, 3));
        }
    });
    let ex = examples();
    h.family("examples", "bodies of the example files and tests at 6 sizes with both meshers, and their boundaries, in images of up to 400 pixels", ex.len() as u64 * 6 * 4 * 2, |i, rec| {
        let mut x = Digits(i);
        let (k, z, w, p) = (x.take(ex.len() as u64), 0.7 + 0.1 * x.take(6) as f64, x.take(4), [400, 257][x.take(2)]);
        let (r, z) = (&ex[k].0, ex[k].1 * z);
        let s = [Stage::Bound, Stage::Chew(z), Stage::Ruppert(2.0 * z), Stage::Wrapped][w];
        if possible(r, s) {
            judge(rec, dir, r, s, p, 0);
        }
    });
    h.finish()
}
