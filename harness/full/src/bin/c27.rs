//! C27: the command line performs exactly the requested pipeline.
#[path = "../../../core/src/draw.rs"]
#[allow(dead_code)]
mod draw;
use bugi::element::constraint::Constraint;
use bugi::element::{Deformation, ElementAssemblage};
use bugi::file::{read_to_bound, read_to_elas, save_elas};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::mesher::plane::PlaneTriangulation;
use draw::{Map, Scene};
use hfull::*;
use mcheck::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Run {
    ok: bool,
    out: String,
    err: String,
    /// files that are new or different; those gone, with a minus sign
    made: BTreeSet<String>,
}
fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(top: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(top, &p, out);
            } else {
                out.insert(p.strip_prefix(top).unwrap().to_string_lossy().to_string(), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(d, d, &mut m);
    m
}
fn run(cli: &Path, dir: &Path, args: &[String]) -> Run {
    let before = files(dir);
    let o = Command::new(cli).args(args).current_dir(dir).stdin(Stdio::null()).output().expect("the built command");
    Run {
        ok: o.status.success(),
        out: String::from_utf8_lossy(&o.stdout).into(),
        err: String::from_utf8_lossy(&o.stderr).chars().take(400).collect(),
        made: {
            let after = files(dir);
            let gone = before.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("-{}", k)).collect::<Vec<_>>();
            after.into_iter().filter(|(k, v)| before.get(k) != Some(v)).map(|x| x.0).chain(gone).collect()
        },
    }
}

const SQUARE: &str = "polygon\n0 0 a\n3 0 b\n3 3 c\n0 3 d\nend\ncondition planestress 0.2\nmaterial AL6061\ndistributed_constraint a b xy\ndistributed_force c d 1000000 -5";
const FRAME: &str = "polygon\n0 0 a\n6 0 b\n6 6 c\n0 6\nend\npolygon\n2 2\n2 4 p\n4 4 q\n4 2\nend\ncondition planestrain 2\nmaterial TEST\ndistributed_constraint a b y\ndistributed_constraint b c x\ndistributed_force p q 0 3.5";
const LIST: &str = "polygon\n0 0 a\n4 0 b\n4 2 c\n2 2\n2 4 d\n0 4 e\nend\ncondition planestress 1\nmaterial AL6061\ndistributed_constraint d e xy\ndistributed_force b c 7 0";

fn model(k: usize) -> FileModel {
    let mut m = plain(k + 1);
    let last = m.nodes.len() - 1;
    match k {
        0 => {
            m.cons[0] = Constraint::XYFixed;
            m.cons[1] = Constraint::YFixed;
            m.forces.insert(2, (3e8, -2e8));
            m.cond = ('s', 0.5);
        }
        _ => {
            m.cons[0] = Constraint::XYFixed;
            m.cons[1] = Constraint::AngleFixed(0.4);
            m.cons[3] = Constraint::XFixed;
            m.forces.insert(last, (-1e8, 4e8));
            m.dist.insert((1, 2), (2e8, 0.0));
            m.cond = ('n', 2.0);
        }
    }
    m
}

fn elas_scene(e: &ElementAssemblage, at: Vec<(f64, f64)>, size: u32) -> Scene {
    let mut s = Scene::new(at, size);
    let t: Vec<[usize; 3]> = e.element_descriptors().into_iter().map(|d| d.into_parts().map(|n| n.into_idx())).collect();
    s.edges = t.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
    s.edges.iter_mut().for_each(|e| *e = (e.0.min(e.1), e.0.max(e.1)));
    s.edges.sort();
    s.edges.dedup();
    s.tris = t.iter().map(|t| (t[0], t[1], t[2])).collect();
    s
}
fn normal(v: &[f64]) -> Vec<f64> {
    let (lo, hi) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    v.iter().map(|x| (x - lo) / (hi - lo)).collect()
}
fn image(rec: &mut Rec, dir: &Path, name: &str, s: &Scene, what: &dyn Fn() -> String) {
    match draw::load(&dir.join(name)) {
        Err(e) => rec.fail("no-image", format!("{}: {}", what(), e)),
        Ok(i) => {
            if let Some(e) = s.judge(&i) {
                rec.fail("wrong-image", format!("{}: {}", what(), e));
            }
        }
    }
}
fn succeeded(rec: &mut Rec, r: &Run, want: &[&str], what: &dyn Fn() -> String) -> bool {
    let want: BTreeSet<String> = want.iter().map(|s| s.to_string()).collect();
    rec.trace();
    rec.steps(1);
    rec.check(r.ok, "command-fails", || format!("{}: {}", what(), r.err)) && rec.check(r.made == want, "files-written", || format!("{}: made {:?}, expected {:?}", what(), r.made, want))
}
/// what an earlier run may have left where this one writes
fn left_over(dir: &Path, names: &[&str], k: u64) {
    for n in names {
        match k % 3 {
            0 => {}
            1 => std::fs::write(dir.join(n), "$Left\n".repeat(9)).unwrap(),
            _ => std::fs::write(dir.join(n), "$Over over over over over\n".repeat(9000)).unwrap(),
        }
    }
}
/// an option in its short or long spelling, with its value attached in different ways
fn opt(a: &mut Vec<String>, style: usize, short: &str, long: &str, v: &str) {
    match style {
        0 if !short.is_empty() => a.extend([format!("-{}", short), v.into()]),
        1 => a.push(format!("--{}={}", long, v)),
        _ => a.extend([format!("--{}", long), v.into()]),
    }
}

fn main() {
    let mut h = Harness::new("C27");
    let root = h.scratch();
    let cli = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())).join("build/run/c27.cli");
    // both sides visit hash tables in the same order unless the fallback build had to be used
    let same_order = std::env::var("VERIF_STD_ORDER").is_err();
    h.assume("option values are checked on inputs of moderate size; the solvers, meshers and drawings behind the commands are the subject of C08 to C26");
    std::env::set_current_dir(&root).unwrap();
    let fresh = |i: u64, fam: &str| {
        let d = root.join(format!("{}{}", fam, i));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        d
    };

    let sources = [SQUARE, FRAME, LIST];
    let n_sizes = h.pick(2u64, 3);
    h.family("mesh", "3 bodies x 2 (thorough: 3) element sizes x 3 meshers x image path x mesh path x 3 image sizes x 3 spellings", 3 * n_sizes * 3 * 2 * 2 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (b, z, m, im, ms, px, st) = (d.take(3), d.take(n_sizes), d.take(3), d.take(2), d.take(2), d.take(3), d.take(3));
        // the default picture is large: only once per body, size and mesher
        if px == 0 && st != 0 {
            return;
        }
        let dir = fresh(i, "mesh");
        std::fs::write(dir.join("in.bbnd"), sources[b]).unwrap();
        let size = ["1", "0.5", "0.4"][z];
        let mut a: Vec<String> = vec!["mesh".into()];
        if st < 2 {
            a.push("in.bbnd".into());
        }
        opt(&mut a, st, "s", "elementsize", size);
        if m > 0 {
            opt(&mut a, st, "m", "mesher", ["", "chew", "ruppert"][m]);
        }
        if im > 0 {
            opt(&mut a, st, "I", "imageout", "picture.png");
        }
        if ms > 0 {
            opt(&mut a, st, "M", "meshout", "body.bmsh");
        }
        if px > 0 {
            opt(&mut a, st, "i", "imsize", ["", "60", "201"][px]);
        }
        if st == 2 {
            a.push("in.bbnd".into());
        }
        let what = || format!("{:?} on {:?}", a, sources[b]);
        // the same pipeline through the library
        let path = dir.join("in.bbnd");
        let lib = rec.call(|| {
            let mut t = PlaneTriangulation::new(read_to_bound(&path).ok().unwrap());
            let h: f64 = size.parse().unwrap();
            if m == 2 {
                t.ruppert_mesh(h)
            } else {
                t.chew_mesh(h)
            }
            t.assemble().ok().unwrap()
        });
        let lib = match lib {
            Ok(l) => l,
            Err(e) => return rec.fail("library-fails", format!("{}: {}", what(), e)),
        };
        let (pic, body) = (["out.png", "picture.png"][im], ["out.bmsh", "body.bmsh"][ms]);
        left_over(&dir, &[pic, body, "other.bmsh"], i / 3 + i);
        let r = run(&cli, &dir, &a);
        rec.state(i);
        rec.outcome((lib.node_count(), pic, body));
        rec.sample(what);
        if !succeeded(rec, &r, &[pic, body], &what) {
            let _ = std::fs::remove_dir_all(&dir);
            return;
        }
        match rec.call(|| read_to_elas(dir.join(body))) {
            Ok(Ok(e)) => {
                if same_order {
                    if let Some(x) = FileModel::of(&lib).differs(&FileModel::of(&e), 0.5e-6, 0.5e-3, 0.5e-5) {
                        rec.fail("mesh-differs", format!("{}: {}", what(), x));
                    }
                }
                let at = if same_order { lib.nodes() } else { e.nodes() }.iter().map(|p| (p[0], p[1])).collect();
                let mut s = elas_scene(&e, at, [1024, 60, 201][px]);
                s.tris.clear();
                if same_order {
                    image(rec, &dir, pic, &s, &what);
                }
            }
            e => rec.fail("mesh-unreadable", format!("{}: {:?}", what(), e.map(|e| e.err().map(|e| e.to_string())))),
        }
        let _ = std::fs::remove_dir_all(&dir);
    });

    h.family("linear", "2 models x 4 solvers x 3 node values x 3 colour maps x output path x 3 exaggerations x 3 image sizes x 3 show-mesh x 3 spellings", 2 * 4 * 3 * 3 * 2 * 3 * 3 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, sv, nv, cm, op, x, px, sm, st) = (d.take(2), d.take(4), d.take(3), d.take(3), d.take(2), d.take(3), d.take(3), d.take(3), d.take(3));
        // the default picture is large: one exaggeration and spelling only
        if px == 0 && (x != 0 || st != sv % 3 || op != cm % 2) {
            return;
        }
        let dir = fresh(i, "linear");
        let m = model(k);
        let path = dir.join("in.bmsh");
        save_elas(&path, m.build());
        let mut a: Vec<String> = vec!["linear".into()];
        if st != 1 {
            a.push("in.bmsh".into());
        }
        if sv > 0 {
            opt(&mut a, st, "s", "solver", ["", "gaussseidel", "cholesky", "densegauss"][sv]);
        }
        if nv > 0 {
            opt(&mut a, st, "n", "nodevalue", ["", "displacement", "vonmises"][nv]);
        }
        if cm > 0 {
            opt(&mut a, st, "c", "colormap", ["", "hot", "rgb"][cm]);
        }
        if op > 0 {
            opt(&mut a, st, "o", "out", "result.png");
        }
        if x > 0 {
            opt(&mut a, st, "x", "scale", ["", "0", "3.5"][x]);
        }
        if px > 0 {
            opt(&mut a, st, "i", "imsize", ["", "60", "201"][px]);
        }
        if sm > 0 {
            opt(&mut a, st, "", "showmesh", ["", "true", "false"][sm]);
        }
        if st == 1 {
            a.push("in.bmsh".into());
        }
        let what = || format!("{:?} on {:?}", a, m);
        let scale = [50.0, 0.0, 3.5][x];
        let lib = rec.call(|| {
            let mut e = read_to_elas(&path).ok().unwrap();
            let d = match sv {
                1 => e.calc_displacements::<GaussSeidelSolver>(),
                2 => e.calc_displacements::<CholeskyEnvelopeSolver>(),
                _ => e.calc_displacements::<DenseGaussSolver>(),
            };
            let at: Vec<(f64, f64)> = d.displaced_nodes(scale).iter().map(|p| (p[0], p[1])).collect();
            (at, d.displacement_norms(), d.von_mises())
        });
        let (at, norms, mises) = match lib {
            Ok(l) => l,
            Err(e) => return rec.fail("library-fails", format!("{}: {}", what(), e)),
        };
        let pic = ["out.png", "result.png"][op];
        left_over(&dir, &[pic, "other.png"], i / 3 + i);
        let r = run(&cli, &dir, &a);
        rec.state(i);
        rec.outcome(r.out.clone());
        rec.sample(what);
        if !succeeded(rec, &r, &[pic], &what) {
            let _ = std::fs::remove_dir_all(&dir);
            return;
        }
        let said = |k: &str| r.out.lines().find_map(|l| l.strip_prefix(k)).and_then(|v| v.trim().parse::<f64>().ok()).unwrap_or(f64::NAN);
        for (k, v) in [("max von mises:", &mises), ("max displacement:", &norms)] {
            let want = v.iter().cloned().fold(0.0, f64::max);
            let got = said(k);
            rec.check((got - want).abs() <= 1e-11 * want, "printed", || format!("{}: {} {:e} instead of {:e}", what(), k, got, want));
        }
        let mut s = elas_scene(&read_to_elas(&path).ok().unwrap(), at, [1024, 60, 201][px]);
        s.vals = Some(normal(if nv == 2 { &mises } else { &norms }));
        s.show_mesh = sm != 2;
        s.map = [Map::Default, Map::Hot, Map::Rgb][cm];
        image(rec, &dir, pic, &s, &what);
        let _ = std::fs::remove_dir_all(&dir);
    });

    h.family("modal", "2 models x 1 to 3 modes x 3 colour maps x 3 exaggerations x 2 image sizes x 3 show-mesh x 3 spellings", 2 * 3 * 3 * 3 * 2 * 3 * 3, |i, rec| {
        let mut d = Digits(i);
        let (k, n, cm, x, px, sm, st) = (d.take(2), d.take(3) + 1, d.take(3), d.take(3), d.take(2), d.take(3), d.take(3));
        if px == 0 && (st != cm || x != 0) {
            return;
        }
        let dir = fresh(i, "modal");
        let m = model(k);
        let path = dir.join("in.bmsh");
        save_elas(&path, m.build());
        let mut a: Vec<String> = vec!["modal".into()];
        if st != 1 {
            a.extend(["in.bmsh".into(), n.to_string()]);
        }
        if cm > 0 {
            opt(&mut a, st, "c", "colormap", ["", "hot", "rgb"][cm]);
        }
        if x > 0 {
            opt(&mut a, st, "x", "scale", ["", "0", "1.5"][x]);
        }
        if px > 0 {
            opt(&mut a, st, "i", "imsize", "80");
        }
        if sm > 0 {
            opt(&mut a, st, "", "showmesh", ["", "true", "false"][sm]);
        }
        if st == 1 {
            a.extend(["in.bmsh".into(), n.to_string()]);
        }
        let what = || format!("{:?} on {:?}", a, m);
        let scale = [50.0, 0.0, 1.5][x];
        let lib = rec.call(|| {
            let mut e = read_to_elas(&path).ok().unwrap();
            e.calc_modes(n)
                .iter()
                .map(|d| (d.displaced_nodes(scale).iter().map(|p| (p[0], p[1])).collect::<Vec<_>>(), d.displacement_norms(), d.frequency().unwrap()))
                .collect::<Vec<_>>()
        });
        let lib = match lib {
            Ok(l) => l,
            Err(e) => return rec.fail("library-fails", format!("{}: {}", what(), e)),
        };
        let want: Vec<String> = (0..n).map(|k| format!("out_{:02}.png", k)).collect();
        left_over(&dir, &["out_00.png", "out.png"], i / 3 + i);
        let r = run(&cli, &dir, &a);
        rec.state(i);
        rec.outcome(r.out.clone());
        rec.sample(what);
        if !succeeded(rec, &r, &want.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &what) {
            let _ = std::fs::remove_dir_all(&dir);
            return;
        }
        let lines: Vec<&str> = r.out.lines().filter(|l| l.starts_with("mode ")).collect();
        rec.check(lines.len() == n, "printed", || format!("{}: {:?}", what(), r.out));
        for (k, (at, norms, f)) in lib.iter().enumerate() {
            let said = lines.get(k).and_then(|l| l.strip_prefix(&format!("mode {:02} frequency (rad/s): ", k))).and_then(|v| v.parse::<f64>().ok()).unwrap_or(f64::NAN);
            rec.check((said - f).abs() <= 0.6e-5 + 1e-11 * f, "printed", || format!("{}: mode {} {:?} instead of {}", what(), k, lines.get(k), f));
            let mut s = elas_scene(&read_to_elas(&path).ok().unwrap(), at.clone(), [1024, 80][px]);
            s.vals = Some(normal(norms));
            s.show_mesh = sm != 2;
            s.map = [Map::Default, Map::Hot, Map::Rgb][cm];
            image(rec, &dir, &want[k], &s, &|| format!("mode {}: {}", k, what()));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });

    // many modes
    let most: &[usize] = h.pick(&[12, 103], &[9, 10, 11, 12, 99, 100, 101, 103]);
    let plain_runs = most.len();
    h.family("many modes", "a strip of 60 cells: 12 and 103 modes (thorough: 9 to 103), and 12 with every set of options, every image and printed line", plain_runs as u64 + 2 * 2 * 3, |i, rec| {
        let mut d = Digits(i.saturating_sub(plain_runs as u64));
        let (n, with) = if (i as usize) < plain_runs { (most[i as usize], None) } else { (12, Some((d.take(2), d.take(2), d.take(3)))) };
        let dir = fresh(i, "many");
        let nx = 60usize;
        let mut m = plain(1);
        m.nodes = (0..2 * (nx + 1)).map(|k| ((k / 2) as f64, (k % 2) as f64 * 0.7)).collect();
        m.elems = (0..nx).flat_map(|k| [[2 * k, 2 * k + 2, 2 * k + 3], [2 * k, 2 * k + 3, 2 * k + 1]]).collect();
        m.cons = (0..m.nodes.len()).map(|k| if k < 2 { Constraint::XYFixed } else if k % 14 == 0 { Constraint::YFixed } else { Constraint::Free }).collect();
        let path = dir.join("in.bmsh");
        save_elas(&path, m.build());
        let lib = rec.call(|| {
            let mut e = read_to_elas(&path).ok().unwrap();
            e.calc_modes(n)
                .iter()
                .map(|d| (d.displaced_nodes(if with.map_or(false, |w| w.1 == 1) { 1.5 } else { 50.0 }).iter().map(|p| (p[0], p[1])).collect::<Vec<_>>(), d.displacement_norms(), d.frequency().unwrap()))
                .collect::<Vec<_>>()
        });
        let what = || format!("{} modes of a strip {:?}", n, with);
        let lib = match lib {
            Ok(l) => l,
            Err(e) => return rec.fail("library-fails", format!("{}: {}", what(), e)),
        };
        let mut a: Vec<String> = ["modal", "in.bmsh", &n.to_string(), "-i", "70"].iter().map(|s| s.to_string()).collect();
        if let Some((sm, x, cm)) = with {
            opt(&mut a, 0, "", "showmesh", ["true", "false"][sm]);
            if x == 1 {
                opt(&mut a, 1, "x", "scale", "1.5");
            }
            if cm > 0 {
                opt(&mut a, 2, "c", "colormap", ["", "hot", "rgb"][cm]);
            }
        }
        let r = run(&cli, &dir, &a);
        rec.state(i);
        let want: Vec<String> = (0..n).map(|k| format!("out_{:02}.png", k)).collect();
        if succeeded(rec, &r, &want.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &what) {
            let lines: Vec<&str> = r.out.lines().filter(|l| l.starts_with("mode ")).collect();
            rec.check(lines.len() == n, "printed", || format!("{}: {:?}", what(), r.out));
            for (k, (at, norms, f)) in lib.iter().enumerate() {
                let said = lines.get(k).and_then(|l| l.strip_prefix(&format!("mode {:02} frequency (rad/s): ", k))).and_then(|v| v.parse::<f64>().ok()).unwrap_or(f64::NAN);
                rec.check((said - f).abs() <= 0.6e-5 + 1e-11 * f, "printed", || format!("{}: mode {} {:?} instead of {}", what(), k, lines.get(k), f));
                let mut s = elas_scene(&read_to_elas(&path).ok().unwrap(), at.clone(), 70);
                s.vals = Some(normal(norms));
                if let Some((sm, _, cm)) = with {
                    s.show_mesh = sm == 0;
                    s.map = [Map::Default, Map::Hot, Map::Rgb][cm];
                }
                image(rec, &dir, &want[k], &s, &|| format!("mode {}: {}", k, what()));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // many nodes: what is printed and drawn last
    let long: &[usize] = h.pick(&[40, 130, 300], &[40, 130, 300, 1000]);
    h.family("many nodes", "strips of 40 to 300 cells (thorough 1 000), loaded at the far end, the near end, or in the middle, both node values: the printed maxima and the image", long.len() as u64 * 3 * 2, |i, rec| {
        let mut d = Digits(i);
        let (nx, at, nv) = (long[d.take(long.len() as u64)], d.take(3), d.take(2));
        let dir = fresh(i, "long");
        let mut m = plain(1);
        m.nodes = (0..2 * (nx + 1)).map(|k| ((k / 2) as f64, (k % 2) as f64 * 0.7)).collect();
        m.elems = (0..nx).flat_map(|k| [[2 * k, 2 * k + 2, 2 * k + 3], [2 * k, 2 * k + 3, 2 * k + 1]]).collect();
        // held at one end: the free end moves most, the held one is strained most
        let end = |k: usize| if at == 1 { k >= 2 * nx } else { k < 2 };
        m.cons = (0..m.nodes.len()).map(|k| if end(k) || (at == 2 && k / 2 == nx) { Constraint::XYFixed } else { Constraint::Free }).collect();
        m.forces.clear();
        m.forces.insert([2 * nx + 1, 1, nx + 1][at], (3e3, -5e2));
        m.dist.clear();
        let path = dir.join("in.bmsh");
        save_elas(&path, m.build());
        let what = || format!("strip of {} cells loaded at {}", nx, at);
        let lib = rec.call(|| {
            let mut e = read_to_elas(&path).ok().unwrap();
            let d = e.calc_displacements::<CholeskyEnvelopeSolver>();
            (d.displaced_nodes(50.0).iter().map(|p| (p[0], p[1])).collect::<Vec<_>>(), d.displacement_norms(), d.von_mises())
        });
        let (pos, norms, mises) = match lib {
            Ok(l) => l,
            Err(e) => return rec.fail("library-fails", format!("{}: {}", what(), e)),
        };
        let a: Vec<String> = ["linear", "in.bmsh", "-s", "cholesky", "-i", "300", "-n", ["displacement", "vonmises"][nv]].iter().map(|s| s.to_string()).collect();
        let r = run(&cli, &dir, &a);
        rec.state(i);
        if succeeded(rec, &r, &["out.png"], &what) {
            let said = |k: &str| r.out.lines().find_map(|l| l.strip_prefix(k)).and_then(|v| v.trim().parse::<f64>().ok()).unwrap_or(f64::NAN);
            for (k, v) in [("max von mises:", &mises), ("max displacement:", &norms)] {
                let want = v.iter().cloned().fold(0.0, f64::max);
                rec.check((said(k) - want).abs() <= 1e-11 * want, "printed", || format!("{}: {} {:e} instead of {:e}", what(), k, said(k), want));
            }
            let mut s = elas_scene(&read_to_elas(&path).ok().unwrap(), pos, 300);
            s.vals = Some(normal([&norms, &mises][nv]));
            image(rec, &dir, "out.png", &s, &what);
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // unusual numbers
    let exag = ["-7", "-0.25", "1e3", "1e-3", "1e9", "0.1", "-0", "4e2"];
    let loads = [1e-18, 1e-9, 1e-3, 1.0, 1e3, 1e6, 1e12];
    let px = ["1", "2", "7", "130"];
    h.family("numbers", "linear analyses of 2 models under loads of 7 strengths (1e-18 to 1e12 of the plain ones) x 8 exaggerations, some negative, x 4 image sizes (1 to 130) x both node values; 1 and 2 modes likewise; and 8 analyses drawn in 2500 or 5001 pixels", 2 * (7 * 2 + 2) * 8 * 4 + 8, |i, rec| {
        let mut d = Digits(i);
        let big = i >= 2 * 16 * 8 * 4;
        let (k, what_to_do, x, z) = if big { d.0 -= 2 * 16 * 8 * 4; (d.0 as usize % 2, [0, 3 * 2 + 1, 14, 4 * 2][(d.0 / 2) as usize % 4], 1, 0) } else { (d.take(2), d.take(16), d.take(8), d.take(4)) };
        let size = if big { ["2500", "5001"][k] } else { px[z] };
        let modal = what_to_do >= 14;
        let n = if modal { what_to_do - 13 } else { 0 };
        let nv = what_to_do % 2;
        let dir = fresh(i, "numbers");
        let mut m = model(k);
        if !modal {
            let f = loads[what_to_do / 2];
            m.forces.values_mut().for_each(|v| *v = (v.0 * f, v.1 * f));
            m.dist.values_mut().for_each(|v| *v = (v.0 * f, v.1 * f));
        }
        let path = dir.join("in.bmsh");
        save_elas(&path, m.build());
        let mut a: Vec<String> = if modal { vec!["modal".into(), "in.bmsh".into(), n.to_string()] } else { vec!["linear".into(), "in.bmsh".into()] };
        a.extend([format!("--scale={}", exag[x]), format!("--imsize={}", size)]);
        if !modal {
            a.extend(["-n".into(), ["displacement", "vonmises"][nv].into()]);
        }
        let what = || format!("{:?} on {:?}", a, m);
        let scale: f64 = exag[x].parse().unwrap();
        let lib = rec.call(|| {
            let mut e = read_to_elas(&path).ok().unwrap();
            let ds = if modal { e.calc_modes(n) } else { vec![e.calc_displacements::<DenseGaussSolver>()] };
            let at = |d: &Deformation, s: f64| d.displaced_nodes(s).iter().map(|p| (p[0], p[1])).collect::<Vec<_>>();
            ds.iter().map(|d| (at(d, scale), d.displacement_norms(), d.von_mises(), (at(d, 0.0), at(d, scale.abs()), at(d, 2.0 * scale.abs())))).collect::<Vec<_>>()
        });
        let lib = match lib {
            Ok(l) => l,
            Err(e) => return rec.fail("library-fails", format!("{}: {}", what(), e)),
        };
        for (at, _, _, (still, pos, twice)) in &lib {
            // displaced positions lie on a straight line through the node, whatever the exaggeration
            for (((p, s), q), r) in at.iter().zip(still).zip(pos).zip(twice) {
                for [p, s, q, r] in [[p.0, s.0, q.0, r.0], [p.1, s.1, q.1, r.1]] {
                    let tol = 1e-12 * (s.abs() + (q - s).abs());
                    rec.check((p - s - scale.signum() * (q - s)).abs() <= tol && (r - s - 2.0 * (q - s)).abs() <= tol, "exaggerated", || format!("{}: a coordinate {:e} is drawn at {:e}, {:e} and {:e} when exaggerated {}, {} and {} times", what(), s, p, q, r, scale, scale.abs(), 2.0 * scale.abs()));
                }
            }
        }
        let pics: Vec<String> = if modal { (0..n).map(|k| format!("out_{:02}.png", k)).collect() } else { vec!["out.png".into()] };
        let names: Vec<&str> = pics.iter().map(|s| s.as_str()).collect();
        let r = run(&cli, &dir, &a);
        rec.state(i);
        rec.outcome(r.out.clone());
        if succeeded(rec, &r, &names, &what) {
            if !modal {
                let said = |k: &str| r.out.lines().find_map(|l| l.strip_prefix(k)).and_then(|v| v.trim().parse::<f64>().ok()).unwrap_or(f64::NAN);
                for (k, v) in [("max von mises:", &lib[0].2), ("max displacement:", &lib[0].1)] {
                    let want = v.iter().cloned().fold(0.0, f64::max);
                    rec.check((said(k) - want).abs() <= 1e-11 * want, "printed", || format!("{}: {} {:e} instead of {:e}", what(), k, said(k), want));
                }
            }
            for (l, pic) in lib.iter().zip(&pics) {
                let mut s = elas_scene(&read_to_elas(&path).ok().unwrap(), l.0.clone(), size.parse().unwrap());
                s.vals = Some(normal(if !modal && nv == 1 { &l.2 } else { &l.1 }));
                image(rec, &dir, pic, &s, &what);
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // where the files are does not matter
    let ins = ["in", "./in", "sub/in", "../NAME/sub/in", "ABS/sub/in", "a b.c", "sub/in.bmsh.bbnd"];
    let outs = ["", "./x", "sub/x", "ABS/deep/er/x", "x y.z", "sub/../x", "in.bbnd.in.bmsh"];
    h.family("places", "mesh, linear and modal on 7 ways to say where the input is x 7 ways to say where each output goes: the same bytes as in the plain case, there and nowhere else", 3 * 7 * 7 * 7, |i, rec| {
        let mut d = Digits(i);
        let (what, a, b, b2) = (d.take(3), d.take(7), d.take(7), d.take(7));
        if (what == 2 && b != 0) || (what > 0 && b2 != 0) {
            return;
        }
        let prepare = |fam: &str, stem: &str| {
            let dir = fresh(i, fam);
            for s in ["sub", "deep/er"] {
                std::fs::create_dir_all(dir.join(s)).unwrap();
            }
            let abs = |p: &str| p.replace("ABS", dir.to_str().unwrap()).replace("NAME", dir.file_name().unwrap().to_str().unwrap());
            let ext = ["bbnd", "bmsh", "bmsh"][what];
            let input = abs(&format!("{}.{}", stem, ext));
            if what == 0 {
                std::fs::write(dir.join(&input), FRAME).unwrap();
            } else {
                save_elas(dir.join(&input), model(1).build());
            }
            (dir.clone(), input)
        };
        let command = |dir: &Path, input: &str, pic: &str, msh: &str| -> Vec<String> {
            let abs = |s: &str, e: &str| format!("{}.{}", s, e).replace("ABS", dir.to_str().unwrap());
            let mut v: Vec<String> = match what {
                0 => vec!["mesh".into(), input.into(), "-s".into(), "1".into(), "-i".into(), "50".into()],
                1 => vec!["linear".into(), input.into(), "-i".into(), "50".into()],
                _ => vec!["modal".into(), input.into(), "2".into(), "-i".into(), "50".into()],
            };
            if pic != "" {
                v.extend([["-I", "-o", ""][what].into(), abs(pic, "png")]);
            }
            if msh != "" {
                v.extend(["-M".into(), abs(msh, "bmsh")]);
            }
            v
        };
        let (d0, i0) = prepare("plain", "in");
        let (d1, i1) = prepare("placed", ins[a]);
        let c1 = command(&d1, &i1, outs[b], outs[b2]);
        let r0 = run(&cli, &d0, &command(&d0, &i0, "", ""));
        let r1 = run(&cli, &d1, &c1);
        rec.state(i);
        rec.trace();
        rec.steps(2);
        // where each plain output is to be found
        let place = |k: &str| -> String {
            let o = if k.ends_with("png") { outs[b] } else { outs[b2] };
            if o == "" {
                return k.to_string();
            }
            let o = ["", "x", "sub/x", "deep/er/x", "x y.z", "x", "in.bbnd.in.bmsh"][outs.iter().position(|x| *x == o).unwrap()];
            format!("{}.{}", o, k.rsplit('.').next().unwrap())
        };
        let want: BTreeSet<String> = r0.made.iter().map(|k| place(k)).collect();
        if rec.check(r0.ok && r1.ok, "command-fails", || format!("{:?}: {} {}", c1, r0.err, r1.err)) && rec.check(r1.made == want, "files-written", || format!("{:?}: made {:?}, expected {:?}", c1, r1.made, want)) {
            rec.check(r0.out == r1.out, "printed", || format!("{:?}: {:?} instead of {:?}", c1, r1.out, r0.out));
            if same_order || what != 0 {
                for k in &r0.made {
                    let (x, y) = (std::fs::read(d0.join(k)).unwrap(), std::fs::read(d1.join(place(k))).unwrap());
                    rec.check(x == y, "output-differs", || format!("{:?}: {} is not the {} of the plain command", c1, place(k), k));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&d0);
        let _ = std::fs::remove_dir_all(&d1);
    });

    // refusals
    let bad: Vec<&str> = vec![
        "mesh in.bbnd",
        "mesh -s 1",
        "mesh in.bbnd -s one",
        "mesh in.bbnd -s 1 -m delaunay",
        "mesh in.bbnd -s 1 -m Chew",
        "mesh in.bbnd -s 1 -i -5",
        "mesh in.bbnd -s 1 -i big",
        "mesh in.bbnd -s 1 -i 1.5",
        "mesh in.bbnd -s 1 --unknown 3",
        "mesh in.bbnd -s 1 -q",
        "mesh in.bbnd in.bbnd -s 1",
        "mesh absent.bbnd -s 1",
        "mesh junk.bbnd -s 1",
        "mesh empty.bbnd -s 1",
        "mesh folder.bbnd -s 1",
        "mesh in.txt -s 1",
        "mesh in.bmsh -s 1",
        "mesh in.bbnd -s",
        "mesh in.bbnd -s 1 -I",
        "linear",
        "linear absent.bmsh",
        "linear junk.bmsh",
        "linear empty.bmsh",
        "linear folder.bmsh",
        "linear in.txt",
        "linear in.bbnd",
        "linear in.bmsh -s gauss",
        "linear in.bmsh -s Cholesky",
        "linear in.bmsh -n stress",
        "linear in.bmsh -c blue",
        "linear in.bmsh -x far",
        "linear in.bmsh -i huge",
        "linear in.bmsh -i -1",
        "linear in.bmsh --showmesh maybe",
        "linear in.bmsh --showmesh",
        "linear in.bmsh --mesher chew",
        "linear in.bmsh 3",
        "modal",
        "modal in.bmsh",
        "modal 2",
        "modal absent.bmsh 2",
        "modal junk.bmsh 2",
        "modal in.txt 2",
        "modal in.bmsh two",
        "modal in.bmsh -1",
        "modal in.bmsh 1.5",
        "modal in.bmsh 2 -c blue",
        "modal in.bmsh 2 -x far",
        "modal in.bmsh 2 -i huge",
        "modal in.bmsh 2 --showmesh 1",
        "modal in.bmsh 2 -n vonmises",
        "modal in.bmsh 2 -s cholesky",
        "solve in.bmsh",
        "--size 3",
    ];
    h.family("refusals", "every command line of a list of wrong ones", bad.len() as u64, |i, rec| {
        let dir = fresh(i, "bad");
        std::fs::write(dir.join("in.bbnd"), SQUARE).unwrap();
        save_elas(dir.join("in.bmsh"), model(0).build());
        std::fs::write(dir.join("in.txt"), SQUARE).unwrap();
        for j in ["junk.bbnd", "junk.bmsh"] {
            std::fs::write(dir.join(j), "polygon\n$Header\nversion x\n").unwrap();
        }
        for j in ["empty.bbnd", "empty.bmsh"] {
            std::fs::write(dir.join(j), "").unwrap();
        }
        for j in ["folder.bbnd", "folder.bmsh"] {
            std::fs::create_dir(dir.join(j)).unwrap();
        }
        let a: Vec<String> = bad[i as usize].split(' ').map(|s| s.to_string()).collect();
        let r = run(&cli, &dir, &a);
        rec.state(i);
        rec.trace();
        rec.steps(1);
        rec.outcome(r.err.clone());
        rec.check(!r.ok, "accepted", || format!("{:?} succeeded: {}", a, r.out));
        rec.check(r.made.is_empty(), "output-of-failure", || format!("{:?} made {:?}", a, r.made));
        rec.sample(|| format!("{:?}: {}", a, r.err));
        let _ = std::fs::remove_dir_all(&dir);
    });
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&root);
    h.finish()
}
