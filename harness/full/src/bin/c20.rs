//! C20: boundary files yield exactly the geometry and conditions they describe.
use bugi::element::constraint::Constraint;
use bugi::file::read_to_bound;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use hfull::*;
use mcheck::*;
use std::cell::RefCell;
use std::path::PathBuf;

thread_local! {
    static FILE: RefCell<Option<PathBuf>> = RefCell::new(None);
}
fn path(dir: &PathBuf) -> PathBuf {
    FILE.with(|f| f.borrow_mut().get_or_insert_with(|| dir.join(format!("{:?}.bbnd", std::thread::current().id()).replace(['(', ')'], ""))).clone())
}

/// each wall split in two, alone: what its middle and its halves carry
fn halves(b: &PlaneBoundary) -> Vec<((P, P), Option<P>, Option<Constraint>)> {
    let walls: Vec<Segment> = b.all_walls().collect();
    // of a long boundary, a few hundred evenly spread
    let step = (walls.len() + 299) / 300;
    walls
        .iter()
        .step_by(step.max(1))
        .map(|s| {
            let (p, q) = s.get();
            let mut c = b.clone();
            let (_, _, m) = c.split_segment(*s);
            let m: P = Segment(m, m).get().0.into();
            let o = Bound::of(&c);
            let f: Vec<P> = o.forces.iter().filter(|f| f.0 == key(m) || f.1 == key(m)).map(|f| f.2).collect();
            let force = if f.len() == 2 && f[0] == f[1] { Some(f[0]) } else if f.is_empty() { None } else { Some((f64::NAN, f64::NAN)) };
            let con = o.cons.iter().find(|c| c.0 == key(m)).map(|c| c.1);
            (undirected(p.into(), q.into()), force, con)
        })
        .collect()
}

fn judge(rec: &mut Rec, dir: &PathBuf, text: &str, what: &dyn Fn() -> String) {
    let want = read_bbnd(text);
    let p = path(dir);
    std::fs::write(&p, text).unwrap();
    let got = match rec.call(|| read_to_bound(&p).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    rec.trace();
    rec.state(text);
    match (&want, &got) {
        (Reading::Unspecified(w), _) => rec.outcome(("unspecified", w)),
        (Reading::Reject(w), Err(_)) => rec.outcome(("rejected", w)),
        (Reading::Reject(w), Ok(b)) => rec.fail("misread", format!("{}: malformed ({}) but read as {:?}\n{}", what(), w, Bound::of(b), text)),
        (Reading::Accept((m, cons)), Ok(b)) => {
            rec.outcome("read");
            match rec.call(|| (Bound::of(b), if m.walls.is_empty() { vec![] } else { halves(b) })) {
                Err(e) => rec.fail("unusable", format!("{}: {}\n{}", what(), e, text)),
                Ok((o, h)) => {
                    if let Some(d) = m.differs(&o) {
                        rec.fail("wrong-boundary", format!("{}: want / got {}\n{}", what(), d, text));
                    }
                    for (s, f, c) in h {
                        let wf = m.forces.iter().find(|f| (f.0, f.1) == s).map(|f| f.2);
                        let wc = cons.iter().find(|c| undirected(c.0, c.1) == s).map(|c| c.2);
                        rec.check(f == wf && c == wc, "wrong-segment", || format!("{}: segment {:?} carries load {:?} and constraint {:?}, want {:?} and {:?}\n{}", what(), s, f, c, wf, wc, text));
                    }
                }
            }
        }
        (Reading::Accept(_), Err(e)) => rec.fail("refused", format!("{}: well formed but {}\n{}", what(), e, text)),
    }
}

const FILES: [&str; 5] = [
    "polygon\n0 0 a\n3 0 b\n3 10 c\n0 10 d\n0 5 e\n0 4 f\nend\ncondition planestress 3\nmaterial AL6061\ndistributed_constraint a b y\ndistributed_constraint e f x\ndistributed_force d c 0 200000000",
    "polygon\n0 0 a\n1 0 b\n1 1 c\n0 1 d\nend\npolygon\n0.25 0.25\n0.25 0.75\n0.75 0.75\n0.75 0.25\nend\ncondition axisymmetric\nmaterial TEST\ndistributed_constraint a b xy\ndistributed_constraint c d angle:0.5\ndistributed_force d a -1.5e2 +0",
    "material TEST\ndistributed_force p1 Q 1 2\ndistributed_constraint Q 33 xy\ncondition planestrain .25\npolygon\n-1 -1.5 p1\n2e0 0 Q\n1 1.e0 33\nend",
    "condition axisymmetric\npolygon\n0 0\n1 0 b\n1 1 c\nend\ndistributed_constraint b c x",
    "polygon\n0 0 a\n4 0 b\n4 4 c\n0 4 d\nend\npolygon\n1 1 e\n1 2 f\n2 1 g\nend\nmaterial AL6061\ndistributed_constraint a b x\ndistributed_constraint b c y\ndistributed_constraint e f xy\ndistributed_force c b 1 0\ndistributed_force f g 0 1\ncondition planestress 1",
];
const CHARS: [char; 20] = ['0', '1', '9', '-', '+', '.', 'e', 'E', ' ', '\n', '\t', '\r', '#', 'x', 'y', 'a', 'b', ':', '_', 'é'];

fn words(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = false;
    for c in t.chars() {
        let w = !" \n:_".contains(c);
        if w && word {
            out.last_mut().unwrap().push(c);
        } else {
            out.push(c.to_string());
        }
        word = w;
    }
    out
}

fn main() {
    let mut h = Harness::new("C20");
    h.assume("blank lines, labels given twice, conditions on pairs of vertices that are not segments, boundaries that are not simple polygons and angles meeting other constraints are not specified by the format");
    let dir = h.scratch();
    let d = &dir;
    h.family("valid", "the valid files themselves and an empty one", FILES.len() as u64 + 1, |i, rec| {
        let t = FILES.get(i as usize).copied().unwrap_or("");
        assert!(matches!(read_bbnd(t), Reading::Accept(_)), "{:?}", read_bbnd(t));
        judge(rec, d, t, &|| "as is".into());
        rec.sample(|| t.to_string());
    });
    for (f, t) in FILES.iter().enumerate() {
        let lines: Vec<&str> = t.split('\n').collect();
        let n = lines.len() as u64;
        let chars: Vec<char> = t.chars().collect();
        let (nc, na) = (chars.len() as u64, CHARS.len() as u64);
        h.family(&format!("characters {}", f), "every deletion, replacement and insertion of one character over an alphabet of 20, and every truncation", nc * (2 + 2 * na), |i, rec| {
            let mut x = Digits(i);
            let (at, op) = (x.take(nc), x.take(2 + 2 * na));
            let mut c = chars.clone();
            let na = na as usize;
            let what = if op == 0 {
                c.remove(at);
                format!("file {} without character {}", f, at)
            } else if op == 1 {
                c.truncate(at);
                format!("file {} up to character {}", f, at)
            } else if op < 2 + na {
                c[at] = CHARS[op - 2];
                format!("file {} with character {} made {:?}", f, at, CHARS[op - 2])
            } else {
                c.insert(at, CHARS[op - 2 - na]);
                format!("file {} with {:?} before character {}", f, CHARS[op - 2 - na], at)
            };
            judge(rec, d, &c.into_iter().collect::<String>(), &|| what.clone());
        });
        h.family(&format!("tails {}", f), "every one, two or three characters of the alphabet after the end", na + na * na + na * na * na, |mut i, rec| {
            let mut len = 1;
            while i >= na.pow(len) {
                i -= na.pow(len);
                len += 1;
            }
            let mut x = Digits(i);
            let tail: String = (0..len).map(|_| CHARS[x.take(na) as usize]).collect();
            judge(rec, d, &format!("{}{}", t, tail), &|| format!("file {} with {:?} after its end", f, tail));
        });
        h.family(&format!("lines {}", f), "every line deleted, doubled, moved anywhere, exchanged with or replaced by any other", n * n * 4 + n, |i, rec| {
            let mut l: Vec<&str> = lines.clone();
            let what;
            if i < n {
                l.remove(i as usize);
                what = format!("file {} without line {}", f, i);
            } else {
                let mut x = Digits(i - n);
                let (op, a, b) = (x.take(4), x.take(n), x.take(n));
                match op {
                    0 => l.swap(a, b),
                    1 => l[a] = lines[b],
                    2 => {
                        let v = l.remove(a);
                        l.insert(b, v);
                    }
                    _ => l.insert(b, lines[a]),
                }
                what = format!("file {}: lines {} and {} (operation {})", f, a, b, op);
            }
            judge(rec, d, &l.join("\n"), &|| what.clone());
        });
        let w = words(t);
        let idx: Vec<usize> = (0..w.len()).filter(|&k| !" \n".contains(w[k].as_str())).collect();
        let m = idx.len() as u64;
        h.family(&format!("words {}", f), "every word (number, name, label) deleted, doubled, replaced by or exchanged with any other", m * m * 2 + 2 * m, |i, rec| {
            let mut v = w.clone();
            let what;
            if i < 2 * m {
                let a = idx[(i / 2) as usize];
                if i % 2 == 0 {
                    v.remove(a);
                } else {
                    let y = v[a].clone();
                    v.insert(a, y);
                }
                what = format!("file {} with word {:?} ({}) {}", f, w[a], a, ["deleted", "doubled"][i as usize % 2]);
            } else {
                let mut x = Digits(i - 2 * m);
                let (op, a, b) = (x.take(2), idx[x.take(m)], idx[x.take(m)]);
                if op == 0 {
                    v[a] = w[b].clone();
                } else {
                    v.swap(a, b);
                }
                what = format!("file {}: words {:?} ({}) and {:?} ({}) {}", f, w[a], a, w[b], b, ["the first replaced by the second", "exchanged"][op]);
            }
            judge(rec, d, &v.concat(), &|| what.clone());
        });
    }
    // every order of the items of a file
    h.family("item orders", "every order of 7 items (2 polygons, condition, material, 2 constraints, load)", 5040, |i, rec| {
        let items = [
            "polygon\n0 0 a\n4 0 b\n4 4 c\n0 4 d\nend",
            "polygon\n1 1 e\n1 2 f\n2 1 g\nend",
            "condition planestress 1",
            "material AL6061",
            "distributed_constraint d a x",
            "distributed_constraint a b y",
            "distributed_force g f 0 1",
        ];
        let p = nth_perm(7, i as usize);
        let t: Vec<&str> = p.iter().map(|&k| items[k]).collect();
        judge(rec, d, &t.join("\n"), &|| format!("order {:?}", p));
    });
    // the grammar: conditions on every segment
    let cs = ["", "x", "y", "xy", "angle:0.3"];
    h.family("conditions", "a square, every constraint of 5 on every side, given forwards or backwards, with every set of loaded sides", 5u64.pow(4) * 16 * 4, |i, rec| {
        let mut x = Digits(i);
        let c: Vec<usize> = (0..4).map(|_| x.take(5)).collect();
        let (loads, rev) = (x.take(16), x.take(4));
        let l = ["a", "b", "c", "d"];
        let mut t = "polygon\n0 0 a\n4 0 b\n4 4 c\n0 4 d\nend".to_string();
        for k in 0..4 {
            let (mut p, mut q) = (l[k], l[(k + 1) % 4]);
            if c[k] > 0 {
                if rev & 1 == 1 {
                    std::mem::swap(&mut p, &mut q);
                }
                t += &format!("\ndistributed_constraint {} {} {}", p, q, cs[c[k]]);
            }
            let (mut p, mut q) = (l[k], l[(k + 1) % 4]);
            if loads >> k & 1 == 1 {
                if rev & 2 == 2 {
                    std::mem::swap(&mut p, &mut q);
                }
                t += &format!("\ndistributed_force {} {} {} -{}.5", p, q, k, k);
            }
        }
        judge(rec, d, &t, &|| format!("case {}", i));
    });
    h.family("vertices", "every ring of 3 to 5 vertices on a 3x3 grid, every set of labelled vertices of a triangle", (3..=5u32).map(|n| 9u64.pow(n)).sum::<u64>(), |mut i, rec| {
        let mut n = 3;
        while i >= 9u64.pow(n) {
            i -= 9u64.pow(n);
            n += 1;
        }
        let mut x = Digits(i);
        let v: Vec<String> = (0..n)
            .map(|k| {
                let (a, b) = (x.take(3), x.take(3));
                if (i + k as u64) % 3 == 0 {
                    format!("{} {}.5", a as i64 - 1, b)
                } else {
                    format!("{} {}.5 v{}", a as i64 - 1, b, k)
                }
            })
            .collect();
        judge(rec, d, &format!("polygon\n{}\nend\nmaterial TEST", v.join("\n")), &|| format!("ring {:?}", v));
    });
    h.family("two rings", "a square with a triangle or square hole at every place of a grid, in both senses", 7 * 7 * 4, |i, rec| {
        let mut x = Digits(i);
        let (a, b, k) = (x.take(7) as f64 * 0.5, x.take(7) as f64 * 0.5, x.take(4));
        let mut r = vec![(a, b), (a, b + 1.0), (a + 1.0, b + 1.0), (a + 1.0, b)];
        if k & 1 == 1 {
            r.pop();
        }
        if k & 2 == 2 {
            r.reverse();
        }
        let v: Vec<String> = r.iter().map(|p| format!("{} {}", p.0, p.1)).collect();
        judge(rec, d, &format!("polygon\n0 0 a\n4 0 b\n4 4 c\n0 4 d\nend\npolygon\n{}\nend\ndistributed_force a b 1 1", v.join("\n")), &|| format!("hole {:?}", r));
    });
    // labels that are easily taken for each other, or for words of the format
    let names = ["a", "aa", "A", "1", "01", "a1", "1a", "x", "y", "xy", "end", "polygon", "condition", "material", "angle", "0"];
    let nl = names.len() as u64;
    h.family("labels", "a triangle with every three of 16 easily confused labels, a condition on each side, and a reference to each label that is not there", nl * nl * nl * (nl + 1), |i, rec| {
        let mut x = Digits(i);
        let l: Vec<&str> = (0..3).map(|_| names[x.take(nl)]).collect();
        let r = x.take(nl + 1);
        if l[0] == l[1] || l[0] == l[2] || l[1] == l[2] || (r < names.len() && l.contains(&names[r])) {
            return;
        }
        let mut t = format!("polygon\n0 0 {}\n4 0 {}\n0 3 {}\nend\n", l[0], l[1], l[2]);
        t += &format!("distributed_constraint {} {} x\ndistributed_constraint {} {} y\n", l[0], l[1], l[2], l[1]);
        t += &format!("distributed_force {} {} 1 2\ndistributed_force {} {} 3 4\ndistributed_force {} {} 5 6", l[0], l[1], l[1], l[2], l[2], l[0]);
        if r < names.len() {
            t += &format!("\ndistributed_{} {} {}", ["force", "constraint"][r % 2], names[r], l[r % 3]);
            t += [" 7 8", " xy"][r % 2];
        }
        judge(rec, d, &t, &|| format!("labels {:?}, then {:?}", l, names.get(r)));
    });
    // labels told apart by one character, at any place of any length
    let longs = [2usize, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000];
    h.family("long labels", "a triangle whose labels of up to 1000 characters differ in one character, at the start, in the middle or at the end, or are the start of one another, and one reference to a label that is not there", longs.len() as u64 * 4 * 7, |i, rec| {
        let mut x = Digits(i);
        let (n, at, r) = (longs[x.take(longs.len() as u64)], x.take(4), x.take(7));
        let named = |k: usize| {
            let mut s: Vec<char> = (0..n).map(|j| (b'a' + (j * 7 % 26) as u8) as char).collect();
            if at < 3 {
                s[[0, n / 2, n - 1][at]] = (b'0' + k as u8) as char;
            } else {
                s.truncate(n - k.min(n - 1));
                if k >= n {
                    s.push((b'0' + k as u8) as char);
                }
            }
            s.into_iter().collect::<String>()
        };
        let l: Vec<String> = (0..4).map(named).collect();
        let mut t = format!("polygon\n0 0 {}\n4 0 {}\n0 3 {}\nend\n", l[0], l[1], l[2]);
        t += &format!("distributed_constraint {} {} x\ndistributed_constraint {} {} y\n", l[0], l[1], l[2], l[1]);
        t += &format!("distributed_force {} {} 1 2\ndistributed_force {} {} 3 4\ndistributed_force {} {} 5 6", l[0], l[1], l[1], l[2], l[2], l[0]);
        if r > 0 {
            let (a, b) = if r > 3 { (&l[r % 3], &l[3]) } else { (&l[3], &l[r % 3]) };
            t += &if r % 2 == 0 { format!("\ndistributed_force {} {} 7 8", a, b) } else { format!("\ndistributed_constraint {} {} xy", a, b) };
        }
        judge(rec, d, &t, &|| format!("labels of {} characters", n));
    });
    let nums = ["0", "-1", "+2", "3.", ".5", "1e3", "1E-2", "-0.0", "00", "1e", "e1", ".", "-", "+", "", "1.2.3", "--1", "1,5", "0x1", "1_0", "1e+", " 1", "1 ", "18446744073709551616", "99999999999999999999999999", "4294967296", "1e400", "nan", "x", "inf", "1e-3", "0.000001", "123456789.123456789", "1/2", "0.1e1", "1d3"];
    let w = words(FILES[1]);
    let places: Vec<usize> = (0..w.len()).filter(|&k| w[k].chars().next().map_or(false, |c| c.is_ascii_digit() || c == '-' || c == '+')).collect();
    let (np, nn) = (places.len() as u64, nums.len() as u64);
    h.family("numbers", "36 spellings in place of every number of a file", np * nn, |i, rec| {
        let (k, n) = (places[(i % np) as usize], nums[(i / np) as usize]);
        let mut v = w.clone();
        v[k] = n.to_string();
        judge(rec, d, &v.concat(), &|| format!("word {} ({:?}) made {:?}", k, w[k], n));
    });
    // many vertices, many holes, conditions on all of them
    let sizes = [5usize, 9, 10, 11, 99, 100, 101, 255, 256, 257, 300, h.pick(700, 3000) as usize];
    h.family("many", "rings of up to 700 (thorough 3 000) labelled vertices with a condition on every side, every third, or the last alone, and one reference past the end", sizes.len() as u64 * 4 * 2, |i, rec| {
        let mut x = Digits(i);
        let (n, kind, bad) = (sizes[x.take(sizes.len() as u64)], x.take(4), x.take(2) == 1);
        let mut t = "polygon\n".to_string();
        for k in 0..n {
            let a = k as f64 / n as f64 * std::f64::consts::TAU;
            t += &format!("{} {} v{}\n", 100.0 * a.cos(), 80.0 * a.sin(), k);
        }
        t += "end";
        for k in 0..n {
            let on = match kind {
                0 => false,
                1 => true,
                2 => k % 3 == 0,
                _ => k + 1 == n,
            };
            if on {
                t += &format!("\ndistributed_constraint v{} v{} {}", k, (k + 1) % n, ["x", "y", "xy"][k % 3]);
                t += &format!("\ndistributed_force v{} v{} {} -{}.5", (k + 1) % n, k, k, k);
            }
        }
        if bad {
            t += &format!("\ndistributed_force v{} v{} 1 1", n - 1, n);
        }
        judge(rec, d, &t, &|| format!("{} vertices, kind {}, reference past the end: {}", n, kind, bad));
    });
    h.family("many holes", "a plate with up to 12 x 12 square holes, each loaded on its first side and held on its third", 12, |i, rec| {
        let n = i as usize + 1;
        let size = 4 * n;
        let mut t = format!("polygon\n0 0\n{} 0\n{} {}\n0 {}\nend", size, size, size, size);
        for a in 0..n {
            for b in 0..n {
                let (u, v) = (4 * a + 1, 4 * b + 1);
                t += &format!("\npolygon\n{} {} p{2}q{3}\n{0} {4} r{2}s{3}\n{5} {4} t{2}u{3}\n{5} {1} v{2}w{3}\nend", u, v, a, b, v + 2, u + 2);
                t += &format!("\ndistributed_force p{0}q{1} r{0}s{1} {0} {1}\ndistributed_constraint v{0}w{1} t{0}u{1} {2}", a, b, ["x", "y"][(a + b) % 2]);
            }
        }
        judge(rec, d, &t, &|| format!("{} holes", n * n));
    });
    // walls that cross, in one ring or between two, however they are given
    h.family("crossings", "a star ring of 5 to 11 vertices at every stride, and every place of a bar laid over a plate, in both senses and orders", 7 * 5 + 17 * 17 * 4, |i, rec| {
        let t = if i < 35 {
            let (n, s) = (5 + i as usize % 7, 1 + i as usize / 7);
            let v: Vec<String> = (0..n)
                .map(|k| {
                    let a = (k * s) as f64 / n as f64 * std::f64::consts::TAU;
                    format!("{} {}", 7.0 * a.cos(), 5.0 * a.sin())
                })
                .collect();
            format!("polygon\n{}\nend", v.join("\n"))
        } else {
            let mut x = Digits(i - 35);
            let (a, b, k) = (x.take(17) as f64 * 0.5 - 2.25, x.take(17) as f64 * 0.5 - 2.25, x.take(4));
            let mut r = vec![(a, b), (a + 1.5, b + 0.25), (a + 1.5, b + 0.5), (a, b + 0.25)];
            if k & 1 == 1 {
                r.reverse();
            }
            let v: Vec<String> = r.iter().map(|p| format!("{} {}", p.0, p.1)).collect();
            let (p, q) = ("polygon\n0 0\n4 0\n4 4\n0 4\nend".to_string(), format!("polygon\n{}\nend", v.join("\n")));
            if k & 2 == 2 {
                q + "\n" + &p
            } else {
                p + "\n" + &q
            }
        };
        judge(rec, d, &t, &|| format!("case {}", i));
    });
    let (bound, cap) = (h.pick(1, 2), h.pick(300u64, 5000));
    h.family("hash orders", "the valid files under hash visiting orders (deviations within the bound)", FILES.len() as u64, |i, rec| {
        rec.explore(Mode::Front, bound, cap, |rec| judge(rec, d, FILES[i as usize], &|| format!("file {}", i)));
        rec.explore(Mode::Reversed, 64, 64, |rec| judge(rec, d, FILES[i as usize], &|| format!("file {}", i)));
    });
    h.family("paths", "no such file, no or another extension, bytes that are not text", 7, |i, rec| {
        rec.state(i);
        let p = dir.join(["missing.bbnd", "plain", "other.bmsh", "other.BBND2", "x.bbnd.txt", "bytes.bbnd", "good.bbnd"][i as usize]);
        let mut b = FILES[0].as_bytes().to_vec();
        if i == 5 {
            b[12] = 0xff;
        }
        if i > 0 {
            std::fs::write(&p, b).unwrap();
        }
        let got = rec.call(|| read_to_bound(&p).is_ok());
        rec.trace();
        rec.check(got.clone().unwrap_or(false) == (i == 6), "paths", || format!("{:?}: {:?}", p, got));
    });
    h.finish()
}

fn nth_perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for m in (1..=n).rev() {
        let f: usize = (1..m).product();
        out.push(pool.remove(k / f % m));
        k %= f;
    }
    out
}
