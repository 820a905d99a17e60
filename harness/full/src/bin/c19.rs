//! C19: mesh files are read as written or rejected, never misread.
use bugi::element::constraint::Constraint;
use bugi::file::read_to_elas;
use hfull::*;
use mcheck::*;
use std::cell::RefCell;
use std::path::PathBuf;

thread_local! {
    static FILE: RefCell<Option<PathBuf>> = RefCell::new(None);
}
fn path(dir: &PathBuf) -> PathBuf {
    FILE.with(|f| f.borrow_mut().get_or_insert_with(|| dir.join(format!("{:?}.bmsh", std::thread::current().id()).replace(['(', ')'], ""))).clone())
}

/// the real outcome of reading this text: the model, or why not
fn real(rec: &mut Rec, dir: &PathBuf, text: &str) -> Result<FileModel, String> {
    let p = path(dir);
    std::fs::write(&p, text).unwrap();
    match rec.call(|| read_to_elas(&p).map(|e| FileModel::of(&e)).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

fn judge(rec: &mut Rec, dir: &PathBuf, text: &str, what: &dyn Fn() -> String) {
    let want = read_bmsh(text);
    let got = real(rec, dir, text);
    rec.trace();
    rec.state(text);
    match (&want, &got) {
        (Reading::Unspecified(w), _) => rec.outcome(("unspecified", w)),
        (Reading::Reject(w), Err(_)) => rec.outcome(("rejected", w)),
        (Reading::Reject(w), Ok(m)) => rec.fail("misread", format!("{}: malformed ({}) but read as {:?}\n{}", what(), w, m, text)),
        (Reading::Accept(m), Ok(g)) => {
            rec.outcome("read");
            if let Some(d) = m.differs(g, 0.0, 0.0, 0.0) {
                rec.fail("wrong-model", format!("{}: {}\n{}", what(), d, text));
            }
        }
        (Reading::Accept(_), Err(e)) => rec.fail("refused", format!("{}: well formed but {}\n{}", what(), e, text)),
    }
}

/// the same outcome as the unchanged text
fn same(rec: &mut Rec, dir: &PathBuf, text: &str, base: &FileModel, what: &dyn Fn() -> String) {
    rec.state(text);
    rec.trace();
    match real(rec, dir, text) {
        Ok(g) => {
            if let Some(d) = base.differs(&g, 0.0, 0.0, 0.0) {
                rec.fail("comment-changes", format!("{}: {}\n{}", what(), d, text));
            }
        }
        Err(e) => rec.fail("comment-refused", format!("{}: {}\n{}", what(), e, text)),
    }
}

const FILES: [&str; 5] = [
    // everything once
    "$Header\nversion 1\nmaterial AL6061\ncondition planestress 0.5\n$EndHeader\n\n$Nodes\ncount 4\n0 0.0/0.0\n1 2.5/0.0\n2 2.0/-1.5\n3 -1.25/3\n$EndNodes\n\n$Elements\ncount 2\n0 0/1/3\n1 0/2/1\n$EndElements\n\n$Constraints\ncount 2\n0 xy\n2 angle:0.5\n$EndConstraints\n\n$Forces\ncount 2\n1 10.5/-20\n3 0/1e3\n$EndForces\n\n$DistForces\ncount 1\n1 3 5.0/-7.5\n$EndDistForces",
    // nothing
    "$Header\nversion 1\nmaterial TEST\ncondition axisymmetric\n$EndHeader\n$Nodes\ncount 0\n$EndNodes\n$Elements\ncount 0\n$EndElements\n$Constraints\ncount 0\n$EndConstraints\n$Forces\ncount 0\n$EndForces\n$DistForces\ncount 0\n$EndDistForces\n",
    // comments
    "# a file\n$Header\nversion 1\n# stuff\nmaterial TEST\ncondition planestrain 12\n$EndHeader\n# nodes\n$Nodes\n\n# three\ncount 3\n0 1/1\n# second\n1 2/1\n\n2 1/2\n$EndNodes\n$Elements\ncount 1\n0 2/0/1\n$EndElements\n$Constraints\ncount 3\n0 x\n0 y\n1 y\n$EndConstraints\n$Forces\ncount 0\n$EndForces\n$DistForces\ncount 2\n0 1 1/0\n1 0 2/0\n$EndDistForces\n",
    // number formats
    "$Header\nversion 1\nmaterial AL6061\ncondition planestress 1e-3\n$EndHeader\n$Nodes\ncount 3\n0 +1.5/.5\n1 -2.e1/1E2\n2 3.25e-2/-0\n$EndNodes\n$Elements\ncount 1\n0 0/1/2\n$EndElements\n$Constraints\ncount 1\n2 angle:-1.5e-1\n$EndConstraints\n$Forces\ncount 1\n0 1e5/-.25\n$EndForces\n$DistForces\ncount 0\n$EndDistForces\n",
    // eleven nodes (two-digit numbers)
    "$Header\nversion 1\nmaterial TEST\ncondition planestress 2\n$EndHeader\n$Nodes\ncount 11\n0 0/0\n1 1/0\n2 2/0\n3 3/0\n4 4/0\n5 5/0\n6 6/0\n7 7/0\n8 8/0\n9 9/0\n10 5/9\n$EndNodes\n$Elements\ncount 2\n0 0/1/10\n1 1/9/10\n$EndElements\n$Constraints\ncount 2\n0 xy\n10 x\n$EndConstraints\n$Forces\ncount 1\n10 1/2\n$EndForces\n$DistForces\ncount 1\n10 9 3/4\n$EndDistForces\n",
];

const CHARS: [char; 24] = ['0', '1', '2', '3', '9', '-', '+', '.', '/', 'e', 'E', ' ', '\n', '\t', '\r', '#', '$', 'x', 'y', 'a', ':', 'n', 'é', ','];

/// split into words and the separators between them
fn words(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = false;
    for c in t.chars() {
        let w = !" /\n:".contains(c);
        if w && word {
            out.last_mut().unwrap().push(c);
        } else {
            out.push(c.to_string());
        }
        word = w;
    }
    out
}

fn main() {
    let mut h = Harness::new("C19");
    h.assume("points of one or three coordinates, repeated forces at one place, elements without area and numbers that are not finite are not specified by the format");
    let dir = h.scratch();
    let d = &dir;
    h.family("valid", "the valid files themselves", FILES.len() as u64, |i, rec| {
        let t = FILES[i as usize];
        assert!(matches!(read_bmsh(t), Reading::Accept(_)), "{:?}", read_bmsh(t));
        judge(rec, d, t, &|| "as is".into());
        rec.sample(|| t.to_string());
    });
    for (f, t) in FILES.iter().enumerate() {
        let base = match read_bmsh(t) {
            Reading::Accept(m) => m,
            r => panic!("{:?}", r),
        };
        let lines: Vec<&str> = t.split('\n').collect();
        let n = lines.len();
        let junk = ["", "#", "# a comment", "#$EndNodes", "#1 2/3", "##\n\n#"];
        let k = junk.len();
        h.family(&format!("comments {}", f), "a comment or blank line before any one or two lines: the same model", ((n + 1) * (n + 1) * k * k) as u64, |i, rec| {
            let mut x = Digits(i);
            let (a, b, p, q) = (x.take(n as u64 + 1), x.take(n as u64 + 1), x.take(k as u64), x.take(k as u64));
            if a > b || (a == b && p > 0) {
                return;
            }
            let mut l: Vec<&str> = lines.clone();
            l.insert(b, junk[q]);
            l.insert(a, junk[p]);
            same(rec, d, &l.join("\n"), &base, &|| format!("file {}: {:?} before line {}, {:?} before line {}", f, junk[p], a, junk[q], b));
        });
        let chars: Vec<char> = t.chars().collect();
        let (nc, na) = (chars.len() as u64, CHARS.len() as u64);
        h.family(&format!("characters {}", f), "every deletion, replacement and insertion of one character over an alphabet of 24, and every truncation", nc * (2 + 2 * na), |i, rec| {
            let mut x = Digits(i);
            let (at, op) = (x.take(nc), x.take(2 + 2 * na));
            let mut c = chars.clone();
            let na = na as usize;
            let what = if op == 0 {
                c.remove(at);
                format!("file {} without character {}", f, at)
            } else if op == 1 {
                c.truncate(at);
                format!("file {} up to character {}", f, at)
            } else if op < 2 + na {
                c[at] = CHARS[op - 2];
                format!("file {} with character {} made {:?}", f, at, CHARS[op - 2])
            } else {
                c.insert(at, CHARS[op - 2 - na]);
                format!("file {} with {:?} before character {}", f, CHARS[op - 2 - na], at)
            };
            judge(rec, d, &c.into_iter().collect::<String>(), &|| what.clone());
        });
        let n = n as u64;
        h.family(&format!("tails {}", f), "every one, two or three characters of the alphabet after the end", na + na * na + na * na * na, |mut i, rec| {
            let mut len = 1;
            while i >= na.pow(len) {
                i -= na.pow(len);
                len += 1;
            }
            let mut x = Digits(i);
            let tail: String = (0..len).map(|_| CHARS[x.take(na) as usize]).collect();
            judge(rec, d, &format!("{}{}", t, tail), &|| format!("file {} with {:?} after its end", f, tail));
        });
        h.family(&format!("lines {}", f), "every line deleted, doubled, moved anywhere, exchanged with or replaced by any other", n * n * 4 + n, |i, rec| {
            let mut l: Vec<&str> = lines.clone();
            let what;
            if i < n {
                l.remove(i as usize);
                what = format!("file {} without line {}", f, i);
            } else {
                let mut x = Digits(i - n);
                let (op, a, b) = (x.take(4), x.take(n), x.take(n));
                match op {
                    0 => l.swap(a, b),
                    1 => l[a] = lines[b],
                    2 => {
                        let v = l.remove(a);
                        l.insert(b, v);
                    }
                    _ => l.insert(b, lines[a]),
                }
                what = format!("file {}: lines {} and {}: {}", f, a, b, ["exchanged", "the first replaced by the second", "the first moved to the second", "the first repeated before the second"][op]);
            }
            judge(rec, d, &l.join("\n"), &|| what.clone());
        });
        let w = words(t);
        let idx: Vec<usize> = (0..w.len()).filter(|&k| !" \n".contains(w[k].as_str())).collect();
        let m = idx.len() as u64;
        h.family(&format!("words {}", f), "every word (number, name, separator) deleted, doubled, replaced by or exchanged with any other", m * m * 2 + 2 * m, |i, rec| {
            let mut v = w.clone();
            let what;
            if i < 2 * m {
                let a = idx[(i / 2) as usize];
                if i % 2 == 0 {
                    v.remove(a);
                } else {
                    let y = v[a].clone();
                    v.insert(a, y);
                }
                what = format!("file {} with word {:?} ({}) {}", f, w[a], a, ["deleted", "doubled"][i as usize % 2]);
            } else {
                let mut x = Digits(i - 2 * m);
                let (op, a, b) = (x.take(2), idx[x.take(m)], idx[x.take(m)]);
                if op == 0 {
                    v[a] = w[b].clone();
                } else {
                    v.swap(a, b);
                }
                what = format!("file {}: words {:?} ({}) and {:?} ({}) {}", f, w[a], a, w[b], b, ["the first replaced by the second", "exchanged"][op]);
            }
            judge(rec, d, &v.concat(), &|| what.clone());
        });
        // two things wrong at once
        let sub: Vec<usize> = (0..chars.len()).filter(|k| k % h.pick(5, 2) == 0).collect();
        let s = sub.len() as u64;
        h.family(&format!("two deletions {}", f), "every pair of deleted characters at every fifth (thorough second) position", s * s, |i, rec| {
            let (a, b) = (sub[(i % s) as usize], sub[(i / s) as usize]);
            if a >= b {
                return;
            }
            let c: String = chars.iter().enumerate().filter(|(k, _)| *k != a && *k != b).map(|x| *x.1).collect();
            judge(rec, d, &c, &|| format!("file {} without characters {} and {}", f, a, b));
        });
    }
    // numbers in every place
    let nums = ["0", "-1", "+2", "3.", ".5", "1e3", "1E-2", "-0.0", "00", "1e", "e1", ".", "-", "+", "", "1.2.3", "--1", "1,5", "0x1", "1_0", "1e+", " 1", "1 ", "18446744073709551616", "99999999999999999999999999", "4294967296", "1e400", "nan", "x"];
    let w = words(FILES[0]);
    let places: Vec<usize> = (0..w.len()).filter(|&k| w[k].chars().next().map_or(false, |c| c.is_ascii_digit() || c == '-')).collect();
    let (np, nn) = (places.len() as u64, nums.len() as u64);
    h.family("numbers", "29 spellings in place of every number of a file", np * nn, |i, rec| {
        let (k, n) = (places[(i % np) as usize], nums[(i / np) as usize]);
        let mut v = w.clone();
        v[k] = n.to_string();
        judge(rec, d, &v.concat(), &|| format!("word {} ({:?}) made {:?}", k, w[k], n));
    });
    // large files
    let sizes = [10usize, 11, 99, 100, 101, 255, 256, 257, 300, 1000, 1001, 4097, h.pick(66_000, 140_000) as usize];
    let slips: [i64; 10] = [0, 1, -1, 10, -10, 256, -256, 65_536, -65_536, 1 << 32];
    h.family("large", "files of up to 66 000 (thorough 140 000) nodes with elements, constraints and loads up to the last, comments between or not, and each count of the five off by 0, 1, 10, 256, 65 536 or 2^32", (sizes.len() * 2 * (1 + 5 * 9)) as u64, |i, rec| {
        let mut x = Digits(i);
        let (n, comments, slip) = (sizes[x.take(sizes.len() as u64)], x.take(2) == 1, x.take(1 + 5 * 9));
        let off = |k: usize, c: usize| if slip > 0 && (slip - 1) % 5 == k { c as i64 + slips[1 + (slip - 1) / 5] } else { c as i64 };
        if (0..5).any(|k| off(k, [n, n - 2, n, n, n - 1][k]) < 0) {
            return;
        }
        let mut t = "$Header\nversion 1\nmaterial TEST\ncondition planestress 2\n$EndHeader\n".to_string();
        let gap = |t: &mut String, k: usize| {
            if comments && k % 7 == 0 {
                *t += &format!("# {} 1/2\n\n", k);
            }
        };
        t += &format!("$Nodes\ncount {}\n", off(0, n));
        for k in 0..n {
            gap(&mut t, k);
            // two zigzag columns: no element is flat
            t += &format!("{} {}/{}\n", k, k % 2, (k / 2) as f64 + 0.25 * (k % 2) as f64);
        }
        t += &format!("$EndNodes\n$Elements\ncount {}\n", off(1, n - 2));
        for k in 0..n - 2 {
            gap(&mut t, k);
            t += &if k % 2 == 0 { format!("{0} {0}/{1}/{2}\n", k, k + 1, k + 2) } else { format!("{0} {2}/{1}/{0}\n", k, k + 1, k + 2) };
        }
        t += &format!("$EndElements\n$Constraints\ncount {}\n", off(2, n));
        for k in 0..n {
            t += &format!("{} {}\n", k, ["x", "y", "xy", "angle:0.5"][k % 4]);
        }
        t += &format!("$EndConstraints\n$Forces\ncount {}\n", off(3, n));
        for k in 0..n {
            gap(&mut t, k);
            t += &format!("{} {}/-{}\n", k, k, k as f64 * 0.5);
        }
        t += &format!("$EndForces\n$DistForces\ncount {}\n", off(4, n - 1));
        for k in 0..n - 1 {
            t += &format!("{} {} 1/{}\n", n - 1 - k, n - 2 - k, k);
        }
        t += "$EndDistForces";
        assert_eq!(matches!(read_bmsh(&t), Reading::Accept(_)), slip == 0, "{} {} {}", n, comments, slip);
        judge(rec, d, &t, &|| format!("{} nodes, comments {}, slip {}", n, comments, slip));
    });
    // references past the end of a large file
    h.family("far references", "in files of the same sizes, a reference to the first node that is not there, or 256, 65 536 or 2^32 nodes further, in each of seven places", (sizes.len() * 4 * 7) as u64, |i, rec| {
        let mut x = Digits(i);
        let (n, far, place) = (sizes[x.take(sizes.len() as u64)], [0usize, 256, 65_536, 1 << 32][x.take(4)], x.take(7));
        let m = |k: usize, v: usize| if k == place { n + far } else { v };
        let mut t = "$Header\nversion 1\nmaterial TEST\ncondition planestress 2\n$EndHeader\n".to_string();
        t += &format!("$Nodes\ncount {}\n", n);
        for k in 0..n {
            t += &format!("{} {}/{}\n", k, k % 2, (k / 2) as f64 + 0.25 * (k % 2) as f64);
        }
        t += &format!("$EndNodes\n$Elements\ncount 1\n0 {}/{}/{}\n$EndElements\n$Constraints\ncount 1\n{} x\n$EndConstraints\n", m(0, 0), m(1, 1), m(2, 2), m(3, n - 1));
        t += &format!("$Forces\ncount 1\n{} 1/1\n$EndForces\n$DistForces\ncount 1\n{} {} 1/1\n$EndDistForces", m(4, n - 1), m(5, n - 1), m(6, n - 2));
        judge(rec, d, &t, &|| format!("{} nodes, {} past the end in place {}", n, far, place));
    });
    // references
    h.family("references", "every small element, constraint, force and distributed force reference to 0..4 of 3 nodes", 5u64.pow(3) + 5 + 5 + 25, |i, rec| {
        let (mut e, mut c, mut f, mut q) = ("0/1/2".to_string(), "0".to_string(), "0".to_string(), "0 1".to_string());
        let i = i as usize;
        if i < 125 {
            e = format!("{}/{}/{}", i % 5, i / 5 % 5, i / 25);
        } else if i < 130 {
            c = (i - 125).to_string();
        } else if i < 135 {
            f = (i - 130).to_string();
        } else {
            q = format!("{} {}", (i - 135) % 5, (i - 135) / 5);
        }
        let t = format!("$Header\nversion 1\nmaterial TEST\ncondition planestress 2\n$EndHeader\n$Nodes\ncount 3\n0 0/0\n1 1/0\n2 0/2\n$EndNodes\n$Elements\ncount 1\n0 {}\n$EndElements\n$Constraints\ncount 1\n{} y\n$EndConstraints\n$Forces\ncount 1\n{} 1/2\n$EndForces\n$DistForces\ncount 1\n{} 3/4\n$EndDistForces\n", e, c, f, q);
        judge(rec, d, &t, &|| format!("case {}", i));
    });
    // histories of constraints on the same nodes
    let cs = ["x", "y", "xy", "angle:0.5"];
    h.family("constraint lists", "every sequence of up to 4 constraints of 4 kinds on 2 nodes", (0..=4u32).map(|k| 8u64.pow(k)).sum(), |mut i, rec| {
        let mut n = 0;
        while i >= 8u64.pow(n) {
            i -= 8u64.pow(n);
            n += 1;
        }
        let mut x = Digits(i);
        let l: String = (0..n).map(|_| format!("{} {}\n", x.take(2), cs[x.take(4)])).collect();
        let t = format!("$Header\nversion 1\nmaterial TEST\ncondition planestress 2\n$EndHeader\n$Nodes\ncount 2\n0 0/0\n1 1/0\n$EndNodes\n$Elements\ncount 0\n$EndElements\n$Constraints\ncount {}\n{}$EndConstraints\n$Forces\ncount 0\n$EndForces\n$DistForces\ncount 0\n$EndDistForces\n", n, l);
        judge(rec, d, &t, &|| format!("constraints {:?}", l));
    });
    h.family("paths", "no such file, a directory, no or another extension, bytes that are not text", 8, |i, rec| {
        rec.state(i);
        let body = FILES[0].as_bytes();
        let p = match i {
            0 => dir.join("missing.bmsh"),
            1 => dir.join("plain"),
            2 => dir.join("other.bbnd"),
            3 => dir.join("other.BMSH2"),
            4 => dir.join("x.bmsh.txt"),
            5 => dir.join("dir.bmsh"),
            6 => dir.join("bytes.bmsh"),
            _ => dir.join("good.bmsh"),
        };
        match i {
            0 => {}
            5 => std::fs::create_dir_all(&p).unwrap(),
            6 => {
                let mut b = body.to_vec();
                b[40] = 0xff;
                std::fs::write(&p, b).unwrap()
            }
            _ => std::fs::write(&p, body).unwrap(),
        }
        let got = rec.call(|| read_to_elas(&p).is_ok());
        rec.trace();
        rec.check(got.clone().unwrap_or(false) == (i == 7), "paths", || format!("{:?}: {:?}", p, got));
    });
    let _ = Constraint::Free;
    h.finish()
}
