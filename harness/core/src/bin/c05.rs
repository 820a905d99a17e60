//! C05: reordering is always a reversible permutation; adjacency queries agree with the edge set.
use bugi::matrix::graph::{Graph, Permutation};
use mcheck::*;

/// edge list of graph number `code` on n vertices
fn edges_of(n: usize, code: u64) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = 0;
    for a in 0..n {
        for b in a + 1..n {
            if code >> k & 1 == 1 {
                v.push((a, b))
            }
            k += 1;
        }
    }
    v
}

fn adj(n: usize, e: &[(usize, usize)]) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]; n];
    for &(a, b) in e {
        if a != b {
            v[a].push(b);
            v[b].push(a);
        }
    }
    for r in v.iter_mut() {
        r.sort();
        r.dedup();
    }
    v
}

fn bfs(a: &[Vec<usize>], root: usize) -> Vec<Option<usize>> {
    let mut d = vec![None; a.len()];
    d[root] = Some(0);
    let mut q = std::collections::VecDeque::from([root]);
    while let Some(x) = q.pop_front() {
        for &y in &a[x] {
            if d[y].is_none() {
                d[y] = Some(d[x].unwrap() + 1);
                q.push_back(y)
            }
        }
    }
    d
}

/// the ways the same edge set can be presented
fn presentations(n: usize, e: &[(usize, usize)]) -> Vec<(&'static str, Vec<(usize, usize)>)> {
    let rev: Vec<_> = e.iter().map(|&(a, b)| (b, a)).collect();
    let mut both: Vec<_> = e.to_vec();
    both.extend(rev.iter().rev());
    let mut mixed = vec![];
    for (i, &(a, b)) in e.iter().enumerate() {
        if i % 2 == 0 {
            mixed.push((b, a));
            mixed.push((b, a))
        } else {
            mixed.insert(0, (a, b))
        }
    }
    let mut loops: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
    loops.extend(rev.iter());
    vec![("ascending", e.to_vec()), ("reversed pairs", rev.clone()), ("descending", e.iter().rev().cloned().collect()), ("both directions", both), ("mixed duplicates", mixed), ("with loops", loops)]
}

fn as_set(x: &[usize]) -> Vec<usize> {
    let mut v = x.to_vec();
    v.sort();
    v
}

fn queries(rec: &mut Rec, what: &str, g: &mut Graph, a: &[Vec<usize>], all_masks: bool) {
    let n = a.len();
    let r = rec.call(|| g.vertex_count());
    rec.check(r == Ok(n), "vertex-count", || format!("{}: vertex_count {:?}, want {}; adjacency {:?}", what, r, n, a));
    for v in 0..n {
        let got = rec.call(|| as_set(g.adjacent(v)));
        rec.check(got.as_ref() == Ok(&a[v]), "adjacent", || format!("{}: adjacent({}) = {:?}, want {:?}", what, v, got, a[v]));
        let d = rec.call(|| g.degree(v));
        rec.check(d == Ok(a[v].len()), "degree", || format!("{}: degree({}) = {:?}, want {}", what, v, d, a[v].len()));
        let masks: Vec<u64> = if all_masks { (0..1 << n).collect() } else { vec![0, (1 << n) - 1, 0x5555_5555 & ((1 << n) - 1), 0x2aaa_aaaa & ((1 << n) - 1)] };
        for m in masks {
            let mask: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
            let want: Vec<usize> = a[v].iter().cloned().filter(|&x| mask[x]).collect();
            let got = rec.call(|| as_set(g.adjacent_masked(v, &mask)));
            rec.check(got.as_ref() == Ok(&want), "adjacent-masked", || format!("{}: adjacent_masked({}, {:?}) = {:?}, want {:?}", what, v, mask, got, want));
            let d = rec.call(|| g.degree_masked(v, &mask));
            rec.check(d == Ok(want.len()), "degree-masked", || format!("{}: degree_masked({}, {:?}) = {:?}, want {}", what, v, mask, d, want.len()));
        }
        let dist = bfs(a, v);
        let far = dist.iter().flatten().max().cloned().unwrap();
        let got = rec.call(|| g.far_node(v));
        let mindeg = (0..n).filter(|&x| dist[x] == Some(far)).map(|x| a[x].len()).min().unwrap();
        let ok = matches!(got, Ok((x, l)) if l == far && x < n && dist[x] == Some(far) && a[x].len() == mindeg);
        rec.check(ok, "far-node", || format!("{}: far_node({}) = {:?}; distances {:?}, adjacency {:?}", what, v, got, dist, a));
    }
    // a search for the ends of the graph comes to a vertex of the first component at least as
    // far out as the first vertex; in a tree, to an end of a longest path
    let ecc = |v: usize| bfs(a, v).iter().flatten().max().cloned().unwrap();
    let got = rec.call(|| g.pseudo_peripheral());
    let reach = bfs(a, 0);
    let part: Vec<usize> = (0..n).filter(|&v| reach[v].is_some()).collect();
    let tree = part.iter().map(|&v| a[v].len()).sum::<usize>() == 2 * (part.len() - 1);
    let longest = part.iter().map(|&v| ecc(v)).max().unwrap();
    let ok = matches!(got, Ok(x) if x < n && reach[x].is_some() && ecc(x) >= ecc(0) && (!tree || ecc(x) == longest));
    rec.check(ok, "pseudo-peripheral", || format!("{}: pseudo_peripheral() = {:?}; adjacency {:?}", what, got, a));
    // a bounds violation is refused
    let bad = [rec.call(|| g.adjacent(n).len()), rec.call(|| g.far_node(n).0), rec.call(|| g.adjacent_masked(n, &vec![true; n]).len()), rec.call(|| g.far_node(n + 300).0)];
    rec.check(bad.iter().all(|b| b.is_err()), "adjacent-oob", || format!("{}: adjacent({1}), far_node({1}), adjacent_masked({1}) and far_node({1} + 300) of {1} vertices gave {2:?}", what, n, bad));
}

fn rcm(rec: &mut Rec, what: &str, g: &mut Graph, a: &[Vec<usize>]) -> Option<Permutation> {
    let n = a.len();
    let p = match rec.call(|| g.reverse_cuthill_mckee()) {
        Ok(p) => p,
        Err(m) => {
            rec.fail("rcm-panics", format!("{}: reverse_cuthill_mckee panicked ({}) on adjacency {:?}", what, m, a));
            return None;
        }
    };
    let f: Vec<usize> = (0..n).map(|i| p.permute(i)).collect();
    let b: Vec<usize> = (0..n).map(|i| p.unpermute(i)).collect();
    if !rec.check(as_set(&f) == (0..n).collect::<Vec<_>>() && (0..n).all(|i| f[b[i]] == i && b[f[i]] == i), "rcm-bijection", || {
        format!("{}: forward {:?} back {:?} on {:?}", what, f, b, a)
    }) {
        return None;
    }
    rec.outcome(&f);
    // reading the labels from the top down is a breadth-first order within each component
    let order: Vec<usize> = (0..n).rev().map(|l| b[l]).collect();
    let mut pos = vec![0; n];
    for (i, &v) in order.iter().enumerate() {
        pos[v] = i
    }
    let connected = n == 0 || bfs(a, 0).iter().all(|d| d.is_some());
    if connected {
        let mut last = 0;
        for &v in order.iter().skip(1) {
            let first = a[v].iter().map(|&w| pos[w]).min().unwrap();
            if !rec.check(first < pos[v], "rcm-connected-order", || format!("{}: order {:?} on {:?}", what, order, a)) {
                break;
            }
            if !rec.check(first >= last, "rcm-breadth-first", || format!("{}: order {:?} on {:?}", what, order, a)) {
                break;
            }
            last = first;
        }
    }
    Some(p)
}

fn perm_roundtrip(rec: &mut Rec, p: &Permutation, n: usize) {
    let data: Vec<u64> = (0..n as u64).map(|i| i * 7 + 3).collect();
    let r = rec.call(|| {
        let mut x = data.clone();
        p.permute_slice(&mut x);
        let placed = (0..n).all(|i| x[p.permute(i)] == data[i] && data[p.unpermute(i)] == x[i]);
        let q = p.clone().invert();
        let mutual = (0..n).all(|i| q.permute(i) == p.unpermute(i) && q.unpermute(i) == p.permute(i));
        let mut y = x.clone();
        q.permute_slice(&mut y);
        (placed, mutual, y == data, q.invert() == *p)
    });
    rec.check(r == Ok((true, true, true, true)), "permutation-roundtrip", || format!("{:?}: placed, mutual, restored, double inverse = {:?}", p, r));
    let bad = rec.call(|| p.permute_slice(&mut vec![0u8; n + 1]));
    rec.check(bad.is_err(), "permute-slice-length", || format!("{:?} accepted a slice of length {}", p, n + 1));
}

fn one_graph(rec: &mut Rec, n: usize, code: u64, full: bool) {
    let e = edges_of(n, code);
    let a = adj(n, &e);
    rec.state((n, code));
    let mut perms = vec![];
    let pres = presentations(n, &e);
    let take = if full { pres.len() } else { 2 };
    for (i, (what, list)) in pres.into_iter().enumerate().take(take) {
        match rec.call(|| Graph::from_edges(n, list.clone())) {
            Ok(mut g) => {
                if i == 0 || full {
                    queries(rec, what, &mut g, &a, full && n <= 4);
                }
                if let Some(p) = rcm(rec, what, &mut g, &a) {
                    perm_roundtrip(rec, &p, n);
                    perms.push(p);
                }
            }
            Err(m) => rec.fail("from-edges-panics", format!("{}: from_edges({}, {:?}): {}", what, n, list, m)),
        }
    }
    // the same construction gives equal graphs, another edge set does not
    let r = rec.call(|| {
        let g = Graph::from_edges(n, e.clone());
        let other = edges_of(n, if code == 0 { 1 } else { code & (code - 1) });
        let (same, twin) = (g == Graph::from_edges(n, e.clone()), g == g.clone());
        let fewer = if n > 1 { g == Graph::from_edges(n, other) } else { false };
        (same, twin, fewer, g == Graph::from_edges(n + 1, e.clone()))
    });
    rec.check(r == Ok((true, true, false, false)), "graph-equality", || format!("{:?} of {}: equal to itself, its copy, one with an edge less, one with a vertex more: {:?}", e, n, r));
    for bad in [(0, n), (n, 0), (n + 1, n), (n + 255, 0)] {
        let mut list = e.clone();
        list.insert(list.len() / 2, bad);
        let r = rec.call(|| Graph::from_edges(n, list.clone()).vertex_count());
        rec.check(r.is_err(), "from-edges-oob", || format!("from_edges({}, {:?}) gave {:?} vertices", n, list, r));
    }
    let mut lists = a.clone();
    if code % 2 == 1 {
        for l in lists.iter_mut() {
            l.reverse()
        }
    }
    match rec.call(|| Graph::from_lol(lists)) {
        Ok(mut g) => {
            queries(rec, "from_lol", &mut g, &a, full && n <= 4);
            rcm(rec, "from_lol", &mut g, &a);
        }
        Err(m) => rec.fail("from-lol-panics", m),
    }
    rec.sample(|| format!("n={} edges={:?} labels={:?}", n, e, perms.first().map(|p| (0..n).map(|i| p.permute(i)).collect::<Vec<_>>())));
    rec.trace();
}

/// larger structured graphs: the labels of each are scrambled by an affine map so that vertex 0 is anywhere
fn structured(kind: usize, n: usize) -> Vec<(usize, usize)> {
    let mut e = vec![];
    match kind {
        0 => (1..n).for_each(|i| e.push((i - 1, i))),
        1 => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        2 => (1..n).for_each(|i| e.push((0, i))),
        3 => (1..n).for_each(|i| e.push(((i - 1) / 2, i))),
        4 => {
            let w = 4;
            for i in 0..n {
                if i % w + 1 < w && i + 1 < n {
                    e.push((i, i + 1))
                }
                if i + w < n {
                    e.push((i, i + w))
                }
            }
        }
        5 => {
            // two separate paths and the remaining vertices alone
            let h = n / 3;
            (1..h).for_each(|i| e.push((i - 1, i)));
            (h + 1..2 * h).for_each(|i| e.push((i - 1, i)));
        }
        6 => {
            // wheel
            (1..n).for_each(|i| e.push((0, i)));
            (2..n).for_each(|i| e.push((i - 1, i)));
        }
        _ => {
            // caterpillar
            let h = n / 2;
            (1..h).for_each(|i| e.push((i - 1, i)));
            (h..n).for_each(|i| e.push((i - h, i)));
        }
    }
    e
}

/// one structured graph with scrambled labels
fn large(rec: &mut Rec, kind: usize, n: usize, step: usize) {
    let gcd = |mut a: usize, mut b: usize| {
        while b != 0 {
            let t = a % b;
            a = b;
            b = t
        }
        a
    };
    let step = if gcd(step, n) == 1 { step } else { 1 };
    let e: Vec<_> = structured(kind, n).into_iter().map(|(a, b)| ((a * step + n / 3) % n, (b * step + n / 3) % n)).collect();
    let a = adj(n, &e);
    rec.state((kind, n, step));
    // as listed, and listed both ways, twice, with loops, and as lists of neighbours
    let mut noisy: Vec<_> = e.iter().flat_map(|&(a, b)| [(a, b), (b, b), (b, a)]).collect();
    noisy.extend(e.iter().rev());
    let graphs = [("structured", rec.call(|| Graph::from_edges(n, e.clone()))), ("structured, listed again both ways", rec.call(|| Graph::from_edges(n, noisy))), ("structured, from_lol", rec.call(|| Graph::from_lol(a.clone())))];
    for (what, g) in graphs {
        let mut g = match g {
            Ok(g) => g,
            Err(m) => {
                rec.fail("from-edges-panics", format!("{} shape {} of {} step {}: {}", what, kind, n, step, m));
                continue;
            }
        };
        if let Some(p) = rcm(rec, what, &mut g, &a) {
            perm_roundtrip(rec, &p, n);
            // a path is relabelled to bandwidth one
            if kind == 0 {
                let bw = e.iter().map(|&(a, b)| p.permute(a).abs_diff(p.permute(b))).max().unwrap_or(0);
                rec.check(bw <= 1, "path-bandwidth", || format!("bandwidth {} for a path of {}", bw, n));
            }
        }
        let v = n / 2;
        let dist = bfs(&a, v);
        let far = dist.iter().flatten().max().cloned().unwrap();
        let got = rec.call(|| g.far_node(v));
        rec.check(matches!(got, Ok((x, l)) if l == far && dist[x] == Some(far)), "far-node", || format!("far_node({}) = {:?} on shape {} of {} step {}", v, got, kind, n, step));
        let m: Vec<usize> = (0..n).map(|v| g.adjacent(v).len()).collect();
        rec.check(m == a.iter().map(|x| x.len()).collect::<Vec<_>>(), "adjacent", || format!("degrees {:?} on {:?}", m, a));
    }
    rec.trace();
}

fn main() {
    let mut h = Harness::new("C05");
    h.assume("graphs on up to 6 vertices with every presentation (thorough: also 7 vertices with two presentations); larger graphs are structured families only");
    for n in 1..=h.pick(6usize, 6) {
        let pairs = n * (n - 1) / 2;
        h.family(&format!("all graphs n={}", n), "every graph, six edge presentations and from_lol, all masks for n<=4", 1 << pairs, |i, r| one_graph(r, n, i, true));
    }
    if h.thorough() {
        let n = 7;
        h.family(&format!("all graphs n={}", n), "every graph, two edge presentations and from_lol, four masks", 1 << (n * (n - 1) / 2), |i, r| one_graph(r, n, i, false));
    }
    let top = h.pick(30u64, 80);
    h.family("structured graphs", "8 shapes x sizes x scramblings", 8 * top * 6, |i, rec| {
        let mut d = Digits(i);
        let kind = d.take(8);
        let step = [1usize, 3, 5, 7, 11, 13][d.take(6)];
        large(rec, kind, d.take(top) + 3, step);
    });
    let sizes = [100usize, 127, 128, 129, 200, 255, 256, 257, 258, 300, 400, 511, 513, 700, 1023, 1025];
    h.family("large graphs", "8 shapes x 16 sizes from 100 to 1025 x 3 scramblings", 8 * 16 * 3, |i, rec| {
        let mut d = Digits(i);
        let (kind, step, n) = (d.take(8), [1usize, 37, 101][d.take(3)], sizes[d.take(16)]);
        large(rec, kind, n, step);
    });
    h.family("huge graphs", "8 shapes of 65535 to 65538 and 70001 vertices", 8 * 5, |i, rec| {
        let mut d = Digits(i);
        let (kind, n) = (d.take(8), [65535usize, 65536, 65537, 65538, 70001][d.take(5)]);
        large(rec, kind, n, 32771);
    });
    h.family("identity permutations", "n < 300, and 65535 to 65537", 303, |i, rec| {
        let n = if i < 300 { i as usize } else { 65235 + i as usize };
        rec.state(n);
        match rec.call(|| Permutation::identity(n)) {
            Ok(p) => {
                rec.check((0..n).all(|i| p.permute(i) == i && p.unpermute(i) == i), "identity", || format!("{:?}", p));
                perm_roundtrip(rec, &p, n)
            }
            Err(m) => rec.fail("identity-panics", m),
        }
        rec.trace();
    });
    h.finish()
}
