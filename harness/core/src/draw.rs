//! What a drawing must look like: an independent judge of the written image, in exact integer
//! arithmetic once the points have their pixels.
use std::path::Path;

pub type Tri = (usize, usize, usize);
pub const GREEN: [u8; 3] = [0, 255, 0];
pub const BACK: [u8; 3] = [50, 50, 50];
pub const DOTS: [[u8; 3]; 4] = [[255, 0, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255]];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Map {
    Default,
    Hot,
    Rgb,
    /// a map whose colour is the value in 24 bits
    Digits,
}
pub fn digits(v: f64) -> [u8; 3] {
    let k = (v.max(0.0).min(1.0) * 16777215.0).round() as u32;
    [(k >> 16) as u8, (k >> 8) as u8, k as u8]
}
pub fn undigits(c: [u8; 3]) -> f64 {
    (((c[0] as u32) << 16) + ((c[1] as u32) << 8) + c[2] as u32) as f64 / 16777215.0
}
pub fn hot(v: f64) -> [f64; 3] {
    [0.0, 1.0, 2.0].map(|k| ((3.0 * v - k) * 255.0).max(0.0).min(255.0))
}
pub fn rgb(v: f64) -> [f64; 3] {
    [0.75, 0.5, 0.25].map(|t: f64| ((1.5 - 4.0 * (v - t).abs()) * 255.0).max(0.0).min(255.0))
}
pub fn near(c: [u8; 3], want: [f64; 3], tol: f64) -> bool {
    (0..3).all(|k| (c[k] as f64 - want[k]).abs() <= tol)
}
impl Map {
    /// is `c` the colour of `v`?
    pub fn is(self, c: [u8; 3], v: f64) -> bool {
        match self {
            Map::Default | Map::Hot => near(c, hot(v), 0.51),
            Map::Rgb => near(c, rgb(v), 0.51),
            Map::Digits => (undigits(c) - v.max(0.0).min(1.0)).abs() <= 2e-7,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Scene {
    /// projected positions, vertical axis up
    pub at: Vec<(f64, f64)>,
    pub colors: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
    pub tris: Vec<Tri>,
    /// normalised values, if any
    pub vals: Option<Vec<f64>>,
    pub size: u32,
    pub show_mesh: bool,
    pub map: Map,
}

fn axis(v: &[f64], mid: f64, scale: f64, size: f64, tol: f64) -> Vec<(i64, i64)> {
    // the admissible pixels of a coordinate: two where it falls half-way up to rounding
    v.iter()
        .map(|x| {
            let p = (x - mid) * scale + size / 2.0;
            let f = p.floor();
            if (p - f - 0.5).abs() <= tol {
                (f as i64 + 1, f as i64)
            } else {
                (p.round() as i64, p.round() as i64)
            }
        })
        .collect()
}

impl Scene {
    pub fn new(at: Vec<(f64, f64)>, size: u32) -> Scene {
        let n = at.len();
        Scene { at, colors: vec![0; n], edges: vec![], tris: vec![], vals: None, size, show_mesh: true, map: Map::Default }
    }
    /// too many coordinates fall half-way between pixels to try every admissible placement
    pub fn open(&self) -> bool {
        self.ways().3 > 9
    }
    fn ways(&self) -> (Vec<f64>, Vec<f64>, [Vec<(i64, i64)>; 2], usize, Vec<(usize, u64)>) {
        let (xs, ys): (Vec<f64>, Vec<f64>) = self.at.iter().map(|p| (p.0, -p.1)).unzip();
        let lim = |v: &[f64]| (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        let ((x0, x1), (y0, y1)) = (lim(&xs), lim(&ys));
        let range = (x1 - x0).max(y1 - y0);
        let n = self.size as f64;
        let s = 0.8 * n / range;
        let far = [x0, x1, y0, y1].iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let tol = 1e-9 + 1e-14 * far * s;
        let px = axis(&xs, (x0 + x1) / 2.0, s, n, tol);
        let py = axis(&ys, (y0 + y1) / 2.0, s, n, tol);
        let mut amb: Vec<(usize, u64)> = vec![];
        for (k, (v, p)) in [(&xs, &px), (&ys, &py)].iter().enumerate() {
            for i in 0..v.len() {
                if p[i].0 != p[i].1 && !amb.contains(&(k, v[i].to_bits())) {
                    amb.push((k, v[i].to_bits()));
                }
            }
        }
        let n = amb.len();
        amb.truncate(10);
        (xs, ys, [px, py], n, amb)
    }
    /// every admissible placement in pixels; equal coordinates always land on the same pixel
    pub fn placements(&self) -> Vec<Vec<(i64, i64)>> {
        let (xs, ys, [px, py], _, amb) = self.ways();
        (0..1usize << amb.len())
            .map(|m| {
                let pick = |k: usize, v: f64, p: (i64, i64)| match amb.iter().position(|a| *a == (k, v.to_bits())) {
                    Some(b) if m >> b & 1 == 1 => p.1,
                    _ => p.0,
                };
                (0..xs.len()).map(|i| (pick(0, xs[i], px[i]), pick(1, ys[i], py[i]))).collect()
            })
            .collect()
    }

    /// None if the image is a right drawing of the scene
    pub fn judge(&self, img: &image::RgbImage) -> Option<String> {
        if img.dimensions() != (self.size, self.size) {
            return Some(format!("image of size {:?} instead of {}", img.dimensions(), self.size));
        }
        let mut first = None;
        for p in self.placements() {
            match self.judge_at(img, &p) {
                None => return None,
                Some(e) => first = first.or(Some(e)),
            }
        }
        first
    }

    fn judge_at(&self, img: &image::RgbImage, pix: &[(i64, i64)]) -> Option<String> {
        let n = self.size as i64;
        let at = |x: i64, y: i64| img.get_pixel(x as u32, y as u32).0;
        let dots = |x: i64, y: i64| pix.iter().enumerate().filter(move |(_, p)| (p.0 - x).abs() <= 1 && (p.1 - y).abs() <= 1).map(|(i, _)| i);
        // 2: the line has this pixel, 1: it passes half-way between this and a neighbour
        let on_line = |e: &(usize, usize), x: i64, y: i64| -> u8 {
            let (a, b) = (pix[e.0], pix[e.1]);
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            let l = dx.abs().max(dy.abs());
            if l == 0 {
                return if (x, y) == a { 2 } else { 0 };
            }
            let inside = if dx.abs() >= dy.abs() { (x - a.0) * (x - b.0) <= 0 } else { (y - a.1) * (y - b.1) <= 0 };
            let off = 2 * ((y - a.1) * dx - (x - a.0) * dy).abs();
            if !inside || off > l {
                0
            } else if off < l {
                2
            } else {
                1
            }
        };
        for y in 0..n {
            // what can reach this row
            let row = |k: &[usize], by: i64| {
                let (lo, hi) = k.iter().fold((i64::MAX, i64::MIN), |m, i| (m.0.min(pix[*i].1), m.1.max(pix[*i].1)));
                lo - by <= y && y <= hi + by
            };
            let near: Vec<usize> = (0..pix.len()).filter(|i| row(&[*i], 1)).collect();
            let edges: Vec<&(usize, usize)> = self.edges.iter().filter(|e| row(&[e.0, e.1], 1)).collect();
            let tris: Vec<&Tri> = self.tris.iter().filter(|t| row(&[t.0, t.1, t.2], 0)).collect();
            for x in 0..n {
                let c = at(x, y);
                let bad = |what: &str| Some(format!("pixel ({}, {}) is {:?}, {}; points at {:?}", x, y, c, what, pix));
                if self.show_mesh {
                    let mut d = near.iter().copied().filter(|i| (pix[*i].0 - x).abs() <= 1).peekable();
                    if d.peek().is_some() {
                        if !d.any(|i| DOTS[self.colors[i]] == c) {
                            return bad("on a point");
                        }
                        continue;
                    }
                    let line = edges.iter().map(|e| on_line(e, x, y)).max().unwrap_or(0);
                    if line == 2 && c != GREEN {
                        return bad("on an edge");
                    }
                    if c == GREEN && line > 0 {
                        continue;
                    }
                }
                let (mut covered, mut right, mut flat) = (false, false, false);
                if let Some(vals) = &self.vals {
                    for t in &tris {
                        let (a, b, q) = (pix[t.0], pix[t.1], pix[t.2]);
                        let cr = |p: (i64, i64), q: (i64, i64)| (q.0 - p.0) * (y - p.1) - (q.1 - p.1) * (x - p.0);
                        let (wc, wa, wb) = (cr(a, b), cr(b, q), cr(q, a));
                        let w = wa + wb + wc;
                        if w == 0 {
                            // no area: its pixels may stay or take a colour
                            let lo = |f: fn((i64, i64)) -> i64| f(a).min(f(b)).min(f(q));
                            let hi = |f: fn((i64, i64)) -> i64| f(a).max(f(b)).max(f(q));
                            flat |= wa == 0 && wb == 0 && wc == 0 && x >= lo(|p| p.0) && x <= hi(|p| p.0) && y >= lo(|p| p.1) && y <= hi(|p| p.1);
                        } else if wa * w.signum() >= 0 && wb * w.signum() >= 0 && wc * w.signum() >= 0 {
                            covered = true;
                            let v = (wa as f64 * vals[t.0] + wb as f64 * vals[t.1] + wc as f64 * vals[t.2]) / w as f64;
                            right |= self.map.is(c, v);
                        }
                    }
                }
                if covered && !right && !flat {
                    return bad("inside a triangle with another colour");
                }
                if !covered && !flat && c != BACK {
                    return bad("away from the model");
                }
            }
        }
        if self.show_mesh {
            // where a line passes half-way between two pixels, it has one of them
            for e in &self.edges {
                let (a, b) = (pix[e.0], pix[e.1]);
                let steep = (b.1 - a.1).abs() > (b.0 - a.0).abs();
                let (lo, hi) = if steep { (a.1.min(b.1), a.1.max(b.1)) } else { (a.0.min(b.0), a.0.max(b.0)) };
                for m in lo..=hi {
                    // the two pixels next to the line
                    let f = |a0: i64, a1: i64, b0: i64, b1: i64| if b0 == a0 { a1 } else { a1 + ((b1 - a1) * (m - a0)).div_euclid(b0 - a0) };
                    let k0 = if steep { f(a.1, a.0, b.1, b.0) } else { f(a.0, a.1, b.0, b.1) };
                    let cells = (k0 - 1..=k0 + 1).filter(|k| *k >= 0 && *k < n).map(|k| if steep { (k, m) } else { (m, k) }).filter(|p| p.0 < n && p.1 < n && on_line(e, p.0, p.1) > 0);
                    let mut cells = cells.peekable();
                    if cells.peek().is_some() && !cells.any(|(x, y)| at(x, y) == GREEN || dots(x, y).next().is_some()) {
                        return Some(format!("the edge {:?} has a gap at {} {}; points at {:?}", e, if steep { "row" } else { "column" }, m, pix));
                    }
                }
            }
        }
        None
    }
}

pub fn load(path: &Path) -> Result<image::RgbImage, String> {
    image::open(path).map(|i| i.to_rgb8()).map_err(|e| format!("{:?}", e))
}
