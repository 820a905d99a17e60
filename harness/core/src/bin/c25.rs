//! C25: colour maps are total, continuous and ordered.
use bugi::visual::{color, VisOptions, Visualizer};
use hcore::draw::*;
use mcheck::*;
use std::sync::{Arc, Mutex};

fn out_of_range() -> Vec<f64> {
    vec![-1e300, -1e9, -2.0, -1.0, -0.5, -0.1, -1e-9, -5e-324, -0.0, 1.0 + 1e-15, 1.0 + 1e-9, 1.1, 1.5, 2.0, 1e9, 1e300]
}

fn main() {
    let mut h = Harness::new("C25");
    let maps: [(&str, fn(f64) -> image::Rgb<u8>, fn(f64) -> [f64; 3]); 2] = [("hot", color::hot_map, hot), ("rgb", color::rgb_map, rgb)];
    let n = h.pick(1u64 << 16, 1 << 22);
    h.family("values", "every multiple of 2^-16 (thorough: 2^-22) of [0, 1] x 2 maps x direct and boxed", (n + 1) * 2 * 2, |i, rec| {
        let mut d = Digits(i);
        let (m, boxed) = (d.take(2), d.take(2));
        let (name, f, want) = maps[m];
        let b = [color::hot_map_boxed, color::rgb_map_boxed][m]();
        let at = |v: f64| if boxed == 1 { b(v).0 } else { f(v).0 };
        let v = d.0 as f64 / n as f64;
        let Ok(c) = rec.call(|| at(v)) else {
            rec.fail("map-fails", format!("{} {}", name, v));
            return;
        };
        rec.state((m, d.0));
        rec.outcome((m, c));
        rec.trace();
        rec.check(near(c, want(v), 0.51), "colour", || format!("{} of {} is {:?}, expected {:?}", name, v, c, want(v)));
        if d.0 < n {
            let e = at((d.0 + 1) as f64 / n as f64);
            rec.check((0..3).all(|k| (c[k] as i32 - e[k] as i32).abs() <= 1), "jump", || format!("{} jumps from {:?} to {:?} after {}", name, c, e, v));
            // hot only brightens; each channel of rgb rises up to its peak and then falls
            let rises = |k: usize| m == 0 || v < [0.75, 0.5, 0.25][k];
            rec.check((0..3).all(|k| if rises(k) { e[k] >= c[k] } else { e[k] <= c[k] }), "order", || format!("{} from {:?} to {:?} after {}", name, c, e, v));
        }
        rec.sample(|| format!("{} {} -> {:?}", name, v, c));
    });
    let odd = out_of_range();
    h.family("outside", "16 values outside [0, 1] x 2 maps", odd.len() as u64 * 2, |i, rec| {
        let mut d = Digits(i);
        let (m, k) = (d.take(2), d.take(odd.len()));
        let (name, f, _) = maps[m];
        let end = if odd[k] <= 0.0 { 0.0 } else { 1.0 };
        rec.state(i);
        rec.trace();
        let c = rec.call(|| (f(odd[k]).0, f(end).0));
        if m == 0 {
            rec.check(matches!(c, Ok((a, b)) if a == b), "clamp", || format!("{} of {}: {:?}", name, odd[k], c));
        } else {
            rec.check(c.is_ok(), "clamp", || format!("{} of {}: {:?}", name, odd[k], c));
        }
    });
    h.family("ends", "both ends of both maps and the peaks of rgb", 1, |_, rec| {
        rec.trace();
        rec.state(0);
        for (f, v, c) in [
            (maps[0].1, 0.0, [0, 0, 0]),
            (maps[0].1, 1.0, [255, 255, 255]),
            (maps[1].1, 0.25, [0, 128, 255]),
            (maps[1].1, 0.5, [128, 255, 128]),
            (maps[1].1, 0.75, [255, 128, 0]),
            (maps[1].1, 0.0, [0, 0, 128]),
            (maps[1].1, 1.0, [128, 0, 0]),
        ] {
            let g = rec.call(|| f(v).0);
            rec.check(g == Ok(c), "end", || format!("{} -> {:?} want {:?}", v, g, c));
        }
    });

    // normalisation, seen through the values a drawing asks its map for
    let dir = h.scratch();
    let alphabet = [-3.0, -1.0, 0.0, 1.0, 1.5, 2.0, 1e6, 1e-6];
    let tri = [(0.0, 0.0), (8.0, 0.0), (0.0, 8.0)];
    h.family("normalised", "every list of 3 values from 8, at the corners of a triangle, in 9 units (2^-120 to 2^120) and on 4 levels 10^3 to 10^12 times their spread", 512 * 13, |i, rec| {
        let mut d = Digits(i);
        let v: Vec<f64> = (0..3).map(|_| alphabet[d.take(8)]).collect();
        let v: Vec<f64> = match d.0 {
            k @ 0..=8 => v.iter().map(|x| x * [1.0, 2f64.powi(-120), 2f64.powi(-60), 2f64.powi(-40), 2f64.powi(-30), 2f64.powi(-20), 2f64.powi(20), 2f64.powi(40), 2f64.powi(120)][k as usize]).collect(),
            k => v.iter().map(|x| x + [5e3, -5e6, 5e9, 5e12][k as usize - 9]).collect(),
        };
        let path = dir.join(format!("{}.png", i));
        let seen = Arc::new(Mutex::new(vec![]));
        let s2 = seen.clone();
        let v2 = v.clone();
        let r = rec.call(|| {
            let pts: Vec<spacemath::two::Point> = tri.iter().map(|p| (*p).into()).collect();
            let mut vis: Visualizer = pts.into();
            vis.set_triangles(vec![(0, 1, 2)]);
            vis.set_vals(v2);
            let map = move |x: f64| {
                s2.lock().unwrap().push(x);
                image::Rgb(digits(x))
            };
            vis.draw(path.to_str().unwrap(), VisOptions::new().im_size(10).show_mesh(false).color_map(Box::new(map)));
        });
        rec.state(i);
        rec.trace();
        if let Err(e) = r {
            rec.fail("normalisation-fails", format!("{:?}: {}", v, e));
            return;
        }
        let seen = seen.lock().unwrap().clone();
        let (lo, hi) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        let inside = seen.len() >= 45 && seen.iter().all(|x| *x >= -1e-12 && *x <= 1.0 + 1e-12);
        rec.check(inside, "normalised-range", || format!("{:?} became {:?}", v, seen));
        if lo == hi {
            rec.outcome("uniform");
            rec.check(inside && seen.iter().all(|x| (x - seen[0]).abs() < 1e-9), "normalised-uniform", || format!("{:?} became {:?}", v, seen));
        } else {
            let img = load(&path).unwrap();
            for (p, x) in [(1u32, 9u32), (9, 9), (1, 1)].iter().zip(&v) {
                let got = undigits(img.get_pixel(p.0, p.1).0);
                let want = (x - lo) / (hi - lo);
                rec.check((got - want).abs() < 2e-7, "normalised-value", || format!("{:?}: {} became {}, expected {}", v, x, got, want));
                rec.outcome((got * 100.0) as i64);
            }
        }
        let _ = std::fs::remove_file(&path);
        rec.sample(|| format!("{:?}", v));
    });
    let _ = std::fs::remove_dir_all(&dir);
    h.finish()
}
