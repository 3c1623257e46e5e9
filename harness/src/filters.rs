//! C09 - C11: blur, resampling and rotation against direct f64 evaluation
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::gen::Buf;
use d10_core::color::*;
use d10_core::kernel::Kernel;
use d10_core::kernel_dyn::KernelDyn;
use d10_ops::FilterMode;
use std::f64::consts::PI;

type V = [f64; 4];

fn px(b: &Buf, x: i64, y: i64) -> V {
    let (w, h) = (b.width() as i64, b.height() as i64);
    let d = &b.data()[(y.clamp(0, h - 1) * w + x.clamp(0, w - 1)) as usize].data;
    [d[0] as f64, d[1] as f64, d[2] as f64, d[3] as f64]
}

fn diff(a: &[f32; 4], b: &V) -> f64 {
    (0..4).map(|i| { let d = (a[i] as f64 - b[i]).abs(); if d.is_nan() { f64::INFINITY } else { d } }).fold(0.0, f64::max)
}

fn clamp(v: V) -> V {
    v.map(|v| v.clamp(0.0, 1.0))
}

pub fn buf_diff(a: &Buf, b: &Buf) -> f64 {
    if a.width() != b.width() || a.height() != b.height() {
        return f64::INFINITY;
    }
    a.data().iter().zip(b.data()).map(|(p, q)| diff(&p.data, &q.data.map(|v| v as f64))).fold(0.0, f64::max)
}

// ------------------------------------------------------------------------------------------- C09

fn gauss(radius: i64, sigma: f64) -> Vec<f64> {
    let n = 2 * radius + 1;
    let mut k = vec![];
    for y in -radius..=radius {
        for x in -radius..=radius {
            let r2 = (x * x + y * y) as f64;
            k.push(if r2 == 0.0 { 1.0 } else if sigma == 0.0 { 0.0 } else { (-r2 / (2.0 * sigma * sigma)).exp() });
        }
    }
    let s: f64 = k.iter().sum();
    assert_eq!(k.len() as i64, n * n);
    k.iter().map(|v| v / s).collect()
}

fn blur_ref(b: &Buf, k: &[f64], radius: i64, x: i64, y: i64) -> (V, V, V) {
    let (mut s, mut lo, mut hi) = ([0f64; 4], [f64::INFINITY; 4], [f64::NEG_INFINITY; 4]);
    let mut i = 0;
    for dy in -radius..=radius {
        for dx in -radius..=radius {
            let p = px(b, x + dx, y + dy);
            for q in 0..4 {
                s[q] += k[i] * p[q];
                lo[q] = lo[q].min(p[q]);
                hi[q] = hi[q].max(p[q]);
            }
            i += 1;
        }
    }
    (s, lo, hi)
}

fn sigma(r: &mut Rng) -> f32 {
    match r.usize(8) {
        0 => 0.0,
        1 => *r.pick(&[1e-30f32, 1e-10, 1e-3, 0.05, 0.1]),
        2 => r.uniform(0.1, 0.5),
        3 => *r.pick(&[10.0f32, 100.0, 1e6]),
        _ => r.uniform(0.3, 4.0),
    }
}

fn weights_check(c: &mut Case, name: &str, radius: i64, sg: f32, w: &[f32]) -> R {
    c.eval();
    let n = 2 * radius + 1;
    ensure!(w.len() as i64 == n * n, format!("{}:size", name), "radius {}: {} weights", radius, w.len());
    let at = |x: i64, y: i64| w[((y + radius) * n + x + radius) as usize] as f64;
    let s: f64 = w.iter().map(|v| *v as f64).sum();
    ensure!((s - 1.0).abs() < 3e-5, format!("{}:sum", name), "radius {} sigma {}: weights sum to {}", radius, sg, s);
    let k = gauss(radius, sg as f64);
    for y in -radius..=radius {
        for x in -radius..=radius {
            let v = at(x, y);
            ensure!(v.is_finite() && v >= 0.0, format!("{}:sign", name), "radius {} sigma {} weight({},{}) = {}", radius, sg, x, y, v);
            for (a, b) in [(-x, y), (x, -y), (y, x), (-y, x)] {
                ensure!((v - at(a, b)).abs() <= 1e-7 + 1e-5 * v, format!("{}:symmetric", name), "radius {} sigma {} weight({},{}) = {} but ({},{}) = {}", radius, sg, x, y, v, a, b, at(a, b));
            }
            if x > 0 {
                ensure!(at(x, y) <= at(x - 1, y) * 1.00001, format!("{}:decreasing", name), "radius {} sigma {} weight({},{}) = {} > ({},{}) = {}", radius, sg, x, y, v, x - 1, y, at(x - 1, y));
            }
            let e = k[((y + radius) * n + x + radius) as usize];
            ensure!((v - e).abs() <= 1e-6 + 1e-4 * e, name, "radius {} sigma {} weight({},{}) = {}, expected {}", radius, sg, x, y, v, e);
        }
    }
    Ok(())
}

fn c09_weights(c: &mut Case) -> R {
    let sg = sigma(&mut c.rng);
    let radius = match c.rng.usize(4) {
        0 => 0,
        1 => c.rng.range(1, 4),
        _ => c.rng.range(1, 14),
    };
    c.desc(format!("radius {} sigma {}", radius, sg));
    c.distinct(&(radius, sg.to_bits()));
    let k = KernelDyn::new_gaussian(2 * radius as u32 + 1, sg);
    weights_check(c, "dyn weights", radius, sg, &k.enumerate().map(|e| e.2).collect::<Vec<_>>())?;
    macro_rules! fixed {
        ($n:literal) => {
            let k = Kernel::<$n>::new_gaussian(sg);
            weights_check(c, concat!("fixed weights ", $n), $n / 2, sg, &k.data.iter().flatten().cloned().collect::<Vec<_>>())?;
        };
    }
    fixed!(1);
    fixed!(3);
    fixed!(5);
    fixed!(7);
    fixed!(9);
    Ok(())
}

fn c09_blur(c: &mut Case) -> R {
    let big = c.rng.chance(0.04);
    let (w, h) = gen::dims(&mut c.rng, if big { 60 } else { 12 });
    let kind = c.rng.usize(gen::KINDS);
    let b = gen::image_kind(&mut c.rng, w, h, kind);
    let radius = match c.rng.usize(8) {
        0 => 0,
        1..=4 => c.rng.range(1, 4),
        5 => c.rng.range(4, 9),
        6 => (w.max(h) as i64 + c.rng.range(-1, 3)).clamp(1, 20),
        _ => c.rng.range(1, 12),
    };
    let radius = if gen::is_huge() { radius.min(2) } else if big { radius.min(4) } else { radius };
    c09_judge(c, b, radius)
}

/// Windows far beyond the image and the usual radii
fn c09_wide(c: &mut Case) -> R {
    let (w, h) = *c.rng.pick(&[(1, 1), (9, 1), (1, 7), (6, 5), (40, 1), (2, 30), (80, 1)]);
    let kind = c.rng.usize(gen::KINDS);
    let b = gen::image_kind(&mut c.rng, w, h, kind);
    let top = if c.thorough { 7.5 } else { 5.0 };
    let radius = (10.0 * 2f64.powf(c.rng.f64() * (top - 1.0))) as i64;
    c09_judge(c, b, radius)
}

fn c09_judge(c: &mut Case, b: Buf, radius: i64) -> R {
    let (w, h) = (b.width(), b.height());
    let sg = if c.rng.bool() { None } else { Some(sigma(&mut c.rng)) };
    c.desc(format!("radius {} sigma {:?} {}", radius, sg, gen::describe(&b)));
    if gen::nontrivial(&b) {
        c.distinct(&(gen::bits(&b), radius, sg.map(f32::to_bits)));
    }
    c.count(&format!("radius {}", if radius > 3 { ">3".to_string() } else { radius.to_string() }));
    c.max("radius", radius as f64);
    let img = d10::Image::new_from_buffer(b.clone());
    let out = img.gaussian_blur(radius as u32, sg);
    let eff = sg.map(|v| v as f64).unwrap_or(radius as f64 / 2.0);
    let k = gauss(radius, eff);
    // f32 rounding of the sum grows with the number of taps
    let slack = 5e-6 + 3e-8 * k.len() as f64;
    let btol = 1e-5 + slack;
    ensure!(out.width() == w && out.height() == h, "blur:size", "{}x{}", out.width(), out.height());
    let factor = *c.rng.pick(&[0.0f32, 0.5, 1.0, 2.0, -1.0, 10.0]);
    let un = img.unsharp(radius as u32, factor, sg);
    ensure!(un.width() == w && un.height() == h, "unsharp:size", "{}x{}", un.width(), un.height());
    for y in 0..h {
        for x in 0..w {
            c.evals(2);
            let (s, lo, hi) = blur_ref(&b, &k, radius, x as i64, y as i64);
            let o = out.get_pixel(x, y);
            let d = diff(&o.data, &s);
            c.max("blur", d);
            ensure!(d <= btol, "blur", "pixel ({},{}) is {:?}, expected {:?}", x, y, o.data, s);
            for q in 0..4 {
                ensure!(o.data[q] as f64 >= lo[q] - slack && o.data[q] as f64 <= hi[q] + slack, "blur:range", "pixel ({},{}) {:?} leaves its window's range {:?}..{:?}", x, y, o.data, lo, hi);
            }
            let p = px(&b, x as i64, y as i64);
            if radius == 0 || eff == 0.0 {
                ensure!(diff(&o.data, &p) < 1e-6, "blur:identity", "pixel ({},{}) {:?} became {:?}", x, y, p, o.data);
            }
            let mut e = [0f64; 4];
            for q in 0..4 {
                e[q] = (p[q] + (p[q] - s[q]) * factor as f64).clamp(0.0, 1.0);
            }
            let u = un.get_pixel(x, y);
            let d = diff(&u.data, &e);
            c.max("unsharp / (1+|factor|)", d / (1.0 + factor.abs() as f64));
            ensure!(d <= btol * (1.0 + factor.abs() as f64), "unsharp", "pixel ({},{}) is {:?}, expected {:?} (factor {})", x, y, u.data, e, factor);
        }
    }
    if gen::is_huge() || c.rng.chance(0.3) {
        c.evals(4);
        let t = btol;
        let f = |i: &d10::Image| i.gaussian_blur(radius as u32, sg);
        for (n, a, e) in [
            ("flip_horizontal", f(&img.flip_horizontal()), out.flip_horizontal()),
            ("flip_vertical", f(&img.flip_vertical()), out.flip_vertical()),
            ("rotate90", f(&img.rotate90()), out.rotate90()),
            ("rotate180", f(&img.rotate180()), out.rotate180()),
        ] {
            let d = buf_diff(a.buffer(), e.buffer());
            ensure!(d <= t, format!("blur commutes with {}", n), "off by {:.2e}", d);
        }
    }
    Ok(())
}

pub fn c09(m: &mut Mon) {
    m.rule = "gaussian weights (fixed 1..9, dynamic to 29 wide, blurs to a radius of 160, thorough 900) for sigmas from 0 over denormal-square to 1e6, and blur/unsharp of generated images (smaller and larger than the window) judged pixel by pixel against the f64 weighted sum, window range and mirror/rotation symmetry; non-trivial: distinct (radius, sigma) / non-uniform image with parameters".into();
    m.assumptions.push("sigma >= 0 and finite".into());
    let n = m.n(100_000, 15);
    m.cases("weights", n, c09_weights);
    let n = m.n(120_000, 20);
    m.cases("blur", n, c09_blur);
    let n = m.n(80, 15);
    m.cases("large blur", n, |c| gen::large(15000, || c09_blur(c)));
    let n = m.n(4, 10);
    m.cases("long blur", n, |c| gen::long(|| c09_blur(c)));
    let n = m.n(4, 8);
    m.cases("huge blur", n, |c| gen::huge(|| c09_blur(c)));
    let n = m.n(1_200, 6);
    m.cases("wide", n, c09_wide);
}

// ------------------------------------------------------------------------------------------- C10

fn bilinear(b: &Buf, x: f64, y: f64) -> V {
    let (x0, y0) = (x.floor(), y.floor());
    let (tx, ty) = (x - x0, y - y0);
    let (x0, y0) = (x0 as i64, y0 as i64);
    let mut o = [0.0; 4];
    for q in 0..4 {
        let l = |a: f64, b: f64, t: f64| a + (b - a) * t;
        o[q] = l(l(px(b, x0, y0)[q], px(b, x0 + 1, y0)[q], tx), l(px(b, x0, y0 + 1)[q], px(b, x0 + 1, y0 + 1)[q], tx), ty);
    }
    clamp(o)
}

fn cubic(v: [f64; 4], t: f64) -> f64 {
    // Catmull-Rom
    0.5 * (2.0 * v[1] + (v[2] - v[0]) * t + (2.0 * v[0] - 5.0 * v[1] + 4.0 * v[2] - v[3]) * t * t + (3.0 * v[1] - v[0] - 3.0 * v[2] + v[3]) * t * t * t)
}

fn bicubic(b: &Buf, x: f64, y: f64) -> V {
    let (x0, y0) = (x.floor(), y.floor());
    let (tx, ty) = (x - x0, y - y0);
    let (x0, y0) = (x0 as i64, y0 as i64);
    let mut o = [0.0; 4];
    for q in 0..4 {
        let row = |j: i64| cubic([px(b, x0 - 1, y0 + j)[q], px(b, x0, y0 + j)[q], px(b, x0 + 1, y0 + j)[q], px(b, x0 + 2, y0 + j)[q]], tx);
        o[q] = cubic([row(-1), row(0), row(1), row(2)], ty);
    }
    clamp(o)
}

fn sinc(v: f64) -> f64 {
    if v == 0.0 {
        1.0
    } else {
        (PI * v).sin() / (PI * v)
    }
}

fn lw(v: f64, size: f64) -> f64 {
    let v = v.abs() * 3.0 / size;
    if v < 3.0 {
        sinc(v) * sinc(v / 3.0) * 3.0 / size
    } else {
        0.0
    }
}

fn lanczos(b: &Buf, x: f64, y: f64, size: i64) -> V {
    let (x0, y0) = (x.floor(), y.floor());
    let (tx, ty) = (x - x0, y - y0);
    let (x0, y0) = (x0 as i64, y0 as i64);
    let wx: Vec<f64> = (-size..=size).map(|i| lw(i as f64 - tx, size as f64)).collect();
    let wy: Vec<f64> = (-size..=size).map(|i| lw(i as f64 - ty, size as f64)).collect();
    let mut o = [0.0; 4];
    for (j, wj) in wy.iter().enumerate() {
        let mut r = [0.0; 4];
        for (i, wi) in wx.iter().enumerate() {
            let p = px(b, x0 + i as i64 - size, y0 + j as i64 - size);
            for q in 0..4 {
                r[q] += p[q] * wi;
            }
        }
        for q in 0..4 {
            o[q] += r[q] * wj;
        }
    }
    o
}

pub const FILTERS: [(FilterMode, &str); 5] = [
    (FilterMode::Nearest, "nearest"),
    (FilterMode::Bilinear, "bilinear"),
    (FilterMode::Bicubic, "bicubic"),
    (FilterMode::Lanczos3, "lanczos3"),
    (FilterMode::Auto, "auto"),
];

/// candidates for a nearest lookup: more than one when the position is on the border between two pixels
fn near_idx(v: f64, tol: f64) -> Vec<i64> {
    let mut o = vec![v.floor() as i64];
    for k in [(v - tol).floor() as i64, (v + tol).floor() as i64] {
        if !o.contains(&k) {
            o.push(k)
        }
    }
    o
}

enum Sampler {
    Nearest,
    Bilinear,
    Bicubic,
    Lanczos(i64),
}

fn resize_ref_check(b: &Buf, out: &Buf, s: &Sampler, sample: &mut dyn FnMut() -> bool) -> Result<(u64, f64), (String, f64)> {
    let (sx, sy) = (out.width() as f64 / b.width() as f64, out.height() as f64 / b.height() as f64);
    let mut worst = 0f64;
    let mut n = 0;
    let dim = b.width().max(b.height()) as f64;
    // slopes per pixel are bounded by a small constant, positions are f32
    let tol = 3e-5 + 2e-6 * dim;
    for y in 0..out.height() {
        for x in 0..out.width() {
            if !sample() {
                continue;
            }
            n += 1;
            let o = &out.data()[(y * out.width() + x) as usize].data;
            if let Sampler::Nearest = s {
                let xs = near_idx(x as f64 / sx + 0.5, 1e-6 * (1.0 + dim));
                let ys = near_idx(y as f64 / sy + 0.5, 1e-6 * (1.0 + dim));
                let ok = xs.iter().any(|xx| ys.iter().any(|yy| diff(o, &px(b, *xx, *yy)) == 0.0));
                if !ok {
                    return Err((format!("pixel ({},{}) is {:?}, not one of the source pixels {:?} x {:?}", x, y, o, xs, ys), f64::INFINITY));
                }
                continue;
            }
            let gx = (x as f64 + 0.5) / sx - 0.5;
            let gy = (y as f64 + 0.5) / sy - 0.5;
            let e = match s {
                Sampler::Bilinear => bilinear(b, gx, gy),
                Sampler::Bicubic => bicubic(b, gx, gy),
                Sampler::Lanczos(k) => lanczos(b, gx, gy, *k),
                Sampler::Nearest => unreachable!(),
            };
            let d = diff(o, &e);
            worst = worst.max(d / tol);
            if d > tol {
                return Err((format!("pixel ({},{}) at source ({:.4},{:.4}) is {:?}, expected {:?}", x, y, gx, gy, o, e), d));
            }
        }
    }
    Ok((n, worst))
}

fn auto_sizes(b: &Buf, nw: u32, nh: u32) -> Vec<Sampler> {
    if b.width() <= nw || b.height() <= nh {
        return vec![Sampler::Bicubic];
    }
    let r = 2.0 * (b.width() as f64 / nw as f64).max(b.height() as f64 / nh as f64);
    let mut s = vec![r.max(3.0).ceil() as i64];
    for k in [(r - 1e-4 * r).max(3.0).ceil() as i64, (r + 1e-4 * r).max(3.0).ceil() as i64] {
        if !s.contains(&k) {
            s.push(k)
        }
    }
    s.into_iter().map(Sampler::Lanczos).collect()
}

fn target(r: &mut Rng, n: u32) -> u32 {
    if gen::is_huge() {
        return if r.chance(0.3) { n } else { ((n as f32 * r.uniform(0.45, 1.3)).ceil() as u32).max(n.min(3)) };
    }
    match r.usize(8) {
        0 => 1,
        1 => n,
        2 => n * 2,
        3 => n.div_ceil(2),
        4 => 1 + r.below(3) as u32,
        5 => (n as f32 * r.uniform(0.3, 1.0)).ceil() as u32,
        6 => n + 1 + r.below(30) as u32,
        _ => 1 + r.below(50) as u32,
    }
}

fn c10_case(c: &mut Case) -> R {
    let big = c.rng.chance(0.02);
    let b = gen::image(&mut c.rng, if big { 300 } else { 24 });
    let (nw, nh) = (target(&mut c.rng, b.width()), target(&mut c.rng, b.height()));
    let (f, name) = *c.rng.pick(&FILTERS);
    c.desc(format!("{} to {}x{} {}", name, nw, nh, gen::describe(&b)));
    if gen::nontrivial(&b) {
        c.distinct(&(gen::bits(&b), nw, nh, name));
    }
    c.count(name);
    let g = gen::bits(&b);
    let img = d10::Image::new_from_buffer(b.clone());
    let out = img.resize(nw, nh, f);
    c.eval();
    ensure!(out.width() == nw && out.height() == nh, "resize:size", "{}: {}x{} resized to {}x{} is {}x{}", name, b.width(), b.height(), nw, nh, out.width(), out.height());
    let out2 = d10_ops::resize(&b, nw, nh, f);
    ensure!(gen::bits(&out2) == gen::bits(out.buffer()), "resize:facade", "Image::resize and ops::resize differ");
    if nw == b.width() && nh == b.height() {
        c.count("same size");
        ensure!(gen::bits(out.buffer()) == g, "resize:same", "{}: the image changed though its size did not", name);
    } else {
        let cands = match f {
            FilterMode::Nearest => vec![Sampler::Nearest],
            FilterMode::Bilinear => vec![Sampler::Bilinear],
            FilterMode::Bicubic => vec![Sampler::Bicubic],
            FilterMode::Lanczos3 => vec![Sampler::Lanczos(3)],
            FilterMode::Auto => auto_sizes(&b, nw, nh),
        };
        // bound the work of the reference on big images
        let pick: f64 = if gen::is_huge() && matches!(f, FilterMode::Nearest | FilterMode::Bilinear) { 1.0 } else if (nw as f64 * nh as f64) > 900.0 { 900.0 / (nw as f64 * nh as f64) } else { 1.0 };
        let mut err = None;
        for s in &cands {
            let mut q = c.rng.clone();
            match resize_ref_check(&b, out.buffer(), s, &mut || pick >= 1.0 || q.chance(pick)) {
                Ok((n, worst)) => {
                    c.evals(n);
                    c.max(&format!("{} deviation/tolerance", name), worst);
                    if let Sampler::Lanczos(k) = s {
                        if *k > 3 {
                            c.count(&format!("lanczos window {}", if *k > 8 { ">17".into() } else { (2 * k + 1).to_string() }));
                        }
                    }
                    err = None;
                    break;
                }
                Err(e) => err = Some(e.0),
            }
        }
        if let Some(e) = err {
            return fail(format!("resize:{}", name), format!("{} to {}x{}: {}", name, nw, nh, e));
        }
    }
    for p in out.data() {
        ensure!(p.data.iter().all(|v| v.is_finite()), "resize:finite", "{}: {:?}", name, p.data);
        if matches!(f, FilterMode::Bilinear | FilterMode::Bicubic) {
            ensure!(p.data.iter().all(|v| *v >= 0.0 && *v <= 1.0), "resize:range", "{}: {:?}", name, p.data);
        }
    }
    if matches!(f, FilterMode::Nearest) {
        let set: std::collections::HashSet<_> = b.data().iter().map(gen::cbits).collect();
        ensure!(out.data().iter().all(|p| set.contains(&gen::cbits(p))), "nearest:new-color", "a colour that is not in the image");
    } else if gen::is_huge() || c.rng.chance(0.3) {
        c.evals(2);
        let tol = 1e-4 + 4e-6 * b.width().max(b.height()) as f64;
        let d = buf_diff(img.flip_horizontal().resize(nw, nh, f).buffer(), out.flip_horizontal().buffer());
        ensure!(d <= tol, format!("resize:mirror:{}", name), "{} {}x{} to {}x{} does not commute with flip_horizontal: {:.2e}", name, b.width(), b.height(), nw, nh, d);
        let d = buf_diff(img.flip_vertical().resize(nw, nh, f).buffer(), out.flip_vertical().buffer());
        ensure!(d <= tol, format!("resize:mirror:{}", name), "{} {}x{} to {}x{} does not commute with flip_vertical: {:.2e}", name, b.width(), b.height(), nw, nh, d);
    }
    Ok(())
}

fn c10_uniform(c: &mut Case) -> R {
    let (w, h) = gen::dims(&mut c.rng, 60);
    let col = gen::color(&mut c.rng);
    let (nw, nh) = (target(&mut c.rng, w), target(&mut c.rng, h));
    let img = d10::Image::new_with_color(w, h, col);
    c.desc(format!("{}x{} of {:?} to {}x{}", w, h, col.data, nw, nh));
    c.distinct(&(w, h, nw, nh));
    for (f, name) in FILTERS {
        let out = img.resize(nw, nh, f);
        c.eval();
        let tol = match f {
            FilterMode::Nearest => 0.0,
            FilterMode::Bilinear | FilterMode::Bicubic => 1e-6,
            _ => 0.02,
        };
        for p in out.data() {
            let d = diff(&p.data, &col.data.map(|v| v as f64));
            ensure!(d <= tol, format!("resize:uniform:{}", name), "{}: uniform {:?} became {:?} ({}x{} to {}x{})", name, col.data, p.data, w, h, nw, nh);
        }
    }
    Ok(())
}

pub fn c10(m: &mut Mon) {
    m.rule = "generated images resized to larger, smaller, mixed, equal and 1-pixel sizes with every filter, every output pixel (sampled on large ones) judged against the f64 filter at its source position; uniform images; mirrored inputs; percentages; empty and extreme sizes; non-trivial: distinct (non-uniform image, target, filter)".into();
    m.assumptions.push("nearest picks the pixel at floor(x/scale+0.5), the others sample at (x+0.5)/scale-0.5 (the library's definition); positions on a border between two pixels may fall either way".into());
    m.assumptions.push("lanczos weights are not renormalised, ripple up to 2 % on uniform images is allowed".into());
    let n = m.n(25_000, 20);
    m.cases("resize", n, c10_case);
    let n = m.n(120, 15);
    m.cases("large resize", n, |c| gen::large(12000, || c10_case(c)));
    let n = m.n(4, 10);
    m.cases("long resize", n, |c| gen::long(|| c10_case(c)));
    let n = m.n(6, 8);
    m.cases("huge resize", n, |c| gen::huge(|| c10_case(c)));
    let n = m.n(4_000, 20);
    m.cases("uniform", n, c10_uniform);
    let n = m.n(4_000, 20);
    m.cases("percent", n, |c| {
        let (w, h) = gen::dims(&mut c.rng, 80);
        let pct = match c.rng.usize(6) {
            0 => 100.0,
            1 => 0.0,
            3 => 12.5 * (1 + c.rng.below(24)) as f32,
            2 => *c.rng.pick(&[50.0f32, 200.0, 25.0, 33.3333, 150.0, 1.0, 0.1]),
            _ => c.rng.uniform(0.0, 300.0),
        };
        let img = d10::Image::new_with_color(w, h, Rgb::RED);
        let f = *c.rng.pick(&[FilterMode::Nearest, FilterMode::Bilinear]);
        let out = img.resize_pct(pct, f);
        c.eval();
        c.desc(format!("{}x{} at {}%", w, h, pct));
        c.distinct(&(w, h, pct.to_bits()));
        for (n, o) in [(w, out.width()), (h, out.height())] {
            let e = n as f64 * pct as f64 / 100.0;
            // halves that are exact in every arithmetic round up
            let exact = pct % 12.5 == 0.0;
            let ok = if exact { (e.round() as i64).max(1) == o as i64 } else { [e - 1e-4, e, e + 1e-4].iter().any(|e| (e.round() as i64).max(1) == o as i64) };
            ensure!(ok, "resize_pct", "{} at {}% became {}", n, pct, o);
        }
        Ok(())
    });
    m.cases("extreme", 40, |c| {
        let (f, name) = FILTERS[c.n as usize % 5];
        let (w, h, nw, nh) = [(0, 0, 3, 4), (3, 4, 0, 0), (500, 400, 1, 1), (700, 3, 2, 2), (1, 1, 400, 300), (3, 900, 3, 5), (1, 700, 1, 3), (640, 480, 200, 150)][c.n as usize / 5];
        c.desc(format!("{} {}x{} to {}x{}", name, w, h, nw, nh));
        c.distinct(&(w, h, nw, nh, name));
        let b = gen::image_kind(&mut c.rng, w, h, 7);
        c.eval();
        let out = d10_ops::resize(&b, nw, nh, f);
        ensure!(out.width() == nw && out.height() == nh && out.data().len() == (nw * nh) as usize, "resize:size", "{}x{}", out.width(), out.height());
        ensure!(out.data().iter().all(|p| p.data.iter().all(|v| v.is_finite())), "resize:finite", "not finite");
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C11

fn c11_case(c: &mut Case) -> R {
    let b = if c.rng.chance(0.02) { Buf::new(0, 0) } else { gen::image(&mut c.rng, 24) };
    let deg: f32 = match c.rng.usize(8) {
        0 => *c.rng.pick(&[0.0f32, 90.0, 180.0, 270.0, 360.0, -90.0, -180.0, -360.0, 720.0, 450.0]),
        1 => c.rng.uniform(-1.0, 1.0),
        2 => *c.rng.pick(&[45.0f32, 135.0, 30.0, 60.0, -45.0]),
        3 => c.rng.uniform(-4000.0, 4000.0),
        4 => 360.0 + c.rng.uniform(-0.01, 0.01),
        _ => c.rng.uniform(-360.0, 360.0),
    };
    let (f, name) = *c.rng.pick(&FILTERS);
    let bg = if c.rng.bool() { Rgb::NONE } else { gen::color(&mut c.rng) };
    c.desc(format!("{} deg {} bg {:?} {}", deg, name, bg.data, gen::describe(&b)));
    if gen::nontrivial(&b) {
        c.distinct(&(gen::bits(&b), deg.to_bits(), name));
    }
    c.count(name);
    let out = d10_ops::rotate(&b, deg, bg, f);
    let (w, h) = (b.width(), b.height());
    ensure!(out.width() == w && out.height() == h, "rotate:size", "{}x{} became {}x{}", w, h, out.width(), out.height());
    if b.is_empty() {
        c.eval();
        return Ok(());
    }
    {
        // the facade uses a transparent background
        let img = d10::Image::new_from_buffer(b.clone()).rotate(deg, f);
        let o = d10_ops::rotate(&b, deg, Rgb::NONE, f);
        c.eval();
        ensure!(gen::bits(img.buffer()) == gen::bits(&o), "rotate:facade", "Image::rotate differs from ops::rotate with transparent background");
    }
    let rad = -(deg as f64).to_radians();
    let (s, co) = rad.sin_cos();
    let (cx, cy) = ((w as f64 - 1.0) / 2.0, (h as f64 - 1.0) / 2.0);
    let diag = (w as f64).hypot(h as f64);
    let perr = diag * (1.5e-7 * rad.abs() + 4e-7) + 1e-6;
    let vtol = 2e-5 + 5.0 * perr;
    let bgv = bg.data.map(|v| v as f64);
    for y in 0..h {
        for x in 0..w {
            let o = &out.data()[(y * w + x) as usize].data;
            let (a, bb) = (x as f64 - cx, y as f64 - cy);
            let xx = a * co - bb * s + cx;
            let yy = a * s + bb * co + cy;
            c.stats.evaluations += 1;
            ensure!(o.iter().all(|v| v.is_finite()), "rotate:finite", "pixel ({},{}) {:?}", x, y, o);
            // which source pixel the position rounds to (both, when on the border)
            let xs = near_idx(xx + 0.5, perr);
            let ys = near_idx(yy + 0.5, perr);
            let mut ok = false;
            let mut want = vec![];
            for xi in &xs {
                for yi in &ys {
                    let inside = *xi >= 0 && *yi >= 0 && *xi < w as i64 && *yi < h as i64;
                    let (e, t) = if !inside {
                        (bgv, 0.0)
                    } else {
                        match f {
                            FilterMode::Nearest => (px(&b, *xi, *yi), 0.0),
                            FilterMode::Bilinear => (bilinear(&b, xx, yy), vtol),
                            FilterMode::Bicubic | FilterMode::Auto => (bicubic(&b, xx, yy), vtol),
                            FilterMode::Lanczos3 => (lanczos(&b, xx, yy, 3), vtol),
                        }
                    };
                    ok |= diff(o, &e) <= t;
                    want.push(e);
                }
            }
            if xs.len() * ys.len() > 1 {
                c.count("border positions");
            }
            ensure!(ok, format!("rotate:{}", name), "{} deg: pixel ({},{}) from ({:.5},{:.5}) is {:?}, expected one of {:?}", deg, x, y, xx, yy, o, want);
        }
    }
    Ok(())
}

fn c11_exact(c: &mut Case) -> R {
    let sq = c.rng.bool();
    let mut b = gen::image(&mut c.rng, 30);
    if sq {
        let n = b.width().min(b.height());
        b = d10_ops::crop(&b, 0, 0, n, n);
    }
    let img = d10::Image::new_from_buffer(b.clone());
    c.desc(gen::describe(&b));
    if gen::nontrivial(&b) {
        c.distinct(&gen::bits(&b));
    }
    for (f, name) in FILTERS {
        // the positions of very long images are rounded
        let long = 2.0 * (b.width() as f64).hypot(b.height() as f64) * (1.5e-7 * std::f64::consts::PI + 4e-7);
        let t = if let FilterMode::Nearest = f { 0.0 } else { 3e-4 + if long > 0.02 { long } else { 0.0 } };
        let mut ex = vec![(0.0f32, img.clone()), (360.0, img.clone()), (180.0, img.rotate180()), (-180.0, img.rotate180())];
        if b.width() == b.height() {
            ex.push((90.0, img.rotate90()));
            ex.push((270.0, img.rotate270()));
            ex.push((-90.0, img.rotate270()));
        }
        for (deg, e) in ex {
            c.eval();
            let o = img.rotate(deg, f);
            let d = buf_diff(o.buffer(), e.buffer());
            c.max(&format!("exact {}", name), d);
            ensure!(d <= t, format!("rotate-exact:{}:{}", name, deg), "{} by {} differs from the exact turn by {:.2e}", name, deg, d);
        }
    }
    Ok(())
}

pub fn c11(m: &mut Mon) {
    m.rule = "generated images rotated by special, tiny, negative, multi-turn and random angles with every filter and random backgrounds, each output pixel judged against the f64 filter at its back-rotated position (or the background outside); exact turns against rotate90/180/270; non-trivial: distinct (non-uniform image, angle, filter)".into();
    m.assumptions.push("angles are degrees (the parameter is called radians in the code); positions within f32 rounding of a pixel border may fall either way".into());
    let n = m.n(120_000, 25);
    m.cases("angles", n, c11_case);
    let n = m.n(200, 15);
    m.cases("large angles", n, |c| gen::large(70000, || c11_case(c)));
    let n = m.n(8, 10);
    m.cases("long angles", n, |c| gen::long(|| c11_case(c)));
    let n = m.n(4, 8);
    m.cases("huge angles", n, |c| gen::huge(|| c11_case(c)));
    let n = m.n(30_000, 25);
    m.cases("exact", n, c11_exact);
    let n = m.n(200, 15);
    m.cases("large exact", n, |c| gen::large(70000, || c11_exact(c)));
    let n = m.n(8, 10);
    m.cases("long exact", n, |c| gen::long(|| c11_exact(c)));
}
