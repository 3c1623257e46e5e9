//! C17 - C21: blending, composition, palettes, histograms and noise
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::gen::Buf;
use crate::refimpl as rf;
use crate::refimpl::P;
use d10::Image;
use d10_core::color::*;
use d10_core::pixelbuffer::PixelBuffer;
use d10_ops::*;
use std::f64::consts::PI;
use std::str::FromStr;

const D65_2: [f64; 3] = rf::D65_2;

// ------------------------------------------------------------------------------------------- C17

pub const BLEND_OPS: [&str; 12] = [
    "normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten", "lch_hue", "lch_saturation", "lch_color",
];

pub fn blend_op(k: usize) -> BlendOp {
    match k {
        0 => BlendOp::Normal,
        1 => BlendOp::Addition,
        2 => BlendOp::Subtract,
        3 => BlendOp::Darken,
        4 => BlendOp::Lighten,
        5 => BlendOp::HslDarken,
        6 => BlendOp::HslLighten,
        7 => BlendOp::LchDarken,
        8 => BlendOp::LchLighten,
        9 => BlendOp::LchHue,
        10 => BlendOp::LchSaturation,
        _ => BlendOp::LchColor,
    }
}

fn blend_fn(k: usize, a: Rgb, b: Rgb, t: f32) -> Rgb {
    match k {
        0 => blend_normal(a, b, t),
        1 => blend_addition(a, b, t),
        2 => blend_subtract(a, b, t),
        3 => blend_darken(a, b, t),
        4 => blend_lighten(a, b, t),
        5 => blend_hsl_darken(a, b, t),
        6 => blend_hsl_lighten(a, b, t),
        7 => blend_lch_darken(a, b, t),
        8 => blend_lch_lighten(a, b, t),
        9 => blend_lch_hue(a, b, t),
        10 => blend_lch_saturation(a, b, t),
        _ => blend_lch_color(a, b, t),
    }
}

fn lerp(a: f64, b: f64, t: f64) -> f64 {
    a * (1.0 - t) + b * t
}

/// The expected colour and the tolerance f32 arithmetic needs there; `None` where the definition is ambiguous
pub fn blend_ref(k: usize, a: &P, b: &P, t: f64) -> Option<(P, f64)> {
    match k {
        0 => {
            let al = b[3] * t;
            Some(([0, 1, 2].map(|i| rf::c01(b[i] * al + (1.0 - al) * a[i])), (a[3] + al).clamp(0.0, 1.0))).map(|(c, al)| ([c[0], c[1], c[2], al], 2e-6))
        }
        1..=4 => {
            let f = |x: f64, y: f64| match k {
                1 => x + y,
                2 => x - y,
                3 => x.min(y),
                _ => x.max(y),
            };
            let q = t * b[3];
            let v = |i: usize| rf::c01(lerp(a[i], f(a[i], b[i]), q));
            Some(([v(0), v(1), v(2), b[3]], 2e-6))
        }
        5 | 6 => {
            let (x, y) = (rf::hsl(a), rf::hsl(b));
            let l2 = if k == 5 { x[2].min(y[2]) } else { x[2].max(y[2]) };
            let room = 1.0 - (2.0 * x[2] - 1.0).abs();
            if room < 2e-3 && l2 != x[2] {
                // the saturation of almost white and black colours is below the resolution of f32
                let d = rf::mx(a) - rf::mn(a);
                if d > 0.0 {
                    return None;
                }
            }
            let r = rf::from_hsl(&[x[0], x[1], lerp(x[2], l2, t), a[3]]);
            // hue and saturation of channels within EPS of each other are rounded before they are scaled up
            let room2 = 1.0 - (2.0 * lerp(x[2], l2, t) - 1.0).abs();
            Some((rf::map3(r, rf::c01), 3e-5 + 6e-7 / room.max(1e-3) + 4e-5 * (room2 / room.max(1e-9)).clamp(1.0, 1e4)))
        }
        _ => {
            let (x, y) = (rf::lch(a, &D65_2), rf::lch(b, &D65_2));
            let (mut l, mut c, mut h) = (x[0], x[1], x[2]);
            let mut tol = 6e-4;
            match k {
                7 => l = lerp(l, x[0].min(y[0]), t),
                8 => l = lerp(l, x[0].max(y[0]), t),
                _ => {}
            }
            if k >= 10 {
                c = lerp(c, y[1], t);
            }
            if k == 9 || k == 11 {
                let d = (y[2] - x[2] + PI).rem_euclid(2.0 * PI) - PI;
                h = x[2] + t * d;
                let (near1, near2) = (x[1] < 2e-3, y[1] < 2e-3);
                if c > 1e-3 && (near1 && t < 1.0 || near2 && t > 0.0) {
                    return None;
                }
                if c > 1e-3 && (d.abs() - PI).abs() < 5e-3 && t > 0.0 && t < 1.0 {
                    return None;
                }
                tol += 2e-6 * c / x[1].max(1e-3) + 2e-6 * c / y[1].max(1e-3);
                if c <= 1e-3 {
                    tol += 6.0 * c;
                }
            } else if k == 10 && x[1] < 2e-3 && c > 1e-3 {
                // the hue of a grey is noise
                return None;
            } else if k == 10 {
                tol += 2e-6 * c / x[1].max(1e-3);
            }
            Some((rf::from_lch(&[l, c, h, a[3]], &D65_2), tol))
        }
    }
}

fn intensity(r: &mut Rng) -> f32 {
    match r.usize(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => r.f32(),
    }
}

fn c17_colors(c: &mut Case) -> R {
    let (a, b) = (gen::color(&mut c.rng), gen::color(&mut c.rng));
    let t = intensity(&mut c.rng);
    for k in 0..12 {
        c.desc(format!("{} of {:?} and {:?} intensity {}", BLEND_OPS[k], a.data, b.data, t));
        let r = blend_fn(k, a, b, t);
        blend_check(c, k, &a, &b, t, &r)?;
    }
    c.distinct(&(gen::cbits(&a), gen::cbits(&b), t.to_bits()));
    Ok(())
}

fn blend_check(c: &mut Case, k: usize, a: &Rgb, b: &Rgb, t: f32, r: &Rgb) -> R {
    let name = BLEND_OPS[k];
    c.eval();
    let rng = r.data.iter().all(|v| v.is_finite() && (-2e-6..=1.0 + 2e-6).contains(v));
    ensure!(rng, format!("{}:range", name), "{} of {:?} and {:?} at {} is {:?}", name, a.data, b.data, t, r.data);
    let (pa, pb) = (rf::p(&a.data), rf::p(&b.data));
    // alpha by mode
    let ea = match k {
        0 => (pa[3] + pb[3] * t as f64).clamp(0.0, 1.0),
        1..=4 => pb[3],
        _ => pa[3],
    };
    ensure!((r.data[3] as f64 - ea).abs() <= 1e-6, format!("{}:alpha", name), "{} of {:?} and {:?} at {}: alpha {} instead of {}", name, a.data, b.data, t, r.data[3], ea);
    if t == 0.0 {
        let d = (0..3).map(|i| (r.data[i] - a.data[i]).abs()).fold(0f32, f32::max);
        c.max(&format!("{} intensity 0", name), d as f64);
        ensure!(d <= if k >= 7 { 1.2e-3 } else { 2e-4 }, format!("{}:identity", name), "{} of {:?} and {:?} at 0 changes it to {:?}", name, a.data, b.data, r.data);
    }
    match blend_ref(k, &pa, &pb, t as f64) {
        None => c.count("ambiguous"),
        Some((e, tol)) => {
            let d = rf::diff32(&r.data, &e);
            c.max(&format!("{} / tolerance", name), d / tol);
            ensure!(d <= tol, name, "{} of {:?} and {:?} at {} is {:?}, expected {:?} (off by {:.2e})", name, a.data, b.data, t, r.data, e, d);
        }
    }
    Ok(())
}

fn c17_images(c: &mut Case) -> R {
    let a = gen::image_or_empty(&mut c.rng, 14);
    let b = if c.rng.chance(0.2) {
        let k = c.rng.usize(gen::KINDS);
        gen::image_kind(&mut c.rng, a.width(), a.height(), k)
    } else {
        gen::image_or_empty(&mut c.rng, 14)
    };
    let k = c.rng.usize(12);
    let t = intensity(&mut c.rng);
    let name = BLEND_OPS[k];
    c.desc(format!("{} intensity {} of {} and {}", name, t, gen::describe(&a), gen::describe(&b)));
    c.distinct(&(k, t.to_bits(), gen::bits(&a), gen::bits(&b)));
    c.count(&format!("image {}", name));
    let (ba, bb) = (gen::bits(&a), gen::bits(&b));
    let r = match c.rng.usize(3) {
        0 => blend_image(&a, &b, blend_op(k), t),
        1 => blend_image(&a, &b, BlendOp::from_str(name).map_err(|e| Fail { sig: "name".into(), msg: e.to_string() })?, t),
        _ => Image::new_from_buffer(a.clone()).blend(&Image::new_from_buffer(b.clone()), blend_op(k), t).buffer().clone(),
    };
    ensure!(gen::bits(&a) == ba && gen::bits(&b) == bb, "inputs", "{} changes its inputs", name);
    let (w, h) = (a.width().max(b.width()), a.height().max(b.height()));
    ensure!((r.width(), r.height()) == (w, h), "size", "{}x{} and {}x{} give {}x{}", a.width(), a.height(), b.width(), b.height(), r.width(), r.height());
    for y in 0..h {
        for x in 0..w {
            let (pa, pb) = (
                (x < a.width() && y < a.height()).then(|| a.data()[(y * a.width() + x) as usize]),
                (x < b.width() && y < b.height()).then(|| b.data()[(y * b.width() + x) as usize]),
            );
            let v = r.data()[(y * w + x) as usize];
            match (pa, pb) {
                (Some(p), Some(q)) => {
                    c.count("covered by both");
                    blend_check(c, k, &p, &q, t, &v)?
                }
                (Some(p), None) | (None, Some(p)) => {
                    c.count("covered by one");
                    c.eval();
                    ensure!(gen::cbits(&v) == gen::cbits(&p), "single", "{}: pixel {},{} covered by one image is {:?} instead of {:?}", name, x, y, v.data, p.data)
                }
                (None, None) => {
                    c.count("covered by none");
                    c.eval();
                    ensure!(v.data == [0.0; 4], "uncovered", "{}: pixel {},{} covered by no image is {:?}", name, x, y, v.data)
                }
            }
        }
    }
    Ok(())
}

pub fn c17(m: &mut Mon) {
    m.rule = "blending of generated colours (greys, primaries, near-black, near-white, any alpha) and of images of unequal sizes in all 12 modes, judged by the f64 formula of the mode; the HSL/Lch modes are only compared where hue and saturation of the inputs are resolved by f32; non-trivial: distinct input pairs".into();
    let n = m.n(150_000, 40);
    m.cases("colors", n, c17_colors);
    let n = m.n(12_000, 40);
    m.cases("images", n, c17_images);
    let n = m.n(300, 15);
    m.cases("large images", n, |c| gen::large(70000, || c17_images(c)));
    let n = m.n(8, 10);
    m.cases("long images", n, |c| gen::long(|| c17_images(c)));
    let n = m.n(6, 8);
    m.cases("huge images", n, |c| gen::huge(|| c17_images(c)));
}

// ------------------------------------------------------------------------------------------- C18

fn compose_run<const N: usize>(c: &mut Case) -> R {
    let imgs: Vec<Buf> = (0..N)
        .map(|_| {
            let (w, h) = if c.rng.chance(0.08) { (0, 0) } else { gen::dims(&mut c.rng, 12) };
            gen::image_kind(&mut c.rng, w, h, 13)
        })
        .collect();
    let default = gen::color(&mut c.rng);
    let (w, h) = (imgs.iter().map(|i| i.width()).max().unwrap(), imgs.iter().map(|i| i.height()).max().unwrap());
    c.desc(format!("{} images {:?} default {:?}", N, imgs.iter().map(|i| (i.width(), i.height())).collect::<Vec<_>>(), default.data));
    c.distinct(&imgs.iter().map(gen::bits).collect::<Vec<_>>());
    c.count(&format!("{} images", N));
    let before: Vec<_> = imgs.iter().map(gen::bits).collect();
    let at = |i: usize, x: u32, y: u32| -> Rgb {
        let b = &imgs[i];
        if x < b.width() && y < b.height() {
            b.data()[(y * b.width() + x) as usize]
        } else {
            default
        }
    };
    let refs: [&Buf; N] = std::array::from_fn(|i| &imgs[i]);
    let images: Vec<Image> = imgs.iter().map(|b| Image::new_from_buffer(b.clone())).collect();
    let irefs: [&Image; N] = std::array::from_fn(|i| &images[i]);
    let total = (w * h) as usize;
    // where the fallible forms fail
    let fail_at = if total == 0 { None } else if c.rng.bool() { Some(c.rng.usize(total)) } else { None };
    let mut q = c.rng.clone();
    let out: Vec<Rgb> = (0..total).map(|_| Rgb::new_with_alpha(q.f32(), q.f32(), q.f32(), q.f32())).collect();
    for form in 0..8 {
        let mut trace: Vec<(u32, u32, Vec<Rgb>)> = vec![];
        let mut n = 0usize;
        let (name, res): (&str, Result<Buf, String>) = {
            let mut f = |x: u32, y: u32, v: &[Rgb]| -> Rgb {
                trace.push((x, y, v.to_vec()));
                n += 1;
                out.get(n - 1).cloned().unwrap_or(Rgb::NONE)
            };
            let fail = |k: usize| if Some(k) == fail_at { Err(format!("stop {}", k)) } else { Ok(()) };
            let mut k = 0usize;
            macro_rules! tryf {
                () => {
                    |x, y, v| {
                        k += 1;
                        let r = f(x, y, &v[..]);
                        fail(k - 1).map(|_| r)
                    }
                };
            }
            match form {
                0 => ("compose", Ok(compose(refs, default, |x, y, v| f(x, y, &v)))),
                1 => ("try_compose", try_compose(refs, default, tryf!())),
                2 => ("compose_slice", Ok(compose_slice(&refs, default, |x, y, v| f(x, y, v)))),
                3 => ("try_compose_slice", try_compose_slice(&refs, default, tryf!())),
                4 => ("Image::compose", Ok({ let fc = std::cell::RefCell::new(f); Image::compose(irefs, default, |x, y, v| (fc.borrow_mut())(x, y, &v)) }.buffer().clone())),
                5 => ("Image::compose_slice", Ok({ let fc = std::cell::RefCell::new(f); Image::compose_slice(&irefs, default, |x, y, v| (fc.borrow_mut())(x, y, v)) }.buffer().clone())),
                6 => {
                    let fc = std::cell::RefCell::new((f, 0usize));
                    ("Image::try_compose", Image::try_compose(irefs, default, |x, y, v| {
                        let mut s = fc.borrow_mut();
                        s.1 += 1;
                        let r = (s.0)(x, y, &v[..]);
                        fail(s.1 - 1).map(|_| r)
                    }).map(|i| i.buffer().clone()))
                }
                _ => {
                    let fc = std::cell::RefCell::new((f, 0usize));
                    ("Image::try_compose_slice", Image::try_compose_slice(&irefs, default, |x, y, v| {
                        let mut s = fc.borrow_mut();
                        s.1 += 1;
                        let r = (s.0)(x, y, &v[..]);
                        fail(s.1 - 1).map(|_| r)
                    }).map(|i| i.buffer().clone()))
                }
            }
        };
        let fallible = name.contains("try");
        let expect_calls = match fail_at {
            Some(k) if fallible => k + 1,
            _ => total,
        };
        c.evals(1 + trace.len() as u64);
        ensure!(trace.len() == expect_calls, format!("{}:calls", name), "{} calls for {}x{} pixels (error expected at {:?})", trace.len(), w, h, fail_at.filter(|_| fallible));
        for (i, (x, y, v)) in trace.iter().enumerate() {
            ensure!((*x, *y) == (i as u32 % w, i as u32 / w), format!("{}:order", name), "call {} is for {},{}", i, x, y);
            ensure!(v.len() == N, format!("{}:colors", name), "{} colours for {} images", v.len(), N);
            for (k, p) in v.iter().enumerate() {
                let e = at(k, *x, *y);
                ensure!(gen::cbits(p) == gen::cbits(&e), format!("{}:colors", name), "at {},{} image {} gave {:?} instead of {:?}", x, y, k, p.data, e.data);
            }
        }
        match (res, fail_at.filter(|_| fallible)) {
            (Err(e), Some(k)) => ensure!(e == format!("stop {}", k), format!("{}:error", name), "error {:?} instead of the one of call {}", e, k),
            (Ok(_), Some(k)) => return fail(format!("{}:error", name), format!("the error of call {} is dropped", k)),
            (Err(e), None) => return fail(format!("{}:error", name), format!("unexpected error {:?}", e)),
            (Ok(b), None) => {
                ensure!((b.width(), b.height()) == (w, h), format!("{}:size", name), "{}x{} instead of {}x{}", b.width(), b.height(), w, h);
                for (i, p) in b.data().iter().enumerate() {
                    ensure!(gen::cbits(p) == gen::cbits(&out[i]), format!("{}:result", name), "pixel {} is {:?}, the function returned {:?}", i, p.data, out[i].data);
                }
            }
        }
    }
    for (i, b) in imgs.iter().enumerate() {
        ensure!(gen::bits(b) == before[i] && gen::bits(images[i].buffer()) == before[i], "inputs", "image {} is changed", i);
    }
    Ok(())
}

fn c18_case(c: &mut Case) -> R {
    match c.rng.usize(6) {
        0 => compose_run::<1>(c),
        1 | 2 => compose_run::<2>(c),
        3 => compose_run::<3>(c),
        4 => compose_run::<4>(c),
        _ => match c.rng.usize(12) {
            0 => compose_run::<17>(c),
            1 => compose_run::<33>(c),
            2 => compose_run::<70>(c),
            _ => compose_run::<7>(c),
        },
    }
}

/// other colour spaces (the functions are generic)
fn c18_generic(c: &mut Case) -> R {
    let a = gen::image_or_empty(&mut c.rng, 8).to_hsl();
    let b = gen::image_or_empty(&mut c.rng, 8).to_hsl();
    let d = gen::color(&mut c.rng).to_hsl();
    c.desc(format!("hsl images {}x{} {}x{}", a.width(), a.height(), b.width(), b.height()));
    let (w, h) = (a.width().max(b.width()), a.height().max(b.height()));
    let mut n = 0;
    let at = |i: &PixelBuffer<Hsl>, x: u32, y: u32| if x < i.width() && y < i.height() { i.data()[(y * i.width() + x) as usize] } else { d };
    let mut bad = None;
    let r = compose([&a, &b], d, |x, y, v| {
        if (x, y) != (n % w, n / w) || v[0].data != at(&a, x, y).data || v[1].data != at(&b, x, y).data {
            bad = Some((x, y));
        }
        n += 1;
        v[(x + y) as usize % 2]
    });
    c.evals(n as u64 + 1);
    ensure!(bad.is_none() && n == w * h && (r.width(), r.height()) == (w, h), "generic", "hsl: wrong call at {:?} ({} calls for {}x{})", bad, n, w, h);
    for y in 0..h {
        for x in 0..w {
            let e = if (x + y) % 2 == 0 { at(&a, x, y) } else { at(&b, x, y) };
            ensure!(r.data()[(y * w + x) as usize].data == e.data, "generic", "hsl: wrong result at {},{}", x, y);
        }
    }
    Ok(())
}

pub fn c18(m: &mut Mon) {
    m.rule = "recorded callback histories (coordinates, colours, call count) of all array, slice, fallible and Image forms over 1 to 70 images of unequal sizes incl. empty ones, with errors injected at every position; non-trivial: distinct image lists".into();
    let n = m.n(60_000, 40);
    m.cases("compose", n, c18_case);
    let n = m.n(300, 15);
    m.cases("large compose", n, |c| gen::large(70000, || c18_case(c)));
    let n = m.n(8, 10);
    m.cases("long compose", n, |c| gen::long(|| c18_case(c)));
    let n = m.n(6, 8);
    m.cases("huge compose", n, |c| gen::huge(|| c18_case(c)));
    let n = m.n(10_000, 40);
    m.cases("generic", n, c18_generic);
}

// ------------------------------------------------------------------------------------------- C19

fn lab_dist(a: &P, b: &P) -> f64 {
    let (x, y) = (rf::lab(a, &D65_2), rf::lab(b, &D65_2));
    ((x[0] - y[0]).powi(2) + (x[1] - y[1]).powi(2) + (x[2] - y[2]).powi(2)).sqrt()
}

fn c19_case(c: &mut Case) -> R {
    c19_with(c, None)
}

fn c19_with(c: &mut Case, entries: Option<usize>) -> R {
    let n = if let Some(n) = entries { n } else { match c.rng.usize(6) {
        0 => 1,
        1 => 2,
        2 => 2 + c.rng.usize(6),
        3 if !gen::is_huge() => 16,
        _ if gen::is_huge() => 3,
        _ if gen::is_large() => 200 + c.rng.usize(500),
        _ => 1 + c.rng.usize(40),
    } };
    let mut pal: Vec<Rgb> = match c.rng.usize(5) {
        // greys
        0 => (0..n).map(|i| { let v = i as f32 / n.max(2) as f32; Rgb::new(v, v, v) }).collect(),
        // close together
        1 => {
            let o = gen::opaque_color(&mut c.rng);
            (0..n).map(|_| gen::mix(o, gen::opaque_color(&mut c.rng), 0.05)).collect()
        }
        // any alpha
        2 => (0..n).map(|_| gen::color(&mut c.rng)).collect(),
        _ => (0..n).map(|_| gen::opaque_color(&mut c.rng)).collect(),
    };
    let mut undecided = None;
    if n >= 2 && c.rng.chance(0.3) {
        // two entries at nearly the same distance of a colour of the image
        let s = gen::color(&mut c.rng);
        let (a, t) = (gen::opaque_color(&mut c.rng), gen::opaque_color(&mut c.rng));
        let ps = rf::p(&s.data);
        let (da, dt) = (lab_dist(&ps, &rf::p(&a.data)), lab_dist(&ps, &rf::p(&t.data)));
        let (a, t, want) = if da < dt { (a, t, da) } else { (t, a, dt) };
        let delta = 10f64.powf(c.rng.uniform(-4.3, -2.3) as f64) * if c.rng.bool() { 1.0 } else { -1.0 };
        let (mut lo, mut hi) = (0f32, 1f32);
        for _ in 0..24 {
            let mid = (lo + hi) / 2.0;
            if lab_dist(&ps, &rf::p(&gen::mix(s, t, mid).data)) < want + delta {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        let i = c.rng.usize(n);
        let j = (i + 1 + c.rng.usize(n - 1)) % n;
        pal[i] = a;
        pal[j] = gen::mix(s, t, hi).with_alpha(1.0);
        undecided = Some(s);
        c.count("entries at nearly the same distance");
    } else if c.rng.chance(0.3) && n > 2 {
        // duplicates
        let i = c.rng.usize(n);
        pal[i] = pal[(i + 1) % n];
    }
    let mut b = gen::image(&mut c.rng, if n > 10_000 { 4 } else { 12 });
    if c.rng.chance(0.6) {
        for p in b.data_mut().iter_mut() {
            if c.rng.chance(0.3) {
                // of large palettes more often the last ones
                let k = if c.rng.bool() { n - n / 20 - 1 } else { 0 };
                *p = *c.rng.pick(&pal[k..]);
            }
        }
    }
    if let Some(s) = undecided {
        for p in b.data_mut().iter_mut() {
            if c.rng.chance(0.2) {
                *p = s;
            }
        }
    }
    let ph = [1usize, 2, 3, 4].iter().cloned().filter(|d| n % d == 0).max().unwrap();
    let pbuf = Buf::new_from_raw((n / ph) as u32, ph as u32, pal.clone());
    c.desc(format!("palette {} on {}", gen::describe(&pbuf), gen::describe(&b)));
    c.distinct(&(gen::bits(&b), gen::bits(&pbuf)));
    let (ib, ip) = (gen::bits(&b), gen::bits(&pbuf));
    let form = c.rng.usize(4);
    let r = match form {
        0 => apply_palette(&b, &pbuf),
        1 => Image::new_from_buffer(b.clone()).apply_palette(&Image::new_from_buffer(pbuf.clone())).buffer().clone(),
        2 => apply_palette(&b, &pbuf.to_lab::<illuminant::D65, observer::O2>()),
        _ => apply_palette(&b, &pbuf.to_srgb()),
    };
    ensure!(gen::bits(&b) == ib && gen::bits(&pbuf) == ip, "inputs", "an input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "size", "{}x{}", r.width(), r.height());
    let pp: Vec<P> = pal.iter().map(|c| rf::p(&c.data)).collect();
    let plab: Vec<_> = pp.iter().map(|q| rf::lab(q, &D65_2)).collect();
    let check = |c: &mut Case, what: &str, r: &Buf| -> R {
        for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
            c.eval();
            let ps = rf::p(&s.data);
            let sl = rf::lab(&ps, &D65_2);
            let dist = |k: usize| ((sl[0] - plab[k][0]).powi(2) + (sl[1] - plab[k][1]).powi(2) + (sl[2] - plab[k][2]).powi(2)).sqrt();
            // the palette entry that was used
            let (mut used, mut ud) = (0, f64::INFINITY);
            let (mut best, mut second) = (f64::INFINITY, f64::INFINITY);
            for (k, q) in pp.iter().enumerate() {
                let d = rf::diff32(&o.data, q);
                let l = dist(k);
                // of equal candidates, the nearest
                if d < ud - 1e-4 || (d < ud + 1e-4 && l < dist(used)) {
                    ud = d.min(ud);
                    used = k;
                }
                if l < best {
                    second = best;
                    best = l;
                } else if l < second {
                    second = l;
                }
            }
            c.max("distance to the palette entry", ud);
            ensure!(ud <= 1.2e-3, format!("{}:foreign", what), "pixel {}: {:?} is not a palette colour (closest {:?})", i, o.data, pal[used].data);
            let d = dist(used);
            c.max("excess distance", d - best);
            if second - best > 1e-3 {
                c.count("clear decisions");
            }
            ensure!(d <= best + 3e-5, format!("{}:nearest", what), "pixel {}: {:?} became {:?} at distance {:.5}, but another entry is at {:.5}", i, s.data, o.data, d, best);
        }
        Ok(())
    };
    check(c, "apply", &r)?;
    // in place
    let mut inp = b.clone();
    match c.rng.usize(2) {
        0 => apply_palette_in_place(&mut inp, &pbuf),
        _ => {
            let mut i = Image::new_from_buffer(b.clone());
            i.apply_palette_in_place(&Image::new_from_buffer(pbuf.clone()));
            inp = i.buffer().clone();
        }
    }
    ensure!((inp.width(), inp.height()) == (b.width(), b.height()), "in place:size", "{}x{}", inp.width(), inp.height());
    ensure!(gen::bits(&pbuf) == ip, "inputs", "the palette is changed in place");
    if form < 2 {
        c.eval();
        ensure!(gen::bits(&inp) == gen::bits(&r), "in place", "differs from the new image");
    } else {
        check(c, "in place", &inp)?;
    }
    // again
    let r2 = apply_palette(&inp, &pbuf);
    c.eval();
    for (i, (x, y)) in inp.data().iter().zip(r2.data()).enumerate() {
        let d = (0..4).map(|k| (x.data[k] - y.data[k]).abs()).fold(0f32, f32::max) as f64;
        if d > 1.5e-3 {
            // only another entry of (nearly) the same colour may take over
            let px = rf::p(&x.data);
            let close: Vec<&P> = pp.iter().filter(|q| lab_dist(&px, q) < 2e-3).collect();
            let twins = close.iter().any(|q| close.iter().any(|o| (0..3).any(|k| q[k] != o[k])));
            ensure!(twins, "idempotent", "a second application changes pixel {} from {:?} to {:?}", i, x.data, y.data);
            c.count("second application: nearly equal entries");
        } else {
            c.max("second application", d);
        }
    }
    // another order
    let mut sh = pal.clone();
    for i in (1..sh.len()).rev() {
        sh.swap(i, c.rng.usize(i + 1));
    }
    let r3 = apply_palette(&b, &Buf::new_from_raw(n as u32, 1, sh));
    check(c, "order", &r3)
}

pub fn c19(m: &mut Mon) {
    m.rule = "palettes (1 to 40 entries, greys, clusters, duplicates, alpha) in several colour spaces applied to generated images; every output pixel must be a palette entry whose f64 Lab distance is minimal; non-trivial: distinct (image, palette)".into();
    m.assumptions.push("Lab D65/2 computed in f64; entries within 0.00003 (0.003 L units) of the minimum count as nearest".into());
    let n = m.n(12_000, 60);
    m.cases("palette", n, c19_case);
    let n = m.n(150, 15);
    m.cases("large palette", n, |c| gen::large(8000, || c19_case(c)));
    let n = m.n(60, 8);
    m.cases("palettes of many colours", n, |c| {
        let k = *c.rng.pick(&[255usize, 256, 257, 1000, 4097, 32_769, 65_535, 65_536, 65_537, 70_000, 140_000]);
        c19_with(c, Some(k))
    });
    let n = m.n(4, 8);
    m.cases("huge palette", n, |c| gen::huge(|| c19_case(c)));
}

// ------------------------------------------------------------------------------------------- C20

/// The channels a mode works on, as f64
fn mode_values(mode: usize, c: &P) -> Vec<f64> {
    match mode {
        0 => vec![c[0], c[1], c[2]],
        1 => {
            let s = rf::srgb(c);
            vec![s[0], s[1], s[2]]
        }
        2 => {
            let s = rf::hsv(c);
            vec![s[1], s[2]]
        }
        3 => {
            let s = rf::hsl(c);
            vec![s[1], s[2]]
        }
        4 => {
            let s = rf::lch(c, &D65_2);
            vec![s[0], s[1]]
        }
        _ => vec![(c[0] + c[1] + c[2]) / 3.0],
    }
}

/// true if the bin of `v` is clear of rounding (half: bins are centred on the levels)
fn clear(v: f64, rounded: bool) -> bool {
    let t = v * 255.0 + if rounded { 0.5 } else { 0.0 };
    if !rounded && (v <= 0.0 || v >= 1.0) {
        // exact ends
        return v == 0.0 || v == 1.0;
    }
    let f = t - t.floor();
    f > 0.02 && f < 0.98
}

/// Image whose pixels fall clearly into one bin in every channel the mode looks at
fn clear_image(r: &mut Rng, mode: usize, rounded: bool, max: u32) -> Buf {
    let (w, h) = gen::dims(r, max);
    let flavour = r.usize(6);
    let base = gen::opaque_color(r);
    let span = r.uniform(0.01, 0.6);
    let few: Vec<Rgb> = (0..1 + r.usize(4)).map(|_| gen::color(r)).collect();
    let mut d = vec![];
    while d.len() < (w * h) as usize {
        let mut p = match flavour {
            0 => gen::mix(base, gen::color(r), span),
            1 => gen::color(r),
            2 => *r.pick(&few),
            3 => {
                let lo = 0.3;
                Rgb::new(lo + 0.4 * r.f32(), lo + 0.4 * r.f32(), lo + 0.4 * r.f32())
            }
            4 => gen::mix(base, gen::opaque_color(r), 0.03),
            _ => Rgb::new(r.f32(), r.f32(), r.f32()),
        };
        let mut tries = 0;
        loop {
            let q = rf::p(&p.data);
            let ok = mode_values(mode, &q).iter().all(|v| clear(*v, rounded));
            // saturation and chroma have to be well resolved
            let res = mode < 2 || mode > 4 || {
                let d = rf::mx(&q) - rf::mn(&q);
                let room = 1.0 - (rf::mx(&q) + rf::mn(&q) - 1.0).abs();
                (d == 0.0 && mode != 4) || (d > 1e-2 && room > 2e-2 && rf::mx(&q) > 1e-2)
            };
            if ok && res {
                break;
            }
            tries += 1;
            let al = p.alpha();
            p = if tries > 20 { Rgb::new_with_alpha(0.02 + 0.9 * r.f32(), 0.02 + 0.9 * r.f32(), 0.02 + 0.9 * r.f32(), al) } else { gen::mix(p, gen::opaque_color(r), 0.02 * tries as f32).with_alpha(al) };
        }
        d.push(p);
    }
    Buf::new_from_raw(w, h, d)
}

const EQ: [(&str, EqualizeMode, usize); 5] = [
    ("rgb", EqualizeMode::Rgb, 0),
    ("srgb", EqualizeMode::Srgb, 1),
    ("saturation", EqualizeMode::Saturation, 3),
    ("lightness", EqualizeMode::Lightness, 3),
    ("saturation_lightness", EqualizeMode::SaturationLightness, 3),
];

fn equal_map(vals: &[f64]) -> impl Fn(f64) -> f64 {
    let bin = |v: f64| ((v * 255.0).round().clamp(0.0, 255.0)) as usize;
    let mut h = [0u64; 256];
    for v in vals {
        h[bin(*v)] += 1;
    }
    let mut cum = [0u64; 256];
    let mut s = 0;
    for i in 0..256 {
        s += h[i];
        cum[i] = s;
    }
    let (lo, hi) = (cum[0], cum[255]);
    move |v: f64| if hi == lo { 0.0 } else { (cum[((v * 255.0).round().clamp(0.0, 255.0)) as usize] - lo) as f64 / (hi - lo) as f64 }
}

/// Sometimes a few pixels out of range, as filters leave them: they belong to the nearest level
fn overshoot(r: &mut Rng, b: &mut Buf) -> bool {
    if !r.chance(0.15) || b.data().is_empty() {
        return false;
    }
    for _ in 0..1 + r.usize(4) {
        let n = r.usize(b.data().len());
        let (lo, hi) = *r.pick(&[(1.05, 1.4), (-0.4, -0.05), (1.05, 9.0), (-9.0, -0.05)]);
        let d: [f32; 3] = std::array::from_fn(|_| r.uniform(lo, hi));
        let a = b.data()[n].data[3];
        b.data_mut()[n] = Rgb { data: [d[0], d[1], d[2], a] };
    }
    true
}

fn c20_equalize(c: &mut Case) -> R {
    let (name, mode, space) = EQ[c.rng.usize(5)];
    let mut b = clear_image(&mut c.rng, space, true, 24);
    if space < 2 && overshoot(&mut c.rng, &mut b) {
        c.count("equalize: pixels out of range");
    }
    c.desc(format!("equalize {} {}", name, gen::describe(&b)));
    c.distinct(&(name, gen::bits(&b)));
    c.count(&format!("equalize {}", name));
    let before = gen::bits(&b);
    let r = if c.rng.bool() { equalize(&b, mode) } else { Image::new_from_buffer(b.clone()).equalize(mode).buffer().clone() };
    ensure!(gen::bits(&b) == before, "equalize:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "equalize:size", "{}x{}", r.width(), r.height());
    let vals: Vec<Vec<f64>> = b.data().iter().map(|p| mode_values(space, &rf::p(&p.data))).collect();
    let nch = vals[0].len();
    let maps: Vec<_> = (0..nch).map(|k| equal_map(&vals.iter().map(|v| v[k]).collect::<Vec<_>>())).collect();
    for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
        c.eval();
        let p = rf::p(&s.data);
        let v = &vals[i];
        ensure!(gen::cbits(o)[3] == gen::cbits(s)[3], "equalize:alpha", "{}: alpha of pixel {} is {} instead of {}", name, i, o.data[3], s.data[3]);
        let e = match name {
            "rgb" => [maps[0](v[0]), maps[1](v[1]), maps[2](v[2]), p[3]],
            "srgb" => [rf::lin(maps[0](v[0])), rf::lin(maps[1](v[1])), rf::lin(maps[2](v[2])), p[3]],
            _ => {
                let h = rf::hsl(&p);
                let s = if name != "lightness" { maps[0](v[0]) } else { h[1] };
                let l = if name != "saturation" { maps[1](v[1]) } else { h[2] };
                if h[1] == 0.0 && s > 0.0 {
                    c.count("grey made colourful");
                }
                rf::map3(rf::from_hsl(&[h[0], s, l, p[3]]), rf::c01)
            }
        };
        let d = rf::diff32(&o.data, &e);
        c.max(&format!("equalize {}", name), d);
        // the hue of nearly equal channels is rounded by up to EPS before the saturation is raised
        let chroma = (rf::mx(&p) - rf::mn(&p)).max(1e-9);
        let tol = if space == 3 { 2e-4 + 4e-5 * (rf::mx(&e) - rf::mn(&e)) / chroma } else { 2e-4 };
        ensure!(d <= tol, format!("equalize:{}", name), "{}: pixel {} {:?} became {:?}, expected {:?}", name, i, s.data, o.data, e);
    }
    // the highest occurring level becomes 1, order is kept
    if name == "rgb" {
        for k in 0..3 {
            let mut v: Vec<(f32, f32)> = b.data().iter().zip(r.data()).map(|(s, o)| (s.data[k], o.data[k])).collect();
            v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            ensure!(v.windows(2).all(|w| w[0].1 <= w[1].1 + 1e-6), "equalize:monotone", "channel {} is not monotone", k);
            let top = v.last().unwrap();
            ensure!((top.1 - 1.0).abs() < 1e-5 || top.0 * 255.0 < 0.5, "equalize:top", "channel {}: the highest level {} becomes {}", k, top.0, top.1);
        }
    }
    Ok(())
}

fn black_white(vals: &[f64], threshold: f64) -> (f64, f64) {
    let mut h = [0u64; 256];
    for v in vals {
        h[(v * 255.0 + 1e-3).clamp(0.0, 255.0) as usize] += 1;
    }
    let n = vals.len() as f64;
    let (mut lo, mut hi) = (1.0, 1.0);
    let mut s = 0;
    for i in 0..256 {
        s += h[i];
        if s as f64 / n > threshold {
            lo = i as f64 / 255.0;
            break;
        }
    }
    let mut s = 0;
    for i in (0..256).rev() {
        s += h[i];
        if s as f64 / n > threshold {
            hi = i as f64 / 255.0;
            break;
        }
    }
    (lo, hi)
}

/// A threshold in per-mille that no whole number of pixels meets exactly
/// Sometimes an image of 2^k pixels with a threshold that is exactly the share of some of them
fn exact_share(r: &mut Rng, b: &mut Buf) -> Option<f32> {
    let n = b.data().len();
    if n < 4 || !r.chance(0.15) {
        return None;
    }
    let n = 1usize << n.ilog2();
    *b = Buf::new_from_raw(n as u32, 1, b.data()[..n].to_vec());
    let k = 1 + r.usize((n * 9 / 20).max(1));
    Some(k as f32 / n as f32 * 1000.0)
}

fn threshold(r: &mut Rng, n: usize) -> f32 {
    match r.usize(4) {
        0 => 0.0,
        1 => {
            let k = r.usize((n * 9 / 20).max(1));
            ((k as f32 + 0.5) / n as f32 * 1000.0).min(450.0)
        }
        _ => {
            let t = r.uniform(0.1, 60.0);
            let f = t as f64 / 1000.0 * n as f64;
            if (f - f.round()).abs() < 0.01 { 0.0 } else { t }
        }
    }
}

fn c20_stretch(c: &mut Case) -> R {
    let mut b = clear_image(&mut c.rng, 9, false, 24);
    let full = c.rng.chance(0.15);
    if full && b.data().len() >= 2 {
        let n = b.data().len();
        b.data_mut()[0] = Rgb::BLACK;
        b.data_mut()[n - 1] = Rgb::WHITE;
    }
    let exact = if full { None } else { exact_share(&mut c.rng, &mut b) };
    if exact.is_some() {
        c.count("threshold exactly a share");
    }
    if !full && overshoot(&mut c.rng, &mut b) {
        c.count("stretch: pixels out of range");
    }
    let t = if full { 0.0 } else { exact.unwrap_or_else(|| threshold(&mut c.rng, b.data().len())) };
    c.desc(format!("stretch contrast {} {}", t, gen::describe(&b)));
    c.distinct(&(t.to_bits(), gen::bits(&b)));
    let before = gen::bits(&b);
    let r = if c.rng.bool() { stretch_contrast(&b, t) } else { Image::new_from_buffer(b.clone()).stretch_contrast(t).buffer().clone() };
    ensure!(gen::bits(&b) == before, "stretch:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "stretch:size", "{}x{}", r.width(), r.height());
    let vals: Vec<f64> = b.data().iter().map(|p| mode_values(9, &rf::p(&p.data))[0]).collect();
    let (lo, hi) = black_white(&vals, t as f64 / 1000.0);
    let same = lo == 0.0 && hi == 1.0;
    c.count(if same { "stretch: spans the full range" } else if hi > lo { "stretch" } else { "stretch: one level" });
    if hi <= lo {
        // left open by the property: only finite values
        c.eval();
        ensure!(r.data().iter().all(|p| rf::finite01(&p.data)), "stretch:finite", "bad value");
        return Ok(());
    }
    for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
        c.eval();
        ensure!(gen::cbits(o)[3] == gen::cbits(s)[3], "stretch:alpha", "alpha of pixel {} is {} instead of {}", i, o.data[3], s.data[3]);
        let e = rf::map3(rf::p(&s.data), |v| rf::c01((v - lo) / (hi - lo)));
        // an image that spans the full range already may keep what is out of it
        let got = if same { rf::map3(rf::p(&o.data), rf::c01) } else { rf::p(&o.data) };
        let d = rf::max_diff(&got, &e);
        let tol = 1e-6 + 3e-7 / (hi - lo);
        c.max("stretch / tolerance", d / tol);
        ensure!(d <= tol, "stretch", "threshold {}: pixel {} {:?} became {:?}, expected {:?} (levels {}..{})", t, i, s.data, o.data, e, lo, hi);
        if same && s.data.iter().all(|v| (0.0..=1.0).contains(v)) {
            ensure!(gen::cbits(o) == gen::cbits(s), "stretch:unchanged", "pixel {} of an image that spans the full range is changed", i);
        }
    }
    Ok(())
}

const BAL: [(&str, BalanceMode); 5] = [("rgb", BalanceMode::Rgb), ("srgb", BalanceMode::Srgb), ("hsv", BalanceMode::Hsv), ("hsl", BalanceMode::Hsl), ("lch", BalanceMode::Lch)];

fn c20_balance(c: &mut Case) -> R {
    let k = c.rng.usize(5);
    let (name, mode) = BAL[k];
    let mut b = clear_image(&mut c.rng, k, false, 24);
    let full = k < 2 && c.rng.chance(0.2) && b.data().len() >= 2;
    if full {
        let n = b.data().len();
        b.data_mut()[0] = Rgb::BLACK;
        b.data_mut()[n - 1] = Rgb::WHITE;
    }
    let exact = if full { None } else { exact_share(&mut c.rng, &mut b) };
    if exact.is_some() {
        c.count("threshold exactly a share");
    }
    if !full && k < 2 && overshoot(&mut c.rng, &mut b) {
        c.count("balance: pixels out of range");
    }
    let t = if full { 0.0 } else { exact.unwrap_or_else(|| threshold(&mut c.rng, b.data().len())) };
    let white = k == 0 && c.rng.chance(0.3);
    c.desc(format!("balance {} {} {}", name, t, gen::describe(&b)));
    c.distinct(&(k, t.to_bits(), gen::bits(&b)));
    c.count(&format!("balance {}", name));
    let before = gen::bits(&b);
    let r = if white {
        Image::new_from_buffer(b.clone()).white_balance(t).buffer().clone()
    } else if c.rng.bool() {
        balance(&b, mode, t)
    } else {
        Image::new_from_buffer(b.clone()).balance(mode, t).buffer().clone()
    };
    ensure!(gen::bits(&b) == before, "balance:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "balance:size", "{}x{}", r.width(), r.height());
    let vals: Vec<Vec<f64>> = b.data().iter().map(|p| mode_values(k, &rf::p(&p.data))).collect();
    let nch = vals[0].len();
    let pts: Vec<(f64, f64)> = (0..nch).map(|q| black_white(&vals.iter().map(|v| v[q]).collect::<Vec<_>>(), t as f64 / 1000.0)).collect();
    if full {
        c.count("balance: spans the full range");
    }
    for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
        c.eval();
        ensure!(o.data.iter().all(|v| v.is_finite()), "balance:finite", "{}: pixel {} is {:?}", name, i, o.data);
        ensure!((o.data[3] - s.data[3]).abs() <= 1e-6, "balance:alpha", "{}: alpha of pixel {} is {} instead of {}", name, i, o.data[3], s.data[3]);
        let p = rf::p(&s.data);
        let mut gain = 1f64;
        let lv: Vec<f64> = (0..nch)
            .map(|q| {
                let (lo, hi) = pts[q];
                let d = hi - lo;
                let sc = (d.abs() * 10.0).tanh();
                if sc <= 1e-7 {
                    vals[i][q]
                } else {
                    gain = gain.max((sc / d).abs());
                    (vals[i][q] - lo * sc) / d * sc
                }
            })
            .collect();
        let inside = lv.iter().all(|v| (0.0..=1.0).contains(v));
        let e = match k {
            0 => [lv[0], lv[1], lv[2], p[3]],
            1 => [rf::lin(rf::c01(lv[0])), rf::lin(rf::c01(lv[1])), rf::lin(rf::c01(lv[2])), p[3]],
            // the other spaces are only defined inside of their range
            _ if !inside => {
                c.count("balance: out of the range of the space");
                continue;
            }
            2 => rf::from_hsv(&[rf::hsv(&p)[0], lv[0], lv[1], p[3]]),
            3 => rf::from_hsl(&[rf::hsl(&p)[0], lv[0], lv[1], p[3]]),
            _ => rf::from_lch(&[lv[0], lv[1], rf::lch(&p, &D65_2)[2], p[3]], &D65_2),
        };
        let e = rf::map3(e, rf::c01);
        let got = [rf::c01(o.data[0] as f64), rf::c01(o.data[1] as f64), rf::c01(o.data[2] as f64), o.data[3] as f64];
        let d = rf::max_diff(&got, &e);
        let mut tol = [1e-5, 1e-4, 1e-4, 2e-4, 2e-3][k] * (1.0 + gain / 4.0);
        if k == 2 || k == 3 {
            // the hue of nearly equal channels is rounded by up to EPS before the saturation is raised
            tol += 4e-5 * ((rf::mx(&e) - rf::mn(&e)) / (rf::mx(&p) - rf::mn(&p)).max(1e-9)).clamp(1.0, 1e4);
        }
        c.max(&format!("balance {} / tolerance", name), d / tol);
        ensure!(d <= tol, format!("balance:{}", name), "{} threshold {}: pixel {} {:?} became {:?}, expected {:?} (levels {:?})", name, t, i, s.data, o.data, e, pts);
        if full {
            ensure!(rf::diff32(&o.data, &p) <= 1e-5, "balance:unchanged", "pixel {} of an image that spans the full range is changed from {:?} to {:?}", i, s.data, o.data);
        }
    }
    // a larger level never becomes a smaller one
    if k < 2 {
        for ch in 0..3 {
            let mut v: Vec<(f32, f32)> = b.data().iter().zip(r.data()).map(|(s, o)| (s.data[ch], o.data[ch])).collect();
            v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            ensure!(v.windows(2).all(|w| w[0].1 <= w[1].1 + 1e-5), "balance:monotone", "{}: channel {} is not monotone", name, ch);
        }
    }
    Ok(())
}

/// Operations that are driven by statistics of the whole image treat an image that is repeated many times like the image
/// itself; the result for the small one is judged by the other sections
pub fn repeated(c: &mut Case, what: &str, b: &Buf, pixels: usize, tol: f64, op: impl Fn(&Buf) -> Buf) -> R {
    let times = (pixels / b.data().len()).max(1);
    let small = op(b);
    let big = op(&Buf::new_from_raw(b.width(), b.height() * times as u32, b.data().repeat(times)));
    ensure!((big.width(), big.height()) == (b.width(), b.height() * times as u32), "repeated:size", "{}: {}x{}", what, big.width(), big.height());
    c.add("pixels of repeated images", big.data().len() as u64);
    for (i, o) in big.data().iter().enumerate() {
        let e = &small.data()[i % small.data().len()];
        let d = (0..4).map(|k| (o.data[k] - e.data[k]).abs() as f64).fold(0.0, |a: f64, d| if d.is_nan() { 9.0 } else { a.max(d) });
        ensure!(
            d <= tol,
            "repeated",
            "{}: {:?} becomes {:?} in the image repeated {} times ({} pixels) and {:?} in the image itself",
            what,
            b.data()[i % b.data().len()].data,
            o.data,
            times,
            big.data().len(),
            e.data
        );
    }
    c.eval();
    Ok(())
}

fn c20_repeated(c: &mut Case) -> R {
    // every kind of operation in turn
    let kind = c.n as usize % 11;
    // counts of more than 2^24 are beyond the integers of an f32
    let pixels = if c.n == 0 || c.thorough && c.n % 50 == 0 { 19_000_000 } else { 800_000 + c.rng.usize(3_000_000) };
    let (space, rounded) = match kind {
        0..=4 => (EQ[kind].2, true),
        5 => (9, false),
        _ => (kind - 6, false),
    };
    let mut b = clear_image(&mut c.rng, space, rounded, 20);
    while b.data().len() < 40 {
        b = clear_image(&mut c.rng, space, rounded, 20);
    }
    if pixels > 10_000_000 || c.rng.chance(0.6) {
        // one colour almost everywhere
        let p = b.data()[b.data().len() - 1];
        let keep = if pixels > 10_000_000 { b.data().len() / 20 } else { 1 + c.rng.usize(b.data().len() / 2 + 3) };
        for q in b.data_mut().iter_mut().skip(keep) {
            *q = p;
        }
    }
    let mut t = threshold(&mut c.rng, b.data().len());
    if kind > 4 && c.rng.chance(0.8) {
        // a large share of equal dark or bright pixels is just ignored or just not
        let n = 400;
        let mut v = b.data().to_vec();
        let at = |p: &Rgb| mode_values(space, &rf::p(&p.data))[0];
        v.sort_by(|a, b| at(a).partial_cmp(&at(b)).unwrap());
        if c.rng.bool() {
            v.reverse();
        }
        let share = 100 + c.rng.usize(75);
        let (first, rest) = (v[0], v[v.len() * 2 / 3..].to_vec());
        let d = (0..n).map(|i| if i < share { first } else { rest[i % rest.len()] }).collect();
        b = Buf::new_from_raw(20, 20, d);
        t = (share as f32 + if c.rng.bool() { 0.5 } else { -0.5 }) / n as f32 * 1000.0;
    }
    c.distinct(&(kind, pixels, t.to_bits(), gen::bits(&b)));
    match kind {
        0..=4 => {
            let (name, mode, _) = EQ[kind];
            c.desc(format!("equalize {} {} pixels of {}", name, pixels, gen::describe(&b)));
            repeated(c, name, &b, pixels, 1e-4, |b| equalize(b, mode))
        }
        5 => {
            c.desc(format!("stretch {} {} pixels of {}", t, pixels, gen::describe(&b)));
            let vals: Vec<f64> = b.data().iter().map(|p| mode_values(9, &rf::p(&p.data))[0]).collect();
            let (lo, hi) = black_white(&vals, t as f64 / 1000.0);
            if hi <= lo {
                return Ok(());
            }
            repeated(c, "stretch", &b, pixels, 1e-6, |b| stretch_contrast(b, t))
        }
        _ => {
            let (name, mode) = BAL[kind - 6];
            c.desc(format!("balance {} {} {} pixels of {}", name, t, pixels, gen::describe(&b)));
            repeated(c, name, &b, pixels, 1e-6, |b| balance(b, mode, t))
        }
    }
}

pub fn c20(m: &mut Mon) {
    m.rule = "images whose pixels fall clearly into one of the 256 bins (so that f32 rounding can't decide) judged by an f64 histogram model of equalisation, contrast stretching and channel balance; non-trivial: distinct (mode, threshold, image)".into();
    m.assumptions.push("thresholds up to 450 per mille that no whole number of pixels meets exactly; stretching an image with only one level is left open".into());
    let n = m.n(12_000, 50);
    m.cases("equalize", n, c20_equalize);
    let n = m.n(150, 15);
    m.cases("large equalize", n, |c| gen::large(70000, || c20_equalize(c)));
    let n = m.n(8, 10);
    m.cases("long equalize", n, |c| gen::long(|| c20_equalize(c)));
    let n = m.n(12_000, 50);
    m.cases("stretch", n, c20_stretch);
    let n = m.n(150, 15);
    m.cases("large stretch", n, |c| gen::large(70000, || c20_stretch(c)));
    let n = m.n(15_000, 50);
    m.cases("balance", n, c20_balance);
    let n = m.n(150, 15);
    m.cases("large balance", n, |c| gen::large(70000, || c20_balance(c)));
    let n = m.n(66, 20);
    m.cases("repeated", n, c20_repeated);
}

// ------------------------------------------------------------------------------------------- C21

/// Deviation of a count in standard deviations of the binomial distribution
fn sigmas(k: u64, n: u64, p: f64) -> f64 {
    let sd = (n as f64 * p * (1.0 - p)).sqrt();
    let d = k as f64 - n as f64 * p;
    if sd < 1e-9 {
        if d.abs() < 1e-9 { 0.0 } else { f64::INFINITY }
    } else {
        // small counts: not normal, allow for the skew
        (d.abs() - 3.0).max(0.0) / sd
    }
}

/// Largest distance of the empirical distribution from `cdf`, in units of 1/sqrt(n)
fn ks(v: &mut [f64], cdf: impl Fn(f64) -> f64) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len() as f64;
    let mut d = 0f64;
    for (i, x) in v.iter().enumerate() {
        let f = cdf(*x);
        d = d.max((f - i as f64 / n).abs()).max((f - (i + 1) as f64 / n).abs());
    }
    d * n.sqrt()
}

fn normal_cdf(x: f64) -> f64 {
    0.5 * (1.0 + erf(x / std::f64::consts::SQRT_2))
}
fn erf(x: f64) -> f64 {
    // series / continued fraction, good to 1e-12
    let a = x.abs();
    let r = if a < 2.5 {
        let (mut t, mut s, mut n) = (a, a, 0.0);
        while t.abs() > 1e-17 * s.abs().max(1e-300) {
            n += 1.0;
            t *= -a * a / n * (2.0 * n - 1.0) / (2.0 * n + 1.0);
            s += t;
        }
        s * 2.0 / PI.sqrt()
    } else {
        let mut f = 0.0;
        for k in (1..80).rev() {
            f = k as f64 / 2.0 / (a + f);
        }
        1.0 - (-a * a).exp() / PI.sqrt() / (a + f)
    };
    r.copysign(x)
}

fn correlation(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len().min(b.len()) as f64;
    if n < 100.0 {
        return 0.0;
    }
    let (ma, mb) = (a.iter().sum::<f64>() / a.len() as f64, b.iter().sum::<f64>() / b.len() as f64);
    let (mut sab, mut sa, mut sb) = (0.0, 0.0, 0.0);
    for (x, y) in a.iter().zip(b) {
        sab += (x - ma) * (y - mb);
        sa += (x - ma).powi(2);
        sb += (y - mb).powi(2);
    }
    if sa <= 0.0 || sb <= 0.0 {
        return 0.0;
    }
    // in standard deviations
    sab / (sa * sb).sqrt() * n.sqrt()
}

/// False alarms are possible in principle only: with 7.5 standard deviations less than one in 10^13 per test
const SIG: f64 = 7.5;

/// All relations between pixels, rows and calls a flag per pixel has to keep
fn independent(c: &mut Case, what: &str, w: usize, a: &[f64], b: &[f64]) -> R {
    let lag = |d: usize| if a.len() > d + 100 { correlation(&a[..a.len() - d], &a[d..]) } else { 0.0 };
    for (name, v) in [("neighbouring pixels", lag(1)), ("every second pixel", lag(2)), ("every third pixel", lag(3)), ("rows", lag(w)), ("two calls", correlation(a, b))] {
        c.eval();
        c.max("correlation in standard deviations", v.abs());
        ensure!(v.abs() < SIG, format!("{}:independent", what), "noise of {} is related ({:.1} standard deviations)", name, v);
    }
    // spread over the whole image
    let half = a.len() / 2;
    if half > 200 {
        let (m1, m2) = (a[..half].iter().sum::<f64>() / half as f64, a[half..].iter().sum::<f64>() / (a.len() - half) as f64);
        let var = a.iter().map(|v| v * v).sum::<f64>() / a.len() as f64;
        let sd = (var * 4.0 / a.len() as f64).sqrt();
        c.eval();
        ensure!((m1 - m2).abs() <= SIG * sd + 1e-12, format!("{}:spread", what), "the noise is not spread evenly ({} and {})", m1, m2);
    }
    Ok(())
}

fn noise_dims(r: &mut Rng, thorough: bool) -> (u32, u32) {
    let s = if thorough { 2 } else { 1 };
    match r.usize(4) {
        0 => (200 * s, 150 * s),
        1 => (1, 20_000 * s),
        2 => (20_001 * s, 1),
        _ => (50 + r.below(200) as u32, 100 + r.below(100 * s as u64) as u32),
    }
}

fn prob(r: &mut Rng) -> f32 {
    match r.usize(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => r.uniform(0.001, 0.05),
        _ => r.f32(),
    }
}

type Apply = fn(&Buf, f32) -> Buf;

fn c21_flags(c: &mut Case) -> R {
    let rgb = c.rng.bool();
    let form = c.rng.usize(4);
    let f: Apply = match (rgb, form) {
        (false, 0) => |b, t| salt_n_pepper_noise(b, t),
        (false, 1) => |b, t| { let mut b = b.clone(); add_salt_n_pepper_noise(&mut b, t); b },
        (false, 2) => |b, t| Image::new_from_buffer(b.clone()).salt_n_pepper_noise(t).buffer().clone(),
        (false, _) => |b, t| { let mut i = Image::new_from_buffer(b.clone()); i.add_salt_n_pepper_noise(t); i.buffer().clone() },
        (true, 0) => |b, t| rgb_noise(b, t),
        (true, 1) => |b, t| { let mut b = b.clone(); add_rgb_noise(&mut b, t); b },
        (true, 2) => |b, t| Image::new_from_buffer(b.clone()).rgb_noise(t).buffer().clone(),
        (true, _) => |b, t| { let mut i = Image::new_from_buffer(b.clone()); i.add_rgb_noise(t); i.buffer().clone() },
    };
    let t = prob(&mut c.rng);
    let t = if !rgb && t > 0.5 && t < 1.0 { t / 2.0 } else { t };
    let (w, h) = noise_dims(&mut c.rng, c.thorough);
    let mut q = c.rng.clone();
    // neither black nor white, no channel at its maximum
    let b = Buf::new_from_func(w, h, |_, _| Rgb::new_with_alpha(0.1 + 0.8 * q.f32(), 0.1 + 0.8 * q.f32(), 0.1 + 0.8 * q.f32(), q.f32()));
    let what = if rgb { "rgb noise" } else { "salt and pepper" };
    c.desc(format!("{} form {} strength {} on {}x{}", what, form, t, w, h));
    c.distinct(&(rgb, form, t.to_bits(), w, h));
    c.count(&format!("{} form {}", what, form));
    let n = b.data().len() as u64;
    let mut flags: Vec<Vec<f64>> = vec![];
    for _ in 0..2 {
        let r = f(&b, t);
        ensure!((r.width(), r.height()) == (w, h), format!("{}:size", what), "{}x{}", r.width(), r.height());
        let (mut a, mut z) = ([0u64; 3], 0u64);
        let mut fl = Vec::with_capacity(n as usize);
        for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
            c.eval();
            if gen::cbits(s) == gen::cbits(o) {
                fl.push(0.0);
                continue;
            }
            z += 1;
            if rgb {
                ensure!(gen::cbits(s)[3] == gen::cbits(o)[3], "rgb noise:alpha", "alpha of pixel {} is changed", i);
                let ch: Vec<usize> = (0..3).filter(|k| s.data[*k].to_bits() != o.data[*k].to_bits()).collect();
                ensure!(ch.len() == 1 && o.data[ch[0]] == 1.0, "rgb noise:pixel", "pixel {} {:?} became {:?}", i, s.data, o.data);
                a[ch[0]] += 1;
                fl.push(1.0 + ch[0] as f64);
            } else {
                let black = o.data == [0.0, 0.0, 0.0, 1.0];
                let white = o.data == [1.0; 4];
                ensure!(black || white, "salt and pepper:pixel", "pixel {} {:?} became {:?}", i, s.data, o.data);
                a[white as usize] += 1;
                fl.push(if white { 1.0 } else { -1.0 });
            }
        }
        if rgb {
            let s = sigmas(z, n, t as f64);
            c.max("rgb noise rate in standard deviations", s);
            ensure!(s < SIG, "rgb noise:rate", "{} of {} pixels changed at probability {}", z, n, t);
            for k in 0..3 {
                let s = sigmas(a[k], n, t as f64 / 3.0);
                ensure!(s < SIG, "rgb noise:channels", "channel {} chosen {} times for {} changed pixels", k, a[k], z);
            }
        } else if t >= 1.0 {
            ensure!(z == n, "salt and pepper:all", "{} of {} pixels are left", n - z, n);
        } else {
            for k in 0..2 {
                let s = sigmas(a[k], n, t as f64);
                c.max("salt and pepper rate in standard deviations", s);
                ensure!(s < SIG, "salt and pepper:rate", "{} of {} pixels became {} at probability {}", a[k], n, ["black", "white"][k], t);
            }
        }
        if t == 0.0 {
            ensure!(z == 0, format!("{}:identity", what), "{} pixels changed at strength 0", z);
        }
        if t == 1.0 {
            ensure!(z == n, format!("{}:all", what), "{} pixels left at strength 1", n - z);
        }
        flags.push(fl);
    }
    let both: u64 = flags[0].iter().zip(&flags[1]).filter(|(a, b)| a == b && **a != 0.0).count() as u64;
    let hit = flags[0].iter().filter(|a| **a != 0.0).count() as u64;
    if hit > 200 && t < 0.9 {
        ensure!(both < hit, format!("{}:calls", what), "two calls change the same {} pixels", hit);
    }
    independent(c, what, w as usize, &flags[0], &flags[1])
}

/// Mixed noise: the noise is recovered from the result
fn c21_mix(c: &mut Case) -> R {
    let gauss = c.rng.bool();
    let form = c.rng.usize(4);
    let f: Apply = match (gauss, form) {
        (false, 0) => |b, t| random_noise(b, t),
        (false, 1) => |b, t| { let mut b = b.clone(); add_random_noise(&mut b, t); b },
        (false, 2) => |b, t| Image::new_from_buffer(b.clone()).random_noise(t).buffer().clone(),
        (false, _) => |b, t| { let mut i = Image::new_from_buffer(b.clone()); i.add_random_noise(t); i.buffer().clone() },
        (true, 0) => |b, t| gaussian_noise(b, t),
        (true, 1) => |b, t| { let mut b = b.clone(); add_gaussian_noise(&mut b, t); b },
        (true, 2) => |b, t| Image::new_from_buffer(b.clone()).gaussian_noise(t).buffer().clone(),
        (true, _) => |b, t| { let mut i = Image::new_from_buffer(b.clone()); i.add_gaussian_noise(t); i.buffer().clone() },
    };
    let what = if gauss { "gaussian noise" } else { "random noise" };
    let a = match c.rng.usize(5) {
        0 => 0.0,
        1 => 1.0,
        2 if gauss => c.rng.uniform(0.01, 0.05),
        2 => c.rng.uniform(0.05, 0.45),
        _ => c.rng.f32(),
    };
    let (w, h) = noise_dims(&mut c.rng, c.thorough);
    let mut q = c.rng.clone();
    let mid = c.rng.bool();
    let b = Buf::new_from_func(w, h, |_, _| {
        if mid {
            // far from the limits
            Rgb::new_with_alpha(q.uniform(0.48, 0.52) / (1.0 - a).max(0.52), q.uniform(0.48, 0.52) / (1.0 - a).max(0.52), 0.5 / (1.0 - a).max(0.52), q.f32())
        } else {
            gen::color(&mut q)
        }
    });
    c.desc(format!("{} form {} proportion {} on {}x{}", what, form, a, w, h));
    c.distinct(&(gauss, form, a.to_bits(), w, h));
    c.count(&format!("{} form {}", what, form));
    let mut calls: Vec<[Vec<f64>; 3]> = vec![];
    for _ in 0..2 {
        let r = f(&b, a);
        ensure!((r.width(), r.height()) == (w, h), format!("{}:size", what), "{}x{}", r.width(), r.height());
        let mut noise: [Vec<f64>; 3] = [vec![], vec![], vec![]];
        let mut rank: [Vec<f64>; 3] = [vec![], vec![], vec![]];
        let mut clamped = 0u64;
        let (mut low, mut high, mut pl, mut ph, mut vl, mut vh) = (0u64, 0u64, 0f64, 0f64, 0f64, 0f64);
        for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
            c.eval();
            ensure!(gen::cbits(s)[3] == gen::cbits(o)[3], format!("{}:alpha", what), "alpha of pixel {} is changed", i);
            ensure!(rf::finite01(&o.data), format!("{}:range", what), "pixel {} is {:?}", i, o.data);
            for k in 0..3 {
                let base = (1.0 - a as f64) * s.data[k] as f64;
                let v = o.data[k] as f64;
                if a == 0.0 {
                    ensure!(o.data[k] == s.data[k], format!("{}:identity", what), "pixel {} {:?} became {:?} at strength 0", i, s.data, o.data);
                    continue;
                }
                if !gauss {
                    let (lo, hi) = (rf::c01(base - a as f64), rf::c01(base + a as f64));
                    ensure!(v >= lo - 1e-6 && v <= hi + 1e-6, format!("{}:bounds", what), "channel {} of pixel {}: {} became {} at proportion {}", k, i, s.data[k], v, a);
                }
                // probability of being clamped
                let cdf = |x: f64| if gauss { normal_cdf(x) } else { ((x + 1.0) / 2.0).clamp(0.0, 1.0) };
                let (p0, p1) = (cdf(-base / a as f64), 1.0 - cdf((1.0 - base) / a as f64));
                pl += p0;
                vl += p0 * (1.0 - p0);
                ph += p1;
                vh += p1 * (1.0 - p1);
                if v <= 0.0 {
                    low += 1;
                } else if v >= 1.0 {
                    high += 1;
                }
                let x = (v - base) / a as f64;
                if v > 0.0 && v < 1.0 {
                    noise[k].push(x);
                    // uniform in [0,1] given that it was not clamped
                    let u = (cdf(x) - p0) / (1.0 - p0 - p1).max(1e-9);
                    rank[k].push(u);
                } else {
                    clamped += 1;
                    rank[k].push(if v <= 0.0 { -0.5 } else { 1.5 });
                }
            }
        }
        if a == 0.0 {
            return Ok(());
        }
        c.add("clamped channels", clamped);
        for (n, k, p, v) in [("0", low, pl, vl), ("1", high, ph, vh)] {
            // values that are 0 or 1 without being clamped do not occur
            let d = ((k as f64 - p).abs() - 6.0).max(0.0) / v.sqrt().max(1.0);
            c.max("clamping in standard deviations", d);
            ensure!(d < SIG, format!("{}:clamped", what), "{} channels are clamped to {}, {:.1} expected at proportion {}", k, n, p, a);
        }
        for k in 0..3 {
            let mut u: Vec<f64> = rank[k].iter().cloned().filter(|u| (0.0..=1.0).contains(u)).collect();
            // the resolution of f32 spoils the quantiles of very small proportions
            if u.len() > 1000 && a > 0.01 {
                let d = ks(&mut u, |x| x);
                c.eval();
                c.max("kolmogorov smirnov", d);
                ensure!(d < 4.2, format!("{}:distribution", what), "channel {}: {} at proportion {}: Kolmogorov-Smirnov distance {:.2}", k, what, a, d);
            }
        }
        if mid && a < 0.4 && (!gauss || a < 0.05) {
            c.count("noise recovered without clamping");
            for k in 0..3 {
                let n = noise[k].len() as f64;
                let m = noise[k].iter().sum::<f64>() / n;
                let var = noise[k].iter().map(|x| (x - m).powi(2)).sum::<f64>() / n;
                let (ev, e4) = if gauss { (1.0, 3.0) } else { (1.0 / 3.0, 0.2) };
                let sd_m = (ev / n as f64).sqrt();
                let sd_v = ((e4 - ev * ev) / n as f64).sqrt();
                c.evals(2);
                ensure!((m / sd_m).abs() < SIG + 1.0, format!("{}:mean", what), "channel {}: mean {}", k, m);
                ensure!(((var - ev) / sd_v).abs() < SIG + 1.0, format!("{}:variance", what), "channel {}: variance {} instead of {}", k, var, ev);
            }
            // the ends of the distribution, which hardly contribute to the tests above
            let n = noise.iter().map(|x| x.len()).sum::<usize>() as f64;
            for t in if gauss { [2.0, 2.5, 3.0, 3.5, 4.0] } else { [0.9, 0.95, 0.99, 0.999, 0.9999] } {
                let p = if gauss { 2.0 * (1.0 - normal_cdf(t)) } else { 1.0 - t };
                let k = noise.iter().flatten().filter(|x| x.abs() > t).count() as f64;
                let d = ((k - n * p).abs() - 6.0).max(0.0) / (n * p * (1.0 - p)).sqrt().max(1.0);
                c.eval();
                c.max("tails in standard deviations", d);
                ensure!(d < SIG, format!("{}:tails", what), "{} of {} values are beyond {}, {:.1} expected", k, n, t, n * p);
            }
        }
        for (x, y) in [(0, 1), (1, 2), (0, 2)] {
            let d = correlation(&rank[x], &rank[y]);
            c.eval();
            // clamped ranks are related through the pixel, so only unclamped images count
            if mid && clamped == 0 || a == 1.0 {
                ensure!(d.abs() < SIG, format!("{}:channels", what), "the noise of channels {} and {} is related ({:.1} standard deviations)", x, y, d);
            }
        }
        calls.push(rank);
    }
    if mid || a == 1.0 {
        for k in 0..3 {
            let (x, y) = (calls[0][k].clone(), calls[1][k].clone());
            let m = x.iter().sum::<f64>() / x.len() as f64;
            let x: Vec<f64> = x.iter().map(|v| v - m).collect();
            independent(c, what, w as usize, &x, &y)?;
        }
    }
    Ok(())
}

/// Small and empty images, other colour spaces, other threads
fn c21_small(c: &mut Case) -> R {
    let b = gen::image_or_empty(&mut c.rng, 6);
    let t = prob(&mut c.rng);
    c.desc(format!("strength {} {}", t, gen::describe(&b)));
    c.distinct(&(t.to_bits(), gen::bits(&b)));
    let before = gen::bits(&b);
    let outs = [salt_n_pepper_noise(&b, t), rgb_noise(&b, t), random_noise(&b, t), gaussian_noise(&b, t)];
    ensure!(gen::bits(&b) == before, "small:input", "the input is changed");
    for (k, o) in outs.iter().enumerate() {
        c.eval();
        ensure!((o.width(), o.height()) == (b.width(), b.height()), "small:size", "{}x{}", o.width(), o.height());
        for (s, p) in b.data().iter().zip(o.data()) {
            ensure!(rf::finite01(&p.data), "small:range", "{:?}", p.data);
            ensure!(k == 0 || p.data[3] == s.data[3], "small:alpha", "noise {} changes alpha {} to {}", k, s.data[3], p.data[3]);
            ensure!(t > 0.0 || p.data == s.data, "small:identity", "noise {} at 0 turns {:?} to {:?}", k, s.data, p.data);
        }
    }
    let hsl = b.to_srgb();
    for o in [random_noise(&hsl, t), gaussian_noise(&hsl, t)] {
        c.eval();
        for (s, p) in hsl.data().iter().zip(o.data()) {
            ensure!(p.data[3] == s.data[3] && p.data.iter().all(|v| v.is_finite()), "small:srgb", "{:?} becomes {:?}", s.data, p.data);
        }
    }
    Ok(())
}

/// Threads get different noise, too
fn c21_threads(c: &mut Case) -> R {
    let b = Buf::new_with_color(64, 64, Rgb::new(0.5, 0.5, 0.5));
    let k = c.n % 4;
    c.desc(format!("noise {} from 4 threads", k));
    let r: Vec<Vec<u32>> = std::thread::scope(|s| {
        let b = &b;
        let hs: Vec<_> = (0..4)
            .map(|_| {
                s.spawn(move || {
                    gen::bits(&match k {
                        0 => salt_n_pepper_noise(b, 0.3),
                        1 => rgb_noise(b, 0.5),
                        2 => random_noise(b, 0.5),
                        _ => gaussian_noise(b, 0.5),
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for i in 0..4 {
        for j in 0..i {
            c.eval();
            ensure!(r[i] != r[j], "threads", "two threads got the same noise");
        }
    }
    Ok(())
}

fn noise_of(k: usize, b: &Buf) -> Vec<u32> {
    gen::bits(&match k {
        0 => salt_n_pepper_noise(b, 0.3),
        1 => rgb_noise(b, 0.5),
        2 => random_noise(b, 0.5),
        _ => gaussian_noise(b, 0.5),
    })
}

/// No call repeats the noise of an earlier one, however many there were, also in other forms and sizes
fn c21_repeats(c: &mut Case) -> R {
    let k = c.n as usize % 4;
    let (w, h) = if k < 2 { (24 + c.rng.below(20) as u32, 20 + c.rng.below(20) as u32) } else { (3 + c.rng.below(8) as u32, 2 + c.rng.below(4) as u32) };
    let b = Buf::new_with_color(w, h, Rgb::new(0.5, 0.5, 0.5));
    let calls = if k < 2 { 300 } else if w * h < 25 { 6000 } else { 1500 };
    c.desc(format!("{} calls of noise {} on {}x{}", calls, k, w, h));
    c.distinct(&(k, w, h));
    let mut seen = std::collections::HashMap::new();
    for i in 0..calls {
        c.eval();
        let r = if i % 3 == 2 {
            // the in-place form
            let mut q = b.clone();
            match k {
                0 => add_salt_n_pepper_noise(&mut q, 0.3),
                1 => add_rgb_noise(&mut q, 0.5),
                2 => add_random_noise(&mut q, 0.5),
                _ => add_gaussian_noise(&mut q, 0.5),
            }
            gen::bits(&q)
        } else {
            noise_of(k, &b)
        };
        if let Some(j) = seen.insert(r, i) {
            return fail("repeats", format!("call {} of noise {} gives the same noise as call {}", i, k, j));
        }
    }
    Ok(())
}

pub fn noise_child() -> ! {
    let b = Buf::new_with_color(40, 40, Rgb::new(0.5, 0.5, 0.5));
    for k in 0..4 {
        println!("{:x}", hash_of(&noise_of(k, &b)));
    }
    std::process::exit(0)
}

/// ... nor the noise of another run of the program
fn c21_processes(c: &mut Case) -> R {
    c.desc("noise of four processes");
    let mut runs: Vec<Vec<String>> = vec![];
    for _ in 0..4 {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("--noise").output().map_err(|e| Fail { sig: "check".into(), msg: format!("cannot start a process: {}", e) })?;
        let l: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_owned()).collect();
        ensure!(out.status.success() && l.len() == 4, "process", "the process ended with {}", out.status);
        for r in &runs {
            for k in 0..4 {
                c.eval();
                ensure!(r[k] != l[k], "processes", "two processes got the same noise {}", k);
            }
        }
        runs.push(l);
    }
    Ok(())
}

pub fn c21(m: &mut Mon) {
    m.rule = "every pixel of noisy images judged by the per-pixel definition; rates, channel choice, distributions (Kolmogorov-Smirnov), mean, variance and correlations between pixels, rows, channels and calls judged statistically at 7.5 standard deviations; non-trivial: distinct (noise, form, strength, size)".into();
    m.assumptions.push("noise comes from the thread's random generator, so runs are not repeatable; the statistical limits give less than one false alarm in 10^9 runs".into());
    let n = m.n(160, 20);
    m.cases("flags", n, c21_flags);
    let n = m.n(160, 20);
    m.cases("mixed", n, c21_mix);
    let n = m.n(6_000, 20);
    m.cases("small", n, c21_small);
    let n = m.n(150, 15);
    m.cases("large", n, |c| gen::large(70000, || c21_small(c)));
    let n = m.n(8, 10);
    m.cases("long", n, |c| gen::long(|| c21_small(c)));
    let n = m.n(4, 8);
    m.cases("huge", n, |c| gen::huge(|| c21_small(c)));
    let n = m.n(16, 10);
    m.cases("threads", n, c21_threads);
    let n = m.n(32, 10);
    m.cases("repeats", n, c21_repeats);
    let n = m.n(2, 5);
    m.cases("processes", n, c21_processes);
}
