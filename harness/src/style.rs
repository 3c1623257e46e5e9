//! C25, C26, C28, C29: operations as a whole, stylising filters, option names, automatic corrections
use crate::codecs::{webp_reference, BMP_TYPES, ICO_TYPES, PNG_TYPES, PRESETS, SAMPLINGS};
use crate::ensure;
use crate::fmts;
use crate::fw::*;
use crate::gen;
use crate::gen::Buf;
use crate::opsmon::{blend_op, blend_ref, BLEND_OPS};
use crate::refimpl as rf;
use crate::refimpl::P;
use d10::{BmpColorType, EncodingFormat, IcoColorType, Image, JpegSamplingFactor, PngColorType, PngCompression, PngFilterType, WebPPreset};
use d10_core::color::*;
use d10_ops::*;
use std::fmt::Debug;
use std::str::FromStr;

// ------------------------------------------------------------------------------------------- C26

fn avg(c: &Rgb) -> f64 {
    (c.data[0] as f64 + c.data[1] as f64 + c.data[2] as f64) / 3.0
}

fn clamped(b: &Buf, x: i64, y: i64) -> Rgb {
    let (w, h) = (b.width() as i64, b.height() as i64);
    b.data()[(y.clamp(0, h - 1) * w + x.clamp(0, w - 1)) as usize]
}

fn c26_despeckle(c: &mut Case) -> R {
    let mut b = gen::image_or_empty(&mut c.rng, 14);
    if c.rng.chance(0.5) && !b.is_empty() {
        // bright image with dark dots
        let p = c.rng.f64() * 0.5;
        let mut q = c.rng.clone();
        for v in b.data_mut().iter_mut() {
            let s = if q.chance(p) { 0.2 } else { 1.0 };
            *v = Rgb::new_with_alpha((0.4 + 0.6 * q.f32()) * s, (0.4 + 0.6 * q.f32()) * s, (0.4 + 0.6 * q.f32()) * s, q.f32());
        }
    }
    let t = match c.rng.usize(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 1.5,
        3 => 0.3,
        4 if !b.is_empty() => {
            // exactly the brightness of a colour that occurs several times
            let v = c.rng.usize(b.data().len());
            let v = b.data()[v];
            let mut q = c.rng.clone();
            for p in b.data_mut().iter_mut() {
                if q.chance(0.3) {
                    *p = Rgb::new_with_alpha(v.red(), v.green(), v.blue(), p.alpha());
                } else if q.chance(0.4) {
                    *p = Rgb::new_with_alpha(v.red() * 0.3, v.green() * 0.2, v.blue() * 0.1, p.alpha());
                }
            }
            avg(&v) as f32
        }
        _ => c.rng.f32(),
    };
    let amount = if c.rng.chance(0.1) { c.rng.below(256) as u8 } else { c.rng.below(11) as u8 };
    c.desc(format!("despeckle {} {} {}", t, amount, gen::describe(&b)));
    c.distinct(&(t.to_bits(), amount, gen::bits(&b)));
    let before = gen::bits(&b);
    let r = if c.rng.bool() { despeckle(&b, t, amount) } else { Image::new_from_buffer(b.clone()).despeckle(t, amount).buffer().clone() };
    ensure!(gen::bits(&b) == before, "despeckle:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "despeckle:size", "{}x{}", r.width(), r.height());
    let near: Vec<bool> = b.data().iter().map(|v| (avg(v) - t as f64).abs() < 1e-6).collect();
    let (w, h) = (b.width() as i64, b.height() as i64);
    for y in 0..h {
        for x in 0..w {
            c.eval();
            let i = (y * w + x) as usize;
            let (s, o) = (b.data()[i], r.data()[i]);
            ensure!(o.data[3].to_bits() == s.data[3].to_bits(), "despeckle:alpha", "alpha of {},{} is {} instead of {}", x, y, o.data[3], s.data[3]);
            let nb: Vec<(Rgb, bool)> = (0..9)
                .map(|k| {
                    let (xx, yy) = ((x + k % 3 - 1).clamp(0, w - 1), (y + k / 3 - 1).clamp(0, h - 1));
                    let j = (yy * w + xx) as usize;
                    (b.data()[j], near[j])
                })
                .collect();
            let mut ties = nb.iter().filter(|n| n.1);
            let tie = ties.next().map(|n| n.0.data);
            if let Some(v) = tie {
                if ties.any(|n| n.0.data[..3] != v[..3]) {
                    c.count("different colours at the threshold");
                    continue;
                }
            }
            // a colour at the threshold may count as dark or bright, but not as both at a time
            let mut bad: Option<(&str, String)> = None;
            for tie_dark in [false, true] {
                let dark = |v: &(Rgb, bool)| if v.1 { tie_dark } else { avg(&v.0) < t as f64 };
                let n = nb.iter().filter(|n| dark(n)).count();
                let change = dark(&(s, near[i])) && n <= amount as usize && n < 9;
                let r = if !change {
                    (gen::cbits(&o) != gen::cbits(&s)).then(|| ("despeckle:kept", format!("pixel {},{} {:?} ({} dark neighbours, amount {}) became {:?}", x, y, s.data, n, amount, o.data)))
                } else {
                    let m = |k: usize| nb.iter().filter(|v| !dark(v)).map(|v| v.0.data[k] as f64).sum::<f64>() / (9 - n) as f64;
                    let e = [m(0), m(1), m(2), s.data[3] as f64];
                    let d = rf::diff32(&o.data, &e);
                    if d <= 2e-6 {
                        c.max("despeckle", d);
                    }
                    (d > 2e-6).then(|| ("despeckle:value", format!("pixel {},{} {:?} became {:?} instead of {:?}", x, y, s.data, o.data, e)))
                };
                if tie.is_none() {
                    c.count(if change { "replaced" } else { "kept" });
                } else if tie_dark {
                    c.count("at the threshold");
                }
                let ok = r.is_none();
                bad = r;
                if ok || tie.is_none() {
                    break;
                }
            }
            if let Some((sig, msg)) = bad {
                return fail(sig, msg);
            }
        }
    }
    Ok(())
}

fn c26_snn(c: &mut Case) -> R {
    let b = gen::image_or_empty(&mut c.rng, 14);
    let radius = match c.rng.usize(8) {
        0 => 0,
        _ if gen::is_huge() => 1 + c.rng.usize(2),
        1 => 20,
        _ => 1 + c.rng.usize(6),
    };
    let center = c.rng.bool();
    c.desc(format!("snn {} {} {}", radius, center, gen::describe(&b)));
    c.distinct(&(radius, center, gen::bits(&b)));
    let before = gen::bits(&b);
    let r = if c.rng.bool() { symmetric_nearest_neighbor(&b, radius, center) } else { Image::new_from_buffer(b.clone()).symmetric_nearest_neighbor(radius, center).buffer().clone() };
    ensure!(gen::bits(&b) == before, "snn:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "snn:size", "{}x{}", r.width(), r.height());
    for y in 0..b.height() as i64 {
        'px: for x in 0..b.width() as i64 {
            c.eval();
            let s = clamped(&b, x, y);
            let o = r.data()[(y * b.width() as i64 + x) as usize];
            if radius == 0 {
                ensure!(gen::cbits(&o) == gen::cbits(&s), "snn:zero", "radius 0 changes {},{}", x, y);
                continue;
            }
            let dist = |p: &Rgb| (0..3).map(|k| (p.data[k] as f64 - s.data[k] as f64).powi(2)).sum::<f64>().sqrt();
            let mut sum = [0f64; 4];
            let mut n = 0.0;
            let mut add = |p: &Rgb| {
                for k in 0..4 {
                    sum[k] += p.data[k] as f64;
                }
                n += 1.0;
            };
            if center {
                add(&s);
            }
            for q in 1..=radius as i64 {
                for (dx, dy) in [(-1, -1), (0, -1), (1, -1), (-1, 0)] {
                    let (p1, p2) = (clamped(&b, x + dx * q, y + dy * q), clamped(&b, x - dx * q, y - dy * q));
                    let (d1, d2) = (dist(&p1), dist(&p2));
                    if (d1 - d2).abs() < 1e-6 && gen::cbits(&p1) != gen::cbits(&p2) {
                        c.count("tie");
                        continue 'px;
                    }
                    add(if d1 < d2 { &p1 } else { &p2 });
                }
            }
            c.count("pixel judged");
            let e = sum.map(|v| v / n);
            let d = rf::diff32(&o.data, &e);
            c.max("snn", d);
            ensure!(d <= 4e-6, "snn:value", "pixel {},{} {:?} became {:?} instead of {:?}", x, y, s.data, o.data, e);
        }
    }
    Ok(())
}

fn c26_interlace(c: &mut Case) -> R {
    let b = if c.rng.chance(0.6) {
        let (w, h) = gen::dims(&mut c.rng, 20);
        gen::image_kind(&mut c.rng, w, h, 13)
    } else {
        gen::image_or_empty(&mut c.rng, 20)
    };
    let off = match c.rng.usize(8) {
        0 => 0,
        1 => b.width(),
        2 => b.width().saturating_sub(1),
        3 => b.width() + 1 + c.rng.below(50) as u32,
        4 => *c.rng.pick(&[i32::MAX as u32 - 1, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX - 1, u32::MAX, u32::MAX - 5, 1 << 16, 1 << 24]),
        _ => c.rng.below(b.width() as u64 + 2) as u32,
    };
    c.desc(format!("interlace {} {}", off, gen::describe(&b)));
    c.distinct(&(off, gen::bits(&b)));
    let before = gen::bits(&b);
    let form = c.rng.usize(3);
    let r = match form {
        0 => interlace(&b, off),
        1 => Image::new_from_buffer(b.clone()).interlace(off).buffer().clone(),
        _ => {
            // other colour types
            let h = b.to_hsv();
            let r = interlace(&h, off);
            ensure!((r.width(), r.height()) == (b.width(), b.height()), "interlace:size", "{}x{}", r.width(), r.height());
            for y in 0..b.height() {
                for x in 0..b.width() {
                    let sx = if y % 2 == 0 { x as i64 - off as i64 } else { x as i64 + off as i64 }.clamp(0, b.width() as i64 - 1) as u32;
                    c.eval();
                    ensure!(r.get_pixel(x, y).data.map(f32::to_bits) == h.get_pixel(sx, y).data.map(f32::to_bits), "interlace:hsv", "pixel {},{} is not the one at {}", x, y, sx);
                }
            }
            return Ok(());
        }
    };
    ensure!(gen::bits(&b) == before, "interlace:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "interlace:size", "{}x{}", r.width(), r.height());
    for y in 0..b.height() {
        for x in 0..b.width() {
            let sx = if y % 2 == 0 { x as i64 - off as i64 } else { x as i64 + off as i64 };
            let e = clamped(&b, sx, y as i64);
            c.eval();
            ensure!(gen::cbits(r.get_pixel(x, y)) == gen::cbits(&e), "interlace", "offset {}: pixel {},{} is {:?} instead of {:?}", off, x, y, r.get_pixel(x, y).data, e.data);
        }
    }
    Ok(())
}

fn c26_jpeg(c: &mut Case) -> R {
    let b = gen::image_or_empty(&mut c.rng, 40);
    let q = if c.rng.chance(0.3) { *c.rng.pick(&[0u8, 1, 50, 99, 100, 101, 255]) } else { c.rng.below(101) as u8 };
    let keep = c.rng.bool();
    c.desc(format!("jpeg quality {} preserve alpha {} {}", q, keep, gen::describe(&b)));
    c.distinct(&(q, keep, gen::bits(&b)));
    let before = gen::bits(&b);
    let img = Image::new_from_buffer(b.clone());
    let r = if c.rng.bool() { jpeg_quality(&b, q, keep) } else { img.with_jpeg_quality(q, keep).buffer().clone() };
    ensure!(gen::bits(&b) == before && gen::bits(img.buffer()) == before, "jpeg:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "jpeg:size", "{}x{}", r.width(), r.height());
    if b.is_empty() {
        return Ok(());
    }
    let bytes = img.save_to_buffer(EncodingFormat::jpeg_with_quality(q)).map_err(|e| Fail { sig: "jpeg:save".into(), msg: e.to_string() })?;
    let again = Image::read_from_buffer(&bytes).map_err(|e| Fail { sig: "jpeg:open".into(), msg: e.to_string() })?;
    for (i, (o, e)) in r.data().iter().zip(again.data()).enumerate() {
        c.eval();
        let a = if keep { b.data()[i].data[3] } else { 1.0 };
        ensure!(o.data[..3].iter().zip(&e.data[..3]).all(|(a, b)| a.to_bits() == b.to_bits()), "jpeg:value", "quality {}: pixel {} is {:?}, but {:?} after saving and opening", q, i, o.data, e.data);
        ensure!(o.data[3].to_bits() == a.to_bits(), "jpeg:alpha", "alpha of pixel {} is {} instead of {}", i, o.data[3], a);
    }
    c.count(&format!("jpeg preserve {}", keep));
    Ok(())
}

fn c26_drawing(c: &mut Case) -> R {
    let b = if c.rng.chance(0.5) { let (w, h) = gen::dims(&mut c.rng, 24); gen::image_kind(&mut c.rng, w, h, 7) } else { gen::image_or_empty(&mut c.rng, 16) };
    let radius = 1 + c.rng.below(if gen::is_huge() { 2 } else if c.thorough { 24 } else { 10 }) as u32;
    c.desc(format!("drawing {} {}", radius, gen::describe(&b)));
    c.distinct(&(radius, gen::bits(&b)));
    let before = gen::bits(&b);
    let img = Image::new_from_buffer(b.clone());
    let run = |m: DrawingMode, direct: bool| if direct { drawing(&b, radius, m) } else { img.drawing(radius, m).buffer().clone() };
    let d = [c.rng.bool(), c.rng.bool(), c.rng.bool()];
    let rs = [run(DrawingMode::Gray, d[0]), run(DrawingMode::Colored, d[1]), run(DrawingMode::ReducedColors, d[2])];
    ensure!(gen::bits(&b) == before && gen::bits(img.buffer()) == before, "drawing:input", "the input is changed");
    for (k, r) in rs.iter().enumerate() {
        let name = ["gray", "colored", "reduced_colors"][k];
        c.count(&format!("drawing {}", name));
        ensure!((r.width(), r.height()) == (b.width(), b.height()), format!("drawing:{}:size", name), "{}x{}", r.width(), r.height());
        for (i, p) in r.data().iter().enumerate() {
            c.eval();
            ensure!(rf::finite01(&p.data), format!("drawing:{}:range", name), "radius {}: pixel {} is {:?}", radius, i, p.data);
        }
    }
    for (i, s) in b.data().iter().enumerate() {
        c.evals(2);
        let g = rs[0].data()[i];
        ensure!(g.data[0] == g.data[1] && g.data[1] == g.data[2] && g.data[3] == 1.0, "drawing:gray", "pixel {} of the grey drawing is {:?}", i, g.data);
        let o = rs[1].data()[i];
        ensure!((o.data[3] - s.data[3]).abs() <= 1e-6, "drawing:colored:alpha", "alpha of pixel {} is {} instead of {}", i, o.data[3], s.data[3]);
        // the colours of the image, darkened to the drawing
        let p = rf::p(&s.data);
        let h = rf::hsl(&p);
        let l2 = h[2].min(g.data[0] as f64);
        let room = 1.0 - (2.0 * h[2] - 1.0).abs();
        if room < 2e-3 && l2 < h[2] && rf::mx(&p) != rf::mn(&p) {
            c.count("saturation not resolved");
            continue;
        }
        let room2 = 1.0 - (2.0 * l2 - 1.0).abs();
        let e = rf::map3(rf::from_hsl(&[h[0], h[1], l2, p[3]]), rf::c01);
        let tol = 5e-5 + 6e-7 / room.max(1e-3) + 4e-5 * (room2 / room.max(1e-9)).clamp(1.0, 1e4);
        let d = rf::diff32(&o.data, &e);
        c.max("colored / tolerance", d / tol);
        ensure!(d <= tol, "drawing:colored", "pixel {} {:?} with the drawing {} became {:?} instead of {:?}", i, s.data, g.data[0], o.data, e);
    }
    Ok(())
}

/// Dark lines stay, plain areas become white
fn c26_drawing_lines(c: &mut Case) -> R {
    let (w, h) = (16 + c.rng.below(24) as u32, 16 + c.rng.below(24) as u32);
    let v = c.rng.uniform(0.35, 1.0);
    let b = Buf::new_with_color(w, h, Rgb::new(v, v, v));
    let radius = 3 + c.rng.below(8) as u32;
    c.desc(format!("drawing {} of plain {} {}x{}", radius, v, w, h));
    c.distinct(&(w, h, v.to_bits(), radius));
    let r = drawing(&b, radius, DrawingMode::Gray);
    c.eval();
    ensure!(r.data().iter().all(|p| p.data == [1.0; 4]), "drawing:plain", "a plain image of {} has lines: {:?}", v, r.data().iter().find(|p| p.data != [1.0; 4]).map(|p| p.data));
    let mut b2 = b.clone();
    let x = w / 2;
    for y in 0..h {
        b2.put_pixel(x, y, Rgb::BLACK);
        b2.put_pixel(x + 1, y, Rgb::BLACK);
    }
    let r = drawing(&b2, radius, DrawingMode::Gray);
    c.eval();
    let at = |x: u32| r.get_pixel(x, h / 2).data[0];
    ensure!(at(x) < 0.7 && at(x + 1) < 0.7, "drawing:line", "a black line on {} is drawn as {} {}", v, at(x), at(x + 1));
    ensure!(at(0) > 0.95 && at(w - 1) > 0.95, "drawing:paper", "the area far from the line is {} {}", at(0), at(w - 1));
    Ok(())
}

pub fn c26(m: &mut Mon) {
    m.rule = "despeckle, symmetric nearest neighbour and interlace judged pixel by pixel by an f64 (or exact) model, JPEG simulation compared bit by bit with saving and opening, drawing judged by range, size and its colour rule; non-trivial: distinct (parameters, image)".into();
    m.assumptions.push("pixels with neighbours of different colours within 1e-6 of the despeckle threshold (a single such colour may count as dark or bright, consistently) and nearest neighbour pairs of (almost) equal distance are not judged".into());
    m.assumptions.push("JPEG simulation of images beyond the 65535 pixels JPEG can store is not defined (the operation has no way to report an error)".into());
    let n = m.n(20_000 * 8, 12);
    m.cases("despeckle", n, c26_despeckle);
    let n = m.n(150, 15);
    m.cases("large despeckle", n, |c| gen::large(70000, || c26_despeckle(c)));
    let n = m.n(4, 10);
    m.cases("long despeckle", n, |c| gen::long(|| c26_despeckle(c)));
    let n = m.n(3, 8);
    m.cases("huge despeckle", n, |c| gen::huge(|| c26_despeckle(c)));
    let n = m.n(15_000 * 8, 10);
    m.cases("snn", n, c26_snn);
    let n = m.n(60, 15);
    m.cases("large snn", n, |c| gen::large(20000, || c26_snn(c)));
    let n = m.n(4, 10);
    m.cases("long snn", n, |c| gen::long(|| c26_snn(c)));
    let n = m.n(3, 8);
    m.cases("huge snn", n, |c| gen::huge(|| c26_snn(c)));
    let n = m.n(30_000 * 8, 12);
    m.cases("interlace", n, c26_interlace);
    let n = m.n(400, 15);
    m.cases("large interlace", n, |c| gen::large(70000, || c26_interlace(c)));
    let n = m.n(4, 10);
    m.cases("long interlace", n, |c| gen::long(|| c26_interlace(c)));
    let n = m.n(3, 8);
    m.cases("huge interlace", n, |c| gen::huge(|| c26_interlace(c)));
    let n = m.n(6_000 * 8, 10);
    m.cases("jpeg", n, c26_jpeg);
    let n = m.n(40, 15);
    m.cases("large jpeg", n, |c| gen::large(60000, || c26_jpeg(c)));
    let n = m.n(3, 8);
    m.cases("huge jpeg", n, |c| gen::huge_file(|| c26_jpeg(c)));
    let n = m.n(1_500 * 8, 15);
    m.cases("drawing", n, c26_drawing);
    let n = m.n(60, 15);
    m.cases("large drawing", n, |c| gen::large(70000, || c26_drawing(c)));
    let n = m.n(3, 8);
    m.cases("huge drawing", n, |c| gen::huge(|| c26_drawing(c)));
    let n = m.n(120 * 8, 5);
    m.cases("lines", n, c26_drawing_lines);
}

// ------------------------------------------------------------------------------------------- C29

fn c29_lightness(c: &mut Case) -> R {
    let b = gen::image_or_empty(&mut c.rng, 24);
    let f = match c.rng.usize(5) {
        0 => 0.0,
        1 => 1.0,
        _ => c.rng.uniform(-1.9, 1.9),
    };
    c.desc(format!("optimize lightness {} {}", f, gen::describe(&b)));
    c.distinct(&(f.to_bits(), gen::bits(&b)));
    let before = gen::bits(&b);
    let r = if c.rng.bool() { optimize_lightness(&b, f) } else { Image::new_from_buffer(b.clone()).optimize_lightness(f).buffer().clone() };
    ensure!(gen::bits(&b) == before, "lightness:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "lightness:size", "{}x{}", r.width(), r.height());
    if b.is_empty() {
        return Ok(());
    }
    let mean = b.data().iter().map(|p| rf::hsl(&rf::p(&p.data))[2]).sum::<f64>() / b.data().len() as f64;
    let g = 1.0 - (mean - 0.5) * f as f64;
    if g < 0.05 {
        c.count("gamma near zero");
        return Ok(());
    }
    let tol = 2e-5 + 3e-6 / (g * g);
    for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
        c.eval();
        ensure!(rf::finite01(&o.data) && s.data[3].to_bits() == o.data[3].to_bits(), "lightness:range", "pixel {} {:?} became {:?}", i, s.data, o.data);
        let e = rf::map3(rf::p(&s.data), |v| rf::c01(v).powf(1.0 / g));
        let d = rf::diff32(&o.data, &e);
        c.max("lightness / tolerance", d / tol);
        ensure!(d <= tol, "lightness", "gamma {}: pixel {} {:?} became {:?} instead of {:?}", g, i, s.data, o.data, e);
    }
    Ok(())
}

fn sat_values(mode: usize, p: &P) -> P {
    match mode {
        0 => rf::hsl(p),
        1 => {
            let v = rf::hsv(p);
            [v[0], v[1], v[2], v[3]]
        }
        _ => {
            let l = rf::lch(p, &rf::D65_2);
            [l[2], l[1], l[0], l[3]]
        }
    }
}

fn c29_saturation(c: &mut Case) -> R {
    let mut b = gen::image_or_empty(&mut c.rng, 20);
    if c.rng.chance(0.5) && !b.is_empty() {
        // well resolved colours
        let s = c.rng.f32();
        for p in b.data_mut().iter_mut() {
            let h = Hsl::new_with_alpha(c.rng.f32(), (s * 0.6 + 0.4 * c.rng.f32()).max(0.05), c.rng.uniform(0.05, 0.95), c.rng.f32());
            *p = h.to_rgb();
        }
    }
    let mode = c.rng.usize(3);
    let name = ["hsl", "hsv", "lch"][mode];
    let m = || [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch][mode];
    let off = match c.rng.usize(6) {
        0 => 1.0 / 3.0,
        1 => 0.5,
        2 => 1.0,
        // as far as there is no saturation left at all
        3 => *c.rng.pick(&[-3.0, -0.5, -0.2, -0.1, -1.0, 3.0]),
        _ => c.rng.uniform(0.0, 2.0),
    };
    c.desc(format!("optimize saturation {} {} {}", name, off, gen::describe(&b)));
    c.distinct(&(mode, off.to_bits(), gen::bits(&b)));
    let before = gen::bits(&b);
    let r = if c.rng.bool() { optimize_saturation(&b, off, m()) } else { Image::new_from_buffer(b.clone()).optimize_saturation(off, m()).buffer().clone() };
    ensure!(gen::bits(&b) == before, "saturation:input", "the input is changed");
    ensure!((r.width(), r.height()) == (b.width(), b.height()), "saturation:size", "{}x{}", r.width(), r.height());
    if b.is_empty() {
        return Ok(());
    }
    let vals: Vec<P> = b.data().iter().map(|p| sat_values(mode, &rf::p(&p.data))).collect();
    // the saturation of channels within EPS of each other and near black and white is not resolved
    let mut unsure = 0f64;
    for (v, s) in vals.iter().zip(b.data()) {
        let p = rf::p(&s.data);
        let d = rf::mx(&p) - rf::mn(&p);
        let room = match mode {
            0 => 1.0 - (2.0 * v[2] - 1.0).abs(),
            1 => v[2],
            _ => 1.0,
        };
        unsure += if d == 0.0 && mode < 2 { 0.0 } else { (6e-5 / room.max(1e-9) + 2e-6).min(if mode < 2 { 1.0 } else { 1e-5 }) };
    }
    let n = b.data().len() as f64;
    let mean = vals.iter().map(|v| v[1]).sum::<f64>() / n;
    let dg = unsure / n + 1e-6 * n.sqrt() + 2e-6;
    let g = off as f64 + (1.0 - mean) / 1.5;
    for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
        c.eval();
        ensure!(rf::finite01(&o.data), "saturation:range", "{}: pixel {} {:?} became {:?}", name, i, s.data, o.data);
        ensure!((s.data[3] - o.data[3]).abs() <= 1e-6, "saturation:alpha", "{}: alpha of pixel {} is {} instead of {}", name, i, o.data[3], s.data[3]);
        let p = rf::p(&s.data);
        let v = vals[i];
        let chroma = rf::mx(&p) - rf::mn(&p);
        let f = 1.0 - (v[2] - 0.5).abs() * 2.0;
        let pg = 1.0 + (g - 1.0) * f;
        if pg < 0.05 {
            c.count("power without bounds");
            continue;
        }
        let pw = 1.0 / pg;
        if chroma == 0.0 && mode < 2 {
            c.count("grey");
            ensure!(rf::diff32(&o.data, &p) <= 1e-5, "saturation:grey", "{}: grey pixel {} {:?} became {:?}", name, i, s.data, o.data);
            continue;
        }
        if mode < 2 && (chroma < 1e-3 || f.min(v[2]) < 5e-3) || mode == 2 && v[1] < 2e-2 {
            c.count("saturation not resolved");
            continue;
        }
        let s2 = rf::c01(v[1]).powf(pw);
        let e = match mode {
            0 => rf::from_hsl(&[v[0], s2, v[2], p[3]]),
            1 => rf::from_hsv(&[v[0], s2, v[2], p[3]]),
            _ => rf::from_lch(&[v[2], s2, v[0], p[3]], &rf::D65_2),
        };
        let e = rf::map3(e, rf::c01);
        let gain = (s2 / v[1].max(1e-9)).max(pw * s2 / v[1].max(1e-9)).max(1.0);
        let tol = (if mode == 2 { 1.5e-3 } else { 6e-5 }) * gain + 0.5 * pw * dg * if mode == 2 { 3.0 } else { 1.0 };
        let d = rf::diff32(&o.data, &e);
        c.count(&format!("saturation {}", name));
        c.max(&format!("saturation {} / tolerance", name), d / tol);
        ensure!(d <= tol, format!("saturation:{}", name), "{}: mean {} gamma {}: pixel {} {:?} became {:?} instead of {:?} (tolerance {:.1e})", name, mean, g, i, s.data, o.data, e, tol);
    }
    Ok(())
}

/// CIE xy of a black body (1000 K steps from 1000 K to 12000 K)
const BLACK_BODY: [(f64, f64); 12] = [
    (0.6528, 0.3445),
    (0.5267, 0.4133),
    (0.4369, 0.4041),
    (0.3804, 0.3767),
    (0.3451, 0.3516),
    (0.3221, 0.3318),
    (0.3064, 0.3165),
    (0.2952, 0.3048),
    (0.2869, 0.2956),
    (0.2806, 0.2883),
    (0.2757, 0.2824),
    (0.2718, 0.2776),
];

// the table of the library carries more digits; the rounded ones differ by less than 5e-5
const BB: [(f64, f64); 12] = [
    (0.652750055750174, 0.344462227197370),
    (0.526676280311873, 0.413297274507630),
    (0.436929833678155, 0.404073616886221),
    (0.380438429420364, 0.376746069841299),
    (0.345100160725069, 0.351607005318840),
    (0.322082269887888, 0.331752126277376),
    (0.306372718718652, 0.316511125739794),
    (0.295186142428596, 0.304763622626521),
    (0.286924765725065, 0.295581717193809),
    (0.280632719756407, 0.288286029784579),
    (0.275714062105148, 0.282393589935205),
    (0.271782994107569, 0.277561259748537),
];

fn white_point(k: f64) -> [f64; 3] {
    let k = k.clamp(1000.0, 12000.0);
    let i = ((k / 1000.0) as usize - 1).min(10);
    let f = (k - (i + 1) as f64 * 1000.0) / 1000.0;
    let (x, y) = (BB[i].0 * (1.0 - f) + BB[i + 1].0 * f, BB[i].1 * (1.0 - f) + BB[i + 1].1 * f);
    let c = rf::from_xyz(&[x / y, 1.0, (1.0 - x - y) / y, 1.0]);
    [c[0], c[1], c[2]]
}

/// Range of the channel factors for temperatures known to +-`e` Kelvin
fn factors(orig: f64, new: f64, e: f64) -> [(f64, f64); 3] {
    const MIN: f64 = 1.0 / 32768.0;
    let mut r = [(f64::INFINITY, 0f64); 3];
    for a in [-e, 0.0, 1.5] {
        for b in [-e, 0.0, 1.5] {
            let (o, n) = (white_point(orig + a), white_point(new + b));
            for k in 0..3 {
                let f = o[k].max(MIN) / n[k].max(MIN);
                r[k] = (r[k].0.min(f), r[k].1.max(f));
            }
        }
    }
    r
}

fn temp(r: &mut Rng) -> f32 {
    match r.usize(10) {
        0 => 6500.0,
        1 => 1000.0 * r.range(1, 12) as f32,
        2 => *r.pick(&[0.0, -5.0, 999.0, 12000.5, 20000.0, 1e9, 12001.0, 500.0, f32::MAX, -1e9]),
        3 => r.uniform(1000.0, 2500.0),
        _ => r.uniform(1000.0, 12000.0),
    }
}

fn tint_pow(b: &Buf, k: usize, tint: f64) -> Option<(f64, f64)> {
    let s = [0.25, 1.0, 0.33][k];
    let sum: f64 = b.data().iter().map(|c| 3.0 * c.data[k] as f64 - c.data[0] as f64 - c.data[1] as f64 - c.data[2] as f64).sum();
    let a = s * sum * tint / b.data().len() as f64;
    // deviation of the single precision sum
    let da = (2e-6 + 2e-7 * b.data().len() as f64) * tint * s;
    if a > 0.0 {
        Some((1.0 / (1.0 - a.tanh()), da))
    } else {
        None
    }
}

fn temperature_check(c: &mut Case, what: &str, b: &Buf, r: &Buf, orig: f64, new: f64, e: f64, tint: f64) -> R {
    ensure!((r.width(), r.height()) == (b.width(), b.height()), format!("{}:size", what), "{}x{}", r.width(), r.height());
    if b.is_empty() {
        return Ok(());
    }
    let f = factors(orig, new, e);
    let pw: Vec<Option<(f64, f64)>> = (0..3).map(|k| if tint > 0.0 { tint_pow(b, k, tint) } else { None }).collect();
    for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
        c.eval();
        ensure!(rf::finite01(&o.data), format!("{}:range", what), "pixel {} {:?} became {:?}", i, s.data, o.data);
        ensure!((s.data[3] - o.data[3]).abs() <= 1e-6, format!("{}:alpha", what), "alpha of pixel {} is {} instead of {}", i, o.data[3], s.data[3]);
        for k in 0..3 {
            let v = s.data[k] as f64;
            let mut lo = rf::c01(v * f[k].0);
            let mut hi = rf::c01(v * f[k].1);
            let mut tol = 1e-5;
            if let Some((p, da)) = pw[k] {
                if k == 1 {
                    lo = rf::c01(v.powf(p) * f[k].0);
                    hi = rf::c01(v.powf(p) * f[k].1);
                } else {
                    lo = lo.powf(p);
                    hi = hi.powf(p);
                }
                // relative error of the power: rounding of 1 - tanh and of the mean
                tol += (2e-6 * p + 3.0 * da).min(1.0) * f[k].1.clamp(1.0, 50.0);
                c.count("tint corrected");
            } else if tint > 0.0 {
                c.count("tint without power");
            }
            // the colour space matrix is known to a few digits
            lo -= tol + 2e-4 * lo;
            hi += tol + 2e-4 * hi;
            let w = o.data[k] as f64;
            ensure!(w >= lo && w <= hi, format!("{}:value", what), "{} K to {} K, tint {}: channel {} of pixel {}: {} became {}, expected {}..{}", orig, new, tint, k, i, v, w, lo, hi);
        }
    }
    Ok(())
}

fn c29_temperature(c: &mut Case) -> R {
    let b = gen::image_or_empty(&mut c.rng, 20);
    let orig = temp(&mut c.rng);
    let new = if c.rng.chance(0.15) { orig } else { temp(&mut c.rng) };
    let tint = match c.rng.usize(6) {
        0 | 1 => 0.0,
        2 => -c.rng.f32(),
        3 => 1.0,
        _ => c.rng.uniform(0.0, 3.0),
    };
    c.desc(format!("temperature {} {} tint {} {}", orig, new, tint, gen::describe(&b)));
    c.distinct(&(orig.to_bits(), new.to_bits(), tint.to_bits(), gen::bits(&b)));
    let before = gen::bits(&b);
    let direct = c.rng.bool();
    let run = |o: f32, n: f32| if direct { change_color_temperature(&b, o, n, tint) } else { Image::new_from_buffer(b.clone()).change_color_temperature(o, n, tint).buffer().clone() };
    let r = run(orig, new);
    ensure!(gen::bits(&b) == before, "temperature:input", "the input is changed");
    temperature_check(c, "temperature", &b, &r, orig as f64, new as f64, 2.2, tint as f64)?;
    if orig == new && tint <= 0.0 {
        c.count("equal temperatures");
        for (i, (s, o)) in b.data().iter().zip(r.data()).enumerate() {
            c.eval();
            ensure!(gen::cbits(s) == gen::cbits(o), "temperature:equal", "{} K to itself changes pixel {} from {:?} to {:?}", orig, i, s.data, o.data);
        }
    }
    // a higher new temperature: never less red, never more blue
    let other = temp(&mut c.rng);
    let r2 = run(orig, other);
    let (lo, hi) = if other < new { (&r2, &r) } else { (&r, &r2) };
    for (i, (a, z)) in lo.data().iter().zip(hi.data()).enumerate() {
        c.eval();
        let ok = z.data[0] >= a.data[0] - 2e-6 && z.data[2] <= a.data[2] + 2e-6;
        ensure!(ok, "temperature:monotone", "from {} K to {} K or {} K, tint {}: pixel {} becomes {:?} and with the higher temperature {:?}", orig, new.min(other), new.max(other), tint, i, a.data, z.data);
    }
    Ok(())
}

fn c29_auto(c: &mut Case) -> R {
    let b = gen::image_or_empty(&mut c.rng, 20);
    let factor = match c.rng.usize(5) {
        0 => 0.0,
        1 => 1.0,
        _ => c.rng.uniform(-1.0, 3.0),
    };
    let tint = if c.rng.bool() { 0.0 } else { c.rng.uniform(-0.5, 2.0) };
    c.desc(format!("optimize temperature {} tint {} {}", factor, tint, gen::describe(&b)));
    c.distinct(&(factor.to_bits(), tint.to_bits(), gen::bits(&b)));
    let before = gen::bits(&b);
    let r = if c.rng.bool() { optimize_color_temperature(&b, factor, tint) } else { Image::new_from_buffer(b.clone()).optimize_color_temperature(factor, tint).buffer().clone() };
    ensure!(gen::bits(&b) == before, "auto:input", "the input is changed");
    let mean = if b.is_empty() { 0.0 } else { b.data().iter().map(|p| p.data[0] as f64 - p.data[2] as f64).sum::<f64>() / b.data().len() as f64 };
    let new = 6500.0 - mean.tanh() * factor as f64 * 4000.0;
    c.count(if new < 6499.0 { "auto: lower" } else if new > 6501.0 { "auto: higher" } else { "auto: same" });
    temperature_check(c, "auto", &b, &r, 6500.0, new, 2.2, tint as f64)
}

fn c29_scale(c: &mut Case) -> R {
    // the white points themselves: grey at every temperature
    let k = 900 + c.n as u32 * 7;
    c.desc(format!("grey at {} K", k));
    c.distinct(&k);
    let g = 0.02f32;
    let b = Buf::new_with_color(1, 1, Rgb::new(g, g, g));
    let r = change_color_temperature(&b, k as f32, 6500.0, 0.0);
    temperature_check(c, "scale", &b, &r, k as f64, 6500.0, 2.2, 0.0)?;
    let r = change_color_temperature(&b, 6500.0, k as f32, 0.0);
    temperature_check(c, "scale", &b, &r, 6500.0, k as f64, 2.2, 0.0)?;
    for (a, b) in BLACK_BODY.iter().zip(&BB) {
        ensure!((a.0 - b.0).abs() < 1e-4 && (a.1 - b.1).abs() < 1e-4, "table", "tables differ");
    }
    Ok(())
}

fn c29_repeated(c: &mut Case) -> R {
    let kind = c.n as usize % 6;
    let pixels = 800_000 + c.rng.usize(4_000_000);
    let mut b = gen::image(&mut c.rng, 12);
    if c.rng.chance(0.7) {
        // one colour almost everywhere
        let p = gen::color(&mut c.rng);
        let keep = c.rng.usize(4);
        for q in b.data_mut().iter_mut().skip(keep) {
            *q = p;
        }
    }
    let f = c.rng.uniform(-1.0, 1.0);
    let off = c.rng.uniform(0.34, 1.5);
    let tint = c.rng.uniform(0.2, 2.0);
    c.desc(format!("kind {} factor {} offset {} tint {} {} pixels of {}", kind, f, off, tint, pixels, gen::describe(&b)));
    c.distinct(&(kind, pixels, f.to_bits(), off.to_bits(), tint.to_bits(), gen::bits(&b)));
    let sat = |k: usize| [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch][k];
    match kind {
        0 => crate::opsmon::repeated(c, "lightness", &b, pixels, 1e-4, |b| optimize_lightness(b, f)),
        1..=3 => crate::opsmon::repeated(c, "saturation", &b, pixels, 1e-4, |b| optimize_saturation(b, off, sat(kind - 1))),
        4 => crate::opsmon::repeated(c, "temperature", &b, pixels, 1e-4, |b| change_color_temperature(b, 5000.0, 7000.0, tint)),
        _ => crate::opsmon::repeated(c, "auto", &b, pixels, 1e-4, |b| optimize_color_temperature(b, f, tint)),
    }
}

pub fn c29(m: &mut Mon) {
    m.rule = "automatic lightness, saturation and temperature corrections of generated images judged by an f64 evaluation of their model (means taken from the input image); non-trivial: distinct (parameters, image)".into();
    m.assumptions.push("temperatures are resolved to 2.2 K; the result of powers below 0.05 (gamma near zero) and the saturation of nearly grey, black and white pixels are not judged beyond their range".into());
    let n = m.n(15_000 * 8, 12);
    m.cases("lightness", n, c29_lightness);
    let n = m.n(150, 15);
    m.cases("large lightness", n, |c| gen::large(70000, || c29_lightness(c)));
    let n = m.n(20_000 * 8, 12);
    m.cases("saturation", n, c29_saturation);
    let n = m.n(150, 15);
    m.cases("large saturation", n, |c| gen::large(70000, || c29_saturation(c)));
    let n = m.n(15_000 * 8, 12);
    m.cases("temperature", n, c29_temperature);
    let n = m.n(150, 15);
    m.cases("large temperature", n, |c| gen::large(70000, || c29_temperature(c)));
    let n = m.n(4, 10);
    m.cases("long temperature", n, |c| gen::long(|| c29_temperature(c)));
    let n = m.n(3, 8);
    m.cases("huge temperature", n, |c| gen::huge(|| c29_temperature(c)));
    let n = m.n(10_000 * 8, 12);
    m.cases("auto", n, c29_auto);
    let n = m.n(150, 15);
    m.cases("large auto", n, |c| gen::large(70000, || c29_auto(c)));
    let n = m.n(36, 20);
    m.cases("repeated", n, c29_repeated);
    m.cases("scale", 1700, c29_scale);
}

// ------------------------------------------------------------------------------------------- C28

/// (type, names and the variant they select)
const NAMES: [(&str, &[(&str, &str)]); 15] = [
    (
        "Intensity",
        &[
            ("average", "Average"), ("rec601luma", "Rec601Luma"), ("rec709luma", "Rec709Luma"), ("default", "Rec709Luma"), ("brightness", "Brightness"), ("lightness", "Lightness"),
            ("saturation", "Saturation"), ("red", "Red"), ("green", "Green"), ("blue", "Blue"),
        ],
    ),
    ("FilterMode", &[("nearest", "Nearest"), ("bilinear", "Bilinear"), ("bicubic", "Bicubic"), ("lanczos3", "Lanczos3"), ("Lanczos", "Lanczos3"), ("default", "Auto"), ("auto", "Auto")]),
    (
        "BlendOp",
        &[
            ("normal", "Normal"), ("addition", "Addition"), ("subtract", "Subtract"), ("darken", "Darken"), ("lighten", "Lighten"), ("hsl_darken", "HslDarken"), ("hsl_lighten", "HslLighten"),
            ("lch_darken", "LchDarken"), ("lch_lighten", "LchLighten"), ("lch_hue", "LchHue"), ("lch_saturation", "LchSaturation"), ("lch_color", "LchColor"),
        ],
    ),
    ("BalanceMode", &[("rgb", "Rgb"), ("srgb", "Srgb"), ("hsv", "Hsv"), ("hsl", "Hsl"), ("lch", "Lch")]),
    ("EqualizeMode", &[("rgb", "Rgb"), ("srgb", "Srgb"), ("saturation", "Saturation"), ("lightness", "Lightness"), ("saturation_lightness", "SaturationLightness")]),
    ("SaturationMode", &[("hsl", "Hsl"), ("default", "Hsl"), ("hsv", "Hsv"), ("lch", "Lch")]),
    ("EdgeDetection", &[("sobel", "Sobel"), ("default", "Sobel"), ("laplace", "Laplace")]),
    ("DrawingMode", &[("gray", "Gray"), ("colored", "Colored"), ("default", "Colored"), ("reduced_colors", "ReducedColors")]),
    ("PngColorType", &[("l8", "L8"), ("la8", "La8"), ("l16", "L16"), ("la16", "La16"), ("rgb8", "Rgb8"), ("rgba8", "Rgba8"), ("rgb16", "Rgb16"), ("rgba16", "Rgba16")]),
    ("PngFilterType", &[("no_filter", "NoFilter"), ("sub", "Sub"), ("up", "Up"), ("avg", "Avg"), ("paeth", "Paeth")]),
    ("PngCompression", &[("default", "Default"), ("fast", "Fast"), ("best", "Best")]),
    ("WebPPreset", &[("default", "Default"), ("picture", "Picture"), ("photo", "Photo"), ("drawing", "Drawing"), ("icon", "Icon"), ("text", "Text"), ("lossless", "Lossless")]),
    (
        "JpegSamplingFactor",
        &[
            ("1x1", "F_1_1"), ("1x2", "F_1_2"), ("2x1", "F_2_1"), ("2x2", "F_2_2"), ("4x1", "F_4_1"), ("4x2", "F_4_2"), ("1x4", "F_1_4"), ("2x4", "F_2_4"), ("4:4:4", "R_4_4_4"), ("4:4:0", "R_4_4_0"),
            ("4:4:1", "R_4_4_1"), ("4:2:2", "R_4_2_2"), ("4:2:0", "R_4_2_0"), ("4:2:1", "R_4_2_1"), ("4:1:1", "R_4_1_1"), ("4:1:0", "R_4_1_0"),
        ],
    ),
    ("BmpColorType", &[("l8", "L8"), ("la8", "La8"), ("rgb8", "Rgb8"), ("rgba8", "Rgba8")]),
    ("IcoColorType", &[("l8", "L8"), ("la8", "La8"), ("rgb8", "Rgb8"), ("rgba8", "Rgba8")]),
];

/// Result of parsing as its Debug name, or the message and the fields of the error
fn parse_as(ty: &str, s: &str) -> Result<String, (String, String, String)> {
    fn f<T: FromStr<Err = d10_core::errors::ParseEnumError> + Debug>(s: &str) -> Result<String, (String, String, String)> {
        match s.parse::<T>() {
            Ok(v) => Ok(format!("{:?}", v)),
            Err(e) => Err((e.to_string(), e.input.clone(), e.enum_type.to_string())),
        }
    }
    fn intensity(s: &str) -> Result<String, (String, String, String)> {
        match s.parse::<Intensity>() {
            Ok(v) => Ok(match v {
                Intensity::Average => "Average",
                Intensity::Rec601Luma => "Rec601Luma",
                Intensity::Rec709Luma => "Rec709Luma",
                Intensity::Brightness => "Brightness",
                Intensity::Lightness => "Lightness",
                Intensity::Saturation => "Saturation",
                Intensity::Red => "Red",
                Intensity::Green => "Green",
                Intensity::Blue => "Blue",
            }
            .to_string()),
            Err(e) => Err((e.to_string(), e.input.clone(), e.enum_type.to_string())),
        }
    }
    match ty {
        "Intensity" => intensity(s),
        "FilterMode" => f::<FilterMode>(s),
        "BlendOp" => f::<BlendOp>(s),
        "BalanceMode" => f::<BalanceMode>(s),
        "EqualizeMode" => f::<EqualizeMode>(s),
        "SaturationMode" => f::<SaturationMode>(s),
        "EdgeDetection" => f::<EdgeDetection>(s),
        "DrawingMode" => f::<DrawingMode>(s),
        "PngColorType" => f::<PngColorType>(s),
        "PngFilterType" => f::<PngFilterType>(s),
        "PngCompression" => f::<PngCompression>(s),
        "WebPPreset" => f::<WebPPreset>(s),
        "JpegSamplingFactor" => f::<JpegSamplingFactor>(s),
        "BmpColorType" => f::<BmpColorType>(s),
        _ => f::<IcoColorType>(s),
    }
}

fn c28_names(c: &mut Case) -> R {
    let (ty, names) = NAMES[c.n as usize];
    for (n, v) in names.iter() {
        c.desc(format!("{} {:?}", ty, n));
        c.eval();
        c.distinct(&(ty, *n));
        match parse_as(ty, n) {
            Ok(g) => ensure!(g == *v, "name", "{} {:?} selects {} instead of {}", ty, n, g, v),
            Err(e) => return fail("name", format!("{} {:?} is refused: {}", ty, n, e.0)),
        }
    }
    // names of the other types
    for (_, other) in NAMES.iter() {
        for (n, _) in other.iter() {
            if !names.iter().any(|q| q.0 == *n) {
                refused(c, ty, n)?;
            }
        }
    }
    Ok(())
}

fn refused(c: &mut Case, ty: &str, s: &str) -> R {
    c.desc(format!("{} {:?}", ty, s));
    c.eval();
    c.count(&format!("refused {}", ty));
    match parse_as(ty, s) {
        Ok(v) => fail("accepted", format!("{} accepts {:?} as {}", ty, s, v)),
        Err((msg, input, enum_type)) => {
            ensure!(msg.contains(s), "error:value", "the error for {} {:?} doesn't name the value: {:?}", ty, s, msg);
            ensure!(msg.contains(ty), "error:type", "the error for {} {:?} doesn't name the type: {:?}", ty, s, msg);
            ensure!(input == s && enum_type == ty, "error:fields", "the error for {} {:?} has input {:?} and type {:?}", ty, s, input, enum_type);
            Ok(())
        }
    }
}

fn c28_refused(c: &mut Case) -> R {
    let (ty, names) = NAMES[c.rng.usize(NAMES.len())];
    let base = names[c.rng.usize(names.len())].0;
    let mut s: Vec<char> = base.chars().collect();
    let any: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-:x.\t\n\0äß0１".chars().collect();
    let kind = c.rng.usize(14);
    match kind {
        0 => s = base.to_uppercase().chars().collect(),
        1 => {
            let i = c.rng.usize(s.len());
            s[i] = if s[i].is_lowercase() { s[i].to_ascii_uppercase() } else { s[i].to_ascii_lowercase() };
        }
        2 => s.insert(0, *c.rng.pick(&[' ', '\t', '\n', '\u{a0}', '-', '_', '\u{feff}'])),
        3 => s.push(*c.rng.pick(&[' ', '\t', '\n', '\0', '_', 's', '=', ',', '.'])),
        4 => {
            s.remove(c.rng.usize(s.len()));
        }
        5 => {
            let i = c.rng.usize(s.len());
            s[i] = *c.rng.pick(&any);
        }
        6 => {
            let i = c.rng.usize(s.len() + 1);
            s.insert(i, *c.rng.pick(&any));
        }
        7 => s.clear(),
        8 => {
            let t = s.clone();
            s.extend(t);
        }
        9 => {
            if s.len() > 1 {
                let i = c.rng.usize(s.len() - 1);
                s.swap(i, i + 1);
            }
        }
        10 => s = (0..c.rng.usize(12)).map(|_| *c.rng.pick(&any)).collect(),
        11 => {
            // Debug names and other spellings
            s = match c.rng.usize(5) {
                0 => names[c.rng.usize(names.len())].1.chars().collect(),
                1 => base.replace('_', "-").chars().collect(),
                2 => base.replace('_', "").chars().collect(),
                3 => base.replace(':', "").chars().collect(),
                _ => base.replace('x', "X").chars().collect(),
            }
        }
        12 => s.truncate(c.rng.usize(s.len())),
        _ => s = c.rng.pick(&["none", "null", "auto", "default", "true", "0", "1", "lanczos", "lanczos2", "hsv", "lab", "best", "grey", "gray", "color", "NaN", "sobel,laplace", "rgb8 ", "l1", "4:4:2", "3x1", "1x3", "4x4"]).chars().collect(),
    }
    let s: String = s.into_iter().collect();
    c.distinct(&(ty, s.clone()));
    if names.iter().any(|n| n.0 == s) {
        return Ok(());
    }
    c.count(&format!("kind {}", kind));
    refused(c, ty, &s)
}

fn parse<T: FromStr<Err = d10_core::errors::ParseEnumError>>(s: &str) -> Result<T, Fail> {
    s.parse::<T>().map_err(|e| Fail { sig: "name".into(), msg: e.to_string() })
}

/// What a named option does
fn c28_effect(c: &mut Case) -> R {
    let (ty, names) = NAMES[(c.n % 15) as usize];
    let k = (c.n / 15) as usize % names.len();
    let (name, variant) = names[k];
    let (w, h) = (16 + c.rng.below(24) as u32, 16 + c.rng.below(24) as u32);
    let b = match c.rng.usize(2) {
        0 => gen::image_kind(&mut c.rng, w, h, 7),
        _ => gen::image_kind(&mut c.rng, w, h, 2),
    };
    let img = Image::new_from_buffer(b.clone());
    c.desc(format!("{} {:?} on {}", ty, name, gen::describe(&b)));
    c.distinct(&(ty, name, gen::bits(&b)));
    c.count(&format!("{} {}", ty, name));
    c.eval();
    let same = |a: &Image, z: &Image| gen::bits(a.buffer()) == gen::bits(z.buffer());
    let save = |f: EncodingFormat| img.save_to_buffer(f).map_err(|e| Fail { sig: "save".into(), msg: e.to_string() });
    let bad = |e: String| Fail { sig: "effect:file".into(), msg: e };
    match ty {
        "Intensity" => {
            for p in b.data() {
                let i: Intensity = parse(name)?;
                let g = p.to_gray_with_intensity(i).data;
                let q = rf::p(&p.data);
                let e = match name {
                    "average" => (q[0] + q[1] + q[2]) / 3.0,
                    "rec601luma" => 0.298_839 * q[0] + 0.586_811 * q[1] + 0.114_350 * q[2],
                    "rec709luma" | "default" => rf::luma(&q),
                    "brightness" => rf::mx(&q),
                    "lightness" => (rf::mx(&q) + rf::mn(&q)) / 2.0,
                    "red" => q[0],
                    "green" => q[1],
                    "blue" => q[2],
                    _ => {
                        let room = 1.0 - (rf::mx(&q) + rf::mn(&q) - 1.0).abs();
                        if room < 1e-2 {
                            continue;
                        }
                        let s = rf::hsl(&q)[1];
                        ensure!((g[0] as f64 - s).abs() <= 6e-5 / room, "effect:Intensity", "{}: {:?} has {} instead of {}", name, p.data, g[0], s);
                        continue;
                    }
                };
                ensure!((g[0] as f64 - e).abs() <= 2e-6, "effect:Intensity", "{}: {:?} has {} instead of {}", name, p.data, g[0], e);
            }
        }
        "FilterMode" => {
            let f: FilterMode = parse(name)?;
            let (nw, nh) = (w / 3 + 1, h * 2 + 3);
            let r = img.resize(nw, nh, f);
            for (v, m) in [("Nearest", FilterMode::Nearest), ("Bilinear", FilterMode::Bilinear), ("Bicubic", FilterMode::Bicubic), ("Lanczos3", FilterMode::Lanczos3), ("Auto", FilterMode::Auto)] {
                ensure!(v != variant || same(&r, &img.resize(nw, nh, m)), "effect:FilterMode", "resizing with {:?} differs from {}", name, v);
            }
            // a step enlarged tells the methods apart
            let step = Image::new_from_buffer(Buf::new_from_func(9, 1, |x, _| if x < 4 { Rgb::BLACK } else { Rgb::WHITE }));
            let e: Vec<f32> = step.resize(36, 1, parse::<FilterMode>(name)?).buffer().data().iter().map(|p| p.data[0]).collect();
            let grey = e.iter().any(|v| *v > 0.1 && *v < 0.9);
            ensure!(grey == (name != "nearest"), "effect:FilterMode", "{:?} enlarges a step to {:?}", name, e);
            let linear = e[14..18].iter().zip([0.125, 0.375, 0.625, 0.875]).all(|(a, b): (&f32, f32)| (a - b).abs() < 1e-4);
            let local = e[..10].iter().all(|v| v.abs() < 1e-5) && e[22..].iter().all(|v| (v - 1.0).abs() < 1e-5);
            match name {
                "nearest" => {}
                "bilinear" => ensure!(linear && local, "effect:FilterMode", "{:?} enlarges a step to {:?}", name, e),
                "lanczos3" | "Lanczos" => ensure!(!linear && !local, "effect:FilterMode", "{:?} enlarges a step to {:?}", name, e),
                "bicubic" => ensure!(!linear && local, "effect:FilterMode", "{:?} enlarges a step to {:?}", name, e),
                _ => ensure!(!linear, "effect:FilterMode", "{:?} enlarges a step to {:?}", name, e),
            }
            // nearest picks existing pixels, the others mix
            let all: std::collections::HashSet<[u32; 4]> = b.data().iter().map(gen::cbits).collect();
            let picked = r.data().iter().all(|p| all.contains(&gen::cbits(p)));
            ensure!(picked == (name == "nearest"), "effect:FilterMode", "{:?} {} existing pixels only", name, if picked { "uses" } else { "doesn't use" });
        }
        "BlendOp" => {
            let o: BlendOp = parse(name)?;
            let k = gen::image_kind(&mut c.rng, w, h, 7);
            let r = img.blend(&Image::new_from_buffer(k.clone()), o, 0.7);
            ensure!(same(&r, &img.blend(&Image::new_from_buffer(k.clone()), blend_op(BLEND_OPS.iter().position(|n| *n == name).unwrap()), 0.7)), "effect:BlendOp", "{:?} differs from its operation", name);
            let idx = BLEND_OPS.iter().position(|n| *n == name).unwrap();
            for ((a, z), o) in b.data().iter().zip(k.data()).zip(r.data()) {
                if let Some((e, tol)) = blend_ref(idx, &rf::p(&a.data), &rf::p(&z.data), 0.7f32 as f64) {
                    ensure!(rf::diff32(&o.data, &e) <= tol, "effect:BlendOp", "{:?} of {:?} and {:?} is {:?} instead of {:?}", name, a.data, z.data, o.data, e);
                }
            }
        }
        "BalanceMode" => {
            let r = img.balance(parse::<BalanceMode>(name)?, 20.0);
            for (v, m) in [("Rgb", BalanceMode::Rgb), ("Srgb", BalanceMode::Srgb), ("Hsv", BalanceMode::Hsv), ("Hsl", BalanceMode::Hsl), ("Lch", BalanceMode::Lch)] {
                ensure!(v != variant || same(&r, &img.balance(m, 20.0)), "effect:BalanceMode", "{:?} differs from {}", name, v);
            }
        }
        "EqualizeMode" => {
            let r = img.equalize(parse::<EqualizeMode>(name)?);
            for (v, m) in [("Rgb", EqualizeMode::Rgb), ("Srgb", EqualizeMode::Srgb), ("Saturation", EqualizeMode::Saturation), ("Lightness", EqualizeMode::Lightness), ("SaturationLightness", EqualizeMode::SaturationLightness)] {
                ensure!(same(&r, &img.equalize(m)) == (v == variant), "effect:EqualizeMode", "{:?} compared to {}", name, v);
            }
        }
        "SaturationMode" => {
            let r = img.optimize_saturation(0.6, parse::<SaturationMode>(name)?);
            for (v, m) in [("Hsl", SaturationMode::Hsl), ("Hsv", SaturationMode::Hsv), ("Lch", SaturationMode::Lch)] {
                ensure!(same(&r, &img.optimize_saturation(0.6, m)) == (v == variant), "effect:SaturationMode", "{:?} compared to {}", name, v);
            }
        }
        "EdgeDetection" => {
            let r = img.edge_detection(parse::<EdgeDetection>(name)?);
            for (v, m) in [("Sobel", EdgeDetection::Sobel), ("Laplace", EdgeDetection::Laplace)] {
                ensure!(same(&r, &img.edge_detection(m)) == (v == variant), "effect:EdgeDetection", "{:?} compared to {}", name, v);
            }
            // a ramp has edges for sobel, but none for laplace
            let ramp = Image::new_from_buffer(Buf::new_from_func(9, 9, |x, _| Rgb::new(x as f32 / 16.0, x as f32 / 16.0, x as f32 / 16.0)));
            let e = ramp.edge_detection(parse::<EdgeDetection>(name)?).get_pixel(4, 4).data[0].abs() > 0.01;
            ensure!(e == (name != "laplace"), "effect:EdgeDetection", "{:?} on a ramp: {}", name, e);
        }
        "DrawingMode" => {
            let r = img.drawing(4, parse::<DrawingMode>(name)?);
            for (v, m) in [("Gray", DrawingMode::Gray), ("Colored", DrawingMode::Colored), ("ReducedColors", DrawingMode::ReducedColors)] {
                ensure!(same(&r, &img.drawing(4, m)) == (v == variant), "effect:DrawingMode", "{:?} compared to {}", name, v);
            }
        }
        "PngColorType" => {
            let t: PngColorType = parse(name)?;
            let f = fmts::png_read(&save(EncodingFormat::Png { color_type: t, compression: PngCompression::Default, filter: PngFilterType::Sub })?).map_err(bad)?;
            let (_, _, ch, depth) = PNG_TYPES.iter().find(|t| t.1 == name).unwrap();
            ensure!(f.raw.ch == *ch && f.raw.depth == *depth, "effect:PngColorType", "{:?} stores {} channels of {} bits", name, f.raw.ch, f.raw.depth);
        }
        "PngFilterType" => {
            let t: PngFilterType = parse(name)?;
            let f = fmts::png_read(&save(EncodingFormat::Png { color_type: PngColorType::Rgb8, compression: PngCompression::Default, filter: t })?).map_err(bad)?;
            let want = ["no_filter", "sub", "up", "avg", "paeth"].iter().position(|n| *n == name).unwrap();
            ensure!(f.filters.iter().all(|v| *v as usize == want), "effect:PngFilterType", "{:?} filters rows by {:?}", name, f.filters);
        }
        "PngCompression" => {
            let t: PngCompression = parse(name)?;
            let file = |x: PngCompression| save(EncodingFormat::Png { color_type: PngColorType::Rgb8, compression: x, filter: PngFilterType::Sub });
            let f = file(t)?;
            for (v, m) in [("Default", PngCompression::Default), ("Fast", PngCompression::Fast), ("Best", PngCompression::Best)] {
                ensure!(v != variant || f == file(m)?, "effect:PngCompression", "{:?} differs from {}", name, v);
            }
            // on a big compressible image the three differ in size
            let big = Image::new_from_buffer(Buf::new_from_func(120, 90, |x, y| {
                let v = ((x * 7 + y * y) % 64) as f32 / 63.0;
                Rgb::new(v, v * 0.5, ((x / 3 + y) % 16) as f32 / 15.0)
            }));
            let size = |x: PngCompression| big.save_to_buffer(EncodingFormat::Png { color_type: PngColorType::Rgb8, compression: x, filter: PngFilterType::Sub }).map(|v| v.len()).unwrap_or(0);
            let (s, d, f, z) = (size(t), size(parse("default")?), size(parse("fast")?), size(parse("best")?));
            ensure!(z <= d && d <= f && z < f, "effect:PngCompression", "sizes: best {}, default {}, fast {}", z, d, f);
            if c.n % 16 == 0 || c.n < 64 {
            let fine = Image::new_from_buffer(Buf::new_from_func(256, 256, |x, y| {
                // few colours in no order: many candidate matches, where searching longer pays
                let k = (x + 256 * y).wrapping_mul(2_654_435_761);
                let k = ((k ^ k >> 15).wrapping_mul(0x2c1b_3c6d) >> 16) % 4;
                Rgb::new(k as f32 / 3.0, (k / 2) as f32 / 2.0, (3 - k) as f32 / 3.0)
            }));
            let write = |x: PngCompression| fine.save_to_buffer(EncodingFormat::Png { color_type: PngColorType::Rgb8, compression: x, filter: PngFilterType::Sub }).map(|v| v.len()).unwrap_or(0);
            let sizes = (write(parse("best")?), write(parse("default")?), write(parse("fast")?));
            ensure!(sizes.0 < sizes.1 && sizes.1 < sizes.2, "effect:PngCompression", "best, default and fast write {:?} bytes", sizes);
            }
            let mine = [("default", d), ("fast", f), ("best", z)].iter().find(|q| q.0 == name).unwrap().1;
            ensure!(s == mine, "effect:PngCompression", "{:?} writes {} bytes", name, s);
        }
        "WebPPreset" => {
            let t: WebPPreset = parse(name)?;
            let f = save(EncodingFormat::WebP { quality: 60, preset: t })?;
            let kind = fmts::webp_kind(&f).map_err(bad)?;
            ensure!((kind == "lossless") == (name == "lossless"), "effect:WebPPreset", "{:?} writes a {} file", name, kind);
            if name != "lossless" {
                let want = PRESETS[["default", "picture", "photo", "drawing", "icon", "text", "lossless"].iter().position(|n| *n == name).unwrap()];
                let refs = [webp_reference(&b, 60, want, false), webp_reference(&b, 60, want, true)];
                ensure!(refs.iter().any(|r| r.as_deref() == Some(&f[..])), "effect:WebPPreset", "{:?} doesn't write what libwebp writes for it", name);
            }
        }
        "JpegSamplingFactor" => {
            let t: JpegSamplingFactor = parse(name)?;
            let f = save(EncodingFormat::Jpeg { quality: 80, progressive: false, sampling_factor: Some(t), grayscale: false, optimize_huffman_tables: true })?;
            let j = fmts::jpeg_info(&f).map_err(bad)?;
            let (_, hh, vv) = SAMPLINGS.iter().find(|s| format!("{:?}", s.0) == variant).unwrap();
            ensure!(j.comps.len() == 3 && (j.comps[0].1, j.comps[0].2) == (*hh, *vv) && j.comps[1..].iter().all(|q| (q.1, q.2) == (1, 1)), "effect:JpegSamplingFactor", "{:?} samples {:?}", name, j.comps.iter().map(|q| (q.1, q.2)).collect::<Vec<_>>());
        }
        "BmpColorType" => {
            let t: BmpColorType = parse(name)?;
            let f = fmts::bmp_read(&save(EncodingFormat::Bmp { color_type: t })?).map_err(bad)?;
            let (_, _, ch) = BMP_TYPES.iter().find(|t| t.1 == name).unwrap();
            // la8 has no BMP representation of its own, it is stored as 32 bit grey with alpha
            let bpp = match *ch { 1 => 8, 3 => 24, _ => 32 };
            ensure!(f.bpp == bpp, "effect:BmpColorType", "{:?} stores {} bits per pixel", name, f.bpp);
            let grey = (0..b.data().len()).all(|i| { let p = f.raw.rgba(i); p[0] == p[1] && p[1] == p[2] });
            ensure!(grey == (*ch < 3), "effect:BmpColorType", "{:?} stores {}", name, if grey { "grey" } else { "colours" });
        }
        _ => {
            let t: IcoColorType = parse(name)?;
            let f = fmts::ico_read(&save(EncodingFormat::Ico { color_type: t })?).map_err(bad)?;
            let (_, _, ch) = ICO_TYPES.iter().find(|t| t.1 == name).unwrap();
// embedded png files are always rgba, the type decides what is kept
            let px: Vec<P> = (0..b.data().len()).map(|i| f.png.raw.rgba(i)).collect();
            let grey = px.iter().all(|p| p[0] == p[1] && p[1] == p[2]);
            let opaque = px.iter().all(|p| p[3] == 1.0);
            let coloured = b.data().iter().any(|p| (p.data[0] - p.data[1]).abs() > 0.1);
            let clear = b.data().iter().any(|p| p.data[3] < 0.9);
            ensure!(f.png.raw.depth == 8 && (!coloured || grey == (*ch < 3)) && (!clear || opaque == (*ch % 2 == 1)), "effect:IcoColorType", "{:?} stores grey {} opaque {}", name, grey, opaque);
        }
    }
    Ok(())
}

pub fn c28(m: &mut Mon) {
    m.rule = "every documented name of the 15 option types parsed and its effect observed in the operation's result or the written file (read by independent readers); edited, foreign and random names refused with an error that carries value and type; non-trivial: distinct (type, text) pairs".into();
    m.cases("names", NAMES.len() as u64, c28_names);
    let n = m.n(60_000 * 8, 15);
    m.cases("refused", n, c28_refused);
    let n = m.n(15 * 16 * 2 * 8, 10);
    m.cases("effect", n, c28_effect);
}

// ------------------------------------------------------------------------------------------- C25

type OpFn = Box<dyn Fn(&Image, &Image) -> Image>;

fn filter_mode(k: usize) -> FilterMode {
    [FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto][k % 5]
}

pub const OPS: usize = 44;

/// An operation with parameters: description, function and the size it has to return (None: only not checked here)
pub fn some_op(r: &mut Rng, k: usize, w: u32, h: u32) -> (String, OpFn, Option<(u32, u32)>, bool) {
    let same = Some((w, h));
    let f1 = r.f32();
    match k % OPS {
        0 => {
            let (x, y, cw, ch) = if w == 0 { (0, 0, 0, 0) } else {
                let (x, y) = (r.below(w as u64) as u32, r.below(h as u64) as u32);
                (x, y, 1 + r.below((w - x) as u64) as u32, 1 + r.below((h - y) as u64) as u32)
            };
            (format!("crop {} {} {} {}", x, y, cw, ch), Box::new(move |a, _| a.crop(x, y, cw, ch)), Some((cw, ch)), true)
        }
        1 => ("flip_horizontal".into(), Box::new(|a, _| a.flip_horizontal()), same, true),
        2 => ("flip_vertical".into(), Box::new(|a, _| a.flip_vertical()), same, true),
        3 => ("rotate90".into(), Box::new(|a, _| a.rotate90()), Some((h, w)), true),
        4 => ("rotate180".into(), Box::new(|a, _| a.rotate180()), same, true),
        5 => ("rotate270".into(), Box::new(|a, _| a.rotate270()), Some((h, w)), true),
        6 | 7 => {
            let (a, m) = (r.uniform(-400.0, 400.0), r.usize(5));
            (format!("rotate {} {}", a, m), Box::new(move |i, _| i.rotate(a, filter_mode(m))), None, true)
        }
        8 => ("edge sobel".into(), Box::new(|a, _| a.edge_detection(EdgeDetection::Sobel)), same, true),
        9 => ("edge laplace".into(), Box::new(|a, _| a.edge_detection(EdgeDetection::Laplace)), same, true),
        10 | 11 => {
            let (nw, nh, m) = (1 + r.below(30) as u32, 1 + r.below(30) as u32, r.usize(5));
            let size = if w == 0 { None } else { Some((nw, nh)) };
            (format!("resize {} {} {}", nw, nh, m), Box::new(move |a, _| a.resize(nw, nh, filter_mode(m))), size, true)
        }
        12 => {
            let (p, m) = (r.uniform(1.0, 250.0), r.usize(5));
            (format!("resize_pct {} {}", p, m), Box::new(move |a, _| a.resize_pct(p, filter_mode(m))), None, true)
        }
        13 => {
            let (q, k) = (r.below(101) as u8, r.bool());
            (format!("jpeg_quality {} {}", q, k), Box::new(move |a, _| a.with_jpeg_quality(q, k)), same, true)
        }
        14 => (format!("random_noise {}", f1), Box::new(move |a, _| a.random_noise(f1)), same, false),
        15 => (format!("salt_n_pepper {}", f1), Box::new(move |a, _| a.salt_n_pepper_noise(f1)), same, false),
        16 => (format!("rgb_noise {}", f1), Box::new(move |a, _| a.rgb_noise(f1)), same, false),
        17 => (format!("gaussian_noise {}", f1), Box::new(move |a, _| a.gaussian_noise(f1)), same, false),
        18 => {
            let (rad, s) = (r.below(6) as u32, if r.bool() { None } else { Some(r.uniform(0.1, 5.0)) });
            (format!("gaussian_blur {} {:?}", rad, s), Box::new(move |a, _| a.gaussian_blur(rad, s)), same, true)
        }
        19 => {
            let (rad, f, s) = (r.below(6) as u32, r.uniform(0.0, 4.0), if r.bool() { None } else { Some(r.uniform(0.1, 5.0)) });
            (format!("unsharp {} {} {:?}", rad, f, s), Box::new(move |a, _| a.unsharp(rad, f, s)), same, true)
        }
        20 => {
            let t = r.uniform(0.0, 100.0);
            (format!("white_balance {}", t), Box::new(move |a, _| a.white_balance(t)), same, true)
        }
        21 | 22 => {
            let (t, m) = (r.uniform(0.0, 100.0), r.usize(5));
            (format!("balance {} {}", m, t), Box::new(move |a, _| a.balance([BalanceMode::Rgb, BalanceMode::Srgb, BalanceMode::Hsv, BalanceMode::Hsl, BalanceMode::Lch][m], t)), same, true)
        }
        23 | 24 | 25 => {
            let k = r.usize(12);
            (format!("blend {} {}", BLEND_OPS[k], f1), Box::new(move |a, b| a.blend(b, blend_op(k), f1)), None, true)
        }
        26 => {
            let (rad, m) = (1 + r.below(5) as u32, r.usize(3));
            (format!("drawing {} {}", rad, m), Box::new(move |a, _| a.drawing(rad, [DrawingMode::Gray, DrawingMode::Colored, DrawingMode::ReducedColors][m])), same, true)
        }
        27 => {
            let o = r.below(40) as u32;
            (format!("interlace {}", o), Box::new(move |a, _| a.interlace(o)), same, true)
        }
        28 | 29 => ("apply_palette".into(), Box::new(|a, b| a.apply_palette(b)), same, true),
        30 => {
            let (t, n) = (r.f32(), r.below(10) as u8);
            (format!("despeckle {} {}", t, n), Box::new(move |a, _| a.despeckle(t, n)), same, true)
        }
        31 => {
            let t = r.uniform(0.0, 100.0);
            (format!("stretch_contrast {}", t), Box::new(move |a, _| a.stretch_contrast(t)), same, true)
        }
        32 | 33 => {
            let (o, m) = (r.uniform(0.0, 2.0), r.usize(3));
            (format!("optimize_saturation {} {}", o, m), Box::new(move |a, _| a.optimize_saturation(o, [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch][m])), same, true)
        }
        34 => {
            let (o, n, t) = (temp(r), temp(r), r.uniform(-0.5, 2.0));
            (format!("temperature {} {} {}", o, n, t), Box::new(move |a, _| a.change_color_temperature(o, n, t)), same, true)
        }
        35 => {
            let (f, t) = (r.uniform(-1.0, 2.0), r.uniform(-0.5, 2.0));
            (format!("optimize_temperature {} {}", f, t), Box::new(move |a, _| a.optimize_color_temperature(f, t)), same, true)
        }
        36 => {
            let f = r.uniform(-1.0, 1.0);
            (format!("optimize_lightness {}", f), Box::new(move |a, _| a.optimize_lightness(f)), same, true)
        }
        37 | 38 => {
            let m = r.usize(5);
            (format!("equalize {}", m), Box::new(move |a, _| a.equalize([EqualizeMode::Rgb, EqualizeMode::Srgb, EqualizeMode::Saturation, EqualizeMode::Lightness, EqualizeMode::SaturationLightness][m])), same, true)
        }
        39 => {
            let (rad, c) = (r.usize(5), r.bool());
            (format!("snn {} {}", rad, c), Box::new(move |a, _| a.symmetric_nearest_neighbor(rad, c)), same, true)
        }
        40 => (
            "compose".into(),
            Box::new(|a, b| Image::compose([a, b, a], Rgb::NONE, |x, _, [p, q, s]| if x % 2 == 0 { p.alpha_blend(q.with_alpha(s.alpha())) } else { q })),
            None,
            true,
        ),
        41 => ("compose_slice".into(), Box::new(|a, b| Image::compose_slice(&[b, a], Rgb::BLACK, |_, y, p| p[(y % 2) as usize])), None, true),
        42 => {
            let q = r.f32();
            ("map_colors".into(), Box::new(move |a, _| a.map_colors(|c| c.with_saturation(q).with_hue_rotate(0.3))), same, true)
        }
        _ => ("map_colors_enumerated".into(), Box::new(|a, _| a.map_colors_enumerated(|x, y, c| c.with_brightness((x + 2 * y) as f32 * 0.01))), same, true),
    }
}

/// The image kinds every operation has to accept
fn shapes(r: &mut Rng) -> Buf {
    if gen::is_huge() {
        return gen::image(r, 12);
    }
    let k = r.usize(gen::KINDS);
    match r.usize(8) {
        0 => Buf::new(0, 0),
        1 => gen::image_kind(r, 1, 1, k),
        2 => {
            let n = 1 + r.below(20) as u32;
            gen::image_kind(r, n, 1, k)
        }
        3 => {
            let n = 1 + r.below(20) as u32;
            gen::image_kind(r, 1, n, k)
        }
        _ => gen::image(r, 14),
    }
}

fn c25_pure(c: &mut Case) -> R {
    let a = shapes(&mut c.rng);
    let other = if c.rng.chance(0.1) { Buf::new(0, 0) } else { shapes(&mut c.rng) };
    let k = if gen::is_huge() { c.rng.usize(OPS) } else { c.n as usize };
    let (name, f, size, fixed) = some_op(&mut c.rng, k, a.width(), a.height());
    if name == "apply_palette" && other.is_empty() {
        return Ok(());
    }
    c.desc(format!("{} on {} and {}", name, gen::describe(&a), gen::describe(&other)));
    c.distinct(&(name.clone(), gen::bits(&a), gen::bits(&other)));
    let op = name.split(' ').next().unwrap().to_string();
    c.count(&format!("op {}", op));
    c.count(match (a.width(), a.height()) {
        (0, _) => "empty image",
        (1, 1) => "single pixel",
        (_, 1) => "single row",
        (1, _) => "single column",
        _ => "larger image",
    });
    let (ba, bo) = (gen::bits(&a), gen::bits(&other));
    let (ia, io) = (Image::new_from_buffer(a.clone()), Image::new_from_buffer(other.clone()));
    let run = |what: &str| -> Result<Image, Fail> { catch(|| f(&ia, &io)).map_err(|e| Fail { sig: format!("{}:panic", op), msg: format!("{} {}: {}", name, what, e) }) };
    let r = run("panics")?;
    c.evals(4);
    ensure!(gen::bits(ia.buffer()) == ba, format!("{}:input", op), "{} changes its image", name);
    ensure!(gen::bits(io.buffer()) == bo, format!("{}:second", op), "{} changes its second image", name);
    if let Some(s) = size {
        ensure!((r.width(), r.height()) == s, format!("{}:size", op), "{} of {}x{} returns {}x{} instead of {:?}", name, a.width(), a.height(), r.width(), r.height(), s);
    }
    if matches!(op.as_str(), "blend" | "compose" | "compose_slice") {
        let s = (a.width().max(other.width()), a.height().max(other.height()));
        ensure!((r.width(), r.height()) == s, format!("{}:size", op), "{} returns {}x{} instead of {:?}", name, r.width(), r.height(), s);
    }
    ensure!(r.data().len() == r.width() as usize * r.height() as usize, format!("{}:data", op), "{} returns {} pixels for {}x{}", name, r.data().len(), r.width(), r.height());
    ensure!(a.is_empty() || !r.is_empty(), format!("{}:size", op), "{} of {}x{} returns an empty image", name, a.width(), a.height());
    for (i, p) in r.data().iter().enumerate() {
        ensure!(p.data.iter().all(|v| v.is_finite()), format!("{}:finite", op), "{}: pixel {} is {:?}", name, i, p.data);
    }
    if fixed {
        // something else in between
        let k = c.rng.usize(OPS);
        let (n2, g, _, _) = some_op(&mut c.rng, k, a.width(), a.height());
        if !(n2 == "apply_palette" && other.is_empty()) {
            let _ = catch(|| g(&ia, &io));
        }
        let r2 = run("panics when repeated")?;
        c.eval();
        ensure!(gen::bits(r2.buffer()) == gen::bits(r.buffer()), format!("{}:deterministic", op), "{} gives another result when repeated", name);
        // an equal image elsewhere in memory
        let r3 = f(&Image::new_from_buffer(a.clone()), &Image::new_from_buffer(other.clone()));
        ensure!(gen::bits(r3.buffer()) == gen::bits(r.buffer()), format!("{}:deterministic", op), "{} gives another result for an equal image", name);
    }
    // the image itself is the second one
    if matches!(op.as_str(), "blend" | "compose" | "compose_slice" | "apply_palette") && !(op == "apply_palette" && a.is_empty()) {
        let x = f(&ia, &ia);
        let y = f(&Image::new_from_buffer(a.clone()), &Image::new_from_buffer(a.clone()));
        c.eval();
        ensure!(gen::bits(x.buffer()) == gen::bits(y.buffer()) && gen::bits(ia.buffer()) == ba, format!("{}:aliased", op), "{} with itself", name);
    }
    Ok(())
}

fn c25_in_place(c: &mut Case) -> R {
    let a = shapes(&mut c.rng);
    let mut pal = gen::image(&mut c.rng, 6);
    if c.rng.chance(0.2) && !a.is_empty() {
        pal = a.clone();
    }
    let t = c.rng.f32();
    let k = (c.n % 9) as usize;
    let name = ["apply_palette_in_place", "add_random_noise", "add_salt_n_pepper_noise", "add_rgb_noise", "add_gaussian_noise", "mod_colors", "mod_colors_enumerated", "try_mod_colors", "try_mod_colors_enumerated"][k];
    c.desc(format!("{} {} on {}", name, t, gen::describe(&a)));
    c.distinct(&(k, t.to_bits(), gen::bits(&a)));
    c.count(&format!("in place {}", name));
    let (ba, bp) = (gen::bits(&a), gen::bits(&pal));
    let keep = Image::new_from_buffer(a.clone());
    let mut i = keep.clone();
    let ip = Image::new_from_buffer(pal.clone());
    let f = |p: &Rgb| p.with_hue_rotate(0.37);
    let g = |x: u32, y: u32, p: &Rgb| p.with_brightness((x as f32 - y as f32) * 0.03);
    let expect = match k {
        0 => {
            i.apply_palette_in_place(&ip);
            Some(keep.apply_palette(&ip))
        }
        1 => { i.add_random_noise(t); None }
        2 => { i.add_salt_n_pepper_noise(t); None }
        3 => { i.add_rgb_noise(t); None }
        4 => { i.add_gaussian_noise(t); None }
        5 => {
            i.mod_colors(f);
            Some(keep.map_colors(f))
        }
        6 => {
            i.mod_colors_enumerated(g);
            Some(keep.map_colors_enumerated(g))
        }
        7 => {
            i.try_mod_colors(|p| Ok::<_, ()>(f(p))).ok();
            keep.try_map_colors(|p| Ok::<_, ()>(f(p))).ok()
        }
        _ => {
            i.try_mod_colors_enumerated(|x, y, p| Ok::<_, ()>(g(x, y, p))).ok();
            keep.try_map_colors_enumerated(|x, y, p| Ok::<_, ()>(g(x, y, p))).ok()
        }
    };
    c.evals(3);
    ensure!((i.width(), i.height()) == (a.width(), a.height()), format!("{}:size", name), "{}x{}", i.width(), i.height());
    ensure!(gen::bits(keep.buffer()) == ba, format!("{}:other", name), "{} changes the image it was cloned from", name);
    ensure!(gen::bits(ip.buffer()) == bp, format!("{}:palette", name), "{} changes the palette", name);
    ensure!(i.data().iter().all(|p| p.data.iter().all(|v| v.is_finite())), format!("{}:finite", name), "not finite");
    if let Some(e) = expect {
        ensure!(gen::bits(e.buffer()) == gen::bits(i.buffer()), format!("{}:differs", name), "{} differs from the copying form", name);
    }
    Ok(())
}

/// Saving leaves the image alone and writes the same bytes every time
fn c25_save(c: &mut Case) -> R {
    let a = loop {
        let a = shapes(&mut c.rng);
        if !a.is_empty() {
            break a;
        }
    };
    let all = crate::codecs::all_formats();
    let (name, f) = all[c.n as usize % all.len()].clone();
    c.desc(format!("saving as {} {}", name, gen::describe(&a)));
    c.distinct(&(name.clone(), gen::bits(&a)));
    c.count(&format!("save {}", name.split(' ').next().unwrap()));
    let before = gen::bits(&a);
    let i = Image::new_from_buffer(a);
    let b1 = i.save_to_buffer(f.clone()).map_err(|e| Fail { sig: "save:error".into(), msg: format!("{}: {}", name, e) })?;
    c.evals(3);
    ensure!(gen::bits(i.buffer()) == before, "save:input", "{} changes the image", name);
    // something else in between
    let (_, g) = all[c.rng.usize(all.len())].clone();
    let _ = i.map_colors(|p| p.invert()).save_to_buffer(g);
    let mut b2 = vec![];
    i.save_to_writer(&mut b2, f.clone()).map_err(|e| Fail { sig: "save:error".into(), msg: format!("{}: {}", name, e) })?;
    ensure!(b1 == b2, "save:deterministic", "{} writes different files for the same image", name);
    let copy = b1.clone();
    let (d1, d2) = (Image::read_from_buffer(&b1), Image::read_from_buffer(&b1));
    match (d1, d2) {
        (Ok(x), Ok(y)) => ensure!(gen::bits(x.buffer()) == gen::bits(y.buffer()) && b1 == copy, "open:deterministic", "{}: opening twice gives different images", name),
        (Err(e), _) | (_, Err(e)) => return fail("open:error", format!("{}: {}", name, e)),
    }
    Ok(())
}

/// One call of a history: an operation with its parameters and images, or a
/// save in a format. The result comes as a hash of every bit of it.
pub struct Call {
    pub name: String,
    pub run: Box<dyn Fn() -> u64>,
}

/// A handful of calls which are easily mistaken for each other: the same
/// operation with other parameters, on other images of often the same size
pub fn calls(seed: u64) -> Vec<Call> {
    let mut r = Rng::new(seed);
    let k = r.usize(OPS + 14);
    let n = 3 + r.usize(4);
    let (w, h) = (1 + r.below(12) as u32, 1 + r.below(12) as u32);
    let mut pool: Vec<Buf> = vec![];
    for _ in 0..3 {
        let kind = r.usize(gen::KINDS);
        pool.push(if r.chance(0.7) { gen::image_kind(&mut r, w, h, kind) } else { gen::image(&mut r, 12) });
    }
    let mut v = vec![];
    // a few of another kind in between
    let other = r.usize(OPS);
    let all = crate::codecs::all_formats();
    let family = all[r.usize(all.len())].1.format();
    let dig = |i: &Image| crate::fw::hash_of(&gen::bits(i.buffer()));
    while v.len() < n {
        let a = pool[r.usize(pool.len())].clone();
        let b = pool[r.usize(pool.len())].clone();
        if k >= OPS + 12 {
            // colours
            let s = r.u64();
            let a = Image::new_from_buffer(a);
            v.push(Call {
                name: format!("colours {}", s),
                run: Box::new(move || {
                    let mut r = Rng::new(s);
                    let (x, y, m) = (r.uniform(0.2, 2.0), r.f32(), r.usize(8));
                    dig(&a.map_colors(|c| match m {
                        0 => c.with_gamma(x),
                        1 => c.with_level(y * 0.4, 0.6, x),
                        2 => c.to_lab::<illuminant::D50, observer::O10>().to_rgb().with_contrast(x),
                        3 => c.to_lch::<illuminant::D65, observer::O2>().to_rgb().with_hue_rotate(y * 300.0),
                        4 => c.to_srgb().to_hsv().to_hsl().to_rgb().modulate(y * 90.0, x, x),
                        5 => c.with_vibrance(x).to_yuv().to_rgb(),
                        6 => c.to_xyz().to_rgb().with_gamma_opt(x),
                        _ => c.with_saturation(x).with_lightness(y),
                    }))
                }),
            });
            continue;
        }
        if k >= OPS {
            let (name, f) = all[r.usize(all.len())].clone();
            if a.is_empty() || (k < OPS + 8 && f.format() != family) {
                if a.is_empty() && pool.iter().all(|p| p.is_empty()) {
                    return v;
                }
                continue;
            }
            let i = Image::new_from_buffer(a);
            if k % 2 == 0 {
                v.push(Call {
                    name: format!("saving as {} {}", name, gen::describe(i.buffer())),
                    run: Box::new(move || crate::fw::hash_of(&i.save_to_buffer(f.clone()).map_err(|e| e.to_string()))),
                });
            } else if let Ok(file) = i.save_to_buffer(f.clone()) {
                let cut = if r.chance(0.2) { r.usize(file.len()) } else { file.len() };
                v.push(Call {
                    name: format!("opening {} of {} bytes of {} {}", cut, file.len(), name, gen::describe(i.buffer())),
                    run: Box::new(move || match Image::read_from_buffer(&file[..cut]) {
                        Ok(i) => dig(&i),
                        Err(e) => crate::fw::hash_of(&e.to_string()),
                    }),
                });
            }
            continue;
        }
        let k = if r.chance(0.15) { other } else { k };
        let (name, f, _, fixed) = some_op(&mut r, k, a.width(), a.height());
        let (name2, a2, b2) = (format!("{} on {} and {}", name, gen::describe(&a), gen::describe(&b)), Image::new_from_buffer(a), Image::new_from_buffer(b));
        if !fixed || (name == "apply_palette" && b2.is_empty()) {
            // noise: draws from the generator and leaves no result to compare
            v.push(Call {
                name: "noise".into(),
                run: Box::new(move || {
                    f(&a2, &a2);
                    0
                }),
            });
            continue;
        }
        v.push(Call { name: name2, run: Box::new(move || dig(&f(&a2, &b2))) });
    }
    v
}

/// The calls of a history in reverse order, in a process of their own
pub fn history_child(seed: u64) -> ! {
    for c in calls(seed).iter().rev() {
        println!("{:016x}", (c.run)());
    }
    std::process::exit(0)
}

/// A result doesn't depend on the calls made before it: a random history of
/// calls here, the same calls in reverse order in a fresh process and each
/// alone in a fresh thread all agree bit by bit.
fn c25_histories(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let v = calls(seed);
    c.desc(format!("the calls {:?}", v.iter().map(|c| &c.name[..]).collect::<Vec<_>>()));
    c.distinct(&seed);
    let guard = |i: usize, f: &dyn Fn() -> u64| catch(f).map_err(|e| Fail { sig: "history:panic".into(), msg: format!("{}: {}", v[i].name, e) });
    let mut seen: Vec<Option<u64>> = vec![None; v.len()];
    let steps = v.len() * 3;
    let mut order = vec![];
    for s in 0..steps {
        let i = if s < v.len() { s } else { c.rng.usize(v.len()) };
        let h = guard(i, &v[i].run)?;
        c.eval();
        order.push(i);
        if let Some(b) = seen[i] {
            ensure!(h == b, format!("history:{}", v[i].name.split(' ').next().unwrap()), "{} gives another result after the calls {:?}", v[i].name, order);
        }
        seen[i] = Some(h);
    }
    c.count("histories");
    c.add("calls in histories", steps as u64);
    // each alone in a thread of its own
    for i in 0..v.len() {
        let h = std::thread::spawn(move || {
            let w = calls(seed);
            catch(|| (w[i].run)())
        })
        .join()
        .unwrap_or_else(|_| Err("the thread ended".into()));
        let h = h.map_err(|e| Fail { sig: "history:panic".into(), msg: format!("{}: {}", v[i].name, e) })?;
        c.eval();
        c.count("calls alone in a fresh thread");
        ensure!(Some(h) == seen[i], format!("history:{}", v[i].name.split(' ').next().unwrap()), "{} gives another result in a fresh thread than after the calls {:?}", v[i].name, order);
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--history", &seed.to_string()])
        .output()
        .map_err(|e| Fail { sig: "history:spawn".into(), msg: e.to_string() })?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut lines: Vec<&str> = text.lines().collect();
    lines.reverse();
    ensure!(out.status.success() && lines.len() == v.len(), "history:process", "the calls in reverse order: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr));
    for (i, l) in lines.iter().enumerate() {
        c.eval();
        c.count("calls in a fresh process, in reverse order");
        let h = u64::from_str_radix(l, 16).unwrap_or(1);
        ensure!(Some(h) == seen[i], format!("history:{}", v[i].name.split(' ').next().unwrap()), "{} gives another result in a fresh process, with the calls in reverse order, than after the calls {:?}", v[i].name, order);
    }
    Ok(())
}

pub fn c25(m: &mut Mon) {
    m.rule = "every image operation with generated parameters on images of every shape (empty, single pixel, row, column, larger): inputs compared bit by bit before and after, repeated and on equal copies with other operations in between, results checked for size and finite values; random histories of calls which resemble each other, compared with each call alone in a fresh thread and with the reverse order in a fresh process; non-trivial: distinct (operation, image, second image)".into();
    m.assumptions.push("palettes have at least one entry".into());
    let n = m.n(OPS as u64 * 500, 60);
    m.cases("pure", n, c25_pure);
    let n = m.n(OPS as u64 * 8, 15);
    m.cases("large pure", n, |c| gen::large(12000, || c25_pure(c)));
    let n = m.n(4, 10);
    m.cases("long pure", n, |c| gen::long(|| c25_pure(c)));
    let n = m.n(12, 8);
    m.cases("huge pure", n, |c| gen::huge_file(|| c25_pure(c)));
    let n = m.n(9 * 600 * 8, 15);
    m.cases("in place", n, c25_in_place);
    let n = m.n(90, 15);
    m.cases("large in place", n, |c| gen::large(4000, || c25_in_place(c)));
    let n = m.n(4, 10);
    m.cases("long in place", n, |c| gen::long(|| c25_in_place(c)));
    let n = m.n(4000 * 8, 10);
    m.cases("save", n, c25_save);
    let n = m.n(6000, 8);
    m.cases("histories", n, c25_histories);
}
