//! C32: programs of many operations on the results of others
use crate::codecs::any_format;
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::style::{some_op, OPS};
use d10::{EncodingFormat, FilterMode, Image, Rgb};

/// Sound: the right number of pixels, finite channels, alpha in range
fn sound(i: &Image) -> Result<(), String> {
    if i.data().len() as u64 != i.width() as u64 * i.height() as u64 {
        return Err(format!("{} pixels for {}x{}", i.data().len(), i.width(), i.height()));
    }
    for (n, p) in i.data().iter().enumerate() {
        if !p.data.iter().all(|v| v.is_finite()) {
            return Err(format!("pixel {} is {:?}", n, p.data));
        }
    }
    Ok(())
}

/// Name, operation and expected size
type Step = (String, Box<dyn Fn(&Image, &Image) -> Image>, Option<(u32, u32)>);
/// An operation, more often one whose results leave the range
fn step(r: &mut Rng, i: &Image) -> Step {
    let same = Some((i.width(), i.height()));
    match r.usize(10) {
        0 | 3 => {
            let (w, h) = (1 + r.below(24) as u32, 1 + r.below(24) as u32);
            let m = *r.pick(&[FilterMode::Lanczos3, FilterMode::Auto]);
            (format!("resize {} {} {:?}", w, h, m), Box::new(move |a, _| a.resize(w, h, m)), Some((w, h)))
        }
        1 => {
            let a = r.uniform(-400.0, 400.0);
            (format!("rotate {} Lanczos3", a), Box::new(move |i, _| i.rotate(a, FilterMode::Lanczos3)), None)
        }
        2 => {
            let m = r.usize(19);
            let (x, y) = (r.uniform(0.1, 2.0), r.f32());
            let g = *r.pick(&["average", "rec601luma", "rec709luma", "brightness", "lightness", "saturation", "red", "green", "blue"]);
            let g: d10::Intensity = g.parse().unwrap();
            (format!("colours {} {} {} {:?}", m, x, y, g), Box::new(move |a, _| a.map_colors(|c| color_step(c, m, x, y, g))), same)
        }
        4 => {
            let w: [[f32; 3]; 3] = std::array::from_fn(|_| std::array::from_fn(|_| r.uniform(-1.5, 1.5)));
            if r.bool() {
                (format!("kernel {:?}", w), Box::new(move |a, _| Image::new_from_buffer(a.buffer().apply_kernel(&d10_core::kernel::Kernel { data: w }))), same)
            } else {
                (format!("kernel dyn {:?}", w), Box::new(move |a, _| Image::new_from_buffer(a.buffer().apply_kernel_dyn(&d10_core::kernel_dyn::KernelDyn::new(w.concat(), 3, 3)))), same)
            }
        }
        _ => {
            let k = r.usize(OPS);
            let (n, f, size, _) = some_op(r, k, i.width(), i.height());
            (n, f, size)
        }
    }
}

fn color_step(c: &Rgb, m: usize, x: f32, y: f32, g: d10::Intensity) -> Rgb {
    use d10_core::color::*;
    match m {
        0 => c.with_brightness(y),
        1 => c.with_contrast(x),
        2 => c.with_gamma(x),
        3 => c.with_gamma_opt(x),
        4 => c.with_level(y * 0.4, 0.6, x),
        5 => c.with_saturation(x),
        6 => c.stretch_saturation(x),
        7 => c.with_gamma_saturation(x),
        8 => c.with_lightness(x),
        9 => c.with_hue_rotate(y * 360.0),
        10 => c.modulate(y, x, x),
        11 => c.with_vibrance(x),
        12 => c.with_sepia(),
        13 => c.invert(),
        14 => c.to_gray_with_intensity(g),
        15 => c.to_hsl().with_alpha(y).to_rgb(),
        16 => c.to_hsv().with_saturation(y).to_rgb(),
        17 => c.to_lch::<illuminant::D50, observer::O10>().to_yuv().to_rgb(),
        _ => c.to_srgb().to_xyz().to_lab::<illuminant::E, observer::O2>().to_rgb(),
    }
}

fn chain(c: &mut Case) -> R {
    let start = gen::image(&mut c.rng, 12);
    if start.is_empty() {
        return Ok(());
    }
    let n = 2 + c.rng.usize(7);
    let mut i = Image::new_from_buffer(start.clone());
    let mut older = i.clone();
    let mut names: Vec<String> = vec![];
    let id = c.rng.u64();
    c.distinct(&(gen::bits(&start), n, id));
    for k in 0..n {
        let (name, f, size) = step(&mut c.rng, &i);
        names.push(name.clone());
        let op = name.split(' ').next().unwrap().to_string();
        let now = names.join(", ");
        c.desc(format!("{} on {}", now, gen::describe(&start)));
        c.count(&format!("step {}", op));
        if i.data().iter().any(|p| p.data.iter().any(|v| !(0.0..=1.0).contains(v))) {
            c.count("steps on images with values out of range");
        }
        let b = if k % 2 == 0 { start.clone().into_img() } else { older.clone() };
        c.eval();
        let next = catch(|| f(&i, &b)).map_err(|e| Fail { sig: format!("{}:panic", op), msg: format!("{}: {}", now, e) })?;
        if let Err(e) = sound(&next) {
            return fail(op, format!("{} of {}: {}\nfrom {:?}", now, gen::describe(&start), e, i.data().iter().take(4).map(|p| p.data).collect::<Vec<_>>()));
        }
        if let Some(size) = size {
            ensure!((next.width(), next.height()) == size, format!("{}:size", op), "{}: {}x{} instead of {:?}", now, next.width(), next.height(), size);
        }
        older = i;
        i = next;
        if i.data().len() > 4000 {
            i = i.resize(20, 20, FilterMode::Nearest);
        }
    }
    let (name, f) = any_format(&mut c.rng);
    // stored as the nearest bound
    let near = i.map_colors(|p| Rgb { data: p.data.map(|v| v.clamp(0.0, 1.0)) });
    let (f2, f3) = (f.clone(), f.clone());
    c.eval();
    c.count("saved at the end");
    let saved = catch(|| i.save_to_buffer(f)).map_err(|e| Fail { sig: format!("save:{}", name), msg: format!("saving the result of {} as {}: {}", names.join(", "), name, e) })?;
    if let Ok(b) = saved {
        let want = near.save_to_buffer(f2);
        // luma is taken before values are bounded, and lossy WebP truncates
        let exact = match &f3 {
            EncodingFormat::Jpeg { grayscale, .. } => !grayscale,
            EncodingFormat::WebP { preset, .. } => *preset == d10::WebPPreset::Lossless,
            _ => !name.contains(" l"),
        };
        c.evals(exact as u64);
        ensure!(!exact || want.as_ref().ok() == Some(&b), format!("save:{}:range", name), "{} after {} differs from the file of the image clamped to [0, 1]", name, names.join(", "));
        let back = catch(|| Image::read_from_buffer(&b)).map_err(|e| Fail { sig: format!("read:{}", name), msg: e })?;
        let back = match back {
            Ok(b) => b,
            Err(e) => return fail(format!("read:{}", name), format!("{} saved after {} cannot be read: {}", name, names.join(", "), e)),
        };
        ensure!((back.width(), back.height()) == (i.width(), i.height()), format!("read:{}", name), "size");
    }
    Ok(())
}

/// One colour far outside or at the borders of the range
fn color(c: &mut Case) -> R {
    use d10_core::color::*;
    let r = &mut c.rng;
    let scale = *r.pick(&[0.001f32, 0.1, 1.0, 1.5, 10.0, 1000.0]);
    let e = 1.0 / 32768.0;
    let v = |r: &mut Rng| match r.usize(8) {
        0 => 0.0,
        1 => *r.pick(&[1.0, -1.0, -0.0, e, -e, 1.0 + e, 1.0 - e, 0.5]),
        _ => r.uniform(-scale, scale),
    };
    let mut d = [v(r), v(r), v(r), r.uniform(-0.2, 1.2)];
    match r.usize(10) {
        0 => d[1] = -d[0],
        1 => d[2] = d[1],
        2 => d[2] = -d[0],
        3 => d = [d[0], d[0], d[0], d[3]],
        4 => {
            d.iter_mut().take(3).for_each(|v| *v += 1.0);
        }
        _ => {}
    }
    let rgb = Rgb { data: d };
    let (x, y, g) = (r.uniform(0.05, 3.0), r.f32(), *r.pick(&["average", "rec601luma", "rec709luma", "brightness", "lightness", "saturation", "red", "green", "blue"]));
    c.desc(format!("{:?} x={} y={} {}", d, x, y, g));
    c.distinct(&(gen::cbits(&rgb), x.to_bits(), y.to_bits()));
    c.count(if d[..3].iter().all(|v| (0.0..=1.0).contains(v)) { "colours in range" } else { "colours out of range" });
    for m in 0..19 {
        let o = color_step(&rgb, m, x, y, g.parse().unwrap());
        c.eval();
        ensure!(o.data.iter().all(|v| v.is_finite()), format!("colour:{}", m), "adjustment {} (x={} y={} {}) of {:?} gives {:?}", m, x, y, g, d, o.data);
        if !matches!(m, 13 | 14) {
            ensure!(o.data[..3].iter().all(|v| (-1e-6..=1.0 + 1e-6).contains(v)), format!("colour:{}:range", m), "adjustment {} (x={} y={} {}) of {:?} gives {:?}", m, x, y, g, d, o.data);
        }
    }
    let p = |o: &dyn Fn() -> (Vec<f32>, Rgb), n: &str, c: &mut Case| -> R {
        let (raw, back) = o();
        c.eval();
        ensure!(raw.iter().chain(&back.data).all(|v| v.is_finite()), format!("to:{}", n), "{:?} as {} is {:?}, {:?} converted back", d, n, raw, back.data);
        Ok(())
    };
    p(&|| { let o = rgb.to_srgb(); (o.data().to_vec(), o.to_rgb()) }, "srgb", c)?;
    p(&|| { let o = rgb.to_hsl(); (o.data().to_vec(), o.to_rgb()) }, "hsl", c)?;
    p(&|| { let o = rgb.to_hsv(); (o.data().to_vec(), o.to_rgb()) }, "hsv", c)?;
    p(&|| { let o = rgb.to_yuv(); (o.data().to_vec(), o.to_rgb()) }, "yuv", c)?;
    p(&|| { let o = rgb.to_xyz(); (o.data().to_vec(), o.to_rgb()) }, "xyz", c)?;
    p(&|| { let o = rgb.to_lab::<illuminant::D65, observer::O2>(); (o.data().to_vec(), o.to_rgb()) }, "lab", c)?;
    p(&|| { let o = rgb.to_lab::<illuminant::D50, observer::O10>(); (o.data().to_vec(), o.to_rgb()) }, "lab", c)?;
    p(&|| { let o = rgb.to_lch::<illuminant::E, observer::O2>(); (o.data().to_vec(), o.to_rgb()) }, "lch", c)?;
    // the components of another space, whatever they are
    let k = [d[0], d[1], d[2], 1.0];
    let q = [d[0], d[1].abs(), d[2], 1.0];
    for (n, o) in [
        ("srgb", Srgb { data: k }.to_rgb()),
        ("hsl", Hsl { data: k }.to_rgb()),
        ("hsv", Hsv { data: q }.to_rgb()),
        ("yuv", Yuv { data: k }.to_rgb()),
        ("xyz", Xyz { data: k }.to_rgb()),
        ("lab", Lab::<illuminant::D50, observer::O2>::new(k[0], k[1], k[2]).to_rgb()),
        ("lch", Lch::<illuminant::D65, observer::O2>::new(k[0], k[1], k[2]).to_rgb()),
    ] {
        c.eval();
        ensure!(o.data.iter().all(|v| v.is_finite()), format!("from:{}", n), "{} {:?} as Rgb is {:?}", n, k, o.data);
    }
    Ok(())
}

trait IntoImg {
    fn into_img(self) -> Image;
}
impl IntoImg for gen::Buf {
    fn into_img(self) -> Image {
        Image::new_from_buffer(self)
    }
}

pub fn c32(m: &mut Mon) {
    m.rule = "each image of a random program of operations, adjustments and conversions is inspected after every step; non-trivial: distinct programs".into();
    let n = m.n(1_000_000, 20);
    m.cases("colours", n, color);
    let n = m.n(60_000, 20);
    m.cases("chains", n, chain);
}
