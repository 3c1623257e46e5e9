//! C01 - C05: file formats
use crate::ensure;
use crate::fmts::*;
use crate::fw::*;
use crate::gen;
use crate::gen::Buf;
use crate::refimpl as rf;
use d10::{BmpColorType, EncodingFormat, IcoColorType, Image, JpegSamplingFactor, PngColorType, PngCompression, PngFilterType, WebPPreset};
use d10_codecs::Format;
use d10_core::color::*;
use std::io::Write;

pub const PNG_TYPES: [(PngColorType, &str, usize, u32); 8] = [
    (PngColorType::L8, "l8", 1, 8),
    (PngColorType::La8, "la8", 2, 8),
    (PngColorType::L16, "l16", 1, 16),
    (PngColorType::La16, "la16", 2, 16),
    (PngColorType::Rgb8, "rgb8", 3, 8),
    (PngColorType::Rgba8, "rgba8", 4, 8),
    (PngColorType::Rgb16, "rgb16", 3, 16),
    (PngColorType::Rgba16, "rgba16", 4, 16),
];
pub const BMP_TYPES: [(BmpColorType, &str, usize); 4] = [(BmpColorType::L8, "l8", 1), (BmpColorType::La8, "la8", 2), (BmpColorType::Rgb8, "rgb8", 3), (BmpColorType::Rgba8, "rgba8", 4)];
pub const ICO_TYPES: [(IcoColorType, &str, usize); 4] = [(IcoColorType::L8, "l8", 1), (IcoColorType::La8, "la8", 2), (IcoColorType::Rgb8, "rgb8", 3), (IcoColorType::Rgba8, "rgba8", 4)];
pub const COMPRESSIONS: [PngCompression; 3] = [PngCompression::Default, PngCompression::Fast, PngCompression::Best];
pub const FILTERS: [PngFilterType; 5] = [PngFilterType::NoFilter, PngFilterType::Sub, PngFilterType::Up, PngFilterType::Avg, PngFilterType::Paeth];
pub const PRESETS: [WebPPreset; 7] = [WebPPreset::Default, WebPPreset::Picture, WebPPreset::Photo, WebPPreset::Drawing, WebPPreset::Icon, WebPPreset::Text, WebPPreset::Lossless];
pub const SAMPLINGS: [(JpegSamplingFactor, u8, u8); 16] = [
    (JpegSamplingFactor::F_1_1, 1, 1),
    (JpegSamplingFactor::F_2_1, 2, 1),
    (JpegSamplingFactor::F_1_2, 1, 2),
    (JpegSamplingFactor::F_2_2, 2, 2),
    (JpegSamplingFactor::F_4_1, 4, 1),
    (JpegSamplingFactor::F_4_2, 4, 2),
    (JpegSamplingFactor::F_1_4, 1, 4),
    (JpegSamplingFactor::F_2_4, 2, 4),
    (JpegSamplingFactor::R_4_4_4, 1, 1),
    (JpegSamplingFactor::R_4_4_0, 1, 2),
    (JpegSamplingFactor::R_4_4_1, 1, 4),
    (JpegSamplingFactor::R_4_2_2, 2, 1),
    (JpegSamplingFactor::R_4_2_0, 2, 2),
    (JpegSamplingFactor::R_4_2_1, 2, 4),
    (JpegSamplingFactor::R_4_1_1, 4, 1),
    (JpegSamplingFactor::R_4_1_0, 4, 2),
];

/// A lossless option: name, encoding, stored channels and depth
#[derive(Clone)]
pub struct Opt {
    pub name: String,
    pub fmt: EncodingFormat,
    pub ch: usize,
    pub depth: u32,
}

pub fn png_opt(t: usize, c: usize, f: usize) -> Opt {
    let (color_type, n, ch, depth) = PNG_TYPES[t];
    Opt { name: format!("png {}", n), fmt: EncodingFormat::Png { color_type, compression: COMPRESSIONS[c], filter: FILTERS[f] }, ch, depth }
}

/// Any option that stores levels exactly (grey ones included if `grey`)
pub fn lossless_opt(r: &mut Rng, grey: bool) -> Opt {
    loop {
        let o = match r.usize(8) {
            0..=3 => png_opt(r.usize(8), r.usize(3), r.usize(5)),
            4 => {
                let (color_type, n, ch) = *r.pick(&BMP_TYPES);
                Opt { name: format!("bmp {}", n), fmt: EncodingFormat::Bmp { color_type }, ch, depth: 8 }
            }
            5 => {
                let (color_type, n, ch) = *r.pick(&ICO_TYPES);
                Opt { name: format!("ico {}", n), fmt: EncodingFormat::Ico { color_type }, ch, depth: 8 }
            }
            _ => Opt { name: "webp lossless".into(), fmt: EncodingFormat::WebP { quality: r.below(256) as u8, preset: WebPPreset::Lossless }, ch: 4, depth: 8 },
        };
        if grey || o.ch >= 3 {
            return o;
        }
    }
}

/// Levels stored in a file, read without the library
pub fn stored(fmt: Format, b: &[u8]) -> Result<Raw, String> {
    match fmt {
        Format::Png => Ok(png_read(b)?.raw),
        Format::Bmp => Ok(bmp_read(b)?.raw),
        Format::Ico => {
            let i = ico_read(b)?;
            if (i.w, i.h) != (i.png.raw.w, i.png.raw.h) {
                return Err("directory entry and image differ in size".into());
            }
            Ok(i.png.raw)
        }
        Format::WebP => webp_read(b),
        Format::Gif => gif_read(b),
        Format::Jpeg => jpeg_read(b),
    }
}

fn in01(v: f64) -> f64 {
    v.clamp(0.0, 1.0)
}

/// Exact sRGB values (rgba) an option should store for a pixel
fn target(p: &[f32; 4], ch: usize) -> [f64; 4] {
    let c = rf::p(p);
    let a = in01(c[3]);
    match ch {
        1 | 2 => {
            let l = in01(rf::gam(rf::luma(&c)));
            [l, l, l, if ch == 2 { a } else { 1.0 }]
        }
        _ => {
            let f = |v: f64| in01(rf::gam(v));
            [f(c[0]), f(c[1]), f(c[2]), if ch == 4 { a } else { 1.0 }]
        }
    }
}

fn is_webp(o: &Opt) -> bool {
    matches!(o.fmt, EncodingFormat::WebP { .. })
}

/// The stored levels are the nearest ones; returns the worst distance in levels
fn check_levels(c: &mut Case, what: &str, b: &Buf, raw: &Raw, o: &Opt, slack: f64) -> R {
    ensure!((raw.w, raw.h) == (b.width(), b.height()), format!("{}:size", what), "{}: stored size {}x{}", o.name, raw.w, raw.h);
    ensure!(raw.depth == o.depth || raw.ch == 0, format!("{}:depth", what), "{}: {} bit", o.name, raw.depth);
    let m = ((1u32 << o.depth) - 1) as f64;
    for (i, p) in b.data().iter().enumerate() {
        let t = target(&p.data, o.ch);
        let s = raw.rgba(i);
        let skip = is_webp(o) && s[3] == 0.0;
        for k in 0..4 {
            if skip && k < 3 {
                continue;
            }
            let d = (s[k] - t[k]).abs() * m;
            c.max(&format!("levels off ({} bit)", o.depth), d);
            ensure!(d <= 0.5 + slack, what, "{}: pixel {} channel {} of {:?} stored as level {} of {}, exact value {:.4}", o.name, i, k, p.data, s[k] * m, m, t[k] * m);
        }
    }
    c.evals(b.data().len() as u64);
    Ok(())
}

/// What reading a file with these levels must give
fn check_read(c: &mut Case, what: &str, img: &Image, px: impl Fn(usize) -> [f64; 4], w: u32, h: u32, tol: f64, skip_transparent: bool) -> R {
    ensure!((img.width(), img.height()) == (w, h), format!("{}:size", what), "read as {}x{} instead of {}x{}", img.width(), img.height(), w, h);
    ensure!(img.data().len() == w as usize * h as usize, format!("{}:len", what), "{} pixels", img.data().len());
    for (i, p) in img.data().iter().enumerate() {
        let s = px(i);
        for k in 0..4 {
            if k < 3 && skip_transparent && s[3] == 0.0 {
                continue;
            }
            // compare in sRGB, where the tolerance is uniform
            let v = if k < 3 { rf::gam(p.data[k] as f64) } else { p.data[k] as f64 };
            let d = (v - s[k]).abs();
            c.max("read back", d);
            ensure!(d <= 2e-6 + tol, what, "pixel {} channel {} reads as {} (sRGB {}), expected sRGB {}", i, k, p.data[k], v, s[k]);
        }
    }
    c.evals(img.data().len() as u64);
    Ok(())
}

fn save(img: &Image, o: &Opt) -> Result<Vec<u8>, Fail> {
    match img.save_to_buffer(o.fmt.clone()) {
        Ok(b) => Ok(b),
        Err(e) => fail("save", format!("saving {} ({}x{}) fails: {}", o.name, img.width(), img.height(), e)),
    }
}
fn open(b: &[u8], o: &str) -> Result<Image, Fail> {
    match read_catch(b)? {
        Ok(i) => Ok(i),
        Err(e) => fail("open", format!("{}: reading the saved file fails: {}", o, e)),
    }
}

fn fits(o: &Opt, w: u32, h: u32) -> bool {
    match o.fmt {
        EncodingFormat::Ico { .. } => w <= 256 && h <= 256,
        EncodingFormat::WebP { .. } => w <= 16383 && h <= 16383,
        _ => true,
    }
}

fn round_trip(c: &mut Case, b: &Buf, o: &Opt, cycles: usize, via_file: Option<&TempDir>) -> R {
    let slack = if o.depth == 8 { 2e-3 } else { 0.15 };
    let img = Image::new_from_buffer(b.clone());
    let bytes = match via_file {
        Some(d) => {
            let p = d.path("f");
            ensure!(img.save_with_format(&p, o.fmt.clone()).is_ok(), "save", "{}: save_with_format fails", o.name);
            std::fs::read(&p).unwrap_or_default()
        }
        None => save(&img, o)?,
    };
    let raw = match stored(o.fmt.format(), &bytes) {
        Ok(r) => r,
        Err(e) => return fail("independent read", format!("{}: an independent reader refuses the file: {}", o.name, e)),
    };
    check_levels(c, "nearest level", b, &raw, o, slack)?;
    let first = match via_file {
        Some(d) => match Image::open(d.path("f")) {
            Ok(i) => i,
            Err(e) => return fail("open", format!("{}: {}", o.name, e)),
        },
        None => open(&bytes, &o.name)?,
    };
    check_read(c, "read back", &first, |i| raw.rgba(i), raw.w, raw.h, 0.0, false)?;
    if o.ch == 3 || o.ch == 1 {
        ensure!(first.data().iter().all(|p| p.data[3] == 1.0), "opaque", "{}: not opaque", o.name);
    }
    let mut cur = first.clone();
    for k in 0..cycles {
        let again = save(&cur, o)?;
        let next = open(&again, &o.name)?;
        c.evals(1);
        for (i, (p, q)) in next.data().iter().zip(cur.data()).enumerate() {
            if is_webp(o) && p.data[3] == 0.0 && q.data[3] == 0.0 {
                continue;
            }
            ensure!((0..4).all(|k| (p.data[k] - q.data[k]).abs() <= 2e-7), "generation loss", "{}: cycle {}: pixel {} {:?} became {:?}", o.name, k + 2, i, q.data, p.data);
        }
        let r2 = match stored(o.fmt.format(), &again) {
            Ok(r) => r,
            Err(e) => return fail("independent read", format!("{}: {}", o.name, e)),
        };
        ensure!((0..raw.len()).all(|i| r2.rgba(i) == raw.rgba(i) || is_webp(o) && r2.rgba(i)[3] == 0.0 && raw.rgba(i)[3] == 0.0), "generation loss", "{}: cycle {}: the stored levels changed", o.name, k + 2);
        cur = next;
    }
    Ok(())
}

/// Add out-of-range values to an image
pub fn hostile(r: &mut Rng, b: Buf) -> Buf {
    if !r.chance(0.15) {
        return b;
    }
    let (w, h) = (b.width(), b.height());
    let d = b.data().iter().map(|p| {
        let mut p = *p;
        if r.chance(0.4) {
            p.data[r.usize(4)] = *r.pick(&[-0.1f32, 1.1, -5.0, 7.0, -1e-7, 1.0000001, 1e9, -1e9, f32::INFINITY, f32::NEG_INFINITY]);
        }
        p
    }).collect();
    Buf::new_from_raw(w, h, d)
}

pub fn c01(m: &mut Mon) {
    m.rule = "files of every lossless option read back by an independent reader (own PNG/BMP/ICO parsers, libwebp called directly) and by the library: stored level nearest to the exact value, read values equal the stored levels, repeated cycles change nothing; all 256 and 65536 levels swept; non-trivial: distinct non-uniform image and option".into();
    m.assumptions.push("the colour under fully transparent pixels of WebP files is exempt (libwebp's documented non-exact mode)".into());
    // every 8 bit level, one channel at a time
    let n8 = 4 * 8;
    m.cases("levels 8 bit", n8, |c| {
        let k = (c.n % 4) as usize;
        let b = Buf::new_from_func(16, 16, |x, y| {
            let mut v = [0.2f32, 0.5, 0.7, 1.0];
            v[k] = (x + 16 * y) as f32 / 255.0;
            Srgb { data: v }.to_rgb()
        });
        let o = match c.n / 4 {
            0 => png_opt(5, 0, 1),
            1 => png_opt(4, 1, 4),
            2 => Opt { name: "bmp rgba8".into(), fmt: EncodingFormat::Bmp { color_type: BmpColorType::Rgba8 }, ch: 4, depth: 8 },
            3 => Opt { name: "bmp rgb8".into(), fmt: EncodingFormat::Bmp { color_type: BmpColorType::Rgb8 }, ch: 3, depth: 8 },
            4 => Opt { name: "ico rgba8".into(), fmt: EncodingFormat::Ico { color_type: IcoColorType::Rgba8 }, ch: 4, depth: 8 },
            5 => Opt { name: "ico rgb8".into(), fmt: EncodingFormat::Ico { color_type: IcoColorType::Rgb8 }, ch: 3, depth: 8 },
            6 => Opt { name: "webp lossless".into(), fmt: EncodingFormat::WebP { quality: 90, preset: WebPPreset::Lossless }, ch: 4, depth: 8 },
            _ => png_opt(7, 2, 3),
        };
        c.desc(format!("all levels of channel {} through {}", k, o.name));
        c.distinct(&(k, o.name.clone()));
        c.count(&format!("option {}", o.name));
        round_trip(c, &b, &o, 3, None)
    });
    m.cases("levels 16 bit", 8, |c| {
        let k = (c.n % 4) as usize;
        let o = png_opt(if c.n < 4 { 7 } else { 6 }, 1, 1);
        let b = Buf::new_from_func(256, 256, |x, y| {
            let mut v = [0.2f32, 0.5, 0.7, 1.0];
            v[k] = (x + 256 * y) as f32 / 65535.0;
            Srgb { data: v }.to_rgb()
        });
        c.desc(format!("all 65536 levels of channel {} through {}", k, o.name));
        c.distinct(&(k, o.name.clone()));
        round_trip(c, &b, &o, 2, None)
    });
    let n = m.n(3 * (12_000), 15);
    m.cases("images", n, |c| {
        let max = if c.rng.chance(0.05) { 150 } else { 24 };
        let b = gen::image(&mut c.rng, max);
        let b = hostile(&mut c.rng, b);
        let mut o = lossless_opt(&mut c.rng, false);
        while !fits(&o, b.width(), b.height()) {
            o = lossless_opt(&mut c.rng, false);
        }
        c.desc(format!("{} {}", o.name, gen::describe(&b)));
        c.count(&format!("option {}", o.name));
        if gen::nontrivial(&b) {
            c.distinct(&(gen::bits(&b), o.name.clone()));
        }
        let cycles = 1 + c.rng.usize(3);
        if c.rng.chance(0.05) {
            let d = TempDir::new("c01");
            return round_trip(c, &b, &o, cycles, Some(&d));
        }
        round_trip(c, &b, &o, cycles, None)
    });
    // an image read from an 8 bit file survives every other lossless rgba option
    let n = m.n(3 * (1_500), 15);
    m.cases("format chains", n, |c| {
        let b = gen::image(&mut c.rng, 24);
        let start = png_opt(5, 0, 1);
        let mut cur = open(&save(&Image::new_from_buffer(b.clone()), &start)?, "png rgba8")?;
        let orig = cur.clone();
        let mut names = vec![];
        let mut webp = false;
        for _ in 0..2 + c.rng.usize(4) {
            let mut o = lossless_opt(&mut c.rng, false);
            while o.ch != 4 {
                o = lossless_opt(&mut c.rng, false);
            }
            webp |= is_webp(&o);
            names.push(o.name.clone());
            cur = open(&save(&cur, &o)?, &o.name)?;
        }
        c.desc(format!("{:?} {}", names, gen::describe(&b)));
        c.distinct(&(gen::bits(&b), names.clone()));
        c.evals(b.data().len() as u64);
        for (i, (p, q)) in cur.data().iter().zip(orig.data()).enumerate() {
            if webp && q.data[3] == 0.0 && p.data[3] == 0.0 {
                continue;
            }
            ensure!((0..4).all(|k| (p.data[k] - q.data[k]).abs() <= 1e-6), "format chain", "after {:?} pixel {} {:?} became {:?}", names, i, q.data, p.data);
        }
        Ok(())
    });
    // sizes at the edges of row padding, filters and format limits
    let n = m.n(3 * (60), 10);
    m.cases("large", n, |c| {
        let (w, h) = match c.rng.usize(6) {
            0 => (1, 1 + c.rng.below(3000) as u32),
            1 => (1 + c.rng.below(3000) as u32, 1),
            2 => (256, 256),
            3 => (255, 1 + c.rng.below(300) as u32),
            4 => (300 + c.rng.below(400) as u32, 1 + c.rng.below(40) as u32),
            _ => (1 + c.rng.below(400) as u32, 1 + c.rng.below(400) as u32),
        };
        let kind = c.rng.usize(gen::KINDS);
        let b = gen::image_kind(&mut c.rng, w, h, kind);
        let mut o = lossless_opt(&mut c.rng, false);
        while !fits(&o, w, h) {
            o = lossless_opt(&mut c.rng, false);
        }
        c.desc(format!("{} {}", o.name, gen::describe(&b)));
        c.distinct(&(w, h, kind, o.name.clone()));
        round_trip(c, &b, &o, 1, None)
    });
    // more than 2^20 pixels
    let n = m.n(6, 6);
    m.cases("huge", n, |c| {
        let b = gen::huge_file(|| gen::image(&mut c.rng, 24));
        let o = match c.n % 6 {
            0 => png_opt(5, 0, 1),
            1 => Opt { name: "bmp rgba8".into(), fmt: EncodingFormat::Bmp { color_type: BmpColorType::Rgba8 }, ch: 4, depth: 8 },
            2 => Opt { name: "bmp rgb8".into(), fmt: EncodingFormat::Bmp { color_type: BmpColorType::Rgb8 }, ch: 3, depth: 8 },
            3 => Opt { name: "webp lossless".into(), fmt: EncodingFormat::WebP { quality: 90, preset: WebPPreset::Lossless }, ch: 4, depth: 8 },
            4 => png_opt(7, 1, 1),
            _ => png_opt(4, 1, 4),
        };
        c.desc(format!("{} {}", o.name, gen::describe(&b)));
        c.distinct(&(b.width(), b.height(), o.name.clone()));
        round_trip(c, &b, &o, 1, None)
    });
}

// ------------------------------------------------------------------------------------------- C02

fn err_stats(raw: &Raw, b: &Buf, ch: usize) -> (f64, f64) {
    // mean and max deviation in levels over the colour channels
    let (mut s, mut m, mut n) = (0f64, 0f64, 0f64);
    for (i, p) in b.data().iter().enumerate() {
        let t = target(&p.data, ch);
        let r = raw.rgba(i);
        for k in 0..3 {
            let d = (r[k] - t[k]).abs() * 255.0;
            s += d;
            n += 1.0;
            m = m.max(d);
        }
    }
    (if n > 0.0 { s / n } else { 0.0 }, m)
}

fn indep(fmt: Format, b: &[u8], what: &str) -> Result<Raw, Fail> {
    stored(fmt, b).or_else(|e| fail("independent read", format!("{}: an independent reader refuses the file: {}", what, e)))
}

/// library and independent reader agree on the file
fn agree(c: &mut Case, what: &str, bytes: &[u8], raw: &Raw, tol: f64) -> Result<Image, Fail> {
    let img = open(bytes, what)?;
    check_read(c, "readers agree", &img, |i| raw.rgba(i), raw.w, raw.h, tol, false)?;
    Ok(img)
}

fn c02_png(c: &mut Case) -> R {
    let k = c.n as usize % 120;
    let (t, z, f) = (k % 8, k / 8 % 3, k / 24);
    let o = png_opt(t, z, f);
    let b = if c.rng.chance(0.3) { gen::image(&mut c.rng, 40) } else { gen::image(&mut c.rng, 12) };
    let b = hostile(&mut c.rng, b);
    c.desc(format!("{} filter {} compression {} {}", o.name, f, z, gen::describe(&b)));
    c.distinct(&(k, gen::bits(&b)));
    let img = Image::new_from_buffer(b.clone());
    let bytes = save(&img, &o)?;
    let p = match png_read(&bytes) {
        Ok(p) => p,
        Err(e) => return fail("png:invalid", format!("{}: {}", o.name, e)),
    };
    c.evals(5);
    ensure!(p.color_type == [0, 0, 4, 2, 6][o.ch] && p.bit_depth as u32 == o.depth && p.interlace == 0, "png:type", "{}: IHDR has colour type {} depth {}", o.name, p.color_type, p.bit_depth);
    ensure!((p.raw.w, p.raw.h) == (b.width(), b.height()), "png:size", "{}x{}", p.raw.w, p.raw.h);
    // (the encoder may fall back to plainly stored rows with the fast compression)
    ensure!(p.filters.iter().all(|v| *v as usize == f) || z == 1 && p.filters.iter().all(|v| *v == 0), "png:filter", "filter {} requested, rows have {:?}", f, p.filters);
    check_levels(c, "png:levels", &b, &p.raw, &o, if o.depth == 8 { 3e-3 } else { 0.25 })?;
    agree(c, &o.name, &bytes, &p.raw, 0.0)?;
    Ok(())
}

fn c02_bmp_ico(c: &mut Case) -> R {
    let k = c.n as usize % 8;
    let mut b = gen::image(&mut c.rng, 40);
    if k >= 4 && (b.width() > 256 || b.height() > 256) {
        b = d10_ops::crop(&b, 0, 0, 256, 256);
    }
    let b = hostile(&mut c.rng, b);
    let o = if k < 4 {
        let (color_type, n, ch) = BMP_TYPES[k];
        Opt { name: format!("bmp {}", n), fmt: EncodingFormat::Bmp { color_type }, ch, depth: 8 }
    } else {
        let (color_type, n, ch) = ICO_TYPES[k - 4];
        Opt { name: format!("ico {}", n), fmt: EncodingFormat::Ico { color_type }, ch, depth: 8 }
    };
    c.desc(format!("{} {}", o.name, gen::describe(&b)));
    c.distinct(&(k, gen::bits(&b)));
    let bytes = save(&Image::new_from_buffer(b.clone()), &o)?;
    c.eval();
    if k == 0 || k == 2 {
        let bpp = bmp_read(&bytes).map(|b| b.bpp).unwrap_or(0);
        ensure!(bpp == if k == 0 { 8 } else { 24 }, "bmp:bpp", "{}: {} bits per pixel", o.name, bpp);
    }
    let raw = indep(o.fmt.format(), &bytes, &o.name)?;
    check_levels(c, "bmp/ico:levels", &b, &raw, &o, 3e-3)?;
    let img = agree(c, &o.name, &bytes, &raw, 0.0)?;
    if o.ch == 1 || o.ch == 3 {
        ensure!(img.data().iter().all(|p| p.data[3] == 1.0), "bmp/ico:opaque", "{} is not opaque", o.name);
    }
    Ok(())
}

fn smooth(r: &mut Rng, w: u32, h: u32) -> Buf {
    let c0 = gen::opaque_color(r);
    let c1 = gen::opaque_color(r);
    // interpolated in sRGB, so that steps are small in the file's own terms
    let (s0, s1) = (c0.to_srgb(), c1.to_srgb());
    let n = (w + h).max(3) as f32 - 2.0;
    Buf::new_from_func(w, h, |x, y| {
        let t = (x + y) as f32 / n;
        Srgb::new(s0.data[0] + (s1.data[0] - s0.data[0]) * t, s0.data[1] + (s1.data[1] - s0.data[1]) * t, s0.data[2] + (s1.data[2] - s0.data[2]) * t).to_rgb()
    })
}

fn c02_jpeg(c: &mut Case) -> R {
    let quality = match c.rng.usize(6) {
        0 => *c.rng.pick(&[0u8, 1, 2, 89, 90, 99, 100, 101, 200, 255]),
        _ => c.rng.below(101) as u8,
    };
    let progressive = c.rng.bool();
    let s = c.rng.usize(17);
    let sampling_factor = if s == 16 { None } else { Some(SAMPLINGS[s].0) };
    let grayscale = c.rng.chance(0.3);
    let opt = c.rng.bool();
    let (w, h) = gen::dims(&mut c.rng, 70);
    let kind = c.rng.usize(3);
    let b = match kind {
        0 => {
            let q = gen::color(&mut c.rng);
            Buf::new_with_color(w, h, q)
        }
        1 => smooth(&mut c.rng, w, h),
        _ => {
            let k = c.rng.usize(gen::KINDS);
            gen::image_kind(&mut c.rng, w, h, k)
        }
    };
    let fmt = EncodingFormat::Jpeg { quality, progressive, sampling_factor, grayscale, optimize_huffman_tables: opt };
    let what = format!("jpeg q{} {}{}{} sampling {:?}", quality, if progressive { "progressive " } else { "" }, if grayscale { "grey " } else { "" }, if opt { "optimised" } else { "" }, sampling_factor);
    c.desc(format!("{} {}", what, gen::describe(&b)));
    c.distinct(&(quality, progressive, s, grayscale, opt, gen::bits(&b)));
    c.count(if kind == 0 { "jpeg uniform" } else if kind == 1 { "jpeg smooth" } else { "jpeg other" });
    let img = Image::new_from_buffer(b.clone());
    let o = Opt { name: what.clone(), fmt, ch: if grayscale { 1 } else { 3 }, depth: 8 };
    let bytes = save(&img, &o)?;
    let j = match jpeg_info(&bytes) {
        Ok(j) => j,
        Err(e) => return fail("jpeg:invalid", format!("{}: {}", what, e)),
    };
    c.evals(8);
    ensure!((j.w, j.h) == (w, h), "jpeg:size", "{}: {}x{}", what, j.w, j.h);
    ensure!((j.sof == 0xc2) == progressive && (j.sof == 0xc0 || j.sof == 0xc1 || j.sof == 0xc2), "jpeg:mode", "{}: SOF {:x}", what, j.sof);
    ensure!(j.comps.len() == if grayscale { 1 } else { 3 }, "jpeg:components", "{}: {} components", what, j.comps.len());
    ensure!(!progressive || j.scans > j.comps.len().min(2), "jpeg:scans", "{}: {} scans", what, j.scans);
    if let (false, true) = (grayscale, s < 16) {
        let (eh, ev) = (SAMPLINGS[s].1, SAMPLINGS[s].2);
        let (h0, v0, h1, v1, h2, v2) = (j.comps[0].1, j.comps[0].2, j.comps[1].1, j.comps[1].2, j.comps[2].1, j.comps[2].2);
        ensure!(h1 == h2 && v1 == v2 && h0 == eh * h1 && v0 == ev * v1, "jpeg:sampling", "{}: factors {:?}", what, j.comps);
    }
    // quantisation tables follow the quality
    let qq = quality.clamp(1, 100);
    let scale = if qq < 50 { 5000 / qq as u32 } else { 200 - 2 * qq as u32 };
    let luma0 = ((16 * scale + 50) / 100).clamp(1, 255) as f64;
    let lq = j.dqt.iter().find(|t| t.0 == j.comps[0].3).map(|t| t.1.clone());
    let lq = match lq {
        Some(q) => q,
        None => return fail("jpeg:dqt", "no luma quantisation table"),
    };
    ensure!((lq[0] as f64 - luma0).abs() <= 1.0 + luma0 * 0.02, "jpeg:quality", "{}: luma DC step {} instead of {}", what, lq[0], luma0);
    // the whole tables (Annex K, scaled), whatever their order in the file
    let expect = |t: &[u32; 64]| {
        let mut v: Vec<f64> = t.iter().map(|t| ((t * scale + 50) / 100).clamp(1, 255) as f64).collect();
        v.sort_by(f64::total_cmp);
        v
    };
    for (comp, std) in [(0usize, &K_LUMA), (1, &K_CHROMA)].into_iter().take(if grayscale { 1 } else { 2 }) {
        let mut got: Vec<f64> = j.dqt.iter().find(|t| t.0 == j.comps[comp].3).map(|t| t.1.iter().map(|v| *v as f64).collect()).unwrap_or_default();
        got.sort_by(f64::total_cmp);
        let want = expect(std);
        ensure!(got.len() == 64 && got.iter().zip(&want).all(|(g, w)| (g - w).abs() <= 1.0 + w * 0.005), "jpeg:quality", "{}: the steps of component {} are {:?} instead of {:?}", what, comp, got, want);
    }
    let raw = indep(Format::Jpeg, &bytes, &what)?;
    ensure!(raw.ch == if grayscale { 1 } else { 3 }, "jpeg:components", "{} channels", raw.ch);
    let back = agree(c, &what, &bytes, &raw, 0.0)?;
    ensure!(back.data().iter().all(|p| p.data[3] == 1.0), "jpeg:opaque", "not opaque");
    let (mean, max) = err_stats(&raw, &b, o.ch);
    let cq = if grayscale { 0.0 } else { j.dqt.iter().find(|t| t.0 == j.comps[1].3).map(|t| t.1[0] as f64).unwrap_or(255.0) };
    let bound = 3.0 + lq[0] as f64 / 16.0 + cq / 16.0 * 1.78;
    if kind == 0 {
        c.max("jpeg uniform error / bound", max / bound);
        ensure!(max <= bound, "jpeg:uniform", "{}: uniform {:?} is off by {:.1} levels (bound {:.1})", what, b.data()[0].data, max, bound);
    } else if kind == 1 && quality >= 10 && w.min(h) >= 24 {
        // chroma at a quarter of the resolution and single blocks lose more
        let coarse = if s < 16 && SAMPLINGS[s].1 * SAMPLINGS[s].2 > 2 { 12.0 } else { 4.0 };
        let mb = 6.0 + 2.2 * bound + coarse * if w + h < 48 { 2.0 } else { 1.0 };
        c.max("jpeg smooth mean error / bound", mean / mb);
        ensure!(mean <= mb, "jpeg:smooth", "{}: mean error {:.1} levels (bound {:.1})", what, mean, mb);
    }
    // optimising the Huffman tables must not change the picture
    let other = Opt { name: what.clone(), fmt: EncodingFormat::Jpeg { quality, progressive, sampling_factor, grayscale, optimize_huffman_tables: !opt }, ch: o.ch, depth: 8 };
    let b2 = save(&img, &other)?;
    let r2 = indep(Format::Jpeg, &b2, &what)?;
    c.evals(2);
    ensure!(r2 == raw, "jpeg:huffman", "{}: optimised tables change the pixels", what);
    let (on, off) = if opt { (bytes.len(), b2.len()) } else { (b2.len(), bytes.len()) };
    ensure!(on <= off + 16, "jpeg:huffman", "{}: optimised file has {} bytes, plain {}", what, on, off);
    let std_dc = [0u8, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0];
    let plain = jpeg_info(if opt { &b2 } else { &bytes }).unwrap_or(j.clone());
    if !progressive {
        ensure!(plain.dht.iter().any(|t| t.0 == 0 && t.1[..16] == std_dc), "jpeg:huffman", "{}: without optimisation the standard tables are expected", what);
        if kind == 2 && w * h > 200 && gen::nontrivial(&b) {
            ensure!(on < off, "jpeg:huffman", "{}: optimisation has no effect ({} bytes)", what, on);
        }
    }
    Ok(())
}

const K_LUMA: [u32; 64] = [16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62, 18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92, 49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99];
const K_CHROMA: [u32; 64] = [17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99, 24, 26, 56, 99, 99, 99, 99, 99, 47, 66, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99];

fn c02_quality(c: &mut Case) -> R {
    // error shrinks (and never grows noticeably) with quality
    let w = 24 + c.rng.below(40) as u32;
    let h = 24 + c.rng.below(40) as u32;
    let b = if c.rng.bool() { smooth(&mut c.rng, w, h) } else { gen::image_kind(&mut c.rng, w, h, 7) };
    let img = Image::new_from_buffer(b.clone());
    let webp = c.rng.bool();
    let preset = *c.rng.pick(&PRESETS[..6]);
    let gray = c.rng.chance(0.3) && !webp;
    let prog = c.rng.bool();
    c.desc(format!("quality ladder {} {}", if webp { format!("webp {:?}", preset) } else { "jpeg".into() }, gen::describe(&b)));
    c.distinct(&(webp, gen::bits(&b)));
    let mut prev: Option<(u8, f64, u64)> = None;
    for quality in [5u8, 25, 50, 75, 95, 100] {
        let fmt = if webp {
            EncodingFormat::WebP { quality, preset }
        } else {
            EncodingFormat::Jpeg { quality, progressive: prog, sampling_factor: Some(JpegSamplingFactor::F_1_1), grayscale: gray, optimize_huffman_tables: true }
        };
        let o = Opt { name: format!("{:?}", fmt), fmt, ch: if gray { 1 } else { 3 }, depth: 8 };
        let bytes = save(&img, &o)?;
        let raw = indep(o.fmt.format(), &bytes, &o.name)?;
        let (mean, _) = err_stats(&raw, &b, o.ch);
        let q = if webp { 0 } else { jpeg_info(&bytes).map(|j| j.dqt.iter().flat_map(|t| t.1.iter()).map(|v| *v as u64).sum()).unwrap_or(0) };
        c.evals(2);
        let bound = if webp { [28.0, 20.0, 16.0, 14.0, 13.0, 12.0] } else { [36.0, 15.0, 10.0, 8.0, 6.0, 4.0] }[[5, 25, 50, 75, 95, 100].iter().position(|v| *v == quality).unwrap()];
        c.max(&format!("{} q{} mean error", if webp { "webp" } else { "jpeg" }, quality), mean);
        ensure!(mean <= bound, "lossy:mean", "{}: mean error {:.2} levels (bound {})", o.name, mean, bound);
        if let Some((pq, pm, ps)) = prev {
            let slack = if webp { 4.0 } else { 1.0 };
            ensure!(mean <= pm + slack, "lossy:quality", "{}: mean error {:.2} at quality {} but {:.2} at {}", o.name, mean, quality, pm, pq);
            ensure!(webp || q <= ps, "lossy:quality", "{}: quantisation steps grow from {} to {}", o.name, ps, q);
        }
        prev = Some((quality, mean, q));
    }
    // qualities beyond the scale behave like 100
    let f = |quality| if webp { EncodingFormat::WebP { quality, preset } } else { EncodingFormat::jpeg_with_quality(quality) };
    let (a, b) = (img.save_to_buffer(f(100)), img.save_to_buffer(f(101 + c.rng.below(155) as u8)));
    c.eval();
    ensure!(matches!((a, b), (Ok(a), Ok(b)) if a == b), "lossy:clamp", "a quality above 100 is not treated like 100");
    Ok(())
}

/// libwebp driven directly with the documented configuration
pub fn webp_reference(b: &Buf, quality: u8, preset: WebPPreset, rounded: bool) -> Option<Vec<u8>> {
    use libwebp_sys as l;
    unsafe extern "C" fn wr(d: *const u8, n: usize, p: *const l::WebPPicture) -> std::os::raw::c_int {
        let v = &mut *((*p).custom_ptr as *mut Vec<u8>);
        v.extend_from_slice(std::slice::from_raw_parts(d, n));
        1
    }
    unsafe {
        let q = quality.min(100) as f32;
        let p = match preset {
            WebPPreset::Default | WebPPreset::Lossless => l::WebPPreset::WEBP_PRESET_DEFAULT,
            WebPPreset::Picture => l::WebPPreset::WEBP_PRESET_PICTURE,
            WebPPreset::Photo => l::WebPPreset::WEBP_PRESET_PHOTO,
            WebPPreset::Drawing => l::WebPPreset::WEBP_PRESET_DRAWING,
            WebPPreset::Icon => l::WebPPreset::WEBP_PRESET_ICON,
            WebPPreset::Text => l::WebPPreset::WEBP_PRESET_TEXT,
        };
        let cfg = l::WebPConfig::new_with_preset(p, q).ok()?;
        let mut pic = l::WebPPicture::new().ok()?;
        let lv = |v: f32| (if rounded { (v * 255.0 - 0.5).ceil() } else { v * 255.0 }).clamp(0.0, 255.0) as u32;
        let mut argb: Vec<u32> = b
            .data()
            .iter()
            .map(|c| {
                let s = c.to_srgb().data;
                lv(s[3]) << 24 | lv(s[0]) << 16 | lv(s[1]) << 8 | lv(s[2])
            })
            .collect();
        let mut out: Vec<u8> = vec![];
        pic.use_argb = 1;
        pic.width = b.width() as i32;
        pic.height = b.height() as i32;
        pic.argb = argb.as_mut_ptr();
        pic.argb_stride = b.width() as i32;
        pic.writer = Some(wr);
        pic.custom_ptr = &mut out as *mut _ as *mut std::ffi::c_void;
        let ok = l::WebPEncode(&cfg, &mut pic);
        l::WebPPictureFree(&mut pic);
        if ok != 0 {
            Some(out)
        } else {
            None
        }
    }
}

fn c02_webp(c: &mut Case) -> R {
    let preset = *c.rng.pick(&PRESETS);
    let quality = if c.rng.chance(0.2) { *c.rng.pick(&[0u8, 1, 100, 101, 255]) } else { c.rng.below(101) as u8 };
    let (w, h) = gen::dims(&mut c.rng, 48);
    let kind = c.rng.usize(3);
    let b = match kind {
        0 => {
            let q = gen::opaque_color(&mut c.rng);
            Buf::new_with_color(w, h, q)
        }
        1 => smooth(&mut c.rng, w, h),
        _ => {
            let k = c.rng.usize(gen::KINDS);
            gen::image_kind(&mut c.rng, w, h, k)
        }
    };
    let lossless = preset == WebPPreset::Lossless;
    let o = Opt { name: format!("webp {:?} q{}", preset, quality), fmt: EncodingFormat::WebP { quality, preset }, ch: 4, depth: 8 };
    c.desc(format!("{} {}", o.name, gen::describe(&b)));
    c.distinct(&(quality, format!("{:?}", preset), gen::bits(&b)));
    c.count(&format!("webp {:?}", preset));
    let bytes = save(&Image::new_from_buffer(b.clone()), &o)?;
    c.evals(3);
    match webp_kind(&bytes) {
        Err(e) => return fail("webp:invalid", format!("{}: {}", o.name, e)),
        Ok(k) => ensure!((k == "lossless") == lossless, "webp:kind", "{} wrote a {} file", o.name, k),
    }
    let raw = indep(Format::WebP, &bytes, &o.name)?;
    ensure!((raw.w, raw.h) == (w, h), "webp:size", "{}x{}", raw.w, raw.h);
    agree(c, &o.name, &bytes, &raw, 0.0)?;
    // alpha is stored without loss by all presets (up to the truncation of lossy files)
    for (i, p) in b.data().iter().enumerate() {
        let d = (raw.rgba(i)[3] - in01(p.data[3] as f64)).abs() * 255.0;
        ensure!(d <= 1.01, "webp:alpha", "{}: alpha of pixel {} {} stored as {}", o.name, i, p.data[3], raw.rgba(i)[3]);
    }
    if !lossless {
        let (mean, max) = err_stats(&raw, &b, 3);
        if kind == 0 {
            let bound = 10.0 + (100 - quality.min(100)) as f64 * 0.3;
            c.max("webp uniform error / bound", max / bound);
            ensure!(max <= bound, "webp:uniform", "{}: uniform {:?} off by {:.1} levels", o.name, b.data()[0].data, max);
        } else if kind == 1 && w.min(h) >= 24 {
            let bound = 14.0 + (100 - quality.min(100)) as f64 * 0.2;
            c.max("webp smooth mean error / bound", mean / bound);
            ensure!(mean <= bound, "webp:smooth", "{}: mean error {:.1} levels", o.name, mean);
        }
        if w * h >= 64 {
            // the preset is what libwebp would do itself with it
            let refs = [webp_reference(&b, quality, preset, false), webp_reference(&b, quality, preset, true)];
            ensure!(refs.iter().any(|r| r.as_deref() == Some(&bytes[..])), "webp:preset", "{}: the file differs from what libwebp writes for this preset and quality", o.name);
        }
    }
    Ok(())
}

fn c02_gif(c: &mut Case) -> R {
    let (w, h) = gen::dims(&mut c.rng, 40);
    let kind = c.rng.usize(4);
    let b = match kind {
        0 => smooth(&mut c.rng, w, h),
        1 => gen::image_kind(&mut c.rng, w, h, 9),
        2 => gen::image_kind(&mut c.rng, w, h, 0),
        _ => {
            let k = c.rng.usize(gen::KINDS);
            gen::image_kind(&mut c.rng, w, h, k)
        }
    };
    c.desc(format!("gif {}", gen::describe(&b)));
    c.distinct(&gen::bits(&b));
    let o = Opt { name: "gif".into(), fmt: EncodingFormat::gif_default(), ch: 4, depth: 8 };
    let bytes = save(&Image::new_from_buffer(b.clone()), &o)?;
    c.evals(3);
    ensure!(bytes.last() == Some(&0x3b), "gif:trailer", "the file does not end with a trailer");
    let raw = indep(Format::Gif, &bytes, "gif")?;
    ensure!((raw.w, raw.h) == (w, h), "gif:size", "{}x{}", raw.w, raw.h);
    agree(c, "gif", &bytes, &raw, 0.0)?;
    let mut colors = std::collections::HashSet::new();
    let (mut sum, mut n) = (0f64, 0f64);
    let mut worst = (0f64, 0usize);
    for (i, p) in b.data().iter().enumerate() {
        let t = target(&p.data, 4);
        let lv = |v: f64| (v * 255.0 - 0.5 - 1e-3).ceil() as i32;
        colors.insert([lv(t[0]), lv(t[1]), lv(t[2]), lv(t[3])]);
        let s = raw.rgba(i);
        // alpha becomes on/off
        if t[3] * 255.0 > 0.51 {
            ensure!(s[3] == 1.0, "gif:alpha", "pixel {} with alpha {} is transparent", i, t[3]);
        } else if t[3] * 255.0 < 0.49 {
            ensure!(s[3] == 0.0, "gif:alpha", "pixel {} with alpha {} is opaque", i, t[3]);
            continue;
        } else {
            continue;
        }
        for k in 0..3 {
            let d = (s[k] - t[k]).abs() * 255.0;
            sum += d;
            n += 1.0;
            if d > worst.0 {
                worst = (d, i);
            }
        }
    }
    let mean = if n > 0.0 { sum / n } else { 0.0 };
    if colors.len() <= 200 {
        c.count("gif few colours");
        c.max("gif error with few colours", worst.0);
        ensure!(worst.0 <= 1.01, "gif:exact", "{} colours but pixel {} is off by {:.1} levels", colors.len(), worst.1, worst.0);
    } else {
        c.count("gif many colours");
        c.max("gif mean error with many colours", mean);
        ensure!(mean <= 45.0, "gif:close", "mean error {:.1} levels", mean);
        if kind == 0 {
            c.max("gif mean error smooth", mean);
            ensure!(mean <= 6.0, "gif:smooth", "mean error {:.1} levels", mean);
        }
    }
    Ok(())
}

pub fn any_format(r: &mut Rng) -> (String, EncodingFormat) {
    match r.usize(6) {
        0 => {
            let o = png_opt(r.usize(8), r.usize(3), r.usize(5));
            (o.name.clone(), o.fmt)
        }
        1 => {
            let f = EncodingFormat::Jpeg {
                quality: r.below(256) as u8,
                progressive: r.bool(),
                sampling_factor: if r.bool() { None } else { Some(r.pick(&SAMPLINGS).0) },
                grayscale: r.chance(0.3),
                optimize_huffman_tables: r.bool(),
            };
            (format!("{:?}", f), f)
        }
        2 => ("gif".into(), EncodingFormat::Gif),
        3 => {
            let (color_type, n, _) = *r.pick(&BMP_TYPES);
            (format!("bmp {}", n), EncodingFormat::Bmp { color_type })
        }
        4 => {
            let (color_type, n, _) = *r.pick(&ICO_TYPES);
            (format!("ico {}", n), EncodingFormat::Ico { color_type })
        }
        _ => {
            let f = EncodingFormat::WebP { quality: r.below(256) as u8, preset: *r.pick(&PRESETS) };
            (format!("{:?}", f), f)
        }
    }
}

/// All formats with one representative of every option that takes another path
pub fn all_formats() -> Vec<(String, EncodingFormat)> {
    let mut v = vec![];
    for t in 0..8 {
        let o = png_opt(t, t % 3, t % 5);
        v.push((o.name.clone(), o.fmt));
    }
    for (progressive, grayscale, opt) in [(false, false, true), (true, false, true), (false, true, false), (true, true, false), (false, false, false)] {
        let f = EncodingFormat::Jpeg { quality: 80, progressive, sampling_factor: None, grayscale, optimize_huffman_tables: opt };
        v.push((format!("jpeg{}{}{}", if progressive { " progressive" } else { "" }, if grayscale { " grey" } else { "" }, if opt { " optimised" } else { "" }), f));
    }
    v.push(("gif".into(), EncodingFormat::Gif));
    for (color_type, n, _) in BMP_TYPES {
        v.push((format!("bmp {}", n), EncodingFormat::Bmp { color_type }));
    }
    for (color_type, n, _) in ICO_TYPES {
        v.push((format!("ico {}", n), EncodingFormat::Ico { color_type }));
    }
    for preset in PRESETS {
        v.push((format!("webp {:?}", preset), EncodingFormat::WebP { quality: 70, preset }));
    }
    v
}

fn limits(f: &EncodingFormat) -> u32 {
    match f.format() {
        Format::Ico => 256,
        Format::WebP => 16383,
        Format::Jpeg | Format::Gif | Format::Bmp => 65535,
        _ => u32::MAX,
    }
}

/// Sizes around the limits of the formats: an error or a readable file, never a panic or a wrong file
fn c02_limits(c: &mut Case) -> R {
    let all = all_formats();
    let (name, fmt) = all[c.n as usize % all.len()].clone();
    let sizes = [(0u32, 0u32), (1, 1), (256, 1), (1, 256), (257, 1), (1, 257), (256, 256), (255, 257), (16383, 1), (1, 16383), (16384, 1), (1, 16384), (65535, 1), (1, 65535), (65536, 1), (1, 65536), (65537, 1), (1, 65792), (70000, 2), (131073, 1)];
    let (w, h) = sizes[(c.n as usize / all.len()) % sizes.len()];
    c.desc(format!("{} {}x{}", name, w, h));
    c.distinct(&(name.clone(), w, h));
    let b = if w == 0 { Buf::new(0, 0) } else { Buf::new_from_func(w, h, |x, y| Rgb::new_with_alpha((x % 7) as f32 / 6.0, (y % 5) as f32 / 4.0, ((x / 256 + y / 256) % 3) as f32 / 2.0, 1.0)) };
    let img = Image::new_from_buffer(b.clone());
    c.eval();
    let lim = limits(&fmt);
    match img.save_to_buffer(fmt.clone()) {
        Err(_) => {
            c.count("refused");
            ensure!(w == 0 || w > lim || h > lim, "limits:refused", "{} refuses {}x{}", name, w, h);
        }
        Ok(bytes) => {
            c.count("written");
            ensure!(w <= lim && h <= lim, "limits:wrote", "{} wrote a file for {}x{}", name, w, h);
            ensure!(Format::from_reader(&mut std::io::Cursor::new(&bytes)).ok() == Some(fmt.format()), "limits:format", "{}: the file is not recognised as its format", name);
            if w == 0 {
                // an empty image has no readable representation in most formats
                if let Ok(i) = Image::read_from_buffer(&bytes) {
                    ensure!(i.width() == 0 && i.height() == 0, "limits:empty", "{}: empty image read as {}x{}", name, i.width(), i.height());
                    return Ok(());
                }
                return fail("limits:empty", format!("{}: an empty image is saved without an error, but the file can't be read", name));
            }
            read_catch(&bytes)?.ok();
            let raw = indep(fmt.format(), &bytes, &name)?;
            ensure!((raw.w, raw.h) == (w, h), "limits:size", "{}: stored {}x{} instead of {}x{}", name, raw.w, raw.h, w, h);
            let i = open(&bytes, &name)?;
            ensure!((i.width(), i.height()) == (w, h), "limits:size", "{}: read {}x{} instead of {}x{}", name, i.width(), i.height(), w, h);
        }
    }
    Ok(())
}

pub fn c02(m: &mut Mon) {
    m.rule = "files of every option judged by independent readers: header fields, row filters, quantisation and Huffman tables, sampling factors, levels against the f64 target, error bounds on uniform and smooth images, quality ladders, WebP files compared with libwebp driven directly, size limits; non-trivial: distinct (option, image)".into();
    m.assumptions.push("GIF transparency is on/off: only alpha level 0 is transparent".into());
    let n = m.n(3 * (120 * 40), 20);
    m.cases("png", n, c02_png);
    let n = m.n(100, 15);
    m.cases("large png", n, |c| gen::large(70000, || c02_png(c)));
    let n = m.n(3, 8);
    m.cases("huge png", n, |c| gen::huge_file(|| c02_png(c)));
    let n = m.n(3 * (8 * 300), 20);
    m.cases("bmp ico", n, c02_bmp_ico);
    let n = m.n(100, 15);
    m.cases("large bmp ico", n, |c| gen::large(60000, || c02_bmp_ico(c)));
    let n = m.n(3 * (5_000), 20);
    m.cases("jpeg", n, c02_jpeg);
    let n = m.n(60, 15);
    m.cases("large jpeg", n, |c| gen::large(60000, || c02_jpeg(c)));
    let n = m.n(2, 8);
    m.cases("huge jpeg", n, |c| gen::huge_file(|| c02_jpeg(c)));
    let n = m.n(3 * (400), 20);
    m.cases("quality", n, c02_quality);
    let n = m.n(3 * (2_500), 20);
    m.cases("webp", n, c02_webp);
    let n = m.n(40, 15);
    m.cases("large webp", n, |c| gen::large(16000, || c02_webp(c)));
    let n = m.n(2, 8);
    m.cases("huge webp", n, |c| gen::huge_file(|| c02_webp(c)));
    let n = m.n(3 * (1_500), 20);
    m.cases("gif", n, c02_gif);
    let n = m.n(60, 15);
    m.cases("large gif", n, |c| gen::large(65535, || c02_gif(c)));
    let n = m.n(2, 8);
    m.cases("huge gif", n, |c| gen::huge_file(|| c02_gif(c)));
    let n = all_formats().len() as u64 * 20;
    m.cases("limits", n, c02_limits);
    // compression levels change the size in the promised direction (over a whole corpus)
    m.cases("png compression", 1, |c| {
        let mut tot = [0usize; 3];
        for _ in 0..60 {
            let k = *c.rng.pick(&[3usize, 5, 7, 9, 10]);
            let b = gen::image_kind(&mut c.rng, 96, 96, k);
            for z in 0..3 {
                let o = png_opt(5, z, 1);
                tot[z] += save(&Image::new_from_buffer(b.clone()), &o)?.len();
            }
        }
        c.desc(format!("total bytes default/fast/best: {:?}", tot));
        c.evals(3);
        ensure!(tot[2] <= tot[0] && tot[0] < tot[1], "png:compression", "total bytes with default {}, fast {}, best {}", tot[0], tot[1], tot[2]);
        // every colour type and filter takes the level
        let mut sum = [0usize; 2];
        for t in 0..8 {
            for f in 0..5 {
                let b = Buf::new_from_func(160, 160, |x, y| {
                // few colours in no order: many candidate matches, where searching longer pays
                let k = (x + 160 * y).wrapping_mul(2_654_435_761);
                let k = ((k ^ k >> 15).wrapping_mul(0x2c1b_3c6d) >> 16) % 4;
                Rgb::new(k as f32 / 3.0, (k / 2) as f32 / 2.0, (3 - k) as f32 / 3.0)
            });
                let mut s = [0usize; 3];
                for z in 0..3 {
                    s[z] = save(&Image::new_from_buffer(b.clone()), &png_opt(t, z, f))?.len();
                }
                c.evals(3);
                ensure!(s[2] < s[1] && s[0] < s[1], "png:compression", "{}: bytes with default {}, fast {}, best {}", png_opt(t, 0, f).name, s[0], s[1], s[2]);
                (sum[0] += s[0], sum[1] += s[2]);
            }
        }
        ensure!(sum[1] < sum[0], "png:compression", "total bytes with default {}, best {}", sum[0], sum[1]);
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C03

/// Offset of the first frame of a GIF file
fn gif_frame(b: &[u8]) -> Option<usize> {
    if !b.starts_with(b"GIF8") {
        return None;
    }
    let mut o = 13 + if b[10] & 0x80 != 0 { 6 << (b[10] & 7) } else { 0 };
    while *b.get(o)? == 0x21 {
        o += 2;
        while *b.get(o)? != 0 {
            o += 1 + b[o] as usize;
        }
        o += 1;
    }
    Some(o).filter(|o| b.len() > o + 9 && b[*o] == 0x2c)
}

/// A panic is identified by where it is raised
fn read_catch(b: &[u8]) -> Result<Result<Image, d10::DecodingError>, Fail> {
    catch(|| Image::read_from_buffer(b)).or_else(|m| {
        let at = m.rsplit(" at ").next().unwrap_or("").rsplit("index.crates.io").next().unwrap_or("");
        let at = at.split_once('/').filter(|_| at.starts_with('-')).map(|x| x.1).unwrap_or(at);
        fail(format!("panic:{}", at), format!("panicked: {}", m))
    })
}

fn judge(c: &mut Case, what: &str, bytes: &[u8], r: Result<Image, d10::DecodingError>) -> Result<Option<Image>, Fail> {
    c.eval();
    match r {
        Err(e) => {
            c.count("rejected");
            let _ = e.to_string();
            Ok(None)
        }
        Ok(i) => {
            c.count("decoded");
            let (w, h) = (i.width() as u64, i.height() as u64);
            let ok = i.data().len() as u64 == w * h && w * h <= d10_core::pixelbuffer::MAX_BUFFER_SIZE && ((w == 0) == (h == 0));
            if !ok {
                return fail("bad dimensions", format!("{}: {}x{} with {} pixels ({} bytes)", what, w, h, i.data().len(), bytes.len()));
            }
            if let Some((k, p)) = i.data().iter().enumerate().find(|(_, p)| !rf::finite01(&p.data)) {
                return fail("bad channel", format!("{}: pixel {} is {:?}", what, k, p.data));
            }
            Ok(Some(i))
        }
    }
}

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    let special = [0u32, 1, 2, 3, 4, 7, 8, 16, 24, 32, 40, 108, 124, 127, 128, 255, 256, 257, 1024, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe];
    for _ in 0..1 + r.usize(4) {
        if b.is_empty() {
            return;
        }
        let head = r.bool();
        let n = if head { b.len().min(64) } else { b.len() };
        let o = r.usize(n);
        match r.usize(11) {
            0 => b[o] ^= 1 << r.usize(8),
            1 => b[o] = r.below(256) as u8,
            2 => b[o] = *r.pick(&[0, 1, 2, 4, 8, 16, 127, 128, 254, 255]),
            3 => {
                let v = *r.pick(&special);
                if o + 4 <= b.len() {
                    let q = if r.bool() { v.to_le_bytes() } else { v.to_be_bytes() };
                    b[o..o + 4].copy_from_slice(&q);
                }
            }
            4 => {
                let v = *r.pick(&special) as u16;
                if o + 2 <= b.len() {
                    let q = if r.bool() { v.to_le_bytes() } else { v.to_be_bytes() };
                    b[o..o + 2].copy_from_slice(&q);
                }
            }
            5 => b.truncate(o),
            6 => {
                let e = (o + 1 + r.usize(24)).min(b.len());
                b.drain(o..e);
            }
            7 => {
                let e = (o + 1 + r.usize(32)).min(b.len());
                let q = b[o..e].to_vec();
                let at = r.usize(b.len());
                b.splice(at..at, q);
            }
            8 => {
                let q: Vec<u8> = (0..1 + r.usize(16)).map(|_| r.below(256) as u8).collect();
                b.splice(o..o, q);
            }
            9 if !other.is_empty() => {
                let s = r.usize(other.len());
                let e = (s + 1 + r.usize(64)).min(other.len());
                let q = other[s..e].to_vec();
                let t = (o + q.len()).min(b.len());
                b.splice(o..t, q);
            }
            _ => {
                let v = b[o].wrapping_add(if r.bool() { 1 } else { 255 });
                b[o] = v;
            }
        }
    }
}

/// Make the checksums of a PNG valid again, so that mutations reach the decoder proper
fn png_repair(b: &mut Vec<u8>) {
    let mut o = 8;
    while o + 12 <= b.len() {
        let n = be32(b, o) as usize;
        if n > b.len() || o + 12 + n > b.len() {
            return;
        }
        let c = crc32(&b[o + 4..o + 8 + n]).to_be_bytes();
        b[o + 8 + n..o + 12 + n].copy_from_slice(&c);
        o += 12 + n;
    }
}

/// Mutate the decompressed image data of a PNG
fn png_payload(r: &mut Rng, b: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let ch = png_chunks(b).ok()?;
    let mut z = vec![];
    for c in ch.iter().filter(|c| c.0 == "IDAT") {
        z.extend_from_slice(&b[c.1..c.1 + c.2]);
    }
    let mut d = vec![];
    flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut d).ok()?;
    mutate(r, &mut d, &[]);
    let mut out = b[..8].to_vec();
    let mut done = false;
    for c in &ch {
        let mut name = [0u8; 4];
        name.copy_from_slice(&b[c.1 - 4..c.1]);
        if c.0 == "IDAT" {
            if !done {
                png_chunk(&mut out, &name, &zlib(&d, 1));
                done = true;
            }
        } else {
            png_chunk(&mut out, &name, &b[c.1..c.1 + c.2]);
        }
    }
    Some(out)
}

const FUZZ_PIXELS: u64 = 12_000_000;

fn c03_fuzz(c: &mut Case) -> R {
    let (w, h) = gen::dims(&mut c.rng, 20);
    let k = if c.rng.chance(0.5) {
        let k = gen_known(&mut c.rng, w, h);
        (k.kind, k.bytes)
    } else {
        let (n, f) = any_format(&mut c.rng);
        let b = gen::image(&mut c.rng, 20);
        match Image::new_from_buffer(b).save_to_buffer(f) {
            Ok(b) => (n, b),
            Err(_) => return Ok(()),
        }
    };
    let base = k.1;
    for i in 0..12 {
        let mut b = base.clone();
        let mut what = format!("mutated {}", k.0);
        match c.rng.usize(8) {
            0 => {
                let n = c.rng.usize(b.len() + 1);
                b.truncate(n);
                what = format!("{} cut to {} bytes", k.0, n);
            }
            1 if b.starts_with(&[0x89, b'P']) => {
                if let Some(q) = png_payload(&mut c.rng, &b) {
                    b = q;
                }
            }
            2 => {
                let o = gen_known(&mut c.rng, 5, 4).bytes;
                mutate(&mut c.rng, &mut b, &o);
            }
            3 => b.extend_from_slice(&base.clone()),
            _ => mutate(&mut c.rng, &mut b, &[]),
        }
        if b.starts_with(&[0x89, b'P']) && c.rng.chance(0.7) {
            png_repair(&mut b);
        }
        if b.len() > 12 && b.starts_with(b"RIFF") && c.rng.bool() {
            let n = (b.len() as u32 - 8).to_le_bytes();
            b[4..8].copy_from_slice(&n);
        }
        if declared_pixels(&b) > FUZZ_PIXELS {
            c.count("left to the serial section (huge declared size)");
            continue;
        }
        c.desc(format!("{} #{}", what, i));
        c.input = Some(b.clone());
        c.distinct(&b);
        let r = read_catch(&b)?;
        judge(c, &what, &b, r)?;
        if c.rng.chance(0.03) {
            let d = TempDir::new("c03");
            let p = d.path(*c.rng.pick(&["a.png", "a.jpg", "a.gif", "a.bmp", "a.ico", "a.webp", "a"]));
            std::fs::write(&p, &b).expect("temp file");
            c.desc(format!("{} as {}", what, p.display()));
            let r = Image::open(&p);
            judge(c, &what, &b, r)?;
        }
    }
    c.input = None;
    Ok(())
}

/// Every prefix of a valid file
fn c03_prefixes(c: &mut Case) -> R {
    let k = gen_known(&mut c.rng, 6, 5);
    c.desc(format!("prefixes of {} ({} bytes)", k.kind, k.bytes.len()));
    c.distinct(&k.bytes);
    for n in 0..k.bytes.len() {
        c.input = Some(k.bytes[..n].to_vec());
        let r = read_catch(&k.bytes[..n])?;
        judge(c, &k.kind, &k.bytes[..n], r)?;
    }
    c.input = None;
    Ok(())
}

fn c03_known(c: &mut Case) -> R {
    let big = c.rng.chance(0.05);
    let (w, h) = gen::dims(&mut c.rng, if big { 130 } else { 24 });
    let k = gen_known(&mut c.rng, w, h);
    c.desc(format!("{} {}x{}", k.kind, w, h));
    c.distinct(&k.bytes);
    c.count(&format!("valid {}", k.kind.trim_end_matches(" +metadata")));
    if k.kind.ends_with("+metadata") {
        c.count(&format!("valid {} with metadata", k.kind.split(' ').next().unwrap_or("")));
    }
    c.input = Some(k.bytes.clone());
    let r = read_catch(&k.bytes)?;
    if let Err(e) = &r {
        if let Some(o) = gif_frame(&k.bytes).filter(|o| k.bytes[o + 9] & 0x40 != 0) {
            let mut b = k.bytes.clone();
            b[o + 9] &= !0x40;
            if e.to_string() == "image truncated" && read_catch(&b)?.is_ok() {
                return fail("gif:interlaced-truncated", format!("{} {}x{}: refused as truncated, but read with its rows in sequence", k.kind, k.w, k.h));
            }
        }
        return fail("valid file refused", format!("{} {}x{}: {}", k.kind, k.w, k.h, e));
    }
    if let Some(i) = judge(c, &k.kind, &k.bytes, r)? {
        check_read(c, &format!("valid {}", k.kind.split(' ').next().unwrap_or("")), &i, |n| k.px[n], k.w, k.h, k.tol, false)?;
    }
    if c.rng.chance(0.1) {
        let d = TempDir::new("c03k");
        let p = d.path("x.tmp");
        std::fs::write(&p, &k.bytes).expect("temp file");
        let r = Image::open(&p);
        if let Err(e) = &r {
            return fail("valid file refused", format!("{} {}x{} from disk: {}", k.kind, k.w, k.h, e));
        }
        if let Some(i) = judge(c, &k.kind, &k.bytes, r)? {
            check_read(c, "valid from disk", &i, |n| k.px[n], k.w, k.h, k.tol, false)?;
        }
    }
    c.input = None;
    Ok(())
}

/// Random bytes behind every signature
fn c03_noise(c: &mut Case) -> R {
    let sig: &[&[u8]] = &[b"", &[0xff, 0xd8, 0xff], &[0x89, b'P', b'N', b'G', 13, 10, 26, 10], b"GIF87a", b"GIF89a", b"BM", &[0, 0, 1, 0], b"RIFF\x40\0\0\0WEBPVP8 ", b"RIFF\x40\0\0\0WEBPVP8L", b"RIFF\x40\0\0\0WEBPVP8X"];
    for _ in 0..20 {
        let mut b = c.rng.pick(sig).to_vec();
        let n = c.rng.usize(200);
        let low = c.rng.bool();
        for _ in 0..n {
            b.push(if low && c.rng.chance(0.7) { c.rng.below(4) as u8 } else { c.rng.below(256) as u8 });
        }
        if declared_pixels(&b) > FUZZ_PIXELS {
            continue;
        }
        c.desc(format!("{} random bytes behind a signature", n));
        c.input = Some(b.clone());
        c.distinct(&b);
        let r = read_catch(&b)?;
        judge(c, "noise", &b, r)?;
    }
    c.input = None;
    Ok(())
}

/// Headers declaring extreme sizes, decoded one at a time
fn c03_extreme(c: &mut Case) -> R {
    let dims = [(65535u32, 65535u32), (65535, 1), (1, 65535), (0, 0), (0, 5), (5, 0), (46340, 46341), (32768, 32768), (0x7fffffff, 1), (1, 0x7fffffff), (0x7fffffff, 0x7fffffff), (0xffffffff, 0xffffffff), (65536, 65536), (0x10000, 0x8000), (0x80000000, 2), (16383, 16383), (1, 0xffffffff)];
    let (w, h) = dims[c.n as usize % dims.len()];
    let kind = c.n as usize / dims.len();
    let huge_webp = matches!(kind, 6 | 7 | 9) && (w.wrapping_sub(1) as u64 & 0x3fff) * (h.wrapping_sub(1) as u64 & 0x3fff) > 100_000_000;
    if !c.thorough && huge_webp || !c.thorough && matches!(kind, 1 | 2 | 6 | 7 | 8 | 9 | 10 | 3) && (w as u64 & 0xffff) * (h as u64 & 0xffff) > 100_000_000 {
        // decodable but slow and big
        c.count("left to the thorough tier");
        return Ok(());
    }
    // the biggest take minutes and gigabytes
    if matches!(kind, 1 | 2 | 10) && (w as u64 & 0xffff) * (h as u64 & 0xffff) > 300_000_000 && c.n % 3 != 1 {
        c.count("left out (too slow)");
        return Ok(());
    }
    let mut r = Rng::new(c.n + 17);
    let mut b;
    let name = ["png", "jpeg", "jpeg progressive", "gif", "bmp", "ico", "webp lossless", "webp lossy", "bmp rle", "webp vp8x", "jpeg grey"][kind];
    match kind {
        0 => {
            b = gen_png(&mut r, 3, 2).bytes;
            b[16..20].copy_from_slice(&w.to_be_bytes());
            b[20..24].copy_from_slice(&h.to_be_bytes());
            png_repair(&mut b);
        }
        1 | 2 | 10 => {
            use jpeg_encoder::*;
            b = vec![];
            let mut e = Encoder::new(&mut b, 80);
            e.set_progressive(kind == 2);
            e.encode(&[128; 8 * 8 * 3][..if kind == 10 { 64 } else { 192 }], 8, 8, if kind == 10 { ColorType::Luma } else { ColorType::Rgb }).unwrap();
            for o in 0..b.len() - 9 {
                if b[o] == 0xff && (b[o + 1] == 0xc0 || b[o + 1] == 0xc2) {
                    b[o + 5..o + 7].copy_from_slice(&(h as u16).to_be_bytes());
                    b[o + 7..o + 9].copy_from_slice(&(w as u16).to_be_bytes());
                }
            }
        }
        3 => {
            b = gen_gif(&mut r, 3, 2).bytes;
            b[6..8].copy_from_slice(&(w as u16).to_le_bytes());
            b[8..10].copy_from_slice(&(h as u16).to_le_bytes());
            for o in 13..b.len() - 9 {
                if b[o] == 0x2c && le16(&b, o + 5) == 3 && le16(&b, o + 7) == 2 {
                    b[o + 5..o + 7].copy_from_slice(&(w as u16).to_le_bytes());
                    b[o + 7..o + 9].copy_from_slice(&(h as u16).to_le_bytes());
                }
            }
        }
        4 | 8 => {
            loop {
                let k = gen_bmp(&mut r, 3, 2);
                if k.kind.contains("rle") == (kind == 8) {
                    b = k.bytes;
                    break;
                }
            }
            b[18..22].copy_from_slice(&w.to_le_bytes());
            b[22..26].copy_from_slice(&h.to_le_bytes());
        }
        5 => {
            b = gen_ico(&mut r, 3, 2).bytes;
            for o in 6..b.len() - 24 {
                if le32(&b, o) == 40 && le32(&b, o + 4) == 3 {
                    b[o + 4..o + 8].copy_from_slice(&w.to_le_bytes());
                    b[o + 8..o + 12].copy_from_slice(&h.to_le_bytes());
                }
                if b[o..o + 4] == [0x89, b'P', b'N', b'G'] {
                    b[o + 16..o + 20].copy_from_slice(&w.to_be_bytes());
                    b[o + 20..o + 24].copy_from_slice(&h.to_be_bytes());
                    let mut q = b[o..].to_vec();
                    png_repair(&mut q);
                    b.truncate(o);
                    b.extend(q);
                    break;
                }
            }
        }
        6 | 7 => {
            b = webp_encode_simple(&[200; 4 * 4 * 4], 4, 4, if kind == 6 { None } else { Some(70.0) });
            for o in 12..b.len() - 18 {
                if &b[o..o + 4] == b"VP8L" {
                    let v = le32(&b, o + 9);
                    let v = v & 0xf0000000 | (w.wrapping_sub(1) & 0x3fff) | (h.wrapping_sub(1) & 0x3fff) << 14;
                    b[o + 9..o + 13].copy_from_slice(&v.to_le_bytes());
                    break;
                }
                if &b[o..o + 4] == b"VP8 " {
                    b[o + 14..o + 16].copy_from_slice(&(w as u16 & 0x3fff).to_le_bytes());
                    b[o + 16..o + 18].copy_from_slice(&(h as u16 & 0x3fff).to_le_bytes());
                    break;
                }
            }
        }
        _ => {
            b = webp_encode_simple(&[100; 4 * 4 * 4], 4, 4, Some(70.0));
            for o in 12..b.len() - 18 {
                if &b[o..o + 4] == b"VP8X" {
                    b[o + 12..o + 15].copy_from_slice(&w.wrapping_sub(1).to_le_bytes()[..3]);
                    b[o + 15..o + 18].copy_from_slice(&h.wrapping_sub(1).to_le_bytes()[..3]);
                }
            }
        }
    }
    c.desc(format!("{} declaring {}x{}", name, w, h));
    c.distinct(&b);
    c.input = Some(b.clone());
    let r = read_catch(&b)?;
    judge(c, name, &b, r)?;
    c.input = None;
    Ok(())
}

pub fn c03(m: &mut Mon) {
    m.rule = "well-formed files of every flavour written here with known pixels (PNG all types/depths/interlacing/tRNS, BMP 1..32 bit/masks/RLE/top-down, ICO png/bmp+mask, GIF palettes/interlaced/animated, JPEG baseline/progressive/grey/CMYK/YCCK/lossless 16 bit, WebP) must decode to those pixels; prefixes, mutations (checksums repaired), splices, noise and extreme headers must give an error or a consistent in-range image; crashes and hangs are observed from the parent process; non-trivial: distinct input bytes".into();
    m.assumptions.push("JPEG and WebP pixels are compared with the jpeg-decoder crate and libwebp called directly".into());
    m.assumptions.push("invalid memory accesses of the WebP bridge are judged under AddressSanitizer by C27".into());
    let n = m.n(3 * (12_000), 15);
    m.cases("valid", n, c03_known);
    let n = m.n(400, 8);
    m.cases("large valid", n, |c| gen::large(16000, || c03_known(c)));
    let n = m.n(16, 4);
    m.cases("huge valid", n, |c| gen::huge_file(|| c03_known(c)));
    let n = m.n(3 * (12_000), 25);
    m.cases("fuzz", n, c03_fuzz);
    let n = m.n(3 * (250), 15);
    m.cases("prefixes", n, c03_prefixes);
    let n = m.n(3 * (4_000), 15);
    m.cases("noise", n, c03_noise);
    m.serial("extreme", 11 * 17, c03_extreme);
}

// ------------------------------------------------------------------------------------------- C04

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// every write from this offset on fails
    From(usize, usize),
    /// one write at this offset fails, later ones succeed
    Once(usize, usize),
    /// write returns Ok(0) from this offset on
    Zero(usize),
}

const KINDS: [std::io::ErrorKind; 9] = [
    std::io::ErrorKind::Other,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::StorageFull,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::WriteZero,
];

struct FaultWriter {
    fault: Fault,
    out: Vec<u8>,
    rng: Rng,
    short: u64,
    interrupt: bool,
    fired: bool,
    calls: u64,
    writes_after: u64,
    flush_err: bool,
}

impl FaultWriter {
    fn new(fault: Fault, rng: Rng) -> Self {
        FaultWriter { fault, out: vec![], rng, short: 0, interrupt: false, fired: false, calls: 0, writes_after: 0, flush_err: false }
    }
}

impl Write for FaultWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.fired {
            self.writes_after += 1;
        }
        if self.interrupt && self.rng.chance(0.3) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if self.short > 0 {
            n = n.min(1 + self.rng.below(self.short) as usize);
        }
        match self.fault {
            Fault::From(o, k) | Fault::Once(o, k) => {
                let once = matches!(self.fault, Fault::Once(..));
                if self.out.len() >= o && !(once && self.fired) {
                    self.fired = true;
                    return Err(std::io::Error::new(KINDS[k], "injected fault"));
                }
                if self.out.len() < o {
                    n = n.min(o - self.out.len());
                }
            }
            Fault::Zero(o) => {
                if self.out.len() >= o {
                    self.fired = true;
                    return Ok(0);
                }
                n = n.min(o - self.out.len());
            }
            Fault::None => {}
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.calls += 1;
        if self.flush_err {
            self.fired = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected flush fault"));
        }
        Ok(())
    }
}

fn c04_case(c: &mut Case) -> R {
    let all = all_formats();
    let (name, fmt) = if c.rng.bool() { all[c.n as usize % all.len()].clone() } else { any_format(&mut c.rng) };
    let b = gen::image(&mut c.rng, 14);
    let img = Image::new_from_buffer(b.clone());
    c.desc(format!("{} {}", name, gen::describe(&b)));
    c.distinct(&(name.clone(), gen::bits(&b)));
    let full = match img.save_to_buffer(fmt.clone()) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    c.count(&format!("format {:?}", fmt.format()));
    // benign behaviour: short and interrupted writes
    for k in 0..3 {
        let mut w = FaultWriter::new(Fault::None, Rng::new(c.rng.u64()));
        w.short = [0, 1, 7][k];
        w.interrupt = k > 0;
        let r = img.save_to_writer(&mut w, fmt.clone());
        c.evals(1);
        c.add("write calls observed", w.calls);
        ensure!(r.is_ok(), "benign", "{}: short/interrupted writes make the save fail: {:?}", name, r.err().map(|e| e.to_string()));
        ensure!(w.out == full, "benign", "{}: short/interrupted writes change the file ({} bytes instead of {})", name, w.out.len(), full.len());
    }
    // a fault at every (or a sample of) offsets
    let offs: Vec<usize> = if full.len() <= 120 {
        (0..full.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..20).chain(full.len() - 40..full.len()).collect();
        v.extend((0..40).map(|_| c.rng.usize(full.len())));
        v
    };
    for o in offs {
        let k = c.rng.usize(KINDS.len());
        let fault = match c.rng.usize(4) {
            0 | 1 => Fault::From(o, k),
            2 => Fault::Once(o, k),
            _ => Fault::Zero(o),
        };
        let mut w = FaultWriter::new(fault, Rng::new(c.rng.u64()));
        w.short = if c.rng.chance(0.3) { 5 } else { 0 };
        let r = img.save_to_writer(&mut w, fmt.clone());
        c.evals(1);
        c.count("faults injected");
        c.add("write calls observed", w.calls);
        ensure!(w.fired, "fault not reached", "{}: only {} of {} bytes were written, yet the save returned {}", name, w.out.len(), full.len(), if r.is_ok() { "success" } else { "an error" });
        if r.is_ok() {
            return fail("ignored fault", format!("{}: {:?} at offset {} of {} ({} bytes delivered), but the save reports success", name, fault, o, full.len(), w.out.len()));
        }
        let n = w.out.len().min(o);
        ensure!(w.out[..n] == full[..n], "prefix", "{}: the bytes before the fault differ from the complete file", name);
    }
    // a fault beyond the end must not matter
    let mut w = FaultWriter::new(Fault::From(full.len(), 0), Rng::new(1));
    let r = img.save_to_writer(&mut w, fmt.clone());
    c.evals(1);
    ensure!(r.is_ok() && w.out == full, "fault beyond the end", "{}: room for exactly the file, but the save fails or differs", name);
    // failing flush: an error or no flush at all - never a lost file
    let mut w = FaultWriter::new(Fault::None, Rng::new(1));
    w.flush_err = true;
    let r = img.save_to_writer(&mut w, fmt.clone());
    c.evals(1);
    ensure!(!(w.fired && r.is_ok()), "ignored flush fault", "{}: the writer's flush failed, but the save reports success", name);
    ensure!(r.is_err() || w.out == full, "flush", "{}: the file is incomplete", name);
    Ok(())
}

/// Through a BufWriter the caller owns, the flush reports the error
fn c04_buffered(c: &mut Case) -> R {
    let (name, fmt) = any_format(&mut c.rng);
    let b = gen::image(&mut c.rng, 30);
    let img = Image::new_from_buffer(b.clone());
    let full = match img.save_to_buffer(fmt.clone()) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    c.desc(format!("buffered {} {}", name, gen::describe(&b)));
    c.distinct(&(name.clone(), gen::bits(&b)));
    let o = c.rng.usize(full.len() + 20);
    let cap = 1 + c.rng.usize(300);
    let mut w = std::io::BufWriter::with_capacity(cap, FaultWriter::new(Fault::From(o, 0), Rng::new(c.rng.u64())));
    let r = img.save_to_writer(&mut w, fmt.clone());
    let ok = r.is_ok() && w.flush().is_ok();
    let w = w.into_parts().0;
    c.evals(1);
    ensure!(ok == (o >= full.len()), "buffered", "{}: fault at {} of {} bytes, buffer {}: success is {}", name, o, full.len(), cap, ok);
    ensure!(!ok || w.out == full, "buffered", "{}: incomplete", name);
    Ok(())
}

fn set_fsize(n: u64) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = n.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

/// Real files: file size limit, full device, closed pipe, bad paths (one at a time, the limit is per process)
fn c04_files(c: &mut Case) -> R {
    let all = all_formats();
    let (name, fmt) = all[c.n as usize % all.len()].clone();
    let (w, h) = if c.rng.chance(0.4) { (60, 50) } else { (5, 4) };
    let kind = *c.rng.pick(&[1usize, 7, 13]);
    let b = gen::image_kind(&mut c.rng, w, h, kind);
    let img = Image::new_from_buffer(b.clone());
    let full = match img.save_to_buffer(fmt.clone()) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let dir = TempDir::new("c04");
    let ext = match fmt.format() {
        Format::Jpeg => "jpg",
        Format::Png => "png",
        Format::Gif => "gif",
        Format::Bmp => "bmp",
        Format::Ico => "ico",
        Format::WebP => "webp",
    };
    let p = dir.path(&format!("out.{}", ext));
    c.desc(format!("{} {}x{} kind {} on disk", name, w, h, kind));
    c.distinct(&(name.clone(), w, kind, c.n));
    // success: every byte on disk
    for pre in [false, true] {
        if pre {
            std::fs::write(&p, vec![7u8; full.len() + 5000]).expect("temp");
        }
        let r = img.save_with_format(&p, fmt.clone());
        c.evals(1);
        ensure!(r.is_ok() && std::fs::read(&p).ok().as_deref() == Some(&full[..]), "file", "{}: saved file differs from the in-memory save (existing file: {})", name, pre);
    }
    // the default options of the extension are what save() uses
    let dflt = match EncodingFormat::from_path(&p) {
        Ok(f) => img.save_to_buffer(f),
        Err(e) => Err(e),
    };
    if let Ok(d) = dflt {
        ensure!(img.save(&p).is_ok() && std::fs::read(&p).ok().as_deref() == Some(&d[..]), "file", "{}: save() differs from the in-memory save", ext);
        let lim = c.rng.usize(d.len());
        set_fsize(lim as u64);
        let r = img.save(&p);
        set_fsize(u64::MAX);
        c.evals(2);
        c.count("file size limits hit");
        ensure!(r.is_err(), "disk full", "save() to {}: file size limited to {} of {} bytes, but success is reported", ext, lim, d.len());
    }
    for lim in [0usize, 1, full.len() / 2, full.len() - 1] {
        set_fsize(lim as u64);
        let r = img.save_with_format(&p, fmt.clone());
        set_fsize(u64::MAX);
        c.evals(1);
        c.count("file size limits hit");
        ensure!(r.is_err(), "disk full", "{}: file size limited to {} of {} bytes, but success is reported", name, lim, full.len());
    }
    set_fsize(full.len() as u64);
    let r = img.save_with_format(&p, fmt.clone());
    set_fsize(u64::MAX);
    c.evals(1);
    ensure!(r.is_ok() && std::fs::read(&p).ok().as_deref() == Some(&full[..]), "disk exactly full", "{}: file size limit equal to the size of the file makes it fail", name);
    // a full device behind the path
    if std::path::Path::new("/dev/full").exists() {
        let l = dir.path(&format!("full.{}", ext));
        if std::os::unix::fs::symlink("/dev/full", &l).is_ok() {
            c.evals(2);
            c.count("full device");
            ensure!(img.save_with_format(&l, fmt.clone()).is_err(), "full device", "{}: writing to a full device reports success", name);
            ensure!(img.save(&l).is_err(), "full device", "{}: save() to a full device reports success", name);
        }
    }
    // a pipe without a reader
    unsafe {
        let mut fd = [0; 2];
        if libc::pipe(fd.as_mut_ptr()) == 0 {
            use std::os::unix::io::FromRawFd;
            libc::close(fd[0]);
            let mut f = std::fs::File::from_raw_fd(fd[1]);
            c.evals(1);
            c.count("closed pipe");
            ensure!(img.save_to_writer(&mut f, fmt.clone()).is_err(), "closed pipe", "{}: writing to a closed pipe reports success", name);
        }
    }
    // impossible paths
    let bad = [dir.path("missing").join(format!("x.{}", ext)), p.join(format!("x.{}", ext))];
    for q in &bad {
        c.evals(2);
        ensure!(img.save(q).is_err() && img.save_with_format(q, fmt.clone()).is_err(), "bad path", "{}: saving to {} reports success", name, q.display());
    }
    let d2 = dir.path(&format!("d.{}", ext));
    std::fs::create_dir_all(&d2).expect("dir");
    c.evals(2);
    ensure!(img.save(&d2).is_err() && img.save_with_format(&d2, fmt.clone()).is_err(), "bad path", "{}: saving onto a directory reports success", name);
    Ok(())
}

/// Saving to a path with the process's own write calls shortened, interrupted or failing
fn c04_syscalls(c: &mut Case) -> R {
    use crate::iofault::{with, Plan, Seen};
    let all = all_formats();
    let (name, fmt) = if c.rng.chance(0.3) { any_format(&mut c.rng) } else { all[c.n as usize % all.len()].clone() };
    let (w, h) = if c.rng.chance(0.4) { (60 + c.rng.below(50) as u32, 50) } else { gen::dims(&mut c.rng, 12) };
    let kind = c.rng.usize(gen::KINDS);
    let img = Image::new_from_buffer(gen::image_kind(&mut c.rng, w, h, kind));
    let ext = match fmt.format() {
        Format::Jpeg => "jpg",
        Format::Png => "png",
        Format::Gif => "gif",
        Format::Bmp => "bmp",
        Format::Ico => "ico",
        Format::WebP => "webp",
    };
    let dir = TempDir::new("c04s");
    let p = dir.path(&format!("out.{}", ext));
    // both entry points
    let by_ext = c.rng.bool();
    let save = || if by_ext { img.save(&p) } else { img.save_with_format(&p, fmt.clone()) };
    let mem = if by_ext { EncodingFormat::from_path(&p).and_then(|f| img.save_to_buffer(f)) } else { img.save_to_buffer(fmt.clone()) };
    let full = match mem {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    c.desc(format!("{} {}x{} kind {} to {}", name, w, h, kind, if by_ext { "save()" } else { "save_with_format()" }));
    c.distinct(&(name.clone(), w, h, kind, by_ext, c.n));
    let on_disk = || std::fs::read(&p).ok();
    let look = |what: &str, plan: &Plan, r: &Result<(), d10::EncodingError>, s: &Seen| -> R {
        ensure!(s.opened == s.closed, "open file left", "{}: {} files opened, {} closed", what, s.opened, s.closed);
        match r {
            Ok(()) => ensure!(on_disk().as_deref() == Some(&full[..]), "success without the file", "{} with {:?}: success reported, but the file on disk differs from the in-memory save ({} bytes instead of {})", what, plan, on_disk().map_or(0, |b| b.len()), full.len()),
            Err(_) => ensure!(s.failed > 0, "error without fault", "{} with {:?}: {:?}", what, plan, r.as_ref().err().map(|e| e.to_string())),
        }
        Ok(())
    };
    let (r, seen) = with(Plan::default(), 1, &save);
    c.evals(1);
    c.count(if seen.calls > 0 && seen.opened > 0 { "saves observed at the system calls" } else { "saves not observed" });
    look("undisturbed", &Plan::default(), &r, &seen)?;
    for k in 0..3 {
        let plan = match k {
            0 => Plan { max: 1 + c.rng.usize(4) + full.len() / 1500, interrupt: 0.2, ..Plan::default() },
            1 => Plan { max: 1 + c.rng.usize(3000) + full.len() / 1500, vary: true, ..Plan::default() },
            _ => Plan { interrupt: 0.6, max: 1 + full.len() / 3, ..Plan::default() },
        };
        let seed = c.rng.u64();
        let (r, s) = with(plan.clone(), seed, &save);
        c.evals(1);
        c.add("short writes", s.shortened);
        c.add("interrupted writes", s.interrupted);
        look("short or interrupted writes", &plan, &r, &s)?;
    }
    let slow = Plan { max: (full.len() / 30).max(1), ..Plan::default() };
    let n = with(slow.clone(), 1, &save).1.calls;
    for k in 0..8u64 {
        let e = *c.rng.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::EAGAIN, libc::ENOMEM, libc::EBADF]);
        // the first, the last, in between; on the undisturbed sequence of calls, too
        let (base, at) = match k {
            0 => (Plan::default(), 0),
            1 => (Plan::default(), seen.calls.max(1) - 1),
            2 => (slow.clone(), 0),
            3 => (slow.clone(), n.max(1) - 1),
            _ => (slow.clone(), c.rng.below(n.max(1))),
        };
        let plan = Plan { fail_at: Some((at, e, c.rng.chance(0.6))), ..base };
        let seed = c.rng.u64();
        let (r, s) = with(plan.clone(), seed, &save);
        c.evals(1);
        c.add("failing writes", s.failed);
        look("failing write", &plan, &r, &s)?;
        ensure!(s.failed == 0 || r.is_err(), "fault ignored", "{:?}: a write failed, but success is reported", plan);
    }
    Ok(())
}

pub fn c04(m: &mut Mon) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    m.rule = "every save is observed at the underlying writer: faults (permanent, single, zero-length writes; 9 error kinds) at every or sampled offsets, short and interrupted writes, failing flush, caller's BufWriter; on disk: RLIMIT_FSIZE, /dev/full, closed pipe, impossible paths, overwriting longer files; the process's own write calls shortened, interrupted or failing while saving to a path; success must mean the complete in-memory file; non-trivial: distinct (format option, image)".into();
    m.assumptions.push("error kinds are those std::io defines; a reported error may leave a partial file".into());
    let n = m.n(3 * (3_000), 20);
    m.cases("faults", n, c04_case);
    let n = m.n(3 * (3_000), 20);
    m.cases("buffered", n, c04_buffered);
    let n = all_formats().len() as u64 * m.n(3 * (3), 10);
    m.serial("files", n, c04_files);
    let n = m.n(6_000, 20);
    m.cases("syscalls", n, c04_syscalls);
}

// ------------------------------------------------------------------------------------------- C05

const EXTS: [(&str, Format); 7] = [("jpg", Format::Jpeg), ("jpeg", Format::Jpeg), ("png", Format::Png), ("gif", Format::Gif), ("bmp", Format::Bmp), ("ico", Format::Ico), ("webp", Format::WebP)];

/// Signature rules, written independently
pub fn sniff(b: &[u8]) -> Option<Format> {
    let st = |s: &[u8]| b.len() >= s.len() && &b[..s.len()] == s;
    if st(&[0xff, 0xd8, 0xff]) {
        Some(Format::Jpeg)
    } else if st(b"\x89PNG\r\n\x1a\n") {
        Some(Format::Png)
    } else if st(b"GIF87a") || st(b"GIF89a") {
        Some(Format::Gif)
    } else if st(b"BM") {
        Some(Format::Bmp)
    } else if st(&[0, 0, 1, 0]) {
        Some(Format::Ico)
    } else if st(b"RIFF") && b.len() >= 12 && &b[8..12] == b"WEBP" {
        Some(Format::WebP)
    } else {
        None
    }
}

fn random_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect()
}

pub fn encode_as(f: Format, img: &Image) -> Vec<u8> {
    let e = match f {
        Format::Jpeg => EncodingFormat::jpeg_default(),
        Format::Png => EncodingFormat::png_default(),
        Format::Gif => EncodingFormat::gif_default(),
        Format::Bmp => EncodingFormat::bmp_default(),
        Format::Ico => EncodingFormat::ico_default(),
        Format::WebP => EncodingFormat::webp_default(),
    };
    img.save_to_buffer(e).unwrap_or_default()
}

fn base_names(r: &mut Rng) -> String {
    (*r.pick(&["a", "my.photo", "x.png.tar", "ünï", "no ext", "..", "-", "a.jpg", " ", "png", "x.y.z"])).to_string()
}

fn c05_open(c: &mut Case) -> R {
    let (w, h) = gen::dims(&mut c.rng, 6);
    let kind = c.rng.usize(gen::KINDS);
    let img = Image::new_from_buffer(gen::image_kind(&mut c.rng, w, h, kind));
    let content = *c.rng.pick(&EXTS);
    let bytes = encode_as(content.1, &img);
    let truth = match Image::read_from_buffer(&bytes) {
        Ok(i) => i,
        Err(e) => return fail("memory", format!("{:?}: {}", content.1, e)),
    };
    let dir = TempDir::new("c05");
    let named = c.rng.usize(8);
    let name = match named {
        0 => base_names(&mut c.rng).replace('.', "_"),
        1 => format!("{}.{}", base_names(&mut c.rng), *c.rng.pick(&["txt", "tiff", "jp", "pngx", "we", "", "jpe", "heic"])),
        _ => {
            let e = c.rng.pick(&EXTS).0;
            format!("{}.{}", base_names(&mut c.rng), random_case(&mut c.rng, e))
        }
    };
    let p = dir.path(&name);
    c.desc(format!("{:?} content in {:?}", content.1, name));
    c.distinct(&(format!("{:?}", content.1), name.clone(), w, h, kind));
    c.count(&format!("content {:?}", content.1));
    std::fs::write(&p, &bytes).expect("temp file");
    c.evals(2);
    match Image::open(&p) {
        Ok(i) => ensure!(gen::bits(i.buffer()) == gen::bits(truth.buffer()), "content wins", "{:?} content in {:?} reads differently from disk and memory", content.1, name),
        Err(e) => return fail("content wins", format!("{:?} content in {:?} can't be opened: {}", content.1, name, e)),
    }
    let f = Format::from_reader(&mut std::io::Cursor::new(&bytes)).ok();
    ensure!(f == Some(content.1), "signature", "{:?} recognised as {:?}", content.1, f);
    Ok(())
}

/// Near signatures: recognised exactly by the rules; the reader's position is restored
fn c05_sniff(c: &mut Case) -> R {
    let sigs: [&[u8]; 7] = [&[0xff, 0xd8, 0xff], b"\x89PNG\r\n\x1a\n", b"GIF87a", b"GIF89a", b"BM", &[0, 0, 1, 0], b"RIFF1234WEBP"];
    for _ in 0..50 {
        let mut b = c.rng.pick(&sigs).to_vec();
        match c.rng.usize(5) {
            0 => {
                let n = c.rng.usize(b.len() + 1);
                b.truncate(n);
            }
            1 => {
                let o = c.rng.usize(b.len());
                b[o] ^= 1 << c.rng.usize(8);
            }
            2 => {
                let o = c.rng.usize(b.len());
                b[o] = c.rng.below(256) as u8;
            }
            3 => b.insert(0, c.rng.below(256) as u8),
            _ => {}
        }
        let n = c.rng.usize(14);
        for _ in 0..n {
            b.push(c.rng.below(256) as u8);
        }
        c.desc(format!("signature of {:02x?}", b));
        c.distinct(&b);
        c.evals(2);
        let mut cur = std::io::Cursor::new(&b);
        let f = Format::from_reader(&mut cur).ok();
        ensure!(f == sniff(&b), "signature", "{:02x?} recognised as {:?}, expected {:?}", b, f, sniff(&b));
        ensure!(cur.position() == 0, "signature", "the reader is left at {}", cur.position());
        if sniff(&b).is_none() {
            ensure!(matches!(Image::read_from_buffer(&b), Err(d10::DecodingError::UnknownFormat)), "memory", "{:02x?} from memory is not an unknown format", b);
        }
    }
    Ok(())
}

/// Unrecognised content: the extension decides which decoder reports the error
fn c05_fallback(c: &mut Case) -> R {
    let dir = TempDir::new("c05f");
    let mut b: Vec<u8>;
    loop {
        let n = c.rng.usize(40);
        b = (0..n).map(|_| c.rng.below(256) as u8).collect();
        if sniff(&b).is_none() {
            break;
        }
    }
    let known = c.rng.bool();
    let name = if known {
        let e = c.rng.pick(&EXTS).0;
        format!("{}.{}", base_names(&mut c.rng), random_case(&mut c.rng, e))
    } else {
        (*c.rng.pick(&["x", "x.txt", "png", ".png", "x.png.", "x.pn", "x.jpegg", "x.webp ", ".jpg"])).to_string()
    };
    let p = dir.path(&name);
    std::fs::write(&p, &b).expect("temp file");
    c.desc(format!("unrecognised content in {:?}", name));
    c.distinct(&(name.clone(), b.clone()));
    c.evals(2);
    match Image::open(&p) {
        Ok(i) => return fail("fallback", format!("garbage opened as {}x{}", i.width(), i.height())),
        Err(e) => {
            let unknown = matches!(e, d10::DecodingError::UnknownFormat);
            ensure!(unknown != known, "fallback", "garbage in {:?} reports {:?}", name, e.to_string());
        }
    }
    // ICO files of type 2 (cursors) and WebP/PNG with damaged signatures exercise the positive fallback
    let mut cur = encode_as(Format::Ico, &Image::new_from_buffer(gen::image(&mut c.rng, 5)));
    cur[2] = 2;
    for (e, ok) in [("ico", true), ("ICO", true), ("Ico", true), ("png", false), ("xyz", false)] {
        let q = dir.path(&format!("cursor.{}", e));
        std::fs::write(&q, &cur).expect("temp file");
        let r = Image::open(&q);
        if r.is_ok() != ok && ok {
            // the decoder may refuse cursors: then the extension must at least have been tried
            let u = matches!(r, Err(d10::DecodingError::UnknownFormat));
            ensure!(!u, "fallback", "unrecognised content in a .{} file is an unknown format", e);
        } else {
            ensure!(r.is_ok() == ok, "fallback", "cursor file as .{} opened: {}", e, r.is_ok());
            c.count("positive fallback");
        }
    }
    ensure!(matches!(Image::open(dir.path("nothing.png")), Err(d10::DecodingError::IoError(_))), "missing", "a missing file is not an i/o error");
    Ok(())
}

fn c05_save(c: &mut Case) -> R {
    use std::os::unix::ffi::OsStringExt;
    let dir = TempDir::new("c05s");
    let img = Image::new_from_buffer(gen::image(&mut c.rng, 6));
    if c.rng.bool() {
        let (e, f) = *c.rng.pick(&EXTS);
        let mut stem = base_names(&mut c.rng).into_bytes();
        if c.rng.chance(0.15) {
            stem.insert(0, 0xff); // not UTF-8
        }
        let mut n = stem.clone();
        n.push(b'.');
        n.extend(random_case(&mut c.rng, e).into_bytes());
        let p = dir.0.join(std::ffi::OsString::from_vec(n));
        c.desc(format!("save as {:?}", p.file_name()));
        c.distinct(&p.as_os_str().to_os_string());
        c.evals(3);
        ensure!(Format::from_path(&p) == Some(f), "extension", "{:?} is {:?}", p.file_name(), Format::from_path(&p));
        if let Err(e) = img.save(&p) {
            return fail("save", format!("{:?}: {}", p.file_name(), e));
        }
        let d = std::fs::read(&p).unwrap_or_default();
        ensure!(d == encode_as(f, &img), "default options", "{:?} is not what the default options of {:?} give", p.file_name(), f);
        // the documented defaults
        match f {
            Format::Png => {
                let q = png_read(&d);
                ensure!(matches!(&q, Ok(q) if q.color_type == 6 && q.bit_depth == 8), "default options", "png default is not rgba8");
            }
            Format::Jpeg => {
                let j = jpeg_info(&d);
                ensure!(matches!(&j, Ok(j) if j.sof != 0xc2 && j.comps.len() == 3 && j.dqt[0].1[0] == 5), "default options", "jpeg default is not baseline quality 85: {:?}", j);
            }
            Format::Bmp => ensure!(matches!(bmp_read(&d), Ok(b) if b.bpp == 32), "default options", "bmp default is not rgba8"),
            Format::WebP => ensure!(webp_kind(&d) == Ok("lossy"), "default options", "webp default is not lossy"),
            Format::Ico => ensure!(matches!(ico_read(&d), Ok(i) if i.png.color_type == 6), "default options", "ico default is not rgba8"),
            Format::Gif => ensure!(gif_read(&d).is_ok(), "default options", "gif"),
        }
        c.count(&format!("saved {:?}", f));
    } else {
        let n = *c.rng.pick(&["x", "x.", "x.tif", "x.jpgg", "x.pn", "png", ".png", "x.png.bak", "x.webm", "x.jpe", "ä", "x.p ng", "x. png", "x.png ", "x.ｐｎｇ", "x.jp\u{0131}g", "x.gıf", "x.ICO2"]);
        let p = dir.path(n);
        let exists = c.rng.bool();
        let content = b"keep me".to_vec();
        if exists {
            std::fs::write(&p, &content).expect("temp file");
        }
        c.desc(format!("save as {:?} (existing: {})", n, exists));
        c.distinct(&(n, exists));
        c.evals(3);
        let r = img.save(&p);
        ensure!(matches!(r, Err(d10::EncodingError::BadFileExtension(_))), "unknown extension", "saving as {:?} gives {:?}", n, r.err().map(|e| e.to_string()));
        let left: Vec<_> = std::fs::read_dir(&dir.0).map(|d| d.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
        if exists {
            ensure!(std::fs::read(&p).ok() == Some(content) && left.len() == 1, "refused save", "saving as {:?} touched the existing file", n);
        } else {
            ensure!(left.is_empty(), "refused save", "saving as {:?} created {:?}", n, left);
        }
        ensure!(Format::from_path(&p).is_none() && EncodingFormat::from_path(&p).is_err(), "extension", "{:?} has a format", n);
        // with an explicit format the name does not matter
        let (name, fmt) = any_format(&mut c.rng);
        let mem = img.save_to_buffer(fmt.clone());
        let r = img.save_with_format(&p, fmt);
        c.eval();
        match mem {
            Ok(mem) => ensure!(r.is_ok() && std::fs::read(&p).ok() == Some(mem), "explicit format", "{} to {:?}", name, n),
            Err(_) => ensure!(r.is_err(), "explicit format", "{} to {:?} succeeds", name, n),
        }
        c.count("refused");
    }
    Ok(())
}

pub fn c05(m: &mut Mon) {
    m.rule = "files with every pair of content and name, signatures and near-signatures of every length, garbage under every kind of name, saves under all letter cases, multi-dot and non-UTF-8 names; observed: image or error, directory contents, bytes written; non-trivial: distinct (content, name)".into();
    let n = m.n(3 * (6_000), 10);
    m.cases("open", n, c05_open);
    let n = m.n(3 * (6_000), 20);
    m.cases("signatures", n, c05_sniff);
    let n = m.n(3 * (4_000), 10);
    m.cases("fallback", n, c05_fallback);
    let n = m.n(3 * (6_000), 10);
    m.cases("save", n, c05_save);
    m.cases("names", 1, |c| {
        for (e, f) in EXTS {
            // every letter case
            for k in 0..1u32 << e.len() {
                let s: String = e.chars().enumerate().map(|(i, ch)| if k >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
                for base in ["a.", "a.b.", "dir.png/a.", ".a."] {
                    let p = format!("{}{}", base, s);
                    c.evals(2);
                    ensure!(Format::from_path(p.as_ref()) == Some(f), "extension", "{} is {:?}", p, Format::from_path(p.as_ref()));
                    ensure!(EncodingFormat::from_path(p.as_ref()).map(|q| q.format()).ok() == Some(f), "extension", "{} encodes as another format", p);
                }
            }
        }
        Ok(())
    });
}
