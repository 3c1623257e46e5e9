//! C31: memory in use while and after the library works, observed in processes of their own
use crate::alloc;
use crate::codecs::{all_formats, any_format};
use crate::conc;
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::style::{self, some_op, Call, OPS};
use d10::Image;
use std::path::Path;

/// Something that fails (or ends early) somewhere on its way
fn failing(r: &mut Rng, dir: &Path) -> (String, Box<dyn Fn() -> u64>) {
    let (w, h) = (1 + r.below(9) as u32, 1 + r.below(9) as u32);
    let kind = r.usize(gen::KINDS);
    let a = Image::new_from_buffer(gen::image_kind(r, w, h, kind));
    let b = a.flip_horizontal();
    let at = r.below((w * h) as u64) as u32;
    let (x, y) = (at % w, at / w);
    let panics = r.chance(0.4);
    let end = move |n: u32| -> bool {
        if n == at && panics {
            panic!("callback");
        }
        n == at
    };
    let dir = dir.to_owned();
    let id = r.u64();
    let n = |r: bool| r as u64;
    macro_rules! call {
        ($name:expr, $f:expr) => {
            (format!("{} which {} at {} of {}x{}", $name, if panics { "panics" } else { "fails" }, at, w, h), Box::new($f))
        };
    }
    match r.usize(16) {
        0 => call!("try_map_colors", move || {
            let mut i = 0;
            n(a.try_map_colors(|c| {
                i += 1;
                if end(i - 1) { Err(c.to_string()) } else { Ok(*c) }
            }).is_ok())
        }),
        1 => call!("try_map_colors_enumerated", move || n(a.try_map_colors_enumerated(|px, py, c| if end(py * w + px) { Err(c.to_string()) } else { Ok(*c) }).is_ok())),
        2 => call!("try_mod_colors", move || {
            let mut a = a.clone();
            let i = std::cell::Cell::new(0);
            n(a.try_mod_colors(|c| {
                i.set(i.get() + 1);
                if end(i.get() - 1) { Err(c.to_string()) } else { Ok(*c) }
            }).is_ok())
        }),
        3 => call!("try_mod_colors_enumerated", move || {
            let mut a = a.clone();
            n(a.try_mod_colors_enumerated(|px, py, c| if end(py * w + px) { Err(c.to_string()) } else { Ok(*c) }).is_ok())
        }),
        4 => call!("try_compose", move || n(Image::try_compose([&a, &b], d10::Rgb::BLACK, |px, py, [p, _]| if end(py * w + px) { Err(p.to_string()) } else { Ok(p) }).is_ok())),
        5 => call!("try_compose_slice", move || n(Image::try_compose_slice(&[&a, &b, &a], d10::Rgb::BLACK, |px, py, p| if end(py * w + px) { Err(p[0].to_string()) } else { Ok(p[2]) }).is_ok())),
        6 => call!("try_new_from_func", move || n(d10::PixelBuffer::try_new_from_func(w, h, |px, py| if end(py * w + px) { Err(px.to_string()) } else { Ok(d10::Rgb::WHITE) }).is_ok())),
        7 => ("a missing file".into(), Box::new(move || n(Image::open(dir.join("missing.png")).is_ok()))),
        8 => ("a directory".into(), Box::new(move || n(Image::open(&dir).is_ok()) + 2 * n(a.save(dir.join("no/such/dir.png")).is_ok()))),
        9 => {
            let ext = *r.pick(&["", ".tiff", ".PN", ".doc", ".longextension"]);
            (format!("saving with the extension {:?}", ext), Box::new(move || n(a.save(dir.join(format!("f{}", ext))).is_ok())))
        }
        10 => {
            let b: Vec<u8> = (0..r.usize(300)).map(|_| r.u64() as u8).collect();
            (format!("{} bytes of noise", b.len()), Box::new(move || n(Image::read_from_buffer(&b).is_ok())))
        }
        11 => {
            let missing = r.usize(3);
            (format!("a queue that fails at step {}", missing), Box::new(move || {
                let p = dir.join(format!("{}.png", id));
                if a.save(&p).is_err() {
                    return 9;
                }
                let q = d10_commands::Queue::new().silent();
                let q = match missing {
                    0 => q.open(dir.join("missing.png")),
                    1 => q.invert().open(&p),
                    _ => q.open(&p).invert().save(dir.join("none/x.png")),
                };
                let ok = q.invert().save(dir.join(format!("{}.doc", id))).run().is_ok();
                let _ = std::fs::remove_file(p);
                n(ok)
            }))
        }
        12 => ("option names that don't exist".into(), Box::new(move || {
            let s = format!("x{}", id);
            n(s.parse::<d10::FilterMode>().is_ok()) + n(s.parse::<d10::ops::BlendOp>().is_ok()) + n(s.parse::<d10::Intensity>().is_ok()) + n(s.parse::<d10::EqualizeMode>().is_ok()) + n(s.parse::<d10::ops::BalanceMode>().is_ok())
        })),
        13 => ("buffers of the wrong size".into(), Box::new(move || {
            let d = a.data().to_vec();
            let e = catch(|| Image::new_from_raw(w + 1, h, d)).is_err();
            let f = catch(|| Image::new(1 << 20, 1 << 20)).is_err();
            n(e) + n(f)
        })),
        14 => ("pixels outside the image".into(), Box::new(move || {
            let e = catch(|| *a.get_pixel(x, h + y)).is_err();
            let mut b = a.clone();
            let f = catch(move || b.put_pixel(w + x, y, d10::Rgb::BLACK)).is_err();
            n(e) + n(f)
        })),
        _ => {
            // an image that a format can't store
            let (w, h, f) = match r.usize(3) {
                0 => (300 + x, 1, d10::EncodingFormat::ico_default()),
                1 => (16384 + x, 1, d10::EncodingFormat::webp_default()),
                _ => (1, 65536 + y, d10::EncodingFormat::jpeg_default()),
            };
            (format!("saving {}x{} as {:?}", w, h, f.format()), Box::new(move || n(Image::new(w, h).save_to_buffer(f.clone()).is_ok())))
        }
    }
}

/// What is done in one pass
fn sequence(seed: u64, dir: &Path) -> Vec<(String, Box<dyn Fn() -> u64>)> {
    let mut r = Rng::new(seed);
    let mut v: Vec<(String, Box<dyn Fn() -> u64>)> = vec![];
    match r.usize(4) {
        0 => (0..6).for_each(|_| v.push(failing(&mut r, dir))),
        3 => {
            for Call { name, run } in style::calls(r.u64()) {
                v.push((name, run));
            }
        }
        k => {
            let w = std::rc::Rc::new(conc::world(&mut r, 14, dir));
            for i in 0..6 {
                let (name, f) = conc::task(&mut r, &w, k == 2 && i % 2 == 0);
                let w = w.clone();
                v.push((name, Box::new(move || f(&w, 0))));
            }
        }
    }
    v
}

fn levels() -> (i64, i64) {
    (alloc::live(), alloc::heap())
}

/// Growth of the heap over the last `n` passes if there is some in each of them
fn growth(mut pass: impl FnMut(), warm: usize, n: usize) -> Option<(i64, i64)> {
    for _ in 0..warm {
        pass();
    }
    let mut seen: Vec<(i64, i64)> = Vec::with_capacity(n + 1);
    seen.push(levels());
    for _ in 0..n {
        pass();
        seen.push(levels());
    }
    let rust = seen.windows(2).all(|p| p[1].0 > p[0].0);
    let all = seen.windows(2).all(|p| p[1].1 > p[0].1);
    if rust || all {
        Some((seen[n].0 - seen[0].0, seen[n].1 - seen[0].1))
    } else {
        None
    }
}

fn leak_child(seed: u64, dir: &Path) {
    let v = sequence(seed, dir);
    let call = |i: usize| {
        let _ = catch(|| (v[i].1)());
    };
    let all = || (0..v.len()).for_each(call);
    println!("calls {}", v.len());
    // a leak goes on for ever
    if growth(all, 3, 6).is_some() {
        if let Some(g) = growth(all, 10, 20) {
            let who: Vec<&str> = (0..v.len()).filter(|i| growth(|| call(*i), 2, 8).is_some()).map(|i| &v[i].0[..]).collect();
            println!("grows {} {} {}", g.0, g.1, who.join("; "));
        }
    }
}

/// The same kind of call with other images and parameters each time
fn fresh_child(seed: u64) {
    let mut r = Rng::new(seed);
    let k = r.usize(OPS + 8);
    let formats = all_formats();
    let (name, f) = formats[r.usize(formats.len())].clone();
    let mut op = String::new();
    let mut step = |r: &mut Rng| {
        let (w, h) = (1 + r.below(7) as u32, 1 + r.below(7) as u32);
        let kind = r.usize(gen::KINDS);
        let a = Image::new_from_buffer(gen::image_kind(r, w, h, kind));
        if k >= OPS {
            op.clone_from(&name);
            let _ = catch(|| {
                let b = a.save_to_buffer(f.clone()).unwrap_or_default();
                let n = if r.chance(0.3) { r.usize(b.len() + 1) } else { b.len() };
                let _ = Image::read_from_buffer(&b[..n]);
            });
        } else {
            let kind = r.usize(gen::KINDS);
            let b = Image::new_from_buffer(gen::image_kind(r, 3, 4, kind));
            let (name, f, _, _) = some_op(r, k, w, h);
            op = name.split(' ').next().unwrap_or("").to_owned();
            let _ = catch(|| drop(f(&a, &b)));
        }
    };
    let half = 600;
    for _ in 0..half {
        step(&mut r);
    }
    let a = levels();
    for _ in 0..half {
        step(&mut r);
    }
    let b = levels();
    println!("calls {}", 2 * half);
    println!("fresh {} {} {}", b.0 - a.0, b.1 - a.1, op);
}

/// A long queue: what it needs does not depend on how many commands there are
fn queue_peak(r: &mut Rng, dir: &Path) {
    let (w, h) = *r.pick(&[(160u32, 120u32), (4000, 5), (3, 5000)]);
    let kind = r.usize(gen::KINDS);
    let a = Image::new_from_buffer(gen::image_kind(r, w, h, kind));
    let p = dir.join("q.png");
    if a.save(&p).is_err() {
        return;
    }
    let n = 250;
    let mut q = d10_commands::Queue::new().silent().open(&p);
    let m = r.usize(12);
    for i in 0..n {
        q = match if m < 10 { m } else { (i + m) % 10 } {
            0 => q.invert(),
            1 => q.gamma(1.01),
            2 => q.to_gray(d10::Intensity::Average),
            3 => q.brightness(0.01),
            4 => q.contrast(1.01),
            5 => q.hue_rotate(3.0),
            6 => q.level(0.01, 0.99, 1.0),
            7 => q.lightness(1.01),
            8 => q.saturation(0.99),
            _ => q.open(&p),
        };
    }
    let q = q.save(dir.join("r.png"));
    let (ok, peak) = alloc::peak(|| catch(|| q.run().is_ok()).unwrap_or(false));
    if ok {
        println!("peak {} {} 0 queue of {} commands ({}) on {}x{}", peak, 32 * a.data().len(), n + 2, m, w, h);
    }
}

fn peak_child(seed: u64, dir: &Path) {
    let mut r = Rng::new(seed);
    if r.chance(0.06) {
        return queue_peak(&mut r, dir);
    }
    let (w, h) = *r.pick(&[(30_000u32, 1u32), (1, 30_000), (210, 190), (9_000, 3), (3, 9_000), (2, 20_000), (700, 40)]);
    let kind = r.usize(gen::KINDS);
    let a = Image::new_from_buffer(gen::image_kind(&mut r, w, h, kind));
    let px = |i: &Image| 16 * i.data().len() as i64;
    println!("calls 1");
    if r.chance(0.02) {
        // down to almost nothing, where windows are larger than the image
        let (w, h) = *r.pick(&[(900u32, 2u32), (3, 850), (60, 800), (300, 40)]);
        let m = r.usize(5);
        let f = [d10::FilterMode::Nearest, d10::FilterMode::Bilinear, d10::FilterMode::Bicubic, d10::FilterMode::Lanczos3, d10::FilterMode::Auto][if r.bool() { m } else { 4 }];
        let a = Image::new_from_buffer(gen::image_kind(&mut r, w, h, kind));
        let (o, peak) = alloc::peak(|| a.resize(1, 1, f));
        println!("peak {} {} 16 reduce with {:?} {}x{}", peak, px(&a) + px(&o), f, w, h);
        return;
    }
    if r.chance(0.3) {
        let (name, f) = any_format(&mut r);
        let (b, peak) = alloc::peak(|| a.save_to_buffer(f));
        if let Ok(b) = b {
            println!("peak {} {} {} saving as {} {}x{}", peak, px(&a) + b.len() as i64, b.capacity(), name, w, h);
            let (i, peak) = alloc::peak(|| Image::read_from_buffer(&b));
            if let Ok(i) = i {
                let before = alloc::live();
                let n = px(&i);
                drop(i);
                println!("peak {} {} {} opening {} {}x{}", peak, n + b.len() as i64, before - alloc::live(), name, w, h);
            }
        }
        return;
    }
    let k = r.usize(OPS);
    let kind = r.usize(gen::KINDS);
    let b = match r.usize(3) {
        0 => Image::new_from_buffer(gen::image_kind(&mut r, 5, 4, kind)),
        1 => Image::new_from_buffer(gen::image_kind(&mut r, h.min(60), w.min(60), kind)),
        _ => a.flip_horizontal(),
    };
    let b = if (28..=29).contains(&k) { Image::new_from_buffer(gen::image_kind(&mut r, 5, 4, kind)) } else { b };
    let (mut name, mut f, _, _) = some_op(&mut r, k, w, h);
    if (10..=12).contains(&k) && r.chance(0.7) {
        // sizes related to the image's own
        let m = r.usize(5);
        let m2 = [d10::FilterMode::Nearest, d10::FilterMode::Bilinear, d10::FilterMode::Bicubic, d10::FilterMode::Lanczos3, d10::FilterMode::Auto][m];
        let p = *r.pick(&[3u32, 20, 45, 99, 150]);
        let (nw, nh) = ((w * p / 100).max(1), (h * p / 100).max(1));
        name = format!("resize {} {} {}", nw, nh, m);
        f = Box::new(move |a, _| a.resize(nw, nh, m2));
    }
    let (o, peak) = alloc::peak(|| f(&a, &b));
    let before = alloc::live();
    let n = px(&o);
    drop(o);
    println!("peak {} {} {} {} on {}x{} and {}x{}", peak, px(&a) + px(&b) + n, before - alloc::live(), name, a.width(), a.height(), b.width(), b.height());
}

pub fn child(kind: &str, seed: u64, dir: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    alloc::track();
    match kind {
        "leak" => leak_child(seed, Path::new(dir)),
        "fresh" => fresh_child(seed),
        _ => peak_child(seed, Path::new(dir)),
    }
    println!("done");
    std::process::exit(0)
}

fn run_child(c: &mut Case, kind: &str, seed: u64, dir: &Path) -> Result<Vec<String>, Fail> {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--mem", kind, &seed.to_string()])
        .arg(dir)
        // freed blocks are free at once
        .env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0")
        .output()
        .map_err(|e| Fail { sig: "check".into(), msg: format!("cannot start a process: {}", e) })?;
    let lines: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_owned()).collect();
    ensure!(out.status.code() == Some(0) && lines.last().map_or(false, |l| l == "done"), format!("{}:crash", kind), "the process ended with {} after {:?}: {}", out.status, lines, String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>());
    for l in &lines {
        if let Some(n) = l.strip_prefix("calls ") {
            c.add("calls", n.parse().unwrap_or(0));
        }
    }
    Ok(lines)
}

fn leaks(c: &mut Case) -> R {
    let d = TempDir::new("c31");
    let seed = c.rng.u64();
    c.desc(format!("process {} repeats its calls", seed));
    c.distinct(&seed);
    let lines = run_child(c, "leak", seed, &d.0)?;
    c.eval();
    c.count("processes that repeat their calls");
    for l in &lines {
        if let Some(g) = l.strip_prefix("grows ") {
            let v: Vec<&str> = g.splitn(3, ' ').collect();
            let names: Vec<&str> = v[2].split("; ").collect();
            return fail(format!("leak:{}", names[0].split(' ').next().unwrap_or("")), format!("20 repetitions leave {} bytes of Rust's heap and {} of the whole heap behind: {}", v[0], v[1], v[2]));
        }
    }
    Ok(())
}

/// Bytes that may be kept
const KEPT: i64 = 16 * 1024;

fn fresh(c: &mut Case) -> R {
    let seed = c.rng.u64();
    c.desc(format!("process {} makes the same kind of call with ever new images and parameters", seed));
    c.distinct(&seed);
    let lines = run_child(c, "fresh", seed, Path::new("."))?;
    for l in &lines {
        if let Some(g) = l.strip_prefix("fresh ") {
            c.eval();
            c.count("processes with new inputs in every call");
            let v: Vec<&str> = g.splitn(3, ' ').collect();
            let (a, b): (i64, i64) = (v[0].parse().unwrap_or(0), v[1].parse().unwrap_or(0));
            c.max("bytes kept after 600 more calls", a.max(b) as f64);
            ensure!(a < KEPT && b < KEPT, format!("kept:{}", v[2]), "600 more calls of {} with new inputs leave {} bytes of Rust's heap and {} of the whole heap behind", v[2], a, b);
        }
    }
    Ok(())
}

fn peaks(c: &mut Case) -> R {
    let seed = c.rng.u64();
    c.desc(format!("process {}", seed));
    c.distinct(&seed);
    let d = TempDir::new("c31p");
    let lines = run_child(c, "peak", seed, &d.0)?;
    for l in &lines {
        if let Some(g) = l.strip_prefix("peak ") {
            c.eval();
            let v: Vec<&str> = g.splitn(4, ' ').collect();
            let n = |i: usize| v[i].parse::<i64>().unwrap_or(0);
            let (peak, size, kept) = (n(0), n(1), n(2));
            let what = v[3].split([' ', '{', '\'']).take(if v[3].starts_with("saving") { 3 } else if v[3].starts_with("opening") { 2 } else { 1 }).collect::<Vec<_>>().join(" ").to_lowercase();
            c.count(&format!("peak of {}", what));
            c.max(&format!("peak per byte of the images, {}", what), peak as f64 / size as f64);
            c.max("kept by the result per byte of the images", kept as f64 / size as f64);
            // JPEG works in floats and 16 bit coefficients of all planes
            let times = if what.contains("jpeg") { 36 } else { 14 };
            ensure!(peak <= times * size + (8 << 20), format!("peak:{}", what), "{} needed {} bytes for images of {} bytes", v[3], peak, size);
            ensure!(kept <= 2 * size + (64 << 10), format!("result:{}", what), "the result of {} occupies {} bytes, the images {}", v[3], kept, size);
        }
    }
    Ok(())
}

/// Programs of the Python module, run again and again in their interpreter
fn python(c: &mut Case) -> R {
    let (n, grown) = crate::pymon::growing(c)?;
    c.distinct(&c.desc.clone());
    c.add("python programs repeated", n);
    c.evals(n);
    if let Some((p, blocks, bytes)) = grown.first() {
        return fail("python", format!("16 repetitions leave {} Python objects and {} bytes of the C heap behind:\n{}", blocks, bytes, p.chars().take(1500).collect::<String>()));
    }
    Ok(())
}

pub fn c31(m: &mut Mon) {
    m.rule = "heap in use (Rust's own by a counting allocator, the whole heap from the C library's statistics) in processes of their own: after each of many repetitions of the same calls, after ever new inputs, and at its peak while one operation, save or read runs; non-trivial: distinct sequences of calls".into();
    m.assumptions.push("memory counts as leaked when it grows with every repetition of the same calls; one-time tables and caches of bounded size are allowed".into());
    m.assumptions.push("memory the C library libwebp needs while it runs is not part of the peak".into());
    let n = m.n(1600, 20);
    m.cases("leaks", n, leaks);
    let n = m.n(400, 20);
    m.cases("fresh", n, fresh);
    let n = m.n(1200, 20);
    m.cases("peaks", n, peaks);
    let n = m.n(300, 20);
    m.cases("python", n, python);
}
