//! C06 - C08: exact pixel moves, pixel buffers, kernel windows
use crate::ensure;
use crate::fw::*;
use crate::gen;
use d10_core::color::illuminant::D65;
use d10_core::color::observer::O2;
use d10_core::color::*;
use d10_core::kernel::Kernel;
use d10_core::kernel_dyn::KernelDyn;
use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
use std::cell::{Cell, RefCell};

type Bits = [u32; 4];

/// Every pixel carries its own identity in its bits
fn tag(i: usize, salt: u32) -> [f32; 4] {
    let k = i as u32;
    [
        f32::from_bits(0x3f00_0000 | (k & 0x7f_ffff)),
        f32::from_bits(0x3e00_0000 | (salt & 0x7f_ffff)),
        f32::from_bits(0x3e80_0000 | (k.wrapping_mul(2_654_435_761) & 0x7f_ffff)),
        f32::from_bits(0x3f00_0000 | ((k ^ 0x55) & 0x3f_ffff)),
    ]
}

fn b4<C: Color>(c: &C) -> Bits {
    let d = c.data();
    [d[0].to_bits(), d[1].to_bits(), d[2].to_bits(), c.alpha().to_bits()]
}

/// Model of a buffer: what every coordinate must hold
#[derive(Clone)]
struct Grid {
    w: u32,
    h: u32,
    px: Vec<Bits>,
}

impl Grid {
    fn of<C: Color>(b: &PixelBuffer<C>) -> Grid {
        Grid { w: b.width(), h: b.height(), px: b.data().iter().map(b4).collect() }
    }
    fn at(&self, x: u32, y: u32) -> Bits {
        self.px[y as usize * self.w as usize + x as usize]
    }
    fn build(w: u32, h: u32, f: impl Fn(u32, u32) -> Bits) -> Grid {
        let mut px = Vec::with_capacity((w * h) as usize);
        for y in 0..h {
            for x in 0..w {
                px.push(f(x, y));
            }
        }
        Grid { w, h, px }
    }
    fn check<C: Color>(&self, name: &str, b: &PixelBuffer<C>) -> R {
        ensure!(b.width() == self.w && b.height() == self.h, format!("{}:size", name), "{}: size {}x{}, expected {}x{}", name, b.width(), b.height(), self.w, self.h);
        ensure!(b.data().len() == self.px.len(), format!("{}:len", name), "{}: {} pixels, expected {}", name, b.data().len(), self.px.len());
        for (i, (g, w)) in b.data().iter().zip(&self.px).enumerate() {
            if b4(g) != *w {
                let (x, y) = (i as u32 % self.w, i as u32 / self.w);
                return fail(name, format!("{}: pixel ({},{}) of {}x{} holds {:?}, expected bits {:x?}", name, x, y, self.w, self.h, g.data(), w));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C06

#[derive(Debug, Clone, Copy)]
enum Move {
    FlipH,
    FlipV,
    R90,
    R180,
    R270,
    Crop(u32, u32, u32, u32),
}

fn model_move(g: &Grid, m: Move) -> Grid {
    let (w, h) = (g.w, g.h);
    match m {
        Move::FlipH => Grid::build(w, h, |x, y| g.at(w - 1 - x, y)),
        Move::FlipV => Grid::build(w, h, |x, y| g.at(x, h - 1 - y)),
        // clockwise: the top left pixel of the result is the bottom left pixel of the source
        Move::R90 => Grid::build(h, w, |x, y| g.at(y, h - 1 - x)),
        Move::R180 => Grid::build(w, h, |x, y| g.at(w - 1 - x, h - 1 - y)),
        Move::R270 => Grid::build(h, w, |x, y| g.at(w - 1 - y, x)),
        Move::Crop(ox, oy, cw, ch) => {
            let (x0, y0) = (ox.min(w) as u64, oy.min(h) as u64);
            let x1 = (ox as u64 + cw as u64).min(w as u64).max(x0);
            let y1 = (oy as u64 + ch as u64).min(h as u64).max(y0);
            if x1 == x0 || y1 == y0 {
                Grid { w: 0, h: 0, px: vec![] }
            } else {
                Grid::build((x1 - x0) as u32, (y1 - y0) as u32, |x, y| g.at(x0 as u32 + x, y0 as u32 + y))
            }
        }
    }
}

fn ops_move<C: Color>(b: &PixelBuffer<C>, m: Move) -> PixelBuffer<C> {
    match m {
        Move::FlipH => d10_ops::flip_horizontal(b),
        Move::FlipV => d10_ops::flip_vertical(b),
        Move::R90 => d10_ops::rotate90(b),
        Move::R180 => d10_ops::rotate180(b),
        Move::R270 => d10_ops::rotate270(b),
        Move::Crop(x, y, w, h) => d10_ops::crop(b, x, y, w, h),
    }
}

fn img_move(b: &d10::Image, m: Move) -> d10::Image {
    match m {
        Move::FlipH => b.flip_horizontal(),
        Move::FlipV => b.flip_vertical(),
        Move::R90 => b.rotate90(),
        Move::R180 => b.rotate180(),
        Move::R270 => b.rotate270(),
        Move::Crop(x, y, w, h) => b.crop(x, y, w, h),
    }
}

fn name(m: Move) -> &'static str {
    match m {
        Move::FlipH => "flip_horizontal",
        Move::FlipV => "flip_vertical",
        Move::R90 => "rotate90",
        Move::R180 => "rotate180",
        Move::R270 => "rotate270",
        Move::Crop(..) => "crop",
    }
}

fn random_move(r: &mut Rng, w: u32, h: u32) -> Move {
    let edge = |r: &mut Rng, n: u32| -> u32 {
        match r.usize(9) {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1),
            3 => n + 1,
            4 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 65536]),
            5 => u32::MAX - n,
            _ => r.below(n as u64 + 1) as u32,
        }
    };
    match r.usize(8) {
        0 => Move::FlipH,
        1 => Move::FlipV,
        2 => Move::R90,
        3 => Move::R180,
        4 => Move::R270,
        // complete rows or columns
        5 if r.bool() => {
            let (rows, all) = (r.bool(), *r.pick(&[0u32, 1, u32::MAX / 2]));
            let (n, full) = if rows { (h, w) } else { (w, h) };
            let (o, k) = (edge(r, n), edge(r, n));
            let full = full.saturating_add(all);
            if rows {
                Move::Crop(0, o, full, k)
            } else {
                Move::Crop(o, 0, k, full)
            }
        }
        _ => Move::Crop(edge(r, w), edge(r, h), edge(r, w), edge(r, h)),
    }
}

fn any_dims(r: &mut Rng, max: u32) -> (u32, u32) {
    if gen::is_huge() || gen::is_long() {
        return gen::dims(r, max);
    }
    match r.usize(30) {
        0 => (0, 0),
        1 => (1, 2000 + r.below(3000) as u32),
        2 => (2000 + r.below(3000) as u32, 1),
        3 => (200 + r.below(100) as u32, 150 + r.below(90) as u32),
        _ => gen::dims(r, max),
    }
}

fn c06_case(c: &mut Case) -> R {
    let (w, h) = any_dims(&mut c.rng, 40);
    let salt = c.rng.u64() as u32;
    macro_rules! run {
        ($mk:expr) => {{
            let mk = $mk;
            let mut b = PixelBuffer::new_from_raw(w, h, (0..(w * h) as usize).map(|i| mk(tag(i, salt))).collect());
            let mut g = Grid::of(&b);
            let steps = 1 + c.rng.usize(8);
            let mut hist = vec![];
            for _ in 0..steps {
                let m = random_move(&mut c.rng, g.w, g.h);
                hist.push(m);
                c.desc(format!("{}x{} {:?}", w, h, hist));
                let before = Grid::of(&b);
                let n = ops_move(&b, m);
                c.eval();
                c.count(name(m));
                before.check("input changed", &b)?;
                g = model_move(&g, m);
                g.check(name(m), &n)?;
                b = n;
                if b.is_empty() && c.rng.chance(0.8) {
                    break;
                }
            }
            c.distinct(&(w, h, format!("{:?}", hist)));
        }};
    }
    match c.rng.usize(5) {
        0 => run!(|d| Hsl { data: d }),
        1 => run!(|d: [f32; 4]| Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3])),
        _ => run!(|d| Rgb { data: d }),
    }
    // the Image facade
    let mut img = d10::Image::new_from_raw(w, h, (0..(w * h) as usize).map(|i| Rgb { data: tag(i, salt) }).collect());
    let mut g = Grid::of(img.buffer());
    for _ in 0..1 + c.rng.usize(4) {
        let m = random_move(&mut c.rng, g.w, g.h);
        let n = img_move(&img, m);
        c.eval();
        g = model_move(&g, m);
        g.check(&format!("image.{}", name(m)), n.buffer())?;
        img = n;
    }
    // the algebra, on the real results
    let g = Grid::of(img.buffer());
    c.evals(6);
    g.check("flip_horizontal twice", img.flip_horizontal().flip_horizontal().buffer())?;
    g.check("flip_vertical twice", img.flip_vertical().flip_vertical().buffer())?;
    g.check("rotate90 four times", img.rotate90().rotate90().rotate90().rotate90().buffer())?;
    g.check("rotate90 then rotate270", img.rotate90().rotate270().buffer())?;
    Grid::of(img.rotate180().buffer()).check("rotate180 = both flips", img.flip_horizontal().flip_vertical().buffer())?;
    let q = |r: &mut Rng| r.below(12) as u32;
    let (x, y, x2, y2) = (q(&mut c.rng), q(&mut c.rng), q(&mut c.rng), q(&mut c.rng));
    let (w1, h1, w2, h2) = (q(&mut c.rng), q(&mut c.rng), q(&mut c.rng), q(&mut c.rng));
    let nested = img.crop(x, y, w1, h1).crop(x2, y2, w2, h2);
    let one = img.crop(x + x2, y + y2, w2.min(w1.saturating_sub(x2)), h2.min(h1.saturating_sub(y2)));
    Grid::of(one.buffer()).check("nested crops", nested.buffer())
}

pub fn c06(m: &mut Mon) {
    m.rule = "random sequences of flips, quarter turns and crops (windows inside, across, outside the image and near u32::MAX) over images of tagged pixels (every pixel's bits unique) of all shapes incl. empty, 1-pixel, one row/column, for Rgb/Hsl/Lab buffers and Image; judged bit for bit against a coordinate model; non-trivial: distinct (size, operation sequence)".into();
    let n = m.n(150_000, 20);
    m.cases("moves", n, c06_case);
    let n = m.n(1500, 15);
    m.cases("large moves", n, |c| gen::large(200000, || c06_case(c)));
    let n = m.n(60, 10);
    m.cases("long moves", n, |c| gen::long(|| c06_case(c)));
    let n = m.n(8, 8);
    m.cases("huge moves", n, |c| gen::huge(|| c06_case(c)));
    m.serial("beyond 2^24", 3, c06_beyond);
    // exhaustive: all sizes up to 9x9 under every single move and every crop window up to one beyond
    let k = if m.thorough { 12u64 } else { 7 };
    m.cases("exhaustive", k * k, |c| {
        let (w, h) = (1 + (c.n % k) as u32, 1 + (c.n / k) as u32);
        let b = PixelBuffer::new_from_raw(w, h, (0..(w * h) as usize).map(|i| Rgb { data: tag(i, 7) }).collect());
        let g = Grid::of(&b);
        c.desc(format!("all moves of {}x{}", w, h));
        for m in [Move::FlipH, Move::FlipV, Move::R90, Move::R180, Move::R270] {
            c.eval();
            model_move(&g, m).check(name(m), &ops_move(&b, m))?;
            c.distinct(&(w, h, name(m)));
        }
        for x in 0..=w + 1 {
            for y in 0..=h + 1 {
                for cw in 0..=w + 1 {
                    for ch in 0..=h + 1 {
                        let m = Move::Crop(x, y, cw, ch);
                        c.eval();
                        c.distinct(&(w, h, x, y, cw, ch));
                        model_move(&g, m).check(&format!("crop({},{},{},{})", x, y, cw, ch), &ops_move(&b, m))
                            .map_err(|e| Fail { sig: "crop".into(), msg: e.msg })?;
                    }
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C07

fn log_check(name: &str, w: u32, log: &[(u32, u32)], n: usize) -> R {
    ensure!(log.len() == n, format!("{}:calls", name), "{}: {} calls, expected {}", name, log.len(), n);
    for (i, (x, y)) in log.iter().enumerate() {
        ensure!(*x == i as u32 % w && *y == i as u32 / w, format!("{}:order", name), "{}: call {} is for ({},{}), expected ({},{})", name, i, x, y, i as u32 % w, i as u32 / w);
    }
    Ok(())
}

fn val_check(name: &str, want: &[Bits], log: &[Bits]) -> R {
    ensure!(log.len() <= want.len(), format!("{}:calls", name), "{}: {} calls for {} pixels", name, log.len(), want.len());
    for (i, b) in log.iter().enumerate() {
        ensure!(*b == want[i], format!("{}:value", name), "{}: call {} got the bits {:x?}, expected {:x?}", name, i, b, want[i]);
    }
    Ok(())
}

fn c07_access(c: &mut Case) -> R {
    let (w, h) = any_dims(&mut c.rng, 24);
    let n = (w * h) as usize;
    let salt = c.rng.u64() as u32;
    c.desc(format!("{}x{} salt {}", w, h, salt));
    c.distinct(&(w, h, salt % 64));
    let data: Vec<Rgb> = (0..n).map(|i| Rgb { data: tag(i, salt) }).collect();
    let mut b = PixelBuffer::new_from_raw(w, h, data.clone());
    let mut img = d10::Image::new_from_raw(w, h, data);
    let mut g = Grid::of(&b);
    ensure!(b.is_empty() == (n == 0) && img.is_empty() == (n == 0), "is_empty", "{}x{}", w, h);
    ensure!(img.width() == w && img.height() == h, "image size", "{}x{}", img.width(), img.height());
    // a history of writes through every path, each followed by reads through every path
    let steps = 3 + c.rng.usize(10);
    for step in 0..steps {
        let r = &mut c.rng;
        let v = Rgb { data: tag(1000 + step, salt ^ 0xabc) };
        if n > 0 {
            let (x, y) = match r.usize(4) {
                0 => (0, 0),
                1 => (w - 1, h - 1),
                _ => (r.below(w as u64) as u32, r.below(h as u64) as u32),
            };
            match r.usize(3) {
                0 => {
                    b.put_pixel(x, y, v);
                    img.put_pixel(x, y, v);
                }
                1 => {
                    b.data_mut()[(y * w + x) as usize] = v;
                    img.data_mut()[(y * w + x) as usize] = v;
                }
                _ => {
                    for (px, py, p) in b.enumerate_mut() {
                        if px == x && py == y {
                            *p = v;
                        }
                    }
                    *img.buffer_mut() = b.clone();
                }
            }
            g.px[y as usize * w as usize + x as usize] = b4(&v);
        }
        c.eval();
        g.check("write", &b)?;
        g.check("image write", img.buffer())?;
        let r = &mut c.rng;
        for _ in 0..12 {
            let pickc = |r: &mut Rng, n: u32| -> i32 {
                match r.usize(10) {
                    0 => -1,
                    1 => n as i32,
                    2 => *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, -1000, 1 << 20]),
                    3 => -(r.below(20) as i32),
                    4 => n as i32 + r.below(20) as i32,
                    5 => n as i32 - 1,
                    _ => r.below(n.max(1) as u64) as i32,
                }
            };
            let (x, y) = (pickc(r, w), pickc(r, h));
            let inside = x >= 0 && y >= 0 && (x as i64) < w as i64 && (y as i64) < h as i64;
            c.stats.evaluations += 1;
            ensure!(b.is_in_image(x, y) == inside && img.is_in_image(x, y) == inside, "is_in_image", "({},{}) in {}x{}: {}", x, y, w, h, b.is_in_image(x, y));
            let want = if inside { Some(g.at(x as u32, y as u32)) } else { None };
            ensure!(b.get_pixel_optional(x, y).map(b4) == want, "get_pixel_optional", "({},{}) in {}x{}", x, y, w, h);
            ensure!(img.get_pixel_optional(x, y).map(b4) == want, "image.get_pixel_optional", "({},{}) in {}x{}", x, y, w, h);
            if n > 0 {
                let cx = (x as i64).clamp(0, w as i64 - 1) as u32;
                let cy = (y as i64).clamp(0, h as i64 - 1) as u32;
                ensure!(b4(b.get_pixel_clamped(x, y)) == g.at(cx, cy), "get_pixel_clamped", "({},{}) in {}x{}", x, y, w, h);
                ensure!(b4(img.get_pixel_clamped(x, y)) == g.at(cx, cy), "image.get_pixel_clamped", "({},{}) in {}x{}", x, y, w, h);
            }
            // checked access
            if inside {
                ensure!(b4(b.get_pixel(x as u32, y as u32)) == g.at(x as u32, y as u32), "get_pixel", "({},{}) in {}x{}", x, y, w, h);
                ensure!(b4(img.get_pixel(x as u32, y as u32)) == g.at(x as u32, y as u32), "image.get_pixel", "({},{}) in {}x{}", x, y, w, h);
            } else {
                let r1 = catch(|| b4(b.get_pixel(x as u32, y as u32)));
                ensure!(r1.is_err(), "get_pixel:outside", "({},{}) in {}x{} returned {:x?}", x as u32, y as u32, w, h, r1);
                let r1 = catch(|| b4(img.get_pixel(x as u32, y as u32)));
                ensure!(r1.is_err(), "image.get_pixel:outside", "({},{}) in {}x{} returned {:x?}", x as u32, y as u32, w, h, r1);
                let r1 = catch(|| b.put_pixel(x as u32, y as u32, v));
                ensure!(r1.is_err(), "put_pixel:outside", "({},{}) in {}x{} was accepted", x as u32, y as u32, w, h);
                g.check("put_pixel:outside changed a pixel", &b)?;
                c.stats.counters.entry("refused accesses".into()).and_modify(|v| *v += 3).or_insert(3);
            }
        }
    }
    // enumeration agrees
    c.evals(3);
    let e: Vec<(u32, u32, Bits)> = b.enumerate().map(|(x, y, c)| (x, y, b4(&c))).collect();
    let em: Vec<(u32, u32, Bits)> = { let mut q = b.clone(); let v = q.enumerate_mut().map(|(x, y, c)| (x, y, b4(c))).collect(); v };
    ensure!(e.len() == n && em.len() == n, "enumerate:len", "{} {} of {}", e.len(), em.len(), n);
    for i in 0..n {
        let want = (i as u32 % w, i as u32 / w, g.px[i]);
        ensure!(e[i] == want && em[i] == want, "enumerate", "entry {}: {:?} / {:?}, expected {:?}", i, e[i], em[i], want);
    }
    let cl = b.clone();
    g.check("clone", &cl)
}

fn c07_func(c: &mut Case) -> R {
    let (w, h) = any_dims(&mut c.rng, 16);
    let n = (w * h) as usize;
    let salt = c.rng.u64() as u32;
    c.desc(format!("{}x{} salt {}", w, h, salt));
    let mut data: Vec<Rgb> = (0..n).map(|i| Rgb { data: tag(i, salt) }).collect();
    if c.rng.chance(0.3) {
        // values beyond the colour range are values too
        let (at, by) = (c.rng.usize(4), *c.rng.pick(&[-1.5f32, 3.0, 1e9, f32::INFINITY, f32::NAN]));
        data.iter_mut().step_by(2).for_each(|d| d.data[at] += by);
    }
    let b = PixelBuffer::new_from_raw(w, h, data.clone());
    let img = d10::Image::new_from_raw(w, h, data.clone());
    let g = Grid::of(&b);
    let out = |i: usize| Rgb { data: tag(i, salt ^ 0x7777) };
    let want = Grid { w, h, px: (0..n).map(|i| b4(&out(i))).collect() };
    let stop = match c.rng.usize(4) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n + 1,
        _ => c.rng.usize(n + 1),
    };
    c.distinct(&(w, h, stop));
    let idx = |x: u32, y: u32| (y * w + x) as usize;
    // plain construction
    c.evals(3);
    g.check("new_from_raw", &b)?;
    let col = out(3);
    Grid { w, h, px: vec![b4(&col); n] }.check("new_with_color", &PixelBuffer::new_with_color(w, h, col))?;
    Grid { w, h, px: vec![b4(&col); n] }.check("image.new_with_color", d10::Image::new_with_color(w, h, col).buffer())?;
    Grid { w, h, px: vec![[0; 4]; n] }.check("new", &PixelBuffer::<Rgb>::new(w, h))?;
    Grid { w, h, px: vec![[0; 4]; n] }.check("image.new", d10::Image::new(w, h).buffer())?;
    // from functions
    let mut log = vec![];
    let f = PixelBuffer::new_from_func(w, h, |x, y| { log.push((x, y)); if (x as u64) < w as u64 && y < h { out(idx(x, y)) } else { out(0) } });
    c.eval();
    log_check("new_from_func", w, &log, n)?;
    want.check("new_from_func", &f)?;
    let mut log = vec![];
    let f: Result<PixelBuffer<Rgb>, usize> = PixelBuffer::try_new_from_func(w, h, |x, y| { log.push((x, y)); let i = log.len() - 1; if i == stop { Err(i) } else { Ok(out(i)) } });
    c.eval();
    log_check("try_new_from_func", w, &log, n.min(stop + 1))?;
    match f {
        Ok(f) => { ensure!(stop >= n, "try_new_from_func:error", "error at {} was lost", stop); want.check("try_new_from_func", &f)? }
        Err(e) => ensure!(e == stop && stop < n, "try_new_from_func:error", "returned error {}, raised {}", e, stop),
    }
    // maps over values: FnMut forms log directly, Fn forms through a cell
    macro_rules! plain {
        ($name:expr, $call:expr) => {{
            c.eval();
            let log: RefCell<Vec<Bits>> = RefCell::default();
            let call = $call;
            let r: PixelBuffer<Rgb> = call(&|v: &Rgb| { log.borrow_mut().push(b4(v)); out(log.borrow().len() - 1) });
            let log = log.into_inner();
            ensure!(log.len() == n, concat!($name, ":calls"), "{}: {} calls for {} pixels", $name, log.len(), n);
            val_check($name, &g.px, &log)?;
            want.check($name, &r)?;
        }};
    }
    macro_rules! enumd {
        ($name:expr, $call:expr) => {{
            c.eval();
            let log: RefCell<Vec<(u32, u32)>> = RefCell::default();
            let vals: RefCell<Vec<Bits>> = RefCell::default();
            let call = $call;
            let r: PixelBuffer<Rgb> = call(&|x: u32, y: u32, v: &Rgb| { log.borrow_mut().push((x, y)); vals.borrow_mut().push(b4(v)); out(log.borrow().len() - 1) });
            log_check($name, w, &log.borrow(), n)?;
            val_check($name, &g.px, &vals.borrow())?;
            want.check($name, &r)?;
        }};
    }
    // in-place fallible forms: pixels before the error are replaced, the rest is untouched
    macro_rules! fallible {
        ($name:expr, $in_place:expr, $call:expr) => {{
            c.eval();
            let vals: RefCell<Vec<Bits>> = RefCell::default();
            let call = $call;
            let (r, after): (Result<Option<PixelBuffer<Rgb>>, usize>, PixelBuffer<Rgb>) =
                call(&|v: &Rgb| { vals.borrow_mut().push(b4(v)); let i = vals.borrow().len() - 1; if i == stop { Err(i) } else { Ok(out(i)) } });
            let vals = vals.into_inner();
            ensure!(vals.len() == n.min(stop + 1), concat!($name, ":calls"), "{}: {} calls, error at {} of {}", $name, vals.len(), stop, n);
            val_check($name, &g.px, &vals)?;
            match r {
                Ok(o) => { ensure!(stop >= n, concat!($name, ":error"), "{}: error at {} was lost", $name, stop); if let Some(o) = o { want.check($name, &o)? } }
                Err(e) => ensure!(e == stop && stop < n, concat!($name, ":error"), "{}: returned error {}, raised {}", $name, e, stop),
            }
            let changed = if $in_place { stop.min(n) } else { 0 };
            let px = (0..n).map(|i| if i < changed { want.px[i] } else { g.px[i] }).collect();
            Grid { w, h, px }.check(concat!($name, ":left"), &after)?;
        }};
    }
    macro_rules! fallible_enum {
        ($name:expr, $in_place:expr, $call:expr) => {{
            c.eval();
            let log: RefCell<Vec<(u32, u32)>> = RefCell::default();
            let vals: RefCell<Vec<Bits>> = RefCell::default();
            let call = $call;
            let (r, after): (Result<Option<PixelBuffer<Rgb>>, usize>, PixelBuffer<Rgb>) =
                call(&|x: u32, y: u32, v: &Rgb| { log.borrow_mut().push((x, y)); vals.borrow_mut().push(b4(v)); let i = log.borrow().len() - 1; if i == stop { Err(i) } else { Ok(out(i)) } });
            log_check($name, w, &log.borrow(), n.min(stop + 1))?;
            val_check($name, &g.px, &vals.borrow())?;
            match r {
                Ok(o) => { ensure!(stop >= n, concat!($name, ":error"), "{}: error at {} was lost", $name, stop); if let Some(o) = o { want.check($name, &o)? } }
                Err(e) => ensure!(e == stop && stop < n, concat!($name, ":error"), "{}: returned error {}, raised {}", $name, e, stop),
            }
            let changed = if $in_place { stop.min(n) } else { 0 };
            let px = (0..n).map(|i| if i < changed { want.px[i] } else { g.px[i] }).collect();
            Grid { w, h, px }.check(concat!($name, ":left"), &after)?;
        }};
    }
    type F1<'a> = &'a dyn Fn(&Rgb) -> Rgb;
    type F2<'a> = &'a dyn Fn(u32, u32, &Rgb) -> Rgb;
    type G1<'a> = &'a dyn Fn(&Rgb) -> Result<Rgb, usize>;
    type G2<'a> = &'a dyn Fn(u32, u32, &Rgb) -> Result<Rgb, usize>;
    plain!("map_colors", |f: F1| b.map_colors(f));
    plain!("mod_colors", |f: F1| { let mut q = b.clone(); q.mod_colors(f); q });
    plain!("image.map_colors", |f: F1| img.map_colors(f).buffer().clone());
    plain!("image.mod_colors", |f: F1| { let mut q = img.clone(); q.mod_colors(f); q.buffer().clone() });
    enumd!("map_colors_enumerated", |f: F2| b.map_colors_enumerated(f));
    enumd!("mod_colors_enumerated", |f: F2| { let mut q = b.clone(); q.mod_colors_enumerated(f); q });
    enumd!("image.map_colors_enumerated", |f: F2| img.map_colors_enumerated(f).buffer().clone());
    enumd!("image.mod_colors_enumerated", |f: F2| { let mut q = img.clone(); q.mod_colors_enumerated(f); q.buffer().clone() });
    fallible!("try_map_colors", false, |f: G1| (b.try_map_colors(f).map(Some), b.clone()));
    fallible!("try_mod_colors", true, |f: G1| { let mut q = b.clone(); let r = q.try_mod_colors(f); (r.map(|_| None), q) });
    fallible!("image.try_map_colors", false, |f: G1| (img.try_map_colors(f).map(|i| Some(i.buffer().clone())), img.buffer().clone()));
    fallible!("image.try_mod_colors", true, |f: G1| { let mut q = img.clone(); let r = q.try_mod_colors(f); (r.map(|_| None), q.buffer().clone()) });
    fallible_enum!("try_map_colors_enumerated", false, |f: G2| (b.try_map_colors_enumerated(f).map(Some), b.clone()));
    fallible_enum!("try_mod_colors_enumerated", true, |f: G2| { let mut q = b.clone(); let r = q.try_mod_colors_enumerated(f); (r.map(|_| None), q) });
    fallible_enum!("image.try_map_colors_enumerated", false, |f: G2| (img.try_map_colors_enumerated(f).map(|i| Some(i.buffer().clone())), img.buffer().clone()));
    fallible_enum!("image.try_mod_colors_enumerated", true, |f: G2| { let mut q = img.clone(); let r = q.try_mod_colors_enumerated(f); (r.map(|_| None), q.buffer().clone()) });
    g.check("input changed", &b)?;
    // wrong data length is refused
    for d in [n.wrapping_sub(1), n + 1, 0, w as usize, h as usize] {
        if d != n && d < 1_000_000 {
            c.eval();
            let r = catch(|| PixelBuffer::new_from_raw(w, h, vec![Rgb::RED; d]).data().len());
            ensure!(r.is_err(), "new_from_raw:length", "{}x{} accepted {} pixels", w, h, d);
            let r = catch(|| d10::Image::new_from_raw(w, h, vec![Rgb::RED; d]).data().len());
            ensure!(r.is_err(), "image.new_from_raw:length", "{}x{} accepted {} pixels", w, h, d);
        }
    }
    Ok(())
}

fn valid_size(w: u32, h: u32) -> bool {
    (w == 0) == (h == 0) && (w as u64) * (h as u64) <= (i32::MAX as u64) / 2
}

fn edge_dim(r: &mut Rng) -> u32 {
    match r.usize(8) {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[32767, 32768, 32769, 65535, 65536, 65537, u32::MAX, 1 << 31, 1 << 30, (1 << 30) - 1]),
        3 => r.u64() as u32,
        _ => 1u32 << r.usize(32) as u32,
    }
}

pub fn c07(m: &mut Mon) {
    m.rule = "histories of writes and reads through every access path on tagged buffers of all shapes against a row-major model, with in-range, clamped, out-of-range and extreme coordinates; recorded call logs of every mapping/constructing function incl. every error position class; size validation at the limits; non-trivial: distinct (size, contents class) / (size, error position)".into();
    let n = m.n(12_000, 25);
    m.cases("access", n, c07_access);
    let n = m.n(600, 15);
    m.cases("large access", n, |c| gen::large(70000, || c07_access(c)));
    let n = m.n(8, 10);
    m.cases("long access", n, |c| gen::long(|| c07_access(c)));
    m.cases("functions", n, c07_func);
    let n = m.n(300, 15);
    m.cases("large functions", n, |c| gen::large(70000, || c07_func(c)));
    let n = m.n(8, 10);
    m.cases("long functions", n, |c| gen::long(|| c07_func(c)));
    let n = m.n(6, 8);
    m.cases("huge functions", n, |c| gen::huge(|| c07_func(c)));
    m.cases("huge access", n, |c| gen::huge(|| c07_access(c)));
    m.serial("beyond 2^24", 3, c07_beyond);
    let n = m.n(100_000, 20);
    m.cases("sizes", n, |c| {
        let (mut w, mut h) = (edge_dim(&mut c.rng), edge_dim(&mut c.rng));
        if c.rng.chance(0.3) && w > 1 {
            // right at the limit
            let lim = (i32::MAX as u64) / 2;
            h = ((lim / w as u64) as i64 + c.rng.range(-1, 1)).max(0) as u32;
            if c.rng.bool() {
                std::mem::swap(&mut w, &mut h);
            }
        }
        let want = valid_size(w, h);
        c.desc(format!("{}x{} valid {}", w, h, want));
        c.distinct(&(w, h));
        c.evals(2);
        c.count(if want { "valid sizes" } else { "invalid sizes" });
        ensure!(is_valid_buffer_size(w, h) == want, "is_valid_buffer_size", "{}x{}: {}", w, h, !want);
        if !want {
            let mut called = false;
            let r = catch(|| PixelBuffer::<Rgb>::new_from_func(w, h, |_, _| { called = true; panic!("called") }).width());
            ensure!(r.is_err() && !called, "new_from_func:size", "{}x{} accepted", w, h);
            let mut called = false;
            let r = catch(|| PixelBuffer::<Rgb>::try_new_from_func::<(), _>(w, h, |_, _| { called = true; Err(()) }).is_ok());
            ensure!(r.is_err() && !called, "try_new_from_func:size", "{}x{} accepted", w, h);
            if (w == 0) != (h == 0) {
                let r = catch(|| PixelBuffer::<Rgb>::new_from_raw(w, h, vec![]).width());
                ensure!(r.is_err(), "new_from_raw:size", "{}x{} accepted", w, h);
                let r = catch(|| PixelBuffer::<Rgb>::new_with_color(w, h, Rgb::RED).width());
                ensure!(r.is_err(), "new_with_color:size", "{}x{} accepted", w, h);
                let r = catch(|| d10::Image::new(w, h).width());
                ensure!(r.is_err(), "image.new:size", "{}x{} accepted", w, h);
            }
        }
        Ok(())
    });
    // too large for `new`: with the address space limited, accepting the size would abort the worker
    m.serial("limits", 12, |c| {
        let (w, h) = [(32768, 32768), (1 << 30, 1), (1, 1 << 30), (65536, 65536), (65536, 65537), (u32::MAX, u32::MAX), (u32::MAX, 1), (1 << 31, 2), (0, 5), (5, 0), (0, u32::MAX), (46341, 46341)][c.n as usize];
        c.desc(format!("{}x{}", w, h));
        c.distinct(&(w, h));
        c.evals(2);
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe {
            libc::getrlimit(libc::RLIMIT_AS, &mut old);
            let new = libc::rlimit { rlim_cur: 6 << 30, rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_AS, &new);
        }
        let a = catch(|| PixelBuffer::<Rgb>::new(w, h).data().len());
        let b = catch(|| d10::Image::new_with_color(w, h, Rgb::RED).data().len());
        unsafe {
            libc::setrlimit(libc::RLIMIT_AS, &old);
        }
        ensure!(a.is_err(), "new:size", "{}x{} accepted", w, h);
        ensure!(b.is_err(), "new_with_color:size", "{}x{} accepted", w, h);
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C08

fn at_clamped(b: &gen::Buf, x: i64, y: i64) -> &Rgb {
    let x = x.clamp(0, b.width() as i64 - 1);
    let y = y.clamp(0, b.height() as i64 - 1);
    &b.data()[(y * b.width() as i64 + x) as usize]
}

fn window<const N: usize>(c: &mut Case, b: &gen::Buf, x: i32, y: i32) -> R {
    let k = b.get_kernel::<N>(x, y);
    let d = b.get_kernel_dyn(x, y, N);
    c.evals(2);
    let o = N as i64 / 2;
    ensure!(d.len() == N && d.iter().all(|r| r.len() == N), "dyn-window:size", "{}x{}", d.len(), N);
    for j in 0..N {
        for i in 0..N {
            let want = gen::cbits(at_clamped(b, x as i64 + i as i64 - o, y as i64 + j as i64 - o));
            ensure!(gen::cbits(&k[j][i]) == want, "window", "get_kernel::<{}>({},{}) of {}x{}: cell ({},{}) is wrong", N, x, y, b.width(), b.height(), i, j);
            ensure!(gen::cbits(&d[j][i]) == want, "dyn-window", "get_kernel_dyn({},{},{}) of {}x{}: cell ({},{}) is wrong", x, y, N, b.width(), b.height(), i, j);
        }
    }
    Ok(())
}

/// Windows of even size: both forms show the same pixels, the middle is one of the two central cells
fn even_window<const N: usize>(c: &mut Case, b: &gen::Buf, x: i32, y: i32) -> R {
    let k = b.get_kernel::<N>(x, y);
    let d = b.get_kernel_dyn(x, y, N);
    c.evals(2);
    ensure!(d.len() == N && d.iter().all(|r| r.len() == N), "dyn-window:size", "{}x{}", d.len(), N);
    let at = |o: i64| (0..N * N).all(|q| gen::cbits(&k[q / N][q % N]) == gen::cbits(at_clamped(b, x as i64 + (q % N) as i64 - o, y as i64 + (q / N) as i64 - o)));
    ensure!(at(N as i64 / 2) || at(N as i64 / 2 - 1), "window", "get_kernel::<{}>({},{}) of {}x{} shows other pixels", N, x, y, b.width(), b.height());
    for q in 0..N * N {
        ensure!(gen::cbits(&k[q / N][q % N]) == gen::cbits(&d[q / N][q % N]), "dyn-window", "get_kernel_dyn({},{},{}) of {}x{} differs from get_kernel at ({},{})", x, y, N, b.width(), b.height(), q % N, q / N);
    }
    Ok(())
}

fn weights(r: &mut Rng, n: usize) -> Vec<f32> {
    let style = r.usize(4);
    let hot = r.usize(n);
    (0..n)
        .map(|i| match style {
            0 => (i == hot) as u32 as f32,
            1 => i as f32 + 1.0,
            2 => r.uniform(-3.0, 3.0),
            _ => r.f32() / n as f32,
        })
        .collect()
}

/// reference convolution of one pixel: value and sum of magnitudes (for the tolerance)
fn conv(b: &gen::Buf, x: u32, y: u32, k: &[f32], kw: usize, kh: usize) -> ([f64; 4], [f64; 4]) {
    let (mut s, mut a) = ([0f64; 4], [0f64; 4]);
    for j in 0..kh {
        for i in 0..kw {
            let p = at_clamped(b, x as i64 + i as i64 - (kw / 2) as i64, y as i64 + j as i64 - (kh / 2) as i64);
            for q in 0..4 {
                let v = k[j * kw + i] as f64 * p.data[q] as f64;
                s[q] += v;
                a[q] += v.abs();
            }
        }
    }
    (s, a)
}

fn conv_check(c: &mut Case, name: &str, b: &gen::Buf, out: &gen::Buf, k: &[f32], kw: usize, kh: usize) -> R {
    ensure!(out.width() == b.width() && out.height() == b.height(), format!("{}:size", name), "{}x{} became {}x{}", b.width(), b.height(), out.width(), out.height());
    for (i, px) in out.data().iter().enumerate() {
        let (x, y) = (i as u32 % b.width(), i as u32 / b.width());
        let (s, a) = conv(b, x, y, k, kw, kh);
        c.stats.evaluations += 1;
        for q in 0..4 {
            let d = (px.data[q] as f64 - s[q]).abs();
            // an f32 sum of n terms
            ensure!(d <= 1e-6 + a[q] * 2e-6f64.max(6e-8 * k.len() as f64), name, "{}: pixel ({},{}) channel {} is {}, the weighted sum is {} (kernel {}x{} {:?})", name, x, y, q, px.data[q], s[q], kw, kh, k);
        }
    }
    Ok(())
}

/// What the terms of a weighted sum may add up to before they cancel out
fn magnitude(b: &gen::Buf, k: &[f32]) -> f32 {
    let m = b.data().iter().flat_map(|p| p.data).fold(0f32, |m, v| m.max(v.abs()));
    k.iter().map(|v| v.abs()).sum::<f32>() * m
}

fn small_image(c: &mut Case) -> gen::Buf {
    let (w, h) = gen::dims(&mut c.rng, 14);
    let kind = if c.rng.bool() { 13 } else { c.rng.usize(gen::KINDS) };
    gen::image_kind(&mut c.rng, w, h, kind)
}

fn c08_windows(c: &mut Case) -> R {
    let b = small_image(c);
    c.desc(gen::describe(&b));
    if gen::nontrivial(&b) {
        c.distinct(&gen::bits(&b));
    }
    let (w, h) = (b.width() as i32, b.height() as i32);
    for y in -1..=h {
        for x in -1..=w {
            window::<1>(c, &b, x, y)?;
            window::<3>(c, &b, x, y)?;
            window::<5>(c, &b, x, y)?;
            window::<7>(c, &b, x, y)?;
            even_window::<2>(c, &b, x, y)?;
            even_window::<4>(c, &b, x, y)?;
        }
    }
    for _ in 0..6 {
        let (x, y) = (c.rng.range(-40, w as i64 + 40) as i32, c.rng.range(-40, h as i64 + 40) as i32);
        window::<3>(c, &b, x, y)?;
        window::<9>(c, &b, x, y)?;
        window::<11>(c, &b, x, y)?;
        window::<17>(c, &b, x, y)?;
        even_window::<6>(c, &b, x, y)?;
        even_window::<10>(c, &b, x, y)?;
    }
    Ok(())
}

fn c08_conv(c: &mut Case) -> R {
    let b = small_image(c);
    c.desc(gen::describe(&b));
    if gen::nontrivial(&b) {
        c.distinct(&gen::bits(&b));
    }
    let g = gen::bits(&b);
    macro_rules! fixed {
        ($n:literal) => {{
            let k = weights(&mut c.rng, $n * $n);
            let mut m = [[0f32; $n]; $n];
            for (i, v) in k.iter().enumerate() {
                m[i / $n][i % $n] = *v;
            }
            let out = b.apply_kernel(&Kernel::<$n>::new(m));
            conv_check(c, concat!("apply_kernel:", $n), &b, &out, &k, $n, $n)?;
            let dy = b.apply_kernel_dyn(&KernelDyn::new(k.clone(), $n, $n));
            let tol = 1e-6 + 4e-6 * magnitude(&b, &k);
            for (i, (p, q)) in out.data().iter().zip(dy.data()).enumerate() {
                for ch in 0..4 {
                    let d = (p.data[ch] - q.data[ch]).abs();
                    ensure!(d <= tol, "fixed-vs-dyn", "kernel {:?}: pixel {} {:?} / {:?}", k, i, p.data, q.data);
                }
            }
        }};
    }
    fixed!(1);
    fixed!(3);
    fixed!(5);
    fixed!(7);
    // rectangular dynamic kernels
    let (kw, kh) = (1 + 2 * c.rng.usize(5), 1 + 2 * c.rng.usize(5));
    let k = weights(&mut c.rng, kw * kh);
    let kd = KernelDyn::new(k.clone(), kw as u32, kh as u32);
    c.evals(2);
    ensure!(kd.width as usize == kw && kd.height as usize == kh && kd.get_offset_x() as usize == kw / 2 && kd.get_offset_y() as usize == kh / 2, "kernel_dyn:offset", "{}x{}: {} {}", kw, kh, kd.get_offset_x(), kd.get_offset_y());
    let e: Vec<_> = kd.enumerate().collect();
    ensure!(e.len() == k.len(), "kernel_dyn:enumerate", "{} of {}", e.len(), k.len());
    for (i, (x, y, v)) in e.into_iter().enumerate() {
        ensure!((x as usize, y as usize, v.to_bits()) == (i % kw, i / kw, k[i].to_bits()) && kd.get(x, y).to_bits() == v.to_bits(), "kernel_dyn:get", "{} ({},{})", i, x, y);
    }
    let out = b.apply_kernel_dyn(&kd);
    conv_check(c, "apply_kernel_dyn", &b, &out, &k, kw, kh)?;
    let tol = 1e-6 + 4e-6 * magnitude(&b, &k);
    for _ in 0..4 {
        let (x, y) = (c.rng.below(b.width() as u64) as u32, c.rng.below(b.height() as u64) as u32);
        let v = b.get_kernel_value(x, y, &kd);
        let o = out.get_pixel(x, y);
        ensure!((0..4).all(|i| (v.data[i] - o.data[i]).abs() <= tol), "get_kernel_value", "({},{}) {:?} / {:?}", x, y, v.data, o.data);
    }
    // a wrong number of weights is refused
    let r = catch(|| KernelDyn::new(vec![0.0; kw * kh + 1], kw as u32, kh as u32).width);
    ensure!(r.is_err(), "kernel_dyn:length", "accepted");
    ensure!(gen::bits(&b) == g, "input changed", "by convolution");
    Ok(())
}

fn c08_edges(c: &mut Case) -> R {
    let b = small_image(c);
    c.desc(gen::describe(&b));
    if gen::nontrivial(&b) {
        c.distinct(&gen::bits(&b));
    }
    let uniform = !gen::nontrivial(&b);
    let img = d10::Image::new_from_buffer(b.clone());
    let gx = [1.0f32, 0.0, -1.0, 2.0, 0.0, -2.0, 1.0, 0.0, -1.0];
    let gy = [1.0f32, 2.0, 1.0, 0.0, 0.0, 0.0, -1.0, -2.0, -1.0];
    let lp = [1.0f32, 1.0, 1.0, 1.0, -8.0, 1.0, 1.0, 1.0, 1.0];
    let so = img.edge_detection(d10::EdgeDetection::Sobel);
    let la = img.edge_detection(d10::EdgeDetection::Laplace);
    let (sx, sy) = (b.apply_kernel_dyn(&KernelDyn::new_sobel_x()), b.apply_kernel_dyn(&KernelDyn::new_sobel_y()));
    for o in [&so, &la] {
        ensure!(o.width() == b.width() && o.height() == b.height(), "edges:size", "{}x{}", o.width(), o.height());
    }
    for y in 0..b.height() {
        for x in 0..b.width() {
            c.evals(2);
            let (ax, _) = conv(&b, x, y, &gx, 3, 3);
            let (ay, _) = conv(&b, x, y, &gy, 3, 3);
            let (al, _) = conv(&b, x, y, &lp, 3, 3);
            let (s, l) = (so.get_pixel(x, y), la.get_pixel(x, y));
            ensure!(s.alpha() == 1.0 && l.alpha() == 1.0, "edges:alpha", "({},{}) {:?} {:?}", x, y, s.data, l.data);
            for q in 0..3 {
                let w = (ax[q] * ax[q] + ay[q] * ay[q]).sqrt().min(1.0);
                ensure!((s.data[q] as f64 - w).abs() <= 2e-5, "sobel", "({},{}) channel {} is {}, expected {}", x, y, q, s.data[q], w);
                ensure!((l.data[q] as f64 - al[q]).abs() <= 2e-5, "laplace", "({},{}) channel {} is {}, expected {}", x, y, q, l.data[q], al[q]);
                let (kx, ky) = (sx.get_pixel(x, y).data[q] as f64, sy.get_pixel(x, y).data[q] as f64);
                let w2 = (kx * kx + ky * ky).sqrt().min(1.0);
                ensure!((w2 - w).abs() <= 2e-5, "sobel kernels", "({},{}) {} {}", x, y, w2, w);
                if uniform {
                    ensure!(s.data[q].abs() < 1e-3 && l.data[q].abs() < 1e-5, "edges:uniform", "({},{}) {:?} {:?}", x, y, s.data, l.data);
                }
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------------------------- beyond 2^24 pixels

/// Sizes at which a coordinate or index no longer fits an f32
const BEYOND: [(u32, u32); 3] = [((1 << 24) + 5, 1), (1, (1 << 24) + 5), (4099, 4097)];

fn beyond_pixel(i: u32) -> Rgb {
    Rgb { data: [(i & 0xfff) as f32 / 4096.0, (i >> 12) as f32 / 65536.0, 0.25, 1.0] }
}

fn beyond(c: &mut Case) -> (u32, u32, gen::Buf) {
    let (w, h) = BEYOND[c.n as usize % 3];
    c.desc(format!("{}x{}, every pixel another colour", w, h));
    c.distinct(&(w, h));
    c.count(&format!("images of {}x{}", w, h));
    (w, h, PixelBuffer::new_from_raw(w, h, (0..w * h).map(beyond_pixel).collect()))
}

/// Coordinates at the ends and around
fn beyond_points(c: &mut Case, w: u32, h: u32) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for k in 0..60 {
        let mut one = |n: u32| match k % 3 {
            0 => n - 1 - (c.rng.below(9) as u32).min(n - 1),
            1 => (c.rng.below(9) as u32).min(n - 1),
            _ => c.rng.below(n as u64) as u32,
        };
        v.push((one(w), one(h)));
    }
    v
}

fn c06_beyond(c: &mut Case) -> R {
    let (w, h, b) = beyond(c);
    let at = |x: u32, y: u32| gen::cbits(&beyond_pixel(y * w + x));
    for m in [Move::FlipH, Move::FlipV, Move::R90, Move::R180, Move::R270] {
        let o = ops_move(&b, m);
        let (ow, oh) = if matches!(m, Move::R90 | Move::R270) { (h, w) } else { (w, h) };
        ensure!((o.width(), o.height()) == (ow, oh), name(m), "{}x{} became {}x{}", w, h, o.width(), o.height());
        for (i, p) in o.data().iter().enumerate() {
            let (x, y) = (i as u32 % ow, i as u32 / ow);
            let (sx, sy) = match m {
                Move::FlipH => (w - 1 - x, y),
                Move::FlipV => (x, h - 1 - y),
                Move::R90 => (y, h - 1 - x),
                Move::R180 => (w - 1 - x, h - 1 - y),
                _ => (w - 1 - y, x),
            };
            ensure!(gen::cbits(p) == at(sx, sy), name(m), "{}x{}: ({},{}) is not ({},{})", w, h, x, y, sx, sy);
        }
        c.evals((w * h) as u64);
    }
    for (x, y) in beyond_points(c, w, h) {
        let (cw, ch) = (1 + c.rng.below(6) as u32, 1 + c.rng.below(6) as u32);
        let o = d10_ops::crop(&b, x, y, cw, ch);
        let (ew, eh) = (cw.min(w - x), ch.min(h - y));
        ensure!((o.width(), o.height()) == (ew, eh), "crop", "crop({},{},{},{}) of {}x{} is {}x{}", x, y, cw, ch, w, h, o.width(), o.height());
        for (i, p) in o.data().iter().enumerate() {
            ensure!(gen::cbits(p) == at(x + i as u32 % ew, y + i as u32 / ew), "crop", "crop({},{},{},{}) of {}x{}: pixel {}", x, y, cw, ch, w, h, i);
        }
        c.evals(1);
    }
    Ok(())
}

fn c07_beyond(c: &mut Case) -> R {
    let (w, h, mut b) = beyond(c);
    let points = beyond_points(c, w, h);
    for (x, y) in &points {
        let (x, y) = (*x, *y);
        let want = gen::cbits(&beyond_pixel(y * w + x));
        c.evals(6);
        ensure!(gen::cbits(b.get_pixel(x, y)) == want, "get_pixel", "({},{}) of {}x{}", x, y, w, h);
        ensure!(b.get_pixel_optional(x as i32, y as i32).map(gen::cbits) == Some(want), "get_pixel_optional", "({},{}) of {}x{}", x, y, w, h);
        ensure!(gen::cbits(b.get_pixel_clamped(x as i32, y as i32)) == want, "get_pixel_clamped", "({},{}) of {}x{}", x, y, w, h);
        ensure!(b.is_in_image(x as i32, y as i32), "is_in_image", "({},{}) of {}x{}", x, y, w, h);
        ensure!(!b.is_in_image(x as i32 + w as i32, y as i32) && b.get_pixel_optional(x as i32, y as i32 + h as i32).is_none(), "is_in_image", "beyond ({},{}) of {}x{}", x, y, w, h);
        let edge = gen::cbits(&beyond_pixel(y * w + w - 1));
        ensure!(gen::cbits(b.get_pixel_clamped(w as i32 + 1, y as i32)) == edge && gen::cbits(b.get_pixel_clamped(i32::MAX, y as i32)) == edge, "get_pixel_clamped", "right of row {} of {}x{}", y, w, h);
    }
    // every coordinate once, in order
    let order = |what: &str, calls: &dyn Fn(&dyn Fn(u32, u32))| -> R {
        let (n, bad) = (Cell::new(0u32), Cell::new(None));
        calls(&|x, y| {
            let k = n.replace(n.get() + 1);
            if bad.get().is_none() && (x, y) != (k % w, k / w) {
                bad.set(Some((k, x, y)));
            }
        });
        let (n, bad) = (n.get(), bad.get());
        ensure!(bad.is_none() && n == w * h, what, "{}x{}: {} coordinates, wrong {:?}", w, h, n, bad);
        Ok(())
    };
    order("enumerate", &|f| b.enumerate().for_each(|(x, y, _)| f(x, y)))?;
    order("map_colors_enumerated", &|f| {
        b.map_colors_enumerated(|x, y, c| {
            f(x, y);
            *c
        });
    })?;
    order("new_from_func", &|f| {
        PixelBuffer::<Rgb>::new_from_func(w, h, |x, y| {
            f(x, y);
            Rgb::RED
        });
    })?;
    {
        let b = RefCell::new(&mut b);
        order("mod_colors_enumerated", &|f| {
            b.borrow_mut().mod_colors_enumerated(|x, y, c| {
                f(x, y);
                *c
            })
        })?;
    }
    c.evals(4 * (w * h) as u64);
    for (x, y) in points {
        b.put_pixel(x, y, Rgb::RED);
        ensure!(gen::cbits(&b.data()[(y * w + x) as usize]) == gen::cbits(&Rgb::RED), "put_pixel", "({},{}) of {}x{}", x, y, w, h);
        b.put_pixel(x, y, beyond_pixel(y * w + x));
    }
    ensure!(b.data().iter().enumerate().all(|(i, p)| gen::cbits(p) == gen::cbits(&beyond_pixel(i as u32))), "put_pixel", "{}x{}: another pixel was written", w, h);
    Ok(())
}

fn c08_beyond(c: &mut Case) -> R {
    let (w, h, b) = beyond(c);
    let k = weights(&mut c.rng, 9);
    let kd = KernelDyn::new(k.clone(), 3, 3);
    for (x, y) in beyond_points(c, w, h) {
        window::<3>(c, &b, x as i32, y as i32)?;
        window::<9>(c, &b, x as i32, y as i32)?;
        let (v, (s, a)) = (b.get_kernel_value(x, y, &kd), conv(&b, x, y, &k, 3, 3));
        ensure!((0..4).all(|q| (v.data[q] as f64 - s[q]).abs() <= 1e-6 + 2e-6 * a[q]), "get_kernel_value", "({},{}) of {}x{}: {:?} instead of {:?}", x, y, w, h, v.data, s);
    }
    Ok(())
}

/// Windows and kernels of more than 255 pixels
fn c08_wide(c: &mut Case) -> R {
    let b = small_image(c);
    let (w, h) = (b.width() as i32, b.height() as i32);
    let n = 1 + 2 * c.rng.below(350) as usize;
    let (x, y) = (c.rng.range(-3, w as i64 + 3) as i32, c.rng.range(-3, h as i64 + 3) as i32);
    c.desc(format!("window of {} pixels at ({},{}) of {}", n, x, y, gen::describe(&b)));
    c.distinct(&(n, x, y, gen::bits(&b)));
    let d = b.get_kernel_dyn(x, y, n);
    c.evals((n * n) as u64);
    ensure!(d.len() == n && d.iter().all(|r| r.len() == n), "dyn-window:size", "{}x{}", d.len(), n);
    let o = n as i64 / 2;
    for j in 0..n {
        for i in 0..n {
            ensure!(gen::cbits(&d[j][i]) == gen::cbits(at_clamped(&b, x as i64 + i as i64 - o, y as i64 + j as i64 - o)), "dyn-window", "cell ({},{}) is wrong", i, j);
        }
    }
    window::<65>(c, &b, x, y)?;
    let (kw, kh) = if c.rng.bool() { (n, 1 + 2 * c.rng.usize(3)) } else { (1 + 2 * c.rng.usize(3), n) };
    let k = weights(&mut c.rng, kw * kh);
    let out = b.apply_kernel_dyn(&KernelDyn::new(k.clone(), kw as u32, kh as u32));
    conv_check(c, "apply_kernel_dyn", &b, &out, &k, kw, kh)
}

pub fn c08(m: &mut Mon) {
    m.rule = "every window position (and one beyond) of images from 1x1 to 14x14 with position-coded pixels for window sizes 1..7 and random ones to 17, fixed and dynamic; convolutions with one-hot, ramp, signed and small weights (square and rectangular); Sobel/Laplace; judged against direct f64 sums with clamped coordinates; non-trivial: distinct non-uniform images".into();
    m.assumptions.push("kernel sizes are odd (windows also even, either middle cell, fixed and dynamic alike); window positions within the i32 range minus the window".into());
    let n = m.n(40_000, 15);
    m.cases("windows", n, c08_windows);
    let n = m.n(200, 15);
    m.cases("large windows", n, |c| gen::large(70000, || c08_windows(c)));
    let n = m.n(8, 10);
    m.cases("long windows", n, |c| gen::long(|| c08_windows(c)));
    let n = m.n(60_000, 15);
    m.cases("convolution", n, c08_conv);
    let n = m.n(200, 15);
    m.cases("large convolution", n, |c| gen::large(70000, || c08_conv(c)));
    let n = m.n(8, 10);
    m.cases("long convolution", n, |c| gen::long(|| c08_conv(c)));
    m.cases("edges", n, c08_edges);
    let n = m.n(300, 15);
    m.cases("large edges", n, |c| gen::large(70000, || c08_edges(c)));
    let n = m.n(8, 10);
    m.cases("long edges", n, |c| gen::long(|| c08_edges(c)));
    let n = m.n(4, 8);
    let wide = m.n(200, 20);
    m.cases("wide windows", wide, c08_wide);
    m.serial("beyond 2^24", 3, c08_beyond);
    m.cases("huge convolution", n, |c| gen::huge(|| c08_conv(c)));
    m.cases("huge edges", n, |c| gen::huge(|| c08_edges(c)));
}
