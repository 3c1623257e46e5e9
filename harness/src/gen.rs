//! Workload generators: colours and images, ordinary and hostile.
use crate::fw::Rng;
use d10_core::color::{Color, Rgb, Srgb};
use d10_core::pixelbuffer::PixelBuffer;

pub type Buf = PixelBuffer<Rgb>;
pub const EPS: f64 = 1.0 / 32768.0;

pub fn channel(r: &mut Rng) -> f32 {
    match r.usize(12) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => r.below(256) as f32 / 255.0,
        4 => r.uniform(0.0, 1e-4),
        5 => 1.0 - r.uniform(0.0, 1e-4),
        6 => (r.below(255) as f32 + 0.5) / 255.0,
        7 => 10f32.powf(r.uniform(-9.0, 0.0)),
        _ => r.f32(),
    }
}

pub fn alpha(r: &mut Rng) -> f32 {
    match r.usize(8) {
        0 | 1 | 2 => 1.0,
        3 => 0.0,
        4 => 0.5,
        5 => r.below(256) as f32 / 255.0,
        _ => r.f32(),
    }
}

/// An in-range colour, weighted towards the delicate regions (greys, primaries, near-black, near-grey)
pub fn color(r: &mut Rng) -> Rgb {
    let a = alpha(r);
    opaque_color(r).with_alpha(a)
}

pub fn opaque_color(r: &mut Rng) -> Rgb {
    match r.usize(12) {
        0 => {
            // corner of the cube
            let b = r.usize(8);
            Rgb::new((b & 1) as f32, (b >> 1 & 1) as f32, (b >> 2 & 1) as f32)
        }
        1 => {
            let v = channel(r);
            Rgb::new(v, v, v)
        }
        2 => {
            // almost grey
            let v = r.f32();
            let d = 10f32.powf(r.uniform(-8.0, -2.5));
            let mut c = [v, v, v];
            let i = r.usize(3);
            c[i] = v + if r.bool() { d } else { -d };
            if r.bool() {
                c[(i + 1) % 3] = v + d * r.uniform(-1.0, 1.0);
            }
            Rgb::new(c[0], c[1], c[2])
        }
        3 => {
            // almost black / almost white
            let s = 10f32.powf(r.uniform(-9.0, -2.0));
            let c = [r.f32() * s, r.f32() * s, r.f32() * s];
            if r.bool() {
                Rgb::new(c[0], c[1], c[2])
            } else {
                Rgb::new(1.0 - c[0], 1.0 - c[1], 1.0 - c[2])
            }
        }
        4 => {
            // two equal channels (sector borders of hue)
            let v = channel(r);
            let w = channel(r);
            let mut c = [v, v, v];
            c[r.usize(3)] = w;
            Rgb::new(c[0], c[1], c[2])
        }
        5 => Srgb::new(
            r.below(256) as f32 / 255.0,
            r.below(256) as f32 / 255.0,
            r.below(256) as f32 / 255.0,
        )
        .to_rgb(),
        6 => Rgb::new(channel(r), channel(r), channel(r)),
        _ => Rgb::new(r.f32(), r.f32(), r.f32()),
    }
}

pub const KINDS: usize = 16;

/// Image of a given kind
pub fn image_kind(r: &mut Rng, w: u32, h: u32, kind: usize) -> Buf {
    let c0 = color(r);
    let c1 = color(r);
    match kind % KINDS {
        0 => Buf::new_with_color(w, h, c0),
        1 => {
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| Rgb::new_with_alpha(q.f32(), q.f32(), q.f32(), q.f32()))
        }
        2 => {
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| color(&mut q))
        }
        3 => {
            // linear gradient between two colours
            let n = (w + h).max(2) as f32 - 2.0;
            Buf::new_from_func(w, h, |x, y| {
                let t = if n > 0.0 { (x + y) as f32 / n } else { 0.0 };
                mix(c0, c1, t)
            })
        }
        4 => {
            // exact 8 bit levels
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| {
                Srgb::new_with_alpha(
                    q.below(256) as f32 / 255.0,
                    q.below(256) as f32 / 255.0,
                    q.below(256) as f32 / 255.0,
                    q.below(256) as f32 / 255.0,
                )
                .to_rgb()
            })
        }
        5 => {
            // checkerboard
            let s = 1 + r.below(4) as u32;
            Buf::new_from_func(w, h, |x, y| if (x / s + y / s) % 2 == 0 { c0 } else { c1 })
        }
        6 => {
            // one dot on a plain background
            let mut b = Buf::new_with_color(w, h, c0);
            if w > 0 && h > 0 {
                let (x, y) = (r.below(w as u64) as u32, r.below(h as u64) as u32);
                b.put_pixel(x, y, c1);
            }
            b
        }
        7 => {
            // opaque photo-like: smooth + a little noise
            let (fx, fy, p) = (r.uniform(0.02, 0.5), r.uniform(0.02, 0.5), r.uniform(0.0, 6.0));
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |x, y| {
                let t = |k: f32| 0.5 + 0.45 * ((x as f32 * fx + k).sin() * (y as f32 * fy + p + k).cos());
                let n = q.uniform(-0.03, 0.03);
                Rgb::new(t(0.0) + n, t(1.3) + n, t(2.1) + n)
            })
        }
        8 => {
            // greyscale noise
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| {
                let v = q.f32();
                Rgb::new(v, v, v)
            })
        }
        9 => {
            // few colours (palette like)
            let pal: Vec<Rgb> = (0..1 + r.usize(6)).map(|_| color(r)).collect();
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| *q.pick(&pal))
        }
        10 => {
            // vertical / horizontal stripes
            let hor = r.bool();
            Buf::new_from_func(w, h, |x, y| if (if hor { y } else { x }) % 2 == 0 { c0 } else { c1 })
        }
        11 => {
            // dark image with a low range
            let (lo, sp) = (r.uniform(0.0, 0.3), r.uniform(0.001, 0.3));
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| {
                Rgb::new(lo + sp * q.f32(), lo + sp * q.f32(), lo + sp * q.f32())
            })
        }
        12 => {
            // extremes only
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| {
                let b = q.usize(16);
                Rgb::new_with_alpha(
                    (b & 1) as f32,
                    (b >> 1 & 1) as f32,
                    (b >> 2 & 1) as f32,
                    if b >> 3 == 1 { 1.0 } else { q.f32() },
                )
            })
        }
        14 => {
            // a gradient in reading order, so slow that neighbours are equal within the tolerance of comparisons
            let step = 10f32.powf(r.uniform(-6.0, -3.7));
            let (k, a) = (r.usize(5), r.bool());
            let base = [c0.data[0], c0.data[1], c0.data[2], c0.data[3]];
            Buf::new_from_func(w, h, |x, y| {
                let t = (x + y * w) as f32 * step;
                // up and down between 0 and 1
                let f = |v: f32| {
                    let m = (v + t) % 2.0;
                    if m > 1.0 { 2.0 - m } else { m }
                };
                let g = |i: usize| if k == i || k >= 3 { f(base[i]) } else { base[i] };
                Rgb::new_with_alpha(g(0), g(1), g(2), if a { f(base[3]) } else { base[3] })
            })
        }
        15 => {
            // one colour with many alphas, or one alpha and a single varying channel
            let k = r.usize(4);
            let mut q = r.clone();
            r.u64();
            Buf::new_from_func(w, h, |_, _| {
                let mut c = c0;
                c.data[k] = q.f32();
                c
            })
        }
        _ => {
            // every pixel different (position coded), so that any misplaced pixel is visible
            let k = r.below(997) as u32;
            Buf::new_from_func(w, h, |x, y| {
                let i = x + y * w + k;
                Rgb::new_with_alpha(
                    (i % 251) as f32 / 251.0,
                    (i / 251 % 241) as f32 / 241.0,
                    (x % 127) as f32 / 127.0,
                    0.25 + (y % 97) as f32 / 130.0,
                )
            })
        }
    }
}

pub fn mix(a: Rgb, b: Rgb, t: f32) -> Rgb {
    Rgb::new_with_alpha(
        a.data[0] + (b.data[0] - a.data[0]) * t,
        a.data[1] + (b.data[1] - a.data[1]) * t,
        a.data[2] + (b.data[2] - a.data[2]) * t,
        a.data[3] + (b.data[3] - a.data[3]) * t,
    )
}

thread_local! {
    // the limit, and the largest width and height so far
    static LARGE: std::cell::Cell<Option<(u64, u32, u32)>> = const { std::cell::Cell::new(None) };
    // 1: the next image is long, 2: the following are wide, 3: tall
    static LONG: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    // 1: the next image is huge, 2: one was, 3: two were
    static HUGE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

/// Run `f` with the first image it generates (and perhaps another of the same size) of more than 2^20 pixels
pub fn huge<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            HUGE.with(|h| h.set(0));
        }
    }
    let _reset = Reset;
    HUGE.with(|h| h.set(1));
    large(4 << 20, f)
}

/// The same with at most 16383 pixels per side
pub fn huge_file<T>(f: impl FnOnce() -> T) -> T {
    huge(|| {
        HUGE.with(|h| h.set(9));
        f()
    })
}

/// Runs `f` with images of which one side (the same for all) has about or more than 65536 pixels
pub fn long<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            LONG.with(|h| h.set(0));
        }
    }
    let _reset = Reset;
    LONG.with(|h| h.set(1));
    f()
}

pub fn is_long() -> bool {
    LONG.with(|h| h.get() > 0)
}

pub fn is_huge() -> bool {
    HUGE.with(|h| h.get() > 0)
}

/// Run `f` with most images it generates larger than usual, up to the given number of pixels: beyond the sizes at
/// which tiles, chunks, counters of 8 or 16 bits or tables come to their end.
pub fn large<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            LARGE.with(|l| l.set(None));
        }
    }
    let _reset = Reset;
    LARGE.with(|l| l.set(Some((limit, 0, 0))));
    f()
}

pub fn is_large() -> bool {
    LARGE.with(|l| l.get().is_some())
}

fn large_dims(r: &mut Rng, limit: u64) -> (u32, u32) {
    let around = |r: &mut Rng| {
        let m = *r.pick(&[16u64, 32, 64, 100, 128, 255, 256, 512, 1024]);
        (m - 1 + r.below(3)) * if r.chance(0.1) { 2 } else { 1 }
    };
    let (a, b) = match r.usize(12) {
        0..=2 => (64 + r.below(700), 1 + r.below(12)),
        3..=5 => (around(r), 1 + r.below(20)),
        6 => (around(r), around(r)),
        7 | 8 => (40 + r.below(300), 40 + r.below(300)),
        // just beyond 16 bits of pixels
        9 => (65_535 + r.below(3), 1),
        10 => (256 + r.below(3), 256 + r.below(3)),
        _ => (1000 + r.below(5000), 1 + r.below(4)),
    };
    let (a, b) = (a.min(limit), b.min((limit / a.min(limit)).max(1)));
    let (a, b) = (a as u32, b as u32);
    if r.bool() {
        (a, b)
    } else {
        (b, a)
    }
}

/// Non-empty dimensions, biased to degenerate shapes
pub fn dims(r: &mut Rng, max: u32) -> (u32, u32) {
    if is_long() {
        let more = if r.bool() { 20 } else { 80_000 };
        let (a, b) = (65_530 + r.below(more) as u32, 1 + r.below(3) as u32);
        let k = LONG.with(|h| h.get());
        let k = if k == 1 { 2 + r.below(2) as u8 } else { k };
        LONG.with(|h| h.set(k));
        return if k == 2 { (a, b) } else { (b, a) };
    }
    let huge = HUGE.with(|h| h.get());
    if huge == 1 || huge == 9 {
        HUGE.with(|h| h.set(2));
        let n = if huge == 9 { 4 } else { 6 };
        let (w, h) = [(1031u32, 1021u32), (1021, 1031), (2049, 513), (515, 2051), (65_537, 17), (13, 81_001)][r.usize(n)];
        LARGE.with(|l| l.set(l.get().map(|v| (v.0, w, h))));
        return (w, h);
    }
    if huge > 1 {
        let (mw, mh) = LARGE.with(|l| l.get()).map_or((1, 1), |l| (l.1, l.2));
        if huge == 2 && r.bool() {
            HUGE.with(|h| h.set(3));
            return (mw, mh);
        }
        let (w, h) = usual_dims(r, max);
        return (w.min(mw), h.min(mh));
    }
    if let Some((limit, mw, mh)) = LARGE.with(|l| l.get()) {
        // all of them fit into an image of at most twice the limit
        for _ in 0..12 {
            let (w, h) = if r.chance(0.7) { large_dims(r, limit) } else { usual_dims(r, max) };
            let (mw, mh) = (mw.max(w), mh.max(h));
            if mw as u64 * mh as u64 <= 2 * limit {
                LARGE.with(|l| l.set(Some((limit, mw, mh))));
                return (w, h);
            }
        }
        return (mw.max(1), mh.max(1));
    }
    usual_dims(r, max)
}

fn usual_dims(r: &mut Rng, max: u32) -> (u32, u32) {
    let m = max as u64;
    match r.usize(10) {
        0 => (1, 1),
        1 => (1, 1 + r.below(m) as u32),
        2 => (1 + r.below(m) as u32, 1),
        3 => (2, 1 + r.below(m.min(7)) as u32),
        4 => (1 + r.below(m.min(7)) as u32, 2),
        5 => {
            let s = 1 + r.below(m) as u32;
            (s, s)
        }
        6 => (1 + r.below(m.min(5)) as u32, 1 + r.below(m.min(5)) as u32),
        _ => (1 + r.below(m) as u32, 1 + r.below(m) as u32),
    }
}

pub fn image(r: &mut Rng, max: u32) -> Buf {
    let (w, h) = dims(r, max);
    let k = r.usize(KINDS);
    image_kind(r, w, h, k)
}

/// Like `image` but the empty image is possible, too
pub fn image_or_empty(r: &mut Rng, max: u32) -> Buf {
    if r.chance(0.04) && HUGE.with(|h| h.get() != 1 && h.get() != 9) {
        Buf::new(0, 0)
    } else {
        image(r, max)
    }
}

pub fn describe(b: &Buf) -> String {
    let mut s = format!("{}x{} [", b.width(), b.height());
    for c in b.data().iter().take(6) {
        s.push_str(&format!("({:?},{:?},{:?},{:?}) ", c.data[0], c.data[1], c.data[2], c.data[3]));
    }
    if b.data().len() > 6 {
        s.push_str("..");
    }
    s.push(']');
    s
}

pub fn bits(b: &Buf) -> Vec<u32> {
    let mut v = Vec::with_capacity(b.data().len() * 4 + 2);
    v.push(b.width());
    v.push(b.height());
    for c in b.data() {
        for d in c.data {
            v.push(d.to_bits());
        }
    }
    v
}

pub fn cbits(c: &Rgb) -> [u32; 4] {
    [c.data[0].to_bits(), c.data[1].to_bits(), c.data[2].to_bits(), c.data[3].to_bits()]
}

pub fn nontrivial(b: &Buf) -> bool {
    b.data().len() > 1 && b.data().iter().any(|c| cbits(c) != cbits(&b.data()[0]))
}
