//! C27: the WebP bridge to C, run in AddressSanitizer and MemorySanitizer builds with allocation accounting
use crate::alloc::{balance, Fault, Left};
use crate::codecs::{hostile, mutate, PRESETS};
use crate::ensure;
use crate::fw::*;
use crate::gen;
use d10::{EncodingError, EncodingFormat, Image, WebPPreset};
use d10_core::color::*;
use std::fmt;
use std::io::{Error, ErrorKind, Write};

#[derive(Debug)]
struct Payload(u64);
impl fmt::Display for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "payload {}", self.0)
    }
}
impl std::error::Error for Payload {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    All,
    Payload(ErrorKind, u64),
    Os(i32),
    Kind(ErrorKind),
    Zero,
}

/// Fails at call `at`; short and interrupted writes before it if asked for
struct Script<'a> {
    out: &'a mut Vec<u8>,
    calls: usize,
    at: usize,
    act: Act,
    rng: Option<Rng>,
    after: usize,
}

impl Write for Script<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // the sanitizer checks data handed to the system
        unsafe {
            let z = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::write(z, b.as_ptr() as *const _, b.len());
            libc::close(z);
        }
        let n = self.calls;
        self.calls += 1;
        if n > self.at {
            self.after += 1;
        }
        if n == self.at {
            return match self.act {
                Act::All => {
                    self.out.extend_from_slice(b);
                    Ok(b.len())
                }
                Act::Payload(k, p) => Err(Error::new(k, Payload(p))),
                Act::Os(c) => Err(Error::from_raw_os_error(c)),
                Act::Kind(k) => Err(k.into()),
                Act::Zero => Ok(0),
            };
        }
        let mut k = b.len();
        if let Some(r) = &mut self.rng {
            if r.chance(0.2) {
                return Err(ErrorKind::Interrupted.into());
            }
            k = 1 + r.usize(b.len());
        }
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn no_leak(what: &str, l: Left) -> R {
    ensure!(l.rust_blocks == 0 && l.rust_bytes == 0 && l.c_blocks == 0, format!("leak:{}", what.split(' ').next().unwrap_or("")), "{}: {} blocks ({} bytes) of Rust and {} blocks of C memory are not released", what, l.rust_blocks, l.rust_bytes, l.c_blocks);
    Ok(())
}

fn pick_format(r: &mut Rng) -> EncodingFormat {
    let quality = if r.chance(0.2) { *r.pick(&[0u8, 100, 101, 255]) } else { r.below(101) as u8 };
    let preset = if r.chance(0.3) { WebPPreset::Lossless } else { *r.pick(&PRESETS) };
    EncodingFormat::WebP { quality, preset }
}

fn pick_image(r: &mut Rng, max: u32) -> Image {
    let b = match r.usize(6) {
        0 => {
            let (w, h) = (1 + r.below(8) as u32 * 16, 1 + r.below(4) as u32);
            gen::image_kind(r, w, h, 3)
        }
        1 => {
            let b = gen::image(r, max);
            hostile(r, b)
        }
        _ => gen::image(r, max),
    };
    Image::new_from_buffer(b)
}

fn decoded(b: &[u8]) -> u64 {
    match Image::read_from_buffer(b) {
        Ok(i) => {
            for c in i.data() {
                // lets the sanitizer see every value
                if !(c.data[0] >= 0.0 && c.data[1] >= 0.0 && c.data[2] >= 0.0 && c.data[3] >= 0.0) {
                    return 1;
                }
            }
            hash_of(&gen::bits(i.buffer()))
        }
        Err(_) => 0,
    }
}

fn encode(c: &mut Case) -> R {
    let img = pick_image(&mut c.rng, 48);
    let f = pick_format(&mut c.rng);
    c.desc(format!("{:?} {}", f, gen::describe(img.buffer())));
    c.distinct(&(format!("{:?}", f), gen::bits(img.buffer())));
    let run = || match img.save_to_buffer(f.clone()) {
        Ok(b) => (true, hash_of(&b)),
        Err(_) => (false, 0),
    };
    let first = run();
    let (again, left) = balance(Fault::None, run);
    c.evals(2);
    no_leak("encode", left)?;
    ensure!(first == again && first.0, "encode:differs", "encoding twice differs or fails");
    c.add("C allocations", left.c_calls);
    let bytes = img.save_to_buffer(f.clone()).unwrap();
    let (d, left) = (decoded(&bytes), balance(Fault::None, || decoded(&bytes)));
    c.evals(2);
    no_leak("decode", left.1)?;
    ensure!(d == left.0 && d > 1, "decode:differs", "decoding twice differs or fails: {:x} {:x}", d, left.0);
    c.add("C allocations", left.1.c_calls);
    Ok(())
}

fn writer(c: &mut Case) -> R {
    let img = pick_image(&mut c.rng, 24);
    let f = pick_format(&mut c.rng);
    c.desc(format!("{:?} {}", f, gen::describe(img.buffer())));
    let mut full = vec![];
    let mut s = Script { out: &mut full, calls: 0, at: usize::MAX, act: Act::All, rng: None, after: 0 };
    ensure!(img.save_to_writer(&mut s, f.clone()).is_ok(), "writer:plain", "a plain writer fails");
    let calls = s.calls;
    c.max("writes of a file", calls as f64);
    // short and interrupted writes
    let mut out = vec![];
    let rng = c.rng.clone();
    let mut s = Script { out: &mut out, calls: 0, at: usize::MAX, act: Act::All, rng: Some(rng), after: 0 };
    let r = img.save_to_writer(&mut s, f.clone());
    c.eval();
    ensure!(r.is_ok() && out == full, "writer:short", "short and interrupted writes change the file");
    let kinds = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::OutOfMemory, ErrorKind::PermissionDenied];
    for k in 0..calls.min(12) {
        let at = if calls <= 12 { k } else { c.rng.usize(calls) };
        let id = c.rng.u64();
        let act = match c.rng.usize(6) {
            0 => Act::Os(*c.rng.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT, libc::EBADF])),
            1 => Act::Kind(*c.rng.pick(&kinds)),
            2 => Act::Zero,
            _ => Act::Payload(*c.rng.pick(&kinds), id),
        };
        c.distinct(&(at, format!("{:?} {:?}", act, f), gen::bits(img.buffer())));
        c.count(match act {
            Act::Os(_) => "system errors",
            Act::Kind(_) => "plain kinds",
            Act::Zero => "zero writes",
            _ => "custom errors",
        });
        let mut out = Vec::with_capacity(full.len() + 64);
        // 0: as raised, 1: success, 2: another I/O error, 3: another error
        let mut run = || {
            out.clear();
            let mut s = Script { out: &mut out, calls: 0, at, act, rng: None, after: 0 };
            let r = img.save_to_writer(&mut s, f.clone());
            let after = s.after;
            let v = match r {
                Ok(()) => 1,
                Err(EncodingError::IoError(e)) => {
                    let same = match act {
                        Act::Payload(k, id) => e.kind() == k && e.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map_or(false, |p| p.0 == id),
                        Act::Os(n) => e.raw_os_error() == Some(n),
                        Act::Kind(k) => e.kind() == k,
                        _ => e.kind() == ErrorKind::WriteZero,
                    };
                    if same { 0 } else { 2 }
                }
                Err(_) => 3,
            };
            (v, after)
        };
        run();
        let ((v, after), left) = balance(Fault::None, run);
        c.evals(3);
        no_leak("writer", left)?;
        ensure!(v == 0, "writer:error", "{:?} at write {} of {} is returned as {}", act, at, calls, ["", "success", "another I/O error", "another error"][v]);
        ensure!(after == 0, "writer:after", "{} writes after {:?} at write {}", after, act, at);
        ensure!(out.len() <= full.len() && full.starts_with(&out), "writer:data", "the data before the error is not the beginning of the file");
    }
    Ok(())
}

fn decode(c: &mut Case) -> R {
    let img = pick_image(&mut c.rng, 24);
    let mut r = c.rng.clone();
    let mut b = img.save_to_buffer(pick_format(&mut r)).unwrap_or_default();
    let other = Image::new_from_buffer(gen::image(&mut r, 16)).save_to_buffer(pick_format(&mut r)).unwrap_or_default();
    let kind = r.usize(9);
    match kind {
        6 | 7 => {
            // damage behind the header
            for _ in 0..1 + r.usize(3) {
                let n = b.len();
                let o = if n > 40 { 32 + r.usize(n - 32) } else { n - 1 };
                b[o] = if r.bool() { b[o] ^ 1 << r.usize(8) } else { r.below(256) as u8 };
            }
        }
        8 => b.extend((0..r.usize(40)).map(|_| r.below(256) as u8)),
        0 => {
            let n = r.usize(b.len() + 1);
            b.truncate(n)
        }
        1 => {
            // random payload behind a valid head
            let n = 12 + r.usize(20).min(b.len() - 12);
            b.truncate(n);
            b.extend((0..r.usize(200)).map(|_| r.below(256) as u8));
        }
        2 => {
            // extended files: alpha, animation, metadata chunks
            let body = b[12..].to_vec();
            let flags = r.below(256) as u8;
            let mut v = b"RIFF\0\0\0\0WEBPVP8X\x0a\0\0\0".to_vec();
            let (w, h) = (img.width().wrapping_sub(r.usize(2) as u32), img.height() - 1);
            v.extend([flags, 0, 0, 0]);
            v.extend(&w.to_le_bytes()[..3]);
            v.extend(&h.to_le_bytes()[..3]);
            for _ in 0..r.usize(3) {
                let tag = *r.pick(&[b"ICCP", b"EXIF", b"XMP ", b"ANIM", b"ALPH", b"ANMF", b"abcd"]);
                let n = r.usize(20);
                v.extend(tag);
                v.extend((n as u32).to_le_bytes());
                v.extend((0..n + n % 2).map(|_| r.below(256) as u8));
            }
            v.extend(body);
            let n = (v.len() - 8) as u32;
            v[4..8].copy_from_slice(&n.to_le_bytes());
            b = v;
            if r.bool() {
                mutate(&mut r, &mut b, &other);
            }
        }
        _ => mutate(&mut r, &mut b, &other),
    }
    c.rng = r;
    c.desc(format!("{} bytes, kind {}", b.len(), kind));
    c.input = Some(b.clone());
    c.distinct(&b);
    let first = decoded(&b);
    let (again, left) = balance(Fault::None, || decoded(&b));
    c.evals(2);
    c.count(if first == 0 { "refused" } else { "decoded" });
    no_leak("decode", left)?;
    ensure!(first == again, "decode:differs", "decoding twice differs");
    ensure!(first != 1, "decode:value", "a channel is no number >= 0");
    Ok(())
}

fn sizes(c: &mut Case) -> R {
    const S: [(u32, u32); 14] = [(0, 0), (1, 1), (16383, 1), (1, 16383), (16384, 1), (1, 16384), (16383, 3), (2, 16383), (16384, 2), (20000, 1), (1, 65536), (100_000, 1), (1 << 20, 1), (1, 1 << 20)];
    let (w, h) = S[c.n as usize % S.len()];
    let p = [WebPPreset::Lossless, WebPPreset::Default, WebPPreset::Text][(c.n as usize / S.len()) % 3];
    c.desc(format!("{:?} {}x{}", p, w, h));
    c.distinct(&(w, h, format!("{:?}", p)));
    let img = Image::new_from_buffer(if w == 0 { gen::Buf::new(0, 0) } else { gen::Buf::new_from_func(w, h, |x, y| Rgb::new((x % 5) as f32 / 4.0, (y % 3) as f32 / 2.0, 0.5)) });
    let f = EncodingFormat::WebP { quality: 50, preset: p };
    let run = || match img.save_to_buffer(f.clone()) {
        Ok(b) => (true, decoded(&b) > 1),
        Err(_) => (false, false),
    };
    run();
    let (r, left) = balance(Fault::None, run);
    c.evals(2);
    no_leak("size", left)?;
    let ok = w > 0 && w <= 16383 && h <= 16383;
    ensure!(r == (ok, ok), "size", "{}x{} {:?}: saved {}, opened {}", w, h, p, r.0, r.1);
    Ok(())
}

/// The C library runs out of memory: at any allocation of the encoder, for the pixels of the decoder
/// (libwebp 1.3 itself doesn't survive all other failing allocations of its decoder)
fn memory(c: &mut Case) -> R {
    let img = pick_image(&mut c.rng, 32);
    let f = pick_format(&mut c.rng);
    c.desc(format!("{:?} {}", f, gen::describe(img.buffer())));
    let enc = || match img.save_to_buffer(f.clone()) {
        Ok(b) => hash_of(&b),
        Err(_) => 0,
    };
    enc();
    let (good, left) = balance(Fault::None, enc);
    if left.c_calls == 0 {
        c.count("allocations not counted in this build");
        return Ok(());
    }
    no_leak("encode", left)?;
    c.max("C allocations to encode", left.c_calls as f64);
    for k in 0..left.c_calls.min(25) {
        let at = if left.c_calls <= 25 { k } else { c.rng.below(left.c_calls) };
        c.distinct(&(at, format!("{:?}", f), gen::bits(img.buffer())));
        let (v, left) = balance(Fault::Nth(at), enc);
        c.evals(2);
        c.count(if v == 0 { "encoder: out of memory reported" } else { "encoder: out of memory survived" });
        no_leak(&format!("encode without memory at allocation {}", at), left)?;
        ensure!(v == 0 || v == good, "memory:result", "encode: without memory at allocation {} the result differs", at);
    }
    ensure!(balance(Fault::None, enc).0 == good, "memory:after", "encode: the result after running out of memory differs");
    let (w, h) = (150 + c.rng.below(100) as u32, 150 + c.rng.below(100) as u32);
    let v = c.rng.f32();
    let big = Image::new_from_buffer(gen::Buf::new_from_func(w, h, |x, y| Rgb::new(((x / 8) % 4) as f32 / 3.0, ((y / 8) % 3) as f32 / 2.0, v)));
    let bytes = big.save_to_buffer(f.clone()).unwrap_or_default();
    let good = decoded(&bytes);
    ensure!(good > 1, "memory:decode", "decoding fails");
    for size in [(w * h * 4) as usize, (w * h * 4) as usize - c.rng.usize(100), (w * h * 2) as usize] {
        decoded(&bytes);
        let (v, left) = balance(Fault::From(size), || decoded(&bytes));
        c.evals(2);
        c.count(if v == 0 { "decoder: out of memory reported" } else { "decoder: out of memory survived" });
        no_leak("decode without memory for the pixels", left)?;
        ensure!(v == 0 || v == good, "memory:result", "decode: without memory the result differs");
    }
    ensure!(decoded(&bytes) == good, "memory:after", "decode: the result after running out of memory differs");
    Ok(())
}

/// A long history on one thread
fn long(c: &mut Case) -> R {
    let imgs: Vec<(Image, EncodingFormat)> = (0..6).map(|_| (pick_image(&mut c.rng, 20), pick_format(&mut c.rng))).collect();
    let files: Vec<Vec<u8>> = imgs.iter().map(|(i, f)| i.save_to_buffer(f.clone()).unwrap_or_default()).collect();
    let mut r = c.rng.clone();
    let steps: Vec<(usize, usize, usize)> = (0..400).map(|_| (r.usize(4), r.usize(6), r.usize(60))).collect();
    c.desc("400 calls");
    c.distinct(&steps);
    let mut out = Vec::with_capacity(1 << 20);
    let mut run = || {
        for (k, i, n) in &steps {
            match k {
                0 => {
                    let _ = imgs[*i].0.save_to_buffer(imgs[*i].1.clone());
                }
                1 => {
                    let _ = Image::read_from_buffer(&files[*i]);
                }
                2 => {
                    let _ = Image::read_from_buffer(&files[*i][..files[*i].len().min(*n)]);
                }
                _ => {
                    out.clear();
                    let mut s = Script { out: &mut out, calls: 0, at: *n % 4, act: Act::Payload(ErrorKind::Other, 7), rng: None, after: 0 };
                    let _ = imgs[*i].0.save_to_writer(&mut s, imgs[*i].1.clone());
                }
            }
        }
    };
    run();
    let (_, left) = balance(Fault::None, run);
    c.evals(steps.len() as u64);
    no_leak("history of 400 calls", left)
}

pub fn c27(m: &mut Mon) {
    let b = san();
    m.rule = "WebP encoding and decoding of generated images, files, sizes, failing writers and failing allocations in builds whose Rust and C code carry AddressSanitizer and MemorySanitizer; live allocations of both sides counted around every call; non-trivial: distinct (image, options, fault) or file".into();
    m.assumptions.push("a writer that panics instead of returning an error ends the process (Rust's rule for panics crossing C frames) and is not judged".into());
    m.extra.insert("build".into(), serde_json::json!(b));
    let n = m.n(1500, 60);
    m.cases("encode", n, encode);
    let n = m.n(600, 60);
    m.cases("writer", n, writer);
    let n = m.n(10_000, 60);
    m.cases("decode", n, decode);
    m.cases("sizes", 42, sizes);
    let n = m.n(150, 60);
    m.cases("memory", n, memory);
    let n = m.n(8, 30);
    m.cases("long", n, long);
}
