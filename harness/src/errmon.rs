//! C33: what an error says
use crate::codecs::any_format;
use crate::ensure;
use crate::fmts::gen_known;
use crate::fw::*;
use crate::gen;
use crate::iofault::{with, Plan};
use d10::{DecodingError, EncodingError, EncodingFormat, Image};
use std::error::Error;
use std::io::{Error as IoError, ErrorKind, Write};

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::StorageFull,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
];

#[derive(Debug)]
struct Mine(u64);
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failure no. {}", self.0)
    }
}
impl Error for Mine {}

struct Failing {
    at: usize,
    written: usize,
    flush: bool,
    fired: bool,
    make: Box<dyn FnMut() -> IoError>,
}

impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.written >= self.at && !b.is_empty() {
            self.fired = true;
            return Err((self.make)());
        }
        let n = b.len().min(self.at - self.written);
        self.written += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush {
            self.fired = true;
            return Err((self.make)());
        }
        Ok(())
    }
}

/// The error of the writer comes back as it is
fn writers(c: &mut Case) -> R {
    let img = Image::new_from_buffer(gen::image(&mut c.rng, 20));
    let (name, f) = any_format(&mut c.rng);
    let full = match img.save_to_buffer(f.clone()) {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    let id = c.rng.u64();
    let kind = *c.rng.pick(&KINDS);
    let os = *c.rng.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EACCES]);
    let how = c.rng.usize(3);
    let at = match c.rng.usize(4) {
        0 => c.rng.usize(12.min(full.len())),
        1 => full.len() - 1 - c.rng.usize(8.min(full.len())),
        _ => c.rng.usize(full.len()),
    };
    let make = move || match how {
        0 => IoError::new(kind, Mine(id)),
        1 => IoError::from_raw_os_error(os),
        _ => IoError::from(kind),
    };
    c.desc(format!("{} {} of {} bytes, {:?}", name, at, full.len(), make()));
    c.distinct(&(&name, at, how, id));
    let mut w = Failing { at, written: 0, flush: c.rng.chance(0.2), fired: false, make: Box::new(make) };
    let r = catch(|| img.save_to_writer(&mut w, f)).map_err(|e| Fail { sig: "panic".into(), msg: e })?;
    let fmt = name.split(' ').next().unwrap().to_string();
    c.eval();
    ensure!(w.fired, "check", "the writer did not fail");
    c.count(&format!("writer {} {}", fmt, how));
    match r {
        Err(EncodingError::IoError(e)) => {
            let same = match how {
                0 => e.kind() == kind && e.get_ref().and_then(|p| p.downcast_ref::<Mine>()).is_some_and(|p| p.0 == id),
                1 => e.raw_os_error() == Some(os),
                _ => e.kind() == kind && e.get_ref().is_none(),
            };
            ensure!(same, format!("writer:{}", fmt), "{}: the writer's error {:?} became {:?}", name, make(), e);
            let (a, b) = (EncodingError::from(make()).to_string(), make().to_string());
            ensure!(a == b && e.to_string() == b, "text", "{:?} instead of {:?}", a, b);
        }
        Err(e) => return fail(format!("writer:{}", fmt), format!("{}: the writer's error {:?} became {:?}", name, make(), e)),
        Ok(()) => return fail(format!("writer:{}", fmt), "success"),
    }
    Ok(())
}

/// The system's error comes back as it is
fn readers(c: &mut Case) -> R {
    let (w, h) = gen::dims(&mut c.rng, 24);
    let k = gen_known(&mut c.rng, w, h);
    let dir = TempDir::new("c33");
    let p = dir.path("x.bin");
    std::fs::write(&p, &k.bytes).expect("temp file");
    c.desc(format!("{} ({} bytes)", k.kind, k.bytes.len()));
    c.distinct(&k.bytes);
    let slow = Plan { max: (k.bytes.len() / 30).max(1), ..Plan::default() };
    let seed = c.rng.u64();
    let n = with(slow.clone(), seed, || catch(|| Image::open(&p))).1;
    for _ in 0..6 {
        let e = *c.rng.pick(&[libc::EIO, libc::ESTALE, libc::ENOMEM, libc::EBADF, libc::EACCES]);
        let mut plan = slow.clone();
        plan.fail_at = Some((c.rng.below(n.calls.max(1)), e, true));
        let (r, s) = with(plan, seed, || catch(|| Image::open(&p)));
        c.eval();
        if s.failed == 0 {
            continue;
        }
        match r {
            Ok(Err(DecodingError::IoError(io))) if io.raw_os_error() == Some(e) => c.count("read errors kept"),
            Ok(Err(err)) => return fail(format!("reader:{}", k.kind.split(' ').next().unwrap()), format!("{}: error {} became {:?}", k.kind, e, err)),
            _ => {}
        }
    }
    Ok(())
}


/// An image a format cannot hold is refused by name and size
fn sizes(c: &mut Case) -> R {
    let r = &mut c.rng;
    let long = 65536 + if r.bool() { 0 } else { r.below(3000) as u32 };
    let (w, h) = match r.usize(6) {
        0 => (0, 0),
        1 => (long, 1),
        2 => (1, long),
        3 => (long, 2),
        4 => (2, long),
        _ => (1 + r.below(300) as u32, 1 + r.below(300) as u32),
    };
    let img = Image::new_from_buffer(d10::PixelBuffer::new_with_color(w, h, d10::Rgb::new(0.2, 0.5, 0.7)));
    let (name, f) = any_format(r);
    let fmt = match &f {
        EncodingFormat::Gif => "gif",
        EncodingFormat::Jpeg { .. } => "jpeg",
        EncodingFormat::Bmp { .. } => "bmp",
        _ => "",
    };
    c.desc(format!("{}x{} as {}", w, h, name));
    c.distinct(&(w, h, &name));
    let res = catch(|| img.save_to_buffer(f)).map_err(|e| Fail { sig: "panic".into(), msg: e })?;
    c.eval();
    let e = match res {
        Ok(_) => {
            c.count("sizes accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    c.count(&format!("sizes refused by {}", name.split(' ').next().unwrap()));
    ensure!(!e.to_string().trim().is_empty(), "text", "{:?} without text", e);
    let t = e.to_string();
    if let EncodingError::BadDimensions { format, width, height } = &e {
        ensure!((*width, *height) == (w, h), "size", "{:?} for an image of {}x{}", e, w, h);
        ensure!(fmt.is_empty() || *format == fmt, "format", "{:?} from {}", e, name);
        ensure!(t.contains(&format!("{}x{}", w, h)) && t.contains(format), "text", "{:?} is {:?}", e, t);
    } else if !fmt.is_empty() && (w > 65535 || h > 65535) {
        return fail("kind", format!("{}: {}x{} is refused by {:?}", name, w, h, e));
    }
    Ok(())
}

/// The announced size of a file that is too large to be read
fn announced(c: &mut Case) -> R {
    let (w, h) = gen::dims(&mut c.rng, 5);
    let k = gen_known(&mut c.rng, w, h);
    let mut b = k.bytes.clone();
    let n = [40_000u32, 60_000, 33_000, 50_001];
    let (w, h) = (*c.rng.pick(&n), *c.rng.pick(&n) - 1);
    match crate::codecs::sniff(&b) {
        Some(d10_codecs::Format::Png) => {
            b[16..20].copy_from_slice(&w.to_be_bytes());
            b[20..24].copy_from_slice(&h.to_be_bytes());
            let crc = crate::fmts::crc32(&b[12..29]);
            b[29..33].copy_from_slice(&crc.to_be_bytes());
        }
        Some(d10_codecs::Format::Gif) | None => return Ok(()),
        _ => {
            let n = c.rng.usize(b.len());
            b.truncate(n);
        }
    }
    c.desc(format!("{} with another size or cut to {}", k.kind, b.len()));
    c.distinct(&b);
    let r = match catch(|| Image::read_from_buffer(&b)) {
        Ok(r) => r,
        Err(_) => return Ok(()), // for C03 to judge
    };
    c.eval();
    if let Err(e) = r {
        c.count("damaged files");
        let t = e.to_string();
        ensure!(!t.trim().is_empty(), "text", "{:?} without text", e);
        if let DecodingError::InvalidBufferSize { width, height } = e {
            c.count("sizes of files refused");
            ensure!((width, height) == (w, h) && t.contains(&format!("{}x{}", w, h)), "announced", "{:?} ({}) for a file of {}x{}", e, t, w, h);
        }
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
enum Why {
    /// the operating system's code
    Os(i32),
    Name,
    Unknown,
    Other,
}

fn why_open(e: &DecodingError) -> Why {
    match e {
        DecodingError::IoError(e) => e.raw_os_error().map_or(Why::Other, Why::Os),
        DecodingError::UnknownFormat => Why::Unknown,
        _ => Why::Other,
    }
}

fn why_save(e: &EncodingError) -> Why {
    match e {
        EncodingError::IoError(e) => e.raw_os_error().map_or(Why::Other, Why::Os),
        EncodingError::BadFileExtension(_) => Why::Name,
        _ => Why::Other,
    }
}

/// The same failure through the library, the queue, the command line and Python
fn layers(c: &mut Case) -> R {
    use d10_commands::{CommandError, Queue};
    let t = TempDir::new("c33");
    let r = &mut c.rng;
    let img = Image::new_from_buffer(gen::image(r, 6));
    let good = t.path("good.png");
    if img.save(&good).is_err() {
        return Ok(());
    }
    std::fs::create_dir(t.path("folder.png")).expect("dir");
    let ext = *r.pick(&["png", "jpg", "gif", "bmp", "ico", "webp"]);
    let odd = *r.pick(&["xyz", "pn", "jpgg", "tiff", "PNGs"]);
    let stem = *r.pick(&["a", "a b", "ü ✓", "x.png"]);
    let open = r.bool();
    // the path and what must be said about it
    let (p, want) = if open {
        match r.usize(6) {
            0 => (t.path(&format!("{} missing.{}", stem, ext)), Why::Os(libc::ENOENT)),
            1 => (t.path("folder.png"), Why::Os(libc::EISDIR)),
            2 => {
                let p = t.path("link.png");
                let _ = std::os::unix::fs::symlink(t.path("nowhere"), &p);
                (p, Why::Os(libc::ENOENT))
            }
            3 => (good.join("x.png"), Why::Os(libc::ENOTDIR)),
            4 => {
                let p = t.path(&format!("{}.{}", stem, odd));
                let n = r.usize(40);
                let b: Vec<u8> = (0..n).map(|_| b'0' + r.below(10) as u8).collect();
                std::fs::write(&p, b).expect("temp file");
                (p, Why::Unknown)
            }
            _ => {
                let p = t.path(&format!("{}.{}", stem, ext));
                let (w, h) = gen::dims(r, 6);
                let mut b = gen_known(r, w, h).bytes;
                let n = r.usize(b.len());
                b.truncate(n.min(200));
                std::fs::write(&p, b).expect("temp file");
                (p, Why::Other)
            }
        }
    } else {
        match r.usize(7) {
            0 => (t.path("folder.png"), Why::Os(libc::EISDIR)),
            1 => (t.path("nodir").join(format!("x.{}", ext)), Why::Os(libc::ENOENT)),
            2 => (good.join(format!("x.{}", ext)), Why::Os(libc::ENOTDIR)),
            3 | 4 => {
                let p = t.path(&format!("full.{}", ext));
                let _ = std::os::unix::fs::symlink("/dev/full", &p);
                (p, Why::Os(libc::ENOSPC))
            }
            5 => (t.path(stem.trim_end_matches(".png")), Why::Name),
            _ => (t.path(&format!("{}.{}", stem, odd)), Why::Name),
        }
    };
    c.desc(format!("{} {:?}: {:?}", if open { "open" } else { "save" }, p, want));
    c.distinct(&(open, &p, format!("{:?}", want)));
    let shown = p.to_string_lossy().to_string();
    let (why, text) = if open {
        match catch(|| Image::open(&p)) {
            Ok(Err(e)) => (why_open(&e), e.to_string()),
            Ok(Ok(_)) if want == Why::Other => return Ok(()),
            Ok(Ok(_)) => return fail("success", "opened"),
            Err(_) if want == Why::Other => return Ok(()), // for C03 to judge
            Err(e) => return fail("panic", e),
        }
    } else {
        match img.save(&p) {
            Err(e) => {
                if let EncodingError::BadFileExtension(n) = &e {
                    ensure!(*n == shown, "path", "{:?} for {:?}", e, p);
                    ensure!(e.to_string().contains(&shown), "path", "{:?} does not name {:?}", e.to_string(), p);
                }
                (why_save(&e), e.to_string())
            }
            Ok(()) => return fail("success", "saved"),
        }
    };
    c.eval();
    c.count(&format!("{} {:?}", if open { "open" } else { "save" }, want));
    ensure!(!text.trim().is_empty(), "text", "an error without text");
    ensure!(want == Why::Other || why == want, "cause", "{} is reported as {:?} ({}) instead of {:?}", shown, why, text, want);
    if let Why::Os(n) = &want {
        let os = IoError::from_raw_os_error(*n).to_string();
        ensure!(text == os, "text", "{:?} instead of {:?}", text, os);
    }
    // the queue
    let q = Queue::new().silent();
    let q = if open { q.open(&p) } else { q.open(&good).invert().save(&p) };
    c.eval();
    match catch(|| q.run()) {
        Ok(Err(e)) => {
            let inner = match &e {
                CommandError::Decoding(d) if open => why_open(d),
                CommandError::Encoding(d) if !open => why_save(d),
                _ => return fail("queue", format!("the queue reports {:?}", e)),
            };
            ensure!(inner == why, "queue", "the queue reports {:?} instead of {}", e, text);
            ensure!(e.to_string() == text, "queue:text", "the queue says {:?} instead of {:?}", e.to_string(), text);
            let s = e.source().map(|s| s.to_string());
            ensure!(s.as_deref() == Some(&text[..]), "queue:source", "the source of the queue's error is {:?} instead of {:?}", s, text);
        }
        o => return fail("queue", format!("the queue gives {:?}", o.map(|r| r.is_ok()))),
    }
    // the command line
    if c.rng.chance(0.4) {
        let mut a: Vec<std::ffi::OsString> = vec![];
        if c.rng.bool() {
            a.push("-silent".into());
        }
        a.push(if open { p.clone().into() } else { good.clone().into() });
        if !open {
            a.push("-invert".into());
            a.push(p.clone().into());
        }
        let o = crate::cli::run(&t.0, &a)?;
        c.eval();
        c.count("command lines");
        ensure!(o.code == Some(1) && o.stderr.contains(text.trim()), "command line", "{:?}: exit status {:?} and {:?} instead of {:?}", a, o.code, o.stderr, text);
    }
    // Python
    if c.rng.chance(0.3) {
        let s = p.to_str().unwrap();
        let g = good.to_str().unwrap();
        let prog = if open { format!("out += [attempt(lambda: d10.Image.open({:?}))]\n", s) } else { format!("a = d10.Image.open({:?})\nout += [attempt(lambda: a.save({:?}))]\n", g, s) };
        let r = crate::pymon::exceptions(c, &prog)?;
        c.eval();
        c.count("Python exceptions");
        match &r[0] {
            Some((t, m)) => ensure!(m.contains(text.trim()), "python", "{} raised {} {:?} instead of {:?}", prog, t, m, text),
            None => return fail("python", format!("{} raised nothing", prog)),
        }
    }
    Ok(())
}

pub fn c33(m: &mut Mon) {
    m.rule = "each error of a failing writer, read call, path, size or file is compared with what caused it: identity of the writer's own error, the injected or the system's error code, format, size and path; then the same failure in the command queue, on the command line and in Python; non-trivial: distinct (file or path, failure)".into();
    let n = m.n(100_000, 20);
    m.cases("writers", n, writers);
    let n = m.n(15_000, 20);
    m.cases("readers", n, readers);
    let n = m.n(3_000, 20);
    m.cases("sizes", n, sizes);
    let n = m.n(20_000, 20);
    m.cases("announced", n, announced);
    let n = m.n(4_000, 20);
    m.cases("layers", n, layers);
}
