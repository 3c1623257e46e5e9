//! Faults at the system-call boundary: the C library's file functions are replaced in this binary, so that
//! calls of a thread that armed a plan are counted, shortened, interrupted or made to fail.
//! (Only with the feature `iofault`: the sanitizers' run times replace these functions themselves.)
use crate::fw::Rng;
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// reads/writes return at most this many bytes (0: as asked), a random number of them if `vary`
    pub max: usize,
    pub vary: bool,
    /// every call but the first of a row of equal ones is interrupted with this probability
    pub interrupt: f64,
    /// the n-th read/write (from 0) fails with this error, once or from then on
    pub fail_at: Option<(u64, i32, bool)>,
    /// the n-th seek fails
    pub fail_seek: Option<u64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Seen {
    pub calls: u64,
    pub shortened: u64,
    pub interrupted: u64,
    pub failed: u64,
    pub seeks: u64,
    pub opened: i64,
    pub closed: i64,
    pub bytes: u64,
}

struct Armed {
    plan: Plan,
    seen: Seen,
    rng: Rng,
    fds: Vec<i32>,
    last_interrupted: bool,
}

thread_local! {
    static STATE: RefCell<Option<Armed>> = const { RefCell::new(None) };
}

/// Run `f` with the plan applied to every file it opens on this thread
pub fn with<T>(plan: Plan, seed: u64, f: impl FnOnce() -> T) -> (T, Seen) {
    STATE.with(|s| *s.borrow_mut() = Some(Armed { plan, seen: Seen::default(), rng: Rng::new(seed), fds: vec![], last_interrupted: false }));
    // also when `f` panics
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            let _ = STATE.try_with(|s| s.borrow_mut().take());
        }
    }
    let disarm = Disarm;
    let r = f();
    std::mem::forget(disarm);
    let a = STATE.with(|s| s.borrow_mut().take()).expect("armed");
    (r, a.seen)
}

#[cfg_attr(not(feature = "iofault"), allow(dead_code))]
enum Act {
    Pass(usize),
    Error(i32),
}

#[cfg_attr(not(feature = "iofault"), allow(dead_code))]
fn act(fd: i32, n: usize) -> Act {
    STATE
        .try_with(|s| {
            let mut s = match s.try_borrow_mut() {
                Ok(s) => s,
                Err(_) => return Act::Pass(n),
            };
            let a = match s.as_mut() {
                Some(a) if a.fds.contains(&fd) => a,
                _ => return Act::Pass(n),
            };
            if !a.last_interrupted && a.plan.interrupt > 0.0 && a.rng.chance(a.plan.interrupt) {
                a.last_interrupted = true;
                a.seen.interrupted += 1;
                return Act::Error(libc::EINTR);
            }
            a.last_interrupted = false;
            let k = a.seen.calls;
            a.seen.calls += 1;
            if let Some((at, err, forever)) = a.plan.fail_at {
                if k == at || (forever && k > at) {
                    a.seen.failed += 1;
                    return Act::Error(err);
                }
            }
            let mut m = n;
            if a.plan.max > 0 && n > 0 {
                m = m.min(if a.plan.vary { 1 + a.rng.usize(a.plan.max) } else { a.plan.max });
                if m < n {
                    a.seen.shortened += 1;
                }
            }
            a.seen.bytes += m as u64;
            Act::Pass(m)
        })
        .unwrap_or(Act::Pass(n))
}

#[cfg(feature = "iofault")]
mod hooks {
    use super::*;
    use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};

    unsafe fn set_errno(e: i32) {
        *libc::__errno_location() = e;
    }

    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
        match act(fd, n) {
            Act::Pass(n) => libc::syscall(libc::SYS_read, fd as c_long, p, n) as ssize_t,
            Act::Error(e) => {
                set_errno(e);
                -1
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
        match act(fd, n) {
            Act::Pass(n) => libc::syscall(libc::SYS_write, fd as c_long, p, n) as ssize_t,
            Act::Error(e) => {
                set_errno(e);
                -1
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
        let fail = STATE
            .try_with(|s| match s.try_borrow_mut() {
                Ok(mut s) => match s.as_mut() {
                    Some(a) if a.fds.contains(&fd) => {
                        a.seen.seeks += 1;
                        let fail = a.plan.fail_seek == Some(a.seen.seeks - 1);
                        a.seen.failed += fail as u64;
                        fail
                    }
                    _ => false,
                },
                Err(_) => false,
            })
            .unwrap_or(false);
        if fail {
            set_errno(libc::EIO);
            return -1;
        }
        libc::syscall(libc::SYS_lseek, fd as c_long, off, whence as c_long) as off64_t
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD as c_long, path, flags as c_long, mode as c_long) as c_int;
        if fd >= 0 {
            let _ = STATE.try_with(|s| {
                if let Ok(mut s) = s.try_borrow_mut() {
                    if let Some(a) = s.as_mut() {
                        a.seen.opened += 1;
                        a.fds.push(fd);
                    }
                }
            });
        }
        fd
    }

    #[no_mangle]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        let _ = STATE.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if let Some(a) = s.as_mut() {
                    if let Some(i) = a.fds.iter().position(|f| *f == fd) {
                        a.seen.closed += 1;
                        a.fds.remove(i);
                    }
                }
            }
        });
        libc::syscall(libc::SYS_close, fd as c_long) as c_int
    }
}

// ------------------------------------------------------------------------------------------- C30

use crate::codecs::{any_format, encode_as, mutate, sniff};
use crate::fmts::{declared_pixels, gen_known};
use crate::fw::*;
use crate::{ensure, gen};
use d10::Image;
use std::path::Path;

const LIMIT: u64 = 300_000;

/// A file: valid, of unusual flavour, damaged or no image at all
fn any_file(c: &mut Case) -> Option<(String, Vec<u8>)> {
    let big = c.rng.chance(0.15);
    let max = if big { 90 } else { 24 };
    let (what, mut b) = if c.rng.chance(0.5) {
        let (w, h) = gen::dims(&mut c.rng, max);
        let k = gen_known(&mut c.rng, w, h);
        (k.kind, k.bytes)
    } else {
        let (n, f) = any_format(&mut c.rng);
        let img = gen::image(&mut c.rng, max);
        (n, Image::new_from_buffer(img).save_to_buffer(f).ok()?)
    };
    Some(match c.rng.usize(10) {
        0 => {
            let n = c.rng.usize(b.len() + 1);
            b.truncate(n);
            (format!("{} cut to {}", what, n), b)
        }
        1 => {
            let o = gen_known(&mut c.rng, 5, 4).bytes;
            mutate(&mut c.rng, &mut b, &o);
            (format!("damaged {}", what), b)
        }
        2 => {
            let n = c.rng.usize(9000);
            for _ in 0..n {
                b.push(c.rng.u64() as u8);
            }
            (format!("{} followed by {} bytes", what, n), b)
        }
        3 if c.rng.chance(0.3) => {
            let n = c.rng.usize(40);
            ("noise".into(), (0..n).map(|_| c.rng.u64() as u8).collect())
        }
        _ => (what, b),
    })
}

fn show(r: &Result<Result<Image, d10::DecodingError>, String>) -> String {
    match r {
        Ok(Ok(i)) => format!("an image of {}x{}", i.width(), i.height()),
        Ok(Err(e)) => format!("the error {:?}", e.to_string()),
        Err(p) => format!("a panic: {}", p),
    }
}

fn equal(a: &Image, b: &Image) -> bool {
    gen::bits(a.buffer()) == gen::bits(b.buffer()) && a.width() == b.width()
}

/// the same image or an error both times; a panic is C03's business, but must then happen both times, too
fn agree(a: &Result<Result<Image, d10::DecodingError>, String>, b: &Result<Result<Image, d10::DecodingError>, String>) -> bool {
    match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => equal(a, b),
        (Ok(Err(_)), Ok(Err(_))) | (Err(_), Err(_)) => true,
        _ => false,
    }
}

fn c30_case(c: &mut Case) -> R {
    let (what, bytes) = match any_file(c) {
        Some(f) => f,
        None => return Ok(()),
    };
    if declared_pixels(&bytes) > LIMIT {
        return Ok(());
    }
    let dir = TempDir::new("c30");
    let exts = ["png", "jpg", "jpeg", "gif", "bmp", "ico", "webp", "PNG", "Jpg", "txt", ""];
    let ext = *c.rng.pick(&exts);
    let p = dir.path(&if ext.is_empty() { "file".to_string() } else { format!("file.{}", ext) });
    std::fs::write(&p, &bytes).expect("temp file");
    c.desc(format!("{} ({} bytes) as {}", what, bytes.len(), p.file_name().unwrap().to_string_lossy()));
    c.input = Some(bytes.clone());
    c.distinct(&(ext, &bytes));

    let open = |q: &Path| catch(|| Image::open(q));
    // undisturbed: the same as from memory whenever the content alone decides
    let seed = c.rng.u64();
    let (plain, seen) = with(Plan::default(), seed, || open(&p));
    c.evals(1);
    c.count(&format!("undisturbed: {}", if matches!(plain, Ok(Ok(_))) { "image" } else { "error" }));
    c.max("most read calls of an open", seen.calls as f64);
    c.count(if seen.calls > 0 && seen.opened > 0 { "opens observed at the system calls" } else { "opens not observed" });
    ensure!(seen.opened == seen.closed, "open file left", "{} files opened, {} closed", seen.opened, seen.closed);
    if sniff(&bytes).is_some() {
        let mem = catch(|| Image::read_from_buffer(&bytes));
        c.evals(1);
        ensure!(agree(&plain, &mem), "memory", "opening the file gives {}, reading the same bytes from memory {}", show(&plain), show(&mem));
    }

    // the gif crate's idea of whether a damaged file is complete depends on the portions it is fed
    let gif = sniff(&bytes) == Some(d10_codecs::Format::Gif) && matches!(plain, Ok(Err(_)));

    // slow, but complete delivery
    for k in 0..4 {
        let plan = match k {
            0 => Plan { max: 1, ..Plan::default() },
            1 => Plan { max: 1 + c.rng.usize(20), ..Plan::default() },
            2 => Plan { max: 2 + c.rng.usize(5000), vary: true, ..Plan::default() },
            _ => Plan { max: 7 + c.rng.usize(300), vary: true, ..Plan::default() },
        };
        if k == 0 && bytes.len() > 20_000 {
            continue;
        }
        let seed = c.rng.u64();
        let (r, s) = with(plan.clone(), seed, || open(&p));
        c.evals(1);
        c.add("short reads delivered", s.shortened);
        ensure!(agree(&plain, &r), if gif { "gif:damaged, short reads" } else { "short reads" }, "undisturbed: {}; with {:?}: {}", show(&plain), plan, show(&r));
        ensure!(s.opened == s.closed, "open file left", "{} files opened, {} closed", s.opened, s.closed);
    }

    // failing reads and seeks: an error, or the very same image if the failed call did not matter
    let slow = Plan { max: (bytes.len() / 40).max(1), ..Plan::default() };
    let seed = c.rng.u64();
    let n = with(slow.clone(), seed, || open(&p)).1;
    for k in 0..14 {
        let mut plan = slow.clone();
        match k {
            0 => plan.fail_at = Some((0, libc::EIO, c.rng.bool())),
            1..=7 => {
                let e = *c.rng.pick(&[libc::EIO, libc::ESTALE, libc::EAGAIN, libc::ENOMEM, libc::EBADF, libc::EISDIR]);
                plan.fail_at = Some((c.rng.below(n.calls.max(1)), e, c.rng.chance(0.7)))
            }
            // (regular files are not interrupted in practice; the decoders' crates report it as an error)
            8 => plan.interrupt = 0.3,
            9 => plan = Plan { interrupt: 0.05, ..Plan::default() },
            _ if n.seeks > 0 => plan.fail_seek = Some(c.rng.below(n.seeks)),
            _ => continue,
        }
        let seed = c.rng.u64();
        let (r, s) = with(plan.clone(), seed, || open(&p));
        c.evals(1);
        c.add("failing calls delivered", s.failed);
        c.add("interrupted calls delivered", s.interrupted);
        match (&plain, &r) {
            (_, Err(m)) if plain.is_ok() => return fail("panic", format!("with {:?}: panic {}", plan, m)),
            (Ok(Ok(a)), Ok(Ok(b))) => {
                c.count("failing calls without effect");
                ensure!(equal(a, b), "read error ignored", "with {:?} another image ({}x{} instead of {}x{}) is returned", plan, b.width(), b.height(), a.width(), a.height());
            }
            (Ok(Err(e)), Ok(Ok(b))) => return fail(if gif { "gif:damaged, short reads" } else { "read error ignored" }, format!("with {:?} an image of {}x{} is returned, undisturbed the error {}", plan, b.width(), b.height(), e)),
            _ => {}
        }
        ensure!(s.opened == s.closed, "open file left", "{:?}: {} files opened, {} closed", plan, s.opened, s.closed);
    }
    ensure!(std::fs::read(&p).ok().as_deref() == Some(&bytes[..]), "file changed", "opening changed the file");
    // and nothing of all that is remembered
    let again = open(&p);
    c.evals(1);
    ensure!(agree(&plain, &again), "history", "opened again: {} instead of {}", show(&again), show(&plain));
    // other content under the same name: nothing of the old one may come back
    let other = if c.rng.chance(0.5) && bytes.len() > 60 {
        // of the same length and with the same time of modification
        let mut o = bytes.clone();
        let from = if sniff(&bytes) == Some(d10_codecs::Format::Bmp) { 54.min(o.len() - 1) } else { 0 };
        let n = 1 + c.rng.usize(30);
        for _ in 0..n {
            let i = from + c.rng.usize(o.len() - from);
            o[i] ^= 1 << c.rng.usize(8);
        }
        o
    } else {
        match any_file(c) {
            Some((_, o)) => o,
            None => return Ok(()),
        }
    };
    if declared_pixels(&other) > LIMIT || sniff(&other).is_none() {
        return Ok(());
    }
    let time = std::fs::metadata(&p).and_then(|m| m.modified());
    if c.rng.bool() {
        let _ = std::fs::remove_file(&p);
    }
    std::fs::write(&p, &other).expect("temp file");
    if let (Ok(t), true) = (time, c.rng.bool()) {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&p) {
            let _ = f.set_modified(t);
        }
    }
    let r = open(&p);
    let mem = catch(|| Image::read_from_buffer(&other));
    c.evals(1);
    c.count("files replaced by others");
    if matches!((&plain, &mem), (Ok(Ok(a)), Ok(Ok(b))) if !equal(a, b)) {
        c.count("images replaced by other images");
    }
    c.input = Some(other);
    ensure!(agree(&mem, &r), "replaced file", "after the file was replaced, opening it gives {}, reading its bytes from memory {}", show(&r), show(&mem));
    Ok(())
}

/// The way to the file and its surroundings do not matter
fn c30_paths(c: &mut Case) -> R {
    use std::os::unix::ffi::OsStrExt;
    let (w, h) = gen::dims(&mut c.rng, 12);
    let k = gen_known(&mut c.rng, w, h);
    let dir = TempDir::new("c30p");
    let sub = dir.path("a b").join("ü");
    std::fs::create_dir_all(&sub).expect("dir");
    let ext = *c.rng.pick(&["png", "jpg", "gif", "bmp", "ico", "webp", "dat"]);
    c.desc(format!("{} as {}", k.kind, ext));
    c.distinct(&(ext, &k.bytes));
    let p = sub.join(format!("x.{}", ext));
    std::fs::write(&p, &k.bytes).expect("temp file");
    let mem = catch(|| Image::read_from_buffer(&k.bytes));
    let mut paths = vec![p.clone(), sub.join("..").join("ü").join(format!("x.{}", ext))];
    let link = dir.path("link.txt");
    if std::os::unix::fs::symlink(&p, &link).is_ok() {
        paths.push(link.clone());
        let l2 = dir.path("link2.bmp");
        if std::os::unix::fs::symlink(&link, &l2).is_ok() {
            paths.push(l2);
        }
    }
    let hard = dir.path("hard.GIF");
    if std::fs::hard_link(&p, &hard).is_ok() {
        paths.push(hard);
    }
    for name in [&b"\xff\xfe.png"[..], b"new\nline.jpg", b" ", b".png", b"..ico", &[b'n'; 250][..], b"-silent", b"%41.png"] {
        let q = dir.0.join(std::ffi::OsStr::from_bytes(name));
        if std::fs::copy(&p, &q).is_ok() {
            paths.push(q);
        }
    }
    for q in &paths {
        let r = catch(|| Image::open(q));
        c.evals(1);
        c.count("paths tried");
        ensure!(agree(&mem, &r), "path", "from memory: {}; from {}: {}", show(&mem), q.display(), show(&r));
    }
    // no file: an error
    let broken = dir.path("broken.png");
    let _ = std::os::unix::fs::symlink(dir.path("missing"), &broken);
    let looped = dir.path("loop.png");
    let _ = std::os::unix::fs::symlink(&looped, &looped);
    let nul = Path::new(std::ffi::OsStr::from_bytes(b"a\0b.png"));
    for q in [dir.path("missing.png").as_path(), &broken, &looped, &sub, &p.join("x.png"), Path::new(""), nul, Path::new("/dev/null")] {
        c.evals(1);
        let r = catch(|| Image::open(q));
        ensure!(matches!(r, Ok(Err(_))), "no file", "opening {} gives {}", q.display(), show(&r));
        ensure!(!q.starts_with(&dir.0) || q.exists() == (q == sub.as_path()), "file created", "opening {} created it", q.display());
    }
    // unrelated neighbours with the same stem
    let img = Image::new_from_buffer(gen::image(&mut c.rng, 5));
    for e in ["png", "jpg", "PNG"] {
        let _ = std::fs::write(sub.join(format!("x.{}", e)), encode_as(d10_codecs::Format::Png, &img));
    }
    if !["png", "jpg"].contains(&ext) {
        let r = catch(|| Image::open(&p));
        c.evals(1);
        ensure!(agree(&mem, &r), "path", "another file with the same stem changes the result");
    }
    Ok(())
}

pub fn c30(m: &mut Mon) {
    m.rule = "files of every flavour (valid, damaged, truncated, with trailing bytes, noise) under right, wrong and no extension are opened while the process's own read, lseek, open and close are replaced by functions that count, shorten, interrupt or fail the calls of the opening thread; oracle: the image read from the same bytes in memory (an error if that is one), an error or that very image when a call fails; every file opened is closed; non-trivial: distinct (extension, bytes)".into();
    m.assumptions.push("errors are injected into read and lseek calls of files opened during the call; observed_events says how many opens were seen at that level".into());
    let n = m.n(25_000, 20);
    m.cases("faults", n, c30_case);
    let n = m.n(300, 20);
    m.cases("paths", n, c30_paths);
}
