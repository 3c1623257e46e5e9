//! C24: the library used from many threads at once
use crate::codecs::{all_formats, any_format, PRESETS};
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::style::{calls, some_op, OPS};
use d10::{EncodingFormat, Image, WebPPreset};
use d10_commands::Queue;
use d10_core::color::*;
use d10_core::pixelbuffer::PixelBuffer;
use std::io::Write;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

// Whether a type may be shared is judged by a monitor of its own, the workload has to compile either way
struct Sh<T>(T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}

struct Is<T>(PhantomData<T>);
trait No {
    const YES: bool = false;
}
impl<T> No for T {}
impl<T: Send + Sync> Is<T> {
    const YES: bool = true;
}

struct Failing(usize);
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::StorageFull, "no space"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub struct World {
    images: Vec<Image>,
    files: Vec<Vec<u8>>,
    dir: PathBuf,
}

pub type TaskFn = Box<dyn Fn(&World, usize) -> u64>;

fn dig(i: &Image) -> u64 {
    hash_of(&gen::bits(i.buffer()))
}

fn open_dig(b: &[u8]) -> u64 {
    match Image::read_from_buffer(b) {
        Ok(i) => dig(&i),
        Err(e) => hash_of(&e.to_string()),
    }
}

/// A task whose result depends on its inputs only
pub fn task(r: &mut Rng, w: &World, webp: bool) -> (String, TaskFn) {
    let i = r.usize(w.images.len());
    let img = &w.images[i];
    let kind = if webp { 100 + r.usize(4) } else { r.usize(12) };
    match kind {
        0..=4 => {
            let j = r.usize(w.images.len());
            loop {
                let k = r.usize(OPS);
                let (name, f, _, det) = some_op(r, k, img.width(), img.height());
                if det {
                    return (format!("{} of image {}", name, i), Box::new(move |w, _| dig(&f(&w.images[i], &w.images[j]))));
                }
            }
        }
        5 => {
            let (name, f) = any_format(r);
            (format!("save {}", name), Box::new(move |w, _| match w.images[i].save_to_buffer(f.clone()) {
                Ok(b) => hash_of(&b),
                Err(e) => hash_of(&e.to_string()),
            }))
        }
        6 => {
            let k = r.usize(w.files.len());
            (format!("open file {}", k), Box::new(move |w, _| open_dig(&w.files[k])))
        }
        7 => {
            let k = r.usize(w.files.len());
            let cut = r.usize(w.files[k].len());
            (format!("open file {} cut to {}", k, cut), Box::new(move |w, _| open_dig(&w.files[k][..cut])))
        }
        8 => {
            let ext = *r.pick(&["png", "jpg", "gif", "bmp", "ico", "webp"]);
            let id = r.u64();
            (format!("queue with {}", ext), Box::new(move |w, who| {
                let (a, b) = (w.dir.join(format!("{}-{}-a.{}", id, who, ext)), w.dir.join(format!("{}-{}-b.png", id, who)));
                if w.images[i].save(&a).is_err() {
                    return 1;
                }
                let e = Queue::new().silent().open(&a).invert().to_gray(Intensity::Average).save(&b).run();
                let r = match (e, Image::open(&a), Image::open(&b)) {
                    (Ok(()), Ok(x), Ok(y)) => hash_of(&(dig(&x), dig(&y))),
                    (e, x, y) => hash_of(&format!("{:?} {:?} {:?}", e.is_ok(), x.is_ok(), y.is_ok())),
                };
                let _ = std::fs::remove_file(a);
                let _ = std::fs::remove_file(b);
                r
            }))
        }
        9 => {
            let (name, f) = any_format(r);
            let at = r.usize(200);
            (format!("save {} to a writer failing at {}", name, at), Box::new(move |w, _| match w.images[i].save_to_writer(&mut Failing(at), f.clone()) {
                Ok(()) => 1,
                Err(e) => hash_of(&e.to_string()),
            }))
        }
        10 => {
            let at = r.usize((img.width() * img.height()) as usize + 1) as u64;
            ("closure that panics".into(), Box::new(move |w, _| {
                let n = AtomicU64::new(0);
                let f = |c: &Rgb| if n.fetch_add(1, Relaxed) == at { panic!("requested") } else { c.invert() };
                let p = catch(|| dig(&w.images[i].map_colors(|c| f(c))));
                let q = catch(|| dig(&Image::compose([&w.images[i], &w.images[0]], Rgb::NONE, |_, _, [a, b]| f(&a).alpha_blend(b))));
                hash_of(&(p.ok(), q.ok()))
            }))
        }
        11 => {
            let s = r.u64();
            ("colours".into(), Box::new(move |w, _| {
                let mut r = Rng::new(s);
                let mut h = vec![];
                for c in w.images[i].data() {
                    let k = r.f32();
                    h.push(gen::cbits(&c.with_hue_rotate(k).with_saturation(k).with_gamma(0.5 + k)));
                    h.push(gen::cbits(&c.to_lab::<illuminant::D65, observer::O2>().to_rgb()));
                    h.push(gen::cbits(&c.to_lch::<illuminant::D50, observer::O10>().to_rgb()));
                    h.push(gen::cbits(&c.to_srgb().to_hsl().to_hsv().to_yuv().to_rgb()));
                }
                hash_of(&h)
            }))
        }
        100 | 101 => {
            let q = r.below(101) as u8;
            let p = if r.bool() { WebPPreset::Lossless } else { *r.pick(&PRESETS) };
            (format!("save webp {:?} {}", p, q), Box::new(move |w, _| match w.images[i].save_to_buffer(EncodingFormat::WebP { quality: q, preset: p }) {
                Ok(b) => hash_of(&b),
                Err(e) => hash_of(&e.to_string()),
            }))
        }
        102 => {
            let ks: Vec<usize> = (0..w.files.len()).filter(|k| w.files[*k].get(8..12) == Some(b"WEBP")).collect();
            let k = *r.pick(&ks);
            (format!("open webp file {}", k), Box::new(move |w, _| open_dig(&w.files[k])))
        }
        _ => {
            let q = r.below(101) as u8;
            (format!("webp {} round trip", q), Box::new(move |w, _| match w.images[i].save_to_buffer(EncodingFormat::WebP { quality: q, preset: WebPPreset::Photo }) {
                Ok(b) => hash_of(&(hash_of(&b), open_dig(&b))),
                Err(e) => hash_of(&e.to_string()),
            }))
        }
    }
}

fn images(r: &mut Rng, n: usize, max: u32) -> Vec<Image> {
    let mut v: Vec<Image> = (0..n).map(|_| Image::new_from_buffer(gen::image(r, max))).collect();
    let q = Image::new_from_buffer(gen::image_kind(r, 17, 17, 7));
    v.push(q);
    v
}

pub fn files(r: &mut Rng) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (_, f) in all_formats() {
        let b = gen::image(r, 20);
        if let Ok(b) = Image::new_from_buffer(b).save_to_buffer(f) {
            v.push(b);
        }
    }
    v
}

pub fn world(r: &mut Rng, max: u32, dir: &Path) -> World {
    World { images: images(r, 3, max), files: files(r), dir: dir.to_owned() }
}

struct Run {
    results: Vec<Vec<u64>>,
    order: u64,
    overlap: usize,
}

/// Every thread runs every task in an order of its own
fn parallel(w: &World, tasks: &[(String, TaskFn)], threads: usize, seed: u64, delays: bool, first: Option<usize>) -> Run {
    let sh = Sh((w, tasks));
    let barrier = Barrier::new(threads);
    let running = AtomicUsize::new(0);
    let overlap = AtomicUsize::new(0);
    let events = Mutex::new(Vec::<(usize, usize, bool)>::new());
    let results: Vec<Mutex<Vec<u64>>> = (0..threads).map(|_| Mutex::new(vec![0; tasks.len()])).collect();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (sh, barrier, running, overlap, events, results) = (&sh, &barrier, &running, &overlap, &events, &results);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let Sh((w, tasks)) = sh;
                    let mut r = Rng::new(seed ^ (t as u64 * 0x9E37));
                    let mut order: Vec<usize> = (0..tasks.len()).collect();
                    for i in (1..order.len()).rev() {
                        order.swap(i, r.usize(i + 1));
                    }
                    if let Some(f) = first {
                        // the first one is shared by all or different for each thread
                        let f = if f == usize::MAX { t % tasks.len() } else { f };
                        let p = order.iter().position(|v| *v == f).unwrap();
                        order.swap(0, p);
                    }
                    let mut res = vec![0; tasks.len()];
                    barrier.wait();
                    for k in order {
                        if delays {
                            match r.usize(6) {
                                0 => std::thread::yield_now(),
                                1 => std::thread::sleep(std::time::Duration::from_micros(r.below(120))),
                                2 => (0..r.below(3000)).for_each(|_| std::hint::spin_loop()),
                                _ => {}
                            }
                        }
                        events.lock().unwrap().push((t, k, true));
                        overlap.fetch_max(running.fetch_add(1, SeqCst) + 1, SeqCst);
                        res[k] = match catch(|| (tasks[k].1)(w, t)) {
                            Ok(v) => v,
                            Err(p) => hash_of(&format!("panic {}", p)),
                        };
                        running.fetch_sub(1, SeqCst);
                        events.lock().unwrap().push((t, k, false));
                    }
                    *results[t].lock().unwrap() = res;
                })
                .unwrap();
        }
    });
    let order = hash_of(&*events.lock().unwrap());
    Run { results: results.into_iter().map(|m| m.into_inner().unwrap()).collect(), order, overlap: overlap.into_inner() }
}

fn shared(c: &mut Case) -> R {
    let dir = TempDir::new("c24");
    let n = 2 + c.rng.usize(3);
    let mut w = World { images: images(&mut c.rng, n, 20), files: files(&mut c.rng), dir: dir.0.clone() };
    if c.rng.chance(0.3) {
        w.images.push(Image::new_from_buffer(gen::Buf::new(0, 0)));
    }
    let webp = c.rng.chance(0.3);
    let nt = 4 + c.rng.usize(10);
    let mut tr = c.rng.clone();
    let tasks: Vec<(String, TaskFn)> = (0..nt).map(|_| task(&mut tr, &w, webp)).collect();
    c.rng = tr;
    let threads = 2 + c.rng.usize(9);
    c.desc(format!("{} threads: {}", threads, tasks.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("; ")));
    for t in &tasks {
        let key: String = t.0.split([' ', '{']).take(2).filter(|w| !w.chars().next().map_or(true, |c| c.is_ascii_digit() || c == '-')).collect::<Vec<_>>().join(" ");
        c.count(&format!("task {}", key));
    }
    let sequential = |w: &World| -> Vec<u64> {
        tasks
            .iter()
            .map(|t| match catch(|| (t.1)(w, 1000)) {
                Ok(v) => v,
                Err(p) => hash_of(&format!("panic {}", p)),
            })
            .collect()
    };
    let before: Vec<u64> = w.images.iter().map(dig).collect();
    let first = c.rng.bool();
    let mut seq = if first { sequential(&w) } else { vec![] };
    let seed = c.rng.u64();
    let delays = c.rng.bool();
    let start = match c.rng.usize(3) {
        0 => Some(c.rng.usize(nt)),
        _ => None,
    };
    let run = parallel(&w, &tasks, threads, seed, delays, start);
    if !first {
        seq = sequential(&w);
    }
    c.distinct(&run.order);
    c.max("tasks at the same time", run.overlap as f64);
    c.count("runs");
    for (t, r) in run.results.iter().enumerate() {
        for (k, v) in r.iter().enumerate() {
            c.eval();
            ensure!(*v == seq[k], "thread:result", "thread {} of {} got another result for {:?} than a single thread", t, threads, tasks[k].0);
        }
    }
    ensure!(w.images.iter().map(dig).collect::<Vec<_>>() == before, "thread:input", "a shared image changed");
    Ok(())
}

/// Many threads repeat calls of one kind with different parameters and images as fast as they can
fn hammer(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let threads = 4 + c.rng.usize(5);
    let names: Vec<String> = calls(seed).iter().map(|v| v.name.clone()).collect();
    if names.is_empty() {
        return Ok(());
    }
    c.desc(format!("{} threads: {}", threads, names.join("; ")));
    let barrier = Barrier::new(threads);
    let budget = std::time::Duration::from_millis(if san() == "tsan" { 25 } else { 12 });
    let rounds = AtomicU64::new(0);
    // the thread, the call, its results: at least two different ones if some result deviates
    let results: Mutex<Vec<(usize, usize, u64)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (barrier, results, rounds) = (&barrier, &results, &rounds);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let v = calls(seed);
                    let mut seen: Vec<(usize, u64)> = vec![];
                    barrier.wait();
                    let start = std::time::Instant::now();
                    let mut i = t;
                    while i < t + v.len() || start.elapsed() < budget {
                        let k = i % v.len();
                        let h = match catch(|| (v[k].run)()) {
                            Ok(h) => h,
                            Err(p) => hash_of(&format!("panic {}", p)),
                        };
                        if !seen.contains(&(k, h)) {
                            seen.push((k, h));
                        }
                        i += 1;
                    }
                    rounds.fetch_add((i - t) as u64, Relaxed);
                    results.lock().unwrap().extend(seen.iter().map(|s| (t, s.0, s.1)));
                })
                .unwrap();
        }
    });
    let n = rounds.into_inner();
    c.add("calls of the same kind at the same time", n);
    c.evals(n);
    c.distinct(&(seed, threads));
    let alone: Vec<u64> = calls(seed)
        .iter()
        .map(|v| match catch(|| (v.run)()) {
            Ok(h) => h,
            Err(p) => hash_of(&format!("panic {}", p)),
        })
        .collect();
    for (t, k, h) in results.into_inner().unwrap() {
        ensure!(h == alone[k], "hammer:result", "thread {} of {} got another result for {:?} than a single thread", t, threads, names[k]);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- first use

fn first_use_world(seed: u64, dir: &Path) -> (World, Vec<(String, TaskFn)>, usize, Option<usize>) {
    let mut r = Rng::new(seed);
    let mut fs: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "img")).collect();
    fs.sort();
    let w = World { images: images(&mut r, 2, 40), files: fs.iter().map(|p| std::fs::read(p).unwrap()).collect(), dir: std::env::temp_dir() };
    let nt = 4 + r.usize(5);
    let webp = r.chance(0.7);
    let mut tasks = vec![];
    for _ in 0..nt {
        tasks.push(loop {
            let t = task(&mut r, &w, webp);
            if !t.0.starts_with("queue") {
                break t;
            }
        });
    }
    let threads = 2 + r.usize(7);
    let first = match r.usize(3) {
        0 => Some(r.usize(nt)),
        _ => Some(usize::MAX),
    };
    (w, tasks, threads, first)
}

/// The child process: nothing of the library ran before the threads start
pub fn first_use_child(seed: u64, dir: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let (w, tasks, threads, first) = first_use_world(seed, Path::new(dir));
    let run = parallel(&w, &tasks, threads, seed, false, first);
    let out: Vec<String> = run.results.iter().map(|r| r.iter().map(|v| format!("{:x}", v)).collect::<Vec<_>>().join(" ")).collect();
    println!("order {:x} overlap {}", run.order, run.overlap);
    println!("{}", out.join("\n"));
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

fn first_use(c: &mut Case, dir: &Path) -> R {
    let seed = c.rng.u64();
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    let log = dir.join(format!("report-{}", c.n));
    san_env(&mut cmd, &log);
    let out = cmd.arg("--first-use").arg(seed.to_string()).arg(dir).output().map_err(|e| Fail { sig: "check".into(), msg: format!("cannot start a process: {}", e) })?;
    let report = san_reports(&log);
    let (w, tasks, threads, _) = first_use_world(seed, dir);
    c.desc(format!("{} threads of a new process: {}", threads, tasks.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("; ")));
    ensure!(report.is_empty(), "first use:race", "{}", report.chars().take(4000).collect::<String>());
    ensure!(out.status.code() == Some(0), "first use:crash", "the process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>());
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut lines = text.lines();
    let head = lines.next().unwrap_or("").to_owned();
    c.distinct(&head);
    if let Some(o) = head.split(' ').nth(3).and_then(|s| s.parse::<f64>().ok()) {
        c.max("first uses at the same time", o);
    }
    let rows: Vec<Vec<u64>> = lines.map(|l| l.split(' ').filter_map(|v| u64::from_str_radix(v, 16).ok()).collect()).collect();
    ensure!(rows.len() == threads, "first use:output", "{} result lines for {} threads", rows.len(), threads);
    c.count("new processes");
    for (k, t) in tasks.iter().enumerate() {
        let e = match catch(|| (t.1)(&w, 0)) {
            Ok(v) => v,
            Err(p) => hash_of(&format!("panic {}", p)),
        };
        for (i, r) in rows.iter().enumerate() {
            c.eval();
            ensure!(r.get(k) == Some(&e), "first use:result", "thread {} of {} of a new process got another result for {:?} than a single thread", i, threads, t.0);
        }
    }
    Ok(())
}

fn send_sync(c: &mut Case) -> R {
    c.desc("Send and Sync of the public types");
    let mut no = vec![];
    macro_rules! all { ($($t:ty),* $(,)?) => { $( c.stats.evaluations += 1; c.distinct(stringify!($t)); if !<Is<$t>>::YES { no.push(stringify!($t)); } )* } }
    all!(
        Image, PixelBuffer<Rgb>, PixelBuffer<Srgb>, PixelBuffer<Hsl>, PixelBuffer<Hsv>, PixelBuffer<Xyz>, PixelBuffer<Yuv>, Rgb, Srgb, Hsl, Hsv, Xyz, Yuv,
        Lab<illuminant::D65, observer::O2>, Lch<illuminant::D65, observer::O2>, PixelBuffer<Lab<illuminant::D65, observer::O2>>, PixelBuffer<Lch<illuminant::E, observer::O10>>,
        EncodingFormat, d10::DecodingError, d10::EncodingError, d10_core::errors::ParseEnumError, Intensity, d10::FilterMode, d10_ops::BlendOp,
    );
    ensure!(no.is_empty(), "not shareable", "not Send and Sync: {}", no.join(", "));
    Ok(())
}

pub fn c24(m: &mut Mon) {
    m.rule = "results of tasks (all operations, codecs, command queues, colours) run by several threads over shared images with random order and delays compared with a single thread, in warm and in new processes, and calls of one kind with different parameters and images repeated by all threads as fast as possible; non-trivial: distinct orders of task start and end events".into();
    m.assumptions.push("libwebp's own lazy set-up of its function tables is unsynchronised by design and marked so for ThreadSanitizer by its authors; its effect is judged by the results of the first calls in new processes".into());
    m.assumptions.push("the ThreadSanitizer build instruments the library, its Rust dependencies, the standard library and libwebp".into());
    let tsan = san() == "tsan";
    m.serial("send_sync", 1, send_sync);
    let dir = TempDir::new("c24f");
    if m.only.as_ref().map_or(true, |o| o.0 == "first_use") {
        let mut r = m.rng_for("files", 0);
        for (k, f) in files(&mut r).iter().enumerate() {
            std::fs::write(dir.path(&format!("{:03}.img", k)), f).expect("scratch file");
        }
    }
    let n = m.n(160, 40);
    m.cases_on("first_use", n, if tsan { 2 } else { 3 }, |c| first_use(c, &dir.0));
    drop(dir);
    let n = m.n(260, 40);
    m.cases_on("shared", n, 2, shared);
    let n = m.n(if tsan { 1200 } else { 500 }, 10);
    m.cases_on("hammer", n, 1, hammer);
    m.extra.insert("build".into(), serde_json::json!(if tsan { "ThreadSanitizer" } else { "plain" }));

}
