//! C22: the command line tool (as a process) and the command queue (in process) against the library
use crate::codecs::encode_as;
use crate::ensure;
use crate::fw::*;
use crate::gen;
use d10::{FilterMode, Image};
use d10_codecs::Format;
use d10_commands::{Cmd, CommandError, Queue};
use d10_core::color::*;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const INTENSITIES: [&str; 10] = ["average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue"];
/// option, number of numbers
const OPTIONS: [(&str, usize); 14] = [
    ("gamma", 1), ("level", 3), ("brightness", 1), ("contrast", 1), ("brightness-contrast", 2), ("saturation", 1), ("stretch-saturation", 1), ("lightness", 1), ("hue-rotate", 1), ("rotate", 1),
    ("random-noise", 1), ("salt-n-pepper-noise", 1), ("rgb-noise", 1), ("invert", 0),
];

#[derive(Clone, Debug)]
enum Step {
    Silent,
    Open(OsString),
    Save(OsString),
    Gray(&'static str),
    Op(&'static str, Vec<f32>),
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Failed {
    No,
    Missing,
    Open,
    Save,
}

fn at(dir: &Path, name: &OsStr) -> PathBuf {
    dir.join(name)
}

/// What the steps mean: library calls, one after the other
fn model(dir: &Path, steps: &[Step]) -> (usize, Failed) {
    let mut img: Option<Image> = None;
    for (i, s) in steps.iter().enumerate() {
        match s {
            Step::Silent => continue,
            Step::Open(p) => match Image::open(at(dir, p)) {
                Ok(i) => {
                    img = Some(i);
                    continue;
                }
                Err(_) => return (i, Failed::Open),
            },
            _ => {}
        }
        let b = match &img {
            Some(b) => b,
            None => return (i, Failed::Missing),
        };
        match s {
            Step::Save(p) => {
                if b.save(at(dir, p)).is_err() {
                    return (i, Failed::Save);
                }
            }
            Step::Gray(n) => {
                let v: Intensity = n.parse().unwrap();
                img = Some(b.map_colors(|c| c.to_gray_with_intensity(v)));
            }
            Step::Op(n, v) => {
                img = Some(match *n {
                    "invert" => b.map_colors(|c| c.invert()),
                    "gamma" => b.map_colors(|c| c.with_gamma(v[0])),
                    "level" => b.map_colors(|c| c.with_level(v[0], v[1], v[2])),
                    "brightness" => b.map_colors(|c| c.with_brightness(v[0])),
                    "contrast" => b.map_colors(|c| c.with_contrast(v[0])),
                    "brightness-contrast" => b.map_colors(|c| c.with_brightness_contrast(v[0], v[1])),
                    "saturation" => b.map_colors(|c| c.with_saturation(v[0])),
                    "stretch-saturation" => b.map_colors(|c| c.stretch_saturation(v[0])),
                    "lightness" => b.map_colors(|c| c.with_lightness(v[0])),
                    "hue-rotate" => b.map_colors(|c| c.with_hue_rotate(v[0])),
                    "rotate" => b.rotate(v[0], FilterMode::Bilinear),
                    "random-noise" => b.random_noise(v[0]),
                    "salt-n-pepper-noise" => b.salt_n_pepper_noise(v[0]),
                    _ => b.rgb_noise(v[0]),
                })
            }
            _ => {}
        }
    }
    (steps.len(), Failed::No)
}

fn number(r: &mut Rng, v: f32) -> String {
    match r.usize(8) {
        0 => format!("{:e}", v),
        1 if v >= 0.0 => format!("+{}", v),
        2 => {
            let s = format!("{}", v);
            s.strip_prefix("0.").map(|d| format!(".{}", d)).unwrap_or(s)
        }
        3 if v == v.trunc() => format!("{}.", v),
        4 => format!("{:.3}", v),
        5 => format!("{:E}", v),
        6 => format!("{:.12}", v),
        _ => format!("{}", v),
    }
}

fn value(r: &mut Rng, op: &str) -> f32 {
    match op {
        "gamma" => { let v = [r.uniform(0.1, 4.0), 1.0, 0.01, 50.0]; *r.pick(&v) },
        "hue-rotate" => { let v = [r.uniform(-2.0, 2.0), r.uniform(-400.0, 400.0), 180.0, -90.0, 360.0, 720.5, 1e4]; *r.pick(&v) },
        "rotate" => *r.pick(&[0.0, 90.0, 45.0, -30.0, 12.5, 180.0, 400.0]),
        // noise without a random result
        "random-noise" | "salt-n-pepper-noise" | "rgb-noise" => 0.0,
        "stretch-saturation" => { let v = [r.uniform(0.0, 1.0), 1.0, 3.5]; *r.pick(&v) },
        "contrast" | "saturation" | "lightness" if r.bool() => { let v = [r.uniform(0.0, 3.0), 12.5, 100.0]; *r.pick(&v) },
        _ => {
            let v = r.uniform(-1.0, 1.0);
            match r.usize(7) {
                0 => 0.0,
                6 => v * 4.0,
                1 => v.signum(),
                2 => v * 1e-3,
                _ => v,
            }
        }
    }
}

struct Files {
    inputs: Vec<OsString>,
    bad: Vec<OsString>,
}

fn populate(r: &mut Rng, dirs: &[&Path]) -> Files {
    let mut f = Files { inputs: vec![], bad: vec![] };
    let put = |n: &OsStr, d: &[u8]| dirs.iter().for_each(|p| std::fs::write(p.join(n), d).expect("scratch file"));
    let fmts = [Format::Png, Format::Jpeg, Format::Gif, Format::Bmp, Format::Ico, Format::WebP];
    for k in 0..3 {
        let img = Image::new_from_buffer(gen::image(r, 12));
        let fmt = fmts[r.usize(6)];
        let n: OsString = match k {
            0 => "in.png".into(),
            1 => (*r.pick(&["two words.jpg", "ümlaut.webp", "UPPER.PNG", "a.b.c.gif", "-dash.png", "no_extension", "quote'\".bmp"])).into(),
            _ => OsStr::from_bytes(*r.pick(&[b"raw\xff\xfe.png".as_slice(), b"\x80.jpg", b"plain.bmp", b"sub/deep.png"])).into(),
        };
        put(&n, &encode_as(fmt, &img));
        f.inputs.push(n);
    }
    put(OsStr::new("garbage.png"), b"this is no image at all");
    let img = Image::new_from_buffer(gen::image(r, 12));
    let b = encode_as(Format::Png, &img);
    put(OsStr::new("cut.png"), &b[..b.len() / 2]);
    put(OsStr::new("garbage.xyz"), b"neither");
    f.bad = vec!["missing.png".into(), "garbage.png".into(), "cut.png".into(), "garbage.xyz".into(), "sub".into(), "nodir/in.png".into(), "".into()];
    f
}

fn dirs(tag: &str) -> (TempDir, PathBuf, PathBuf) {
    let t = TempDir::new(tag);
    let (a, b) = (t.path("a"), t.path("b"));
    for d in [&a, &b] {
        std::fs::create_dir_all(d.join("sub")).expect("scratch");
        std::fs::create_dir_all(d.join("folder.png")).expect("scratch");
        let _ = std::os::unix::fs::symlink("/dev/full", d.join("full.png"));
    }
    (t, a, b)
}

fn listing(d: &Path) -> BTreeMap<Vec<u8>, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![d.to_owned()];
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
            let n = e.path();
            let t = match e.file_type() {
                Ok(t) => t,
                Err(_) => continue,
            };
            let key = n.strip_prefix(d).unwrap().as_os_str().as_bytes().to_vec();
            if t.is_dir() {
                todo.push(n);
                m.insert(key, None);
            } else if t.is_file() {
                m.insert(key, std::fs::read(&n).ok());
            } else {
                m.insert(key, None);
            }
        }
    }
    m
}

fn same_dirs(a: &Path, b: &Path, skip: &[OsString]) -> Result<(), Fail> {
    let (x, y) = (listing(a), listing(b));
    for (k, v) in &x {
        if skip.iter().any(|s| s.as_bytes() == &k[..]) {
            continue;
        }
        let n = String::from_utf8_lossy(k);
        match y.get(k) {
            None => return fail("files", format!("{} was created", n)),
            Some(w) => ensure!(v == w, "files", "{} has another content ({} bytes) than the library writes ({} bytes)", n, v.as_ref().map_or(0, |v| v.len()), w.as_ref().map_or(0, |v| v.len())),
        }
    }
    for k in y.keys() {
        ensure!(x.contains_key(k), "files", "{} is missing", String::from_utf8_lossy(k));
    }
    Ok(())
}

fn target(r: &mut Rng, f: &Files) -> OsString {
    match r.usize(20) {
        0 => "nodir/out.png".into(),
        1 => "out.xyz".into(),
        2 => "out".into(),
        3 => "full.png".into(),
        4 => "folder.png".into(),
        5 => OsStr::from_bytes(b"out\xff.png").into(),
        6 => f.inputs[r.usize(f.inputs.len())].clone(),
        7 => "OUT.PnG".into(),
        8 => "sub/out.bmp".into(),
        _ => (*r.pick(&["out.png", "out.jpg", "out.jpeg", "out.gif", "out.bmp", "out.ico", "out.webp", "out2.png", "-o.png", "o ut.png"])).into(),
    }
}

/// A random sequence of steps; the first bare argument has to be the first thing opened
fn steps(r: &mut Rng, f: &Files, max: usize) -> Vec<Step> {
    let many = max > 100;
    let n = if many { max - r.usize(max / 2) } else { 1 + r.usize(max) };
    let good = r.chance(0.75) || many;
    let mut v = vec![];
    let mut opened = false;
    for _ in 0..n {
        let k = if max > 10_000 && r.chance(0.9995) { 99 } else { r.usize(20) };
        let s = match k {
            0 if max > 100 => Step::Op("invert", vec![]),
            0 => Step::Silent,
            99 => Step::Op("invert", vec![]),
            1 | 2 => {
                let p = if !good && r.chance(0.3) { f.bad[r.usize(f.bad.len())].clone() } else { f.inputs[r.usize(f.inputs.len())].clone() };
                opened = true;
                Step::Open(p)
            }
            3..=7 => {
                if !opened && good {
                    opened = true;
                    Step::Open(f.inputs[r.usize(f.inputs.len())].clone())
                } else if good {
                    let p = loop {
                        let p = target(r, f);
                        if !["nodir/out.png", "out.xyz", "out", "full.png", "folder.png", "no_extension"].iter().any(|q| p == *q) {
                            break p;
                        }
                    };
                    Step::Save(p)
                } else {
                    Step::Save(target(r, f))
                }
            }
            8 | 9 => Step::Gray(INTENSITIES[r.usize(10)]),
            _ => {
                let (n, k) = OPTIONS[r.usize(OPTIONS.len())];
                Step::Op(n, (0..k).map(|_| value(r, n)).collect())
            }
        };
        if good && !opened && !matches!(s, Step::Silent) {
            opened = true;
            v.push(Step::Open(f.inputs[r.usize(f.inputs.len())].clone()));
        }
        v.push(s);
    }
    if r.chance(0.7) {
        v.push(Step::Save("last.png".into()));
    }
    v
}

/// The arguments for the steps; values get the precision of their text
fn arguments(r: &mut Rng, steps: &mut [Step]) -> Vec<OsString> {
    let mut a: Vec<OsString> = vec![];
    let mut opened = false;
    for s in steps.iter_mut() {
        match s {
            Step::Silent => a.push("-silent".into()),
            Step::Open(p) => {
                if opened || r.bool() || p.as_bytes().first() == Some(&b'-') {
                    a.push("-open".into());
                }
                opened = true;
                a.push(p.clone());
            }
            Step::Save(p) => {
                if !opened || r.bool() || p.as_bytes().first() == Some(&b'-') {
                    a.push("-save".into());
                }
                a.push(p.clone());
            }
            Step::Gray(n) => {
                a.push("-grayscale".into());
                a.push((*n).into());
            }
            Step::Op(n, v) => {
                a.push(format!("-{}", n).into());
                if !v.is_empty() {
                    let t: Vec<String> = v.iter().map(|v| number(r, *v)).collect();
                    for (v, t) in v.iter_mut().zip(&t) {
                        *v = t.parse().unwrap();
                    }
                    a.push(t.join(",").into());
                }
            }
        }
    }
    a
}

fn tool() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("d10")
}

pub struct Out {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

pub fn run(dir: &Path, args: &[OsString]) -> Result<Out, Fail> {
    let o = Command::new(tool()).args(args).current_dir(dir).stdin(Stdio::null()).output().map_err(|e| Fail { sig: "check".into(), msg: format!("cannot run the tool: {}", e) })?;
    Ok(Out { code: o.status.code(), stdout: String::from_utf8_lossy(&o.stdout).to_string(), stderr: String::from_utf8_lossy(&o.stderr).to_string() })
}

fn show(a: &[OsString]) -> String {
    a.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(" ")
}

fn check_error(o: &Out) -> R {
    ensure!(o.code == Some(1), "status", "exit status {:?} instead of 1; stderr: {:?}", o.code, o.stderr.chars().take(200).collect::<String>());
    ensure!(!o.stderr.trim().is_empty(), "stderr", "no message on stderr");
    Ok(())
}

fn check_log(c: &mut Case, o: &Out, steps: &[Step], done: usize, failed: bool) -> R {
    let total = steps.iter().filter(|s| !matches!(s, Step::Silent)).count();
    let mut want = vec![];
    let mut k = 0;
    let mut optional = false;
    for (i, s) in steps.iter().enumerate() {
        if matches!(s, Step::Silent) {
            break;
        }
        k += 1;
        if i > done {
            break;
        }
        // the step that fails may be listed when it begins or not at all
        if i == done && failed {
            optional = true;
        }
        want.push(format!("{}/{}", k, total));
    }
    let lines: Vec<&str> = o.stdout.lines().collect();
    c.eval();
    let n = lines.len();
    ensure!(n == want.len() || optional && n + 1 == want.len(), "log", "{} lines are logged instead of {}: {:?}", n, want.len(), o.stdout);
    for (l, w) in lines.iter().zip(&want) {
        let ok = l.strip_prefix(w.as_str()).map_or(false, |r| !r.starts_with(|c: char| c.is_ascii_digit()));
        ensure!(ok, "log", "line {:?} doesn't start with {:?}", l, w);
    }
    Ok(())
}

fn c22_run(c: &mut Case) -> R {
    c22_run_with(c, 8)
}

fn c22_run_with(c: &mut Case, max: usize) -> R {
    let (_t, a, b) = dirs("c22");
    let mut r = c.rng.clone();
    let f = populate(&mut r, &[&a, &b]);
    let mut st = steps(&mut r, &f, max);
    let args = arguments(&mut r, &mut st);
    c.desc(show(&args).chars().take(2000).collect::<String>());
    c.distinct(&show(&args));
    let (done, failed) = model(&b, &st);
    let o = match run(&a, &args) {
        Err(e) if max > 10_000 && format!("{:?}", e).contains("os error 7") => {
            c.count("more arguments than the system takes");
            return Ok(());
        }
        o => o?,
    };
    c.count(&format!("ended {:?}", failed));
    for s in &st {
        let k = match s {
            Step::Silent => "silent",
            Step::Open(_) => "open",
            Step::Save(_) => "save",
            Step::Gray(_) => "grayscale",
            Step::Op(n, _) => n,
        };
        c.count(&format!("step {}", k));
    }
    c.evals(2);
    if failed == Failed::No {
        ensure!(o.code == Some(0), "status", "exit status {:?} instead of 0; stderr: {:?}", o.code, o.stderr.chars().take(300).collect::<String>());
    } else {
        check_error(&o)?;
    }
    check_log(c, &o, &st, done, failed != Failed::No)?;
    same_dirs(&a, &b, &[])
}

/// Something in an otherwise good command line is wrong: nothing may happen at all
fn c22_refused(c: &mut Case) -> R {
    let (_t, a, b) = dirs("c22r");
    let mut r = c.rng.clone();
    let f = populate(&mut r, &[&a, &b]);
    let mut st = vec![Step::Open("in.png".into()), Step::Save("early.png".into()), Step::Save("in.png".into())];
    st.extend(steps(&mut r, &f, 4));
    let head = arguments(&mut r, &mut st);
    let mut bad: Vec<OsString> = match r.usize(8) {
        0 => vec![(*r.pick(&["-unknown", "--invert", "-Invert", "-", "--", "-invert=1", "-gam", "-gammaa", "-INVERT", "-invert ", "- invert", "-salt-n-pepper", "-brightness_contrast", "--help", "-h", "-open=in.png", "-1", "-0.5"])).into()],
        1 => vec![OsStr::from_bytes(*r.pick(&[b"-\xff".as_slice(), b"-invert\xff", b"-\xc3", b"-save\x80"])).into()],
        2 => {
            let (n, k) = OPTIONS[r.usize(13)];
            let v: Vec<String> = (0..k).map(|_| value(&mut r, n).to_string()).collect();
            let mut t = v.join(",");
            let which = r.usize(11);
            t = match which {
                0 => String::new(),
                1 => "abc".into(),
                2 => t + ",1",
                3 => t + ",",
                4 => format!(",{}", t),
                5 => t + "x",
                6 => format!(" {}", t),
                7 => t + " ",
                8 => t.replace(',', ";") + if k == 1 { ";" } else { "" },
                9 => (*r.pick(&["0x10", "1_000", "--1", "1e", "½", "1.5.2", "one", "1,5,", "-", "+", "e5", "1e5e", "1/2", "50%", "١", "-invert"])).into(),
                _ => (0..k + 2).map(|_| "0.5").collect::<Vec<_>>().join(","),
            };
            vec![format!("-{}", n).into(), t.into()]
        }
        3 => {
            let (n, k) = *r.pick(&[("level", 3usize), ("brightness-contrast", 2)]);
            let m = (k + 1 + r.usize(3)) % 4;
            let m = if m == k { k + 1 } else { m };
            vec![format!("-{}", n).into(), (0..m).map(|_| "0.25").collect::<Vec<_>>().join(",").into()]
        }
        4 => vec!["-grayscale".into(), (*r.pick(&["Average", "", "luma", "average ", "rec709", "RED", "rec601_luma", "-invert", "in.png", "0"])).into()],
        5 => vec!["-grayscale".into(), OsStr::from_bytes(b"red\xff").into()],
        6 => {
            let (n, _) = OPTIONS[r.usize(13)];
            vec![format!("-{}", n).into(), OsStr::from_bytes(b"1\xff").into()]
        }
        _ => vec![],
    };
    let mut args = head.clone();
    if bad.is_empty() {
        // the parameter of the last option is missing
        args.push((*r.pick(&["-open", "-save", "-grayscale", "-gamma", "-level", "-brightness-contrast", "-rotate", "-random-noise", "-rgb-noise", "-salt-n-pepper-noise", "-hue-rotate", "-contrast"])).into());
        c.count("parameter missing");
    } else {
        c.count("unknown or malformed");
        // in front of an argument that starts a step
        let starts: Vec<usize> = (0..=args.len()).filter(|i| *i == args.len() || args[*i].as_bytes().first() == Some(&b'-') && (*i == 0 || !takes(&args[*i - 1]))).collect();
        let i = starts[r.usize(starts.len())];
        let tail = args.split_off(i);
        args.append(&mut bad);
        args.extend(tail);
    }
    c.desc(show(&args));
    c.distinct(&show(&args));
    let o = run(&a, &args)?;
    c.evals(3);
    check_error(&o)?;
    same_dirs(&a, &b, &[])
}

const NO_NUMBERS: [&str; 40] = [
    "", " ", "-", "+", ".", "--1", "++1", "+-1", "-+1", "1-", "1 ", " 1", "1e", "1e+", "e5", "1e5e", "1e1.5", "1.5.2", "1..5", "1_000", "0x10", "1f32", "1f", "1/2", "50%", "½", "١", "１", "−1", "1'000", "1;", "=1", "\"1\"", "(1)",
    "one", "true", "1\n", "\t1", "1\u{a0}", "-invert",
];
const NUMBERS: [&str; 14] = ["0.5", "+0.5", ".5", "0.50", "5e-1", "5E-1", "00.5", "0.5e0", "5.e-1", "1", "1.", "-0", "0.1000000000000000000000001", "+.25e+1"];

/// Every form of a number in every place of every option
fn c22_numbers(c: &mut Case) -> R {
    let o = OPTIONS[c.n as usize % 13];
    let k = c.n as usize / 13;
    let (_t, a, b) = dirs("c22m");
    populate(&mut c.rng.clone(), &[&a, &b]);
    for at in 0..o.1 {
        let mut v: Vec<String> = (0..o.1).map(|_| "0.75".to_string()).collect();
        let good = k >= NO_NUMBERS.len();
        v[at] = if good { NUMBERS[k - NO_NUMBERS.len()].to_string() } else { NO_NUMBERS[k].to_string() };
        let mut args: Vec<OsString> = ["-silent", "in.png"].iter().map(|s| s.into()).collect();
        args.push(format!("-{}", o.0).into());
        args.push(v.join(",").into());
        if !good {
            args.push("out.png".into());
        }
        c.desc(show(&args));
        c.distinct(&show(&args));
        let r = run(&a, &args)?;
        c.evals(2);
        if good {
            ensure!(r.code == Some(0), "number", "{}: exit status {:?}: {}", show(&args), r.code, r.stderr);
            c.count("numbers accepted");
        } else {
            check_error(&r)?;
            c.count("numbers refused");
        }
        same_dirs(&a, &b, &[])?;
    }
    Ok(())
}

fn takes(a: &OsStr) -> bool {
    let b = a.as_bytes();
    b.first() == Some(&b'-') && b != b"-silent" && b != b"-invert"
}

/// Noise options: the random part judged by what each noise may do
fn c22_noise(c: &mut Case) -> R {
    let (_t, a, _b) = dirs("c22n");
    let (w, h) = (24, 24);
    let img = gen::Buf::new_from_func(w, h, |x, y| Srgb::new((50 + (x * 5 + y) % 100) as f32 / 255.0, (60 + (y * 7) % 80) as f32 / 255.0, (70 + (x * y) % 90) as f32 / 255.0).to_rgb());
    Image::new_from_buffer(img).save(a.join("in.png")).expect("scratch");
    let (opt, v) = *c.rng.pick(&[("random-noise", 0.3f32), ("random-noise", 1.0), ("salt-n-pepper-noise", 0.2), ("salt-n-pepper-noise", 0.5), ("rgb-noise", 1.0), ("rgb-noise", 0.4)]);
    let args: Vec<OsString> = ["in.png", &format!("-{}", opt), &v.to_string(), "out.png"].iter().map(|s| s.into()).collect();
    c.desc(show(&args));
    c.distinct(&(c.n, opt));
    let o = run(&a, &args)?;
    ensure!(o.code == Some(0), "status", "{:?} {}", o.code, o.stderr);
    let lv = |n: &str| -> Result<Vec<[u8; 4]>, Fail> {
        let i = Image::open(a.join(n)).map_err(|e| Fail { sig: "noise:open".into(), msg: e.to_string() })?;
        Ok(i.data().iter().map(|p| p.to_srgb().data.map(|v| (v * 255.0).round() as u8)).collect())
    };
    let (s, d) = (lv("in.png")?, lv("out.png")?);
    let n = s.len();
    let mut changed = 0;
    let mut extremes = [0; 2];
    for (p, q) in s.iter().zip(&d) {
        c.eval();
        let diff = (0..4).filter(|k| p[*k] != q[*k]).count();
        if diff > 0 {
            changed += 1;
        }
        match opt {
            "salt-n-pepper-noise" => {
                ensure!(diff == 0 || *q == [0, 0, 0, 255] || *q == [255; 4], "noise", "salt and pepper turned {:?} into {:?}", p, q);
                extremes[0] += (*q == [0, 0, 0, 255]) as usize;
                extremes[1] += (*q == [255; 4]) as usize;
            }
            "rgb-noise" => ensure!(diff == 0 || diff == 1 && (0..3).any(|k| p[k] != q[k] && q[k] == 255), "noise", "rgb noise turned {:?} into {:?}", p, q),
            _ => ensure!(p[3] == q[3], "noise", "random noise changed alpha {:?} into {:?}", p, q),
        }
    }
    let share = changed as f64 / n as f64;
    let (lo, hi) = match (opt, v) {
        ("salt-n-pepper-noise", v) if v < 0.3 => (0.2, 0.6),
        ("salt-n-pepper-noise", _) => (0.85, 1.0),
        ("rgb-noise", v) if v == 1.0 => (1.0, 1.0),
        ("rgb-noise", _) => (0.2, 0.6),
        _ => (0.9, 1.0),
    };
    ensure!(share >= lo && share <= hi, "noise", "{} {} changed {:.2} of the pixels", opt, v, share);
    ensure!(opt != "salt-n-pepper-noise" || extremes.iter().all(|e| *e > 30), "noise", "{} black and {} white pixels of {}", extremes[0], extremes[1], n);
    Ok(())
}

fn c22_none(c: &mut Case) -> R {
    let (_t, a, b) = dirs("c22e");
    c.desc("no arguments");
    let o = run(&a, &[])?;
    c.evals(2);
    c.distinct(&1);
    check_error(&o)?;
    same_dirs(&a, &b, &[])
}

fn cmd(dir: &Path, s: &Step) -> Cmd {
    match s {
        Step::Silent => Cmd::Silent,
        Step::Open(p) => Cmd::Open(at(dir, p)),
        Step::Save(p) => Cmd::Save(at(dir, p)),
        Step::Gray(n) => Cmd::ToGray(n.parse().unwrap()),
        Step::Op(n, v) => match *n {
            "invert" => Cmd::Invert,
            "gamma" => Cmd::Gamma(v[0]),
            "level" => Cmd::Level { black_point: v[0], white_point: v[1], gamma: v[2] },
            "brightness" => Cmd::Brightness(v[0]),
            "contrast" => Cmd::Contrast(v[0]),
            "brightness-contrast" => Cmd::BrightnessContrast { brightness: v[0], contrast: v[1] },
            "saturation" => Cmd::Saturation(v[0]),
            "stretch-saturation" => Cmd::StretchSaturation(v[0]),
            "lightness" => Cmd::Lightness(v[0]),
            "hue-rotate" => Cmd::HueRotate(v[0]),
            "rotate" => Cmd::Rotate { radians: v[0], filter: FilterMode::Bilinear },
            "random-noise" => Cmd::RandomNoise(v[0]),
            "salt-n-pepper-noise" => Cmd::SaltNPepperNoise(v[0]),
            _ => Cmd::RgbNoise(v[0]),
        },
    }
}

fn builder(q: Queue, dir: &Path, s: &Step) -> Queue {
    match s {
        Step::Silent => q.silent(),
        Step::Open(p) => q.open(at(dir, p)),
        Step::Save(p) => q.save(at(dir, p)),
        Step::Gray(n) => q.to_gray(n.parse().unwrap()),
        Step::Op(n, v) => match *n {
            "invert" => q.invert(),
            "gamma" => q.gamma(v[0]),
            "level" => q.level(v[0], v[1], v[2]),
            "brightness" => q.brightness(v[0]),
            "contrast" => q.contrast(v[0]),
            "brightness-contrast" => q.brightness_contrast(v[0], v[1]),
            "saturation" => q.saturation(v[0]),
            "stretch-saturation" => q.stretch_saturation(v[0]),
            "lightness" => q.lightness(v[0]),
            "hue-rotate" => q.hue_rotate(v[0]),
            "rotate" => q.rotate(v[0], FilterMode::Bilinear),
            _ => q.with(cmd(dir, s)),
        },
    }
}

fn c22_queue(c: &mut Case) -> R {
    c22_queue_with(c, 10)
}

fn c22_queue_with(c: &mut Case, max: usize) -> R {
    let (_t, a, b) = dirs("c22q");
    let mut r = c.rng.clone();
    let f = populate(&mut r, &[&a, &b]);
    let mut st = vec![Step::Silent];
    st.extend(steps(&mut r, &f, max));
    let mut q = Queue::new();
    ensure!(q.is_empty() && q.len() == 0, "queue:len", "a new queue isn't empty");
    for s in &st {
        match r.usize(3) {
            0 => q.push(cmd(&a, s)),
            1 => q = q.with(cmd(&a, s)),
            _ => q = builder(q, &a, s),
        }
    }
    c.desc(format!("{:?}", st));
    c.distinct(&format!("{:?}", st));
    ensure!(q.len() == st.len() && !q.is_empty(), "queue:len", "{} commands instead of {}", q.len(), st.len());
    let (_, failed) = model(&b, &st);
    let e = match q.run() {
        Ok(()) => Failed::No,
        Err(CommandError::MissingImage) => Failed::Missing,
        Err(CommandError::Decoding(e)) => {
            ensure!(!e.to_string().is_empty(), "queue:text", "an error without text");
            Failed::Open
        }
        Err(CommandError::Encoding(e)) => {
            ensure!(!e.to_string().is_empty(), "queue:text", "an error without text");
            Failed::Save
        }
    };
    c.evals(2);
    c.count(&format!("queue {:?}", failed));
    ensure!(e == failed, "queue:result", "the queue ends with {:?} instead of {:?}", e, failed);
    same_dirs(&a, &b, &[])?;
    // the queue keeps its commands
    if c.rng.chance(0.3) {
        let (_, failed) = model(&b, &st);
        c.eval();
        ensure!(q.run().is_ok() == (failed == Failed::No), "queue:again", "a second run ends differently");
        same_dirs(&a, &b, &[])?;
    }
    Ok(())
}

pub fn c22(m: &mut Mon) {
    m.rule = "command lines run as processes and queues run in process in scratch directories; exit status, log, messages and all files compared with the same library calls made one after the other in a twin directory; non-trivial: distinct argument lists".into();
    m.assumptions.push("numbers that are no finite values (nan, inf), closed or full standard output and the wording of messages are not judged".into());
    if !tool().exists() {
        eprintln!("{} is missing", tool().display());
        std::process::exit(2);
    }
    m.cases("none", 1, c22_none);
    let n = m.n(2500, 40);
    m.cases("run", n, c22_run);
    let n = m.n(1200, 40);
    m.cases("refused", n, c22_refused);
    m.cases("numbers", 13 * (NO_NUMBERS.len() + NUMBERS.len()) as u64, c22_numbers);
    let n = m.n(120, 20);
    m.cases("noise", n, c22_noise);
    let n = m.n(5000, 40);
    m.cases("queue", n, c22_queue);
    let n = m.n(12, 20);
    m.cases("many steps", n, |c| c22_run_with(c, 700));
    let n = m.n(2, 10);
    m.cases("thousands of steps", n, |c| c22_run_with(c, 86_000));
    let n = m.n(10, 20);
    m.cases("long queue", n, |c| c22_queue_with(c, 1000));
    let n = m.n(1, 10);
    m.cases("very long queue", n, |c| c22_queue_with(c, 140_000));
}
