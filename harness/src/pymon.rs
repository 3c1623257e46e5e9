//! C23: the Python module, driven through an interpreter of its own and judged by the library
use crate::codecs::{any_format, png_opt, BMP_TYPES, ICO_TYPES, PRESETS, SAMPLINGS};
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::gen::Buf;
use d10::{BmpColorType, EncodingFormat, IcoColorType, Image, JpegSamplingFactor, PngColorType, PngCompression, PngFilterType, WebPPreset};
use d10_core::color::illuminant::{D50, D65, E};
use d10_core::color::observer::{O10, O2};
use d10_core::color::*;
use d10_ops::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ------------------------------------------------------------------------------------ interpreter

struct Worker {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local!(static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) });

fn start() -> Result<Worker, String> {
    let python = std::env::var("PYO3_PYTHON").unwrap_or("/opt/vp/venv/bin/python".into());
    let mut child = Command::new(python)
        .arg("-B")
        .arg(verif_dir().join("harness/py/worker.py"))
        .env("PYTHONPATH", std::env::var("VERIF_PYMOD").unwrap_or_default())
        .env("OPENBLAS_NUM_THREADS", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot start the interpreter: {}", e))?;
    let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    Ok(Worker { child, to, from })
}

fn exchange(w: &mut Worker, text: &str) -> std::io::Result<String> {
    w.to.write_all(&(text.len() as u32).to_le_bytes())?;
    w.to.write_all(text.as_bytes())?;
    w.to.flush()?;
    let mut n = [0; 4];
    w.from.read_exact(&mut n)?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    w.from.read_exact(&mut b)?;
    Ok(String::from_utf8_lossy(&b).to_string())
}

#[derive(Debug, Clone)]
enum V {
    None,
    Bool(bool),
    Int(i64),
    F(f64),
    S(String),
    Y(Vec<u8>),
    E(String, bool, String),
    L(Vec<V>),
    I(Buf),
    A(String, Vec<usize>, Vec<u8>),
    C(String, [f64; 4]),
    O(String),
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn parse<'a>(t: &mut impl Iterator<Item = &'a str>) -> V {
    let f = |t: &mut dyn Iterator<Item = &'a str>| f64::from_le_bytes(unhex(t.next().unwrap()).try_into().unwrap());
    match t.next().expect("value") {
        "N" => V::None,
        "B" => V::Bool(t.next() == Some("1")),
        "i" => V::Int(t.next().unwrap().parse().unwrap_or(i64::MIN)),
        "f" => V::F(f(t)),
        "s" => V::S(String::from_utf8_lossy(&unhex(t.next().unwrap())).to_string()),
        "y" => V::Y(unhex(t.next().unwrap())),
        "E" => V::E(t.next().unwrap().into(), t.next() == Some("1"), String::from_utf8_lossy(&unhex(t.next().unwrap())).to_string()),
        "L" => {
            let n: usize = t.next().unwrap().parse().unwrap();
            V::L((0..n).map(|_| parse(t)).collect())
        }
        "I" => {
            let (w, h): (u32, u32) = (t.next().unwrap().parse().unwrap(), t.next().unwrap().parse().unwrap());
            let d = unhex(t.next().unwrap());
            let p: Vec<Rgb> = d.chunks(16).map(|c| Rgb { data: std::array::from_fn(|k| f32::from_le_bytes(c[4 * k..4 * k + 4].try_into().unwrap())) }).collect();
            if p.len() as u64 == w as u64 * h as u64 {
                V::I(Buf::new_from_raw(w, h, p))
            } else {
                V::O(format!("{}x{} image of {} colours", w, h, p.len()))
            }
        }
        "A" => {
            let ty = t.next().unwrap().to_owned();
            let n: usize = t.next().unwrap().parse().unwrap();
            let shape = (0..n).map(|_| t.next().unwrap().parse().unwrap()).collect();
            V::A(ty, shape, unhex(t.next().unwrap()))
        }
        "C" => {
            let n = t.next().unwrap().to_owned();
            V::C(n, std::array::from_fn(|_| f(t)))
        }
        _ => V::O(t.next().unwrap_or("?").into()),
    }
}

// Programs that ran, if they are wanted, with the memory after each repetition
thread_local!(static GROWTH: RefCell<Option<Vec<(String, i64, i64)>>> = const { RefCell::new(None) });

fn repeat(c: &mut Case, prog: &str, warm: usize, n: usize) -> Option<(i64, i64)> {
    let v = run(c, &format!("#repeat {} {}\n{}", warm, n, prog)).ok()?;
    let l: Vec<i64> = v.iter().map(|v| if let V::Int(i) = v { *i } else { 0 }).collect();
    let grows = |k: usize| l[k..].windows(3).step_by(2).all(|p| p[2] > p[0]);
    if l.len() == 2 * (n + 1) && (grows(0) || grows(1)) {
        Some((l[2 * n] - l[0], l[2 * n + 1] - l[1]))
    } else {
        None
    }
}

/// Runs some of the programs of C23 again and again: programs, and those that grow
pub fn growing(c: &mut Case) -> Result<(u64, Vec<(String, i64, i64)>), Fail> {
    const KINDS: [fn(&mut Case) -> R; 14] = [color_case, factory_case, rgb_case, image_case, image_case, image_case, pixel_case, noise_case, callback_case, reentrant_case, file_case, refused_case, to_array_case, from_array_case];
    let mut stats = Stats::default();
    let seed = c.rng.u64();
    let f = KINDS[c.rng.usize(KINDS.len())];
    let mut inner = Case { rng: Rng::new(seed), n: c.rng.below(100_000), section: "python", stats: &mut stats, desc: String::new(), input: None, thorough: c.thorough };
    GROWTH.with(|g| *g.borrow_mut() = Some(vec![]));
    // what the values are is for C23 to judge
    let _ = catch(|| f(&mut inner));
    let v = GROWTH.with(|g| g.borrow_mut().take().unwrap_or_default());
    let n = v.len() as u64;
    c.desc(format!("{} programs: {}", n, v.first().map_or(String::new(), |p| clip(&p.0))));
    Ok((n, v.into_iter().filter(|p| p.1 > 0 || p.2 > 0).collect()))
}

/// Runs a program: type and text of the exceptions among the values it collected in `out`
pub fn exceptions(c: &mut Case, prog: &str) -> Result<Vec<Option<(String, String)>>, Fail> {
    let r = run(c, prog)?;
    Ok(r.into_iter().map(|v| match v {
        V::E(t, _, m) => Some((t, m)),
        _ => None,
    }).collect())
}

/// Runs a program; the values it collected in `out`
fn python(c: &mut Case, prog: &str) -> Result<Vec<V>, Fail> {
    let r = run(c, prog)?;
    if GROWTH.with(|g| g.borrow().is_some()) {
        let grown = match repeat(c, prog, 3, 5) {
            Some(_) => repeat(c, prog, 10, 16).unwrap_or((0, 0)),
            None => (0, 0),
        };
        GROWTH.with(|g| g.borrow_mut().as_mut().unwrap().push((prog.to_owned(), grown.0, grown.1)));
    }
    Ok(r)
}

fn run(c: &mut Case, prog: &str) -> Result<Vec<V>, Fail> {
    let r = WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(start().map_err(|e| (e, true))?);
        }
        let r = exchange(w.as_mut().unwrap(), prog);
        r.map_err(|_| {
            let mut dead = w.take().unwrap();
            let s = dead.child.wait();
            (format!("the interpreter died: {:?}", s), false)
        })
    });
    match r {
        Ok(t) => {
            let v = parse(&mut t.split(' '));
            c.add("python values observed", 1);
            match v {
                V::L(l) => Ok(l),
                V::E(t, _, m) => fail("check:program", format!("{} in the program: {}\n{}", t, m, clip(prog))),
                o => fail("check:program", format!("{:?}", o)),
            }
        }
        Err((m, true)) => fail("check:interpreter", m),
        Err((m, false)) => fail("interpreter died", format!("{} while running\n{}", m, clip(prog))),
    }
}

fn clip(s: &str) -> String {
    s.lines().map(|l| if l.len() > 300 { format!("{}...", l.chars().take(300).collect::<String>()) } else { l.to_owned() }).collect::<Vec<_>>().join("\n")
}

/// A literal of exactly this number
fn num(v: f32) -> String {
    format!("{:?}", v as f64)
}

fn lit(b: &Buf) -> String {
    let mut s = String::with_capacity(b.data().len() * 32 + 20);
    for p in b.data() {
        for v in p.data {
            for x in v.to_le_bytes() {
                s.push_str(&format!("{:02x}", x));
            }
        }
    }
    format!("img({}, {}, '{}')", b.width(), b.height(), s)
}

fn rgb(c: &Rgb) -> String {
    format!("d10.Rgb({}, {}, {}, {})", num(c.data[0]), num(c.data[1]), num(c.data[2]), num(c.data[3]))
}

fn near(a: f64, b: f32) -> bool {
    let b = b as f64;
    a == b || (a - b).abs() <= 1e-5 * b.abs().max(1.0) || (a.is_nan() && b.is_nan())
}

fn same_image(what: &str, v: &V, e: &Buf) -> R {
    let b = match v {
        V::I(b) => b,
        o => return fail(format!("{}:type", word(what)), format!("{} gave {:?} instead of an image", what, o)),
    };
    ensure!((b.width(), b.height()) == (e.width(), e.height()), format!("{}:size", word(what)), "{} gave {}x{} instead of {}x{}", what, b.width(), b.height(), e.width(), e.height());
    for (i, (p, q)) in b.data().iter().zip(e.data()).enumerate() {
        for k in 0..4 {
            ensure!(near(p.data[k] as f64, q.data[k]), format!("{}:pixel", word(what)), "{}: pixel {} is {:?}, the library gives {:?}", what, i, p.data, q.data);
        }
    }
    Ok(())
}

fn word(s: &str) -> String {
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

fn same_color(what: &str, v: &V, class: &str, e: &[f32; 4]) -> R {
    match v {
        V::C(n, d) => {
            ensure!(n == class, format!("{}:class", word(what)), "{} gave a {} instead of {}", what, n, class);
            for k in 0..4 {
                ensure!(near(d[k], e[k]), format!("{}:color", word(what)), "{} gave {} {:?}, the library gives {:?}", what, n, d, e);
            }
            Ok(())
        }
        o => fail(format!("{}:type", word(what)), format!("{} gave {:?} instead of a {}", what, o, class)),
    }
}

fn is_bool(what: &str, v: &V, e: bool) -> R {
    match v {
        V::Bool(b) if *b == e => Ok(()),
        o => fail(format!("{}:value", word(what)), format!("{} gave {:?} instead of {}", what, o, e)),
    }
}

fn is_num(what: &str, v: &V, e: f32) -> R {
    match v {
        V::F(f) if near(*f, e) => Ok(()),
        o => fail(format!("{}:value", word(what)), format!("{} gave {:?} instead of {}", what, o, e)),
    }
}

fn is_int(what: &str, v: &V, e: i64) -> R {
    match v {
        V::Int(i) if *i == e => Ok(()),
        o => fail(format!("{}:value", word(what)), format!("{} gave {:?} instead of {}", what, o, e)),
    }
}

fn is_str(what: &str, v: &V, e: &str) -> R {
    match v {
        V::S(s) if s == e => Ok(()),
        o => fail(format!("{}:value", word(what)), format!("{} gave {:?} instead of {:?}", what, o, e)),
    }
}

fn raised(what: &str, v: &V) -> R {
    match v {
        V::E(..) => Ok(()),
        o => fail("no exception", format!("{} raised no exception but gave {}", what, clip(&format!("{:?}", o)))),
    }
}

/// An ordinary exception that tells what is wrong
fn raised_error(what: &str, v: &V) -> R {
    raised(what, v)?;
    if let V::E(t, ordinary, m) = v {
        ensure!(*ordinary && !m.is_empty(), "exception", "{} raised {} {:?}", what, t, m);
    }
    Ok(())
}

fn list<'a>(what: &str, v: &'a V) -> Result<&'a [V], Fail> {
    match v {
        V::L(l) => Ok(l),
        o => fail(format!("{}:type", word(what)), format!("{} gave {:?} instead of a list", what, o)),
    }
}

// ----------------------------------------------------------------------------------------- colours

trait Dyn {
    fn data(&self) -> [f32; 4];
    fn get(&self, i: usize) -> f32;
    fn with(&self, i: usize, v: f32) -> [f32; 4];
    fn set(&self, i: usize, v: f32) -> [f32; 4];
    fn clear(&self) -> bool;
    fn text(&self) -> String;
    fn type_name(&self) -> String;
    fn equal(&self, o: &[f32; 4]) -> bool;
    fn to(&self, class: &str) -> [f32; 4];
    fn map(&self, f: &dyn Fn(f32) -> f32) -> [f32; 4];
}

struct Cls {
    name: &'static str,
    ch: [&'static str; 3],
    new: fn(f32, f32, f32, Option<f32>) -> Box<dyn Dyn>,
    raw: fn([f32; 4]) -> Box<dyn Dyn>,
}

macro_rules! dyn_color {
    ($t:ty, $g1:ident $s1:ident $w1:ident, $g2:ident $s2:ident $w2:ident, $g3:ident $s3:ident $w3:ident) => {
        impl Dyn for $t {
            fn data(&self) -> [f32; 4] {
                self.data
            }
            fn get(&self, i: usize) -> f32 {
                match i {
                    0 => self.$g1(),
                    1 => self.$g2(),
                    2 => self.$g3(),
                    _ => self.alpha(),
                }
            }
            fn with(&self, i: usize, v: f32) -> [f32; 4] {
                match i {
                    0 => self.$w1(v).data,
                    1 => self.$w2(v).data,
                    2 => self.$w3(v).data,
                    _ => self.with_alpha(v).data,
                }
            }
            fn set(&self, i: usize, v: f32) -> [f32; 4] {
                let mut c = *self;
                match i {
                    0 => c.$s1(v),
                    1 => c.$s2(v),
                    2 => c.$s3(v),
                    _ => c.set_alpha(v),
                }
                c.data
            }
            fn clear(&self) -> bool {
                self.has_transparency()
            }
            fn text(&self) -> String {
                self.to_string()
            }
            fn type_name(&self) -> String {
                Color::type_name(self).to_string()
            }
            fn equal(&self, o: &[f32; 4]) -> bool {
                let mut c = *self;
                c.data = *o;
                self.eq(&c)
            }
            fn to(&self, class: &str) -> [f32; 4] {
                match class {
                    "Rgb" => self.to_rgb().data,
                    "Srgb" => self.to_srgb().data,
                    "Hsl" => self.to_hsl().data,
                    "Hsv" => self.to_hsv().data,
                    "Yuv" => self.to_yuv().data,
                    "Xyz" => self.to_xyz().data,
                    "LabD65O2" => self.to_lab::<D65, O2>().data,
                    "LabD65O10" => self.to_lab::<D65, O10>().data,
                    "LabD50O2" => self.to_lab::<D50, O2>().data,
                    "LabD50O10" => self.to_lab::<D50, O10>().data,
                    "LabEO2" => self.to_lab::<E, O2>().data,
                    "LabEO10" => self.to_lab::<E, O10>().data,
                    "LchD65O2" => self.to_lch::<D65, O2>().data,
                    "LchD65O10" => self.to_lch::<D65, O10>().data,
                    "LchD50O2" => self.to_lch::<D50, O2>().data,
                    "LchD50O10" => self.to_lch::<D50, O10>().data,
                    "LchEO2" => self.to_lch::<E, O2>().data,
                    _ => self.to_lch::<E, O10>().data,
                }
            }
            fn map(&self, f: &dyn Fn(f32) -> f32) -> [f32; 4] {
                self.map_color_channels(|v| f(v)).data
            }
        }
    };
}

dyn_color!(Rgb, red set_red with_red, green set_green with_green, blue set_blue with_blue);
dyn_color!(Srgb, red set_red with_red, green set_green with_green, blue set_blue with_blue);
dyn_color!(Hsl, hue set_hue with_hue, saturation set_saturation with_saturation, lightness set_lightness with_lightness);
dyn_color!(Hsv, hue set_hue with_hue, saturation set_saturation with_saturation, value set_value with_value);
dyn_color!(Yuv, y set_y with_y, u set_u with_u, v set_v with_v);
dyn_color!(Xyz, x set_x with_x, y set_y with_y, z set_z with_z);
dyn_color!(Lab<D65, O2>, l set_l with_l, a set_a with_a, b set_b with_b);
dyn_color!(Lab<D65, O10>, l set_l with_l, a set_a with_a, b set_b with_b);
dyn_color!(Lab<D50, O2>, l set_l with_l, a set_a with_a, b set_b with_b);
dyn_color!(Lab<D50, O10>, l set_l with_l, a set_a with_a, b set_b with_b);
dyn_color!(Lab<E, O2>, l set_l with_l, a set_a with_a, b set_b with_b);
dyn_color!(Lab<E, O10>, l set_l with_l, a set_a with_a, b set_b with_b);
dyn_color!(Lch<D65, O2>, l set_l with_l, c set_c with_c, h set_h with_h);
dyn_color!(Lch<D65, O10>, l set_l with_l, c set_c with_c, h set_h with_h);
dyn_color!(Lch<D50, O2>, l set_l with_l, c set_c with_c, h set_h with_h);
dyn_color!(Lch<D50, O10>, l set_l with_l, c set_c with_c, h set_h with_h);
dyn_color!(Lch<E, O2>, l set_l with_l, c set_c with_c, h set_h with_h);
dyn_color!(Lch<E, O10>, l set_l with_l, c set_c with_c, h set_h with_h);

macro_rules! cls {
    ($n:expr, $t:ty, $ch:expr) => {
        Cls {
            name: $n,
            ch: $ch,
            new: |a, b, c, d| Box::new(<$t>::new_with_alpha(a, b, c, d.unwrap_or(1.0))),
            raw: |d| {
                let mut c = <$t>::new_with_alpha(0.0, 0.0, 0.0, 0.0);
                c.data = d;
                Box::new(c)
            },
        }
    };
}

const LAB: [&str; 3] = ["l", "a", "b"];
const LCH: [&str; 3] = ["l", "c", "h"];

fn classes() -> Vec<Cls> {
    vec![
        cls!("Rgb", Rgb, ["red", "green", "blue"]),
        cls!("Srgb", Srgb, ["red", "green", "blue"]),
        cls!("Hsl", Hsl, ["hue", "saturation", "lightness"]),
        cls!("Hsv", Hsv, ["hue", "saturation", "value"]),
        cls!("Yuv", Yuv, ["y", "u", "v"]),
        cls!("Xyz", Xyz, ["x", "y", "z"]),
        cls!("LabD65O2", Lab<D65, O2>, LAB),
        cls!("LabD65O10", Lab<D65, O10>, LAB),
        cls!("LabD50O2", Lab<D50, O2>, LAB),
        cls!("LabD50O10", Lab<D50, O10>, LAB),
        cls!("LabEO2", Lab<E, O2>, LAB),
        cls!("LabEO10", Lab<E, O10>, LAB),
        cls!("LchD65O2", Lch<D65, O2>, LCH),
        cls!("LchD65O10", Lch<D65, O10>, LCH),
        cls!("LchD50O2", Lch<D50, O2>, LCH),
        cls!("LchD50O10", Lch<D50, O10>, LCH),
        cls!("LchEO2", Lch<E, O2>, LCH),
        cls!("LchEO10", Lch<E, O10>, LCH),
    ]
}

const LIGHTS: [(&str, &str, &str); 6] = [("D65", "2", "D65O2"), ("D65", "10", "D65O10"), ("D50", "2", "D50O2"), ("D50", "10", "D50O10"), ("E", "2", "EO2"), ("E", "10", "EO10")];
const NO_LIGHTS: [(&str, &str); 8] = [("D55", "2"), ("D65", "20"), ("", "2"), ("d65", "2"), ("D65", ""), ("E", "3"), ("D50 ", "10"), ("2", "D65")];

/// (illuminant, observer) as an argument list with the defaults left out sometimes
fn light_args(r: &mut Rng, i: &str, o: &str) -> String {
    let mut forms = vec![format!("'{}', '{}'", i, o), format!("illuminant='{}', observer='{}'", i, o), format!("observer='{}', illuminant='{}'", o, i), format!("'{}', observer='{}'", i, o)];
    if o == "2" {
        forms.push(format!("'{}'", i));
        forms.push(format!("illuminant='{}', observer=None", i));
        if i == "D65" {
            forms.push("".into());
            forms.push("None, None".into());
        }
    }
    if i == "D65" {
        forms.push(format!("observer='{}'", o));
    }
    forms[r.usize(forms.len())].clone()
}

fn class_value(r: &mut Rng, name: &str) -> [f32; 4] {
    let c = gen::color(r);
    let a = c.data[3];
    let mut d: [f32; 4] = {
        let k = (cls!("Rgb", Rgb, LAB).raw)(c.data);
        k.to(name)
    };
    d[3] = a;
    if r.chance(0.15) {
        // outside the usual range
        d = [r.uniform(-1.5, 1.5), r.uniform(-1.5, 1.5), r.uniform(-1.5, 1.5), r.uniform(-0.5, 1.5)];
    }
    d
}

fn color_case(c: &mut Case) -> R {
    let cl = classes().swap_remove(c.n as usize % 18);
    let d = class_value(&mut c.rng, cl.name);
    let with_alpha = c.rng.chance(0.8);
    let x = (cl.new)(d[0], d[1], d[2], if with_alpha { Some(d[3]) } else { None });
    c.distinct(&(cl.name, d.map(|v| v.to_bits())));
    c.count(&format!("colour class {}", cl.name));
    c.desc(format!("{} {:?}", cl.name, d));
    let n3: Vec<String> = d.iter().map(|v| num(*v)).collect();
    let make = match (with_alpha, c.rng.usize(3)) {
        (false, _) => format!("d10.{}({}, {}, {})", cl.name, n3[0], n3[1], n3[2]),
        (true, 0) => format!("d10.{}({}, {}, {}, {})", cl.name, n3[0], n3[1], n3[2], n3[3]),
        (true, 1) => format!("d10.{}({}, {}, {}, alpha={})", cl.name, n3[0], n3[1], n3[2], n3[3]),
        _ => format!("d10.{}({}={}, alpha={}, {}={}, {}={})", cl.name, cl.ch[2], n3[2], n3[3], cl.ch[0], n3[0], cl.ch[1], n3[1]),
    };
    let v: f32 = if c.rng.chance(0.2) { c.rng.uniform(-1.5, 2.0) } else { c.rng.f32() };
    let (s, o) = (c.rng.uniform(-1.2, 1.2), c.rng.uniform(-0.5, 0.5));
    // a colour around the tolerance of equality
    let mut e = x.data();
    let k = c.rng.usize(4);
    e[k] += *c.rng.pick(&[0.0, 1e-7, -1e-7, 1e-3, 0.3, 2e-5, -2e-5]);
    let en: Vec<String> = e.iter().map(|v| num(*v)).collect();
    let y = (cl.new)(e[0], e[1], e[2], Some(e[3]));
    let mut p = format!("c = {}\nA = lambda: out.append(c)\n", make);
    p += "out += [c, c.has_transparency(), c.type_name, str(c), repr(c), f'{c}']\n";
    let mut names: Vec<&str> = cl.ch.to_vec();
    names.push("alpha");
    for n in &names {
        p += &format!("out += [c.{}, c.with_{}({})]\n", n, n, num(v));
    }
    let to = ["Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz"];
    for t in to {
        p += &format!("out.append(c.to_{}())\n", t.to_lowercase());
    }
    for (i, o, _) in LIGHTS {
        p += &format!("out += [c.to_lab({}), c.to_lch({})]\n", light_args(&mut c.rng, i, o), light_args(&mut c.rng, i, o));
    }
    let (bi, bo) = *c.rng.pick(&NO_LIGHTS);
    p += &format!("out += [attempt(lambda: c.to_lab('{bi}', '{bo}')), attempt(lambda: c.to_lch('{bi}', '{bo}'))]\n");
    p += &format!("e = d10.{}({}, {}, {}, {})\nout += [e, c == e, c == e or c != e, e == c, e == c or e != c, c == 3, c != 3, c == None, c in [e]]\n", cl.name, en[0], en[1], en[2], en[3]);
    p += &format!("seen = []\ndef f(v):\n  seen.append(v)\n  return v * {} + {}\nout += [c.map_color_channels(f), list(seen)]\n", num(s), num(o));
    p += "def g(v):\n  if len(seen) > 4: raise KeyError('stop here')\n  seen.append(v)\n  return v\nout += [attempt(lambda: c.map_color_channels(g)), attempt(lambda: c.map_color_channels(lambda v: 'text')), attempt(lambda: c.map_color_channels(lambda v: None)), attempt(lambda: c.map_color_channels(lambda: 0.5)), attempt(lambda: c.map_color_channels(5)), c]\n";
    let bad = c.rng.pick(&["'x'", "None", "[]", "c", "{}", "1j"]);
    p += &format!("def bad(n):\n  setattr(c, n, {bad})\nfor n in '{}'.split():\n  out += [attempt(lambda: bad(n)), attempt(lambda: getattr(c, 'with_' + n)({bad}))]\nout.append(c)\n", names.join(" "));
    for n in &names {
        p += &format!("d = {}\nd.{} = {}\nout.append(d)\n", make, n, num(v));
    }
    p += "out.append(c)\n";
    let r = python(c, &p)?;
    let mut it = r.iter();
    let mut next = || it.next().unwrap_or(&V::None);
    c.evals(r.len() as u64);
    let nm = cl.name;
    same_color(&make, next(), nm, &x.data())?;
    is_bool("has_transparency", next(), x.clear())?;
    is_str("type_name", next(), &x.type_name())?;
    is_str("str", next(), &x.text())?;
    is_str("repr", next(), &x.text())?;
    is_str("format", next(), &x.text())?;
    for (i, n) in names.iter().enumerate() {
        is_num(n, next(), x.get(i))?;
        same_color(&format!("with_{} of {} {:?}", n, nm, x.data()), next(), nm, &x.with(i, v))?;
    }
    for t in to {
        same_color(&format!("to_{} of {} {:?}", t.to_lowercase(), nm, x.data()), next(), t, &x.to(t))?;
    }
    for (_, _, l) in LIGHTS {
        for t in ["Lab", "Lch"] {
            let t = format!("{}{}", t, l);
            same_color(&format!("to_{} of {} {:?}", t, nm, x.data()), next(), &t, &x.to(&t))?;
        }
    }
    for t in ["lab", "lch"] {
        raised_error(&format!("to_{}({:?}, {:?})", t, bi, bo), next())?;
    }
    let eq = x.equal(&y.data());
    same_color("other", next(), nm, &y.data())?;
    let what = format!("of {} {:?} and {:?}", nm, x.data(), y.data());
    is_bool(&format!("equality {}", what), next(), eq)?;
    is_bool(&format!("inequality {}", what), next(), true)?;
    let qe = y.equal(&x.data());
    is_bool(&format!("equality {}", what), next(), qe)?;
    is_bool(&format!("inequality {}", what), next(), true)?;
    is_bool("equality with 3", next(), false)?;
    is_bool("inequality with 3", next(), true)?;
    is_bool("equality with None", next(), false)?;
    is_bool("membership", next(), eq)?;
    let f = |v: f32| (v as f64 * s as f64 + o as f64) as f32;
    same_color("map_color_channels", next(), nm, &x.map(&f))?;
    let seen = list("channels seen", next())?;
    let calls = RefCell::new(vec![]);
    x.map(&|v| {
        calls.borrow_mut().push(v);
        v
    });
    let calls = calls.into_inner();
    ensure!(seen.len() == calls.len(), "map_color_channels:calls", "{} calls instead of {}", seen.len(), calls.len());
    for (s, e) in seen.iter().zip(&calls) {
        is_num("map_color_channels argument", s, *e)?;
    }
    match next() {
        V::E(t, _, m) => ensure!(t == "KeyError" && m.contains("stop here"), "callback exception", "map_color_channels raised {} {}", t, m),
        o => return fail("callback exception", format!("map_color_channels gave {:?} although its function raised", o)),
    }
    for w in ["text", "None", "no parameter", "5"] {
        raised_error(&format!("map_color_channels with {}", w), next())?;
    }
    same_color("colour after failures", next(), nm, &x.data())?;
    for n in &names {
        raised_error(&format!("{} = {}", n, bad), next())?;
        raised_error(&format!("with_{}({})", n, bad), next())?;
    }
    same_color("colour after failures", next(), nm, &x.data())?;
    for (i, n) in names.iter().enumerate() {
        same_color(&format!("set {}", n), next(), nm, &x.set(i, v))?;
    }
    same_color("colour after setting another one", next(), nm, &x.data())?;
    Ok(())
}

/// Equal colours are not unequal
fn inequality_case(c: &mut Case) -> R {
    let cl = classes().swap_remove(c.n as usize % 18);
    let d = class_value(&mut c.rng, cl.name);
    let n: Vec<String> = d.iter().map(|v| num(*v)).collect();
    let k = format!("d10.{}({}, {}, {}, {})", cl.name, n[0], n[1], n[2], n[3]);
    c.desc(k.clone());
    c.distinct(&k);
    let r = python(c, &format!("a = {}\nb = {}\nout += [a == b, a != b]\n", k, k))?;
    c.evals(2);
    is_bool("equality with a copy", &r[0], true)?;
    ensure!(matches!(r[1], V::Bool(false)), "equal colours compare as unequal", "{} != an equal colour gives {:?}", k, r[1]);
    Ok(())
}

/// The Lab and Lch functions, and constructors given nonsense
fn factory_case(c: &mut Case) -> R {
    let v: [f32; 4] = std::array::from_fn(|_| c.rng.uniform(-1.0, 1.2));
    let (k, lch) = (c.rng.usize(6), c.rng.bool());
    let (i, o, l) = LIGHTS[k];
    let f = if lch { "Lch" } else { "Lab" };
    let cn = format!("{}{}", f, l);
    let names = if lch { LCH } else { LAB };
    let with_alpha = c.rng.bool();
    let mut a = if c.rng.bool() { format!("{}, {}, {}", num(v[0]), num(v[1]), num(v[2])) } else { format!("{}={}, {}={}, {}={}", names[0], num(v[0]), names[1], num(v[1]), names[2], num(v[2])) };
    if with_alpha {
        a += &format!(", alpha={}", num(v[3]));
    }
    let la = match c.rng.usize(3) {
        _ if i == "D65" && o == "2" && c.rng.bool() => String::new(),
        0 if i == "D65" => format!(", observer='{}'", o),
        1 if o == "2" => format!(", illuminant='{}'", i),
        _ => format!(", illuminant='{}', observer='{}'", i, o),
    };
    let call = format!("d10.{}({}{})", f, a, la);
    c.desc(call.clone());
    c.distinct(&call);
    let (bi, bo) = *c.rng.pick(&NO_LIGHTS);
    let any = classes().swap_remove(c.rng.usize(18));
    let bad = ["", "0.1", "0.1, 0.2", "0.1, 0.2, 'x'", "0.1, 0.2, 0.3, 0.4, 0.5", "None, 0.1, 0.2", "0.1, 0.2, 0.3, 'x'", "[0.1, 0.2, 0.3]", "0.1, 0.2, 0.3, nonsense=1", "1j, 0.2, 0.3"];
    let b = c.rng.pick(&bad);
    let other = classes().swap_remove(c.rng.usize(18));
    let p = format!(
        "out.append({call})\nout.append(attempt(lambda: d10.{f}({a}, illuminant='{bi}', observer='{bo}')))\nout.append(attempt(lambda: d10.{}({})))\nx = d10.{}(0.1, 0.2, 0.3)\ny = d10.{}(0.1, 0.2, 0.3)\nout += [x == y, x == y or x != y]\nout.append(attempt(lambda: x.nonsense))\nout.append(attempt(lambda: setattr(x, 'nonsense', 1)))\nout.append(x)\n",
        any.name, b, any.name, other.name
    );
    let r = python(c, &p)?;
    c.evals(r.len() as u64);
    let cl = classes().into_iter().find(|x| x.name == cn).unwrap();
    let e = (cl.new)(v[0], v[1], v[2], if with_alpha { Some(v[3]) } else { None });
    same_color(&call, &r[0], &cn, &e.data())?;
    raised_error(&format!("{} with {:?} {:?}", f, bi, bo), &r[1])?;
    raised_error(&format!("{}({})", any.name, b), &r[2])?;
    let same = any.name == other.name;
    is_bool("equality of classes", &r[3], same)?;
    is_bool("inequality of classes", &r[4], true)?;
    raised_error("unknown attribute", &r[5])?;
    raised_error("setting an unknown attribute", &r[6])?;
    same_color("colour", &r[7], any.name, &(any.new)(0.1, 0.2, 0.3, None).data())
}

const INTENSITIES: [&str; 10] = ["average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue"];

fn rgb_case(c: &mut Case) -> R {
    let (a, b) = (gen::color(&mut c.rng), gen::color(&mut c.rng));
    let f: [f32; 3] = std::array::from_fn(|_| if c.rng.chance(0.2) { *c.rng.pick(&[0.0, 1.0, -1.0, 0.5]) } else { c.rng.uniform(-1.0, 1.0) });
    let g = c.rng.uniform(0.1, 4.0);
    let (lo, hi) = (c.rng.uniform(0.0, 0.4), c.rng.uniform(0.5, 1.0));
    let m: [f32; 3] = std::array::from_fn(|_| c.rng.uniform(0.0, 2.0));
    let i = *c.rng.pick(&INTENSITIES);
    c.desc(format!("Rgb methods on {:?} {:?} {:?} {} {}", a.data, b.data, f, g, i));
    c.distinct(&(gen::cbits(&a), gen::cbits(&b), f.map(|v| v.to_bits()), g.to_bits()));
    let n = |v: f32| num(v);
    let calls: Vec<(String, Rgb)> = vec![
        ("to_gray()".into(), a.to_gray()),
        ("to_gray(None)".into(), a.to_gray()),
        (format!("to_gray('{}')", i), a.to_gray_with_intensity(i.parse().unwrap())),
        (format!("to_gray(intensity='{}')", i), a.to_gray_with_intensity(i.parse().unwrap())),
        ("invert()".into(), a.invert()),
        ("difference(b)".into(), a.difference(&b)),
        ("difference(color=b)".into(), a.difference(&b)),
        (format!("with_gamma({})", n(g)), a.with_gamma(g)),
        (format!("with_gamma_opt(gamma={})", n(g)), a.with_gamma_opt(g)),
        (format!("with_level({}, {}, {})", n(lo), n(hi), n(g)), a.with_level(lo, hi, g)),
        (format!("with_level(gamma={}, white_point={}, black_point={})", n(g), n(hi), n(lo)), a.with_level(lo, hi, g)),
        (format!("with_brightness({})", n(f[0])), a.with_brightness(f[0])),
        (format!("with_saturation({})", n(f[0])), a.with_saturation(f[0])),
        (format!("stretch_saturation({})", n(f[1].abs())), a.stretch_saturation(f[1].abs())),
        (format!("with_gamma_saturation({})", n(g)), a.with_gamma_saturation(g)),
        (format!("with_lightness(factor={})", n(f[0])), a.with_lightness(f[0])),
        (format!("with_hue_rotate(radians={})", n(f[2] * 3.0)), a.with_hue_rotate(f[2] * 3.0)),
        (format!("with_contrast({})", n(f[1])), a.with_contrast(f[1])),
        (format!("with_brightness_contrast({}, {})", n(f[0]), n(f[1])), a.with_brightness_contrast(f[0], f[1])),
        (format!("with_brightness_contrast(contrast={}, brightness={})", n(f[1]), n(f[0])), a.with_brightness_contrast(f[0], f[1])),
        ("alpha_blend(b)".into(), a.alpha_blend(b)),
        (format!("with_vibrance({})", n(f[2])), a.with_vibrance(f[2])),
        ("with_sepia()".into(), a.with_sepia()),
        (format!("modulate({}, {}, {})", n(m[0]), n(m[1]), n(m[2])), a.modulate(m[0], m[1], m[2])),
        (format!("modulate(lightness={}, hue={}, saturation={})", n(m[2]), n(m[0]), n(m[1])), a.modulate(m[0], m[1], m[2])),
    ];
    let mut p = format!("a = {}\nb = {}\n", rgb(&a), rgb(&b));
    for (t, _) in &calls {
        p += &format!("out.append(a.{})\n", t);
    }
    p += "out += [a.max(), a.min(), a.is_grayscale(), a, b]\n";
    let bad = ["to_gray('nonsense')", "to_gray('')", "to_gray(5)", "difference(1)", "difference(b.to_hsl())", "with_gamma()", "with_gamma('1')", "with_level(0.1, 0.2)", "alpha_blend(None)", "alpha_blend(b.to_srgb())", "modulate(1.0, 1.0)", "with_sepia(1)", "invert(b)", "with_brightness_contrast(0.1, None)", "with_hue_rotate([])"];
    for t in bad {
        p += &format!("out.append(attempt(lambda: a.{}))\n", t);
    }
    p += "out += [a, b]\n";
    let r = python(c, &p)?;
    c.evals(r.len() as u64);
    let mut it = r.iter();
    for (t, e) in &calls {
        same_color(&format!("{} of {:?} (b {:?})", t, a.data, b.data), it.next().unwrap(), "Rgb", &e.data)?;
    }
    is_num("max", it.next().unwrap(), a.max())?;
    is_num("min", it.next().unwrap(), a.min())?;
    is_bool("is_grayscale", it.next().unwrap(), a.is_grayscale())?;
    same_color("a afterwards", it.next().unwrap(), "Rgb", &a.data)?;
    same_color("b afterwards", it.next().unwrap(), "Rgb", &b.data)?;
    for t in bad {
        raised_error(t, it.next().unwrap())?;
    }
    same_color("a after failures", it.next().unwrap(), "Rgb", &a.data)?;
    same_color("b after failures", it.next().unwrap(), "Rgb", &b.data)
}

// ------------------------------------------------------------------------------------------ images

const FILTER_NAMES: [&str; 5] = ["nearest", "bilinear", "bicubic", "lanczos3", "auto"];

enum A {
    /// always given
    R(&'static str, String),
    /// optional, None if left out
    O(&'static str, Option<String>),
}

/// An argument list: some leading arguments by position, the rest by name in any order, optional ones left out or None
fn arguments(r: &mut Rng, a: Vec<A>) -> String {
    let mut by_name = r.chance(0.25);
    let (mut pos, mut named) = (vec![], vec![]);
    for x in a {
        by_name |= r.chance(0.2);
        let (n, v, given) = match x {
            A::R(n, v) => (n, v, true),
            A::O(n, Some(v)) => (n, v, true),
            A::O(n, None) => (n, "None".to_owned(), r.chance(0.3)),
        };
        if !given {
            by_name = true;
        } else if by_name {
            named.push(format!("{}={}", n, v));
        } else {
            pos.push(v);
        }
    }
    while !named.is_empty() {
        let k = r.usize(named.len());
        pos.push(named.swap_remove(k));
    }
    pos.join(", ")
}

fn opt<T>(r: &mut Rng, p: f64, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(p) {
        Some(f(r))
    } else {
        None
    }
}

fn q(s: &str) -> String {
    format!("'{}'", s)
}

type Make = Box<dyn Fn(&Image, &Image) -> Image>;
const IMAGE_OPS: usize = 27;

/// A method call on `a` (another image is `b`) and the library's version of it; whether it changes `a`
fn image_op(r: &mut Rng, k: usize, w: u32, h: u32) -> (String, Make, bool) {
    use A::*;
    let filter = opt(r, 0.7, |r| *r.pick(&FILTER_NAMES));
    let fm: FilterMode = filter.map_or(FilterMode::Bilinear, |n| n.parse().unwrap());
    let filter = filter.map(q);
    match k % IMAGE_OPS {
        0 => {
            let (x, y) = (r.below(w as u64) as u32, r.below(h as u64) as u32);
            let (cw, ch) = (1 + r.below((w - x) as u64) as u32, 1 + r.below((h - y) as u64) as u32);
            let a = arguments(r, vec![R("offset_x", x.to_string()), R("offset_y", y.to_string()), R("width", cw.to_string()), R("height", ch.to_string())]);
            (format!("crop({})", a), Box::new(move |a, _| a.crop(x, y, cw, ch)), false)
        }
        1 => ("flip_horizontal()".into(), Box::new(|a, _| a.flip_horizontal()), false),
        2 => ("flip_vertical()".into(), Box::new(|a, _| a.flip_vertical()), false),
        3 => ("rotate90()".into(), Box::new(|a, _| a.rotate90()), false),
        4 => ("rotate180()".into(), Box::new(|a, _| a.rotate180()), false),
        5 => ("rotate270()".into(), Box::new(|a, _| a.rotate270()), false),
        6 => {
            let v = r.uniform(-400.0, 400.0);
            (format!("rotate({})", arguments(r, vec![R("radians", num(v)), O("filter", filter)])), Box::new(move |a, _| a.rotate(v, fm)), false)
        }
        7 => {
            let (nw, nh) = (1 + r.below(20) as u32, 1 + r.below(20) as u32);
            (format!("resize({})", arguments(r, vec![R("new_width", nw.to_string()), R("new_height", nh.to_string()), O("filter", filter)])), Box::new(move |a, _| a.resize(nw, nh, fm)), false)
        }
        8 => {
            let v = r.uniform(1.0, 250.0);
            (format!("resize_pct({})", arguments(r, vec![R("pct_100", num(v)), O("filter", filter)])), Box::new(move |a, _| a.resize_pct(v, fm)), false)
        }
        9 => {
            let m = opt(r, 0.7, |r| *r.pick(&["sobel", "laplace"]));
            let e: EdgeDetection = m.unwrap_or("sobel").parse().unwrap();
            (format!("edge_detection({})", arguments(r, vec![O("mode", m.map(q))])), Box::new(move |a, _| a.edge_detection(e)), false)
        }
        10 => {
            let (v, p) = (r.below(101) as u8, opt(r, 0.6, |r| r.bool()));
            let a = arguments(r, vec![R("quality", v.to_string()), O("preserve_alpha", p.map(|p| if p { "True" } else { "False" }.into()))]);
            (format!("with_jpeg_quality({})", a), Box::new(move |a, _| a.with_jpeg_quality(v, p.unwrap_or(true))), false)
        }
        11 => {
            let (v, s) = (r.below(5) as u32, opt(r, 0.5, |r| r.uniform(0.2, 3.0)));
            (format!("gaussian_blur({})", arguments(r, vec![R("radius", v.to_string()), O("sigma", s.map(num))])), Box::new(move |a, _| a.gaussian_blur(v, s)), false)
        }
        12 => {
            let (v, f, s) = (r.below(5) as u32, opt(r, 0.6, |r| r.uniform(0.0, 3.0)), opt(r, 0.5, |r| r.uniform(0.2, 3.0)));
            let a = arguments(r, vec![R("radius", v.to_string()), O("factor", f.map(num)), O("sigma", s.map(num))]);
            (format!("unsharp({})", a), Box::new(move |a, _| a.unsharp(v, f.unwrap_or(1.0), s)), false)
        }
        13 => {
            let (v, m) = (1 + r.below(4) as u32, opt(r, 0.7, |r| *r.pick(&["default", "gray", "colored", "reduced_colors"])));
            let d: DrawingMode = m.unwrap_or("default").parse().unwrap();
            (format!("drawing({})", arguments(r, vec![R("radius", v.to_string()), O("mode", m.map(q))])), Box::new(move |a, _| a.drawing(v, d)), false)
        }
        14 => {
            let v = r.below(2 * w as u64 + 2) as u32;
            (format!("interlace({})", arguments(r, vec![R("offset", v.to_string())])), Box::new(move |a, _| a.interlace(v)), false)
        }
        15 => (format!("apply_palette({})", arguments(r, vec![R("palette", "b".into())])), Box::new(|a, b| a.apply_palette(b)), false),
        16 => (
            format!("apply_palette_in_place({})", arguments(r, vec![R("palette", "b".into())])),
            Box::new(|a, b| {
                let mut a = a.clone();
                a.apply_palette_in_place(b);
                a
            }),
            true,
        ),
        17 => {
            let (t, n) = (opt(r, 0.6, |r| r.f32()), opt(r, 0.5, |r| r.below(8) as u8));
            let a = arguments(r, vec![O("threshold", t.map(num)), O("amount", n.map(|n| n.to_string()))]);
            (format!("despeckle({})", a), Box::new(move |a, _| a.despeckle(t.unwrap_or(0.1), n.unwrap_or(1))), false)
        }
        18 => {
            let (n, p) = (opt(r, 0.6, |r| 1 + r.usize(3)), opt(r, 0.6, |r| r.bool()));
            let a = arguments(r, vec![O("radius", n.map(|n| n.to_string())), O("with_center", p.map(|p| if p { "True" } else { "False" }.into()))]);
            (format!("symmetric_nearest_neighbor({})", a), Box::new(move |a, _| a.symmetric_nearest_neighbor(n.unwrap_or(4), p.unwrap_or(true))), false)
        }
        19 => {
            let (m, f) = (opt(r, 0.8, |r| *r.pick(&crate::opsmon::BLEND_OPS)), opt(r, 0.7, |r| r.f32()));
            let name = m.unwrap_or("normal").to_owned();
            let a = arguments(r, vec![R("image", "b".into()), O("blend_op", m.map(q)), O("intensity", f.map(num))]);
            (format!("blend({})", a), Box::new(move |a, b| a.blend(b, name.parse().unwrap(), f.unwrap_or(1.0))), false)
        }
        20 => {
            let t = opt(r, 0.6, |r| r.uniform(0.0, 100.0));
            (format!("stretch_contrast({})", arguments(r, vec![O("threshold", t.map(num))])), Box::new(move |a, _| a.stretch_contrast(t.unwrap_or(0.5))), false)
        }
        21 => {
            let (f, m) = (opt(r, 0.6, |r| r.uniform(0.2, 2.0)), opt(r, 0.6, |r| *r.pick(&["hsl", "hsv", "lch"])));
            let mode: SaturationMode = m.unwrap_or("hsl").parse().unwrap();
            (format!("optimize_saturation({})", arguments(r, vec![O("offset", f.map(num)), O("mode", m.map(q))])), Box::new(move |a, _| a.optimize_saturation(f.unwrap_or(1.0), mode)), false)
        }
        22 => {
            let (x, y, t) = (r.uniform(2000.0, 9000.0), r.uniform(2000.0, 9000.0), opt(r, 0.5, |r| r.uniform(-0.3, 0.3)));
            let a = arguments(r, vec![R("orig_temp", num(x)), R("new_temp", num(y)), O("tint_correction", t.map(num))]);
            (format!("change_color_temperature({})", a), Box::new(move |a, _| a.change_color_temperature(x, y, t.unwrap_or(0.0))), false)
        }
        23 => {
            let (f, t) = (r.f32(), opt(r, 0.5, |r| r.uniform(-0.3, 0.3)));
            let a = arguments(r, vec![R("factor", num(f)), O("tint_correction", t.map(num))]);
            (format!("optimize_color_temperature({})", a), Box::new(move |a, _| a.optimize_color_temperature(f, t.unwrap_or(0.0))), false)
        }
        24 => {
            let f = r.uniform(0.1, 1.0);
            (format!("optimize_lightness({})", arguments(r, vec![R("factor", num(f))])), Box::new(move |a, _| a.optimize_lightness(f)), false)
        }
        25 => {
            let (m, t) = (opt(r, 0.7, |r| *r.pick(&["rgb", "srgb", "hsl", "hsv", "lch"])), opt(r, 0.6, |r| r.uniform(0.0, 100.0)));
            if r.chance(0.3) {
                return (format!("white_balance({})", arguments(r, vec![O("threshold", t.map(num))])), Box::new(move |a, _| a.white_balance(t.unwrap_or(0.5))), false);
            }
            let mode: BalanceMode = m.unwrap_or("rgb").parse().unwrap();
            (format!("balance({})", arguments(r, vec![O("mode", m.map(q)), O("threshold", t.map(num))])), Box::new(move |a, _| a.balance(mode, t.unwrap_or(0.5))), false)
        }
        _ => {
            let m = opt(r, 0.8, |r| *r.pick(&["grayscale", "rgb", "srgb", "hsl", "hsv", "lab"]));
            let m = m.filter(|m| m.parse::<EqualizeMode>().is_ok());
            let mode = m.map_or(EqualizeMode::Srgb, |m| m.parse().unwrap());
            (format!("equalize({})", arguments(r, vec![O("mode", m.map(q))])), Box::new(move |a, _| a.equalize(mode)), false)
        }
    }
}

/// An image with few, known colours at both ends of every channel, so that a share of half a per mille is a level of its own
fn ends(r: &mut Rng) -> Buf {
    let (w, h) = (230 + r.below(40) as u32, 150 + r.below(20) as u32);
    let mut p: Vec<Rgb> = vec![];
    let each = 1 + r.usize(2);
    for i in 0..200 {
        for _ in 0..each {
            let (lo, hi) = (i as f32 / 1000.0, 1.0 - i as f32 / 1000.0);
            p.push(Rgb::new(lo, lo, lo));
            p.push(Rgb::new(hi, hi, hi));
            let k = r.usize(3);
            let mut d = [r.uniform(0.3, 0.7), r.uniform(0.3, 0.7), r.uniform(0.3, 0.7), 1.0];
            d[k] = if r.bool() { lo } else { hi };
            p.push(Rgb { data: d });
        }
    }
    while p.len() < (w * h) as usize {
        p.push(Rgb::new(r.uniform(0.25, 0.75), r.uniform(0.25, 0.75), r.uniform(0.25, 0.75)));
    }
    for i in (1..p.len()).rev() {
        p.swap(i, r.usize(i + 1));
    }
    Buf::new_from_raw(w, h, p)
}

/// Arguments left out, on an image that tells a slightly different default from the right one
fn default_case(c: &mut Case) -> R {
    let b = ends(&mut c.rng);
    let a = Image::new_from_buffer(b.clone());
    let modes = ["rgb", "srgb", "hsl", "hsv", "lch"];
    let mode = *c.rng.pick(&modes);
    let t = c.rng.uniform(0.0, 5.0);
    let calls: Vec<(String, Image)> = match c.n % 5 {
        0 => vec![("stretch_contrast()".into(), a.stretch_contrast(0.5)), ("stretch_contrast(None)".into(), a.stretch_contrast(0.5)), (format!("stretch_contrast({})", num(t)), a.stretch_contrast(t))],
        1 => vec![("white_balance()".into(), a.white_balance(0.5)), ("white_balance(threshold=None)".into(), a.white_balance(0.5)), (format!("white_balance({})", num(t)), a.white_balance(t))],
        2 => vec![
            ("balance()".into(), a.balance(BalanceMode::Rgb, 0.5)),
            (format!("balance('{}')", mode), a.balance(mode.parse().unwrap(), 0.5)),
            (format!("balance(threshold={})", num(t)), a.balance(BalanceMode::Rgb, t)),
        ],
        3 => vec![("equalize()".into(), a.equalize(EqualizeMode::Srgb)), ("optimize_saturation()".into(), a.optimize_saturation(1.0, SaturationMode::Hsl))],
        _ => vec![
            ("despeckle()".into(), a.despeckle(0.1, 1)),
            ("symmetric_nearest_neighbor()".into(), a.symmetric_nearest_neighbor(4, true)),
            ("unsharp(3)".into(), a.unsharp(3, 1.0, None)),
            ("edge_detection()".into(), a.edge_detection(EdgeDetection::Sobel)),
            ("with_jpeg_quality(60)".into(), a.with_jpeg_quality(60, true)),
        ],
    };
    // None may be taken for an argument left out, or refused
    let list: Vec<String> = calls.iter().map(|(t, _)| if t.contains("None") { format!("attempt(lambda: a.{})", t) } else { format!("a.{}", t) }).collect();
    c.desc(format!("defaults {} on {}", list.join(", "), gen::describe(&b)));
    c.distinct(&(c.n, gen::bits(&b)));
    let r = python(c, &format!("a = {}\nout += [{}, a]\n", lit(&b), list.join(", ")))?;
    for ((t, e), v) in calls.iter().zip(&r) {
        c.evals(1);
        c.count(&format!("defaults of {}", word(t)));
        if t.contains("None") && matches!(v, V::E(..)) {
            continue;
        }
        same_image(t, v, e.buffer())?;
    }
    same_image("image afterwards", r.last().unwrap(), &b)
}

/// Single image operations on images with longer sides
fn wide_case(c: &mut Case) -> R {
    let (w, h) = match c.rng.usize(3) {
        0 => (256 + c.rng.below(400) as u32, 1 + c.rng.below(20) as u32),
        1 => (1 + c.rng.below(20) as u32, 256 + c.rng.below(400) as u32),
        _ => (60 + c.rng.below(80) as u32, 60 + c.rng.below(80) as u32),
    };
    let data = (0..w * h).map(|_| gen::color(&mut c.rng)).collect();
    let b0 = Buf::new_from_raw(w, h, data);
    let other = gen::image(&mut c.rng, 8);
    let (a, b) = (Image::new_from_buffer(b0.clone()), Image::new_from_buffer(other.clone()));
    let (call, f, changes) = image_op(&mut c.rng, c.n as usize, w, h);
    c.desc(format!("{} on {} with {}", call, gen::describe(&b0), gen::describe(&other)));
    c.distinct(&(call.clone(), gen::bits(&b0)));
    c.count(&format!("wide {}", word(&call)));
    // coordinates and pixels on the way
    let at: Vec<(u32, u32)> = (0..6).map(|_| (c.rng.below(w as u64) as u32, c.rng.below(h as u64) as u32)).collect();
    let pts: Vec<String> = at.iter().map(|(x, y)| format!("a[{}, {}], a.get_pixel({}, {})", x, y, x, y)).collect();
    let p = format!(
        "a = {}\nb = {}\nlog = []\nm = a.map_colors_enumerated(lambda x, y, c: (log.append((x, y)), c.with_alpha(1.0))[1])\nout += [log == [(i % {w}, i // {w}) for i in range({w} * {h})], m, attempt(lambda: a.{}), a, {}]\n",
        lit(&b0),
        lit(&other),
        call,
        pts.join(", ")
    );
    let r = python(c, &p)?;
    c.evals((w * h) as u64);
    is_bool("coordinates of the callbacks", &r[0], true)?;
    same_image("map_colors_enumerated", &r[1], &b0.map_colors(|c| c.with_alpha(1.0)))?;
    match (catch(|| f(&a, &b)), changes) {
        (Err(_), _) => raised(&call, &r[2])?,
        (Ok(i), true) => {
            ensure!(matches!(r[2], V::None), "return value", "{} returned {:?}", call, r[2]);
            same_image(&call, &r[3], i.buffer())?;
            return Ok(());
        }
        (Ok(i), false) => same_image(&call, &r[2], i.buffer())?,
    }
    same_image("image afterwards", &r[3], &b0)?;
    for (k, (x, y)) in at.iter().enumerate() {
        for v in &r[4 + 2 * k..6 + 2 * k] {
            same_color("pixel", v, "Rgb", &b0.get_pixel(*x, *y).data)?;
        }
    }
    Ok(())
}

/// Programs of image operations
fn image_case(c: &mut Case) -> R {
    let steps = 1 + c.rng.usize(3);
    let (b0, other) = (gen::image(&mut c.rng, 12), gen::image(&mut c.rng, 8));
    let b = Image::new_from_buffer(other.clone());
    let mut a = Image::new_from_buffer(b0.clone());
    let mut p = format!("a = {}\nb = {}\n", lit(&b0), lit(&other));
    let mut text = vec![];
    let mut expect: Vec<(String, Result<Buf, String>)> = vec![];
    let first = c.n as usize;
    for s in 0..steps {
        if a.width() == 0 || a.height() == 0 || a.width() * a.height() > 900 {
            break;
        }
        let k = if s == 0 { first } else { c.rng.usize(IMAGE_OPS) };
        let (call, f, changes) = image_op(&mut c.rng, k, a.width(), a.height());
        c.count(&format!("method {}", word(&call)));
        let r = catch(|| f(&a, &b));
        text.push(call.clone());
        let was = a.buffer().clone();
        match (&r, changes) {
            (Err(m), _) => {
                p += &format!("r = attempt(lambda: a.{})\nout += [r, a, b]\n", call);
                expect.push((call.clone(), Err(m.clone())));
                expect.push((format!("image after failed {}", call), Ok(was)));
                expect.push(("other image".into(), Ok(other.clone())));
            }
            (Ok(i), true) => {
                p += &format!("r = a.{}\nout += [r, a, b]\n", call);
                expect.push((call.clone(), Err("None".into())));
                expect.push((call.clone(), Ok(i.buffer().clone())));
                expect.push(("other image".into(), Ok(other.clone())));
                a = i.clone();
            }
            (Ok(i), false) => {
                p += &format!("r = a.{}\nout += [r, a, b, r is a]\na = r\n", call);
                expect.push((call.clone(), Ok(i.buffer().clone())));
                expect.push((format!("image after {}", call), Ok(was)));
                expect.push(("other image".into(), Ok(other.clone())));
                expect.push((call.clone(), Err("False".into())));
                a = i.clone();
            }
        }
    }
    c.desc(format!("{} on {} with {}", text.join("; "), gen::describe(&b0), gen::describe(&other)));
    c.distinct(&(text, gen::bits(&b0)));
    let r = python(c, &p)?;
    c.evals(r.len() as u64);
    for ((what, e), v) in expect.iter().zip(&r) {
        match e {
            Ok(e) => same_image(what, v, e)?,
            Err(m) if m == "None" => ensure!(matches!(v, V::None), "return value", "{} returned {:?}", what, v),
            Err(m) if m == "False" => is_bool(&format!("identity of {}", what), v, false)?,
            Err(_) => raised(what, v)?,
        }
    }
    Ok(())
}

fn pixel_case(c: &mut Case) -> R {
    let b0 = gen::image(&mut c.rng, 9);
    let (w, h) = (b0.width() as i64, b0.height() as i64);
    let mut p = format!("a = {}\n", lit(&b0));
    let mut m = Image::new_from_buffer(b0.clone());
    enum X {
        C(Option<[f32; 4]>),
        B(bool),
        I(i64),
        Img(Buf),
        E,
        Unit,
    }
    let mut e: Vec<(String, X)> = vec![];
    let steps = 4 + c.rng.usize(12);
    c.desc(format!("pixel access on {}", gen::describe(&b0)));
    c.distinct(&(gen::bits(&b0), c.n));
    for _ in 0..steps {
        let coord = |r: &mut Rng, n: i64| -> i64 {
            match r.usize(8) {
                0 => -1,
                1 => n,
                2 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, n + 1, -n, 2 * n]),
                _ => r.below(n as u64) as i64,
            }
        };
        let (x, y) = (coord(&mut c.rng, w), coord(&mut c.rng, h));
        let inside = x >= 0 && y >= 0 && x < w && y < h;
        let col = gen::color(&mut c.rng);
        let t = format!("{}, {}", x, y);
        let get = || m.get_pixel_optional(x as i32, y as i32).map(|c| c.data);
        let (call, x) = match c.rng.usize(16) {
            0 | 1 => (format!("a.get_pixel({})", t), X::C(get())),
            2 => (format!("a.get_pixel(y={}, x={})", y, x), X::C(get())),
            3 | 4 => (format!("attempt(lambda: a[{}])", t), get().map_or(X::E, |g| X::C(Some(g)))),
            5 => (format!("a.get_pixel_clamped({})", t), X::C(Some(m.get_pixel_clamped(x as i32, y as i32).data))),
            6 => (format!("a.is_in_image({})", t), X::B(inside)),
            7..=10 => {
                let call = match c.rng.usize(3) {
                    0 => format!("attempt(lambda: a.put_pixel({}, {}))", t, rgb(&col)),
                    1 => format!("attempt(lambda: a.__setitem__(({}), {}))", t, rgb(&col)),
                    _ => format!("attempt(lambda: a.put_pixel(color={}, y={}, x={}))", rgb(&col), y, x),
                };
                if inside {
                    m.put_pixel(x as u32, y as u32, col);
                    (call, X::Unit)
                } else {
                    (call, X::E)
                }
            }
            11 => ("len(a)".into(), X::I(w * h)),
            12 => (if c.rng.bool() { "a.width" } else { "a.height" }.into(), X::I(0)),
            13 => ("a.has_transparency()".into(), X::B(m.has_transparency())),
            14 => ("a.is_grayscale()".into(), X::B(m.is_grayscale())),
            _ => {
                // a pixel that was read is a value of its own
                (format!("k = a.get_pixel_clamped({})\nk.red = 0.123\nk.alpha = 0.5\na", t), X::Img(m.buffer().clone()))
            }
        };
        let x = match call.as_str() {
            "a.width" => X::I(w),
            "a.height" => X::I(h),
            _ => x,
        };
        match call.rsplit_once('\n') {
            Some((s, v)) => p += &format!("{}\nout.append({})\n", s, v),
            None => p += &format!("out.append({})\n", call),
        }
        e.push((call, x));
    }
    let l = m.buffer().clone();
    p += "out += [a, [c for c in a.to_list()], d10.Image.from_list(a.width, a.height, a.to_list())]\n";
    // construction
    let (nw, nh) = (c.rng.below(6) as u32, c.rng.below(6) as u32);
    let col = gen::color(&mut c.rng);
    p += &format!("out += [attempt(lambda: d10.Image({nw}, {nh})), attempt(lambda: d10.Image({nw}, {nh}, {})), attempt(lambda: d10.Image(height={nh}, color={}, width={nw}))]\n", rgb(&col), rgb(&col));
    let wrong = if c.rng.bool() { (w * h) as usize + 1 } else { (w * h) as usize - 1 };
    p += &format!("out.append(attempt(lambda: d10.Image.from_list({}, {}, [d10.Rgb(0.1, 0.2, 0.3)] * {})))\nout.append(a)\n", w, h, wrong);
    let r = python(c, &p)?;
    c.evals(r.len() as u64);
    let mut it = r.iter();
    for (call, x) in &e {
        let v = it.next().unwrap();
        c.count(&format!("access {}", word(call.trim_start_matches("attempt(lambda: ").trim_start_matches("a."))));
        match x {
            X::C(None) => ensure!(matches!(v, V::None), "get_pixel:outside", "{} gave {:?}", call, v),
            X::C(Some(d)) => same_color(call, v, "Rgb", d)?,
            X::B(b) => is_bool(call, v, *b)?,
            X::I(i) => is_int(call, v, *i)?,
            X::Img(i) => same_image(call, v, i)?,
            X::E => raised(call, v)?,
            X::Unit => ensure!(matches!(v, V::None), "put_pixel", "{} gave {:?}", call, v),
        }
    }
    same_image("image after pixel access", it.next().unwrap(), &l)?;
    let colors = list("to_list", it.next().unwrap())?;
    ensure!(colors.len() == l.data().len(), "to_list:length", "{} colours", colors.len());
    for (v, p) in colors.iter().zip(l.data()) {
        same_color("to_list", v, "Rgb", &p.data)?;
    }
    same_image("from_list", it.next().unwrap(), &l)?;
    for (k, v) in it.by_ref().take(3).enumerate() {
        match catch(|| if k == 0 { Image::new(nw, nh) } else { Image::new_with_color(nw, nh, col) }) {
            Ok(i) => same_image("Image", v, i.buffer())?,
            Err(_) => raised(&format!("Image({}, {})", nw, nh), v)?,
        }
    }
    raised("from_list with another length", it.next().unwrap())?;
    same_image("image after failures", it.next().unwrap(), &l)
}

fn noise_case(c: &mut Case) -> R {
    let (k, in_place) = (c.n as usize % 4, c.rng.bool());
    let name = ["random_noise", "gaussian_noise", "salt_n_pepper_noise", "rgb_noise"][k];
    let t: f32 = match c.rng.usize(4) {
        0 => 0.0,
        1 if k == 3 => 1.0,
        _ if k == 2 => c.rng.uniform(0.05, 0.45),
        _ if k == 3 => c.rng.uniform(0.1, 0.9),
        _ => c.rng.uniform(0.05, 0.1),
    };
    let alpha = c.rng.f32();
    let b = Buf::new_from_func(24, 24, |_, _| Rgb::new_with_alpha(0.5, 0.5, 0.5, alpha));
    c.desc(format!("{} {} in place {}", name, t, in_place));
    c.distinct(&(k, in_place, t.to_bits(), alpha.to_bits()));
    let arg = if c.rng.bool() { num(t) } else { format!("{}={}", ["alpha", "alpha", "threshold", "threshold"][k], num(t)) };
    let p = if in_place {
        format!("a = {0}\nr = a.add_{1}({2})\nout += [r, a]\na = {0}\na.add_{1}({2})\nout += [a, {0}]", lit(&b), name, arg)
    } else {
        format!("a = {}\nout += [None, a.{}({}), a.{}({}), a]\n", lit(&b), name, arg, name, arg)
    };
    let r = python(c, &p)?;
    c.evals(4);
    ensure!(matches!(r[0], V::None), "noise:return", "{} in place returned {:?}", name, r[0]);
    same_image(&format!("{} input", name), &r[3], &b)?;
    let (x, y) = match (&r[1], &r[2]) {
        (V::I(x), V::I(y)) => (x, y),
        o => return fail("noise:type", format!("{} gave {:?}", name, o)),
    };
    if t == 0.0 {
        same_image(&format!("{} with 0", name), &r[1], &b)?;
        return Ok(());
    }
    ensure!(gen::bits(x) != gen::bits(y), "noise:repeated", "two calls of {} give the same image", name);
    for i in [x, y] {
        ensure!((i.width(), i.height()) == (24, 24), "noise:size", "{}x{}", i.width(), i.height());
        let n = 576f64;
        for p in i.data() {
            ensure!(p.data[3] == alpha || k == 2 && p.data[3] == 1.0, "noise:alpha", "{} changed alpha {} to {}", name, alpha, p.data[3]);
        }
        if k < 2 {
            let v: Vec<f64> = i.data().iter().flat_map(|p| p.data[..3].iter().map(|v| (*v as f64 - 0.5 * (1.0 - t as f64)) / t as f64).collect::<Vec<_>>()).collect();
            let (far, var) = (v.iter().fold(0f64, |a, b| a.max(b.abs())), v.iter().map(|x| x * x).sum::<f64>() / v.len() as f64);
            c.max(&format!("{} variance", name), var);
            if k == 0 {
                ensure!(far <= 1.0001 && far > 0.9 && (var - 1.0 / 3.0).abs() < 0.07, "noise:random", "random_noise({}): largest {} variance {}", t, far, var);
            } else {
                ensure!(far > 2.0 && (var - 1.0).abs() < 0.35, "noise:gaussian", "gaussian_noise({}): largest {} variance {}", t, far, var);
            }
        } else {
            let changed: Vec<&Rgb> = i.data().iter().filter(|p| p.data[..3] != [0.5; 3]).collect();
            // black and white have this probability each
            let t = if k == 2 { 2.0 * t as f64 } else { t as f64 };
            let z = (changed.len() as f64 - n * t).abs() / (n * t * (1.0 - t)).sqrt().max(0.5);
            ensure!(z < 8.0, "noise:rate", "{}({}) changed {} of 576 pixels", name, t, changed.len());
            let grey = changed.iter().all(|p| p.data[..3] == [0.0; 3] || p.data[..3] == [1.0; 3]);
            ensure!(grey == (k == 2), "noise:colours", "{} gave pixels like {:?}", name, changed.first().map(|p| p.data));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- callbacks

/// Callbacks: what they are called with, what becomes of their results and exceptions
fn callback_case(c: &mut Case) -> R {
    let b0 = gen::image(&mut c.rng, 7);
    let n = b0.data().len();
    let kind = c.n as usize % 5;
    let at = if c.rng.chance(0.45) { Some(c.rng.usize(n)) } else { None };
    let how = c.rng.usize(6);
    let img0 = Image::new_from_buffer(b0.clone());
    let method = ["mod_colors", "mod_colors_enumerated", "map_colors", "map_colors_enumerated", "compose"][kind];
    // images for compose
    let mut imgs = vec![b0.clone()];
    let mut default = None;
    if kind == 4 {
        for _ in 0..c.rng.usize(4) {
            imgs.push(gen::image(&mut c.rng, 7));
        }
        default = opt(&mut c.rng, 0.6, gen::color);
    }
    let size = imgs.iter().map(|i| i.width() as usize).max().unwrap() * imgs.iter().map(|i| i.height() as usize).max().unwrap();
    let at = at.map(|a| if kind == 4 { a % size } else { a });
    c.desc(format!("{} fails at {:?} how {} on {} images, first {}", method, at, how, imgs.len(), gen::describe(&b0)));
    c.distinct(&(kind, at, how, gen::bits(&b0)));
    c.count(&format!("callback {}{}", method, if at.is_some() { " failing" } else { "" }));
    let mut p = String::new();
    for (i, b) in imgs.iter().enumerate() {
        p += &format!("i{} = {}\n", i, lit(b));
    }
    p += "a = i0\nlog = []\nclass Own(Exception): pass\n";
    let bad = ["raise Own('number 17')", "return 5", "return None", "return c.to_hsl()", "raise KeyError('number 17')", "raise SystemExit('number 17')"][how];
    let params = ["c", "x, y, c", "c", "x, y, c", "x, y, l"];
    p += &format!("def f({}):\n", params[kind]);
    if kind == 4 {
        p += "  c = l[0]\n";
    }
    if let Some(a) = at {
        p += &format!("  if len(log) == {}: {}\n", a, bad);
    }
    p += &match kind {
        0 | 2 => "  log.append(c)\n  return c.invert().with_alpha(c.alpha * 0.5)\n".to_string(),
        1 | 3 => "  log.append((x, y, c))\n  return d10.Rgb(c.blue, x / 8, y / 8, c.alpha)\n".into(),
        _ => "  log.append((x, y, list(l)))\n  return d10.Rgb(sum(v.red for v in l) / len(l), x / 64, y / 64, l[-1].alpha)\n".into(),
    };
    if kind == 4 {
        let l: Vec<String> = (0..imgs.len()).map(|i| format!("i{}", i)).collect();
        let d = match &default {
            Some(d) if c.rng.bool() => format!(", {}", rgb(d)),
            Some(d) => format!(", default={}", rgb(d)),
            None => ["", ", None"][c.rng.usize(2)].into(),
        };
        p += &format!("r = attempt(lambda: d10.Image.compose([{}], f{}))\n", l.join(", "), d);
    } else {
        p += &format!("r = attempt(lambda: a.{}({}f))\n", method, ["", "func="][c.rng.usize(2)]);
    }
    p += "out += [r, a, log";
    for i in 1..imgs.len() {
        p += &format!(", i{}", i);
    }
    p += "]\n";
    let r = python(c, &p)?;
    // the library with the same function
    let log = RefCell::new(vec![]);
    let one = |c: &Rgb| {
        if Some(log.borrow().len()) == at {
            return Err(());
        }
        log.borrow_mut().push((0, 0, vec![*c]));
        Ok(c.invert().with_alpha((c.alpha() as f64 * 0.5) as f32))
    };
    let two = |x: u32, y: u32, c: &Rgb| {
        if Some(log.borrow().len()) == at {
            return Err(());
        }
        log.borrow_mut().push((x, y, vec![*c]));
        Ok(Rgb::new_with_alpha(c.blue(), x as f32 / 8.0, y as f32 / 8.0, c.alpha()))
    };
    let mut a = img0.clone();
    let e: Result<Option<Image>, ()> = match kind {
        0 => a.try_mod_colors(one).map(|_| None),
        1 => a.try_mod_colors_enumerated(two).map(|_| None),
        2 => a.try_map_colors(one).map(Some),
        3 => a.try_map_colors_enumerated(two).map(Some),
        _ => {
            let v: Vec<Image> = imgs.iter().map(|b| Image::new_from_buffer(b.clone())).collect();
            let v: Vec<&Image> = v.iter().collect();
            Image::try_compose_slice(&v, default.unwrap_or_default(), |x, y, l| {
                if Some(log.borrow().len()) == at {
                    return Err(());
                }
                log.borrow_mut().push((x, y, l.to_vec()));
                let s: f64 = l.iter().map(|c| c.red() as f64).sum::<f64>() / l.len() as f64;
                Ok(Rgb::new_with_alpha(s as f32, x as f32 / 64.0, y as f32 / 64.0, l[l.len() - 1].alpha()))
            })
            .map(Some)
        }
    };
    c.evals(3);
    match (&e, &r[0]) {
        (Err(_), V::E(t, _, m)) => {
            let want = ["Own", "TypeError", "TypeError", "TypeError", "KeyError", "SystemExit"][how];
            ensure!(t == want && (want == "TypeError" || m.contains("number 17")), "callback exception", "{}: {} {:?} was raised instead of {}", method, t, m, want);
        }
        (Err(_), o) => return fail("callback exception", format!("{} gave {} although its function raised", method, clip(&format!("{:?}", o)))),
        (Ok(None), v) => ensure!(matches!(v, V::None), "callback result", "{} returned {:?}", method, v),
        (Ok(Some(i)), v) => same_image(method, v, i.buffer())?,
    }
    same_image(&format!("{} leaves the image", method), &r[1], a.buffer())?;
    let l = list("log", &r[2])?;
    let log = log.into_inner();
    ensure!(l.len() == log.len(), "callback calls", "{}: {} calls instead of {}", method, l.len(), log.len());
    c.add("callbacks observed", l.len() as u64);
    for (v, (x, y, cs)) in l.iter().zip(&log) {
        match kind {
            0 | 2 => same_color(&format!("{} argument", method), v, "Rgb", &cs[0].data)?,
            _ => {
                let t = list("callback", v)?;
                is_int(&format!("{} x", method), &t[0], *x as i64)?;
                is_int(&format!("{} y", method), &t[1], *y as i64)?;
                let one;
                let got = if kind == 4 {
                    list("colours", &t[2])?
                } else {
                    one = [t[2].clone()];
                    &one[..]
                };
                ensure!(got.len() == cs.len(), "callback colours", "{} colours instead of {}", got.len(), cs.len());
                for (g, e) in got.iter().zip(cs) {
                    same_color(&format!("{} argument", method), g, "Rgb", &e.data)?;
                }
            }
        }
    }
    for (i, b) in imgs.iter().enumerate().skip(1) {
        same_image("compose leaves an image", &r[2 + i], b)?;
    }
    Ok(())
}

/// Callbacks that use the images they are called for
fn reentrant_case(c: &mut Case) -> R {
    let b = gen::image(&mut c.rng, 6);
    let o = gen::image(&mut c.rng, 6);
    let method = *c.rng.pick(&["a.map_colors(lambda c: f(c))", "a.map_colors_enumerated(lambda x, y, c: f(c))", "a.mod_colors(lambda c: f(c))", "a.mod_colors_enumerated(lambda x, y, c: f(c))", "d10.Image.compose([a, b], lambda x, y, l: f(l[0]))"]);
    let body = *c.rng.pick(&[
        "a.get_pixel(0, 0)", "a.width", "a.put_pixel(0, 0, d10.Rgb(0.3, 0.2, 0.1))", "a.mod_colors(lambda c: c)", "a.map_colors(lambda c: c)", "a.apply_palette_in_place(b)", "a.add_rgb_noise(1.0)", "a.to_np_array()", "a.flip_vertical()",
        "b.put_pixel(0, 0, d10.Rgb(0.3, 0.2, 0.1))", "b.mod_colors(lambda c: c)", "d10.Image.compose([a, a, b], lambda x, y, l: l[0])", "a.blend(a)", "a.apply_palette(a)", "a[0, 0]", "a.to_list()", "list(map(lambda n: a, range(3)))", "gc()",
    ]);
    let swallow = c.rng.bool();
    c.desc(format!("{} with {} swallow {}", method, body, swallow));
    c.distinct(&(method, body, swallow, gen::bits(&b)));
    let mut p = format!("a = {}\nb = {}\nimport gc as _gc\ngc = _gc.collect\nn = [0]\ndef f(c):\n  n[0] += 1\n", lit(&b), lit(&o));
    p += &if swallow { format!("  attempt(lambda: {})\n", body) } else { format!("  {}\n", body) };
    p += &format!("  return c\nr = attempt(lambda: {})\nout += [r, a, n[0], b, d10.Image(1, 1)]\n", method);
    p += "out.append(attempt(lambda: a.put_pixel(0, 0, a.get_pixel(0, 0))))\n";
    let r = python(c, &p)?;
    c.evals(r.len() as u64);
    match &r[0] {
        V::E(t, ordinary, m) => ensure!((*ordinary || t == "PanicException") && !swallow, "reentrance:exception", "{} with {}: {} {}", method, body, t, m),
        _ => is_int(&format!("calls of {} with {}", method, body), &r[2], if method.contains("compose") { (b.width().max(o.width()) * b.height().max(o.height())) as i64 } else { b.data().len() as i64 })?,
    }
    // whatever the function did to it, the image is usable and of its size
    match &r[1] {
        V::I(i) => ensure!((i.width(), i.height()) == (b.width(), b.height()), "reentrance:size", "{}x{}", i.width(), i.height()),
        o => return fail("reentrance:image", format!("{:?}", o)),
    }
    ensure!(matches!(r[5], V::None), "reentrance:locked", "after {} with {} the image refuses a pixel: {:?}", method, body, r[5]);
    if !body.contains("put_pixel") && !body.contains("add_rgb") && !body.contains("in_place") {
        same_image(&format!("identity function of {} with {}", method, body), &r[1], &b)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ files, errors

/// An EncodingFormat expression and its meaning
fn encoding(r: &mut Rng) -> (String, EncodingFormat) {
    use A::*;
    let given = |r: &mut Rng| r.chance(0.6);
    let tf = |b: bool| if b { "True".to_owned() } else { "False".into() };
    match r.usize(6) {
        0 => {
            let qual = opt(r, 0.7, |r| r.below(101) as u8);
            let (pr, gr, hu) = (opt(r, 0.5, |r| r.bool()), opt(r, 0.4, |r| r.bool()), opt(r, 0.5, |r| r.bool()));
            let sf = opt(r, 0.5, |r| *r.pick(&["1x1", "1x2", "1x4", "2x1", "2x2", "2x4", "4x1", "4x2", "4:4:4", "4:4:0", "4:2:0", "4:2:2", "4:1:1", "4:1:0", "4:4:1", "4:2:1"])).filter(|s| s.parse::<JpegSamplingFactor>().is_ok());
            let a = arguments(r, vec![O("quality", qual.map(|q| q.to_string())), O("progressive", pr.map(tf)), O("sampling_factor", sf.map(q)), O("grayscale", gr.map(tf)), O("optimize_huffman_tables", hu.map(tf))]);
            let f = EncodingFormat::Jpeg {
                quality: qual.unwrap_or(85),
                progressive: pr.unwrap_or(false),
                sampling_factor: sf.map(|s| s.parse().unwrap()),
                grayscale: gr.unwrap_or(false),
                optimize_huffman_tables: hu.unwrap_or(true),
            };
            (format!("d10.EncodingFormat.jpeg({})", a), f)
        }
        1 => {
            let ty = opt(r, 0.7, |r| *r.pick(&["l8", "la8", "rgb8", "rgba8", "l16", "la16", "rgb16", "rgba16"])).filter(|s| s.parse::<PngColorType>().is_ok());
            let co = opt(r, 0.5, |r| *r.pick(&["default", "fast", "best"])).filter(|s| s.parse::<PngCompression>().is_ok());
            let fi = opt(r, 0.5, |r| *r.pick(&["none", "nofilter", "sub", "up", "avg", "average", "paeth"])).filter(|s| s.parse::<PngFilterType>().is_ok());
            let _ = given(r);
            let a = arguments(r, vec![O("color_type", ty.map(q)), O("compression", co.map(q)), O("filter", fi.map(q))]);
            let f = EncodingFormat::Png {
                color_type: ty.map_or(PngColorType::Rgba8, |s| s.parse().unwrap()),
                compression: co.map_or(PngCompression::Default, |s| s.parse().unwrap()),
                filter: fi.map_or(PngFilterType::Sub, |s| s.parse().unwrap()),
            };
            (format!("d10.EncodingFormat.png({})", a), f)
        }
        2 => ("d10.EncodingFormat.gif()".into(), EncodingFormat::Gif),
        3 => {
            let ty = opt(r, 0.7, |r| *r.pick(&["gray8", "l8", "rgb8", "rgba8"])).filter(|s| s.parse::<BmpColorType>().is_ok());
            (format!("d10.EncodingFormat.bmp({})", arguments(r, vec![O("color_type", ty.map(q))])), EncodingFormat::Bmp { color_type: ty.map_or(BmpColorType::Rgba8, |s| s.parse().unwrap()) })
        }
        4 => {
            let ty = opt(r, 0.7, |r| *r.pick(&["gray8", "l8", "rgb8", "rgba8"])).filter(|s| s.parse::<IcoColorType>().is_ok());
            (format!("d10.EncodingFormat.ico({})", arguments(r, vec![O("color_type", ty.map(q))])), EncodingFormat::Ico { color_type: ty.map_or(IcoColorType::Rgba8, |s| s.parse().unwrap()) })
        }
        _ => {
            let qual = opt(r, 0.7, |r| r.below(101) as u8);
            let pr = opt(r, 0.7, |r| *r.pick(&["default", "lossless", "picture", "photo", "drawing", "icon", "text"])).filter(|s| s.parse::<WebPPreset>().is_ok());
            let a = arguments(r, vec![O("quality", qual.map(|q| q.to_string())), O("preset", pr.map(q))]);
            (format!("d10.EncodingFormat.webp({})", a), EncodingFormat::WebP { quality: qual.unwrap_or(85), preset: pr.map_or(WebPPreset::Default, |s| s.parse().unwrap()) })
        }
    }
}

fn file_case(c: &mut Case) -> R {
    let b = gen::image(&mut c.rng, 14);
    let img = Image::new_from_buffer(b.clone());
    let t = TempDir::new("c23");
    let ext = *c.rng.pick(&["png", "jpg", "jpeg", "gif", "bmp", "ico", "webp", "PNG", "Jpg"]);
    let own = opt(&mut c.rng, 0.7, encoding);
    let name = match (&own, c.rng.usize(3)) {
        (Some(_), 0) => "file".to_owned(),
        (Some(_), 1) => "ümlaut ✓.dat".into(),
        _ => format!("a b.{}", ext),
    };
    let path = t.path(&name);
    let lib = t.path(&format!("lib-{}", name));
    let ps = path.to_str().unwrap().to_owned();
    c.desc(format!("save {} as {:?} with {:?}", gen::describe(&b), name, own));
    c.distinct(&(name.clone(), own.as_ref().map(|o| o.0.clone()), gen::bits(&b)));
    let arg = match &own {
        Some((e, _)) if c.rng.bool() => format!("{:?}, {}", ps, e),
        Some((e, _)) => format!("format={}, path={:?}", e, ps),
        None if c.rng.bool() => format!("{:?}", ps),
        None => format!("{:?}, None", ps),
    };
    let e = match &own {
        Some((_, f)) => img.save_with_format(&lib, f.clone()),
        None => img.save(&lib),
    };
    let other = any_format(&mut c.rng).1;
    let of = t.path("other");
    let _ = img.save_with_format(&of, other);
    let dir = t.0.to_str().unwrap();
    let bad_ext = c.rng.pick(&["x.xyz", "x", "x.", ".png.txt", "nodir/x.png", ""]);
    std::fs::write(t.path("garbage.png"), b"no image").expect("scratch");
    let p = format!(
        "a = {}\nout += [attempt(lambda: a.save({arg})), a, attempt(lambda: d10.Image.open({ps:?})), attempt(lambda: d10.Image.open(path={:?}))]\nout += [attempt(lambda: a.save({:?})), attempt(lambda: d10.Image.open({:?})), attempt(lambda: d10.Image.open({:?})), attempt(lambda: d10.Image.open({dir:?})), attempt(lambda: d10.Image.open(5)), attempt(lambda: a.save(None)), attempt(lambda: a.save({:?}, 'png')), a]\n",
        lit(&b),
        of.to_str().unwrap(),
        t.path(bad_ext).to_str().unwrap(),
        t.path("missing.png").to_str().unwrap(),
        t.path("garbage.png").to_str().unwrap(),
        t.path("b.png").to_str().unwrap(),
    );
    let r = python(c, &p)?;
    c.evals(r.len() as u64);
    match &e {
        Ok(()) => {
            ensure!(matches!(r[0], V::None), "save", "save({}) gave {:?}", arg, r[0]);
            let (x, y) = (std::fs::read(&path).unwrap_or_default(), std::fs::read(&lib).unwrap_or_default());
            ensure!(x == y, "save:bytes", "save({}) wrote {} bytes that differ from the {} of the library", arg, x.len(), y.len());
            c.count("files saved alike");
        }
        Err(_) => raised_error(&format!("save({})", arg), &r[0])?,
    }
    same_image("image after saving", &r[1], &b)?;
    for (v, f) in [(&r[2], &path), (&r[3], &of)] {
        match Image::open(f) {
            Ok(i) => same_image("open", v, i.buffer())?,
            Err(_) => raised_error("open", v)?,
        }
    }
    for (v, what) in r[4..11].iter().zip(["save with a bad name", "open a missing file", "open garbage", "open a folder", "open 5", "save to None", "save with text as format"]) {
        match v {
            V::E(t, ord, m) => ensure!(*ord && !m.is_empty() && (what.contains('5') || what.contains("None") || what.contains("text") || t.contains("OSError") || t == "FileNotFoundError"), "file error", "{} raised {} {:?}", what, t, m),
            o => return fail("file error", format!("{} gave {:?}", what, o)),
        }
    }
    same_image("image after failed saves", &r[11], &b)
}

/// Bad arguments raise and change nothing
fn refused_case(c: &mut Case) -> R {
    let b = gen::image(&mut c.rng, 6);
    let o = gen::image(&mut c.rng, 6);
    let (w, h) = (b.width(), b.height());
    let mut calls: Vec<String> = vec![];
    // names that do not exist
    for m in ["rotate(90.0, {})", "resize(3, 3, {})", "resize_pct(50.0, {})", "edge_detection({})", "drawing(2, {})", "blend(b, {})", "optimize_saturation(1.0, {})", "balance({})", "equalize({})", "to_np_array({})", "to_np_array('rgb', {})"] {
        let n = c.rng.pick(&["'nonsense'", "''", "' bilinear'", "'ünsinn'", "5", "'rgb\\0'", "b'rgb'", "1.5", "[]", "b"]);
        calls.push(format!("a.{}", m.replace("{}", n)));
    }
    for m in ["jpeg(sampling_factor={})", "png({})", "png(compression={})", "png(filter={})", "bmp({})", "ico({})", "webp(preset={})", "jpeg({})", "webp({})", "gif({})"] {
        let n = c.rng.pick(&["'nonsense'", "''", "'ünsinn'", "[]", "b", "1.5", "-1", "256", "'8'"]);
        calls.push(format!("d10.EncodingFormat.{}", m.replace("{}", n)));
    }
    // numbers out of range or of another type
    for m in ["crop({}, 0, 1, 1)", "crop(0, 0, 1, {})", "resize({}, 3)", "resize(3, {})", "gaussian_blur({})", "unsharp({})", "drawing({})", "interlace({})", "despeckle(0.1, {})", "symmetric_nearest_neighbor({})", "with_jpeg_quality({})", "put_pixel({}, 0, d10.Rgb(0.1, 0.2, 0.3))", "__setitem__((0, {}), d10.Rgb(0.1, 0.2, 0.3))"] {
        let n = c.rng.pick(&["-1", "2**64", "1.5", "'1'", "None", "[]", "-2**40", "b"]);
        // None is the default of some
        if *n == "None" && (m.contains("amount") || m.contains("despeckle") || m.contains("symmetric")) {
            continue;
        }
        calls.push(format!("a.{}", m.replace("{}", n)));
    }
    for m in ["rotate({})", "resize_pct({})", "gaussian_blur(1, {})", "blend(b, 'normal', {})", "random_noise({})", "add_random_noise({})", "salt_n_pepper_noise({})", "add_salt_n_pepper_noise({})", "rgb_noise({})", "add_rgb_noise({})", "gaussian_noise({})", "add_gaussian_noise({})", "stretch_contrast({})", "change_color_temperature(6500.0, {})", "optimize_color_temperature({})", "optimize_lightness({})", "white_balance({})", "balance('rgb', {})"] {
        let n = c.rng.pick(&["'1'", "[]", "b", "1j", "d10.Rgb(0.1, 0.2, 0.3)"]);
        calls.push(format!("a.{}", m.replace("{}", n)));
    }
    // other objects
    for m in ["blend({})", "apply_palette({})", "apply_palette_in_place({})", "mod_colors({})", "map_colors({})", "mod_colors_enumerated({})", "map_colors_enumerated({})", "put_pixel(0, 0, {})", "__setitem__((0, 0), {})"] {
        let n = c.rng.pick(&["5", "'b'", "[b]", "d10.Hsl(0.1, 0.2, 0.3)", "(0.1, 0.2, 0.3)", "b.to_list", "None"]);
        calls.push(format!("a.{}", m.replace("{}", n)));
    }
    for m in ["get_pixel(0)", "get_pixel('0', 0)", "get_pixel(0.5, 0)", "__getitem__(0)", "__getitem__((0, 0, 0))", "__getitem__('00')", "__getitem__((0.5, 0))", "is_in_image(None, 0)", "flip_horizontal(1)", "nonsense()", "crop(0, 0)", "to_list(1)", "get_pixel(2**40, 0)", "rotate()"] {
        calls.push(format!("a.{}", m));
    }
    calls.push(format!("a[{}, 0]", w));
    calls.push(format!("a[0, {}]", h));
    calls.push("a[-1, 0]".into());
    calls.push(format!("a.put_pixel({}, 0, d10.Rgb(0.1, 0.2, 0.3))", w));
    calls.push(format!("a.put_pixel(0, {}, d10.Rgb(0.1, 0.2, 0.3))", h));
    calls.push(format!("a.__setitem__(({}, {}), d10.Rgb(0.1, 0.2, 0.3))", w, h));
    calls.push("setattr(a, 'width', 3)".into());
    calls.push("setattr(a, 'height', 3)".into());
    for m in ["Image()", "Image(3)", "Image(-1, 3)", "Image('3', 3)", "Image(3, 3, 5)", "Image(3, 3, d10.Hsl(0.1, 0.2, 0.3))", "Image(2.5, 3)", "Image(2**33, 1)", "Image(2**31, 2**31)", "Image(2**16, 2**16)", "Image.from_list(2, 2, [])", "Image.from_list(1, 1, [5])", "Image.from_list(1, 1, 5)", "Image.from_list(1, 1, [d10.Hsl(0.1, 0.2, 0.3)])", "Image.from_list(2**31, 2, [d10.Rgb(0.1, 0.2, 0.3)])", "Image.open()", "Image.compose([], lambda x, y, l: l[0])", "Image.compose([5], lambda x, y, l: l[0])", "Image.compose(a, lambda x, y, l: l[0])", "Image.compose([a, None], lambda x, y, l: l[0])", "Image.compose([a], 5)", "Image.compose([a], lambda x: x)", "Image.compose([a, b], lambda x, y, l: l[0], 5)", "Image.from_np_array(5)", "Image.from_np_array([[0.1]])", "Image.from_np_array(None)", "Image.from_np_array(a)", "EncodingFormat()"] {
        calls.push(format!("d10.{}", m));
    }
    let k = c.rng.usize(calls.len());
    calls.rotate_left(k);
    calls.truncate(40);
    c.desc(format!("{} bad calls from {}", calls.len(), calls[0]));
    c.distinct(&calls);
    let mut p = format!("a = {}\nb = {}\n", lit(&b), lit(&o));
    for t in &calls {
        p += &format!("out.append(attempt(lambda: {}))\n", t);
    }
    p += "out += [a, b, a.flip_horizontal()]\n";
    let r = python(c, &p)?;
    c.evals(calls.len() as u64);
    for (t, v) in calls.iter().zip(&r) {
        raised(t, v)?;
        c.count("bad calls refused");
        if let V::E(_, false, _) = v {
            c.count("refused with a panic exception");
        }
    }
    same_image("image after bad calls", &r[calls.len()], &b)?;
    same_image("other image after bad calls", &r[calls.len() + 1], &o)?;
    same_image("flip_horizontal after bad calls", &r[calls.len() + 2], Image::new_from_buffer(b).flip_horizontal().buffer())
}

// ------------------------------------------------------------------------------------------- arrays

const SPACES: [&str; 9] = ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch", "gray"];
const DTYPES: [&str; 6] = ["float32", "float64", "uint8", "uint16", "uint32", "bool"];

fn dtype_max(t: &str) -> f64 {
    match t {
        "uint8" => 255.0,
        "uint16" => 65535.0,
        "uint32" => 4294967295.0,
        _ => 1.0,
    }
}

fn space_class(s: &str) -> &'static str {
    match s {
        "srgb" => "Srgb",
        "hsl" => "Hsl",
        "hsv" => "Hsv",
        "yuv" => "Yuv",
        "xyz" => "Xyz",
        "lab" => "LabD65O2",
        "lch" => "LchD65O2",
        _ => "Rgb",
    }
}

/// Channels of a pixel in a colour space
fn channels(p: &Rgb, space: &str) -> [f32; 4] {
    if space == "gray" {
        let g = p.to_gray().red();
        return [g, g, g, 1.0];
    }
    (cls!("Rgb", Rgb, LAB).raw)(p.data).to(space_class(space))
}

/// The pixel that channels in a colour space stand for
fn pixel(d: [f32; 4], space: &str) -> Rgb {
    if space == "gray" {
        return Rgb::new_with_alpha(d[0], d[0], d[0], 1.0);
    }
    let cl = classes().into_iter().find(|c| c.name == space_class(space)).unwrap();
    let v = (cl.new)(d[0], d[1], d[2], Some(d[3])).to("Rgb");
    Rgb { data: v }
}

fn element(ty: &str, d: &[u8], i: usize) -> f64 {
    match ty {
        "float32" => f32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap()) as f64,
        "float64" => f64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap()),
        "uint16" => u16::from_le_bytes(d[2 * i..2 * i + 2].try_into().unwrap()) as f64,
        "uint32" => u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap()) as f64,
        _ => d[i] as f64,
    }
}

fn dtype_expr(r: &mut Rng, t: &str) -> String {
    match r.usize(3) {
        0 => format!("np.{}", if t == "bool" { "bool_" } else { t }),
        1 if t == "bool" => "bool".into(),
        _ => q(t),
    }
}

fn to_array_case(c: &mut Case) -> R {
    let b = if c.rng.chance(0.05) { Buf::new(0, 0) } else { gen::image(&mut c.rng, 9) };
    let (space, dt) = (SPACES[c.n as usize % 9], DTYPES[c.n as usize / 9 % 6]);
    let with_alpha = space != "gray" && c.rng.bool();
    let name = if with_alpha { format!("{}a", space) } else { space.to_owned() };
    let depth = if space == "gray" { 1 } else { 3 + with_alpha as usize };
    let mut args = vec![];
    if name != "rgba" || c.rng.bool() {
        args.push(A::R("colorspace", q(&name)));
    } else {
        args.push(A::O("colorspace", None));
    }
    args.push(if dt == "float32" && c.rng.bool() { A::O("data_type", None) } else { A::R("data_type", dtype_expr(&mut c.rng, dt)) });
    let call = format!("to_np_array({})", arguments(&mut c.rng, args));
    c.desc(format!("{} of {}", call, gen::describe(&b)));
    c.distinct(&(name.clone(), dt, gen::bits(&b)));
    c.count(&format!("to array {} {}", name, dt));
    let p = format!("a = {}\nr = a.{}\nout += [r, r.flags.writeable, r.dtype.isnative]\nback = attempt(lambda: d10.Image.from_np_array(r, {}))\nout += [back]\nif r.size: r[0, 0, 0] = 1 - r[0, 0, 0]\nout += [a, back]\n", lit(&b), call, q(&name));
    let r = python(c, &p)?;
    let (shape, data) = match &r[0] {
        V::A(t, s, d) => {
            ensure!(t == dt, "to_np_array:dtype", "{} gave {}", call, t);
            (s, d)
        }
        o => return fail("to_np_array:type", format!("{} gave {:?}", call, o)),
    };
    ensure!(*shape == [b.height() as usize, b.width() as usize, depth], "to_np_array:shape", "{} of {}x{} gave {:?}", call, b.width(), b.height(), shape);
    is_bool("writeable", &r[1], true)?;
    is_bool("native", &r[2], true)?;
    let max = dtype_max(dt);
    let mut quant: Vec<Rgb> = vec![];
    let mut exact = true;
    for (i, p) in b.data().iter().enumerate() {
        let e = channels(p, space);
        let mut got = [0f32, 0.0, 0.0, 1.0];
        for k in 0..depth {
            c.eval();
            let v = element(dt, data, i * depth + k);
            got[k] = (v / max) as f32;
            let x = e[k] as f64;
            match dt {
                "float32" | "float64" => ensure!(near(v, e[k]), "to_np_array:value", "{}: channel {} of pixel {} {:?} is {} instead of {}", call, k, i, p.data, v, x),
                "bool" => {
                    exact &= x == 0.0 || x == 1.0;
                    ensure!((x - 0.5).abs() < 1e-5 || (v == 1.0) == (x >= 0.5), "to_np_array:value", "{}: channel {} of pixel {} {:?} is {} for {}", call, k, i, p.data, v, x);
                }
                _ => {
                    if !(0.0..=1.0).contains(&x) {
                        exact = false;
                        continue;
                    }
                    let tol = 1.0 + max * 2e-7 + 1e-2;
                    ensure!((v - x * max).abs() <= tol, "to_np_array:value", "{}: channel {} of pixel {} {:?} is {} for {}", call, k, i, p.data, v, x);
                    // exact levels are kept
                    let l = (x * max).round();
                    if dt != "uint32" && e[k] == (l as f32) / (max as f32) {
                        ensure!(v == l, "to_np_array:level", "{}: channel {} of pixel {} {:?} is {} instead of {}", call, k, i, p.data, v, l);
                    }
                }
            }
        }
        if depth == 1 {
            got = [got[0], got[0], got[0], 1.0];
        }
        quant.push(pixel(got, space));
    }
    // the array read back
    if b.data().is_empty() {
        match catch(|| Image::new_from_raw(b.width(), b.height(), vec![])) {
            Ok(_) => same_image("from_np_array of nothing", &r[3], &b)?,
            Err(_) => raised("from_np_array of nothing", &r[3])?,
        }
        return Ok(());
    }
    let float = dt.starts_with("float");
    if float || exact || dt.starts_with("uint") {
        let e = Buf::new_from_raw(b.width(), b.height(), quant);
        same_image(&format!("from_np_array of {} {}", name, dt), &r[3], &e)?;
        if let V::I(i) = &r[3] {
            // restored to the precision of the type
            let tol = match (space, dt) {
                ("rgb", "uint8") => 1.001 / 255.0,
                ("rgb", "uint16") => 1.001 / 65535.0,
                ("rgb", "uint32") => 2e-6,
                ("rgb", _) => 1e-6,
                (_, t) if t.starts_with("float") => 2e-3,
                _ => f32::INFINITY,
            };
            for (p, s) in i.data().iter().zip(b.data()) {
                let s = if space == "gray" { s.to_gray() } else { *s };
                for k in 0..4 {
                    let e = if k == 3 && !with_alpha { 1.0 } else { s.data[k] };
                    let d = (p.data[k] - e).abs();
                    c.max(&format!("round trip {} {}", space, dt), if tol.is_finite() { d as f64 } else { 0.0 });
                    ensure!(d <= tol, format!("array round trip:{}", space), "{} {} turns {:?} into {:?}", name, dt, s.data, p.data);
                }
            }
        }
        if let (V::I(x), V::I(y)) = (&r[3], &r[5]) {
            ensure!(gen::bits(x) == gen::bits(y), "from_np_array:shared", "changing the array changed the image");
        }
    }
    same_image("image after its array was changed", &r[4], &b)
}

/// Arrays of every layout
fn from_array_case(c: &mut Case) -> R {
    let (space, dt) = (SPACES[c.n as usize % 9], DTYPES[c.n as usize / 9 % 6]);
    let layout = c.n as usize / 54 % 16;
    let (w, h) = (1 + c.rng.usize(7), 1 + c.rng.usize(7));
    let depth = if space == "gray" { if c.rng.bool() { 0 } else { 1 } } else { 3 + c.rng.usize(2) };
    let n = h * w * depth.max(1);
    let mut name = match depth {
        // four channels are also known by the short name
        4 if c.rng.chance(0.6) => format!("{}a", space),
        _ => space.to_owned(),
    };
    let auto = (space == "gray" || space == "rgb") && c.rng.chance(0.4);
    if auto {
        name = "auto".into();
    }
    // values
    let mut vals: Vec<f64> = vec![];
    let mut lits: Vec<String> = vec![];
    let max = dtype_max(dt);
    for i in 0..h * w {
        let col = gen::color(&mut c.rng);
        let ch = channels(&col, space);
        for k in 0..depth.max(1) {
            let _ = i;
            let v = match dt {
                "float32" => ch[k] as f64,
                "float64" => ch[k] as f64 + c.rng.f64() * 1e-9,
                "bool" => (c.rng.bool()) as u8 as f64,
                _ => match c.rng.usize(6) {
                    0 => 0.0,
                    1 => max,
                    _ => (c.rng.f64() * max).floor(),
                },
            };
            vals.push(v);
            lits.push(format!("{:?}", v));
        }
    }
    let shape = match depth {
        0 => format!("({}, {})", h, w),
        d => format!("({}, {}, {})", h, w, d),
    };
    let nd = if depth == 0 { 2 } else { 3 };
    let base = format!("np.array([{}], dtype='{}').reshape({})", lits.join(","), dt, shape);
    let (lname, make) = match layout {
        0 => ("C", "x = base".to_owned()),
        1 => ("Fortran", "x = np.asfortranarray(base)".into()),
        2 => ("transposed", "x = np.ascontiguousarray(base.T).T".into()),
        3 => ("reversed rows", "x = np.ascontiguousarray(base[::-1])[::-1]".into()),
        4 => ("reversed columns", "x = np.ascontiguousarray(base[:, ::-1])[:, ::-1]".into()),
        5 => ("every second", "y = np.zeros(tuple(2 * s for s in base.shape), dtype=base.dtype)\ny[...] = 1\nx = y[tuple(slice(0, None, 2) for _ in base.shape)]\nx[...] = base".into()),
        6 => ("window", "y = np.ones(tuple(s + 3 for s in base.shape), dtype=base.dtype)\nx = y[tuple(slice(1, 1 + s) for s in base.shape)]\nx[...] = base".into()),
        7 => ("swapped axes", "x = np.ascontiguousarray(np.swapaxes(base, 0, 1)).swapaxes(0, 1)".into()),
        8 => ("read only", "x = base.copy()\nx.flags.writeable = False".into()),
        9 => ("channel first", if nd == 3 { "x = np.ascontiguousarray(np.moveaxis(base, 2, 0))\nx = np.moveaxis(x, 0, 2)" } else { "x = base" }.into()),
        10 => ("reversed channels", if nd == 3 { "x = np.ascontiguousarray(base[:, :, ::-1])[:, :, ::-1]" } else { "x = base" }.into()),
        11 => ("unaligned", "x = np.frombuffer(b'\\1' + base.tobytes(), dtype=base.dtype, offset=1).reshape(base.shape)".into()),
        12 => ("record field", "y = np.zeros(base.shape, dtype=[('a', 'u1'), ('v', base.dtype), ('b', 'u1')])\ny['v'] = base\nx = y['v']".into()),
        13 => ("repeated row", "x = np.broadcast_to(base[:1], base.shape)\nbase = np.ascontiguousarray(x)".into()),
        14 => ("foreign byte order", "x = base.astype(base.dtype.newbyteorder())".into()),
        _ => ("subclass", "class Sub(np.ndarray): pass\nx = base.view(Sub)".into()),
    };
    let cs = match (auto, c.rng.usize(3)) {
        (true, 0) => String::new(),
        (true, 1) => ", None".into(),
        (_, 2) => format!(", colorspace='{}'", name),
        _ => format!(", '{}'", name),
    };
    let kw = if cs.is_empty() || cs.contains('=') { cs.clone() } else { cs.replace(", ", ", colorspace=") };
    c.desc(format!("from_np_array of {} {} {:?} {}", name, dt, shape, lname));
    c.distinct(&(space, dt, layout, lits.clone()));
    c.count(&format!("from array {}", lname));
    c.count(&format!("from array {} {}", name, dt));
    let p = format!("base = {}\n{}\nkeep = x.copy()\nr = attempt(lambda: d10.Image.from_np_array(x{}))\nout += [r, bool((x == keep).all()), attempt(lambda: d10.Image.from_np_array(array=x{})), np.ascontiguousarray(base)]\n", base, make, cs, kw);
    let r = python(c, &p)?;
    c.evals(n as u64);
    is_bool("the array afterwards", &r[1], true)?;
    let data = match &r[3] {
        V::A(_, _, d) => d,
        o => return fail("check:array", format!("{:?}", o)),
    };
    let mut px = vec![];
    for i in 0..w * h {
        let mut d = [0f32, 0.0, 0.0, 1.0];
        for k in 0..depth.max(1) {
            d[k] = (element(dt, data, i * depth.max(1) + k) / max) as f32;
        }
        px.push(pixel(d, space));
    }
    let e = Buf::new_from_raw(w as u32, h as u32, px);
    for v in [&r[0], &r[2]] {
        match v {
            // arrays that need a conversion may be refused instead
            V::E(_, ordinary, m) if layout == 11 || layout == 12 || layout == 14 => ensure!(*ordinary && !m.is_empty(), "from_np_array:refusal", "{:?}", v),
            V::I(i) => {
                ensure!((i.width(), i.height()) == (w as u32, h as u32), "from_np_array:size", "{}x{} instead of {}x{}", i.width(), i.height(), w, h);
                for (k, (p, q)) in i.data().iter().zip(e.data()).enumerate() {
                    for j in 0..4 {
                        ensure!((p.data[j] - q.data[j]).abs() <= 2e-5, format!("from_np_array:{}", lname), "{} {} {}: pixel {} is {:?} instead of {:?}", name, dt, lname, k, p.data, q.data);
                    }
                }
            }
            o => return fail(format!("from_np_array:{}", lname), format!("from_np_array of {} {} {} gave {:?}", name, dt, lname, o)),
        }
    }
    Ok(())
}

/// Arrays of up to more than 2^20 pixels, there and back
fn large_array_case(c: &mut Case) -> R {
    let dt = DTYPES[c.n as usize % 6];
    let name = *c.rng.pick(&["rgb", "rgba", "srgb", "srgba", "gray", "rgb", "rgba"]);
    let d = match name {
        "gray" => 1,
        n => n.trim_start_matches('s').len(),
    };
    let (h, w) = match c.n {
        0 => (1031, 1021),
        1 => (17, 65_537),
        _ => (1 + c.rng.usize(600), 1 + c.rng.usize(600)),
    };
    let max = dtype_max(dt);
    let int = !dt.starts_with("float") && dt != "bool";
    let make = match (int, dt) {
        (true, _) => format!("g.integers(0, {}, ({h}, {w}, {d}), dtype='uint64', endpoint=True).astype('{dt}')", max as u64),
        (false, "bool") => format!("g.integers(0, 2, ({h}, {w}, {d})).astype('bool')"),
        _ => format!("g.random(({h}, {w}, {d})).astype('{dt}')"),
    };
    c.desc(format!("array {} {} of {}x{}", name, dt, w, h));
    c.distinct(&(name, dt, h, w));
    c.count(&format!("large array {}", dt));
    let seed = c.rng.below(1 << 30);
    // of wide integers an f32 keeps 24 bits
    let p = format!(
        "g = np.random.default_rng({seed})\nb = {make}\ni = d10.Image.from_np_array(b, '{name}')\nr = i.to_np_array('{name}', '{dt}')\nm = float({max:?})\nz = b.astype('float64') / m\ne = np.abs(r.astype('float64') / m - z)\nout += [i.width == {w} and i.height == {h} and r.shape == ({h}, {w}, {d}), float(e.max())]\nq = []\nfor k in range(40):\n    x, y = int(g.integers(0, {w})), int(g.integers(0, {h}))\n    q += [(x, y)]\nt = i.to_np_array('rgba', 'float32')\nout += [all(np.abs(np.array([i[x, y].red, i[x, y].green, i[x, y].blue, i[x, y].alpha]) - t[y, x]).max() == 0 for x, y in q)]\n",
    );
    let r = python(c, &p)?;
    c.evals((w * h * d) as u64);
    is_bool("large array size", &r[0], true)?;
    let e = match &r[1] {
        V::F(v) => *v,
        o => return fail("large array:values", format!("{:?}", o)),
    };
    let tol = if int { 1.01 / max + 2e-6 } else { 2e-5 };
    c.max(&format!("large array {}", dt), e);
    ensure!(e <= tol, "large array:values", "array {} {} of {}x{}: {} away after from_np_array and to_np_array", name, dt, w, h, e);
    is_bool("pixels and array", &r[2], true)?;
    Ok(())
}

/// Arrays that are no images
fn bad_array_case(c: &mut Case) -> R {
    let dt = DTYPES[c.rng.usize(6)];
    let space = SPACES[c.rng.usize(8)];
    let mut calls: Vec<String> = vec![];
    let f = |a: String, s: String| format!("d10.Image.from_np_array({}{})", a, s);
    for d in [1, 2, 5, 6, 0, 7] {
        calls.push(f(format!("np.zeros((2, 3, {}), dtype='{}')", d, dt), if d == 1 { format!(", '{}'", space) } else { ["".to_owned(), format!(", '{}'", space), ", 'auto'".into()][c.rng.usize(3)].clone() }));
    }
    for s in ["(5,)", "()", "(2, 2, 3, 1)", "(0,)", "(1, 1, 1, 3)", "(1, 1, 1, 1, 1)"] {
        calls.push(f(format!("np.zeros({}, dtype='{}')", s, dt), ["".to_owned(), format!(", '{}'", space), ", 'gray'".into()][c.rng.usize(3)].clone()));
    }
    for t in ["float16", "int8", "int16", "int32", "int64", "uint64", "complex64", "complex128", "object", "S3", "U3", "datetime64[s]", "longdouble", "V8"] {
        calls.push(f(format!("np.zeros((2, 3, 3), dtype='{}')", t), "".into()));
    }
    // grey arrays are no colours and the other way round
    calls.push(f(format!("np.zeros((2, 3), dtype='{}')", dt), format!(", '{}'", space)));
    calls.push(f(format!("np.zeros((2, 3, 3), dtype='{}')", dt), ", 'gray'".into()));
    calls.push(f(format!("np.zeros((2, 3, 4), dtype='{}')", dt), ", 'gray'".into()));
    calls.push(f(format!("np.zeros((2, 3, 3), dtype='{}')", dt), format!(", '{}a'", space)));
    for s in ["nonsense", "", "RGB", "grayscale", "rgb "] {
        calls.push(f(format!("np.zeros((2, 3, {}), dtype='{}')", 3 + c.rng.usize(2), dt), format!(", '{}'", s)));
    }
    calls.push("d10.Image.from_np_array([[[0.1, 0.2, 0.3]]])".into());
    calls.push("d10.Image.from_np_array(memoryview(b'abc'))".into());
    calls.push("d10.Image.from_np_array()".into());
    calls.push("d10.Image.from_np_array(np.zeros((2, 3, 3)), 5)".into());
    calls.push("d10.Image.from_np_array(np.float32(3))".into());
    for t in ["'float16'", "'int32'", "np.int64", "'nonsense'", "5", "int", "np.complex64", "''", "str", "object", "np.float16", "'Float32'"] {
        calls.push(format!("a.to_np_array('rgb', {})", t));
    }
    for s in ["'nonsense'", "''", "'RGB'", "'graya'", "'auto'", "5", "'lab2'", "'rgb '"] {
        calls.push(format!("a.to_np_array({})", s));
    }
    c.desc(format!("bad arrays {} {}", dt, space));
    c.distinct(&calls);
    let b = gen::image(&mut c.rng, 4);
    let mut p = format!("a = {}\n", lit(&b));
    for t in &calls {
        p += &format!("out.append(attempt(lambda: {}))\n", t);
    }
    p += "out.append(a)\n";
    // shapes without pixels: an exception or what the library makes of it
    let empty = ["(0, 0, 3)", "(0, 4, 3)", "(4, 0, 3)", "(0, 0)", "(3, 0)", "(0, 3, 1)"];
    for s in empty {
        p += &format!("out.append(attempt(lambda: d10.Image.from_np_array(np.zeros({}, dtype='{}'))))\n", s, dt);
    }
    let r = python(c, &p)?;
    c.evals(r.len() as u64);
    for (t, v) in calls.iter().zip(&r) {
        raised_error(t, v)?;
        c.count("bad arrays refused");
    }
    same_image("image after bad arrays", &r[calls.len()], &b)?;
    for (s, v) in empty.iter().zip(&r[calls.len() + 1..]) {
        let d: Vec<u32> = s.trim_matches(&['(', ')'][..]).split(", ").map(|v| v.parse().unwrap()).collect();
        match catch(|| Image::new_from_raw(d[1], d[0], vec![])) {
            Ok(i) => same_image(&format!("from_np_array of shape {}", s), v, i.buffer())?,
            Err(_) => raised(s, v)?,
        }
    }
    Ok(())
}

/// The module offers what it documents through its names
fn module_case(c: &mut Case) -> R {
    c.desc("module contents");
    c.distinct(&c.n.clone());
    let names: Vec<String> = classes().iter().map(|c| c.name.to_owned()).chain(["Image", "EncodingFormat", "Lab", "Lch"].map(String::from)).collect();
    let p = format!("out += [hasattr(d10, n) for n in '{}'.split()]\n", names.join(" "));
    let r = python(c, &p)?;
    for (n, v) in names.iter().zip(&r) {
        c.eval();
        is_bool(&format!("d10.{} exists", n), v, true)?;
    }
    // unused names of other modules keep the compiler quiet about what they share
    let _ = (png_opt(0, 0, 0), BMP_TYPES.len(), ICO_TYPES.len(), PRESETS.len(), SAMPLINGS.len());
    Ok(())
}

pub fn c23(m: &mut Mon) {
    m.rule = "each value a Python program observes (result, object after the call, callback argument, exception, file, array element) is compared with what the library gives in the same situation; non-trivial: distinct programs".into();
    m.assumptions.push("a panic that reaches Python as pyo3's PanicException counts as a raised exception".into());
    m.assumptions.push("the interpreter is the one the module is built for (/opt/vp/venv)".into());
    m.serial("module", 1, module_case);
    m.cases("colours", m.n(18 * 60, 60), color_case);
    m.cases("inequality", m.n(36, 10), inequality_case);
    m.cases("factories", m.n(600, 40), factory_case);
    m.cases("rgb methods", m.n(600, 60), rgb_case);
    m.cases("images", m.n(IMAGE_OPS as u64 * 60, 60), image_case);
    m.cases("defaults", m.n(30, 30), default_case);
    m.cases("longer sides", m.n(IMAGE_OPS as u64 * 3, 60), wide_case);
    m.cases("pixels", m.n(500, 60), pixel_case);
    m.cases("noise", m.n(80, 20), noise_case);
    m.cases("callbacks", m.n(900, 60), callback_case);
    m.cases("reentrance", m.n(300, 40), reentrant_case);
    m.cases("files", m.n(500, 40), file_case);
    m.cases("refused", m.n(300, 40), refused_case);
    m.cases("to arrays", m.n(54 * 12, 60), to_array_case);
    m.cases("from arrays", m.n(54 * 16 * 2, 40), from_array_case);
    m.cases("large arrays", m.n(24, 20), large_array_case);
    m.cases("bad arrays", m.n(120, 20), bad_array_case);
}
