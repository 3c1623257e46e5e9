//! C12 - C16: colour spaces and per-colour adjustments
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::gen::EPS;
use crate::refimpl as rf;
use d10_core::color::illuminant::{D50, D65, E};
use d10_core::color::observer::{O10, O2};
use d10_core::color::*;
use d10_core::pixelbuffer::PixelBuffer;

type Lab65 = Lab<D65, O2>;
type Lch65 = Lch<D65, O2>;

/// Any colour in any space, to walk conversion chains
#[derive(Clone, Copy, Debug)]
pub enum Any {
    Rgb(Rgb),
    Srgb(Srgb),
    Hsl(Hsl),
    Hsv(Hsv),
    Yuv(Yuv),
    Xyz(Xyz),
    Lab(Lab65),
    Lch(Lch65),
}
pub const SPACES: usize = 8;

macro_rules! each {
    ($any:expr, $c:ident => $e:expr) => {
        match $any {
            Any::Rgb($c) => $e,
            Any::Srgb($c) => $e,
            Any::Hsl($c) => $e,
            Any::Hsv($c) => $e,
            Any::Yuv($c) => $e,
            Any::Xyz($c) => $e,
            Any::Lab($c) => $e,
            Any::Lch($c) => $e,
        }
    };
}

impl Any {
    fn to(&self, space: usize) -> Any {
        each!(self, c => match space {
            0 => Any::Rgb(c.to_rgb()),
            1 => Any::Srgb(c.to_srgb()),
            2 => Any::Hsl(c.to_hsl()),
            3 => Any::Hsv(c.to_hsv()),
            4 => Any::Yuv(c.to_yuv()),
            5 => Any::Xyz(c.to_xyz()),
            6 => Any::Lab(c.to_lab()),
            _ => Any::Lch(c.to_lch()),
        })
    }
    fn data(&self) -> [f32; 4] {
        each!(self, c => c.data)
    }
    fn space(&self) -> usize {
        match self {
            Any::Rgb(_) => 0,
            Any::Srgb(_) => 1,
            Any::Hsl(_) => 2,
            Any::Hsv(_) => 3,
            Any::Yuv(_) => 4,
            Any::Xyz(_) => 5,
            Any::Lab(_) => 6,
            Any::Lch(_) => 7,
        }
    }
    fn name(&self) -> &'static str {
        ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"][self.space()]
    }
}

fn same(a: &[f32; 4], b: &[f32; 4]) -> bool {
    a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x - y).abs() <= 1e-6)
}

fn maxd(a: &[f32; 4], b: &[f32; 4]) -> f64 {
    rf::max_diff(&rf::p(a), &rf::p(b))
}

/// From/Into for every ordered pair
fn from_matrix(a: Any) -> Vec<(usize, [f32; 4])> {
    macro_rules! all {
        ($c:expr; $($t:ty => $n:expr),*) => { vec![$(($n, <$t>::from($c).data)),*] };
    }
    match a {
        Any::Rgb(c) => all!(c; Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, Lab65=>6, Lch65=>7),
        Any::Srgb(c) => all!(c; Rgb=>0, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, Lab65=>6, Lch65=>7),
        Any::Hsl(c) => all!(c; Rgb=>0, Srgb=>1, Hsv=>3, Yuv=>4, Xyz=>5, Lab65=>6, Lch65=>7),
        Any::Hsv(c) => all!(c; Rgb=>0, Srgb=>1, Hsl=>2, Yuv=>4, Xyz=>5, Lab65=>6, Lch65=>7),
        Any::Yuv(c) => all!(c; Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Xyz=>5, Lab65=>6, Lch65=>7),
        Any::Xyz(c) => all!(c; Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, Lab65=>6, Lch65=>7),
        Any::Lab(c) => all!(c; Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, Lch65=>7),
        Any::Lch(c) => all!(c; Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, Lab65=>6),
    }
}

macro_rules! with_wp {
    ($m:ident) => {
        $m!(D50, O2);
        $m!(D50, O10);
        $m!(D65, O2);
        $m!(D65, O10);
        $m!(E, O2);
        $m!(E, O10);
    };
}

fn c12_color(c: &mut Case, rgb: Rgb) -> R {
    c.eval();
    let sig = |s: &str| format!("round-trip:{}", s);
    macro_rules! rt {
        ($name:expr, $tol:expr, $e:expr) => {{
            let back: Rgb = $e;
            let d = maxd(&back.data, &rgb.data);
            c.max(concat!("round trip ", $name), d);
            ensure!(d <= $tol, sig($name), "{:?} -> {} -> {:?} (off by {:.3e})", rgb.data, $name, back.data, d);
            ensure!(back.alpha().to_bits() == rgb.alpha().to_bits(), format!("alpha:{}", $name),
                "alpha {} became {} through {}", rgb.alpha(), back.alpha(), $name);
        }};
    }
    let eq = EPS + 1e-6;
    rt!("srgb", eq, rgb.to_srgb().to_rgb());
    rt!("hsl", eq, rgb.to_hsl().to_rgb());
    rt!("hsv", eq, rgb.to_hsv().to_rgb());
    rt!("yuv", eq, rgb.to_yuv().to_rgb());
    rt!("xyz", 1e-3, rgb.to_xyz().to_rgb());
    macro_rules! wp {
        ($i:ident, $o:ident) => {
            rt!(concat!("lab<", stringify!($i), ",", stringify!($o), ">"), 1e-3, rgb.to_lab::<$i, $o>().to_rgb());
            rt!(concat!("lch<", stringify!($i), ",", stringify!($o), ">"), 1e-3, rgb.to_lch::<$i, $o>().to_rgb());
        };
    }
    with_wp!(wp);
    Ok(())
}

fn c12_chain(c: &mut Case) -> R {
    let rgb = gen::color(&mut c.rng);
    let len = 2 + c.rng.usize(7);
    let mut a = Any::Rgb(rgb);
    let mut path = vec!["rgb"];
    let mut coarse = 0;
    for _ in 0..len {
        let s = c.rng.usize(SPACES);
        // From / Into agrees with the method
        for (t, d) in from_matrix(a) {
            let m = a.to(t);
            c.eval();
            ensure!(same(&d, &m.data()) || d.iter().any(|v| v.is_nan()), format!("from:{}->{}", a.name(), m.name()),
                "From<{}> for {} gives {:?}, method gives {:?} (input {:?})", a.name(), m.name(), d, m.data(), a.data());
        }
        a = a.to(s);
        path.push(a.name());
        if s >= 5 {
            coarse += 1;
        }
        c.eval();
        let d = a.data();
        ensure!(d.iter().all(|v| v.is_finite()), "chain:finite", "{:?} via {:?} is {:?}", rgb.data, path, d);
        ensure!(d[3].to_bits() == rgb.alpha().to_bits(), "chain:alpha", "alpha {} became {} via {:?}", rgb.alpha(), d[3], path);
    }
    let back = each!(a, c => c.to_rgb());
    let d = maxd(&back.data, &rgb.data);
    let tol = if coarse == 0 { EPS * (2.0 + len as f64) } else { 1e-3 };
    c.max(if coarse == 0 { "chain direct" } else { "chain any" }, d);
    c.desc(format!("{:?} via {:?}", rgb.data, path));
    c.distinct(&(gen::cbits(&rgb), path.clone()));
    ensure!(d <= tol, "chain", "{:?} via {:?} became {:?} (off by {:.3e})", rgb.data, path, back.data, d);
    Ok(())
}

fn c12_iters(c: &mut Case) -> R {
    let buf = if gen::is_large() || c.rng.chance(0.3) {
        gen::image(&mut c.rng, 9)
    } else {
        let n = 1 + c.rng.usize(40);
        PixelBuffer::new_from_raw(n as u32, 1, (0..n).map(|_| gen::color(&mut c.rng)).collect())
    };
    let cols: Vec<Rgb> = buf.data().to_vec();
    let (w, h, n) = (buf.width(), buf.height(), cols.len());
    let img = d10::Image::new_from_raw(w, h, cols.clone());
    c.distinct(&gen::bits(&buf));
    c.desc(gen::describe(&buf));
    macro_rules! chk {
        ($name:expr, $got:expr, $want:expr) => {{
            let got: Vec<[f32; 4]> = $got;
            let want: Vec<[f32; 4]> = $want;
            c.eval();
            ensure!(got.len() == want.len(), concat!("iter-len:", $name), "{} yields {} colours of {}", $name, got.len(), want.len());
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                ensure!(same(g, w), concat!("iter:", $name), "{} colour {}: {:?}, single conversion {:?}", $name, i, g, w);
            }
        }};
    }
    macro_rules! space {
        ($name:literal, $into:ident, $to:ident) => {
            let want: Vec<[f32; 4]> = cols.iter().map(|c| c.$to().data).collect();
            chk!(concat!($name, " ref"), ColorIterRef::$into(cols.iter()).map(|c| c.data).collect(), want.clone());
            chk!(concat!($name, " value"), ColorIter::$into(cols.clone().into_iter()).map(|c| c.data).collect(), want.clone());
            chk!(concat!($name, " buffer"), buf.$to().data().iter().map(|c| c.data).collect(), want.clone());
            let b = img.buffer().$to();
            chk!(concat!($name, " image"), b.data().iter().map(|c| c.data).collect(), want.clone());
            ensure!(b.width() == w && b.height() == h, concat!("iter-size:", $name), "size changed to {}x{}", b.width(), b.height());
            // from this space back and on: buffers of that space
            let sp: Vec<_> = cols.iter().map(|c| c.$to()).collect();
            let sb = PixelBuffer::new_from_raw(w, h, sp.clone());
            chk!(concat!($name, "->rgb buffer"), sb.to_rgb().data().iter().map(|c| c.data).collect(), sp.iter().map(|c| c.to_rgb().data).collect());
            chk!(concat!($name, "->hsl buffer"), sb.to_hsl().data().iter().map(|c| c.data).collect(), sp.iter().map(|c| c.to_hsl().data).collect());
            chk!(concat!($name, "->xyz buffer"), sb.to_xyz().data().iter().map(|c| c.data).collect(), sp.iter().map(|c| c.to_xyz().data).collect());
            chk!(concat!($name, "->rgb value"), ColorIter::into_rgb(sp.clone().into_iter()).map(|c| c.data).collect(), sp.iter().map(|c| c.to_rgb().data).collect());
            chk!(concat!($name, "->srgb ref"), ColorIterRef::into_srgb(sp.iter()).map(|c| c.data).collect(), sp.iter().map(|c| c.to_srgb().data).collect());
        };
    }
    space!("rgb", into_rgb, to_rgb);
    space!("srgb", into_srgb, to_srgb);
    space!("hsl", into_hsl, to_hsl);
    space!("hsv", into_hsv, to_hsv);
    space!("yuv", into_yuv, to_yuv);
    space!("xyz", into_xyz, to_xyz);
    // of huge images only one white point
    let mut turn = if gen::is_huge() { c.rng.usize(18) as i64 } else { -1 };
    macro_rules! wp {
        ($i:ident, $o:ident) => {
          turn -= 1;
          if turn < -1 || turn == 0 {
            let want: Vec<[f32; 4]> = cols.iter().map(|c| c.to_lab::<$i, $o>().data).collect();
            chk!(concat!("lab ref ", stringify!($i), stringify!($o)), ColorIterRef::into_lab::<$i, $o>(cols.iter()).map(|c| c.data).collect(), want.clone());
            chk!(concat!("lab value ", stringify!($i), stringify!($o)), ColorIter::into_lab::<$i, $o>(cols.clone().into_iter()).map(|c| c.data).collect(), want.clone());
            chk!(concat!("lab buffer ", stringify!($i), stringify!($o)), buf.to_lab::<$i, $o>().data().iter().map(|c| c.data).collect(), want.clone());
            let want: Vec<[f32; 4]> = cols.iter().map(|c| c.to_lch::<$i, $o>().data).collect();
            chk!(concat!("lch ref ", stringify!($i), stringify!($o)), ColorIterRef::into_lch::<$i, $o>(cols.iter()).map(|c| c.data).collect(), want.clone());
            chk!(concat!("lch value ", stringify!($i), stringify!($o)), ColorIter::into_lch::<$i, $o>(cols.clone().into_iter()).map(|c| c.data).collect(), want.clone());
            chk!(concat!("lch buffer ", stringify!($i), stringify!($o)), buf.to_lch::<$i, $o>().data().iter().map(|c| c.data).collect(), want.clone());
            // laziness and size hints
            let it = ColorIterRef::into_lab::<$i, $o>(cols.iter());
            ensure!(it.size_hint() == (n, Some(n)), "iter-hint", "size hint {:?} of {}", it.size_hint(), n);
            // Lab / Lch of one white point converted on
            let sp: Vec<Lab<$i, $o>> = cols.iter().map(|c| c.to_lab()).collect();
            let sb = PixelBuffer::new_from_raw(w, h, sp.clone());
            chk!(concat!("lab->rgb ", stringify!($i), stringify!($o)), sb.to_rgb().data().iter().map(|c| c.data).collect(), sp.iter().map(|c| c.to_rgb().data).collect());
            let sp: Vec<Lch<$i, $o>> = cols.iter().map(|c| c.to_lch()).collect();
            let sb = PixelBuffer::new_from_raw(w, h, sp.clone());
            chk!(concat!("lch->rgb ", stringify!($i), stringify!($o)), sb.to_rgb().data().iter().map(|c| c.data).collect(), sp.iter().map(|c| c.to_rgb().data).collect());
          }
        };
    }
    with_wp!(wp);
    Ok(())
}

pub fn c12(m: &mut Mon) {
    m.rule = "round trips of generated colours (corners, greys, near-greys, near-black/white, hue sector borders, 8 bit levels, random) through all 18 spaces, an RGB lattice, random conversion chains of 2-8 steps, and iterator/buffer/image conversions against single conversions; non-trivial: distinct colour bits or distinct (colour, chain)".into();
    let n = m.n(60_000, 12);
    m.cases("colors", n, |c| {
        for _ in 0..20 {
            let rgb = gen::color(&mut c.rng);
            c.desc(format!("{:?}", rgb.data));
            c.distinct(&gen::cbits(&rgb));
            c12_color(c, rgb)?;
        }
        Ok(())
    });
    // lattice: every combination of k levels per channel, linear and sRGB coded
    let k: u64 = if m.thorough { 128 } else { 41 };
    m.cases("lattice", k * 2, |c| {
        let lin = c.n < k;
        let r = (c.n % k) as f32 / (k - 1) as f32;
        for g in 0..k {
            for b in 0..k {
                let (g, b) = (g as f32 / (k - 1) as f32, b as f32 / (k - 1) as f32);
                let rgb = if lin { Rgb::new(r, g, b) } else { Srgb::new(r, g, b).to_rgb() };
                if (c.n + (g * 97.0) as u64) % 8 == 0 {
                    c.distinct(&gen::cbits(&rgb));
                }
                c12_color(c, rgb)?;
            }
        }
        c.desc(format!("lattice plane r={} srgb={}", r, !lin));
        Ok(())
    });
    let n = m.n(200_000, 20);
    m.cases("chains", n, c12_chain);
    let n = m.n(10_000, 20);
    m.cases("iterators", n, c12_iters);
    let n = m.n(100, 15);
    m.cases("large buffers", n, |c| gen::large(70000, || c12_iters(c)));
    let n = m.n(8, 10);
    m.cases("long buffers", n, |c| gen::long(|| c12_iters(c)));
    let n = m.n(4, 8);
    m.cases("huge buffers", n, |c| gen::huge(|| c12_iters(c)));
}

// ------------------------------------------------------------------------------------------- C13

fn c13_forward(c: &mut Case) -> R {
    let rgb = gen::color(&mut c.rng);
    let r = rf::p(&rgb.data);
    c.desc(format!("{:?}", rgb.data));
    c.distinct(&gen::cbits(&rgb));
    let delta = rf::mx(&r) - rf::mn(&r);
    let fin = |d: &[f32; 4]| d.iter().all(|v| v.is_finite());

    c.evals(4);
    let s = rgb.to_srgb();
    let w = rf::srgb(&r);
    let d = rf::diff32(&s.data, &w);
    c.max("srgb", d);
    ensure!(d <= EPS, "srgb", "{:?} -> srgb {:?}, expected {:?}", rgb.data, s.data, w);

    let h = rgb.to_hsl();
    let w = rf::hsl(&r);
    ensure!(fin(&h.data), "hsl:finite", "{:?} -> hsl {:?}", rgb.data, h.data);
    ensure!((0.0..=1.0).contains(&h.hue()), "hsl:hue-range", "{:?} -> hsl {:?}", rgb.data, h.data);
    ensure!((h.lightness() as f64 - w[2]).abs() <= EPS, "hsl:lightness", "{:?} -> hsl {:?}, expected {:?}", rgb.data, h.data, w);
    let room = 1.0 - (2.0 * w[2] - 1.0).abs();
    // chroma is well conditioned everywhere, saturation where there is room for it
    let dc = (h.saturation() as f64 * room - w[1] * room).abs();
    c.max("hsl chroma", dc);
    ensure!(dc <= 2.0 * EPS, "hsl:saturation", "{:?} -> hsl {:?}, expected {:?}", rgb.data, h.data, w);
    if delta == 0.0 {
        ensure!(h.saturation() == 0.0, "hsl:grey", "grey {:?} -> hsl {:?}", rgb.data, h.data);
    }
    let htol = 1e-5 + 2.0 * EPS / delta;
    if htol < 0.2 {
        let dh = rf::turn_dist(h.hue() as f64, w[0]);
        ensure!(dh <= htol, "hsl:hue", "{:?} -> hsl {:?}, expected {:?}", rgb.data, h.data, w);
    }

    let h = rgb.to_hsv();
    let w = rf::hsv(&r);
    ensure!(fin(&h.data), "hsv:finite", "{:?} -> hsv {:?}", rgb.data, h.data);
    ensure!((0.0..=1.0).contains(&h.hue()), "hsv:hue-range", "{:?} -> hsv {:?}", rgb.data, h.data);
    ensure!((h.value() as f64 - w[2]).abs() <= EPS, "hsv:value", "{:?} -> hsv {:?}, expected {:?}", rgb.data, h.data, w);
    let dc = ((h.saturation() as f64 - w[1]) * w[2]).abs();
    ensure!(dc <= 2.0 * EPS, "hsv:saturation", "{:?} -> hsv {:?}, expected {:?}", rgb.data, h.data, w);
    if delta == 0.0 {
        ensure!(h.saturation() == 0.0, "hsv:grey", "grey {:?} -> hsv {:?}", rgb.data, h.data);
    }
    if htol < 0.2 {
        let dh = rf::turn_dist(h.hue() as f64, w[0]);
        ensure!(dh <= htol, "hsv:hue", "{:?} -> hsv {:?}, expected {:?}", rgb.data, h.data, w);
    }

    c.evals(2);
    let y = rgb.to_yuv();
    let w = rf::yuv(&r);
    let d = rf::diff32(&y.data, &w);
    c.max("yuv", d);
    ensure!(d <= 5e-5, "yuv", "{:?} -> yuv {:?}, expected {:?}", rgb.data, y.data, w);
    if delta == 0.0 {
        ensure!(y.data[1].abs() < 1e-5 && y.data[2].abs() < 1e-5, "yuv:grey", "grey {:?} -> yuv {:?}", rgb.data, y.data);
    }

    let x = rgb.to_xyz();
    let w = rf::xyz(&r);
    let d = rf::diff32(&x.data, &w);
    c.max("xyz", d);
    ensure!(d <= 2e-5, "xyz", "{:?} -> xyz {:?}, expected {:?}", rgb.data, x.data, w);

    macro_rules! wp {
        ($i:ident, $o:ident, $w:expr) => {{
            c.evals(2);
            let l = rgb.to_lab::<$i, $o>();
            let w = rf::lab(&r, &$w);
            let d = rf::diff32(&l.data, &w);
            c.max("lab", d);
            ensure!(d <= 2e-4, concat!("lab:", stringify!($i), stringify!($o)), "{:?} -> lab {:?}, expected {:?}", rgb.data, l.data, w);
            let h = rgb.to_lch::<$i, $o>();
            let w = rf::lch(&r, &$w);
            ensure!(fin(&h.data), "lch:finite", "{:?} -> lch {:?}", rgb.data, h.data);
            ensure!((h.l() as f64 - w[0]).abs() <= 2e-4 && (h.c() as f64 - w[1]).abs() <= 2e-4 && h.data[3].to_bits() == rgb.data[3].to_bits(),
                concat!("lch:", stringify!($i), stringify!($o)), "{:?} -> lch {:?}, expected {:?}", rgb.data, h.data, w);
            ensure!(h.c() >= 0.0 && h.h().abs() as f64 <= std::f64::consts::PI + 1e-5, "lch:range", "{:?} -> lch {:?}", rgb.data, h.data);
            if w[1] > 0.01 {
                let tau = 2.0 * std::f64::consts::PI;
                let dh = rf::turn_dist(h.h() as f64 / tau, w[2] / tau) * tau;
                ensure!(dh <= 1e-5 + 3e-4 / w[1], concat!("lch-hue:", stringify!($i), stringify!($o)), "{:?} -> lch {:?}, expected {:?}", rgb.data, h.data, w);
            }
        }};
    }
    wp!(D50, O2, rf::D50_2);
    wp!(D50, O10, rf::D50_10);
    wp!(D65, O2, rf::D65_2);
    wp!(D65, O10, rf::D65_10);
    wp!(E, O2, rf::E_ANY);
    wp!(E, O10, rf::E_ANY);
    if delta == 0.0 {
        let l = rgb.to_lch::<D65, O2>();
        ensure!(l.c() < 2e-4, "lch:grey", "grey {:?} -> lch {:?}", rgb.data, l.data);
    }
    Ok(())
}

fn c13_backward(c: &mut Case) -> R {
    let r = &mut c.rng;
    let al = gen::alpha(r);
    let hue = match r.usize(5) {
        0 => r.usize(7) as f32 / 6.0,
        1 => (r.usize(7) as f32 / 6.0 + r.uniform(-1e-4, 1e-4)).clamp(0.0, 1.0),
        _ => r.f32(),
    };
    let hue = if hue >= 1.0 { 0.0 } else { hue };
    let (s, l) = (gen::channel(r), gen::channel(r));
    let hsl = Hsl::new_with_alpha(hue, s, l, al);
    let hsv = Hsv::new_with_alpha(hue, s, l, al);
    let base = rf::p(&gen::color(r).data);
    let jig = if r.bool() { 0.0 } else { 0.05 };
    let mut j = |v: f64| v + (r.f64() - 0.5) * jig;
    let y = rf::yuv(&base);
    let yuv = Yuv::new_with_alpha(j(y[0]) as f32, j(y[1]) as f32, j(y[2]) as f32, al);
    let x = rf::xyz(&base);
    let xyz = Xyz::new_with_alpha(j(x[0]).max(0.0) as f32, j(x[1]).max(0.0) as f32, j(x[2]).max(0.0) as f32, al);
    let lb = rf::lab(&base, &rf::D65_2);
    let lab = Lab65::new_with_alpha(j(lb[0]).clamp(0.0, 1.0) as f32, j(lb[1]) as f32, j(lb[2]) as f32, al);
    let turns = r.range(-2, 2) as f64 * 2.0 * std::f64::consts::PI;
    let lc = rf::lch(&base, &rf::D65_2);
    let lch = Lch65::new_with_alpha(lab.l(), lc[1] as f32, (lc[2] + turns) as f32, al);
    c.desc(format!("hsl {:?} yuv {:?} xyz {:?} lab {:?} lch {:?}", hsl.data, yuv.data, xyz.data, lab.data, lch.data));
    c.distinct(&(gen::cbits(&Rgb { data: hsl.data }), gen::cbits(&Rgb { data: lab.data })));
    macro_rules! b {
        ($name:expr, $v:expr, $want:expr, $tol:expr) => {{
            c.eval();
            let got = $v.to_rgb();
            let want = rf::map3($want(&rf::p(&$v.data)), rf::c01);
            let d = rf::diff32(&got.data, &want);
            c.max(concat!($name, " to rgb"), d);
            ensure!(d <= $tol, concat!("to-rgb:", $name), "{} {:?} -> {:?}, expected {:?}", $name, $v.data, got.data, want);
            ensure!(rf::finite01(&got.data), concat!("to-rgb-range:", $name), "{} {:?} -> {:?}", $name, $v.data, got.data);
        }};
    }
    b!("hsl", hsl, rf::from_hsl, 2.0 * EPS);
    b!("hsv", hsv, rf::from_hsv, 2.0 * EPS);
    b!("yuv", yuv, rf::from_yuv, 1e-4);
    b!("xyz", xyz, rf::from_xyz, 1e-4);
    b!("lab", lab, |v| rf::from_lab(v, &rf::D65_2), 5e-4);
    b!("lch", lch, |v| rf::from_lch(v, &rf::D65_2), 5e-4);
    macro_rules! wp {
        ($i:ident, $o:ident, $w:expr) => {{
            let v = Lab::<$i, $o>::new_with_alpha(lab.l(), lab.a(), lab.b(), al);
            b!("lab-wp", v, |q| rf::from_lab(q, &$w), 5e-4);
            let v = Lch::<$i, $o>::new_with_alpha(lch.l(), lch.c(), lch.h(), al);
            b!("lch-wp", v, |q| rf::from_lch(q, &$w), 5e-4);
        }};
    }
    wp!(D50, O2, rf::D50_2);
    wp!(D50, O10, rf::D50_10);
    wp!(D65, O10, rf::D65_10);
    wp!(E, O2, rf::E_ANY);
    wp!(E, O10, rf::E_ANY);
    Ok(())
}

fn c13_continuity(c: &mut Case) -> R {
    let a = gen::color(&mut c.rng);
    let step = 10f32.powf(c.rng.uniform(-7.0, -3.5));
    let mut b = a;
    for i in 0..3 {
        b.data[i] = (b.data[i] + step * c.rng.uniform(-1.0, 1.0)).clamp(0.0, 1.0);
    }
    let d0 = maxd(&a.data, &b.data);
    c.desc(format!("{:?} vs {:?}", a.data, b.data));
    c.distinct(&(gen::cbits(&a), gen::cbits(&b)));
    macro_rules! t {
        ($name:expr, $f:expr, $tol:expr) => {{
            c.eval();
            let f = $f;
            let (x, y): (Rgb, Rgb) = (f(a), f(b));
            let d = maxd(&x.data, &y.data);
            ensure!(d <= d0 + $tol, concat!("jump:", $name), "inputs {:?} and {:?} differ by {:.2e} but come back as {:?} and {:?}", a.data, b.data, d0, x.data, y.data);
        }};
    }
    t!("srgb", |v: Rgb| v.to_srgb().to_rgb(), 3.0 * EPS);
    t!("hsl", |v: Rgb| v.to_hsl().to_rgb(), 3.0 * EPS);
    t!("hsv", |v: Rgb| v.to_hsv().to_rgb(), 3.0 * EPS);
    t!("yuv", |v: Rgb| v.to_yuv().to_rgb(), 3.0 * EPS);
    t!("xyz", |v: Rgb| v.to_xyz().to_rgb(), 5e-4);
    t!("lab", |v: Rgb| v.to_lab::<D65, O2>().to_rgb(), 5e-4);
    t!("lch", |v: Rgb| v.to_lch::<D65, O2>().to_rgb(), 5e-4);
    // the transfer functions are continuous and monotone
    let (x, y) = (a.data[0].min(b.data[0]), a.data[0].max(b.data[0]));
    c.evals(2);
    let (gx, gy) = (linear_to_gamma(x) as f64, linear_to_gamma(y) as f64);
    ensure!(gy >= gx - 2e-6 && gy - gx <= 13.0 * (y - x) as f64 + 2e-5, "transfer", "linear_to_gamma({})={} ({})={}", x, gx, y, gy);
    ensure!((gx - rf::gam(x as f64)).abs() < EPS, "transfer", "linear_to_gamma({})={}", x, gx);
    let (lx, ly) = (gamma_to_linear(x) as f64, gamma_to_linear(y) as f64);
    ensure!(ly >= lx - 2e-6 && ly - lx <= 2.5 * (y - x) as f64 + 2e-5, "transfer", "gamma_to_linear({})={} ({})={}", x, lx, y, ly);
    ensure!((lx - rf::lin(x as f64)).abs() < EPS, "transfer", "gamma_to_linear({})={}", x, lx);
    Ok(())
}

pub fn c13(m: &mut Mon) {
    m.rule = "generated colours converted to every space and compared with f64 reference formulas (forward), generated values of every space converted to RGB (backward), pairs of neighbouring colours through every space (continuity); non-trivial: distinct input bits".into();
    m.assumptions.push("tolerances: EPSILON (1/32768) for sRGB/HSL/HSV, 5e-5 YUV, 2e-5 XYZ, 2e-4 Lab/Lch; saturation compared as chroma, hue with a tolerance inverse to chroma".into());
    let n = m.n(500_000, 20);
    m.cases("forward", n, c13_forward);
    m.cases("backward", n, c13_backward);
    m.cases("continuity", n, c13_continuity);
}

// ------------------------------------------------------------------------------------------- C14

/// parse "name(a, b, c[, alpha])"
fn check_text(text: &str, name: &str, data: &[f32; 4]) -> R {
    let (n, rest) = match text.split_once('(') {
        Some(v) => v,
        None => return fail("text:form", format!("no parenthesis in {:?}", text)),
    };
    ensure!(rest.ends_with(')'), "text:form", "{:?}", text);
    let parts: Vec<&str> = rest[..rest.len() - 1].split(", ").collect();
    let da = (1.0 - data[3] as f64).abs();
    let with_a = parts.len() == 4;
    ensure!(parts.len() == 3 || parts.len() == 4, "text:count", "{:?} for {:?}", text, data);
    if da > 1.01 * EPS {
        ensure!(with_a, "text:alpha-missing", "{:?} for {:?}", text, data);
    }
    if da < 0.99 * EPS {
        ensure!(!with_a, "text:alpha-shown", "{:?} for {:?}", text, data);
    }
    let want = if with_a { format!("{}a", name) } else { name.to_owned() };
    ensure!(n == want, "text:name", "{:?} does not start with {:?}", text, want);
    for (i, s) in parts.iter().enumerate() {
        let v: f64 = match s.parse() {
            Ok(v) => v,
            Err(_) => return fail("text:number", format!("{:?} in {:?}", s, text)),
        };
        ensure!((v - data[i] as f64).abs() <= 0.5e-4 + 2e-6, "text:value", "{:?} for {:?}", text, data);
        let dec = s.split_once('.').map(|x| x.1.len()).unwrap_or(0);
        ensure!((1..=4).contains(&dec), "text:decimals", "{:?} in {:?} for {:?}", s, text, data);
        ensure!(dec == 1 || !s.ends_with('0'), "text:trailing-zero", "{:?} in {:?}", s, text);
    }
    Ok(())
}

fn c14_eq<C: Color>(c: &mut Case, mk: impl Fn([f32; 4]) -> C, clamped: bool) -> R {
    let mut a = [0f32; 4];
    for v in a.iter_mut() {
        *v = if clamped { c.rng.uniform(0.01, 0.99) } else { c.rng.uniform(-1.2, 1.2) };
    }
    let mut b = a;
    for v in b.iter_mut() {
        if c.rng.chance(0.4) {
            let k = match c.rng.usize(7) {
                0 => 0.5,
                1 => 0.95,
                2 => 1.05,
                3 => 2.0,
                4 => c.rng.uniform(0.0, 3.0),
                5 => 50.0,
                _ => 0.9,
            };
            *v += (k * EPS as f32) * if c.rng.bool() { 1.0 } else { -1.0 };
        }
    }
    let (x, y) = (mk(a), mk(b));
    let d = rf::max_diff(&rf::p(&a), &rf::p(&b));
    c.evals(3);
    c.distinct(&(a.map(f32::to_bits), b.map(f32::to_bits), x.type_name()));
    ensure!(x == x && y == y, "eq:reflexive", "{:?}", x);
    ensure!((x == y) == (y == x), "eq:symmetric", "{:?} {:?}", x, y);
    ensure!((x == y) != (x != y), "eq:ne", "{:?} {:?}", x, y);
    if d < 0.99 * EPS {
        c.count("pairs just equal");
        ensure!(x == y, "eq:should-be-equal", "{} {:?} {:?} (max channel difference {:.3} EPSILON)", x.type_name(), a, b, d / EPS);
    } else if d > 1.01 * EPS {
        c.count("pairs just different");
        ensure!(x != y, "eq:should-differ", "{} {:?} {:?} (max channel difference {:.3} EPSILON)", x.type_name(), a, b, d / EPS);
    }
    // transparency predicate
    let near = c.rng.pick(&[0.0, 0.5, 0.9, 1.1, 2.0, 100.0, 16384.0, 32768.0]) * EPS;
    let al = (1.0 - near) as f32;
    let t = x.with_alpha(al);
    ensure!(t.alpha().to_bits() == al.to_bits(), "alpha:with", "with_alpha({}) gives {}", al, t.alpha());
    let dt = (1.0 - al as f64).abs();
    if dt < 0.99 * EPS {
        ensure!(!t.has_transparency(), "transparency", "alpha {} counts as transparent ({})", al, x.type_name());
    } else if dt > 1.01 * EPS {
        ensure!(t.has_transparency(), "transparency", "alpha {} counts as opaque ({})", al, x.type_name());
    }
    Ok(())
}

macro_rules! accessors {
    ($c:expr, $ty:ty, $name:expr, $a:expr, $v:expr, $( ($i:expr, $get:ident, $set:ident, $with:ident) ),*) => {{
        let a: [f32; 4] = $a;
        let v: f32 = $v;
        let mk = |d: [f32; 4]| <$ty>::new_with_alpha(d[0], d[1], d[2], d[3]);
        let x = mk(a);
        ensure!(x.data.map(f32::to_bits) == a.map(f32::to_bits), concat!("ctor:", $name), "new_with_alpha({:?}) holds {:?}", a, x.data);
        let o = <$ty>::new(a[0], a[1], a[2]);
        ensure!(o.data.map(f32::to_bits) == [a[0], a[1], a[2], 1.0].map(f32::to_bits), concat!("ctor:", $name), "new({:?}) holds {:?}", a, o.data);
        $(
            $c.evals(3);
            ensure!(x.$get().to_bits() == a[$i].to_bits(), concat!("get:", $name, ".", stringify!($get)), "{:?} gives {}", a, x.$get());
            let mut want = a;
            want[$i] = v;
            let w = x.$with(v);
            ensure!(w.data.map(f32::to_bits) == want.map(f32::to_bits), concat!("with:", $name, ".", stringify!($with)), "{:?} with {} gives {:?}", a, v, w.data);
            let mut s = x;
            s.$set(v);
            ensure!(s.data.map(f32::to_bits) == want.map(f32::to_bits), concat!("set:", $name, ".", stringify!($set)), "{:?} set {} gives {:?}", a, v, s.data);
            ensure!(x.data.map(f32::to_bits) == a.map(f32::to_bits), concat!("with-mutates:", $name), "{:?}", x.data);
        )*
        let mut want = a;
        want[3] = v;
        let w = x.with_alpha(v);
        ensure!(w.data.map(f32::to_bits) == want.map(f32::to_bits), concat!("with:", $name, ".alpha"), "{:?} with alpha {} gives {:?}", a, v, w.data);
        let mut s = x;
        s.set_alpha(v);
        ensure!(s.data.map(f32::to_bits) == want.map(f32::to_bits) && s.alpha().to_bits() == v.to_bits(), concat!("set:", $name, ".alpha"), "{:?} set alpha {} gives {:?}", a, v, s.data);
        ensure!(x.data() == &a[..], concat!("data:", $name), "{:?}", x.data());
        let mut s = x;
        s.data_mut()[1] = v;
        ensure!(s.data[1] == v && s.data[0] == a[0], concat!("data_mut:", $name), "{:?}", s.data);
        check_text(&x.to_string(), x.type_name(), &x.data)?;
        check_text(&x.with_alpha(1.0).to_string(), x.type_name(), &x.with_alpha(1.0).data)?;
        // channel mapping: in order, alpha kept
        let mut seen = vec![];
        let mm = x.map_color_channels(|q| { seen.push(q); q * 0.5 });
        ensure!(seen == a[..3], concat!("map:", $name), "saw {:?} of {:?}", seen, a);
        ensure!(mm.data.map(f32::to_bits) == [a[0] * 0.5, a[1] * 0.5, a[2] * 0.5, a[3]].map(f32::to_bits), concat!("map:", $name), "{:?} -> {:?}", a, mm.data);
        let stop = $c.rng.usize(4);
        let mut n = 0;
        let r: Result<$ty, u32> = x.try_map_color_channels(|q| { n += 1; if n - 1 == stop { Err(77) } else { Ok(q) } });
        match r {
            Ok(r) => ensure!(stop == 3 && n == 3 && r.data.map(f32::to_bits) == a.map(f32::to_bits), concat!("try_map:", $name), "stop {} n {} {:?}", stop, n, r.data),
            Err(e) => ensure!(e == 77 && n == stop + 1, concat!("try_map:", $name), "stop {} n {}", stop, n),
        }
        ensure!(<$ty>::default().data == [0.0; 4], concat!("default:", $name), "{:?}", <$ty>::default().data);
    }};
}

fn c14_access(c: &mut Case) -> R {
    let r = &mut c.rng;
    let al = gen::alpha(r);
    let a01 = [gen::channel(r), gen::channel(r), gen::channel(r), al];
    let v = gen::channel(r);
    let mut w = || {
        let s = 10f32.powf(r.uniform(-6.0, 0.5));
        match r.usize(4) {
            0 => -s,
            1 => s,
            2 => (r.below(20001) as f32 - 10000.0) / 10000.0,
            _ => gen::channel(r),
        }
    };
    let af = [w(), w(), w(), al];
    c.desc(format!("{:?} {:?} {}", a01, af, v));
    c.distinct(&(a01.map(f32::to_bits), af.map(f32::to_bits)));
    accessors!(c, Rgb, "rgb", a01, v, (0, red, set_red, with_red), (1, green, set_green, with_green), (2, blue, set_blue, with_blue));
    accessors!(c, Srgb, "srgb", a01, v, (0, red, set_red, with_red), (1, green, set_green, with_green), (2, blue, set_blue, with_blue));
    accessors!(c, Hsl, "hsl", af, v, (0, hue, set_hue, with_hue), (1, saturation, set_saturation, with_saturation), (2, lightness, set_lightness, with_lightness));
    accessors!(c, Hsv, "hsv", af, v, (0, hue, set_hue, with_hue), (1, saturation, set_saturation, with_saturation), (2, value, set_value, with_value));
    accessors!(c, Yuv, "yuv", af, v, (0, y, set_y, with_y), (1, u, set_u, with_u), (2, v, set_v, with_v));
    accessors!(c, Xyz, "xyz", af, v, (0, x, set_x, with_x), (1, y, set_y, with_y), (2, z, set_z, with_z));
    macro_rules! wp {
        ($i:ident, $o:ident) => {{
            accessors!(c, Lab<$i, $o>, "lab", af, v, (0, l, set_l, with_l), (1, a, set_a, with_a), (2, b, set_b, with_b));
            accessors!(c, Lch<$i, $o>, "lch", af, v, (0, l, set_l, with_l), (1, c, set_c, with_c), (2, h, set_h, with_h));
            let n = Lab::<$i, $o>::default().type_name();
            ensure!(n == concat!("lab<", stringify!($i), ",", stringify!($o), ">"), "name:lab", "{}", n);
            let n = Lch::<$i, $o>::default().type_name();
            ensure!(n == concat!("lch<", stringify!($i), ",", stringify!($o), ">"), "name:lch", "{}", n);
        }};
    }
    with_wp!(wp);
    for (n, w) in [
        (Rgb::default().type_name(), "rgb"),
        (Srgb::default().type_name(), "srgb"),
        (Hsl::default().type_name(), "hsl"),
        (Hsv::default().type_name(), "hsv"),
        (Yuv::default().type_name(), "yuv"),
        (Xyz::default().type_name(), "xyz"),
    ] {
        ensure!(n == w, "name", "{} instead of {}", n, w);
    }
    // clamping constructors
    let q = [af[0] * 3.0, af[1], af[2] - 0.5, af[0] * 2.0 + 0.3];
    let cl = q.map(|v| v.clamp(0.0, 1.0));
    c.evals(4);
    ensure!(Rgb::new_with_alpha(q[0], q[1], q[2], q[3]).data == cl, "clamp:rgb", "{:?} -> {:?}", q, Rgb::new_with_alpha(q[0], q[1], q[2], q[3]).data);
    ensure!(Srgb::new_with_alpha(q[0], q[1], q[2], q[3]).data == cl, "clamp:srgb", "{:?}", q);
    ensure!(Rgb::new(q[0], q[1], q[2]).data == [cl[0], cl[1], cl[2], 1.0], "clamp:rgb", "{:?}", q);
    ensure!(Srgb::new(q[0], q[1], q[2]).data == [cl[0], cl[1], cl[2], 1.0], "clamp:srgb", "{:?}", q);
    ensure!(Srgb::new_from_fn(|i| q[i]).data == cl, "clamp:srgb", "new_from_fn {:?}", q);
    let mm = Rgb::new(0.2, 0.5, 0.9).map_color_channels(|v| v * 3.0 - 0.9);
    ensure!(rf::finite01(&mm.data), "clamp:rgb-map", "{:?}", mm.data);
    Ok(())
}

fn c14_predicates(c: &mut Case) -> R {
    let (w, h) = gen::dims(&mut c.rng, 12);
    let n = (w * h) as usize;
    let near = |r: &mut Rng| -> f32 { *r.pick(&[0.0f32, 0.0, 0.3, 0.6, 0.95]) * EPS as f32 };
    let mut data: Vec<Rgb> = vec![];
    for _ in 0..n {
        let v = c.rng.uniform(0.1, 0.9);
        let d = near(&mut c.rng);
        let mut ch = [v, v, v];
        ch[c.rng.usize(3)] += d;
        data.push(Rgb::new_with_alpha(ch[0], ch[1], ch[2], 1.0 - near(&mut c.rng)));
    }
    let mut grey = true;
    let mut transparent = false;
    let i = match c.rng.usize(4) {
        0 => 0,
        1 => n - 1,
        _ => c.rng.usize(n),
    };
    if c.rng.bool() {
        grey = false;
        let k = c.rng.usize(3);
        data[i].data[k] += *c.rng.pick(&[2.1f32, 5.0, 1000.0]) * EPS as f32;
    }
    if c.rng.bool() {
        transparent = true;
        data[i].data[3] = 1.0 - *c.rng.pick(&[1.1f32, 2.0, 1000.0, 32768.0]) * EPS as f32;
    }
    c.evals(6);
    c.count(if grey { "grey images" } else { "coloured images" });
    c.count(if transparent { "transparent images" } else { "opaque images" });
    let buf = PixelBuffer::new_from_raw(w, h, data.clone());
    c.desc(gen::describe(&buf));
    c.distinct(&gen::bits(&buf));
    let img = d10::Image::new_from_raw(w, h, data.clone());
    ensure!(buf.is_grayscale() == grey, "grey:buffer", "is_grayscale {} expected {}", buf.is_grayscale(), grey);
    ensure!(img.is_grayscale() == grey, "grey:image", "is_grayscale {} expected {}", img.is_grayscale(), grey);
    ensure!(buf.has_transparency() == transparent, "transparent:buffer", "has_transparency {} expected {}", buf.has_transparency(), transparent);
    ensure!(img.has_transparency() == transparent, "transparent:image", "has_transparency {} expected {}", img.has_transparency(), transparent);
    ensure!(data[i].is_grayscale() == grey, "grey:color", "{:?}", data[i]);
    ensure!(data[i].has_transparency() == transparent, "transparent:color", "{:?}", data[i]);
    ensure!(buf.to_hsl().has_transparency() == transparent, "transparent:buffer-hsl", "hsl buffer");
    ensure!(buf.to_lab::<D65, O2>().has_transparency() == transparent, "transparent:buffer-lab", "lab buffer");
    ensure!(img.is_empty() == (w == 0) && buf.is_empty() == (w == 0), "is_empty", "{}x{}", w, h);
    Ok(())
}

pub fn c14(m: &mut Mon) {
    m.rule = "pairs of colours in all spaces with channel differences around EPSILON, accessors/constructors/text of generated values (0, 1, rounding ties, tiny, negative, large), images with one deviating pixel around EPSILON; non-trivial: distinct value bits".into();
    let n = m.n(200_000, 10);
    m.cases("equality", n, |c| {
        c14_eq(c, |d| Rgb::new_with_alpha(d[0], d[1], d[2], d[3]), true)?;
        c14_eq(c, |d| Srgb::new_with_alpha(d[0], d[1], d[2], d[3]), true)?;
        c14_eq(c, |d| Hsl::new_with_alpha(d[0], d[1], d[2], d[3]), false)?;
        c14_eq(c, |d| Hsv::new_with_alpha(d[0], d[1], d[2], d[3]), false)?;
        c14_eq(c, |d| Yuv::new_with_alpha(d[0], d[1], d[2], d[3]), false)?;
        c14_eq(c, |d| Xyz::new_with_alpha(d[0], d[1], d[2], d[3]), false)?;
        c14_eq(c, |d| Lab::<D50, O10>::new_with_alpha(d[0], d[1], d[2], d[3]), false)?;
        c14_eq(c, |d| Lab65::new_with_alpha(d[0], d[1], d[2], d[3]), false)?;
        c14_eq(c, |d| Lch65::new_with_alpha(d[0], d[1], d[2], d[3]), false)?;
        Ok(())
    });
    m.cases("accessors", n, c14_access);
    m.cases("predicates", n, c14_predicates);
    let n = m.n(300, 15);
    m.cases("large predicates", n, |c| gen::large(70000, || c14_predicates(c)));
    let n = m.n(8, 8);
    m.cases("huge predicates", n, |c| gen::huge(|| c14_predicates(c)));
    m.serial("constants", 1, |c| {
        c.evals(9);
        let k: [(Rgb, [f32; 4]); 9] = [
            (Rgb::NONE, [0., 0., 0., 0.]),
            (Rgb::BLACK, [0., 0., 0., 1.]),
            (Rgb::WHITE, [1., 1., 1., 1.]),
            (Rgb::RED, [1., 0., 0., 1.]),
            (Rgb::GREEN, [0., 1., 0., 1.]),
            (Rgb::BLUE, [0., 0., 1., 1.]),
            (Rgb::CYAN, [0., 1., 1., 1.]),
            (Rgb::MAGENTA, [1., 0., 1., 1.]),
            (Rgb::YELLOW, [1., 1., 0., 1.]),
        ];
        for (a, b) in k {
            ensure!(a.data == b, "constant", "{:?} {:?}", a, b);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C15

/// compare with a reference evaluated at v and at v +- dv (so steep formulas do not raise alarms)
fn near_fn(got: f32, v: f64, dv: f64, tol: f64, f: impl Fn(f64) -> f64) -> bool {
    let k = [f(v - dv), f(v), f(v + dv)];
    let lo = k.iter().cloned().fold(f64::INFINITY, f64::min) - tol;
    let hi = k.iter().cloned().fold(f64::NEG_INFINITY, f64::max) + tol;
    got.is_finite() && (got as f64) >= lo && (got as f64) <= hi
}

fn check_range(name: &str, rgb: &Rgb, out: &Rgb, alpha: f32) -> R {
    ensure!(rf::finite01(&out.data), format!("{}:range", name), "{} of {:?} gives {:?}", name, rgb.data, out.data);
    ensure!(out.data[3].to_bits() == alpha.to_bits(), format!("{}:alpha", name), "{} of {:?} gives {:?}", name, rgb.data, out.data);
    Ok(())
}

fn check_channels(c: &mut Case, name: &str, rgb: &Rgb, out: Rgb, dv: f64, tol: f64, f: impl Fn(f64) -> f64) -> R {
    c.eval();
    check_range(name, rgb, &out, rgb.alpha())?;
    for i in 0..3 {
        let v = rgb.data[i] as f64;
        ensure!(near_fn(out.data[i], v, dv, tol, &f), name.to_string(), "{} of {:?} gives {:?}; channel {} should be {}", name, rgb.data, out.data, i, f(v));
    }
    Ok(())
}

/// Adjustments going through HSL. Conditioned: exact greys and colours with chroma >= 0.01 are compared
/// with the formula, everything else only for range and alpha.
fn check_hsl(c: &mut Case, name: &str, rgb: &Rgb, out: Rgb, tol: f64, f: impl Fn(rf::P) -> rf::P) -> R {
    c.eval();
    check_range(name, rgb, &out, rgb.alpha())?;
    let r = rf::p(&rgb.data);
    let d = rf::mx(&r) - rf::mn(&r);
    if d == 0.0 || d >= 0.01 {
        let (h0, h1) = (rf::hsl(&r), f(rf::hsl(&r)));
        let want = rf::map3(rf::from_hsl(&h1), rf::c01);
        let e = rf::diff32(&out.data, &want);
        // rounding within EPSILON of the input is amplified by as much as the formula spreads the channels
        let tol = if d == 0.0 {
            tol
        } else {
            let room = |l: f64| 1.0 - (2.0 * l - 1.0).abs();
            tol * (1.2 * room(h1[2]) / room(h0[2]).max(1e-3)).max(1.2 * (rf::mx(&want) - rf::mn(&want)) / d).max(1.0)
        };
        c.max(name, e / tol);
        ensure!(e <= tol, name.to_string(), "{} of {:?} gives {:?}, expected {:?}", name, rgb.data, out.data, want);
    } else {
        c.count("near-grey: range and alpha only");
    }
    Ok(())
}

fn param(r: &mut Rng) -> f32 {
    match r.usize(10) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => 0.5,
        4 => 2.0,
        5 => r.uniform(-0.1, 0.1),
        6 => r.uniform(-50.0, 50.0),
        7 => 1e6 * if r.bool() { 1.0 } else { -1.0 },
        _ => r.uniform(-2.0, 3.0),
    }
}
pub fn gamma(r: &mut Rng) -> f32 {
    match r.usize(8) {
        0 => 1.0,
        1 => 0.01,
        2 => 100.0,
        3 => 2.2,
        4 => 1e-4,
        5 => 1.0 / 2.2,
        _ => 10f32.powf(r.uniform(-1.0, 1.0)),
    }
}

fn c15_case(c: &mut Case) -> R {
    let rgb = gen::color(&mut c.rng);
    let (a, b) = (param(&mut c.rng), param(&mut c.rng));
    let g = gamma(&mut c.rng);
    let (fa, fb, fg) = (a as f64, b as f64, g as f64);
    c.desc(format!("{:?} a={} b={} gamma={}", rgb.data, a, b, g));
    c.distinct(&(gen::cbits(&rgb), a.to_bits(), b.to_bits(), g.to_bits()));
    let t1 = EPS * 0.5;
    let ulp = 1.2e-7;
    check_channels(c, "brightness", &rgb, rgb.with_brightness(a), ulp, t1, |v| rf::c01(v + fa))?;
    check_channels(c, "contrast", &rgb, rgb.with_contrast(a), ulp, t1, |v| rf::c01((v - 0.5) * fa + 0.5))?;
    let k = ulp * (2.0 + 2.0 * fa.abs());
    check_channels(c, "brightness-contrast", &rgb, rgb.with_brightness_contrast(a, b), k, t1 + 1e-6 * fb.abs().min(1.0), |v| rf::c01((v + fa - 0.5) * fb + 0.5))?;
    check_channels(c, "gamma", &rgb, rgb.with_gamma(g), 2.0 * ulp, t1, |v| rf::c01(v).powf(1.0 / fg))?;
    check_channels(c, "gamma-opt", &rgb, rgb.with_gamma_opt(g), 2.0 * ulp, t1, |v| {
        if v > 0.5 {
            rf::c01((v - 0.5) * 2.0).powf(1.0 / fg) / 2.0 + 0.5
        } else {
            rf::c01(v * 2.0).powf(fg) / 2.0
        }
    })?;
    // level
    let r = &mut c.rng;
    let (bp, wp) = match r.usize(7) {
        0 => (0.0, 1.0),
        1 => (0.25, 0.25),
        2 => (r.f32(), r.f32()),
        3 => (1.0, 0.0),
        4 => (0.3, 0.301),
        5 => (r.uniform(-0.5, 0.4), r.uniform(0.6, 1.5)),
        _ => (r.uniform(0.0, 0.5), r.uniform(0.5, 1.0)),
    };
    let diff = (wp - bp) as f64;
    let out = rgb.with_level(bp, wp, g);
    if diff.abs() >= 1e-5 {
        check_channels(c, "level", &rgb, out, 4e-7, t1, |v| rf::c01((v - bp as f64) / diff).powf(1.0 / fg))?;
    } else {
        c.eval();
        check_range("level", &rgb, &out, rgb.alpha())?;
        for i in 0..3 {
            let v = rgb.data[i];
            if wp == bp && (v - bp).abs() > 1e-4 {
                let want = if v < bp { 0.0 } else { 1.0 };
                ensure!(out.data[i] == want, "level:step", "level({},{},{}) of {:?} gives {:?}", bp, wp, g, rgb.data, out.data);
            }
        }
    }
    // HSL based
    let t = |f: f64| (1e-4 * (1.0 + f.abs())).min(0.02);
    check_hsl(c, "saturation", &rgb, rgb.with_saturation(a), t(fa.min(20.0)), |h| [h[0], rf::c01(h[1] * fa), h[2], h[3]])?;
    check_hsl(c, "stretch-saturation", &rgb, rgb.stretch_saturation(a), t(fa.min(20.0)), |h| [h[0], rf::c01((h[1] - 0.5) * fa + 0.5), h[2], h[3]])
        .or_else(|e| if fa.abs() > 20.0 { Ok(()) } else { Err(e) })?;
    {
        // steep powers: only compare where the slope is moderate
        let out = rgb.with_gamma_saturation(g);
        let h = rf::hsl(&rf::p(&rgb.data));
        let e = 1.0 / fg;
        let slope = if h[1] > 1e-9 { e * rf::c01(h[1]).powf(e - 1.0) } else { 0.0 };
        if slope < 20.0 {
            check_hsl(c, "gamma-saturation", &rgb, out, t(slope), |h| [h[0], rf::c01(h[1]).powf(e), h[2], h[3]])?;
        } else {
            check_range("gamma-saturation", &rgb, &out, rgb.alpha())?;
        }
    }
    check_hsl(c, "lightness", &rgb, rgb.with_lightness(a), t(fa.min(20.0)), |h| [h[0], h[1], rf::c01(h[2] * fa), h[3]])
        .or_else(|e| if fa.abs() > 20.0 { Ok(()) } else { Err(e) })?;
    let deg = match c.rng.usize(6) {
        0 => c.rng.range(-12, 12) as f32 * 60.0,
        1 => c.rng.range(-5, 5) as f32 * 360.0,
        2 => c.rng.uniform(-360.0, 360.0),
        3 => c.rng.uniform(-5000.0, 5000.0),
        _ => c.rng.uniform(-720.0, 720.0),
    };
    check_hsl(c, "hue-rotate", &rgb, rgb.with_hue_rotate(deg), 3e-4 + 2e-6 * deg.abs() as f64 / 3.6, |h| [h[0] + deg as f64 / 360.0, h[1], h[2], h[3]])?;
    let (mh, ms, ml) = (c.rng.uniform(0.0, 2.0), c.rng.uniform(0.0, 2.0), c.rng.uniform(0.0, 2.0));
    {
        // hue 1.0 and 0.0 are the same colour, but not when scaled: skip the seam
        let h = rf::hsl(&rf::p(&rgb.data));
        let out = rgb.modulate(mh, ms, ml);
        if h[0] > 0.001 && h[0] < 0.999 {
            check_hsl(c, "modulate", &rgb, out, 1e-3, |h| [rf::c01(h[0] * mh as f64), rf::c01(h[1] * ms as f64), rf::c01(h[2] * ml as f64), h[3]])?;
        } else {
            check_range("modulate", &rgb, &out, rgb.alpha())?;
        }
    }
    let vf = if fa.abs() > 20.0 { 1.5f32 } else { a };
    check_hsl(c, "vibrance", &rgb, rgb.with_vibrance(vf), 3e-4 * (1.0 + vf.abs() as f64), |h| {
        let pi = std::f64::consts::PI;
        let sc = vf as f64 * ((h[0] * pi).sin() * 1.5).min(1.0);
        [h[0], rf::c01(h[1] + (h[1] * pi).sin() * sc), h[2], h[3]]
    })?;
    // direct formulas
    let p = rf::p(&rgb.data);
    let dir = |c: &mut Case, name: &str, out: Rgb, want: [f64; 4]| -> R {
        c.eval();
        let e = rf::diff32(&out.data, &want);
        ensure!(rf::finite01(&out.data), format!("{}:range", name), "{} of {:?} gives {:?}", name, rgb.data, out.data);
        ensure!(e <= EPS, name.to_string(), "{} of {:?} gives {:?}, expected {:?}", name, rgb.data, out.data, want);
        ensure!(out.data[3].to_bits() == (want[3] as f32).to_bits(), format!("{}:alpha", name), "{} of {:?} gives {:?}", name, rgb.data, out.data);
        Ok(())
    };
    let sep = |m: [f64; 3]| rf::c01(m[0] * p[0] + m[1] * p[1] + m[2] * p[2]);
    dir(c, "sepia", rgb.with_sepia(), [sep([0.393, 0.769, 0.189]), sep([0.349, 0.686, 0.168]), sep([0.272, 0.534, 0.131]), p[3]])?;
    dir(c, "invert", rgb.invert(), [1.0 - p[0], 1.0 - p[1], 1.0 - p[2], p[3]])?;
    let o = gen::color(&mut c.rng);
    let q = rf::p(&o.data);
    dir(c, "difference", rgb.difference(&o), [(p[0] - q[0]).abs(), (p[1] - q[1]).abs(), (p[2] - q[2]).abs(), 1.0])?;
    use Intensity::*;
    for (i, n) in [Average, Rec601Luma, Rec709Luma, Brightness, Lightness, Saturation, Red, Green, Blue].into_iter().zip(
        ["average", "rec601luma", "rec709luma", "brightness", "lightness", "saturation", "red", "green", "blue"],
    ) {
        let out = rgb.to_gray_with_intensity(i);
        c.eval();
        ensure!(out.data[0].to_bits() == out.data[1].to_bits() && out.data[1].to_bits() == out.data[2].to_bits(), format!("gray:{}", n), "gray {} of {:?} gives {:?}", n, rgb.data, out.data);
        ensure!(out.data.iter().all(|v| v.is_finite() && *v >= 0.0 && *v as f64 <= 1.0 + 1e-6), format!("gray:{}", n), "gray {} of {:?} gives {:?}", n, rgb.data, out.data);
        ensure!(out.alpha().to_bits() == rgb.alpha().to_bits(), format!("gray-alpha:{}", n), "gray {} of {:?} gives {:?}", n, rgb.data, out.data);
        let h = rf::hsl(&p);
        let d = rf::mx(&p) - rf::mn(&p);
        let want = match i {
            Average => (p[0] + p[1] + p[2]) / 3.0,
            Rec601Luma => 0.299 * p[0] + 0.587 * p[1] + 0.114 * p[2],
            Rec709Luma => 0.2126 * p[0] + 0.7152 * p[1] + 0.0722 * p[2],
            Brightness => rf::mx(&p),
            Lightness => (rf::mx(&p) + rf::mn(&p)) / 2.0,
            Saturation => h[1],
            Red => p[0],
            Green => p[1],
            Blue => p[2],
        };
        let tol = match i {
            Rec601Luma => 5e-4,
            Rec709Luma => 2e-4,
            Saturation => {
                if d == 0.0 || d >= 0.01 {
                    4.0 * EPS / (1.0 - (2.0 * h[2] - 1.0).abs()).max(0.01)
                } else {
                    1.0
                }
            }
            _ => EPS,
        };
        ensure!((out.data[0] as f64 - want).abs() <= tol, format!("gray:{}", n), "gray {} of {:?} gives {:?}, expected {}", n, rgb.data, out.data, want);
        if i == Rec709Luma {
            let g = rgb.to_gray();
            ensure!(gen::cbits(&g) == gen::cbits(&out), "gray:default", "to_gray of {:?} gives {:?}", rgb.data, g.data);
        }
    }
    // min / max helpers and channel mapping
    c.evals(3);
    ensure!(rgb.max() as f64 == rf::mx(&p) && rgb.min() as f64 == rf::mn(&p), "min-max", "{:?}: {} {}", rgb.data, rgb.min(), rgb.max());
    let mp = rgb.map_channels(|v| v * 3.0 - 1.0);
    dir(c, "map_channels", mp, [rf::c01(p[0] * 3.0 - 1.0), rf::c01(p[1] * 3.0 - 1.0), rf::c01(p[2] * 3.0 - 1.0), p[3]])?;
    let mu = rgb.map_channels_unclamped(|v| v * 3.0 - 1.0);
    ensure!(rf::diff32(&mu.data, &[p[0] * 3.0 - 1.0, p[1] * 3.0 - 1.0, p[2] * 3.0 - 1.0, p[3]]) < EPS, "map_channels_unclamped", "{:?} -> {:?}", rgb.data, mu.data);
    let mut mm = rgb;
    mm.mod_color_channels(|v| 1.0 - v);
    ensure!(rf::diff32(&mm.data, &[1.0 - p[0], 1.0 - p[1], 1.0 - p[2], p[3]]) < EPS, "mod_color_channels", "{:?} -> {:?}", rgb.data, mm.data);
    // alpha composition
    let ab = rgb.alpha_blend(o);
    let mixc = |i: usize| q[i] * q[3] + (1.0 - q[3]) * p[i];
    dir(c, "alpha_blend", Rgb { data: [ab.data[0], ab.data[1], ab.data[2], 0.0] }, [mixc(0), mixc(1), mixc(2), 0.0])?;
    ensure!((ab.alpha() as f64 - (p[3] + q[3]).min(1.0)).abs() < EPS, "alpha_blend:alpha", "{:?} with {:?} -> {:?}", rgb.data, o.data, ab.data);
    Ok(())
}

pub fn c15(m: &mut Mon) {
    m.rule = "generated colours x generated parameters (neutral, zero, negative, large, degenerate black/white points, multiple turns) through every adjustment, compared with f64 formulas; non-trivial: distinct (colour, parameters)".into();
    m.assumptions.push("HSL based formulas are compared for exact greys and for colours with chroma >= 0.01; nearer to grey the HSL hue is ill-conditioned and only range and alpha are judged".into());
    m.assumptions.push("parameters are finite; gammas are positive".into());
    let n = m.n(2_000_000, 20);
    m.cases("adjust", n, c15_case);
}

// ------------------------------------------------------------------------------------------- C16

fn c16_color(c: &mut Case) -> R {
    let rgb = gen::color(&mut c.rng);
    c.desc(format!("{:?}", rgb.data));
    c.distinct(&gen::cbits(&rgb));
    let near = |c: &mut Case, name: &str, out: Rgb, want: Rgb, tol: f64| -> R {
        c.eval();
        let d = maxd(&out.data, &want.data);
        c.max(name, d);
        ensure!(d <= tol, name.to_string(), "{}: {:?} became {:?}, expected {:?} (off by {:.2e})", name, rgb.data, out.data, want.data, d);
        Ok(())
    };
    let e = EPS + 1e-6;
    near(c, "gamma 1", rgb.with_gamma(1.0), rgb, e)?;
    near(c, "gamma-opt 1", rgb.with_gamma_opt(1.0), rgb, e)?;
    near(c, "level 0 1 1", rgb.with_level(0.0, 1.0, 1.0), rgb, e)?;
    near(c, "brightness 0", rgb.with_brightness(0.0), rgb, e)?;
    near(c, "contrast 1", rgb.with_contrast(1.0), rgb, e)?;
    near(c, "brightness-contrast 0 1", rgb.with_brightness_contrast(0.0, 1.0), rgb, e)?;
    near(c, "saturation 1", rgb.with_saturation(1.0), rgb, e)?;
    near(c, "stretch 1", rgb.stretch_saturation(1.0), rgb, e)?;
    near(c, "gamma-saturation 1", rgb.with_gamma_saturation(1.0), rgb, e)?;
    near(c, "lightness 1", rgb.with_lightness(1.0), rgb, e)?;
    let turns = c.rng.range(-6, 6) as f32;
    near(c, "hue 360k", rgb.with_hue_rotate(360.0 * turns), rgb, e)?;
    near(c, "modulate 1 1 1", rgb.modulate(1.0, 1.0, 1.0), rgb, e)?;
    near(c, "vibrance 0", rgb.with_vibrance(0.0), rgb, e)?;
    near(c, "invert twice", rgb.invert().invert(), rgb, e)?;
    let up = gen::color(&mut c.rng);
    {
        use d10_ops::*;
        let fs: [(&str, fn(Rgb, Rgb, f32) -> Rgb, f64); 12] = [
            ("normal", blend_normal, e),
            ("addition", blend_addition, e),
            ("subtract", blend_subtract, e),
            ("darken", blend_darken, e),
            ("lighten", blend_lighten, e),
            ("hsl_darken", blend_hsl_darken, e),
            ("hsl_lighten", blend_hsl_lighten, e),
            ("lch_darken", blend_lch_darken, 1e-3),
            ("lch_lighten", blend_lch_lighten, 1e-3),
            ("lch_hue", blend_lch_hue, 1e-3),
            ("lch_saturation", blend_lch_saturation, 1e-3),
            ("lch_color", blend_lch_color, 1e-3),
        ];
        for (n, f, tol) in fs {
            let mut out = f(rgb, up, 0.0);
            out.data[3] = rgb.data[3];
            near(c, &format!("blend {} intensity 0", n), out, rgb, tol)?;
        }
    }
    // algebra away from clamping
    let g = 10f32.powf(c.rng.uniform(-0.6, 0.6));
    let mid = Rgb::new_with_alpha(c.rng.uniform(0.02, 1.0), c.rng.uniform(0.02, 1.0), c.rng.uniform(0.02, 1.0), rgb.alpha());
    near(c, "gamma g, 1/g", mid.with_gamma(g).with_gamma(1.0 / g), mid, 2e-4)?;
    {
        // far from 1: what f32 leaves of the value in between
        let g = 10f32.powf(c.rng.uniform(-3.0, 3.0));
        let out = mid.with_gamma(g).with_gamma(1.0 / g);
        for i in 0..3 {
            let v = mid.data[i] as f64;
            if v.powf(1.0 / g as f64) > 1e-30 {
                c.eval();
                let tol = 2e-4 + v * (g as f64) * 4e-7;
                ensure!((out.data[i] as f64 - v).abs() <= tol, "gamma g, 1/g", "gamma {} then {}: {} became {}", g, 1.0 / g, v, out.data[i]);
            }
        }
    }
    let turn = if c.rng.chance(0.2) { 3600.0 } else { 720.0 };
    let (a, b) = (c.rng.uniform(-turn, turn), c.rng.uniform(-turn, turn));
    near(c, "hue a then b", mid.with_hue_rotate(a).with_hue_rotate(b), mid.with_hue_rotate(a + b), 5e-4)?;
    {
        let br = c.rng.uniform(-0.2, 0.2);
        let ct = c.rng.uniform(0.0, 3.0);
        let m2 = Rgb::new_with_alpha(c.rng.uniform(0.2, 0.8), c.rng.uniform(0.2, 0.8), c.rng.uniform(0.2, 0.8), rgb.alpha());
        near(c, "brightness then contrast", m2.with_brightness(br).with_contrast(ct), m2.with_brightness_contrast(br, ct), e)?;
    }
    let g1 = rgb.to_gray();
    near(c, "gray twice", g1.to_gray(), g1, e)?;
    use Intensity::*;
    for i in [Average, Rec601Luma, Rec709Luma, Brightness, Lightness, Red, Green, Blue] {
        let g1 = rgb.to_gray_with_intensity(i);
        near(c, "gray twice", g1.to_gray_with_intensity(i), g1, e)?;
        ensure!(g1.is_grayscale(), "gray is grey", "{:?} -> {:?}", rgb.data, g1.data);
    }
    // monotone in the input
    let (u, v) = (gen::channel(&mut c.rng), gen::channel(&mut c.rng));
    let (lo, hi) = (u.min(v), u.max(v));
    let x = Rgb::new(lo, lo, lo);
    let y = Rgb::new(hi, hi, hi);
    let gm = gamma(&mut c.rng);
    let bp = c.rng.uniform(0.0, 0.5);
    let wp = bp + c.rng.uniform(0.001, 0.5);
    let ct = c.rng.uniform(0.0, 10.0);
    let br = c.rng.uniform(-1.0, 1.0);
    for (n, p, q) in [
        ("gamma", x.with_gamma(gm), y.with_gamma(gm)),
        ("gamma-opt", x.with_gamma_opt(gm), y.with_gamma_opt(gm)),
        ("level", x.with_level(bp, wp, gm), y.with_level(bp, wp, gm)),
        ("contrast", x.with_contrast(ct), y.with_contrast(ct)),
        ("brightness", x.with_brightness(br), y.with_brightness(br)),
        ("brightness-contrast", x.with_brightness_contrast(br, ct), y.with_brightness_contrast(br, ct)),
    ] {
        c.eval();
        ensure!(p.data[0] <= q.data[0] + 2e-6, format!("monotone:{}", n), "{}: {} -> {}, {} -> {}", n, lo, p.data[0], hi, q.data[0]);
    }
    // reversed: decreasing
    for (n, p, q) in [("reversed level", x.with_level(wp, bp, gm), y.with_level(wp, bp, gm)), ("negative contrast", x.with_contrast(-ct), y.with_contrast(-ct)), ("negative brightness-contrast", x.with_brightness_contrast(br, -ct), y.with_brightness_contrast(br, -ct))] {
        c.eval();
        ensure!(p.data[0] >= q.data[0] - 2e-6, format!("monotone:{}", n), "{}: {} -> {}, {} -> {}", n, lo, p.data[0], hi, q.data[0]);
    }
    // beyond the range of colours
    let (bp, wp) = (c.rng.uniform(-3.0, 0.5), c.rng.uniform(0.51, 3.0));
    let (p, q) = (x.with_level(bp, wp, gm), y.with_level(bp, wp, gm));
    c.eval();
    ensure!(p.data[0] <= q.data[0] + 2e-6, "monotone:level", "level({}, {}, {}): {} -> {}, {} -> {}", bp, wp, gm, lo, p.data[0], hi, q.data[0]);
    Ok(())
}

fn c16_image(c: &mut Case) -> R {
    let buf = gen::image_or_empty(&mut c.rng, 14);
    c.desc(gen::describe(&buf));
    if gen::nontrivial(&buf) {
        c.distinct(&gen::bits(&buf));
    }
    let img = d10::Image::new_from_buffer(buf.clone());
    let same = |c: &mut Case, name: &str, out: &gen::Buf, tol: f64| -> R {
        c.eval();
        ensure!(out.width() == buf.width() && out.height() == buf.height(), format!("{}:size", name), "{}x{}", out.width(), out.height());
        for (i, (a, b)) in out.data().iter().zip(buf.data()).enumerate() {
            let d = maxd(&a.data, &b.data);
            ensure!(d <= tol, name.to_string(), "{}: pixel {} {:?} became {:?}", name, i, b.data, a.data);
        }
        Ok(())
    };
    let e = EPS + 1e-6;
    same(c, "random_noise 0", img.random_noise(0.0).buffer(), e)?;
    same(c, "gaussian_noise 0", img.gaussian_noise(0.0).buffer(), e)?;
    same(c, "salt_n_pepper 0", img.salt_n_pepper_noise(0.0).buffer(), 0.0)?;
    same(c, "rgb_noise 0", img.rgb_noise(0.0).buffer(), 0.0)?;
    let mut i2 = d10::Image::new_from_buffer(buf.clone());
    i2.add_random_noise(0.0);
    i2.add_gaussian_noise(0.0);
    i2.add_salt_n_pepper_noise(0.0);
    i2.add_rgb_noise(0.0);
    same(c, "add noise 0", i2.buffer(), 2.0 * e)?;
    for f in [d10::FilterMode::Nearest, d10::FilterMode::Bilinear, d10::FilterMode::Bicubic, d10::FilterMode::Lanczos3, d10::FilterMode::Auto] {
        same(c, "resize same", img.resize(buf.width(), buf.height(), f).buffer(), 0.0)?;
    }
    if !buf.is_empty() {
        let rad = c.rng.range(0, 4) as u32;
        let sig = if c.rng.bool() { None } else { Some(c.rng.uniform(0.3, 3.0)) };
        same(c, "unsharp 0", img.unsharp(rad, 0.0, sig).buffer(), e)?;
        let other = gen::image(&mut c.rng, 14);
        let o = d10::Image::new_from_buffer(other.clone());
        use d10_ops::BlendOp::*;
        for op in [Normal, Addition, Subtract, Darken, Lighten, HslDarken, HslLighten, LchDarken, LchLighten, LchHue, LchSaturation, LchColor] {
            let n = format!("blend {:?} 0", op);
            let out = img.blend(&o, op, 0.0);
            c.eval();
            for y in 0..buf.height() {
                for x in 0..buf.width() {
                    let mut q = *out.get_pixel(x, y);
                    let w = *buf.get_pixel(x, y);
                    q.data[3] = w.data[3];
                    let d = maxd(&q.data, &w.data);
                    ensure!(d <= 1e-3, n, "pixel {},{}: {:?} became {:?}", x, y, w.data, q.data);
                }
            }
        }
        same(c, "optimize_lightness 0", img.optimize_lightness(0.0).buffer(), e)?;
        let t = c.rng.uniform(1000.0, 12000.0);
        same(c, "temperature same", img.change_color_temperature(t, t, 0.0).buffer(), e)?;
    }
    Ok(())
}

pub fn c16(m: &mut Mon) {
    m.rule = "generated colours and images through every neutral parameter, inverse pair, composition law, idempotence and monotonicity relation; non-trivial: distinct colours / non-uniform images".into();
    let n = m.n(1_000_000, 20);
    m.cases("colors", n, c16_color);
    let n = m.n(40_000, 20);
    m.cases("images", n, c16_image);
    let n = m.n(60, 15);
    m.cases("large images", n, |c| gen::large(20000, || c16_image(c)));
}
