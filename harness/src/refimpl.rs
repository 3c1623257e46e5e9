//! Independent f64 reference implementations of the colour definitions.
#![allow(dead_code)]

pub fn lin(v: f64) -> f64 {
    if v > 0.04045 {
        ((v + 0.055) / 1.055).powf(2.4)
    } else {
        v / 12.92
    }
}
pub fn gam(v: f64) -> f64 {
    if v > 0.0031308 {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    } else {
        12.92 * v
    }
}
pub fn c01(v: f64) -> f64 {
    v.clamp(0.0, 1.0)
}
pub type P = [f64; 4];
pub fn p(d: &[f32]) -> P {
    [d[0] as f64, d[1] as f64, d[2] as f64, d[3] as f64]
}
pub fn map3(c: P, f: impl Fn(f64) -> f64) -> P {
    [f(c[0]), f(c[1]), f(c[2]), c[3]]
}
pub fn mx(c: &P) -> f64 {
    c[0].max(c[1]).max(c[2])
}
pub fn mn(c: &P) -> f64 {
    c[0].min(c[1]).min(c[2])
}
/// hue as a fraction of a turn
pub fn hue(c: &P) -> f64 {
    let (max, min) = (mx(c), mn(c));
    let d = max - min;
    if d <= 0.0 {
        return 0.0;
    }
    let h = if c[0] >= max {
        (c[1] - c[2]) / d
    } else if c[1] >= max {
        2.0 + (c[2] - c[0]) / d
    } else {
        4.0 + (c[0] - c[1]) / d
    };
    (h / 6.0).rem_euclid(1.0)
}
pub fn hsl(c: &P) -> P {
    let (max, min) = (mx(c), mn(c));
    let l = (max + min) / 2.0;
    let d = max - min;
    let s = if d <= 0.0 {
        0.0
    } else {
        d / (1.0 - (2.0 * l - 1.0).abs())
    };
    [hue(c), s, l, c[3]]
}
/// chroma based (not p/q based) so it is independent of the implementation under test
pub fn from_hsl(c: &P) -> P {
    let (h, s, l) = (c[0].rem_euclid(1.0), c[1], c[2]);
    let ch = (1.0 - (2.0 * l - 1.0).abs()) * s;
    hue_chroma(h, ch, l - ch / 2.0, c[3])
}
fn hue_chroma(h: f64, ch: f64, m: f64, a: f64) -> P {
    let h6 = h * 6.0;
    let x = ch * (1.0 - (h6.rem_euclid(2.0) - 1.0).abs());
    let (r, g, b) = match h6 as i32 {
        0 => (ch, x, 0.0),
        1 => (x, ch, 0.0),
        2 => (0.0, ch, x),
        3 => (0.0, x, ch),
        4 => (x, 0.0, ch),
        _ => (ch, 0.0, x),
    };
    [r + m, g + m, b + m, a]
}
pub fn hsv(c: &P) -> P {
    let (max, min) = (mx(c), mn(c));
    [hue(c), if max > 0.0 { (max - min) / max } else { 0.0 }, max, c[3]]
}
pub fn from_hsv(c: &P) -> P {
    let ch = c[2] * c[1];
    hue_chroma(c[0].rem_euclid(1.0), ch, c[2] - ch, c[3])
}
pub fn srgb(c: &P) -> P {
    map3(*c, gam)
}
pub fn yuv(c: &P) -> P {
    let s = srgb(c);
    let y = 0.299 * s[0] + 0.587 * s[1] + 0.114 * s[2];
    // U = 0.436 (B - Y) / (1 - 0.114), V = 0.615 (R - Y) / (1 - 0.299)
    [y, 0.436_010_36 / 0.886 * (s[2] - y), 0.614_975_4 / 0.701 * (s[0] - y), c[3]]
}
pub fn from_yuv(c: &P) -> P {
    let (ku, kv) = (0.436_010_36 / 0.886, 0.614_975_4 / 0.701);
    let b = c[0] + c[1] / ku;
    let r = c[0] + c[2] / kv;
    let g = (c[0] - 0.299 * r - 0.114 * b) / 0.587;
    [lin(c01(r)), lin(c01(g)), lin(c01(b)), c[3]]
}
pub const XYZ: [[f64; 3]; 3] = [
    [0.412_453, 0.357_580, 0.180_423],
    [0.212_671, 0.715_160, 0.072_169],
    [0.019_334, 0.119_193, 0.950_227],
];
pub fn xyz(c: &P) -> P {
    let f = |r: usize| XYZ[r][0] * c[0] + XYZ[r][1] * c[1] + XYZ[r][2] * c[2];
    [f(0), f(1), f(2), c[3]]
}
pub fn inv3(m: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    let c = |a: usize, b: usize, e: usize, f: usize| m[a][b] * m[e][f];
    [
        [(c(1, 1, 2, 2) - c(1, 2, 2, 1)) / d, (c(0, 2, 2, 1) - c(0, 1, 2, 2)) / d, (c(0, 1, 1, 2) - c(0, 2, 1, 1)) / d],
        [(c(1, 2, 2, 0) - c(1, 0, 2, 2)) / d, (c(0, 0, 2, 2) - c(0, 2, 2, 0)) / d, (c(0, 2, 1, 0) - c(0, 0, 1, 2)) / d],
        [(c(1, 0, 2, 1) - c(1, 1, 2, 0)) / d, (c(0, 1, 2, 0) - c(0, 0, 2, 1)) / d, (c(0, 0, 1, 1) - c(0, 1, 1, 0)) / d],
    ]
}
/// XYZ to linear RGB, clamped
pub fn from_xyz(c: &P) -> P {
    let m = inv3(&XYZ);
    let f = |r: usize| c01(m[r][0] * c[0] + m[r][1] * c[1] + m[r][2] * c[2]);
    [f(0), f(1), f(2), c[3]]
}
pub const D50_2: [f64; 3] = [0.96421, 1.0, 0.82519];
pub const D50_10: [f64; 3] = [0.96721, 1.0, 0.81428];
pub const D65_2: [f64; 3] = [0.95047, 1.0, 1.08883];
pub const D65_10: [f64; 3] = [0.94810, 1.0, 1.07305];
pub const E_ANY: [f64; 3] = [1.0, 1.0, 1.0];

fn labf(t: f64) -> f64 {
    if t > 216.0 / 24389.0 {
        t.cbrt()
    } else {
        (24389.0 / 27.0 * t + 16.0) / 116.0
    }
}
fn labfi(t: f64) -> f64 {
    if t > 6.0 / 29.0 {
        t * t * t
    } else {
        (116.0 * t - 16.0) * 27.0 / 24389.0
    }
}
/// (L/100, a/128, b/128)
pub fn lab(c: &P, w: &[f64; 3]) -> P {
    let x = xyz(c);
    let (fx, fy, fz) = (labf(x[0] / w[0]), labf(x[1] / w[1]), labf(x[2] / w[2]));
    [(116.0 * fy - 16.0) / 100.0, 500.0 * (fx - fy) / 128.0, 200.0 * (fy - fz) / 128.0, c[3]]
}
pub fn from_lab(c: &P, w: &[f64; 3]) -> P {
    let fy = (c[0] * 100.0 + 16.0) / 116.0;
    let fx = fy + c[1] * 128.0 / 500.0;
    let fz = fy - c[2] * 128.0 / 200.0;
    from_xyz(&[labfi(fx) * w[0], labfi(fy) * w[1], labfi(fz) * w[2], c[3]])
}
pub fn lch(c: &P, w: &[f64; 3]) -> P {
    let l = lab(c, w);
    [l[0], (l[1] * l[1] + l[2] * l[2]).sqrt(), l[2].atan2(l[1]), c[3]]
}
pub fn from_lch(c: &P, w: &[f64; 3]) -> P {
    from_lab(&[c[0], c[1] * c[2].cos(), c[1] * c[2].sin(), c[3]], w)
}
/// circular distance of two angles given as fractions of a turn
pub fn turn_dist(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(1.0);
    d.min(1.0 - d)
}
pub fn max_diff(a: &P, b: &P) -> f64 {
    // NaN safe: a NaN anywhere is an infinite difference
    let mut m = 0f64;
    for i in 0..4 {
        let d = (a[i] - b[i]).abs();
        if d.is_nan() {
            return f64::INFINITY;
        }
        m = m.max(d);
    }
    m
}
pub fn diff32(a: &[f32; 4], b: &P) -> f64 {
    max_diff(&p(a), b)
}
pub fn finite01(d: &[f32; 4]) -> bool {
    d.iter().all(|v| v.is_finite() && (0.0..=1.0).contains(v))
}
/// Rec.709 luminance
pub fn luma(c: &P) -> f64 {
    0.212_656 * c[0] + 0.715_158 * c[1] + 0.072_186 * c[2]
}
