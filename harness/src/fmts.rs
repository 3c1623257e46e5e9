//! Independent readers and writers of the image formats: header inspection, sample extraction and
//! generators of well-formed files whose pixels are known.
#![allow(dead_code)]
use crate::fw::Rng;
use std::io::{Read, Write};

/// Samples of a decoded file: `ch` channels per pixel (1 grey, 2 grey+alpha, 3 rgb, 4 rgba), levels of `depth` bits
#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub w: u32,
    pub h: u32,
    pub ch: usize,
    pub depth: u32,
    pub v: Vec<u16>,
}

impl Raw {
    pub fn max(&self) -> f64 {
        ((1u32 << self.depth) - 1) as f64
    }
    /// sRGB values 0..1 of pixel i as rgba
    pub fn rgba(&self, i: usize) -> [f64; 4] {
        let m = self.max();
        let q = |k: usize| self.v[i * self.ch + k] as f64 / m;
        match self.ch {
            1 => [q(0), q(0), q(0), 1.0],
            2 => [q(0), q(0), q(0), q(1)],
            3 => [q(0), q(1), q(2), 1.0],
            _ => [q(0), q(1), q(2), q(3)],
        }
    }
    pub fn len(&self) -> usize {
        self.w as usize * self.h as usize
    }
}

pub fn be32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn be16(b: &[u8], o: usize) -> u32 {
    u16::from_be_bytes([b[o], b[o + 1]]) as u32
}
pub fn le32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn le16(b: &[u8], o: usize) -> u32 {
    u16::from_le_bytes([b[o], b[o + 1]]) as u32
}

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(b);
    c.sum()
}

// ------------------------------------------------------------------------------------------- PNG

pub struct Png {
    pub raw: Raw,
    pub color_type: u8,
    pub bit_depth: u8,
    pub interlace: u8,
    pub filters: Vec<u8>,
    pub idat_len: usize,
}

pub fn png_chunks(b: &[u8]) -> Result<Vec<(String, usize, usize)>, String> {
    if b.len() < 8 || b[..8] != [0x89, b'P', b'N', b'G', 13, 10, 26, 10] {
        return Err("no png signature".into());
    }
    let mut o = 8;
    let mut out = vec![];
    while o < b.len() {
        if o + 12 > b.len() {
            return Err("truncated chunk".into());
        }
        let n = be32(b, o) as usize;
        if o + 12 + n > b.len() {
            return Err("truncated chunk data".into());
        }
        if crc32(&b[o + 4..o + 8 + n]) != be32(b, o + 8 + n) {
            return Err("bad crc".into());
        }
        out.push((String::from_utf8_lossy(&b[o + 4..o + 8]).to_string(), o + 8, n));
        o += 12 + n;
    }
    Ok(out)
}

/// Full reader for non-interlaced 8/16 bit non-palette files (what the library writes)
pub fn png_read(b: &[u8]) -> Result<Png, String> {
    let ch = png_chunks(b)?;
    if ch.is_empty() || ch[0].0 != "IHDR" || ch[0].2 != 13 {
        return Err("no IHDR".into());
    }
    if ch.last().unwrap().0 != "IEND" {
        return Err("no IEND at the end".into());
    }
    let h0 = ch[0].1;
    let (w, h) = (be32(b, h0), be32(b, h0 + 4));
    let (bd, ct, il) = (b[h0 + 8], b[h0 + 9], b[h0 + 12]);
    let chn = match ct {
        0 => 1,
        4 => 2,
        2 => 3,
        6 => 4,
        _ => return Err(format!("colour type {}", ct)),
    };
    if il != 0 || (bd != 8 && bd != 16) {
        return Err(format!("depth {} interlace {}", bd, il));
    }
    let mut z = vec![];
    for c in ch.iter().filter(|c| c.0 == "IDAT") {
        z.extend_from_slice(&b[c.1..c.1 + c.2]);
    }
    let mut d = vec![];
    flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut d).map_err(|e| format!("inflate: {}", e))?;
    let bpp = chn * bd as usize / 8;
    let stride = bpp * w as usize;
    if d.len() != (stride + 1) * h as usize {
        return Err(format!("{} bytes of image data instead of {}", d.len(), (stride + 1) * h as usize));
    }
    let mut out = vec![0u8; stride * h as usize];
    let mut filters = vec![];
    for y in 0..h as usize {
        let f = d[y * (stride + 1)];
        filters.push(f);
        for i in 0..stride {
            let x = d[y * (stride + 1) + 1 + i];
            let a = if i >= bpp { out[y * stride + i - bpp] } else { 0 };
            let u = if y > 0 { out[(y - 1) * stride + i] } else { 0 };
            let ul = if y > 0 && i >= bpp { out[(y - 1) * stride + i - bpp] } else { 0 };
            let p = match f {
                0 => 0,
                1 => a,
                2 => u,
                3 => ((a as u16 + u as u16) / 2) as u8,
                4 => paeth(a, u, ul),
                _ => return Err(format!("filter {}", f)),
            };
            out[y * stride + i] = x.wrapping_add(p);
        }
    }
    let v = if bd == 8 {
        out.iter().map(|v| *v as u16).collect()
    } else {
        out.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()
    };
    Ok(Png { raw: Raw { w, h, ch: chn, depth: bd as u32, v }, color_type: ct, bit_depth: bd, interlace: il, filters, idat_len: z.len() })
}

fn paeth(a: u8, b: u8, c: u8) -> u8 {
    let p = a as i32 + b as i32 - c as i32;
    let (pa, pb, pc) = ((p - a as i32).abs(), (p - b as i32).abs(), (p - c as i32).abs());
    if pa <= pb && pa <= pc {
        a
    } else if pb <= pc {
        b
    } else {
        c
    }
}

pub fn png_chunk(out: &mut Vec<u8>, name: &[u8; 4], data: &[u8]) {
    out.extend_from_slice(&(data.len() as u32).to_be_bytes());
    let s = out.len();
    out.extend_from_slice(name);
    out.extend_from_slice(data);
    let c = crc32(&out[s..]);
    out.extend_from_slice(&c.to_be_bytes());
}

pub fn zlib(d: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

fn filter_row(f: u8, cur: &[u8], prev: Option<&[u8]>, bpp: usize) -> Vec<u8> {
    let mut o = vec![f];
    for i in 0..cur.len() {
        let a = if i >= bpp { cur[i - bpp] } else { 0 };
        let u = prev.map(|p| p[i]).unwrap_or(0);
        let ul = if i >= bpp { prev.map(|p| p[i - bpp]).unwrap_or(0) } else { 0 };
        let p = match f {
            0 => 0,
            1 => a,
            2 => u,
            3 => ((a as u16 + u as u16) / 2) as u8,
            _ => paeth(a, u, ul),
        };
        o.push(cur[i].wrapping_sub(p));
    }
    o
}

/// A file with known pixels
pub struct Known {
    pub kind: String,
    pub bytes: Vec<u8>,
    pub w: u32,
    pub h: u32,
    /// expected sRGB rgba values, tolerance in sRGB units
    pub px: Vec<[f64; 4]>,
    pub tol: f64,
}

/// Well-formed PNG of any colour type, depth, filter mix and interlacing
pub fn gen_png(r: &mut Rng, w: u32, h: u32) -> Known {
    let (ct, bd) = *r.pick(&[(0u8, 1u8), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]);
    let il = r.chance(0.4) as u8;
    let chn = [1, 0, 3, 1, 2, 0, 4][ct as usize];
    let m = (1u32 << bd) - 1;
    let n = (w * h) as usize;
    let pal_n = if ct == 3 { 1 + r.usize((m as usize + 1).min(256)) } else { 0 };
    let pal: Vec<[u8; 3]> = (0..pal_n).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]).collect();
    let noisy = r.bool();
    let mut cur = [0u32; 4];
    let s: Vec<u16> = (0..n * chn)
        .map(|i| {
            let k = i % chn;
            let lim = if ct == 3 { pal_n as u32 } else { m + 1 };
            if noisy || r.chance(0.2) {
                cur[k] = r.below(lim as u64) as u32;
            }
            cur[k] as u16
        })
        .collect();
    let mut trns: Vec<u8> = vec![];
    let tr = r.chance(0.5);
    if tr && ct == 3 {
        trns = (0..1 + r.usize(pal_n)).map(|_| r.below(256) as u8).collect();
    } else if tr && (ct == 0 || ct == 2) {
        // use an existing pixel's colour so that it matters
        let i = if n > 0 { r.usize(n) } else { 0 };
        for k in 0..chn {
            trns.extend_from_slice(&s[i * chn + k].to_be_bytes());
        }
    }
    let px: Vec<[f64; 4]> = (0..n)
        .map(|i| {
            let q = |k: usize| s[i * chn + k] as f64 / m as f64;
            let is_tr = !trns.is_empty() && ct != 3 && (0..chn).all(|k| s[i * chn + k].to_be_bytes() == trns[k * 2..k * 2 + 2]);
            let a = if is_tr { 0.0 } else { 1.0 };
            match ct {
                0 => [q(0), q(0), q(0), a],
                2 => [q(0), q(1), q(2), a],
                3 => {
                    let ix = s[i] as usize;
                    let p = pal[ix];
                    [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0, trns.get(ix).map(|v| *v as f64 / 255.0).unwrap_or(1.0)]
                }
                4 => [q(0), q(0), q(0), q(1)],
                _ => [q(0), q(1), q(2), q(3)],
            }
        })
        .collect();
    let bits = chn * bd as usize;
    let bpp = (bits / 8).max(1);
    let ffix = if r.bool() { Some(r.usize(5) as u8) } else { None };
    let mut d = vec![];
    let passes: Vec<(u32, u32, u32, u32)> = if il == 1 {
        vec![(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
    } else {
        vec![(0, 0, 1, 1)]
    };
    for (x0, y0, dx, dy) in passes {
        let mut prev: Option<Vec<u8>> = None;
        if x0 >= w {
            continue;
        }
        let mut y = y0;
        while y < h {
            let mut row = vec![];
            let (mut acc, mut nb) = (0u32, 0);
            let mut x = x0;
            while x < w {
                for k in 0..chn {
                    let v = s[((y * w + x) as usize) * chn + k];
                    match bd {
                        16 => row.extend_from_slice(&v.to_be_bytes()),
                        8 => row.push(v as u8),
                        _ => {
                            acc = acc << bd | v as u32;
                            nb += bd;
                            if nb == 8 {
                                row.push(acc as u8);
                                acc = 0;
                                nb = 0;
                            }
                        }
                    }
                }
                x += dx;
            }
            if nb > 0 {
                row.push((acc << (8 - nb)) as u8);
            }
            let f = ffix.unwrap_or_else(|| r.usize(5) as u8);
            d.extend(filter_row(f, &row, prev.as_deref(), bpp));
            prev = Some(row);
            y += dy;
        }
    }
    let mut out = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ih = vec![];
    ih.extend_from_slice(&w.to_be_bytes());
    ih.extend_from_slice(&h.to_be_bytes());
    ih.extend_from_slice(&[bd, ct, 0, 0, il]);
    png_chunk(&mut out, b"IHDR", &ih);
    if r.chance(0.3) {
        png_chunk(&mut out, b"tEXt", b"Comment\0generated");
    }
    if ct == 3 {
        png_chunk(&mut out, b"PLTE", &pal.concat());
    }
    if !trns.is_empty() {
        png_chunk(&mut out, b"tRNS", &trns);
    }
    let z = zlib(&d, *r.pick(&[0, 1, 6, 9]));
    let parts = 1 + r.usize(3);
    let step = (z.len() / parts).max(1);
    let mut o = 0;
    while o < z.len() {
        let e = (o + step).min(z.len());
        png_chunk(&mut out, b"IDAT", &z[o..e]);
        o = e;
    }
    png_chunk(&mut out, b"IEND", &[]);
    Known { kind: format!("png type {} depth {}{}{}", ct, bd, if il == 1 { " interlaced" } else { "" }, if trns.is_empty() { "" } else { " tRNS" }), bytes: out, w, h, px, tol: 0.0 }
}

// ------------------------------------------------------------------------------------------- BMP

pub struct Bmp {
    pub raw: Raw,
    pub bpp: u32,
}

pub fn bmp_read(b: &[u8]) -> Result<Bmp, String> {
    if b.len() < 54 || &b[..2] != b"BM" {
        return Err("no bmp header".into());
    }
    if le32(b, 2) as usize != b.len() {
        return Err(format!("file size field {} but {} bytes", le32(b, 2), b.len()));
    }
    let off = le32(b, 10) as usize;
    let hs = le32(b, 14) as usize;
    let (w, h) = (le32(b, 18), le32(b, 22));
    let bpp = le16(b, 28);
    let comp = le32(b, 30);
    let stride = ((w as usize * bpp as usize / 8) + 3) / 4 * 4;
    if b.len() < off + stride * h as usize {
        return Err("truncated".into());
    }
    let mut v = vec![];
    let mut ch = 3;
    for y in 0..h as usize {
        let row = &b[off + (h as usize - 1 - y) * stride..];
        for x in 0..w as usize {
            match (bpp, comp) {
                (8, 0) => {
                    let e = 14 + hs + row[x] as usize * 4;
                    v.extend_from_slice(&[b[e + 2] as u16, b[e + 1] as u16, b[e] as u16]);
                }
                (24, 0) => v.extend_from_slice(&[row[x * 3 + 2] as u16, row[x * 3 + 1] as u16, row[x * 3] as u16]),
                (32, 3) => {
                    ch = 4;
                    if [le32(b, 54), le32(b, 58), le32(b, 62), le32(b, 66)] != [0xff0000, 0xff00, 0xff, 0xff000000] {
                        return Err("unexpected masks".into());
                    }
                    v.extend_from_slice(&[row[x * 4 + 2] as u16, row[x * 4 + 1] as u16, row[x * 4] as u16, row[x * 4 + 3] as u16]);
                }
                _ => return Err(format!("{} bpp compression {}", bpp, comp)),
            }
        }
    }
    Ok(Bmp { raw: Raw { w, h, ch, depth: 8, v }, bpp })
}

/// Well-formed BMP of many flavours. `ico`: without file header, doubled height, 32 bit + AND mask
pub fn gen_bmp(r: &mut Rng, w: u32, h: u32) -> Known {
    let kind = r.usize(9);
    let top_down = r.chance(0.4) && kind != 8;
    let n = (w * h) as usize;
    let mut hdr = vec![];
    let mut pal: Vec<[u8; 4]> = vec![];
    let mut px = vec![];
    let (bpp, comp, name): (u16, u32, &str) = [
        (1, 0, "1 bit"),
        (4, 0, "4 bit"),
        (8, 0, "8 bit"),
        (16, 0, "555"),
        (16, 3, "565"),
        (24, 0, "24 bit"),
        (32, 0, "32 bit"),
        (32, 3, "rgba masks"),
        (8, 1, "rle8"),
    ][kind];
    if bpp <= 8 {
        let m = 1usize << bpp;
        pal = (0..m).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, 0]).collect();
    }
    let v: Vec<[u8; 4]> = {
        let mut last = [0u8; 4];
        (0..n)
            .map(|_| {
                if !r.chance(0.4) {
                    last = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
                }
                last
            })
            .collect()
    };
    let mut tol = 0.0;
    for c in &v {
        let f = |x: f64, m: f64| x / m;
        px.push(match kind {
            0 | 1 | 2 | 8 => {
                let p = pal[c[0] as usize % pal.len()];
                [f(p[2] as f64, 255.0), f(p[1] as f64, 255.0), f(p[0] as f64, 255.0), 1.0]
            }
            3 => [f((c[0] >> 3) as f64, 31.0), f((c[1] >> 3) as f64, 31.0), f((c[2] >> 3) as f64, 31.0), 1.0],
            4 => [f((c[0] >> 3) as f64, 31.0), f((c[1] >> 2) as f64, 63.0), f((c[2] >> 3) as f64, 31.0), 1.0],
            5 | 6 => [f(c[0] as f64, 255.0), f(c[1] as f64, 255.0), f(c[2] as f64, 255.0), 1.0],
            _ => [f(c[0] as f64, 255.0), f(c[1] as f64, 255.0), f(c[2] as f64, 255.0), f(c[3] as f64, 255.0)],
        });
    }
    if kind == 3 || kind == 4 {
        tol = 0.6 / 255.0;
    }
    let mut data = vec![];
    let rows: Vec<u32> = if top_down { (0..h).collect() } else { (0..h).rev().collect() };
    for y in rows {
        let row = &v[(y * w) as usize..((y + 1) * w) as usize];
        let s = data.len();
        match kind {
            0 | 1 => {
                let (mut acc, mut nb) = (0u32, 0);
                for c in row {
                    acc = acc << bpp | (c[0] as u32 % pal.len() as u32);
                    nb += bpp;
                    if nb == 8 {
                        data.push(acc as u8);
                        acc = 0;
                        nb = 0;
                    }
                }
                if nb > 0 {
                    data.push((acc << (8 - nb)) as u8);
                }
            }
            2 => data.extend(row.iter().map(|c| c[0])),
            3 => row.iter().for_each(|c| data.extend_from_slice(&((c[0] as u16 >> 3) << 10 | (c[1] as u16 >> 3) << 5 | c[2] as u16 >> 3).to_le_bytes())),
            4 => row.iter().for_each(|c| data.extend_from_slice(&((c[0] as u16 >> 3) << 11 | (c[1] as u16 >> 2) << 5 | c[2] as u16 >> 3).to_le_bytes())),
            5 => row.iter().for_each(|c| data.extend_from_slice(&[c[2], c[1], c[0]])),
            6 => row.iter().for_each(|c| data.extend_from_slice(&[c[2], c[1], c[0], 0])),
            7 => row.iter().for_each(|c| data.extend_from_slice(&[c[2], c[1], c[0], c[3]])),
            _ => {
                let mut x = 0;
                while x < row.len() {
                    let mut k = 1;
                    while x + k < row.len() && k < 255 && row[x + k][0] == row[x][0] {
                        k += 1;
                    }
                    data.extend_from_slice(&[k as u8, row[x][0]]);
                    x += k;
                }
                data.extend_from_slice(&[0, 0]);
            }
        }
        if kind != 8 {
            while (data.len() - s) % 4 != 0 {
                data.push(0);
            }
        }
    }
    if kind == 8 {
        data.extend_from_slice(&[0, 1]);
    }
    let v4 = kind == 7;
    let dib: u32 = if v4 { 108 } else { 40 };
    hdr.extend_from_slice(&dib.to_le_bytes());
    hdr.extend_from_slice(&(w as i32).to_le_bytes());
    hdr.extend_from_slice(&(if top_down { -(h as i32) } else { h as i32 }).to_le_bytes());
    hdr.extend_from_slice(&1u16.to_le_bytes());
    hdr.extend_from_slice(&bpp.to_le_bytes());
    hdr.extend_from_slice(&comp.to_le_bytes());
    hdr.extend_from_slice(&(data.len() as u32).to_le_bytes());
    hdr.extend_from_slice(&[0; 8]);
    hdr.extend_from_slice(&(pal.len() as u32).to_le_bytes());
    hdr.extend_from_slice(&[0; 4]);
    if kind == 4 {
        for m in [0xf800u32, 0x07e0, 0x001f] {
            hdr.extend_from_slice(&m.to_le_bytes());
        }
    }
    if v4 {
        for m in [0xff0000u32, 0xff00, 0xff, 0xff000000] {
            hdr.extend_from_slice(&m.to_le_bytes());
        }
        hdr.extend_from_slice(b"BGRs");
        hdr.resize(108, 0);
    }
    for p in &pal {
        hdr.extend_from_slice(p);
    }
    let mut out = b"BM".to_vec();
    out.extend_from_slice(&((14 + hdr.len() + data.len()) as u32).to_le_bytes());
    out.extend_from_slice(&[0; 4]);
    out.extend_from_slice(&((14 + hdr.len()) as u32).to_le_bytes());
    out.extend(hdr);
    out.extend(data);
    Known { kind: format!("bmp {}{}", name, if top_down { " top-down" } else { "" }), bytes: out, w, h, px, tol }
}

// ------------------------------------------------------------------------------------------- ICO

pub struct Ico {
    pub w: u32,
    pub h: u32,
    pub bpp: u32,
    pub png: Png,
}

pub fn ico_read(b: &[u8]) -> Result<Ico, String> {
    if b.len() < 22 || b[..4] != [0, 0, 1, 0] {
        return Err("no ico header".into());
    }
    if le16(b, 4) != 1 {
        return Err("not exactly one entry".into());
    }
    let f = |v: u8| if v == 0 { 256 } else { v as u32 };
    let (len, off) = (le32(b, 14) as usize, le32(b, 18) as usize);
    if off + len != b.len() {
        return Err("entry does not span the file".into());
    }
    let png = png_read(&b[off..])?;
    Ok(Ico { w: f(b[6]), h: f(b[7]), bpp: le16(b, 12), png })
}

fn ico_wrap(entries: &[(u32, u32, u16, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![0, 0, 1, 0];
    o.extend_from_slice(&(entries.len() as u16).to_le_bytes());
    let mut off = 6 + 16 * entries.len();
    for e in entries {
        o.extend_from_slice(&[(e.0 % 256) as u8, (e.1 % 256) as u8, 0, 0]);
        o.extend_from_slice(&1u16.to_le_bytes());
        o.extend_from_slice(&e.2.to_le_bytes());
        o.extend_from_slice(&(e.3.len() as u32).to_le_bytes());
        o.extend_from_slice(&(off as u32).to_le_bytes());
        off += e.3.len();
    }
    for e in entries {
        o.extend_from_slice(&e.3);
    }
    o
}

fn ico_entry(r: &mut Rng, w: u32, h: u32) -> (Vec<u8>, Vec<[f64; 4]>, &'static str) {
    let n = (w * h) as usize;
    let v: Vec<[u8; 4]> = (0..n).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]).collect();
    let f = |c: &[u8; 4]| [c[0] as f64 / 255.0, c[1] as f64 / 255.0, c[2] as f64 / 255.0, c[3] as f64 / 255.0];
    if r.bool() {
        let mut d = vec![];
        for y in 0..h {
            let row: Vec<u8> = v[(y * w) as usize..((y + 1) * w) as usize].concat();
            d.extend(filter_row(0, &row, None, 4));
        }
        let mut out = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
        let mut ih = vec![];
        ih.extend_from_slice(&w.to_be_bytes());
        ih.extend_from_slice(&h.to_be_bytes());
        ih.extend_from_slice(&[8, 6, 0, 0, 0]);
        png_chunk(&mut out, b"IHDR", &ih);
        png_chunk(&mut out, b"IDAT", &zlib(&d, 6));
        png_chunk(&mut out, b"IEND", &[]);
        (out, v.iter().map(f).collect(), "ico png")
    } else {
        let mut o = vec![];
        o.extend_from_slice(&40u32.to_le_bytes());
        o.extend_from_slice(&w.to_le_bytes());
        o.extend_from_slice(&(h * 2).to_le_bytes());
        o.extend_from_slice(&1u16.to_le_bytes());
        o.extend_from_slice(&32u16.to_le_bytes());
        o.extend_from_slice(&[0; 24]);
        let mask: Vec<bool> = (0..n).map(|_| r.chance(0.2)).collect();
        for y in (0..h).rev() {
            for c in &v[(y * w) as usize..((y + 1) * w) as usize] {
                o.extend_from_slice(&[c[2], c[1], c[0], c[3]]);
            }
        }
        for y in (0..h).rev() {
            let mut row = vec![0u8; ((w + 31) / 32 * 4) as usize];
            for x in 0..w {
                if mask[(y * w + x) as usize] {
                    row[x as usize / 8] |= 0x80 >> (x % 8);
                }
            }
            o.extend(row);
        }
        let px = v.iter().zip(&mask).map(|(c, m)| { let mut p = f(c); if *m { p[3] = 0.0 } p }).collect();
        (o, px, "ico bmp")
    }
}

pub fn gen_ico(r: &mut Rng, w: u32, h: u32) -> Known {
    let (w, h) = (w.clamp(1, 256), h.clamp(1, 256));
    let (d, px, kind) = ico_entry(r, w, h);
    let mut e = vec![(w, h, 32u16, d)];
    let mut kind = kind.to_string();
    if r.chance(0.3) && w > 1 && h > 1 {
        // a smaller second entry that must not be chosen
        let (d, _, _) = ico_entry(r, w / 2, h / 2);
        let at = r.usize(2);
        e.insert(at, (w / 2, h / 2, 32, d));
        kind.push_str(" + smaller entry");
    }
    Known { kind, bytes: ico_wrap(&e), w, h, px, tol: 0.0 }
}

// ------------------------------------------------------------------------------------------- GIF

/// First frame of a GIF through the gif crate
pub fn gif_read(b: &[u8]) -> Result<Raw, String> {
    let mut o = gif::DecodeOptions::new();
    o.set_color_output(gif::ColorOutput::Indexed);
    let mut d = o.read_info(b).map_err(|e| e.to_string())?;
    let gp: Option<Vec<u8>> = d.global_palette().map(|p| p.to_vec());
    let (sw, sh) = (d.width() as u32, d.height() as u32);
    let f = d.read_next_frame().map_err(|e| e.to_string())?.ok_or("no frame")?;
    if (f.left, f.top) != (0, 0) || (f.width as u32, f.height as u32) != (sw, sh) {
        return Err("frame does not cover the canvas".into());
    }
    let pal = f.palette.clone().or(gp).ok_or("no palette")?;
    let mut v = vec![];
    for i in f.buffer.iter() {
        let k = *i as usize * 3;
        if k + 2 >= pal.len() {
            return Err(format!("index {} beyond the palette", i));
        }
        v.extend_from_slice(&[pal[k] as u16, pal[k + 1] as u16, pal[k + 2] as u16, if f.transparent == Some(*i) { 0 } else { 255 }]);
    }
    Ok(Raw { w: f.width as u32, h: f.height as u32, ch: 4, depth: 8, v })
}

pub fn gen_gif(r: &mut Rng, w: u32, h: u32) -> Known {
    let n = (w * h) as usize;
    let np = 2 + r.usize(255);
    let pal: Vec<u8> = (0..np * 3).map(|_| r.below(256) as u8).collect();
    let idx: Vec<u8> = (0..n).map(|_| r.usize(np) as u8).collect();
    let tr = if r.bool() { Some(r.usize(np) as u8) } else { None };
    let global = r.bool();
    let il = r.chance(0.4);
    let frames = 1 + r.usize(3);
    let mut out = vec![];
    {
        let mut e = gif::Encoder::new(&mut out, w as u16, h as u16, if global { &pal } else { &[] }).unwrap();
        for i in 0..frames {
            let mut f = gif::Frame { width: w as u16, height: h as u16, transparent: tr, palette: if global { None } else { Some(pal.clone()) }, ..Default::default() };
            let buf = if i == 0 { idx.clone() } else { idx.iter().rev().cloned().collect() };
            // interlaced files store the rows in another order
            let rows: Vec<usize> = if il {
                let hh = h as usize;
                (0..hh).step_by(8).chain((4..hh).step_by(8)).chain((2..hh).step_by(4)).chain((1..hh).step_by(2)).collect()
            } else {
                (0..h as usize).collect()
            };
            let mut b2 = vec![];
            for y in rows {
                b2.extend_from_slice(&buf[y * w as usize..(y + 1) * w as usize]);
            }
            f.interlaced = il;
            f.buffer = b2.into();
            e.write_frame(&f).unwrap();
        }
    }
    let px = idx
        .iter()
        .map(|i| {
            let k = *i as usize * 3;
            [pal[k] as f64 / 255.0, pal[k + 1] as f64 / 255.0, pal[k + 2] as f64 / 255.0, if tr == Some(*i) { 0.0 } else { 1.0 }]
        })
        .collect();
    Known { kind: format!("gif{}{}{}{}", if global { " global" } else { " local" }, if il { " interlaced" } else { "" }, if tr.is_some() { " transparent" } else { "" }, if frames > 1 { " animated" } else { "" }), bytes: out, w, h, px, tol: 0.0 }
}

// ------------------------------------------------------------------------------------------- JPEG

#[derive(Debug, Clone)]
pub struct Jpeg {
    pub sof: u8,
    pub precision: u8,
    pub w: u32,
    pub h: u32,
    /// id, h, v, quantisation table
    pub comps: Vec<(u8, u8, u8, u8)>,
    pub dqt: Vec<(u8, Vec<u16>)>,
    /// class/id byte and the counts + symbols
    pub dht: Vec<(u8, Vec<u8>)>,
    pub scans: usize,
    pub eoi: bool,
}

pub fn jpeg_info(b: &[u8]) -> Result<Jpeg, String> {
    if b.len() < 4 || b[..2] != [0xff, 0xd8] {
        return Err("no SOI".into());
    }
    let mut j = Jpeg { sof: 0, precision: 0, w: 0, h: 0, comps: vec![], dqt: vec![], dht: vec![], scans: 0, eoi: false };
    let mut o = 2;
    while o + 1 < b.len() {
        if b[o] != 0xff {
            return Err(format!("marker expected at {}", o));
        }
        let m = b[o + 1];
        if m == 0xd9 {
            j.eoi = true;
            if o + 2 != b.len() {
                return Err("data after EOI".into());
            }
            return Ok(j);
        }
        if o + 4 > b.len() {
            return Err("truncated".into());
        }
        let n = be16(b, o + 2) as usize;
        if o + 2 + n > b.len() {
            return Err("truncated segment".into());
        }
        let s = &b[o + 4..o + 2 + n];
        match m {
            0xc0 | 0xc1 | 0xc2 | 0xc3 => {
                j.sof = m;
                j.precision = s[0];
                j.h = be16(s, 1);
                j.w = be16(s, 3);
                for k in 0..s[5] as usize {
                    let c = &s[6 + k * 3..];
                    j.comps.push((c[0], c[1] >> 4, c[1] & 15, c[2]));
                }
            }
            0xdb => {
                let mut k = 0;
                while k < s.len() {
                    let wide = s[k] >> 4 != 0;
                    let t: Vec<u16> = (0..64).map(|i| if wide { be16(s, k + 1 + 2 * i) as u16 } else { s[k + 1 + i] as u16 }).collect();
                    j.dqt.push((s[k] & 15, t));
                    k += 1 + if wide { 128 } else { 64 };
                }
            }
            0xc4 => {
                let mut k = 0;
                while k < s.len() {
                    let cnt: usize = s[k + 1..k + 17].iter().map(|v| *v as usize).sum();
                    j.dht.push((s[k], s[k + 1..k + 17 + cnt].to_vec()));
                    k += 17 + cnt;
                }
            }
            0xda => {
                j.scans += 1;
                o += 2 + n;
                // entropy coded data
                while o + 1 < b.len() && !(b[o] == 0xff && b[o + 1] != 0 && !(0xd0..=0xd7).contains(&b[o + 1])) {
                    o += 1;
                }
                continue;
            }
            _ => {}
        }
        o += 2 + n;
    }
    Err("no EOI".into())
}

/// Decode through the jpeg-decoder crate: RGB or grey levels
pub fn jpeg_read(b: &[u8]) -> Result<Raw, String> {
    let mut d = jpeg_decoder::Decoder::new(b);
    let v = d.decode().map_err(|e| e.to_string())?;
    let i = d.info().ok_or("no info")?;
    let ch = match i.pixel_format {
        jpeg_decoder::PixelFormat::L8 => 1,
        jpeg_decoder::PixelFormat::RGB24 => 3,
        f => return Err(format!("pixel format {:?}", f)),
    };
    Ok(Raw { w: i.width as u32, h: i.height as u32, ch, depth: 8, v: v.iter().map(|v| *v as u16).collect() })
}

/// JPEG of various flavours. Expected pixels: what the jpeg-decoder crate gives, for CMYK converted here.
pub fn gen_jpeg(r: &mut Rng, w: u32, h: u32) -> Known {
    use jpeg_encoder::{ColorType, Encoder, SamplingFactor};
    if r.chance(0.15) {
        return gen_lossless_jpeg(r, w, h);
    }
    let ct = *r.pick(&[ColorType::Luma, ColorType::Rgb, ColorType::Rgb, ColorType::Ycbcr, ColorType::Cmyk, ColorType::CmykAsYcck]);
    let chn = match ct {
        ColorType::Luma => 1,
        ColorType::Rgb | ColorType::Ycbcr => 3,
        _ => 4,
    };
    let q = 1 + r.below(100) as u8;
    let uniform = r.chance(0.3);
    let base: Vec<u8> = (0..chn).map(|_| r.below(256) as u8).collect();
    let fr = r.uniform(0.05, 0.6);
    let d: Vec<u8> = (0..(w * h) as usize * chn)
        .map(|i| {
            let k = i % chn;
            if uniform {
                base[k]
            } else {
                let (x, y) = ((i / chn) as u32 % w, (i / chn) as u32 / w);
                (127.0 + 120.0 * ((x as f32 * fr + k as f32).sin() * (y as f32 * fr * 0.7 + base[k] as f32).cos())) as u8
            }
        })
        .collect();
    let mut out = vec![];
    let prog = r.chance(0.4);
    let sf = *r.pick(&[SamplingFactor::F_1_1, SamplingFactor::F_2_1, SamplingFactor::F_1_2, SamplingFactor::F_2_2]);
    let ri = r.chance(0.3);
    {
        let mut e = Encoder::new(&mut out, q);
        e.set_progressive(prog);
        e.set_sampling_factor(sf);
        let opt = r.bool();
        // (jpeg-encoder miscounts symbols with restart intervals)
        e.set_optimized_huffman_tables(opt && !ri);
        if ri {
            e.set_restart_interval(1 + r.below(5) as u16);
        }
        e.encode(&d, w as u16, h as u16, ct).unwrap();
    }
    let mut dec = jpeg_decoder::Decoder::new(&out[..]);
    let v = dec.decode().expect("own jpeg");
    let f = |c: u8| c as f64 / 255.0;
    let px = v
        .chunks(chn)
        .map(|c| match chn {
            1 => [f(c[0]), f(c[0]), f(c[0]), 1.0],
            3 => [f(c[0]), f(c[1]), f(c[2]), 1.0],
            _ => {
                let k = 1.0 - f(c[3]);
                [(1.0 - f(c[0])) * k, (1.0 - f(c[1])) * k, (1.0 - f(c[2])) * k, 1.0]
            }
        })
        .collect();
    Known { kind: format!("jpeg {:?}{}{}", ct, if prog { " progressive" } else { "" }, if ri { " restart" } else { "" }), bytes: out, w, h, px, tol: 0.0 }
}

/// Lossless (SOF3) grey JPEG with 8 or 16 bit samples, written here
pub fn gen_lossless_jpeg(r: &mut Rng, w: u32, h: u32) -> Known {
    let p: u32 = if r.chance(0.75) { 16 } else { 8 };
    let n = (w * h) as usize;
    let noisy = r.bool();
    let mut last = 1u32 << (p - 1);
    let v: Vec<u32> = (0..n)
        .map(|_| {
            last = if noisy { r.below(1 << p) as u32 } else { (last as i64 + r.range(-300, 300)).clamp(0, (1 << p) - 1) as u32 };
            last
        })
        .collect();
    let mut out = vec![0xff, 0xd8, 0xff, 0xc3, 0, 11, p as u8];
    out.extend_from_slice(&(h as u16).to_be_bytes());
    out.extend_from_slice(&(w as u16).to_be_bytes());
    out.extend_from_slice(&[1, 1, 0x11, 0]);
    // 17 categories, all with 5 bit codes
    out.extend_from_slice(&[0xff, 0xc4, 0, 2 + 17 + 17, 0]);
    out.extend_from_slice(&[0, 0, 0, 0, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    out.extend(0..17u8);
    // predictor 1 (left)
    out.extend_from_slice(&[0xff, 0xda, 0, 8, 1, 1, 0, 1, 0, 0]);
    let (mut acc, mut nb) = (0u64, 0u32);
    let mut put = |bits: u32, len: u32, out: &mut Vec<u8>| {
        acc = acc << len | bits as u64;
        nb += len;
        while nb >= 8 {
            let b = (acc >> (nb - 8)) as u8;
            out.push(b);
            if b == 0xff {
                out.push(0);
            }
            nb -= 8;
            acc &= (1u64 << nb) - 1;
        }
    };
    for y in 0..h as usize {
        for x in 0..w as usize {
            let pred = if x == 0 && y == 0 { 1 << (p - 1) } else if x == 0 { v[(y - 1) * w as usize] } else { v[y * w as usize + x - 1] };
            let mut d = (v[y * w as usize + x] as i64 - pred as i64).rem_euclid(65536);
            if d > 32768 {
                d -= 65536;
            }
            let cat = if d == 0 { 0 } else { 64 - (d.unsigned_abs()).leading_zeros() };
            put(cat, 5, &mut out);
            if cat > 0 && cat < 16 {
                put(if d > 0 { d as u32 } else { (d + (1 << cat) - 1) as u32 }, cat, &mut out);
            }
        }
    }
    put(0x7f, 7, &mut out);
    out.extend_from_slice(&[0xff, 0xd9]);
    let m = ((1u32 << p) - 1) as f64;
    let px = v.iter().map(|v| { let q = *v as f64 / m; [q, q, q, 1.0] }).collect();
    Known { kind: format!("jpeg lossless {} bit", p), bytes: out, w, h, px, tol: 0.0 }
}

// ------------------------------------------------------------------------------------------- WebP

pub fn webp_kind(b: &[u8]) -> Result<&'static str, String> {
    if b.len() < 20 || &b[..4] != b"RIFF" || &b[8..12] != b"WEBP" {
        return Err("no webp header".into());
    }
    if le32(b, 4) as usize + 8 != b.len() {
        return Err(format!("RIFF size {} for {} bytes", le32(b, 4), b.len()));
    }
    let mut o = 12;
    while o + 8 <= b.len() {
        match &b[o..o + 4] {
            b"VP8 " => return Ok("lossy"),
            b"VP8L" => return Ok("lossless"),
            _ => {}
        }
        o += 8 + (le32(b, o + 4) as usize + 1) / 2 * 2;
    }
    Err("no image chunk".into())
}

pub fn webp_read(b: &[u8]) -> Result<Raw, String> {
    unsafe {
        let (mut w, mut h) = (0, 0);
        let p = libwebp_sys::WebPDecodeARGB(b.as_ptr(), b.len(), &mut w, &mut h);
        if p.is_null() {
            return Err("libwebp refuses the file".into());
        }
        let s = std::slice::from_raw_parts(p, (w * h * 4) as usize);
        let mut v = vec![];
        for c in s.chunks(4) {
            v.extend_from_slice(&[c[1] as u16, c[2] as u16, c[3] as u16, c[0] as u16]);
        }
        libwebp_sys::WebPFree(p as *mut _);
        Ok(Raw { w: w as u32, h: h as u32, ch: 4, depth: 8, v })
    }
}

pub fn webp_encode_simple(d: &[u8], w: u32, h: u32, q: Option<f32>) -> Vec<u8> {
    unsafe {
        let mut p: *mut u8 = std::ptr::null_mut();
        let n = match q {
            Some(q) => libwebp_sys::WebPEncodeRGBA(d.as_ptr(), w as i32, h as i32, w as i32 * 4, q, &mut p),
            None => libwebp_sys::WebPEncodeLosslessRGBA(d.as_ptr(), w as i32, h as i32, w as i32 * 4, &mut p),
        };
        assert!(n > 0 && !p.is_null());
        let v = std::slice::from_raw_parts(p, n).to_vec();
        libwebp_sys::WebPFree(p as *mut _);
        v
    }
}

pub fn gen_webp(r: &mut Rng, w: u32, h: u32) -> Known {
    let opaque = r.bool();
    let mut last = [0u8; 4];
    let d: Vec<u8> = (0..w * h)
        .flat_map(|_| {
            if !r.chance(0.5) {
                last = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, if opaque { 255 } else { r.below(256) as u8 }];
            }
            last
        })
        .collect();
    let ll = r.bool();
    let b = webp_encode_simple(&d, w, h, if ll { None } else { Some(r.uniform(0.0, 100.0)) });
    let raw = webp_read(&b).expect("own webp");
    let px = (0..raw.len()).map(|i| raw.rgba(i)).collect();
    Known { kind: format!("webp {}{}", if ll { "lossless" } else { "lossy" }, if opaque { "" } else { " alpha" }), bytes: b, w, h, px, tol: 0.0 }
}

pub fn gen_known(r: &mut Rng, w: u32, h: u32) -> Known {
    let mut k = match r.usize(10) {
        0..=2 => gen_png(r, w, h),
        3 | 4 => gen_bmp(r, w, h),
        5 => gen_ico(r, w, h),
        6 => gen_gif(r, w, h),
        7 | 8 => gen_jpeg(r, w, h),
        _ => gen_webp(r, w, h),
    };
    if r.chance(0.35) {
        if let Some(b) = decorate(r, &k.bytes) {
            k.bytes = b;
            k.kind.push_str(" +metadata");
        }
    }
    k
}

/// An EXIF block (TIFF, either byte order) with nothing but an orientation and a resolution
fn exif(r: &mut Rng) -> Vec<u8> {
    let le = r.bool();
    let u16b = |v: u16| if le { v.to_le_bytes() } else { v.to_be_bytes() };
    let u32b = |v: u32| if le { v.to_le_bytes() } else { v.to_be_bytes() };
    let mut o = if le { b"II".to_vec() } else { b"MM".to_vec() };
    o.extend_from_slice(&u16b(42));
    o.extend_from_slice(&u32b(8));
    o.extend_from_slice(&u16b(2));
    for (tag, v) in [(0x112u16, 1 + r.below(8) as u16), (0x128, 2)] {
        o.extend_from_slice(&u16b(tag));
        o.extend_from_slice(&u16b(3));
        o.extend_from_slice(&u32b(1));
        o.extend_from_slice(&u16b(v));
        o.extend_from_slice(&[0, 0]);
    }
    o.extend_from_slice(&u32b(0));
    o
}

/// Adds metadata that describes the picture but is no part of its pixels. None if there is none to add.
pub fn decorate(r: &mut Rng, b: &[u8]) -> Option<Vec<u8>> {
    let text: Vec<u8> = (0..1 + r.usize(40)).map(|_| b' ' + r.below(95) as u8).collect();
    if b.starts_with(&[0x89, b'P', b'N', b'G']) {
        let (bd, ct) = (b[24], b[25]);
        let (w, h) = (be32(b, 16), be32(b, 20));
        let mut out = b[..8].to_vec();
        let mut o = 8;
        let (mut pal, mut begun) = (0u8, false);
        let animated = r.chance(0.2);
        while o + 12 <= b.len() {
            let n = be32(b, o) as usize;
            let name = &b[o + 4..o + 8];
            if name == b"IDAT" && !begun {
                begun = true;
                // a background is an index or has as many samples as there are colour channels
                if r.bool() {
                    let v = match ct {
                        3 => vec![r.below(pal.max(1) as u64) as u8],
                        0 | 4 => (r.below(1 << bd) as u16).to_be_bytes().to_vec(),
                        _ => (0..3).flat_map(|_| (r.below(1 << bd) as u16).to_be_bytes()).collect(),
                    };
                    png_chunk(&mut out, b"bKGD", &v);
                }
                if r.bool() {
                    let mut v = (1 + r.below(20000) as u32).to_be_bytes().to_vec();
                    v.extend_from_slice(&(1 + r.below(20000) as u32).to_be_bytes());
                    v.push(r.below(2) as u8);
                    png_chunk(&mut out, b"pHYs", &v);
                }
                if r.chance(0.3) {
                    png_chunk(&mut out, b"eXIf", &exif(r));
                }
                if animated {
                    // the default image is the only frame
                    let mut v = vec![0, 0, 0, 0];
                    v.extend_from_slice(&w.to_be_bytes());
                    v.extend_from_slice(&h.to_be_bytes());
                    v.extend_from_slice(&[0; 8]);
                    v.extend_from_slice(&[0, 1, 0, 10, 0, 0]);
                    png_chunk(&mut out, b"acTL", &[0, 0, 0, 1, 0, 0, 0, 0]);
                    png_chunk(&mut out, b"fcTL", &v);
                }
            }
            if name == b"IEND" && r.bool() {
                png_chunk(&mut out, b"tIME", &[7, 0xe8, 2, 29, 23, 59, 60]);
                png_chunk(&mut out, b"tEXt", &[b"Author\0", &text[..]].concat());
            }
            png_chunk(&mut out, &[name[0], name[1], name[2], name[3]], &b[o + 8..o + 8 + n]);
            if name == b"IHDR" {
                match r.usize(4) {
                    0 => png_chunk(&mut out, b"sRGB", &[r.below(4) as u8]),
                    1 => {
                        png_chunk(&mut out, b"gAMA", &(*r.pick(&[45455u32, 100000, 55556, 20000])).to_be_bytes());
                        let v: Vec<u8> = [31270u32, 32900, 64000, 33000, 30000, 60000, 15000, 6000].iter().flat_map(|v| v.to_be_bytes()).collect();
                        png_chunk(&mut out, b"cHRM", &v);
                    }
                    2 => png_chunk(&mut out, b"gAMA", &(*r.pick(&[45455u32, 100000, 55556, 20000])).to_be_bytes()),
                    _ => {}
                }
                if r.bool() {
                    png_chunk(&mut out, b"iTXt", &[b"Title\0\0\0en\0\0", &text[..]].concat());
                    png_chunk(&mut out, b"zTXt", &[b"Comment\0\0".to_vec(), zlib(&text, 6)].concat());
                }
            }
            if name == b"PLTE" {
                pal = (n / 3).min(255) as u8;
            }
            o += 12 + n;
        }
        return Some(out);
    }
    if b.starts_with(&[0xff, 0xd8, 0xff]) {
        let at = if b[3] == 0xe0 { 4 + be16(b, 4) as usize } else { 2 };
        let mut out = b[..at].to_vec();
        let mut seg = |m: u8, v: &[u8]| {
            out.extend_from_slice(&[0xff, m]);
            out.extend_from_slice(&(v.len() as u16 + 2).to_be_bytes());
            out.extend_from_slice(v);
        };
        if r.chance(0.7) {
            seg(0xe1, &[b"Exif\0\0".to_vec(), exif(r)].concat());
        }
        if r.chance(0.3) {
            seg(0xe1, &[b"http://ns.adobe.com/xap/1.0/\0", &text[..]].concat());
        }
        if r.chance(0.3) {
            seg(0xed, &[b"Photoshop 3.0\0", &text[..]].concat());
        }
        seg(0xfe, &text);
        if at > 2 && r.bool() {
            // the density
            out[13] = r.below(3) as u8;
            out[15] = 1 + r.below(255) as u8;
            out[17] = 1 + r.below(255) as u8;
        }
        out.extend_from_slice(&b[at..]);
        return Some(out);
    }
    if b.starts_with(b"BM") {
        let mut out = b.to_vec();
        for o in [38, 42] {
            out[o..o + 4].copy_from_slice(&(r.below(20000) as u32).to_le_bytes());
        }
        return Some(out);
    }
    if b.starts_with(b"GIF8") {
        let at = 13 + if b[10] & 0x80 != 0 { 6usize << (b[10] & 7) } else { 0 };
        let mut out = b[..at].to_vec();
        out[11] = if b[10] & 0x80 != 0 { r.below(2 << (b[10] & 7)) as u8 } else { 0 };
        out[12] = if r.bool() { r.below(256) as u8 } else { 0 };
        if r.bool() {
            out.extend_from_slice(b"\x21\xff\x0bNETSCAPE2.0\x03\x01");
            out.extend_from_slice(&(r.below(4) as u16).to_le_bytes());
            out.push(0);
        }
        out.extend_from_slice(&[0x21, 0xfe, text.len() as u8]);
        out.extend_from_slice(&text);
        out.push(0);
        out.extend_from_slice(&b[at..]);
        return Some(out);
    }
    if b.starts_with(b"RIFF") && b.len() > 30 {
        let chunk = |out: &mut Vec<u8>, name: &[u8], v: &[u8]| {
            out.extend_from_slice(name);
            out.extend_from_slice(&(v.len() as u32).to_le_bytes());
            out.extend_from_slice(v);
            if v.len() % 2 == 1 {
                out.push(0);
            }
        };
        let ex = exif(r);
        let mut out = b[..12].to_vec();
        let mut rest = &b[12..];
        let mut head;
        if rest.starts_with(b"VP8X") {
            head = rest[8..18].to_vec();
            rest = &rest[18..];
        } else {
            let (w, h, alpha) = if rest.starts_with(b"VP8L") {
                let v = le32(rest, 9);
                ((v & 0x3fff) + 1, (v >> 14 & 0x3fff) + 1, v >> 28 & 1 == 1)
            } else {
                ((le16(rest, 14) & 0x3fff) as u32, (le16(rest, 16) & 0x3fff) as u32, false)
            };
            head = vec![if alpha { 0x10 } else { 0 }, 0, 0, 0];
            head.extend_from_slice(&(w - 1).to_le_bytes()[..3]);
            head.extend_from_slice(&(h - 1).to_le_bytes()[..3]);
        }
        let xmp = r.bool();
        head[0] |= 8 | if xmp { 4 } else { 0 };
        chunk(&mut out, b"VP8X", &head);
        out.extend_from_slice(rest);
        if out.len() % 2 == 1 {
            out.push(0);
        }
        chunk(&mut out, b"EXIF", &ex);
        if xmp {
            chunk(&mut out, b"XMP ", &text);
        }
        let n = (out.len() as u32 - 8).to_le_bytes();
        out[4..8].copy_from_slice(&n);
        return Some(out);
    }
    None
}

/// Largest number of pixels the headers of a (possibly corrupted) file may declare; used to keep the
/// parallel fuzzing within memory - larger ones are decoded one at a time.
pub fn declared_pixels(b: &[u8]) -> u64 {
    let mut m = 0u64;
    let mut see = |w: u64, h: u64| m = m.max(w * h);
    if b.len() > 24 && b[..4] == [0x89, b'P', b'N', b'G'] {
        see(be32(b, 16) as u64, be32(b, 20) as u64);
    }
    if b.len() > 3 && b[..3] == [0xff, 0xd8, 0xff] {
        for o in 0..b.len().saturating_sub(9) {
            if b[o] == 0xff && (0xc0..=0xcf).contains(&b[o + 1]) && ![0xc4, 0xc8, 0xcc].contains(&b[o + 1]) {
                see(be16(b, o + 5) as u64, be16(b, o + 7) as u64);
            }
        }
    }
    if b.len() > 26 && &b[..2] == b"BM" {
        let d = |o: usize| (le32(b, o) as i32).unsigned_abs() as u64;
        see(d(18), d(22));
        see(le16(b, 18) as u64, le16(b, 20) as u64);
    }
    if b.len() > 6 && b[..4] == [0, 0, 1, 0] {
        for o in 0..b.len().saturating_sub(24) {
            if le32(b, o) == 40 || le32(b, o) == 12 || le32(b, o) == 108 || le32(b, o) == 124 || (b[o..o + 4] == [0x89, b'P', b'N', b'G']) {
                see((le32(b, o + 4) as i32).unsigned_abs() as u64, (le32(b, o + 8) as i32).unsigned_abs() as u64);
                see(be32(b, o + 16) as u64, be32(b, o + 20) as u64);
            }
        }
    }
    if b.len() > 12 && &b[..3] == b"GIF" {
        for o in 0..b.len().saturating_sub(9) {
            if b[o] == 0x2c {
                see(le16(b, o + 5) as u64, le16(b, o + 7) as u64);
            }
        }
    }
    if b.len() > 30 && &b[..4] == b"RIFF" {
        for o in 12..b.len().saturating_sub(18) {
            match &b[o..o + 4] {
                b"VP8X" => see((le32(b, o + 12) & 0xffffff) as u64 + 1, ((le32(b, o + 14) >> 8) & 0xffffff) as u64 + 1),
                b"VP8L" => { let v = le32(b, o + 9); see((v & 0x3fff) as u64 + 1, (v >> 14 & 0x3fff) as u64 + 1) }
                b"VP8 " => see((le16(b, o + 14) & 0x3fff) as u64, (le16(b, o + 16) & 0x3fff) as u64),
                _ => {}
            }
        }
    }
    m
}
