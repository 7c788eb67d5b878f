//! Nikon NEF and NRW.
use libopenraw::{DataType, Type};

use super::*;
use crate::bits::{pack_be, ssss, BitW, Huff};
use crate::exp::SkipExp;
use crate::tiffb::{p16, Base};

pub const LOSSY12: ([u8; 16], &[u8]) = (
    [0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12, 0],
);
pub const LOSSY14: ([u8; 16], &[u8]) = (
    [0, 1, 4, 3, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14],
);
pub const LOSSLESS14: ([u8; 16], &[u8]) = (
    [0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0],
    &[7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14],
);

fn huff(t: ([u8; 16], &[u8])) -> Huff {
    let mut bits = [0_u8; 17];
    bits[1..].copy_from_slice(&t.0);
    Huff::from_counts(bits, t.1.to_vec())
}

/// Row packed by 10 pixels, one byte of padding after each group.
fn nikon_pack(r: &mut Rng, row: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for g in row.chunks(10) {
        o.extend(pack_be(g, 12));
        if g.len() == 10 {
            o.push(r.u8());
        }
    }
    o
}

/// Encode the table indices.
fn quantized(t: &[u16], w: usize, h: usize, vpred: [[u16; 2]; 2], hf: &Huff) -> Vec<u8> {
    let mut o = BitW::new(false);
    let mut vp = [[vpred[0][0] as i32, vpred[0][1] as i32], [vpred[1][0] as i32, vpred[1][1] as i32]];
    for y in 0..h {
        let mut hp = [0_i32; 2];
        for x in 0..w {
            let v = t[y * w + x] as i32;
            let d;
            if x < 2 {
                d = v - vp[y & 1][x];
                vp[y & 1][x] = v;
            } else {
                d = v - hp[x & 1];
            }
            hp[x & 1] = v;
            let (n, b) = ssss(d);
            hf.put(&mut o, n);
            o.put(b, n as u32);
        }
    }
    o.flush(0);
    o.out
}

/// A curve of `n` growing values up to `max`.
fn curve(r: &mut Rng, n: usize, max: u32) -> Vec<u16> {
    let mut v: Vec<u16> = (0..n).map(|_| r.r32(0, max) as u16).collect();
    v.sort();
    v
}

/// The decode table entry and the curve: bytes, curve over all the indices
fn table(r: &mut Rng, be: bool, bpc: u32, form: u32, vpred: [[u16; 2]; 2]) -> (Vec<u8>, Vec<u16>) {
    let size = 1_usize << bpc;
    let max = (size - 1) as u32;
    let (h0, h1) = match form {
        0 => (0x44, 0x20),
        1 => (0x44, *r.pick(&[0x10, 0x40])),
        2 => (0x49, *r.pick(&[0x58, 0x10])),
        _ => (0x46, 0x30),
    };
    let mut o = vec![h0, h1];
    if h0 == 0x49 {
        o.extend(r.bytes(2110));
    }
    for p in vpred {
        p16(&mut o, p[0], be);
        p16(&mut o, p[1], be);
    }
    let full = match form {
        0 => {
            // interpolated
            let step = *r.pick(&[size / 16, size / 64, size / 256]);
            let n = size / step + 1;
            let c = curve(r, n, max);
            p16(&mut o, n as u16, be);
            c.iter().for_each(|v| p16(&mut o, *v, be));
            (0..size)
                .map(|i| {
                    let (k, f) = (i / step, i % step);
                    ((c[k] as usize * (step - f) + c[k + 1] as usize * f) / step) as u16
                })
                .collect()
        }
        1 | 2 => {
            let n = if r.one_in(6) {
                *r.pick(&[1, 1, 2, 3, 199])
            } else {
                r.usize(200, size.min(3000))
            };
            let mut c = curve(r, n, max);
            p16(&mut o, n as u16, be);
            c.iter().for_each(|v| p16(&mut o, *v, be));
            if r.one_in(3) {
                // What is past the table saturates.
                c.resize(size, c[n - 1]);
            }
            c
        }
        _ => {
            // no curve. There is something else there.
            let n = *r.pick(&[0, 32, 257]);
            p16(&mut o, n, be);
            for _ in 0..n {
                p16(&mut o, r.u16(), be);
            }
            (0..size).map(|v| v as u16).collect()
        }
    };
    let extra = r.usize(0, 40);
    o.extend(r.bytes(extra));
    (o, full)
}

pub fn gen(r: &mut Rng) -> GenFile {
    let be = !r.one_in(4);
    let mut b = B::new(r, Type::Nef, be);
    let main = b.ifd();
    b.t.first = Some(main);
    let make = *b.r.pick(&["NIKON CORPORATION", "NIKON"]);
    let kind = b.r.range(0, 7);
    if kind == 7 {
        b.make_model(main, Some(make), Some("NIKON D100 "));
        b.ident("nikon", 0x0002_0004);
    } else {
        loop {
            let (m, id) = camera(b.r, "nikon");
            if id != 0x0002_0004 {
                let known = !b.r.one_in(4);
                let m = if known { m } else { unknown_model(b.r) };
                b.make_model(main, Some(make), Some(&m));
                let id = if known { id } else { unknown_id("nikon") };
                b.ident("nikon", id);
                break;
            }
        }
    }
    b.orientation(main);
    let c = b.r.usize(0, 5);
    b.noise(Some(0), main, c);
    let exif = b.exif(main);
    let mut raw = main;
    let mut subs = vec![];
    if b.r.one_in(5) {
        b.set(main, 0xfe, V::Long(vec![0]));
    } else {
        if b.r.bool() {
            b.preview(main, true);
        } else {
            b.set(main, 0xfe, V::Long(vec![1]));
        }
        raw = b.ifd();
        b.set(raw, 0xfe, V::Long(vec![0]));
        subs.push(raw);
    }
    let np = b.r.usize(0, 2);
    for _ in 0..np {
        let n = b.ifd();
        b.preview(n, true);
        subs.push(n);
    }
    b.r.shuffle(&mut subs);
    if !subs.is_empty() {
        b.set(main, 0x14a, V::Ptr(subs));
    }
    // maker note
    let quant = (2..7).contains(&kind);
    let note = if !quant && b.r.one_in(6) {
        None
    } else {
        let n = if b.r.one_in(4) {
            b.note("headerless");
            b.t.note(vec![], vec![], None)
        } else {
            let mut h = b"Nikon\0\x02\x10\0\0".to_vec();
            h.extend_from_slice(if be { b"MM\0\x2a\0\0\0\x08" } else { b"II\x2a\0\x08\0\0\0" });
            b.t.note(h, vec![], Some(10))
        };
        b.set(exif, 0x927c, V::Region(n));
        let c = b.r.usize(2, 5);
        b.noise(Some(2), n, c);
        Some(n)
    };
    let mut e;
    let skip;
    match kind {
        0 => {
            e = b.plain_raw(raw, Some(exif), &[12, 12, 14, 14, 16]);
            skip = SkipExp::Same;
        }
        1 | 7 => {
            let (mut w, h) = (dim(b.r, 1, 7) * 10, dim(b.r, 1, 30));
            let img = any_image(b.r, w, h, 12);
            let rows: Vec<Vec<u8>> = img.chunks(w).map(|row| nikon_pack(b.r, row)).collect();
            let d100 = kind == 7;
            if d100 {
                // 6 columns too many
                w -= 6;
            }
            b.note(format!("pack {w}x{h} d100={d100}"));
            b.dims(raw, w, h, 12);
            b.set(raw, 0x103, V::Short(vec![if d100 { 34713 } else { 32769 }]));
            b.strips(raw, &rows);
            e = RawExp {
                w: w as u32,
                h: h as u32,
                bpc: Some(12),
                data: img,
                mosaic: Some(b.cfa(raw, Some(exif))),
                blacks: Some([0; 4]),
                whites: Some([4095; 4]),
                compression: if d100 { None } else { Some(1) },
                wb: Some(None),
                ..Default::default()
            };
            skip = SkipExp::Same;
        }
        _ => {
            let (w, h) = (dim(b.r, 3, 60), dim(b.r, 1, 30));
            let form = b.r.r32(0, 3);
            let bpc = if form == 3 { 14 } else { *b.r.pick(&[12, 14]) };
            let hf = huff(match (form, bpc) {
                (3, _) => LOSSLESS14,
                (_, 12) => LOSSY12,
                _ => LOSSY14,
            });
            let vp = |b: &mut B| b.r.r16(0, 1 << (bpc - 1));
            let vpred = [[vp(&mut b), vp(&mut b)], [vp(&mut b), vp(&mut b)]];
            let (bytes, cv) = table(b.r, be, bpc, form, vpred);
            let bits = (usize::BITS - 1 - cv.len().leading_zeros()).min(bpc);
            let idx = any_image(b.r, w, h, bits);
            let data = quantized(&idx, w, h, vpred, &hf);
            let note = note.unwrap();
            b.set(note, 0x96, V::Undef(bytes));
            b.note(format!("quantized {w}x{h} bpc={bpc} form={form} curve={}", cv.len()));
            b.dims(raw, w, h, bpc);
            b.set(raw, 0x103, V::Short(vec![34713]));
            b.set(raw, 0x117, V::Long(vec![data.len() as u32]));
            let blob = b.t.blob(data.clone());
            b.set(raw, 0x111, V::Ptr(vec![blob]));
            let mut img = vec![];
            for row in idx.chunks(w) {
                img.extend(row[..w - 1].iter().map(|t| cv[*t as usize] << (16 - bpc)));
            }
            e = RawExp {
                w: w as u32 - 1,
                h: h as u32,
                bpc: None,
                data: img,
                mosaic: Some(b.cfa(raw, Some(exif))),
                blacks: Some([cv[0]; 4]),
                whites: Some([((1_u32 << bpc) - 1) as u16; 4]),
                wb: Some(None),
                ..Default::default()
            };
            skip = SkipExp::Data8(data);
        }
    }
    // Not decompressing, the size is the one of the directory.
    e.active = Some(Some([0, 0, e.w, e.h]));
    e.crop = Some(None);
    e.aspect = Some(None);
    if let Some(note) = note {
        if b.r.bool() {
            let v: Vec<u32> = (0..4).map(|_| b.r.r32(0, 5000)).collect();
            e.crop = Some(Some([v[0], v[1], v[2], v[3]]));
            b.set(note, 0x45, V::Short(v.iter().map(|v| *v as u16).collect()));
        }
        if b.r.bool() {
            let v: Vec<u16> = (0..4).map(|_| b.r.r16(0, 500)).collect();
            e.blacks = Some([v[0], v[1], v[2], v[3]]);
            b.set(note, 0x3d, V::Short(v));
        }
        let rg = |b: &mut B| b.r.r32(50, 900);
        match b.r.range(0, 6) {
            0 | 1 => {
                let (x, y) = (rg(&mut b), rg(&mut b));
                let g = *b.r.pick(&[256, 0, 300]);
                let gv = g as f64 / 256.0;
                e.wb = Some(Some([
                    256.0 / x as f64,
                    if gv > 0.0 { gv } else { 1.0 },
                    256.0 / y as f64,
                    f64::NAN,
                ]));
                b.set(note, 0x0c, V::Rat(vec![(x, 256), (y, 256), (g, 256), (g, 256)]));
                b.note("wb-rb");
            }
            k @ (2 | 3) => {
                let (x, g, z) = (rg(&mut b), rg(&mut b), rg(&mut b));
                let mut d = if k == 2 { b"0100".to_vec() } else { b"0103".to_vec() };
                let n = if k == 2 { 80 } else { 26 } + b.r.usize(0, 9);
                d.extend(b.r.bytes(n));
                let (at, v) = if k == 2 { (72, [x, z, g]) } else { (20, [x, g, z]) };
                for (i, v) in v.iter().enumerate() {
                    let mut o = vec![];
                    p16(&mut o, *v as u16, be);
                    d[at + i * 2..at + i * 2 + 2].copy_from_slice(&o);
                }
                b.set(note, 0x97, V::Undef(d));
                e.wb = Some(Some([g as f64 / x as f64, 1.0, g as f64 / z as f64, f64::NAN]));
                b.note(format!("wb-balance{k}"));
            }
            4 => {
                let mut d = b.r.bytes(2560);
                d[..4].copy_from_slice(b"abcd");
                let (x, z) = (rg(&mut b) as u16, rg(&mut b) as u16);
                d[1248..1250].copy_from_slice(&x.to_be_bytes());
                d[1250..1252].copy_from_slice(&z.to_be_bytes());
                b.set(note, 0x14, V::Undef(d));
                e.wb = Some(Some([256.0 / x as f64, 1.0, 256.0 / z as f64, f64::NAN]));
                b.note("wb-2560");
            }
            5 => {
                let old = b.r.bool();
                let mut d = b"NRW ".to_vec();
                d.extend_from_slice(if old { b"0200" } else { b"0100" });
                let n = if old { b.r.usize(72, 300) } else { b.r.usize(1570, 1800) };
                d.extend(b.r.bytes(n));
                let at = if old { 56 } else { 1556 };
                let v = [rg(&mut b), rg(&mut b), rg(&mut b), rg(&mut b)];
                for (i, v) in v.iter().enumerate() {
                    d[at + i * 4..at + i * 4 + 4].copy_from_slice(&v.to_le_bytes());
                }
                b.set(note, 0x14, V::Undef(d));
                let g = (v[1] + v[2]) as f64;
                e.wb = Some(Some([g / (v[0] as f64 * 4.0), 1.0, g / (v[3] as f64 * 4.0), f64::NAN]));
                b.note("wb-nrw");
            }
            _ => {}
        }
        if b.r.bool() {
            let (w, h, j) = b.jpeg();
            let base = b.t.ifd_ref(note).base;
            let p = match base {
                Base::File => b.t.ifd(vec![]),
                base => b.t.ifd_based(vec![], base),
            };
            b.set(p, 0x202, V::Long(vec![j.len() as u32]));
            let blob = b.t.blob(j.clone());
            b.set(p, 0x201, V::Ptr(vec![blob]));
            if b.r.bool() {
                b.set(p, 0x103, V::Short(vec![6]));
            }
            b.set(note, 0x11, V::Ptr(vec![p]));
            if !matches!(base, Base::File) {
                // offsets are unsigned
                b.t.last.extend(if b.r.bool() { [p, blob] } else { [blob, p] });
            }
            b.add_thumb(w, h, DataType::Jpeg, j);
            b.note("mnote-preview");
        }
    }
    b.e.raw = Some(e);
    b.e.skip = Some(skip);
    b.finish("nef", "nef")
}
