//! Panasonic RW2 (and Leica's).
use libopenraw::{DataType, Type};

use super::*;
use crate::exp::SkipExp;

/// One chunk of 14 samples, as dcraw's panasonic_load_raw reads it. `buf` is 16 bytes, the bits
/// are taken from the last byte down.
fn chunk(buf: &[u8]) -> [u16; 14] {
    let all: u128 = u128::from_le_bytes(buf.try_into().unwrap());
    let mut at = 128u32;
    let mut bits = |n: u32| -> i32 {
        at -= n;
        ((all >> at) & ((1 << n) - 1)) as i32
    };
    let (mut pred, mut nonz, mut sh) = ([0i32; 2], [0i32; 2], 0);
    let mut out = [0; 14];
    for (i, o) in out.iter_mut().enumerate() {
        let p = i & 1;
        if i % 3 == 2 {
            sh = 4 >> (3 - bits(2));
        }
        if nonz[p] != 0 {
            let j = bits(8);
            if j != 0 {
                pred[p] -= 0x80 << sh;
                if pred[p] < 0 || sh == 4 {
                    pred[p] &= !(-1 << sh);
                }
                pred[p] += j << sh;
            }
        } else {
            nonz[p] = bits(8);
            if nonz[p] != 0 || i > 11 {
                pred[p] = nonz[p] << 4 | bits(4);
            }
        }
        *o = pred[p] as u16;
    }
    out
}

/// `n` chunks in blocks of 0x4000 bytes, and their samples.
fn compressed(r: &mut Rng, n: usize) -> (Vec<u8>, Vec<u16>) {
    let blocks = n.div_ceil(1024);
    let mut file = vec![0; blocks * 0x4000];
    let mut out = vec![];
    for b in file.chunks_mut(0x4000) {
        let mut buf = r.bytes(0x4000);
        for c in buf.chunks_mut(16) {
            match r.range(0, 9) {
                0 => c.fill(0),
                1 => c[r.usize(0, 4)..].fill(0),
                2 => c[15] = 0,
                3 => c[8..].fill(0),
                _ => {}
            }
            if out.len() < n * 14 {
                out.extend(chunk(c));
            }
        }
        b[..0x1ff8].copy_from_slice(&buf[0x2008..]);
        b[0x1ff8..].copy_from_slice(&buf[..0x2008]);
    }
    (file, out)
}

pub fn gen(r: &mut Rng) -> GenFile {
    let mut b = B::new(r, Type::Rw2, false);
    b.t.header = b"IIU\0\0\0\0\0".to_vec();
    let main = b.ifd();
    b.t.first = Some(main);
    let make = *b.r.pick(&["Panasonic", "LEICA", "LEICA CAMERA AG"]);
    vendor_model(&mut b, main, "panasonic", make);
    b.orientation(main);
    let c = b.r.usize(0, 5);
    b.noise(None, main, c);
    // the JPEG, and the Exif in it.
    if !b.r.one_in(5) {
        let mut t = Tiff::new(b.r.bool());
        std::mem::swap(&mut b.t, &mut t);
        // The nodes of the two files have the same numbers.
        let used = std::mem::take(&mut b.used);
        let mut thumb = None;
        let with_exif = !b.r.one_in(6);
        if with_exif {
            let m = b.ifd();
            b.t.first = Some(m);
            b.set(m, 0x10f, asc("other"));
            let c = b.r.usize(0, 3);
            b.noise(None, m, c);
            let exif = b.exif(m);
            if b.r.bool() {
                let n = b.t.note(b"Panasonic\0\0\0".to_vec(), vec![], None);
                let c = b.r.usize(2, 6);
                b.noise(Some(2), n, c);
                b.set(exif, 0x927c, V::Region(n));
                b.note("mnote");
            }
            if b.r.bool() {
                let j = fake_jpeg(b.r, 160, 120, None);
                let n = b.ifd();
                b.set(n, 0x103, V::Short(vec![6]));
                b.set(n, 0x202, V::Long(vec![j.len() as u32]));
                let blob = b.t.blob(j.clone());
                b.set(n, 0x201, V::Ptr(vec![blob]));
                b.t.set_next(m, n);
                thumb = Some(j);
            }
        }
        std::mem::swap(&mut b.t, &mut t);
        b.used = used;
        let app1 = t.build(b.r);
        if let Some(j) = thumb {
            b.add_thumb(160, 120, DataType::Jpeg, j);
        }
        let (w, h) = b.thumb_dims();
        let j = fake_jpeg(b.r, w, h, with_exif.then_some(&app1[..]));
        b.add_thumb(w, h, DataType::Jpeg, j.clone());
        b.set(main, 0x2e, V::Undef(j));
        b.note("jpeg");
    }
    let bpc = *b.r.pick(&[12, 12, 14, 16]);
    let with_bpc = !b.r.one_in(5);
    let bpc = if with_bpc { bpc } else { 16 };
    let mut e = RawExp {
        bpc: Some(bpc),
        wb: Some(None),
        aspect: Some(None),
        photom: Some(32803),
        ..Default::default()
    };
    let mut skip = SkipExp::Same;
    let by_offset = b.r.bool();
    let kind = b.r.range(0, 9);
    let (w, h, data);
    match kind {
        // compressed
        0 | 1 => {
            let c;
            if by_offset {
                (c, h) = (dim(b.r, 1, 9), dim(b.r, 1, 40));
            } else {
                // Enough samples not to be taken for packed data.
                c = b.r.usize(20, 24);
                h = b.r.usize(0x4000 * 2 / 3 / 14 / c + 1, 1024 / c);
            }
            w = c * 14;
            let (file, img) = compressed(b.r, c * h);
            e.data = img;
            e.extra = true;
            e.compression = Some(1);
            b.set(main, 0xb, V::Short(vec![34316]));
            skip = SkipExp::Data8(file.clone());
            data = file;
            b.note(format!("compressed {w}x{h} offset={by_offset}"));
        }
        // another compression
        2 if by_offset => {
            (w, h) = (dim(b.r, 4, 60), dim(b.r, 1, 30));
            let n = b.r.usize(1, w * h);
            data = b.r.bytes(n);
            let c = *b.r.pick(&[34826_u16, 34828, 34830]);
            b.set(main, 0xb, V::Short(vec![c]));
            e.data8 = Some(data.clone());
            e.compression = Some(c as u32);
            skip = SkipExp::Data8(data.clone());
            b.note(format!("compression {c}"));
        }
        3 | 4 | 5 => {
            (w, h) = (10 * dim(b.r, 1, 8), dim(b.r, 1, 20));
            e.data = any_image(b.r, w, h, 12);
            data = e.data.chunks(10).flat_map(|c| {
                let mut v = pack_le12(c);
                v.push(0);
                v
            }).collect();
            if b.r.bool() {
                b.set(main, 0xb, V::Short(vec![34316]));
            }
            b.note(format!("packed {w}x{h}"));
        }
        _ => {
            (w, h) = (dim(b.r, 1, 60), dim(b.r, 1, 30));
            e.data = any_image(b.r, w, h, 12);
            let v: Vec<u16> = e.data.iter().map(|v| v << 4 | b.r.r16(0, 15)).collect();
            data = bytes16(&v, false);
            b.note(format!("unpacked {w}x{h}"));
        }
    }
    e.w = w as u32;
    e.h = h as u32;
    let len = data.len();
    let blob = b.t.blob(data);
    b.t.last.push(blob);
    let compressed = kind < 2 || (kind == 2 && by_offset);
    if compressed && by_offset {
        b.set(main, 0x118, V::Ptr(vec![blob]));
        if b.r.bool() {
            b.set(main, 0x111, V::Long(vec![0xffff_ffff]));
            b.set(main, 0x117, V::Long(vec![0]));
        }
    } else {
        b.set(main, 0x111, V::Ptr(vec![blob]));
        b.set(main, 0x117, V::Long(vec![len as u32]));
    }
    let v = shortlong(b.r, w as u32);
    b.set(main, 2, v);
    let v = shortlong(b.r, h as u32);
    b.set(main, 3, v);
    if with_bpc {
        b.set(main, 0xa, V::Short(vec![bpc]));
    }
    let p = b.r.r16(0, 5);
    if p != 0 {
        b.set(main, 9, V::Short(vec![p]));
    }
    if (1..=4).contains(&p) {
        e.mosaic = Some((2, 2, ["RGGB", "GRBG", "GBRG", "BGGR"][p as usize - 1].into()));
    }
    e.active = Some(Some([0, 0, e.w, e.h]));
    let v: Vec<u16> = vec![b.r.r16(0, 60), b.r.r16(0, 60), b.r.r16(100, 5000), b.r.r16(100, 5000)];
    for (i, v) in v.iter().enumerate() {
        // top, left, bottom, right
        b.set(main, 4 + i as u16, V::Short(vec![*v]));
    }
    e.crop = Some(Some([v[1] as u32, v[0] as u32, (v[3] - v[1]) as u32, (v[2] - v[0]) as u32]));
    let level = |b: &mut B, tag: u16, d: u16| {
        if b.r.one_in(4) {
            d
        } else {
            let v = b.r.r16(1, 4095);
            b.set(main, tag, V::Short(vec![v]));
            v
        }
    };
    let d = if bpc == 16 { 65535 } else { (1 << bpc) - 1 };
    let (wr, wg, wb) = (level(&mut b, 0xe, d), level(&mut b, 0xf, d), level(&mut b, 0x10, d));
    e.whites = Some([wr, wg, wb, wg]);
    let (br, bg, bb) = (level(&mut b, 0x1c, 0), level(&mut b, 0x1d, 0), level(&mut b, 0x1e, 0));
    e.blacks = Some([br, bg, bb, bg]);
    let (r0, g0, b0) = (level(&mut b, 0x24, 0), level(&mut b, 0x25, 0), level(&mut b, 0x26, 0));
    let (rb, bb) = (level(&mut b, 0x11, 0), level(&mut b, 0x12, 0));
    if g0 != 0 {
        let f = |v: u16| if v == 0 { 1.0 } else { g0 as f64 / v as f64 };
        e.wb = Some(Some([f(r0), 1.0, f(b0), f64::NAN]));
    } else if rb != 0 && bb != 0 {
        e.wb = Some(Some([256.0 / rb as f64, 1.0, 256.0 / bb as f64, f64::NAN]));
    }
    b.e.raw = Some(e);
    b.e.skip = Some(skip);
    b.finish("rw2", "rw2")
}
