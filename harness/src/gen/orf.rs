//! Olympus ORF.
use libopenraw::{DataType, Type};

use super::*;
use crate::bits::{bytes16, pack_be, smooth, BitW};
use crate::exp::SkipExp;
use crate::tiffb::Base;

/// The adaptive code of the compressed files (see olympus_load_raw in dcraw).
pub fn encode(r: &mut Rng, img: &[u16], w: usize) -> Vec<u8> {
    let mut bw = BitW::new(false);
    for _ in 0..7 {
        bw.put(r.u8() as u32, 8);
    }
    let at = |y: usize, x: usize| img[y * w + x] as i32;
    for y in 0..img.len() / w {
        let mut carry = [[0i32; 3]; 2];
        for x in 0..w {
            let c = &mut carry[x & 1];
            let i = if c[2] < 3 { 2 } else { 0 };
            let mut nbits = 2 + i;
            while (c[0] as u16 as u32) >> (nbits + i) != 0 {
                nbits += 1;
            }
            let pred = match (y, x) {
                (0 | 1, 0 | 1) => 0,
                (0 | 1, _) => at(y, x - 2),
                (_, 0 | 1) => at(y - 2, x),
                _ => {
                    let (l, n, nw) = (at(y, x - 2), at(y - 2, x), at(y - 2, x - 2));
                    if (l < nw && nw < n) || (n < nw && nw < l) {
                        if (l - nw).abs() > 32 || (n - nw).abs() > 32 {
                            l + n - nw
                        } else {
                            (l + n) >> 1
                        }
                    } else if (l - nw).abs() > (n - nw).abs() {
                        l
                    } else {
                        n
                    }
                }
            };
            let delta = at(y, x) - pred;
            let (low, diff) = (delta & 3, delta >> 2);
            let v = diff - c[1];
            let (sign, mag) = if v < 0 { (1, !v) } else { (0, v) };
            bw.put(sign << 2 | low as u32, 3);
            let high = mag >> nbits;
            if high < 12 {
                bw.put(1, high as u32 + 1);
            } else {
                bw.put(0, 12);
                bw.put((high as u32) << 1 | r.r32(0, 1), 16 - nbits as u32);
            }
            bw.put(mag as u32 & ((1 << nbits) - 1), nbits as u32);
            c[0] = mag;
            c[1] = (diff * 3 + c[1]) >> 5;
            c[2] = if mag > 16 { 0 } else { c[2] + 1 };
        }
    }
    bw.flush(0);
    bw.out
}

fn packed(img: &[u16]) -> Vec<u8> {
    img.chunks(10)
        .flat_map(|c| {
            let mut v = pack_le12(c);
            v.push(0);
            v
        })
        .collect()
}

pub fn gen(r: &mut Rng) -> GenFile {
    let be = r.one_in(5);
    let mut b = B::new(r, Type::Orf, be);
    b.t.header = if be {
        b"MMOR\0\0\0\0".to_vec()
    } else if b.r.bool() {
        b"IIRO\0\0\0\0".to_vec()
    } else {
        b"IIRS\0\0\0\0".to_vec()
    };
    let main = b.ifd();
    b.t.first = Some(main);
    let make = *b.r.pick(&["OLYMPUS IMAGING CORP.  ", "OLYMPUS CORPORATION", "OLYMPUS OPTICAL CO.,LTD", "OM Digital Solutions"]);
    vendor_model(&mut b, main, "olympus", make);
    b.orientation(main);
    let c = b.r.usize(0, 5);
    b.noise(Some(0), main, c);
    let exif = b.exif(main);
    if b.r.one_in(3) {
        let n = b.ifd();
        b.preview(n, false);
        b.t.set_next(main, n);
    }
    let mut e = RawExp {
        bpc: Some(12),
        blacks: Some([0; 4]),
        whites: Some([4095; 4]),
        compression: Some(1),
        aspect: Some(None),
        crop: Some(None),
        wb: Some(None),
        photom: Some(32803),
        ..Default::default()
    };
    let kind = b.r.range(0, 9);
    let bps = *b.r.pick(&[12, 16]);
    let mut cut = false;
    let (w, h, img, data, len) = match kind {
        0 | 1 => {
            let (w, h) = (10 * dim(b.r, 1, 8), dim(b.r, 1, 20));
            let img = any_image(b.r, w, h, 12);
            let data = packed(&img);
            let n = data.len();
            b.note(format!("packed {w}x{h}"));
            (w, h, img, data, n)
        }
        2 => {
            let (w, h) = (8 * dim(b.r, 463, 500), dim(b.r, 1, 4));
            let img = any_image(b.r, w, h, 12);
            let mut data = pack_be(&img, 12);
            data.chunks_exact_mut(4).for_each(|c| c.reverse());
            let n = data.len();
            b.note(format!("12be {w}x{h}"));
            (w, h, img, data, n)
        }
        3 => {
            let (w, h) = loop {
                let (w, h) = (2 * dim(b.r, 4, 60), dim(b.r, 1, 40));
                if (h.div_ceil(2) * w * 3 / 2) % 2048 != 0 {
                    break (w, h);
                }
            };
            let img = any_image(b.r, w, h, 12);
            let field = |p: usize| -> Vec<u8> { img.chunks(w).skip(p).step_by(2).flat_map(|r| pack_be(r, 12)).collect() };
            let mut data = field(0);
            while data.len() % 2048 != 0 {
                data.push(b.r.u8());
            }
            data.extend(field(1));
            b.note(format!("interlaced {w}x{h}"));
            (w, h, img, data, w * h * 3 / 2)
        }
        4 | 5 => {
            let (w, h) = (dim(b.r, 4, 60), dim(b.r, 1, 30));
            let img = any_image(b.r, w, h, 12);
            let data = bytes16(&img, be);
            let n = data.len();
            b.note(format!("plain {w}x{h}"));
            (w, h, img, data, n)
        }
        _ => loop {
            let (w, h) = (dim(b.r, 2, 60), dim(b.r, 1, 40));
            let d = *b.r.pick(&[2, 10, 60, 300]);
            let img = if b.r.one_in(3) { any_image(b.r, w, h, 12) } else { smooth(b.r, w, h, 12, d) };
            let mut data = encode(b.r, &img, w);
            // Not enough to decode all of it.
            cut = b.r.one_in(8);
            if cut {
                let most = if b.r.bool() { 1 } else { (data.len() - 1).max(1) };
                data.truncate(data.len() - b.r.usize(1, most));
            }
            let n = data.len();
            if n < 2 * w * h && n != w * h * 3 / 2 && n != h * (w * 3 / 2 + (w + 2) / 10) {
                b.note(format!("compressed {w}x{h} cut={cut}"));
                break (w, h, img, data, n);
            }
        },
    };
    b.dims(main, w, h, bps);
    b.set(main, 0x103, V::Short(vec![1]));
    b.set(main, 0x117, V::Long(vec![len as u32]));
    let blob = b.t.blob(data.clone());
    b.set(main, 0x111, V::Ptr(vec![blob]));
    e.w = w as u32;
    e.h = h as u32;
    if cut {
        e.data8 = Some(data.clone());
        e.bpc = None;
        e.compression = None;
    }
    e.data = img;
    e.mosaic = Some(b.cfa(main, Some(exif)));
    let skip = if matches!(kind, 4 | 5) {
        SkipExp::Same
    } else {
        SkipExp::Data8(data[..len.min(data.len())].to_vec())
    };
    // the interlaced data may end before the byte count
    let skip = (kind != 3).then_some(skip);
    e.active = Some(Some([0, 0, e.w, e.h]));
    if !b.r.one_in(5) {
        let o = if be { b"MM" } else { b"II" };
        let (n, base) = match b.r.range(0, 2) {
            0 => {
                let mut hdr = b"OLYMPUS\0".to_vec();
                hdr.extend_from_slice(o);
                hdr.extend_from_slice(&[3, 0]);
                let n = b.t.note(hdr, vec![], Some(0));
                (n, Base::At(n, 0))
            }
            1 => {
                let mut hdr = b"OM SYSTEM\0\0\0".to_vec();
                hdr.extend_from_slice(o);
                hdr.extend_from_slice(&[4, 0]);
                let n = b.t.note(hdr, vec![], Some(0));
                (n, Base::At(n, 0))
            }
            _ => (b.t.note(b"OLYMP\0\x01\0".to_vec(), vec![], None), Base::File),
        };
        let file = matches!(base, Base::File);
        let sub = |b: &mut B, tag: u16| {
            let i = b.t.ifd_based(vec![], base);
            if !file {
                b.t.last.push(i);
            }
            let v = match b.r.range(0, if file { 2 } else { 1 }) {
                0 => V::Ptr(vec![i]),
                1 => V::Ptr13(i),
                _ => V::Region(i),
            };
            b.set(n, tag, v);
            let c = b.r.usize(1, 4);
            b.noise(None, i, c);
            i
        };
        if b.r.bool() {
            let (w, h, j) = b.jpeg();
            b.add_thumb(w, h, DataType::Jpeg, j.clone());
            b.set(n, 0x100, V::Undef(j));
            b.note("mnote-thumb");
        }
        if b.r.bool() {
            let cs = sub(&mut b, 0x2020);
            let valid = !b.r.one_in(4);
            b.set(cs, 0x100, V::Long(vec![valid as u32]));
            let (w, h, j) = b.jpeg();
            b.set(cs, 0x102, V::Long(vec![j.len() as u32]));
            let blob = b.t.blob(j.clone());
            b.t.last.push(blob);
            b.set(cs, 0x101, V::Ptr(vec![blob]));
            if valid {
                b.add_thumb(w, h, DataType::Jpeg, j);
            }
            b.note("cs-preview");
        }
        let mut wb = None;
        if b.r.one_in(3) {
            let (x, y) = (b.r.r16(1, 2000), b.r.r16(1, 2000));
            b.set(n, 0x1017, V::Short(vec![x, 64]));
            b.set(n, 0x1018, V::Short(vec![y, 64]));
            wb = Some([256.0 / x as f64, 1.0, 256.0 / y as f64, f64::NAN]);
        }
        if b.r.bool() {
            let ip = sub(&mut b, 0x2040);
            if b.r.bool() {
                let c = *b.r.pick(&[2, 4, 3]);
                let v: Vec<u16> = (0..c).map(|_| b.r.r16(1, 2000)).collect();
                if c != 3 && wb.is_none() {
                    wb = Some([256.0 / v[0] as f64, 1.0, 256.0 / v[1] as f64, f64::NAN]);
                }
                b.set(ip, 0x100, V::Short(v));
            }
            if b.r.bool() {
                let c = *b.r.pick(&[1, 4]);
                let v: Vec<u16> = (0..c).map(|_| b.r.r16(0, 400)).collect();
                e.blacks = Some(if c == 1 { [v[0]; 4] } else { [v[0], v[1], v[2], v[3]] });
                b.set(ip, 0x600, V::Short(v));
            }
            let (mut x, mut y) = (0, 0);
            if b.r.bool() {
                let v: Vec<u32> = (0..4).map(|_| b.r.r32(0, 5000)).collect();
                x = v[0];
                y = v[1];
                for (i, t) in [0x612, 0x613, 0x614, 0x615].into_iter().enumerate() {
                    let v = shortlong(b.r, v[i]);
                    b.set(ip, t, v);
                }
                e.active = Some(Some([v[0], v[1], v[2], v[3]]));
            }
            if b.r.bool() {
                let (l, t) = (b.r.r32(0, 500), b.r.r32(0, 500));
                let (cw, ch) = (b.r.r32(1, 4000), b.r.r32(1, 4000));
                let v = shortlongs(b.r, &[l, t, l + cw - 1, t + ch - 1]);
                b.set(ip, 0x1113, v);
                e.crop = Some(Some([l + x, t + y, cw, ch]));
            }
            b.note("ip");
        }
        e.wb = Some(wb);
        let c = b.r.usize(2, 6);
        b.noise(Some(2), n, c);
        b.set(exif, 0x927c, V::Region(n));
    }
    b.e.raw = Some(e);
    b.e.skip = skip;
    let mut f = b.finish("orf", "orf");
    if be {
        f.hint = Some(Type::Orf);
    }
    f
}
