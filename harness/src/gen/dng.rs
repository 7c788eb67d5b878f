//! Adobe DNG.
use libopenraw::{DataType, Type};

use super::*;
use crate::bits::{bytes16, image, ljpeg, pack_be, smooth, LjParams};
use crate::exp::{RawExp, SkipExp};

/// Cut a tile out of the image, with the padding given by `pad`
pub fn tile(img: &[u16], w: usize, h: usize, x0: usize, y0: usize, tw: usize, th: usize, r: &mut Rng, bits: u32) -> Vec<u16> {
    let junk = r.u16() & (((1_u32 << bits) - 1) as u16);
    let mut o = Vec::with_capacity(tw * th);
    for y in y0..y0 + th {
        for x in x0..x0 + tw {
            o.push(if x < w && y < h { img[y * w + x] } else { junk });
        }
    }
    o
}

/// Pack rows, each one on a byte boundary.
pub fn pack_rows(img: &[u16], w: usize, bits: u32) -> Vec<u8> {
    let mut o = vec![];
    for row in img.chunks(w) {
        o.extend(pack_be(row, bits));
    }
    o
}

fn lj(r: &mut Rng, w: usize, h: usize, bpc: u32, s: &[u16]) -> Vec<u8> {
    // Components divide the width.
    let ncs: Vec<usize> = [1, 2, 2, 3, 4].into_iter().filter(|n| w % n == 0).collect();
    let nc = *r.pick(&ncs);
    let p = LjParams {
        w: w / nc,
        h,
        nc,
        bpc,
        psv: r.r32(1, 7) as u8,
        pt: 0,
        restart: if r.one_in(6) { r.usize(1, h.min(65535 / w)) } else { 0 },
        tables: r.usize(1, 4),
        extra_markers: r.one_in(3),
        fill_ff: false,
    };
    ljpeg(r, &p, s)
}

pub fn rat(r: &mut Rng, v: u32) -> (u32, u32) {
    let d = *r.pick(&[1, 1, 2, 10]);
    (v * d, d)
}

fn uints(r: &mut Rng, v: &[u32]) -> V {
    if r.one_in(3) {
        let d = *r.pick(&[1, 2, 10]);
        V::Rat(v.iter().map(|v| (v * d, d)).collect())
    } else {
        shortlongs(r, v)
    }
}

/// Write the raw image in directory `n`: data, size, levels, crops. Everything of the raw IFD.
pub fn raw_ifd(b: &mut B, n: Node) {
    let (w, h) = (dim(b.r, 4, 70), dim(b.r, 1, 40));
    let linear = b.r.one_in(8);
    let layout = if linear { 1 } else { b.r.range(0, 5) };
    let bpc = if linear { 16 } else { *b.r.pick(&[8, 10, 12, 12, 14, 14, 16, 16]) };
    let spp = if linear { 3 } else { 1 };
    let img = if b.r.one_in(3) {
        smooth(b.r, w * spp, h, bpc, 9)
    } else {
        image(b.r, w * spp, h, bpc)
    };
    let be = b.t.be;
    // 12 and 14 bit samples might be in 16 bits
    let wide = matches!(bpc, 12 | 14) && b.r.bool() && !linear;
    let enc = |img: &[u16], w: usize| -> Vec<u8> {
        match bpc {
            8 => img.iter().map(|v| *v as u8).collect(),
            16 => bytes16(img, be),
            _ if wide => bytes16(img, be),
            _ => pack_rows(img, w, bpc),
        }
    };
    let v = shortlong(b.r, w as u32);
    b.set(n, 0x100, v);
    let v = shortlong(b.r, h as u32);
    b.set(n, 0x101, v);
    b.set(n, 0x102, V::Short(vec![bpc as u16; spp]));
    b.set(n, 0x106, V::Short(vec![if linear { 34892 } else { 32803 }]));
    if b.r.bool() || linear {
        b.set(n, 0x115, V::Short(vec![spp as u16]));
    }
    let mut e = RawExp {
        w: w as u32,
        h: h as u32,
        bpc: Some(bpc as u16),
        photom: Some(if linear { 34892 } else { 32803 }),
        ..Default::default()
    };
    let skip;
    match layout {
        0 | 1 => {
            // strips, uncompressed
            b.set(n, 0x103, V::Short(vec![1]));
            let rps = cut_rows(b.r, h);
            let strips: Vec<Vec<u8>> = img.chunks(rps * w * spp).map(|s| enc(s, w)).collect();
            b.note(format!("strips={} bpc={bpc} wide={wide} linear={linear}", strips.len()));
            let contiguous = b.r.bool();
            let lens: Vec<u32> = strips.iter().map(|s| s.len() as u32).collect();
            let v = shortlong(b.r, rps as u32);
            b.set(n, 0x116, v);
            let v = shortlongs(b.r, &lens);
            b.set(n, 0x117, v);
            if contiguous && strips.len() == 1 || !contiguous {
                let nodes: Vec<Node> = strips.into_iter().map(|s| b.t.blob(s)).collect();
                b.set(n, 0x111, V::Ptr(nodes));
            } else {
                // one after the other
                let all = b.t.blob(strips.concat());
                b.set(n, 0x111, V::PtrRun(all, lens));
            }
            e.compression = Some(1);
            skip = SkipExp::Same;
        }
        2 | 3 => {
            // tiles
            let (tw, th) = (b.r.usize(1, w + 8).max(4), b.r.usize(1, h + 8).max(3));
            let tw = if bpc < 16 { tw.div_ceil(4) * 4 } else { tw };
            let lossless = layout == 3;
            let (nx, ny) = (w.div_ceil(tw), h.div_ceil(th));
            b.note(format!("tiles={nx}x{ny} of {tw}x{th} bpc={bpc} wide={wide} ljpeg={lossless}"));
            let mut tiles = vec![];
            for ty in 0..ny {
                for tx in 0..nx {
                    let t = tile(&img, w, h, tx * tw, ty * th, tw, th, b.r, bpc);
                    tiles.push(if lossless { lj(b.r, tw, th, bpc, &t) } else { enc(&t, tw) });
                }
            }
            b.set(n, 0x103, V::Short(vec![if lossless { 7 } else { 1 }]));
            let v = shortlong(b.r, tw as u32);
            b.set(n, 0x142, v);
            let v = shortlong(b.r, th as u32);
            b.set(n, 0x143, v);
            b.set(n, 0x145, V::Long(tiles.iter().map(|t| t.len() as u32).collect()));
            let nodes: Vec<Node> = tiles.iter().map(|t| b.t.blob(t.clone())).collect();
            b.set(n, 0x144, V::Ptr(nodes));
            if lossless {
                skip = SkipExp::Tiles(tiles, (tw as u32, th as u32));
            } else {
                e.compression = Some(1);
                skip = SkipExp::Same;
            }
        }
        _ => {
            // one strip, lossless JPEG
            let data = lj(b.r, w, h, bpc, &img);
            b.note(format!("ljpeg strip bpc={bpc}"));
            b.set(n, 0x103, V::Short(vec![7]));
            b.set(n, 0x117, V::Long(vec![data.len() as u32]));
            let node = b.t.blob(data.clone());
            b.set(n, 0x111, V::Ptr(vec![node]));
            skip = SkipExp::Data8(data);
        }
    }
    if !linear {
        if b.r.one_in(12) {
            e.mosaic = Some((0, 0, String::new()));
        } else if b.r.one_in(8) {
            // 6x6
            let p: Vec<u8> = (0..36).map(|_| b.r.r32(0, 2) as u8).collect();
            b.set(n, 0x828d, V::Short(vec![6, 6]));
            e.mosaic = Some((6, 6, cfa_text(&p)));
            b.set(n, 0x828e, V::Byte(p));
        } else {
            let p = *b.r.pick(&CFA);
            b.set(n, 0x828d, V::Short(vec![2, 2]));
            b.set(n, 0x828e, V::Byte(p.to_vec()));
            e.mosaic = Some((2, 2, cfa_text(&p)));
        }
    }
    // levels
    let default_white = if bpc < 16 { (1_u32 << bpc) - 1 } else { 65535 };
    e.whites = Some([default_white as u16; 4]);
    e.blacks = Some([0; 4]);
    let max = default_white;
    if b.r.bool() {
        let q: Vec<u32> = (0..4).map(|_| b.r.r32(0, max / 4)).collect();
        if b.r.bool() {
            b.set(n, 0xc619, V::Short(vec![2, 2]));
            let v = uints(b.r, &q);
            b.set(n, 0xc61a, v);
            e.blacks = Some([q[0] as u16, q[1] as u16, q[2] as u16, q[3] as u16]);
        } else {
            let v = uints(b.r, &q[..1]);
            b.set(n, 0xc61a, v);
            e.blacks = Some([q[0] as u16; 4]);
        }
    }
    if b.r.bool() {
        let x = b.r.r32(max / 2, max);
        let v = shortlong(b.r, x);
        b.set(n, 0xc61d, v);
        e.whites = Some([x as u16; 4]);
    }
    // areas, in the image
    let mut aa = [0, 0, w as u32, h as u32];
    if b.r.bool() {
        let x0 = b.r.r32(0, w as u32 - 1);
        let y0 = b.r.r32(0, h as u32 - 1);
        let x1 = b.r.r32(x0 + 1, w as u32);
        let y1 = b.r.r32(y0 + 1, h as u32);
        let v = shortlongs(b.r, &[y0, x0, y1, x1]);
        b.set(n, 0xc68d, v);
        aa = [x0, y0, x1 - x0, y1 - y0];
    }
    e.active = Some(Some(aa));
    e.crop = Some(None);
    if b.r.bool() {
        let x = b.r.r32(0, aa[2] - 1);
        let y = b.r.r32(0, aa[3] - 1);
        let cw = b.r.r32(1, aa[2] - x);
        let ch = b.r.r32(1, aa[3] - y);
        let v = uints(b.r, &[x, y]);
        b.set(n, 0xc61f, v);
        let v = uints(b.r, &[cw, ch]);
        b.set(n, 0xc620, v);
        e.crop = Some(Some([x + aa[0], y + aa[1], cw, ch]));
    }
    e.lin = Some(None);
    if b.r.one_in(3) {
        let len = if b.r.bool() { 1 << bpc.min(10) } else { b.r.usize(1, 300) };
        let mut t: Vec<u16> = (0..len).map(|_| b.r.u16()).collect();
        t.sort();
        e.lin = Some(Some(t.clone()));
        b.set(n, 0xc618, V::Short(t));
    }
    e.aspect = Some(None);
    e.data = img;
    b.e.raw = Some(e);
    b.e.skip = Some(skip);
    b.note(format!("{w}x{h}"));
}

fn matrix(r: &mut Rng) -> (V, Vec<f64>) {
    let d = *r.pick(&[10000_i32, 1 << 16, 1000]);
    let m: Vec<(i32, i32)> = (0..9).map(|_| (r.i64(-20000, 20000) as i32, d)).collect();
    let f = m.iter().map(|v| v.0 as f64 / v.1 as f64).collect();
    (V::SRat(m), f)
}

/// Matrices, illuminants and white balance, in the main IFD
pub fn colour(b: &mut B, main: Node) {
    for i in 0..2 {
        b.e.matrix[i] = Some(None);
        b.e.illum[i] = Some(0);
        if b.r.one_in(4) {
            continue;
        }
        let (v, m) = matrix(b.r);
        b.tag(0, main, 0xc621 + i as u16, v);
        b.e.matrix[i] = Some(Some((true, m)));
        if !b.r.one_in(5) {
            let ill = *b.r.pick(&[1_u16, 3, 4, 9, 10, 11, 17, 18, 19, 20, 21, 22, 23, 24]);
            b.tag(0, main, 0xc65a + i as u16, V::Short(vec![ill]));
            b.e.illum[i] = Some(ill as u32);
        }
    }
    let e = b.e.raw.as_mut().unwrap();
    e.wb = Some(None);
    e.wb_xy = Some(None);
    match b.r.range(0, 2) {
        0 => {
            let v: Vec<(u32, u32)> = (0..3).map(|_| (b.r.r32(1, 3000), 1000)).collect();
            let f: Vec<f64> = v.iter().map(|v| v.0 as f64 / v.1 as f64).collect();
            b.e.raw.as_mut().unwrap().wb = Some(Some([f[0], f[1], f[2], f64::NAN]));
            b.set(main, 0xc628, V::Rat(v));
        }
        1 => {
            let v: Vec<(u32, u32)> = (0..2).map(|_| (b.r.r32(100, 600), 1000)).collect();
            b.e.raw.as_mut().unwrap().wb_xy =
                Some(Some((v[0].0 as f64 / 1000.0, v[1].0 as f64 / 1000.0)));
            b.set(main, 0xc629, V::Rat(v));
        }
        _ => {}
    }
}

pub fn gen(r: &mut Rng) -> GenFile {
    let be = r.bool();
    let mut b = B::new(r, Type::Dng, be);
    let main = b.ifd();
    b.t.first = Some(main);
    b.tag(0, main, 0xc612, V::Byte(vec![1, 4, 0, 0]));
    // Identity. Known cameras are found by Model, or UniqueCameraModel
    let mut make: String = b.r.pick(&["Adobe", "LEICA CAMERA AG", "PENTAX", "Zorglub", "Canon", "NIKON CORPORATION"]).to_string();
    let leica6 = b.r.one_in(10);
    let id = if b.r.bool() || leica6 {
        let (mut model, mut id) = camera(b.r, "dng");
        if leica6 {
            model = "LEICA M (Typ 240)".into();
            make = "Leica Camera AG".into();
            id = tables().cameras["dng"].iter().rev().find(|c| c.0 == model).unwrap().1;
        }
        if leica6 || b.r.bool() {
            b.make_model(main, Some(&make), Some(&model));
        } else {
            // Model counts first
            b.tag(0, main, 0xc614, asc(&model));
        }
        id
    } else {
        if b.r.bool() {
            let m = unknown_model(b.r);
            b.make_model(main, Some(&make), Some(&m));
        }
        if b.r.bool() {
            let m = unknown_model(b.r);
            b.tag(0, main, 0xc614, asc(&m));
        }
        ADOBE_GENERIC
    };
    b.e.type_id = Some(id);
    b.orientation(main);
    let primary = b.r.one_in(4);
    let mut subs = vec![];
    if primary {
        b.note("main-primary");
        b.set(main, 0xfe, V::Long(vec![0]));
        raw_ifd(&mut b, main);
    } else {
        match b.r.range(0, 3) {
            0 => {
                // no image in the main IFD
                b.set(main, 0xfe, V::Long(vec![1]));
            }
            _ => b.preview(main, true),
        }
        let raw = b.ifd();
        b.set(raw, 0xfe, V::Long(vec![0]));
        raw_ifd(&mut b, raw);
        subs.push(raw);
        let c = b.r.usize(0, 4);
        b.noise(None, raw, c);
    }
    let np = b.r.usize(0, 3);
    for _ in 0..np {
        let n = b.ifd();
        b.preview(n, true);
        subs.push(n);
    }
    b.r.shuffle(&mut subs);
    if !subs.is_empty() {
        b.set(main, 0x14a, V::Ptr(subs));
    }
    colour(&mut b, main);
    let c = b.r.usize(0, 6);
    b.noise(Some(0), main, c);
    if leica6 || b.r.bool() {
        let exif = b.exif(main);
        if leica6 {
            let (w, h, j) = b.jpeg();
            let jn = b.t.blob(j.clone());
            let entries = vec![
                (0x300, V::UndefAt(jn, j.len() as u32)),
                (0x301, V::Short(vec![b.r.u16()])),
                (0x303, V::Ascii(b.r.ascii(10, 20).into_bytes())),
            ];
            let note = b.t.note(b"LEICA\0\x02\xff".to_vec(), entries, None);
            b.set(exif, 0x927c, V::Region(note));
            b.add_thumb(w, h, DataType::Jpeg, j);
            b.note("leica6");
        } else if b.r.bool() {
            super::mnote::any(&mut b, exif);
        }
    }
    // a second directory
    if b.r.one_in(3) {
        let n = b.ifd();
        if b.r.bool() {
            b.preview(n, true);
        } else {
            b.set(n, 0xfe, V::Long(vec![0]));
            b.noise(None, n, 4);
        }
        b.t.set_next(main, n);
        b.note("chained");
    }
    b.finish("dng", "dng")
}

pub const ADOBE_GENERIC: u32 = 0x000d_0001;
