//! Fujifilm RAF.
use libopenraw::{DataType, Type};

use super::*;
use crate::exp::SkipExp;
use crate::tiffb::w32;

fn p(o: &mut Vec<u8>, hi: u32, lo: u32) {
    o.extend_from_slice(&((hi << 16) | lo).to_be_bytes());
}

/// 14 bits, MSB first in 32 bits little endian words.
fn pack14(img: &[u16]) -> Vec<u8> {
    let mut b = crate::bits::pack_be(img, 14);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    b.chunks_mut(4).for_each(|c| c.reverse());
    b
}

/// The rectangle of the ratio inside of `r`.
fn crop_into(r: [u32; 4], a: (u32, u32)) -> [u32; 4] {
    let (w, h) = (r[2] as u64, r[3] as u64);
    let (aw, ah) = (a.0 as u64, a.1 as u64);
    let (nw, nh) = if w * ah > h * aw { (h * aw / ah, h) } else { (w, w * ah / aw) };
    [r[0] + ((w - nw) / 2) as u32, r[1] + ((h - nh) / 2) as u32, nw as u32, nh as u32]
}

/// The JPEG preview with its Exif.
fn preview(b: &mut B) -> Vec<u8> {
    let mut t = Tiff::new(b.r.bool());
    std::mem::swap(&mut b.t, &mut t);
    let used = std::mem::take(&mut b.used);
    let with_exif = !b.r.one_in(8);
    let mut thumb = None;
    if with_exif {
        let m = b.ifd();
        b.t.first = Some(m);
        b.make_model(m, Some("FUJIFILM"), Some("anything"));
        b.orientation(m);
        let c = b.r.usize(0, 5);
        b.noise(Some(0), m, c);
        let exif = b.exif(m);
        if b.r.bool() {
            let n = b.t.note_endian(b"FUJIFILM\x0c\0\0\0".to_vec(), vec![], Some(0), false);
            let c = b.r.usize(2, 6);
            b.noise(Some(2), n, c);
            b.set(exif, 0x927c, V::Region(n));
            b.note("mnote");
        }
        if b.r.bool() {
            let (w, h) = b.thumb_dims();
            let j = fake_jpeg(b.r, w, h, None);
            let n = b.ifd();
            b.set(n, 0x103, V::Short(vec![6]));
            b.set(n, 0x202, V::Long(vec![j.len() as u32]));
            let blob = b.t.blob(j.clone());
            b.set(n, 0x201, V::Ptr(vec![blob]));
            b.t.set_next(m, n);
            thumb = Some((w, h, j));
        }
    } else {
        b.e.orientation = Some(0);
    }
    std::mem::swap(&mut b.t, &mut t);
    b.used = used;
    let app1 = t.build(b.r);
    if let Some((w, h, j)) = thumb {
        b.add_thumb(w, h, DataType::Jpeg, j);
    }
    let (w, h) = b.thumb_dims();
    let j = fake_jpeg(b.r, w, h, with_exif.then_some(&app1[..]));
    b.add_thumb(w, h, DataType::Jpeg, j.clone());
    j
}

pub fn gen(r: &mut Rng) -> GenFile {
    let mut b = B::new(r, Type::Raf, false);
    let (model, id) = if b.r.one_in(5) {
        (unknown_model(b.r), unknown_id("fujifilm"))
    } else {
        camera(b.r, "fujifilm")
    };
    b.ident("fujifilm", id);
    let jpeg = preview(&mut b);

    let container = !b.r.one_in(4);
    let old_wb = if container { None } else { Some([b.r.r16(1, 2000), b.r.r16(1, 2000), b.r.r16(1, 2000), b.r.r16(1, 2000)]) };
    let mut e = RawExp {
        active: Some(None),
        crop: Some(None),
        aspect: Some(None),
        wb: Some(None),
        wb_xy: Some(None),
        photom: Some(32803),
        lin: Some(None),
        bpc: Some(16),
        ..Default::default()
    };
    let compressed = b.r.one_in(10);
    let (w, h) = if compressed {
        let w = if b.r.one_in(3) { 768 * b.r.usize(1, 2) } else { 24 * b.r.usize(32, 80) };
        (w, 6 * dim(b.r, 1, 4))
    } else {
        (2 * dim(b.r, 4, 40), dim(b.r, 3, 40))
    };
    (e.w, e.h) = (w as u32, h as u32);

    // samples
    let mut skip = SkipExp::Same;
    let mut bps = *b.r.pick(&[12u32, 14, 14, 16]);
    let flagged = b.r.bool();
    let kind = if compressed { 9 } else { b.r.range(0, 3) };
    let xtrans = if compressed { b.r.bool() } else { b.r.one_in(3) };
    // The pattern
    let cfa = if xtrans {
        let v: Vec<u8> = if compressed {
            let (dy, dx) = if b.r.bool() { (0, 0) } else { (b.r.usize(0, 5), b.r.usize(0, 5)) };
            (0..36).map(|i| super::fuji::XTRANS[(i / 6 + dy) % 6][(i + dx) % 6]).collect()
        } else {
            (0..36).map(|_| b.r.r16(0, 2) as u8).collect()
        };
        (6, 6, v)
    } else if ["X10", "XF1", "X-S1"].contains(&model.as_str()) {
        (2, 2, vec![2, 1, 1, 0])
    } else {
        (2, 2, vec![0, 1, 1, 2])
    };
    let data;
    if !container {
        bps = if flagged { 12 } else { 16 };
    }
    match kind {
        0 if container && bps == 14 => {
            e.data = any_image(b.r, w, h, 14);
            data = pack14(&e.data);
            b.note("pack14");
        }
        0 if container && bps == 12 => {
            e.data = any_image(b.r, w, h, 12);
            data = e.data.chunks(w).flat_map(pack_le12).collect();
            b.note("pack12");
        }
        1 => {
            // Not decodable
            data = b.r.bytes(w * h / 2);
            e.data8 = Some(data.clone());
            skip = SkipExp::Data8(data.clone());
            e.bpc = None;
            b.note("opaque");
        }
        9 => {
            let mut p = super::fuji::Params {
                w,
                h,
                bits: bps,
                xtrans,
                lossless: !b.r.one_in(3),
                noise: b.r.i64(0, 24),
                cfa: cfa.clone(),
            };
            let (mut d, mut img) = super::fuji::encode(b.r, &p);
            while d.len() >= bps as usize * w * h / 8 {
                // Anything that large isn't compressed.
                p.noise = if p.noise == 0 { -1 } else { p.noise / 2 };
                (d, img) = super::fuji::encode(b.r, &p);
            }
            b.note(format!("fuji xtrans={xtrans} lossless={} noise={}", p.lossless, p.noise));
            e.data = img;
            skip = SkipExp::Data8(d.clone());
            data = d;
        }
        _ => {
            e.data = any_image(b.r, w, h, bps.min(14));
            data = bytes16(&e.data, false);
            b.note("plain");
        }
    }
    e.whites = Some([((1u32 << bps) - 1) as u16; 4]);
    b.note(format!("{w}x{h} bps={bps} container={container} {model}"));

    // the meta directory
    let mut tags: Vec<(u16, Vec<u8>)> = vec![];
    let int = |hi: u32, lo: u32| {
        let mut v = vec![];
        p(&mut v, hi, lo);
        v
    };
    let no_dim = b.r.one_in(5);
    let active = if no_dim {
        [b.r.r32(0, 99), b.r.r32(0, 99), w as u32, h as u32]
    } else {
        tags.push((0x100, int(h as u32, w as u32)));
        let (x, y) = (b.r.r32(0, w as u32 - 1), b.r.r32(0, h as u32 - 1));
        [x, y, b.r.r32(1, w as u32 - x), b.r.r32(1, h as u32 - y)]
    };
    let has_active = no_dim || !b.r.one_in(6);
    if has_active {
        tags.push((0x110, int(active[1], active[0])));
        tags.push((0x111, int(active[3], active[2])));
        e.active = Some(Some(active));
    }
    let mut user = if has_active { Some(active) } else { None };
    match b.r.range(0, 3) {
        0 => {
            // cropped
            tags.push((0x117, int(b.r.r32(0, 9), 1 | b.r.r32(0, 99) << 1)));
            user = None;
            if !b.r.one_in(4) {
                let c = [b.r.r32(0, 500), b.r.r32(0, 500), b.r.r32(1, 9000), b.r.r32(1, 9000)];
                tags.push((0x118, int(c[1], c[0])));
                tags.push((0x119, int(c[3], c[2])));
                user = Some(c);
            }
        }
        1 => {
            tags.push((0x117, int(1, 0)));
            tags.push((0x118, int(7, 7)));
            tags.push((0x119, int(70, 70)));
        }
        _ => {}
    }
    if !b.r.one_in(4) {
        let a = *b.r.pick(&[(3, 2), (16, 9), (1, 1), (4, 3), (65, 24), (2, 3), (5, 4)]);
        tags.push((0x115, int(a.1, a.0)));
        e.aspect = Some(Some(a));
        if let Some(u) = user {
            e.crop = Some(Some(crop_into(u, a)));
        }
    }
    let info = b.r.u32() & !0x0008_0000 | if flagged { 0x0008_0000 } else { 0 };
    tags.push((0x130, info.to_be_bytes().to_vec()));
    if xtrans {
        // stored from the end
        let mut rev = cfa.2.clone();
        rev.reverse();
        tags.push((0x131, rev));
    }
    e.mosaic = Some((cfa.0, cfa.1, cfa_text(&cfa.2)));
    if let Some(v) = old_wb {
        tags.push((0x2ff0, v.iter().flat_map(|v| v.to_be_bytes()).collect()));
        e.wb = Some(Some([v[0] as f64 / v[1] as f64, 1.0, v[0] as f64 / v[3] as f64, f64::NAN]));
    }
    e.output = Some((e.w, e.h));
    if b.r.bool() {
        let mut v: Vec<u32> = vec![];
        for _ in 0..b.r.usize(0, 2) {
            v.push(e.w + b.r.r32(0, 70000));
        }
        let o = (b.r.r32(1, e.w - 1), b.r.r32(1, 5000));
        v.extend([o.0, o.1]);
        for _ in 0..b.r.usize(0, 5) {
            v.push(b.r.u32());
        }
        tags.push((0xc000, v.iter().flat_map(|v| v.to_le_bytes()).collect()));
        e.output = Some(o);
    }
    for _ in 0..b.r.usize(0, 6) {
        let n = b.r.usize(0, 40);
        tags.push((b.r.r16(0x9000, 0x90ff), b.r.bytes(n)));
    }
    b.r.shuffle(&mut tags);
    let mut meta = (tags.len() as u32).to_be_bytes().to_vec();
    for (t, v) in &tags {
        meta.extend_from_slice(&t.to_be_bytes());
        meta.extend_from_slice(&(v.len() as u16).to_be_bytes());
        meta.extend_from_slice(v);
    }

    // the CFA
    let cfa = if container {
        let mut t = Tiff::new(false);
        std::mem::swap(&mut b.t, &mut t);
        let used = std::mem::take(&mut b.used);
        let m = b.ifd();
        b.t.first = Some(m);
        let s = b.ifd();
        b.set(m, 0xf000, V::Ptr(vec![s]));
        b.set(s, 0xf001, V::Long(vec![w as u32]));
        b.set(s, 0xf002, V::Long(vec![h as u32]));
        b.set(s, 0xf003, V::Long(vec![bps]));
        b.set(s, 0xf008, V::Long(vec![data.len() as u32]));
        let blob = b.t.blob(data);
        b.set(s, 0xf007, V::Ptr(vec![blob]));
        e.blacks = Some([0; 4]);
        if !b.r.one_in(5) {
            let n = *b.r.pick(&[4, 4, 36, 1]);
            let v: Vec<u32> = (0..n).map(|_| b.r.r32(0, 4000)).collect();
            let q = if n == 4 { [v[0], v[1], v[2], v[3]] } else { [v[0]; 4] };
            e.blacks = Some(q.map(|v| v as u16));
            b.set(s, 0xf00a, V::Long(v));
        }
        if !b.r.one_in(5) {
            let v: Vec<u32> = (0..3).map(|_| b.r.r32(1, 4000)).collect();
            let g = v[0] as f64;
            e.wb = Some(Some([g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]));
            b.set(s, 0xf00e, V::Long(v));
        }
        let c = b.r.usize(0, 4);
        b.noise(None, s, c);
        std::mem::swap(&mut b.t, &mut t);
        b.used = used;
        t.build(b.r)
    } else {
        e.blacks = Some([0; 4]);
        let mut v = b.r.bytes(2048);
        v.extend(data);
        v
    };

    // the file
    let mut f = b"FUJIFILMCCD-RAW ".to_vec();
    f.extend_from_slice(b"0201FF389501");
    let mut m = model.into_bytes();
    m.resize(32, 0);
    f.extend(m);
    f.extend_from_slice(b"0100");
    let junk = b.r.bytes(20);
    f.extend(junk);
    assert_eq!(f.len(), 84);
    f.resize(160, 0);
    let gap = b.r.usize(0, 9) * 4;
    f.resize(160 + gap, 0);
    let mut parts = vec![(84, jpeg), (92, meta), (100, cfa)];
    if b.r.bool() {
        let mut extra = 1u32.to_be_bytes().to_vec();
        extra.extend_from_slice(&[0x90, 0, 0, 4, 1, 2, 3, 4]);
        parts.push((120, extra));
    }
    b.r.shuffle(&mut parts);
    for (at, part) in parts {
        let off = f.len() as u32;
        w32(&mut f, at, off, true);
        w32(&mut f, at + 4, part.len() as u32, true);
        f.extend(part);
        while f.len() % 4 != 0 || b.r.one_in(4) {
            f.push(0);
        }
    }
    b.e.raw = Some(e);
    b.e.skip = Some(skip);
    let mut g = b.finish("raf", "raf");
    g.bytes = f;
    g
}
