//! Sony ARW, including the A100 and its Minolta block.
use libopenraw::Type;

use super::*;
use crate::bits::bytes16;
use crate::exp::SkipExp;

/// Enciphered bytes are cubes modulo 249.
fn cipher(v: u8) -> u8 {
    if v < 249 {
        ((v as u32 * v as u32 * v as u32) % 249) as u8
    } else {
        v
    }
}

enum Aspect {
    Be16(usize),
    Byte(usize),
    Cipher(usize),
}

/// Where the aspect ratio is, according to ExifTool.
fn aspect_of(id: u32) -> Option<Aspect> {
    let cams = &tables().cameras["sony"];
    let is = |names: &str| {
        names.split(' ').any(|n| cams.iter().any(|c| c.1 == id && c.0 == n))
    };
    if is("DSLR-A200 DSLR-A300 DSLR-A350 DSLR-A700 DSLR-A850 DSLR-A900 DSLR-A230 DSLR-A290 DSLR-A330 DSLR-A380 DSLR-A390") {
        Some(Aspect::Be16(85))
    } else if is("SLT-A33 SLT-A35 SLT-A55V DSLR-A450 DSLR-A500 DSLR-A550 DSLR-A560 DSLR-A580 NEX-3 NEX-5 NEX-C3") {
        Some(Aspect::Byte(10))
    } else if is("SLT-A58 SLT-A99V ILCE-3000 ILCE-3500 NEX-3N NEX-5R NEX-5T NEX-6 DSC-RX100 DSC-RX1 DSC-RX1R DSC-RX100M2 \
                 DSC-RX0 DSC-RX1RM2 DSC-RX10M2 DSC-RX10M3 DSC-RX100M4 DSC-RX100M5 ILCE-6300 ILCE-6500 ILCE-7RM2 ILCE-7SM2 ILCA-99M2") {
        Some(Aspect::Cipher(6444))
    } else if is("DSC-RX10 DSC-RX100M3 ILCE-7 ILCE-7R ILCE-7S ILCE-7M2 ILCE-5000 ILCE-5100 ILCE-6000 ILCE-QX1 ILCA-68 ILCA-77M2") {
        Some(Aspect::Cipher(6488))
    } else if is("ILCE-6100 ILCE-6400 ILCE-6600 ILCE-7C ILCE-7M3 ILCE-7RM3 ILCE-7RM4 ILCE-9 ILCE-9M2 DSC-RX0M2 DSC-RX10M4 DSC-RX100M6 \
                 DSC-RX100M5A DSC-RX100M7 DSC-HX99 ZV-1 ZV-1M2 ZV-E10") {
        Some(Aspect::Cipher(6284))
    } else {
        None
    }
}

fn le_block(name: &[u8; 3], data: &[u8]) -> Vec<u8> {
    let mut o = vec![0];
    o.extend_from_slice(name);
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o.extend_from_slice(data);
    o
}

fn mnote(b: &mut B, exif: Node, dsc: bool) -> Node {
    let h = if dsc { b"SONY DSC \0\0\0".to_vec() } else { vec![] };
    let n = b.t.note(h, vec![], None);
    b.set(exif, 0x927c, V::Region(n));
    let c = b.r.usize(2, 5);
    b.noise(Some(2), n, c);
    n
}

fn a100(r: &mut Rng) -> GenFile {
    let mut b = B::new(r, Type::Arw, false);
    let main = b.ifd();
    b.t.first = Some(main);
    b.make_model(main, Some("SONY"), Some("DSLR-A100"));
    b.ident("sony", 0x0008_0001);
    b.orientation(main);
    b.preview(main, false);
    if b.r.bool() {
        let exif = b.exif(main);
        if b.r.bool() {
            mnote(&mut b, exif, true);
        }
    }
    let (w, h) = (dim(b.r, 1, 40), dim(b.r, 1, 30));
    let mut prd = b"21860002".to_vec();
    for v in [h as u16, w as u16, 11, 22] {
        prd.extend_from_slice(&v.to_le_bytes());
    }
    prd.push(16);
    prd.push(12);
    prd.push(0x52);
    prd.push(0);
    prd.extend_from_slice(&[0, 0]);
    let gbrg = b.r.one_in(4);
    prd.extend_from_slice(&[if gbrg { 4 } else { 1 }, 0]);
    let mut blocks = vec![le_block(b"PRD", &prd)];
    let mut e = RawExp {
        w: w as u32,
        h: h as u32,
        bpc: Some(12),
        wb: Some(None),
        mosaic: Some((2, 2, if gbrg { "GBRG" } else { "RGGB" }.into())),
        ..Default::default()
    };
    if b.r.bool() {
        let d: Vec<u8> = vec![b.r.r32(0, 6) as u8; 4];
        let n: Vec<u16> = (0..4).map(|_| b.r.r16(1, 2000)).collect();
        let mut v = d.clone();
        v.extend(bytes16(&n, false));
        if gbrg {
            e.wb = None;
        } else {
            let f = |i: usize| (1_u64 << (6 + d[i])) as f64 / n[i] as f64;
            e.wb = Some(Some([f(0), f(1), f(3), f64::NAN]));
        }
        blocks.push(le_block(b"WBG", &v));
    }
    if b.r.bool() {
        let n = b.r.usize(0, 40);
        let v = b.r.bytes(n);
        blocks.push(le_block(b"RIF", &v));
    }
    b.r.shuffle(&mut blocks);
    let blocks = blocks.concat();
    let mut mrm = b"\0MRI".to_vec();
    mrm.extend_from_slice(&(blocks.len() as u32).to_le_bytes());
    mrm.extend(blocks);
    let node = b.t.blob(mrm);
    // BYTE, with the offset
    let data = b.r.bytes(w * h * 2);
    let raw = b.t.blob(data.clone());
    b.set(main, 0x14a, V::Ptr(vec![raw]));
    b.set(main, 0xc634, V::Ptr(vec![node]));
    e.data8 = Some(data.clone());
    b.e.raw = Some(e);
    b.e.skip = Some(SkipExp::Data8(data));
    b.note(format!("A100 {w}x{h}"));
    let mut f = b.finish("arw", "arw");
    // The entry is four bytes.
    let at = u32::from_le_bytes(f.bytes[4..8].try_into().unwrap()) as usize;
    let at = match f.gap {
        Some((gap, len)) if at >= gap => at - len as usize,
        _ => at,
    };
    let n = u16::from_le_bytes(f.bytes[at..at + 2].try_into().unwrap()) as usize;
    for i in 0..n {
        let p = at + 2 + 12 * i;
        if f.bytes[p..p + 2] == [0x34, 0xc6] {
            f.bytes[p + 2..p + 8].copy_from_slice(&[1, 0, 4, 0, 0, 0]);
        }
    }
    f
}

pub fn gen(r: &mut Rng) -> GenFile {
    if r.one_in(8) {
        return a100(r);
    }
    let be = r.one_in(6);
    let mut b = B::new(r, Type::Arw, be);
    let main = b.ifd();
    b.t.first = Some(main);
    let make = *b.r.pick(&["SONY", "SONY           "]);
    // named, by number or both
    let (model, mut id) = loop {
        let c = camera(b.r, "sony");
        if c.0 != "DSLR-A100" {
            break c;
        }
    };
    let known = !b.r.one_in(4);
    if known {
        b.make_model(main, Some(make), Some(&model));
    } else {
        let m = unknown_model(b.r);
        b.make_model(main, Some(make), Some(&m));
        id = 0x0008_0000;
    }
    b.orientation(main);
    let c = b.r.usize(0, 5);
    b.noise(Some(0), main, c);
    let exif = b.exif(main);
    let note = if b.r.one_in(5) { None } else { let dsc = b.r.bool(); Some(mnote(&mut b, exif, dsc)) };
    if let Some(n) = note {
        if !b.r.one_in(4) {
            let m = if b.r.one_in(6) {
                id = 0x0008_0000;
                0xfff0
            } else {
                let m = *b.r.pick(&tables().models["sony"]);
                id = m.1;
                m.0
            };
            let v = shortlong(b.r, m);
            b.set(n, 0xb001, v);
        }
    }
    b.ident("sony", id);
    let mut raw = main;
    let mut subs = vec![];
    if b.r.one_in(5) {
        b.set(main, 0xfe, V::Long(vec![0]));
    } else {
        b.preview(main, true);
        raw = b.ifd();
        b.set(raw, 0xfe, V::Long(vec![0]));
        subs.push(raw);
    }
    let np = b.r.usize(0, 2);
    for _ in 0..np {
        let n = b.ifd();
        b.preview(n, true);
        subs.push(n);
    }
    b.r.shuffle(&mut subs);
    if !subs.is_empty() {
        b.set(main, 0x14a, V::Ptr(subs));
    }
    let mut e;
    let skip;
    // the R1 is big endian
    if b.r.bool() {
        let (w, h) = (dim(b.r, 2, 60), dim(b.r, 1, 30));
        let n = b.r.usize(1, w * h * 2);
        let data = b.r.bytes(n);
        b.dims(raw, w, h, 12);
        b.set(raw, 0x103, V::Short(vec![32767]));
        b.set(raw, 0x117, V::Long(vec![n as u32]));
        let blob = b.t.blob(data.clone());
        b.set(raw, 0x111, V::Ptr(vec![blob]));
        e = RawExp {
            w: w as u32,
            h: h as u32,
            bpc: Some(12),
            whites: Some([4095; 4]),
            blacks: Some([0; 4]),
            compression: Some(32767),
            mosaic: Some(b.cfa(raw, Some(exif))),
            wb: Some(None),
            aspect: Some(None),
            data8: Some(data.clone()),
            ..Default::default()
        };
        skip = SkipExp::Data8(data);
        b.note(format!("compressed {w}x{h}"));
    } else {
        let r1 = tables().cameras["sony"].iter().any(|c| c.0 == "DSC-R1" && c.1 == id);
        if r1 {
            let (w, h) = (dim(b.r, 4, 60), dim(b.r, 1, 30));
            let img = any_image(b.r, w, h, 14);
            b.dims(raw, w, h, 14);
            b.set(raw, 0x103, V::Short(vec![1]));
            let rows: Vec<Vec<u8>> = img.chunks(w).map(|r| bytes16(r, true)).collect();
            b.strips(raw, &rows);
            e = RawExp {
                w: w as u32,
                h: h as u32,
                bpc: Some(14),
                data: img,
                blacks: Some([0; 4]),
                whites: Some([16383; 4]),
                mosaic: Some(b.cfa(raw, Some(exif))),
                wb: Some(None),
                aspect: Some(None),
                ..Default::default()
            };
            b.note("R1");
        } else {
            e = b.plain_raw(raw, Some(exif), &[12, 14, 14, 16]);
        }
        skip = SkipExp::Same;
    }
    e.active = Some(Some([0, 0, e.w, e.h]));
    e.crop = Some(None);
    if b.r.bool() {
        let (y, x) = (b.r.r32(0, 50), b.r.r32(0, 50));
        let (w, h) = (b.r.r32(1, 5000), b.r.r32(1, 5000));
        let v = shortlongs(b.r, &[y, x]);
        b.set(raw, 0x74c7, v);
        let v = shortlongs(b.r, &[w, h]);
        b.set(raw, 0x74c8, v);
        e.crop = Some(Some([x, y, w, h]));
    }
    if let (Some(n), Some(a)) = (note, aspect_of(id)) {
        let ratios = [Some((16, 9)), Some((4, 3)), Some((3, 2)), Some((1, 1)), None, None];
        match a {
            Aspect::Be16(at) => {
                let mut v: Vec<u16> = (0..at + 10).map(|_| b.r.u16()).collect();
                v[at] = b.r.r16(0, 3);
                e.aspect = Some(match v[at] {
                    1 => Some((3, 2)),
                    2 => Some((16, 9)),
                    _ => None,
                });
                b.set(n, 0x114, V::Undef(bytes16(&v, true)));
            }
            Aspect::Byte(at) => {
                let mut v = b.r.bytes(at + 20);
                v[at] = *b.r.pick(&[4, 8, 5]);
                e.aspect = Some(match v[at] {
                    4 => Some((3, 2)),
                    8 => Some((16, 9)),
                    _ => None,
                });
                b.set(n, 0x114, V::Undef(v));
            }
            Aspect::Cipher(at) => {
                let mut v = b.r.bytes(at + 40);
                let k = b.r.usize(0, 5);
                e.aspect = Some(ratios[k]);
                v[at] = k as u8;
                v.iter_mut().for_each(|v| *v = cipher(*v));
                b.set(n, 0x2010, V::Undef(v));
            }
        }
        b.note("aspect");
    } else {
        e.aspect = Some(None);
    }
    let levels = builtin("sony", id);
    if b.r.bool() {
        let v: Vec<i16> = (0..4).map(|_| b.r.i64(1, 3000) as i16).collect();
        let g = v[1] as f64;
        e.wb = Some(Some([g / v[0] as f64, 1.0, g / v[3] as f64, f64::NAN]));
        let v = if b.r.bool() { V::SShort(v) } else { V::SLong(v.iter().map(|v| *v as i32).collect()) };
        b.set(raw, 0x7313, v);
    }
    if b.r.bool() {
        let v: Vec<u32> = (0..4).map(|_| b.r.r32(0, 900)).collect();
        e.blacks = Some([v[0] as u16, v[1] as u16, v[2] as u16, v[3] as u16]);
        let v = shortlongs(b.r, &v);
        b.set(raw, 0x7310, v);
    } else if let Some(l) = &levels {
        e.blacks = Some([l.0; 4]);
    }
    if b.r.bool() {
        let x = b.r.r32(1000, 16383);
        let n = *b.r.pick(&[1, 3]);
        let v = shortlongs(b.r, &vec![x; n]);
        b.set(raw, 0xc61d, v);
        e.whites = Some([x as u16; 4]);
    } else if let Some(l) = &levels {
        // A table white of 0 says nothing: not judged.
        e.whites = (l.1 != 0).then_some([l.1; 4]);
    }
    b.e.raw = Some(e);
    b.e.skip = Some(skip);
    b.finish("arw", "arw")
}
