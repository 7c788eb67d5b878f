//! Pentax PEF.
use libopenraw::{DataType, Type};

use super::*;
use crate::bits::{ssss, BitW, Huff};
use crate::exp::SkipExp;

/// A code of at most `max` bits for symbols 0..n, as a maker note table.
fn table(r: &mut Rng, n: usize, be: bool) -> (Huff, Vec<u8>) {
    let syms: Vec<u8> = (0..n as u8).collect();
    let h = Huff::random(r, &syms, 12);
    let mut o = vec![];
    let put = |o: &mut Vec<u8>, v: u16| o.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    put(&mut o, ((n + 4) & 15) as u16);
    o.extend((0..12).map(|_| r.u8()));
    for s in &syms {
        let (code, len) = h.code[s];
        put(&mut o, (code << (12 - len)) as u16);
    }
    for s in &syms {
        o.push(h.code[s].1 as u8);
    }
    (h, o)
}

fn encode(img: &[u16], w: usize, h: &Huff) -> Vec<u8> {
    let mut bw = BitW::new(false);
    let mut up = [[0i32; 2]; 2];
    for (y, row) in img.chunks(w).enumerate() {
        let mut left = up[y & 1];
        for (x, v) in row.iter().enumerate() {
            let d = *v as i32 - left[x & 1];
            left[x & 1] = *v as i32;
            if x < 2 {
                up[y & 1][x] = *v as i32;
            }
            let (s, bits) = ssss(d);
            h.put(&mut bw, s);
            bw.put(bits, s as u32);
        }
    }
    bw.flush(0);
    bw.out
}

pub fn gen(r: &mut Rng) -> GenFile {
    let be = !r.one_in(3);
    let mut b = B::new(r, Type::Pef, be);
    let main = b.ifd();
    b.t.first = Some(main);
    let aoc = b.r.bool();
    let corp = b.r.bool();
    let make = if corp {
        "PENTAX Corporation "
    } else {
        *b.r.pick(&["PENTAX", "PENTAX             ", "RICOH IMAGING COMPANY, LTD.  "])
    };
    let mut id = if b.r.one_in(4) {
        let m = unknown_model(b.r);
        b.make_model(main, Some(make), Some(&m));
        unknown_id("pentax")
    } else {
        let (m, id) = camera(b.r, "pentax");
        b.make_model(main, Some(make), Some(&m));
        id
    };
    b.orientation(main);
    let c = b.r.usize(0, 5);
    b.noise(Some(0), main, c);
    let exif = b.exif(main);
    let mut prev = main;
    for _ in 0..b.r.usize(0, 2) {
        let n = b.ifd();
        b.preview(n, false);
        b.t.set_next(prev, n);
        prev = n;
    }
    let mnote = if b.r.one_in(5) {
        None
    } else if aoc {
        let o = if be { b"AOC\0MM" } else { b"AOC\0II" };
        Some(b.t.note(o.to_vec(), vec![], None))
    } else {
        let o = if be { b"PENTAX \0MM" } else { b"PENTAX \0II" };
        Some(b.t.note(o.to_vec(), vec![], Some(0)))
    };
    let compressed = b.r.bool();
    let mut e;
    let mut skip = SkipExp::Same;
    if compressed {
        let (w, h) = (dim(b.r, 2, 50), dim(b.r, 1, 30));
        let bpc = *b.r.pick(&[12, 12, 14]);
        let n = if bpc == 12 { 13 } else { 15 };
        let img = any_image(b.r, w, h, bpc);
        let (huff, own) = match mnote {
            Some(m) if bpc == 14 || b.r.bool() => {
                let (huff, t) = table(b.r, n, be);
                b.set(m, 0x220, V::Undef(t));
                b.note("huffman");
                (huff, true)
            }
            _ => {
                let mut c = [0u8; 17];
                c[1..].copy_from_slice(&[0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0]);
                (Huff::from_counts(c, vec![3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12]), false)
            }
        };
        let bpc = if own { bpc } else { 12 };
        let img: Vec<u16> = img.iter().map(|v| v & ((1 << bpc) - 1) as u16).collect();
        let mut data = encode(&img, w, &huff);
        // Not enough to decode all of it.
        let cut = b.r.one_in(8);
        if cut {
            let most = if b.r.bool() { 1 } else { (data.len() - 1).max(1) };
            data.truncate(data.len() - b.r.usize(1, most));
        }
        b.dims(main, w, h, bpc);
        let c = *b.r.pick(&[65535_u16, 65535, 1234]);
        b.set(main, 0x103, V::Short(vec![c]));
        b.set(main, 0x117, V::Long(vec![data.len() as u32]));
        let blob = b.t.blob(data.clone());
        b.set(main, 0x111, V::Ptr(vec![blob]));
        b.note(format!("compressed {w}x{h} {bpc} cut={cut}"));
        e = RawExp {
            w: w as u32,
            h: h as u32,
            bpc: Some(bpc as u16),
            data: img,
            compression: Some(1),
            blacks: Some([0; 4]),
            whites: Some([(1 << bpc) - 1; 4]),
            mosaic: Some(b.cfa(main, Some(exif))),
            ..Default::default()
        };
        if cut {
            e.data8 = Some(data);
            e.compression = None;
        }
        skip = SkipExp::Same;
    } else {
        e = b.plain_raw(main, Some(exif), &[12, 12, 14, 16]);
        let packed = b.desc.last().is_some_and(|d| d.ends_with("bpc=12 wide=false"));
        if be && packed && b.r.bool() {
            b.t.ifd_mut(main).entries.iter_mut().find(|e| e.0 == 0x103).unwrap().1 = V::Short(vec![32773]);
            b.note("pentaxpack");
        }
    }
    e.wb = Some(None);
    e.aspect = Some(None);
    e.crop = Some(None);
    e.active = Some(None);
    if let Some(m) = mnote {
        e.active = Some(Some([0, 0, e.w, e.h]));
        if !b.r.one_in(3) {
            let v = if b.r.one_in(6) {
                id = unknown_id("pentax");
                0xfff0
            } else {
                let v = *b.r.pick(&tables().models["pentax"]);
                id = v.1;
                v.0
            };
            let v = shortlong(b.r, v);
            b.set(m, 5, v);
        }
        if b.r.bool() {
            let (w, h, j) = b.jpeg();
            let blob = b.t.blob(j.clone());
            b.t.last.push(blob);
            b.set(m, 2, V::Short(vec![w as u16, h as u16]));
            b.set(m, 3, V::Long(vec![j.len() as u32]));
            b.set(m, 4, V::Ptr(vec![blob]));
            b.add_thumb(w, h, DataType::Jpeg, j);
            b.note("mnote-preview");
        }
        if b.r.bool() {
            let v: Vec<u16> = (0..4).map(|_| b.r.r16(0, 5000)).collect();
            b.set(m, 0x38, V::Short(v[..2].to_vec()));
            if b.r.one_in(5) {
                b.note("no-size");
            } else {
                b.set(m, 0x39, V::Short(v[2..].to_vec()));
                e.crop = Some(Some([v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32]));
            }
        }
        if b.r.bool() {
            let v = b.r.r32(0, 5);
            b.set(m, 0x80, V::Byte(vec![v as u8]));
            e.aspect = Some([Some((4, 3)), Some((3, 2)), Some((16, 9)), Some((1, 1)), None, None][v as usize]);
        }
        let levels = builtin("pentax", id);
        let mut black = [0u16; 4];
        if b.r.bool() {
            let v: Vec<u32> = (0..4).map(|_| b.r.r32(1, 900)).collect();
            black = [v[0] as u16, v[1] as u16, v[2] as u16, v[3] as u16];
            let v = shortlongs(b.r, &v);
            b.set(m, 0x200, v);
        }
        if b.r.bool() {
            let x = b.r.r32(1000, 16383);
            let v = shortlong(b.r, x);
            b.set(m, 0x7e, v);
            e.whites = Some([x as u16; 4]);
        } else if let Some(l) = &levels {
            if l.1 != 0 {
                e.whites = Some([l.1; 4]);
            }
            if black[0] == 0 {
                black = [l.0; 4];
            }
        }
        e.blacks = Some(black);
        if b.r.bool() {
            let v: Vec<u32> = (0..4).map(|_| b.r.r32(1, 30000)).collect();
            let g = v[1] as f64;
            e.wb = Some(Some([g / v[0] as f64, 1.0, g / v[3] as f64, f64::NAN]));
            let v = shortlongs(b.r, &v);
            b.set(m, 0x201, v);
        }
        let c = b.r.usize(2, 6);
        b.noise(Some(2), m, c);
        b.set(exif, 0x927c, V::Region(m));
    }
    b.ident("pentax", id);
    b.e.raw = Some(e);
    b.e.skip = Some(skip);
    let mut f = b.finish("pef", "pef");
    if !corp {
        f.hint = Some(Type::Pef);
    }
    f
}
