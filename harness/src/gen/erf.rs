//! Epson ERF.
use libopenraw::{DataType, Type};

use super::*;
use crate::exp::SkipExp;

pub fn gen(r: &mut Rng) -> GenFile {
    let be = r.bool();
    let mut b = B::new(r, Type::Erf, be);
    let main = b.ifd();
    b.t.first = Some(main);
    let id = if b.r.one_in(4) {
        let m = unknown_model(b.r);
        b.make_model(main, Some("SEIKO EPSON CORP."), Some(&m));
        unknown_id("epson")
    } else {
        let (m, id) = camera(b.r, "epson");
        b.make_model(main, Some("SEIKO EPSON CORP."), Some(&m));
        id
    };
    b.ident("epson", id);
    b.orientation(main);
    let c = b.r.usize(0, 5);
    b.noise(Some(0), main, c);
    let exif = b.exif(main);
    let mut raw = main;
    let mut subs = vec![];
    if b.r.bool() {
        b.set(main, 0xfe, V::Long(vec![0]));
    } else {
        b.preview(main, true);
        raw = b.ifd();
        b.set(raw, 0xfe, V::Long(vec![0]));
        subs.push(raw);
    }
    let np = b.r.usize(0, 2);
    for _ in 0..np {
        let n = b.ifd();
        b.preview(n, true);
        subs.push(n);
    }
    if !subs.is_empty() {
        b.set(main, 0x14a, V::Ptr(subs));
    }
    let mut e = b.plain_raw(raw, Some(exif), &[12, 12, 12, 14, 16]);
    // maker note
    if !b.r.one_in(5) {
        let note = b.t.note(b"EPSON\0\x01\0".to_vec(), vec![], None);
        let c = b.r.usize(1, 5);
        b.noise(Some(2), note, c);
        if b.r.bool() {
            let (w, h) = (640, 424);
            if !b.thumbs.iter().any(|t| t.w.max(t.h) == 640) {
                let mut j = crate::bits::fake_jpeg(b.r, w, h, None);
                b.add_thumb(w, h, DataType::Jpeg, j.clone());
                j[0] = 0xee;
                b.set(note, 0x280, V::Undef(j));
                b.note("mnote-preview");
            }
        }
        if b.r.bool() {
            let a: Vec<u16> = (0..4).map(|_| b.r.r16(0, 4000)).collect();
            b.set(note, 0x400, V::Undef(crate::bits::bytes16(&a, be)));
            e.active = Some(Some([a[0] as u32, a[1] as u32, a[2] as u32, a[3] as u32]));
        }
        if b.r.bool() {
            let a: Vec<u16> = (0..4).map(|_| b.r.r16(0, 400)).collect();
            e.blacks = Some([a[0], a[1], a[2], a[3]]);
            b.set(note, 0x401, V::Short(a));
        }
        if b.r.bool() {
            let a: Vec<u16> = (0..128).map(|_| b.r.r16(1, 4000)).collect();
            e.wb = Some(Some([
                65536.0 / (a[24] as f64 * 508.0 * 1.078),
                1.0,
                65536.0 / (a[25] as f64 * 382.0 * 1.173),
                f64::NAN,
            ]));
            b.set(note, 0xe80, V::Undef(crate::bits::bytes16(&a, be)));
        }
        b.set(exif, 0x927c, V::Region(note));
    }
    b.e.raw = Some(e);
    b.e.skip = Some(SkipExp::Same);
    b.finish("erf", "erf")
}
