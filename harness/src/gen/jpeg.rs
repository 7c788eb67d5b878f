//! JPEG files, with Exif.
use libopenraw::{DataType, Type};

use super::*;

fn segment(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![0xff, *r.pick(&[0xe0, 0xe2, 0xed, 0xfe, 0xe1])];
    let n = r.usize(0, 40);
    let mut body = match o[1] {
        0xe0 => b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0".to_vec(),
        0xe1 => b"http://ns.adobe.com/xap/1.0/\0<x/>".to_vec(),
        _ => vec![b'?'],
    };
    body.extend(r.bytes(n));
    if o[1] == 0xe0 {
        body.truncate(14);
    }
    o.extend_from_slice(&((body.len() + 2) as u16).to_be_bytes());
    o.extend(body);
    o
}

pub fn gen(r: &mut Rng) -> GenFile {
    let be = r.bool();
    let mut b = B::new(r, Type::Jpeg, be);
    b.e.type_id = Some(1000 << 16);
    b.e.orientation = Some(0);
    b.e.matrix = [Some(None), Some(None)];
    b.e.illum = [Some(0), Some(0)];
    let with_exif = !b.r.one_in(5);
    let mut app1 = vec![];
    if with_exif {
        let main = b.ifd();
        b.t.first = Some(main);
        // The first directory is what is offered as Exif.
        for (tag, v) in [(0x10f, "Some make"), (0x110, "Some model")] {
            b.tag(1, main, tag, asc(v));
        }
        let c = b.r.usize(1, 6);
        for _ in 0..c {
            let tag = *b.r.pick(&NEUTRAL_MAIN);
            if !b.has(main, tag) {
                let v = value(b.r, 24);
                b.tag(1, main, tag, v);
            }
        }
        let exif = b.ifd();
        b.set(main, 0x8769, V::Ptr(vec![exif]));
        let c = b.r.usize(1, 8);
        b.noise(None, exif, c);
        if b.r.bool() {
            let d1 = b.ifd();
            b.t.set_next(main, d1);
            if b.r.bool() {
                b.set(d1, 0x103, V::Short(vec![6]));
            }
            let j = fake_jpeg(b.r, 160, 120, None);
            b.set(d1, 0x202, V::Long(vec![j.len() as u32]));
            let blob = b.t.blob(j.clone());
            b.set(d1, 0x201, V::Ptr(vec![blob]));
            b.add_thumb(160, 120, DataType::Jpeg, j);
        }
        app1 = b.t.build(b.r);
    }
    let (w, h) = (b.r.r32(1, 5000), b.r.r32(1, 5000));
    let plain = fake_jpeg(b.r, w, h, None);
    // where to put the application segments: before or after the quantisation table.
    let dqt = b.r.one_in(3);
    let mut out = plain[..2].to_vec();
    let mut rest = &plain[2..];
    if dqt {
        out.extend_from_slice(&rest[..69]);
        rest = &rest[69..];
    }
    while b.r.one_in(3) {
        out.extend(segment(b.r));
    }
    if with_exif {
        out.extend_from_slice(&[0xff, 0xe1]);
        out.extend_from_slice(&((app1.len() + 8) as u16).to_be_bytes());
        out.extend_from_slice(b"Exif\0\0");
        out.extend(app1);
    }
    while b.r.one_in(3) {
        out.extend(segment(b.r));
    }
    out.extend_from_slice(rest);
    b.note(format!("{w}x{h} exif={with_exif} dqt={dqt}"));
    b.e.thumbs = Some(std::mem::take(&mut b.thumbs));
    GenFile {
        kind: "jpeg".into(),
        desc: b.desc.join(" "),
        ext: "jpg",
        hint: if dqt && b.r.bool() { None } else { Some(Type::Jpeg) },
        bytes: out,
        gap: None,
        exp: b.e.clone(),
    }
}
