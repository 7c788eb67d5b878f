//! Minolta MRW: data blocks, one of them a TIFF.
use libopenraw::{DataType, Type};

use super::*;
use crate::bits::{bytes16, pack_be};
use crate::exp::SkipExp;

fn block(name: &[u8; 3], data: &[u8]) -> Vec<u8> {
    let mut o = vec![0];
    o.extend_from_slice(name);
    o.extend_from_slice(&(data.len() as u32).to_be_bytes());
    o.extend_from_slice(data);
    o
}

pub fn gen(r: &mut Rng) -> GenFile {
    let (version, id) = if r.one_in(5) {
        (r.ascii(8, 8), unknown_id("minolta"))
    } else {
        camera(r, "minolta")
    };
    let mut version = version.into_bytes();
    version.resize(8, 0);
    // TTW
    let be = !r.one_in(4);
    let mut b = B::new(r, Type::Mrw, be);
    b.ident("minolta", id);
    let main = b.ifd();
    b.t.first = Some(main);
    let m = b.r.ascii(3, 20);
    b.make_model(main, Some("Minolta Co., Ltd."), Some(&m));
    b.orientation(main);
    let c = b.r.usize(0, 6);
    b.noise(Some(0), main, c);
    if !b.r.one_in(6) {
        let exif = b.exif(main);
        if !b.r.one_in(6) {
            let note = b.t.note(vec![], vec![], None);
            if b.r.bool() {
                super::mnote::minolta(&mut b, note);
                b.e.mnote_id = Some("Minolta");
            }
            let c = b.r.usize(2, 6);
            b.noise(Some(2), note, c);
            let mut j = crate::bits::fake_jpeg(b.r, 640, 480, None);
            let k = b.r.range(0, 2);
            if k < 2 {
                b.add_thumb(640, 480, DataType::Jpeg, j.clone());
                j[0] = b.r.u8();
                let n = j.len() as u32;
                let blob = b.t.blob(j);
                if k == 0 {
                    b.set(note, 0x81, V::UndefAt(blob, n));
                    b.note("thumb in entry");
                } else {
                    b.set(note, 0x88, V::Ptr(vec![blob]));
                    b.set(note, 0x89, V::Long(vec![n]));
                }
            } else if b.r.one_in(3) {
                // An empty one is none.
                let v = b.r.r32(1, 4000);
                let (o, n) = if b.r.bool() { (v, 0) } else { (0, v) };
                b.set(note, 0x88, V::Long(vec![o]));
                b.set(note, 0x89, V::Long(vec![n]));
                b.note("empty thumb");
            }
            b.set(exif, 0x927c, V::Region(note));
        }
    }
    let mut f = b.finish("mrw", "mrw");
    let ttw = std::mem::take(&mut f.bytes);
    // the rest
    let (w, h) = (dim(r, 1, 40) * 2, dim(r, 1, 30));
    let packed = r.bool();
    let bps = if packed { 12 } else { *r.pick(&[12, 16, 14]) };
    let img = any_image(r, w, h, bps);
    let gbrg = r.one_in(3);
    let mut prd = version;
    let (iw, ih) = (r.u16(), r.u16());
    for v in [h as u16, w as u16, ih, iw] {
        prd.extend_from_slice(&v.to_be_bytes());
    }
    prd.push(if packed { 12 } else { 16 });
    prd.push(bps as u8);
    prd.push(if packed { 0x59 } else { 0x52 });
    prd.push(r.u8());
    prd.extend_from_slice(&[0, 0]);
    prd.extend_from_slice(&[0, if gbrg { 4 } else { 1 }]);
    let mut e = RawExp {
        w: w as u32,
        h: h as u32,
        bpc: Some(if packed { 16 } else { bps as u16 }),
        blacks: Some([0; 4]),
        whites: None,
        active: Some(None),
        crop: Some(None),
        aspect: Some(None),
        wb: Some(None),
        mosaic: Some((2, 2, if gbrg { "GBRG" } else { "RGGB" }.into())),
        ..Default::default()
    };
    if let Some(m) = builtin("minolta", id) {
        e.blacks = Some([m.0; 4]);
        e.whites = Some([m.1; 4]);
    }
    let mut blocks = vec![block(b"PRD", &prd), block(b"TTW", &ttw)];
    if !r.one_in(4) {
        let d: Vec<u8> = (0..4).map(|_| r.r32(0, 6) as u8).collect();
        let mut n: Vec<u16> = (0..4).map(|_| r.r16(1, 2000)).collect();
        let mut d = d;
        let i = if gbrg { [2, 0, 1] } else { [0, 1, 3] };
        if gbrg {
            // same greens
            d[3] = d[0];
            n[3] = n[0];
        }
        let mut wb = [f64::NAN; 4];
        for k in 0..3 {
            wb[k] = (1_u64 << (6 + d[i[k]])) as f64 / n[i[k]] as f64;
        }
        e.wb = Some(Some(wb));
        let mut v = d.clone();
        v.extend(bytes16(&n, true));
        blocks.push(block(b"WBG", &v));
    }
    if r.bool() {
        let v = r.bytes(60);
        blocks.push(block(b"RIF", &v));
    }
    if r.bool() {
        let n = r.usize(0, 50);
        let v = r.bytes(n);
        blocks.push(block(b"PAD", &v));
    }
    if r.one_in(3) {
        let n = r.usize(0, 50);
        let v = r.bytes(n);
        blocks.push(block(b"XYZ", &v));
    }
    r.shuffle(&mut blocks);
    let data = if packed {
        pack_be(&img, 12)
    } else {
        bytes16(&img, true)
    };
    f.bytes = block(b"MRM", &blocks.concat());
    f.bytes.extend_from_slice(&data);
    let extra = r.usize(0, 20);
    f.bytes.extend(r.bytes(extra));
    f.desc = format!("{} {w}x{h} packed={packed} bps={bps} gbrg={gbrg}", f.desc);
    e.data = img;
    f.exp.raw = Some(e);
    f.exp.skip = Some(if packed { SkipExp::Data8(data) } else { SkipExp::Same });
    f
}
