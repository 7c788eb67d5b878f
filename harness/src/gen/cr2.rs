//! Canon CR2, and the TIF of the first EOS-1D.
use libopenraw::Type;

use super::*;
use crate::bits::ljpeg;
use crate::checks::d02;
use crate::exp::SkipExp;

/// length (0: any), version, index of the white balance, of the black levels. As ExifTool documents.
const COLOUR: [(usize, i16, usize, usize); 24] = [
    (582, 0, 25, 0),
    (653, 0, 24, 0),
    (796, 1, 63, 196),
    (674, 2, 63, 0),
    (692, 3, 63, 0),
    (702, 4, 63, 692),
    (1227, 5, 63, 692),
    (1250, 6, 63, 715),
    (1251, 7, 63, 715),
    (1338, 9, 63, 719),
    (5120, -3, 71, 264),
    (5120, -4, 71, 333),
    (1273, 10, 63, 479),
    (1275, 11, 63, 479),
    (1312, 10, 63, 504),
    (1313, 11, 63, 728),
    (1560, 12, 63, 778),
    (1592, 13, 63, 778),
    (1353, 14, 63, 556),
    (1602, 15, 63, 778),
    (1816, 16, 71, 329),
    (1820, 16, 71, 329),
    (2024, 33, 85, 343),
    (3973, 34, 105, 363),
];

/// The colour data, its white balance and its black levels
pub fn colour_data(r: &mut Rng) -> (Vec<u16>, [f64; 4], Option<[u16; 4]>) {
    let (len, version, wb, black) = *r.pick(&COLOUR);
    let mut v: Vec<u16> = (0..len).map(|_| r.r16(1, 20000)).collect();
    if version != 0 {
        v[0] = version as u16;
    }
    if black != 0 && r.one_in(6) {
        for k in 0..4 {
            if r.bool() {
                v[black + k] = 0;
            }
        }
    }
    let g = v[wb + 1] as f64;
    let neutral = [g / v[wb] as f64, 1.0, g / v[wb + 3] as f64, f64::NAN];
    let blacks = (black != 0).then(|| [v[black], v[black + 1], v[black + 2], v[black + 3]]);
    (v, neutral, blacks)
}

pub fn sensor_info(r: &mut Rng) -> (Vec<u16>, [u32; 4]) {
    let (x, y) = (r.r16(0, 200), r.r16(0, 200));
    let (w, h) = (2 * r.r16(1, 3000), 2 * r.r16(1, 2000));
    // the borders are inclusive
    let n = r.usize(9, 17);
    let mut v: Vec<u16> = (0..n).map(|_| r.r16(0, 5000)).collect();
    (v[5], v[6], v[7], v[8]) = (x, y, x + w - 1, y + h - 1);
    (v, [x as u32, y as u32, w as u32, h as u32])
}

/// a lossless JPEG of Canon: bytes, width, height, bits, samples, slices
fn raw(r: &mut Rng, slicing: bool) -> (Vec<u8>, usize, usize, u32, Vec<u16>, Option<[u32; 3]>) {
    let mut p = d02::gen_params(r);
    p.pt = 0;
    p.nc = *r.pick(&[1, 2, 2, 2, 4, 4]);
    p.bpc = *r.pick(&[10, 12, 12, 14, 14]);
    let (mut w, mut h) = (p.w * p.nc, p.h);
    let mut slices = None;
    if p.nc == 4 {
        let flat = slicing && r.bool();
        if !flat {
            (w, h) = (p.w * 2, p.h * 2);
        }
        if slicing {
            slices = d02::gen_slices(r, w);
        }
        if flat && slices.is_none() {
            slices = Some([1, 1, w as u32 - 1]);
        }
    } else if slicing {
        slices = d02::gen_slices(r, w);
    }
    let img = any_image(r, w, h, p.bpc);
    let order = match &slices {
        Some(s) => d02::slice_order(&img, w, h, s),
        None => img.clone(),
    };
    (ljpeg(r, &p, &order), w, h, p.bpc, img, slices)
}

pub fn gen(r: &mut Rng) -> GenFile {
    let tif = r.one_in(5);
    let be = r.one_in(4);
    let mut b = B::new(r, Type::Cr2, be);
    let main = b.ifd();
    b.t.first = Some(main);
    b.make_model(main, Some("Canon"), Some("Canon EOS of some kind"));
    b.orientation(main);
    let c = b.r.usize(0, 5);
    b.noise(Some(0), main, c);
    let exif = b.exif(main);
    // identity
    let models = &tables().models["canon"];
    let old = [0x8000_0001u32, 0x8000_0167];
    let (mid, id) = if tif {
        let m = *b.r.pick(&old);
        *models.iter().find(|v| v.0 == m).unwrap()
    } else if b.r.one_in(5) {
        (b.r.r32(0xf000_0000, 0xf000_ffff), unknown_id("canon"))
    } else {
        loop {
            let v = *b.r.pick(models);
            if !old.contains(&v.0) {
                break v;
            }
        }
    };
    b.ident("canon", id);
    let note = b.t.note(vec![], vec![], None);
    b.set(exif, 0x927c, V::Region(note));
    b.tag(2, note, 0x10, V::Long(vec![mid]));
    let c = b.r.usize(2, 6);
    b.noise(Some(2), note, c);

    let (bytes, w, h, bpc, img, slices) = raw(b.r, !tif);
    b.note(format!("tif={tif} {w}x{h} bpc={bpc} slices={slices:?} id={id:x}"));
    let mut e = RawExp {
        w: w as u32,
        h: h as u32,
        bpc: Some(bpc as u16),
        data: img,
        active: Some(None),
        crop: Some(None),
        aspect: Some(None),
        wb: Some(None),
        wb_xy: Some(None),
        photom: Some(32803),
        lin: Some(None),
        mosaic: Some((2, 2, "RGGB".into())),
        ..Default::default()
    };
    let (black, white) = builtin("canon", id).map(|m| (m.0, m.1)).unwrap_or((0, 0));
    e.blacks = Some([black; 4]);
    e.whites = Some([if white == 0 { ((1u32 << bpc) - 1) as u16 } else { white }; 4]);
    b.e.skip = Some(SkipExp::Data8(bytes.clone()));
    let len = bytes.len() as u32;
    let blob = b.t.blob(bytes);
    // directories
    let chain = b.r.bool();
    b.preview(main, chain);
    let d1 = b.ifd();
    b.t.set_next(main, d1);
    b.preview(d1, false);
    if tif {
        b.set(note, 0x81, V::Ptr(vec![blob]));
        if b.r.bool() {
            b.set(note, 0x82, V::Long(vec![len]));
        } else {
            b.t.last.push(blob);
        }
        if b.r.bool() {
            let n = b.r.usize(3, 8);
            let v: Vec<u16> = (0..n).map(|_| b.r.r16(1, 4000)).collect();
            let g = v[1] as f64;
            e.wb = Some(Some([g / v[0] as f64, 1.0, g / v[2] as f64, f64::NAN]));
            b.set(note, 0xa4, V::Short(v));
        }
    } else {
        let d2 = b.ifd();
        b.t.set_next(d1, d2);
        if b.r.bool() {
            b.preview(d2, false);
        } else {
            let c = b.r.usize(1, 3);
            b.noise(None, d2, c);
        }
        let d3 = b.ifd();
        b.t.set_next(d2, d3);
        b.set(d3, 0x103, V::Short(vec![6]));
        b.set(d3, 0x111, V::Ptr(vec![blob]));
        b.set(d3, 0x117, V::Long(vec![len]));
        if let Some(s) = slices {
            b.set(d3, 0xc640, V::Short(s.map(|v| v as u16).to_vec()));
        } else if b.r.bool() {
            // as on the cameras that don't have slices
            b.set(d3, 0xc640, V::Short(vec![0, 0]));
        }
        match b.r.range(0, 2) {
            0 => {
                b.set(d3, 0xc5e0, V::Long(vec![3]));
                e.mosaic = Some((2, 2, "GBRG".into()));
            }
            1 => b.set(d3, 0xc5e0, V::Long(vec![1])),
            _ => {}
        }
        let c = b.r.usize(0, 3);
        b.noise(None, d3, c);
        let mut origin = [0, 0];
        if !b.r.one_in(4) {
            let (v, area) = sensor_info(b.r);
            origin = [area[0], area[1]];
            e.active = Some(Some(area));
            b.set(note, 0xe0, V::Short(v));
        }
        if b.r.bool() {
            let (code, a) = *b.r.pick(&[
                (0, Some((3, 2))),
                (12, Some((3, 2))),
                (13, Some((3, 2))),
                (1, Some((1, 1))),
                (2, Some((4, 3))),
                (258, Some((4, 3))),
                (7, Some((16, 9))),
                (8, Some((4, 5))),
                (999, None),
            ]);
            let v = [code, b.r.r32(1, 6000), b.r.r32(1, 4000), b.r.r32(0, 900), b.r.r32(0, 900)];
            e.aspect = Some(a);
            e.crop = Some(Some([v[3] + origin[0], v[4] + origin[1], v[1], v[2]]));
            b.set(note, 0x9a, V::Long(v.to_vec()));
        }
        if !b.r.one_in(4) {
            let (v, wb, blacks) = colour_data(b.r);
            b.note(format!("colour={}/{}", v.len(), v[0] as i16));
            b.set(note, 0x4001, V::Short(v));
            e.wb = Some(Some(wb));
            // All 0: what is known of the camera
            if let Some(v) = blacks.filter(|v| *v != [0; 4]) {
                e.blacks = Some(v);
            }
        }
        b.t.header.extend_from_slice(b"CR\x02\0\0\0\0\0");
    }
    b.e.raw = Some(e);
    b.finish("cr2", "cr2")
}
