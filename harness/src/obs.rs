//! Observation: run every public query on a handle and record the answers.
use std::collections::BTreeMap;
use std::hash::Hasher;

use libopenraw::{
    metadata::Value, tiff, Bitmap, ColourSpace, Ifd, RawFileHandle, RawImage, RenderingOptions, RenderingStage,
    Thumbnail,
};

use crate::exp::{mosaic, rect, Cmp};
use crate::tiffb::V;

pub type Log = BTreeMap<String, String>;

pub fn hash8(d: &[u8]) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(d);
    format!("{:016x}/{}", h.finish(), d.len())
}

pub fn hash16(d: &[u16]) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for v in d {
        h.write_u16(*v);
    }
    format!("{:016x}/{}", h.finish(), d.len())
}

pub fn raw_text(r: &RawImage) -> String {
    format!(
        "{}x{} {:?} bpc={} data8={:?} data16={:?} tiles={:?} tile_size={:?} comp={:?} photom={:?} blacks={:?} whites={:?} aa={:?} crop={:?} aspect={:?} out={:?} wb={:?} xy={:?} mosaic={:?} lin={:?} m1={:?} m2={:?}",
        r.width(),
        r.height(),
        r.data_type(),
        r.bpc(),
        r.data8().map(hash8),
        r.data16().map(hash16),
        r.tile_data().map(|t| t.iter().map(|t| hash8(t)).collect::<Vec<_>>()),
        r.tile_size(),
        r.compression(),
        r.photometric_interpretation(),
        r.blacks(),
        r.whites(),
        rect(r.active_area()),
        rect(r.user_crop()),
        r.user_aspect_ratio().map(|a| (a.0, a.1)),
        (r.output_size().width, r.output_size().height),
        r.as_shot_neutral(),
        r.as_shot_white_xy(),
        mosaic(r),
        r.linearization_table().map(|t| hash16(t)),
        r.colour_matrix(1).map(|m| (m.illuminant, m.matrix.clone())),
        r.colour_matrix(2).map(|m| (m.illuminant, m.matrix.clone())),
    )
}

pub fn thumb_text(t: &Thumbnail) -> String {
    format!(
        "{}x{} {:?} bpc={} data={:?} size={}",
        t.width(),
        t.height(),
        t.data_type(),
        t.bpc(),
        t.data8().map(hash8),
        t.data_size()
    )
}

pub fn value_text(v: &Value) -> String {
    match v {
        Value::Bytes(b) => format!("Bytes {}", hash8(b)),
        Value::Invalid(b) => format!("Invalid {}", hash8(b)),
        Value::String(b) => format!("String {:?}", String::from_utf8_lossy(b)),
        v => {
            let s = format!("{v:?}");
            if s.len() > 400 {
                format!("{} {}", &s.chars().take(40).collect::<String>(), hash8(s.as_bytes()))
            } else {
                s
            }
        }
    }
}

/// Errors are compared by variant, not by text.
pub fn err_text(e: &libopenraw::Error) -> String {
    let s = format!("{e:?}");
    let k: String = s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    format!("Err({k})")
}

pub fn res<T>(r: &libopenraw::Result<T>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(e) => err_text(e),
    }
}

/// The queries.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Q {
    Type,
    TypeId,
    Mime,
    Vendor,
    Sizes,
    /// by request
    Thumb(u32),
    /// index in sizes
    ThumbIdx(u8),
    Raw,
    RawSkip,
    Render(u8, u8),
    Main,
    Exif,
    Mnote,
    Metadata,
    MetaValue(u8),
    Orientation,
    Illum(u8),
    Matrix(u8),
    Dump,
}

pub const KEYS: [&str; 8] = [
    "Exif.Image.Orientation",
    "Exif.Image.Make",
    "Exif.Image.Model",
    "Exif.Image.DateTime",
    "Exif.Image.ImageWidth",
    "Exif.Photo.ExposureTime",
    "Exif.Photo.ISOSpeedRatings",
    "no.such.key",
];

pub fn all_queries() -> Vec<Q> {
    let mut v = vec![
        Q::Type,
        Q::TypeId,
        Q::Mime,
        Q::Vendor,
        Q::Sizes,
        Q::Raw,
        Q::RawSkip,
        Q::Main,
        Q::Exif,
        Q::Mnote,
        Q::Metadata,
        Q::Orientation,
        Q::Dump,
    ];
    for t in [0, 1, 160, 161, 1000, u32::MAX] {
        v.push(Q::Thumb(t));
    }
    for i in 0..6 {
        v.push(Q::ThumbIdx(i));
    }
    for s in 0..4 {
        v.push(Q::Render(s, 0));
    }
    v.push(Q::Render(3, 1));
    for i in 0..KEYS.len() as u8 {
        v.push(Q::MetaValue(i));
    }
    for i in 0..4 {
        v.push(Q::Illum(i));
        v.push(Q::Matrix(i));
    }
    v
}

pub const STAGES: [RenderingStage; 4] = [
    RenderingStage::Raw,
    RenderingStage::Linearization,
    RenderingStage::Interpolation,
    RenderingStage::Colour,
];

pub fn target(i: u8) -> ColourSpace {
    match i {
        0 => ColourSpace::SRgb,
        1 => ColourSpace::Camera,
        _ => ColourSpace::SRgb,
    }
}

/// Everything that can be read of an entry.
fn entry_hash<D: Ifd>(d: &D, tag: u16) -> u32 {
    let Some(e) = d.entry(tag) else { return 0 };
    let endian = d.endian();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(
        format!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            e.string_value(),
            e.uint_value_array(endian).map(|v| v.len()),
            e.float_value_array(endian).map(|v| v.len()),
            e.int_value_array(endian),
            d.entry_value::<u8>(e, 0),
            d.entry_value::<u16>(e, 0),
            d.entry_value::<u32>(e, 0),
            d.entry_value::<tiff::exif::Rational>(e, 0),
            d.entry_value::<tiff::exif::SRational>(e, 0),
            d.entry_value::<f64>(e, 0),
        )
        .as_bytes(),
    );
    if let Some(a) = e.uint_value_array(endian) {
        for v in a {
            h.write_u32(v)
        }
    }
    if let Some(a) = e.float_value_array(endian) {
        for v in a {
            h.write_u64(v.to_bits())
        }
    }
    h.finish() as u32
}

/// The hash of an entry of which nothing can be read.
pub fn nil_hash() -> String {
    // string, unsigned, floats, integers and the typed values
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(b"None None None None None None None None None None");
    format!("{:08x}", h.finish() as u32)
}

/// Text of an IFD given by reference: all the tags present. `full` reads typed values too.
pub fn ifd_text<D: Ifd>(d: &D) -> String {
    let mut s = format!("{:?} {:?} n={}", d.ifd_type(), d.endian(), d.num_entries());
    let mut found = 0;
    for tag in 0..=0xffff_u16 {
        if found >= d.num_entries() {
            break;
        }
        if let Some(e) = d.entry(tag) {
            found += 1;
            let hash = entry_hash(d, tag);
            s.push_str(&format!(" {tag:x}:{:?}:{hash:08x}", e.is_inline()));
        }
    }
    s
}

pub fn meta_text(h: &RawFileHandle) -> String {
    match h.metadata() {
        None => "None".to_string(),
        Some(it) => {
            let mut s = String::new();
            for (k, v, t) in it {
                s.push_str(&format!("{k}|{t}|{}\n", value_text(&v)));
            }
            s
        }
    }
}

pub fn dump_text(h: &RawFileHandle) -> String {
    let mut out: Vec<u8> = vec![];
    h.dump_file(&mut out);
    String::from_utf8_lossy(&out).to_string()
}

pub fn ask(h: &RawFileHandle, q: Q) -> String {
    match q {
        Q::Type => format!("{:?}", h.type_()),
        Q::TypeId => res(&h.type_id(), |t| format!("{:08x}", u32::from(*t))),
        Q::Mime => h.mime_type().to_string(),
        Q::Vendor => res(&h.vendor_id(), |t| t.to_string()),
        Q::Sizes => format!("{:?}", h.thumbnail_sizes()),
        Q::Thumb(n) => res(&h.thumbnail(n), thumb_text),
        Q::ThumbIdx(i) => {
            let n = h.thumbnail_sizes().and_then(|s| s.get(i as usize).copied());
            match n {
                Some(n) => format!("{} {}", res(&h.thumbnail(n), thumb_text), res(&h.thumbnail_for_size(n), thumb_text)),
                None => "-".into(),
            }
        }
        Q::Raw => res(&h.raw_data(false), raw_text),
        Q::RawSkip => res(&h.raw_data(true), raw_text),
        Q::Render(s, t) => res(
            &h.rendered_image(
                RenderingOptions::default()
                    .with_stage(STAGES[s as usize & 3])
                    .with_target(target(t)),
            ),
            raw_text,
        ),
        Q::Main => h.main_ifd().map(ifd_text).unwrap_or("None".into()),
        Q::Exif => h.exif_ifd().map(ifd_text).unwrap_or("None".into()),
        Q::Mnote => h.maker_note_ifd().map(|d| format!("{:?} {} {}", d.id(), d.mnote_offset, ifd_text(d))).unwrap_or("None".into()),
        Q::Metadata => meta_text(h),
        Q::MetaValue(i) => format!("{:?}", h.metadata_value(KEYS[i as usize % KEYS.len()]).map(|v| value_text(&v))),
        Q::Orientation => h.orientation().to_string(),
        Q::Illum(i) => format!("{:?}", h.calibration_illuminant(i as usize)),
        Q::Matrix(i) => res(&h.colour_matrix(i as usize), |m| format!("{:?} {:?}", m.0, m.1)),
        Q::Dump => dump_text(h),
    }
}

pub fn observe(h: &RawFileHandle) -> Log {
    all_queries()
        .into_iter()
        .map(|q| (format!("{q:?}"), ask(h, q)))
        .collect()
}

fn val_text(v: &V) -> String {
    format!("{v:?}").chars().take(100).collect()
}

/// Compare an entry read through the Ifd trait with the value written.
pub fn cmp_tag<D: Ifd>(c: &mut Cmp, name: &str, d: &D, tag: u16, v: Option<&V>) {
    use tiff::exif::{Rational, SRational};
    let e = d.entry(tag);
    let k = format!("tag.{name}.{tag:#06x}");
    let (e, v) = match (e, v) {
        (None, None) => {
            c.checks += 1;
            return;
        }
        (Some(_), None) => return c.fail(&k, "present, expected absent".into()),
        (None, Some(v)) => return c.fail(&k, format!("absent, expected {}", val_text(v))),
        (Some(e), Some(v)) => (e, v),
    };
    let endian = d.endian();
    fn nul(v: &[u8]) -> String {
        let n = v.iter().position(|b| *b == 0).unwrap_or(v.len());
        String::from_utf8_lossy(&v[..n]).to_string()
    }
    let list = |n: usize| 0..(n as u32);
    match v {
        V::Ascii(s) => {
            c.eq(&k, e.string_value(), Some(nul(s)));
            c.eq(&k, d.value::<String>(tag), if s.is_empty() { None } else { Some(nul(s)) });
        }
        V::Byte(b) => {
            let got: Vec<Option<u8>> = list(b.len()).map(|i| d.entry_value::<u8>(e, i)).collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
            c.eq(&k, d.entry_value::<u8>(e, b.len() as u32), None);
        }
        V::Undef(b) => {
            let got: Vec<Option<u8>> = list(b.len()).map(|i| d.entry_value::<u8>(e, i)).collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
        }
        V::SByte(b) => {
            let got: Vec<Option<i8>> = list(b.len()).map(|i| d.entry_value::<i8>(e, i)).collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
        }
        V::Short(b) => {
            let got: Vec<Option<u16>> = list(b.len()).map(|i| d.entry_value::<u16>(e, i)).collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
            c.eq(&k, e.uint_value_array(endian), Some(b.iter().map(|v| *v as u32).collect()));
            c.eq(&k, e.float_value_array(endian), Some(b.iter().map(|v| *v as f64).collect()));
            c.eq(&k, d.entry_value::<u16>(e, b.len() as u32), None);
            c.eq(&k, d.entry_value::<u32>(e, 0), None);
        }
        V::Long(b) => {
            let got: Vec<Option<u32>> = list(b.len()).map(|i| d.entry_value::<u32>(e, i)).collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
            c.eq(&k, e.uint_value_array(endian), Some(b.clone()));
            c.eq(&k, d.entry_value::<u16>(e, 0), None);
        }
        V::SShort(b) => {
            let got: Vec<Option<i16>> = list(b.len()).map(|i| d.entry_value::<i16>(e, i)).collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
            c.eq(&k, e.int_value_array(endian), Some(b.iter().map(|v| *v as i32).collect()));
        }
        V::SLong(b) => {
            let got: Vec<Option<i32>> = list(b.len()).map(|i| d.entry_value::<i32>(e, i)).collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
            c.eq(&k, e.int_value_array(endian), Some(b.clone()));
        }
        V::Rat(b) => {
            let got: Vec<Option<(u32, u32)>> = list(b.len())
                .map(|i| d.entry_value::<Rational>(e, i).map(|r| (r.num, r.denom)))
                .collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
            let f: Vec<f64> = b
                .iter()
                .map(|v| if v.1 == 0 { f64::NAN } else { v.0 as f64 / v.1 as f64 })
                .collect();
            c.floats(&k, e.float_value_array(endian).as_deref(), Some(&f));
        }
        V::SRat(b) => {
            let got: Vec<Option<(i32, i32)>> = list(b.len())
                .map(|i| d.entry_value::<SRational>(e, i).map(|r| (r.num, r.denom)))
                .collect();
            c.eq(&k, got, b.iter().map(|v| Some(*v)).collect());
            let f: Vec<f64> = b
                .iter()
                .map(|v| if v.1 == 0 { f64::NAN } else { v.0 as f64 / v.1 as f64 })
                .collect();
            c.floats(&k, e.float_value_array(endian).as_deref(), Some(&f));
        }
        V::Float(b) => {
            let got: Vec<Option<u32>> = list(b.len())
                .map(|i| d.entry_value::<f32>(e, i).map(f32::to_bits))
                .collect();
            c.eq(&k, got, b.iter().map(|v| Some(v.to_bits())).collect());
        }
        V::Double(b) => {
            let got: Vec<Option<u64>> = list(b.len())
                .map(|i| d.entry_value::<f64>(e, i).map(f64::to_bits))
                .collect();
            c.eq(&k, got, b.iter().map(|v| Some(v.to_bits())).collect());
        }
        _ => {}
    }
}
