//! What a generated file contains, and the comparison with what the library says.
use libopenraw::{
    Bitmap, DataType, RawFileHandle, RawImage, Rect,
    Type,
};

#[derive(Clone, Debug)]
pub struct ThumbExp {
    pub w: u32,
    pub h: u32,
    pub dt: DataType,
    pub data: Vec<u8>,
}

/// `None` means "not checked". The inner Option is the expected answer.
#[derive(Clone, Debug, Default)]
pub struct RawExp {
    pub w: u32,
    pub h: u32,
    pub bpc: Option<u16>,
    pub data: Vec<u16>,
    pub compression: Option<u32>,
    pub blacks: Option<[u16; 4]>,
    pub whites: Option<[u16; 4]>,
    pub active: Option<Option<[u32; 4]>>,
    pub crop: Option<Option<[u32; 4]>>,
    pub aspect: Option<Option<(u32, u32)>>,
    pub wb: Option<Option<[f64; 4]>>,
    pub wb_xy: Option<Option<(f64, f64)>>,
    /// width, height, colours "RGGB"
    pub mosaic: Option<(usize, usize, String)>,
    pub photom: Option<u32>,
    pub lin: Option<Option<Vec<u16>>>,
    /// not decoded, even when decompressing
    pub data8: Option<Vec<u8>>,
    /// more samples may follow those of the image
    pub extra: bool,
    pub output: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum SkipExp {
    /// same as decoded
    Same,
    /// compressed bytes
    Data8(Vec<u8>),
    Tiles(Vec<Vec<u8>>, (u32, u32)),
}

#[derive(Clone, Debug)]
pub struct Expected {
    pub type_: Type,
    pub type_id: Option<u32>,
    pub mime: Option<&'static str>,
    pub thumbs: Option<Vec<ThumbExp>>,
    pub raw: Option<RawExp>,
    pub skip: Option<SkipExp>,
    pub orientation: Option<u32>,
    /// provided, values
    pub matrix: [Option<Option<(bool, Vec<f64>)>>; 2],
    pub illum: [Option<u32>; 2],
    /// metadata_value(key) -> text
    pub meta: Vec<(String, Option<String>)>,
    /// exif ifd tags: (ifd, tag, value) ifd 0 main, 1 exif, 2 makernote
    pub tags: Vec<(u8, u16, Option<crate::tiffb::V>)>,
    /// The name of the maker note
    pub mnote_id: Option<&'static str>,
    /// Do not check the thumbnail selection rule
    pub no_thumb_rule: bool,
}

impl Expected {
    pub fn new(type_: Type) -> Self {
        Expected {
            type_,
            type_id: None,
            mime: None,
            thumbs: None,
            raw: None,
            skip: None,
            orientation: None,
            matrix: [None, None],
            illum: [None, None],
            meta: vec![],
            tags: vec![],
            mnote_id: None,
            no_thumb_rule: false,
        }
    }
}

/// A generated file.
#[derive(Clone, Debug)]
pub struct GenFile {
    pub kind: String,
    /// parameters, for the evidence
    pub desc: String,
    pub ext: &'static str,
    pub hint: Option<Type>,
    pub bytes: Vec<u8>,
    /// The bytes from the first on are that much further in the file.
    pub gap: Option<(usize, u64)>,
    pub exp: Expected,
}

pub fn rect(r: Option<&Rect>) -> Option<[u32; 4]> {
    r.map(|r| [r.x, r.y, r.width, r.height])
}

pub fn mosaic(r: &RawImage) -> (usize, usize, String) {
    let p = r.mosaic_pattern();
    (
        p.width(),
        p.height(),
        p.pattern().iter().map(|c| c.to_char()).collect(),
    )
}

fn feq(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 160 {
        format!("{}…", s.chars().take(160).collect::<String>())
    } else {
        s
    }
}

/// The list of disagreements.
#[derive(Default)]
pub struct Cmp {
    pub bad: Vec<(String, String)>,
    pub checks: u64,
}

impl Cmp {
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, exp: T) {
        self.checks += 1;
        if got != exp {
            self.bad.push((
                what.to_string(),
                format!("{what}: got {} expected {}", short(&got), short(&exp)),
            ));
        }
    }
    pub fn fail(&mut self, what: &str, msg: String) {
        self.checks += 1;
        self.bad.push((what.to_string(), format!("{what}: {msg}")));
    }
    pub fn data16(&mut self, what: &str, got: &[u16], exp: &[u16], w: usize) {
        self.checks += 1;
        if got == exp {
            return;
        }
        let msg = if got.len() != exp.len() {
            format!("{} samples, expected {}", got.len(), exp.len())
        } else {
            let i = got.iter().zip(exp).position(|(a, b)| a != b).unwrap();
            let n = got.iter().zip(exp).filter(|(a, b)| a != b).count();
            format!(
                "{n} samples of {} differ, first at {i} (row {}, col {}): got {} expected {}",
                exp.len(),
                i / w.max(1),
                i % w.max(1),
                got[i],
                exp[i]
            )
        };
        self.bad.push((what.to_string(), format!("{what}: {msg}")));
    }
    pub fn floats(&mut self, what: &str, got: Option<&[f64]>, exp: Option<&[f64]>) {
        self.checks += 1;
        let ok = match (got, exp) {
            (None, None) => true,
            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| feq(*a, *b)),
            _ => false,
        };
        if !ok {
            self.bad
                .push((what.to_string(), format!("{what}: got {got:?} expected {exp:?}")));
        }
    }
}

pub fn cmp_raw(c: &mut Cmp, pre: &str, r: &RawImage, e: &RawExp) {
    let k = |s: &str| format!("{pre}.{s}");
    c.eq(&k("width"), r.width(), e.w);
    c.eq(&k("height"), r.height(), e.h);
    if let Some(d) = &e.data8 {
        c.eq(&k("data_type"), r.data_type(), DataType::CompressedRaw);
        if r.data8() != Some(&d[..]) {
            c.fail(
                &k("data8"),
                format!("data differ: {:?} bytes, expected {}", r.data8().map(|v| v.len()), d.len()),
            );
        }
        return cmp_desc(c, pre, r, e);
    }
    c.eq(&k("data_type"), r.data_type(), DataType::Raw);
    if let Some(b) = e.bpc {
        c.eq(&k("bpc"), r.bpc(), b);
    }
    match r.data16() {
        Some(d) => {
            let n = if e.extra { e.data.len().min(d.len()) } else { d.len() };
            c.data16(&k("data16"), &d[..n], &e.data, e.w as usize);
            c.eq(&k("data_size"), r.data_size(), d.len() * 2);
        }
        None => c.fail(&k("data16"), "no 16 bit data".into()),
    }
    if let Some(v) = e.compression {
        c.eq(&k("compression"), r.compression() as u32, v);
    }
    cmp_desc(c, pre, r, e);
}

pub fn cmp_desc(c: &mut Cmp, pre: &str, r: &RawImage, e: &RawExp) {
    let k = |s: &str| format!("{pre}.{s}");
    if let Some(v) = e.blacks {
        c.eq(&k("blacks"), *r.blacks(), v);
    }
    if let Some(v) = e.whites {
        c.eq(&k("whites"), *r.whites(), v);
    }
    if let Some(v) = &e.active {
        c.eq(&k("active_area"), rect(r.active_area()), *v);
    }
    if let Some(v) = &e.crop {
        c.eq(&k("user_crop"), rect(r.user_crop()), *v);
    }
    if let Some(v) = &e.aspect {
        c.eq(
            &k("aspect"),
            r.user_aspect_ratio().map(|a| (a.0, a.1)),
            *v,
        );
    }
    if let Some(v) = &e.wb {
        c.floats(
            &k("as_shot_neutral"),
            r.as_shot_neutral(),
            v.as_ref().map(|v| &v[..]),
        );
    }
    if let Some(v) = &e.wb_xy {
        c.eq(
            &k("as_shot_xy"),
            r.as_shot_white_xy().map(|v| short(&v)),
            v.map(|v| short(&v)),
        );
    }
    if let Some(v) = &e.mosaic {
        c.eq(&k("mosaic"), mosaic(r), v.clone());
    }
    if let Some(v) = e.photom {
        c.eq(&k("photometric"), r.photometric_interpretation() as u32, v);
    }
    if let Some(v) = e.output {
        c.eq(&k("output_size"), (r.output_size().width, r.output_size().height), v);
    }
    if let Some(v) = &e.lin {
        c.eq(&k("linearization"), r.linearization_table().cloned(), v.clone());
    }
}

pub fn cmp_skip(c: &mut Cmp, r: &RawImage, e: &SkipExp, raw: Option<&RawExp>) {
    match e {
        SkipExp::Same => {
            if let Some(raw) = raw {
                cmp_raw(c, "skip", r, raw)
            }
        }
        SkipExp::Data8(d) => {
            c.eq("skip.data_type", r.data_type(), DataType::CompressedRaw);
            c.checks += 1;
            if r.data8() != Some(&d[..]) {
                c.fail(
                    "skip.data8",
                    format!(
                        "compressed data differ: {:?} bytes, expected {}",
                        r.data8().map(|v| v.len()),
                        d.len()
                    ),
                );
            }
        }
        SkipExp::Tiles(t, sz) => {
            c.eq("skip.data_type", r.data_type(), DataType::CompressedRaw);
            c.eq("skip.tile_size", r.tile_size(), Some(*sz));
            c.checks += 1;
            if r.tile_data() != Some(&t[..]) {
                c.fail(
                    "skip.tiles",
                    format!(
                        "tiles differ: {:?} tiles, expected {}",
                        r.tile_data().map(|v| v.len()),
                        t.len()
                    ),
                );
            }
        }
    }
}

pub fn cmp_thumbs(c: &mut Cmp, h: &RawFileHandle, exp: &[ThumbExp]) {
    let mut dims: Vec<u32> = exp.iter().map(|t| t.w.max(t.h)).collect();
    dims.sort();
    dims.dedup();
    let sizes: Vec<u32> = h.thumbnail_sizes().map(|s| s.to_vec()).unwrap_or_default();
    let mut sorted = sizes.clone();
    sorted.sort();
    sorted.dedup();
    c.eq("thumbs.sizes", sorted, dims.clone());
    // The rule
    let mut asks: Vec<u32> = vec![1, u32::MAX, 160, 161];
    for d in &dims {
        asks.extend([*d, d.saturating_sub(1).max(1), d + 1]);
    }
    for ask in asks {
        let want = dims
            .iter()
            .find(|d| **d >= ask)
            .or_else(|| dims.last())
            .copied();
        let got = h.thumbnail(ask);
        match (want, got) {
            (None, Err(_)) => c.checks += 1,
            (None, Ok(_)) => c.fail("thumbs.rule", format!("thumbnail({ask}) given, none expected")),
            (Some(w), Err(e)) => c.fail("thumbs.rule", format!("thumbnail({ask}) -> {e}, expected size {w}")),
            (Some(w), Ok(t)) => {
                let cands: Vec<&ThumbExp> = exp.iter().filter(|e| e.w.max(e.h) == w).collect();
                c.checks += 1;
                if !cands.iter().any(|e| {
                    e.w == t.width()
                        && e.h == t.height()
                        && e.dt == t.data_type()
                        && Some(&e.data[..]) == t.data8()
                }) {
                    c.fail(
                        "thumbs.content",
                        format!(
                            "thumbnail({ask}): got {}x{} {:?} {:?} bytes; expected {:?}",
                            t.width(),
                            t.height(),
                            t.data_type(),
                            t.data8().map(|d| d.len()),
                            cands
                                .iter()
                                .map(|e| (e.w, e.h, e.dt, e.data.len()))
                                .collect::<Vec<_>>()
                        ),
                    );
                }
            }
        }
    }
    c.checks += 1;
    if h.thumbnail(0).is_ok() {
        c.fail("thumbs.zero", "thumbnail(0) accepted".into());
    }
}

/// What to compare
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Parts {
    pub ident: bool,
    pub thumbs: bool,
    pub raw: bool,
    pub meta: bool,
    pub colour: bool,
}
pub const ALL: Parts = Parts {
    ident: true,
    thumbs: true,
    raw: true,
    meta: true,
    colour: true,
};

pub const NONE: Parts = Parts {
    ident: false,
    thumbs: false,
    raw: false,
    meta: false,
    colour: false,
};

pub fn compare(h: &RawFileHandle, e: &Expected, p: Parts) -> Cmp {
    let mut c = Cmp::default();
    if p.ident {
        c.eq("type", h.type_(), e.type_);
        if let Some(id) = e.type_id {
            c.eq("type_id", h.type_id().map(u32::from).ok(), Some(id));
            c.eq("vendor_id", h.vendor_id().ok(), Some((id >> 16) as u16));
        }
        if let Some(m) = e.mime {
            c.eq("mime", h.mime_type(), m);
        }
    }
    if p.meta {
        if let Some(o) = e.orientation {
            c.eq("orientation", h.orientation(), o);
        }
        for (k, v) in &e.meta {
            c.eq(
                &format!("meta.{k}"),
                h.metadata_value(k).map(|v| v.into_string(true)),
                v.clone(),
            );
        }
        if let Some(id) = e.mnote_id {
            let got = h.maker_note_ifd().map(|d| {
                let id = d.id().strip_suffix(&[0]).unwrap_or(d.id());
                String::from_utf8_lossy(id.strip_prefix(b"Exif.").unwrap_or(id)).to_string()
            });
            c.eq("mnote.id", got.as_deref(), Some(id));
        }
        for (ifd, tag, v) in &e.tags {
            let (d, n) = match ifd {
                0 => (h.main_ifd(), "main"),
                1 => (h.exif_ifd(), "exif"),
                _ => (h.maker_note_ifd(), "mnote"),
            };
            match d {
                None => {
                    if v.is_some() {
                        c.fail(&format!("tags.{n}"), format!("no {n} ifd"));
                    }
                }
                Some(d) => crate::obs::cmp_tag(&mut c, n, d, *tag, v.as_ref()),
            }
        }
    }
    if p.thumbs {
        if let Some(t) = &e.thumbs {
            cmp_thumbs(&mut c, h, t);
        }
    }
    if p.raw {
        if let Some(r) = &e.raw {
            match h.raw_data(false) {
                Ok(img) => cmp_raw(&mut c, "raw", &img, r),
                Err(err) => c.fail("raw", format!("raw_data(false) failed: {err}")),
            }
        }
        if let Some(s) = &e.skip {
            match h.raw_data(true) {
                Ok(img) => cmp_skip(&mut c, &img, s, e.raw.as_ref()),
                Err(err) => c.fail("skip", format!("raw_data(true) failed: {err}")),
            }
        }
    }
    if p.colour {
        for i in 0..2 {
            if let Some(m) = &e.matrix[i] {
                let got = h.colour_matrix(i + 1).ok();
                c.floats(
                    &format!("matrix{}", i + 1),
                    got.as_ref().map(|g| &g.1[..]),
                    m.as_ref().map(|m| &m.1[..]),
                );
                c.eq(
                    &format!("matrix{}.origin", i + 1),
                    got.as_ref().map(|g| format!("{:?}", g.0)),
                    m.as_ref().map(|m| {
                        if m.0 { "Provided" } else { "Builtin" }.to_string()
                    }),
                );
            }
            if let Some(v) = e.illum[i] {
                c.eq(
                    &format!("illuminant{}", i + 1),
                    h.calibration_illuminant(i + 1) as u32,
                    v,
                );
            }
        }
    }
    c
}
