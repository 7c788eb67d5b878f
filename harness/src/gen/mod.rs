//! File generators: each one writes a well formed file of a format and says
//! what the library has to answer.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;

use libopenraw::{DataType, Type};

use crate::bits::{bytes16, fake_jpeg, image, smooth};
use crate::exp::{Expected, GenFile, RawExp, ThumbExp};
use crate::rng::Rng;
use crate::tiffb::{asc, Node, Tiff, V};

pub mod arw;
pub mod cr2;
pub mod cr3;
pub mod crw;
pub mod dng;
pub mod erf;
pub mod fuji;
pub mod jpeg;
pub mod mnote;
pub mod mrw;
pub mod nef;
pub mod orf;
pub mod pef;
pub mod raf;
pub mod rw2;

thread_local! {
    static FAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Leave a large gap in the files.
pub fn set_far(on: bool) {
    FAR.with(|f| f.set(on))
}
pub fn far() -> bool {
    FAR.with(|f| f.get())
}
/// The size of the gap: around 2 or 4 GiB, so that there are offsets on either side
fn far_gap(r: &mut Rng) -> u64 {
    match r.range(0, 3) {
        0 => 0x8000_0000 - r.range(0, 8000),
        1 => 0x8000_0000 + r.range(0, 1 << 30),
        2 => 0xffff_f000 - r.range(2_000_000, 20_000_000),
        _ => r.range(1 << 24, 0xfe00_0000),
    }
}

thread_local! {
    static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Make mostly large images in this thread.
pub fn large(on: bool) {
    LARGE.with(|l| l.set(on))
}

thread_local! {
    static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Vary the uncompressed layouts more than the formats' cameras do.
pub fn plain(on: bool) {
    PLAIN.with(|l| l.set(on))
}

/// A dimension: a small one, now and then a large one.
pub fn dim(r: &mut Rng, lo: usize, hi: usize) -> usize {
    if r.one_in(if LARGE.with(|l| l.get()) { 2 } else { 60 }) {
        r.usize(hi, hi * 12)
    } else {
        r.usize(lo, hi)
    }
}

pub type GenFn = fn(&mut Rng) -> GenFile;

/// All the generators.
pub const ALL_GEN: &[(&str, GenFn)] = &[("dng", dng::gen), ("erf", erf::gen), ("mrw", mrw::gen), ("nef", nef::gen), ("arw", arw::gen), ("pef", pef::gen), ("orf", orf::gen), ("rw2", rw2::gen), ("raf", raf::gen), ("cr2", cr2::gen), ("crw", crw::gen), ("cr3", cr3::gen), ("jpeg", jpeg::gen)];

// ---- reference tables

pub struct Tables {
    /// format -> (model, type id)
    pub cameras: HashMap<String, Vec<(String, u32)>>,
    /// format -> (numeric model id, type id)
    pub models: HashMap<String, Vec<(u32, u32)>>,
    /// format -> type id -> (black, white, matrix)
    pub matrices: HashMap<String, HashMap<u32, (u16, u16, Vec<f64>)>>,
    pub exif_names: BTreeMap<u16, String>,
    pub gps_names: BTreeMap<u16, String>,
}

pub fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables {
            cameras: HashMap::new(),
            models: HashMap::new(),
            matrices: HashMap::new(),
            exif_names: BTreeMap::new(),
            gps_names: BTreeMap::new(),
        };
        for l in include_str!("../../../data/cameras.tsv").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let id = u32::from_str_radix(f[2], 16).unwrap();
            t.cameras.entry(f[0].into()).or_default().push((f[1].into(), id));
        }
        for l in include_str!("../../../data/models.tsv").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            t.models.entry(f[0].into()).or_default().push((
                u32::from_str_radix(f[1], 16).unwrap(),
                u32::from_str_radix(f[2], 16).unwrap(),
            ));
        }
        for l in include_str!("../../../data/matrices.tsv").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let m = f[4]
                .split(' ')
                .map(|v| v.parse::<f64>().unwrap() / 10000.0)
                .collect();
            t.matrices
                .entry(f[0].into())
                .or_default()
                .entry(u32::from_str_radix(f[1], 16).unwrap())
                .or_insert((f[2].parse().unwrap(), f[3].parse().unwrap(), m));
        }
        for l in include_str!("../../../data/tags.tsv").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let tag = u16::from_str_radix(f[1], 16).unwrap();
            let names = if f[0] == "exif" {
                &mut t.exif_names
            } else {
                &mut t.gps_names
            };
            names.insert(tag, f[2].into());
        }
        t
    })
}

/// A camera of the format: (model text, type id). The map may list a model
/// several times, the last one counts.
pub fn camera(r: &mut Rng, fmt: &str) -> (String, u32) {
    let cams = &tables().cameras[fmt];
    let name = r.pick(cams).0.clone();
    let id = cams.iter().rev().find(|c| c.0 == name).unwrap().1;
    (name, id)
}

/// A model name that no map has.
pub fn unknown_model(r: &mut Rng) -> String {
    format!("Zorglub {}", r.ascii(1, 12).trim())
}

pub fn builtin(fmt: &str, id: u32) -> Option<(u16, u16, Vec<f64>)> {
    tables().matrices.get(fmt).and_then(|m| m.get(&id)).cloned()
}

// ---- values

/// A random value of any type. `max` bounds the count.
pub fn value(r: &mut Rng, max: usize) -> V {
    let n = match r.range(0, 5) {
        0 | 1 => 1,
        2 => 2,
        3 => 4,
        _ => r.usize(1, max),
    };
    macro_rules! many {
        ($e:expr) => {
            (0..n).map(|_| $e).collect()
        };
    }
    match r.range(0, 12) {
        0 => V::Byte(many!(r.u8())),
        1 | 12 => {
            let mut s = r.ascii(0, max).into_bytes();
            match r.range(0, 5) {
                0 => {
                    // two strings
                    s.push(0);
                    s.extend(r.ascii(0, 8).into_bytes());
                    s.push(0)
                }
                // unterminated
                1 if !s.is_empty() => {}
                2 => s.extend_from_slice(&[0, 0, 0]),
                _ => s.push(0),
            }
            V::Ascii(s)
        }
        2 => V::Short(many!(r.u16())),
        3 => V::Long(many!(r.u32())),
        4 => V::Rat(many!((r.u32(), if r.one_in(8) { 0 } else { r.r32(1, 9999) }))),
        5 => V::SByte(many!(r.u8() as i8)),
        6 => V::Undef(many!(r.u8())),
        7 => V::SShort(many!(r.u16() as i16)),
        8 => V::SLong(many!(r.u32() as i32)),
        9 => V::SRat(many!((
            r.u32() as i32,
            if r.one_in(8) { 0 } else { r.i64(-999, 9999) as i32 | 1 }
        ))),
        10 => V::Float(many!(r.i64(-100000, 100000) as f32 / 64.0)),
        _ => V::Double(many!(r.i64(-1 << 40, 1 << 40) as f64 / 512.0)),
    }
}

fn nul(v: &[u8]) -> String {
    let n = v.iter().position(|b| *b == 0).unwrap_or(v.len());
    String::from_utf8_lossy(&v[..n]).to_string()
}

fn list<T: ToString>(v: &[T]) -> String {
    if v.len() == 1 {
        return v[0].to_string();
    }
    let mut s = String::new();
    let many = v.len() > 1;
    if many {
        s.push_str("[ ");
    }
    for x in v {
        s.push_str(&x.to_string());
        if many {
            s.push_str(", ");
        }
    }
    if many {
        s.push(']');
    }
    s
}

/// Text of a metadata value
pub fn vtext(v: &V) -> Option<String> {
    Some(match v {
        V::Byte(b) | V::Undef(b) => list(b),
        V::Ascii(s) => nul(s),
        V::Short(v) => list(v),
        V::Long(v) => list(v),
        V::Rat(v) => list(&v.iter().map(|r| format!("{}/{}", r.0, r.1)).collect::<Vec<_>>()),
        V::SRat(v) => list(&v.iter().map(|r| format!("{}/{}", r.0, r.1)).collect::<Vec<_>>()),
        V::SByte(v) => list(v),
        V::SShort(v) => list(v),
        V::SLong(v) => list(v),
        V::Float(v) => list(v),
        V::Double(v) => list(v),
        _ => return None,
    })
}

/// uint value of an integer entry
pub fn shortlong(r: &mut Rng, v: u32) -> V {
    if v <= 0xffff && r.bool() {
        V::Short(vec![v as u16])
    } else {
        V::Long(vec![v])
    }
}

pub fn shortlongs(r: &mut Rng, v: &[u32]) -> V {
    if v.iter().all(|v| *v <= 0xffff) && r.bool() {
        V::Short(v.iter().map(|v| *v as u16).collect())
    } else {
        V::Long(v.to_vec())
    }
}

/// Tags that no decoder looks at.
const NEUTRAL_MAIN: [u16; 12] = [
    0x010d, 0x010e, 0x0131, 0x0132, 0x013b, 0x013c, 0x011a, 0x011b, 0x0128, 0x0213, 0x8298, 0x0107,
];
const NEUTRAL_EXIF: [u16; 14] = [
    0x829a, 0x829d, 0x8822, 0x8827, 0x9003, 0x9004, 0x9201, 0x9202, 0x9207, 0x9209, 0x920a, 0xa402,
    0xa403, 0x9290,
];

/// Builder common to the TIFF based formats.
pub struct B<'a> {
    pub r: &'a mut Rng,
    pub t: Tiff,
    pub e: Expected,
    used: HashMap<usize, HashSet<u16>>,
    pub desc: Vec<String>,
    pub thumbs: Vec<ThumbExp>,
    /// directory, tag of the count, data and size limit of a preview.
    over: Option<(Node, u16, Node, u32)>,
}

impl<'a> B<'a> {
    pub fn new(r: &'a mut Rng, type_: Type, be: bool) -> Self {
        let mut e = Expected::new(type_);
        e.mime = Some(mime(type_));
        B {
            r,
            t: Tiff::new(be),
            e,
            used: HashMap::new(),
            desc: vec![if be { "MM" } else { "II" }.into()],
            thumbs: vec![],
            over: None,
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.desc.push(s.into());
    }
    pub fn ifd(&mut self) -> Node {
        self.t.ifd(vec![])
    }
    pub fn has(&self, n: Node, tag: u16) -> bool {
        self.used.get(&n.0).map(|s| s.contains(&tag)).unwrap_or(false)
    }
    /// Set a tag (once).
    pub fn set(&mut self, n: Node, tag: u16, v: V) {
        assert!(self.used.entry(n.0).or_default().insert(tag), "tag {tag:x} set twice");
        self.t.push(n, tag, v);
    }
    /// Set a tag, and expect it. 0 main, 1 exif, 2 makernote
    pub fn tag(&mut self, ifd: u8, n: Node, tag: u16, v: V) {
        self.e.tags.push((ifd, tag, Some(v.clone())));
        if ifd == 0 {
            if let (Some(name), Some(t)) = (tables().exif_names.get(&tag), vtext(&v)) {
                self.e.meta.push((format!("Exif.Image.{name}"), Some(t)));
            }
        }
        self.set(n, tag, v);
    }
    pub fn noise(&mut self, ifd: Option<u8>, n: Node, count: usize) {
        for _ in 0..count {
            let tag = match (self.r.range(0, 2), ifd) {
                (0, Some(0)) => *self.r.pick(&NEUTRAL_MAIN),
                (0, Some(1)) => *self.r.pick(&NEUTRAL_EXIF),
                _ => self.r.r16(0xe000, 0xe7ff),
            };
            if self.has(n, tag) {
                continue;
            }
            let v = value(self.r, 24);
            match ifd {
                Some(i) => self.tag(i, n, tag, v),
                None => self.set(n, tag, v),
            }
        }
    }
    /// Make, Model and such in the main IFD. None leaves it out.
    pub fn make_model(&mut self, n: Node, make: Option<&str>, model: Option<&str>) {
        if let Some(m) = make {
            self.tag(0, n, 0x010f, asc(m));
        }
        if let Some(m) = model {
            self.tag(0, n, 0x0110, asc(m));
        }
    }
    pub fn orientation(&mut self, n: Node) {
        if self.r.one_in(6) {
            self.e.orientation = Some(0);
            return;
        }
        let o = self.r.r16(1, 8);
        self.tag(0, n, 0x0112, V::Short(vec![o]));
        self.e.orientation = Some(o as u32);
    }
    /// Exif IFD, linked to the main.
    pub fn exif(&mut self, main: Node) -> Node {
        let n = self.ifd();
        self.set(main, 0x8769, V::Ptr(vec![n]));
        let c = self.r.usize(1, 8);
        self.noise(Some(1), n, c);
        n
    }
    pub fn ident(&mut self, fmt: &str, id: u32) {
        self.e.type_id = Some(id);
        let m = builtin(fmt, id).map(|m| (false, m.2));
        self.e.illum[0] = Some(if m.is_some() { 21 } else { 0 });
        self.e.matrix[0] = Some(m);
        self.e.matrix[1] = Some(None);
        self.e.illum[1] = Some(0);
    }

    // ---- thumbnails

    /// Dimensions not already taken.
    pub fn thumb_dims(&mut self) -> (u32, u32) {
        loop {
            let w = *self.r.pick(&[160, 320, 640, 1024, 1616, 4000, 97, 255]) + self.r.r32(0, 9);
            let h = if self.r.one_in(4) { w } else { self.r.r32(40, w) };
            let (w, h) = if self.r.bool() { (w, h) } else { (h, w) };
            if !self.thumbs.iter().any(|t| t.w.max(t.h) == w.max(h)) {
                return (w, h);
            }
        }
    }
    pub fn jpeg(&mut self) -> (u32, u32, Vec<u8>) {
        let (w, h) = self.thumb_dims();
        let j = fake_jpeg(self.r, w, h, None);
        (w, h, j)
    }
    pub fn add_thumb(&mut self, w: u32, h: u32, dt: DataType, data: Vec<u8>) {
        self.thumbs.push(ThumbExp { w, h, dt, data });
    }
    /// Put a preview in directory `n`, in one of the forms TIFF has.
    pub fn preview(&mut self, n: Node, subfile: bool) {
        let kind = self.r.range(0, 3);
        if subfile {
            self.set(n, 0xfe, V::Long(vec![1]));
        }
        if self.r.one_in(8) {
            return self.no_preview(n);
        }
        match kind {
            0 => {
                // JPEGInterchangeFormat
                let (w, h, j) = self.jpeg();
                if self.r.bool() {
                    let v = shortlong(self.r, w);
                    self.set(n, 0x100, v);
                    let v = shortlong(self.r, h);
                    self.set(n, 0x101, v);
                }
                if self.r.bool() {
                    self.set(n, 0x103, V::Short(vec![6]));
                }
                self.set(n, 0x202, V::Long(vec![j.len() as u32]));
                let b = self.t.blob(j.clone());
                self.set(n, 0x201, V::Ptr(vec![b]));
                self.over = Some((n, 0x202, b, 3 * w * h));
                self.add_thumb(w, h, DataType::Jpeg, j);
                self.note("preview:jif");
            }
            1 | 2 => {
                let (w, h, j) = self.jpeg();
                let v = shortlong(self.r, w);
                self.set(n, 0x100, v);
                let v = shortlong(self.r, h);
                self.set(n, 0x101, v);
                let c = *self.r.pick(&[6, 7]);
                self.set(n, 0x103, V::Short(vec![c]));
                self.set(n, 0x117, V::Long(vec![j.len() as u32]));
                let b = self.t.blob(j.clone());
                self.set(n, 0x111, V::Ptr(vec![b]));
                self.over = Some((n, 0x117, b, 3 * w * h));
                if self.r.bool() {
                    self.set(n, 0x102, V::Short(vec![8, 8, 8]));
                    self.set(n, 0x106, V::Short(vec![6]));
                }
                self.add_thumb(w, h, DataType::Jpeg, j);
                self.note("preview:strip-jpeg");
            }
            _ => {
                let (w, h) = loop {
                    let w = self.r.r32(1, 48);
                    let h = self.r.r32(1, 48);
                    if !self.thumbs.iter().any(|t| t.w.max(t.h) == w.max(h)) {
                        break (w, h);
                    }
                };
                let d = self.r.bytes((3 * w * h) as usize);
                let v = shortlong(self.r, w);
                self.set(n, 0x100, v);
                let v = shortlong(self.r, h);
                self.set(n, 0x101, v);
                self.set(n, 0x103, V::Short(vec![1]));
                if self.r.bool() {
                    self.set(n, 0x102, V::Short(vec![8, 8, 8]));
                }
                if self.r.bool() {
                    self.set(n, 0x106, V::Short(vec![2]));
                }
                self.set(n, 0x115, V::Short(vec![3]));
                self.set(n, 0x117, V::Long(vec![d.len() as u32]));
                let b = self.t.blob(d.clone());
                self.set(n, 0x111, V::Ptr(vec![b]));
                self.add_thumb(w, h, DataType::PixmapRgb8, d);
                self.note("preview:rgb8");
            }
        }
    }
    /// An image that can't be a preview.
    fn no_preview(&mut self, n: Node) {
        let (mut w, mut h) = (self.r.r32(1, 48), self.r.r32(1, 48));
        let mut len = (3 * w * h) as usize;
        let mut compression = 1;
        match self.r.range(0, 3) {
            0 => {
                // Some Canon have RGB marked as JPEG: the size tells.
                compression = *self.r.pick(&[6, 7]);
                len += *self.r.pick(&[0, 0, 1, 200]);
                self.note("nopreview:rgb8-as-jpeg");
            }
            1 => {
                let bits = *self.r.pick(&[[16, 16, 16], [8, 8, 16], [16, 8, 8]]);
                self.set(n, 0x102, V::Short(bits.to_vec()));
                len *= 2;
                self.note("nopreview:rgb16");
            }
            2 => {
                self.set(n, 0x102, V::Short(vec![8, 8, 8]));
                self.set(n, 0x106, V::Short(vec![6]));
                self.note("nopreview:ycbcr");
            }
            _ => {
                // an undefined size
                if self.r.bool() {
                    w = 0;
                } else {
                    h = 0;
                }
                self.note("nopreview:no-size");
            }
        }
        let v = shortlong(self.r, w);
        self.set(n, 0x100, v);
        let v = shortlong(self.r, h);
        self.set(n, 0x101, v);
        self.set(n, 0x103, V::Short(vec![compression]));
        let d = self.r.bytes(len);
        self.set(n, 0x117, V::Long(vec![len as u32]));
        let b = self.t.blob(d);
        self.set(n, 0x111, V::Ptr(vec![b]));
    }
    /// Some Ricoh count more bytes than there are for a preview at the end of the file.
    fn count_past_end(&mut self) {
        let Some((n, tag, blob, limit)) = self.over else {
            return;
        };
        let len = self.t.blob_bytes(blob).len() as u32;
        if !self.t.last.is_empty() || len + 1 >= limit || !self.r.one_in(8) {
            return;
        }
        let extra = self.r.r32(1, limit - 1 - len);
        for e in &mut self.t.ifd_mut(n).entries {
            if e.0 == tag {
                e.1 = V::Long(vec![len + extra]);
            }
        }
        self.t.last.push(blob);
        self.note(format!("preview counted {extra} past the end"));
    }
    pub fn finish(mut self, kind: &str, ext: &'static str) -> GenFile {
        if far() {
            let far = far_gap(self.r);
            self.t.gap = Some(far);
            self.note(format!("far={far:x}"));
        }
        self.count_past_end();
        let bytes = self.t.build(self.r);
        let gap = self.t.gap.map(|n| (self.t.gap_at, n));
        self.e.thumbs = Some(std::mem::take(&mut self.thumbs));
        GenFile {
            kind: kind.into(),
            desc: self.desc.join(" "),
            ext,
            hint: None,
            bytes,
            gap,
            exp: self.e,
        }
    }
}

pub fn mime(t: Type) -> &'static str {
    match t {
        Type::Arw => "image/x-sony-arw",
        Type::Cr2 => "image/x-canon-cr2",
        Type::Cr3 => "image/x-canon-cr3",
        Type::Crw => "image/x-canon-crw",
        Type::Dng => "image/x-adobe-dng",
        Type::Erf => "image/x-epson-erf",
        Type::Mrw => "image/x-minolta-mrw",
        Type::Nef => "image/x-nikon-nef",
        Type::Nrw => "image/x-nikon-nrw",
        Type::Orf => "image/x-olympus-orf",
        Type::Pef => "image/x-pentax-pef",
        Type::Raf => "image/x-fuji-raf",
        Type::Rw => "image/x-panasonic-rw",
        Type::Rw2 => "image/x-panasonic-rw2",
        Type::Sr2 => "image/x-sony-sr2",
        _ => "application/octet-stream",
    }
}

pub const CFA: [[u8; 4]; 4] = [[0, 1, 1, 2], [2, 1, 1, 0], [1, 0, 2, 1], [1, 2, 0, 1]];
pub fn cfa_text(p: &[u8]) -> String {
    p.iter().map(|c| ['R', 'G', 'B', 'C', 'M', 'Y', 'W'][*c as usize]).collect()
}

/// Cut `h` rows in strips: rows per strip
pub fn cut_rows(r: &mut Rng, h: usize) -> usize {
    if r.bool() {
        h
    } else {
        r.usize(1, h)
    }
}

/// 12 bits, little endian: AB CD EF -> DAB, EFC
pub fn pack_le12(row: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for p in row.chunks(2) {
        o.push(p[0] as u8);
        if p.len() == 2 {
            o.push((p[0] >> 8) as u8 | (p[1] << 4) as u8);
            o.push((p[1] >> 4) as u8);
        } else {
            o.push((p[0] >> 8) as u8);
        }
    }
    o
}

pub fn any_image(r: &mut Rng, w: usize, h: usize, bpc: u32) -> Vec<u16> {
    if r.one_in(3) {
        smooth(r, w, h, bpc, 9)
    } else {
        image(r, w, h, bpc)
    }
}

impl B<'_> {
    /// CFA pattern, in the raw directory `n` or in Exif.
    pub fn cfa(&mut self, n: Node, exif: Option<Node>) -> (usize, usize, String) {
        let p = *self.r.pick(&CFA);
        let be = self.t.be;
        let sized = |p: &[u8], w: u16, h: u16| {
            let mut v = vec![];
            crate::tiffb::p16(&mut v, w, be);
            crate::tiffb::p16(&mut v, h, be);
            v.extend_from_slice(p);
            V::Undef(v)
        };
        let new = |p: [u8; 4]| sized(&p, 2, 2);
        if self.r.one_in(25) {
            // Not a 2x2 pattern, though it starts like one
            let (w, h) = *self.r.pick(&[(2u16, 4u16), (4, 2), (2, 1), (1, 2), (514, 2), (2, 514)]);
            let v = p.repeat((w as usize * h as usize).div_ceil(4).max(1));
            self.set(n, 0xa302, sized(&v, w, h));
            return (0, 0, String::new());
        }
        match (self.r.range(0, 3), exif) {
            (0, _) => return (0, 0, String::new()),
            (1, Some(e)) if !self.has(e, 0xa302) => self.set(e, 0xa302, new(p)),
            (2, _) => self.set(n, 0xa302, new(p)),
            _ => {
                if self.r.bool() {
                    self.set(n, 0x828d, V::Short(vec![2, 2]));
                }
                self.set(n, 0x828e, V::Byte(p.to_vec()));
            }
        }
        (2, 2, cfa_text(&p))
    }

    /// Strips for `rows`: one or several, contiguous or not.
    pub fn strips(&mut self, n: Node, rows: &[Vec<u8>]) {
        let rps = cut_rows(self.r, rows.len());
        let strips: Vec<Vec<u8>> = rows.chunks(rps).map(|s| s.concat()).collect();
        let lens: Vec<u32> = strips.iter().map(|s| s.len() as u32).collect();
        self.note(format!("strips={}", strips.len()));
        let v = shortlong(self.r, rps as u32);
        self.set(n, 0x116, v);
        let v = shortlongs(self.r, &lens);
        self.set(n, 0x117, v);
        if strips.len() > 1 && self.r.bool() {
            let all = self.t.blob(strips.concat());
            self.set(n, 0x111, V::PtrRun(all, lens));
        } else {
            let nodes: Vec<Node> = strips.into_iter().map(|s| self.t.blob(s)).collect();
            self.set(n, 0x111, V::Ptr(nodes));
        }
    }

    /// Uncompressed tiles
    fn tiles(&mut self, n: Node, img: &[u16], w: usize, h: usize, bpc: u32, enc: &dyn Fn(&[u16]) -> Vec<u8>) {
        let (tw, th) = (self.r.usize(1, w + 8).max(4).div_ceil(4) * 4, self.r.usize(1, h + 8).max(3));
        let mut nodes = vec![];
        let mut lens = vec![];
        for ty in 0..h.div_ceil(th) {
            for tx in 0..w.div_ceil(tw) {
                let t = dng::tile(img, w, h, tx * tw, ty * th, tw, th, self.r, bpc);
                let t: Vec<u8> = t.chunks(tw).flat_map(enc).collect();
                lens.push(t.len() as u32);
                nodes.push(self.t.blob(t));
            }
        }
        self.note(format!("tiles={} of {tw}x{th}", nodes.len()));
        let v = shortlong(self.r, tw as u32);
        self.set(n, 0x142, v);
        let v = shortlong(self.r, th as u32);
        self.set(n, 0x143, v);
        self.set(n, 0x145, V::Long(lens));
        self.set(n, 0x144, V::Ptr(nodes));
    }

    pub fn dims(&mut self, n: Node, w: usize, h: usize, bpc: u32) {
        let v = shortlong(self.r, w as u32);
        self.set(n, 0x100, v);
        let v = shortlong(self.r, h as u32);
        self.set(n, 0x101, v);
        self.set(n, 0x102, V::Short(vec![bpc as u16]));
        if self.r.bool() {
            self.set(n, 0x106, V::Short(vec![32803]));
        }
    }

    /// Uncompressed raw image, as TIFF stores it. Returns what is expected.
    pub fn plain_raw(&mut self, n: Node, exif: Option<Node>, bpcs: &[u32]) -> RawExp {
        let (w, h) = (dim(self.r, 4, 66), dim(self.r, 1, 36));
        let vary = PLAIN.with(|l| l.get());
        let bpc = *self.r.pick(if vary { &[8, 10, 12, 12, 14, 14, 16] } else { bpcs });
        let img = any_image(self.r, w, h, bpc);
        let wide = matches!(bpc, 12 | 14) && self.r.bool();
        let be = self.t.be;
        let enc = |row: &[u16]| -> Vec<u8> {
            match bpc {
                8 => row.iter().map(|v| *v as u8).collect(),
                16 => bytes16(row, be),
                _ if wide => bytes16(row, be),
                12 if !be => pack_le12(row),
                _ => crate::bits::pack_be(row, bpc),
            }
        };
        self.dims(n, w, h, bpc);
        self.set(n, 0x103, V::Short(vec![1]));
        if vary && self.r.one_in(3) {
            self.tiles(n, &img, w, h, bpc, &enc);
        } else {
            let mut rows: Vec<Vec<u8>> = img.chunks(w).map(enc).collect();
            if vary && !wide && bpc % 8 != 0 && self.r.one_in(5) {
                // The last strip is longer than what the image takes.
                let total: usize = rows.iter().map(|r| r.len()).sum();
                let pad = match self.r.range(0, 2) {
                    0 => self.r.usize(1, 20),
                    1 => self.r.usize(1, 2 * w * h),
                    _ => (2 * w * h).saturating_sub(total) + self.r.usize(1, 600),
                };
                // 12 and 14 bits that take as much as 16 bits are read as such
                if total + pad != 2 * w * h {
                    let pad = self.r.bytes(pad);
                    rows.last_mut().unwrap().extend(pad);
                    self.note(format!("strips too long by {}", rows.last().unwrap().len()));
                }
            }
            self.strips(n, &rows);
        }
        self.note(format!("plain {w}x{h} bpc={bpc} wide={wide}"));
        RawExp {
            w: w as u32,
            h: h as u32,
            bpc: Some(bpc as u16),
            data: img,
            compression: Some(1),
            blacks: Some([0; 4]),
            whites: Some([((1_u32 << bpc) - 1) as u16; 4]),
            active: Some(None),
            crop: Some(None),
            aspect: Some(None),
            wb: Some(None),
            wb_xy: Some(None),
            mosaic: Some(self.cfa(n, exif)),
            photom: Some(32803),
            lin: Some(None),
            data8: None,
            extra: false,
            output: None,
        }
    }
}

/// Id of the unknown models of a vendor
pub fn unknown_id(fmt: &str) -> u32 {
    tables().cameras[fmt][0].1 & 0xffff_0000
}

/// Make and model of a camera of the vendor, 1 in 4 unknown. Returns the id.
pub fn vendor_model(b: &mut B, main: Node, fmt: &str, make: &str) -> u32 {
    let id = if b.r.one_in(4) {
        let m = unknown_model(b.r);
        b.make_model(main, Some(make), Some(&m));
        unknown_id(fmt)
    } else {
        let (m, id) = camera(b.r, fmt);
        b.make_model(main, Some(make), Some(&m));
        id
    };
    b.ident(fmt, id);
    id
}
