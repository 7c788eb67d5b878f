//! C01: the C API gives the answers of the Rust API.
//!
//! The C client in csrc/capi.c asks every function declared in the headers.
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::raw::c_char;
use std::os::raw::c_void;

use libopenraw::metadata::Value;
use libopenraw::tiff::IfdType;
use libopenraw::{
    extensions, mime_types, rawfile_from_file, rawfile_from_memory, type_for_mime_type, Bitmap, CfaPattern,
    ColourSpace, DataType, Error, Ifd, RawFileHandle, RawImage, RenderingOptions, RenderingStage, Thumbnail, Type,
};
use serde_json::json;

use crate::alloc;
use crate::checks::s01::describe;
use crate::hostile::{family, Input};
use crate::report::{guard, h64, Ctx};
use crate::rng::Rng;

type Emit = extern "C" fn(*mut c_void, *const c_char, *const u8, usize);

#[repr(C)]
struct Plan {
    flags: u32,
    type_: u32,
    sizes: *const u32,
    sizes_len: usize,
    keys: *const *const c_char,
    keys_len: usize,
    tags: *const u32,
    tags_len: usize,
    options: *const u32,
    options_len: usize,
}

extern "C" {
    fn orv_capi_dump(emit: Emit, ctx: *mut c_void, data: *const u8, len: u32, plan: *const Plan);
    fn orv_capi_path(emit: Emit, ctx: *mut c_void, path: *const c_char, type_: u32, size: u32, options: u32);
    fn orv_capi_static(emit: Emit, ctx: *mut c_void, mimes: *const *const c_char, len: usize);
}

type Answers = BTreeMap<String, Vec<u8>>;

extern "C" fn emit(ctx: *mut c_void, key: *const c_char, data: *const u8, len: usize) {
    let a = unsafe { &mut *(ctx as *mut Answers) };
    let key = unsafe { std::ffi::CStr::from_ptr(key) }.to_string_lossy().to_string();
    let data = if len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(data, len) }.to_vec() };
    a.insert(key, data);
}

const NULL: &[u8] = b"\xff(null)";

/// The codes of consts.h.
fn code(e: &Error) -> i64 {
    match e {
        Error::BufferTooSmall => 1,
        Error::InvalidAddress => 2,
        Error::NotFound => 5,
        Error::InvalidParam => 6,
        Error::InvalidFormat => 7,
        Error::Decompression(_) => 8,
        Error::Unimplemented | Error::NotSupported => 9,
        _ => 42,
    }
}

fn format(t: DataType) -> i64 {
    match t {
        DataType::PixmapRgb8 => 1,
        DataType::PixmapRgb16 => 2,
        DataType::Jpeg => 3,
        DataType::Raw => 6,
        DataType::CompressedRaw => 7,
        DataType::Unknown => 100,
    }
}

fn cfa(p: &CfaPattern) -> (i64, Vec<u8>) {
    match p {
        CfaPattern::Empty => (0, vec![]),
        CfaPattern::NonRgb22(v) => (1, v.iter().map(|c| *c as u8).collect()),
        CfaPattern::Rggb => (2, vec![0, 1, 1, 2]),
        CfaPattern::Gbrg => (3, vec![1, 2, 0, 1]),
        CfaPattern::Bggr => (4, vec![2, 1, 1, 0]),
        CfaPattern::Grbg => (5, vec![1, 0, 2, 1]),
    }
}

fn doubles(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|v| v.to_ne_bytes()).collect()
}
fn longs(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|v| v.to_ne_bytes()).collect()
}
fn shorts(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|v| v.to_ne_bytes()).collect()
}
/// A C string stops at the first NUL
fn c_str(v: &[u8]) -> Vec<u8> {
    v.split(|b| *b == 0).next().unwrap_or(&[]).to_vec()
}

#[derive(Default)]
struct Exp(Answers);
impl Exp {
    fn num(&mut self, k: &str, v: i64) {
        self.0.insert(k.into(), v.to_ne_bytes().to_vec());
    }
    fn bytes(&mut self, k: &str, v: Vec<u8>) {
        self.0.insert(k.into(), v);
    }
    fn matrix(&mut self, k: &str, m: &libopenraw::Result<Vec<f64>>) {
        match m {
            Err(e) => self.num(&format!("{k}.probe"), code(e)),
            Ok(m) => {
                let n = m.len() as i64;
                self.num(&format!("{k}.probe"), if n == 0 { 6 } else { 1 });
                if n == 0 {
                    return;
                }
                self.num(&format!("{k}.need"), n);
                if n > 1 {
                    self.num(&format!("{k}.short"), 1);
                    self.num(&format!("{k}.short.need"), n);
                }
                self.num(&format!("{k}.get"), 0);
                self.num(&format!("{k}.size"), n);
                self.bytes(&format!("{k}.data"), doubles(m));
            }
        }
    }
    fn thumb(&mut self, k: &str, t: Option<&Thumbnail>) {
        self.num(&format!("{k}.null"), t.is_none() as i64);
        let Some(t) = t else { return };
        self.num(&format!("{k}.format"), format(t.data_type()));
        self.num(&format!("{k}.x"), t.width() as i64);
        self.num(&format!("{k}.y"), t.height() as i64);
        self.num(&format!("{k}.xy"), ((t.width() as i64) << 32) | t.height() as i64);
        self.bytes(&format!("{k}.data"), t.data8().map(|d| d.to_vec()).unwrap_or(NULL.to_vec()));
        self.num(&format!("{k}.release"), 0);
    }
    fn raw(&mut self, k: &str, r: Option<&RawImage>, flags: u32) {
        self.num(&format!("{k}.null"), r.is_none() as i64);
        let Some(r) = r else { return };
        let data = r.data8().map(|d| d.to_vec()).or_else(|| r.data16().map(shorts));
        self.num(&format!("{k}.format"), format(r.data_type()));
        self.num(&format!("{k}.x"), r.width() as i64);
        self.num(&format!("{k}.y"), r.height() as i64);
        let tiles = r.tile_data().map(|t| t.iter().map(|t| t.len()).sum::<usize>()).unwrap_or(0);
        self.num(&format!("{k}.size"), data.as_ref().map(|d| d.len()).unwrap_or(tiles) as i64);
        self.bytes(&format!("{k}.data"), data.unwrap_or(NULL.to_vec()));
        self.num(&format!("{k}.bpc"), r.bpc() as i64);
        self.num(&format!("{k}.compression"), r.compression() as u32 as i64);
        let (t, p) = cfa(r.mosaic_pattern());
        self.num(&format!("{k}.cfa"), t);
        self.num(&format!("{k}.mosaic.null"), 0);
        self.num(&format!("{k}.mosaic.type"), t);
        self.bytes(&format!("{k}.mosaic"), p);
        self.num(&format!("{k}.levels.err"), 0);
        self.bytes(&format!("{k}.blacks"), shorts(r.blacks()));
        self.bytes(&format!("{k}.whites"), shorts(r.whites()));
        self.bytes(&format!("{k}.levels.both"), shorts(r.blacks()));
        self.bytes(&format!("{k}.levels.both.w"), shorts(r.whites()));
        let wb = r.as_shot_neutral();
        self.num(&format!("{k}.neutral.err"), if wb.is_some() { 0 } else { 5 });
        self.bytes(&format!("{k}.neutral"), wb.map(doubles).unwrap_or_default());
        let xy = r.as_shot_white_xy();
        self.num(&format!("{k}.xy.err"), if xy.is_some() { 0 } else { 5 });
        self.bytes(&format!("{k}.xy"), xy.map(|v| doubles(&[v.0, v.1])).unwrap_or_default());
        for i in 0..4 {
            let m = r.colour_matrix(i).map(|m| doubles(&m.matrix));
            self.bytes(&format!("{k}.matrix.{i}"), m.unwrap_or(NULL.to_vec()));
            if flags & 8 != 0 {
                self.num(&format!("{k}.matrix.{i}.same"), 1);
            }
        }
        for (what, rect) in [("area", r.active_area()), ("crop", r.user_crop())] {
            self.num(&format!("{k}.{what}.err"), if rect.is_some() { 0 } else { 5 });
            let v = rect.map(|r| longs(&[r.x, r.y, r.width, r.height])).unwrap_or(longs(&[0; 4]));
            self.bytes(&format!("{k}.{what}"), v.clone());
            self.bytes(&format!("{k}.{what}.single"), v);
        }
        let a = r.user_aspect_ratio();
        self.num(&format!("{k}.aspect.err"), if a.is_some() { 0 } else { 5 });
        self.bytes(&format!("{k}.aspect"), a.map(|a| longs(&[a.0, a.1])).unwrap_or(longs(&[0; 2])));
        self.num(&format!("{k}.release"), 0);
    }
    fn image(&mut self, k: &str, r: Option<&RawImage>) {
        self.num(&format!("{k}.null"), r.is_none() as i64);
        let Some(r) = r else { return };
        let data = if r.data_type() == DataType::PixmapRgb16 {
            r.data16().map(shorts)
        } else {
            r.data8().map(|d| d.to_vec())
        };
        self.num(&format!("{k}.format"), format(r.data_type()));
        self.num(&format!("{k}.x"), r.width() as i64);
        self.num(&format!("{k}.y"), r.height() as i64);
        self.num(&format!("{k}.size"), r.data_size() as i64);
        self.bytes(&format!("{k}.data"), data.unwrap_or(NULL.to_vec()));
        self.num(&format!("{k}.release"), 0);
    }
    fn value(&mut self, k: &str, v: Option<&Value>, flags: u32) {
        self.num(&format!("{k}.value.null"), v.is_none() as i64);
        let Some(v) = v else { return };
        self.num(&format!("{k}.vcount"), v.count() as u32 as i64);
        self.bytes(&format!("{k}.string"), if let Value::String(s) = v { c_str(s) } else { NULL.to_vec() });
        self.bytes(&format!("{k}.as"), c_str(v.into_string(flags & 2 == 0).as_bytes()));
    }
}

struct Ask {
    flags: u32,
    sizes: Vec<u32>,
    keys: Vec<String>,
    tags: Vec<u32>,
    options: Vec<u32>,
}

fn rendering(v: u32) -> RenderingOptions {
    let mut o = RenderingOptions::default();
    for cs in [ColourSpace::Unknown, ColourSpace::Camera, ColourSpace::XYZ, ColourSpace::SRgb] {
        if cs as u32 == v & 0xf {
            o = o.with_target(cs);
        }
    }
    o.with_stage(match (v >> 4) & 3 {
        0 => RenderingStage::Raw,
        1 => RenderingStage::Linearization,
        2 => RenderingStage::Interpolation,
        _ => RenderingStage::Colour,
    })
}

const DIRS: [(u32, IfdType); 8] = [
    (0, IfdType::Other),
    (1, IfdType::Main),
    (2, IfdType::Exif),
    (3, IfdType::MakerNote),
    (4, IfdType::Raw),
    (5, IfdType::SubIfd),
    (6, IfdType::GpsInfo),
    (10000, IfdType::Other),
];

fn dir_type(t: IfdType) -> i64 {
    DIRS.iter().find(|d| d.1 == t).map(|d| d.0 as i64).unwrap_or(-1)
}

/// What the Rust API says.
fn expect(h: &RawFileHandle, ask: &Ask) -> Answers {
    let mut e = Exp::default();
    e.num("open", 1);
    e.num("type", h.type_() as u32 as i64);
    let id: u32 = h.identify_id().map(|id| id.into()).unwrap_or(0);
    e.num("typeid", id as i64);
    e.num("vendorid", (id >> 16) as i64);
    e.num("orientation", h.orientation() as i32 as i64);
    e.num("illuminant1", h.calibration_illuminant(1) as u32 as i64);
    e.num("illuminant2", h.calibration_illuminant(2) as u32 as i64);
    e.num("origin", h.colour_matrix(1).map(|m| m.0 as u32 as i64).unwrap_or(0));
    e.matrix("cm1", &h.colour_matrix(1).map(|m| m.1));
    e.matrix("cm2", &h.colour_matrix(2).map(|m| m.1));
    let sizes = h.thumbnail_sizes();
    e.bytes("sizes", sizes.map(longs).unwrap_or(NULL.to_vec()));
    if let Some(s) = sizes {
        e.bytes("sizes.again", longs(s));
    }
    for s in &ask.sizes {
        let t = h.thumbnail(*s);
        e.num(&format!("thumb{s}.err"), t.as_ref().err().map(code).unwrap_or(0));
        if ask.flags & 8 != 0 {
            e.num(&format!("thumb{s}.noerr"), t.is_err() as i64);
        }
        e.thumb(&format!("thumb{s}"), t.as_ref().ok());
    }
    for i in 0..2 {
        let r = h.raw_data(i == 1);
        e.num(&format!("raw{i}.err"), r.as_ref().err().map(code).unwrap_or(0));
        e.raw(&format!("raw{i}"), r.as_ref().ok(), ask.flags);
    }
    for o in &ask.options {
        let r = h.rendered_image(rendering(*o));
        if ask.flags & 8 == 0 {
            e.num(&format!("image{o}.err"), r.as_ref().err().map(code).unwrap_or(0));
        }
        e.image(&format!("image{o}"), r.as_ref().ok());
    }
    for (i, k) in ask.keys.iter().enumerate() {
        e.value(&format!("value{i}"), h.metadata_value(k).as_ref(), ask.flags);
    }
    for (n, t) in DIRS {
        let d = h.ifd(t);
        let k = format!("ifd{n}");
        e.num(&format!("{k}.null"), d.is_none() as i64);
        let Some(d) = d else { continue };
        e.num(&format!("{k}.count"), d.num_entries() as i32 as i64);
        e.num(&format!("{k}.type"), dir_type(d.ifd_type()));
        e.bytes(&format!("{k}.id"), c_str(d.id()));
        for tag in &ask.tags {
            let name = u16::try_from(*tag).map(|t| d.tag_name(t)).unwrap_or("");
            e.bytes(&format!("{k}.name.{tag}"), name.as_bytes().to_vec());
        }
    }
    e.num("iterator", 1);
    e.num("meta.before", 1);
    let mut count = 0;
    for (key, value, type_) in h.metadata().into_iter().flatten() {
        let k = format!("meta{count}");
        e.bytes(&format!("{k}.key"), c_str(key.as_bytes()));
        e.num(&format!("{k}.type"), type_ as i64);
        e.value(&k, Some(&value), ask.flags);
        count += 1;
    }
    e.num("meta.after", 1);
    e.num("meta.next", 0);
    e.num("meta.count", count);
    e.num("meta.dirs", count);
    if ask.flags & 17 == 0 {
        e.num("release", 0);
    }
    e.0
}

fn text(v: Option<&Vec<u8>>) -> String {
    match v {
        None => "nothing".into(),
        Some(v) if v.len() == 8 => i64::from_ne_bytes(v[..].try_into().unwrap()).to_string(),
        Some(v) => format!("{:?}{}", &v[..v.len().min(24)], if v.len() > 24 { format!("... {} bytes", v.len()) } else { "".into() }),
    }
}

/// The first answer that differs, and how many were compared.
fn differ(got: &Answers, want: &Answers) -> Option<(String, String)> {
    got.keys().chain(want.keys()).find(|k| got.get(*k) != want.get(*k)).map(|k| {
        let sig: String = k.chars().filter(|c| !c.is_ascii_digit()).collect();
        (sig, format!("{k}: C says {}, Rust says {}", text(got.get(k)), text(want.get(k))))
    })
}

fn dump(bytes: &[u8], type_: u32, ask: &Ask, to: Option<&mut Answers>) {
    let keys: Vec<CString> = ask.keys.iter().map(|k| CString::new(c_str(k.as_bytes())).unwrap()).collect();
    let pointers: Vec<*const c_char> = keys.iter().map(|k| k.as_ptr()).collect::<Vec<_>>();
    let plan = Plan {
        flags: ask.flags,
        type_,
        sizes: ask.sizes.as_ptr(),
        sizes_len: ask.sizes.len(),
        keys: pointers.as_ptr(),
        keys_len: keys.len(),
        tags: ask.tags.as_ptr(),
        tags_len: ask.tags.len(),
        options: ask.options.as_ptr(),
        options_len: ask.options.len(),
    };
    let (f, ctx): (Emit, *mut c_void) = match to {
        Some(a) => (emit, a as *mut Answers as *mut c_void),
        None => (discard, std::ptr::null_mut()),
    };
    unsafe { orv_capi_dump(f, ctx, bytes.as_ptr(), bytes.len() as u32, &plan) };
}

extern "C" fn discard(_: *mut c_void, _: *const c_char, _: *const u8, _: usize) {}

/// Does the library keep memory after everything was released? What is built
/// once stays, so that it has to happen every time.
fn leak(bytes: &[u8], type_: u32, ask: &Ask) -> Option<i64> {
    let mut least = i64::MAX;
    for _ in 0..5 {
        let before = alloc::live();
        dump(bytes, type_, ask, None);
        least = least.min(alloc::live() - before);
        if least <= 0 {
            return None;
        }
    }
    Some(least)
}

fn ask(h: &RawFileHandle, r: &mut Rng) -> Ask {
    let mut sizes: Vec<u32> = h.thumbnail_sizes().map(|s| s.to_vec()).unwrap_or_default();
    if let Some(s) = sizes.first().copied() {
        sizes.push(s.wrapping_add(1));
        sizes.push(s.wrapping_sub(1));
    }
    sizes.extend([0, 1, 160, u32::MAX]);
    sizes.truncate(12);
    sizes.sort();
    sizes.dedup();
    let mut keys: Vec<String> = h.metadata().into_iter().flatten().map(|m| m.0).take(60).collect();
    r.shuffle(&mut keys);
    keys.truncate(6);
    keys.extend(["Exif.Image.Model", "Exif.Image.Make", "Exif.Photo.FNumber", "", "nothing"].map(String::from));
    let mut tags = vec![0x10f, 0x110, 0x8769, 0x112, 1, 2, 0xffff, 0x1010f, u32::MAX];
    for _ in 0..6 {
        tags.push(r.range(0, 0xffff) as u32);
    }
    tags.sort();
    tags.dedup();
    let small = h.raw_data(false).map(|i| i.width() as u64 * i.height() as u64 <= 20_000).unwrap_or(true);
    let mut options = vec![];
    if small {
        for _ in 0..2 {
            options.push(r.range(0, 3) as u32 | (r.range(0, 3) as u32) << 4 | if r.one_in(4) { 0xff40 } else { 0 });
        }
        options.push(0x33);
        options.sort();
        options.dedup();
    }
    Ask { flags: r.range(0, 31) as u32, sizes, keys, tags, options }
}

fn one(ctx: &Ctx, i: u64, inp: &Input, dir: &std::path::Path, r: &mut Rng) {
    if inp.bytes.len() > 2 << 20 {
        return;
    }
    let type_ = inp.hint.map(|t| t as u32).unwrap_or(0);
    let wanted = guard(|| {
        rawfile_from_memory(inp.bytes.clone(), inp.hint).map(|h| {
            let a = ask(&h, r);
            let h2 = rawfile_from_memory(inp.bytes.clone(), inp.hint).unwrap();
            (expect(&h2, &a), a)
        })
    });
    // a panic is S01's business, and aborts the process through the C API
    let Ok(wanted) = wanted else {
        ctx.count("skipped_panics", 1);
        return;
    };
    ctx.case(Some(&format!("{:x}", h64(&inp.bytes))));
    if i < 3 {
        ctx.sample(json!({"kind": inp.kind, "what": inp.desc, "bytes": inp.bytes.len()}));
    }
    let mut got = Answers::new();
    let (want, a) = match wanted {
        Err(_) => {
            let a = Ask { flags: 0, sizes: vec![], keys: vec![], tags: vec![], options: vec![] };
            (Answers::from([("open".to_string(), 0i64.to_ne_bytes().to_vec())]), a)
        }
        Ok(w) => {
            ctx.count("opened", 1);
            w
        }
    };
    dump(&inp.bytes, type_, &a, Some(&mut got));
    ctx.count("answers_compared", want.len() as u64);
    if let Some((sig, d)) = differ(&got, &want) {
        ctx.violation(&sig, &format!("{d} {}", describe(inp, &format!("flags {}", a.flags))), Some(&inp.bytes));
        return;
    }
    if r.one_in(4) {
        ctx.count("leak_checks", 1);
        if let Some(n) = leak(&inp.bytes, type_, &a) {
            ctx.violation("leak", &format!("{n} bytes are kept by each use {}", describe(inp, "leak")), Some(&inp.bytes));
        }
    }
    if r.one_in(6) {
        path(ctx, i, inp, dir, r);
    }
}

fn path(ctx: &Ctx, i: u64, inp: &Input, dir: &std::path::Path, r: &mut Rng) {
    let gone = r.one_in(8);
    let ext = *r.pick(&["", ".dng", ".cr2", ".NEF", ".xyz", ".jpg", ".cr3", ".raf"]);
    let p = dir.join(format!("{i}{ext}"));
    if !gone && std::fs::write(&p, &inp.bytes).is_err() {
        return;
    }
    let size = *r.pick(&[0, 1, 159, 160, 161, 1000, 5000]);
    let options = r.range(0, 1) as u32;
    let hint = if r.bool() { inp.hint } else { None };
    let want = guard(|| {
        let mut e = Exp::default();
        let f = rawfile_from_file(&p, hint);
        e.num("path.open", f.is_ok() as i64);
        if let Ok(f) = &f {
            e.num("path.type", f.type_() as u32 as i64);
            let id: u32 = f.identify_id().map(|id| id.into()).unwrap_or(0);
            e.num("path.typeid", id as i64);
            e.num("path.release", 0);
        }
        let open = |e: &Error| if let Error::IoError(_) = e { 3 } else { code(e) };
        let t = rawfile_from_file(&p, None).map_err(|e| open(&e)).and_then(|f| f.thumbnail(size).map_err(|e| code(&e)));
        e.num("path.thumb.err", *t.as_ref().err().unwrap_or(&0));
        e.thumb("path.thumb", t.as_ref().ok());
        let d = rawfile_from_file(&p, None).map_err(|e| open(&e)).and_then(|f| f.raw_data(options == 1).map_err(|e| code(&e)));
        e.num("path.raw.err", *d.as_ref().err().unwrap_or(&0));
        e.raw("path.raw", d.as_ref().ok(), 0);
        e.0
    });
    if let Ok(want) = want {
        let mut got = Answers::new();
        let c = CString::new(p.to_str().unwrap()).unwrap();
        let ctx_ptr = &mut got as *mut Answers as *mut c_void;
        unsafe { orv_capi_path(emit, ctx_ptr, c.as_ptr(), hint.map(|t| t as u32).unwrap_or(0), size, options) };
        ctx.count("paths", 1);
        ctx.count("answers_compared", want.len() as u64);
        if let Some((sig, d)) = differ(&got, &want) {
            ctx.violation(&sig, &format!("{d} {}", describe(inp, &format!("file {ext:?} size {size}"))), Some(&inp.bytes));
        }
    }
    let _ = std::fs::remove_file(&p);
}

fn statics(ctx: &Ctx) {
    let mut e = Exp::default();
    for (i, m) in mime_types().iter().enumerate() {
        e.bytes(&format!("mime{i}"), m.as_bytes().to_vec());
    }
    e.num("mimes", mime_types().len() as i64);
    for (i, x) in extensions().iter().enumerate() {
        e.bytes(&format!("ext{i}"), x.as_bytes().to_vec());
    }
    e.num("exts", extensions().len() as i64);
    let mut list: Vec<String> = mime_types().iter().map(|m| m.to_string()).collect();
    list.extend(["", "image/x-", "image/jpeg", "IMAGE/X-CANON-CR2", "image/x-adobe-dng "].map(String::from));
    for (i, m) in list.iter().enumerate() {
        e.num(&format!("mimetype{i}"), type_for_mime_type(m).unwrap_or(Type::Unknown) as u32 as i64);
    }
    let c: Vec<CString> = list.iter().map(|m| CString::new(m.as_str()).unwrap()).collect();
    let p: Vec<*const c_char> = c.iter().map(|m| m.as_ptr()).collect();
    let mut got = Answers::new();
    unsafe { orv_capi_static(emit, &mut got as *mut Answers as *mut c_void, p.as_ptr(), p.len()) };
    let nulls: Vec<String> = got.keys().filter(|k| k.starts_with("null ")).cloned().collect();
    ctx.count("null_references", nulls.len() as u64);
    for k in nulls {
        if got.remove(&k) != Some(1i64.to_ne_bytes().to_vec()) {
            ctx.violation(&k, &format!("a null reference: not {}", &k[5..]), None);
        }
    }
    ctx.count("answers_compared", e.0.len() as u64);
    if let Some((sig, d)) = differ(&got, &e.0) {
        ctx.violation(&sig, &d, None);
    }
}

pub fn c01(ctx: &Ctx) -> i32 {
    let dir = std::env::temp_dir().join(format!("orv-c01-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    statics(ctx);
    let bases = ctx.n(16_000, 400_000);
    ctx.par(bases, |i| {
        family(ctx.seed, "c01", i, 3, |inp, r| one(ctx, i, inp, &dir, r));
    });
    let _ = std::fs::remove_dir_all(&dir);
    ctx.finish(
        "A case is a file, well formed or hostile, distinct by its bytes. A client written in C against the headers \
         opens it and asks every function everything, in several orders of use and release; each answer must be that \
         of the Rust API on another handle, in the codes the headers give. The memory in use must come back to what \
         it was once everything is released. The second stage runs under the address sanitizer, client included.",
        "exploration",
        &[("distinct", 6_000), ("opened", 3_000), ("answers_compared", 500_000), ("leak_checks", 800), ("paths", 500), ("null_references", 50)],
        &["References that aren't NULL but aren't valid are out of scope, as the headers say."],
    )
}
