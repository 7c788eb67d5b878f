//! M01: file type identification by hint, name and content.
use std::ffi::OsString;
use std::io::Cursor;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

use libopenraw::{
    extensions, mime_types, rawfile_from_file, rawfile_from_io, rawfile_from_memory, type_for_mime_type, RawFileHandle,
    Type,
};
use serde_json::json;

use crate::gen::{mime, ALL_GEN};
use crate::report::{guard, h64, panic_sig, Ctx};
use crate::rng::Rng;
use crate::tiffb::{asc, Tiff, V};

const EXT: [(&str, Type); 17] = [
    ("arw", Type::Arw),
    ("cr2", Type::Cr2),
    ("cr3", Type::Cr3),
    ("dng", Type::Dng),
    ("erf", Type::Erf),
    ("gpr", Type::Dng),
    ("jpg", Type::Jpeg),
    ("jpeg", Type::Jpeg),
    ("nef", Type::Nef),
    ("nrw", Type::Nef),
    ("orf", Type::Orf),
    ("pef", Type::Pef),
    ("raf", Type::Raf),
    ("raw", Type::Rw2),
    ("rw2", Type::Rw2),
    ("rwl", Type::Rw2),
    ("sr2", Type::Arw),
];

/// What a type given as a hint is read as.
const HINTS: [(Type, Option<Type>); 18] = [
    (Type::Arw, Some(Type::Arw)),
    (Type::Cr2, Some(Type::Cr2)),
    (Type::Cr3, Some(Type::Cr3)),
    (Type::Crw, Some(Type::Crw)),
    (Type::Dng, Some(Type::Dng)),
    (Type::Erf, Some(Type::Erf)),
    (Type::Gpr, Some(Type::Dng)),
    (Type::Jpeg, Some(Type::Jpeg)),
    (Type::Mrw, Some(Type::Mrw)),
    (Type::Nef, Some(Type::Nef)),
    (Type::Nrw, Some(Type::Nef)),
    (Type::Orf, Some(Type::Orf)),
    (Type::Pef, Some(Type::Pef)),
    (Type::Raf, Some(Type::Raf)),
    (Type::Rw, Some(Type::Rw2)),
    (Type::Rw2, Some(Type::Rw2)),
    (Type::Sr2, Some(Type::Arw)),
    (Type::Unknown, None),
];

const MIMES: [(&str, Type); 15] = [
    ("image/x-sony-arw", Type::Arw),
    ("image/x-canon-cr2", Type::Cr2),
    ("image/x-canon-cr3", Type::Cr3),
    ("image/x-canon-crw", Type::Crw),
    ("image/x-adobe-dng", Type::Dng),
    ("image/x-epson-erf", Type::Erf),
    ("image/x-minolta-mrw", Type::Mrw),
    ("image/x-nikon-nef", Type::Nef),
    ("image/x-nikon-nrw", Type::Nrw),
    ("image/x-olympus-orf", Type::Orf),
    ("image/x-pentax-pef", Type::Pef),
    ("image/x-fuji-raf", Type::Raf),
    ("image/x-panasonic-rw", Type::Rw),
    ("image/x-panasonic-rw2", Type::Rw2),
    ("image/x-sony-sr2", Type::Sr2),
];

/// A type is the same as its variant.
fn same(a: Type, b: Type) -> bool {
    let f = |t: Type| HINTS.iter().find(|h| h.0 == t).and_then(|h| h.1);
    a == b || (f(a).is_some() && f(a) == f(b))
}

/// What the content designates. `None`: nothing. `make` is what a TIFF
/// directory says, with the DNG tag.
fn by_content(b: &[u8], tiff: Option<(bool, Option<&str>)>) -> Option<Type> {
    let starts = |m: &[u8]| b.len() >= m.len() && &b[..m.len()] == m;
    if b.len() <= 4 {
        return None;
    }
    if starts(&[0xff, 0xd8, 0xff, 0xdb]) {
        Some(Type::Jpeg)
    } else if starts(b"\0MRM") {
        Some(Type::Mrw)
    } else if b.len() >= 12 && &b[4..12] == b"ftypcrx " {
        Some(Type::Cr3)
    } else if starts(b"II\x1a\0\0\0HEAPCCDR") {
        Some(Type::Crw)
    } else if starts(b"IIRO") || starts(b"IIRS") {
        Some(Type::Orf)
    } else if starts(b"IIU\0") {
        Some(Type::Rw2)
    } else if starts(b"FUJIFILMCCD-RAW ") {
        Some(Type::Raf)
    } else if starts(b"II\x2a\0") || starts(b"MM\0\x2a") {
        if b.len() >= 12 && &b[8..11] == b"CR\x02" {
            return Some(Type::Cr2);
        }
        let (dng, make) = tiff?;
        let make = make.unwrap_or("");
        if dng {
            Some(Type::Dng)
        } else if make.contains("NIKON") {
            Some(Type::Nef)
        } else if make == "SEIKO EPSON CORP." {
            Some(Type::Erf)
        } else if make == "PENTAX Corporation " {
            Some(Type::Pef)
        } else if make.contains("SONY") {
            Some(Type::Arw)
        } else if make == "Canon" {
            Some(Type::Cr2)
        } else {
            None
        }
    } else {
        None
    }
}

struct Content {
    bytes: Vec<u8>,
    is: Option<Type>,
    what: String,
    id: Option<u32>,
}

fn signature(r: &mut Rng) -> Content {
    let mut b = r.bytes(64);
    let sigs: [(usize, &[u8]); 8] = [
        (0, &[0xff, 0xd8, 0xff, 0xdb]),
        (0, b"\0MRM"),
        (4, b"ftypcrx "),
        (0, b"II\x1a\0\0\0HEAPCCDR"),
        (0, b"IIRO"),
        (0, b"IIRS"),
        (0, b"IIU\0"),
        (0, b"FUJIFILMCCD-RAW "),
    ];
    let sig = *r.pick(&sigs);
    b[sig.0..sig.0 + sig.1.len()].copy_from_slice(sig.1);
    let mut what = format!("{}", String::from_utf8_lossy(sig.1).escape_debug());
    match r.range(0, 3) {
        0 => {
            let k = sig.0 + r.usize(0, sig.1.len() - 1);
            b[k] ^= 1 << r.r32(0, 7);
            what += " flipped";
        }
        1 => {
            let n = r.usize(0, sig.0 + sig.1.len() + 3);
            b.truncate(n);
            what += " cut";
        }
        _ => {}
    }
    let plain_tiff = b.len() >= 4 && (b[..4] == *b"II\x2a\0" || b[..4] == *b"MM\0\x2a");
    let is = if plain_tiff { None } else { by_content(&b, None) };
    if plain_tiff {
        // as good as never
        b.clear();
    }
    Content {
        bytes: b,
        is,
        what,
        id: None,
    }
}

fn tiff(r: &mut Rng) -> Content {
    let be = r.bool();
    let mut t = Tiff::new(be);
    let mut ent = vec![(0x100, V::Long(vec![r.u32()]))];
    let make = match r.range(0, 9) {
        0 => None,
        1 => {
            let (a, b) = (r.ascii(0, 6), r.ascii(0, 6));
            Some(format!("{a}NIKON{b}"))
        }
        2 => {
            let (a, b) = (r.ascii(0, 6), r.ascii(0, 6));
            Some(format!("{a}SONY{b}"))
        }
        3 => Some(r.ascii(1, 20)),
        _ => Some(
            r.pick(&[
                "NIKON CORPORATION",
                "NIKON",
                "Nikon",
                "SONY",
                "Sony",
                "SEIKO EPSON CORP.",
                "SEIKO EPSON CORP",
                "SEIKO EPSON CORP. ",
                "PENTAX Corporation ",
                "PENTAX",
                "Canon",
                "Canon Inc.",
                "CANON",
                "OLYMPUS CORPORATION",
                "LEICA",
                "NIKO N",
                "SON Y",
            ])
            .to_string(),
        ),
    };
    if let Some(m) = &make {
        ent.push((0x10f, asc(m)));
    }
    let dng = r.one_in(4);
    if dng {
        ent.push((0xc612, V::Byte(vec![1, r.u8() & 7, 0, 0])));
    }
    if r.bool() {
        ent.push((0x110, asc("model")));
    }
    // The same tags elsewhere don't count.
    let mut sub = None;
    if r.one_in(3) {
        let s = t.ifd(vec![(0x10f, asc("NIKON")), (0xc612, V::Byte(vec![1, 4, 0, 0]))]);
        ent.push((0x14a, V::Ptr(vec![s])));
        sub = Some(s);
    }
    let n = t.ifd(ent);
    if let (Some(s), true) = (sub, r.bool()) {
        t.set_next(n, s);
    }
    t.first = Some(n);
    if r.one_in(4) {
        t.header.extend_from_slice(if r.bool() { b"CR\x02\0\0\0\0\0" } else { b"CR\x01\0\0\0\0\0" });
    }
    let bytes = t.build(r);
    let make = make.map(|m| m.split('\0').next().unwrap().to_string());
    let is = by_content(&bytes, Some((dng, make.as_deref())));
    Content {
        is,
        what: format!("TIFF be={be} make {make:?} dng={dng}"),
        bytes,
        id: None,
    }
}

fn content(r: &mut Rng) -> Content {
    match r.range(0, 9) {
        0..=3 => signature(r),
        4..=6 => tiff(r),
        7 => {
            let n = r.usize(0, 40);
            let bytes = r.bytes(n);
            Content {
                is: by_content(&bytes, None),
                bytes,
                what: "random".into(),
                id: None,
            }
        }
        _ => {
            let g = r.pick(ALL_GEN).1;
            let f = g(r);
            // These are only recognised by name.
            let is = if f.hint.is_some() || f.kind == "jpeg" || f.bytes.starts_with(b"MMOR") {
                None
            } else {
                Some(f.exp.type_)
            };
            let named = is.is_none();
            Content {
                is: if named { recheck(&f.bytes) } else { is },
                what: format!("{} {}", f.kind, f.desc),
                bytes: f.bytes,
                id: f.exp.type_id.filter(|_| !named),
            }
        }
    }
}

/// For the files that may or may not have a signature.
fn recheck(b: &[u8]) -> Option<Type> {
    by_content(b, None)
}

fn name(r: &mut Rng) -> (OsString, Option<Type>, bool) {
    let cased = |r: &mut Rng, e: &str| -> Vec<u8> {
        e.bytes().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect()
    };
    let (ext, t) = *r.pick(&EXT);
    let stem: Vec<u8> = match r.range(0, 6) {
        0 => b"img.nef".to_vec(),
        1 => vec![0xff, 0xfe, b'x'],
        2 => "photo \u{e9}".as_bytes().to_vec(),
        3 => b"..a".to_vec(),
        4 => b"DSC.JPG.tar".to_vec(),
        _ => b"img_0001".to_vec(),
    };
    let mut v = stem;
    let is = match r.range(0, 13) {
        0 => {
            // no extension
            v = b"img".to_vec();
            None
        }
        1 => {
            // a hidden file with no extension
            v = b".".to_vec();
            v.extend(cased(r, ext));
            None
        }
        2 => {
            v.push(b'.');
            None
        }
        3 => {
            // an extension that looks the same
            let e = match ext {
                "sr2" => "\u{17f}r2".to_string(),
                e => format!("{e}\u{301}"),
            };
            v.push(b'.');
            v.extend(e.as_bytes());
            None
        }
        4 => {
            v.push(b'.');
            v.extend(cased(r, ext));
            v.push(*r.pick(b" ~x_"));
            None
        }
        5 => {
            v.push(b'.');
            v.extend(&cased(r, ext)[1..]);
            None
        }
        6 => {
            v.push(b'.');
            v.extend(cased(r, ext));
            v.push(0xff);
            None
        }
        _ => {
            v.push(b'.');
            v.extend(cased(r, ext));
            Some(t)
        }
    };
    // crw, mrw and tif names have no mapping today; they are left out.
    (OsString::from_vec(v), is, true)
}

fn judge(ctx: &Ctx, how: &str, res: Result<libopenraw::Result<RawFileHandle>, String>, want: Option<Type>, c: &Content, named: bool) {
    ctx.count("identifications", 1);
    let res = match res {
        Err(p) => {
            ctx.violation(&format!("panic {}", panic_sig(&p)), &format!("{how}: {p} ({})", c.what), Some(&c.bytes));
            return;
        }
        Ok(r) => r,
    };
    match (res, want) {
        (Ok(h), Some(t)) => {
            ctx.count(&format!("as_{t:?}"), 1);
            let got = h.type_();
            if !same(got, t) {
                ctx.violation(
                    &format!("{how} {t:?}"),
                    &format!("{how}: {got:?} instead of {t:?} ({})", c.what),
                    Some(&c.bytes),
                );
                return;
            }
            let m = h.mime_type();
            if m != mime(t) && m != mime(got) {
                ctx.violation("MIME type", &format!("{how}: {t:?} has MIME type {m}"), Some(&c.bytes));
            }
            if let (false, Some(id)) = (named, c.id) {
                ctx.count("vendors", 1);
                let v = h.vendor_id().ok().map(|v| v as u32);
                if v != Some(id >> 16) {
                    ctx.violation(
                        &format!("vendor {t:?}"),
                        &format!("{how}: vendor {v:?} instead of {} ({})", id >> 16, c.what),
                        Some(&c.bytes),
                    );
                }
            }
        }
        (Ok(h), None) => ctx.violation(
            &format!("{how} accepted"),
            &format!("{how}: read as {:?} instead of an error ({})", h.type_(), c.what),
            Some(&c.bytes),
        ),
        (Err(e), Some(t)) => ctx.violation(
            &format!("{how} {t:?}"),
            &format!("{how}: {e:?} instead of {t:?} ({})", c.what),
            Some(&c.bytes),
        ),
        (Err(_), None) => ctx.count("rejections", 1),
    }
}

fn tables(ctx: &Ctx, r: &mut Rng) {
    let ms: Vec<&str> = mime_types().iter().map(|s| s.as_str()).collect();
    for (m, t) in MIMES {
        let got = type_for_mime_type(m);
        if got.map(|g| same(g, t)) != Some(true) {
            ctx.violation("type_for_mime_type", &format!("{m} gives {got:?} instead of {t:?}"), None);
        }
        if ms.iter().filter(|x| **x == m).count() != 1 {
            ctx.violation("mime_types", &format!("{m} is {} times in {ms:?}", ms.len()), None);
        }
        // The type of a MIME type is one that can be read, with that MIME type.
        if let Some(g) = got {
            match guard(|| rawfile_from_memory(vec![0; 100], Some(g))) {
                Ok(Ok(h)) => {
                    if !same(h.type_(), t) || (h.mime_type() != m && h.mime_type() != mime(h.type_())) {
                        ctx.violation("MIME round trip", &format!("{m}: {:?} {}", h.type_(), h.mime_type()), None);
                    }
                }
                e => ctx.violation(
                    "MIME round trip",
                    &format!("{m} designates {g:?} which can't be opened: {:?}", e.map(|e| e.err())),
                    None,
                ),
            }
        }
        ctx.count("mime_types", 1);
        // and not something near
        for x in [format!("{m} "), format!(" {m}"), m[1..].to_string(), m[..m.len() - 1].to_string(), format!("{m}2x")] {
            if !MIMES.iter().any(|k| k.0 == x) && type_for_mime_type(&x).is_some() {
                ctx.violation("type_for_mime_type accepted", &x, None);
            }
        }
    }
    for m in &ms {
        if type_for_mime_type(m).is_none() {
            ctx.violation("mime_types", &format!("{m} is listed and has no type"), None);
        }
    }
    for x in ["", "image/jpeg", "image/tiff", "application/octet-stream", "image/x-"] {
        if type_for_mime_type(x).is_some_and(|t| t != Type::Jpeg && t != Type::Tiff) {
            ctx.violation("type_for_mime_type accepted", x, None);
        }
    }
    for _ in 0..1000 {
        let x = r.ascii(0, 30);
        if type_for_mime_type(&x).is_some() {
            ctx.violation("type_for_mime_type accepted", &x, None);
        }
    }
    let mut ex: Vec<&str> = extensions().iter().map(|s| s.as_str()).collect();
    ex.sort_unstable();
    let mut want: Vec<&str> = EXT.iter().filter(|e| e.1 != Type::Jpeg).map(|e| e.0).collect();
    want.sort_unstable();
    if ex != want {
        ctx.violation("extensions", &format!("{ex:?} instead of {want:?}"), None);
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn m01(ctx: &Ctx) -> i32 {
    let dir = std::env::temp_dir().join(format!("orv-m01-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        ctx.error(format!("scratch directory: {e}"));
    }
    let scratch = Scratch(dir);
    tables(ctx, &mut Rng::derive(ctx.seed, "m01t", 0));
    let n = ctx.n(60_000, 3_000_000);
    ctx.par(n, |i| {
        let mut r = Rng::derive(ctx.seed, "m01", i);
        let c = content(&mut r);
        ctx.case(Some(&format!("{:x} {}", h64(&c.bytes), c.what)));
        if i % 20_000 == 3 {
            ctx.sample(json!({"content": c.what, "bytes": c.bytes.len(), "is": format!("{:?}", c.is)}));
        }
        judge(ctx, "content", guard(|| rawfile_from_memory(c.bytes.clone(), None)), c.is, &c, false);
        let io = Box::new(Cursor::new(c.bytes.clone()));
        judge(ctx, "content of a stream", guard(|| rawfile_from_io(io, None)), c.is, &c, false);
        let (hint, t) = *r.pick(&HINTS);
        judge(ctx, "hint", guard(|| rawfile_from_memory(c.bytes.clone(), Some(hint))), t, &c, true);
        // by name
        if i % 4 == 0 {
            let (name, named, _) = name(&mut r);
            let sub = scratch.0.join(format!("{i}{}", if r.bool() { ".cr2" } else { "" }));
            let p = sub.join(&name);
            if std::fs::create_dir_all(&sub).and_then(|_| std::fs::write(&p, &c.bytes)).is_err() {
                ctx.count("unwritable_names", 1);
                return;
            }
            let how = format!("name {:?}", Path::new(&name));
            let open = |h: Option<Type>| guard(|| rawfile_from_file(&p, h));
            let cc = Content {
                what: format!("{how}, {}", c.what),
                bytes: c.bytes.clone(),
                is: c.is,
                id: c.id,
            };
            ctx.count("names", 1);
            let how = if named.is_some() { "extension" } else { "name without a known extension" };
            judge(ctx, how, open(None), named.or(c.is), &cc, named.is_some());
            judge(ctx, "hint over the name", open(Some(hint)), t, &cc, true);
            let _ = std::fs::remove_file(&p);
            let gone = guard(|| rawfile_from_file(&p, None));
            if !matches!(gone, Ok(Err(_))) {
                ctx.violation("missing file", &how.to_string(), None);
            }
            let _ = std::fs::remove_dir_all(&sub);
        }
    });
    // Every cut of a signature
    for (at, sig) in [
        (0usize, &b"\0MRM"[..]),
        (4, b"ftypcrx "),
        (0, b"II\x1a\0\0\0HEAPCCDR"),
        (0, b"IIRO"),
        (0, b"IIU\0"),
        (0, b"FUJIFILMCCD-RAW "),
        (0, &[0xff, 0xd8, 0xff, 0xdb]),
    ] {
        let mut b = vec![0u8; at];
        b.extend(sig);
        b.extend([0; 8]);
        for n in 0..=b.len() {
            let c = Content {
                bytes: b[..n].to_vec(),
                is: by_content(&b[..n], None),
                what: format!("{n} bytes of {sig:?}"),
                id: None,
            };
            ctx.case(Some(&c.what));
            judge(ctx, "content", guard(|| rawfile_from_memory(c.bytes.clone(), None)), c.is, &c, false);
        }
    }
    drop(scratch);
    ctx.finish(
        "A case is a content (a signature, whole, cut or with a bit flipped; a TIFF with a random Make; random bytes; a \
         generated file of each format), opened from memory, a stream and files of random names, with and without a \
         hint; distinct by its bytes. The oracle is an independent table of signatures, extensions and MIME types.",
        "exploration",
        &[
            ("identifications", 150_000),
            ("rejections", 20_000),
            ("names", 10_000),
            ("vendors", 2_000),
            ("mime_types", 15),
        ],
        &["GPR, NRW, RW and SR2 files are read as DNG, NEF, RW2 and ARW. The types a TIFF's Make designates are those of \
           the library's documentation."],
    )
}
