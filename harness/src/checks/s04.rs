//! S04: a failing reader never yields wrong data.
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use libopenraw::{rawfile_from_io, Bitmap, DataType, RawFileHandle, RawImage};
use serde_json::json;

use crate::checks::s01::{describe, order};
use crate::exp::{mosaic, rect};
use crate::hostile::{valid, Fault, Input, Io, Plan, HEALTHY};
use crate::obs::{self, Q};
use crate::report::{guard, h64, panic_sig, Ctx};
use crate::rng::Rng;

/// The healthy answers.
pub struct Ref {
    kind: String,
    arw_r1: bool,
    a100: bool,
    bytes: Vec<u8>,
    log: BTreeMap<String, String>,
    raw: Option<RawImage>,
    skip: Option<RawImage>,
    sizes: Vec<u32>,
    /// description and data
    thumbs: Vec<(String, Vec<u8>)>,
    dump: BTreeSet<String>,
    meta: BTreeSet<String>,
    ops: u64,
}

pub fn reference(inp: &Input) -> Option<Ref> {
    let (io, st) = Io::new(Arc::new(inp.bytes.clone()), HEALTHY);
    let h = guard(|| rawfile_from_io(io, inp.hint)).ok()?.ok()?;
    let mut log = BTreeMap::new();
    for q in obs::all_queries() {
        log.insert(format!("{q:?}"), guard(|| obs::ask(&h, q)).ok()?);
    }
    let sizes = h.thumbnail_sizes().unwrap_or_default().to_vec();
    let mut thumbs = vec![];
    for s in &sizes {
        if let Ok(t) = h.thumbnail(*s) {
            thumbs.push((thumb_kind(&t), t.data8().unwrap_or(&[]).to_vec()));
        }
    }
    Some(Ref {
        kind: inp.kind.clone(),
        arw_r1: inp.kind == "arw" && (inp.desc.contains("R1") || inp.bytes.windows(6).any(|w| w == b"DSC-R1")),
        a100: inp.desc.contains("A100"),
        bytes: inp.bytes.clone(),
        dump: log["Dump"].lines().map(|s| s.trim().to_string()).collect(),
        meta: log["Metadata"].lines().map(|s| s.to_string()).collect(),
        log,
        raw: h.raw_data(false).ok(),
        skip: h.raw_data(true).ok(),
        sizes,
        thumbs,
        ops: st.ops.load(Ordering::Relaxed),
    })
}

fn thumb_kind(t: &libopenraw::Thumbnail) -> String {
    format!("{}x{} {:?} {}", t.width(), t.height(), t.data_type(), t.bpc())
}

/// An optional detail: the same, or absent.
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T, absent: &[T]) -> Result<(), String> {
    if got == exp || absent.contains(&got) {
        Ok(())
    } else {
        Err(format!("{what}: {got:?} instead of {exp:?}"))
    }
}

fn prefix<T: PartialEq>(what: &str, got: &[T], exp: &[T]) -> Result<(), String> {
    if got.len() <= exp.len() && got == &exp[..got.len()] {
        return Ok(());
    }
    let n = got.iter().zip(exp).take_while(|(a, b)| a == b).count();
    Err(format!("{what} differs at {n} of {} (healthy {})", got.len(), exp.len()))
}

/// Does the file have these bytes (the start of them)?
fn in_file(file: &[u8], d: &[u8]) -> Result<(), String> {
    let d = &d[..d.len().min(6)];
    if d.is_empty() || file.windows(d.len()).any(|w| w == d) {
        Ok(())
    } else {
        Err(format!("compressed data {d:02x?} isn't in the file"))
    }
}

fn judge_raw(got: &RawImage, exp: &RawImage, other: Option<&RawImage>, camera: bool, file: &[u8]) -> Result<(), String> {
    // Compressed data of a file that is only ever seen decompressed.
    if got.data_type() == DataType::CompressedRaw
        && exp.data_type() == DataType::Raw
        && other.map_or(true, |o| o.data_type() != DataType::CompressedRaw)
    {
        in_file(file, got.data8().unwrap_or(&[]))?;
        same("samples of compressed data", got.data16().unwrap_or(&[]).len(), 0, &[])?;
        for t in got.tile_data().unwrap_or(&[]) {
            in_file(file, t)?;
        }
        return Ok(());
    }
    // Data that can't be decompressed may be left compressed.
    let exp = if got.data_type() == exp.data_type() {
        exp
    } else {
        other
            .filter(|o| o.data_type() == got.data_type() && got.data_type() == DataType::CompressedRaw)
            .ok_or_else(|| format!("data type {:?} instead of {:?}", got.data_type(), exp.data_type()))?
    };
    same("dimensions", (got.width(), got.height()), (exp.width(), exp.height()), &[])?;
    same("bpc", got.bpc(), exp.bpc(), &[])?;
    if let Some(d) = got.data8() {
        prefix("data", d, exp.data8().unwrap_or(&[]))?;
    }
    if let Some(d) = got.data16() {
        prefix("samples", d, exp.data16().unwrap_or(&[]))?;
    }
    if let Some(t) = got.tile_data() {
        let e = exp.tile_data().ok_or("tiles")?;
        same("tiles", t.len(), e.len(), &[])?;
        for (a, b) in t.iter().zip(e) {
            prefix("tile", a, b)?;
        }
    }
    same("compression", got.compression(), exp.compression(), &[])?;
    same("tile size", got.tile_size(), exp.tile_size(), &[])?;
    same(
        "photometric",
        format!("{:?}", got.photometric_interpretation()),
        format!("{:?}", exp.photometric_interpretation()),
        &[],
    )?;
    // The default ones are the same for all.
    let quad = |v: &[u16; 4]| v.iter().all(|x| *x == v[0]);
    if !quad(got.blacks()) {
        same("blacks", got.blacks(), exp.blacks(), &[])?;
    }
    if !quad(got.whites()) {
        same("whites", got.whites(), exp.whites(), &[])?;
    }
    let all = Some([0, 0, got.width(), got.height()]);
    same("active area", rect(got.active_area()), rect(exp.active_area()), &[None, all])?;
    // (the crop may be relative to the active area)
    if rect(got.active_area()) == rect(exp.active_area()) {
        same("user crop", rect(got.user_crop()), rect(exp.user_crop()), &[None])?;
    }
    same(
        "aspect",
        got.user_aspect_ratio().map(|a| (a.0, a.1)),
        exp.user_aspect_ratio().map(|a| (a.0, a.1)),
        &[None],
    )?;
    let bits = |v: Option<&[f64]>| v.map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    same("white balance", bits(got.as_shot_neutral()), bits(exp.as_shot_neutral()), &[None])?;
    same("white xy", got.as_shot_white_xy(), exp.as_shot_white_xy(), &[None])?;
    same("mosaic", mosaic(got), mosaic(exp), &[(0, 0, String::new())])?;
    same(
        "linearisation",
        got.linearization_table(),
        exp.linearization_table(),
        &[None],
    )?;
    for i in 1..3 {
        let f = |r: &RawImage| r.colour_matrix(i).map(|m| (format!("{:?}", m.illuminant), m.matrix.clone()));
        if camera {
            same("matrix", f(got), f(exp), &[None])?;
        }
    }
    Ok(())
}

/// Lines of the dump that count what could be read.
fn counts(l: &str) -> bool {
    ["Num records", "count", " directories", "Width = 0 Height = 0"].iter().any(|s| l.contains(s))
}

/// Hash of an entry of which nothing can be read.
fn nothing(seg: &str, nil: &str) -> bool {
    seg.rsplit(':').next() == Some(nil)
}

fn judge_ifd(got: &str, exp: &str, nil: &str) -> Result<(), String> {
    if got == "None" || got == exp {
        return Ok(());
    }
    let e: BTreeSet<&str> = exp.split(' ').collect();
    let tags: BTreeSet<&str> = exp.split(' ').map(|s| s.split(':').next().unwrap_or("")).collect();
    for s in got.split(' ') {
        if e.contains(s) || s.starts_with("n=") || (nothing(s, nil) && tags.contains(s.split(':').next().unwrap_or(""))) {
            continue;
        }
        return Err(format!("entry {s} (nil {nil})"));
    }
    Ok(())
}

/// Is the camera the healthy one? Otherwise it must be an unknown one, or for
/// the formats that have it in two places, one of the vendor (the generators
/// write two that differ).
fn identity(r: &Ref, h: &RawFileHandle) -> Result<bool, String> {
    let a = obs::ask(h, Q::TypeId);
    let exp = &r.log["TypeId"];
    if &a == exp {
        return Ok(true);
    }
    if a.starts_with("Err") || a.ends_with("0000") || a == "000d0001" {
        return Ok(false);
    }
    let two = ["cr2", "cr3", "crw"].contains(&r.kind.as_str());
    if ["pef", "arw"].contains(&r.kind.as_str()) || two && a.len() == 8 && exp.len() == 8 && a[..4] == exp[..4] {
        return Ok(false);
    }
    Err(format!("{a} instead of {exp}"))
}

fn judge(r: &Ref, h: &RawFileHandle, q: Q, a: &str, nil: &str, faulty: bool) -> Result<(), String> {
    let exp = &r.log[&format!("{q:?}")];
    if a == exp || a.starts_with("Err") || a == "None" || a == "-" {
        return Ok(());
    }
    match q {
        Q::Type | Q::Mime => Err(format!("{a} instead of {exp}")),
        // another identity is judged by its own rules
        Q::TypeId => identity(r, h).map(|_| ()),
        Q::Vendor => identity(r, h).map(|_| ()),
        Q::Sizes => {
            let s = h.thumbnail_sizes().unwrap_or_default();
            if s.iter().all(|x| r.sizes.contains(x)) {
                Ok(())
            } else {
                Err(format!("{a} instead of {exp}"))
            }
        }
        Q::Thumb(_) | Q::ThumbIdx(_) => {
            let n = match q {
                Q::Thumb(n) => n,
                Q::ThumbIdx(i) => match h.thumbnail_sizes().and_then(|s| s.get(i as usize).copied()) {
                    Some(n) => n,
                    None => return Ok(()),
                },
                _ => 0,
            };
            match h.thumbnail(n) {
                Err(_) => Ok(()),
                Ok(t) => {
                    let d = t.data8().unwrap_or(&[]);
                    let k = thumb_kind(&t);
                    if r.thumbs.iter().any(|(k2, d2)| *k2 == k && prefix("", d, d2).is_ok()) {
                        Ok(())
                    } else {
                        Err(format!("thumbnail {k} {} bytes is none of {:?}", d.len(), r.thumbs.iter().map(|t| format!("{} {} bytes", t.0, t.1.len())).collect::<Vec<_>>()))
                    }
                }
            }
        }
        Q::Raw | Q::RawSkip => {
            let skip = q == Q::RawSkip;
            let got = match h.raw_data(skip) {
                Ok(g) => g,
                Err(_) => return Ok(()),
            };
            let (e, o) = if skip { (&r.skip, &r.raw) } else { (&r.raw, &r.skip) };
            // The camera tells how the samples are stored in this one, and
            // the generator has another one in the fallback.
            if r.arw_r1 && !identity(r, h)? {
                return Ok(());
            }
            match e {
                None => Err(format!("{a} instead of {exp}")),
                Some(e) => judge_raw(&got, e, o.as_ref(), identity(r, h)?, &r.bytes),
            }
        }
        Q::Render(..) => {
            // A rendering is judged when nothing failed during it, and
            // all that it uses could be read.
            if faulty || obs::ask(h, Q::Raw) != r.log["Raw"] {
                Ok(())
            } else {
                Err(format!("{a} instead of {exp}"))
            }
        }
        Q::Main | Q::Exif | Q::Mnote => judge_ifd(a, exp, nil),
        Q::Metadata => {
            for l in a.lines() {
                if r.meta.contains(l) {
                    continue;
                }
                let k = l.split('|').next().unwrap_or("");
                if l.contains("|Invalid") && r.meta.iter().any(|m| m.split('|').next() == Some(k)) {
                    continue;
                }
                return Err(format!("line {l}"));
            }
            Ok(())
        }
        Q::MetaValue(_) => {
            if a.contains("Invalid") && exp != "None" { Ok(()) } else { Err(format!("{a} instead of {exp}")) }
        }
        Q::Orientation => if a == "0" || a == "1" { Ok(()) } else { Err(format!("{a} instead of {exp}")) },
        Q::Illum(_) => if a == "Unknown" || !identity(r, h)? { Ok(()) } else { Err(format!("{a} instead of {exp}")) },
        Q::Matrix(_) => {
            if identity(r, h)? {
                Err(format!("{a} instead of {exp}"))
            } else {
                Ok(())
            }
        }
        Q::Dump => {
            for l in a.lines() {
                let l = l.trim();
                if r.dump.contains(l) || l.to_lowercase().contains("error") || l.starts_with("No ") || counts(l)
                    // the raw data of the A100 looks like a directory until its name is known
                    || r.a100 && l.starts_with("<IFD type=SubIfd")
                {
                    continue;
                }
                return Err(format!("line {l}"));
            }
            Ok(())
        }
    }
}

pub fn s04(ctx: &Ctx) -> i32 {
    let bases = ctx.n(12_000, 400_000);
    // the hash of an entry that could not be read
    let nil = obs::nil_hash();
    let only: Option<u64> = std::env::var("ORV_CASE").ok().and_then(|s| s.parse().ok());
    ctx.par(bases, |i| {
        if only.map_or(false, |o| o != i) {
            return;
        }
        let mut r = Rng::derive(ctx.seed, "s04", i);
        let inp = valid(&mut r);
        let Some(rf) = reference(&inp) else { return };
        if i < 3 {
            ctx.sample(json!({"kind": inp.kind, "what": inp.desc, "operations": rf.ops}));
        }
        for _ in 0..10 {
            one(ctx, i, &inp, &rf, &mut r, &nil);
        }
    });
    ctx.finish(
        "A case is a well-formed file and a fault plan: at one of the I/O operations (read or seek) the reader \
         fails once, a few times or for good, with an error, an end of file or a partial read. Every answer is \
         compared with the healthy reader's: equal, error, absent, or a prefix of the right bytes or samples.",
        "exploration",
        &[("distinct", 10_000), ("faults", 10_000), ("answers_degraded", 10_000), ("answers_equal", 100_000)],
        &["A detail that is optional in the format (crop, levels, white balance, an entry...) may be absent or the \
           format's default when it could not be read. A rendering is judged when the raw data it came from is whole."],
    )
}

/// A damaged form of a file: each answer is that of the whole file, an error,
/// absent, or a part of the right data.
pub fn damaged(ctx: &Ctx, inp: &Input, rf: &Ref, what: &str, bytes: Vec<u8>, nil: &str) {
    let bad = |q: &str, m: &str| {
        let name: String = q.chars().take_while(|c| c.is_alphabetic()).collect();
        let key: String = m.split(&[':', ' '][..]).next().unwrap_or("").to_string();
        let kind: String = what.chars().take_while(|c| c.is_alphabetic()).collect();
        ctx.violation(
            &format!("{} {kind} {name} {key}", inp.kind),
            &format!("{what} of {}: {m}: {}", inp.bytes.len(), describe(inp, q)),
            Some(&bytes),
        );
    };
    ctx.count("damaged", 1);
    let h = match guard(|| libopenraw::rawfile_from_memory(bytes.clone(), inp.hint)) {
        Err(p) => return bad("open", &panic_sig(&p)),
        Ok(Err(_)) => return,
        Ok(Ok(h)) => h,
    };
    let tracks = |d: &str| d.lines().find(|l| l.contains("Track count")).map(|l| l.trim().to_string());
    let lost = match guard(|| obs::ask(&h, Q::Dump)) {
        Ok(d) => tracks(&d) != tracks(&rf.log["Dump"]),
        Err(p) => return bad("Dump", &format!("panic {p}")),
    };
    for q in obs::all_queries() {
        let res = guard(|| {
            let a = obs::ask(&h, q);
            let same = rf.log[&format!("{q:?}")] == a;
            // The dump tells the sizes of the boxes. The raw data is that of
            // the third track: another one if one before it is lost.
            if q == Q::Dump || lost && matches!(q, Q::Raw | Q::RawSkip) {
                return (Ok(()), same);
            }
            // (what a rendering lacks isn't a fault of its own)
            (judge(rf, &h, q, &a, nil, true), same)
        });
        match res {
            Err(p) => return bad(&format!("{q:?}"), &format!("panic {p}")),
            Ok((Err(m), _)) => return bad(&format!("{q:?}"), &m),
            Ok((Ok(()), true)) => ctx.count("damaged_equal", 1),
            Ok((Ok(()), false)) => ctx.count("damaged_degraded", 1),
        }
    }
}

fn one(ctx: &Ctx, i: u64, inp: &Input, rf: &Ref, r: &mut Rng, nil: &str) {
    let kinds = [
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
        ErrorKind::PermissionDenied,
        ErrorKind::TimedOut,
        ErrorKind::WouldBlock,
        ErrorKind::Interrupted,
    ];
    let k = *r.pick(&kinds);
    let fault = match r.range(0, 3) {
        0 => Fault::Eof,
        1 => Fault::Partial(k),
        _ => Fault::Err(k),
    };
    let at = if r.one_in(4) { r.range(0, 40.min(rf.ops)) } else { r.range(0, rf.ops) };
    // An interruption for ever has no end.
    let forever = if k == ErrorKind::Interrupted && fault != Fault::Eof { 20 } else { u64::MAX };
    let times = if fault == Fault::Eof { forever } else { *r.pick(&[1, 1, 2, 5, forever]) };
    let fault = if fault == Fault::Eof && r.bool() {
        Fault::Cut(r.range(0, inp.bytes.len() as u64))
    } else {
        fault
    };
    let plan = Plan {
        short: if r.one_in(4) { Some(r.u64()) } else { None },
        fault: Some((at, fault)),
        times,
    };
    ctx.case(Some(&format!("{:x} {at} {fault:?} {times}", h64(&inp.bytes))));
    let (io, st) = Io::new(Arc::new(inp.bytes.clone()), plan);
    let how = format!("case {i} fault {fault:?} at {at} x{times}");
    let bad = |q: &str, m: &str| {
        let name: String = q.chars().take_while(|c| c.is_alphabetic()).collect();
        let key: String = m.split(&[':', ' '][..]).next().unwrap_or("").to_string();
        ctx.violation(
            &format!("{} {name} {key}", inp.kind),
            &format!("{how}: {m}: {}", describe(inp, q)),
            Some(&inp.bytes),
        );
    };
    let h = match guard(|| rawfile_from_io(io, inp.hint)) {
        Err(p) => return bad("open", &panic_sig(&p)),
        Ok(Err(_)) => {
            ctx.count("answers_degraded", 1);
            ctx.count("faults", st.faults.load(Ordering::Relaxed).min(1));
            return;
        }
        Ok(Ok(h)) => h,
    };
    for q in order(r) {
        let res = guard(|| {
            let f0 = st.faults.load(Ordering::Relaxed);
            let a = obs::ask(&h, q);
            let faulty = st.faults.load(Ordering::Relaxed) != f0;
            let same = rf.log[&format!("{q:?}")] == a;
            (judge(rf, &h, q, &a, nil, faulty), same)
        });
        match res {
            Err(p) => return bad(&format!("{q:?}"), &format!("panic {p}")),
            Ok((Err(m), _)) => return bad(&format!("{q:?}"), &m),
            Ok((Ok(()), true)) => ctx.count("answers_equal", 1),
            Ok((Ok(()), false)) => ctx.count("answers_degraded", 1),
        }
    }
    ctx.count("faults", st.faults.load(Ordering::Relaxed).min(1));
}
