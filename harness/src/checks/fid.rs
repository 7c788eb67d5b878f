//! Fidelity: what the library answers about a generated file, against what the
//! generator put in it.
use libopenraw::{rawfile_from_io, rawfile_from_memory};
use serde_json::json;

use crate::exp::{compare, GenFile, Parts, ALL};
use crate::checks::s04;
use crate::gen::{set_far, GenFn, ALL_GEN};
use crate::hostile::{Input, Sparse};
use crate::report::{guard, h64, panic_sig, Ctx};
use crate::rng::Rng;

pub fn generator(name: &str) -> GenFn {
    ALL_GEN.iter().find(|g| g.0 == name).expect("generator").1
}

fn open(f: &GenFile) -> libopenraw::Result<libopenraw::RawFileHandle> {
    match f.gap {
        Some(gap) => rawfile_from_io(Sparse::new(f.bytes.clone(), gap), f.hint),
        None => rawfile_from_memory(f.bytes.clone(), f.hint),
    }
}

/// Formats made of a TIFF file, that can have offsets all over 4 GiB.
const FAR: &[&str] = &["dng", "nef", "arw", "pef", "orf", "erf", "cr2"];

/// Compare everything, report the differences.
pub fn judge(ctx: &Ctx, f: &GenFile, parts: Parts) {
    if f.kind != "cr2" && f.bytes.get(8..11) == Some(b"CR\x02") {
        // It reads as a CR2, by chance.
        ctx.count("skipped", 1);
        return;
    }
    ctx.case(Some(&format!("{:x}", h64(&f.bytes))));
    ctx.count(&format!("files_{}", f.kind), 1);
    let res = guard(|| {
        open(f).map(|h| {
            let mut c = compare(&h, &f.exp, parts);
            if parts.meta && !parts.raw {
                let n = crate::reftiff::check(&mut c, &h, f);
                ctx.count("entries_listed", n);
                ctx.count(&format!("listed_{}", f.kind), (n > 0) as u64);
            }
            c
        })
    });
    match res {
        Err(p) => ctx.violation(
            &format!("{} panic {}", f.kind, panic_sig(&p)),
            &format!("{p} ({})", f.desc),
            Some(&f.bytes),
        ),
        Ok(Err(e)) => ctx.violation(
            &format!("{} not recognised", f.kind),
            &format!("{e} ({})", f.desc),
            Some(&f.bytes),
        ),
        Ok(Ok(c)) => {
            ctx.count("answers_compared", c.checks);
            if std::env::var("ORV_ALL").is_ok() && !c.bad.is_empty() { eprintln!("BAD {} {}", f.desc, c.bad[0].1); }
            for (sig, msg) in &c.bad {
                ctx.violation(
                    &format!("{} {sig}", f.kind),
                    &format!("{msg} ({})", f.desc),
                    Some(&f.bytes),
                );
            }
        }
    }
    if let Some(r) = &f.exp.raw {
        let n = r.data.len() + r.data8.as_ref().map(|d| d.len()).unwrap_or(0);
        ctx.count("samples_expected", n as u64);
    }
    if let Some(t) = &f.exp.thumbs {
        ctx.count("previews_expected", t.len() as u64);
    }
}

/// Properties that say what comes of data that ends early.
const CUT: &[&str] = &["D06", "D08", "D09"];

const BOXES: &[&[u8; 4]] = &[
    b"ftyp", b"moov", b"trak", b"tkhd", b"mdia", b"mdhd", b"hdlr", b"minf", b"dinf", b"stbl", b"stsd", b"CRAW",
    b"stsz", b"stsc", b"stts", b"co64", b"stco", b"uuid", b"CMT1", b"CMT2", b"CMT3", b"CMT4", b"THMB", b"PRVW",
    b"mdat", b"CCTP", b"CTBO", b"CNCV", b"IAD1", b"JPEG", b"CMP1",
];

/// Damage the size of a box, or the count of a table.
fn boxes(bytes: &[u8], r: &mut Rng) -> Option<(String, Vec<u8>)> {
    let at: Vec<usize> = (4..bytes.len().saturating_sub(16))
        .filter(|i| BOXES.iter().any(|b| bytes[*i..*i + 4] == b[..]))
        .collect();
    if at.is_empty() {
        return None;
    }
    let at = *r.pick(&at);
    let name = String::from_utf8_lossy(&bytes[at..at + 4]).to_string();
    let mut out = bytes.to_vec();
    let table = ["stsd", "stsc", "co64", "stco", "stsz"].contains(&name.as_str());
    let wide = if bytes[at - 4..at] == [0, 0, 0, 1] { 8 } else { 0 };
    let pos = match r.range(0, 2) {
        0 if table => at + wide + if name == "stsz" { 12 } else { 8 },
        1 if wide > 0 => at + 8,
        _ => at - 4,
    };
    if pos + 4 > bytes.len() {
        return None;
    }
    let old = u32::from_be_bytes(bytes[pos..pos + 4].try_into().ok()?);
    let new = match r.range(0, 7) {
        0 => r.range(0, 8) as u32,
        1 => old.wrapping_sub(1),
        2 => old.wrapping_add(1),
        3 => u32::MAX - r.range(0, 9) as u32,
        4 => old.wrapping_add(r.range(1, 64) as u32),
        5 => old.saturating_sub(r.range(1, 64) as u32),
        6 => r.range(0, bytes.len() as u64 * 2) as u32,
        _ => 1 << r.range(0, 31),
    };
    // (a 64 bit size has the rest of the box elsewhere)
    if new == old || pos < at && (new == 1 || old == 1) {
        return None;
    }
    out[pos..pos + 4].copy_from_slice(&new.to_be_bytes());
    Some((format!("{name} at {at}, {new} for {old} at {pos}"), out))
}

/// The same file, ending early, at a few places.
fn cut(ctx: &Ctx, f: GenFile, r: &mut Rng, nil: &str) {
    let inp = Input { kind: f.kind, hint: f.hint, bytes: f.bytes, desc: f.desc };
    let Some(rf) = s04::reference(&inp) else { return };
    let len = inp.bytes.len();
    for _ in 0..4 {
        // near the start, near the end, anywhere
        let to = match r.range(0, 3) {
            0 => r.usize(0, len.min(4096) - 1),
            1 => len - r.usize(1, len.min(300)),
            _ => r.usize(0, len - 1),
        };
        let what = format!("truncated to {to}");
        s04::damaged(ctx, &inp, &rf, &what, inp.bytes[..to].to_vec(), nil);
    }
    if inp.kind == "cr3" {
        for _ in 0..4 {
            if let Some((what, bytes)) = boxes(&inp.bytes, r) {
                s04::damaged(ctx, &inp, &rf, &what, bytes, nil);
            }
        }
    }
}

pub fn run(ctx: &Ctx, gens: &[&str], parts: Parts, quick: u64) -> i32 {
    let n = ctx.n(quick, quick * 40);
    let cuts = CUT.contains(&ctx.id.as_str()) || std::env::var("ORV_CUT").is_ok();
    let nil = crate::obs::nil_hash();
    ctx.par(n * gens.len() as u64, |i| {
        let g = gens[(i % gens.len() as u64) as usize];
        let mut r = Rng::derive(ctx.seed, g, i / gens.len() as u64);
        // (the boxes before those of interest are read through)
        let far = FAR.contains(&g) && r.one_in(16) || g == "cr3" && (i / gens.len() as u64) % 4000 == 7;
        set_far(far);
        let f = generator(g)(&mut r);
        set_far(false);
        if far {
            ctx.count("far", 1);
        }
        if i < 5 {
            ctx.sample(json!({"kind": f.kind, "what": f.desc, "bytes": f.bytes.len()}));
        }
        judge(ctx, &f, parts);
        if cuts && !far && i % 8 == 1 {
            cut(ctx, f, &mut r, &nil);
        }
    });
    ctx.finish(
        "A case is a well formed file of the format, written by an independent generator (random layout, byte \
         order, sizes, samples, levels, crops, white balance, previews); distinct by its bytes. The oracle \
         compares every answer of the library with what the generator stored. (For CR3, PEF and ORF one file in 8 \
         is then cut short at four places, or for CR3 has the size of a box or count of a table damaged, and each answer must be that of the whole file, an error, absent, or \
         a part of the right data.)",
        "exploration",
        &[("answers_compared", 5_000), ("distinct", 100), ("samples_expected", 10_000)],
        &["The generators follow the formats as documented (TIFF 6, DNG, dcraw)."],
    )
}

/// Run one generator given in ORV_GEN, for development.
pub fn dev(ctx: &Ctx) -> i32 {
    let g = std::env::var("ORV_GEN").unwrap_or_default();
    let names: Vec<&str> = g.split(',').collect();
    run(ctx, &names, ALL, 1500)
}
