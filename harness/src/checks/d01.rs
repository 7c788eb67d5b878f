//! Raw data stored uncompressed or bit packed, over all the formats that have it.
use serde_json::json;

use super::fid::{generator, judge};
use crate::exp::{Parts, SkipExp, NONE};
use crate::report::Ctx;
use crate::rng::Rng;

const GENS: &[&str] = &["dng", "nef", "arw", "pef", "erf", "mrw", "orf", "rw2", "raf"];

pub fn d01(ctx: &Ctx) -> i32 {
    let n = ctx.n(250_000, 6_000_000);
    ctx.par(n, |i| {
        crate::gen::plain(true);
        let g = GENS[(i % GENS.len() as u64) as usize];
        for k in 0..30 {
            let mut r = Rng::derive(ctx.seed, g, i * 30 + k);
            let f = generator(g)(&mut r);
            let plain = f.exp.raw.as_ref().is_some_and(|e| e.data8.is_none() && !e.data.is_empty());
            if !plain || !matches!(f.exp.skip, Some(SkipExp::Same)) {
                continue;
            }
            if i < 5 {
                ctx.sample(json!({"kind": f.kind, "what": f.desc, "bytes": f.bytes.len()}));
            }
            let e = f.exp.raw.as_ref().unwrap();
            ctx.count(&format!("bpc_{}", e.bpc.unwrap_or(0)), 1);
            for what in ["tiles=", "strips=1 ", "strips=", "wide=true", "wide=false"] {
                if f.desc.contains(what) {
                    ctx.count(&format!("layout_{}", what.trim()), 1);
                }
            }
            judge(ctx, &f, Parts { raw: true, ..NONE });
            break;
        }
        crate::gen::plain(false);
    });
    ctx.finish(
        "A case is a well formed file (DNG, NEF, ARW, PEF, ERF, MRW, ORF, RW2, RAF) whose raw data is uncompressed \
         or bit packed, 8 to 16 bits, either byte order, in one or several strips or tiles, contiguous or not; \
         distinct by its bytes. The oracle compares the samples, dimensions, levels and pattern with those stored.",
        "exploration",
        &[("answers_compared", 50_000), ("distinct", 10_000), ("samples_expected", 1_000_000), ("bpc_8", 100), ("bpc_10", 100), ("bpc_12", 1000), ("bpc_14", 1000), ("bpc_16", 1000), ("layout_tiles=", 500), ("layout_strips=1", 500)],
        &["The generators follow the formats as documented (TIFF 6, DNG, dcraw)."],
    )
}
