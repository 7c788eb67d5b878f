//! D02: lossless JPEG decoding equals the encoder's input.
use libopenraw::LJpeg;
use serde_json::json;

use crate::bits::{image, ljpeg, smooth, LjParams};
use crate::report::{guard, h64, panic_sig, Ctx};
use crate::rng::Rng;

pub fn gen_params(r: &mut Rng) -> LjParams {
    let bpc = *r.pick(&[2, 3, 7, 8, 10, 11, 12, 12, 13, 14, 14, 15, 16, 16]);
    let w = if r.one_in(20) { 1 } else { r.usize(1, 90) };
    let h = if r.one_in(20) { 1 } else { r.usize(1, 40) };
    let nc = r.usize(1, 4);
    let restart = if r.one_in(3) { r.usize(1, h) } else { 0 };
    LjParams {
        w,
        h,
        nc,
        bpc,
        psv: r.r32(1, 7) as u8,
        pt: if r.one_in(4) { r.r32(0, (bpc - 1).min(6)) } else { 0 },
        restart,
        tables: r.usize(1, 4),
        extra_markers: r.one_in(3),
        fill_ff: r.one_in(4),
    }
}

pub fn gen_image(r: &mut Rng, p: &LjParams) -> Vec<u16> {
    let mut img = if r.bool() {
        image(r, p.w * p.nc, p.h, p.bpc)
    } else {
        let d = r.i64(0, 20);
        smooth(r, p.w * p.nc, p.h, p.bpc, d)
    };
    for v in &mut img {
        *v = (*v >> p.pt) << p.pt;
    }
    img
}

/// Slices [n, a, b] with n*a + b == width
pub fn gen_slices(r: &mut Rng, width: usize) -> Option<[u32; 3]> {
    if width < 2 || r.one_in(3) {
        return None;
    }
    let n = r.usize(1, (width - 1).min(6));
    let a = r.usize(1, (width - 1) / n);
    let b = width - n * a;
    Some([n as u32, a as u32, b as u32])
}

/// The stream order of a sensor image cut in slices.
pub fn slice_order(img: &[u16], w: usize, h: usize, s: &[u32; 3]) -> Vec<u16> {
    let mut widths = vec![s[1] as usize; s[0] as usize];
    widths.push(s[2] as usize);
    let mut out = Vec::with_capacity(img.len());
    let mut x0 = 0;
    for sw in widths {
        for y in 0..h {
            out.extend_from_slice(&img[y * w + x0..y * w + x0 + sw]);
        }
        x0 += sw;
    }
    out
}

/// The segments of a stream: marker, where its length is, where it ends. The last one is the start of scan.
fn segments(b: &[u8]) -> Vec<(u8, usize, usize)> {
    let mut out = vec![];
    let mut i = 2;
    while i + 4 <= b.len() {
        if b[i] != 0xff || b[i + 1] == 0xff {
            i += 1;
            continue;
        }
        let n = u16::from_be_bytes([b[i + 2], b[i + 3]]) as usize;
        out.push((b[i + 1], i + 2, i + 2 + n));
        if b[i + 1] == 0xda {
            break;
        }
        i += 2 + n;
    }
    out
}

/// A stream that isn't one.
fn malformed(r: &mut Rng, p: &LjParams, b: &[u8]) -> Option<(&'static str, Vec<u8>)> {
    let segs = segments(b);
    let sos = *segs.last().filter(|s| s.0 == 0xda)?;
    let sof = *segs.iter().find(|s| s.0 == 0xc3)?;
    let dhts: Vec<_> = segs.iter().filter(|s| s.0 == 0xc4).copied().collect();
    let dht = *r.pick(&dhts);
    let mut o = b.to_vec();
    let comps = sof.1 + 8;
    let scan = b.len() - 2 - sos.2;
    let what = match r.range(0, 22) {
        0 => {
            o[sof.1 + 2] = *r.pick(&[0, 1, 17, 32, 255]);
            "precision"
        }
        1 => {
            o[sof.1 + 3..sof.1 + 5].fill(0);
            "no height"
        }
        2 => {
            o[sof.1 + 5..sof.1 + 7].fill(0);
            "no width"
        }
        3 => {
            o[sof.1 + 7] = 0;
            "no components"
        }
        4 => {
            o[sof.1 + 7] = p.nc as u8 + r.r32(1, 3) as u8;
            "more components than described"
        }
        5 => {
            o[sof.1 - 1] = *r.pick(&[0xc2, 0xc5, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcd, 0xce, 0xcf]);
            "other process"
        }
        6 => {
            // the scan has a component that the frame hasn't
            let used: Vec<u8> = (0..p.nc).map(|k| o[comps + 3 * k]).collect();
            let other = (0..=255_u8).find(|i| !used.contains(i))?;
            o[sos.1 + 3] = other;
            "unknown component"
        }
        7 => {
            // a table that isn't there
            o[sos.1 + 4] = (o[sos.1 + 4] & 0x0f) | (*r.pick(&[3_u8, 4, 7, 15]) << 4);
            if p.tables.min(p.nc) == 4 && o[sos.1 + 4] >> 4 == 3 {
                return None;
            }
            "unknown table"
        }
        8 => {
            o[sos.1 + 2] = *r.pick(&[0, 5, 255]);
            "count of components in the scan"
        }
        9 => {
            let at = sos.1 + 3 + 2 * o[sos.1 + 2] as usize;
            o[at] = *r.pick(&[8, 9, 128, 255]);
            "predictor"
        }
        10 => {
            let at = sos.1 + 3 + 2 * o[sos.1 + 2] as usize + 2;
            o[at] = (o[at] & 0xf0) | 15;
            if p.bpc > 15 {
                return None;
            }
            "point transform"
        }
        11 => {
            // more codes of a length than there are
            let at = dht.1 + 3 + r.usize(0, 5);
            o[at] = o[at].max(1 << (at - dht.1 - 2)).saturating_add(r.r32(1, 20) as u8);
            "too many codes"
        }
        12 => {
            o[dht.1 + 2] = *r.pick(&[4, 0x20, 0x24, 255]);
            "table number"
        }
        13 => {
            let n = (dht.2 - dht.1) as u16;
            let n = r.range(0, n as u64 - 1) as u16;
            o[dht.1..dht.1 + 2].copy_from_slice(&n.to_be_bytes());
            "table length"
        }
        14 if dhts.len() == 1 => {
            o.drain(dht.1 - 2..dht.2);
            "no table"
        }
        15 => {
            o.drain(sof.1 - 2..sof.2);
            "no frame"
        }
        16 => {
            o.truncate(sos.1 - 2);
            o.extend_from_slice(&[0xff, 0xd9]);
            "no scan"
        }
        17 => {
            o[r.usize(0, 1)] ^= 1 << r.range(0, 7);
            "no start"
        }
        18 | 19 if scan > 2 => {
            // ends early, properly
            let at = sos.2 + r.usize(0, scan - 1);
            if b[at - 1] == 0xff {
                return None;
            }
            o.truncate(at);
            o.extend_from_slice(&[0xff, 0xd9]);
            "end before the end"
        }
        20 if scan > 4 => {
            // a marker in the middle of the scan
            let at = sos.2 + r.usize(0, scan / 2);
            if b[at - 1] == 0xff {
                return None;
            }
            o.splice(at..at, [0xff, *r.pick(&[0xd9, 0xda, 0xc4, 0xd8])]);
            "marker within the scan"
        }
        21 | 22 if p.restart > 0 => {
            // restarts that aren't where or what they have to be
            let at: Vec<usize> = (sos.2..b.len() - 2)
                .filter(|i| b[*i] == 0xff && (0xd0..0xd8).contains(&b[*i + 1]))
                .collect();
            if at.is_empty() {
                return None;
            }
            if at.len() > 1 && r.bool() {
                // two intervals, with their markers
                let k = r.usize(0, at.len() - 2);
                let end = at.get(k + 2).copied().unwrap_or(b.len() - 2);
                o[at[k]..end].rotate_left(at[k + 1] - at[k]);
                return (o != b).then_some(("order of the restarts", o));
            }
            let at = *r.pick(&at);
            if r.bool() {
                o[at + 1] ^= 1 << r.range(0, 2);
                "number of a restart"
            } else {
                // (with those that fill before)
                let fill = b[..at].iter().rev().take_while(|v| **v == 0xff).count();
                o.drain(at - fill..at + 2);
                "no restart"
            }
        }
        _ => return None,
    };
    (o != b).then_some((what, o))
}

pub fn run(ctx: &Ctx) -> i32 {
    let n = ctx.n(100_000, 2_000_000);
    ctx.par(n, |i| {
        let mut r = Rng::derive(ctx.seed, "D02", i);
        let p = gen_params(&mut r);
        let img = gen_image(&mut r, &p);
        let width = p.w * p.nc;
        let slices = gen_slices(&mut r, width);
        let stream_order = match &slices {
            Some(s) => slice_order(&img, width, p.h, s),
            None => img.clone(),
        };
        let bytes = ljpeg(&mut r, &p, &stream_order);
        let tiled = r.bool();
        let decode = |bytes: &[u8]| {
            let mut d = LJpeg::new(false);
            if let Some(s) = &slices {
                d.set_slices(s);
            }
            d.decompress_buffer(bytes, tiled, &None)
        };
        let desc = format!("{p:?} slices {slices:?} tiled {tiled}");
        ctx.case(Some(&format!("{:x}", h64(&bytes))));
        ctx.count(&format!("psv{}", p.psv), 1);
        ctx.count(&format!("comps{}", p.nc), 1);
        ctx.count(&format!("bpc{}", p.bpc), 1);
        if p.restart > 0 && p.restart < p.h {
            ctx.count("with_restart_markers", 1);
        }
        if slices.is_some() {
            ctx.count("with_slices", 1);
        }
        if p.pt > 0 {
            ctx.count("with_point_transform", 1);
        }
        if i < 4 {
            ctx.sample(json!({"params": desc, "bytes": bytes.len()}));
        }
        match guard(|| decode(&bytes)) {
            Err(e) => ctx.violation(
                &format!("decode panic {}", panic_sig(&e)),
                &format!("valid stream panics: {e} ({desc})"),
                Some(&bytes),
            ),
            Ok(Err(e)) => ctx.violation(
                "valid stream refused",
                &format!("{e} ({desc})"),
                Some(&bytes),
            ),
            Ok(Ok(t)) => {
                let (w, h) = if tiled { (p.w, p.h) } else { (width, p.h) };
                ctx.count("samples_compared", t.buf.len() as u64);
                if t.buf != img {
                    let at = t.buf.iter().zip(&img).position(|(a, b)| a != b);
                    ctx.violation(
                        "decoded samples differ",
                        &format!("first at {at:?}, {} vs {} samples ({desc})", t.buf.len(), img.len()),
                        Some(&bytes),
                    );
                }
                if (t.width, t.height, t.bpc) != (w as u32, h as u32, p.bpc as u16) {
                    ctx.violation(
                        "dimensions differ",
                        &format!("{}x{} bpc {} ({desc})", t.width, t.height, t.bpc),
                        Some(&bytes),
                    );
                }
            }
        }
        // Truncations: an error, never samples that were not encoded.
        let scan = bytes.len() - 2;
        for k in 0..3 {
            let cut = match k {
                0 => r.usize(0, bytes.len() - 3),
                1 => scan.saturating_sub(r.usize(1, 6)),
                _ => scan / 2,
            };
            let t = &bytes[..cut];
            ctx.case(Some(&format!("t{:x}", h64(t))));
            match guard(|| decode(t)) {
                Err(e) => ctx.violation(
                    &format!("truncated panic {}", panic_sig(&e)),
                    &format!("cut at {cut}: {e} ({desc})"),
                    Some(t),
                ),
                Ok(Err(_)) => ctx.count("truncated_refused", 1),
                Ok(Ok(tile)) => {
                    // Everything was there: the cut removed nothing of the scan's data.
                    if tile.buf != img {
                        ctx.violation(
                            "truncated stream gives invented samples",
                            &format!("cut at {cut} of {} ({desc})", bytes.len()),
                            Some(t),
                        );
                    } else {
                        ctx.count("truncated_but_complete", 1);
                    }
                }
            }
        }
        // Malformed: an error, or the samples if there was no need for what is wrong.
        for _ in 0..6 {
            let Some((what, t)) = malformed(&mut r, &p, &bytes) else { continue };
            ctx.case(Some(&format!("m{:x}", h64(&t))));
            match guard(|| decode(&t)) {
                Err(e) => ctx.violation(
                    &format!("malformed panic {}", panic_sig(&e)),
                    &format!("{what}: {e} ({desc})"),
                    Some(&t),
                ),
                Ok(Err(_)) => ctx.count(&format!("refused: {what}"), 1),
                Ok(Ok(tile)) if tile.buf == img => ctx.count(&format!("harmless: {what}"), 1),
                Ok(Ok(_)) => ctx.violation(
                    &format!("malformed stream accepted: {what}"),
                    &format!("{what} of {} bytes ({desc})", bytes.len()),
                    Some(&t),
                ),
            }
        }
    });
    ctx.finish(
        "A case is a lossless JPEG stream written by an independent encoder from random parameters \
         (dimensions, 1-4 components, precision 2-16, predictor 1-7, point transform, Huffman tables, restart \
         rows, Canon slices, extra markers), a truncation of one, or one with a part that isn't valid; distinct by the hash of the stream. The \
         oracle compares every decoded sample with the encoder's input.",
        "exploration",
        &[("samples_compared", 100_000), ("with_restart_markers", 100), ("with_slices", 100), ("truncated_refused", 100)],
        &["The encoder follows ITU T.81 annex H."],
    )
}
