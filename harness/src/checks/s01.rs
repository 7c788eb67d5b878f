//! S01: no input crashes, panics or corrupts memory. S02: work and memory are
//! bounded.
use std::sync::atomic::Ordering;
use std::sync::Arc;

use libopenraw::rawfile_from_io;
use serde_json::json;

use crate::alloc;
use crate::amp::amplifier;
use crate::hostile::{family, Input, Io, HEALTHY};
use crate::obs::{self, Q};
use crate::report::{guard, h64, panic_sig, Ctx, Sink};
use crate::rng::Rng;

pub fn describe(inp: &Input, q: &str) -> String {
    format!("{} hint {:?} query {q}:{}", inp.kind, inp.hint, inp.desc)
}

/// The queries in a random order, some of them twice.
pub fn order(r: &mut Rng) -> Vec<Q> {
    let mut qs = obs::all_queries();
    r.shuffle(&mut qs);
    if r.one_in(3) {
        let n = r.usize(1, qs.len());
        qs.truncate(n);
    }
    for _ in 0..r.usize(0, 4) {
        let q = *r.pick(&qs);
        qs.push(q);
    }
    qs
}

pub fn s01(ctx: &Ctx) -> i32 {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    let bases = ctx.n(9_000, 400_000);
    ctx.par(bases, |i| {
        family(ctx.seed, "s01", i, 12, |inp, r| {
            ctx.case(Some(&format!("{:x}", h64(&inp.bytes))));
            if i < 3 {
                ctx.sample(json!({"kind": inp.kind, "what": inp.desc, "bytes": inp.bytes.len()}));
            }
            let qs = order(r);
            let h = match guard(|| libopenraw::rawfile_from_memory(inp.bytes.clone(), inp.hint)) {
                Err(p) => {
                    ctx.violation(
                        &format!("panic {}", panic_sig(&p)),
                        &format!("{p} {}", describe(inp, "open")),
                        Some(&inp.bytes),
                    );
                    return;
                }
                Ok(Err(_)) => {
                    ctx.count("refused_at_open", 1);
                    return;
                }
                Ok(Ok(h)) => h,
            };
            ctx.count("opened", 1);
            let (mut ok, mut err) = (0, 0);
            for q in qs {
                match guard(|| obs::ask(&h, q)) {
                    Ok(a) => {
                        if a.starts_with("Err") || a == "None" {
                            err += 1
                        } else {
                            ok += 1
                        }
                    }
                    Err(p) => {
                        ctx.violation(
                            &format!("panic {}", panic_sig(&p)),
                            &format!("{p} {}", describe(inp, &format!("{q:?}"))),
                            Some(&inp.bytes),
                        );
                        break;
                    }
                }
            }
            ctx.count("answers", ok);
            ctx.count("errors", err);
        });
    });
    ctx.finish(
        "A case is a file: well formed, or mutated at the places the library was seen to read (counts, offsets, \
         types, lengths, tables, data), or a random graph of directories, or junk behind a signature; distinct by \
         its bytes. All queries are run in random order with overflow checks, debug assertions (and the address \
         sanitizer in the second stage); any panic, overflow or crash is a violation.",
        "exploration",
        &[("distinct", 20_000), ("answers", 200_000), ("errors", 50_000)],
        &[],
    )
}

/// A bound: base + slope * size of the file
struct Bound(u64, u64);
impl Bound {
    fn at(&self, len: u64) -> u64 {
        self.0 + self.1 * len
    }
}

/// The bounds of S02, for queries that decode an image and for the others.
const PEAK: [Bound; 2] = [Bound(32 << 20, 1000), Bound(1 << 20, 200)];
const OPS: Bound = Bound(60_000, 16);
const BYTES: Bound = Bound(1 << 20, 200);
/// ms of CPU
const CPU: Bound = Bound(2000, 0);

fn cpu_ms() -> u64 {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn measure(ctx: &Ctx, inp: &Input, r: &mut Rng) {
    ctx.case(Some(&format!("{:x}", h64(&inp.bytes))));
    let len = inp.bytes.len() as u64;
    let (io, st) = Io::new(Arc::new(inp.bytes.clone()), HEALTHY);
    let mut qs = obs::all_queries();
    r.shuffle(&mut qs);
    let mut h = None;
    let mut io = Some(io);
    for q in std::iter::once(None).chain(qs.into_iter().map(Some)) {
        let (o0, b0, c0) = (st.ops.load(Ordering::Relaxed), st.bytes.load(Ordering::Relaxed), cpu_ms());
        let (res, u) = alloc::measure(|| match q {
            None => guard(|| rawfile_from_io(io.take().unwrap(), inp.hint)).map(|x| h = x.ok()),
            Some(q) => guard(|| obs::ask(h.as_ref().unwrap(), q)).map(|_| ()),
        });
        let ops = st.ops.load(Ordering::Relaxed) - o0;
        let bytes = st.bytes.load(Ordering::Relaxed) - b0;
        let ms = cpu_ms() - c0;
        ctx.count("queries", 1);
        let (what, class) = match q {
            None => ("Open".to_string(), 1),
            Some(Q::Render(..)) => ("Render".to_string(), 0),
            Some(Q::Thumb(_)) | Some(Q::ThumbIdx(_)) => ("Thumb".to_string(), 0),
            Some(Q::Raw) | Some(Q::RawSkip) => ("Raw".to_string(), 0),
            Some(q) => (format!("{q:?}").chars().take_while(|c| c.is_alphabetic()).collect(), 1),
        };
        for (k, v) in [("peak", u.peak), ("ops", ops), ("bytes", bytes), ("ms", ms)] {
            let n = ["image", "other"][class];
            if len < 20_000 {
                ctx.max(&format!("{k}_max_small_{n}"), v);
            } else {
                ctx.max(&format!("{k}_max_large_{n}"), v);
                ctx.max(&format!("{k}_per_1000_bytes_large_{n}"), v * 1000 / len);
            }
        }
        let bad = |k: &str, v: u64, lim: u64| {
            if v > lim {
                ctx.violation(
                    &format!("{} {what} {k}", inp.kind.trim_end_matches(['~', '+'])),
                    &format!("{k} {v} > {lim} (file of {len} bytes) {}", describe(inp, &format!("{q:?}"))),
                    Some(&inp.bytes),
                );
            }
        };
        bad("memory", u.peak, PEAK[class].at(len));
        bad("allocation", u.largest, PEAK[class].at(len));
        bad("reads", ops, OPS.at(len));
        bad("bytes read", bytes, BYTES.at(len));
        bad("cpu ms", ms, CPU.at(len));
        if res.is_err() || h.is_none() {
            break;
        }
    }
}

pub fn s02(ctx: &Ctx) -> i32 {
    let bases = ctx.n(9_000, 400_000);
    ctx.par(bases, |i| {
        if i % 3 == 0 {
            let mut r = Rng::derive(ctx.seed, "amp", i);
            let inp = amplifier(&mut r);
            ctx.count("amplifiers", 1);
            return measure(ctx, &inp, &mut r);
        }
        family(ctx.seed, "s02", i, 12, |inp, r| measure(ctx, inp, r));
    });
    ctx.finish(
        "A case is a file (see S01), or an amplifier: a file of 4 KiB to 1 MiB built so that many directory \
         entries, strips, tiles, records, boxes or segments refer to the same bytes, refer to each other, or \
         announce enormous sizes. For the opening and for each query the monitor measures the peak of the memory \
         allocated in the thread, the largest request, the number of I/O operations, of bytes read, and the CPU \
         time, and compares them with bounds linear in the size of the file. A case that never ends is ended by \
         the watchdog.",
        "exploration",
        &[("distinct", 20_000), ("queries", 200_000), ("amplifiers", 1000)],
        &["Bounds: memory 32 MiB + 1000 x size for image queries, 1 MiB + 200 x size for others; reads 60000 + 16 x \
           size; bytes read 1 MiB + 200 x size; 2 s of CPU."],
    )
}
