//! S03: answers are a function of the bytes only.
use std::sync::Arc;

use libopenraw::{rawfile_from_file, rawfile_from_io, rawfile_from_memory, RawFileHandle};
use serde_json::json;

use crate::alloc::poison;
use crate::checks::s01::{describe, order};
use crate::hostile::{family, Input, Io, Plan};
use crate::obs::{self, Log, Q};
use crate::report::{guard, h64, Ctx};
use crate::rng::Rng;

/// What a monitored run answered: by query.
fn open(f: impl FnOnce() -> libopenraw::Result<RawFileHandle>) -> Result<RawFileHandle, String> {
    match guard(f) {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(obs::err_text(&e)),
        Err(p) => Err(format!("panic {p}")),
    }
}

/// None: a panic, which is S01's business.
fn ask(h: &RawFileHandle, q: Q) -> Option<String> {
    guard(|| obs::ask(h, q)).ok()
}

fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let from = n.saturating_sub(60);
    let cut = |s: &str| -> String { String::from_utf8_lossy(&s.as_bytes()[from.min(s.len())..(n + 80).min(s.len())]).to_string() };
    format!("...{} / ...{}", cut(a), cut(b))
}

pub fn s03(ctx: &Ctx) -> i32 {
    let dir = std::env::temp_dir().join(format!("orv-s03-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let bases = ctx.n(6_000, 150_000);
    ctx.par(bases, |i| {
        family(ctx.seed, "s03", i, 4, |inp, r| one(ctx, &dir, i, inp, r));
    });
    let _ = std::fs::remove_dir_all(&dir);
    ctx.finish(
        "A case is a file, well formed or hostile, distinct by its bytes. The reference is a handle on the bytes in \
         memory, asked every query once in a fixed order with fresh memory filled with one pattern. Compared with it: \
         a reader that returns short reads, a path, memory filled with another pattern, queries in random orders, \
         repeated, and asked first on a fresh handle. Every answer must be the same text (errors by variant).",
        "exploration",
        &[("distinct", 15_000), ("answers_compared", 1_000_000), ("short_reads", 20_000)],
        &["Poisoning fills the memory obtained from the allocator; memory on the stack is not covered by it."],
    )
}

fn one(ctx: &Ctx, dir: &std::path::Path, i: u64, inp: &Input, r: &mut Rng) {
    ctx.case(Some(&format!("{:x}", h64(&inp.bytes))));
    if i < 3 {
        ctx.sample(json!({"kind": inp.kind, "what": inp.desc, "bytes": inp.bytes.len()}));
    }
    poison(Some(0xa5));
    let reference = open(|| rawfile_from_memory(inp.bytes.clone(), inp.hint));
    let log: Log = match &reference {
        Ok(h) => {
            let mut l = Log::new();
            for q in obs::all_queries() {
                match ask(h, q) {
                    Some(a) => l.insert(format!("{q:?}"), a),
                    None => {
                        poison(None);
                        ctx.count("panicked", 1);
                        return;
                    }
                };
            }
            l
        }
        Err(e) => Log::from([("open".to_string(), e.clone())]),
    };
    let refused = reference.is_err();
    let bad = |how: &str, q: &str, exp: &str, got: &str| {
        let name: String = q.chars().take_while(|c| c.is_alphabetic()).collect();
        ctx.violation(
            &format!("{how} {} {name}", inp.kind.trim_end_matches('~')),
            &format!("{how}: {} the reference and now: {}", describe(inp, q), diff(exp, got)),
            Some(&inp.bytes),
        );
    };
    let run = |how: &str, h: Result<RawFileHandle, String>, qs: &[Q]| match h {
        Err(e) => {
            let exp = log.get("open").map(|s| s.as_str()).unwrap_or("opened");
            ctx.count("answers_compared", 1);
            if e != exp {
                bad(how, "open", exp, &e);
            }
        }
        Ok(_) if refused => bad(how, "open", &log["open"], "opened"),
        Ok(h) => {
            for q in qs {
                let name = format!("{q:?}");
                match ask(&h, *q) {
                    None => {
                        ctx.count("panicked", 1);
                        return;
                    }
                    Some(a) => {
                        ctx.count("answers_compared", 1);
                        if a != log[&name] {
                            return bad(how, &name, &log[&name], &a);
                        }
                    }
                }
            }
        }
    };
    // other memory, random order
    poison(Some(0x5a));
    let qs = order(r);
    run("order", open(|| rawfile_from_memory(inp.bytes.clone(), inp.hint)), &qs);
    // a reader, short reads
    let seed = r.u64();
    let (io, st) = Io::new(
        Arc::new(inp.bytes.clone()),
        Plan {
            short: Some(seed),
            fault: None,
            times: 0,
        },
    );
    let qs = order(r);
    poison(Some(0x33));
    run("short reads", open(|| rawfile_from_io(io, inp.hint)), &qs);
    ctx.count("short_reads", st.shorts.load(std::sync::atomic::Ordering::Relaxed));
    // a single query on a fresh handle
    poison(Some(0));
    for _ in 0..4 {
        let q = *r.pick(&obs::all_queries());
        run("alone", open(|| rawfile_from_memory(inp.bytes.clone(), inp.hint)), &[q]);
    }
    poison(None);
    // a path
    let path = dir.join(format!("f{i}"));
    if r.one_in(2) && std::fs::write(&path, &inp.bytes).is_ok() {
        let qs = order(r);
        run("path", open(|| rawfile_from_file(&path, inp.hint)), &qs);
        ctx.count("paths", 1);
        let _ = std::fs::remove_file(&path);
    }
}
