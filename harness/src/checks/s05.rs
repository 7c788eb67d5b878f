//! S05: threads working on their own handles.
//!
//! Each run is a process of its own, so that the tables built on first use are
//! built under contention.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom};
use std::process::Command;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

use libopenraw::{rawfile_from_io, rawfile_from_memory, RawFileHandle};
use serde_json::{json, Value};

use crate::checks::s01::order;
use crate::gen::{large, ALL_GEN};
use crate::hostile::{family, Input};
use crate::obs::{self, Q};
use crate::report::{guard, h64, install_panic_hook, stage, Ctx, Sink};
use crate::rng::Rng;

/// A reader that gives way, and waits.
struct Slow {
    data: Arc<Vec<u8>>,
    pos: u64,
    rng: Rng,
    every: u64,
}

impl Slow {
    fn delay(&mut self) {
        if self.rng.one_in(self.every) {
            match self.rng.range(0, 3) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros(self.rng.range(1, 60))),
                _ => {
                    for _ in 0..self.rng.range(1, 2000) {
                        std::hint::spin_loop();
                    }
                }
            }
        }
    }
}

impl std::fmt::Debug for Slow {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Slow")
    }
}

impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.delay();
        let from = self.pos.min(self.data.len() as u64) as usize;
        let n = buf.len().min(self.data.len() - from);
        buf[..n].copy_from_slice(&self.data[from..from + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Slow {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let at = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.data.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        self.pos = u64::try_from(at).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

impl libopenraw::ReadAndSeek for Slow {}

struct File {
    bytes: Arc<Vec<u8>>,
    hint: Option<libopenraw::Type>,
    desc: String,
}

fn files(seed: u64, sub: u64, n: usize) -> Vec<File> {
    let mut out = vec![];
    let mut i = sub << 32;
    // the largest of some, of the formats decoded on the thread pool
    let mut r = Rng::derive(seed, "s05-large", sub);
    large(true);
    for (f, parallel) in [("orf", "interlaced"), ("raf", "fuji "), ("dng", "ljpeg=true")] {
        let gen = ALL_GEN.iter().find(|g| g.0 == f).unwrap().1;
        let of: Vec<_> = (0..16).map(|_| gen(&mut r)).collect();
        let mut of: Vec<_> = of.into_iter().filter(|g| g.bytes.len() < 1 << 19).collect();
        // Fuji compresses in strips, one per thread.
        let any = f != "raf" && r.one_in(3);
        of.sort_by_key(|g| (!any && !g.desc.contains(parallel), std::cmp::Reverse(g.bytes.len())));
        for g in of.into_iter().take(1 + (n / 12).min(1)) {
            out.push(File { bytes: Arc::new(g.bytes), hint: None, desc: format!("{f} {}", g.desc) });
        }
    }
    large(false);
    r.shuffle(&mut out);
    while out.len() < n {
        family(seed, "s05", i, 1, |inp: &Input, r| {
            // few hostile ones, small enough
            if (out.len() % 8 != 7 && inp.kind.ends_with('~')) || inp.bytes.len() > 1 << 20 || (r.bool() && inp.bytes.len() < 200) {
                return;
            }
            out.push(File {
                bytes: Arc::new(inp.bytes.clone()),
                hint: inp.hint,
                desc: format!("{} {}", inp.kind, inp.desc),
            });
        });
        i += 1;
    }
    out
}

fn open(f: &File, slow: Option<Rng>) -> Result<RawFileHandle, String> {
    let r = match slow {
        None => guard(|| rawfile_from_memory(f.bytes.to_vec(), f.hint)),
        Some(mut rng) => {
            let every = rng.range(2, 12);
            let io = Box::new(Slow { data: f.bytes.clone(), pos: 0, rng, every });
            guard(|| rawfile_from_io(io, f.hint))
        }
    };
    match r {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(obs::err_text(&e)),
        Err(_) => Err("panic".into()),
    }
}

/// The process of one run.
pub fn sub(arg: &str) -> i32 {
    install_panic_hook();
    let mut it = arg.split(',').map(|s| s.parse::<u64>().unwrap());
    let (seed, sub, threads, visits) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap() as usize, it.next().unwrap());
    let mut r = Rng::derive(seed, "s05-run", sub);
    if r.bool() {
        let _ = log::set_logger(&Sink);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let n = r.usize(4, 24);
    let files = files(seed, sub, n);
    // Relaxed: the monitor must not order the threads.
    let inside = AtomicUsize::new(0);
    let ticket = AtomicU64::new(0);
    let barrier = Barrier::new(threads);
    type Answer = (usize, Option<Q>, String);
    let mut answers: Vec<(Vec<Answer>, Vec<(u64, usize)>)> = vec![];
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (files, inside, ticket, barrier) = (&files, &inside, &ticket, &barrier);
            let mut r = Rng::derive(seed, &format!("s05-thread-{sub}"), t as u64);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(if stage().is_some() { 32 << 20 } else { 4 << 20 })
                    .spawn_scoped(s, move || {
                        let (mut out, mut events) = (vec![], vec![]);
                        barrier.wait();
                        for v in 0..visits {
                            // all start with the same file
                            let k = if v == 0 { 0 } else { r.usize(0, files.len() - 1) };
                            let slow = if r.bool() { Some(Rng::new(r.u64())) } else { None };
                            let h = match open(&files[k], slow) {
                                Ok(h) => {
                                    out.push((k, None, "open".to_string()));
                                    h
                                }
                                Err(e) => {
                                    out.push((k, None, e));
                                    continue;
                                }
                            };
                            let mut qs = order(&mut r);
                            if r.one_in(2) {
                                // what runs on the thread pool
                                qs.truncate(4);
                                qs.push(Q::Raw);
                                qs.push(Q::Render(r.range(0, 3) as u8, r.range(0, 1) as u8));
                            }
                            for q in qs {
                                let n = inside.fetch_add(1, Ordering::Relaxed) + 1;
                                events.push((ticket.fetch_add(1, Ordering::Relaxed) << 8 | t as u64, n));
                                let a = guard(|| obs::ask(&h, q));
                                inside.fetch_sub(1, Ordering::Relaxed);
                                out.push((k, Some(q), a.unwrap_or("panic".into())));
                            }
                        }
                        (out, events)
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            answers.push(h.join().unwrap());
        }
    });
    // what one thread says
    let mut handles: BTreeMap<usize, Result<RawFileHandle, String>> = BTreeMap::new();
    let mut known: BTreeMap<(usize, String), String> = BTreeMap::new();
    let mut compared = 0u64;
    let mut bad = vec![];
    for (t, (list, _)) in answers.iter().enumerate() {
        for (k, q, a) in list {
            let h = handles.entry(*k).or_insert_with(|| open(&files[*k], None));
            let want = match (&h, q) {
                (Ok(_), None) => "open".to_string(),
                (Err(e), _) => e.clone(),
                (Ok(h), Some(q)) => known
                    .entry((*k, format!("{q:?}")))
                    .or_insert_with(|| guard(|| obs::ask(h, *q)).unwrap_or("panic".into()))
                    .clone(),
            };
            compared += 1;
            if want != *a && want != "panic" && bad.len() < 5 {
                let cut = |s: &str| s.chars().take(300).collect::<String>();
                bad.push(json!({
                    "sig": format!("answer {}", q.map(|q| format!("{q:?}").chars().take_while(|c| c.is_alphabetic()).collect::<String>()).unwrap_or("open".into())),
                    "msg": format!("thread {t} file {k} ({}) {q:?}: {} / alone: {}", files[*k].desc, cut(a), cut(&want)),
                    "file": *k,
                }));
            }
        }
    }
    let mut events: Vec<(u64, usize)> = answers.iter().flat_map(|a| a.1.iter().copied()).collect();
    events.sort();
    let order: Vec<u8> = events.iter().map(|e| e.0 as u8).collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    println!(
        "S05SUB {}",
        json!({
            "compared": compared,
            "queries": events.len(),
            "overlapping": events.iter().filter(|e| e.1 > 1).count(),
            "switches": switches,
            "order": format!("{:x}", h64(&order)),
            "bad": bad,
            "files": files.iter().map(|f| f.desc.clone()).collect::<Vec<_>>(),
        })
    );
    if let Some(k) = bad.first().and_then(|b| b["file"].as_u64()) {
        if let Ok(p) = std::env::var("ORV_S05_INPUT") {
            let _ = std::fs::write(p, &files[k as usize].bytes[..]);
        }
    }
    i32::from(!bad.is_empty())
}

pub fn s05(ctx: &Ctx) -> i32 {
    let runs = ctx.n(160, 4_000);
    let orders = std::sync::Mutex::new(HashSet::new());
    let exe = std::env::current_exe().unwrap();
    let next = AtomicU64::new(0);
    let slow = stage().is_some();
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= runs || ctx.over() || ctx.violations() > 5 {
                    break;
                }
                let mut r = Rng::derive(ctx.seed, "s05-plan", k);
                let threads = *r.pick(&[2, 3, 4, 8, 8, 16]);
                let visits = if slow { r.range(3, 10) } else { r.range(4, 40) };
                let pool = *r.pick(&["1", "2", "4", "8"]);
                let arg = format!("{},{k},{threads},{visits}", ctx.seed);
                let input = std::env::temp_dir().join(format!("orv-s05-{}-{k}", std::process::id()));
                let out = Command::new("timeout")
                    .args(["300"])
                    .arg(&exe)
                    .env("ORV_S05_SUB", &arg)
                    .env("ORV_S05_INPUT", &input)
                    .env("RAYON_NUM_THREADS", pool)
                    .output();
                let out = match out {
                    Ok(o) => o,
                    Err(e) => {
                        ctx.error(format!("cannot run: {e}"));
                        break;
                    }
                };
                let text = String::from_utf8_lossy(&out.stdout).to_string();
                let err = String::from_utf8_lossy(&out.stderr).to_string();
                let bytes = std::fs::read(&input).ok();
                let _ = std::fs::remove_file(&input);
                let v: Option<Value> = text.lines().find_map(|l| l.strip_prefix("S05SUB ")).and_then(|l| serde_json::from_str(l).ok());
                let what = format!("run {arg} RAYON_NUM_THREADS={pool}");
                if let Some(v) = &v {
                    ctx.case(v["order"].as_str());
                    for f in v["files"].as_array().into_iter().flatten() {
                        ctx.count("files", 1);
                        if k == 0 {
                            ctx.sample(f.clone());
                        }
                    }
                    for c in ["compared", "queries", "overlapping", "switches"] {
                        ctx.count(c, v[c].as_u64().unwrap_or(0));
                    }
                    orders.lock().unwrap().insert(v["order"].as_str().unwrap_or("").to_string());
                    for b in v["bad"].as_array().into_iter().flatten() {
                        ctx.violation(b["sig"].as_str().unwrap_or("answer"), &format!("{what}: {}", b["msg"].as_str().unwrap_or("")), bytes.as_deref());
                    }
                }
                let race = err.find("WARNING: ThreadSanitizer: ").map(|at| &err[at + 26..]);
                if let Some(race) = race {
                    let frame = race.lines().find(|l| l.contains("libopenraw::") || l.contains("/repo/src")).unwrap_or("");
                    let frame: String = frame.split_whitespace().nth(1).unwrap_or("").chars().take(100).collect();
                    let cut: String = race.chars().take(3000).collect();
                    ctx.violation(&format!("race {frame}"), &format!("{what}: {cut}"), None);
                } else if v.is_none() {
                    let tail: String = err.lines().rev().take(10).collect::<Vec<_>>().join(" | ");
                    if out.status.code() == Some(124) {
                        ctx.violation("stuck", &format!("{what}: doesn't end"), None);
                    } else {
                        ctx.violation("crash", &format!("{what}: {:?} {tail}", out.status), None);
                    }
                }
            });
        }
    });
    let n = orders.lock().unwrap().len() as u64;
    ctx.count("distinct_orders", n);
    ctx.finish(
        "A case is a process in which 2 to 16 threads, released together, open files of their own from a set they \
         have in common (well formed and hostile, from memory or from a reader that yields, spins and sleeps) and ask \
         every query in random orders; distinct by the order in which the threads' queries began. Each answer is \
         compared with that of a single thread afterwards. The second stage runs under the thread sanitizer, \
         standard library included: a reported race is a violation.",
        "exploration",
        &[("distinct_orders", 60), ("compared", 40_000), ("overlapping", 20_000), ("switches", 5_000)],
        &["Schedules are those the system, the delays and the oversubscription happened to produce.",
          "The monitor's own counters are relaxed so as not to order the threads."],
    )
}
