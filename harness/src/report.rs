//! Verdicts, evidence and the worker pool.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::watch;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Viol {
    sig: String,
    desc: String,
    replay: PathBuf,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    start: Instant,
    deadline: Duration,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    counters: Mutex<BTreeMap<String, u64>>,
    viols: Mutex<Vec<Viol>>,
    known: Vec<(String, String)>,
    known_seen: Mutex<BTreeMap<String, String>>,
    pub stop: AtomicBool,
    pub workers: usize,
    errors: Mutex<Vec<String>>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
}

/// An instrumented stage of a check: name, how many times fewer cases.
pub fn stage() -> Option<(String, u64)> {
    let s = std::env::var("ORV_STAGE").ok()?;
    let (n, d) = s.split_once(':')?;
    Some((n.to_string(), d.parse().ok()?))
}

/// The default stack of a Rust thread; the sanitizers need more.
fn stack() -> usize {
    if stage().is_some() {
        32 << 20
    } else {
        2 << 20
    }
}

/// A logger that formats everything, for what that does.
pub struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        struct Null;
        impl std::fmt::Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Null, *record.args());
    }
    fn flush(&self) {}
}

/// Run `f`, giving the panic text if it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// The part of a panic text that identifies the site: file and message with
/// the numbers removed.
pub fn panic_sig(p: &str) -> String {
    let p = p.replace("/repo/", "");
    let mut s = String::new();
    let mut last_digit = false;
    for c in p.chars() {
        if c.is_ascii_digit() {
            if !last_digit {
                s.push('#');
            }
            last_digit = true;
        } else {
            last_digit = false;
            s.push(c);
        }
        if s.len() > 160 {
            break;
        }
    }
    s
}

/// Where to put the replay of a signature.
pub fn replay_path(root: &std::path::Path, id: &str, sig: &str) -> PathBuf {
    let dir = root.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{id}-{:08x}.txt", h64(sig.as_bytes()) as u32))
}

pub fn h64(s: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(s);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, root: PathBuf) -> Self {
        let mut known = vec![];
        // known: property=ID sig=[[signature]] what
        if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
            let pre = format!("known: property={id} sig=[[");
            for l in t.lines() {
                if let Some((sig, what)) = l.strip_prefix(&pre).and_then(|l| l.split_once("]]")) {
                    known.push((sig.to_string(), what.trim().to_string()));
                }
            }
        }
        let deadline = match tier {
            Tier::Quick => 150,
            Tier::Thorough => 700,
        };
        Ctx {
            id: id.into(),
            tier,
            seed,
            root,
            start: Instant::now(),
            deadline: Duration::from_secs(deadline),
            evals: AtomicU64::new(0),
            distinct: Default::default(),
            samples: Default::default(),
            counters: Default::default(),
            viols: Default::default(),
            known,
            known_seen: Default::default(),
            stop: AtomicBool::new(false),
            workers: std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .min(8),
            errors: Default::default(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.quick() { quick } else { thorough };
        // instrumented stages are slower
        n / stage().map(|s| s.1).unwrap_or(1)
    }
    pub fn over(&self) -> bool {
        self.start.elapsed() > self.deadline
    }
    pub fn error(&self, e: String) {
        self.errors.lock().unwrap().push(e);
    }
    /// One evaluation; `sig` identifies what makes it distinct, None: trivial.
    pub fn case(&self, sig: Option<&str>) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if let Some(s) = sig {
            self.distinct.lock().unwrap().insert(h64(s.as_bytes()));
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self
            .counters
            .lock()
            .unwrap()
            .entry(k.to_string())
            .or_default() += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counters.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn violations(&self) -> usize {
        self.viols.lock().unwrap().len()
    }
    pub fn violation(&self, sig: &str, desc: &str, input: Option<&[u8]>) {
        if let Some(k) = self.known.iter().find(|k| k.0 == sig) {
            self.known_seen
                .lock()
                .unwrap()
                .insert(k.0.clone(), k.1.clone());
            return;
        }
        let mut v = self.viols.lock().unwrap();
        if v.iter().any(|x| x.sig == sig) {
            self.count_locked_free("violations_repeated");
            return;
        }
        let dir = self.root.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let name = format!("{}-{:08x}", self.id, h64(sig.as_bytes()) as u32);
        let replay = dir.join(format!("{name}.txt"));
        let mut text = format!(
            "property {}\nsignature {}\nseed {}\ntier {:?}\n\n{}\n",
            self.id, sig, self.seed, self.tier, desc
        );
        if let Some(b) = input {
            let bin = dir.join(format!("{name}.bin"));
            let _ = std::fs::write(&bin, b);
            text.push_str(&format!("\ninput file: {}\n", bin.display()));
        }
        let _ = std::fs::write(&replay, text);
        eprintln!("[{}] {}\n    {}", self.id, sig, desc);
        v.push(Viol {
            sig: sig.into(),
            desc: desc.chars().take(600).collect(),
            replay,
        });
        if v.len() >= 40 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    fn count_locked_free(&self, k: &str) {
        self.count(k, 1)
    }

    /// Run f(0..n) over the workers.
    pub fn par(&self, n: u64, f: impl Fn(u64) + Sync) {
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for k in 0..self.workers {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(stack())
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || self.stop.load(Ordering::Relaxed) || self.over() {
                            if i < n {
                                self.count("cut_short", 1);
                            }
                            break;
                        }
                        watch::begin(k, i);
                        let res = guard(|| f(i));
                        watch::end(k);
                        if let Err(p) = res {
                            if p.starts_with("src/") {
                                self.error(format!("harness panic in case {i}: {p}"));
                            } else {
                                self.violation(
                                    &format!("panic {}", panic_sig(&p)),
                                    &format!("case {i}: library panicked: {p}"),
                                    None,
                                );
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// Write the evidence, print the verdict and give the exit code.
    /// `need`: counters that must have reached a minimum for the run to count.
    pub fn finish(&self, rule: &str, level: &str, need: &[(&str, u64)], assumptions: &[&str]) -> i32 {
        let evals = self.evals.load(Ordering::Relaxed);
        let distinct = self.distinct.lock().unwrap().len() as u64;
        let viols = self.viols.lock().unwrap();
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(evals));
        cov.insert("distinct_nontrivial".into(), json!(distinct));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert("observed".into(), json!(*self.counters.lock().unwrap()));
        let ev = json!({
            "property": self.id,
            "tier": if self.quick() {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viols.len(),
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.id));
        let ev = match stage() {
            None => ev,
            Some((name, _)) => {
                // add to the evidence of the main stage
                let mut main: Value = std::fs::read_to_string(&path)
                    .ok()
                    .and_then(|t| serde_json::from_str(&t).ok())
                    .unwrap_or_else(|| ev.clone());
                let total = main["coverage"]["evaluations"].as_u64().unwrap_or(0) + evals;
                main["coverage"]["evaluations"] = json!(total);
                main["coverage"]["stages"][&name] = json!({
                    "evaluations": evals,
                    "distinct": distinct,
                    "observed": *self.counters.lock().unwrap(),
                    "wall_s": self.start.elapsed().as_secs_f64(),
                });
                let bad = main["violations"].as_u64().unwrap_or(0) + viols.len() as u64;
                main["violations"] = json!(bad);
                main
            }
        };
        let _ = std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap());
        for (sig, what) in self.known_seen.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, sig);
        }
        if !viols.is_empty() {
            for v in viols.iter().take(10) {
                println!("{}: {}", v.sig, v.desc);
                println!(
                    "VIOLATION property={} replay={}",
                    self.id,
                    v.replay.display()
                );
            }
            return 1;
        }
        let errs = self.errors.lock().unwrap();
        if !errs.is_empty() {
            for e in errs.iter().take(10) {
                println!("CHECK-ERROR: {e}");
            }
            return 2;
        }
        let need = if stage().is_some() { &[("evaluations", 20)][..] } else { need };
        for (k, min) in need {
            let got = match *k {
                "evaluations" => evals,
                "distinct" => distinct,
                k => self.get(k),
            };
            if got < *min {
                println!("CHECK-ERROR: inconclusive, observed {k}={got} < {min}");
                return 2;
            }
        }
        println!(
            "{}{}: held on {evals} evaluations ({distinct} distinct) in {:.1}s",
            self.id,
            stage().map(|s| format!(" ({})", s.0)).unwrap_or_default(),
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}
