//! Supervision: the check proper runs in a child process whose workers publish
//! the case they are in, so that a crash of the process, or a case that never
//! ends, is attributed and reported.
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};

use crate::report::replay_path;

const SLOTS: usize = 16;
/// CPU seconds a single case may take; they take milliseconds.
pub const CASE_CPU: u64 = 60;

#[repr(C)]
struct Slot {
    /// case + 1
    case: AtomicU64,
    /// label hash
    started: AtomicU64,
    clock: AtomicU64,
}

static MAP: AtomicU64 = AtomicU64::new(0);

fn slots() -> Option<&'static [Slot; SLOTS]> {
    let p = MAP.load(Ordering::Relaxed) as *const [Slot; SLOTS];
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

fn map(fd: i32) {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<[Slot; SLOTS]>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        )
    };
    if p != libc::MAP_FAILED {
        MAP.store(p as u64, Ordering::Relaxed);
    }
}

fn cpu(clock: i32) -> u64 {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

pub fn begin(k: usize, case: u64) {
    if let Some(s) = slots() {
        let s = &s[k % SLOTS];
        let mut c = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
        s.clock.store(c as u32 as u64, Ordering::Relaxed);
        s.started
            .store(cpu(libc::CLOCK_THREAD_CPUTIME_ID), Ordering::Relaxed);
        s.case.store(case + 1, Ordering::Release);
    }
}

pub fn end(k: usize) {
    if let Some(s) = slots() {
        s[k % SLOTS].case.store(0, Ordering::Release);
    }
}

/// In the child: look for cases that don't end.
pub fn monitor(id: String, root: std::path::PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let Some(sl) = slots() else { return };
        for s in sl {
            let case = s.case.load(Ordering::Acquire);
            if case == 0 {
                continue;
            }
            let start = s.started.load(Ordering::Relaxed);
            let now = cpu(s.clock.load(Ordering::Relaxed) as u32 as i32);
            if s.case.load(Ordering::Acquire) == case && now > start + CASE_CPU * 1000 {
                report(
                    &id,
                    &root,
                    "case does not end",
                    &format!("case {} used more than {CASE_CPU} s of CPU", case - 1),
                );
                unsafe { libc::_exit(1) };
            }
        }
    });
}

fn report(id: &str, root: &Path, sig: &str, desc: &str) {
    let p = replay_path(root, id, sig);
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let _ = std::fs::write(
        &p,
        format!("property {id}\nsignature {sig}\nseed {seed}\n\n{desc}\n"),
    );
    println!("{sig}: {desc}");
    println!("VIOLATION property={id} replay={}", p.display());
}

/// Run the check in a child. Some(code): the parent's exit code, None: we are
/// the child.
pub fn supervise(id: &str, root: &Path) -> Option<i32> {
    if let Ok(fd) = std::env::var("ORV_CHILD_FD") {
        if let Ok(fd) = fd.parse::<i32>() {
            map(fd);
        }
        monitor(id.to_string(), root.to_path_buf());
        return None;
    }
    let fd = unsafe { libc::memfd_create(c"orv".as_ptr(), 0) };
    unsafe { libc::ftruncate(fd, std::mem::size_of::<[Slot; SLOTS]>() as i64) };
    map(fd);
    let mut cmd = std::process::Command::new(std::env::current_exe().ok()?);
    cmd.args(std::env::args().skip(1))
        .env("ORV_CHILD_FD", fd.to_string());
    let status = match cmd.status() {
        Ok(s) => s,
        Err(e) => {
            println!("CHECK-ERROR: cannot run the child: {e}");
            return Some(2);
        }
    };
    if let Some(c) = status.code() {
        return Some(c);
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = status.signal().unwrap_or(0);
    let cases: Vec<u64> = slots()
        .map(|s| {
            s.iter()
                .map(|s| s.case.load(Ordering::Acquire))
                .filter(|c| *c > 0)
                .map(|c| c - 1)
                .collect()
        })
        .unwrap_or_default();
    // Killed from outside (memory, timeout): no verdict.
    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT || cases.is_empty() {
        println!("CHECK-ERROR: the check was ended by signal {sig}");
        return Some(2);
    }
    report(
        id,
        root,
        &format!("the process died of signal {sig}"),
        &format!("running cases {cases:?}"),
    );
    Some(1)
}
