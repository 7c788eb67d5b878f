//! The monitor's allocator: per-thread accounting of the memory in use and a
//! fill pattern for fresh memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Mon;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
    static POISON: Cell<i32> = const { Cell::new(-1) };
}

fn on_alloc(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if LIVE.try_with(|l| l.get()).unwrap_or(0) > 3 << 30 {
        // The supervisor reports the case.
        let m = b"a case takes more than 3 GiB of memory\n";
        unsafe {
            libc::write(2, m.as_ptr() as *const _, m.len());
            libc::abort()
        }
    }
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n as u64)));
    let _ = LARGEST.try_with(|t| {
        if n as u64 > t.get() {
            t.set(n as u64)
        }
    });
}
fn on_free(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            on_alloc(l.size());
            let pat = POISON.try_with(|p| p.get()).unwrap_or(-1);
            if pat >= 0 && l.size() <= (256 << 20) {
                std::ptr::write_bytes(p, pat as u8, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            on_alloc(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let pat = POISON.try_with(|p| p.get()).unwrap_or(-1);
        if pat >= 0 {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            on_free(l.size());
            on_alloc(n);
        }
        q
    }
}

/// Fill fresh memory of this thread with that byte.
pub fn poison(p: Option<u8>) {
    POISON.with(|x| x.set(p.map(|b| b as i32).unwrap_or(-1)))
}

/// Memory this thread has in use.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub struct Usage {
    pub peak: u64,
    pub total: u64,
    pub largest: u64,
}

/// Memory used by f in this thread: peak above the start, total and largest request.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    TOTAL.with(|t| t.set(0));
    LARGEST.with(|t| t.set(0));
    let r = f();
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as u64,
        total: TOTAL.with(|t| t.get()),
        largest: LARGEST.with(|t| t.get()),
    };
    (r, u)
}
