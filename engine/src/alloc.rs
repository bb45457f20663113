//! Counting allocator. Counts per thread, only while `tracking`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub live: i64,
    pub peak: i64,
    pub largest: usize,
    pub count: u64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static STATS: Cell<Stats> = const { Cell::new(Stats { live: 0, peak: 0, largest: 0, count: 0 }) };
}

/// A single request above this, or that much live memory in one tracked section, is refused; the process
/// then dies in `handle_alloc_error` and the supervisor attributes the death to the running case.
const REFUSE_SINGLE: usize = 8 << 30;
const REFUSE_LIVE: i64 = 12 << 30;

#[inline]
fn add(size: usize) -> bool {
    ON.try_with(|on| {
        if !on.get() {
            return true;
        }
        STATS
            .try_with(|s| {
                let mut st = s.get();
                st.largest = st.largest.max(size);
                st.count += 1;
                if size > REFUSE_SINGLE || st.live + size as i64 > REFUSE_LIVE {
                    s.set(st);
                    return false;
                }
                st.live += size as i64;
                st.peak = st.peak.max(st.live);
                s.set(st);
                true
            })
            .unwrap_or(true)
    })
    .unwrap_or(true)
}

#[inline]
fn sub(size: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = STATS.try_with(|s| {
                let mut st = s.get();
                st.live -= size as i64;
                s.set(st);
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if add(l.size()) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if add(l.size()) {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // Old and new block may exist together while the contents move.
        if !add(new) {
            return std::ptr::null_mut();
        }
        sub(l.size());
        System.realloc(p, l, new)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// Runs `f` with counting on, from zero.
pub fn tracked<R>(f: impl FnOnce() -> R) -> (R, Stats) {
    STATS.with(|s| s.set(Stats::default()));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, STATS.with(|s| s.get()))
}

/// Called when a tracked section unwinds.
pub fn stop() -> Stats {
    ON.with(|o| o.set(false));
    STATS.with(|s| s.get())
}
