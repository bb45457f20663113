//! What the instrumented code reports: the branches it takes and the operands of its comparisons. The compiler inserts the
//! calls (tools/rustc.sh); without them nothing here is ever called and the search is not guided.
//!
//! Recording is per thread, only while library code runs, and allocates nothing.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering};

/// Branches are counted modulo this.
const MAP: usize = 1 << 16;
/// Events after which one case is not recorded further.
const EVENTS: u32 = 1 << 17;
const RECENT: usize = 1 << 10;
const PAIRS: usize = 48;

pub struct State {
    counts: Box<[u8; MAP]>,
    touched: Vec<u32>,
    /// Features of comparisons: where, and how far the operands are apart.
    compared: Vec<u32>,
    seen: Box<[u8; MAP]>,
    pairs: [(u64, u64); PAIRS],
    n_pairs: usize,
    events: u32,
    recent: Box<[u64; RECENT]>,
    cases: u64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static WANTED: Cell<bool> = const { Cell::new(false) };
    static STATE: Cell<*mut State> = const { Cell::new(std::ptr::null_mut()) };
}

/// The instrumented code looks here before it calls anything.
#[no_mangle]
static __sancov_should_track: AtomicU64 = AtomicU64::new(0);
static GUARDS: AtomicU32 = AtomicU32::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);

/// Whether the code under test was instrumented.
pub fn enabled() -> bool {
    GUARDS.load(Ordering::Relaxed) > 0
}

/// The number of instrumented branches.
pub fn branches() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

/// Records on this thread from now on.
pub fn attach() {
    if !enabled() {
        return;
    }
    __sancov_should_track.store(1, Ordering::SeqCst);
    STATE.with(|s| {
        if s.get().is_null() {
            s.set(Box::into_raw(Box::new(State {
                counts: vec![0; MAP].into_boxed_slice().try_into().unwrap(),
                touched: Vec::with_capacity(MAP),
                compared: Vec::with_capacity(MAP),
                seen: vec![0; MAP].into_boxed_slice().try_into().unwrap(),
                pairs: [(0, 0); PAIRS],
                n_pairs: 0,
                events: 0,
                recent: vec![0; RECENT].into_boxed_slice().try_into().unwrap(),
                cases: 0,
            })));
        }
    });
}

/// Called around library code.
#[inline]
pub fn recording(on: bool) -> bool {
    ON.with(|c| c.replace(on && WANTED.with(|w| w.get())))
}

/// The case is over: what runs until the next `reset` is not recorded.
pub fn stop() {
    ON.with(|c| c.set(false));
    WANTED.with(|c| c.set(false));
}

/// Forgets what was recorded so far and begins anew.
pub fn reset() {
    WANTED.with(|c| c.set(enabled()));
    let p = STATE.with(|s| s.get());
    if p.is_null() {
        return;
    }
    // SAFETY: the state belongs to this thread, and the callbacks are not running.
    let s = unsafe { &mut *p };
    for t in s.touched.drain(..) {
        s.counts[t as usize] = 0;
    }
    for f in s.compared.drain(..) {
        s.seen[f as usize % MAP] = 0;
    }
    s.n_pairs = 0;
    s.events = 0;
    s.cases = s.cases.wrapping_add(0x1_0001);
}

/// What was recorded since the last reset.
pub fn take(features: &mut Vec<u64>, pairs: &mut Vec<(u64, u64)>) {
    features.clear();
    pairs.clear();
    let p = STATE.with(|s| s.get());
    if p.is_null() {
        return;
    }
    // SAFETY: as above.
    let s = unsafe { &mut *p };
    for &t in &s.touched {
        // Once, twice, three times, 4-7, 8-15, 16-31, more: as fuzzers do.
        let b = match s.counts[t as usize] {
            1 => 0u64,
            2 => 1,
            3 => 2,
            4..=7 => 3,
            8..=15 => 4,
            16..=31 => 5,
            32..=127 => 6,
            _ => 7,
        };
        features.push((t as u64) << 3 | b);
    }
    for &f in &s.compared {
        features.push(1 << 40 | f as u64);
    }
    pairs.extend_from_slice(&s.pairs[..s.n_pairs.min(PAIRS)]);
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop {
        return;
    }
    // SAFETY: the compiler passes the bounds of a table of its own.
    unsafe {
        if *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
            p = p.add(1);
        }
    }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ON.with(|c| c.get()) {
        return;
    }
    let p = STATE.with(|s| s.get());
    if p.is_null() {
        return;
    }
    // SAFETY: the state belongs to this thread and nothing else uses it meanwhile; the guard is the compiler's.
    unsafe {
        let s = &mut *p;
        if s.events >= EVENTS {
            return;
        }
        s.events += 1;
        let g = *guard as usize % MAP;
        let c = &mut s.counts[g];
        if *c == 0 {
            if s.touched.len() == s.touched.capacity() {
                return;
            }
            s.touched.push(g as u32);
        }
        *c = c.saturating_add(1);
    }
}

/// A comparison of `a` (the constant, if there is one) and `b` at `pc`.
extern "C" fn compared(a: u64, b: u64, pc: usize) {
    if !ON.with(|c| c.get()) {
        return;
    }
    let p = STATE.with(|s| s.get());
    if p.is_null() {
        return;
    }
    // SAFETY: as above.
    unsafe {
        let s = &mut *p;
        if s.events >= EVENTS {
            return;
        }
        s.events += 1;
        let mut base = BASE.load(Ordering::Relaxed);
        if base == 0 {
            base = compared as *const () as usize;
            BASE.store(base, Ordering::Relaxed);
        }
        // What was just compared here says nothing new.
        let pc = (pc.wrapping_sub(base) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let h = (pc ^ a.rotate_left(32) ^ b).wrapping_mul(0xff51_afd7_ed55_8ccd) ^ s.cases;
        let slot = &mut s.recent[(h >> 52) as usize % RECENT];
        if *slot == h {
            return;
        }
        *slot = h;
        let near = (a ^ b).count_ones() as u64;
        let far = 64 + (64 - a.abs_diff(b).leading_zeros() as u64);
        for d in [near, far] {
            let f = (pc ^ d.wrapping_mul(0xff51_afd7_ed55_8ccd)) >> 32;
            let slot = f as usize % MAP;
            if s.seen[slot] == 0 && s.compared.len() < s.compared.capacity() {
                s.seen[slot] = 1;
                s.compared.push(f as u32);
            }
        }
        if a != b {
            // The first ones, and then a sample.
            let k = s.n_pairs;
            if k < PAIRS {
                if !s.pairs[..k].contains(&(a, b)) {
                    s.pairs[k] = (a, b);
                    s.n_pairs += 1;
                }
            } else if s.events % 7 == 0 {
                s.pairs[(s.events as usize / 7) % PAIRS] = (a, b);
            }
        }
    }
}

macro_rules! callback {
    ($($name:ident, $ext:literal;)*) => {
        $(
            // The return address is the third argument.
            #[cfg(target_arch = "x86_64")]
            #[unsafe(naked)]
            #[no_mangle]
            extern "C" fn $name() {
                core::arch::naked_asm!($ext, "mov rdx, [rsp]", "jmp {f}", f = sym compared)
            }
            #[cfg(not(target_arch = "x86_64"))]
            #[no_mangle]
            extern "C" fn $name() {}
        )*
    };
}

callback! {
    __sanitizer_cov_trace_cmp1, "movzx edi, dil\nmovzx esi, sil";
    __sanitizer_cov_trace_cmp2, "movzx edi, di\nmovzx esi, si";
    __sanitizer_cov_trace_cmp4, "mov edi, edi\nmov esi, esi";
    __sanitizer_cov_trace_cmp8, "nop";
    __sanitizer_cov_trace_const_cmp1, "movzx edi, dil\nmovzx esi, sil";
    __sanitizer_cov_trace_const_cmp2, "movzx edi, di\nmovzx esi, si";
    __sanitizer_cov_trace_const_cmp4, "mov edi, edi\nmov esi, esi";
    __sanitizer_cov_trace_const_cmp8, "nop";
}

#[cfg(target_arch = "x86_64")]
#[unsafe(naked)]
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_switch() {
    core::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym switched)
}
#[cfg(not(target_arch = "x86_64"))]
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_switch() {}

/// `cases`: their number, the width of the value, and then the values.
#[allow(dead_code)]
extern "C" fn switched(value: u64, cases: *const u64, pc: usize) {
    if !ON.with(|c| c.get()) {
        return;
    }
    // SAFETY: the table is the compiler's.
    unsafe {
        let n = (*cases as usize).min(16);
        for i in 0..n {
            compared(*cases.add(2 + i), value, pc.wrapping_add(i));
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_indir(_callee: u64) {}
