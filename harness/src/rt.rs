//! Low-level runtime monitors: the counting/poisoning allocator, and (in the
//! `cov` build) the sanitizer-coverage callbacks that observe which edges of
//! the json crate ran, how many, and what it compared.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub static BLOCKS: AtomicUsize = AtomicUsize::new(0);
pub static ALLOCS: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static POISON: AtomicBool = AtomicBool::new(false);

const POISON_MAX: usize = 2048;

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

fn die(msg: &str, code: i32) -> ! {
    unsafe {
        write(2, msg.as_ptr(), msg.len());
        _exit(code)
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        if live > CAP.load(Relaxed) {
            die("MON-ALLOC-CAP: live memory of one case exceeded the cap\n", 78);
        }
        TOTAL.fetch_add(l.size(), Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        PEAK.fetch_max(live, Relaxed);
        let p = System.alloc(l);
        if POISON.load(Relaxed) && !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size().min(POISON_MAX));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        if POISON.load(Relaxed) {
            std::ptr::write_bytes(p, 0x5A, l.size().min(POISON_MAX));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if POISON.load(Relaxed) {
            // Always move, so that stale pointers into the old block show.
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        if new >= l.size() {
            let live = LIVE.fetch_add(new - l.size(), Relaxed) + (new - l.size());
            if live > CAP.load(Relaxed) {
                die("MON-ALLOC-CAP: live memory of one case exceeded the cap\n", 78);
            }
            PEAK.fetch_max(live, Relaxed);
        } else {
            LIVE.fetch_sub(l.size() - new, Relaxed);
        }
        TOTAL.fetch_add(new, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.realloc(p, l, new)
    }
}

/// Live bytes and blocks right now.
pub fn live() -> (usize, usize) {
    (LIVE.load(Relaxed), BLOCKS.load(Relaxed))
}

pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}
/// Requests for memory so far.
pub fn allocs() -> usize {
    ALLOCS.load(Relaxed)
}
/// Start a new peak measurement; gives back the old peak.
pub fn reset_peak() -> usize {
    PEAK.swap(LIVE.load(Relaxed), Relaxed)
}
pub fn restore_peak(p: usize) {
    PEAK.fetch_max(p, Relaxed);
}

/// Each case starts with fresh step and memory limits.
pub fn begin_case(step_limit: u64) {
    STEP_LIMIT.store(STEPS.load(Relaxed).saturating_add(step_limit), Relaxed);
    CAP.store(LIVE.load(Relaxed).saturating_add(3 << 30), Relaxed);
}

pub fn end_case() {
    STEP_LIMIT.store(u64::MAX, Relaxed);
    CAP.store(usize::MAX, Relaxed);
}

/// Fold the edge counters of the last case into `seen`; true if anything new.
pub fn take_counts(seen: &mut [u8]) -> bool {
    let n = (NGUARDS.load(Relaxed) + 1).min(MAXG);
    let mut new = false;
    unsafe {
        let c = &raw mut COUNTS as *mut u8;
        let mut i = 0;
        while i < n {
            if i + 8 <= MAXG && (c.add(i) as *const u64).read_unaligned() == 0 {
                i += 8;
                continue;
            }
            let v = *c.add(i);
            if v != 0 {
                let b = 1u8 << (match v { 1 => 0, 2 => 1, 3 => 2, 4..=7 => 3, 8..=15 => 4, 16..=31 => 5, 32..=127 => 6, _ => 7 });
                if seen[i] & b == 0 {
                    seen[i] |= b;
                    new = true;
                }
                *c.add(i) = 0;
            }
            i += 1;
        }
    }
    new
}

pub fn take_cmps(out: &mut Vec<u64>) {
    let n = CMP_POS.swap(0, Relaxed).min(NCMP);
    for i in 0..n {
        let v = unsafe { *(&raw const CMPS as *const u64).add(i) };
        if v > 15 && !out.contains(&v) && out.len() < 400 {
            out.push(v);
        }
    }
}

// --- coverage ------------------------------------------------------------

pub const MAXG: usize = 1 << 16;
pub static mut COUNTS: [u8; MAXG] = [0; MAXG];
pub static NGUARDS: AtomicUsize = AtomicUsize::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

pub const NCMP: usize = 256;
pub static mut CMPS: [u64; NCMP] = [0; NCMP];
pub static CMP_POS: AtomicUsize = AtomicUsize::new(0);

pub fn has_cov() -> bool {
    NGUARDS.load(Relaxed) > 0
}

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

#[cfg(cov)]
mod hooks {
    use super::*;

    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
        let mut p = start;
        if p == stop || *p != 0 {
            return;
        }
        while p < stop {
            let n = NGUARDS.fetch_add(1, Relaxed) + 1;
            *p = (n % MAXG) as u32;
            p = p.add(1);
        }
    }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
        let i = *g as usize;
        let c = (&raw mut COUNTS as *mut u8).add(i);
        *c = (*c).saturating_add(1);
        // not an atomic add on purpose: cheap, and only exact when one thread runs
        let s = STEPS.load(Relaxed) + 1;
        STEPS.store(s, Relaxed);
        if s > STEP_LIMIT.load(Relaxed) {
            die("MON-STEP-LIMIT: one case executed more edges of the library than the step limit\n", 77);
        }
    }
    #[inline(always)]
    unsafe fn cmp(a: u64, b: u64) {
        if a != b {
            let p = CMP_POS.load(Relaxed);
            CMP_POS.store(p + 1, Relaxed);
            *(&raw mut CMPS as *mut u64).add(p % NCMP) = a;
        }
    }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_const_cmp1(_a: u8, _b: u8) {}
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) { cmp(a as u64, b as u64) }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) { cmp(a as u64, b as u64) }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) { cmp(a, b) }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_cmp1(_a: u8, _b: u8) {}
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_cmp2(_a: u16, _b: u16) {}
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_cmp4(_a: u32, _b: u32) {}
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_cmp8(_a: u64, _b: u64) {}
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
        let n = *cases as usize;
        let bits = *cases.add(1);
        if bits >= 16 {
            for i in 0..n.min(64) {
                cmp(*cases.add(2 + i), !0);
            }
        }
    }
}
