//! Preemption inside the library: rx509 is compiled with LLVM's coverage callbacks (see
//! ../fine-rustc.sh), one before every basic block, load and store. Each is a point at which the
//! simulator may take the processor away from the running task, so an interleaving can be cut at
//! any memory access of the code under test, not only where it allocates or calls out.
//! The block callbacks also tell which blocks of rx509 the search has executed.
use crate::rt;
use crate::sched;
use crate::seam;
use std::cell::Cell;

pub const MAX_BLOCKS: usize = 1 << 14;
/// Preemptions of this kind in one run.
const MAX_PER_RUN: u64 = 3000;

thread_local! {
    /// Points still to pass before the next preemption; MAX: none is due.
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// Blocks, loads and stores of rx509 this thread has executed.
    static STEPS: Cell<u64> = const { Cell::new(0) };
    /// Bytes this thread has moved or compared in bulk while in the code under test.
    static MOVED: Cell<u64> = const { Cell::new(0) };
}
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
pub fn moved() -> u64 {
    MOVED.with(|s| s.get())
}
static mut NBLOCKS: u32 = 0;
static mut MEAN: u64 = 0;
static mut TAKEN: u64 = 0;

pub fn blocks() -> u64 {
    unsafe { NBLOCKS as u64 }
}
/// Average number of points between preemptions in the coming run; 0 switches them off.
pub fn set_mean(mean: u64) {
    unsafe {
        MEAN = mean;
        TAKEN = 0;
    }
}
/// Decides when the calling task is preempted next.
pub fn arm() {
    let v = unsafe {
        if MEAN == 0 || TAKEN >= MAX_PER_RUN {
            u64::MAX
        } else {
            TAKEN += 1;
            // zero, the plainest choice: never
            match rt::draw(MEAN * 32) {
                0 => u64::MAX,
                d => d / 16 + 1,
            }
        }
    };
    LEFT.with(|l| l.set(v));
}
#[cold]
fn due() {
    arm();
    sched::point(sched::Point::Inside);
}
#[inline]
fn hit() {
    STEPS.with(|s| s.set(s.get().wrapping_add(1)));
    LEFT.with(|l| {
        let v = l.get();
        if v != u64::MAX && seam::is_task() && seam::is_real() {
            if v <= 1 {
                due();
            } else {
                l.set(v - 1);
            }
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut p: *mut u32, end: *mut u32) {
    while p < end {
        if *p == 0 {
            NBLOCKS += 1;
            *p = NBLOCKS;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    rt::cover(*g as usize);
    hit();
}
macro_rules! access { ($($n:ident),*) => { $(#[no_mangle] pub extern "C" fn $n(_p: *const u8) { hit() })* } }
access!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);

// ---- bulk moves -------------------------------------------------------------------------------

#[inline(always)]
fn bulk(n: usize) {
    if seam::is_real() {
        MOVED.with(|m| m.set(m.get().wrapping_add(n as u64)));
    }
}
/// Interposes libc's bulk operations for the whole harness binary, to see how many bytes the code
/// under test moves through them.
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    if (d as usize).wrapping_sub(s as usize) >= n {
        core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else {
        core::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    d
}
