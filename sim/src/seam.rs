//! The seams through which the simulator owns every source of nondeterminism the library meets:
//! the allocator, the wall clock, and futexes (every std lock, once-cell and parked thread).
//! They act only for threads that are simulated tasks; everything else passes through.
use crate::rt::{self, C};
use crate::sched;
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// Index of the simulated task this thread is, or MAX.
    pub static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static BYPASS: Cell<bool> = const { Cell::new(false) };
    /// Inside the code under test (as opposed to harness code running on the task's thread).
    static REAL: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MAXREQ: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static NALLOC: Cell<u64> = const { Cell::new(0) };
}
pub fn bypass(on: bool) -> bool {
    BYPASS.with(|b| b.replace(on))
}
pub fn set_real(on: bool) -> bool {
    REAL.with(|b| b.replace(on))
}
pub fn is_real() -> bool {
    REAL.with(|r| r.get())
}
pub fn is_task() -> bool {
    TASK.with(|t| t.get()) != usize::MAX && !BYPASS.with(|b| b.get())
}
pub struct Meter {
    pub peak: u64,
    pub max_request: u64,
    pub total: u64,
    pub count: u64,
}
pub fn meter_start() {
    LIVE.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    MAXREQ.with(|x| x.set(0));
    TOTAL.with(|x| x.set(0));
    NALLOC.with(|x| x.set(0));
}
/// Memory obtained since `meter_start` and not given back.
pub fn live() -> i64 {
    LIVE.with(|x| x.get())
}
pub fn meter() -> Meter {
    Meter { peak: PEAK.with(|x| x.get()).max(0) as u64, max_request: MAXREQ.with(|x| x.get()), total: TOTAL.with(|x| x.get()), count: NALLOC.with(|x| x.get()) }
}

/// A request larger than this is refused outright (the simulated machine has no such memory),
/// so that a runaway request ends the run instead of the sandbox.
const MACHINE: usize = 1 << 30;

pub struct SimAlloc;
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;
impl SimAlloc {
    #[inline]
    fn note(&self, size: usize) -> bool {
        if !REAL.with(|r| r.get()) || BYPASS.with(|b| b.get()) {
            return true;
        }
        NALLOC.with(|x| x.set(x.get() + 1));
        TOTAL.with(|x| x.set(x.get() + size as u64));
        MAXREQ.with(|x| x.set(x.get().max(size as u64)));
        LIVE.with(|x| {
            let v = x.get() + size as i64;
            x.set(v);
            PEAK.with(|p| p.set(p.get().max(v)));
        });
        if TASK.with(|t| t.get()) != usize::MAX {
            sched::point(sched::Point::Alloc);
        }
        size <= MACHINE
    }
    #[inline]
    fn note_free(&self, size: usize) {
        if REAL.with(|r| r.get()) && !BYPASS.with(|b| b.get()) {
            LIVE.with(|x| x.set(x.get() - size as i64));
        }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !self.note(l.size()) {
            return core::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !self.note(l.size()) {
            return core::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.note_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        self.note_free(l.size());
        if !self.note(n) {
            return core::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

// ---- clock -------------------------------------------------------------------------------

/// The simulated wall clock, and every value it has shown, in order.
pub struct SimClock {
    pub sec: i64,
    pub nsec: i64,
    pub shown: Vec<(i64, i64)>,
    pub mono_ns: u64,
    pub reads: u64,
    /// called by the clock read itself (the world may move time under the reader)
    pub on_read: Option<fn()>,
}
static mut CLOCK: SimClock = SimClock { sec: 1_600_000_000, nsec: 0, shown: Vec::new(), mono_ns: 1, reads: 0, on_read: None };
#[allow(static_mut_refs)]
pub fn clock() -> &'static mut SimClock {
    unsafe { &mut CLOCK }
}
pub fn set_clock(sec: i64, nsec: i64) {
    let was = bypass(true);
    let c = clock();
    c.sec = sec;
    c.nsec = nsec;
    c.shown.push((sec, nsec));
    bypass(was);
}

/// Interposes libc's clock_gettime for the whole harness binary.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut sys::timespec) -> i32 {
    if is_task() && REAL.with(|r| r.get()) {
        sched::point(sched::Point::Clock);
        if let Some(f) = clock().on_read {
            let was = set_real(false);
            f();
            set_real(was);
        }
        let c = clock();
        c.reads += 1;
        rt::count(C::clock_queries);
        // CLOCK_REALTIME and CLOCK_REALTIME_COARSE show the wall clock
        if clk == 0 || clk == 5 {
            (*ts).tv_sec = c.sec;
            (*ts).tv_nsec = c.nsec;
        } else {
            (*ts).tv_sec = (c.mono_ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (c.mono_ns % 1_000_000_000) as i64;
        }
        return 0;
    }
    let r = sys::raw_syscall(228, clk as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 {
        *sys::__errno_location() = -r as i32;
        return -1;
    }
    0
}

#[repr(C)]
pub struct Timeval {
    sec: i64,
    usec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timeval, _tz: *mut u8) -> i32 {
    let mut ts = sys::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = clock_gettime(0, &mut ts);
    if !tv.is_null() {
        (*tv).sec = ts.tv_sec;
        (*tv).usec = ts.tv_nsec / 1000;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts = sys::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(0, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if is_task() && REAL.with(|r| r.get()) {
        sched::yield_now();
        return 0;
    }
    sys::raw_syscall(24, 0, 0, 0, 0, 0, 0);
    0
}
/// Sleeping costs simulated time only.
unsafe fn sim_sleep(ts: *const sys::timespec) {
    let c = clock();
    let ns = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
    c.mono_ns = c.mono_ns.saturating_add(ns);
    sched::yield_now();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const sys::timespec, rem: *mut sys::timespec) -> i32 {
    if is_task() && REAL.with(|r| r.get()) {
        sim_sleep(ts);
        return 0;
    }
    sys::raw_syscall(35, ts as usize, rem as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, ts: *const sys::timespec, rem: *mut sys::timespec) -> i32 {
    if is_task() && REAL.with(|r| r.get()) {
        sim_sleep(ts);
        return 0;
    }
    -sys::raw_syscall(230, clk as usize, flags as usize, ts as usize, rem as usize, 0, 0) as i32
}

// ---- futex, randomness ---------------------------------------------------------------------

const SYS_FUTEX: usize = 202;
const SYS_GETRANDOM: usize = 318;

/// Interposes libc's syscall(): std's locks reach the kernel through it.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX && is_task() {
        match b & 0x7f {
            0 | 9 => {
                // WAIT, WAIT_BITSET
                let cur = core::ptr::read_volatile(a as *const u32);
                if cur != c as u32 {
                    *sys::__errno_location() = 11;
                    return -1;
                }
                return if sched::block_on(a, d != 0) {
                    0
                } else {
                    *sys::__errno_location() = 110; // ETIMEDOUT
                    -1
                };
            }
            1 | 10 => return sched::wake(a, c) as isize,
            _ => {}
        }
    }
    if n == SYS_GETRANDOM && is_task() {
        return sim_random(a as *mut u8, b);
    }
    let r = sys::raw_syscall(n, a, b, c, d, e, f);
    if r < 0 {
        *sys::__errno_location() = -r as i32;
        return -1;
    }
    r
}
unsafe fn sim_random(p: *mut u8, n: usize) -> isize {
    let mut s = 0x5eed_u64 ^ TASK.with(|t| t.get()) as u64 ^ crate::around::random() << 8;
    for i in 0..n {
        *p.add(i) = rt::splitmix(&mut s) as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    if is_task() {
        return sim_random(p, n);
    }
    sys::raw_syscall(SYS_GETRANDOM, p as usize, n, 0, 0, 0, 0)
}

// ---- standard output -----------------------------------------------------------------------

/// What the code under test wrote to standard output, and how the next writes are answered.
static mut CONSOLE: Vec<u8> = Vec::new();
#[allow(static_mut_refs)]
pub fn console() -> &'static mut Vec<u8> {
    unsafe { &mut CONSOLE }
}
unsafe fn console_write(p: *const u8, n: usize) -> isize {
    let was = bypass(true);
    let r = if n > 0 && rt::chance(1, 24) {
        rt::count(C::fault_console_interrupted);
        *sys::__errno_location() = 4;
        -1
    } else {
        let k = if n > 1 && rt::chance(1, 8) {
            rt::count(C::fault_console_short);
            rt::range(1, n as u64 - 1) as usize
        } else {
            n
        };
        console().extend_from_slice(core::slice::from_raw_parts(p, k));
        k as isize
    };
    bypass(was);
    r
}
fn to_console(fd: i32) -> bool {
    (fd == 1 || fd == 2) && is_task() && is_real()
}
unsafe fn answer(r: isize) -> isize {
    if r < 0 {
        *sys::__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if to_console(fd) {
        return if fd == 1 { console_write(p, n) } else { n as isize };
    }
    answer(sys::raw_syscall(1, fd as usize, p as usize, n, 0, 0, 0))
}
#[repr(C)]
pub struct IoVec {
    p: *const u8,
    n: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    if to_console(fd) {
        let mut sum = 0;
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.n == 0 {
                continue;
            }
            let r = if fd == 1 { console_write(x.p, x.n) } else { x.n as isize };
            if r < 0 {
                return if sum > 0 { sum } else { r };
            }
            sum += r;
            if (r as usize) < x.n {
                break;
            }
        }
        return sum;
    }
    answer(sys::raw_syscall(20, fd as usize, v as usize, n as usize, 0, 0, 0))
}
