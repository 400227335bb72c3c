//! What surrounds the library and is no business of its answers: where in memory its input lies
//! (and what lies behind it), the environment, and the names of threads. One draw per run decides
//! each; zero is the plainest. A fresh process that judges is given the plainest.
use crate::rt::{self, C};
use crate::sys;
use std::ffi::CStr;

const BASE: usize = 0x1000_0000_0000;
const PAGE: usize = 4096;
static mut NEXT: usize = BASE;
static mut PLACES: usize = 0;
/// Where inputs lie: 0 at the start of a page, 1 in front of memory that is not there, otherwise
/// that many bytes into a page.
static mut WHERE: Option<usize> = None;
static mut ENV: Option<&'static CStr> = None;
static mut RANDOM: u64 = 0;
static mut NAME: Option<&'static str> = None;

const VALUES: [&CStr; 12] = [c"", c"1", c"0", c"C", c"tr_TR.UTF-8", c"full", c"always", c"debug", c"Europe/Berlin", c"/nonexistent", c"18446744073709551616", c"\xff\xfe"];
const NAMES: [&str; 5] = ["main", "worker-1", "tokio-runtime-worker", "", "\u{e4}"];

/// Draws the surroundings of a run. True if they are out of the ordinary.
pub fn draw() -> bool {
    unsafe {
        WHERE = Some(match rt::draw(8) {
            0..=2 => 0,
            3..=5 => 1,
            _ => rt::range(2, 65) as usize,
        });
        if !rt::chance(1, 4) {
            return false;
        }
        let k = rt::draw(1 + VALUES.len() as u64);
        ENV = if k > 0 { Some(VALUES[k as usize - 1]) } else { None };
        let k = rt::draw(1 + NAMES.len() as u64);
        NAME = if k > 0 { Some(NAMES[k as usize - 1]) } else { None };
        RANDOM = draw_random();
        if ENV.is_none() && NAME.is_none() && RANDOM == 0 {
            return false;
        }
        rt::count(C::fault_odd_surroundings);
        crate::trace!("surroundings: every variable is {:?}, threads are named {:?}", ENV, NAME);
        true
    }
}
/// Those of the process that judges.
pub fn plain() {
    unsafe {
        WHERE = Some(0);
        ENV = None;
        NAME = None;
        RANDOM = 0;
    }
}
fn draw_random() -> u64 {
    if rt::chance(1, 2) {
        rt::draw(1 << 20)
    } else {
        0
    }
}
/// What the random numbers start from.
pub fn random() -> u64 {
    unsafe { RANDOM }
}
pub fn thread_name() -> Option<&'static str> {
    unsafe { NAME }
}
/// A copy of `b` in a place of its own, with nothing mapped behind its last page.
#[allow(static_mut_refs)]
pub fn place(b: &[u8]) -> &'static [u8] {
    unsafe {
        let was = crate::seam::bypass(true);
        let at = *WHERE.get_or_insert(0);
        let pages = (at.max(1) - 1 + b.len()).div_ceil(PAGE).max(1);
        let out = if PLACES >= 3000 || pages > 1 << 14 {
            &*Box::leak(b.to_vec().into_boxed_slice())
        } else {
            // MAP_FIXED_NOREPLACE | MAP_PRIVATE | MAP_ANONYMOUS
            let r = sys::raw_syscall(9, NEXT, pages * PAGE, sys::PROT_RW as usize, 0x10_0022, usize::MAX, 0);
            if r != NEXT as isize {
                rt::harness_error("no memory where inputs are placed");
            }
            PLACES += 1;
            let p = match at {
                0 => NEXT,
                1 => NEXT + pages * PAGE - b.len(),
                k => NEXT + k - 1,
            } as *mut u8;
            NEXT += (pages + 1) * PAGE;
            if at == 1 {
                rt::count(C::probe_input_before_a_gap);
            }
            core::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            core::slice::from_raw_parts(p, b.len())
        };
        crate::seam::bypass(was);
        out
    }
}

/// Interposes libc's getenv for the code under test.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const core::ffi::c_char) -> *const core::ffi::c_char {
    let n = CStr::from_ptr(name).to_bytes();
    if crate::seam::is_task() && crate::seam::is_real() {
        // what the runtime asks for is not the library's
        if n == b"RUST_MIN_STACK" {
            return core::ptr::null();
        }
        return match ENV {
            Some(v) => v.as_ptr(),
            None => core::ptr::null(),
        };
    }
    extern "C" {
        static environ: *const *const core::ffi::c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && s[n.len()] == b'=' && s.starts_with(n) {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    core::ptr::null()
}
