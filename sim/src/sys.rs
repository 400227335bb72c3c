//! The few libc entry points the harness itself needs (no dependency on the libc crate).
#![allow(non_camel_case_types)]
pub type c_int = i32;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct timespec {
    pub tv_sec: i64,
    pub tv_nsec: i64,
}
#[repr(C)]
pub struct rlimit {
    pub cur: u64,
    pub max: u64,
}
extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(addr: *mut u8, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    pub fn munmap(addr: *mut u8, len: usize) -> c_int;
    pub fn alarm(secs: u32) -> u32;
    pub fn setrlimit(res: c_int, r: *const rlimit) -> c_int;
    pub fn memfd_create(name: *const u8, flags: u32) -> c_int;
    pub fn ftruncate(fd: c_int, len: i64) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn open(path: *const u8, flags: c_int, ...) -> c_int;
    pub fn wait4(pid: c_int, st: *mut c_int, opt: c_int, ru: *mut i64) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn __errno_location() -> *mut c_int;
    pub fn usleep(us: u32) -> c_int;
}
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const RLIMIT_CPU: c_int = 0;
pub const RLIMIT_CORE: c_int = 4;
pub const WNOHANG: c_int = 1;

/// A system call made directly, bypassing every interposed libc symbol.
#[inline(always)]
pub unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn exited(st: c_int) -> Option<c_int> {
    if st & 0x7f == 0 {
        Some((st >> 8) & 0xff)
    } else {
        None
    }
}
pub fn signaled(st: c_int) -> Option<c_int> {
    let s = st & 0x7f;
    if s != 0 && s != 0x7f {
        Some(s)
    } else {
        None
    }
}
