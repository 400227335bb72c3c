//! Run control: the choice source, the trace, counters and the verdict of one simulated run.
//!
//! Everything a run decides is drawn from one sequence of choices. In a search run the choices
//! come from a PRNG seeded by (VERIF_SEED, property, run index); in a replay they come from a
//! recorded list. The run is a pure function of that sequence and of the code.
use crate::sys;
use std::cell::Cell;

pub const MAXC: usize = 1 << 19;
pub const NCOUNT: usize = 192;
pub const TRACE_CAP: usize = 1 << 20;

#[repr(C)]
pub struct Shm {
    pub status: u32, // see ST_*
    pub verbose: u32,
    pub rng: u64,
    pub replaying: u64,
    pub nreplay: u64,
    pub nchoice: u64,
    pub hash: u64,
    pub nontrivial: u64,
    pub simtime_ns: u64,
    pub steps: u64,
    pub msg_len: u64,
    pub trace_len: u64,
    pub trace_total: u64,
    pub aux_len: u64,
    pub finding_len: u64,
    pub finding: [u8; 2048],
    pub msg: [u8; 4096],
    pub counters: [u64; NCOUNT],
    pub replay: [u64; MAXC],
    pub choices: [u64; MAXC],
    pub trace: [u8; TRACE_CAP],
    pub aux: [u8; 1 << 20],
    /// blocks of rx509 executed; not reset between runs
    pub cover: [u8; crate::fine::MAX_BLOCKS],
}
pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;
pub const ST_SUSPECT: u32 = 4;

static mut SHM: *mut Shm = core::ptr::null_mut();

pub fn new_shm() -> *mut Shm {
    let p = unsafe {
        sys::mmap(core::ptr::null_mut(), core::mem::size_of::<Shm>(), sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON | sys::MAP_NORESERVE, -1, 0)
    };
    assert!(p as isize > 0, "mmap of the run block failed");
    p as *mut Shm
}
pub fn attach(p: *mut Shm) {
    unsafe { SHM = p }
}
#[allow(static_mut_refs)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
#[inline]
pub fn cover(i: usize) {
    unsafe {
        if !SHM.is_null() && i < crate::fine::MAX_BLOCKS {
            *(&raw mut (*SHM).cover[i]) = 1;
        }
    }
}
pub fn reset(seed: u64, replay: Option<&[u64]>, verbose: bool) {
    let s = shm();
    s.status = ST_RUNNING;
    s.verbose = verbose as u32;
    s.rng = seed;
    s.nchoice = 0;
    s.hash = 0xcbf29ce484222325;
    s.nontrivial = 0;
    s.steps = 0;
    s.msg_len = 0;
    s.trace_len = 0;
    s.trace_total = 0;
    s.aux_len = 0;
    s.finding_len = 0;
    match replay {
        Some(r) => {
            s.replaying = 1;
            let n = r.len().min(MAXC);
            s.replay[..n].copy_from_slice(&r[..n]);
            s.nreplay = n as u64;
        }
        None => {
            s.replaying = 0;
            s.nreplay = 0;
        }
    }
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// One choice in `0..n`. Zero is always the plainest alternative.
pub fn draw(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let s = shm();
    let i = s.nchoice as usize;
    let v = if s.replaying != 0 {
        if i < s.nreplay as usize {
            s.replay[i].min(n - 1)
        } else {
            0
        }
    } else {
        splitmix(&mut s.rng) % n
    };
    if i < MAXC {
        s.choices[i] = v;
        s.nchoice += 1;
    }
    v
}
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}
/// True with probability num/den; the plainest alternative is false.
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}
pub fn pick<T>(xs: &[T]) -> &T {
    &xs[draw(xs.len() as u64) as usize]
}
/// `n` bytes expanded from a single choice (zero gives a fixed readable pattern).
pub fn bytes(n: usize) -> Vec<u8> {
    let mut s = draw(1 << 32);
    if s == 0 {
        return (0..n).map(|i| (i as u8) % 100 + 1).collect();
    }
    let shape = if s % 6 == 5 { s >> 8 } else { u64::MAX };
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let x = splitmix(&mut s).to_le_bytes();
        let k = (n - v.len()).min(8);
        v.extend_from_slice(&x[..k]);
    }
    if shape != u64::MAX && n > 0 {
        meaningful(&mut v, shape);
    }
    v
}
/// Bytes a reader may see a meaning in.
fn meaningful(v: &mut [u8], shape: u64) {
    let n = v.len();
    let part = 1 + (shape >> 8) as usize % n;
    match shape % 14 {
        0 => v.fill(0),
        1 => v.fill(0xff),
        2 => v[..part].fill(0),
        3 => v[..part].fill(0xff),
        4 => v[n - part..].fill(0),
        5 => v[n - part..].fill(0xff),
        6 => v.iter_mut().for_each(|b| *b = b'0' + *b % 10),
        7 => v.iter_mut().for_each(|b| *b = b' ' + *b % 95),
        // a short pattern again and again
        8 => (4.min(n)..n).for_each(|i| v[i] = v[i - 4]),
        9 => (1..n).for_each(|i| v[i] = v[0]),
        // an element that takes up exactly these bytes
        10 | 11 if n >= 2 && n < 0x82 => {
            v[0] = [0x30, 2, 3, 4, 0x0c, 5, 6, 0x31][(shape >> 8) as usize % 8];
            v[1] = (n - 2) as u8;
        }
        10 | 11 if (0x83..0x103).contains(&n) => {
            v[..3].copy_from_slice(&[0x30, 0x81, (n - 3) as u8]);
        }
        10 | 11 if (0x104..=0x10003).contains(&n) => {
            v[..4].copy_from_slice(&[0x30, 0x82, ((n - 4) >> 8) as u8, (n - 4) as u8]);
        }
        // an IPv4 address as an IPv6 one; other addresses with a meaning
        12 if n == 16 => {
            v[..10].fill(0);
            v[10..12].fill(if shape & 256 == 0 { 0xff } else { 0 });
        }
        12 if n == 4 => v.copy_from_slice(&[[127, 0, 0, 1], [0, 0, 0, 0], [10, 0, 0, 1], [255, 255, 255, 0], [192, 168, 1, 1], [169, 254, 0, 1]][(shape >> 8) as usize % 6]),
        // a point on a curve, a marker of some format
        12 | 13 => v[0] = [4, 2, 3, 0xef, 0xfe, 0x1f, 0x7f, b'-', b'#', 0x80, 1][(shape >> 8) as usize % 11],
        _ => {
            v.fill(0);
            v[n - 1] = 1;
        }
    }
}

/// Mixes a value into the identity of this run (its schedule, faults and outcomes).
pub fn mix(x: u64) {
    let s = shm();
    s.hash = (s.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
}
pub fn mix_bytes(b: &[u8]) {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h);
    mix(b.len() as u64);
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn verbose() -> bool {
    shm().verbose != 0
}
pub fn trace_line(a: core::fmt::Arguments) {
    let s = shm();
    if s.verbose == 0 {
        return;
    }
    let t = format!("{}\n", a);
    s.trace_total += 1;
    let l = s.trace_len as usize;
    if l + t.len() <= TRACE_CAP {
        s.trace[l..l + t.len()].copy_from_slice(t.as_bytes());
        s.trace_len += t.len() as u64;
    }
}
#[macro_export]
macro_rules! trace {
    ($($a:tt)*) => { if $crate::rt::verbose() { $crate::rt::trace_line(format_args!($($a)*)) } };
}
pub fn nontrivial() {
    shm().nontrivial = 1;
}
fn put_msg(m: &str) {
    let s = shm();
    let b = m.as_bytes();
    let n = b.len().min(s.msg.len());
    s.msg[..n].copy_from_slice(&b[..n]);
    s.msg_len = n as u64;
}
/// Ends the run: the property is broken. `class` groups violations for minimisation.
pub fn violate(class: &str, detail: &str) -> ! {
    crate::seam::bypass(true);
    put_msg(&format!("{}: {}", class, detail));
    shm().status = ST_VIOLATION;
    unsafe { sys::_exit(10) }
}
/// Ends the run: an outcome that has to be compared with a fresh process (see C06).
pub fn suspect(class: &str, detail: &str, aux: &[u8]) -> ! {
    crate::seam::bypass(true);
    put_msg(&format!("{}: {}", class, detail));
    let s = shm();
    let n = aux.len().min(s.aux.len());
    s.aux[..n].copy_from_slice(&aux[..n]);
    s.aux_len = n as u64;
    s.status = ST_SUSPECT;
    unsafe { sys::_exit(12) }
}
/// Leaves a note of what is being executed, for a judgement if the process dies in it.
pub fn note_aux(aux: &[u8]) {
    let s = shm();
    let n = aux.len().min(s.aux.len());
    s.aux[..n].copy_from_slice(&aux[..n]);
    s.aux_len = n as u64;
}
/// Ends the run: the harness itself is wrong. Never reported as a violation.
pub fn harness_error(detail: &str) -> ! {
    crate::seam::bypass(true);
    put_msg(detail);
    shm().status = ST_HARNESS;
    unsafe { sys::_exit(11) }
}

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum C { $($n),* , _END }
        pub const COUNTER_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
counters! {
    // faults that actually fired: simulated disk
    fault_bit_flip, fault_byte_damage, fault_truncated, fault_torn_sector, fault_lost_sector, fault_duplicated_sector,
    fault_misdirected_sector, fault_stale_residue, fault_spliced, fault_carried, probe_input_before_a_gap, probe_console_reports, probe_parade, fault_console_abandoned, fault_console_interrupted, fault_console_short, probe_odd_sampled, fault_struct_cut, fault_struct_residue, fault_length_lie,
    fault_tag_damage, fault_element_dropped, fault_element_repeated, fault_element_swapped, fault_nest_bomb, fault_degenerate_content,
    // receivers and sinks
    fault_receiver_abandons, fault_sink_abandons, fault_reentry, fault_buffer_recycled, fault_preemption, fault_preemption_inside, fault_failed_decode_before,
    // clock
    fault_clock_forward_jump, fault_clock_backward_jump, fault_clock_before_epoch, fault_clock_far_future, fault_clock_edge,
    // tool: file
    fault_open_error, fault_open_eintr, fault_read_error, fault_read_eintr, fault_short_read, fault_size_lie, fault_stat_error, fault_seek_error,
    // tool: output
    fault_write_error, fault_write_eintr, fault_short_write, fault_write_zero, fault_stderr_error, fault_stderr_short, fault_file_replaced, fault_odd_surroundings, fault_slow_calls, fault_clock_set,
    // memory
    fault_alloc_refused, fault_alloc_quota,
    // probes
    probe_accepted, probe_refused, probe_accepted_after_damage, probe_names_refused, probe_exts_refused, probe_exts_decoded,
    probe_walk_ok, probe_walk_error, probe_deep_nest, probe_long_history, probe_wide_history, probe_long_list, probe_duel, probe_marathon, probe_other_report, probe_huge_element, probe_bits_iterated, probe_all_tasks_blocked,
    probe_visible_damage, probe_invisible_damage, probe_decode_fails_on_damage, probe_struct_refused, probe_params_present, probe_params_reassembled,
    probe_valid_instant, probe_not_yet_valid, probe_expired, probe_exact_edge, probe_clock_error_reported, probe_clock_changed_during_call,
    probe_tool_full_report, probe_tool_refused, probe_tool_failed_exit, probe_tool_abort, probe_tool_usage_error, probe_tool_large_file,
    probe_tool_partial_output, probe_tool_error_at_eof, probe_tool_raw_section, probe_report_flagged, probe_report_raw, probe_prefix_nonempty,
    probe_suspect_cleared, probe_max_alloc_seen, probe_every_ext_kind, probe_indefinite, probe_shared_cert_ops, probe_real_alloc_failed_run,
    // volume
    ops, walks, cert_decodes, reports, tool_runs, clock_queries, validity_decisions, sched_points, sched_switches, io_calls, allocs_seen, bytes_decoded,
    tool_alloc_points, fresh_process_judgements, work_steps, probe_max_steps_per_byte, probe_max_moved_per_byte, probe_max_asked_per_byte, probe_max_growth_tenths, probe_swap_old, probe_swap_new, probe_max_kept, probe_max_cpu_ms,
}
pub fn count(c: C) {
    shm().counters[c as usize] += 1;
}
pub fn add(c: C, n: u64) {
    shm().counters[c as usize] += n;
}
pub fn add_max(c: C, n: u64) {
    let x = &mut shm().counters[c as usize];
    *x = (*x).max(n);
}
/// A violation that may be one of the recorded findings: the run goes on, the coordinator decides.
pub fn finding(id: &str, detail: &str) {
    let s = shm();
    if s.finding_len == 0 {
        let t = format!("{}\n{}", id, detail);
        let b = t.as_bytes();
        let n = b.len().min(s.finding.len());
        s.finding[..n].copy_from_slice(&b[..n]);
        s.finding_len = n as u64;
    }
    trace!("finding {}: {}", id, detail);
}
/// A fault that fired: counted, mixed into the run's identity, and makes the run non-trivial.
pub fn fault(c: C) {
    count(c);
    mix(0xFA00 + c as u64);
    nontrivial();
    trace!("  fault {}", COUNTER_NAMES[c as usize]);
}

thread_local! {
    pub static LAST_PANIC: Cell<Option<Box<(String, String)>>> = const { Cell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = crate::seam::bypass(true);
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if loc.starts_with("src/") || loc.contains("/verif/sim/src/") {
            if unsafe { !SHM.is_null() } {
                harness_error(&format!("harness panic at {}: {}", loc, msg));
            }
            eprintln!("harness panic at {}: {}", loc, msg);
        }
        LAST_PANIC.with(|p| p.set(Some(Box::new((msg, loc)))));
        crate::seam::bypass(was);
    }));
}
pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.take()).map(|b| *b).unwrap_or(("panic".into(), "?".into()))
}
