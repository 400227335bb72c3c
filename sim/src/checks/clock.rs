//! C15, C16: the wall clock, and decisions made by it.
use super::*;
use crate::model::*;
use crate::refdec;
use crate::sched::{self, must, Point};
use crate::seam;
use rx509::der::UtcTime;
use rx509::x509::Certificate;

const STACK: usize = 256 << 10;

/// The world sets the clock; what happened is counted by kind.
fn move_clock(to: i64, nsec: i64) {
    let c = seam::clock();
    let from = c.sec;
    if to < from {
        fault(C::fault_clock_backward_jump);
    } else {
        fault(C::fault_clock_forward_jump);
    }
    if to < 0 {
        fault(C::fault_clock_before_epoch);
    }
    if to > 1 << 33 {
        fault(C::fault_clock_far_future);
    }
    rt::mix(to as u64);
    rt::mix(nsec as u64);
    // elapsed time goes on whatever the wall clock is made to show
    c.mono_ns += 1_000 + draw(1_000_000_000);
    rt::shm().simtime_ns = rt::shm().simtime_ns.saturating_add(((to as i128 - from as i128).unsigned_abs().min(1 << 33) as u64).saturating_mul(1_000_000_000));
    trace!("  wall clock jumps from {} to {}.{:09}", from, to, nsec);
    seam::set_clock(to, nsec);
}
fn nanos() -> i64 {
    match draw(4) {
        0 => 0,
        1 => 999_999_999,
        2 => 1,
        _ => draw(1_000_000_000) as i64,
    }
}
fn any_second() -> i64 {
    match draw(7) {
        0 => 1_000_000_000 + draw(1_000_000_000) as i64,
        1 => *pick(&[0i64, 1, -1, -2, 59, 60, 86399, 86400]),
        2 => (1i64 << *pick(&[31u32, 32, 33, 40, 50, 53, 55])) + draw(5) as i64 - 2,
        3 => *pick(&[253402300799i64, 253402300800, 2524607999, 2524608000, 4102444800, 68169600, 951782400, i64::MAX, i64::MAX - 1]),
        4 => -(draw(1 << 40) as i64),
        5 => {
            // a nearby second: clocks are often stepped by little
            let c = seam::clock().sec;
            c.saturating_add(draw(7) as i64 - 3)
        }
        _ => draw(1 << 34) as i64,
    }
}
fn jump() {
    let s = any_second();
    move_clock(s, nanos());
}
/// The world moves time while the reader is inside the call.
fn jump_in_call() {
    if chance(1, 4) {
        rt::count(C::probe_clock_changed_during_call);
        trace!("  the clock moves while it is being read");
        jump();
    }
}
fn first_clock() {
    let s = any_second();
    let n = nanos();
    seam::clock().sec = s;
    seam::clock().nsec = n;
    seam::clock().shown.clear();
    seam::set_clock(s, n);
    if s < 0 {
        fault(C::fault_clock_before_epoch);
    }
    rt::mix(s as u64);
    trace!("wall clock starts at {}.{:09}", s, n);
}
fn shown_now() -> usize {
    seam::clock().shown.len() - 1
}
/// Asks for the time and holds the answer against every value the clock showed during the call.
/// Returns the instant, if there is one.
fn ask() -> Option<UtcTime> {
    let from = shown_now();
    let r = must("asking for the current time", || UtcTime::now().map_err(|e| format!("{:?} {}", e, e)));
    let vals: Vec<(i64, i64)> = seam::clock().shown[from..].to_vec();
    rt::mix(r.as_ref().map(|t| t.value).unwrap_or(u64::MAX));
    trace!("asked for the time: {:?}", r.as_ref().map(|t| t.value));
    match r {
        Ok(t) => {
            if !vals.iter().any(|(s, _)| *s >= 0 && *s as u64 == t.value) {
                rt::violate("time-wrong", &format!("the clock showed {:?} during the call, the answer is {}", vals, t.value));
            }
            Some(t)
        }
        Err(e) => {
            if !vals.iter().any(|(s, _)| *s < 0) {
                rt::violate("time-refused", &format!("the clock showed {:?} during the call, the answer is the error {}", vals, e));
            }
            rt::count(C::probe_clock_error_reported);
            None
        }
    }
}
/// The clock's own task: it steps time while the others are at work.
fn world(moves: u64, targets: &'static [i64]) -> Box<dyn FnOnce() + Send> {
    Box::new(move || {
        for _ in 0..moves {
            sched::point(Point::Op);
            if targets.is_empty() || chance(1, 3) {
                jump();
            } else {
                let t = *pick(targets);
                fault(C::fault_clock_edge);
                move_clock(t, nanos());
            }
        }
    })
}
pub fn c15() {
    first_clock();
    rt::nontrivial();
    let askers = range(1, 3);
    let moving = chance(1, 2);
    if chance(1, 3) {
        seam::clock().on_read = Some(jump_in_call);
    }
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..askers {
        let n = range(1, 6);
        tasks.push(Box::new(move || {
            for _ in 0..n {
                sched::point(Point::Op);
                if !moving || chance(1, 2) {
                    jump();
                }
                let _ = ask();
            }
        }));
    }
    if moving {
        tasks.push(world(range(1, 12), &[]));
    }
    let p = *pick(&[96u64, 32, 200]);
    sched::run_tasks(tasks, STACK, p, p / 4);
}

/// A stored certificate with validity `a`..`b`, its bytes, and the instants it names.
struct Dated {
    bytes: &'static [u8],
    /// what the reference reads, if the file is well-formed; instants may lie before 1970
    times: Option<[i64; 2]>,
    must_accept: bool,
}
/// The instant a time element names: two-digit years are 1950-2049; None if it is malformed.
fn instant(id: u8, c: &[u8]) -> Option<i64> {
    let digits = if id == 0x17 { 12 } else { 14 };
    if c.len() != digits + 1 || c[digits] != b'Z' || !c[..digits].iter().all(|x| x.is_ascii_digit()) {
        return None;
    }
    let num = |a: usize, n: usize| c[a..a + n].iter().fold(0i64, |v, x| v * 10 + (x - b'0') as i64);
    let (y, k) = if id == 0x17 {
        let yy = num(0, 2);
        (if yy >= 50 { 1900 + yy } else { 2000 + yy }, 2)
    } else {
        (num(0, 4), 4)
    };
    let (mo, d, h, mi, s) = (num(k, 2), num(k + 2, 2), num(k + 4, 2), num(k + 6, 2), num(k + 8, 2));
    if !(1..=12).contains(&mo) || d < 1 || d > month_len(y, mo) || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    Some(civil_secs(y, mo, d, h, mi, s))
}
fn dated() -> Dated {
    let g = gen_cert(&GenCfg { size: 0, uids: false, unknown: false });
    let mut tree = g.tree;
    // sometimes: two instants close together, in order, or the same instant twice
    let mut old_years = false;
    match draw(5) {
        0 | 1 => {
            let gz = chance(1, 2);
            let (y, m, d, hh, mm, ss) = gen_civil(gz);
            *tree.find_mut(Role::Time(0)).unwrap() = time_node(Role::Time(0), y, m, d, hh, mm, ss, gz);
            let (y2, m2, d2) = match draw(3) {
                0 => (y, m, d),
                1 => (y, 12, 31),
                _ => (if gz { (y + draw(30) as i64).min(9999) } else { (y + draw(30) as i64).min(2049) }, 12, 31),
            };
            *tree.find_mut(Role::Time(1)).unwrap() = time_node(Role::Time(1), y2, m2, d2, 23, 59, 59, gz);
        }
        2 => {
            // two-digit years that mean 1950-1969
            let i = draw(2) as u8;
            let y = 1950 + draw(20) as i64;
            *tree.find_mut(Role::Time(i)).unwrap() = time_node(Role::Time(i), y, 1 + draw(12) as i64, 1 + draw(28) as i64, draw(24) as i64, 0, 0, false);
            old_years = true;
        }
        _ => {}
    }
    let mut damaged = false;
    if chance(1, 4) {
        // the medium damages one of the time values
        let i = draw(2) as u8;
        let n = tree.find_mut(Role::Time(i)).unwrap();
        let k = draw(n.pre.len() as u64) as usize;
        n.pre[k] = if chance(1, 2) { b'0' + draw(10) as u8 } else { n.pre[k] ^ (1 << draw(8)) };
        fault(C::fault_byte_damage);
        damaged = true;
    }
    let mut times = [None, None];
    for i in 0..2u8 {
        let n = tree.find_mut(Role::Time(i)).unwrap();
        times[i as usize] = instant(n.tag, &n.content());
    }
    let bytes = leak(tree.bytes());
    let times = match times {
        [Some(a), Some(b)] => Some([a, b]),
        _ => None,
    };
    let must_accept = !damaged && !old_years && times.is_some();
    if must_accept && refdec::cert(bytes).is_err() {
        rt::harness_error("the reference refuses a generated certificate");
    }
    Dated { bytes, times, must_accept }
}
fn decide(c: &Certificate, t: [i64; 2], now: UtcTime, b: &[u8]) {
    rt::count(C::validity_decisions);
    let got = must("the validity decision", || c.tbs_certificate.value.validity.is_valid(now));
    let n = now.value as i128;
    let want = t[0] as i128 <= n && n <= t[1] as i128;
    rt::mix(got as u64);
    if n == t[0] as i128 || n == t[1] as i128 {
        rt::count(C::probe_exact_edge);
    }
    rt::count(if want {
        C::probe_valid_instant
    } else if n < t[0] as i128 {
        C::probe_not_yet_valid
    } else {
        C::probe_expired
    });
    trace!("at {}: valid = {} (from {} to {})", now.value, got, t[0], t[1]);
    if got != want {
        rt::violate("validity-wrong", &format!("at {} a certificate written for {}..{} is declared {}; file {}", now.value, t[0], t[1], if got { "valid" } else { "not valid" }, show(b)));
    }
}
pub fn c16() {
    let certs: Vec<Dated> = (0..range(1, 3)).map(|_| dated()).collect();
    let mut targets = Vec::new();
    for c in &certs {
        rt::mix_bytes(c.bytes);
        trace!("certificate {} naming {:?}", show(c.bytes), c.times);
        if let Some(t) = c.times {
            for x in t {
                for d in [-1i64, 0, 1] {
                    targets.push(x + d);
                }
                targets.push(x + 86400);
                targets.push(x - 86400);
                // where a mistaken century or sign would put it
                targets.push(x + 3155760000);
                targets.push(x - 3155760000);
                targets.push(x & 0xffff_ffff);
            }
            targets.push(t[0] + (t[1] - t[0]) / 2);
        }
    }
    let certs: &'static [Dated] = Box::leak(certs.into_boxed_slice());
    let targets: &'static [i64] = Box::leak(targets.into_boxed_slice());
    first_clock();
    let tasks_n = range(1, 3);
    let share = order::shareable();
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    // decoded once, and asked many times, possibly from several tasks
    let mut shared = Vec::new();
    for c in certs {
        let p = std::panic::catch_unwind(|| Certificate::parse(c.bytes).ok().map(|c| &*Box::leak(Box::new(c))));
        match p {
            Ok(Some(x)) => {
                let Some(_) = c.times else {
                    rt::violate("malformed-time-accepted", &format!("no instant is named by one of its times; file {}", show(c.bytes)));
                };
                rt::nontrivial();
                shared.push(Some(order::Shared(x)));
            }
            Ok(None) => {
                if c.must_accept {
                    rt::violate("valid-time-refused", &format!("the certificate is well-formed; file {}", show(c.bytes)));
                }
                rt::count(C::probe_refused);
                shared.push(None);
            }
            Err(_) => {
                let (m, l) = rt::take_panic();
                rt::violate("panic", &format!("decoding panicked at {}: {}; file {}", l, m, show(c.bytes)));
            }
        }
    }
    let shared: &'static [Option<order::Shared>] = Box::leak(shared.into_boxed_slice());
    for ti in 0..tasks_n {
        let n = range(1, 10);
        tasks.push(Box::new(move || {
            for _ in 0..n {
                sched::point(Point::Op);
                let i = draw(certs.len() as u64) as usize;
                let (Some(sh), Some(t)) = (&shared[i], certs[i].times) else { continue };
                let own;
                let c: &Certificate = if (share || ti == 0) && !chance(1, 4) {
                    sh.get()
                } else {
                    own = must("decoding", || Certificate::parse(certs[i].bytes).ok());
                    match &own {
                        Some(c) => c,
                        None => rt::violate("valid-time-refused", &format!("accepted first, refused now; file {}", show(certs[i].bytes))),
                    }
                };
                if !targets.is_empty() && chance(1, 2) {
                    let s = *pick(targets);
                    fault(C::fault_clock_edge);
                    move_clock(s, nanos());
                }
                for _ in 0..range(1, 3) {
                    if let Some(now) = ask() {
                        decide(c, t, now, certs[i].bytes);
                    }
                    if chance(1, 2) && !targets.is_empty() {
                        let s = *pick(targets);
                        if s >= 0 {
                            decide(c, t, UtcTime::from_seconds_since_epoch(s as u64), certs[i].bytes);
                        }
                    }
                    if chance(1, 6) {
                        // any moment at all that can be named
                        let base = *pick(&[0u64, 1 << 31, 1 << 32, 1 << 33, 1 << 63, u64::MAX, 253402300800, t[0] as u64, t[1] as u64]);
                        let s = base.wrapping_add(*pick(&[0u64, 1, u64::MAX, 1 << 31, 1 << 32, 1 << 63, u64::MAX << 32, u64::MAX << 31]));
                        decide(c, t, UtcTime::from_seconds_since_epoch(s), certs[i].bytes);
                    }
                }
            }
        }));
    }
    tasks.push(world(range(0, 8), targets));
    let p = *pick(&[64u64, 16, 200]);
    sched::run_tasks(tasks, STACK, p, p / 4);
}
