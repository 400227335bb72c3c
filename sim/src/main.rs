//! Deterministic simulation of rx509 and the decoder tool. See /verif/DESIGN.md.
//!
//! `rasnsim check ID quick|thorough`   searches; writes evidence/ID.json
//! `rasnsim replay FILE`               re-executes a recorded violation
//! `rasnsim determinism [N]`           executes N runs of every property twice and compares
//! `rasnsim run ID INDEX`              one run, with its trace
mod around;
mod checks;
mod der;
mod disk;
mod fine;
mod model;
mod real;
mod refdec;
mod report;
mod rt;
mod sched;
mod seam;
mod sys;

use rt::{shm, Shm, C, COUNTER_NAMES, NCOUNT};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Instant;

const WORKERS: usize = 8;

#[derive(Clone, Debug)]
enum Outcome {
    Ok,
    Violation { class: String, detail: String },
    Harness(String),
}
fn split(m: &str) -> (String, String) {
    match m.find(": ") {
        Some(i) => (m[..i].to_string(), m[i + 2..].to_string()),
        None => (m.to_string(), String::new()),
    }
}
fn quiet_std() {
    unsafe {
        let fd = sys::open(b"/dev/null\0".as_ptr(), 1);
        sys::dup2(fd, 1);
        sys::dup2(fd, 2);
    }
}
enum End {
    Code(i32),
    Signal(i32),
}
/// Executes `f` in a forked process with bounded CPU and wall time.
fn in_child(f: impl FnOnce()) -> End {
    unsafe {
        let pid = sys::fork();
        if pid < 0 {
            return End::Code(-1);
        }
        if pid == 0 {
            let r = sys::rlimit { cur: 40, max: 125 };
            sys::setrlimit(sys::RLIMIT_CPU, &r);
            let r = sys::rlimit { cur: 0, max: 0 };
            sys::setrlimit(sys::RLIMIT_CORE, &r);
            sys::alarm(180);
            quiet_std();
            rt::install_panic_hook();
            f();
            shm().status = rt::ST_OK;
            sys::_exit(0);
        }
        let mut st = 0;
        loop {
            // struct rusage: two struct timeval (user, system), then fourteen numbers
            let mut ru = [0i64; 18];
            let r = sys::wait4(pid, &mut st, 0, ru.as_mut_ptr());
            if r == pid {
                rt::add_max(rt::C::probe_max_cpu_ms, ((ru[0] + ru[2]) * 1000 + (ru[1] + ru[3]) / 1000) as u64);
                break;
            }
            if r < 0 && *sys::__errno_location() != 4 {
                return End::Code(-1);
            }
        }
        match (sys::exited(st), sys::signaled(st)) {
            (Some(c), _) => End::Code(c),
            (_, Some(s)) => End::Signal(s),
            _ => End::Code(-1),
        }
    }
}
fn message() -> String {
    let s = shm();
    String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned()
}
fn sig_name(s: i32) -> &'static str {
    match s {
        6 => "SIGABRT",
        7 => "SIGBUS",
        11 => "SIGSEGV",
        14 => "SIGALRM",
        24 => "SIGXCPU",
        4 => "SIGILL",
        8 => "SIGFPE",
        9 => "SIGKILL",
        _ => "a signal",
    }
}
/// Runs that take longer than this are named, for whoever looks after the harness.
fn slow_ms() -> u128 {
    static MS: std::sync::OnceLock<u128> = std::sync::OnceLock::new();
    *MS.get_or_init(|| std::env::var("RASNSIM_SLOW_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(u128::MAX))
}
/// One simulated run, in a process of its own; its verdict.
fn run(prop: &str, index: u64, seed: u64, replay: Option<&[u64]>, verbose: bool) -> Outcome {
    rt::reset(seed, replay, verbose);
    let t0 = std::time::Instant::now();
    let end = in_child(|| checks::run(prop, index));
    if t0.elapsed().as_millis() > slow_ms() {
        eprintln!("slow: {} {} took {:?}", prop, index, t0.elapsed());
    }
    let status = shm().status;
    match end {
        End::Code(0) if status == rt::ST_OK => {
            let s = shm();
            if s.finding_len > 0 {
                let t = String::from_utf8_lossy(&s.finding[..s.finding_len as usize]).into_owned();
                let (id, detail) = t.split_once('\n').unwrap_or((&t, ""));
                if !known(prop).iter().any(|(k, _)| *k == id) {
                    return Outcome::Violation { class: id.to_string(), detail: detail.to_string() };
                }
            }
            Outcome::Ok
        }
        End::Code(10) if status == rt::ST_VIOLATION => {
            let (class, detail) = split(&message());
            Outcome::Violation { class, detail }
        }
        End::Code(12) if status == rt::ST_SUSPECT => {
            let first = message();
            judge(&first)
        }
        End::Code(11) => Outcome::Harness(message()),
        End::Code(c) => {
            if c < 0 {
                Outcome::Harness("fork or wait failed".into())
            } else {
                Outcome::Violation { class: "process-exit".into(), detail: format!("the process exited with status {} inside the code under test", c) }
            }
        }
        End::Signal(9) => Outcome::Harness("a run was killed (out of memory?)".into()),
        End::Signal(s @ (24 | 14)) => {
            if prop == "C06" && shm().aux_len > 0 {
                return judge("the process does not finish");
            }
            Outcome::Violation { class: "never-finishes".into(), detail: format!("the run did not end ({})", sig_name(s)) }
        }
        End::Signal(s) => {
            if prop == "C06" && shm().aux_len > 0 {
                return judge(&format!("the process dies of {}", sig_name(s)));
            }
            Outcome::Violation { class: "crash".into(), detail: format!("the process died of {} inside the code under test", sig_name(s)) }
        }
    }
}
/// What was seen after a history is wrong only if a fresh process shows something else.
fn judge(first: &str) -> Outcome {
    let s = shm();
    let aux = s.aux[..s.aux_len as usize].to_vec();
    let crashed = aux.get(3) == Some(&0);
    let (n, h) = (s.nchoice, s.hash);
    s.counters[C::fresh_process_judgements as usize] += 1;
    s.status = rt::ST_RUNNING;
    let a2 = aux.clone();
    let end = in_child(move || checks::order::judge(&a2));
    let s = shm();
    let status = s.status;
    let m = message();
    s.nchoice = n;
    s.hash = h;
    let (_, what) = split(first);
    match end {
        End::Code(0) if status == rt::ST_OK => {
            s.counters[C::probe_suspect_cleared as usize] += 1;
            Outcome::Ok
        }
        End::Code(10) if status == rt::ST_VIOLATION => Outcome::Violation { class: "depends-on-history".into(), detail: format!("{} - {}", if what.is_empty() { first } else { &what }, split(&m).1) },
        End::Signal(9) | End::Code(11) => Outcome::Harness(m),
        _ if crashed => {
            s.counters[C::probe_suspect_cleared as usize] += 1;
            Outcome::Ok
        }
        _ => Outcome::Violation { class: "depends-on-history".into(), detail: format!("{} - a fresh process dies instead", what) },
    }
}
fn root() -> PathBuf {
    std::env::var_os("RASNSIM_ROOT").map(Into::into).unwrap_or_else(|| std::env::current_dir().unwrap_or_default())
}
static mut KNOWN: Vec<(String, String, String)> = Vec::new();
#[allow(static_mut_refs)]
fn known(prop: &str) -> Vec<(&'static str, &'static str)> {
    unsafe { KNOWN.iter().filter(|k| k.0 == prop).map(|k| (k.1.as_str(), k.2.as_str())).collect() }
}
fn load_known() {
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
            let mut p = r.splitn(3, ' ');
            if let (Some(prop), Some(id), Some(what)) = (p.next(), p.next(), p.next()) {
                v.push((prop.to_string(), id.trim_start_matches("id=").to_string(), what.to_string()));
            }
        }
    }
    unsafe { KNOWN = v }
}
fn seed_of(base: u64, prop: &str, index: u64) -> u64 {
    let mut s = base ^ rt::hash_bytes(prop.as_bytes()).rotate_left(13);
    let a = rt::splitmix(&mut s);
    let mut s = a ^ index.wrapping_mul(0xD1342543DE82EF95);
    rt::splitmix(&mut s)
}

// ---- the search --------------------------------------------------------------------------------

/// What a worker leaves for the coordinator, in shared memory.
#[repr(C)]
struct Ledger {
    lowest: [u64; WORKERS], // lowest violating run index seen by that worker
    harness: [u64; WORKERS],
    done: [u64; WORKERS],
    hits: [u64; WORKERS], // runs in which a known finding showed
    nhash: [u64; WORKERS],
    steps: [u64; WORKERS],
}
fn shared<T>(n: usize) -> *mut T {
    let p = unsafe { sys::mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON | sys::MAP_NORESERVE, -1, 0) };
    assert!(p as isize > 0);
    p as *mut T
}
struct Found {
    runs: u64,
    hashes: Vec<u64>,
    counters: [u64; NCOUNT],
    covered: Vec<bool>,
    simtime_ns: u64,
    violation: Option<u64>,
    harness: Option<u64>,
    finding_ids: HashMap<String, u64>,
    wall: f64,
}
fn search(prop: &str, base: u64, total: u64, cap_s: f64) -> Found {
    let start = Instant::now();
    let led: *mut Ledger = shared::<Ledger>(1);
    let per = (total as usize).div_ceil(WORKERS) + 1;
    let hashes: *mut u64 = shared::<u64>(per * WORKERS);
    let found: *mut u8 = shared::<u8>(WORKERS * 64 * 64);
    let mut shms: Vec<*mut Shm> = Vec::new();
    unsafe {
        (*led).lowest = [u64::MAX; WORKERS];
        (*led).harness = [u64::MAX; WORKERS];
    }
    let mut pids = Vec::new();
    for w in 0..WORKERS {
        let sh = rt::new_shm();
        shms.push(sh);
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            rt::attach(sh);
            let l = unsafe { &mut *led };
            let mut ids: Vec<String> = Vec::new();
            let mut i = w as u64;
            while i < total {
                let low = (0..WORKERS).map(|k| unsafe { std::ptr::read_volatile(&(*led).lowest[k]) }).min().unwrap();
                if low < i || start.elapsed().as_secs_f64() > cap_s {
                    break;
                }
                let o = run(prop, i, seed_of(base, prop, i), None, false);
                l.done[w] += 1;
                let s = shm();
                if s.nontrivial != 0 {
                    unsafe { *hashes.add(w * per + l.nhash[w] as usize) = s.hash };
                    l.nhash[w] += 1;
                }
                if s.finding_len > 0 {
                    let t = String::from_utf8_lossy(&s.finding[..s.finding_len as usize]).into_owned();
                    let id = t.split('\n').next().unwrap_or("").to_string();
                    l.hits[w] += 1;
                    if !ids.contains(&id) && ids.len() < 64 {
                        let b = id.as_bytes();
                        let n = b.len().min(63);
                        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), found.add((w * 64 + ids.len()) * 64), n) };
                        ids.push(id);
                    }
                }
                match o {
                    Outcome::Ok => {}
                    Outcome::Violation { .. } => {
                        l.lowest[w] = i;
                        break;
                    }
                    Outcome::Harness(_) => {
                        l.harness[w] = i;
                        break;
                    }
                }
                i += WORKERS as u64;
            }
            unsafe { sys::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while sys::waitpid(p, &mut st, 0) < 0 && *sys::__errno_location() == 4 {} }
    }
    let l = unsafe { &*led };
    let mut f = Found { runs: 0, hashes: Vec::new(), counters: [0; NCOUNT], covered: vec![false; fine::MAX_BLOCKS], simtime_ns: 0, violation: None, harness: None, finding_ids: HashMap::new(), wall: 0.0 };
    for w in 0..WORKERS {
        f.runs += l.done[w];
        for k in 0..l.nhash[w] as usize {
            f.hashes.push(unsafe { *hashes.add(w * per + k) });
        }
        let s = unsafe { &*shms[w] };
        for c in 0..NCOUNT {
            if COUNTER_NAMES.get(c).map(|n| n.starts_with("probe_max")).unwrap_or(false) {
                f.counters[c] = f.counters[c].max(s.counters[c]);
            } else {
                f.counters[c] += s.counters[c];
            }
        }
        for (a, b) in f.covered.iter_mut().zip(&s.cover) {
            *a |= *b != 0;
        }
        f.simtime_ns = f.simtime_ns.saturating_add(s.simtime_ns);
        if l.lowest[w] != u64::MAX {
            f.violation = Some(f.violation.map_or(l.lowest[w], |x: u64| x.min(l.lowest[w])));
        }
        if l.harness[w] != u64::MAX {
            f.harness = Some(f.harness.map_or(l.harness[w], |x: u64| x.min(l.harness[w])));
        }
        for k in 0..64 {
            let p = unsafe { std::slice::from_raw_parts(found.add((w * 64 + k) * 64), 64) };
            let n = p.iter().position(|x| *x == 0).unwrap_or(64);
            if n > 0 {
                *f.finding_ids.entry(String::from_utf8_lossy(&p[..n]).into_owned()).or_insert(0) += 1;
            }
        }
        unsafe { sys::munmap(shms[w] as *mut u8, std::mem::size_of::<Shm>()) };
    }
    f.hashes.sort_unstable();
    f.hashes.dedup();
    f.wall = start.elapsed().as_secs_f64();
    f
}

// ---- minimisation --------------------------------------------------------------------------------

fn choices_now() -> Vec<u64> {
    let s = shm();
    s.choices[..s.nchoice as usize].to_vec()
}
/// Shortens and lowers the choices of a violating run while a violation of the same class remains.
fn minimise(prop: &str, index: u64, first: Vec<u64>, class: &str, budget_s: f64) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = first;
    let mut tries = 0u64;
    let attempt = |cand: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        match run(prop, index, 0, Some(cand), false) {
            Outcome::Violation { class: c, .. } if c == class => {
                let used = choices_now();
                // what was never drawn is not part of the schedule; trailing zeros are the default
                let mut v: Vec<u64> = used;
                while v.last() == Some(&0) {
                    v.pop();
                }
                Some(v)
            }
            _ => None,
        }
    };
    let size = |v: &[u64]| (v.len(), v.iter().filter(|x| **x != 0).count(), v.iter().fold(0u128, |a, x| a + *x as u128));
    loop {
        let before = size(&best);
        // cut the tail
        let mut cut = best.len() / 2;
        while cut > 0 && start.elapsed().as_secs_f64() < budget_s {
            let c = best[..best.len() - cut.min(best.len())].to_vec();
            match attempt(&c, &mut tries) {
                Some(v) if size(&v) < size(&best) => best = v,
                _ => cut /= 2,
            }
            cut = cut.min(best.len());
        }
        // remove or clear blocks
        for clear in [false, true] {
            let mut block = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.len() && start.elapsed().as_secs_f64() < budget_s {
                    let e = (i + block).min(best.len());
                    let mut c = best.clone();
                    if clear {
                        if c[i..e].iter().all(|x| *x == 0) {
                            i = e;
                            continue;
                        }
                        c[i..e].iter_mut().for_each(|x| *x = 0);
                    } else {
                        c.drain(i..e);
                    }
                    match attempt(&c, &mut tries) {
                        Some(v) if size(&v) < size(&best) => best = v,
                        _ => i = e,
                    }
                }
                if block == 1 || start.elapsed().as_secs_f64() >= budget_s {
                    break;
                }
                block /= 2;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && start.elapsed().as_secs_f64() < budget_s {
            let x = best[i];
            for y in [x / 2, x.saturating_sub(1)] {
                if i >= best.len() || best[i] == 0 || y >= best[i] {
                    continue;
                }
                let mut c = best.clone();
                c[i] = y;
                if let Some(v) = attempt(&c, &mut tries) {
                    if size(&v) < size(&best) {
                        best = v;
                    }
                }
            }
            i += 1;
        }
        if size(&best) >= before || start.elapsed().as_secs_f64() >= budget_s {
            break;
        }
    }
    (best, tries)
}

// ---- small JSON ------------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn trace_text() -> String {
    let s = shm();
    String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned()
}
fn json_field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let p = t.find(&format!("\"{}\":", k))?;
    Some(t[p + k.len() + 3..].trim_start())
}
fn json_str(t: &str, k: &str) -> Option<String> {
    let r = json_field(t, k)?.strip_prefix('"')?;
    let mut o = String::new();
    let mut it = r.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}
fn json_u64(t: &str, k: &str) -> Option<u64> {
    let r = json_field(t, k)?;
    let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    r[..n].parse().ok()
}
fn json_list(t: &str, k: &str) -> Option<Vec<u64>> {
    let r = json_field(t, k)?.strip_prefix('[')?;
    let e = r.find(']')?;
    r[..e].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
}

// ---- commands ----------------------------------------------------------------------------------------

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C09" | "C17" | "C19" | "C23" => "one case = one simulated run: a certificate or DER document drawn by the run's seed, written to the simulated store under seeded faults (bit, byte, truncation, torn/lost/duplicated/misdirected sector, stale residue, splice, structural rewriting, length lies, nest bombs), read back and decoded by the real library on a bounded stack. Non-trivial = at least one fault fired in it (C05 also: a complete undamaged read-back was compared). Distinct = different hash over stored bytes, schedule, faults and outcomes",
        "C06" | "C07" | "C08" | "C26" => "one case = one simulated run: 1-4 tasks on a seeded one-at-a-time scheduler decode, walk and print a drawn pool of look-alike inputs, with abandonment, re-entry, buffer reuse and failing decodes drawn in between. Non-trivial = the run reached that stage. Distinct = different hash over inputs, scheduling decisions, faults and outcomes",
        "C15" | "C16" => "one case = one simulated run: 1-3 tasks and a world task that steps the wall clock (forward, backward, before the epoch, far future, to the edges of validity), also inside the clock read. Non-trivial = time was asked for (C15) or a certificate was decoded for decision (C16). Distinct = different hash over clock values, schedule and answers",
        _ => "one case = one simulated run: one drawn file, the real decoder process executed fault-free and then under 1-6 drawn fault plans for its opens, reads, size queries, writes and memory requests. Non-trivial = at least one planned fault actually fired in a tool process. Distinct = different hash over file, every I/O call with its result, memory request count, outputs and exit status",
    }
}
fn components(prop: &str) -> (&'static str, &'static str) {
    match prop {
        "C10" | "C11" | "C12" | "C13" | "C14" | "C24" | "C25" => (
            "the decoder executable built from /repo/decoder with /repo/rx509 and the Rust standard library, as a separate process",
            "file system, output and error streams, clock, randomness, memory allocator limits (shim/simio.c in front of libc); the report expected is rendered in process from the real library",
        ),
        "C15" | "C16" => ("rx509 (UtcTime, Certificate, Validity) with the Rust standard library's SystemTime", "the wall and monotonic clocks, the thread scheduler, futexes"),
        _ => ("rx509 in full, with the Rust standard library", "the stored medium, the allocator's limits, the thread scheduler and futexes, the receivers and sinks that are handed events"),
    }
}
fn check(prop: &str, tier: &str, runs_override: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let mut total = checks::quick_runs(prop);
    if thorough {
        total *= checks::thorough_factor(prop);
    }
    if let Some(n) = runs_override {
        total = n;
    }
    if total == 0 {
        eprintln!("no such property");
        return 2;
    }
    rt::attach(rt::new_shm());
    let f = search(prop, seed, total, if thorough { 3000.0 } else { 240.0 });
    if let Some(i) = f.harness {
        if f.violation.map_or(true, |v| i < v) {
            let o = run(prop, i, seed_of(seed, prop, i), None, true);
            println!("harness error in run {} of {}: {:?}", i, prop, o);
            return 2;
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(i) = f.violation {
        // the same seed must fail again, in the same way
        let mut conf = None;
        for _ in 0..3 {
            if let Outcome::Violation { class, detail } = run(prop, i, seed_of(seed, prop, i), None, false) {
                conf = Some((class, detail));
                break;
            }
        }
        let Some((class, detail)) = conf else {
            println!("harness error: run {} of {} failed once and does not fail again", i, prop);
            return 2;
        };
        let first = choices_now();
        let nfirst = first.len();
        let slow = class == "never-finishes";
        let (min, tries) = minimise(prop, i, first.clone(), &class, if slow { 45.0 } else if thorough { 60.0 } else { 12.0 });
        let (mut mclass, mut mdetail, mut choices) = (class.clone(), detail.clone(), min);
        match run(prop, i, 0, Some(&choices), true) {
            Outcome::Violation { class: c, detail: d } if c == class => {
                mclass = c;
                mdetail = d;
            }
            _ => {
                choices = first;
                let _ = run(prop, i, 0, Some(&choices), true);
            }
        }
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-run{}.json", prop, seed, i));
        let mut j = String::new();
        let _ = writeln!(j, "{{\n\"property\": {},\n\"verif_seed\": {},\n\"run\": {},\n\"run_seed\": {},", js(prop), seed, i, seed_of(seed, prop, i));
        let _ = writeln!(j, "\"class\": {},\n\"detail\": {},", js(&mclass), js(&mdetail));
        let _ = writeln!(j, "\"choices_before_minimisation\": {},\n\"minimisation_attempts\": {},", nfirst, tries);
        let l: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(j, "\"choices\": [{}],", l.join(","));
        let tt = trace_text();
        let tl: Vec<String> = tt.lines().map(js).collect();
        let _ = writeln!(j, "\"trace\": [\n{}\n]\n}}", tl.join(",\n"));
        if let Err(e) = std::fs::write(&path, j) {
            println!("harness error: cannot write {}: {}", path.display(), e);
            return 2;
        }
        println!("{}: {}", mclass, mdetail);
        println!("VIOLATION property={} replay={}", prop, path.display());
        code = 1;
        violations = 1;
    }
    for (id, what) in known(prop) {
        if f.finding_ids.contains_key(id) {
            println!("KNOWN-FINDING: property={} {} {}", prop, id, what);
        }
    }
    // a part of the search once more: one seed has to be one execution
    let mut repeated = 0u64;
    let mut differing = 0u64;
    if code == 0 {
        let n = 48.min(total);
        for k in 0..n {
            let i = k * (total / n);
            let _ = run(prop, i, seed_of(seed, prop, i), None, false);
            let a = (shm().hash, shm().nchoice, shm().status);
            let _ = run(prop, i, seed_of(seed, prop, i), None, true);
            repeated += 1;
            if a != (shm().hash, shm().nchoice, shm().status) {
                differing += 1;
            }
        }
    }
    let mut samples = Vec::new();
    for i in 0..total {
        if samples.len() >= 3 || i > 400 {
            break;
        }
        let o = run(prop, i, seed_of(seed, prop, i), None, true);
        if shm().nontrivial != 0 {
            let t = trace_text();
            let t: String = t.chars().take(3000).collect();
            samples.push(format!("run {} (seed {}) verdict {}\n{}", i, seed_of(seed, prop, i), if let Outcome::Ok = o { "held" } else { "VIOLATED" }, t));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // ---- evidence
    let mut e = String::new();
    let _ = writeln!(e, "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",", js(prop), js(tier), seed);
    let _ = writeln!(e, "\"coverage\": {{\n\"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},", f.runs, f.hashes.len(), js(rule(prop)));
    let sl: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let _ = writeln!(e, "\"samples\": [{}],", sl.join(",\n"));
    let per_hour = if f.wall > 0.0 { f.runs as f64 / f.wall * 3600.0 } else { 0.0 };
    let _ = writeln!(e, "\"runs_planned\": {},\n\"runs_per_hour\": {:.0},\n\"seeds_per_hour\": {:.0},", total, per_hour, per_hour);
    let _ = writeln!(e, "\"simulated_seconds_covered\": {},", f.simtime_ns / 1_000_000_000);
    let mut groups: [(&str, &str, Vec<String>); 3] = [("faults_injected", "fault_", vec![]), ("probes", "probe_", vec![]), ("volume", "", vec![])];
    let mut idle = Vec::new();
    for (i, n) in COUNTER_NAMES.iter().enumerate() {
        let c = f.counters[i];
        if c == 0 {
            if n.starts_with("fault_") {
                idle.push(js(n));
            }
            continue;
        }
        let g = if n.starts_with("fault_") { 0 } else if n.starts_with("probe_") { 1 } else { 2 };
        let name = n.strip_prefix(groups[g].1).unwrap_or(n).to_string();
        groups[g].2.push(format!("{}: {}", js(&name), c));
    }
    for (name, _, v) in &groups {
        let _ = writeln!(e, "{}: {{{}}},", js(name), v.join(", "));
    }
    let (realc, stub) = components(prop);
    let _ = writeln!(e, "\"real_components\": {},\n\"simulated_components\": {},", js(realc), js(stub));
    let _ = writeln!(e, "\"distinct_measure\": \"64-bit hash over everything the run drew that mattered, every scheduling decision, fault and outcome\",");
    let reached = f.covered.iter().filter(|x| **x).count();
    if reached > 0 {
        let _ = writeln!(e, "\"rx509_basic_blocks_reached\": {},\n\"rx509_basic_blocks\": {},", reached, fine::blocks());
    }
    let _ = writeln!(e, "\"repeated_runs\": {},\n\"repeated_runs_that_differed\": {},", repeated, differing);
    let kf: Vec<String> = f.finding_ids.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    let _ = writeln!(e, "\"known_finding_ids_seen\": {{{}}}\n}},", kf.join(", "));
    let asm = [
        "seeded search: not exhaustive; a violation outside the explored runs is not excluded",
        "the simulator's own reference model (sim/src/refdec.rs, report.rs, model.rs) and its interposition on libc are trusted",
        "x86-64 Linux, glibc, the Rust toolchain installed here, overflow checks and debug assertions on",
    ];
    let al: Vec<String> = asm.iter().map(|s| js(s)).collect();
    let _ = writeln!(e, "\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}", al.join(", "), wall, violations);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(dir.join(format!("{}.json", prop)), e) {
        println!("harness error: evidence cannot be written: {}", x);
        return 2;
    }
    println!("{} {}: {} runs, {} distinct non-trivial, {:.1} s{}", prop, tier, f.runs, f.hashes.len(), wall, if code == 0 { ", held" } else { "" });
    code
}
fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let (Some(prop), Some(index), Some(class), Some(choices)) = (json_str(&t, "property"), json_u64(&t, "run"), json_str(&t, "class"), json_list(&t, "choices")) else {
        println!("not a replay file");
        return 2;
    };
    rt::attach(rt::new_shm());
    let o = run(&prop, index, 0, Some(&choices), true);
    print!("{}", trace_text());
    match o {
        Outcome::Violation { class: c, detail } => {
            println!("{}: {}", c, detail);
            let same = c == class && json_str(&t, "detail").as_deref() == Some(&detail);
            println!("{}", if same { "reproduced exactly" } else { "a violation, but not the recorded one" });
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        Outcome::Ok => {
            println!("no violation");
            0
        }
        Outcome::Harness(m) => {
            println!("harness error: {}", m);
            2
        }
    }
}
fn determinism(n: u64) -> i32 {
    rt::attach(rt::new_shm());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut bad = 0;
    for p in checks::CLAIMED {
        let mut d = 0;
        for i in 0..n {
            let _ = run(p, i, seed_of(seed, p, i), None, false);
            let a = (shm().hash, shm().nchoice, shm().status, choices_now());
            let _ = run(p, i, 0, Some(&a.3), true);
            if a != (shm().hash, shm().nchoice, shm().status, choices_now()) {
                d += 1;
                if d == 1 {
                    println!("{} run {} differs: {:x}/{} and {:x}/{}", p, i, a.0, a.1, shm().hash, shm().nchoice);
                }
            }
        }
        println!("{}: {} runs executed twice, {} differ", p, n, d);
        bad += d;
    }
    if bad == 0 {
        0
    } else {
        1
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    rt::install_panic_hook();
    load_known();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 4 => check(&a[2], &a[3], a.get(4).and_then(|x| x.parse().ok())),
        Some("replay") if a.len() == 3 => replay(&a[2]),
        Some("determinism") => determinism(a.get(2).and_then(|x| x.parse().ok()).unwrap_or(40)),
        Some("run") if a.len() >= 4 => {
            rt::attach(rt::new_shm());
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let i: u64 = a[3].parse().unwrap_or(0);
            let o = run(&a[2], i, seed_of(seed, &a[2], i), None, true);
            print!("{}", trace_text());
            println!("{:?}", o);
            0
        }
        _ => {
            eprintln!("usage: rasnsim check ID quick|thorough [RUNS] | replay FILE | determinism [N] | run ID INDEX");
            2
        }
    };
    std::process::exit(code);
}
