//! Simulated tasks: real threads of which exactly one runs at a time. Who runs next is decided,
//! at every scheduling point, by the run's choice sequence and by nothing else.
use crate::rt::{self, C};
use crate::seam::{self, bypass, TASK};
use crate::trace;
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Point {
    Callback,
    Alloc,
    Clock,
    Op,
    /// between two instructions of the library
    Inside,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Ready,
    Blocked { addr: usize, timed: bool },
    Done,
}
struct Inner {
    st: Vec<St>,
    timed_out: Vec<bool>,
    current: usize,
    /// preemption probability out of 256 at callback/op/clock points, and at allocation points
    p_main: u64,
    p_alloc: u64,
    switches: u64,
}
struct Sched {
    m: Mutex<Inner>,
    cv: Vec<Condvar>,
}
static mut SCHED: Option<Sched> = None;
#[allow(static_mut_refs)]
fn sched() -> Option<&'static Sched> {
    unsafe { SCHED.as_ref() }
}

/// Runs the tasks to completion under the seeded scheduler.
pub fn run_tasks(tasks: Vec<Box<dyn FnOnce() + Send>>, stack: usize, p_main: u64, p_alloc: u64) {
    let mean = if tasks.len() > 1 && p_main > 0 { *rt::pick(&[0u64, 0, 2000, 400, 60, 8]) } else { 0 };
    run_tasks_at(tasks, stack, p_main, p_alloc, mean)
}
/// As above, with a given average number of steps inside the library between preemptions.
pub fn run_tasks_at(tasks: Vec<Box<dyn FnOnce() + Send>>, stack: usize, p_main: u64, p_alloc: u64, mean: u64) {
    let n = tasks.len();
    crate::fine::set_mean(mean);
    unsafe {
        SCHED = Some(Sched {
            m: Mutex::new(Inner { st: vec![St::Ready; n], timed_out: vec![false; n], current: usize::MAX, p_main, p_alloc, switches: 0 }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
        });
    }
    let mut hs = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        let mut builder = std::thread::Builder::new().stack_size(stack);
        if let Some(name) = crate::around::thread_name() {
            builder = builder.name(name.into());
        }
        let h = builder.spawn(move || {
            let s = sched().unwrap();
            bypass(true);
            TASK.with(|x| x.set(i));
            {
                let mut g = s.m.lock().unwrap();
                while g.current != i {
                    g = s.cv[i].wait(g).unwrap();
                }
            }
            crate::fine::arm();
            bypass(false);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
            seam::set_real(false);
            bypass(true);
            if r.is_err() {
                let (m, l) = rt::take_panic();
                rt::violate("panic", &format!("task {} panicked at {}: {}", i, l, m));
            }
            let mut g = s.m.lock().unwrap();
            g.st[i] = St::Done;
            pass_on(s, &mut g);
        });
        hs.push(h.expect("spawn"));
    }
    let s = sched().unwrap();
    {
        let mut g = s.m.lock().unwrap();
        let first = rt::draw(n as u64) as usize;
        g.current = first;
        s.cv[first].notify_one();
    }
    for h in hs {
        let _ = h.join();
    }
    let sw = s.m.lock().unwrap().switches;
    rt::add(C::sched_switches, sw);
}

/// Hands the baton to some ready task (the caller is done or blocked).
fn pass_on(s: &Sched, g: &mut Inner) {
    let ready: Vec<usize> = (0..g.st.len()).filter(|i| g.st[*i] == St::Ready).collect();
    if ready.is_empty() {
        // a timed wait expires when nothing else can run
        if let Some(i) = (0..g.st.len()).find(|i| matches!(g.st[*i], St::Blocked { timed: true, .. })) {
            g.st[i] = St::Ready;
            g.timed_out[i] = true;
            g.current = i;
            s.cv[i].notify_one();
            return;
        }
        if g.st.iter().any(|x| matches!(x, St::Blocked { .. })) {
            rt::count(C::probe_all_tasks_blocked);
            rt::violate("deadlock", "every unfinished task waits for a lock that nobody will release");
        }
        g.current = usize::MAX;
        return;
    }
    let k = if ready.len() > 1 { rt::draw(ready.len() as u64) as usize } else { 0 };
    g.current = ready[k];
    rt::mix(0x5C00 + ready[k] as u64);
    s.cv[ready[k]].notify_one();
}

/// A scheduling point of the calling task.
pub fn point(kind: Point) {
    let me = TASK.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    let was = bypass(true);
    if let Some(s) = sched() {
        let mut g = s.m.lock().unwrap();
        let p = match kind {
            Point::Alloc => g.p_alloc,
            Point::Inside => 256,
            _ => g.p_main,
        };
        rt::count(C::sched_points);
        if p > 0 && g.st.len() > 1 {
            let others: Vec<usize> = (0..g.st.len()).filter(|i| *i != me && g.st[*i] == St::Ready).collect();
            if !others.is_empty() && rt::chance(p, 256) {
                let to = others[rt::draw(others.len() as u64) as usize];
                rt::fault(if kind == Point::Inside { C::fault_preemption_inside } else { C::fault_preemption });
                rt::mix(0x5D00 + to as u64);
                trace!("  schedule: task {} preempted at {:?}, task {} runs", me, kind, to);
                g.switches += 1;
                g.current = to;
                s.cv[to].notify_one();
                while g.current != me {
                    g = s.cv[me].wait(g).unwrap();
                }
            }
        }
    }
    bypass(was);
}

/// The calling task steps aside (a spin loop must not starve the task it waits for).
pub fn yield_now() {
    let me = TASK.with(|t| t.get());
    let was = bypass(true);
    if let Some(s) = sched() {
        let mut g = s.m.lock().unwrap();
        let others: Vec<usize> = (0..g.st.len()).filter(|i| *i != me && g.st[*i] == St::Ready).collect();
        if !others.is_empty() {
            let to = others[rt::draw(others.len() as u64) as usize];
            rt::mix(0x5E00 + to as u64);
            g.switches += 1;
            g.current = to;
            s.cv[to].notify_one();
            while g.current != me {
                g = s.cv[me].wait(g).unwrap();
            }
        }
    }
    bypass(was);
}

/// The calling task waits on a futex word. True if woken, false if its timeout expired.
pub fn block_on(addr: usize, timed: bool) -> bool {
    let me = TASK.with(|t| t.get());
    let was = bypass(true);
    let s = sched().unwrap();
    let mut g = s.m.lock().unwrap();
    trace!("  task {} blocks", me);
    g.st[me] = St::Blocked { addr, timed };
    g.timed_out[me] = false;
    pass_on(s, &mut g);
    while g.current != me {
        g = s.cv[me].wait(g).unwrap();
    }
    let ok = !g.timed_out[me];
    drop(g);
    bypass(was);
    ok
}
pub fn wake(addr: usize, n: usize) -> usize {
    let was = bypass(true);
    let s = sched().unwrap();
    let mut g = s.m.lock().unwrap();
    let mut k = 0;
    for i in 0..g.st.len() {
        if k >= n {
            break;
        }
        if let St::Blocked { addr: a, .. } = g.st[i] {
            if a == addr {
                g.st[i] = St::Ready;
                k += 1;
            }
        }
    }
    drop(g);
    bypass(was);
    k
}

/// Calls the code under test from a task. A panic that is not the harness's own abandonment
/// comes back as Err((message, location)).
pub struct Abandon;
#[derive(Debug, PartialEq)]
pub enum Stop {
    Abandoned,
    Panicked(String, String),
}
pub fn real<T>(f: impl FnOnce() -> T) -> Result<T, Stop> {
    let was = seam::set_real(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    seam::set_real(was);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<Abandon>().is_some() {
                Err(Stop::Abandoned)
            } else {
                let (m, l) = rt::take_panic();
                Err(Stop::Panicked(m, l))
            }
        }
    }
}
/// As `real`, for calls in which nothing of the harness abandons.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match real(f) {
        Ok(v) => v,
        Err(Stop::Panicked(m, l)) => rt::violate("panic", &format!("{} panicked at {}: {}", what, l, m)),
        Err(Stop::Abandoned) => rt::harness_error("unexpected abandonment"),
    }
}
/// Harness code running inside a callback from the code under test.
pub fn callback<T>(f: impl FnOnce() -> T) -> T {
    let was = seam::set_real(false);
    let r = f();
    seam::set_real(was);
    r
}
/// Leaves the code under test by unwinding out of a callback (the receiver gives up).
pub fn abandon() -> ! {
    std::panic::resume_unwind(Box::new(Abandon))
}
/// One simulated task on a bounded stack.
pub fn run_one(stack: usize, f: impl FnOnce() + Send + 'static) {
    run_tasks(vec![Box::new(f)], stack, 0, 0)
}
