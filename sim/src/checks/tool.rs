//! C10-C14: the real command-line decoder, run as a process on a simulated machine (shim/simio.c):
//! its file, its output and error streams, its clock and its memory answer from a plan drawn here.
use super::*;
use crate::der::tlv;
use crate::model::*;
use crate::rt::add;
use crate::sys;
use rx509::der::{parse_all, ASNError, ASNType, ParseHandler};
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::Certificate;
use std::fmt::Write as _;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

const NOPS: usize = 8192;
const NSTAT: usize = 16;
const NLOG: usize = 65536;
const OUTCAP: usize = 80 << 20;
const ERRCAP: usize = 1 << 20;
const FILECAP: usize = 20 << 20;

#[repr(C)]
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Op {
    kind: u32,
    arg: u32,
}
const FULL: u32 = 0;
const SHORT: u32 = 1;
const EINTR: u32 = 2;
const FAIL: u32 = 3;
const ZERO: u32 = 4;
#[repr(C)]
#[derive(Clone, Copy)]
struct LogEnt {
    call: u32,
    arg: u32,
    ret: i64,
}
/// Mirrors struct sim in shim/simio.c.
#[repr(C)]
struct Sim {
    magic: u32,
    step_cap: u32,
    file_len: u64,
    file2_len: u64,
    swap_on: u32,
    swap_at: u32,
    open_eintr: u32,
    open_errno: u32,
    is_dir: u32,
    seek_errno: u32,
    n_read: u32,
    n_out: u32,
    n_err: u32,
    n_stat: u32,
    read_rest: Op,
    out_rest: Op,
    err_rest: Op,
    alloc_mode: u32,
    tty: u32,
    alloc_at: u64,
    alloc_quota: u64,
    stat_size: [u64; NSTAT],
    stat_errno: [u32; NSTAT],
    clock_sec: i64,
    mtime: i64,
    pace: u64,
    jump: i64,
    jump_at: u32,
    stored: u32,
    machine: u32,
    cpus: u32,
    mode: u32,
    uid: u32,
    env_val: [u8; 64],
    name: [u8; 96],
    read_ops: [Op; NOPS],
    out_ops: [Op; NOPS],
    err_ops: [Op; NOPS],
    // the log
    started: u32,
    overflow: u32,
    hang: u32,
    nlog: u32,
    steps: u64,
    last_fault_step: u64,
    opens: u32,
    reads: u32,
    seeks: u32,
    stats: u32,
    outs: u32,
    errs: u32,
    f_open: u32,
    f_open_eintr: u32,
    f_read: u32,
    f_read_eintr: u32,
    f_read_short: u32,
    f_stat: u32,
    f_size: u32,
    f_seek: u32,
    f_out: u32,
    f_out_eintr: u32,
    f_out_short: u32,
    f_out_zero: u32,
    f_err: u32,
    f_err_eintr: u32,
    f_err_short: u32,
    f_alloc: u32,
    eof_seen: u32,
    fail_at_eof: u32,
    f_swap: u32,
    n_side: u32,
    n_asked: u32,
    pad: u32,
    pace_calls: u64,
    slept: u64,
    allocs: u64,
    live: u64,
    peak: u64,
    max_req: u64,
    out_len: u64,
    err_len: u64,
    delivered: u64,
    side: [[u8; 96]; 8],
    log: [LogEnt; NLOG],
    out: [u8; OUTCAP],
    err: [u8; ERRCAP],
    file: [u8; FILECAP],
    file2: [u8; FILECAP],
}
/// The faults of one execution.
#[derive(Clone, Default, Debug)]
struct Plan {
    open_eintr: u32,
    open_errno: u32,
    is_dir: bool,
    seek_errno: u32,
    sizes: Vec<(u64, u32)>,
    read: Vec<Op>,
    read_rest: Op,
    out: Vec<Op>,
    out_rest: Op,
    err: Vec<Op>,
    err_rest: Op,
    alloc: (u32, u64, u64),
    /// after so many file calls the name means another file, or (None) nothing
    swap: Option<(u32, Option<Vec<u8>>)>,
    /// bytes the fault-free run wrote (0: not known yet)
    written: usize,
}
impl Plan {
    fn after(base: &Done) -> Plan {
        Plan { written: base.out.len() + base.err.len() + 1, ..Plan::default() }
    }
}
/// What one execution did.
#[derive(Clone)]
struct Done {
    /// exit code, or -signal
    exit: i32,
    out: Vec<u8>,
    err: Vec<u8>,
    hang: bool,
    steps: u64,
    last_fault: u64,
    reads: u32,
    outs: u32,
    errs: u32,
    f_open: u32,
    f_read: u32,
    f_out: u32,
    f_err: u32,
    f_alloc: u32,
    fail_at_eof: u32,
    allocs: u64,
    delivered: u64,
    peak: u64,
    /// what it did besides reading its file and writing its two streams
    side: Vec<String>,
}
/// What surrounds the tool and is no business of its answer.
#[derive(Clone)]
struct World {
    env: Vec<(&'static str, &'static str)>,
    tty: u32,
    clock: i64,
    argv0: Option<&'static str>,
    cwd: &'static str,
    /// what any variable holds that the tool asks for and nobody set
    unset: Option<&'static str>,
    /// the file's type and permissions, its age, and who owns it and runs the tool
    mode: u32,
    mtime: i64,
    uid: u32,
    /// nanoseconds that pass with each call the tool makes; a jump of the wall clock, in seconds,
    /// after so many calls
    pace: u64,
    jump: (i64, u32),
    /// how the file system keeps the file: blocks, links, numbers (bits, see the shim's fill())
    stored: u32,
    /// process number, random numbers, host name; how many processors
    machine: u32,
    cpus: u32,
}
const ENV: [(&str, &str); 36] = [
    ("HOME", "/sim/home"), ("HOME", ""), ("TMPDIR", "/sim/tmp"), ("XDG_CONFIG_HOME", "/sim/config"), ("XDG_CACHE_HOME", "/sim/cache"), ("PAGER", "less"), ("PAGER", "cat"), ("COLUMNS", "20"),
    ("COLUMNS", "200"), ("LINES", "5"), ("LANG", "de_DE.UTF-8"), ("LANG", "C"), ("LC_ALL", "tr_TR.UTF-8"), ("TERM", "xterm-256color"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1"),
    ("COLORTERM", "truecolor"), ("TZ", "America/New_York"), ("TZ", "UTC+9"), ("DEBUG", "1"), ("VERBOSE", "1"), ("QUIET", "1"), ("RUST_LOG", "trace"), ("DECODER_DEBUG", "1"), ("RASN_DEBUG", "1"),
    ("RX509_DEBUG", "1"), ("PATH", "/usr/bin:/bin"), ("USER", "nobody"), ("CI", "true"), ("SOURCE_DATE_EPOCH", "0"), ("OUTPUT", "/sim/out"), ("SSL_CERT_FILE", "/sim/roots.pem"),
    ("POSIXLY_CORRECT", "1"), ("EDITOR", "vi"), ("PWD", "/sim"),
];
fn a_name() -> &'static [u8] {
    match draw(6) {
        0 => *pick(&NAMES),
        1 => composed_name(),
        _ => PATH,
    }
}
/// Directories, stems, endings: whatever a program may believe to know from a file's name.
fn composed_name() -> &'static [u8] {
    const DIR: [&str; 14] = ["", "", "", "/sim/", "./", "../", "a/b/", "//", "/sim//", "certs/", "~/", "/sim/.hidden/", "der/", "-/"];
    const STEM: [&str; 26] = ["cert", "certificate", "ca", "root", "input", "a", "", ".", "..", "-", "--", "=", "key", "private", "server", "CERT", "test", "index", "con", "nul", "stdin", "0", "1", "my cert", "cert(1)", "backup"];
    const END: [&str; 56] = [
        "", "", ".crt", ".cer", ".der", ".pem", ".hex", ".txt", ".b64", ".base64", ".p7b", ".p7c", ".p7s", ".p12", ".pfx", ".csr", ".req", ".crl", ".key", ".gz", ".bz2", ".xz", ".zst", ".zip", ".tar", ".bak", ".old", ".tmp", ".swp", ".part",
        ".json", ".xml", ".yaml", ".conf", ".cfg", ".asn1", ".ber", ".bin", ".raw", ".dat", ".log", ".sig", ".spc", ".jks", ".CRT", ".DER", ".PEM", "~", "#", ".", " ", "/", ".1", ".cer.txt", ":1", ",v",
    ];
    let n = format!("{}{}{}", pick(&DIR), pick(&STEM), pick(&END));
    if n.is_empty() || n == "/" {
        return b"x";
    }
    leak(n.into_bytes())
}
fn world() -> World {
    let mut w = World { env: vec![], tty: 0, clock: 1_600_000_000, argv0: None, cwd: "/", unset: None, mode: 0o100644, mtime: 1_500_000_000, uid: 0, pace: 0, jump: (0, 0), stored: 0, machine: 0, cpus: 4 };
    if chance(1, 2) {
        rt::count(C::fault_odd_surroundings);
        for _ in 0..draw(8) {
            w.env.push(*pick(&ENV));
        }
        w.tty = if chance(1, 2) { draw(16) as u32 } else { 0 };
        w.clock = *pick(&[1_600_000_000i64, 0, 1, -1, 2_600_000_000, 4_102_444_800, 1_900_000_000, 86_399]);
        w.argv0 = *pick(&[None, Some("decoder"), Some("./decoder"), Some("der"), Some("certs"), Some("--der"), Some("")]);
        w.cwd = *pick(&["/", "/tmp", "/usr"]);
        w.unset = *pick(&[None, Some("1"), Some(""), Some("0"), Some("20"), Some("/sim/other"), Some("/sim"), Some("always"), Some("a:b")]);
        // a regular file, a pipe, a device; readable by all, by nobody, run as another user
        w.mode = *pick(&[0o100644, 0o100644, 0o100600, 0o100777, 0o104755, 0o100000, 0o010600, 0o020620, 0o060660]);
        w.mtime = *pick(&[1_500_000_000i64, 0, -1, 1, 4_102_444_800]);
        w.uid = *pick(&[0, 1000, 65534]);
        // a store that takes microseconds, or a minute, for each call; a wall clock being set
        w.pace = *pick(&[0u64, 1_000, 1_000_000, 50_000_000, 1_000_000_000, 61_000_000_000]);
        if w.pace > 0 {
            rt::count(C::fault_slow_calls);
        }
        if chance(1, 3) {
            w.jump = (*pick(&[-1i64, 1, -3600, 3600, -1_000_000_000, 1_000_000_000]), range(1, 12) as u32);
            rt::count(C::fault_clock_set);
        }
        w.stored = if chance(1, 2) { draw(1024) as u32 } else { 0 };
        w.machine = if chance(1, 2) { draw(30_000) as u32 } else { 0 };
        w.cpus = *pick(&[4, 1, 2, 64]);
    }
    w
}
struct Machine {
    fd: i32,
    world: World,
    m: *mut Sim,
    /// what the file is called in this run
    name: &'static [u8],
    exe: std::path::PathBuf,
    shim: std::path::PathBuf,
}
fn machine() -> Machine {
    unsafe {
        let fd = sys::memfd_create(b"sim\0".as_ptr(), 0);
        let size = std::mem::size_of::<Sim>();
        if fd < 0 || sys::ftruncate(fd, size as i64) != 0 {
            rt::harness_error("no memory file");
        }
        let p = sys::mmap(std::ptr::null_mut(), size, sys::PROT_RW, sys::MAP_SHARED, fd, 0);
        if p as isize <= 0 {
            rt::harness_error("no shared mapping");
        }
        let dir = std::env::current_exe().ok().and_then(|p| p.parent().map(|p| p.to_path_buf())).unwrap_or_default();
        let exe = std::env::var_os("RASNSIM_TOOL").map(Into::into).unwrap_or(dir.join("decoder"));
        let shim = std::env::var_os("RASNSIM_SHIM").map(Into::into).unwrap_or(dir.join("simio.so"));
        if !exe.exists() || !shim.exists() {
            rt::harness_error("the decoder or the shim has not been built");
        }
        let name = a_name();
        Machine { fd, world: world(), m: p as *mut Sim, name, exe, shim }
    }
}
fn put_ops(dst: &mut [Op; NOPS], n: &mut u32, src: &[Op]) {
    let k = src.len().min(NOPS);
    dst[..k].copy_from_slice(&src[..k]);
    *n = k as u32;
}
const CALLS: [&str; 8] = ["resolve", "open", "stat", "seek", "read", "write(out)", "write(err)", "sleep"];

impl Machine {
    fn exec(&self, args: &[&[u8]], file: &[u8], plan: &Plan) -> Done {
        let m = unsafe { &mut *self.m };
        if file.len() > FILECAP {
            rt::harness_error("file too large for the simulated store");
        }
        // reset everything up to the log entries; the rest is overwritten as used
        let head = std::mem::offset_of!(Sim, log);
        unsafe { std::ptr::write_bytes(self.m as *mut u8, 0, head) };
        m.magic = 0x51D0;
        m.file_len = file.len() as u64;
        m.file[..file.len()].copy_from_slice(file);
        if let Some((at, other)) = &plan.swap {
            m.swap_at = *at;
            m.swap_on = if other.is_some() { 1 } else { 2 };
            let other = other.as_deref().unwrap_or(&[]);
            m.file2_len = other.len() as u64;
            m.file2[..other.len()].copy_from_slice(other);
        }
        m.open_eintr = plan.open_eintr;
        m.open_errno = plan.open_errno;
        m.is_dir = plan.is_dir as u32;
        m.seek_errno = plan.seek_errno;
        for (i, (s, e)) in plan.sizes.iter().take(NSTAT).enumerate() {
            m.stat_size[i] = *s;
            m.stat_errno[i] = *e;
        }
        m.n_stat = plan.sizes.len().min(NSTAT) as u32;
        put_ops(&mut m.read_ops, &mut m.n_read, &plan.read);
        put_ops(&mut m.out_ops, &mut m.n_out, &plan.out);
        put_ops(&mut m.err_ops, &mut m.n_err, &plan.err);
        m.read_rest = plan.read_rest;
        m.out_rest = plan.out_rest;
        m.err_rest = plan.err_rest;
        m.alloc_mode = plan.alloc.0;
        m.alloc_at = plan.alloc.1;
        m.alloc_quota = plan.alloc.2;
        m.clock_sec = self.world.clock;
        m.tty = self.world.tty;
        m.mtime = self.world.mtime;
        m.pace = self.world.pace;
        (m.jump, m.jump_at) = self.world.jump;
        m.stored = self.world.stored;
        m.machine = self.world.machine;
        m.cpus = self.world.cpus;
        m.mode = self.world.mode;
        m.uid = self.world.uid;
        if let Some(v) = self.world.unset {
            m.env_val[0] = 1;
            m.env_val[1..=v.len()].copy_from_slice(v.as_bytes());
        }
        m.name[..self.name.len()].copy_from_slice(self.name);
        // a fault-free run is bounded by its CPU time only; with faults, by what there is to move
        m.step_cap = if plan.written == 0 { 50_000_000 } else { (plan.read.len() + plan.out.len() + plan.err.len() + 20_000 + (file.len() + plan.swap.as_ref().and_then(|s| s.1.as_ref()).map_or(0, |f| f.len()) + plan.written) * 16).min(50_000_000) } as u32;
        let fd = self.fd;
        let mut cmd = Command::new(&self.exe);
        for a in args {
            cmd.arg(std::ffi::OsStr::from_bytes(if *a == PATH { self.name } else { a }));
        }
        if let Some(a) = self.world.argv0 {
            cmd.arg0(a);
        }
        cmd.env_clear().envs(self.world.env.iter().copied()).env("LD_PRELOAD", &self.shim);
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir(self.world.cwd);
        unsafe {
            cmd.pre_exec(move || {
                sys::dup2(fd, 1000);
                let r = sys::rlimit { cur: 10, max: 11 };
                sys::setrlimit(sys::RLIMIT_CPU, &r);
                let r = sys::rlimit { cur: 0, max: 0 };
                sys::setrlimit(sys::RLIMIT_CORE, &r);
                Ok(())
            });
        }
        let st = match cmd.status() {
            Ok(s) => s,
            Err(e) => rt::harness_error(&format!("the tool cannot be started: {}", e)),
        };
        rt::count(C::tool_runs);
        if m.started == 0 && st.code() == Some(98) {
            rt::harness_error("the shim did not attach");
        }
        if m.started == 0 && m.f_alloc == 0 {
            rt::harness_error("the shim was not loaded");
        }
        if m.overflow != 0 {
            rt::harness_error("the tool's output is larger than the simulated sink");
        }
        let d = Done {
            exit: st.code().unwrap_or_else(|| -st.signal().unwrap_or(127)),
            out: m.out[..m.out_len as usize].to_vec(),
            err: m.err[..m.err_len as usize].to_vec(),
            hang: m.hang != 0 || st.signal() == Some(24) || st.signal() == Some(9),
            steps: m.steps,
            last_fault: m.last_fault_step,
            reads: m.reads,
            outs: m.outs,
            errs: m.errs,
            f_open: m.f_open,
            f_read: m.f_read,
            f_out: m.f_out + m.f_out_zero,
            f_err: m.f_err,
            f_alloc: m.f_alloc,
            fail_at_eof: m.fail_at_eof,
            allocs: m.allocs,
            delivered: m.delivered,
            peak: m.peak,
            side: m.side[..(m.n_side as usize).min(8)].iter().map(|t| String::from_utf8_lossy(t).trim_end_matches('\0').to_string()).collect(),
        };
        let faults = [
            (C::fault_open_error, m.f_open),
            (C::fault_open_eintr, m.f_open_eintr),
            (C::fault_read_error, m.f_read),
            (C::fault_read_eintr, m.f_read_eintr),
            (C::fault_short_read, m.f_read_short),
            (C::fault_stat_error, m.f_stat),
            (C::fault_size_lie, m.f_size),
            (C::fault_seek_error, m.f_seek),
            (C::fault_write_error, m.f_out),
            (C::fault_write_eintr, m.f_out_eintr + m.f_err_eintr),
            (C::fault_short_write, m.f_out_short),
            (C::fault_write_zero, m.f_out_zero),
            (C::fault_stderr_error, m.f_err),
            (C::fault_stderr_short, m.f_err_short),
            (C::fault_file_replaced, m.f_swap),
            (if plan.alloc.0 >= 3 { C::fault_alloc_quota } else { C::fault_alloc_refused }, m.f_alloc),
        ];
        for (c, n) in faults {
            if n > 0 {
                add(c, n as u64);
                rt::mix(0xFA00 + c as u64);
                rt::mix(n as u64);
                rt::nontrivial();
            }
        }
        add(C::io_calls, m.steps);
        add(C::tool_alloc_points, m.allocs);
        for e in m.log[..(m.nlog as usize).min(NLOG)].iter() {
            rt::mix(((e.call as u64) << 56) ^ ((e.arg as u64) << 24) ^ e.ret as u64);
        }
        rt::mix(m.allocs);
        rt::mix_bytes(&d.out);
        rt::mix_bytes(&d.err);
        rt::mix(d.exit as u64);
        match d.exit {
            0 => {}
            x if x > 0 => rt::count(C::probe_tool_failed_exit),
            _ => rt::count(C::probe_tool_abort),
        }
        if rt::verbose() {
            let show: Vec<String> = args.iter().map(|a| String::from_utf8_lossy(if *a == PATH { self.name } else { a }).into_owned()).collect();
            trace!("run: decoder {} (file of {} bytes)", show.join(" "), file.len());
            trace!("  environment {:?}, terminals {:#06b}, clock {}, name {:?}, directory {}, other variables {:?}, file mode {:o}, time {}, user {}, {} ns a call, clock set {:?}, kept {:#09b}, machine {} with {} processors", self.world.env, self.world.tty, self.world.clock, self.world.argv0, self.world.cwd, self.world.unset, self.world.mode, self.world.mtime, self.world.uid, self.world.pace, self.world.jump, self.world.stored, self.world.machine, self.world.cpus);
            let n = (m.nlog as usize).min(NLOG);
            for (i, e) in m.log[..n].iter().enumerate() {
                if i < 150 || i + 20 > n {
                    trace!("  {} {} -> {}", CALLS[e.call as usize % 8], e.arg, e.ret);
                } else if i == 150 {
                    trace!("  ...");
                }
            }
            if m.f_alloc > 0 {
                trace!("  {} of {} memory requests refused", m.f_alloc, m.allocs);
            }
            trace!("  exit {}; {} bytes of output, {} on the error stream: {}", d.exit, d.out.len(), d.err.len(), String::from_utf8_lossy(&d.err[..d.err.len().min(200)]).trim_end());
        }
        d
    }
}

// ---- what the tool has to show -----------------------------------------------------------------

struct Listing {
    out: String,
    indent: usize,
}
impl Listing {
    fn pad(&mut self) {
        for _ in 0..self.indent {
            self.out.push_str("  ");
        }
    }
}
impl ParseHandler for Listing {
    fn begin_constructed(&mut self) {
        self.indent += 1;
    }
    fn end_constructed(&mut self) {
        self.indent -= 1;
    }
    fn on_type(&mut self, a: &ASNType) {
        self.pad();
        let _ = writeln!(self.out, "{}", a);
        if let ASNType::BitString(b) = a {
            if let Some(o) = b.value.octets() {
                self.indent += 1;
                for l in crate::report::hex_rows(o) {
                    self.pad();
                    self.out.push_str(&l);
                    self.out.push('\n');
                }
                self.indent -= 1;
            }
        }
    }
    fn on_error(&mut self, e: &ASNError) {
        let _ = writeln!(self.out, "Error: {:?}", e);
    }
}
impl LinePrinter for Listing {
    fn begin_type(&mut self) {
        self.indent += 1;
    }
    fn begin_line(&mut self) {
        self.pad();
    }
    fn print_fmt(&mut self, f: &core::fmt::Arguments) {
        let _ = self.out.write_fmt(*f);
    }
    fn print_str(&mut self, t: &str) {
        self.out.push_str(t);
    }
    fn println_fmt(&mut self, f: &core::fmt::Arguments) {
        let _ = self.out.write_fmt(*f);
        self.out.push('\n');
    }
    fn println_str(&mut self, t: &str) {
        self.out.push_str(t);
        self.out.push('\n');
    }
    fn end_type(&mut self) {
        self.indent -= 1;
    }
}
struct Want {
    out: Vec<u8>,
    accepted: bool,
}
/// The full report of these bytes, from the library itself; None if the library panics on them.
fn want(mode: &[u8], file: &[u8]) -> Option<Want> {
    let der = mode == b"--der";
    let r = std::panic::catch_unwind(|| {
        let mut l = Listing { out: String::new(), indent: 0 };
        let accepted = if der {
            parse_all(file, &mut l).is_ok()
        } else {
            match Certificate::parse(file) {
                Ok(c) => {
                    c.print(&mut l);
                    true
                }
                Err(_) => false,
            }
        };
        Want { out: l.out.into_bytes(), accepted }
    });
    r.ok()
}

// ---- files ---------------------------------------------------------------------------------------

/// A well-formed document or certificate brought to (about) a given size.
fn padded(target: usize, der: bool) -> Vec<u8> {
    let mut t = gen_cert(&GenCfg { size: 0, uids: false, unknown: true }).tree;
    // the first text in it, made one long line
    let mut roles = Vec::new();
    t.roles(&mut roles);
    let text = roles.iter().copied().find(|r| matches!(r, Role::AvaVal(..) | Role::Modbus(_)));
    let role = match (draw(4), text) {
        (3, Some(r)) => r,
        (0, _) => Role::SigVal,
        (1, _) => Role::Key,
        _ => Role::Serial,
    };
    let now = t.bytes().len();
    let mut pad = target.saturating_sub(now);
    if der && chance(1, 2) {
        // several elements in a row
        let mut out = t.bytes();
        if target > out.len() + 8 {
            let left = target - out.len();
            let body = left - 2 - if left > 65540 { 3 } else if left > 260 { 2 } else { 1 };
            out.extend(tlv(*pick(&[4u8, 0x0c]), &vec![b'x'; body]));
        }
        return out;
    }
    // the lengths of the enclosing headers grow with the content; settle in a few rounds
    for _ in 0..4 {
        let n = t.find_mut(role).unwrap();
        let fill = match role {
            Role::Serial => 0x11,
            Role::AvaVal(..) | Role::Modbus(_) => b'x',
            _ => 0x5a,
        };
        if fill != 0x5a {
            n.pre.resize(1 + pad, fill);
        } else {
            n.pre = vec![0];
            n.pre.resize(1 + pad, fill);
        }
        let got = t.bytes().len();
        if got == target {
            break;
        }
        if got > target {
            pad = pad.saturating_sub(got - target);
        } else {
            pad += target - got;
        }
    }
    t.bytes()
}
fn big_size() -> usize {
    let b = *pick(&[4096usize, 8192, 512, 1024, 2048, 16384, 32768, 65536, 131072, 1 << 20]);
    // a megabyte is rare: it costs much
    let b = if b == 1 << 20 && !chance(1, 6) { 65536 } else { b };
    (b as i64 + *pick(&[0i64, 1, -1, 31, 32, 33, -32, -33]) + if chance(1, 4) { draw(300) as i64 - 150 } else { 0 }) as usize
}
struct Input {
    mode: &'static [u8],
    file: Vec<u8>,
}
/// More than sixteen megabytes, of which the report shows little.
fn huge(der: bool) -> Vec<u8> {
    rt::count(C::probe_huge_element);
    let body = vec![b'y'; (1 << 24) + draw(3) as usize - 1];
    if der && chance(1, 2) {
        return tlv(*pick(&[4u8, 0x30, 0x83]), &tlv(4, &body));
    }
    let mut t = gen_cert(&GenCfg { size: 0, uids: false, unknown: true }).tree;
    if let Some(alg) = t.kids.get_mut(1) {
        alg.kids.truncate(1);
        alg.kids.push(crate::der::prim(4, Role::AlgPar(2), body));
    }
    t.bytes()
}
fn input() -> Input {
    let mode: &'static [u8] = if chance(1, 2) { b"--der" } else { b"--certs" };
    let der = mode == b"--der";
    let file = match draw(11) {
        4 if chance(1, 60) => huge(der),
        0 | 1 => pick(&disk::CORPUS).to_vec(),
        2 | 3 => gen_cert(&GenCfg { size: draw(2) as u8, uids: chance(1, 3), unknown: true }).tree.bytes(),
        4 => {
            rt::count(C::probe_tool_large_file);
            padded(big_size(), der)
        }
        5 => {
            // large, and damaged near its end, or followed by what an older file left
            rt::count(C::probe_tool_large_file);
            let mut b = padded(big_size(), der);
            match draw(3) {
                0 => {
                    let k = b.len() - 1 - draw(40) as usize;
                    b.truncate(k);
                    fault(C::fault_truncated);
                }
                1 => {
                    b.extend(disk::residue(&b, &older_file()));
                    fault(C::fault_stale_residue);
                }
                _ => {
                    let k = b.len() - 1 - draw(200) as usize;
                    b[k] ^= 1 << draw(8);
                    fault(C::fault_bit_flip);
                }
            }
            b
        }
        6 => {
            let mut budget = 60;
            let mut out = Vec::new();
            for _ in 0..range(0, 4) {
                out.extend(gen_doc(&GenCfg::any(), &mut budget, 6).bytes());
            }
            out
        }
        7 => {
            let b = gen_cert(&GenCfg { size: 0, uids: true, unknown: true }).tree.bytes();
            disk::store(&b, &disk::medium(&older_file()), range(1, 2)).bytes
        }
        8 => {
            let mut t = gen_cert(&GenCfg { size: 0, uids: true, unknown: true }).tree;
            for _ in 0..range(1, 2) {
                disk::mutate_tree(&mut t);
            }
            t.bytes()
        }
        9 => {
            let b = if chance(1, 3) { pick(&disk::CORPUS).to_vec() } else { gen_cert(&GenCfg { size: draw(2) as u8, uids: chance(1, 3), unknown: true }).tree.bytes() };
            disk::carried(&b)
        }
        _ => {
            let b = hostile(200);
            if b.len() > FILECAP {
                vec![]
            } else {
                b
            }
        }
    };
    rt::mix_bytes(&file);
    add(C::bytes_decoded, file.len() as u64);
    trace!("{} on {}", String::from_utf8_lossy(mode), show(&file));
    Input { mode, file }
}
fn good_input() -> Input {
    let mode: &'static [u8] = if chance(1, 2) { b"--der" } else { b"--certs" };
    let file = match draw(4) {
        0 => pick(&disk::CORPUS).to_vec(),
        1 => {
            rt::count(C::probe_tool_large_file);
            padded(big_size(), mode == b"--der")
        }
        _ => gen_cert(&GenCfg { size: draw(2) as u8, uids: chance(1, 3), unknown: true }).tree.bytes(),
    };
    rt::mix_bytes(&file);
    add(C::bytes_decoded, file.len() as u64);
    trace!("{} on {}", String::from_utf8_lossy(mode), show(&file));
    Input { mode, file }
}

// ---- faults ----------------------------------------------------------------------------------------

fn set(v: &mut Vec<Op>, i: usize, o: Op) {
    if v.len() <= i {
        v.resize(i + 1, Op { kind: FULL, arg: 0 });
    }
    v[i] = o;
}
fn transient(short: bool) -> Op {
    if short && chance(1, 2) {
        Op { kind: SHORT, arg: *pick(&[1u32, 2, 3, 7, 16, 31, 32, 33, 100, 511, 512, 4095, 4096, 8191]) }
    } else {
        Op { kind: EINTR, arg: 0 }
    }
}
/// Slow, interrupted, piecemeal delivery: nothing is lost.
fn slow_reads(p: &mut Plan, len: usize) {
    match draw(4) {
        0 => {}
        1 => {
            for _ in 0..range(1, 6) {
                let i = draw(12) as usize;
                set(&mut p.read, i, transient(true));
            }
        }
        2 => {
            // never more than a few bytes at a time
            let k = *pick(&[1u32, 2, 3, 7, 31, 32, 33, 100, 512, 4096]);
            let k = if len > 20000 { k.max(100) } else { k };
            p.read_rest = Op { kind: SHORT, arg: k };
            for _ in 0..draw(4) {
                let i = draw(40) as usize;
                if i < p.read.len() || p.read.len() == i {
                    set(&mut p.read, i, transient(true));
                }
            }
            for o in &mut p.read {
                if o.kind == FULL {
                    *o = p.read_rest;
                }
            }
        }
        _ => {
            // a storm of interruptions
            let at = draw(4) as usize;
            let n = range(1, 60) as usize;
            for i in at..at + n {
                set(&mut p.read, i, Op { kind: EINTR, arg: 0 });
            }
        }
    }
    p.open_eintr = if chance(1, 4) { range(1, 8) as u32 } else { 0 };
}
fn size_lies(p: &mut Plan, len: usize) {
    if !chance(1, 2) {
        return;
    }
    for _ in 0..range(1, 3) {
        let s = match draw(8) {
            0 => 0,
            1 => len as u64 + 1,
            2 => (len as u64).saturating_sub(1),
            3 => len as u64 / 2,
            4 => len as u64 * 2,
            5 => 4096,
            6 => len as u64 + draw(70000),
            _ => draw(len as u64 + 1),
        };
        p.sizes.push((s, 0));
    }
}
fn slow_writes(p: &mut Plan) {
    for which in 0..2 {
        let (ops, rest) = if which == 0 { (&mut p.out, &mut p.out_rest) } else { (&mut p.err, &mut p.err_rest) };
        match draw(4) {
            0 | 1 => {}
            2 => {
                for _ in 0..range(1, 6) {
                    let i = draw(60) as usize;
                    set(ops, i, transient(true));
                }
            }
            _ => {
                *rest = Op { kind: SHORT, arg: *pick(&[1u32, 2, 5, 16, 64]) };
            }
        }
    }
}
const READ_ERR: [u32; 9] = [5, 21, 116, 11, 12, 6, 121, 110, 103];
const OPEN_ERR: [u32; 9] = [2, 13, 5, 24, 23, 40, 6, 12, 20];
const WRITE_ERR: [u32; 7] = [32, 28, 5, 11, 27, 122, 104];
/// What usually fails, or any error number at all: devices and network file systems have their own.
fn errno(usual: &[u32]) -> u32 {
    if chance(1, 2) {
        return *pick(usual);
    }
    match range(1, 133) as u32 {
        // an interrupted call is no failed one
        4 => 5,
        // the runtime takes a closed standard stream for one nobody reads
        9 if usual.len() == WRITE_ERR.len() => 5,
        n => n,
    }
}

fn broken_reads(p: &mut Plan, reads: u32) {
    match draw(5) {
        0 => p.open_errno = errno(&OPEN_ERR),
        1 => p.is_dir = true,
        _ => {
            let i = draw(reads as u64 + 1) as usize;
            let o = Op { kind: FAIL, arg: errno(&READ_ERR) };
            set(&mut p.read, i, o);
            if chance(1, 2) {
                // and the device stays broken
                p.read.truncate(i + 1);
                p.read_rest = o;
            }
        }
    }
}
fn broken_writes(p: &mut Plan, outs: u32) {
    let i = draw(outs as u64 + 1) as usize;
    let o = if chance(1, 6) { Op { kind: ZERO, arg: 0 } } else { Op { kind: FAIL, arg: errno(&WRITE_ERR) } };
    set(&mut p.out, i, o);
    if chance(1, 3) && i > 0 {
        // the device takes only part of the call before
        set(&mut p.out, i - 1, Op { kind: SHORT, arg: *pick(&[1u32, 2, 5]) });
    }
    if chance(1, 2) {
        p.out.truncate(i + 1);
        p.out_rest = o;
    }
}
fn broken_stderr(p: &mut Plan) {
    let o = if chance(1, 6) { Op { kind: ZERO, arg: 0 } } else { Op { kind: FAIL, arg: errno(&WRITE_ERR) } };
    let i = draw(3) as usize;
    set(&mut p.err, i, o);
    if chance(1, 2) {
        p.err.truncate(i + 1);
        p.err_rest = o;
    }
}
fn about(i: &Input, p: &Plan) -> String {
    let mut s = format!("decoder {} on {}", String::from_utf8_lossy(i.mode), show(&i.file));
    let t = format!("{:?}", p);
    let _ = write!(s, "; plan {}", t.chars().take(700).collect::<String>());
    s
}
fn shorten(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned()
}
const PATH: &[u8] = b"/sim/input";
/// Any name is a file's name; none of these means anything else to the tool.
const NAMES: [&[u8]; 28] = [
    b"-", b"--", b"--der", b"--certs", b"--help", b"-h", b"input", b"/sim/a b.cer", b"/sim/cert.pem", b"./cert.der", b"cert.cer.gz", b"@list", b"a,b", b"*.cer", b"~/cert", b"$HOME/x",
    b"http://host/cert.cer", b"file:///sim/x", b"C:\\cert.cer", b"/sim/../sim/x", b"\xc3\xbc\xe2\x82\xac.der", b"a\nb", b"%s{}{0}",
    // names are bytes, whatever encoding the system of whoever chose them uses
    b"/sim/z\xfcrich.cer", b"\xff", b"\xed\xa0\x80", b"cert\xc3",
    b"/sim/this is a rather long name for a file that holds a single certificate of some kind",
];
fn must_finish(d: &Done, i: &Input, p: &Plan) {
    if d.hang {
        rt::violate("never-finishes", &format!("{} I/O calls and still going; {}", d.steps, about(i, p)));
    }
}
fn prefix(d: &Done, w: &Want, i: &Input, p: &Plan) {
    if !w.out.starts_with(&d.out) {
        let k = d.out.iter().zip(&w.out).position(|(a, b)| a != b).unwrap_or(w.out.len().min(d.out.len()));
        rt::violate(
            "output-wrong",
            &format!("delivered output leaves the report at byte {} ({:?} instead of {:?}); {}", k, shorten(&d.out[k..]), shorten(&w.out[k.min(w.out.len())..]), about(i, p)),
        );
    }
    if d.out.len() < w.out.len() && !d.out.is_empty() {
        rt::count(C::probe_tool_partial_output);
    }
}
fn note_result(w: &Want, d: &Done) {
    if w.accepted && d.out.len() == w.out.len() && d.exit == 0 {
        rt::count(C::probe_tool_full_report);
    }
    if !w.accepted {
        rt::count(C::probe_tool_refused);
    }
}

// ---- the checks --------------------------------------------------------------------------------------

/// Delivery of the file and of the output does not change the result.
pub fn c10() {
    let mut m = machine();
    let i = input();
    let plain = Plan::default();
    let base = m.exec(&[i.mode, PATH], &i.file, &plain);
    must_finish(&base, &i, &plain);
    if let Some(w) = want(i.mode, &i.file) {
        note_result(&w, &base);
    }
    for _ in 0..range(1, 3) {
        let mut p = Plan::after(&base);
        slow_reads(&mut p, i.file.len());
        size_lies(&mut p, i.file.len());
        slow_writes(&mut p);
        // nor does what surrounds the tool
        m.world = world();
        let named = m.name;
        m.name = a_name();
        // a diagnostic may say which file it is about
        let same_err = |d: &Done| if m.name == named { d.err == base.err } else { d.err.is_empty() == base.err.is_empty() };
        let d = m.exec(&[i.mode, PATH], &i.file, &p);
        must_finish(&d, &i, &p);
        if d.exit != base.exit || d.out != base.out || !same_err(&d) {
            let what = if d.exit != base.exit {
                format!("exit {} instead of {} ({})", d.exit, base.exit, shorten(&d.err))
            } else if d.out != base.out {
                format!("{} bytes of output instead of {}", d.out.len(), base.out.len())
            } else {
                format!("error stream {:?} instead of {:?}", shorten(&d.err), shorten(&base.err))
            };
            rt::violate("delivery-changes-result", &format!("{}; {}", what, about(&i, &p)));
        }
        // every call either moves a byte or ends something
        let settled = p.read_rest.kind == FULL && p.out_rest.kind == FULL && p.err_rest.kind == FULL;
        if settled {
            let after = d.steps.saturating_sub(d.last_fault);
            let bound = 256 + i.file.len() as u64 + d.out.len() as u64 + d.err.len() as u64;
            if after > bound {
                rt::violate("too-many-calls", &format!("{} I/O calls after the last fault, for {} bytes; {}", after, bound - 256, about(&i, &p)));
            }
        }
    }
}
/// A failed open or read is reported and nothing is decoded.
pub fn c11() {
    let m = machine();
    let i = if chance(1, 3) { input() } else { good_input() };
    let plain = Plan::default();
    let base = m.exec(&[i.mode, PATH], &i.file, &plain);
    must_finish(&base, &i, &plain);
    for _ in 0..range(1, 3) {
        let mut p = Plan::after(&base);
        if chance(1, 2) {
            size_lies(&mut p, i.file.len());
        }
        let mut reads = base.reads;
        if chance(1, 2) && i.file.len() < 20000 {
            // many small reads before the one that fails
            let k = *pick(&[100u32, 33, 32, 512, 4096]);
            p.read_rest = Op { kind: SHORT, arg: k };
            reads = (i.file.len() as u32 / k) + 2;
            let n = reads as usize;
            for j in 0..n.min(NOPS) {
                set(&mut p.read, j, p.read_rest);
            }
        }
        broken_reads(&mut p, reads);
        if chance(1, 4) {
            let j = draw(reads as u64 + 1) as usize;
            if p.read.get(j).map(|o| o.kind != FAIL).unwrap_or(false) {
                set(&mut p.read, j, Op { kind: EINTR, arg: 0 });
            }
        }
        let d = m.exec(&[i.mode, PATH], &i.file, &p);
        must_finish(&d, &i, &p);
        if d.f_open + d.f_read == 0 {
            // the failing call was never made
            if d.exit != base.exit || d.out != base.out || d.err != base.err {
                rt::violate("delivery-changes-result", &format!("no read failed, and the result differs; {}", about(&i, &p)));
            }
            continue;
        }
        if d.fail_at_eof > 0 {
            rt::count(C::probe_tool_error_at_eof);
        }
        if !d.out.is_empty() {
            rt::violate("decoded-after-failed-read", &format!("{} bytes of output after {} bytes were read ({:?}); {}", d.out.len(), d.delivered, shorten(&d.out), about(&i, &p)));
        }
        if d.exit == 0 {
            rt::violate("failed-read-not-reported", &format!("exit status 0 after {} bytes were read; {}", d.delivered, about(&i, &p)));
        }
        if d.err.is_empty() {
            rt::violate("failed-read-not-reported", &format!("silent error stream, exit {}; {}", d.exit, about(&i, &p)));
        }
    }
}
/// What reaches the output is a beginning of the report; what does not is a failure.
pub fn c12() {
    let m = machine();
    let i = if chance(1, 3) { input() } else { good_input() };
    let plain = Plan::default();
    let base = m.exec(&[i.mode, PATH], &i.file, &plain);
    must_finish(&base, &i, &plain);
    let Some(w) = want(i.mode, &i.file) else { return };
    if base.exit >= 0 {
        prefix(&base, &w, &i, &plain);
        if base.out != w.out && base.exit == 0 {
            rt::violate("lost-output-not-reported", &format!("{} of {} bytes of the report, exit 0, nothing failed; {}", base.out.len(), w.out.len(), about(&i, &plain)));
        }
    }
    for _ in 0..range(1, 4) {
        let mut p = Plan::after(&base);
        if chance(1, 2) {
            slow_writes(&mut p);
        }
        // anywhere in the report, including its last call
        broken_writes(&mut p, base.outs.max(1) - 1);
        if chance(1, 4) {
            broken_writes(&mut p, base.outs);
        }
        let d = m.exec(&[i.mode, PATH], &i.file, &p);
        must_finish(&d, &i, &p);
        prefix(&d, &w, &i, &p);
        if d.out.len() < w.out.len() && d.exit == 0 {
            rt::violate("lost-output-not-reported", &format!("{} of {} bytes of the report were delivered, {} writes failed, exit 0; {}", d.out.len(), w.out.len(), d.f_out, about(&i, &p)));
        }
    }
}
/// Any mix: a clean finish means a complete decode.
pub fn c13() {
    let m = machine();
    if chance(1, 12) {
        return usage(m);
    }
    let i = input();
    let plain = Plan::default();
    let base = m.exec(&[i.mode, PATH], &i.file, &plain);
    must_finish(&base, &i, &plain);
    let Some(w) = want(i.mode, &i.file) else { return };
    note_result(&w, &base);
    judge_mix(&base, &w, &i, &plain);
    judge_report(&base, &i);
    for _ in 0..range(1, 4) {
        let mut p = Plan::after(&base);
        if chance(1, 2) {
            slow_reads(&mut p, i.file.len());
        }
        if chance(1, 3) {
            size_lies(&mut p, i.file.len());
            if chance(1, 3) {
                p.sizes.push(*pick(&[(0, 5u32), (0, 9), (1 << 40, 0), (u64::MAX >> 1, 0), (1 << 31, 0)]));
            }
        }
        if chance(1, 8) {
            p.seek_errno = *pick(&[29u32, 22, 5]);
        }
        if chance(1, 3) {
            broken_reads(&mut p, base.reads);
        }
        if chance(1, 2) {
            slow_writes(&mut p);
        }
        if chance(1, 3) {
            broken_writes(&mut p, base.outs);
        }
        if chance(1, 4) {
            broken_stderr(&mut p);
        }
        if chance(1, 4) {
            refusals(&mut p, &base);
        }
        let d = m.exec(&[i.mode, PATH], &i.file, &p);
        must_finish(&d, &i, &p);
        judge_mix(&d, &w, &i, &p);
    }
}
/// Nothing failed: what was delivered is the report the reference model writes for these bytes.
fn judge_report(d: &Done, i: &Input) {
    let (p, ok) = if i.mode == b"--der" {
        let (p, ok) = crate::report::der_listing(&i.file);
        (Some(p), ok)
    } else {
        let p = crate::report::cert_listing(&i.file);
        let ok = p.is_some();
        (p, ok)
    };
    if d.exit != 0 {
        if ok {
            rt::violate("good-file-refused", &format!("nothing failed and the file is good, yet exit {}; error stream {:?}; {}", d.exit, shorten(&d.err), about(i, &Plan::default())));
        }
        return;
    }
    let fits = p.map(|p| p.matches(&d.out)).unwrap_or(d.out.is_empty());
    if !fits {
        rt::violate("report-wrong", &format!("exit 0 and {} bytes of output that are not the report of this file: {:?}; {}", d.out.len(), shorten(&d.out), about(i, &Plan::default())));
    }
    if d.err.is_empty() != ok {
        rt::violate("report-wrong", &format!("exit 0, the file is {}, error stream {:?}; {}", if ok { "good" } else { "not good" }, shorten(&d.err), about(i, &Plan::default())));
    }
}
/// Any mix of faults: the tool reads the file it was given and writes its two streams, nothing else.
pub fn c24() {
    let m = machine();
    let i = if chance(1, 3) { good_input() } else { input() };
    let quiet = |d: &Done, p: &Plan| {
        if let Some(w) = d.side.first() {
            rt::violate("leaves-a-trace", &format!("besides reading its file and writing its streams the tool did: {} ({} such calls); {}", w, d.side.len(), about(&i, p)));
        }
    };
    let plain = Plan::default();
    let base = m.exec(&[i.mode, PATH], &i.file, &plain);
    quiet(&base, &plain);
    for _ in 0..range(1, 4) {
        let mut p = Plan::after(&base);
        if chance(1, 4) {
            slow_reads(&mut p, i.file.len());
        }
        if chance(1, 4) {
            size_lies(&mut p, i.file.len());
        }
        if chance(1, 8) {
            p.seek_errno = *pick(&[29u32, 22, 5]);
        }
        if chance(1, 2) {
            broken_reads(&mut p, base.reads);
        }
        if chance(1, 3) {
            slow_writes(&mut p);
        }
        if chance(1, 2) {
            broken_writes(&mut p, base.outs);
        }
        if chance(1, 4) {
            broken_stderr(&mut p);
        }
        if chance(1, 4) {
            refusals(&mut p, &base);
        }
        if chance(1, 8) {
            p.swap = Some((draw(8) as u32, if chance(1, 2) { None } else { Some(good_input().file) }));
        }
        let wrong: [&[&[u8]]; 6] = [&[], &[i.mode], &[i.mode, PATH, PATH], &[b"--help", PATH], &[b"", PATH], &[i.mode, b""]];
        let d = if chance(1, 10) { m.exec(*pick(&wrong), &i.file, &p) } else { m.exec(&[i.mode, PATH], &i.file, &p) };
        must_finish(&d, &i, &p);
        quiet(&d, &p);
    }
}
/// The file is replaced (or removed) at some point: the answer is that of one of the two.
pub fn c25() {
    let m = machine();
    let i = if chance(1, 2) { good_input() } else { input() };
    let plain = Plan::default();
    let base = m.exec(&[i.mode, PATH], &i.file, &plain);
    must_finish(&base, &i, &plain);
    let other = match draw(8) {
        0 => None,
        1 => Some(Vec::new()),
        2 => {
            // the same, longer or shorter
            let mut f = i.file.clone();
            let k = draw(f.len() as u64 + 1) as usize;
            f.truncate(k);
            Some(f)
        }
        3 => Some([&i.file[..], &i.file[..]].concat()),
        4 => {
            let mut f = i.file.clone();
            if !f.is_empty() {
                let k = f.len() - 1 - draw(f.len().min(200) as u64) as usize;
                f[k] ^= 1 << draw(8);
            }
            Some(f)
        }
        _ => Some(if chance(1, 2) { good_input().file } else { input().file }),
    };
    let other = other.map(|mut f| {
        f.truncate(FILECAP);
        f
    });
    // what the tool says about the other file alone
    let after = match &other {
        Some(f) => m.exec(&[i.mode, PATH], f, &plain),
        None => m.exec(&[i.mode, PATH], &i.file, &Plan { open_errno: 2, ..Plan::after(&base) }),
    };
    must_finish(&after, &i, &plain);
    for _ in 0..range(1, 3) {
        let mut p = Plan::after(&base);
        p.written = base.out.len() + base.err.len() + after.out.len() + after.err.len() + 1;
        if chance(1, 2) {
            slow_reads(&mut p, i.file.len());
        }
        if chance(1, 4) {
            slow_writes(&mut p);
        }
        p.swap = Some((draw(if p.read.is_empty() && p.read_rest.kind == FULL { 8 } else { 30 }) as u32, other.clone()));
        let d = m.exec(&[i.mode, PATH], &i.file, &p);
        must_finish(&d, &i, &p);
        let is = |x: &Done| d.exit == x.exit && d.out == x.out && d.err == x.err;
        if is(&base) && !is(&after) {
            rt::count(C::probe_swap_old);
        } else if is(&after) && !is(&base) {
            rt::count(C::probe_swap_new);
        } else if !is(&base) {
            rt::violate(
                "mixed-versions",
                &format!(
                    "exit {}, {} bytes of output, error stream {:?}: neither the answer for the old file (exit {}, {} bytes) nor for the new ({}, {} bytes); {}",
                    d.exit, d.out.len(), shorten(&d.err), base.exit, base.out.len(), after.exit, after.out.len(), about(&i, &p)
                ),
            );
        }
    }
}
fn judge_mix(d: &Done, w: &Want, i: &Input, p: &Plan) {
    prefix(d, w, i, p);
    let clean = d.exit == 0 && d.err.is_empty();
    if clean {
        if !w.accepted {
            rt::violate("clean-finish-on-refused-file", &format!("exit 0 and a silent error stream; {}", about(i, p)));
        }
        if d.out != w.out {
            rt::violate("clean-finish-incomplete", &format!("exit 0, {} of {} bytes of the report; {}", d.out.len(), w.out.len(), about(i, p)));
        }
        if d.f_open + d.f_read > 0 {
            rt::violate("clean-finish-incomplete", &format!("exit 0 although reading the file failed; {}", about(i, p)));
        }
    }
    if d.f_open + d.f_read + d.f_out + d.f_err + d.f_alloc == 0 && d.exit == 0 && w.accepted && !d.err.is_empty() {
        rt::violate("diagnostic-for-accepted-file", &format!("{:?}; {}", shorten(&d.err), about(i, p)));
    }
}
fn usage(m: Machine) {
    // a name that reads like a flag could make these right
    let m = Machine { name: PATH, ..m };
    let f = pick(&disk::CORPUS).to_vec();
    rt::nontrivial();
    rt::count(C::probe_tool_usage_error);
    const FLAGS: [&[u8]; 28] = [
        b"--version", b"-V", b"-v", b"-h", b"-?", b"--usage", b"--d", b"--de", b"--c", b"--cer", b"--certificates", b"--ders", b"-der", b"-certs", b"der", b"certs", b"-d", b"-c", b"--Der", b"--Certs", b"--der=/sim/input",
        b"--certs=/sim/input", b"--", b"-", b"/der", b" --der", b"\xe2\x80\x93der", b"--x509",
    ];
    let flag: &[u8] = *pick(&FLAGS);
    let args: Vec<&[u8]> = match draw(19) {
        // no file has no name
        18 => vec![*pick(&[b"--der" as &[u8], b"--certs"]), b""],
        12 => vec![flag],
        13 => vec![flag, PATH],
        14 => vec![flag, b"--der", PATH],
        15 => vec![b"--certs", flag, PATH],
        16 => vec![*pick(&[b"--der" as &[u8], b"--certs"]), PATH, flag],
        17 => vec![b"--der", b"--certs", PATH],
        0 => vec![],
        1 => vec![b"--der"],
        2 => vec![b"--certs", PATH, PATH],
        3 => vec![PATH, b"--der"],
        4 => vec![b"--DER", PATH],
        5 => vec![b"", PATH],
        6 => vec![b"--cert", PATH],
        7 => vec![b"--der", PATH, b""],
        8 => vec![b"--certs ", PATH],
        9 => vec![b"--help"],
        10 => vec![PATH],
        _ => vec![b"--der\xff", PATH],
    };
    let mut p = Plan::default();
    if chance(1, 2) {
        slow_writes(&mut p);
    }
    let d = m.exec(&args, &f, &p);
    let shown: Vec<String> = args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
    rt::mix_bytes(shown.join(" ").as_bytes());
    if d.hang || d.exit == 0 || !d.out.is_empty() || d.err.is_empty() {
        rt::violate("wrong-usage-not-refused", &format!("arguments {:?}: exit {}, {} bytes of output, error stream {:?}", shown, d.exit, d.out.len(), shorten(&d.err)));
    }
}
fn refusals(p: &mut Plan, base: &Done) {
    let n = base.allocs;
    p.alloc = match draw(5) {
        0 => (1, draw(n + 1), 0),
        1 => (2, draw(n + 1), 0),
        2 => (3, 0, draw(base.peak + 1)),
        3 => (4, 0, *pick(&[8u64, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 65536])),
        _ => (5, draw(n + 1), 0),
    };
}
/// Refused memory stops the tool or changes nothing.
pub fn c14() {
    let m = machine();
    let i = if chance(1, 3) { input() } else { good_input() };
    let plain = Plan::default();
    let base = m.exec(&[i.mode, PATH], &i.file, &plain);
    must_finish(&base, &i, &plain);
    let Some(w) = want(i.mode, &i.file) else { return };
    if base.exit != 0 || base.out != w.out {
        // not a matter of memory; C12 and C13 look at it
        return;
    }
    for _ in 0..range(1, 6) {
        let mut p = Plan::after(&base);
        refusals(&mut p, &base);
        if chance(1, 4) {
            // memory grows in many steps if the size is not known ahead
            p.sizes.push((0, 0));
        }
        if chance(1, 4) {
            p.read_rest = Op { kind: SHORT, arg: *pick(&[100u32, 512, 1024]) };
        }
        let d = m.exec(&[i.mode, PATH], &i.file, &p);
        must_finish(&d, &i, &p);
        prefix(&d, &w, &i, &p);
        if d.f_alloc > 0 {
            rt::count(C::probe_real_alloc_failed_run);
        }
        if d.exit == 0 {
            if d.out != w.out {
                rt::violate("success-with-incomplete-report", &format!("exit 0, {} of {} bytes of the report, {} requests refused; {}", d.out.len(), w.out.len(), d.f_alloc, about(&i, &p)));
            }
            if d.err != base.err {
                rt::violate("memory-changes-verdict", &format!("exit 0, error stream {:?} instead of {:?}; {}", shorten(&d.err), shorten(&base.err), about(&i, &p)));
            }
            note_result(&w, &d);
        } else if d.f_alloc == 0 {
            rt::violate("memory-changes-verdict", &format!("exit {} although no memory was refused; {}", d.exit, about(&i, &p)));
        }
    }
}
