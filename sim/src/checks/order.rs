//! C06-C08: histories, interleavings, abandonment and re-entry.
use super::*;
use crate::model::*;
use crate::der::{oid_content, tlv};
use crate::real;
use crate::refdec::{self, Ev};
use crate::report::{self, Tok};
use crate::sched::{self, real as run_real, Point, Stop};
use rx509::der::parse_all;
use rx509::x509::ext::Extension;
use rx509::x509::printer::Printable;
use rx509::x509::Certificate;
use std::marker::PhantomData;

const STACK: usize = 1 << 20;

// Certificates are shared between tasks only as far as the compiler lets a user do so.
struct IsSync<T>(PhantomData<T>);
trait NotSync {
    fn yes() -> bool {
        false
    }
}
impl<T> NotSync for IsSync<T> {}
impl<T: Sync + Send> IsSync<T> {
    fn yes() -> bool {
        true
    }
}
pub fn shareable() -> bool {
    IsSync::<Certificate<'static>>::yes()
}
#[derive(Clone, Copy)]
pub struct Shared(pub &'static Certificate<'static>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    pub fn get(self) -> &'static Certificate<'static> {
        self.0
    }
}

// ---- C06 -------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpKind {
    Walk,
    WalkAbandoned(u16),
    Cert,
    Name,
    Ext,
    Print,
    PrintAbandoned(u16),
    /// a walk whose receiver formats each value it is shown
    Text,
}
/// What an operation showed: a part the reference predicts, and a part only repetition can check.
#[derive(Clone, PartialEq, Eq)]
pub struct Seen {
    pub shape: String,
    pub text: String,
}
fn h(s: &str) -> u64 {
    rt::hash_bytes(s.as_bytes())
}
fn stream_text(t: &[Tok]) -> String {
    let mut s = String::new();
    for x in t {
        match x {
            Tok::Begin => s.push('{'),
            Tok::End => s.push('}'),
            Tok::Line => s.push('>'),
            Tok::Text(t) => s.push_str(t),
            Tok::AnyLine(t) => s.push_str(t),
        }
    }
    s
}
fn events_text(e: &[Ev]) -> String {
    let mut s = String::with_capacity(e.len() * 12);
    for x in e {
        match x {
            Ev::Type(a) => {
                s.push_str(&asn_s(a));
                s.push(';');
            }
            Ev::Enter => s.push('{'),
            Ev::Leave => s.push('}'),
            Ev::Error => s.push('!'),
        }
    }
    s
}
fn cert_text(c: &RCert) -> String {
    let mut s = String::new();
    for (k, v) in fields(c) {
        s.push_str(&k);
        s.push('=');
        s.push_str(&v);
        s.push('\n');
    }
    s
}
type Inside = Option<Box<dyn Fn(u64)>>;
/// A receiver that formats what it is told.
struct Formatter {
    s: String,
    inside: Inside,
    n: u64,
}
impl Formatter {
    fn note(&mut self, t: &str) {
        sched::callback(|| {
            sched::point(Point::Callback);
            self.n += 1;
            self.s.push_str(t);
            if let Some(f) = &self.inside {
                f(self.n);
            }
        });
    }
}
impl rx509::der::ParseHandler for Formatter {
    fn begin_constructed(&mut self) {
        self.note("{");
    }
    fn end_constructed(&mut self) {
        self.note("}");
    }
    fn on_type(&mut self, a: &rx509::der::ASNType) {
        let t = format!("{};", a);
        self.note(&t);
    }
    fn on_error(&mut self, e: &rx509::der::ASNError) {
        let t = format!("! {} {:?};", e, e);
        self.note(&t);
    }
}
/// Performs one operation of the code under test on `b` and says what it showed.
pub fn perform(op: OpKind, b: &[u8], inside: Inside) -> Seen {
    let panicked = |m: String, l: String| Seen { shape: format!("panicked at {}: {}", l, m), text: String::new() };
    match op {
        OpKind::Walk | OpKind::WalkAbandoned(_) => {
            let mut r = real::Recorder::new();
            if let OpKind::WalkAbandoned(k) = op {
                r.stop_at = k as u64;
            }
            r.inside = inside;
            match run_real(|| parse_all(b, &mut r).map_err(|e| format!("{:?} {}", e, e))) {
                Ok(x) => Seen { shape: format!("{} {}", events_text(&r.evs), if x.is_ok() { "ok" } else { "refused" }), text: format!("{:?} {:?}", x, r.errors) },
                Err(Stop::Abandoned) => Seen { shape: format!("{} abandoned", events_text(&r.evs)), text: format!("{:?}", r.errors) },
                Err(Stop::Panicked(m, l)) => panicked(m, l),
            }
        }
        OpKind::Cert => match run_real(|| Certificate::parse(b).map(|c| real::cert(&c)).map_err(|e| format!("{:?} {}", e, e))) {
            Ok(Ok(c)) => Seen { shape: cert_text(&c), text: String::new() },
            Ok(Err(e)) => Seen { shape: "refused".into(), text: e },
            Err(Stop::Panicked(m, l)) => panicked(m, l),
            Err(Stop::Abandoned) => rt::harness_error("unexpected abandonment"),
        },
        OpKind::Name => match real::named(b, |n| run_real(|| n.map_or(Err("carrier".into()), |n| n.parse().map(|r| real::rdn(&r)).map_err(|e| format!("{:?} {}", e, e))))) {
            Ok(Ok(r)) => Seen { shape: format!("{:?}", r), text: String::new() },
            Ok(Err(e)) => Seen { shape: "refused".into(), text: e },
            Err(Stop::Panicked(m, l)) => panicked(m, l),
            Err(Stop::Abandoned) => rt::harness_error("unexpected abandonment"),
        },
        OpKind::Ext => match run_real(|| Extension::parse(b).map(|x| real::ext(&x)).map_err(|e| format!("{:?} {}", e, e))) {
            Ok(Ok(r)) => Seen { shape: format!("{:?}", r), text: String::new() },
            Ok(Err(e)) => Seen { shape: "refused".into(), text: e },
            Err(Stop::Panicked(m, l)) => panicked(m, l),
            Err(Stop::Abandoned) => rt::harness_error("unexpected abandonment"),
        },
        OpKind::Text => {
            let mut f = Formatter { s: String::new(), inside, n: 0 };
            match run_real(|| parse_all(b, &mut f).map_err(|e| format!("{:?} {}", e, e))) {
                Ok(x) => Seen { shape: if x.is_ok() { "ok" } else { "refused" }.into(), text: format!("{} {:?}", f.s, x) },
                Err(Stop::Abandoned) => rt::harness_error("unexpected abandonment"),
                Err(Stop::Panicked(m, l)) => panicked(m, l),
            }
        }
        OpKind::Print | OpKind::PrintAbandoned(_) => {
            let mut s = real::Sink::new();
            if let OpKind::PrintAbandoned(k) = op {
                s.stop_at = k as u64;
            }
            s.inside = inside;
            match run_real(|| match Certificate::parse(b) {
                Ok(c) => {
                    c.print(&mut s);
                    true
                }
                Err(_) => false,
            }) {
                Ok(true) => Seen { shape: "printed".into(), text: stream_text(&s.s.0) },
                Ok(false) => Seen { shape: "refused".into(), text: String::new() },
                Err(Stop::Abandoned) => Seen { shape: "abandoned".into(), text: stream_text(&s.s.0) },
                Err(Stop::Panicked(m, l)) => panicked(m, l),
            }
        }
    }
}
/// The predicted shape, where the reference has one.
fn predicted(op: OpKind, b: &[u8]) -> Option<String> {
    Some(match op {
        OpKind::Walk => {
            let w = refdec::walk(b);
            format!("{} {}", events_text(&w.evs), if w.ok { "ok" } else { "refused" })
        }
        OpKind::WalkAbandoned(k) => {
            let w = refdec::walk(b);
            let k = k as usize;
            if k < w.evs.len() {
                format!("{} abandoned", events_text(&w.evs[..k]))
            } else {
                format!("{} {}", events_text(&w.evs), if w.ok { "ok" } else { "refused" })
            }
        }
        OpKind::Text => if refdec::walk(b).ok { "ok".into() } else { "refused".into() },
        OpKind::Cert => refdec::cert(b).map(|c| cert_text(&c)).unwrap_or("refused".into()),
        OpKind::Name => refdec::name(b).map(|r| format!("{:?}", r)).unwrap_or("refused".into()),
        OpKind::Ext => refdec::extension(b).map(|r| format!("{:?}", r)).unwrap_or("refused".into()),
        OpKind::Print => {
            if refdec::cert(b).is_ok() {
                "printed".into()
            } else {
                "refused".into()
            }
        }
        OpKind::PrintAbandoned(_) => return None,
    })
}
/// The predicted text of a formatting receiver, where nothing is malformed.
fn predicted_text(op: OpKind, b: &[u8]) -> Option<String> {
    if op != OpKind::Text {
        return None;
    }
    let w = refdec::walk(b);
    if !w.ok {
        return None;
    }
    let mut s = String::new();
    for e in &w.evs {
        match e {
            Ev::Type(a) => {
                s.push_str(&report::asn_text(a));
                s.push(';');
            }
            Ev::Enter => s.push('{'),
            Ev::Leave => s.push('}'),
            Ev::Error => s.push('!'),
        }
    }
    let done: Result<(), String> = Ok(());
    Some(format!("{} {:?}", s, done))
}
fn encode(op: OpKind, b: &[u8], seen: Option<&Seen>) -> Vec<u8> {
    let (k, a) = match op {
        OpKind::Walk => (0u8, 0u16),
        OpKind::WalkAbandoned(a) => (1, a),
        OpKind::Cert => (2, 0),
        OpKind::Name => (3, 0),
        OpKind::Ext => (4, 0),
        OpKind::Print => (5, 0),
        OpKind::PrintAbandoned(a) => (6, a),
        OpKind::Text => (7, 0),
    };
    let mut v = vec![k, (a >> 8) as u8, a as u8, seen.is_some() as u8];
    v.extend(seen.map(|s| h(&s.shape) ^ h(&s.text).rotate_left(1)).unwrap_or(0).to_le_bytes());
    v.extend((b.len() as u32).to_le_bytes());
    v.extend_from_slice(b);
    v
}
/// In a fresh process: performs the encoded operation and compares with what was seen. Ends with
/// ok if a fresh process shows the same, with a violation if it does not.
pub fn judge(aux: &[u8]) {
    let a = u16::from_be_bytes([aux[1], aux[2]]);
    let op = match aux[0] {
        0 => OpKind::Walk,
        1 => OpKind::WalkAbandoned(a),
        2 => OpKind::Cert,
        3 => OpKind::Name,
        4 => OpKind::Ext,
        5 => OpKind::Print,
        7 => OpKind::Text,
        _ => OpKind::PrintAbandoned(a),
    };
    let had = aux[3] == 1;
    let hash = u64::from_le_bytes(aux[4..12].try_into().unwrap());
    let n = u32::from_le_bytes(aux[12..16].try_into().unwrap()) as usize;
    crate::around::plain();
    let b = leak(aux[16..16 + n].to_vec());
    sched::run_one(STACK, move || {
        let s = perform(op, b, None);
        let now = h(&s.shape) ^ h(&s.text).rotate_left(1);
        if !had || now != hash {
            let t: String = format!("{} {}", s.shape, s.text).chars().take(160).collect();
            rt::violate("depends-on-history", &format!("in a fresh process {:?} gives: {}", op, t));
        }
    });
}
/// In odd surroundings: the operation whose outcome a fresh process in plain ones is asked to show.
static SAMPLE: std::sync::Mutex<(u64, Vec<u8>)> = std::sync::Mutex::new((0, Vec::new()));
pub fn begin(odd: bool) {
    *SAMPLE.lock().unwrap() = (if odd { range(1, 12) } else { 0 }, Vec::new());
}
/// The end of a run: what was seen in odd surroundings has to be what plain ones show.
fn end() {
    let s = SAMPLE.lock().unwrap();
    if !s.1.is_empty() {
        rt::count(C::probe_odd_sampled);
        rt::suspect("depends-on-surroundings", "an operation in odd surroundings", &s.1);
    }
}
type Memo = std::sync::Mutex<Vec<((u64, u64), u64)>>;
static MEMO: Memo = std::sync::Mutex::new(Vec::new());

/// One operation in the simulated process, compared with what it has to show.
fn step(op: OpKind, id: u64, b: &'static [u8], buf: Option<&mut Vec<u8>>, inside: Inside) {
    rt::count(C::ops);
    let was = crate::seam::bypass(true);
    rt::note_aux(&encode(op, b, None));
    crate::seam::bypass(was);
    let seen = match buf {
        None => perform(op, b, inside),
        Some(buf) => {
            // the same storage serves one decode after another
            buf.clear();
            buf.extend_from_slice(b);
            rt::count(C::fault_buffer_recycled);
            perform(op, buf, inside)
        }
    };
    let was = crate::seam::bypass(true);
    let opn = encode(op, &[], None)[..3].to_vec();
    let key = (rt::hash_bytes(&opn), id);
    let val = h(&seen.shape) ^ h(&seen.text).rotate_left(1);
    rt::mix(key.0 ^ val);
    let mut wrong: Option<String> = None;
    if seen.shape.starts_with("panicked") {
        wrong = Some(seen.shape.clone());
    }
    {
        let mut m = MEMO.lock().unwrap();
        match m.iter().find(|(k, _)| *k == key) {
            Some((_, v)) if *v != val => wrong = Some("differs from the same operation earlier in this run".into()),
            Some(_) => {}
            None => {
                m.push((key, val));
                if let Some(p) = predicted(op, b) {
                    if p != seen.shape {
                        let a: String = seen.shape.chars().take(120).collect();
                        wrong = Some(format!("shows {}", a));
                    } else if predicted_text(op, b).map_or(false, |t| t != seen.text) {
                        wrong = Some(format!("shows {}", seen.text.chars().take(120).collect::<String>()));
                    }
                }
            }
        }
    }
    {
        // the last of the first few, so that a short run has one too
        let mut s = SAMPLE.lock().unwrap();
        if s.0 > 0 && b.len() < 1 << 19 {
            s.0 -= 1;
            s.1 = encode(op, b, Some(&seen));
        }
    }
    if let Some(w) = wrong {
        trace!("{:?} on input {}: {}", op, id, w);
        rt::suspect("depends-on-history", &format!("{:?} on {}: {}", op, show(b), w), &encode(op, b, Some(&seen)));
    }
    crate::seam::bypass(was);
}
/// The same with the letters of one text in the other case, or one letter another.
fn other_letters(base: &[u8]) -> Vec<u8> {
    let mut b = base.to_vec();
    let texts: Vec<(usize, usize)> = (0..b.len().saturating_sub(2))
        .filter(|i| matches!(b[*i], 0x0c | 0x13 | 0x16 | 0x81 | 0x82 | 0x86))
        .map(|i| (i + 2, i + 2 + b[i + 1] as usize))
        .filter(|(s, e)| e <= &b.len() && s < e && b[*s..*e].iter().all(|c| (b' '..0x7f).contains(c)))
        .collect();
    if texts.is_empty() {
        return b;
    }
    let (s, e) = *pick(&texts);
    let letters: Vec<usize> = (s..e).filter(|i| b[*i].is_ascii_alphabetic()).collect();
    match draw(4) {
        0 | 1 => letters.iter().for_each(|i| b[*i] ^= 0x20),
        2 if !letters.is_empty() => b[*pick(&letters)] ^= 0x20,
        _ => b[e - 1] = if b[e - 1] == b'Q' { b'R' } else { b'Q' },
    }
    b
}
/// Inputs that are easily confused: the same base with small differences, damaged, cut, unrelated.
fn pool() -> Vec<&'static [u8]> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let base = if chance(1, 4) { pick(&disk::CORPUS).to_vec() } else { gen_cert(&GenCfg { size: 0, uids: chance(1, 4), unknown: true }).tree.bytes() };
    v.push(base.clone());
    let n = range(1, 5);
    for _ in 0..n {
        match draw(7) {
            6 => v.push(other_letters(&base)),
            0 => {
                // same length, one byte different somewhere late
                let mut b = base.clone();
                let i = b.len() / 2 + draw((b.len() - b.len() / 2) as u64) as usize;
                b[i] ^= 1 << draw(8);
                v.push(b);
            }
            1 => {
                let mut b = base.clone();
                let i = draw(b.len() as u64) as usize;
                b[i] = draw(256) as u8;
                v.push(b);
            }
            2 => v.push(base[..draw(base.len() as u64) as usize].to_vec()),
            3 => v.push(gen_cert(&GenCfg { size: 0, uids: false, unknown: true }).tree.bytes()),
            4 => {
                let mut t = gen_cert(&GenCfg { size: 0, uids: true, unknown: true }).tree;
                disk::mutate_tree(&mut t);
                v.push(t.bytes());
            }
            _ => {
                let d = range(2, 60) as usize;
                v.push(nest(d, &[0x30, 0xa0, 0x31], &crate::der::tlv(2, &[1])));
                if chance(1, 2) {
                    // the same, broken at the very bottom
                    let mut b = v.last().unwrap().clone();
                    let l = b.len();
                    b[l - 2] = 9;
                    v.push(b);
                }
            }
        }
    }
    v.into_iter().map(leak).collect()
}
/// Names and extensions of the pool's certificates, for the separately offered decoders.
fn parts(pool: &[&'static [u8]]) -> (Vec<&'static [u8]>, Vec<&'static [u8]>) {
    let mut names = Vec::new();
    let mut exts = Vec::new();
    for b in pool {
        if let Ok(c) = refdec::cert(b) {
            for n in c.names {
                names.push(leak(n.raw));
            }
        }
        // every SEQUENCE that reads as an extension
        for i in 0..b.len() {
            if b[i] == 0x30 {
                if let Ok(e) = refdec::header(b, i, b.len()) {
                    if refdec::extension(&b[e.c0..e.end]).is_ok() {
                        exts.push(&b[e.c0..e.end]);
                    }
                }
            }
        }
    }
    names.truncate(6);
    exts.truncate(8);
    (names, exts)
}
struct World {
    pool: Vec<&'static [u8]>,
    names: Vec<&'static [u8]>,
    exts: Vec<&'static [u8]>,
    shared: Vec<(Shared, String)>,
    recycle: bool,
}
fn any_op(w: &'static World, buf: &mut Vec<u8>, depth: u64) {
    sched::point(Point::Op);
    let k = draw(w.pool.len() as u64) as usize;
    let b = w.pool[k];
    let buf = if w.recycle && depth == 0 { Some(buf) } else { None };
    // a decode started from inside a notification
    let inside: Inside = if depth == 0 && chance(1, 8) {
        let at = draw(12) + 1;
        Some(Box::new(move |n| {
            if n == at {
                rt::fault(C::fault_reentry);
                trace!("  re-entry at notification {}", n);
                let mut none = Vec::new();
                any_op(w, &mut none, 1);
            }
        }))
    } else {
        None
    };
    let op = draw(12);
    trace!("task op {} on input {}", op, k);
    match op {
        0 | 1 => {
            rt::count(C::walks);
            step(OpKind::Walk, k as u64, b, buf, inside)
        }
        2 => {
            rt::fault(C::fault_receiver_abandons);
            step(OpKind::WalkAbandoned(draw(30) as u16), k as u64, b, buf, inside)
        }
        3 | 4 => {
            rt::count(C::cert_decodes);
            step(OpKind::Cert, k as u64, b, buf, None)
        }
        5 if !w.names.is_empty() => {
            let i = draw(w.names.len() as u64) as usize;
            step(OpKind::Name, 100 + i as u64, w.names[i], buf, None)
        }
        6 if !w.exts.is_empty() => {
            let i = draw(w.exts.len() as u64) as usize;
            step(OpKind::Ext, 200 + i as u64, w.exts[i], buf, None)
        }
        7 => {
            rt::count(C::reports);
            step(OpKind::Print, k as u64, b, buf, inside)
        }
        11 => {
            rt::count(C::walks);
            step(OpKind::Text, k as u64, b, buf, inside)
        }
        8 => {
            rt::fault(C::fault_sink_abandons);
            step(OpKind::PrintAbandoned(draw(60) as u16), k as u64, b, buf, inside)
        }
        9 if !w.shared.is_empty() => {
            // read a certificate that other tasks are reading too
            rt::count(C::probe_shared_cert_ops);
            rt::count(C::ops);
            let i = draw(w.shared.len() as u64) as usize;
            let (c, want) = &w.shared[i];
            let c = c.get();
            let got = match run_real(|| cert_text(&real::cert(c))) {
                Ok(t) => t,
                Err(Stop::Panicked(m, l)) => format!("panicked at {}: {}", l, m),
                Err(Stop::Abandoned) => rt::harness_error("unexpected abandonment"),
            };
            if &got != want {
                let d = got.lines().zip(want.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{} instead of {}", a, b)).unwrap_or_default();
                rt::violate("shared-certificate-changes", &format!("the same decoded certificate reads differently: {}", d.chars().take(300).collect::<String>()));
            }
        }
        _ => {
            // a decode that fails, to leave whatever it leaves behind
            rt::fault(C::fault_failed_decode_before);
            let cut = leak(b[..draw(b.len() as u64 + 1) as usize].to_vec());
            let id = rt::hash_bytes(cut) | 1 << 63;
            step(if chance(1, 2) { OpKind::Cert } else { OpKind::Walk }, id, cut, buf, None)
        }
    }
}
/// Small values and pieces, two or three that resemble each other.
fn trifles() -> (Vec<OpKind>, Vec<&'static [u8]>) {
    let n = range(2, 3);
    let cfg = GenCfg { size: 0, uids: false, unknown: true };
    let mut v: Vec<Vec<u8>> = Vec::new();
    match draw(5) {
        0 | 1 => {
            let kind = draw(6);
            for _ in 0..n {
                v.push(match kind {
                    0 | 1 | 2 => {
                        let known: &[&[u32]] = &[&[2, 5, 4, 3], &[2, 5, 4, 6], &[2, 5, 29, 15], &[1, 2, 840, 113549, 1, 1, 11], &[1, 3, 6, 1, 5, 5, 7, 3, 1], &[1, 3, 101, 112]];
                        tlv(6, &oid_content(&if chance(1, 2) { pick(known).to_vec() } else { gen_oid() }))
                    }
                    3 => tlv(0x17, pick(&[&b"200101000000Z"[..], b"991231235959Z", b"000229120000Z", b"490101000000Z", b"200101000061Z"])),
                    4 => tlv(3, pick(&[&[0u8, 0xa5][..], &[3, 0xf8], &[0], &[7, 0x80, 0x80], &[8, 1]])),
                    _ => tlv(2, pick(&[&[1u8][..], &[0x7f, 0xff], &[0x80], &[0, 0xff, 0xff], &[]])),
                });
            }
            (vec![OpKind::Text, OpKind::Walk], v.into_iter().map(leak).collect())
        }
        2 | 3 => {
            let whole = gen_cert(&GenCfg::any()).tree.bytes();
            let (names, exts) = parts(&[leak(whole), leak(gen_cert(&cfg).tree.bytes())]);
            if chance(1, 2) && !exts.is_empty() {
                (vec![OpKind::Ext], (0..n).map(|_| *pick(&exts)).collect())
            } else if !names.is_empty() {
                (vec![OpKind::Name], (0..n).map(|_| *pick(&names)).collect())
            } else {
                (vec![OpKind::Text], vec![leak(tlv(5, &[])), leak(tlv(1, &[0xff]))])
            }
        }
        _ => {
            let t = gen_cert(&cfg).tree.bytes();
            let mut u = t.clone();
            let i = draw(u.len() as u64) as usize;
            u[i] ^= 1 << draw(8);
            (vec![*pick(&[OpKind::Cert, OpKind::Print, OpKind::Text, OpKind::Walk])], vec![leak(t), leak(u)])
        }
    }
}
/// The same small work over and over in several tasks, cut short at every turn.
fn duel() {
    let (ops, pool) = trifles();
    let ops: &'static [OpKind] = Box::leak(ops.into_boxed_slice());
    for b in &pool {
        rt::mix_bytes(b);
        trace!("input {}", show(b));
    }
    rt::count(C::probe_duel);
    rt::nontrivial();
    let size: usize = pool.iter().map(|b| b.len()).sum();
    let times = if size > 200 { 4 } else { range(6, 24) };
    let pool: &'static [&'static [u8]] = Box::leak(pool.into_boxed_slice());
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..range(2, 3) {
        tasks.push(Box::new(move || {
            for _ in 0..times {
                sched::point(Point::Op);
                let k = draw(pool.len() as u64) as usize;
                let op = *pick(ops);
                trace!("task op {:?} on input {}", op, k);
                step(op, k as u64, pool[k], None, None);
            }
        }));
    }
    sched::run_tasks_at(tasks, STACK, 64, 16, *pick(&[6u64, 15, 40, 120, 400]));
}
/// One small piece of work more often than sixteen bits count, in one process.
fn marathon() {
    let (ops, pool) = trifles();
    let small: Vec<&'static [u8]> = pool.iter().copied().filter(|b| b.len() < 60).collect();
    let pool = if small.is_empty() { vec![leak(tlv(6, &[0x55, 4, 3])), leak(tlv(0x30, &tlv(1, &[1])))] } else { small };
    let pool = if chance(1, 2) {
        // all of one length, so that one overwrites the other in the same place
        let b = *pick(&pool);
        (0..3)
            .map(|i| {
                let mut b = b.to_vec();
                if let Some(l) = b.last_mut() {
                    *l ^= i;
                }
                leak(b)
            })
            .collect()
    } else {
        pool
    };
    let recycle = chance(2, 3);
    let turn = draw(1 << 16);
    let op = if pool[0].first() == Some(&6) && chance(1, 2) { OpKind::Text } else { *pick(&ops) };
    let turns = 65_536 + range(2, 400);
    trace!("{:?} {} times", op, turns);
    rt::count(C::probe_marathon);
    rt::nontrivial();
    for b in &pool {
        rt::mix_bytes(b);
    }
    sched::run_one(STACK, move || {
        let mut buf = Vec::with_capacity(64);
        let first: Vec<Seen> = pool
            .iter()
            .map(|b| {
                if !recycle {
                    return perform(op, b, None);
                }
                buf.clear();
                buf.extend_from_slice(b);
                perform(op, &buf, None)
            })
            .collect();
        for n in 0..turns {
            let k = (((n + turn) * 2_654_435_761) >> 9) as usize % pool.len();
            let b = if recycle {
                buf.clear();
                buf.extend_from_slice(pool[k]);
                &buf[..]
            } else {
                pool[k]
            };
            let s = perform(op, b, None);
            if s.shape != first[k].shape || s.text != first[k].text {
                rt::violate("depends-on-history", &format!("{:?} the {}th time: {} {} instead of {} {}", op, n + 2, s.shape, s.text, first[k].shape, first[k].text));
            }
        }
        rt::add(C::ops, turns);
        for b in &pool {
            step(op, 0, b, None, None);
        }
    });
}
/// Many different small inputs one after another, with returns to earlier ones: more than whatever
/// remembers some of them can hold.
fn parade() {
    let kind = draw(6);
    let n = *pick(if kind == 5 { &[12u64, 40, 90][..] } else { &[12u64, 20, 40, 70, 140, 300, 700, 1500][..] });
    let mut all: Vec<(OpKind, &'static [u8])> = Vec::new();
    let cfg = GenCfg { size: 0, uids: false, unknown: true };
    while (all.len() as u64) < n {
        match kind {
            0 => {
                let o = oid_content(&gen_oid());
                all.push((OpKind::Text, leak(tlv(6, &o))));
            }
            1 => {
                // identifiers that differ in one arc
                let mut o = vec![1, 3, 6, 1, 4, 1, draw(1 << 14) as u32, 1];
                if chance(1, 2) {
                    o.truncate(7);
                }
                all.push((*pick(&[OpKind::Text, OpKind::Walk]), leak(tlv(6, &oid_content(&o)))));
            }
            2 => {
                let (y, m, d) = (if chance(1, 4) { range(1900, 9999) } else { range(1950, 2250) }, range(1, 12), range(1, 28));
                let long = chance(1, 2);
                let y = if long { format!("{:04}", y) } else { format!("{:02}", y % 100) };
                let t = format!("{}{:02}{:02}{:02}0000Z", y, m, d, draw(24));
                all.push((OpKind::Text, leak(tlv(if long { 0x18 } else { 0x17 }, t.as_bytes()))));
            }
            3 => {
                let text = model::gen_string(&cfg, 0x0c);
                all.push((OpKind::Text, leak(tlv(0x0c, text.as_bytes()))));
            }
            4 => {
                let (names, exts) = parts(&[leak(gen_cert(&cfg).tree.bytes())]);
                names.iter().for_each(|b| all.push((OpKind::Name, b)));
                exts.iter().for_each(|b| all.push((OpKind::Ext, b)));
            }
            _ => all.push((*pick(&[OpKind::Cert, OpKind::Cert, OpKind::Print]), leak(gen_cert(&cfg).tree.bytes()))),
        }
    }
    rt::count(C::probe_parade);
    rt::nontrivial();
    rt::mix(kind);
    trace!("{} inputs of kind {}", all.len(), kind);
    let all: &'static [(OpKind, &'static [u8])] = Box::leak(all.into_boxed_slice());
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..*pick(&[1u64, 1, 1, 2]) {
        let back = *pick(&[4u64, 16, 64, 256, 1 << 20]);
        tasks.push(Box::new(move || {
            let go = |i: usize| {
                sched::point(Point::Op);
                step(all[i].0, i as u64, all[i].1, None, None);
            };
            for i in 0..all.len() {
                go(i);
                if i > 0 && chance(1, 4) {
                    go(i - 1 - draw(back.min(i as u64)) as usize);
                }
            }
            (0..all.len().min(300)).for_each(go);
        }));
    }
    sched::run_tasks(tasks, STACK, 16, 4);
}
/// One certificate of any size, decoded and shown in odd surroundings.
fn elsewhere() {
    let b = leak(gen_cert(&GenCfg { size: 2, uids: chance(1, 3), unknown: true }).tree.bytes());
    rt::mix_bytes(b);
    trace!("input {}", show(b));
    rt::nontrivial();
    let op = *pick(&[OpKind::Print, OpKind::Print, OpKind::Cert, OpKind::Text, OpKind::Walk]);
    *SAMPLE.lock().unwrap() = (1, Vec::new());
    sched::run_one(STACK, move || step(op, 0, b, None, None));
}
pub fn c06() {
    let odd = SAMPLE.lock().unwrap().0 > 0;
    if chance(1, 12) {
        consoles();
    } else if chance(1, 40) {
        parade();
    } else if odd && chance(1, 4) {
        elsewhere();
    } else if chance(1, 150) {
        marathon();
    } else if chance(1, 4) {
        duel();
    } else {
        mixture();
    }
    end();
}
fn mixture() {
    let pool = pool();
    for b in &pool {
        rt::mix_bytes(b);
        trace!("input {}", show(b));
    }
    let (names, exts) = parts(&pool);
    let ntasks = *pick(&[1u64, 2, 2, 3, 4]);
    let recycle = chance(1, 2);
    let long = chance(1, 40);
    let mut shared = Vec::new();
    if ntasks > 1 && !shareable() {
        rt::violate("certificate-not-shareable", "a decoded certificate cannot be shared between threads any more (Certificate is not Sync)");
    }
    {
        for b in &pool {
            if shared.len() < 2 {
                let r = std::panic::catch_unwind(|| Certificate::parse(b).ok().map(|c| &*Box::leak(Box::new(c))));
                if let Ok(Some(c)) = r {
                    let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cert_text(&real::cert(c))));
                    if let Ok(t) = t {
                        shared.push((Shared(c), t));
                    }
                }
            }
        }
    }
    let w: &'static World = Box::leak(Box::new(World { pool, names, exts, shared, recycle }));
    let (p_main, p_alloc) = *pick(&[(0u64, 0u64), (64, 0), (32, 16), (128, 64), (16, 128), (200, 200)]);
    rt::nontrivial();
    if long {
        rt::count(C::probe_long_history);
    }
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..ntasks {
        let nops = if long { range(100, 3000) / ntasks } else { range(1, 10) };
        tasks.push(Box::new(move || {
            let mut buf = Vec::with_capacity(1 << 16);
            for _ in 0..nops {
                any_op(w, &mut buf, 0);
            }
        }));
    }
    sched::run_tasks(tasks, STACK, p_main, p_alloc);
}

// ---- C07 -------------------------------------------------------------------------------------

fn show_ev(e: Option<&Ev>) -> String {
    match e {
        None => "nothing".into(),
        Some(Ev::Type(a)) => asn_s(a).chars().take(100).collect(),
        Some(e) => format!("{:?}", e),
    }
}
fn first_difference(want: &[Ev], got: &[Ev]) -> String {
    let i = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).unwrap_or(0);
    format!("notification {}: expected {}, got {}", i, show_ev(want.get(i)), show_ev(got.get(i)))
}
fn walk_full(b: &[u8], light: bool) -> (Vec<Ev>, bool) {
    let mut r = real::Recorder::new();
    r.light = light;
    rt::count(C::walks);
    let res = match run_real(|| parse_all(b, &mut r).map_err(|e| format!("{:?}", e))) {
        Ok(x) => x,
        Err(Stop::Panicked(m, l)) => rt::violate("panic", &format!("walk panicked at {}: {}", l, m)),
        Err(Stop::Abandoned) => rt::harness_error("unexpected abandonment"),
    };
    let w = refdec::walk_with(b, !light);
    if r.evs != w.evs {
        rt::violate("notifications-wrong", &format!("{}; bytes {}", first_difference(&w.evs, &r.evs), show(b)));
    }
    match &res {
        Ok(()) => {
            if !w.ok || !r.errors.is_empty() {
                rt::violate("error-not-returned", &format!("the walk ends well after {} error notifications; bytes {}", r.errors.len(), show(b)));
            }
            rt::count(C::probe_walk_ok);
        }
        Err(e) => {
            if r.errors.len() != 1 || &r.errors[0] != e {
                rt::violate("error-not-notified-once", &format!("returned {}, notified {:?}; bytes {}", e, r.errors, show(b)));
            }
            rt::count(C::probe_walk_error);
        }
    }
    (r.evs, res.is_ok())
}
pub fn c07() {
    let kind = draw(8);
    let b: Vec<u8> = match kind {
        0 | 1 => gen_cert(&GenCfg::any()).tree.bytes(),
        2 => pick(&disk::CORPUS).to_vec(),
        3 => {
            if chance(1, 12) {
                // more siblings, or more levels, than sixteen bits count
                rt::count(C::probe_long_list);
                let n = *pick(&[255usize, 256, 257, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70000]);
                if chance(1, 3) {
                    disk::bomb(n).bytes()
                } else {
                    let el = *pick(&[&[5u8, 0][..], &[0x30, 0], &[2, 1, 1], &[0xa0, 2, 5, 0]]);
                    let l = tlv(*pick(&[0x30u8, 0x31, 0xa1]), &el.repeat(n));
                    match draw(3) {
                        0 => l,
                        1 => [l, tlv(5, &[])].concat(),
                        _ => el.repeat(n),
                    }
                }
            } else {
                let d = *pick(&[3usize, 17, 60, 127, 128, 129, 300, 1100, 5000]);
                disk::bomb(d).bytes()
            }
        }
        4 => hostile(3000),
        _ => {
            let mut budget = 80;
            let mut out = Vec::new();
            for _ in 0..range(0, 4) {
                let mut t = gen_doc(&GenCfg::any(), &mut budget, 7);
                for _ in 0..draw(3) {
                    disk::mutate_tree(&mut t);
                }
                out.extend(t.bytes());
            }
            out
        }
    };
    let ntasks = *pick(&[1u64, 1, 1, 2]);
    rt::mix_bytes(&b);
    rt::add(C::bytes_decoded, b.len() as u64);
    trace!("bytes {}", show(&b));
    let b = leak(b);
    let light = b.len() > 6000;
    let (p_main, p_alloc) = if ntasks > 1 { (64, 16) } else { (0, 0) };
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..ntasks {
        tasks.push(Box::new(move || {
            let (full, _) = walk_full(b, light);
            // the receiver abandons the walk
            let n = draw(4);
            for _ in 0..n {
                let k = draw(full.len() as u64 + 1);
                let mut r = real::Recorder::new();
                r.light = light;
                r.stop_at = k;
                rt::fault(C::fault_receiver_abandons);
                rt::mix(k);
                trace!("receiver gives up at notification {}", k);
                match run_real(|| parse_all(b, &mut r).map_err(|e| format!("{:?}", e))) {
                    Err(Stop::Abandoned) => {}
                    Ok(_) => {
                        if (k as usize) < full.len() {
                            rt::violate("notifications-wrong", &format!("a walk sent {} notifications, the same walk before sent {}; bytes {}", r.n, full.len(), show(b)));
                        }
                    }
                    Err(Stop::Panicked(m, l)) => rt::violate("panic", &format!("walk panicked at {}: {}", l, m)),
                }
                let k = (k as usize).min(full.len());
                if r.evs != full[..k] {
                    rt::violate("abandoned-walk-wrong", &format!("{}; bytes {}", first_difference(&full[..k], &r.evs), show(b)));
                }
                if k > 0 {
                    rt::count(C::probe_prefix_nonempty);
                }
            }
            // a later element is damaged
            if !b.is_empty() && chance(3, 4) {
                let old = disk::medium(&vec![0xa5; b.len()]);
                let s = disk::store(b, &old, 1);
                if let Some(d) = s.damage {
                    trace!("damaged from byte {}: {}", d, show(&s.bytes));
                    rt::mix_bytes(&s.bytes);
                    let w = refdec::walk_with(b, !light);
                    let (got, _) = walk_full(&s.bytes, light);
                    // whatever lies wholly before the damage is notified as before
                    let mut keep = 0;
                    for (e, u) in w.evs.iter().zip(&w.upto) {
                        if *u > d || *e == Ev::Error {
                            break;
                        }
                        keep += 1;
                    }
                    // the content of an enclosing element holds the damage: compare those by kind
                    let same = got.len() >= keep && w.evs[..keep].iter().zip(&got).all(|(a, b)| a == b);
                    if !same {
                        rt::violate("damage-reaches-back", &format!("{}; bytes {}", first_difference(&w.evs[..keep], &got), show(&s.bytes)));
                    }
                }
            }
        }));
    }
    rt::nontrivial();
    sched::run_tasks(tasks, STACK, p_main, p_alloc);
}

// ---- C08 -------------------------------------------------------------------------------------

fn print_to(c: &Certificate, s: &mut real::Sink) -> bool {
    rt::count(C::reports);
    match run_real(|| c.print(s)) {
        Ok(()) => true,
        Err(Stop::Abandoned) => false,
        Err(Stop::Panicked(m, l)) => rt::violate("panic", &format!("printing panicked at {}: {}", l, m)),
    }
}
fn check_full(want: &[Tok], first: &[Tok], got: &[Tok], b: &[u8]) {
    if got != first {
        let d = report::compare(first, got).err().unwrap_or_default();
        rt::violate("report-not-repeatable", &format!("{}; file {}", d, show(b)));
    }
    let _ = want;
}
/// A certificate whose names or extensions may be damaged, and which is still accepted.
fn printable_cert() -> Vec<u8> {
    if chance(1, 8) {
        return pick(&disk::CORPUS).to_vec();
    }
    let size = if chance(1, 80) { 2 } else { draw(2) as u8 };
    let mut t = gen_cert(&GenCfg { size, uids: chance(1, 3), unknown: true }).tree;
    for _ in 0..draw(3) {
        let mut roles = Vec::new();
        t.roles(&mut roles);
        roles.retain(|r| {
            matches!(
                r,
                Role::Rdn(..) | Role::Ava(..) | Role::AvaOid(..) | Role::AvaVal(..) | Role::Exts | Role::Ext(_) | Role::ExtOid(_) | Role::ExtOct(_) | Role::ExtCrit(_) | Role::San(_) | Role::SanName(..) | Role::Ku(_) | Role::Bc(_) | Role::Eku(_) | Role::Ski(_) | Role::Modbus(_) | Role::AlgPar(_) | Role::Serial
            )
        });
        if roles.is_empty() {
            break;
        }
        let r = *pick(&roles);
        disk::mutate_tree(t.find_mut(r).unwrap());
    }
    t.bytes()
}
/// Console text of a recorded report.
fn console_text(t: &[Tok]) -> String {
    let mut s = String::new();
    let mut indent = 0;
    for x in t {
        match x {
            Tok::Begin => indent += 1,
            Tok::End => indent -= 1,
            Tok::Line => (0..indent).for_each(|_| s.push_str("  ")),
            Tok::Text(t) | Tok::AnyLine(t) => s.push_str(t),
        }
    }
    s
}
/// What standard output has been sent since the last time of asking.
fn shown() -> Vec<u8> {
    if run_real(|| std::io::Write::flush(&mut std::io::stdout()).is_ok()) != Ok(true) {
        rt::violate("console-report-wrong", "standard output cannot be flushed any more");
    }
    std::mem::take(crate::seam::console())
}
fn differs(want: &str, got: &[u8]) -> String {
    let at = want.bytes().zip(got).take_while(|(a, b)| a == *b).count();
    let from = want[..at.min(want.len())].rfind('\n').map_or(0, |i| i + 1);
    let a: String = want.get(from..).unwrap_or("").chars().take(80).collect();
    format!("{:?} instead of {:?}", String::from_utf8_lossy(&got[from.min(got.len())..]).chars().take(80).collect::<String>(), a)
}
/// Reports through the library's own console printer, one after another, inside one another,
/// abandoned, and at the same time.
fn consoles() {
    let mut certs: Vec<&'static Certificate<'static>> = Vec::new();
    for _ in 0..range(1, 3) {
        let b = printable_cert();
        if b.len() > 6000 {
            continue;
        }
        let b = leak(b);
        rt::mix_bytes(b);
        trace!("file {}", show(b));
        if let Ok(Some(c)) = std::panic::catch_unwind(|| Certificate::parse(b).ok().map(|c| &*Box::leak(Box::new(c)))) {
            certs.push(c);
        }
    }
    if certs.is_empty() {
        rt::count(C::probe_refused);
        return;
    }
    rt::nontrivial();
    let ntasks = if shareable() { *pick(&[1u64, 1, 2, 3]) } else { 1 };
    let certs: &'static [Shared] = Box::leak(certs.into_iter().map(Shared).collect::<Vec<_>>().into_boxed_slice());
    // what each shows through a sink that only records
    let texts: Vec<String> = certs
        .iter()
        .map(|c| {
            let mut s = real::Sink::new();
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.get().print(&mut s))) {
                Ok(()) => console_text(&s.s.0),
                Err(_) => String::new(),
            }
        })
        .collect();
    if texts.iter().any(|t| t.is_empty()) {
        return;
    }
    let texts: &'static [String] = Box::leak(texts.into_boxed_slice());
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    if ntasks > 1 {
        // lines of different reports may mix; none may be lost or shown twice
        let left: &'static std::sync::atomic::AtomicU64 = Box::leak(Box::new(ntasks.into()));
        let times = range(1, 2);
        let plan: Vec<Vec<usize>> = (0..ntasks).map(|_| (0..times).map(|_| draw(certs.len() as u64) as usize).collect()).collect();
        let mut want: Vec<u8> = plan.iter().flatten().flat_map(|i| texts[*i].bytes()).collect();
        want.sort_unstable();
        let want: &'static [u8] = Box::leak(want.into_boxed_slice());
        for mine in plan {
            tasks.push(Box::new(move || {
                for i in mine {
                    sched::point(Point::Op);
                    rt::count(C::probe_console_reports);
                    if let Err(e) = run_real(|| certs[i].get().print(&mut rx509::x509::printer::ConsoleLinePrinter::new())) {
                        rt::violate("panic", &format!("a report on the console ended in {:?}", e));
                    }
                }
                if left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 {
                    let mut got = shown();
                    got.sort_unstable();
                    if got != want {
                        rt::violate("console-report-wrong", &format!("reports taken at the same time show {} characters on the console, not {}, or others", got.len(), want.len()));
                    }
                }
            }));
        }
        sched::run_tasks(tasks, STACK, 96, 32);
        return;
    }
    sched::run_one(STACK, move || {
        shown();
        for _ in 0..range(1, 5) {
            sched::point(Point::Op);
            rt::count(C::probe_console_reports);
            let i = draw(certs.len() as u64) as usize;
            let j = draw(certs.len() as u64) as usize;
            let want = &texts[i];
            let plain = |k: usize| match run_real(|| certs[k].get().print(&mut rx509::x509::printer::ConsoleLinePrinter::new())) {
                Ok(()) => {}
                Err(e) => rt::violate("panic", &format!("a report on the console ended in {:?}", e)),
            };
            match draw(4) {
                0 | 1 => {
                    trace!("report {} on the console", i);
                    plain(i);
                    let got = shown();
                    if got != want.as_bytes() {
                        rt::violate("console-report-wrong", &format!("the console shows {}", differs(want, &got)));
                    }
                }
                2 => {
                    let mut c = real::Console::new();
                    c.stop_after = draw(60);
                    c.mid_line = chance(1, 2);
                    trace!("report {} on the console, abandoned {} after call {}", i, if c.mid_line { "at once" } else { "at the end of the line" }, c.stop_after);
                    rt::fault(C::fault_console_abandoned);
                    let r = run_real(|| certs[i].get().print(&mut c));
                    if let Err(Stop::Panicked(m, l)) = &r {
                        rt::violate("panic", &format!("a report on the console panicked at {}: {}", l, m));
                    }
                    let t = std::mem::take(&mut c.text);
                    drop(c);
                    let got = shown();
                    // a line that was not completed may not show, all others have to
                    let lines = t.rfind('\n').map_or(0, |i| i + 1);
                    if !t.as_bytes().starts_with(&got) || got.len() < lines || !want.starts_with(&t) {
                        rt::violate("console-report-wrong", &format!("of an abandoned report the console shows {}", differs(&t, &got)));
                    }
                }
                _ => {
                    let mut c = real::Console::new();
                    c.stop_after = draw(60);
                    trace!("report {} on the console and, after call {}, report {}", i, c.stop_after, j);
                    rt::fault(C::fault_reentry);
                    c.inside = Some(Box::new(move || plain(j)));
                    let r = run_real(|| certs[i].get().print(&mut c));
                    if let Err(e) = r {
                        rt::violate("panic", &format!("a report on the console ended in {:?}", e));
                    }
                    let (mark, inner_done) = (c.mark, c.inside.is_none());
                    drop(c);
                    let got = shown();
                    let other = if inner_done { texts[j].as_str() } else { "" };
                    let orders = [[&want[..mark], other, &want[mark..]].concat(), [want, other].concat(), [other, want].concat()];
                    if !orders.iter().any(|o| o.as_bytes() == got) {
                        rt::violate("console-report-wrong", &format!("with another report in between, the console shows {}", differs(&orders[0], &got)));
                    }
                }
            }
        }
    });
}
pub fn c08() {
    if chance(1, 8) {
        return consoles();
    }
    let b = leak(printable_cert());
    rt::mix_bytes(b);
    rt::add(C::bytes_decoded, b.len() as u64);
    trace!("file {}", show(b));
    let ntasks = if b.len() > 40_000 { 1 } else { *pick(&[1u64, 1, 2, 3]) };
    let (p_main, p_alloc) = *pick(&[(96u64, 0u64), (32, 32), (200, 100)]);
    let parsed = std::panic::catch_unwind(|| Certificate::parse(b).ok().map(|c| &*Box::leak(Box::new(c))));
    let cert: &'static Certificate<'static> = match parsed {
        Ok(Some(c)) => c,
        _ => {
            rt::count(C::probe_refused);
            return;
        }
    };
    // what has been decoded decides what has to be shown
    let rec = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::cert(cert))) {
        Ok(r) => r,
        Err(_) => return,
    };
    if rec.names.iter().any(|n| n.parsed.is_none()) {
        rt::count(C::probe_report_raw);
    }
    if matches!(rec.exts, Some(None)) {
        rt::count(C::probe_report_flagged);
    }
    rt::nontrivial();
    // a second certificate, reported in between and at the same time
    let mut others: Vec<(&'static [u8], &'static [Tok])> = vec![];
    let b2 = if b.len() < 3000 && chance(1, 2) { printable_cert() } else { vec![] };
    if !b2.is_empty() && b2.len() < 2000 {
        let b2 = leak(b2);
        let r = std::panic::catch_unwind(|| Certificate::parse(b2).ok().map(|c| report::cert_report(&real::cert(&c)).0));
        if let Ok(Some(w)) = r {
            rt::mix_bytes(b2);
            trace!("and file {}", show(b2));
            others.push((b2, Box::leak(w.into_boxed_slice())));
        }
    }
    let others: &'static [(&'static [u8], &'static [Tok])] = Box::leak(others.into_boxed_slice());
    let other_report = move || {
        for (b, want) in others {
            rt::count(C::probe_other_report);
            let c = match Certificate::parse(b) {
                Ok(c) => c,
                Err(_) => rt::violate("report-not-repeatable", "the same bytes are refused the second time"),
            };
            let mut s = real::Sink::new();
            print_to(&c, &mut s);
            if let Err(e) = report::compare(want, &s.s.0) {
                rt::violate("report-wrong", &format!("beside another report: {}; file {}", e, show(b)));
            }
        }
    };
    let share = shareable();
    let sh = Shared(cert);
    let want: &'static [Tok] = Box::leak(report::cert_report(&rec).0.into_boxed_slice());
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for ti in 0..ntasks {
        tasks.push(Box::new(move || {
            // tasks share one decoded certificate, or each decode their own
            let own;
            let c: &Certificate = if share || ti == 0 {
                sh.get()
            } else {
                own = Certificate::parse(b);
                match &own {
                    Ok(c) => c,
                    Err(_) => rt::violate("report-not-repeatable", "the same bytes are refused the second time"),
                }
            };
            let mut s = real::Sink::new();
            if !print_to(c, &mut s) {
                rt::harness_error("sink abandoned unexpectedly");
            }
            let calls = s.n;
            let first = s.s.0;
            if let Err(e) = report::nesting(&first, true) {
                rt::violate("report-badly-nested", &format!("{}; file {}", e, show(b)));
            }
            if let Err(e) = report::compare(want, &first) {
                rt::violate("report-wrong", &format!("{}; file {}", e, show(b)));
            }
            for _ in 0..range(1, 4) {
                sched::point(Point::Op);
                match draw(4) {
                    0 => {
                        let mut s = real::Sink::new();
                        print_to(c, &mut s);
                        check_full(want, &first, &s.s.0, b);
                    }
                    3 => other_report(),
                    1 => {
                        let k = draw(calls);
                        rt::fault(C::fault_sink_abandons);
                        rt::mix(k);
                        trace!("sink gives up at call {} of {}", k, calls);
                        let mut s = real::Sink::new();
                        s.stop_at = k;
                        let done = print_to(c, &mut s);
                        if done {
                            rt::violate("report-not-repeatable", &format!("a report of {} calls now has {}; file {}", calls, s.n, show(b)));
                        }
                        if !report::is_prefix(&s.s.0, &first) {
                            rt::violate("abandoned-report-wrong", &format!("what the sink got is no beginning of the report: {:?}; file {}", s.s.0.last(), show(b)));
                        }
                        if k > 0 {
                            rt::count(C::probe_prefix_nonempty);
                        }
                    }
                    _ => {
                        // another report, or a decode, from inside a sink call
                        let at = 1 + draw(calls);
                        rt::fault(C::fault_reentry);
                        trace!("another report is taken inside sink call {}", at);
                        let mut s = real::Sink::new();
                        let f2: &'static [Tok] = Box::leak(first.clone().into_boxed_slice());
                        s.inside = Some(Box::new(move |n| {
                            if n == at {
                                other_report();
                                let own = Certificate::parse(b);
                                if let Ok(c) = &own {
                                    let mut s = real::Sink::new();
                                    print_to(c, &mut s);
                                    check_full(want, f2, &s.s.0, b);
                                }
                            }
                        }));
                        print_to(c, &mut s);
                        check_full(want, &first, &s.s.0, b);
                    }
                }
            }
        }));
    }
    sched::run_tasks(tasks, STACK, p_main, p_alloc);
}
