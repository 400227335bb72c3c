//! C23, C26: work grows no faster than the bytes present. The simulated processor counts every block,
//! load and store of rx509 (fine.rs), every byte it moves in bulk, and every byte of memory asked for.
//! Memory held after a long history of operations stays what it was.
use super::bytes::{Nowhere, NullSink, STACK};
use super::*;
use crate::der::{oid_content, tlv};
use crate::fine;
use crate::real;
use crate::sched::{self, must};
use crate::seam;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::Printable;
use rx509::x509::*;
use std::fmt::Write;

/// Steps, bytes moved and bytes asked for, per stored byte; measured maxima are about a tenth.
const STEPS: (u64, u64) = (400, 40_000);
const MOVED: (u64, u64) = (200, 40_000);
const ASKED: (u64, u64) = (250, 40_000);

struct Quiet;
impl ParseHandler for Quiet {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, _: &ASNType) {}
    fn on_error(&mut self, _: &ASNError) {}
}
/// Shows each element it is told of, as the tool does, on a screen nobody looks at.
struct Shown;
impl ParseHandler for Shown {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, a: &ASNType) {
        let _ = write!(Nowhere, "{}", a);
        if let ASNType::BitString(x) = a {
            let _ = (x.value.octets().map(|o| o.len()), x.value.size(), x.value.iter().count());
        }
    }
    fn on_error(&mut self, e: &ASNError) {
        let _ = write!(Nowhere, "{:?} {}", e, e);
    }
}
/// What one family of inputs looks like; `make` writes the member with `n` repetitions.
#[derive(Clone, Copy, Debug)]
struct Shape {
    kind: u64,
    el: u64,
    place: u64,
    fault: u64,
}
const KINDS: u64 = 16;
fn element(el: u64) -> Vec<u8> {
    match el {
        0 => tlv(5, &[]),
        1 => tlv(6, &[0x2a]),
        2 => tlv(0x30, &[]),
        3 => tlv(6, &oid_content(&[1, 3, 6, 1, 5, 5, 7, 3, 1])),
        4 => tlv(0x82, b"a"),
        5 => tlv(0x30, &[6, 1, 0x2a, 4, 0]),
        6 => tlv(0x31, &tlv(0x30, &[tlv(6, &[0x55, 4, 5]), tlv(0x13, b"x")].concat())),
        7 => tlv(2, &[1]),
        8 => tlv(0x30, &[tlv(6, &[0x55, 0x1d, 15]), tlv(4, &tlv(3, &[7, 0x80]))].concat()),
        9 => tlv(0x17, b"200101000000Z"),
        10 => tlv(0xa1, &tlv(3, &[0, 1, 2])),
        _ => tlv(0x88, &oid_content(&[1, 2, 3])),
    }
}
/// Extension identifier and the content that holds a list of `list`.
fn extension(place: u64, list: &[u8]) -> Vec<u8> {
    let (last, body) = match place % 6 {
        0 => (17u32, tlv(0x30, list)),
        1 => (37, tlv(0x30, list)),
        2 => (19, tlv(0x30, list)),
        3 => (14, tlv(4, list)),
        4 => (15, tlv(3, &[&[0u8][..], list].concat())),
        _ => (35, list.to_vec()),
    };
    tlv(0x30, &[tlv(6, &oid_content(&[2, 5, 29, last])), tlv(4, &body)].concat())
}
/// A certificate from its parts; None: the plain one.
struct Parts {
    serial: Option<Vec<u8>>,
    alg: Option<Vec<u8>>,
    name: Option<Vec<u8>>,
    key: Option<Vec<u8>>,
    uid: Option<Vec<u8>>,
    exts: Option<Vec<u8>>,
    outer: Option<Vec<u8>>,
    tail: Option<Vec<u8>>,
}
fn certificate(p: Parts) -> Vec<u8> {
    let alg = tlv(0x30, &tlv(6, &oid_content(&[1, 3, 101, 112])));
    let t = tlv(0x17, b"200101000000Z");
    let mut tbs = tlv(0xa0, &tlv(2, &[2]));
    tbs.extend(tlv(2, &p.serial.unwrap_or(vec![5])));
    tbs.extend(p.alg.unwrap_or(alg.clone()));
    let name = p.name.unwrap_or_default();
    tbs.extend(tlv(0x30, &name));
    tbs.extend(tlv(0x30, &[t.clone(), t].concat()));
    tbs.extend(tlv(0x30, &name));
    tbs.extend(tlv(0x30, &[alg.clone(), tlv(3, &p.key.unwrap_or(vec![0, 1]))].concat()));
    if let Some(u) = p.uid {
        tbs.extend(tlv(0x81, &u));
    }
    if let Some(e) = p.exts {
        tbs.extend(tlv(0xa3, &tlv(0x30, &e)));
    }
    tbs.extend(p.tail.unwrap_or_default());
    tlv(0x30, &[tlv(0x30, &tbs), p.outer.unwrap_or(alg), tlv(3, &[0, 9])].concat())
}
/// The identifier of the `i`th thing below `at`.
fn unlike(i: usize, at: &[u32]) -> Vec<u8> {
    tlv(6, &oid_content(&[at, &[1000 + i as u32 * 7919 % 99_991]].concat()))
}
fn none() -> Parts {
    Parts { serial: None, alg: None, name: None, key: None, uid: None, exts: None, outer: None, tail: None }
}
fn make(s: &Shape, n: usize) -> Vec<u8> {
    let el = element(s.el);
    // about n bytes of elements
    let list = el.repeat(n / el.len() + 1);
    let arcs: Vec<u8> = [&[0x2a][..], &[0x86, 0x48, 0x01, 0x7f].repeat(n / 4 + 1)].concat();
    let bits: Vec<u8> = [&[3u8][..], &[0x58, 0xf0].repeat(n / 2 + 1)].concat();
    let text = b"abcdefgh".repeat(n / 8 + 1);
    let nest = model::nest(n / 4 + 1, if s.el % 2 == 0 { &[0x30, 0x31, 0xa0] } else { &[0x30] }, &[5, 0]);
    let mut b = match s.kind {
        0 => list,
        1 => nest,
        2 => tlv(*pick_by(s.place, &[0x30u8, 0x31, 0xa0, 0xbe]), &list),
        3 => {
            // long single contents
            let (tag, c) = match s.place % 7 {
                0 => (6u8, arcs),
                1 => (3, bits),
                2 => (4, text),
                3 => (0x0c, text),
                4 => (2, text),
                5 => (0x85, text),
                _ => (0x13, text),
            };
            tlv(tag, &c)
        }
        4 => {
            // many attributes, alone or in shared sets
            let ava = tlv(0x30, &[tlv(6, &oid_content(pick_by(s.place / 2, &[&[2, 5, 4, 5][..], &[1, 2, 840, 113549, 1, 9, 1], &[2, 5, 4, 97]]))), tlv(0x0c, b"x")].concat());
            let k = n / (ava.len() + 2) + 1;
            let name = if s.place % 2 == 0 { tlv(0x31, &ava).repeat(k) } else { tlv(0x31, &ava.repeat(k)) };
            certificate(Parts { name: Some(name), ..none() })
        }
        5 => {
            let one = extension(s.place, &el);
            certificate(Parts { exts: Some(one.repeat(n / one.len() + 1)), ..none() })
        }
        6 => certificate(Parts { exts: Some(extension(s.place, &list)), ..none() }),
        7 => {
            let o = tlv(6, &arcs);
            let p = tlv(0x30, &list);
            match s.place % 4 {
                0 => certificate(Parts { alg: Some(tlv(0x30, &o)), ..none() }),
                1 => certificate(Parts { outer: Some(tlv(0x30, &o)), ..none() }),
                2 => certificate(Parts { alg: Some(tlv(0x30, &[tlv(6, &[0x2a]), p].concat())), ..none() }),
                _ => certificate(Parts { exts: Some(tlv(0x30, &[o, tlv(4, &[1])].concat())), ..none() }),
            }
        }
        8 => match s.place % 4 {
            0 => certificate(Parts { serial: Some(text), ..none() }),
            1 => certificate(Parts { key: Some(bits), ..none() }),
            2 => certificate(Parts { uid: Some(bits), ..none() }),
            _ => certificate(Parts { name: Some(tlv(0x31, &tlv(0x30, &[tlv(6, &[0x55, 4, 3]), tlv(0x0c, &text)].concat()))), ..none() }),
        },
        9 => {
            // alternative names: of every supported kind in turn
            let names = [tlv(0x82, b"a.b"), tlv(0x81, b"c@d"), tlv(0x86, b"u:"), tlv(0x87, &[1, 2, 3, 4]), tlv(0x88, &[0x2a])].concat();
            certificate(Parts { exts: Some(extension(0, &names.repeat(n / names.len() + 1))), ..none() })
        }
        10 => {
            let p: Vec<u8> = [1u32, 2, 3, 4, 8, 9].iter().flat_map(|k| tlv(6, &oid_content(&[1, 3, 6, 1, 5, 5, 7, 3, *k]))).collect();
            certificate(Parts { exts: Some(extension(1, &p.repeat(n / p.len() + 1))), ..none() })
        }
        12 => {
            // attributes no two of which have the same identifier, or the same text
            let k = n / 16 + 1;
            let avas: Vec<Vec<u8>> = (0..k).map(|i| tlv(0x30, &match s.place % 3 {
                0 => [unlike(i, &[2, 5, 4]), tlv(0x0c, b"x")].concat(),
                1 => [unlike(i, &[1, 3, 6, 1, 4, 1]), tlv(0x0c, format!("{:05}", i * 7919 % 99_991).as_bytes())].concat(),
                _ => [tlv(6, &oid_content(pick_by(i as u64, &[&[2, 5, 4, 3][..], &[2, 5, 4, 11], &[2, 5, 4, 5], &[1, 2, 840, 113549, 1, 9, 1]]))), tlv(0x16, format!("{:05}", i * 7919 % 99_991).as_bytes())].concat(),
            })).collect();
            let name = if s.el % 2 == 0 { avas.iter().flat_map(|a| tlv(0x31, a)).collect() } else { tlv(0x31, &avas.concat()) };
            certificate(Parts { name: Some(name), ..none() })
        }
        13 => {
            // extensions no two of which have the same identifier
            let e = (0..n / 16 + 1).flat_map(|i| tlv(0x30, &[unlike(i, if s.place % 2 == 0 { &[2, 5, 29] } else { &[1, 3, 6, 1, 4, 1] }), tlv(4, &el)].concat())).collect();
            certificate(Parts { exts: Some(e), ..none() })
        }
        14 => {
            // alternative names, or purposes, all different
            let l: Vec<u8> = (0..n / 9 + 1).flat_map(|i| match s.place % 6 {
                0 => tlv(0x82, format!("h{:05}", i * 7919 % 99_991).as_bytes()),
                1 => tlv(0x81, format!("u{:05}", i * 7919 % 99_991).as_bytes()),
                2 => tlv(0x87, &(i as u32 * 7919).to_be_bytes()),
                3 => tlv(0x88, &oid_content(&[1, 3, 6, 1, 4, 1, i as u32])),
                _ => unlike(i, &[1, 3, 6, 1, 5, 5, 7, 3]),
            }).collect();
            certificate(Parts { exts: Some(extension(if s.place % 6 < 4 { 0 } else { 1 }, &l)), ..none() })
        }
        15 => {
            // elements all different: in number, in kind or in text
            let l: Vec<u8> = (0..n / 8 + 1).flat_map(|i| match s.place {
                0 => tlv(2, &(i as u32 * 7919).to_be_bytes()),
                1 => unlike(i, &[1, 3, 6, 1]),
                2 => tlv(0x13, format!("{:05}", i * 7919 % 99_991).as_bytes()),
                3 => tlv(0x80 | (i % 31) as u8, &[i as u8]),
                4 => tlv(0x30, &[unlike(i, &[2, 5, 29]), tlv(4, &[i as u8])].concat()),
                _ => tlv(0x17, format!("{:02}0101{:02}{:02}{:02}Z", i / 86_400 % 50, i / 3600 % 24, i / 60 % 60, i % 60).as_bytes()),
            }).collect();
            if s.el % 2 == 0 { l } else { tlv(0x30, &l) }
        }
        _ => match s.place % 3 {
            0 => certificate(Parts { alg: Some(tlv(0x30, &[tlv(6, &[0x2a]), nest].concat())), ..none() }),
            1 => certificate(Parts { tail: Some(list), ..none() }),
            _ => certificate(Parts { name: Some(nest), ..none() }),
        },
    };
    match s.fault {
        1 => {
            // the last byte never reached the disk
            b.pop();
        }
        2 => b.extend_from_slice(&[0x30, 0x84, 0x7f, 0xff, 0xff, 0xff]),
        3 => {
            let k = b.len() - 1;
            b[k] ^= 0x80;
        }
        _ => {}
    }
    b
}
fn pick_by<T>(i: u64, xs: &[T]) -> &T {
    &xs[i as usize % xs.len()]
}
#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    steps: u64,
    moved: u64,
    asked: u64,
}
fn cost(f: impl FnOnce()) -> Cost {
    seam::meter_start();
    let (s, m) = (fine::steps(), fine::moved());
    f();
    Cost { steps: fine::steps() - s, moved: fine::moved() - m, asked: seam::meter().total }
}
const OPS: [&str; 6] = ["walk", "decode", "read", "print", "parts", "show"];
fn costs(b: &[u8]) -> [Cost; 6] {
    let mut c = [Cost::default(); 6];
    c[0] = cost(|| must("parse_all", || {
        let _ = parse_all(b, &mut Quiet);
    }));
    let mut cert = None;
    c[1] = cost(|| cert = must("certificate", || Certificate::parse(b)).ok());
    if let Some(cert) = cert {
        rt::count(C::probe_accepted);
        let t = &cert.tbs_certificate.value;
        c[2] = cost(|| must("read", || {
            let _ = t.issuer.parse().is_ok();
            let _ = t.subject.parse().is_ok();
            if let Some(e) = &t.extensions {
                let _ = e.parse().is_ok();
            }
            let _ = t.serial_number.as_i32();
            let _ = t.subject_public_key_info.subject_public_key.iter().count();
            let _ = cert.signature_value.iter().count();
        }));
        c[3] = cost(|| must("print", || cert.print(&mut NullSink)));
    }
    c[4] = real::named(b, |n| {
        cost(|| {
            must("name", || {
                let _ = n.map(|n| n.parse().is_ok());
            });
            must("extension", || {
                let _ = Extension::parse(b).is_ok();
            });
        })
    });
    c[5] = cost(|| must("show", || {
        let _ = parse_all(b, &mut Shown);
    }));
    c
}
fn linear(b: &[u8], c: &[Cost; 6]) {
    let n = b.len() as u64;
    for (w, c) in OPS.iter().zip(c) {
        rt::mix(c.steps);
        rt::mix(c.moved);
        rt::mix(c.asked);
        trace!("{}: {} steps, {} bytes moved, {} asked for, for {} bytes", w, c.steps, c.moved, c.asked, n);
        rt::add(C::work_steps, c.steps);
        rt::add_max(C::probe_max_steps_per_byte, c.steps / (n + 64));
        rt::add_max(C::probe_max_moved_per_byte, c.moved / (n + 64));
        rt::add_max(C::probe_max_asked_per_byte, c.asked / (n + 64));
        for (what, v, (f, k)) in [("steps", c.steps, STEPS), ("bytes moved", c.moved, MOVED), ("bytes of memory asked for", c.asked, ASKED)] {
            if v > f * n + k {
                rt::violate("work-unbounded", &format!("{} of {} bytes takes {} {}; bytes {}", w, n, v, what, show(b)));
            }
        }
    }
}
pub fn c23() {
    if chance(1, 3) {
        let b = hostile(4000);
        rt::mix_bytes(&b);
        rt::nontrivial();
        rt::add(C::bytes_decoded, b.len() as u64);
        trace!("bytes: {}", show(&b));
        sched::run_one(STACK * 4, move || linear(&b, &costs(&b)));
        return;
    }
    let s = Shape { kind: draw(KINDS), el: draw(12), place: draw(6), fault: if chance(1, 2) { range(1, 3) } else { 0 } };
    let n = *pick(&[300usize, 1000, 3000, 8000]) + draw(200) as usize;
    let (a, b) = (make(&s, n), make(&s, 4 * n));
    rt::mix_bytes(&b);
    match s.kind {
        1 | 11 => fault(C::fault_nest_bomb),
        0 | 2 | 4 | 5 | 6 | 9 | 10 | 12..=15 => fault(C::fault_element_repeated),
        _ => fault(C::fault_degenerate_content),
    }
    match s.fault {
        1 => fault(C::fault_truncated),
        2 => fault(C::fault_length_lie),
        3 => fault(C::fault_bit_flip),
        _ => {}
    }
    rt::add(C::bytes_decoded, (a.len() + b.len()) as u64);
    trace!("{:?}: {} and {} bytes: {}", s, a.len(), b.len(), show(&a));
    sched::run_one(STACK * 4, move || {
        let (x, y) = (costs(&a), costs(&b));
        linear(&a, &x);
        linear(&b, &y);
        // four times the bytes: about four times the work
        for i in 0..OPS.len() {
            // a buffer that doubles may have just doubled once more
            for (what, p, q, k) in [("steps", x[i].steps, y[i].steps, 7), ("bytes moved", x[i].moved, y[i].moved, 12), ("bytes of memory asked for", x[i].asked, y[i].asked, 12)] {
                if p * 8 > a.len() as u64 {
                    rt::add_max(C::probe_max_growth_tenths, q * 10 / p.max(1));
                    if q > k * p + 4096 {
                        rt::violate("work-superlinear", &format!("{}: {} {} for {} bytes, {} for {} bytes of the same kind; {:?}, bytes {}", OPS[i], p, what, a.len(), q, b.len(), s, show(&a)));
                    }
                }
            }
        }
    });
}

// ---- C26 ---------------------------------------------------------------------------------------

/// What may be held on to, whatever the history (tables built once, recycled scratch space).
const KEPT: i64 = 64 << 10;

#[derive(Clone, Copy, Debug)]
enum Act {
    Walk(u64),
    Decode,
    Print(u64),
    Name,
    Ext,
}
fn act(a: Act, b: &[u8]) {
    let r = match a {
        Act::Walk(k) => {
            let mut r = real::Recorder::new();
            r.stop_at = k;
            r.light = true;
            sched::real(|| {
                let _ = parse_all(b, &mut r).map_err(|e| {
                    let _ = format!("{:?} {}", e, e);
                });
            })
        }
        Act::Decode => sched::real(|| match Certificate::parse(b) {
            Ok(c) => {
                let t = &c.tbs_certificate.value;
                let _ = t.issuer.parse().is_ok();
                if let Some(e) = &t.extensions {
                    let _ = e.parse().is_ok();
                }
                let _ = t.validity.is_valid(UtcTime::now().unwrap_or(UtcTime::from_seconds_since_epoch(0)));
                let _ = c.signature_value.iter().count();
                let _ = format!("{} {}", t.serial_number, t.signature.algorithm);
            }
            Err(e) => {
                let _ = format!("{:?} {}", e, e);
            }
        }),
        Act::Print(k) => {
            let mut s = real::Sink::new();
            s.stop_at = k;
            sched::real(|| {
                if let Ok(c) = Certificate::parse(b) {
                    c.print(&mut s);
                }
            })
        }
        Act::Name => real::named(b, |n| {
            sched::real(|| {
                let _ = n.map(|n| n.parse().is_ok());
            })
        }),
        Act::Ext => sched::real(|| {
            let _ = Extension::parse(b).is_ok();
        }),
    };
    match r {
        Ok(()) => {}
        Err(sched::Stop::Abandoned) => fault(C::fault_receiver_abandons),
        Err(sched::Stop::Panicked(m, l)) => rt::violate("panic", &format!("{:?} panicked at {}: {}", a, l, m)),
    }
}
fn draw_act() -> Act {
    match draw(7) {
        0 => Act::Decode,
        1 => Act::Walk(u64::MAX),
        2 => Act::Walk(draw(40)),
        3 => Act::Print(u64::MAX),
        4 => Act::Print(draw(60)),
        5 => Act::Name,
        _ => Act::Ext,
    }
}
fn draw_input() -> Vec<u8> {
    match draw(6) {
        0 => pick(&disk::CORPUS).to_vec(),
        1 => gen_part(),
        2 | 3 => model::gen_cert(&GenCfg { size: 0, uids: true, unknown: true }).tree.bytes(),
        _ => hostile(200),
    }
}
/// A name, an extension, or a fragment of one.
fn gen_part() -> Vec<u8> {
    let g = model::gen_cert(&GenCfg { size: 0, uids: true, unknown: true });
    let mut roles = Vec::new();
    g.tree.roles(&mut roles);
    let mut t = g.tree;
    let r = *pick(&roles);
    t.find_mut(r).map(|n| if chance(1, 2) { n.content() } else { n.bytes() }).unwrap_or_default()
}
/// A document of hundreds of elements of one kind, no two alike.
fn all_different(kind: u64, n: usize) -> Vec<u8> {
    let word = |n: usize| -> Vec<u8> { (0..n).map(|_| b'a' + draw(26) as u8).collect() };
    let oid = || -> Vec<u8> { oid_content(&[1, 3, 6, 1, draw(1 << 20) as u32, draw(1 << 20) as u32]) };
    let digits = || format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", 1970 + draw(8000), 1 + draw(12), 1 + draw(28), draw(24), draw(60), draw(60));
    let list = |f: &dyn Fn() -> Vec<u8>| -> Vec<u8> { (0..n).flat_map(|_| f()).collect() };
    match kind {
        0 => tlv(0x30, &list(&|| tlv(6, &oid()))),
        1 => tlv(0x30, &list(&|| tlv(*pick(&[0x0c, 0x13, 0x16]), &word(10)))),
        2 => tlv(0x30, &list(&|| tlv(*pick(&[2, 4, 0x80]), &[&[1][..], &word(7)].concat()))),
        3 => tlv(0x30, &list(&|| tlv(0x18, digits().as_bytes()))),
        4 => tlv(0x30, &list(&|| tlv(3, &[&[0][..], &word(9)].concat()))),
        5 => certificate(Parts { name: Some(list(&|| tlv(0x31, &tlv(0x30, &[tlv(6, &oid()), tlv(0x0c, &word(9))].concat())))), ..none() }),
        6 => certificate(Parts { exts: Some(list(&|| tlv(0x30, &[tlv(6, &oid()), tlv(4, &word(9))].concat()))), ..none() }),
        7 => certificate(Parts { exts: Some(extension(0, &list(&|| tlv(0x82, &word(12))))), ..none() }),
        8 => certificate(Parts { exts: Some(extension(0, &list(&|| tlv(0x88, &oid())))), ..none() }),
        9 => certificate(Parts { exts: Some(list(&|| tlv(0x30, &[tlv(6, &oid_content(&[1, 3, 6, 1, 4, 1, 50316, 802, 1])), tlv(4, &tlv(0x0c, &word(9)))].concat()))), ..none() }),
        _ => certificate(Parts { exts: Some(list(&|| tlv(0x30, &[tlv(6, &oid_content(&[2, 5, 29, 14])), tlv(4, &tlv(4, &word(20)))].concat()))), ..none() }),
    }
}
/// A certificate none of whose parts occurs anywhere else; at times one that is refused for it.
fn one_of_a_kind() -> Vec<u8> {
    let word = |n: usize| -> Vec<u8> { (0..n).map(|_| b'a' + draw(26) as u8).collect() };
    let oid = || -> Vec<u8> { oid_content(&[1, 3, 6, 1, draw(1 << 20) as u32, draw(1 << 20) as u32]) };
    let alg = tlv(0x30, &tlv(6, &oid()));
    let time = tlv(0x18, format!("{:04}0101{:02}{:02}{:02}Z", 1970 + draw(8000), draw(24), draw(60), draw(60)).as_bytes());
    let name = tlv(0x30, &tlv(0x31, &tlv(0x30, &[tlv(6, &[0x55, 4, *pick(&[3, 6, 7, 8, 10, 11, 12])]), tlv(0x0c, &word(12))].concat())));
    let key = tlv(3, &[&[0][..], &word(32)].concat());
    let mut v = vec![tlv(0xa0, &tlv(2, &[2])), tlv(2, &word(8)), alg.clone(), name.clone(), tlv(0x30, &[time.clone(), time].concat()), name, tlv(0x30, &[alg.clone(), key.clone()].concat())];
    match draw(4) {
        0 => v.push(tlv(0xa3, &tlv(0x30, &tlv(0x30, &[tlv(6, &oid()), tlv(4, &word(20))].concat())))),
        1 => v[0] = tlv(0xa0, &tlv(2, &word(3))),
        2 => {
            let k = draw(7) as usize;
            v[k] = tlv(*pick(&[4, 6, 0x0c, 0x30, 0x31, 0x17, 0x85, 1, 3]), &word(10));
        }
        _ => {}
    }
    tlv(0x30, &[tlv(0x30, &v.concat()), alg, key].concat())
}
/// One element no decoder accepts, unlike every other; alone or in a place of its kind.
const REFUSED: [u8; 12] = [0x0c, 0x13, 0x16, 6, 0x17, 0x18, 1, 5, 3, 0x04, 0x1e, 0x89];
fn refused_in_its_own_way(tag: u8) -> Vec<u8> {
    let mut w: Vec<u8> = rt::bytes(range(8, 40) as usize);
    match tag {
        0x0c | 0x13 | 0x16 => {
            w.iter_mut().for_each(|c| *c = b'a' + *c % 26);
            let k = draw(w.len() as u64) as usize;
            w[k] = *pick(&[0xff, 0xc0, 0xed, 0xf5]);
        }
        6 => w.iter_mut().for_each(|c| *c |= 0x80),
        3 => w[0] |= 8,
        _ => {}
    }
    let e = tlv(tag, &w);
    match draw(4) {
        0 => e,
        1 => tlv(0x30, &tlv(0x31, &e)),
        2 => certificate(Parts { name: Some(tlv(0x31, &tlv(0x30, &[tlv(6, &[0x55, 4, 3]), e].concat()))), ..none() }),
        _ => certificate(Parts { exts: Some(extension(0, &tlv(0x82, &w))), ..none() }),
    }
}
/// A history in which nothing ever comes back.
fn nothing_twice() {
    let kind = draw(13);
    let (docs, n) = if kind == 12 { (4000, 0) } else if kind == 11 { (2000, 0) } else { (4, 600 + draw(400) as usize) };
    trace!("{} documents of kind {} ({} elements each, all different)", docs, kind, n);
    let only = if chance(1, 2) { Some(*pick(&REFUSED)) } else { None };
    sched::run_one(STACK * 4, move || {
        // what is built once is built now
        act(Act::Decode, &one_of_a_kind());
        act(Act::Print(u64::MAX), &pick(&disk::CORPUS).to_vec());
        seam::meter_start();
        let mut decoded = 0;
        for _ in 0..docs {
            let b = match kind {
                11 => one_of_a_kind(),
                12 => refused_in_its_own_way(only.unwrap_or_else(|| *pick(&REFUSED))),
                _ => all_different(kind, n),
            };
            rt::mix_bytes(&b);
            decoded += b.len();
            if kind >= 11 {
                act(draw_act(), &b);
            } else {
                for a in [Act::Walk(u64::MAX), Act::Decode, Act::Print(u64::MAX), Act::Name, Act::Ext] {
                    act(a, &b);
                }
            }
            drop(b);
        }
        rt::count(C::probe_wide_history);
        rt::add(C::bytes_decoded, decoded as u64);
        let l = seam::live();
        rt::add_max(C::probe_max_kept, l.max(0) as u64);
        trace!("{} bytes decoded: {} bytes still held", decoded, l);
        if l > KEPT / 2 {
            rt::violate("memory-accumulates", &format!("{} bytes are still held after decoding {} different documents (kind {}, {} bytes) whose results are gone", l, docs, kind, decoded));
        }
    });
}
pub fn c26() {
    rt::nontrivial();
    if chance(1, 6) {
        return nothing_twice();
    }
    if chance(1, 4) {
        // a long history of different inputs
        let n = range(60, 300);
        sched::run_one(STACK * 4, move || {
            seam::meter_start();
            for _ in 0..n {
                let b = draw_input();
                rt::mix_bytes(&b);
                act(draw_act(), &b);
            }
            rt::count(C::probe_long_history);
            let l = seam::live();
            rt::mix(l as u64);
            rt::add_max(C::probe_max_kept, l.max(0) as u64);
            trace!("{} operations on different inputs: {} bytes still held", n, l);
            if l > KEPT {
                rt::violate("memory-accumulates", &format!("{} bytes are still held after {} operations whose results are gone", l, n));
            }
        });
        return;
    }
    // the same history again and again
    let n = range(1, 24);
    let acts: Vec<(Act, Vec<u8>)> = (0..n)
        .map(|_| {
            let b = draw_input();
            rt::mix_bytes(&b);
            (draw_act(), b)
        })
        .collect();
    for (a, b) in &acts {
        trace!("{:?} on {}", a, show(b));
    }
    let rounds = 7usize;
    sched::run_one(STACK * 4, move || {
        let mut held = Vec::with_capacity(rounds);
        seam::meter_start();
        for _ in 0..rounds {
            for (a, b) in &acts {
                act(*a, b);
            }
            held.push(seam::live());
        }
        rt::add(C::ops, (rounds * acts.len()) as u64);
        rt::mix(held[rounds - 1] as u64);
        trace!("held after each round: {:?}", held);
        rt::add_max(C::probe_max_kept, held[rounds - 1].max(0) as u64);
        if held[1..].windows(2).all(|w| w[1] > w[0]) || held[rounds - 1] > KEPT {
            let d: Vec<String> = acts.iter().map(|(a, b)| format!("{:?} on {}", a, show(b))).collect();
            rt::violate("memory-accumulates", &format!("bytes still held after each repetition of one history: {:?}; {}", held, d.join("; ")));
        }
    });
}
