//! C01-C05, C09: what decoding does with damaged and undamaged stored bytes.
use super::*;
use crate::around::place;
use crate::der::{len_octets, oid_content, tlv, Span};
use crate::model::*;
use crate::real;
use crate::refdec;
use crate::sched::{self, must, Point};
use crate::seam;
use rx509::der::{parse_all, ASNBitString, ASNError, ASNType, ParseHandler, UtcTime};
use rx509::x509::ext::Extension;
use rx509::x509::printer::Printable;
use rx509::x509::Certificate;
use std::fmt::Write;

pub const STACK: usize = 256 << 10;

// ---- C01 -------------------------------------------------------------------------------------

/// A receiver that reads everything it is handed, in every way the types offer.
struct Toucher {
    out: String,
    n: u64,
    deep: bool,
}
fn touch(a: &ASNType, out: &mut String, debug: bool) {
    out.clear();
    let _ = write!(out, "{}", a);
    if debug {
        let _ = write!(out, "{:?}", a);
        if out.len() < 4000 {
            // the other ways of formatting: in columns, cut short, spread over lines
            let _ = write!(out, "{:>12} {:<5} {:^9.3} {:.0} {:#} {:#?} {:04?}", a, a, a, a, a, a, a);
        }
    }
    let id = a.get_id();
    let _ = write!(out, "{:?}", id);
    match a {
        ASNType::BitString(b) => {
            let n = b.value.size();
            let k = b.value.iter().count();
            let _ = b.value.octets();
            if n != k {
                sched::callback(|| rt::violate("bit-string", &format!("size {} but {} bits", n, k)));
            }
            // every way an iterator is driven
            let mut it = b.value.iter();
            let (lo, _) = it.size_hint();
            if lo > n {
                sched::callback(|| rt::violate("bit-string", &format!("an iterator over {} bits promises {}", n, lo)));
            }
            if n <= 4096 {
                let v: Vec<bool> = b.value.iter().collect();
                let _ = (b.value.iter().last(), b.value.iter().nth(n), b.value.iter().nth(n / 2), b.value.iter().skip(3).step_by(7).count(), v.len());
                while it.next().is_some() {
                    let _ = it.size_hint();
                }
                let _ = (it.next(), it.next(), it.size_hint());
            }
        }
        ASNType::Integer(i) => {
            let _ = i.value.as_i32();
        }
        ASNType::ObjectIdentifier(o) => {
            let _ = o.value.values().len();
        }
        _ => {}
    }
}
impl ParseHandler for Toucher {
    fn begin_constructed(&mut self) {
        self.n += 1;
    }
    fn end_constructed(&mut self) {
        self.n += 1;
    }
    fn on_type(&mut self, a: &ASNType) {
        self.n += 1;
        // formatting a constructed value writes its whole content; skip that when deeply nested
        touch(a, &mut self.out, !self.deep);
    }
    fn on_error(&mut self, e: &ASNError) {
        self.n += 1;
        self.out.clear();
        let _ = write!(self.out, "{} {:?}", e, e);
    }
}
fn read_cert(b: &[u8], small: bool, order: u64) -> bool {
    match Certificate::parse(b) {
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            false
        }
        Ok(c) => {
            for step in 0..6 {
                match (step + order) % 6 {
                    0 => {
                        let _ = real::cert(&c);
                    }
                    1 => {
                        let mut s = real::Sink::new();
                        c.print(&mut s);
                    }
                    2 => {
                        if let Ok(n) = UtcTime::now() {
                            let _ = c.tbs_certificate.value.validity.is_valid(n);
                        }
                        let v = &c.tbs_certificate.value.validity;
                        for t in [v.not_before, v.not_after] {
                            let _ = v.is_valid(t);
                            let _ = format!("{:?} {:#?}", t, t);
                        }
                    }
                    3 => {
                        if small {
                            let _ = format!("{:?}", c);
                            if b.len() < 600 {
                                let _ = format!("{:#?}", c);
                            }
                        }
                    }
                    4 => {
                        let mut o = String::new();
                        for a in [&c.signature_algorithm, &c.tbs_certificate.value.signature, &c.tbs_certificate.value.subject_public_key_info.algorithm] {
                            if let Some(p) = &a.parameters {
                                touch(p, &mut o, small);
                            }
                        }
                    }
                    _ => {
                        if let Some(e) = &c.tbs_certificate.value.extensions {
                            match e.parse() {
                                Ok(l) => {
                                    for x in &l {
                                        let _ = x.content.name();
                                        let mut s = real::Sink::new();
                                        x.print(&mut s);
                                    }
                                }
                                Err(e) => {
                                    let _ = format!("{} {:?}", e, e);
                                }
                            }
                        }
                    }
                }
            }
            true
        }
    }
}
fn read_name(b: &[u8]) {
    real::named(b, |n| {
        let n = match n {
            Some(n) => n,
            None => return,
        };
        match n.parse() {
            Ok(r) => {
                let mut s = real::Sink::new();
                r.print(&mut s);
            }
            Err(e) => {
                let _ = format!("{} {:?}", e, e);
            }
        }
        if b.len() < 4096 {
            let mut s = real::Sink::new();
            n.print(&mut s);
        }
    });
}
fn read_ext(b: &[u8]) {
    match Extension::parse(b) {
        Ok(x) => {
            let _ = format!("{:?} {} {:>20} {:.2}", x, x.extn_id, x.extn_id, x.extn_id);
            let _ = real::ext(&x);
            let mut s = real::Sink::new();
            x.print(&mut s);
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
        }
    }
}
pub fn c01(index: u64) {
    if index % 150_000 == 100_000 {
        return giant();
    }
    let b = if chance(1, 3) {
        // the extension decoders see contents no outer structure has filtered
        hostile_ext()
    } else {
        hostile(60000)
    };
    rt::mix_bytes(&b);
    rt::nontrivial();
    trace!("bytes: {}", show(&b));
    rt::add(C::bytes_decoded, b.len() as u64);
    // operations in a random order, some on a part of the bytes
    let nops = range(2, 5);
    let ops: Vec<(u64, usize, u64)> = (0..nops)
        .map(|i| {
            let off = if i > 1 && !b.is_empty() { draw(b.len() as u64) as usize } else { 0 };
            (if i < 2 { (i + draw(2)) % 2 } else { draw(4) }, off, draw(6))
        })
        .collect();
    let b = place(&b);
    sched::run_one(STACK, move || {
        for (op, off, order) in ops {
            let part = &b[off..];
            let small = part.len() <= 20000;
            rt::count(C::ops);
            match op {
                0 => {
                    trace!("walk from {}", off);
                    rt::count(C::walks);
                    let mut t = Toucher { out: String::new(), n: 0, deep: part.len() > 2000 };
                    let ok = must("parse_all", || parse_all(part, &mut t).is_ok());
                    rt::count(if ok { C::probe_walk_ok } else { C::probe_walk_error });
                    rt::mix(t.n);
                }
                1 => {
                    trace!("certificate from {}", off);
                    rt::count(C::cert_decodes);
                    let ok = must("certificate", || read_cert(part, small, order));
                    rt::count(if ok { C::probe_accepted } else { C::probe_refused });
                    rt::mix(ok as u64);
                }
                2 => {
                    trace!("name from {}", off);
                    must("name", || read_name(part))
                }
                _ => {
                    trace!("extension from {}", off);
                    must("extension", || read_ext(part))
                }
            }
        }
    });
}
/// A bit string of more bits than 31-bit counts hold: thorough only, it takes its time.
fn giant() {
    let r = crate::sys::rlimit { cur: 120, max: 125 };
    unsafe { crate::sys::setrlimit(crate::sys::RLIMIT_CPU, &r) };
    let n = (1usize << 28) + range(1, 64) as usize;
    let mut bits = vec![*pick(&[0u8, 0xff, 0x55]); n + 1];
    bits[0] = draw(8) as u8;
    rt::count(C::probe_huge_element);
    rt::mix(n as u64);
    rt::nontrivial();
    trace!("a key usage of {} bytes", n);
    rt::add(C::bytes_decoded, n as u64);
    let b = [tlv(6, &[0x55, 29, 15]), tlv(4, &tlv(3, &bits))].concat();
    drop(bits);
    sched::run_one(STACK, move || {
        let ok = must("extension", || Extension::parse(&b).is_ok());
        rt::count(if ok { C::probe_accepted } else { C::probe_refused });
    });
}
/// An extension (or a certificate holding it) whose value is at the edge of what its type allows.
fn hostile_ext() -> Vec<u8> {
    let mut g = gen_cert(&GenCfg { size: 0, uids: false, unknown: false });
    let oid: &[u32] = pick(&[&[2u32, 5, 29, 14][..], &[2, 5, 29, 15], &[2, 5, 29, 17], &[2, 5, 29, 19], &[2, 5, 29, 37], &[1, 3, 6, 1, 4, 1, 50316, 802, 1]]);
    let tag = *pick(&[3u8, 4, 0x30, 2, 6, 0x0c, 1]);
    let mut content = disk::degenerate(tag);
    if tag == 0x30 || chance(1, 3) {
        // a list of such values
        let mut l = Vec::new();
        for _ in 0..range(1, 4) {
            let t = *pick(&[1u8, 2, 3, 4, 6, 0x82, 0x87, 0x88, 0x81, 0x86, 0x83]);
            let d = match t {
                0x82 | 0x81 | 0x86 => disk::degenerate(0x16),
                0x88 => disk::degenerate(6),
                x => disk::degenerate(x),
            };
            l.extend(tlv(t, &d));
        }
        content = tlv(0x30, &l);
    } else {
        content = tlv(tag, &content);
    }
    fault(C::fault_degenerate_content);
    let mut ext = tlv(6, &oid_content(oid));
    if chance(1, 3) {
        ext.extend(tlv(1, &[0xff]));
    }
    ext.extend(tlv(4, &content));
    if chance(1, 3) {
        return ext;
    }
    let exts = tlv(0xa3, &tlv(0x30, &tlv(0x30, &ext)));
    // put it in place of, or add it as, the extensions of a certificate
    let tbs = &mut g.tree.kids[0];
    if tbs.kids.last().map(|k| k.role) == Some(Role::ExtsTag) {
        tbs.kids.pop();
    }
    tbs.post = exts;
    g.tree.bytes()
}

// ---- C02 -------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Unit {
    Cert,
    Name(u8),
    Exts,
}
/// The decoding step responsible for a part of the certificate.
fn unit_of(role: Role) -> Unit {
    match role {
        Role::Rdn(w, _) | Role::Ava(w, _) | Role::AvaOid(w, _) | Role::AvaVal(w, _) => Unit::Name(w),
        Role::Exts | Role::Ext(_) | Role::ExtOid(_) | Role::ExtCrit(_) | Role::ExtOct(_) | Role::Ski(_) | Role::Ku(_) | Role::San(_) | Role::SanName(..) | Role::Bc(_) | Role::BcCa(_) | Role::BcLen(_) | Role::Eku(_) | Role::EkuOid(..) | Role::Modbus(_) => Unit::Exts,
        _ => Unit::Cert,
    }
}
fn in_octets(role: Role) -> bool {
    matches!(role, Role::Ski(_) | Role::Ku(_) | Role::San(_) | Role::SanName(..) | Role::Bc(_) | Role::BcCa(_) | Role::BcLen(_) | Role::Eku(_) | Role::EkuOid(..) | Role::Modbus(_))
}
enum Outcome {
    CertRefused,
    /// the certificate decodes; did the unit in question?
    Unit(bool, RCert),
}
fn decode_unit(b: &[u8], u: Unit) -> Outcome {
    let b = place(b);
    must("decode", || match Certificate::parse(b) {
        Err(_) => Outcome::CertRefused,
        Ok(c) => {
            let r = real::cert(&c);
            let ok = match u {
                Unit::Cert => true,
                Unit::Name(w) => r.names[w as usize].parsed.is_some(),
                Unit::Exts => !matches!(r.exts, Some(None)),
            };
            Outcome::Unit(ok, r)
        }
    })
}
fn require_refused(class: &str, what: &str, b: &[u8], u: Unit) {
    match decode_unit(b, u) {
        Outcome::CertRefused => rt::count(C::probe_struct_refused),
        Outcome::Unit(false, _) => {
            rt::count(C::probe_struct_refused);
            rt::count(if u == Unit::Exts { C::probe_exts_refused } else { C::probe_names_refused });
        }
        Outcome::Unit(true, r) => {
            let d = match u {
                Unit::Cert => "certificate".to_string(),
                Unit::Name(w) => format!("name read as {:?}", r.names[w as usize].parsed),
                Unit::Exts => format!("extensions read as {:?}", r.exts),
            };
            let d: String = d.chars().take(300).collect();
            rt::violate(class, &format!("{}; accepted: {}; file {}", what, d, show(b)))
        }
    }
}
/// Whether the generated certificate is accepted whole (if not, the run decides nothing).
fn accepted_whole(b: &[u8]) -> Option<RCert> {
    let b = place(b);
    must("decode", || Certificate::parse(b).ok().map(|c| real::cert(&c))).filter(|r| r.names.iter().all(|n| n.parsed.is_some()) && !matches!(r.exts, Some(None)))
}
/// Index path to the i-th node (pre-order).
fn path_to(t: &Node, i: usize) -> Vec<usize> {
    let mut path = Vec::new();
    let mut node = t;
    let mut i = i;
    while i > 0 {
        i -= 1;
        for (k, c) in node.kids.iter().enumerate() {
            let n = c.size();
            if i < n {
                path.push(k);
                node = c;
                break;
            }
            i -= n;
        }
    }
    path
}
fn at_path<'a>(t: &'a mut Node, path: &[usize]) -> &'a mut Node {
    let mut n = t;
    for k in path {
        n = &mut n.kids[*k];
    }
    n
}
struct Quiet(bool);
impl ParseHandler for Quiet {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, _: &ASNType) {}
    fn on_error(&mut self, _: &ASNError) {
        self.0 = true;
    }
}
fn walk_fails(b: &[u8]) -> bool {
    let b = place(b);
    must("parse_all", || parse_all(b, &mut Quiet(false)).is_err())
}
pub fn c02() {
    let g = gen_cert(&GenCfg::any());
    let mode = draw(5);
    let whole = g.tree.bytes();
    rt::mix_bytes(&whole);
    sched::run_one(STACK * 4, move || {
        rt::add(C::bytes_decoded, whole.len() as u64);
        if accepted_whole(&whole).is_none() {
            trace!("the undamaged certificate is not accepted; nothing to decide");
            return;
        }
        trace!("certificate {}", show(&whole));
        match mode {
            0 => {
                // crash while the file was being written: it ends early
                let n = range(1, 8);
                for _ in 0..n {
                    let r = draw(whole.len() as u64) as usize;
                    rt::mix(r as u64);
                    fault(C::fault_truncated);
                    trace!("file ends at {}", r);
                    require_refused("missing-bytes-accepted", &format!("file of {} bytes cut at {}", whole.len(), r), &whole[..r], Unit::Cert);
                    if r > 0 && !walk_fails(&whole[..r]) {
                        rt::violate("missing-bytes-accepted", &format!("element walk of a file cut at {} of {} ends without error; file {}", r, whole.len(), show(&whole[..r])));
                    }
                }
            }
            1 | 2 => {
                // the tail of some element is lost; everything around it agrees with that
                let mut t = g.tree.clone();
                let i = 1 + draw(t.size() as u64 - 1) as usize;
                let path = path_to(&t, i);
                let (last, up) = path.split_last().unwrap();
                at_path(&mut t, up).kids.truncate(last + 1);
                let node = at_path(&mut t, &path);
                let full = node.bytes().len();
                let keep = 1 + draw(full as u64 - 1) as usize;
                node.cut = Some(keep);
                let role = node.role;
                fault(C::fault_struct_cut);
                rt::mix(i as u64 * 4096 + keep as u64);
                trace!("{:?} keeps {} of its {} bytes", role, keep, full);
                let b = t.bytes();
                let parent_intact_walk = !refdec::walk_with(&whole, false).ok;
                require_refused("missing-bytes-accepted", &format!("{:?} keeps {} of its {} bytes", role, keep, full), &b, unit_of(role));
                if !parent_intact_walk && !in_octets(role) && !walk_fails(&b) {
                    rt::violate("missing-bytes-accepted", &format!("element walk ends without error although {:?} keeps {} of {} bytes; file {}", role, keep, full, show(&b)));
                }
            }
            3 => {
                // an element declares more bytes than its container holds
                let mut t = g.tree.clone();
                let i = draw(t.size() as u64) as usize;
                let path = path_to(&t, i);
                if let Some((last, up)) = path.split_last() {
                    at_path(&mut t, up).kids.truncate(last + 1);
                }
                let node = at_path(&mut t, &path);
                let len = node.content().len();
                let more = *pick(&[1usize, 2, 3, 5, 16, 127, 128, 255, 256, 65535, 1 << 24, (1 << 31) - 1, 0xffff_0000]);
                let said = (len + more).min(0xffff_ffff);
                node.len_lie = Some(len_octets(said));
                let role = node.role;
                fault(C::fault_length_lie);
                rt::mix(i as u64 * 4096 + said as u64);
                trace!("{:?} declares {} bytes and has {}", role, said, len);
                require_refused("missing-bytes-accepted", &format!("{:?} declares {} bytes and has {}", role, said, len), &t.bytes(), unit_of(role));
            }
            _ => {
                // the separately offered decoders, given a beginning of what they should get
                let mut t = g.tree.clone();
                let mut roles = Vec::new();
                t.roles(&mut roles);
                roles.retain(|r| matches!(r, Role::Name(_) | Role::Ext(_)));
                let role = *pick(&roles);
                let node = t.find_mut(role).unwrap();
                let content = node.content();
                if content.is_empty() {
                    return;
                }
                let ends: Vec<usize> = {
                    let mut p = 0;
                    node.kids
                        .iter()
                        .map(|k| {
                            p += k.bytes().len();
                            p
                        })
                        .collect()
                };
                let r = draw(content.len() as u64) as usize;
                fault(C::fault_truncated);
                rt::mix(r as u64);
                trace!("{:?}: first {} of {} bytes", role, r, content.len());
                let part = &content[..r];
                let accepted = match role {
                    Role::Name(_) => real::is_name(part),
                    _ => must("extension", || Extension::parse(part).is_ok()),
                };
                let complete = matches!(role, Role::Name(_)) && (r == 0 || ends.contains(&r));
                if accepted && !complete {
                    rt::violate("missing-bytes-accepted", &format!("{:?} decoded from the first {} of its {} bytes: {}", role, r, content.len(), show(part)));
                }
                rt::count(C::probe_struct_refused);
            }
        }
    });
}

// ---- C03 -------------------------------------------------------------------------------------

/// Surplus bytes for the end of a structure whose next optional or repeated element would start
/// with a byte for which `taken` is true.
fn surplus(taken: impl Fn(u8) -> bool, repeat: &[u8]) -> Vec<u8> {
    let j = match draw(8) {
        0 => vec![0u8; range(1, 12) as usize],
        1 => vec![0xffu8; range(1, 6) as usize],
        2 => repeat.to_vec(),
        3 => tlv(5, &[]),
        4 => tlv(0x30, &tlv(2, &[1])),
        5 => {
            let f = *pick(&disk::CORPUS);
            let k = draw(f.len() as u64 - 1) as usize;
            f[k..(k + 1 + draw(40) as usize).min(f.len())].to_vec()
        }
        6 => vec![*pick(&[0x00u8, 0x0a, 0x20, 0x5a, 0x30, 0x02, 0x04, 0xa0, 0xff, 0x3f])],
        _ => bytes_nonempty(),
    };
    if j.is_empty() || taken(j[0]) {
        return vec![0; range(1, 4) as usize];
    }
    j
}
fn bytes_nonempty() -> Vec<u8> {
    rbytes(range(1, 30) as usize)
}
pub fn c03() {
    let g = gen_cert(&GenCfg::any());
    let whole = g.tree.bytes();
    rt::mix_bytes(&whole);
    let older = older_file();
    sched::run_one(STACK * 4, move || {
        rt::add(C::bytes_decoded, whole.len() as u64);
        if accepted_whole(&whole).is_none() {
            trace!("the undamaged certificate is not accepted; nothing to decide");
            return;
        }
        trace!("certificate {}", show(&whole));
        if chance(1, 6) {
            // a longer older file shows through behind the new one
            let r = disk::residue(&whole, &older);
            let mut b = whole.clone();
            b.extend_from_slice(&r);
            fault(C::fault_stale_residue);
            rt::mix_bytes(&r);
            require_refused("left-over-bytes-ignored", &format!("{} bytes follow the certificate: {}", r.len(), show(&r)), &b, Unit::Cert);
            return;
        }
        if chance(1, 30) {
            // or something else stands ahead of it
            let r = disk::ahead(&whole);
            fault(C::fault_carried);
            rt::mix_bytes(&r);
            let b = [&r[..], &whole].concat();
            require_refused("left-over-bytes-ignored", &format!("{} bytes stand ahead of the certificate: {}", r.len(), show(&r)), &b, Unit::Cert);
            return;
        }
        let mut t = g.tree.clone();
        // places where surplus bytes can stand
        let mut roles = Vec::new();
        t.roles(&mut roles);
        roles.retain(|r| {
            matches!(
                r,
                Role::Cert | Role::Tbs | Role::VerTag | Role::Alg(_) | Role::Name(_) | Role::Rdn(..) | Role::Ava(..) | Role::Validity | Role::Time(_) | Role::Spki | Role::ExtsTag | Role::Exts | Role::Ext(_) | Role::ExtOct(_) | Role::San(_) | Role::Bc(_) | Role::Eku(_) | Role::BcCa(_) | Role::ExtCrit(_)
            )
        });
        // every kind of place equally often
        let mut kinds: Vec<u64> = Vec::new();
        let disc = |r: &Role| rt::hash_bytes(format!("{:?}", r).split('(').next().unwrap().as_bytes());
        for r in &roles {
            if !kinds.contains(&disc(r)) {
                kinds.push(disc(r));
            }
        }
        let k = *pick(&kinds);
        roles.retain(|r| disc(r) == k);
        let role = *pick(&roles);
        let node = t.find_mut(role).unwrap();
        if matches!(role, Role::ExtOct(_)) && node.kids.is_empty() {
            trace!("an unknown extension's value has no inner end");
            return;
        }
        let rep = node.kids.last().map(|k| k.bytes()).unwrap_or_else(|| node.pre.clone());
        let nkids = node.kids.len();
        let has_len = node.kids.iter().any(|k| matches!(k.role, Role::BcLen(_)));
        let mut j = match role {
            Role::Tbs => surplus(|b| b & 0xc0 == 0x80 && (1..=3).contains(&(b & 31)), &rep),
            Role::Name(_) => surplus(|b| b == 0x31, &rep),
            Role::Rdn(..) => surplus(|b| b == 0x30, &rep),
            Role::Exts => surplus(|b| b == 0x30, &rep),
            Role::San(_) => surplus(|b| b & 0xc0 == 0x80, &rep),
            Role::Eku(_) => surplus(|b| b == 6, &rep),
            Role::Bc(_) if has_len => surplus(|_| false, &rep),
            Role::Bc(_) if nkids == 0 => surplus(|b| b == 2 || b == 1, &rep),
            Role::Bc(_) => surplus(|b| b == 2, &rep),
            _ => surplus(|_| false, &rep),
        };
        if matches!(role, Role::Alg(_)) && nkids == 1 {
            // without parameters, the first element that follows would be taken for them
            let mut x = tlv(5, &[]);
            x.extend(j);
            j = x;
        }
        node.post = j.clone();
        fault(C::fault_struct_residue);
        rt::mix_bytes(&j);
        rt::mix(rt::hash_bytes(format!("{:?}", role).as_bytes()));
        trace!("{} surplus bytes at the end of {:?}: {}", j.len(), role, show(&j));
        let u = match role {
            Role::Name(w) => Unit::Name(w),
            Role::ExtsTag => Unit::Exts,
            r => unit_of(r),
        };
        require_refused("left-over-bytes-ignored", &format!("{} surplus bytes end {:?}: {}", j.len(), role, show(&j)), &t.bytes(), u);
        // the same extension or name offered on its own
        let own = match role {
            Role::Name(_) | Role::Ext(_) => t.find_mut(role).map(|n| n.content()),
            _ => None,
        };
        if let Some(c) = own {
            let ok = match role {
                Role::Name(_) => real::is_name(&c),
                _ => must("extension", || Extension::parse(&c).is_ok()),
            };
            if ok {
                rt::violate("left-over-bytes-ignored", &format!("{:?} decodes with {} surplus bytes: {}", role, j.len(), show(&c)));
            }
        }
    });
}

// ---- C04 -------------------------------------------------------------------------------------

/// Where the signature algorithm's parameters and the signature's content lie, by the harness's own reading.
struct Places {
    params: Option<(usize, usize)>,
    sig: (usize, usize),
}
fn places(b: &[u8]) -> Option<Places> {
    let mut f = refdec::Cur::new(b);
    let o = f.want(0x30).ok()?;
    let mut c = f.sub(&o);
    c.want(0x30).ok()?;
    let a = c.want(0x30).ok()?;
    let mut ac = c.sub(&a);
    let e = refdec::header(b, ac.pos, ac.end).ok()?;
    ac.pos = e.end;
    let params = if ac.done() { None } else { Some((ac.pos, ac.end)) };
    let s = refdec::header(b, c.pos, c.end).ok()?;
    if s.id != 3 {
        return None;
    }
    Some(Places { params, sig: (s.c0, s.end) })
}
fn time_text(secs: u64, generalized: bool) -> Option<Vec<u8>> {
    let s = secs as i64;
    let days = s / 86400;
    // year by search over the independent calendar
    let mut y = 1970 + days / 366;
    while days_from_civil(y + 1, 1, 1) <= days {
        y += 1;
    }
    let mut m = 1;
    while m < 12 && days_from_civil(y, m + 1, 1) <= days {
        m += 1;
    }
    let d = days - days_from_civil(y, m, 1) + 1;
    let r = s % 86400;
    let t = if generalized {
        if y > 9999 {
            return None;
        }
        format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", y, m, d, r / 3600, r / 60 % 60, r % 60)
    } else {
        if !(1950..=2049).contains(&y) {
            return None;
        }
        format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, m, d, r / 3600, r / 60 % 60, r % 60)
    };
    Some(t.into_bytes())
}
/// The one DER encoding of a handed-out value, then the other encodings it could stand for.
fn encodings(a: &ASNType, stored: Option<&[u8]>) -> Vec<Vec<u8>> {
    match a {
        ASNType::Boolean(x) => vec![tlv(1, &[if x.value { 0xff } else { 0 }])],
        ASNType::Integer(x) => vec![tlv(2, x.value.bytes)],
        ASNType::BitString(x) => {
            if let Some(o) = x.value.octets() {
                let mut c = vec![0];
                c.extend_from_slice(o);
                return vec![tlv(3, &c)];
            }
            // padding bits are part of the value only through comparison: find them in the file
            if let Some(s) = stored {
                if s.len() > 2 {
                    let h = disk::header_len(s);
                    if h < s.len() {
                        let c = &s[h..];
                        if x.value == ASNBitString::new(c[0], &c[1..]) {
                            return vec![tlv(3, c)];
                        }
                    }
                }
            }
            let b = real::bits(&x.value);
            let mut c = vec![b.unused];
            c.extend(b.bytes);
            vec![tlv(3, &c)]
        }
        ASNType::OctetString(x) => vec![tlv(4, x.value)],
        ASNType::Null => vec![tlv(5, &[])],
        ASNType::ObjectIdentifier(x) => vec![tlv(6, &oid_content(x.value.values()))],
        ASNType::UTF8String(x) => vec![tlv(0x0c, x.value.as_bytes())],
        ASNType::PrintableString(x) => vec![tlv(0x13, x.value.as_bytes())],
        ASNType::IA5String(x) => vec![tlv(0x16, x.value.as_bytes())],
        ASNType::Sequence(x) => vec![tlv(0x30, x.value)],
        ASNType::Set(x) => vec![tlv(0x31, x.value)],
        ASNType::UTCTime(x) => {
            let mut v = Vec::new();
            if let Some(t) = time_text(x.value, false) {
                v.push(tlv(0x17, &t));
            }
            if let Some(t) = time_text(x.value, true) {
                v.push(tlv(0x18, &t));
            }
            v
        }
        ASNType::GeneralizedTime(x) => time_text(x.value, true).map(|t| vec![tlv(0x18, &t)]).unwrap_or_default(),
        ASNType::ExplicitTag(x) => vec![tlv(if real::constructed(&x.value) { 0xa0 } else { 0x80 } | x.value.value, x.value.contents)],
    }
}
fn account(b: &[u8]) -> bool {
    let b = place(b);
    must("certificate", || {
        let c = match Certificate::parse(b) {
            Err(_) => return false,
            Ok(c) => c,
        };
        // everything from here on is the harness's own work on what was handed out
        let p = places(b);
        let stored = p.as_ref().and_then(|p| p.params).map(|(x, y)| &b[x..y]);
        let params: Vec<Vec<u8>> = match &c.signature_algorithm.parameters {
            None => vec![vec![]],
            Some(a) => encodings(a, stored),
        };
        let sigc: Vec<u8> = if let Some(o) = c.signature_value.octets() {
            let mut v = vec![0];
            v.extend_from_slice(o);
            v
        } else {
            let cand = p.as_ref().map(|p| &b[p.sig.0..p.sig.1]).filter(|s| !s.is_empty() && c.signature_value == ASNBitString::new(s[0], &s[1..]));
            match cand {
                Some(s) => s.to_vec(),
                None => {
                    let r = real::bits(&c.signature_value);
                    let mut v = vec![r.unused];
                    v.extend(r.bytes);
                    v
                }
            }
        };
        let oid = tlv(6, &oid_content(c.signature_algorithm.algorithm.values()));
        let build = |par: &[u8]| {
            let mut alg = oid.clone();
            alg.extend_from_slice(par);
            let mut body = tlv(0x30, c.tbs_certificate.bytes);
            body.extend(tlv(0x30, &alg));
            body.extend(tlv(3, &sigc));
            tlv(0x30, &body)
        };
        rt::count(C::probe_accepted);
        let hit = params.iter().position(|x| build(x) == b);
        match hit {
            Some(0) => {
                rt::count(C::probe_params_reassembled);
            }
            Some(_) => sched::callback(|| {
                rt::finding("C04-time-notation", &format!("the notation of a time in the signature algorithm's parameters is not handed out: {}", show(b)))
            }),
            None => {
                let a = params.first().map(|x| build(x)).unwrap_or_default();
                sched::callback(|| rt::violate("bytes-not-accounted-for", &format!("accepted file {} but what was handed out makes {}", show(b), show(&a))))
            }
        }
        true
    })
}
pub fn c04(index: u64) {
    // the scenario of the recorded finding is always among the runs
    if index < 1 {
        let mut g = gen_cert(&GenCfg { size: 0, uids: false, unknown: false });
        let alg = &mut g.tree.kids[1];
        alg.kids.truncate(1);
        alg.kids.push(prim(0x18, Role::AlgPar(2), b"20200101000000Z".to_vec()));
        let b = g.tree.bytes();
        rt::mix_bytes(&b);
        fault(C::fault_tag_damage);
        sched::run_one(STACK * 4, move || {
            account(&b);
        });
        return;
    }
    let kind = draw(4);
    let (mut tree, file) = match kind {
        0..=2 => {
            let t = gen_cert(&GenCfg { size: draw(3) as u8, uids: chance(1, 4), unknown: true }).tree;
            let f = t.bytes();
            (Some(t), f)
        }
        _ => (None, pick(&disk::CORPUS).to_vec()),
    };
    let b = match (draw(5), &mut tree) {
        (0, _) => file.clone(),
        (1, Some(t)) => {
            disk::mutate_tree(t);
            if chance(1, 3) {
                disk::mutate_tree(t);
            }
            t.bytes()
        }
        (2, Some(t)) => {
            outer_damage(t);
            t.bytes()
        }
        (3, _) => disk::store(&file, &disk::medium(&older_file()), range(1, 2)).bytes,
        _ => {
            // rot in the parts outside the signed portion
            let mut v = file.clone();
            let skip = refdec::header(&v, 0, v.len()).and_then(|o| refdec::header(&v, o.c0, o.end)).map(|t| t.end).unwrap_or(0);
            for _ in 0..range(1, 2) {
                let hdr = chance(1, 4);
                let i = if hdr || skip >= v.len() { draw(8.min(v.len() as u64)) as usize } else { skip + draw((v.len() - skip) as u64) as usize };
                v[i] = if chance(1, 2) { v[i] ^ (1 << draw(8)) } else { draw(256) as u8 };
                fault(C::fault_byte_damage);
                trace!("  byte {} becomes {:02x}", i, v[i]);
            }
            v
        }
    };
    rt::mix_bytes(&b);
    rt::add(C::bytes_decoded, b.len() as u64);
    trace!("file {}", show(&b));
    sched::run_one(STACK * 4, move || {
        let ok = account(&b);
        trace!("accepted: {}", ok);
        if ok {
            rt::nontrivial();
            if b != file {
                rt::count(C::probe_accepted_after_damage);
            }
        } else {
            rt::count(C::probe_refused);
        }
    });
}
/// Rewrites aimed at the outer algorithm and signature, where nothing is signed.
fn outer_damage(t: &mut Node) {
    let cfg = GenCfg { size: 0, uids: false, unknown: true };
    match draw(9) {
        0 => {
            let (n, _) = gen_asn(&cfg, Role::AlgPar(2));
            t.kids[1].kids.truncate(1);
            t.kids[1].kids.push(n);
        }
        1 => {
            t.kids[1].kids.truncate(1);
            let tag = *pick(&[1u8, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0xa0, 0x9f]);
            t.kids[1].kids.push(prim(tag, Role::AlgPar(2), disk::degenerate(tag)));
        }
        2 => t.kids[1].post = disk::junk(),
        3 => t.kids[2].pre = disk::degenerate(3),
        4 => {
            let o = &mut t.kids[1].kids[0].pre;
            let k = draw(o.len() as u64 + 1) as usize;
            o.insert(k, *pick(&[0x80u8, 0x00, 0x81, 0xff]));
        }
        5 => t.kids[1].kids[0].pre = disk::degenerate(6),
        6 => t.post = disk::junk(),
        7 => {
            let k = draw(3) as usize;
            let n = t.kids[k].content().len();
            t.kids[k].len_lie = Some(match draw(3) {
                0 => vec![0x81, n.min(255) as u8],
                1 => vec![0x82, (n >> 8) as u8, n as u8],
                _ => vec![0x83, 0, (n >> 8) as u8, n as u8],
            });
        }
        _ => {
            let c = t.kids[draw(3) as usize].clone();
            t.kids.push(c);
        }
    }
    fault(C::fault_struct_residue);
}

// ---- C05 -------------------------------------------------------------------------------------

/// The fields a byte inside a leaf of this role may influence.
fn keys_of(role: Role) -> Vec<String> {
    let alg = |w: u8| ["alg.signed", "alg.key", "alg.outer"][w as usize];
    let nm = |w: u8| ["issuer", "subject"][w as usize];
    match role {
        Role::Ver => vec!["version".into()],
        Role::Serial => vec!["serial".into()],
        Role::AlgOid(w) => vec![format!("{}.oid", alg(w))],
        Role::AlgPar(w) => vec![format!("{}.params", alg(w))],
        Role::AvaOid(w, _) | Role::AvaVal(w, _) => vec![format!("{}.", nm(w)), format!("raw.{}", nm(w))],
        Role::Time(0) => vec!["notBefore".into()],
        Role::Time(_) => vec!["notAfter".into()],
        Role::Key => vec!["key".into()],
        Role::Uid(i) => vec![format!("uid{}", i)],
        Role::ExtOid(i) => vec![format!("ext{}.oid", i), format!("ext{}.body", i)],
        Role::ExtCrit(i) => vec![format!("ext{}.critical", i)],
        Role::ExtOct(i) | Role::Ski(i) | Role::Ku(i) | Role::SanName(i, _) | Role::BcCa(i) | Role::BcLen(i) | Role::EkuOid(i, _) | Role::Modbus(i) => vec![format!("ext{}.body", i)],
        Role::SigVal => vec!["sig".into()],
        _ => vec![],
    }
}
fn in_exts(role: Role) -> bool {
    unit_of(role) == Unit::Exts
}
fn in_signed(role: Role) -> bool {
    !matches!(role, Role::SigVal | Role::AlgOid(2) | Role::AlgPar(2))
}
pub fn c05() {
    let g = gen_cert(&GenCfg { size: draw(3) as u8, uids: chance(1, 3), unknown: true });
    let (whole, spans) = g.tree.flatten();
    rt::mix_bytes(&whole);
    let rec = g.rec.clone();
    let damage = draw(4);
    sched::run_one(STACK * 4, move || {
        rt::add(C::bytes_decoded, whole.len() as u64);
        rt::count(C::cert_decodes);
        trace!("certificate {}", show(&whole));
        let want = fields(&rec);
        let placed = place(&whole);
        let got = match must("certificate", || Certificate::parse(placed).map(|c| real::cert(&c)).map_err(|e| e.to_string())) {
            Ok(r) => r,
            Err(e) => rt::violate("well-formed-refused", &format!("{}; file {}", e, show(&whole))),
        };
        let d = diff(&want, &fields(&got));
        if !d.is_empty() {
            rt::violate("field-misread", &format!("{}; file {}", show_diff(&d), show(&whole)));
        }
        rt::count(C::probe_accepted);
        if rec.exts.is_some() {
            rt::count(C::probe_exts_decoded);
        }
        if damage == 0 {
            if !rec.exts.iter().flatten().flatten().any(|_| true) {
                return;
            }
            rt::nontrivial();
            return;
        }
        // one byte of one field's content is damaged
        let leaves: Vec<&Span> = spans.iter().filter(|s| s.leaf && s.end > s.cstart && !keys_of(s.role).is_empty()).collect();
        let kinds = leaf_kinds(&leaves);
        let k = *pick(&kinds);
        let same: Vec<&&Span> = leaves.iter().filter(|s| kind_hash(s.role) == k).collect();
        for _ in 0..damage {
            let s = **pick(&same);
            let i = s.cstart + draw((s.end - s.cstart) as u64) as usize;
            let mut b = whole.clone();
            b[i] = damaged_value(whole[i], s.tag);
            if b[i] == whole[i] {
                b[i] ^= 1;
            }
            fault(C::fault_byte_damage);
            rt::mix(i as u64 * 256 + b[i] as u64);
            trace!("{:?}: byte {} changes from {:02x} to {:02x}", s.role, i, whole[i], b[i]);
            damaged(&whole, &want, &b, s.role, i);
        }
    });
}
fn kind_hash(r: Role) -> u64 {
    let t = format!("{:?}", r);
    let head = t.split('(').next().unwrap();
    let which = match r {
        Role::AlgOid(w) | Role::AlgPar(w) | Role::Time(w) | Role::Uid(w) | Role::AvaOid(w, _) | Role::AvaVal(w, _) => w as u64 + 1,
        _ => 0,
    };
    rt::hash_bytes(head.as_bytes()) ^ which
}
fn leaf_kinds(l: &[&Span]) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    for s in l {
        let k = kind_hash(s.role);
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v
}
/// A damaged byte that is often still plausible where it stands.
fn damaged_value(was: u8, tag: u8) -> u8 {
    match draw(4) {
        0 => was ^ (1 << draw(8)),
        1 if tag == 0x17 || tag == 0x18 => b'0' + draw(10) as u8,
        1 if tag == 0x13 || tag == 0x16 || tag == 0x0c || tag >= 0x80 => *pick(b"aZ09 .-@*:/"),
        1 if tag == 1 => *pick(&[0u8, 0xff, 1]),
        1 if tag == 3 => draw(9) as u8,
        1 => *pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x7f, 0x80, 0x81, 0xff]),
        2 => was.wrapping_add(*pick(&[1u8, 0xff, 2, 0xfe])),
        _ => draw(256) as u8,
    }
}
fn damaged(whole: &[u8], want: &[(String, String)], b: &[u8], role: Role, at: usize) {
    let b = place(b);
    let got = match must("certificate", || Certificate::parse(b).map(|c| real::cert(&c)).ok()) {
        None => {
            rt::count(C::probe_decode_fails_on_damage);
            return;
        }
        Some(r) => r,
    };
    let gf = fields(&got);
    let d = diff(want, &gf);
    let keys = keys_of(role);
    let name_refused = |w: &str| gf.iter().any(|(k, _)| k == &format!("{}.undecodable", w));
    let exts_refused = matches!(got.exts, Some(None));
    for (k, a, x) in &d {
        let own = keys.iter().any(|p| if p.ends_with('.') { k.starts_with(p.as_str()) } else { k == p });
        let raw = k == "raw.signed" && in_signed(role);
        let undecodable = exts_refused && in_exts(role) && (k == "exts" || k.starts_with("ext"));
        if !own && !raw && !undecodable {
            rt::violate(
                "damage-escapes-its-field",
                &format!("byte {} ({:?}) changed from {:02x} to {:02x}; field {} went from {} to {}; file {}", at, role, whole[at], b[at], k, &a.chars().take(80).collect::<String>(), &x.chars().take(80).collect::<String>(), show(b)),
            );
        }
    }
    let _ = name_refused;
    // a damaged certificate that is well formed again says what its bytes say
    if let Ok(r) = refdec::cert(b) {
        let e = diff(&fields(&r), &gf);
        if !e.is_empty() {
            rt::violate("field-misread", &format!("byte {} ({:?}) changed from {:02x} to {:02x}; {}; file {}", at, role, whole[at], b[at], show_diff(&e), show(b)));
        }
    }
    if exts_refused {
        rt::count(C::probe_exts_refused);
        return;
    }
    let visible = d.iter().any(|(k, _, _)| !k.starts_with("raw."));
    rt::count(if visible { C::probe_visible_damage } else { C::probe_invisible_damage });
    // fields whose value is their content: the change has to show in the field itself
    let direct = matches!(role, Role::Ver | Role::Serial | Role::AlgOid(_) | Role::Time(_) | Role::ExtOid(_) | Role::ExtCrit(_) | Role::Ski(_) | Role::SanName(..) | Role::BcCa(_) | Role::BcLen(_) | Role::EkuOid(..) | Role::Modbus(_));
    if direct && !visible {
        rt::violate("damage-not-reported", &format!("byte {} ({:?}) changed from {:02x} to {:02x} and no field changed; file {}", at, role, whole[at], b[at], show(b)));
    }
}

// ---- C09 -------------------------------------------------------------------------------------

struct Counter {
    n: u64,
}
impl ParseHandler for Counter {
    fn begin_constructed(&mut self) {
        self.n += 1;
    }
    fn end_constructed(&mut self) {
        self.n += 1;
    }
    fn on_type(&mut self, _: &ASNType) {
        self.n += 1;
    }
    fn on_error(&mut self, _: &ASNError) {
        self.n += 1;
    }
}
pub struct Nowhere;
impl Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
pub struct NullSink;
impl rx509::x509::printer::LinePrinter for NullSink {
    fn begin_type(&mut self) {}
    fn begin_line(&mut self) {}
    fn print_fmt(&mut self, f: &core::fmt::Arguments) {
        let _ = Nowhere.write_fmt(*f);
    }
    fn print_str(&mut self, _: &str) {}
    fn println_fmt(&mut self, f: &core::fmt::Arguments) {
        self.print_fmt(f)
    }
    fn println_str(&mut self, _: &str) {}
    fn end_type(&mut self) {}
}
/// Many small elements, the densest way to ask for memory per byte.
fn dense() -> Vec<u8> {
    let n = *pick(&[100usize, 1000, 8000]);
    let el: Vec<u8> = match draw(6) {
        0 => tlv(5, &[]),
        1 => tlv(6, &[0x2a]),
        2 => tlv(0x30, &[]),
        3 => tlv(6, &oid_content(&[1, 3, 6, 1, 5, 5, 7, 3, 1])),
        4 => tlv(0x82, b""),
        _ => tlv(0x30, &[6, 1, 0x2a, 4, 0]),
    };
    let list = tlv(0x30, &el.repeat(n));
    let mut g = gen_cert(&GenCfg { size: 0, uids: false, unknown: false });
    let tbs = &mut g.tree.kids[0];
    if tbs.kids.last().map(|k| k.role) == Some(Role::ExtsTag) {
        tbs.kids.pop();
    }
    match draw(4) {
        0 => return list,
        1 => tbs.post = tlv(0xa3, &list),
        2 => {
            let oid = *pick(&[37u32, 17, 19]);
            let mut e = tlv(6, &oid_content(&[2, 5, 29, oid]));
            e.extend(tlv(4, &list));
            tbs.post = tlv(0xa3, &tlv(0x30, &tlv(0x30, &e)));
        }
        _ => {
            let mut big = tlv(6, &vec![0x2a; n]);
            big.extend(tlv(5, &[]));
            g.tree.kids[1] = prim(0x30, Role::Alg(2), big);
        }
    }
    rt::count(C::fault_element_repeated);
    g.tree.bytes()
}
const MEM_CONST: u64 = 16 << 10;
const MEM_FACTOR: u64 = 128;
pub fn c09() {
    let b = match draw(4) {
        0 => dense(),
        1 => {
            // headers that promise much more than is there
            let mut t = gen_cert(&GenCfg { size: 0, uids: true, unknown: true }).tree;
            for _ in 0..range(1, 3) {
                let i = draw(t.size() as u64) as usize;
                let n = t.nth_mut(i).unwrap();
                let l = n.content().len();
                n.len_lie = Some(disk::lie(l));
                fault(C::fault_length_lie);
            }
            t.bytes()
        }
        _ => hostile(20000),
    };
    rt::mix_bytes(&b);
    rt::nontrivial();
    rt::add(C::bytes_decoded, b.len() as u64);
    trace!("bytes: {}", show(&b));
    sched::run_one(STACK * 4, move || {
        let n = b.len() as u64;
        let bound = MEM_CONST + MEM_FACTOR * n;
        let check = |what: &str, m: seam::Meter| {
            rt::add(C::allocs_seen, m.count);
            rt::add_max(C::probe_max_alloc_seen, m.peak / (n + 256));
            trace!("{}: peak {} bytes, largest request {}, {} requests, for {} bytes", what, m.peak, m.max_request, m.count, n);
            rt::mix(m.peak);
            if m.peak > bound || m.max_request > bound {
                rt::violate("memory-unbounded", &format!("{} of {} bytes asks for {} bytes (largest request {}), over {}; bytes {}", what, n, m.peak, m.max_request, bound, show(&b)));
            }
        };
        let mut c = Counter { n: 0 };
        seam::meter_start();
        must("parse_all", || {
            let _ = parse_all(&b, &mut c);
        });
        check("walk", seam::meter());
        if c.n > 2 * n + 8 {
            rt::violate("notifications-unbounded", &format!("{} notifications for {} bytes; bytes {}", c.n, n, show(&b)));
        }
        seam::meter_start();
        let cert = must("certificate", || Certificate::parse(&b));
        check("decode", seam::meter());
        if let Ok(cert) = cert {
            rt::count(C::probe_accepted);
            seam::meter_start();
            must("names", || {
                let _ = cert.tbs_certificate.value.issuer.parse().is_ok();
                let _ = cert.tbs_certificate.value.subject.parse().is_ok();
            });
            check("names", seam::meter());
            if let Some(e) = &cert.tbs_certificate.value.extensions {
                seam::meter_start();
                must("extensions", || {
                    let _ = e.parse().is_ok();
                });
                check("extensions", seam::meter());
            }
            seam::meter_start();
            must("print", || cert.print(&mut NullSink));
            check("print", seam::meter());
        }
        real::named(&b, |n| {
            seam::meter_start();
            must("name", || {
                let _ = n.map(|n| n.parse().is_ok());
            });
            must("extension", || {
                let _ = Extension::parse(&b).is_ok();
            });
            check("parts", seam::meter());
        });
    });
    let _ = Point::Op;
}
