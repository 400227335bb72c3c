//! C17, C19: damaged encodings and misplaced elements at every place of a stored certificate or
//! document, with every enclosing length right, so that only the check for that very thing can
//! catch them. The judge is the reference decoder.
use super::*;
use crate::der::{oid_content, prim, tlv};
use crate::model::*;
use crate::real;
use crate::refdec;
use crate::sched::{self, must};
use rx509::der::parse_all;
use rx509::x509::Certificate;

const STACK: usize = 1 << 20;

/// The element walk and the reference agree on what `b` is.
fn judge_walk(b: &[u8], light: bool) {
    let b = crate::around::place(b);
    rt::count(C::walks);
    let w = refdec::walk_with(b, !light);
    let mut r = real::Recorder::new();
    r.light = light;
    let ok = must("parse_all", || parse_all(b, &mut r).is_ok());
    rt::mix(r.evs.len() as u64);
    rt::count(if ok { C::probe_walk_ok } else { C::probe_walk_error });
    if ok && !w.ok {
        rt::violate("malformed-accepted", &format!("the element walk ends without error; element {} is malformed; bytes {}", w.evs.len(), show(b)));
    }
    if !ok && w.ok {
        rt::violate("well-formed-refused", &format!("the element walk fails with {:?}; bytes {}", r.errors, show(b)));
    }
    if let Some(i) = (0..w.evs.len().max(r.evs.len())).find(|i| w.evs.get(*i) != r.evs.get(*i)) {
        let cut = |e: Option<&refdec::Ev>| format!("{:?}", e).chars().take(120).collect::<String>();
        let class = match (w.evs.get(i), r.evs.get(i)) {
            (Some(refdec::Ev::Error), _) => "malformed-accepted",
            (_, Some(refdec::Ev::Error)) => "well-formed-refused",
            _ => "value-misread",
        };
        rt::violate(class, &format!("notification {}: expected {} got {}; bytes {}", i, cut(w.evs.get(i)), cut(r.evs.get(i)), show(b)));
    }
}
/// The certificate decoder and the reference agree on whether `b` is a certificate, on whether its
/// names and extensions can be decoded, and on every field.
fn judge_cert(b: &[u8], refuse: &str, accept: &str) {
    let b = crate::around::place(b);
    rt::count(C::cert_decodes);
    let want = refdec::cert(b);
    let got = must("certificate", || Certificate::parse(b).map(|c| real::cert(&c)).map_err(|e| e.to_string()));
    rt::mix(got.is_ok() as u64);
    match (want, got) {
        (Err(()), Err(_)) => rt::count(C::probe_refused),
        (Err(()), Ok(r)) => {
            let f: String = fields(&r).iter().map(|(k, v)| format!("{}={} ", k, v)).collect::<String>().chars().take(300).collect();
            rt::violate(accept, &format!("accepted as a certificate: {}; file {}", f, show(b)))
        }
        (Ok(_), Err(e)) => rt::violate(refuse, &format!("refused with {:?}; file {}", e, show(b))),
        (Ok(w), Ok(g)) => {
            rt::count(C::probe_accepted);
            for (i, n) in ["issuer", "subject"].iter().enumerate() {
                match (&w.names[i].parsed, &g.names[i].parsed) {
                    (None, Some(r)) => rt::violate(accept, &format!("the {} is read as {:?}; file {}", n, r, show(b))),
                    (Some(r), None) => rt::violate(refuse, &format!("the {} {:?} is refused; file {}", n, r, show(b))),
                    (None, None) => rt::count(C::probe_names_refused),
                    _ => {}
                }
            }
            match (&w.exts, &g.exts) {
                (Some(None), Some(Some(r))) => rt::violate(accept, &format!("the extensions are read as {:?}; file {}", r, show(b)).chars().take(900).collect::<String>()),
                (Some(Some(r)), Some(None)) => rt::violate(refuse, &format!("the extensions {:?} are refused; file {}", r, show(b)).chars().take(900).collect::<String>()),
                (Some(None), _) => rt::count(C::probe_exts_refused),
                (Some(Some(_)), _) => rt::count(C::probe_exts_decoded),
                _ => {}
            }
            let d = diff(&fields(&w), &fields(&g));
            if !d.is_empty() {
                rt::violate("field-misread", &format!("{}; file {}", show_diff(&d), show(b)));
            }
        }
    }
}

// ---- C17 -------------------------------------------------------------------------------------

/// Length octets for `n`: right, longer than needed, or not a length at all.
fn length_form(n: usize) -> Vec<u8> {
    let be = n.to_be_bytes();
    let long = |k: usize| {
        let mut v = vec![0x80 | k as u8];
        if k <= 8 {
            v.extend_from_slice(&be[8 - k..]);
        } else {
            v.extend(std::iter::repeat_n(0, k - 8));
            v.extend_from_slice(&be);
        }
        v
    };
    match draw(9) {
        0 => vec![0x80],
        1 => vec![0xff],
        2 => vec![0x80 | n.min(127) as u8],
        3 => long(*pick(&[5usize, 6, 7, 8, 9, 16, 126])),
        4 => crate::der::len_octets(n + 1 + draw(3) as usize),
        5 => crate::der::len_octets(n.saturating_sub(1 + draw(2) as usize)),
        6 => vec![0x84, 0xff, 0xff, 0xff, 0xff],
        _ => {
            // one to three octets more than it takes
            let k = crate::der::len_octets(n).len() - 1;
            let more = if k == 0 { range(1, 4) } else { range(k as u64 + 1, 4.max(k as u64 + 1)) };
            long(more as usize)
        }
    }
}
fn damaged_time(c: &[u8]) -> Vec<u8> {
    let mut v = c.to_vec();
    match draw(12) {
        10 => v = disk::odd_time(c.len() == 15),
        11 => {
            // another end
            v.pop();
            v.extend_from_slice(pick(&[&b"z"[..], b"", b"Y", b"ZZ", b" Z", b"Z ", b"Z\0", b"\0", b"+0000", b"-0000", b"+00", b".0Z", b",0Z", b".Z", b"GMT", b"UTC", b"\xda"]));
        }
        5 | 6 => {
            // every field at an edge, one or none of them beyond it
            let beyond = draw(12);
            let f = |i: u64, usual: &[u8], over: &[u8]| {
                let x = if beyond == i { *pick(over) } else { *pick(usual) };
                x as u64
            };
            let y2 = *pick(&[0u64, 1, 4, 24, 49, 50, 68, 69, 70, 71, 72, 96, 99, 37, 38]);
            let y = if c.len() == 15 { format!("{:04}", *pick(&[y2 + 1900, y2 + 2000, 2100, 2400, 9999, 1, 0, 1601, 1582, 2106, 2038, 4000])) } else { format!("{:02}", y2) };
            let mo = f(0, &[1, 2, 2, 2, 3, 4, 6, 9, 11, 12], &[0, 13, 14, 20, 99]);
            let d = f(1, &[1, 28, 29, 30, 31], &[0, 29, 30, 31, 32, 33, 99]);
            let (h, mi, se) = (f(2, &[0, 12, 22, 23], &[24, 25, 60, 99]), f(3, &[0, 30, 58, 59], &[60, 61, 99]), f(4, &[0, 30, 58, 59], &[60, 61, 62, 99]));
            v = format!("{}{:02}{:02}{:02}{:02}{:02}Z", y, mo, d, h, mi, se).into_bytes();
        }
        0 | 1 => {
            // one character, possibly the closing Z, is no longer what it was
            if !v.is_empty() {
                let i = draw(v.len() as u64) as usize;
                v[i] = *pick(b"/:+- .,Z\x00\xff\xb09a;@<=>?Tz0123456789Z");
            }
        }
        2 => {
            let k = draw(v.len() as u64 + 1) as usize;
            v.insert(k, *pick(b"0Z.+ 9"));
        }
        3 => {
            if !v.is_empty() {
                let k = draw(v.len() as u64) as usize;
                v.remove(k);
            }
        }
        4 => v = pick(&[&b"2001010100Z"[..], b"0101010000Z", b"20010101000000.5Z", b"20010101000000+0000", b"010101000000+0000", b"20010101000000", b"010101000000"]).to_vec(),
        _ => {
            // one two-digit field takes another value
            let f = draw((v.len() / 2) as u64) as usize;
            let x = *pick(&[0u8, 1, 2, 12, 13, 19, 23, 24, 25, 28, 29, 30, 31, 32, 49, 50, 59, 60, 61, 69, 70, 99]);
            if 2 * f + 1 < v.len() {
                v[2 * f] = b'0' + x / 10;
                v[2 * f + 1] = b'0' + x % 10;
            }
        }
    }
    v
}
fn damaged_oid(c: &[u8]) -> Vec<u8> {
    let mut v = c.to_vec();
    match draw(7) {
        0 => {
            // an arc in more octets than it takes
            let k = draw(v.len() as u64 + 1) as usize;
            v.insert(k, 0x80);
        }
        1 => {
            if let Some(l) = v.last_mut() {
                *l |= 0x80;
            }
        }
        2 => v.clear(),
        3 => {
            let k = range(3, 6) as usize;
            v = vec![0x2a];
            v.extend(std::iter::repeat_n(*pick(&[0xffu8, 0x81, 0x8f]), k));
            v.push(*pick(&[0x7fu8, 0, 1]));
        }
        4 => {
            let k = range(1, 5) as usize;
            v = std::iter::repeat_n(*pick(&[0xffu8, 0x81, 0x8f, 0x90]), k).chain([*pick(&[0x7fu8, 0, 1])]).collect();
        }
        5 => v = pick(&[&[0u8][..], &[39], &[40], &[79], &[80], &[119], &[120], &[127], &[0x81, 0], &[0x88, 0x37], &[0x80, 1], &[0x2a, 0x80, 0x80, 1], &[0x2a, 0xff, 0xff, 0xff, 0x7f], &[0x2a, 0x80]]).to_vec(),
        _ => {
            let k = draw(v.len().max(1) as u64) as usize;
            v.truncate(k);
        }
    }
    v
}
fn damaged_text(c: &[u8]) -> Vec<u8> {
    let bad: &[u8] = pick(&[
        &[0xffu8][..], &[0x80], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc3], &[0xc3, 0x28], &[0xe2, 0x82], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf],
        &[0xf0, 0x80, 0x80, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xf0, 0x9f, 0x98], &[0xf0, 0x9f, 0x98, 0x80], &[0xef, 0xbb, 0xbf], &[0xc3, 0xa9], &[0], &[0x7f], &[0xf4, 0x8f, 0xbf, 0xbf],
    ]);
    let mut v = c.to_vec();
    let k = match draw(3) {
        0 => 0,
        1 => v.len(),
        _ => draw(v.len() as u64 + 1) as usize,
    };
    v.splice(k..k, bad.iter().copied());
    v
}
fn damaged_bits(c: &[u8]) -> Vec<u8> {
    let mut v = c.to_vec();
    match draw(4) {
        0 => v.clear(),
        1 => v = vec![*pick(&[0u8, 1, 2, 7, 8, 9, 16, 127, 128, 255])],
        _ => {
            if v.is_empty() {
                v.push(0);
            }
            v[0] = *pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 127, 128, 136, 255]);
            if chance(1, 3) {
                v.push(0xff);
            }
        }
    }
    v
}
/// One encoding fault at one element, every enclosing length agreeing with it.
fn encoding_fault(t: &mut Node) {
    let n = t.size();
    let i = draw(n as u64) as usize;
    let node = t.nth_mut(i).unwrap();
    let was = node.tag;
    match draw(8) {
        0 | 1 => {
            let n = node.content().len();
            node.len_lie = Some(length_form(n));
            fault(C::fault_length_lie);
            trace!("  {:?} of {} bytes gets length octets {}", node.role, n, hex(node.len_lie.as_ref().unwrap()));
        }
        2 => {
            // tags no decoder of this profile knows, tags longer than an octet, the other form
            node.tag = match draw(6) {
                0 => node.tag ^ 0x20,
                1 => node.tag ^ *pick(&[0x40u8, 0x80, 0xc0]),
                2 => *pick(&[0x1fu8, 0x3f, 0x5f, 0x7f, 0x9f, 0xbf, 0xdf, 0xff]),
                3 => *pick(&[0u8, 7, 8, 9, 0x0a, 0x0b, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x14, 0x15, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x28, 0x2c, 0x33, 0x36, 0x37, 0x38]),
                4 => *pick(&[1u8, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31]),
                _ => draw(256) as u8,
            };
            fault(C::fault_tag_damage);
            trace!("  {:?}: tag {:02x} becomes {:02x}", node.role, was, node.tag);
        }
        3 => {
            // a well-formed content whose length stands at an edge of the length forms
            let k = *pick(&[0usize, 1, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536]);
            let k = if chance(1, 150) {
                rt::count(C::probe_huge_element);
                let edge = match draw(256) {
                    // bit strings and object identifiers are read bit by bit
                    _ if matches!(was, 3 | 6) => 24,
                    0..=15 => 26,
                    16..=31 => 25,
                    _ => 24,
                };
                (1usize << edge) + draw(3) as usize - 1
            } else {
                k
            };
            let kids = std::mem::take(&mut node.kids);
            if matches!(was, 4 | 0x13 | 0x16 | 0x0c) || was & 0xe0 == 0x80 || kids.is_empty() && was == 2 {
                node.pre = vec![b'e'; k];
            } else if was == 3 {
                node.pre = vec![0; k];
            } else {
                node.kids = kids;
                node.post = if k >= 4 { tlv(4, &vec![1; k - 4]) } else { tlv(5, &[]) };
            }
            fault(C::fault_degenerate_content);
            trace!("  {:?}: {} bytes of content", node.role, k);
        }
        _ => {
            // the content is at, or beyond, the edge of what its type allows
            let c = node.content();
            let kids = std::mem::take(&mut node.kids);
            node.post.clear();
            let tag = node.tag;
            node.pre = match tag {
                0x17 | 0x18 if !chance(1, 6) => damaged_time(&c),
                6 | 0x88 if !chance(1, 6) => damaged_oid(&c),
                0x0c | 0x13 | 0x16 | 0x81 | 0x82 | 0x86 if !chance(1, 6) => damaged_text(&c),
                3 if !chance(1, 6) => damaged_bits(&c),
                1 => pick(&[&[][..], &[0u8], &[0xff], &[1], &[0x80], &[0xfe], &[0x7f], &[0, 0], &[0xff, 0xff], &[0xff, 0]]).to_vec(),
                2 if chance(1, 3) => disk::long_int(),
                2 => pick(&[&[][..], &[0u8], &[0x80], &[0, 0x80], &[0xff, 0x7f], &[0x7f; 21], &[0; 1], &[0x80; 128]]).to_vec(),
                5 => disk::degenerate(5),
                4 | 0x30 | 0x31 | 0xa0..=0xbf if !kids.is_empty() => {
                    // spare the content; damage one level further down
                    node.kids = kids;
                    let k = draw(node.kids.len() as u64) as usize;
                    let kid = &mut node.kids[k];
                    let t = kid.tag;
                    kid.kids.clear();
                    kid.pre = disk::degenerate(t);
                    Vec::new()
                }
                t => disk::degenerate(t),
            };
            fault(C::fault_degenerate_content);
            trace!("  {:?}: content becomes {}", node.role, show(&node.pre));
        }
    }
}
pub fn c17() {
    let cert = chance(1, 2);
    let mut docs: Vec<Node> = Vec::new();
    if cert {
        docs.push(gen_cert(&GenCfg { size: draw(2) as u8, uids: chance(1, 3), unknown: true }).tree);
    } else {
        let mut budget = 24;
        for _ in 0..range(1, 3) {
            docs.push(gen_doc(&GenCfg { size: draw(3) as u8, uids: false, unknown: true }, &mut budget, 4));
        }
    }
    let nf = *pick(&[0u64, 1, 1, 1, 1, 2, 3]);
    for _ in 0..nf {
        let k = draw(docs.len() as u64) as usize;
        encoding_fault(&mut docs[k]);
    }
    if chance(1, 60) {
        // no depth is too deep
        let depth = *pick(&[32usize, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2048, 4096, 10_000, 20_000]);
        let tags: &[u8] = pick(&[&[0x30u8][..], &[0x31], &[0xa0], &[0x30, 0x31, 0xa3]]);
        let inner = docs.last().unwrap().bytes();
        rt::count(C::probe_deep_nest);
        let nest = nest(depth, tags, &inner);
        trace!("  nest of depth {} around the last", depth);
        let h = disk::header_len(&nest);
        *docs.last_mut().unwrap() = prim(nest[0], Role::Other, nest[h..].to_vec());
    }
    rt::nontrivial();
    let mut b: Vec<u8> = docs.iter().flat_map(|d| d.bytes()).collect();
    if chance(1, 25) {
        b = disk::carried(&b);
    }
    rt::mix_bytes(&b);
    rt::add(C::bytes_decoded, b.len() as u64);
    trace!("bytes {}", show(&b));
    let light = b.len() > 6000;
    sched::run_one(STACK, move || {
        judge_walk(&b, light);
        if cert {
            judge_cert(&b, "well-formed-refused", "malformed-accepted");
        }
    });
}

// ---- C19 -------------------------------------------------------------------------------------

fn all_roles(t: &Node, f: impl Fn(Role) -> bool) -> Vec<Role> {
    let mut v = Vec::new();
    t.roles(&mut v);
    v.retain(|r| f(*r));
    v
}
fn some_role(t: &Node, f: impl Fn(Role) -> bool) -> Option<Role> {
    let v = all_roles(t, f);
    if v.is_empty() {
        None
    } else {
        Some(*pick(&v))
    }
}
fn exts_mut(t: &mut Node) -> Option<&mut Node> {
    let tbs = t.kids.first_mut()?;
    if tbs.kids.last().map(|k| k.role) != Some(Role::ExtsTag) {
        tbs.kids.push(crate::der::cons(0xa3, Role::ExtsTag, vec![crate::der::cons(0x30, Role::Exts, vec![])]));
    }
    tbs.kids.last_mut()?.kids.first_mut()
}
/// A key usage whose first bits are clear and whose later ones are set.
const LONG_KU: [u8; 260] = {
    let mut b = [0xffu8; 260];
    b[0] = 0;
    b[1] = 0;
    b[2] = 0;
    b
};
/// An extension as it is stored, with one thing wrong (or unusual) about it.
fn odd_extension() -> Node {
    let known: &[u32] = pick(&[&[2u32, 5, 29, 14][..], &[2, 5, 29, 15], &[2, 5, 29, 17], &[2, 5, 29, 19], &[2, 5, 29, 37], &[1, 3, 6, 1, 4, 1, 50316, 802, 1]]);
    let inner: Vec<u8> = match known[..] {
        [2, 5, 29, 14] => tlv(*pick(&[4u8, 4, 0x0c, 0x30, 3, 0x80]), pick(&[&[][..], &[0u8; 20], &[5, 0], &[0]])),
        [2, 5, 29, 15] => tlv(
            *pick(&[3u8, 3, 3, 4, 2, 0x30]),
            pick(&[&[0u8][..], &[0, 0x80], &[7, 0x80], &[1, 6], &[0, 0xff, 0x80], &[7, 0xff, 0x80], &[6, 0, 0xc0], &[5, 0xa0], &[0, 0, 0, 0, 1], &[0, 0x80, 0, 0], &[3, 0xff, 0xff], &[], &LONG_KU[..34], &LONG_KU[..66], &LONG_KU]),
        ),
        [2, 5, 29, 17] => {
            let mut l = Vec::new();
            for _ in 0..draw(4) {
                let tag = match draw(6) {
                    0 => 0xa0 | draw(9) as u8,
                    1 => *pick(&[0x16u8, 0x0c, 4, 6, 0x30, 5]),
                    2 => 0x80 | draw(31) as u8,
                    _ => 0x80 | draw(9) as u8,
                };
                let c: Vec<u8> = match draw(4) {
                    0 => b"a.example".to_vec(),
                    1 => vec![192, 0, 2, 1],
                    2 => oid_content(&[1, 3, 6, 1]),
                    _ => pick(&[&[][..], &[0xc3, 0xa9], &[0xc3], &[0x30, 0], &tlv(0x13, b"x"), &tlv(6, &[0x2a])]).to_vec(),
                };
                l.extend(tlv(tag, &c));
            }
            tlv(*pick(&[0x30u8, 0x30, 0x30, 0x31, 0xa0]), &l)
        }
        [2, 5, 29, 19] => {
            let mut l = Vec::new();
            for _ in 0..draw(4) {
                match draw(6) {
                    0 | 1 => l.extend(tlv(1, pick(&[&[0xffu8][..], &[0], &[0xff]]))),
                    2 | 3 | 4 => l.extend(tlv(2, pick(&[&[0u8][..], &[1], &[0x7f], &[0x80], &[0xff], &[0, 0x80], &[0x7f, 0xff], &[0x80, 0], &[0, 0xff, 0xff], &[0x7f, 0xff, 0xff, 0xff], &[0x80, 0, 0, 0], &[0, 0x80, 0, 0, 0], &[0, 0xff, 0xff, 0xff, 0xff], &[1, 0, 0, 0, 0], &[0; 9], &[0xff, 0xff]]))),
                    _ => l.extend(tlv(*pick(&[5u8, 4, 6, 0x80, 0x30]), &[])),
                }
            }
            tlv(*pick(&[0x30u8, 0x30, 0x30, 0x30, 0x31]), &l)
        }
        [2, 5, 29, 37] => {
            let mut l = Vec::new();
            for _ in 0..draw(4) {
                let mut o = vec![1u32, 3, 6, 1, 5, 5, 7, 3, 1 + draw(9) as u32];
                match draw(6) {
                    0 => o[8] = draw(300) as u32,
                    1 => {
                        let k = 2 + draw(7) as usize;
                        o[k] ^= 1;
                    }
                    2 => {
                        o.pop();
                    }
                    3 => o.push(draw(3) as u32),
                    4 => o = vec![2, 5, 29, 37, 0],
                    _ => {}
                }
                l.extend(tlv(*pick(&[6u8, 6, 6, 6, 6, 4, 0x86]), &oid_content(&o)));
            }
            tlv(*pick(&[0x30u8, 0x30, 0x30, 0x31]), &l)
        }
        _ => tlv(*pick(&[0x0cu8, 0x0c, 0x13, 0x16, 4]), pick(&[&b"role"[..], b"", &[0xc3, 0xa9], &[0xff]])),
    };
    let mut oid = known.to_vec();
    match draw(8) {
        0 => *oid.last_mut().unwrap() = draw(64) as u32,
        1 => {
            oid.pop();
        }
        2 => oid.push(0),
        _ => {}
    }
    let mut parts = vec![prim(6, Role::Other, oid_content(&oid))];
    match draw(6) {
        0 => parts.push(prim(1, Role::Other, vec![0xff])),
        1 => parts.push(prim(1, Role::Other, vec![0])),
        2 => parts.push(prim(*pick(&[1u8, 1, 5, 2, 0x81]), Role::Other, pick(&[&[0xffu8][..], &[], &[1]]).to_vec())),
        _ => {}
    }
    parts.push(prim(4, Role::Other, inner));
    match draw(12) {
        0 => {
            parts.pop();
        }
        1 => {
            let k = parts.len();
            parts.swap(0, k - 1);
        }
        2 => parts.push(prim(5, Role::Other, vec![])),
        3 => {
            let k = draw(parts.len() as u64) as usize;
            parts[k].tag = *pick(&[3u8, 4, 6, 0x30, 0x0c, 0x80, 0xa0, 0x24]);
        }
        4 => {
            let p = parts[0].clone();
            parts.insert(0, p);
        }
        _ => {}
    }
    crate::der::cons(*pick(&[0x30u8, 0x30, 0x30, 0x30, 0x30, 0x31]), Role::Other, parts)
}
/// One element misplaced, repeated, lost, or standing where another should; all lengths right.
fn schema_fault(t: &mut Node) {
    match draw(13) {
        0 => {
            let v = pick(&[&[0u8][..], &[1], &[2], &[3], &[4], &[0x7f], &[0x80], &[0xff], &[1, 0], &[1, 0, 0], &[0, 2], &[0xff, 0xff, 0xff, 0xff], &[1, 0, 0, 0], &[0, 0, 0, 0, 2], &[1, 0, 0, 0, 2]]).to_vec();
            fault(C::fault_degenerate_content);
            trace!("  version {}", hex(&v));
            let node = crate::der::cons(*pick(&[0xa0u8, 0xa0, 0xa0, 0xa0, 0x80, 0xa4]), Role::VerTag, vec![prim(2, Role::Ver, v)]);
            let Some(tbs) = t.kids.first_mut() else { return };
            if tbs.kids.first().map(|k| k.role) == Some(Role::VerTag) {
                tbs.kids[0] = node;
            } else {
                tbs.kids.insert(0, node);
            }
        }
        1 | 2 => {
            // an attribute of a name stands there twice, in its set or in a set of its own
            let Some(r) = some_role(t, |r| matches!(r, Role::Ava(..))) else { return };
            let Role::Ava(w, _) = r else { return };
            let mut a = t.find_mut(r).unwrap().clone();
            if chance(1, 2) && a.kids.len() > 1 {
                a.kids[1] = prim(*pick(&[0x13u8, 0x0c, 0x16]), Role::Other, gen_string(&GenCfg { size: 0, uids: false, unknown: true }, 0x13).into_bytes());
            }
            fault(C::fault_element_repeated);
            trace!("  {:?} repeated", r);
            let Some(n) = t.find_mut(Role::Name(w)) else { return };
            let k = draw(n.kids.len() as u64 + 1) as usize;
            if k < n.kids.len() && chance(1, 2) {
                let j = draw(n.kids[k].kids.len() as u64 + 1) as usize;
                n.kids[k].kids.insert(j, a);
            } else {
                n.kids.insert(k, crate::der::cons(0x31, Role::Other, vec![a]));
            }
        }
        3 => {
            // an attribute value of another type
            let Some(r) = some_role(t, |r| matches!(r, Role::AvaVal(..))) else { return };
            let (n, _) = gen_asn(&GenCfg { size: 0, uids: false, unknown: true }, r);
            fault(C::fault_tag_damage);
            trace!("  {:?} becomes tag {:02x}", r, n.tag);
            *t.find_mut(r).unwrap() = n;
        }
        4 => {
            // a set without attributes, or an attribute without parts
            let w = draw(2) as u8;
            let Some(n) = t.find_mut(Role::Name(w)) else { return };
            let k = draw(n.kids.len() as u64 + 1) as usize;
            let x = match draw(6) {
                0 => prim(0x31, Role::Other, vec![]),
                1 => prim(0x31, Role::Other, tlv(0x30, &[])),
                2 => prim(0x31, Role::Other, tlv(0x30, &tlv(6, &oid_content(&[2, 5, 4, 3])))),
                3 => prim(0x31, Role::Other, tlv(0x31, &[&tlv(6, &oid_content(&[2, 5, 4, 3]))[..], &tlv(0x13, b"x")].concat())),
                4 => prim(0x30, Role::Other, tlv(0x30, &[&tlv(6, &oid_content(&[2, 5, 4, 3]))[..], &tlv(0x13, b"x")].concat())),
                _ => prim(0x31, Role::Other, tlv(0x30, &[&tlv(0x13, b"x")[..], &tlv(6, &oid_content(&[2, 5, 4, 3]))].concat())),
            };
            fault(C::fault_element_dropped);
            trace!("  name {} gets {}", w, hex(&x.bytes()));
            n.kids.insert(k, x);
        }
        5 => {
            // an attribute type next to a known one
            let Some(r) = some_role(t, |r| matches!(r, Role::AvaOid(..))) else { return };
            let mut o = vec![2u32, 5, 4, draw(14) as u32];
            match draw(6) {
                0 => o.push(draw(12) as u32),
                1 => o.truncate(3),
                2 => o[2] = draw(6) as u32,
                3 => o = vec![0, 9, 2342, 19200300, 100, 1, 25],
                _ => {}
            }
            fault(C::fault_degenerate_content);
            trace!("  {:?} becomes {:?}", r, o);
            t.find_mut(r).unwrap().pre = oid_content(&o);
        }
        6 | 7 | 8 => {
            let e = odd_extension();
            fault(C::fault_degenerate_content);
            trace!("  extension {}", hex(&e.bytes()));
            let Some(x) = exts_mut(t) else { return };
            let k = draw(x.kids.len() as u64 + 1) as usize;
            if k < x.kids.len() && chance(1, 2) {
                x.kids[k] = e;
            } else {
                x.kids.insert(k, e);
            }
        }
        9 => {
            // a field lost, twice, or changing places with another one
            let n = t.size();
            for _ in 0..20 {
                let i = draw(n as u64) as usize;
                let node = t.nth_mut(i).unwrap();
                if node.kids.is_empty() {
                    continue;
                }
                let a = draw(node.kids.len() as u64) as usize;
                trace!("  {:?}, part {}", node.role, a);
                match draw(3) {
                    0 => {
                        node.kids.remove(a);
                        fault(C::fault_element_dropped);
                    }
                    1 => {
                        let c = node.kids[a].clone();
                        node.kids.insert(a, c);
                        fault(C::fault_element_repeated);
                    }
                    _ => {
                        let b = draw(node.kids.len() as u64) as usize;
                        node.kids.swap(a, b);
                        fault(C::fault_element_swapped);
                    }
                }
                break;
            }
        }
        10 => {
            // some element is of another type
            let n = t.size();
            let i = draw(n as u64) as usize;
            let node = t.nth_mut(i).unwrap();
            let (x, _) = gen_asn(&GenCfg { size: 0, uids: false, unknown: true }, node.role);
            trace!("  {:?} becomes {}", node.role, show(&x.bytes()));
            fault(C::fault_tag_damage);
            if chance(1, 2) {
                // same content under another type
                node.tag = x.tag;
            } else {
                *node = x;
            }
        }
        11 => {
            // context fields before the extensions
            let Some(tbs) = t.kids.first_mut() else { return };
            for _ in 0..range(1, 3) {
                let tag = *pick(&[0x80u8, 0xa0]) | draw(5) as u8;
                let k = match draw(4) {
                    0 => draw(tbs.kids.len() as u64 + 1) as usize,
                    1 => tbs.kids.len(),
                    _ => {
                        if tbs.kids.last().map(|k| k.role) == Some(Role::ExtsTag) {
                            tbs.kids.len() - 1
                        } else {
                            tbs.kids.len()
                        }
                    }
                };
                let c = pick(&[&[0u8][..], &[0, 0xaa], &[7, 0x80], &[8, 0], &[], &[3, 2, 0, 0xaa], &[0x30, 0]]).to_vec();
                trace!("  field {:02x} {} at {}", tag, hex(&c), k);
                tbs.kids.insert(k, prim(tag, Role::Other, c));
            }
            fault(C::fault_element_repeated);
        }
        _ => {
            // another structure of the same file stands here
            let n = t.size() as u64;
            let d = t.nth_mut(draw(n) as usize).unwrap().clone();
            let node = t.nth_mut(draw(n) as usize).unwrap();
            trace!("  {:?} replaced by {:?}", node.role, d.role);
            *node = d;
            fault(C::fault_element_swapped);
        }
    }
}
pub fn c19() {
    let mut t = gen_cert(&GenCfg { size: chance(1, 3) as u8, uids: chance(1, 3), unknown: true }).tree;
    for _ in 0..*pick(&[0u64, 1, 1, 1, 1, 1, 1, 2, 3]) {
        schema_fault(&mut t);
    }
    rt::nontrivial();
    let mut b = t.bytes();
    if chance(1, 40) {
        b = disk::carried(&b);
    }
    rt::mix_bytes(&b);
    rt::add(C::bytes_decoded, b.len() as u64);
    trace!("file {}", show(&b));
    sched::run_one(STACK, move || judge_cert(&b, "profile-refused", "schema-violation-accepted"));
}
