//! The simulated store. A certificate file is written sector by sector over whatever the medium
//! held before; a crash or a fault leaves some sectors unwritten, torn, misplaced or rotten; what
//! a later reader finds is this module's answer.
use crate::der::{prim, tlv, Node, Role};
use crate::rt::{self, bytes, chance, draw, fault, pick, range, C};
use crate::trace;

pub struct Stored {
    pub bytes: Vec<u8>,
    /// first position at which the stored bytes differ from the intended ones
    pub damage: Option<usize>,
}
fn first_diff(a: &[u8], b: &[u8]) -> Option<usize> {
    let n = a.len().min(b.len());
    for i in 0..n {
        if a[i] != b[i] {
            return Some(i);
        }
    }
    if a.len() == b.len() {
        None
    } else {
        Some(n)
    }
}
/// What the medium held before: zeros, erased cells, or an older file.
pub fn medium(older: &[u8]) -> Vec<u8> {
    match draw(3) {
        0 => older.to_vec(),
        1 => vec![0; older.len()],
        _ => vec![0xff; older.len()],
    }
}
/// Writes `file` over `old` with `nfaults` storage faults; returns what is read back later.
pub fn store(file: &[u8], old: &[u8], nfaults: u64) -> Stored {
    let sector = *pick(&[16usize, 4, 64, 512]);
    let mut cur = file.to_vec();
    for _ in 0..nfaults {
        if cur.is_empty() {
            break;
        }
        one_fault(&mut cur, file, old, sector);
    }
    let damage = first_diff(&cur, file);
    Stored { bytes: cur, damage }
}
fn old_at(old: &[u8], i: usize) -> u8 {
    old.get(i).copied().unwrap_or(0)
}
pub fn one_fault(cur: &mut Vec<u8>, file: &[u8], old: &[u8], sector: usize) {
    let n = cur.len();
    let nsec = n.div_ceil(sector).max(1);
    let sec = |k: usize| (k * sector, ((k + 1) * sector).min(n));
    match draw(9) {
        0 => {
            let i = draw(n as u64) as usize;
            let bit = draw(8);
            cur[i] ^= 1 << bit;
            fault(C::fault_bit_flip);
            trace!("  bit {} of byte {} flips", bit, i);
        }
        1 => {
            let i = draw(n as u64) as usize;
            cur[i] = *pick(&[0x00u8, 0xff, 0x80, 0x7f, 0x81, 0x30, 0x31, 0x02, 0x03, 0x01, 0xa0, 0x24, 0x05, 0x20, 0x40, 0xc3]);
            fault(C::fault_byte_damage);
            trace!("  byte {} becomes {:02x}", i, cur[i]);
        }
        2 => {
            let i = draw(n as u64) as usize;
            cur.truncate(i);
            fault(C::fault_truncated);
            trace!("  file ends at {}", i);
        }
        3 => {
            let (a, b) = sec(draw(nsec as u64) as usize);
            let k = a + draw((b - a) as u64) as usize;
            for i in k..b {
                cur[i] = old_at(old, i);
            }
            fault(C::fault_torn_sector);
            trace!("  sector {}..{} torn at {}", a, b, k);
        }
        4 => {
            let (a, b) = sec(draw(nsec as u64) as usize);
            for i in a..b {
                cur[i] = old_at(old, i);
            }
            fault(C::fault_lost_sector);
            trace!("  sector {}..{} never written", a, b);
        }
        5 => {
            // the same sector written twice in a row: everything after it moves up
            let (a, b) = sec(draw(nsec as u64) as usize);
            let rep = cur[a..b].to_vec();
            let grow = chance(1, 2);
            if grow {
                cur.splice(b..b, rep);
            } else {
                let e = (b + rep.len()).min(n);
                let m = e - b;
                cur[b..e].copy_from_slice(&rep[..m]);
            }
            fault(C::fault_duplicated_sector);
            trace!("  sector {}..{} written twice", a, b);
        }
        6 => {
            let (a, b) = sec(draw(nsec as u64) as usize);
            let (c, d) = sec(draw(nsec as u64) as usize);
            let m = (b - a).min(d - c);
            let src = cur[a..a + m].to_vec();
            cur[c..c + m].copy_from_slice(&src);
            fault(C::fault_misdirected_sector);
            trace!("  sector {}..{} also lands at {}", a, b, c);
        }
        7 => {
            let tail = residue(file, old);
            cur.extend(tail);
            fault(C::fault_stale_residue);
        }
        _ => {
            if !old.is_empty() {
                let k = draw(n as u64) as usize;
                let m = draw(old.len() as u64) as usize;
                cur.truncate(k);
                cur.extend_from_slice(&old[m..]);
                fault(C::fault_spliced);
                trace!("  first {} bytes, then another file from {}", k, m);
            }
        }
    }
}
/// The tail a longer, older file leaves behind a shorter one (never empty).
pub fn residue(file: &[u8], old: &[u8]) -> Vec<u8> {
    // up to what completes a block, at times
    let rest = |k: u64| -> usize {
        if chance(1, 4) {
            let block = *pick(&[16usize, 64, 128, 512, 1024, 4096]);
            block - file.len() % block
        } else {
            range(1, k) as usize
        }
    };
    let t: Vec<u8> = match draw(8) {
        0 => vec![0u8; rest(24)],
        1 => vec![0xffu8; rest(24)],
        6 => vec![*pick(&[b' ', 0x1a, 0x04, b'\r', b'\t', 0xa5, 0xcc, 0x5a, 0x55, 0xaa, 0x20, 0x7f]); rest(8)],
        7 => pick(&[&b"\r\n"[..], b"\r\n\r\n", b"\n\n", b"\n\0", b" \n", b"\0\0", b"EOF", b"\xff\xff", b"\x05\x00", b"\x00\x01", b"\x30\x00", b"-----END CERTIFICATE-----\n", b"PK\x03\x04", b"\xef\xbb\xbf"]).to_vec(),
        2 if old.len() > file.len() => old[file.len()..].to_vec(),
        3 => {
            // the end of the new file written once more
            let k = draw(file.len().max(1) as u64) as usize;
            file[k..].to_vec()
        }
        4 => b"\n".repeat(range(1, 3) as usize),
        _ => bytes(range(1, 40) as usize),
    };
    trace!("  {} stale bytes follow", t.len().max(1));
    if t.is_empty() {
        vec![0]
    } else {
        t
    }
}

/// Structural rewriting: one change somewhere in the tree, with every enclosing length right.
pub fn mutate_tree(t: &mut Node) {
    let n = t.size();
    let i = draw(n as u64) as usize;
    let kind = draw(10);
    let donor = if kind == 8 { t.nth_mut(draw(n as u64) as usize).cloned() } else { None };
    let node = t.nth_mut(i).unwrap();
    trace!("  rewriting {:?} ({})", node.role, kind);
    match kind {
        0 => {
            node.tag = match draw(4) {
                0 => *pick(&[0x30u8, 0x31, 2, 3, 4, 5, 6, 1, 0x0c, 0x13, 0x16, 0x17, 0x18]),
                1 => *pick(&[0xa0u8, 0xa1, 0xa2, 0xa3, 0x80, 0x81, 0x82, 0x86, 0x87, 0x88, 0x83, 0xbf, 0x9f]),
                2 => draw(256) as u8,
                _ => node.tag ^ (1 << draw(8)),
            };
            fault(C::fault_tag_damage);
        }
        1 => {
            let len = node.content().len();
            node.len_lie = Some(lie(len));
            fault(C::fault_length_lie);
        }
        2 => {
            let full = node.bytes().len();
            node.cut = Some(draw(full as u64) as usize);
            fault(C::fault_struct_cut);
        }
        3 => {
            node.post = junk();
            fault(C::fault_struct_residue);
        }
        4 => {
            if !node.kids.is_empty() {
                let k = draw(node.kids.len() as u64) as usize;
                node.kids.remove(k);
            } else {
                node.pre.clear();
            }
            fault(C::fault_element_dropped);
        }
        5 => {
            if !node.kids.is_empty() {
                let k = draw(node.kids.len() as u64) as usize;
                let c = node.kids[k].clone();
                node.kids.insert(k, c);
                fault(C::fault_element_repeated);
            }
        }
        6 => {
            if node.kids.len() > 1 {
                let a = draw(node.kids.len() as u64) as usize;
                let b = draw(node.kids.len() as u64) as usize;
                node.kids.swap(a, b);
                fault(C::fault_element_swapped);
            }
        }
        7 => {
            node.kids.clear();
            node.pre = degenerate(node.tag);
            fault(C::fault_degenerate_content);
        }
        8 => {
            // another part of the same file stands here
            *node = donor.unwrap();
            fault(C::fault_element_swapped);
        }
        _ => {
            if node.kids.is_empty() && !node.pre.is_empty() {
                let k = draw(node.pre.len() as u64) as usize;
                node.pre[k] = if chance(1, 2) { node.pre[k] ^ (1 << draw(8)) } else { draw(256) as u8 };
                fault(C::fault_byte_damage);
            }
        }
    }
}
/// An integer with more octets in front than it takes.
pub fn long_int() -> Vec<u8> {
    let sign = *pick(&[0u8, 0, 0xff]);
    let mut v = vec![sign; range(1, 6) as usize];
    v.extend(bytes(*pick(&[0usize, 1, 2, 3, 4, 5, 8, 9, 16, 20]) + draw(4) as usize));
    v
}
/// The right number of digits, naming any moment or none.
pub fn odd_time(generalized: bool) -> Vec<u8> {
    let y = match draw(4) {
        0 => 100 * draw(100),
        1 => 4 * draw(2500),
        _ => draw(10_000),
    };
    let mo = if chance(1, 2) { 2 } else { draw(14) };
    let d = *pick(&[28u64, 29, 1, 30, 31, 0, 32]);
    let t = *pick(&["000000", "235959", "120000", "240000", "236000", "235960", "000060"]);
    if generalized {
        format!("{:04}{:02}{:02}{}Z", y, mo, d, t).into_bytes()
    } else {
        format!("{:02}{:02}{:02}{}Z", y % 100, mo, d, t).into_bytes()
    }
}
/// Contents at the edges of what each type allows.
pub fn degenerate(tag: u8) -> Vec<u8> {
    match tag {
        3 => pick(&[vec![], vec![0], vec![1], vec![7], vec![3], vec![8], vec![255], vec![7, 0x80], vec![7, 0xff], vec![0, 0], vec![1, 1]]).clone(),
        2 if chance(1, 3) => long_int(),
        5 => pick(&[vec![], vec![0; range(1, 9) as usize], vec![5, 0], bytes(range(1, 9) as usize)]).clone(),
        0x17 | 0x18 if chance(1, 2) => odd_time(tag == 0x18),
        2 => pick(&[vec![], vec![0], vec![0x80], vec![0xff], vec![0x80, 0, 0, 0], vec![0x7f, 0xff, 0xff, 0xff], vec![0, 0x80, 0, 0, 0], vec![0; 9], vec![0xff; 4]]).clone(),
        6 => pick(&[vec![], vec![0x80], vec![0xff; 3], vec![0xff, 0xff, 0xff, 0x7f], vec![0xff; 5], vec![39], vec![40], vec![79], vec![80], vec![120], vec![0x2b, 0x80, 1], vec![0x88, 0x37], vec![0x2b, 0x8f, 0xff, 0xff, 0xff, 0x7f], vec![0x2b; 300]])
            .clone(),
        1 => pick(&[vec![], vec![0], vec![255], vec![1], vec![0, 0]]).clone(),
        0x17 | 0x18 => {
            let t: &[&str] = &[
                "", "Z", "700101000000Z", "691231235959Z", "500101000000Z", "491231235959Z", "000229000000Z", "990229000000Z", "010000000000Z", "011300000000Z",
                "010100000000Z", "010132000000Z", "010101240000Z", "010101006000Z", "010101000060Z", "99991231235959Z", "00000101000000Z", "19700101000000Z",
                "19691231235959Z", "20000229000000Z", "21000229000000Z", "0101010000Z", "010101000000+0000", "010101000000", "2001010100000Z", "0001010000.0Z",
            ];
            pick(t).as_bytes().to_vec()
        }
        0x0c | 0x13 | 0x16 => pick(&[vec![], vec![0xff], vec![0xc3], vec![0xc3, 0x28], vec![0xe2, 0x82], vec![0xf0, 0x9f, 0x98, 0x80], vec![0xed, 0xa0, 0x80], vec![0], vec![0x1b, 0x5b]]).clone(),
        _ => match draw(4) {
            0 => vec![],
            1 => vec![0],
            2 => bytes(3),
            _ => tlv(3, &[7]),
        },
    }
}
/// Length octets that are not the right ones for `len`.
pub fn lie(len: usize) -> Vec<u8> {
    match draw(12) {
        0 => vec![0x80],
        1 => vec![0xff],
        2 => vec![0x84, 0xff, 0xff, 0xff, 0xff],
        3 => vec![0x84, 0x7f, 0xff, 0xff, 0xff],
        4 => vec![0x85, 0, 0, 0, 0, 1],
        5 => vec![0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
        6 => vec![0x81, len.min(127) as u8],
        7 => vec![0x82, 0, len.min(255) as u8],
        8 => crate::der::len_octets(len + 1),
        9 => crate::der::len_octets(len.saturating_sub(1)),
        10 => crate::der::len_octets(draw(1 << 31) as usize),
        _ => vec![0x83, (1 + draw(255)) as u8, draw(256) as u8, 0],
    }
}
pub fn junk() -> Vec<u8> {
    match draw(5) {
        0 => tlv(5, &[]),
        1 => vec![0; range(1, 9) as usize],
        2 => bytes(range(1, 9) as usize),
        3 => tlv(2, &[1]),
        _ => tlv(0x30, &tlv(4, &bytes(3))),
    }
}
/// A nest bomb to be put in place of, or inside, some element.
pub fn bomb(depth: usize) -> Node {
    let tags: &[u8] = pick(&[&[0x30u8][..], &[0x31], &[0xa0], &[0x30, 0x31, 0xa1], &[0x80], &[0x30, 0xa3]]);
    let inner: Vec<u8> = match draw(4) {
        0 => vec![],
        1 => tlv(5, &[]),
        2 => tlv(2, &[1]),
        _ => vec![0x30],
    };
    let b = crate::model::nest(depth, tags, &inner);
    // b is one element; express it as a node with opaque content
    let h = header_len(&b);
    fault(C::fault_nest_bomb);
    rt::count(C::probe_deep_nest);
    prim(b[0], Role::Other, b[h..].to_vec())
}
pub fn header_len(b: &[u8]) -> usize {
    if b.len() < 2 {
        b.len()
    } else if b[1] < 0x80 {
        2
    } else {
        2 + (b[1] & 0x7f) as usize
    }
}
/// The real certificates that come with the repository.
pub const CORPUS: [&[u8]; 4] = [
    include_bytes!("../corpus/512b-rsa-example-cert.der"),
    include_bytes!("../corpus/cert_with_generalized_time.der"),
    include_bytes!("../corpus/ed25519-example-cert.der"),
    include_bytes!("../corpus/google_root_cert.cer"),
];

fn base64(b: &[u8], line: usize, end: &[u8]) -> Vec<u8> {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut v = Vec::new();
    let mut col = 0;
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            v.push(if k <= c.len() { T[(x >> (18 - 6 * k)) as usize & 63] } else { b'=' });
        }
        col += 4;
        if col >= line {
            v.extend_from_slice(end);
            col = 0;
        }
    }
    v
}
/// Bytes that come to stand ahead of a file (never none).
pub fn ahead(file: &[u8]) -> Vec<u8> {
    let heads: &[&[u8]] = &[
        b"-----BEGIN", b"-----BEGIN CERTIFICATE-----\n", b"-----BEGIN CERTIFICATE-----\r\n", b"-----BEGIN CERTIFICATE-----", b"-----", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\n", b"\r\n", b" ", b"\t",
        b"\0", b"\0\0", b"\0\0\0\0", b"\xff", b"\x80", b"\x1f\x8b\x08\0", b"PK\x03\x04", b"MZ", b"#!", b"0x", b"DER:", b"data:application/pkix-cert,", b"Content-Type: application/pkix-cert\r\n\r\n",
        b"Bag Attributes\n", b"Certificate:\n", b"\x30\x80", b"\x05\x00", b"\x30\x00", b"\x02\x01\x00", b"\x04\x00", b"\x00\x00\x05\x00", b"\xfe\xed\xfe\xed", b"SSH", b"\x16\x03\x01",
    ];
    match draw(8) {
        0 => bytes(range(1, 8) as usize),
        1 => (file.len() as u16).to_be_bytes().to_vec(),
        2 => (file.len() as u32).to_be_bytes()[1..].to_vec(),
        3 => (file.len() as u32).to_le_bytes().to_vec(),
        _ => pick(heads).to_vec(),
    }
}
/// What carrying a file about makes of it: other bytes ahead of it, another coding, another wrapping.
pub fn carried(file: &[u8]) -> Vec<u8> {
    fault(C::fault_carried);
    let around = |head: &[u8], tail: &[u8]| [head, file, tail].concat();
    let replaced = |what: &[u8], by: &[u8]| {
        let mut v = Vec::new();
        let mut i = 0;
        while i < file.len() {
            if file[i..].starts_with(what) {
                v.extend_from_slice(by);
                i += what.len();
            } else {
                v.push(file[i]);
                i += 1;
            }
        }
        v
    };
    let v = match draw(16) {
        0..=2 => [ahead(file), file.to_vec()].concat(),
        3 | 4 => {
            // as text
            let end: &[u8] = *pick(&[&b"\n"[..], b"\r\n", b"\r"]);
            let label: &[u8] = *pick(&[&b"CERTIFICATE"[..], b"X509 CERTIFICATE", b"TRUSTED CERTIFICATE", b"PKCS7"]);
            let body = base64(file, *pick(&[64usize, 76, usize::MAX]), end);
            let mut v = match draw(4) {
                0 => body,
                _ => [&b"-----BEGIN "[..], label, b"-----", end, &body, end, b"-----END ", label, b"-----", end].concat(),
            };
            if chance(1, 5) {
                v.extend_from_slice(file);
            }
            v
        }
        5 => {
            let sep: &str = *pick(&["", " ", ":", "\\x", ", 0x"]);
            let up = chance(1, 2);
            let mut t = String::new();
            for (i, b) in file.iter().enumerate() {
                if i > 0 || sep.len() > 1 {
                    t.push_str(sep);
                }
                t.push_str(&if up { format!("{:02X}", b) } else { format!("{:02x}", b) });
            }
            t.into_bytes()
        }
        6 => replaced(b"\n", b"\r\n"),
        7 => replaced(b"\r\n", b"\n"),
        8 => match draw(3) {
            0 => replaced(b"\0", b""),
            1 => replaced(b"\0", b" "),
            _ => {
                // it ends where a text would
                let stop = *pick(&[0u8, 0x1a, b'\n', b'\r']);
                file.iter().take_while(|b| **b != stop).copied().collect()
            }
        },
        9 => file.iter().map(|b| b & 0x7f).collect(),
        10 => {
            // taken for Latin-1 text, or for text that is not valid
            if chance(1, 2) {
                file.iter().map(|b| *b as char).collect::<String>().into_bytes()
            } else {
                String::from_utf8_lossy(file).into_owned().into_bytes()
            }
        }
        11 => match draw(4) {
            0 => file.iter().flat_map(|b| [*b, 0]).collect(),
            1 => file.iter().flat_map(|b| [0, *b]).collect(),
            2 => file.chunks(2).flat_map(|c| c.iter().rev().copied().collect::<Vec<u8>>()).collect(),
            _ => file.iter().rev().copied().collect(),
        },
        12 | 13 => {
            // inside something else
            let bits = [&[0u8][..], file].concat();
            match draw(8) {
                0 => tlv(4, file),
                1 => tlv(3, &bits),
                2 => tlv(0x30, file),
                3 => tlv(*pick(&[0x31u8, 0xa0, 0xa3, 0x80, 0x60, 0x24, 0x0c]), file),
                4 => tlv(0x30, &[file, file].concat()),
                5 => tlv(0x30, &[tlv(6, &crate::der::oid_content(&[2, 5, 29, 15])), tlv(4, file)].concat()),
                6 => {
                    let signed = tlv(0x30, &[tlv(2, &[1]), tlv(0x31, &[]), tlv(0x30, &tlv(6, &crate::der::oid_content(&[1, 2, 840, 113549, 1, 7, 1]))), tlv(0xa0, file), tlv(0x31, &[])].concat());
                    tlv(0x30, &[tlv(6, &crate::der::oid_content(&[1, 2, 840, 113549, 1, 7, 2])), tlv(0xa0, &signed)].concat())
                }
                _ => tlv(0x30, &[file, &tlv(0x30, &[])[..]].concat()),
            }
        }
        14 => {
            // its outer shell is gone
            let h = header_len(file).min(file.len());
            match draw(3) {
                0 => file[h..].to_vec(),
                1 => {
                    let inner = &file[h..];
                    let k = header_len(inner).min(inner.len());
                    inner[k..].to_vec()
                }
                _ => file[1.min(file.len())..].to_vec(),
            }
        }
        _ => match draw(4) {
            0 => around(b"", file),
            1 => around(b"", b"-----END CERTIFICATE-----\n"),
            2 => around(b"\"", b"\""),
            _ => around(b"-----BEGIN CERTIFICATE-----\n", b"\n-----END CERTIFICATE-----\n"),
        },
    };
    trace!("  carried about: {} bytes became {}", file.len(), v.len());
    v
}
