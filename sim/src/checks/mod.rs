//! One module per family of properties; each check is one function executing one simulated run.
pub mod bytes;
pub mod clock;
pub mod order;
pub mod schema;
pub mod tool;
pub mod work;

use crate::der::{oid_content, prim, tlv, Node, Role};
use crate::disk;
use crate::model::{self, GenCfg};
use crate::rt::{self, bytes as rbytes, chance, draw, fault, pick, range, C};
use crate::trace;

pub const CLAIMED: [&str; 22] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C23", "C24", "C25", "C26"];

pub fn run(prop: &str, index: u64) {
    if !matches!(prop, "C10" | "C11" | "C12" | "C13" | "C14" | "C24" | "C25") {
        order::begin(crate::around::draw());
    }
    match prop {
        "C01" => bytes::c01(index),
        "C02" => bytes::c02(),
        "C03" => bytes::c03(),
        "C04" => bytes::c04(index),
        "C05" => bytes::c05(),
        "C06" => order::c06(),
        "C07" => order::c07(),
        "C08" => order::c08(),
        "C09" => bytes::c09(),
        "C10" => tool::c10(),
        "C11" => tool::c11(),
        "C12" => tool::c12(),
        "C13" => tool::c13(),
        "C14" => tool::c14(),
        "C15" => clock::c15(),
        "C16" => clock::c16(),
        "C17" => schema::c17(),
        "C19" => schema::c19(),
        "C23" => work::c23(),
        "C24" => tool::c24(),
        "C25" => tool::c25(),
        "C26" => work::c26(),
        _ => rt::harness_error("unknown property"),
    }
}
/// Quick-tier runs per property, tuned so that one check takes seconds.
pub fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C01" => 40000,
        "C02" => 90000,
        "C03" => 90000,
        "C04" => 80000,
        "C05" => 45000,
        "C06" => 16000,
        "C07" => 40000,
        "C08" => 20000,
        "C09" => 60000,
        "C10" => 14000,
        "C11" => 14000,
        "C12" => 12000,
        "C13" => 14000,
        "C14" => 14000,
        "C15" => 60000,
        "C16" => 70000,
        "C17" => 80000,
        "C19" => 100000,
        "C23" => 35000,
        "C24" => 14000,
        "C25" => 12000,
        "C26" => 9000,
        _ => 0,
    }
}
pub fn thorough_factor(prop: &str) -> u64 {
    match prop {
        "C06" | "C07" | "C08" | "C10" | "C11" | "C12" | "C13" | "C14" | "C24" | "C25" => 12,
        _ => 15,
    }
}

/// An older file that used to occupy the same place on the medium.
pub fn older_file() -> Vec<u8> {
    match draw(3) {
        0 => pick(&disk::CORPUS).to_vec(),
        1 => model::gen_cert(&GenCfg { size: 0, uids: false, unknown: false }).tree.bytes(),
        _ => rbytes(range(1, 600) as usize),
    }
}
/// Bytes as a user may find them on a damaged or hostile medium.
pub fn hostile(max_depth: usize) -> Vec<u8> {
    let kind = draw(11);
    match kind {
        0..=3 => {
            let mut t = model::gen_cert(&GenCfg { size: draw(3) as u8, uids: chance(1, 3), unknown: true }).tree;
            for _ in 0..draw(4) {
                disk::mutate_tree(&mut t);
            }
            let b = t.bytes();
            let old = if chance(1, 2) { disk::medium(&older_file()) } else { Vec::new() };
            disk::store(&b, &old, draw(3)).bytes
        }
        4 => {
            let f = *pick(&disk::CORPUS);
            let old = disk::medium(&older_file());
            disk::store(f, &old, range(0, 3)).bytes
        }
        5 => {
            let mut budget = 60;
            let mut out = Vec::new();
            for _ in 0..range(1, 3) {
                let mut t = model::gen_doc(&GenCfg::any(), &mut budget, 6);
                for _ in 0..draw(4) {
                    disk::mutate_tree(&mut t);
                }
                out.extend(t.bytes());
            }
            disk::store(&out, &[], draw(2)).bytes
        }
        6 | 7 => {
            let depth = bomb_depth(max_depth);
            let bomb = disk::bomb(depth);
            let mut out = match draw(3) {
                0 => bomb.bytes(),
                _ => {
                    let mut t = model::gen_cert(&GenCfg { size: 0, uids: true, unknown: true }).tree;
                    let i = draw(t.size() as u64) as usize;
                    let n = t.nth_mut(i).unwrap();
                    trace!("  nest of depth {} placed at {:?}", depth, n.role);
                    match draw(3) {
                        0 => {
                            let r = n.role;
                            *n = bomb;
                            n.role = r;
                        }
                        1 => {
                            n.kids = vec![bomb];
                            n.pre.clear();
                        }
                        _ => n.post = bomb.bytes(),
                    }
                    t.bytes()
                }
            };
            if chance(1, 4) {
                let k = draw(out.len() as u64) as usize;
                out.truncate(k);
                fault(C::fault_truncated);
            }
            out
        }
        8 => hidden_nest(max_depth),
        9 => {
            let b = if chance(1, 3) { pick(&disk::CORPUS).to_vec() } else { model::gen_cert(&GenCfg { size: draw(3) as u8, uids: chance(1, 3), unknown: true }).tree.bytes() };
            disk::carried(&b)
        }
        _ => soup(),
    }
}
/// Nests where decoding has no need to look: in values it hands over as they are.
fn hidden_nest(max_depth: usize) -> Vec<u8> {
    let depth = bomb_depth(max_depth);
    let oid = tlv(6, &oid_content(&[2, 5, 29, 15]));
    let plain = |t: u8| (t, Vec::new());
    let levels: Vec<(u8, Vec<u8>)> = match draw(12) {
        0..=3 => vec![plain(0x30)],
        4 => vec![plain(4)],
        5 => vec![plain(0x24)],
        6 => vec![(3, vec![0])],
        7 => vec![plain(0x30), plain(4)],
        8 => vec![(0x30, oid), plain(4)],
        9 => vec![(0x30, oid)],
        10 => vec![plain(0x31), (0x30, oid)],
        _ => vec![plain(*pick(&[0xa0, 0xa3, 0x31, 0x82, 0x0c, 0x13, 2]))],
    };
    let inner = pick(&[vec![], tlv(5, &[]), tlv(2, &[1]), vec![0x30], tlv(4, &[7; 5])]).clone();
    let nest = model::nest_of(depth, &levels, &inner);
    fault(C::fault_nest_bomb);
    rt::count(C::probe_deep_nest);
    let mut t = model::gen_cert(&GenCfg { size: 0, uids: chance(1, 2), unknown: true }).tree;
    let n = t.size();
    let places: Vec<usize> = (0..n)
        .filter(|i| matches!(t.nth_mut(*i).unwrap().role, Role::ExtOct(_) | Role::AlgPar(_) | Role::AvaVal(..) | Role::Key | Role::SigVal | Role::Uid(_) | Role::Serial | Role::SanName(..) | Role::Ski(_)))
        .collect();
    let exts: Vec<usize> = places.iter().copied().filter(|i| matches!(t.nth_mut(*i).unwrap().role, Role::ExtOct(_))).collect();
    if chance(1, 3) || places.is_empty() || exts.is_empty() && chance(1, 2) {
        // as the value of an extension of a kind of its own
        let arcs: &[u32] = pick(&[&[1u32, 3, 6, 1, 5, 5, 7, 1, 1][..], &[2, 5, 29, 35], &[2, 5, 29, 32], &[2, 5, 29, 31], &[1, 3, 6, 1, 4, 1, 11129, 2, 4, 2], &[1, 2, 3], &[2, 5, 29, 17]]);
        let ext = [tlv(6, &oid_content(arcs)), tlv(4, &nest)].concat();
        if chance(1, 3) {
            return ext;
        }
        let tbs = &mut t.kids[0];
        if tbs.kids.last().map(|k| k.role) == Some(Role::ExtsTag) {
            tbs.kids.pop();
        }
        tbs.post = tlv(0xa3, &tlv(0x30, &tlv(0x30, &ext)));
        return t.bytes();
    }
    let i = if !exts.is_empty() && chance(1, 2) { *pick(&exts) } else { *pick(&places) };
    let n = t.nth_mut(i).unwrap();
    trace!("  nest of depth {} of {:x?} in {:?}", depth, levels, n.role);
    let head: &[u8] = if matches!(n.role, Role::Key | Role::SigVal | Role::Uid(_)) { &[0] } else { &[] };
    n.pre = [head, &nest].concat();
    n.kids.clear();
    n.post.clear();
    if matches!(n.role, Role::AlgPar(_) | Role::AvaVal(..)) && chance(1, 2) {
        n.tag = *pick(&[0x30u8, 4, 0x0c, 0xa0]);
    }
    t.bytes()
}
pub fn bomb_depth(max: usize) -> usize {
    let d = *pick(&[40usize, 200, 1000, 3000, 10000, 20000, 60000]);
    if max >= 60000 && chance(1, 6) {
        return *pick(&[65535usize, 65536, 65537, 66000, 100_000, 131_072]);
    }
    d.min(max)
}
/// Bytes that look like headers more often than chance.
pub fn soup() -> Vec<u8> {
    let n = range(0, 60) as usize;
    let mut s = draw(1 << 32);
    let pool: &[u8] = &[0x30, 0x31, 0x02, 0x03, 0x04, 0x05, 0x06, 0x01, 0x0c, 0x13, 0x16, 0x17, 0x18, 0xa0, 0xa3, 0x80, 0x81, 0x82, 0x84, 0x00, 0x01, 0x02, 0x03, 0x05, 0x7f, 0xff, 0x55, 0x1d];
    let mut v = Vec::new();
    for _ in 0..n {
        let x = rt::splitmix(&mut s);
        v.push(if x % 4 == 0 { (x >> 8) as u8 } else { pool[(x >> 8) as usize % pool.len()] });
    }
    rt::fault(C::fault_byte_damage);
    v
}
pub fn opaque(tag: u8, role: Role, content: Vec<u8>) -> Node {
    prim(tag, role, content)
}
pub fn show(b: &[u8]) -> String {
    if b.len() <= 400 {
        model::hex(b)
    } else {
        format!("{}... ({} bytes)", model::hex(&b[..400]), b.len())
    }
}
/// The address of leaked bytes: what tasks and shared certificates can borrow forever.
pub fn leak(b: Vec<u8>) -> &'static [u8] {
    crate::around::place(&b)
}
