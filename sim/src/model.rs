//! The reference model: what a certificate says, as plain data, and a generator that writes a
//! random certificate (as a `der::Node` tree) together with the record of what it wrote.
use crate::der::{cons, oid_content, prim, Node, Role};
use crate::rt::{self, chance, draw, pick, range};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RAsn {
    Bool(bool),
    Int(Vec<u8>),
    Bits(u8, Vec<u8>),
    Octets(Vec<u8>),
    Null,
    Oid(Vec<u32>),
    Utf8(String),
    Printable(String),
    Ia5(String),
    Time(u64),
    Seq(Vec<u8>),
    Set(Vec<u8>),
    /// number, constructed?, contents
    Tag(u8, bool, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RAlg {
    pub oid: Vec<u32>,
    pub params: Option<RAsn>,
}
/// Country, state, locality, organization, unit, common name.
pub type RRdn = [Option<String>; 6];
pub const RDN_KEYS: [&str; 6] = ["C", "ST", "L", "O", "OU", "CN"];
pub const RDN_OIDS: [[u32; 4]; 6] = [[2, 5, 4, 6], [2, 5, 4, 8], [2, 5, 4, 7], [2, 5, 4, 10], [2, 5, 4, 11], [2, 5, 4, 3]];
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RName {
    pub raw: Vec<u8>,
    pub parsed: Option<RRdn>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RGn {
    Email(String),
    Dns(String),
    Uri(String),
    Ip(Vec<u8>),
    Rid(Vec<u32>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RX {
    Ski(Vec<u8>),
    Ku([bool; 9]),
    San(Vec<RGn>),
    Bc(bool, Option<i32>),
    Eku(Vec<u8>), // index into EKU_NAMES
    Modbus(String),
    Unknown(Vec<u8>),
}
pub const EKU_NAMES: [&str; 6] = ["ServerAuth", "ClientAuth", "CodeSigning", "EmailProtection", "TimeStamping", "OCSPSigning"];
pub const EKU_LAST: [u32; 6] = [1, 2, 3, 4, 8, 9];
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RExt {
    pub oid: Vec<u32>,
    pub critical: bool,
    pub body: RX,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RBits {
    pub unused: u8,
    pub bytes: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RCert {
    pub tbs_raw: Vec<u8>,
    pub version: u8,
    pub serial: Vec<u8>,
    pub alg: [RAlg; 3],
    pub names: [RName; 2],
    pub times: [u64; 2],
    pub key: RBits,
    pub uids: [Option<RBits>; 2],
    /// None: no extensions field; Some(None): it cannot be decoded
    pub exts: Option<Option<Vec<RExt>>>,
    pub sig: RBits,
}

pub const KU_NAMES: [&str; 9] = [
    "digital signature",
    "content commitment",
    "key encipherment",
    "data encipherment",
    "key agreement",
    "key cert sign",
    "crl sign",
    "encipher only",
    "decipher only",
];

pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    if b.len() > 1 << 20 {
        // too long to be shown, or to be compared as text
        return format!("{}...{} ({} bytes {:016x})", hex(&b[..16]), hex(&b[b.len() - 16..]), b.len(), crate::rt::hash_bytes(b));
    }
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(*x >> 4) as usize] as char);
        s.push(H[(*x & 15) as usize] as char);
    }
    s
}
fn oid_s(o: &[u32]) -> String {
    if o.len() > 1 << 16 {
        let h = o.iter().fold(0u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(7));
        return format!("{}...{} ({} arcs {:016x})", oid_s(&o[..8]), oid_s(&o[o.len() - 8..]), o.len(), h);
    }
    o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}
/// The bits of a bit string that carry information, as text.
pub fn bits_s(unused: u8, bytes: &[u8]) -> String {
    let n = (bytes.len() * 8).saturating_sub(unused as usize);
    let mut b = bytes.to_vec();
    if let Some(l) = b.last_mut() {
        *l &= 0xffu16.wrapping_shl(unused as u32) as u8;
    }
    format!("{} bits {}", n, hex(&b))
}
pub fn asn_s(a: &RAsn) -> String {
    match a {
        RAsn::Bits(u, b) => format!("Bits({})", bits_s(*u, b)),
        RAsn::Int(b) => format!("Int({})", hex(b)),
        RAsn::Octets(b) => format!("Octets({})", hex(b)),
        RAsn::Seq(b) => format!("Seq({})", hex(b)),
        RAsn::Set(b) => format!("Set({})", hex(b)),
        RAsn::Tag(n, c, b) => format!("Tag({},{},{})", n, if *c { "constructed" } else { "primitive" }, hex(b)),
        RAsn::Oid(o) => format!("Oid({})", oid_s(o)),
        other => format!("{:?}", other),
    }
}
/// A certificate as named fields, for comparison field by field.
pub fn fields(c: &RCert) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::with_capacity(48);
    let mut p = |k: &str, x: String| v.push((k.to_string(), x));
    p("raw.signed", hex(&c.tbs_raw));
    p("version", c.version.to_string());
    p("serial", hex(&c.serial));
    for (i, w) in ["alg.signed", "alg.key", "alg.outer"].iter().enumerate() {
        p(&format!("{}.oid", w), oid_s(&c.alg[i].oid));
        p(&format!("{}.params", w), c.alg[i].params.as_ref().map(asn_s).unwrap_or("none".into()));
    }
    for (i, w) in ["issuer", "subject"].iter().enumerate() {
        p(&format!("raw.{}", w), hex(&c.names[i].raw));
        match &c.names[i].parsed {
            None => p(&format!("{}.undecodable", w), "yes".into()),
            Some(r) => {
                for (k, x) in RDN_KEYS.iter().zip(r.iter()) {
                    p(&format!("{}.{}", w, k), format!("{:?}", x));
                }
            }
        }
    }
    p("notBefore", c.times[0].to_string());
    p("notAfter", c.times[1].to_string());
    p("key", bits_s(c.key.unused, &c.key.bytes));
    for i in 0..2 {
        p(&format!("uid{}", i), c.uids[i].as_ref().map(|b| bits_s(b.unused, &b.bytes)).unwrap_or("none".into()));
    }
    match &c.exts {
        None => p("exts", "none".into()),
        Some(None) => p("exts", "undecodable".into()),
        Some(Some(l)) => {
            p("exts", format!("{} entries", l.len()));
            for (i, e) in l.iter().enumerate() {
                p(&format!("ext{}.oid", i), oid_s(&e.oid));
                p(&format!("ext{}.critical", i), e.critical.to_string());
                p(&format!("ext{}.body", i), ext_s(&e.body));
            }
        }
    }
    p("sig", bits_s(c.sig.unused, &c.sig.bytes));
    v
}
pub fn ext_s(x: &RX) -> String {
    match x {
        RX::Ski(b) => format!("SKI {}", hex(b)),
        RX::Unknown(b) => format!("unknown {}", hex(b)),
        other => format!("{:?}", other),
    }
}
/// Keys whose values differ (or exist on one side only).
pub fn diff(a: &[(String, String)], b: &[(String, String)]) -> Vec<(String, String, String)> {
    let mut out = Vec::new();
    if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0) {
        for (x, y) in a.iter().zip(b) {
            if x.1 != y.1 {
                out.push((x.0.clone(), x.1.clone(), y.1.clone()));
            }
        }
        return out;
    }
    for (k, x) in a {
        match b.iter().find(|(k2, _)| k2 == k) {
            Some((_, y)) if x == y => {}
            Some((_, y)) => out.push((k.clone(), x.clone(), y.clone())),
            None => out.push((k.clone(), x.clone(), "(absent)".into())),
        }
    }
    for (k, y) in b {
        if !a.iter().any(|(k2, _)| k2 == k) {
            out.push((k.clone(), "(absent)".into(), y.clone()));
        }
    }
    out
}
pub fn show_diff(d: &[(String, String, String)]) -> String {
    fn cut(s: &str) -> String {
        s.chars().take(80).collect()
    }
    d.iter().take(3).map(|(k, a, b)| format!("{}: expected {} got {}", k, cut(a), cut(b))).collect::<Vec<_>>().join("; ")
}

// ---- the calendar, independently of the code under test ------------------------------------

/// Days since 1970-01-01 (proleptic Gregorian), after Howard Hinnant's days_from_civil.
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn month_len(y: i64, m: i64) -> i64 {
    let (ny, nm) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
    days_from_civil(ny, nm, 1) - days_from_civil(y, m, 1)
}
pub fn civil_secs(y: i64, m: i64, d: i64, hh: i64, mm: i64, ss: i64) -> i64 {
    days_from_civil(y, m, d) * 86400 + hh * 3600 + mm * 60 + ss
}

// ---- generation ------------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct GenCfg {
    /// 0 = small only, 1 = sometimes 128..300 byte contents, 2 = sometimes over 65535
    pub size: u8,
    /// chance of unique identifiers
    pub uids: bool,
    /// unknown extensions and attributes too
    pub unknown: bool,
}
impl GenCfg {
    pub fn any() -> GenCfg {
        GenCfg { size: draw(2) as u8, uids: chance(1, 4), unknown: true }
    }
}
pub struct Gen {
    pub tree: Node,
    pub rec: RCert,
}

/// Now and then a list is a long one: as many entries as some counter may not be able to hold.
fn crowd(cfg: &GenCfg, usual: u64) -> u64 {
    if cfg.size >= 1 && chance(1, 40) {
        rt::count(rt::C::probe_long_list);
        if chance(1, 12) {
            return *pick(&[500u64, 511, 512, 513, 999, 1000, 1023, 1024, 1025]);
        }
        return *pick(&[17u64, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    }
    draw(usual)
}
fn content_len(cfg: &GenCfg, small: u64) -> usize {
    if cfg.size >= 2 && chance(1, 24) {
        return *pick(&[65535usize, 65536, 70000]);
    }
    // sizes at which buffers end
    if cfg.size >= 1 && chance(1, 100) {
        let k = 1usize << range(8, if cfg.size >= 2 { 17 } else { 13 });
        return match draw(3) {
            0 => k - 1 + draw(3) as usize,
            1 => k + range(0, k as u64 - 1) as usize,
            _ => *pick(&[k + 16, k + k / 2, k - 16, k - k / 4]),
        };
    }
    if cfg.size >= 1 && chance(1, 10) {
        return *pick(&[126usize, 127, 128, 129, 200, 254, 255, 256, 257, 300]);
    }
    // sizes a profile or a table may limit a value to
    if chance(1, 40) {
        return *pick(&[15usize, 16, 17, 20, 21, 31, 32, 33, 40, 63, 64, 65, 66, 80, 100, 101]);
    }
    range(0, small) as usize
}
/// Texts some reader or writer of names may see a meaning in.
const LORE: [&str; 97] = [
    "www.example.com", "*.example.com", "*", "*.com", "a.*.example", "EXAMPLE.com", "example.com.", ".example.com", "example..com", "xn--mnchen-3ya.de", "xn--", "localhost", "localhost.localdomain", "a_b.example", "-a.example", "192.0.2.1", "::1", "[::1]",
    "a.example:443", "", ".", "..", "example", "EXAMPLE", "Example",
    "user@example.com", "User@EXAMPLE.com", "@example.com", "user@", "user", "<user@example.com>", "mailto:user@example.com", "\"a b\"@example.com", "user+tag@example.com", "user%example.com@gw", "a@b@c",
    "http://www.example.org/id#me", "http://www.example.org/?a=b&c=d#x", "HTTP://EXAMPLE.org/", "http://example.org", "http://example.org/", "http://example.org:80/", "https://example.org:443/a/../b", "http://user:pw@example.org/", "http://example.org/%41%2f%00", "ldap://h/cn=a,dc=b?x?base", "urn:uuid:00000000-0000-0000-0000-000000000000", "file:///etc/passwd", "//example.org/", "#", "?", "data:,x", "http://[::1]/", "http://example.org/a b",
    "US", "us", "Us", "DE", "GB", "UK", "XX", "USA",
    " leading", "trailing ", " ", "  ", "two  blanks", "tab\there", "CN=a", "C: b", "a, b", "a=b+c=d", "O=\"x\"", "#0403", "\\2c", "a/b/c", "/C=US/CN=x", "null", "NULL", "(null)", "none", "0", "-1", "true", "N/A", "%s%n", "{}", "$HOME", "<a>", "&amp;", "0x00", "1e5",
    "Operator", "operator", "Security Administrator", "CN", "**Error**",
];
/// The other letters of a text, now and then: what compares without regard to case takes both for one.
fn other_case(s: &mut str) {
    match draw(6) {
        0 => s.make_ascii_uppercase(),
        1 => s.make_ascii_lowercase(),
        _ => {}
    }
}
pub fn gen_string(cfg: &GenCfg, tag: u8) -> String {
    if chance(1, 8) {
        let mut s = pick(&LORE).to_string();
        if tag == 0x0c && s.is_empty() && chance(1, 2) {
            s.push_str(["é", "e\u{301}", "ß", "ſ", "İ", "ﬁ", "Ⅷ", "１"][draw(8) as usize]);
        }
        if chance(1, 3) {
            other_case(&mut s);
        }
        return s;
    }
    let n = content_len(cfg, 12);
    let mut seed = draw(1 << 20);
    let alpha: Vec<char> = if tag == 0x0c && chance(1, 5) {
        // whatever some reader or writer of texts may take for something else
        "\u{0}\u{1}\t\n\r\u{b}\u{1b}\"'\\,;=+#<>{}%$\u{7f}\u{80}\u{85}\u{a0}\u{ad}\u{301}\u{200b}\u{200e}\u{202e}\u{2028}\u{fffd}\u{feff}\u{fffe}\u{ffff}\u{d7ff}\u{e000}\u{1f600}\u{10000}\u{10ffff}İıß".chars().collect()
    } else if tag == 0x0c {
        "abcXYZ 0189-_.éßЖ世界".chars().collect()
    } else if tag == 0x13 {
        "abcdXYZ 0189'()+,-./:=?".chars().collect()
    } else {
        "abcdefXYZ0189@.-_*:/".chars().collect()
    };
    let mut s = String::new();
    while s.len() < n {
        let x = rt::splitmix(&mut seed);
        s.push(alpha[(x % alpha.len() as u64) as usize]);
    }
    if n > 0 && tag == 0x0c && chance(1, 30) {
        s.insert(0, *pick(&['\u{feff}', ' ', '\n', '#', '\u{0}']));
    }
    if n > 0 && tag == 0x0c && chance(1, 30) {
        s.push(*pick(&['\u{0}', ' ', '\n', '.', '\u{fffd}']));
    }
    if n > 0 && chance(1, 24) {
        // what may be taken for no part of the text
        const PAIRS: [(&str, &str); 30] = [
            ("\"", "\""), ("'", "'"), ("<", ">"), ("(", ")"), ("[", "]"), ("{", "}"), ("*", "*"), ("`", "`"), (" ", " "), ("\t", "\n"), ("", "\r\n"), ("", "\0"), ("DNS:", ""), ("URI:", ""), ("email:", ""), ("CN=", ""), ("cn=", ""), ("O=", ""),
            ("C=", ""), ("utf8:", ""), ("www.", ""), ("http://", ""), ("https://", "/"), ("mailto:", ""), ("//", ""), ("", "."), ("", "/"), ("", ":443"), ("", " (x)"), ("", ","),
        ];
        let (a, z) = pick(&PAIRS);
        s = format!("{}{}{}", a, s, z);
    }
    // a multi-byte character may overshoot by up to two bytes, which is fine
    s
}
pub fn gen_arc() -> u32 {
    match draw(6) {
        0 => draw(40) as u32,
        1 => range(0, 127) as u32,
        2 => *pick(&[127u32, 128, 129, 255, 256, 16383, 16384, 16385]),
        3 => *pick(&[2097151u32, 2097152, 268435455, 268435454, 113549]),
        4 => draw(1 << 14) as u32,
        _ => draw(1 << 28) as u32,
    }
}
pub fn gen_oid() -> Vec<u32> {
    let a = draw(3) as u32;
    let b = if a == 2 && chance(1, 3) { *pick(&[40u32, 47, 48, 79, 80, 100, 175, 176, 999, 16303, 268435455 - 80]) } else { draw(40) as u32 };
    let mut v = vec![a, b];
    if chance(1, 100) {
        let mut seed = draw(1 << 20);
        let n = *pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
        v.extend((0..n).map(|_| (rt::splitmix(&mut seed) >> 40) as u32 >> (seed % 24)));
        return v;
    }
    for _ in 0..draw(7) {
        v.push(gen_arc());
    }
    v
}
fn alg_oid() -> Vec<u32> {
    match draw(5) {
        0 => vec![1, 2, 840, 113549, 1, 1, 11],
        1 => vec![1, 3, 101, 112],
        2 => vec![1, 2, 840, 113549, 1, 1, 5],
        3 => pick(&[&[1u32, 2, 840, 113549, 1, 1, 1][..], &[1, 2, 840, 113549, 1, 1, 1], &[1, 2, 840, 10045, 2, 1], &[1, 2, 840, 10045, 4, 3, 2], &[1, 2, 840, 113549, 1, 1, 10], &[1, 2, 840, 113549, 1, 1, 4], &[1, 2, 840, 10040, 4, 1], &[1, 3, 101, 113], &[1, 3, 101, 110], &[1, 3, 14, 3, 2, 29], &[1, 2, 840, 113549, 1, 1], &[2, 5, 4, 3]]).to_vec(),
        _ => gen_oid(),
    }
}
fn gen_bits(cfg: &GenCfg, small: u64) -> RBits {
    let n = content_len(cfg, small);
    if n == 0 {
        return RBits { unused: 0, bytes: Vec::new() };
    }
    let mut b = rt::bytes(n);
    let unused = if chance(1, 4) { draw(8) as u8 } else { 0 };
    let l = b.len() - 1;
    b[l] &= 0xffu16.wrapping_shl(unused as u32) as u8;
    RBits { unused, bytes: b }
}
fn bits_content(b: &RBits) -> Vec<u8> {
    let mut v = vec![b.unused];
    v.extend_from_slice(&b.bytes);
    v
}
/// Integer content octets in DER (minimal) form, never empty.
pub fn int_content(max: usize) -> Vec<u8> {
    if chance(1, 10) {
        return pick(&[&[0u8][..], &[1], &[0xff], &[0x7f], &[0x80], &[0, 0x80], &[0xff, 0x7f], &[0, 0xff], &[1, 0], &[0x7f, 0xff], &[0x80, 0], &[0, 0x80, 0, 0, 0], &[0x7f, 0xff, 0xff, 0xff], &[0x80, 0, 0, 0], &[0, 0xff, 0xff, 0xff, 0xff], &[0xff, 0x7f, 0xff, 0xff, 0xff]]).iter().take(max).copied().collect();
    }
    let n = range(1, max as u64) as usize;
    let mut b = rt::bytes(n);
    if chance(1, 4) {
        b[0] = *pick(&[0x00u8, 0x7f, 0x80, 0xff]);
    }
    while b.len() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        b.remove(0);
    }
    b
}
/// A random primitive or opaque constructed value with its record (used for parameters).
pub fn gen_asn(cfg: &GenCfg, role: Role) -> (Node, RAsn) {
    match draw(12) {
        0 => (prim(5, role, vec![]), RAsn::Null),
        1 => {
            let o = gen_oid();
            (prim(6, role, oid_content(&o)), RAsn::Oid(o))
        }
        2 => {
            let b = int_content(9);
            (prim(2, role, b.clone()), RAsn::Int(b))
        }
        3 => {
            let b = rt::bytes(content_len(cfg, 10));
            (prim(4, role, b.clone()), RAsn::Octets(b))
        }
        4 => {
            let b = gen_bits(cfg, 10);
            (prim(3, role, bits_content(&b)), RAsn::Bits(b.unused, b.bytes))
        }
        5 => {
            let v = chance(1, 2);
            (prim(1, role, vec![if v { 0xff } else { 0 }]), RAsn::Bool(v))
        }
        6 => {
            let s = gen_string(cfg, 0x0c);
            (prim(0x0c, role, s.clone().into_bytes()), RAsn::Utf8(s))
        }
        7 => {
            let s = gen_string(cfg, 0x13);
            (prim(0x13, role, s.clone().into_bytes()), RAsn::Printable(s))
        }
        8 => {
            let s = gen_string(cfg, 0x16);
            (prim(0x16, role, s.clone().into_bytes()), RAsn::Ia5(s))
        }
        9 => {
            let o = gen_oid();
            let inner = crate::der::tlv(6, &oid_content(&o));
            (prim(0x30, role, inner.clone()), RAsn::Seq(inner))
        }
        10 => {
            let inner = crate::der::tlv(2, &int_content(4));
            (prim(0x31, role, inner.clone()), RAsn::Set(inner))
        }
        _ => {
            let n = draw(31) as u8;
            let inner = crate::der::tlv(2, &int_content(4));
            if chance(1, 2) {
                (prim(0xa0 | n, role, inner.clone()), RAsn::Tag(n, true, inner))
            } else {
                let raw = crate::rt::bytes(draw(20) as usize);
                (prim(0x80 | n, role, raw.clone()), RAsn::Tag(n, false, raw))
            }
        }
    }
}
fn gen_alg(cfg: &GenCfg, w: u8) -> (Node, RAlg) {
    let oid = alg_oid();
    let mut kids = vec![prim(6, Role::AlgOid(w), oid_content(&oid))];
    let mut params = None;
    if !chance(1, 4) {
        let (n, r) = gen_asn(cfg, Role::AlgPar(w));
        kids.push(n);
        params = Some(r);
    }
    (cons(0x30, Role::Alg(w), kids), RAlg { oid, params })
}
/// One of the two time notations for a civil instant; the year decides what is possible.
pub fn time_node(role: Role, y: i64, m: i64, d: i64, hh: i64, mm: i64, ss: i64, generalized: bool) -> Node {
    if generalized {
        prim(0x18, role, format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", y, m, d, hh, mm, ss).into_bytes())
    } else {
        prim(0x17, role, format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, m, d, hh, mm, ss).into_bytes())
    }
}
/// A civil instant with emphasis on the edges of months, years, leap days and the pivot year.
pub fn gen_civil(generalized: bool) -> (i64, i64, i64, i64, i64, i64) {
    let y = if generalized {
        match draw(6) {
            0 => range(2000, 2060) as i64,
            5 => 100 * range(20, 99) as i64,
            1 => *pick(&[1970i64, 1999, 2000, 2049, 2050, 2096, 2099, 2100, 2104, 2199, 2200, 2300, 2399, 2400, 2401, 3000, 4000, 9999]),
            2 => 1970 + draw(8030) as i64,
            3 => *pick(&[1972i64, 1976, 2004, 2024, 2028, 2096, 2400, 2800]),
            _ => range(1970, 2120) as i64,
        }
    } else {
        match draw(3) {
            0 => range(2000, 2030) as i64,
            1 => *pick(&[1970i64, 1971, 1972, 1999, 2000, 2001, 2038, 2048, 2049]),
            _ => range(1970, 2049) as i64,
        }
    };
    let m = match draw(3) {
        0 => range(1, 12) as i64,
        1 => *pick(&[1i64, 2, 3, 12]),
        _ => 2,
    };
    let ml = month_len(y, m);
    let d = match draw(3) {
        0 => range(1, ml as u64) as i64,
        1 => ml,
        _ => 1,
    };
    let (hh, mm, ss) = match draw(3) {
        0 => (draw(24) as i64, draw(60) as i64, draw(60) as i64),
        1 => *pick(&[(0, 0, 0), (0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (12, 0, 0)]),
        _ => *pick(&[(23, 59, 59), (23, 59, 59), (23, 59, 0), (23, 0, 59), (0, 59, 59), (11, 59, 59)]),
    };
    (y, m, d, hh, mm, ss)
}
fn gen_time(which: u8) -> (Node, u64) {
    let g = chance(1, 2);
    let (y, m, d, hh, mm, ss) = gen_civil(g);
    (time_node(Role::Time(which), y, m, d, hh, mm, ss, g), civil_secs(y, m, d, hh, mm, ss) as u64)
}
fn gen_name(cfg: &GenCfg, w: u8) -> (Node, RName) {
    let mut rdn: RRdn = Default::default();
    let mut kids = Vec::new();
    let mut idx = 0u16;
    let nsets = crowd(cfg, 5);
    let mut unused: Vec<usize> = (0..6).collect();
    for s in 0..nsets {
        let navas = if chance(1, 6) { 2 + if nsets < 5 { crowd(cfg, 1) } else { 0 } } else { 1 };
        let mut avas = Vec::new();
        for _ in 0..navas {
            let tag = *pick(&[0x13u8, 0x0c, 0x16]);
            let val = gen_string(cfg, tag);
            let oid: Vec<u32>;
            if unused.is_empty() || (cfg.unknown && chance(1, 6)) {
                oid = match draw(3) {
                    0 => vec![1, 2, 840, 113549, 1, 9, 1],
                    1 => pick(&[&[2u32, 5, 4, 5][..], &[2, 5, 4, 4], &[2, 5, 4, 9], &[2, 5, 4, 12], &[2, 5, 4, 17], &[2, 5, 4, 42], &[2, 5, 4, 65], &[2, 5, 4, 97], &[2, 5, 4, 0], &[2, 5, 4], &[0, 9, 2342, 19200300, 100, 1, 25], &[0, 9, 2342, 19200300, 100, 1, 1], &[2, 5, 4, 3, 1], &[2, 5, 4, 6, 0], &[1, 3, 6, 1, 4, 1, 311, 60, 2, 1, 3]]).to_vec(),
                    _ => {
                        let mut o = gen_oid();
                        o.push(7);
                        o.push(1);
                        o
                    }
                };
            } else {
                let k = unused.remove(draw(unused.len() as u64) as usize);
                oid = RDN_OIDS[k].to_vec();
                rdn[k] = Some(val.clone());
            }
            avas.push(cons(0x30, Role::Ava(w, idx), vec![prim(6, Role::AvaOid(w, idx), oid_content(&oid)), prim(tag, Role::AvaVal(w, idx), val.into_bytes())]));
            idx += 1;
        }
        kids.push(cons(0x31, Role::Rdn(w, s as u16), avas));
    }
    let n = cons(0x30, Role::Name(w), kids);
    let raw = n.content();
    (n, RName { raw, parsed: Some(rdn) })
}
/// The subject a certificate has whose issuer issued it to itself; or to one of nearly its name.
fn echo_name(n0: &Node, r0: &RName) -> (Node, RName) {
    fn second(n: &mut Node) {
        n.role = match n.role {
            Role::Name(_) => Role::Name(1),
            Role::Rdn(_, i) => Role::Rdn(1, i),
            Role::Ava(_, i) => Role::Ava(1, i),
            Role::AvaOid(_, i) => Role::AvaOid(1, i),
            Role::AvaVal(_, i) => Role::AvaVal(1, i),
            r => r,
        };
        n.kids.iter_mut().for_each(second);
    }
    let mut n = n0.clone();
    second(&mut n);
    let mut rdn = r0.parsed.clone().unwrap_or_default();
    let avas = n.kids.iter().map(|s| s.kids.len()).sum::<usize>();
    if avas > 0 && chance(1, 2) {
        // one character of one value is another
        let k = if chance(1, 2) { avas - 1 } else { draw(avas as u64) as usize };
        if let Some(a) = n.kids.iter_mut().flat_map(|s| s.kids.iter_mut()).nth(k) {
            let which = RDN_OIDS.iter().position(|o| oid_content(o) == a.kids[0].pre);
            let v = &mut a.kids[1].pre;
            if let Some(i) = v.iter().rposition(|c| c.is_ascii_alphanumeric()) {
                v[i] = if v[i] == b'Q' { b'R' } else { b'Q' };
                if let Some(w) = which {
                    rdn[w] = String::from_utf8(v.clone()).ok();
                }
            }
        }
    }
    let raw = n.content();
    (n, RName { raw, parsed: Some(rdn) })
}
fn gen_ext(cfg: &GenCfg, i: u16, kind: u64) -> (Node, RExt) {
    let (oid, inner, body): (Vec<u32>, Vec<Node>, RX) = match kind {
        0 => {
            let b = rt::bytes(content_len(cfg, 20));
            (vec![2, 5, 29, 14], vec![prim(4, Role::Ski(i), b.clone())], RX::Ski(b))
        }
        1 => {
            // DER named-bit list: trailing zero bits removed
            let mut f = [false; 9];
            match draw(4) {
                0 => f[draw(9) as usize] = true,
                1 => {}
                2 => f = [true; 9],
                _ => {
                    for x in f.iter_mut() {
                        *x = chance(1, 2);
                    }
                }
            }
            let n = f.iter().rposition(|x| *x).map(|p| p + 1).unwrap_or(0);
            let mut bytes = vec![0u8; n.div_ceil(8)];
            for (k, x) in f.iter().enumerate() {
                if *x {
                    bytes[k / 8] |= 0x80 >> (k % 8);
                }
            }
            let mut unused = (bytes.len() * 8 - n) as u8;
            if cfg.size >= 1 && chance(1, 30) {
                // usages nobody has given a name yet
                bytes.resize(2, 0);
                bytes.extend(rt::bytes(*pick(&[1usize, 2, 6, 7, 30, 31, 32, 62, 100])));
                *bytes.last_mut().unwrap() |= 1;
                bytes[1] |= draw(128) as u8;
                unused = 0;
            }
            (vec![2, 5, 29, 15], vec![prim(3, Role::Ku(i), bits_content(&RBits { unused, bytes }))], RX::Ku(f))
        }
        2 => {
            let mut names = Vec::new();
            let mut kids = Vec::new();
            for k in 0..crowd(cfg, 6) {
                let role = Role::SanName(i, k as u16);
                match draw(5) {
                    0 => {
                        let s = gen_string(cfg, 0x16);
                        kids.push(prim(0x82, role, s.clone().into_bytes()));
                        names.push(RGn::Dns(s));
                    }
                    1 => {
                        let s = gen_string(cfg, 0x16);
                        kids.push(prim(0x81, role, s.clone().into_bytes()));
                        names.push(RGn::Email(s));
                    }
                    2 => {
                        let s = gen_string(cfg, 0x16);
                        kids.push(prim(0x86, role, s.clone().into_bytes()));
                        names.push(RGn::Uri(s));
                    }
                    3 => {
                        let b = rt::bytes(if chance(1, 12) { *pick(&[0usize, 1, 3, 5, 6, 8, 15, 17, 32]) } else { *pick(&[4usize, 16]) });
                        kids.push(prim(0x87, role, b.clone()));
                        names.push(RGn::Ip(b));
                    }
                    _ => {
                        let o = gen_oid();
                        kids.push(prim(0x88, role, oid_content(&o)));
                        names.push(RGn::Rid(o));
                    }
                }
            }
            (vec![2, 5, 29, 17], vec![cons(0x30, Role::San(i), kids)], RX::San(names))
        }
        3 => {
            let ca = chance(1, 2);
            let mut kids = Vec::new();
            if ca {
                kids.push(prim(1, Role::BcCa(i), vec![0xff]));
            }
            let mut pl = None;
            if chance(1, 2) {
                let v: i32 = match draw(4) {
                    0 => draw(4) as i32,
                    1 => *pick(&[127i32, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, i32::MAX]),
                    2 => draw(1 << 24) as i32,
                    _ => draw(1 << 31) as i32,
                };
                let mut b = v.to_be_bytes().to_vec();
                while b.len() > 1 && b[0] == 0 && b[1] < 0x80 {
                    b.remove(0);
                }
                kids.push(prim(2, Role::BcLen(i), b));
                pl = Some(v);
            }
            (vec![2, 5, 29, 19], vec![cons(0x30, Role::Bc(i), kids)], RX::Bc(ca, pl))
        }
        4 => {
            let mut ps = Vec::new();
            let mut kids = Vec::new();
            for k in 0..crowd(cfg, 5) {
                let w = draw(6) as u8;
                ps.push(w);
                kids.push(prim(6, Role::EkuOid(i, k as u16), oid_content(&[1, 3, 6, 1, 5, 5, 7, 3, EKU_LAST[w as usize]])));
            }
            (vec![2, 5, 29, 37], vec![cons(0x30, Role::Eku(i), kids)], RX::Eku(ps))
        }
        5 => {
            let s = gen_string(cfg, 0x0c);
            (vec![1, 3, 6, 1, 4, 1, 50316, 802, 1], vec![prim(0x0c, Role::Modbus(i), s.clone().into_bytes())], RX::Modbus(s))
        }
        _ => {
            let o = match draw(3) {
                0 => vec![2, 5, 29, 35],
                1 => pick(&[&[1u32, 3, 6, 1, 5, 5, 7, 1, 1][..], &[2, 5, 29, 31], &[2, 5, 29, 32], &[2, 5, 29, 30], &[2, 5, 29, 18], &[2, 5, 29, 9], &[2, 5, 29, 36], &[2, 5, 29, 54], &[2, 5, 29, 16], &[2, 5, 29, 10], &[2, 5, 29, 1], &[2, 5, 29], &[1, 3, 6, 1, 4, 1, 11129, 2, 4, 2], &[1, 3, 6, 1, 4, 1, 11129, 2, 4, 3], &[2, 16, 840, 1, 113730, 1, 1], &[2, 16, 840, 1, 113730, 1, 13], &[1, 3, 6, 1, 4, 1, 50316, 802, 2], &[1, 3, 6, 1, 4, 1, 50316, 802], &[1, 3, 6, 1, 5, 5, 7, 48, 1, 5]]).to_vec(),
                _ => {
                    let mut o = gen_oid();
                    o.push(99);
                    o.push(3);
                    o
                }
            };
            let b = rt::bytes(content_len(cfg, 20));
            let mut oct = prim(4, Role::ExtOct(i), vec![]);
            oct.pre = b.clone();
            let crit = chance(1, 3);
            let mut kids = vec![prim(6, Role::ExtOid(i), oid_content(&o))];
            if crit {
                kids.push(prim(1, Role::ExtCrit(i), vec![0xff]));
            }
            kids.push(oct);
            return (cons(0x30, Role::Ext(i), kids), RExt { oid: o, critical: crit, body: RX::Unknown(b) });
        }
    };
    let critical = chance(1, 3);
    let mut kids = vec![prim(6, Role::ExtOid(i), oid_content(&oid))];
    if critical {
        kids.push(prim(1, Role::ExtCrit(i), vec![0xff]));
    }
    kids.push(cons(4, Role::ExtOct(i), inner));
    (cons(0x30, Role::Ext(i), kids), RExt { oid, critical, body })
}

/// Writes a random well-formed certificate and the record of what it says.
pub fn gen_cert(cfg: &GenCfg) -> Gen {
    let mut tbs = Vec::new();
    let version = range(1, 3) as u8;
    if version > 1 {
        tbs.push(cons(0xa0, Role::VerTag, vec![prim(2, Role::Ver, vec![version - 1])]));
    }
    let serial = int_content(if cfg.size >= 1 && chance(1, 30) { *pick(&[300, 300, 300, 5000]) } else { 20 });
    tbs.push(prim(2, Role::Serial, serial.clone()));
    let (a0, ra0) = gen_alg(cfg, 0);
    tbs.push(a0.clone());
    let (n0, rn0) = gen_name(cfg, 0);
    tbs.push(n0.clone());
    let (t0, rt0) = gen_time(0);
    let (t1, rt1) = gen_time(1);
    tbs.push(cons(0x30, Role::Validity, vec![t0, t1]));
    let (n1, rn1) = if chance(1, 6) { echo_name(&n0, &rn0) } else { gen_name(cfg, 1) };
    tbs.push(n1);
    let (a1, ra1) = gen_alg(cfg, 1);
    let key = gen_bits(cfg, 40);
    tbs.push(cons(0x30, Role::Spki, vec![a1, prim(3, Role::Key, bits_content(&key))]));
    let mut uids = [None, None];
    if cfg.uids {
        for i in 0..2u8 {
            if chance(1, 2) {
                let b = gen_bits(cfg, 8);
                tbs.push(prim(0x81 + i, Role::Uid(i), bits_content(&b)));
                uids[i as usize] = Some(b);
            }
        }
    }
    let mut exts = None;
    if version == 3 || chance(1, 4) {
        let n = crowd(cfg, 6) as u16;
        // a long list of small things
        let small = GenCfg { size: 0, ..*cfg };
        let cfg = if n > 6 { &small } else { cfg };
        let mut kids = Vec::new();
        let mut recs = Vec::new();
        for i in 0..n {
            let kind = draw(if cfg.unknown { 7 } else { 6 });
            let (k, r) = gen_ext(cfg, i, kind);
            kids.push(k);
            recs.push(r);
        }
        tbs.push(cons(0xa3, Role::ExtsTag, vec![cons(0x30, Role::Exts, kids)]));
        exts = Some(Some(recs));
    }
    let tbs = cons(0x30, Role::Tbs, tbs);
    let tbs_raw = tbs.content();
    let (a2, ra2) = if chance(1, 4) {
        // the same algorithm, as the signed part says
        let mut a = a0;
        a.role = Role::Alg(2);
        for (k, r) in a.kids.iter_mut().zip([Role::AlgOid(2), Role::AlgPar(2)]) {
            k.role = r;
        }
        (a, ra0.clone())
    } else {
        gen_alg(cfg, 2)
    };
    let sig = gen_bits(cfg, 64);
    let tree = cons(0x30, Role::Cert, vec![tbs, a2, prim(3, Role::SigVal, bits_content(&sig))]);
    let rec = RCert { tbs_raw, version, serial, alg: [ra0, ra1, ra2], names: [rn0, rn1], times: [rt0, rt1], key, uids, exts, sig };
    Gen { tree, rec }
}

/// A random DER document (not a certificate): nested constructed and primitive elements.
pub fn gen_doc(cfg: &GenCfg, budget: &mut u32, depth: u32) -> Node {
    *budget = budget.saturating_sub(1);
    if depth > 0 && *budget > 0 && !chance(1, 3) {
        let tag = match draw(3) {
            0 => 0x30u8,
            1 => 0x31,
            _ => 0xa0 | draw(31) as u8,
        };
        let mut kids = Vec::new();
        for _ in 0..draw(5) {
            if *budget == 0 {
                break;
            }
            kids.push(gen_doc(cfg, budget, depth - 1));
        }
        return cons(tag, Role::Other, kids);
    }
    if chance(1, 8) {
        let (n, _) = gen_time(0);
        return Node { role: Role::Other, ..n };
    }
    let (mut n, _) = gen_asn(cfg, Role::Other);
    n.role = Role::Other;
    n
}
/// `depth` levels of nesting around a small value, built without recursion.
pub fn nest(depth: usize, tags: &[u8], inner: &[u8]) -> Vec<u8> {
    let levels: Vec<(u8, Vec<u8>)> = tags.iter().map(|t| (*t, Vec::new())).collect();
    nest_of(depth, &levels, inner)
}
/// The same with something in front of what is nested, at each level.
pub fn nest_of(depth: usize, levels: &[(u8, Vec<u8>)], inner: &[u8]) -> Vec<u8> {
    // lengths are computed inside out, bytes are written outside in
    let mut lens = Vec::with_capacity(depth);
    let mut n = inner.len();
    for i in (0..depth).rev() {
        n += levels[i % levels.len()].1.len();
        let l = crate::der::len_octets(n);
        n += 1 + l.len();
        lens.push(l);
    }
    let mut out = Vec::with_capacity(n);
    for (i, l) in lens.iter().rev().enumerate() {
        let (tag, pre) = &levels[i % levels.len()];
        out.push(*tag);
        out.extend_from_slice(l);
        out.extend_from_slice(pre);
    }
    out.extend_from_slice(inner);
    out
}
