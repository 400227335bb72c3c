//! The reference report: what printing a certificate, or listing a DER document, has to show.
use crate::model::*;
use crate::refdec::{self, Ev};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Begin,
    End,
    Line,
    Text(String),
    /// text the reference does not predict (the wording of an error), ending with a newline
    AnyLine(String),
}
#[derive(Default)]
pub struct Stream(pub Vec<Tok>);
impl Stream {
    pub fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if let Some(Tok::Text(t)) = self.0.last_mut() {
            t.push_str(s);
        } else {
            self.0.push(Tok::Text(s.to_string()));
        }
    }
    pub fn push(&mut self, t: Tok) {
        self.0.push(t);
    }
    fn line(&mut self, s: &str) {
        self.push(Tok::Line);
        self.bare(s);
    }
    fn bare(&mut self, s: &str) {
        self.text(s);
        self.text("\n");
    }
    fn block(&mut self, name: &str, f: impl FnOnce(&mut Stream)) {
        self.line(&format!("{}:", name));
        self.push(Tok::Begin);
        f(self);
        self.push(Tok::End);
    }
    fn hex(&mut self, b: &[u8]) {
        for l in hex_rows(b) {
            self.line(&l);
        }
    }
}
pub fn hex_rows(b: &[u8]) -> Vec<String> {
    b.chunks(16).map(|c| c.iter().map(|x| format!("{:02X}", x)).collect::<Vec<_>>().join(":")).collect()
}
pub fn int_text(b: &[u8]) -> String {
    if b.is_empty() {
        return "[]".into();
    }
    if b.len() <= 4 {
        let mut v: i64 = if b[0] >= 0x80 { -1 } else { 0 };
        for x in b {
            v = v << 8 | *x as i64;
        }
        return v.to_string();
    }
    b.iter().map(|x| format!("{:02X}", x)).collect::<Vec<_>>().join(":")
}
pub fn oid_text(o: &[u32]) -> String {
    let known = match o {
        [1, 2, 840, 113549, 1, 1, 1] => "RSA Encryption",
        [1, 2, 840, 113549, 1, 1, 5] => "SHA1 with RSA Signature",
        [1, 3, 101, 112] => "Ed25519 Signature",
        [2, 5, 4, 3] => "Common Name",
        [2, 5, 4, 6] => "Country Name",
        [2, 5, 4, 7] => "Locality Name",
        [2, 5, 4, 10] => "Organization Name",
        [2, 5, 4, 11] => "Organizational Unit Name",
        [2, 5, 4, 8] => "State or Province Name",
        [1, 2, 840, 113549, 1, 9, 1] => "Email Address",
        _ => "",
    };
    if !known.is_empty() {
        return known.into();
    }
    o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}
fn bits(s: &mut Stream, b: &RBits) {
    if b.unused == 0 {
        s.hex(&b.bytes);
    }
}
fn alg(s: &mut Stream, a: &RAlg) {
    s.line(&format!("algorithm: {}", oid_text(&a.oid)));
}
fn name(s: &mut Stream, what: &str, n: &RName) {
    match &n.parsed {
        Some(r) => s.block(what, |s| {
            for (k, v) in RDN_KEYS.iter().zip(r.iter()) {
                if let Some(v) = v {
                    s.line(&format!("{}: {}", k, v));
                }
            }
        }),
        None => s.block(&format!("{} (raw)", what), |s| {
            s.push(Tok::Begin);
            s.hex(&n.raw);
            s.push(Tok::End);
        }),
    }
}
fn ext(s: &mut Stream, e: &RExt) {
    let title = match &e.body {
        RX::Ski(_) => "Subject Key Identifier",
        RX::Ku(_) => "Key Usage",
        RX::San(_) => "Subject Alternative Name",
        RX::Bc(..) => "Basic Constraints",
        RX::Eku(_) => "Extended Key Usage",
        RX::Modbus(_) => "Modbus Role",
        RX::Unknown(_) => "Unknown",
    };
    s.line(title);
    s.push(Tok::Begin);
    s.line(&format!("extension id: {}", oid_text(&e.oid)));
    s.line(&format!("critical: {}", e.critical));
    match &e.body {
        RX::Ski(b) => s.block("key identifier", |s| s.hex(b)),
        RX::Unknown(b) => s.block("raw content", |s| s.hex(b)),
        RX::Ku(f) => {
            s.line("usages:");
            for (k, x) in f.iter().enumerate() {
                if *x {
                    s.push(Tok::Begin);
                    s.line(KU_NAMES[k]);
                    s.push(Tok::End);
                }
            }
        }
        RX::San(names) => {
            s.line("names:");
            s.push(Tok::Begin);
            for n in names {
                s.push(Tok::Line);
                match n {
                    RGn::Email(x) => s.bare(&format!("RFC822 Name: {}", x)),
                    RGn::Dns(x) => s.bare(&format!("DNS Name: {}", x)),
                    RGn::Uri(x) => s.bare(&format!("Uniform Resource Identifier: {}", x)),
                    RGn::Ip(x) => s.block("IP Address", |s| s.hex(x)),
                    RGn::Rid(x) => s.bare(&format!("Registered ID: {}", oid_text(x))),
                }
            }
            s.push(Tok::End);
        }
        RX::Bc(ca, pl) => {
            s.line(&format!("CA: {}", ca));
            if let Some(p) = pl {
                s.line(&format!("Path Length Contraint: {}", p));
            }
        }
        RX::Eku(ps) => {
            s.line("usages:");
            s.push(Tok::Begin);
            for p in ps {
                s.line(EKU_NAMES[*p as usize]);
            }
            s.push(Tok::End);
        }
        RX::Modbus(r) => s.line(&format!("role: {}", r)),
    }
    s.push(Tok::End);
}
/// The report of a certificate.
pub fn cert_report(c: &RCert) -> Stream {
    let mut s = Stream::default();
    s.block("tbs certificate", |s| {
        s.line(&format!("version: V{}", c.version));
        s.line(&format!("serial number: {}", int_text(&c.serial)));
        s.block("signature", |s| alg(s, &c.alg[0]));
        name(s, "issuer", &c.names[0]);
        s.block("validity", |s| {
            s.line(&format!("not before: {}", c.times[0]));
            s.line(&format!("not after: {}", c.times[1]));
        });
        name(s, "subject", &c.names[1]);
        s.block("subject public key info", |s| {
            s.block("algorithm", |s| alg(s, &c.alg[1]));
            s.block("subject public key", |s| bits(s, &c.key));
        });
        if let Some(u) = &c.uids[0] {
            s.block("issuer unique ID", |s| bits(s, u));
        }
        if let Some(u) = &c.uids[1] {
            s.block("subject unique ID", |s| bits(s, u));
        }
        match &c.exts {
            None => {}
            Some(None) => s.push(Tok::AnyLine("**Error** parsing extensions: ".into())),
            Some(Some(l)) => {
                if !l.is_empty() {
                    s.line("Extensions");
                    s.push(Tok::Begin);
                    for e in l {
                        ext(s, e);
                    }
                    s.push(Tok::End);
                }
            }
        }
    });
    s.block("signature algorithm", |s| alg(s, &c.alg[2]));
    s.block("signature value", |s| bits(s, &c.sig));
    s
}
/// Splits the unpredictable line out of a recorded stream so that both sides have one shape:
/// `AnyLine(prefix)` in the reference matches a line in the recording with that prefix.
pub fn compare(want: &[Tok], got: &[Tok]) -> Result<(), String> {
    let mut i = 0; // token of got
    let mut off = 0; // offset in its text
    let mut k = 0;
    while k < want.len() {
        match &want[k] {
            Tok::Text(t) => {
                let Some(Tok::Text(g)) = got.get(i) else { return Err(at(k, want, got.get(i))) };
                let rest = &g[off..];
                if !rest.starts_with(t.as_str()) {
                    return Err(at(k, want, got.get(i)));
                }
                off += t.len();
                if off == g.len() {
                    i += 1;
                    off = 0;
                } else if !matches!(want.get(k + 1), Some(Tok::AnyLine(_))) {
                    return Err(at(k, want, got.get(i)));
                }
            }
            Tok::AnyLine(p) => {
                let Some(Tok::Text(g)) = got.get(i) else { return Err(at(k, want, got.get(i))) };
                let rest = &g[off..];
                if !rest.starts_with(p.as_str()) || !rest.ends_with('\n') {
                    return Err(at(k, want, got.get(i)));
                }
                // the rest of this text belongs to the line, up to what follows it
                i += 1;
                off = 0;
                if matches!(want.get(k + 1), Some(Tok::Text(_))) {
                    return Err("reference stream has text after an unpredicted line".into());
                }
            }
            other => {
                if off != 0 || got.get(i) != Some(other) {
                    return Err(at(k, want, got.get(i)));
                }
                i += 1;
            }
        }
        k += 1;
    }
    if i != got.len() {
        return Err(format!("report continues after its end with {:?}", short(&got[i])));
    }
    Ok(())
}
fn short(t: &Tok) -> String {
    let s = format!("{:?}", t);
    s.chars().take(100).collect()
}
fn at(k: usize, want: &[Tok], got: Option<&Tok>) -> String {
    format!("call {}: expected {}, got {}", k, short(&want[k]), got.map(short).unwrap_or("end of report".into()))
}
/// Whether `got` is a beginning of `full` (both recorded from the code under test).
pub fn is_prefix(got: &[Tok], full: &[Tok]) -> bool {
    if got.len() > full.len() {
        return false;
    }
    for (i, g) in got.iter().enumerate() {
        let last = i + 1 == got.len();
        match (g, &full[i]) {
            (Tok::Text(a), Tok::Text(b)) => {
                if a != b && !(last && b.starts_with(a.as_str())) {
                    return false;
                }
            }
            (a, b) => {
                if a != b {
                    return false;
                }
            }
        }
    }
    true
}
/// Blocks closed exactly as often as opened, never below the start.
pub fn nesting(toks: &[Tok], complete: bool) -> Result<(), String> {
    let mut d = 0i64;
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::Begin => d += 1,
            Tok::End => {
                d -= 1;
                if d < 0 {
                    return Err(format!("call {} leaves a block that was never entered", i));
                }
            }
            _ => {}
        }
    }
    if complete && d != 0 {
        return Err(format!("{} blocks never left", d));
    }
    Ok(())
}

/// A pattern for console output: exact bytes, with the wording of errors left open.
pub enum Piece {
    Exact(String),
    /// up to and including the next newline that precedes the following piece (or the end)
    Line,
}
pub struct Pattern(pub Vec<Piece>);
impl Pattern {
    fn text(&mut self, s: &str) {
        if let Some(Piece::Exact(t)) = self.0.last_mut() {
            t.push_str(s);
        } else {
            self.0.push(Piece::Exact(s.to_string()));
        }
    }
    pub fn matches(&self, out: &[u8]) -> bool {
        fn go(p: &[Piece], out: &[u8]) -> bool {
            match p.first() {
                None => out.is_empty(),
                Some(Piece::Exact(t)) => out.starts_with(t.as_bytes()) && go(&p[1..], &out[t.len()..]),
                Some(Piece::Line) => {
                    // the error line is one line in practice; allow it to hold newlines
                    (0..out.len()).any(|i| out[i] == b'\n' && go(&p[1..], &out[i + 1..]))
                }
            }
        }
        go(&self.0, out)
    }
}
/// Console text of a stream.
pub fn console(s: &Stream) -> Pattern {
    let mut p = Pattern(Vec::new());
    let mut indent = 0;
    for t in &s.0 {
        match t {
            Tok::Begin => indent += 1,
            Tok::End => indent -= 1,
            Tok::Line => p.text(&"  ".repeat(indent)),
            Tok::Text(x) => p.text(x),
            Tok::AnyLine(x) => {
                p.text(x);
                p.0.push(Piece::Line);
            }
        }
    }
    p
}
pub fn asn_text(a: &RAsn) -> String {
    match a {
        RAsn::Bool(b) => format!("Boolean: {}", b),
        RAsn::Int(b) => format!("Integer: {}", int_text(b)),
        RAsn::Bits(..) => "BitString".into(),
        RAsn::Octets(_) => "OctetString".into(),
        RAsn::Null => "Null".into(),
        RAsn::Oid(o) => format!("ObjectIdentifier: {}", oid_text(o)),
        RAsn::Utf8(s) => format!("UTF8String: {}", s),
        RAsn::Printable(s) => format!("PrintableString: {}", s),
        RAsn::Ia5(s) => format!("IA5String: {}", s),
        RAsn::Time(t) => format!("UTCTime: {}", t),
        RAsn::Seq(_) => "Sequence".into(),
        RAsn::Set(_) => "Set".into(),
        RAsn::Tag(n, ..) => format!("[{}]", n),
    }
}
/// Console text of `decoder --der` on these bytes.
pub fn der_listing(b: &[u8]) -> (Pattern, bool) {
    let w = refdec::walk(b);
    let mut p = Pattern(Vec::new());
    let mut indent = 0usize;
    for e in &w.evs {
        match e {
            Ev::Enter => indent += 1,
            Ev::Leave => indent -= 1,
            Ev::Error => {
                p.text("Error: ");
                p.0.push(Piece::Line);
            }
            Ev::Type(a) => {
                p.text(&"  ".repeat(indent));
                p.text(&asn_text(a));
                p.text("\n");
                if let RAsn::Bits(0, x) = a {
                    for l in hex_rows(x) {
                        p.text(&"  ".repeat(indent + 1));
                        p.text(&l);
                        p.text("\n");
                    }
                }
            }
        }
    }
    (p, w.ok)
}
/// Console text of `decoder --certs`, or None if the bytes are not a certificate.
pub fn cert_listing(b: &[u8]) -> Option<Pattern> {
    refdec::cert(b).ok().map(|c| console(&cert_report(&c)))
}
