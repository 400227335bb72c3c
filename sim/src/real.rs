//! What the code under test hands out, turned into the reference model's plain data.
use crate::model::*;
use crate::refdec::Ev;
use crate::report::{Stream, Tok};
use crate::sched::{self, Point};
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::LinePrinter;
use rx509::x509::*;

/// The form of a context-specific tag, asked through the part of the interface that is oldest.
pub fn constructed(t: &ASNExplicitTag) -> bool {
    *t == ASNExplicitTag::new(t.value, t.contents)
}
/// Bits put into octets.
fn packed(i: impl Iterator<Item = bool>) -> (usize, Vec<u8>) {
    let mut bytes = Vec::new();
    let mut n = 0usize;
    for bit in i {
        if n % 8 == 0 {
            bytes.push(0u8);
        }
        if bit {
            *bytes.last_mut().unwrap() |= 0x80 >> (n % 8);
        }
        n += 1;
    }
    (n, bytes)
}
/// Whatever way they are asked for, the bits are the same.
fn same_bits(b: &ASNBitString, n: usize, bytes: &[u8]) {
    let at = |i: usize| i < n && bytes[i / 8] << (i % 8) & 0x80 != 0;
    let differ = |how: &str| sched::callback(|| crate::rt::violate("bit-string", &format!("the {} bits {} read otherwise by {}", n, hex(bytes), how)));
    if b.size() != n {
        differ("size");
    }
    let mut k = 0;
    let mut wrong = false;
    b.iter().for_each(|x| {
        wrong |= k >= n || x != at(k);
        k += 1;
    });
    if wrong || k != n {
        differ("for_each");
    }
    let c: Vec<bool> = b.iter().collect();
    if c.len() != n || (0..n).any(|i| c[i] != at(i)) {
        differ("collect");
    }
    if b.iter().count() != n || b.iter().last() != n.checked_sub(1).map(at) {
        differ("count or last");
    }
    let (lo, hi) = b.iter().size_hint();
    if lo > n || hi.map_or(false, |h| h < n) {
        differ("size_hint");
    }
    for i in [0, 1, 7, 8, 9, n / 2, n.saturating_sub(1), n, n + 1, n + 8, usize::MAX / 2, usize::MAX] {
        let want = if i < n { Some(at(i)) } else { None };
        let mut it = b.iter();
        if it.nth(i) != want || it.next() != (if i < n && i + 1 < n { Some(at(i + 1)) } else { None }) {
            differ("nth");
        }
        if b.iter().skip(i).next() != want || b.iter().skip(i).take(3).count() != n.saturating_sub(i).min(3) {
            differ("skip");
        }
    }
    for far in [usize::MAX, usize::MAX - 1, usize::MAX - 2] {
        let mut it = b.iter();
        let _ = (it.next(), it.next());
        if it.nth(far).is_some() || it.next().is_some() {
            differ("nth far behind its end");
        }
    }
    if b.iter().step_by(5).enumerate().any(|(i, x)| x != at(i * 5)) || b.iter().position(|x| x) != (0..n).find(|i| at(*i)) {
        differ("step_by or position");
    }
}
pub fn bits(b: &ASNBitString) -> RBits {
    if let Some(o) = b.octets() {
        if o.len() <= 40 || o.len() <= 600 && o[o.len() / 2] % 8 == 0 {
            same_bits(b, o.len() * 8, o);
        }
        return RBits { unused: 0, bytes: o.to_vec() };
    }
    let (n, bytes) = packed(b.iter());
    if n != b.size() {
        sched::callback(|| crate::rt::violate("bit-string", &format!("a bit string of size {} yields {} bits", b.size(), n)));
    }
    if n <= 400 {
        same_bits(b, n, &bytes);
    }
    RBits { unused: (bytes.len() * 8 - n) as u8, bytes }
}
/// The arcs of an object identifier, or of its copy should that be another.
pub fn arcs(o: &ASNObjectIdentifier) -> Vec<u32> {
    let v = o.values().to_vec();
    if v.len() <= 64 {
        let c = o.clone();
        if c.values() != &v[..] {
            return c.values().to_vec();
        }
    }
    v
}
pub fn asn(a: &ASNType) -> RAsn {
    match a {
        ASNType::Boolean(x) => RAsn::Bool(x.value),
        ASNType::Sequence(x) => RAsn::Seq(x.value.to_vec()),
        ASNType::Set(x) => RAsn::Set(x.value.to_vec()),
        ASNType::Integer(x) => RAsn::Int(x.value.bytes.to_vec()),
        ASNType::PrintableString(x) => RAsn::Printable(x.value.into()),
        ASNType::IA5String(x) => RAsn::Ia5(x.value.into()),
        ASNType::UTF8String(x) => RAsn::Utf8(x.value.into()),
        ASNType::Null => RAsn::Null,
        ASNType::UTCTime(x) | ASNType::GeneralizedTime(x) => RAsn::Time(x.value),
        ASNType::BitString(x) => {
            let b = bits(&x.value);
            RAsn::Bits(b.unused, b.bytes)
        }
        ASNType::OctetString(x) => RAsn::Octets(x.value.to_vec()),
        ASNType::ObjectIdentifier(x) => RAsn::Oid(arcs(&x.value)),
        ASNType::ExplicitTag(x) => RAsn::Tag(x.value.value, constructed(&x.value), x.value.contents.to_vec()),
        #[allow(unreachable_patterns)]
        _ => RAsn::Utf8("\u{0}a type of no known kind".into()),
    }
}
fn alg(a: &AlgorithmIdentifier) -> RAlg {
    RAlg { oid: arcs(&a.algorithm), params: a.parameters.as_ref().map(asn) }
}
pub fn rdn(r: &RelativeDistinguishedName) -> RRdn {
    [
        r.country_name.map(String::from),
        r.state_or_province_unit_name.map(String::from),
        r.locality_name.map(String::from),
        r.organization.map(String::from),
        r.organizational_unit_name.map(String::from),
        r.common_name.map(String::from),
    ]
}
/// Hands over `b` as a name.
#[cfg(feature = "plain_name")]
pub fn named<T>(b: &[u8], f: impl FnOnce(Option<&Name>) -> T) -> T {
    f(Some(&Name { inner: b }))
}
/// As above where a name cannot be built from outside the library: the subject of a certificate
/// that is minimal otherwise. None: the library would not have that certificate.
#[cfg(not(feature = "plain_name"))]
pub fn named<T>(b: &[u8], f: impl FnOnce(Option<&Name>) -> T) -> T {
    use crate::der::tlv;
    let seq = |parts: &[&[u8]]| tlv(0x30, &parts.concat());
    let alg = seq(&[&tlv(6, &[0x2a, 3])]);
    let bits = tlv(3, &[0, 1]);
    let time = tlv(0x17, b"200101000000Z");
    let tbs = seq(&[&tlv(2, &[1]), &alg, &seq(&[]), &seq(&[&time, &time]), &tlv(0x30, b), &seq(&[&alg, &bits])]);
    let all = seq(&[&tbs, &alg, &bits]);
    let c = sched::must("certificate", || Certificate::parse(&all).ok());
    let t = f(c.as_ref().map(|c| &c.tbs_certificate.value.subject));
    sched::must("certificate", || drop(c));
    t
}
/// Whether the library takes `b` for a name.
pub fn is_name(b: &[u8]) -> bool {
    named(b, |n| sched::must("name", || n.map_or(false, |n| n.parse().is_ok())))
}
fn name(n: &Name) -> RName {
    RName { raw: n.inner.to_vec(), parsed: n.parse().ok().map(|r| rdn(&r)) }
}
pub fn ext(e: &Extension) -> RExt {
    let body = match &e.content {
        SpecificExtension::SubjectKeyIdentifier(x) => RX::Ski(x.key_identifier.to_vec()),
        SpecificExtension::KeyUsage(x) => RX::Ku([
            x.digital_signature,
            x.content_commitment,
            x.key_encipherment,
            x.data_encipherment,
            x.key_agreement,
            x.key_cert_sign,
            x.crl_sign,
            x.encipher_only,
            x.decipher_only,
        ]),
        SpecificExtension::SubjectAlternativeName(x) => RX::San(
            x.names
                .iter()
                .map(|n| match n {
                    GeneralName::Rfc822Name(s) => RGn::Email(s.to_string()),
                    GeneralName::DnsName(s) => RGn::Dns(s.to_string()),
                    GeneralName::UniformResourceIdentifier(s) => RGn::Uri(s.to_string()),
                    GeneralName::IpAddress(b) => RGn::Ip(b.to_vec()),
                    GeneralName::RegisteredId(o) => RGn::Rid(arcs(o)),
                    // kinds the decoder does not produce
                    _ => RGn::Dns("\u{0}unsupported".into()),
                })
                .collect(),
        ),
        SpecificExtension::BasicConstraints(x) => RX::Bc(x.ca, x.path_length_constraint),
        SpecificExtension::ExtendedKeyUsage(x) => RX::Eku(
            x.ext_key_usages
                .iter()
                .map(|p| match p {
                    ExtendedKeyUsagePurpose::ServerAuth => 0,
                    ExtendedKeyUsagePurpose::ClientAuth => 1,
                    ExtendedKeyUsagePurpose::CodeSigning => 2,
                    ExtendedKeyUsagePurpose::EmailProtection => 3,
                    ExtendedKeyUsagePurpose::TimeStamping => 4,
                    ExtendedKeyUsagePurpose::OCSPSigning => 5,
                    #[allow(unreachable_patterns)]
                    _ => 99,
                })
                .collect(),
        ),
        SpecificExtension::ModbusRole(x) => RX::Modbus(x.role.to_string()),
        SpecificExtension::Unknown(b) => RX::Unknown(b.to_vec()),
        #[allow(unreachable_patterns)]
        _ => RX::Modbus("\u{0}a content of no known kind".into()),
    };
    RExt { oid: arcs(&e.extn_id), critical: e.critical, body }
}
/// Reads every field out of a decoded certificate (runs the lazily decoded parts too).
pub fn cert(c: &Certificate) -> RCert {
    let t = &c.tbs_certificate.value;
    RCert {
        tbs_raw: c.tbs_certificate.bytes.to_vec(),
        version: match t.version {
            Version::V1 => 1,
            Version::V2 => 2,
            Version::V3 => 3,
            #[allow(unreachable_patterns)]
            _ => 99,
        },
        serial: t.serial_number.bytes.to_vec(),
        alg: [alg(&t.signature), alg(&t.subject_public_key_info.algorithm), alg(&c.signature_algorithm)],
        names: [name(&t.issuer), name(&t.subject)],
        times: [t.validity.not_before.value, t.validity.not_after.value],
        key: bits(&t.subject_public_key_info.subject_public_key),
        uids: [t.issuer_unique_id.as_ref().map(bits), t.subject_unique_id.as_ref().map(bits)],
        exts: t.extensions.as_ref().map(|e| e.parse().ok().map(|l| l.iter().map(ext).collect())),
        sig: bits(&c.signature_value),
    }
}

/// A receiver that records what it is told, and may abandon the walk at its k-th notification.
pub struct Recorder {
    pub evs: Vec<Ev>,
    pub errors: Vec<String>,
    pub stop_at: u64,
    pub n: u64,
    /// leave out the contents of constructed elements
    pub light: bool,
    /// called at each notification, inside the walk (re-entry)
    pub inside: Option<Box<dyn Fn(u64)>>,
}
impl Recorder {
    pub fn new() -> Recorder {
        Recorder { evs: Vec::new(), errors: Vec::new(), stop_at: u64::MAX, n: 0, light: false, inside: None }
    }
    fn tick(&mut self, e: Ev) {
        let stop = sched::callback(|| {
            sched::point(Point::Callback);
            if self.n >= self.stop_at {
                return true;
            }
            self.n += 1;
            self.evs.push(e);
            if let Some(f) = &self.inside {
                f(self.n);
            }
            false
        });
        if stop {
            sched::abandon();
        }
    }
}
impl ParseHandler for Recorder {
    fn begin_constructed(&mut self) {
        self.tick(Ev::Enter);
    }
    fn end_constructed(&mut self) {
        self.tick(Ev::Leave);
    }
    fn on_type(&mut self, a: &ASNType) {
        let light = self.light;
        let r = sched::callback(|| match a {
            ASNType::Sequence(_) if light => RAsn::Seq(Vec::new()),
            ASNType::Set(_) if light => RAsn::Set(Vec::new()),
            ASNType::ExplicitTag(x) if light => RAsn::Tag(x.value.value, constructed(&x.value), Vec::new()),
            a => asn(a),
        });
        self.tick(Ev::Type(r));
    }
    fn on_error(&mut self, e: &ASNError) {
        let s = format!("{:?}", e);
        sched::callback(|| self.errors.push(s.clone()));
        self.tick(Ev::Error);
    }
}
/// A sink that records what it is sent, and may give up at its k-th call.
pub struct Sink {
    pub s: Stream,
    pub stop_at: u64,
    pub n: u64,
    pub inside: Option<Box<dyn Fn(u64)>>,
}
impl Sink {
    pub fn new() -> Sink {
        Sink { s: Stream::default(), stop_at: u64::MAX, n: 0, inside: None }
    }
    fn tick(&mut self, f: impl FnOnce(&mut Stream)) {
        let stop = sched::callback(|| {
            sched::point(Point::Callback);
            if self.n >= self.stop_at {
                return true;
            }
            self.n += 1;
            f(&mut self.s);
            if let Some(f) = &self.inside {
                f(self.n);
            }
            false
        });
        if stop {
            sched::abandon();
        }
    }
}
impl LinePrinter for Sink {
    fn begin_type(&mut self) {
        self.tick(|s| s.push(Tok::Begin));
    }
    fn begin_line(&mut self) {
        self.tick(|s| s.push(Tok::Line));
    }
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        let t = fmt.to_string();
        self.tick(|s| s.text(&t));
    }
    fn print_str(&mut self, t: &str) {
        self.tick(|s| s.text(t));
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        let t = fmt.to_string() + "\n";
        self.tick(|s| s.text(&t));
    }
    fn println_str(&mut self, t: &str) {
        self.tick(|s| {
            s.text(t);
            s.text("\n");
        });
    }
    fn end_type(&mut self) {
        self.tick(|s| s.push(Tok::End));
    }
}

/// The library's own console printer behind a caller's, which notes what it was asked to show and
/// may give up, or do something else in between, once a line is complete.
pub struct Console {
    inner: rx509::x509::printer::ConsoleLinePrinter,
    pub text: String,
    indent: usize,
    pub n: u64,
    pub stop_after: u64,
    /// gives up in the middle of a line too
    pub mid_line: bool,
    pub inside: Option<Box<dyn FnOnce()>>,
    /// how much had been shown when `inside` was called
    pub mark: usize,
}
impl Console {
    pub fn new() -> Console {
        Console { inner: Default::default(), text: String::new(), indent: 0, n: 0, stop_after: u64::MAX, mid_line: false, inside: None, mark: 0 }
    }
    fn note(&mut self, line_done: bool, f: impl FnOnce(&mut Console)) {
        let stop = sched::callback(|| {
            sched::point(Point::Callback);
            self.n += 1;
            f(self);
            if !(line_done || self.mid_line) || self.n < self.stop_after {
                return false;
            }
            match self.inside.take() {
                Some(g) => {
                    self.mark = self.text.len();
                    self.stop_after = u64::MAX;
                    g();
                    false
                }
                None => true,
            }
        });
        if stop {
            sched::abandon();
        }
    }
}
impl LinePrinter for Console {
    fn begin_type(&mut self) {
        self.inner.begin_type();
        self.note(false, |c| c.indent += 1);
    }
    fn begin_line(&mut self) {
        self.inner.begin_line();
        self.note(false, |c| (0..c.indent).for_each(|_| c.text.push_str("  ")));
    }
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.inner.print_fmt(fmt);
        self.note(false, |c| c.text.push_str(&fmt.to_string()));
    }
    fn print_str(&mut self, t: &str) {
        self.inner.print_str(t);
        self.note(false, |c| c.text.push_str(t));
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.inner.println_fmt(fmt);
        self.note(true, |c| c.text.push_str(&(fmt.to_string() + "\n")));
    }
    fn println_str(&mut self, t: &str) {
        self.inner.println_str(t);
        self.note(true, |c| {
            c.text.push_str(t);
            c.text.push('\n');
        });
    }
    fn end_type(&mut self) {
        self.inner.end_type();
        self.note(false, |c| c.indent -= 1);
    }
}
