//! The reference decoder: what the stored bytes say, decided independently of the code under
//! test. It is a plain recursive-descent reading of X.690 and of the supported certificate profile,
//! written over (position, end) pairs so that every element's place in the file is known.
use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct El {
    pub id: u8,
    pub start: usize,
    pub c0: usize,
    pub end: usize,
}
pub type R<T> = Result<T, ()>;

/// Reads the header of the element at `pos`; the element must lie wholly before `end`.
pub fn header(b: &[u8], pos: usize, end: usize) -> R<El> {
    let mut p = pos;
    let mut next = || -> R<u8> {
        if p >= end {
            return Err(());
        }
        p += 1;
        Ok(b[p - 1])
    };
    let id = next()?;
    if !supported_id(id) {
        return Err(());
    }
    let l0 = next()?;
    let len: usize = if l0 < 0x80 {
        l0 as usize
    } else {
        let k = (l0 & 0x7f) as usize;
        if k == 0 || k > 4 {
            return Err(());
        }
        let mut v: u64 = 0;
        let mut first = 0u8;
        for i in 0..k {
            let x = next()?;
            if i == 0 {
                first = x;
            }
            v = v * 256 + x as u64;
        }
        if first == 0 || v < 128 {
            return Err(()); // not the shortest form
        }
        v as usize
    };
    if end - p < len {
        return Err(());
    }
    Ok(El { id, start: pos, c0: p, end: p + len })
}
pub fn supported_id(id: u8) -> bool {
    if is_context(id) {
        return true;
    }
    matches!(id, 1 | 2 | 3 | 4 | 5 | 6 | 0x0c | 0x13 | 0x16 | 0x17 | 0x18 | 0x30 | 0x31)
}
pub fn is_context(id: u8) -> bool {
    id & 0xc0 == 0x80 && id & 0x1f != 0x1f
}
fn digits2(c: &[u8]) -> R<i64> {
    if c.len() == 2 && c[0].is_ascii_digit() && c[1].is_ascii_digit() {
        Ok(((c[0] - b'0') * 10 + (c[1] - b'0')) as i64)
    } else {
        Err(())
    }
}
pub fn time_value(id: u8, c: &[u8]) -> R<u64> {
    let ylen = if id == 0x18 { 4 } else { 2 };
    if c.len() != ylen + 11 || c[c.len() - 1] != b'Z' {
        return Err(());
    }
    let y = if id == 0x18 {
        digits2(&c[0..2])? * 100 + digits2(&c[2..4])?
    } else {
        let v = digits2(&c[0..2])?;
        if v >= 50 {
            1900 + v
        } else {
            2000 + v
        }
    };
    let f: Vec<i64> = (0..5).map(|i| digits2(&c[ylen + 2 * i..ylen + 2 * i + 2])).collect::<R<_>>()?;
    let (m, d, hh, mm, ss) = (f[0], f[1], f[2], f[3], f[4]);
    if y < 1970 || !(1..=12).contains(&m) || d < 1 || d > month_len(y, m) || hh > 23 || mm > 59 || ss > 59 {
        return Err(());
    }
    Ok(civil_secs(y, m, d, hh, mm, ss) as u64)
}
pub fn oid_value(c: &[u8]) -> R<Vec<u32>> {
    let mut subs: Vec<u32> = Vec::new();
    let mut v: u32 = 0;
    let mut n = 0;
    for x in c {
        if n == 0 && *x == 0x80 {
            return Err(()); // not the shortest form
        }
        n += 1;
        if n > 4 {
            return Err(());
        }
        v = v << 7 | (*x & 0x7f) as u32;
        if *x & 0x80 == 0 {
            subs.push(v);
            v = 0;
            n = 0;
        }
    }
    if n != 0 || subs.is_empty() {
        return Err(());
    }
    let f = subs[0];
    let mut out = if f >= 80 { vec![2, f - 80] } else { vec![f / 40, f % 40] };
    out.extend_from_slice(&subs[1..]);
    Ok(out)
}
pub fn bits_value(c: &[u8]) -> R<RBits> {
    if c.is_empty() || c[0] > 7 || (c.len() == 1 && c[0] != 0) {
        return Err(());
    }
    let mut bytes = c[1..].to_vec();
    // bits beyond the end are no part of the value
    if let Some(l) = bytes.last_mut() {
        *l &= 0xff << c[0];
    }
    Ok(RBits { unused: c[0], bytes })
}
pub fn value(b: &[u8], e: &El) -> R<RAsn> {
    let c = &b[e.c0..e.end];
    let s = || String::from_utf8(c.to_vec()).map_err(|_| ());
    Ok(match e.id {
        1 => match c {
            [0] => RAsn::Bool(false),
            [255] => RAsn::Bool(true),
            _ => return Err(()),
        },
        2 => {
            if c.is_empty() {
                return Err(());
            }
            RAsn::Int(c.to_vec())
        }
        3 => {
            let x = bits_value(c)?;
            RAsn::Bits(x.unused, x.bytes)
        }
        4 => RAsn::Octets(c.to_vec()),
        5 => {
            if !c.is_empty() {
                return Err(());
            }
            RAsn::Null
        }
        6 => RAsn::Oid(oid_value(c)?),
        0x0c => RAsn::Utf8(s()?),
        0x13 => RAsn::Printable(s()?),
        0x16 => RAsn::Ia5(s()?),
        0x17 | 0x18 => RAsn::Time(time_value(e.id, c)?),
        0x30 => RAsn::Seq(c.to_vec()),
        0x31 => RAsn::Set(c.to_vec()),
        x if is_context(x) => RAsn::Tag(x & 31, x & 0x20 != 0, c.to_vec()),
        _ => return Err(()),
    })
}

// ---- the walk ----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Type(RAsn),
    Enter,
    Leave,
    Error,
}
pub struct Walk {
    pub evs: Vec<Ev>,
    /// end offset in the file of the element each event belongs to (its header, for Type of a
    /// constructed element): everything the event depends on lies before it
    pub upto: Vec<usize>,
    pub ok: bool,
}
/// All notifications a walk of `b` sends, in order.
pub fn walk(b: &[u8]) -> Walk {
    walk_with(b, true)
}
/// As `walk`; contents of constructed elements are left out unless `full`.
pub fn walk_with(b: &[u8], full: bool) -> Walk {
    let mut w = Walk { evs: Vec::new(), upto: Vec::new(), ok: true };
    let mut stack: Vec<(usize, usize)> = vec![(0, b.len())];
    loop {
        let n = stack.len();
        let (pos, end) = stack[n - 1];
        if pos >= end {
            stack.pop();
            if stack.is_empty() {
                return w;
            }
            w.evs.push(Ev::Leave);
            w.upto.push(end);
            continue;
        }
        let r = header(b, pos, end).and_then(|e| {
            let v = match e.id {
                0x30 if !full => Ok(RAsn::Seq(Vec::new())),
                0x31 if !full => Ok(RAsn::Set(Vec::new())),
                x if !full && is_context(x) => Ok(RAsn::Tag(x & 31, x & 0x20 != 0, Vec::new())),
                _ => value(b, &e),
            };
            v.map(|v| (e, v))
        });
        match r {
            Err(()) => {
                w.evs.push(Ev::Error);
                w.upto.push(b.len());
                w.ok = false;
                return w;
            }
            Ok((e, v)) => {
                stack[n - 1].0 = e.end;
                let c = matches!(v, RAsn::Seq(_) | RAsn::Set(_) | RAsn::Tag(_, true, _));
                w.evs.push(Ev::Type(v));
                w.upto.push(e.end);
                if c {
                    w.evs.push(Ev::Enter);
                    w.upto.push(e.end);
                    stack.push((e.c0, e.end));
                }
            }
        }
    }
}

// ---- the certificate ---------------------------------------------------------------------------

/// A cursor over the elements of one constructed content.
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub end: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Cur<'a> {
        Cur { b, pos: 0, end: b.len() }
    }
    pub fn sub(&self, e: &El) -> Cur<'a> {
        Cur { b: self.b, pos: e.c0, end: e.end }
    }
    pub fn done(&self) -> bool {
        self.pos >= self.end
    }
    pub fn any(&mut self) -> R<(El, RAsn)> {
        let e = header(self.b, self.pos, self.end)?;
        let v = value(self.b, &e)?;
        self.pos = e.end;
        Ok((e, v))
    }
    pub fn want(&mut self, id: u8) -> R<El> {
        let (e, _) = self.any()?;
        if e.id == id {
            Ok(e)
        } else {
            Err(())
        }
    }
    pub fn peek(&self) -> Option<u8> {
        if self.done() {
            None
        } else {
            Some(self.b[self.pos])
        }
    }
    /// A tagged field: explicit tags are constructed, implicit ones of primitive types primitive.
    fn context(&mut self, n: u8, constructed: bool) -> R<Option<El>> {
        match self.peek() {
            Some(id) if is_context(id) && id & 31 == n => {
                if (id & 0x20 != 0) != constructed {
                    return Err(());
                }
                Ok(Some(self.any()?.0))
            }
            _ => Ok(None),
        }
    }
    pub fn finish(&self) -> R<()> {
        if self.done() {
            Ok(())
        } else {
            Err(())
        }
    }
    pub fn bytes(&self, e: &El) -> &'a [u8] {
        &self.b[e.c0..e.end]
    }
}
fn alg(mut c: Cur) -> R<RAlg> {
    let e = c.want(6)?;
    let oid = oid_value(c.bytes(&e))?;
    let params = if c.done() { None } else { Some(c.any()?.1) };
    c.finish()?;
    Ok(RAlg { oid, params })
}
fn seq_int(c: &[u8]) -> Option<i64> {
    if c.is_empty() || c.len() > 4 {
        return None;
    }
    let mut v: i64 = if c[0] >= 0x80 { -1 } else { 0 };
    for x in c {
        v = v << 8 | *x as i64;
    }
    Some(v)
}
pub fn name(content: &[u8]) -> R<RRdn> {
    let mut out: RRdn = Default::default();
    let mut c = Cur::new(content);
    while !c.done() {
        let set = c.want(0x31)?;
        let mut s = c.sub(&set);
        loop {
            let seq = s.want(0x30)?;
            let mut a = s.sub(&seq);
            let o = a.want(6)?;
            let oid = oid_value(a.bytes(&o))?;
            let (_, v) = a.any()?;
            a.finish()?;
            if let Some(k) = RDN_OIDS.iter().position(|x| x[..] == oid[..]) {
                let t = match v {
                    RAsn::Utf8(t) | RAsn::Printable(t) | RAsn::Ia5(t) => t,
                    _ => return Err(()),
                };
                if out[k].is_some() {
                    return Err(());
                }
                out[k] = Some(t);
            }
            if s.done() {
                break;
            }
        }
    }
    Ok(out)
}
pub fn extension(content: &[u8]) -> R<RExt> {
    let mut c = Cur::new(content);
    let o = c.want(6)?;
    let oid = oid_value(c.bytes(&o))?;
    let mut critical = false;
    if c.peek() == Some(1) {
        let (_, v) = c.any()?;
        critical = v == RAsn::Bool(true);
    }
    let oct = c.want(4)?;
    c.finish()?;
    let raw = c.bytes(&oct);
    let mut i = Cur::new(raw);
    let body = match oid[..] {
        [2, 5, 29, 14] => {
            let e = i.want(4)?;
            i.finish()?;
            RX::Ski(i.bytes(&e).to_vec())
        }
        [2, 5, 29, 15] => {
            let e = i.want(3)?;
            i.finish()?;
            let b = bits_value(i.bytes(&e))?;
            let n = b.bytes.len() * 8 - b.unused as usize;
            let mut f = [false; 9];
            for (k, x) in f.iter_mut().enumerate() {
                *x = k < n && b.bytes[k / 8] >> (7 - k % 8) & 1 == 1;
            }
            RX::Ku(f)
        }
        [2, 5, 29, 17] => {
            let e = i.want(0x30)?;
            i.finish()?;
            let mut s = i.sub(&e);
            let mut names = Vec::new();
            while !s.done() {
                let (e, v) = s.any()?;
                let c = s.bytes(&e);
                let n = match v {
                    RAsn::Tag(n, false, ..) => n,
                    _ => return Err(()),
                };
                let text = || String::from_utf8(c.to_vec()).map_err(|_| ());
                names.push(match n {
                    1 => RGn::Email(text()?),
                    2 => RGn::Dns(text()?),
                    6 => RGn::Uri(text()?),
                    7 => RGn::Ip(c.to_vec()),
                    8 => RGn::Rid(oid_value(c)?),
                    _ => return Err(()),
                });
            }
            RX::San(names)
        }
        [2, 5, 29, 19] => {
            let e = i.want(0x30)?;
            i.finish()?;
            let mut s = i.sub(&e);
            let mut ca = false;
            if s.peek() == Some(1) {
                ca = s.any()?.1 == RAsn::Bool(true);
            }
            let mut pl = None;
            if s.peek() == Some(2) {
                let e = s.want(2)?;
                pl = Some(seq_int(s.bytes(&e)).ok_or(())? as i32);
            }
            s.finish()?;
            RX::Bc(ca, pl)
        }
        [2, 5, 29, 37] => {
            let e = i.want(0x30)?;
            i.finish()?;
            let mut s = i.sub(&e);
            let mut ps = Vec::new();
            while !s.done() {
                let e = s.want(6)?;
                let o = oid_value(s.bytes(&e))?;
                let k = (0..6).find(|k| o[..] == [1, 3, 6, 1, 5, 5, 7, 3, EKU_LAST[*k]]).ok_or(())?;
                ps.push(k as u8);
            }
            RX::Eku(ps)
        }
        [1, 3, 6, 1, 4, 1, 50316, 802, 1] => {
            let e = i.want(0x0c)?;
            i.finish()?;
            RX::Modbus(String::from_utf8(i.bytes(&e).to_vec()).map_err(|_| ())?)
        }
        _ => RX::Unknown(raw.to_vec()),
    };
    Ok(RExt { oid, critical, body })
}
pub fn extensions(raw: &[u8]) -> R<Vec<RExt>> {
    let mut c = Cur::new(raw);
    let e = c.want(0x30)?;
    c.finish()?;
    let mut s = c.sub(&e);
    let mut out = Vec::new();
    while !s.done() {
        let e = s.want(0x30)?;
        out.push(extension(s.bytes(&e))?);
    }
    Ok(out)
}
pub fn cert(b: &[u8]) -> R<RCert> {
    let mut f = Cur::new(b);
    let outer = f.want(0x30)?;
    f.finish()?;
    let mut c = f.sub(&outer);
    let tbs = c.want(0x30)?;
    let mut t = c.sub(&tbs);
    let version = match t.context(0, true)? {
        None => 1,
        Some(e) => {
            let mut v = t.sub(&e);
            let i = v.want(2)?;
            v.finish()?;
            match seq_int(v.bytes(&i)) {
                Some(x) if (0..=2).contains(&x) => x as u8 + 1,
                _ => return Err(()),
            }
        }
    };
    let e = t.want(2)?;
    let serial = t.bytes(&e).to_vec();
    let e = t.want(0x30)?;
    let a0 = alg(t.sub(&e))?;
    let e = t.want(0x30)?;
    let issuer = t.bytes(&e).to_vec();
    let e = t.want(0x30)?;
    let mut v = t.sub(&e);
    let mut times = [0u64; 2];
    for x in times.iter_mut() {
        match v.any()?.1 {
            RAsn::Time(s) => *x = s,
            _ => return Err(()),
        }
    }
    v.finish()?;
    let e = t.want(0x30)?;
    let subject = t.bytes(&e).to_vec();
    let e = t.want(0x30)?;
    let mut s = t.sub(&e);
    let e = s.want(0x30)?;
    let a1 = alg(s.sub(&e))?;
    let e = s.want(3)?;
    let key = bits_value(s.bytes(&e))?;
    s.finish()?;
    let mut uids = [None, None];
    for (i, u) in uids.iter_mut().enumerate() {
        if let Some(e) = t.context(i as u8 + 1, false)? {
            *u = Some(bits_value(t.bytes(&e))?);
        }
    }
    let exts = t.context(3, true)?.map(|e| extensions(t.bytes(&e)).ok());
    t.finish()?;
    let e = c.want(0x30)?;
    let a2 = alg(c.sub(&e))?;
    let e = c.want(3)?;
    let sig = bits_value(c.bytes(&e))?;
    c.finish()?;
    Ok(RCert {
        tbs_raw: b[tbs.c0..tbs.end].to_vec(),
        version,
        serial,
        alg: [a0, a1, a2],
        names: [RName { parsed: name(&issuer).ok(), raw: issuer }, RName { parsed: name(&subject).ok(), raw: subject }],
        times,
        key,
        uids,
        exts,
        sig,
    })
}
