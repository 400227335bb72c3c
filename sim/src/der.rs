//! The harness's own DER writer: a tree with a semantic role per element, editable before it is
//! flattened (every enclosing length is then right), and the byte span of every element after.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Cert,
    Tbs,
    VerTag,
    Ver,
    Serial,
    Alg(u8), // 0 = inside the signed part, 1 = of the key, 2 = outer
    AlgOid(u8),
    AlgPar(u8),
    Name(u8), // 0 = issuer, 1 = subject
    Rdn(u8, u16),
    Ava(u8, u16),    // name, running index of the attribute in that name
    AvaOid(u8, u16),
    AvaVal(u8, u16),
    Validity,
    Time(u8),
    Spki,
    Key,
    Uid(u8),
    ExtsTag,
    Exts,
    Ext(u16),
    ExtOid(u16),
    ExtCrit(u16),
    ExtOct(u16),
    Ski(u16),
    Ku(u16),
    San(u16),
    SanName(u16, u16),
    Bc(u16),
    BcCa(u16),
    BcLen(u16),
    Eku(u16),
    EkuOid(u16, u16),
    Modbus(u16),
    SigVal,
    Other,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub tag: u8,
    pub role: Role,
    pub pre: Vec<u8>,
    pub kids: Vec<Node>,
    pub post: Vec<u8>,
    /// emit only this many bytes of the element (its tail is lost; enclosing lengths agree)
    pub cut: Option<usize>,
    /// length octets to write instead of the right ones
    pub len_lie: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct Span {
    pub role: Role,
    pub tag: u8,
    pub start: usize,
    pub cstart: usize,
    pub end: usize,
    pub parent: usize,
    pub leaf: bool,
}

pub fn prim(tag: u8, role: Role, content: Vec<u8>) -> Node {
    Node { tag, role, pre: content, kids: Vec::new(), post: Vec::new(), cut: None, len_lie: None }
}
pub fn cons(tag: u8, role: Role, kids: Vec<Node>) -> Node {
    Node { tag, role, pre: Vec::new(), kids, post: Vec::new(), cut: None, len_lie: None }
}

pub fn len_octets(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b = n.to_be_bytes();
    let k = b.iter().position(|x| *x != 0).unwrap();
    let mut v = vec![0x80 | (8 - k) as u8];
    v.extend_from_slice(&b[k..]);
    v
}
pub fn tlv(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(len_octets(content.len()));
    v.extend_from_slice(content);
    v
}
pub fn oid_content(items: &[u32]) -> Vec<u8> {
    fn base128(v: u64, out: &mut Vec<u8>) {
        let mut parts = vec![(v & 0x7f) as u8];
        let mut x = v >> 7;
        while x > 0 {
            parts.push((x & 0x7f) as u8 | 0x80);
            x >>= 7;
        }
        parts.reverse();
        out.extend(parts);
    }
    let mut out = Vec::new();
    base128(items[0] as u64 * 40 + items[1] as u64, &mut out);
    for i in &items[2..] {
        base128(*i as u64, &mut out);
    }
    out
}

impl Node {
    fn emit(&self) -> (Vec<u8>, Vec<Span>) {
        let mut content = self.pre.clone();
        let mut spans: Vec<Span> = Vec::new();
        for k in &self.kids {
            let (b, ks) = k.emit();
            let base = spans.len();
            for mut s in ks {
                s.start += content.len();
                s.cstart += content.len();
                s.end += content.len();
                if s.parent == usize::MAX {
                    // parent is this node; fixed below
                } else {
                    s.parent += base;
                }
                spans.push(s);
            }
            content.extend(b);
        }
        content.extend_from_slice(&self.post);
        let mut out = vec![self.tag];
        match &self.len_lie {
            Some(l) => out.extend_from_slice(l),
            None => out.extend(len_octets(content.len())),
        }
        let h = out.len();
        out.extend(content);
        if let Some(c) = self.cut {
            out.truncate(c);
        }
        let mut all = vec![Span { role: self.role, tag: self.tag, start: 0, cstart: h, end: out.len(), parent: usize::MAX, leaf: self.kids.is_empty() }];
        for mut s in spans {
            s.start += h;
            s.cstart += h;
            s.end += h;
            s.parent = if s.parent == usize::MAX { 0 } else { s.parent + 1 };
            all.push(s);
        }
        (out, all)
    }
    pub fn flatten(&self) -> (Vec<u8>, Vec<Span>) {
        self.emit()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.emit().0
    }
    pub fn content(&self) -> Vec<u8> {
        let mut v = self.pre.clone();
        for k in &self.kids {
            v.extend(k.bytes());
        }
        v.extend_from_slice(&self.post);
        v
    }
    /// Number of nodes, this one included.
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    /// The i-th node in pre-order.
    pub fn nth_mut(&mut self, i: usize) -> Option<&mut Node> {
        if i == 0 {
            return Some(self);
        }
        let mut i = i - 1;
        for k in &mut self.kids {
            let n = k.size();
            if i < n {
                return k.nth_mut(i);
            }
            i -= n;
        }
        None
    }
    pub fn find_mut(&mut self, role: Role) -> Option<&mut Node> {
        if self.role == role {
            return Some(self);
        }
        for k in &mut self.kids {
            if let Some(n) = k.find_mut(role) {
                return Some(n);
            }
        }
        None
    }
    pub fn roles(&self, out: &mut Vec<Role>) {
        out.push(self.role);
        for k in &self.kids {
            k.roles(out);
        }
    }
}
