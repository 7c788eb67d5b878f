//! Independent TIFF writer: directories, maker notes and blobs laid out in a
//! random order, described by typed values.
use crate::rng::Rng;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Byte(Vec<u8>),
    /// Raw bytes of the string, terminator included if there is one.
    Ascii(Vec<u8>),
    Short(Vec<u16>),
    Long(Vec<u32>),
    Rat(Vec<(u32, u32)>),
    SByte(Vec<i8>),
    Undef(Vec<u8>),
    SShort(Vec<i16>),
    SLong(Vec<i32>),
    SRat(Vec<(i32, i32)>),
    Float(Vec<f32>),
    Double(Vec<f64>),
    /// type 13: IFD
    Ifd13(Vec<u32>),
    /// LONG offsets of nodes.
    Ptr(Vec<Node>),
    /// LONG offset of node plus something
    PtrAdd(Node, i64),
    /// LONG offsets of the pieces of a node, one after the other
    PtrRun(Node, Vec<u32>),
    /// Type 13 pointer
    Ptr13(Node),
    /// SHORT-free: UNDEFINED whose bytes are node `Node` (offset+length).
    Region(Node),
    /// Any type/count with the value field verbatim (in file order).
    Verbatim(u16, u32, [u8; 4]),
    /// UNDEFINED type with count and an explicit pointer to a node.
    UndefAt(Node, u32),
}

pub fn asc(s: &str) -> V {
    let mut v = s.as_bytes().to_vec();
    v.push(0);
    V::Ascii(v)
}

impl V {
    pub fn type_(&self) -> u16 {
        match self {
            V::Byte(_) => 1,
            V::Ascii(_) => 2,
            V::Short(_) => 3,
            V::Long(_) | V::Ptr(_) | V::PtrAdd(..) | V::PtrRun(..) => 4,
            V::Rat(_) => 5,
            V::SByte(_) => 6,
            V::Undef(_) | V::Region(_) | V::UndefAt(..) => 7,
            V::SShort(_) => 8,
            V::SLong(_) => 9,
            V::SRat(_) => 10,
            V::Float(_) => 11,
            V::Double(_) => 12,
            V::Ifd13(_) | V::Ptr13(_) => 13,
            V::Verbatim(t, _, _) => *t,
        }
    }
    pub fn count(&self) -> u32 {
        (match self {
            V::Byte(v) | V::Ascii(v) | V::Undef(v) => v.len(),
            V::Short(v) => v.len(),
            V::Long(v) | V::Ifd13(v) => v.len(),
            V::Rat(v) => v.len(),
            V::SByte(v) => v.len(),
            V::SShort(v) => v.len(),
            V::SLong(v) => v.len(),
            V::SRat(v) => v.len(),
            V::Float(v) => v.len(),
            V::Double(v) => v.len(),
            V::Ptr(v) => v.len(),
            V::PtrRun(_, v) => v.len(),
            V::PtrAdd(..) | V::Ptr13(_) => 1,
            V::Region(_) => 0,
            V::UndefAt(_, n) => *n as usize,
            V::Verbatim(_, c, _) => *c as usize,
        }) as u32
    }
    fn type_size(&self) -> usize {
        match self.type_() {
            3 | 8 => 2,
            4 | 9 | 11 | 13 => 4,
            5 | 10 | 12 => 8,
            _ => 1,
        }
    }
    /// Encode values that don't depend on the layout.
    pub fn encode(&self, be: bool) -> Vec<u8> {
        let mut o = vec![];
        match self {
            V::Byte(v) | V::Ascii(v) | V::Undef(v) => o.extend_from_slice(v),
            V::Short(v) => v.iter().for_each(|x| p16(&mut o, *x, be)),
            V::Long(v) | V::Ifd13(v) => v.iter().for_each(|x| p32(&mut o, *x, be)),
            V::Rat(v) => v.iter().for_each(|x| {
                p32(&mut o, x.0, be);
                p32(&mut o, x.1, be)
            }),
            V::SByte(v) => v.iter().for_each(|x| o.push(*x as u8)),
            V::SShort(v) => v.iter().for_each(|x| p16(&mut o, *x as u16, be)),
            V::SLong(v) => v.iter().for_each(|x| p32(&mut o, *x as u32, be)),
            V::SRat(v) => v.iter().for_each(|x| {
                p32(&mut o, x.0 as u32, be);
                p32(&mut o, x.1 as u32, be)
            }),
            V::Float(v) => v.iter().for_each(|x| p32(&mut o, x.to_bits(), be)),
            V::Double(v) => v.iter().for_each(|x| {
                let b = x.to_bits();
                if be {
                    o.extend_from_slice(&b.to_be_bytes())
                } else {
                    o.extend_from_slice(&b.to_le_bytes())
                }
            }),
            _ => {}
        }
        o
    }
}

pub fn p16(o: &mut Vec<u8>, v: u16, be: bool) {
    if be {
        o.extend_from_slice(&v.to_be_bytes())
    } else {
        o.extend_from_slice(&v.to_le_bytes())
    }
}
pub fn p32(o: &mut Vec<u8>, v: u32, be: bool) {
    if be {
        o.extend_from_slice(&v.to_be_bytes())
    } else {
        o.extend_from_slice(&v.to_le_bytes())
    }
}
pub fn w32(o: &mut [u8], at: usize, v: u32, be: bool) {
    let b = if be { v.to_be_bytes() } else { v.to_le_bytes() };
    o[at..at + 4].copy_from_slice(&b);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Node(pub usize);

#[derive(Clone, Copy, Debug)]
pub enum Base {
    /// offsets are from the start of the file
    File,
    /// offsets are relative to the start of node + k
    At(Node, i64),
}

#[derive(Clone, Debug)]
pub struct IfdN {
    pub entries: Vec<(u16, V)>,
    pub next: Option<Node>,
    pub base: Base,
    /// Sort by tag on write (TIFF rule).
    pub sort: bool,
    /// big endian?
    pub be: bool,
    /// no next pointer field
    pub no_next: bool,
}

enum NodeK {
    Ifd(IfdN),
    Blob(Vec<u8>),
    /// header + IFD + its values, contiguous.
    Note { header: Vec<u8>, ifd: IfdN },
}

pub struct Tiff {
    pub be: bool,
    pub header: Vec<u8>,
    nodes: Vec<NodeK>,
    pub pos: Vec<usize>,
    pub len: Vec<usize>,
    pub first: Option<Node>,
    /// nodes that must come last, in order.
    pub last: Vec<Node>,
    /// nodes that must come first, in order
    pub lead: Vec<Node>,
    pub shuffle: bool,
    /// Leave a gap of that many bytes somewhere between the blocks. They aren't in what
    /// `build` returns.
    pub gap: Option<u64>,
    /// Where it is.
    pub gap_at: usize,
}

struct Ool {
    node: usize,
    idx: usize,
    len: usize,
    pos: usize,
}

enum Unit {
    Node(usize),
    Ool(usize),
}

thread_local! {
    /// When on, `build` writes some arrays with another count than what it has:
    /// chance (one in), random source, what was done.
    static MANGLE: RefCell<Option<(u64, Rng, String)>> = const { RefCell::new(None) };
}

/// Run `f` with arrays of the IFDs it builds cut short or counted longer (one in `chance`),
/// or of another type. Gives what was done.
pub fn mangled<T>(seed: u64, chance: u64, f: impl FnOnce() -> T) -> (T, String) {
    MANGLE.with(|m| *m.borrow_mut() = Some((chance, Rng::new(seed), String::new())));
    let t = f();
    let m = MANGLE.with(|m| m.borrow_mut().take());
    (t, m.map(|m| m.2).unwrap_or_default())
}

/// The type and count to write for an entry.
fn mangle(tag: u16, typ: u16, count: u32) -> (u16, u32) {
    MANGLE.with(|m| {
        let mut m = m.borrow_mut();
        let Some((chance, r, desc)) = m.as_mut() else {
            return (typ, count);
        };
        if !r.one_in(*chance) {
            return (typ, count);
        }
        let mut nt = typ;
        let mut nc = count;
        if count > 1 && !r.one_in(4) {
            nc = match r.range(0, 9) {
                0 => count - 1,
                1 => count / 2,
                2 => count + 1,
                3 => 0,
                4..=6 => r.range(0, 8.min(count as u64 - 1)) as u32,
                _ => r.range(0, count as u64 - 1) as u32,
            };
        } else if r.bool() {
            nc = *r.pick(&[0, 2, 3, 4, 5, 8, 100]);
        } else {
            nt = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 129]);
        }
        desc.push_str(&format!("{tag:04x} {typ}*{count}->{nt}*{nc}; "));
        (nt, nc)
    })
}

impl Tiff {
    pub fn new(be: bool) -> Self {
        let header = if be {
            b"MM\0\x2a\0\0\0\0".to_vec()
        } else {
            b"II\x2a\0\0\0\0\0".to_vec()
        };
        Tiff {
            be,
            header,
            nodes: vec![],
            pos: vec![],
            len: vec![],
            first: None,
            last: vec![],
            lead: vec![],
            shuffle: true,
            gap: None,
            gap_at: usize::MAX,
        }
    }
    pub fn blob(&mut self, data: Vec<u8>) -> Node {
        self.nodes.push(NodeK::Blob(data));
        Node(self.nodes.len() - 1)
    }
    pub fn ifd(&mut self, entries: Vec<(u16, V)>) -> Node {
        let be = self.be;
        self.nodes.push(NodeK::Ifd(IfdN {
            entries,
            next: None,
            base: Base::File,
            sort: true,
            be,
            no_next: false,
        }));
        Node(self.nodes.len() - 1)
    }
    /// A maker note: header bytes, then the directory and its values.
    pub fn note(&mut self, header: Vec<u8>, entries: Vec<(u16, V)>, base: Option<i64>) -> Node {
        let be = self.be;
        self.note_endian(header, entries, base, be)
    }
    pub fn note_endian(
        &mut self,
        header: Vec<u8>,
        entries: Vec<(u16, V)>,
        base: Option<i64>,
        be: bool,
    ) -> Node {
        let id = Node(self.nodes.len());
        self.nodes.push(NodeK::Note {
            header,
            ifd: IfdN {
                entries,
                next: None,
                base: base.map(|k| Base::At(id, k)).unwrap_or(Base::File),
                sort: true,
                be,
                no_next: false,
            },
        });
        id
    }
    /// An IFD whose offsets are relative to a node
    pub fn ifd_based(&mut self, entries: Vec<(u16, V)>, base: Base) -> Node {
        let n = self.ifd(entries);
        self.ifd_mut(n).base = base;
        n
    }
    pub fn ifd_mut(&mut self, n: Node) -> &mut IfdN {
        match &mut self.nodes[n.0] {
            NodeK::Ifd(i) => i,
            NodeK::Note { ifd, .. } => ifd,
            _ => panic!("not an ifd"),
        }
    }
    pub fn ifd_ref(&self, n: Node) -> &IfdN {
        match &self.nodes[n.0] {
            NodeK::Ifd(i) => i,
            NodeK::Note { ifd, .. } => ifd,
            _ => panic!("not an ifd"),
        }
    }
    pub fn blob_bytes(&self, n: Node) -> &[u8] {
        match &self.nodes[n.0] {
            NodeK::Blob(b) => b,
            _ => panic!("not a blob"),
        }
    }
    pub fn push(&mut self, n: Node, tag: u16, v: V) {
        self.ifd_mut(n).entries.push((tag, v));
    }
    pub fn set_next(&mut self, n: Node, next: Node) {
        self.ifd_mut(n).next = Some(next);
    }

    fn value_len(v: &V) -> usize {
        match v {
            V::Ptr(p) => p.len() * 4,
            V::PtrRun(_, p) => p.len() * 4,
            V::PtrAdd(..) | V::Ptr13(_) => 4,
            V::Region(_) | V::UndefAt(..) => 0,
            V::Verbatim(..) => 4,
            _ => v.encode(false).len(),
        }
    }

    /// Lay out and write. `self.pos` gives the position of the nodes afterwards.
    pub fn build(&mut self, rng: &mut Rng) -> Vec<u8> {
        let n = self.nodes.len();
        for k in self.nodes.iter_mut() {
            let ifd = match k {
                NodeK::Ifd(i) => i,
                NodeK::Note { ifd, .. } => ifd,
                _ => continue,
            };
            if ifd.sort {
                ifd.entries.sort_by_key(|e| e.0);
            }
        }
        // units
        let mut ools: Vec<Ool> = vec![];
        let mut units: Vec<Unit> = vec![];
        let mut late: Vec<Unit> = vec![];
        let fixed: Vec<usize> = self.last.iter().chain(self.lead.iter()).map(|n| n.0).collect();
        for (i, k) in self.nodes.iter().enumerate() {
            if !fixed.contains(&i) {
                units.push(Unit::Node(i));
            }
            let ifd = match k {
                NodeK::Ifd(i) => i,
                NodeK::Note { ifd, .. } => ifd,
                _ => continue,
            };
            let inside = matches!(k, NodeK::Note { .. });
            for (j, (_, v)) in ifd.entries.iter().enumerate() {
                let l = Self::value_len(v);
                if l > 4 {
                    ools.push(Ool {
                        node: i,
                        idx: j,
                        len: l,
                        pos: 0,
                    });
                    if !inside && matches!(ifd.base, Base::At(..)) {
                        // offsets from the base are not negative
                        late.push(Unit::Ool(ools.len() - 1));
                    } else if !inside {
                        units.push(Unit::Ool(ools.len() - 1));
                    }
                }
            }
        }
        if self.shuffle {
            rng.shuffle(&mut units);
        }
        let mut order: Vec<Unit> = self.lead.iter().map(|n| Unit::Node(n.0)).collect();
        order.append(&mut units);
        order.append(&mut late);
        order.extend(self.last.iter().map(|n| Unit::Node(n.0)));
        self.pos = vec![0; n];
        self.len = vec![0; n];
        let mut cur = self.header.len();
        let mut gaps: Vec<(usize, usize)> = vec![];
        let skip = self.gap.unwrap_or(0) as usize;
        let split = match self.gap {
            Some(_) => rng.usize(self.lead.len().min(order.len()), order.len() - 1),
            None => order.len(),
        };
        self.gap_at = usize::MAX;
        for (k, u) in order.iter().enumerate() {
            if k == split {
                self.gap_at = cur;
                cur += skip;
            }
            let pad = if self.shuffle && rng.one_in(4) {
                rng.usize(0, 9)
            } else {
                0
            };
            let mut p = cur + pad;
            p += p & 1;
            gaps.push((cur, p));
            match u {
                Unit::Ool(o) => {
                    ools[*o].pos = p;
                    cur = p + ools[*o].len;
                }
                Unit::Node(i) => {
                    self.pos[*i] = p;
                    let l = match &self.nodes[*i] {
                        NodeK::Blob(b) => b.len(),
                        NodeK::Ifd(ifd) => 2 + 12 * ifd.entries.len() + if ifd.no_next { 0 } else { 4 },
                        NodeK::Note { header, ifd } => {
                            let mut q = p
                                + header.len()
                                + 2
                                + 12 * ifd.entries.len()
                                + if ifd.no_next { 0 } else { 4 };
                            for o in ools.iter_mut().filter(|o| o.node == *i) {
                                q += q & 1;
                                o.pos = q;
                                q += o.len;
                            }
                            q - p
                        }
                    };
                    self.len[*i] = l;
                    cur = p + l;
                }
            }
        }
        // Where things go in what is returned
        let gap_at = self.gap_at;
        let phys = |p: usize| if p >= gap_at { p - skip } else { p };
        let mut out = vec![0_u8; phys(cur)];
        out[..self.header.len()].copy_from_slice(&self.header);
        for (a, b) in gaps {
            for x in &mut out[phys(a)..phys(a) + b - a] {
                *x = rng.u8();
            }
        }
        if let Some(f) = self.first {
            w32(&mut out, 4, self.pos[f.0] as u32, self.be);
        }
        for i in 0..n {
            let p = self.pos[i];
            let (ifd, at) = match &self.nodes[i] {
                NodeK::Blob(b) => {
                    out[phys(p)..phys(p) + b.len()].copy_from_slice(b);
                    continue;
                }
                NodeK::Ifd(ifd) => (ifd, p),
                NodeK::Note { header, ifd } => {
                    out[phys(p)..phys(p) + header.len()].copy_from_slice(header);
                    (ifd, p + header.len())
                }
            };
            let base = match ifd.base {
                Base::File => 0_i64,
                Base::At(n, k) => self.pos[n.0] as i64 + k,
            };
            let be = ifd.be;
            let mut b = vec![];
            p16(&mut b, ifd.entries.len() as u16, be);
            for (j, (tag, v)) in ifd.entries.iter().enumerate() {
                let count = match v {
                    V::Region(n) => self.len[n.0] as u32,
                    _ => v.count(),
                };
                let (typ, written) = mangle(*tag, v.type_(), count);
                // cut enough to be stored in the entry
                let inlined = written < count && written as usize * v.type_size() <= 4;
                p16(&mut b, *tag, be);
                p16(&mut b, typ, be);
                p32(&mut b, written, be);
                let mut field = vec![];
                match v {
                    V::Region(n) => p32(&mut field, (self.pos[n.0] as i64 - base) as u32, be),
                    V::UndefAt(n, _) => p32(&mut field, (self.pos[n.0] as i64 - base) as u32, be),
                    V::PtrAdd(n, k) => {
                        p32(&mut field, (self.pos[n.0] as i64 + k - base) as u32, be)
                    }
                    V::Ptr13(n) => p32(&mut field, (self.pos[n.0] as i64 - base) as u32, be),
                    V::Verbatim(_, _, f) => field.extend_from_slice(f),
                    _ => {
                        let enc = match v {
                            V::Ptr(ns) => {
                                let mut e = vec![];
                                for n in ns {
                                    p32(&mut e, (self.pos[n.0] as i64 - base) as u32, be);
                                }
                                e
                            }
                            V::PtrRun(n, lens) => {
                                let mut e = vec![];
                                let mut at = self.pos[n.0] as i64;
                                for l in lens {
                                    p32(&mut e, (at - base) as u32, be);
                                    at += *l as i64;
                                }
                                e
                            }
                            _ => v.encode(be),
                        };
                        if enc.len() > 4 {
                            let o = ools.iter().find(|o| o.node == i && o.idx == j).unwrap();
                            out[phys(o.pos)..phys(o.pos) + enc.len()].copy_from_slice(&enc);
                            if inlined {
                                field.extend_from_slice(&enc[..4]);
                            } else {
                                p32(&mut field, (o.pos as i64 - base) as u32, be);
                            }
                        } else {
                            field = enc;
                            field.resize(4, 0);
                        }
                    }
                }
                b.extend_from_slice(&field);
            }
            if !ifd.no_next {
                p32(
                    &mut b,
                    ifd.next.map(|n| self.pos[n.0] as u32).unwrap_or(0),
                    be,
                );
            }
            out[phys(at)..phys(at) + b.len()].copy_from_slice(&b);
        }
        out
    }
}
