//! Hostile input: an observing (and failing) reader, and mutants of generated
//! files that aim at the places the library reads.
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use libopenraw::Type;

use crate::gen::{self, ALL_GEN};
use crate::obs;
use crate::report::guard;
use crate::rng::Rng;
use crate::tiffb;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// read or seek returns this error
    Err(ErrorKind),
    /// a read returns 0 bytes
    Eof,
    /// a short read, then the error
    Partial(ErrorKind),
    /// reads end there, though the length says otherwise
    Cut(u64),
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    /// return short reads (seed)
    pub short: Option<u64>,
    /// fail from this operation on
    pub fault: Option<(u64, Fault)>,
    /// how many operations fail
    pub times: u64,
}

pub const HEALTHY: Plan = Plan {
    short: None,
    fault: None,
    times: 0,
};

#[derive(Default, Debug)]
pub struct Stats {
    pub ops: AtomicU64,
    pub bytes: AtomicU64,
    pub faults: AtomicU64,
    pub shorts: AtomicU64,
    pub tracing: AtomicBool,
    pub trace: Mutex<Vec<(u64, u32)>>,
    /// no faults while set
    pub paused: AtomicBool,
}

pub struct Io {
    data: Arc<Vec<u8>>,
    pos: u64,
    plan: Plan,
    rng: Rng,
    st: Arc<Stats>,
}

impl std::fmt::Debug for Io {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Io")
    }
}

/// Show where the faults hit.
fn debug() -> bool {
    static D: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *D.get_or_init(|| std::env::var_os("ORV_BT").is_some())
}

impl Io {
    pub fn new(data: Arc<Vec<u8>>, plan: Plan) -> (Box<Io>, Arc<Stats>) {
        let st = Arc::new(Stats::default());
        (
            Box::new(Io {
                data,
                pos: 0,
                rng: Rng::new(plan.short.unwrap_or(1)),
                plan,
                st: st.clone(),
            }),
            st,
        )
    }
    fn op(&mut self) -> Option<Fault> {
        let n = self.st.ops.fetch_add(1, Ordering::Relaxed);
        let (at, f) = self.plan.fault?;
        if n >= at && n - at < self.plan.times && !self.st.paused.load(Ordering::Relaxed) {
            self.st.faults.fetch_add(1, Ordering::Relaxed);
            if debug() {
                eprintln!("FAULT {f:?} at {n} pos {}\n{}", self.pos, std::backtrace::Backtrace::force_capture());
            }
            return Some(f);
        }
        None
    }
}

impl Read for Io {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let fault = self.op();
        match fault {
            Some(Fault::Err(k)) => return Err(Error::from(k)),
            Some(Fault::Eof) => return Ok(0),
            _ => {}
        }
        let len = match fault {
            Some(Fault::Cut(n)) => n,
            _ => self.data.len() as u64,
        };
        let left = len - self.pos.min(len);
        let mut n = (buf.len() as u64).min(left) as usize;
        if let Some(Fault::Partial(k)) = fault {
            if n <= 1 {
                return Err(Error::from(k));
            }
            n /= 2;
        } else if self.plan.short.is_some() && n > 1 && self.rng.range(0, 2) > 0 {
            n = self.rng.usize(1, n - 1);
            self.st.shorts.fetch_add(1, Ordering::Relaxed);
        }
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        if self.st.tracing.load(Ordering::Relaxed) && n > 0 {
            self.st.trace.lock().unwrap().push((self.pos, n as u32));
        }
        self.st.bytes.fetch_add(n as u64, Ordering::Relaxed);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Io {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match self.op() {
            Some(Fault::Err(k)) | Some(Fault::Partial(k)) => return Err(Error::from(k)),
            _ => {}
        }
        let n = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        match n {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(Error::from(ErrorKind::InvalidInput)),
        }
    }
}

impl libopenraw::ReadAndSeek for Io {}

/// A file with a gap of zeros in it.
#[derive(Debug)]
pub struct Sparse {
    data: Vec<u8>,
    at: u64,
    gap: u64,
    pos: u64,
}

impl Sparse {
    pub fn new(data: Vec<u8>, gap: (usize, u64)) -> Box<Sparse> {
        Box::new(Sparse {
            data,
            at: gap.0 as u64,
            gap: gap.1,
            pos: 0,
        })
    }
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let len = self.data.len() as u64 + self.gap;
        let end = self.at + self.gap;
        let (from, to) = if self.pos < self.at {
            (Some(self.pos), self.at)
        } else if self.pos < end {
            (None, end)
        } else {
            (Some((self.pos - self.gap).min(self.data.len() as u64)), len)
        };
        let n = to.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        match from {
            Some(p) => buf[..n].copy_from_slice(&self.data[p as usize..p as usize + n]),
            None => buf[..n].fill(0),
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => (self.data.len() as u64 + self.gap).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        self.pos = n.ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

impl libopenraw::ReadAndSeek for Sparse {}

/// A file offered to the library.
#[derive(Clone)]
pub struct Input {
    pub kind: String,
    pub hint: Option<Type>,
    pub bytes: Vec<u8>,
    pub desc: String,
}

pub const TYPES: [Type; 14] = [
    Type::Arw,
    Type::Cr2,
    Type::Cr3,
    Type::Crw,
    Type::Dng,
    Type::Erf,
    Type::Gpr,
    Type::Mrw,
    Type::Nef,
    Type::Orf,
    Type::Pef,
    Type::Raf,
    Type::Rw2,
    Type::Jpeg,
];

/// Where the library reads in that file: (offset, length), without duplicates.
pub fn trace(bytes: &[u8], hint: Option<Type>) -> Vec<(u64, u32)> {
    let (io, st) = Io::new(Arc::new(bytes.to_vec()), HEALTHY);
    st.tracing.store(true, Ordering::Relaxed);
    let _ = guard(|| {
        if let Ok(h) = libopenraw::rawfile_from_io(io, hint) {
            for q in [
                obs::Q::TypeId,
                obs::Q::Sizes,
                obs::Q::Raw,
                obs::Q::Exif,
                obs::Q::Mnote,
                obs::Q::Matrix(1),
                obs::Q::Dump,
            ] {
                let _ = guard(|| obs::ask(&h, q));
            }
        }
    });
    let mut t = std::mem::take(&mut *st.trace.lock().unwrap());
    t.sort_unstable();
    t.dedup();
    t
}

fn get(b: &[u8], p: usize, n: usize, be: bool) -> u32 {
    let mut v = 0u32;
    for i in 0..n {
        let k = if be { i } else { n - 1 - i };
        v = v << 8 | b.get(p + k).copied().unwrap_or(0) as u32;
    }
    v
}

fn set(b: &mut [u8], p: usize, n: usize, be: bool, v: u32) {
    for i in 0..n {
        let k = if be { n - 1 - i } else { i };
        if let Some(x) = b.get_mut(p + k) {
            *x = (v >> (8 * i)) as u8;
        }
    }
}

pub fn interesting(r: &mut Rng, old: u32, len: u32, tr: &[(u64, u32)]) -> u32 {
    match r.range(0, 19) {
        0 => 0,
        1 => 1,
        2 => r.r32(2, 16),
        3 => 0x7fff,
        4 => 0x8000,
        5 => 0xffff,
        6 => 0x7fff_ffff,
        7 => 0x8000_0000,
        8 => 0xffff_ffff,
        9 => len,
        10 => len.wrapping_sub(r.r32(1, 8)),
        11 => len + r.r32(1, 4),
        12 => old.wrapping_add(1),
        13 => old.wrapping_sub(1),
        14 => old.wrapping_mul(2),
        15 => old ^ (1 << r.r32(0, 31)),
        16 if !tr.is_empty() => r.pick(tr).0 as u32,
        17 => *r.pick(&[0x10000, 0xff, 0x100, 0x80, 0x7f, 10000, 0x1_0001, 0xffff_fff0, 0x4000_0000]),
        18 => old / 2,
        _ => r.u32() >> r.r32(0, 31),
    }
}

/// Mutate in place. Gives a description.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, tr: &[(u64, u32)]) -> String {
    let n = *r.pick(&[1, 1, 1, 2, 3, 6]);
    let be0 = b.first() == Some(&b'M') || b.first() == Some(&0) || b.first() == Some(&b'F');
    let mut d = String::new();
    let small: Vec<(u64, u32)> = tr.iter().filter(|t| t.1 <= 16).copied().collect();
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let len = b.len();
        // where
        let pool = if r.one_in(4) || small.is_empty() { tr } else { &small };
        let (p, l) = if pool.is_empty() || r.one_in(12) {
            (r.usize(0, len - 1), *r.pick(&[1usize, 2, 4, 8]))
        } else {
            let t = r.pick(pool);
            let l = t.1 as usize;
            if l > 8 {
                (t.0 as usize + (r.usize(0, l - 1) & !1), *r.pick(&[1usize, 2, 4]))
            } else {
                (t.0 as usize, l)
            }
        };
        if p >= len {
            continue;
        }
        let be = be0 ^ r.one_in(6);
        match r.range(0, 39) {
            0 => {
                // cut
                let at = if r.bool() { p } else { r.usize(0, len) };
                b.truncate(at);
                d.push_str(&format!(" cut@{at}"));
            }
            1 => {
                // copy another place here
                if !tr.is_empty() {
                    let t = r.pick(tr);
                    let m = (t.1 as usize).min(12);
                    let s: Vec<u8> = b.iter().skip(t.0 as usize).take(m).copied().collect();
                    for (i, v) in s.iter().enumerate() {
                        if let Some(x) = b.get_mut(p + i) {
                            *x = *v;
                        }
                    }
                    d.push_str(&format!(" copy {}->{p}", t.0));
                }
            }
            2 => {
                // noise
                let m = r.usize(1, 24);
                for i in 0..m {
                    if let Some(x) = b.get_mut(p + i) {
                        *x = r.u8();
                    }
                }
                d.push_str(&format!(" noise@{p}+{m}"));
            }
            3 => {
                // a run of one value
                let m = r.usize(1, 300);
                let v = *r.pick(&[0, 0xff, 0x80, 0x7f, 1]);
                for i in 0..m {
                    if let Some(x) = b.get_mut(p + i) {
                        *x = v;
                    }
                }
                d.push_str(&format!(" run@{p}+{m}={v:x}"));
            }
            4 => {
                // remove bytes
                let m = r.usize(1, 8).min(len - p);
                b.drain(p..p + m);
                d.push_str(&format!(" del@{p}+{m}"));
            }
            5 => {
                let m = r.usize(1, 8);
                let v = r.bytes(m);
                b.splice(p..p, v);
                d.push_str(&format!(" ins@{p}+{m}"));
            }
            6..=9 => {
                b[p] = r.u8();
                d.push_str(&format!(" byte@{p}={:x}", b[p]));
            }
            10..=12 => {
                b[p] ^= 1 << r.r32(0, 7);
                d.push_str(&format!(" bit@{p}={:x}", b[p]));
            }
            _ => {
                let n = match l {
                    1 => 1,
                    2 => 2,
                    3 | 4 => 4,
                    _ => *r.pick(&[2, 4]),
                };
                let old = get(b, p, n, be);
                let v = interesting(r, old, len as u32, tr);
                set(b, p, n, be, v);
                d.push_str(&format!(" u{}@{p}={v:x}", n * 8));
            }
        }
    }
    d
}

/// Tags the library looks at.
const TAGS: [u16; 76] = [
    0xfe, 0xff, 0x100, 0x101, 0x102, 0x103, 0x106, 0x10f, 0x110, 0x111, 0x112, 0x115, 0x116, 0x117, 0x11a, 0x11c,
    0x142, 0x143, 0x144, 0x145, 0x14a, 0x152, 0x201, 0x202, 0x828d, 0x828e, 0x8769, 0x8825, 0x927c, 0xa002, 0xa003,
    0xa005, 0xa302, 0xc612, 0xc614, 0xc617, 0xc618, 0xc61a, 0xc61d, 0xc61e, 0xc61f, 0xc620, 0xc621, 0xc622, 0xc628,
    0xc629, 0xc634, 0xc640, 0xc65a, 0xc65b, 0xc68d, 0x2, 0x3, 0x4, 0x5, 0x6, 0x7, 0x10, 0x11, 0x17, 0x18, 0x1c, 0x1d,
    0x2e, 0x2f, 0x96, 0xc5d8, 0xc5d9, 0xc5e0, 0x7310, 0x7312, 0x7313, 0x83, 0x97, 0xd, 0x2020,
];

/// A soup of directories with the tags the library looks at.
pub fn soup(r: &mut Rng) -> Input {
    let be = r.bool();
    let mut b: Vec<u8> = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    let ndirs = r.usize(1, 5);
    b.resize(8, 0);
    if r.one_in(6) {
        b.extend_from_slice(&[b'C', b'R', 2, 0, 0, 0, 0, 0]);
    }
    let heap = r.usize(16, 600);
    let hp = b.len();
    b.extend(r.bytes(heap));
    for s in [&b"PENTAX Corporation \0"[..], b"SEIKO EPSON CORP.\0", b"NIKON CORPORATION\0", b"SONY\0", b"Canon\0", b"OLYMPUS\0", b"FUJIFILM\0"] {
        b.extend_from_slice(s);
    }
    for s in [&b"Nikon\0\x02\x10\0\0MM\0*\0\0\0\x08\0\0"[..], b"OLYMPUS\0II\x03\0\0\0\0\0\0\0\0\0", b"AOC\0MM\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", b"Panasonic\0\0\0\0\0\0\0\0\0\0\0\0\0", b"FUJIFILM\x0c\0\0\0\0\0\0\0\0\0\0"] {
        b.extend_from_slice(s);
    }
    let heap_end = b.len();
    let mut starts = vec![];
    let mut ptrs = vec![];
    let p2 = |b: &mut Vec<u8>, v: u16| b.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    let p4 = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    let dng = r.one_in(2);
    for k in 0..ndirs {
        starts.push(b.len());
        let mut n = r.usize(0, 14);
        if dng && k == 0 {
            n += 1;
        }
        p2(&mut b, n as u16);
        for i in 0..n {
            if dng && k == 0 && i == 0 {
                p2(&mut b, 0xc612);
                p2(&mut b, 1);
                p4(&mut b, 4);
                p4(&mut b, 0x01040000);
                continue;
            }
            let tag = if r.one_in(12) { r.u16() } else { *r.pick(&TAGS) };
            p2(&mut b, tag);
            let ptr = matches!(tag, 0x14a | 0x8769 | 0x927c | 0x2020);
            let ty = if ptr { *r.pick(&[4, 4, 4, 7, 13, 3]) } else { *r.pick(&[3, 3, 4, 4, 1, 2, 7, 5, 10, 6, 8, 9, 11, 12, 13]) };
            p2(&mut b, ty);
            let cnt = match r.range(0, 9) {
                0 => 0,
                1..=5 => r.r32(1, 2),
                6 => 4,
                7 => r.r32(3, 32),
                8 => r.r32(0, 700),
                _ => r.u32() >> r.r32(0, 31),
            };
            p4(&mut b, cnt);
            if ptr {
                ptrs.push(b.len());
                p4(&mut b, 0);
            } else if cnt > 2 || r.one_in(4) {
                let v = r.r32(0, heap_end as u32);
                p4(&mut b, v);
            } else {
                let v = match r.range(0, 5) {
                    0 => r.r32(0, 64),
                    1 => *r.pick(&[1, 6, 7, 8, 12, 14, 16, 32767, 32769, 32770, 32773, 34316, 34713, 65000, 65535]),
                    2 => r.r32(hp as u32, heap_end as u32),
                    3 => r.u32() >> r.r32(0, 31),
                    4 => r.r32(1, 4),
                    _ => r.r32(1, 16) * 2,
                };
                if ty == 3 && be {
                    p4(&mut b, v << 16)
                } else {
                    p4(&mut b, v)
                }
            }
        }
        ptrs.push(b.len());
        p4(&mut b, 0);
    }
    let put = |b: &mut Vec<u8>, p: usize, v: u32| set(b, p, 4, be, v);
    put(&mut b, 4, starts[0] as u32);
    for p in ptrs {
        let v = match r.range(0, 7) {
            0..=1 => 0,
            2 => r.r32(0, heap_end as u32),
            _ => *r.pick(&starts) as u32,
        };
        put(&mut b, p, v);
    }
    Input {
        kind: "soup".into(),
        hint: match r.range(0, 2) {
            0 => None,
            _ => Some(*r.pick(&TYPES)),
        },
        bytes: b,
        desc: "directory soup".into(),
    }
}

/// Random bytes behind a signature.
pub fn junk(r: &mut Rng) -> Input {
    let magics: [&[u8]; 12] = [
        b"",
        b"II*\0\x08\0\0\0",
        b"MM\0*\0\0\0\x08",
        b"\0MRM\0\0\0\x40\0PRD\0\0\0\x18",
        b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom",
        b"II\x1a\0\0\0HEAPCCDR\x02\0\x01\0",
        b"IIRO\x08\0\0\0",
        b"IIU\0\x18\0\0\0",
        b"FUJIFILMCCD-RAW 0201FF383501",
        b"\xff\xd8\xff\xdb\0\x04\0\0",
        b"\xff\xd8\xff\xe1\0\x20Exif\0\0II*\0\x08\0\0\0",
        b"II*\0\x10\0\0\0CR\x02\0",
    ];
    let mut b = r.pick(&magics).to_vec();
    let n = match r.range(0, 3) {
        0 => r.usize(0, 16),
        1 => r.usize(0, 64),
        _ => r.usize(0, 2000),
    };
    let extra = match r.range(0, 2) {
        0 => vec![*r.pick(&[0, 0xff, 1]); n],
        _ => (0..n).map(|_| if r.bool() { r.u8() } else { 0 }).collect(),
    };
    b.extend(extra);
    Input {
        kind: "junk".into(),
        hint: match r.range(0, 3) {
            0 => Some(*r.pick(&TYPES)),
            _ => None,
        },
        bytes: b,
        desc: "junk".into(),
    }
}

/// Well formed file of a random format.
pub fn valid(r: &mut Rng) -> Input {
    let g = r.pick(ALL_GEN);
    let f = (g.1)(r);
    Input {
        kind: f.kind,
        hint: f.hint,
        bytes: f.bytes,
        desc: f.desc,
    }
}

/// The inputs of case i: a base file and its mutants.
pub fn family(seed: u64, label: &str, i: u64, mutants: usize, mut f: impl FnMut(&Input, &mut Rng)) {
    let mut r = Rng::derive(seed, label, i);
    match i % 8 {
        6 => {
            for _ in 0..mutants {
                let s = soup(&mut r);
                f(&s, &mut r);
            }
        }
        7 if i % 16 == 7 => {
            for _ in 0..mutants {
                let s = junk(&mut r);
                f(&s, &mut r);
            }
        }
        _ => {
            let base = valid(&mut r);
            let tr = trace(&base.bytes, base.hint);
            f(&base, &mut r);
            for k in 0..mutants.div_ceil(4) as u64 {
                let mut again = Rng::derive(seed, label, i);
                let chance = *r.pick(&[3, 8, 20, 60]);
                let (mut m, what) = tiffb::mangled(r.u64() ^ k, chance, || valid(&mut again));
                m.desc = format!("{what}of {}", m.desc);
                m.kind.push('#');
                f(&m, &mut r);
            }
            for _ in 0..mutants {
                let mut m = base.clone();
                m.desc = mutate(&mut r, &mut m.bytes, &tr);
                m.desc.push_str(&format!(" of {}", base.desc));
                m.kind.push('~');
                if r.one_in(20) {
                    m.hint = Some(*r.pick(&TYPES));
                }
                f(&m, &mut r);
            }
        }
    }
    let _ = gen::tables();
}
