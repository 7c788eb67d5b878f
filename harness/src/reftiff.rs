//! A reader of TIFF directories that owes nothing to the library: what every directory of
//! a well formed file has, to compare with everything the library says it has.
use libopenraw::metadata::Value;
use libopenraw::RawFileHandle;

use crate::exp::{Cmp, GenFile};
use crate::gen::tables;
use crate::obs::{cmp_tag, KEYS};
use crate::tiffb::V;

/// The bytes of a file, that may have a gap.
struct Src<'a> {
    b: &'a [u8],
    gap: Option<(usize, u64)>,
    base: u64,
    be: bool,
}

struct E {
    tag: u16,
    typ: u16,
    v: Option<V>,
}

impl Src<'_> {
    fn bytes(&self, at: u64, len: usize) -> Option<&[u8]> {
        let at = self.base + at;
        let at = match self.gap {
            Some((split, gap)) if at >= split as u64 + gap => at - gap,
            Some((split, _)) if at + len as u64 > split as u64 => return None,
            _ => at,
        };
        let at = usize::try_from(at).ok()?;
        self.b.get(at..at.checked_add(len)?)
    }
    fn n16(&self, b: &[u8]) -> u16 {
        let a = [b[0], b[1]];
        if self.be { u16::from_be_bytes(a) } else { u16::from_le_bytes(a) }
    }
    fn n32(&self, b: &[u8]) -> u32 {
        let a = [b[0], b[1], b[2], b[3]];
        if self.be { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) }
    }
    fn n64(&self, b: &[u8]) -> u64 {
        let (a, z) = (self.n32(b) as u64, self.n32(&b[4..]) as u64);
        if self.be { a << 32 | z } else { z << 32 | a }
    }
    fn decode(&self, typ: u16, d: &[u8]) -> Option<V> {
        macro_rules! each {
            ($n:expr, $f:expr) => {
                d.chunks_exact($n).map($f).collect()
            };
        }
        Some(match typ {
            1 => V::Byte(d.to_vec()),
            2 => V::Ascii(d.to_vec()),
            3 => V::Short(each!(2, |b| self.n16(b))),
            4 => V::Long(each!(4, |b| self.n32(b))),
            5 => V::Rat(each!(8, |b| (self.n32(b), self.n32(&b[4..])))),
            6 => V::SByte(each!(1, |b| b[0] as i8)),
            7 => V::Undef(d.to_vec()),
            8 => V::SShort(each!(2, |b| self.n16(b) as i16)),
            9 => V::SLong(each!(4, |b| self.n32(b) as i32)),
            10 => V::SRat(each!(8, |b| (self.n32(b) as i32, self.n32(&b[4..]) as i32))),
            11 => V::Float(each!(4, |b| f32::from_bits(self.n32(b)))),
            12 => V::Double(each!(8, |b| f64::from_bits(self.n64(b)))),
            _ => return None,
        })
    }
    /// The entries of the directory there, and where the next one is.
    fn dir(&self, at: u64) -> Option<(Vec<E>, u32)> {
        let n = self.n16(self.bytes(at, 2)?) as u64;
        let mut out = vec![];
        for i in 0..n {
            let e = self.bytes(at + 2 + 12 * i, 12)?;
            let (tag, typ, count) = (self.n16(e), self.n16(&e[2..]), self.n32(&e[4..]) as usize);
            let unit = match typ {
                1 | 2 | 6 | 7 => 1,
                3 | 8 => 2,
                4 | 9 | 11 => 4,
                5 | 10 | 12 => 8,
                _ => {
                    out.push(E { tag, typ, v: None });
                    continue;
                }
            };
            let len = unit * count;
            let data = if len <= 4 {
                &e[8..8 + len]
            } else {
                self.bytes(self.n32(&e[8..]) as u64, len)?
            };
            out.push(E { tag, typ, v: self.decode(typ, data) });
        }
        Some((out, self.n32(self.bytes(at + 2 + 12 * n, 4)?)))
    }
}

/// Whether the value reported is the one stored.
fn same(got: &Value, v: &V) -> bool {
    fn bits<T: Copy, U: PartialEq>(a: &[T], b: &[T], f: impl Fn(T) -> U) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| f(*a) == f(*b))
    }
    match (got, v) {
        (Value::Bytes(a), V::Byte(b) | V::Undef(b)) => a == b,
        (Value::String(_), V::Ascii(b)) => {
            let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
            got.string().as_deref() == Some(&String::from_utf8_lossy(&b[..n]))
        }
        (Value::Int(a), V::Short(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| *a == *b as u32),
        (Value::Int(a), V::Long(b)) => a == b,
        (Value::SInt(a), V::SShort(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| *a == *b as i32),
        (Value::SInt(a), V::SLong(b)) => a == b,
        (Value::SBytes(a), V::SByte(b)) => a == b,
        (Value::Float(a), V::Float(b)) => bits(a, b, f32::to_bits),
        (Value::Double(a), V::Double(b)) => bits(a, b, f64::to_bits),
        (Value::Rational(a), V::Rat(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a.num, a.denom) == *b)
        }
        (Value::SRational(a), V::SRat(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a.num, a.denom) == *b)
        }
        _ => false,
    }
}

fn find(b: &[u8], what: &[u8]) -> Option<usize> {
    b.windows(what.len()).position(|w| w == what)
}

/// Compare all there is in the directories of the file.
pub fn check(c: &mut Cmp, h: &RawFileHandle, f: &GenFile) -> u64 {
    let base = match f.kind.as_str() {
        "cr3" => {
            let n = h.metadata().map(|i| i.count()).unwrap_or(0);
            c.eq("listing.count", n, 0);
            return 0;
        }
        "crw" => return consistent(c, h),
        "raf" | "jpeg" => match find(&f.bytes, b"Exif\0\0") {
            Some(at) => at + 6,
            None => return 0,
        },
        "mrw" => match find(&f.bytes, b"\0TTW") {
            Some(at) => at + 8,
            None => return 0,
        },
        _ => 0,
    };
    let be = match f.bytes.get(base) {
        Some(b'I') => false,
        Some(b'M') => true,
        _ => return 0,
    };
    let src = Src { b: &f.bytes, gap: f.gap, base: base as u64, be };
    let mut dirs = vec![];
    let mut at = src.bytes(4, 4).map(|b| src.n32(b)).unwrap_or(0);
    while at != 0 && dirs.len() < 64 {
        let Some((e, next)) = src.dir(at as u64) else {
            return 0;
        };
        dirs.push(e);
        at = next;
    }
    let Some(main) = dirs.first() else {
        return 0;
    };
    let names = &tables().exif_names;
    let m = h.main_ifd();
    // The metadata, in the order of the directories. Tags are in any order.
    let got: Vec<_> = h.metadata().map(|i| i.collect()).unwrap_or_default();
    let total: usize = dirs.iter().map(|d| d.len()).sum();
    c.eq("listing.count", got.len(), total);
    let mut rest = &got[..];
    let mut seen = 0;
    for (i, dir) in dirs.iter().enumerate() {
        let ns = match i {
            0 if f.kind == "raf" || f.kind == "jpeg" => "",
            0 => "Exif.Image",
            3 if f.kind == "cr2" => "Raw",
            _ => "other",
        };
        let (these, after) = rest.split_at(rest.len().min(dir.len()));
        rest = after;
        let mut used = vec![false; these.len()];
        for e in dir {
            let name = if f.kind == "rw2" && i == 0 {
                m.map(|m| m.tag_name(e.tag)).unwrap_or("")
            } else {
                names.get(&e.tag).map(|s| s.as_str()).unwrap_or("")
            };
            c.checks += 1;
            seen += 1;
            let found = these.iter().enumerate().position(|(j, (k, v, t))| {
                let (kns, kname) = k.rsplit_once('.').unwrap_or(("", k));
                !used[j]
                    && (ns.is_empty() || ns == kns)
                    && kname == name
                    && *t as u16 == e.typ
                    && e.v.as_ref().map_or(true, |e| same(v, e))
            });
            match found {
                Some(j) => used[j] = true,
                None => c.fail(
                    "listing.entry",
                    format!(
                        "directory {i} entry {:#06x} type {}: no {ns}.{name} with {:?} in the metadata",
                        e.tag, e.typ, e.v
                    )
                    .chars()
                    .take(300)
                    .collect(),
                ),
            }
        }
    }
    if f.kind == "raf" || f.kind == "jpeg" {
        // The main directory isn't that one.
        return seen;
    }
    match m {
        None => c.fail("main", "no main directory".into()),
        Some(m) => {
            use libopenraw::Ifd;
            c.eq("main.num_entries", m.num_entries(), main.len());
            for e in main {
                cmp_entry(c, "main", m, e);
                // By name
                let Some(name) = names.get(&e.tag) else {
                    continue;
                };
                if f.kind == "rw2" || names.values().filter(|n| *n == name).count() != 1 {
                    continue;
                }
                c.checks += 1;
                match (h.metadata_value(&format!("Exif.Image.{name}")), &e.v) {
                    (Some(_), None) => {}
                    (Some(got), Some(v)) if same(&got, v) => {}
                    (got, v) => c.fail("by_name", format!("{name}: {got:?}, expected {v:?}").chars().take(300).collect()),
                }
            }
            if f.kind != "rw2" {
                for key in KEYS.iter().filter_map(|k| k.strip_prefix("Exif.Image.")) {
                    if !main.iter().any(|e| names.get(&e.tag).is_some_and(|n| n == key)) {
                        c.eq("by_name.absent", h.metadata_value(&format!("Exif.Image.{key}")).is_none(), true);
                    }
                }
            }
        }
    }
    let exif = main.iter().find(|e| e.tag == 0x8769).and_then(|e| match &e.v {
        Some(V::Long(v)) if v.len() == 1 => src.dir(v[0] as u64),
        _ => None,
    });
    if let Some((exif, _)) = exif {
        match h.exif_ifd() {
            None => c.fail("exif", "no Exif directory".into()),
            Some(d) => {
                use libopenraw::Ifd;
                c.eq("exif.num_entries", d.num_entries(), exif.len());
                for e in &exif {
                    cmp_entry(c, "exif", d, e);
                    seen += 1;
                }
            }
        }
    }
    seen
}

fn cmp_entry<D: libopenraw::Ifd>(c: &mut Cmp, name: &str, d: &D, e: &E) {
    match &e.v {
        Some(v) => cmp_tag(c, name, d, e.tag, Some(v)),
        None => c.eq(&format!("tag.{name}.{:#06x}", e.tag), d.entry(e.tag).is_some(), true),
    }
}

/// What is listed is what lookups give, where the directories aren't stored as such.
fn consistent(c: &mut Cmp, h: &RawFileHandle) -> u64 {
    use libopenraw::Ifd;
    let got: Vec<_> = h.metadata().map(|i| i.collect()).unwrap_or_default();
    let n = h.main_ifd().map(|d| d.num_entries()).unwrap_or(0) + h.exif_ifd().map(|d| d.num_entries()).unwrap_or(0);
    c.eq("listing.count", got.len(), n);
    let names = &tables().exif_names;
    for (ns, dir) in [("Exif.Image", h.main_ifd()), ("Exif.Photo", h.exif_ifd())] {
        let Some(dir) = dir else {
            continue;
        };
        let tags: Vec<u16> = (0..=0xffff).filter(|t| dir.entry(*t).is_some()).collect();
        for tag in tags {
            let key = format!("{ns}.{}", names.get(&tag).map(|s| s.as_str()).unwrap_or(""));
            let first: Option<String> = dir.entry(tag).and_then(|e| {
                dir.value::<String>(tag)
                    .or_else(|| e.uint_value_array(dir.endian()).and_then(|v| v.first().map(|v| v.to_string())))
            });
            let found = got.iter().any(|(k, v, _)| {
                *k == key
                    && match (v, &first) {
                        (Value::String(_), Some(s)) => v.string().as_ref() == Some(s),
                        (Value::Int(v), Some(s)) => v.first().map(|v| v.to_string()).as_ref() == Some(s),
                        _ => true,
                    }
            });
            c.eq(&format!("listing.{key}"), found, true);
        }
    }
    n as u64
}
