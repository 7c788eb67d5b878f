//! Bit writers and independent encoders used by several generators.
use crate::rng::Rng;

/// MSB first bit writer.
#[derive(Default)]
pub struct BitW {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
    /// JPEG style: 0 after ff
    pub stuff: bool,
}
impl BitW {
    pub fn new(stuff: bool) -> Self {
        BitW {
            stuff,
            ..Default::default()
        }
    }
    pub fn put(&mut self, v: u32, bits: u32) {
        for i in (0..bits).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1) as u64;
            self.n += 1;
            if self.n == 8 {
                self.byte();
            }
        }
    }
    fn byte(&mut self) {
        let b = self.acc as u8;
        self.out.push(b);
        if self.stuff && b == 0xff {
            self.out.push(0);
        }
        self.acc = 0;
        self.n = 0;
    }
    /// Pad with `fill` bits to a byte.
    pub fn flush(&mut self, fill: u32) {
        while self.n != 0 {
            self.put(fill & 1, 1);
        }
    }
    pub fn bitpos(&self) -> usize {
        self.out.len() * 8 + self.n as usize
    }
}

/// Canonical Huffman table as in a JPEG DHT: counts per length and symbols.
#[derive(Clone, Debug)]
pub struct Huff {
    pub bits: [u8; 17],
    pub vals: Vec<u8>,
    /// symbol -> (code, len)
    pub code: std::collections::BTreeMap<u8, (u32, u32)>,
}

impl Huff {
    pub fn from_counts(bits: [u8; 17], vals: Vec<u8>) -> Huff {
        let mut code = std::collections::BTreeMap::new();
        let mut c = 0_u32;
        let mut i = 0;
        for l in 1..=16_u32 {
            for _ in 0..bits[l as usize] {
                code.entry(vals[i]).or_insert((c, l));
                c += 1;
                i += 1;
            }
            c <<= 1;
        }
        Huff { bits, vals, code }
    }
    /// A random complete-but-one prefix code over the symbols (no code made
    /// of only 1 bits), each length at most 16.
    pub fn random(rng: &mut Rng, syms: &[u8], max_len: u32) -> Huff {
        let mut vals = syms.to_vec();
        rng.shuffle(&mut vals);
        let n = vals.len();
        // choose lengths: start with all leaves from random splitting of the tree
        // leaf "all ones" is reserved -> generate n + 1 leaves and drop the last of the deepest.
        'again: loop {
            let mut leaves: Vec<u32> = vec![1, 1];
            let deep = rng.range(0, 3);
            while leaves.len() < n + 1 {
                let cand: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < max_len).collect();
                if cand.is_empty() {
                    continue 'again;
                }
                let i = if deep == 0 {
                    *cand.iter().max_by_key(|i| leaves[**i]).unwrap()
                } else if deep == 1 {
                    *cand.iter().min_by_key(|i| leaves[**i]).unwrap()
                } else {
                    *rng.pick(&cand)
                };
                leaves[i] += 1;
                let l = leaves[i];
                leaves.push(l);
            }
            leaves.sort();
            leaves.pop();
            let mut bits = [0_u8; 17];
            for l in leaves {
                bits[l as usize] += 1;
            }
            return Huff::from_counts(bits, vals);
        }
    }
    pub fn put(&self, w: &mut BitW, sym: u8) {
        let (c, l) = self.code[&sym];
        w.put(c, l);
    }
    pub fn dht(&self) -> Vec<u8> {
        let mut v = self.bits[1..].to_vec();
        v.extend_from_slice(&self.vals);
        v
    }
}

/// number of bits of a difference (SSSS) and its bits
pub fn ssss(d: i32) -> (u8, u32) {
    if d == 0 {
        return (0, 0);
    }
    let a = d.unsigned_abs();
    let n = 32 - a.leading_zeros();
    let v = if d > 0 {
        d as u32
    } else {
        (d - 1) as u32 & ((1 << n) - 1)
    };
    (n as u8, v)
}

#[derive(Clone, Debug)]
pub struct LjParams {
    pub w: usize,
    pub h: usize,
    pub nc: usize,
    pub bpc: u32,
    pub psv: u8,
    pub pt: u32,
    /// in rows
    pub restart: usize,
    /// one table per component?
    pub tables: usize,
    pub extra_markers: bool,
    pub fill_ff: bool,
}

/// Encode samples (h rows of w*nc) as a lossless JPEG. Values already below 2^bpc;
/// the low `pt` bits are zero.
pub fn ljpeg(rng: &mut Rng, p: &LjParams, samples: &[u16]) -> Vec<u8> {
    assert_eq!(samples.len(), p.w * p.h * p.nc);
    let ntab = p.tables.clamp(1, 4).min(p.nc);
    // differences first, to know which symbols are used
    let s: Vec<i32> = samples.iter().map(|v| (*v >> p.pt) as i32).collect();
    let at = |r: usize, c: usize, k: usize| s[(r * p.w + c) * p.nc + k];
    let mut diffs = vec![0_i32; s.len()];
    for r in 0..p.h {
        let first = r == 0 || (p.restart > 0 && r % p.restart == 0);
        for c in 0..p.w {
            for k in 0..p.nc {
                let pred = if first {
                    if c == 0 {
                        1 << (p.bpc - p.pt - 1)
                    } else {
                        at(r, c - 1, k)
                    }
                } else if c == 0 {
                    at(r - 1, 0, k)
                } else {
                    let ra = at(r, c - 1, k);
                    let rb = at(r - 1, c, k);
                    let rc = at(r - 1, c - 1, k);
                    match p.psv {
                        0 => 0,
                        1 => ra,
                        2 => rb,
                        3 => rc,
                        4 => ra + rb - rc,
                        5 => ra + ((rb - rc) >> 1),
                        6 => rb + ((ra - rc) >> 1),
                        7 => (ra + rb) >> 1,
                        _ => unreachable!(),
                    }
                };
                // modulo 2^16, represented in -32767..=32768
                let mut d = (at(r, c, k) - pred) & 0xffff;
                if d > 32768 {
                    d -= 65536;
                }
                diffs[(r * p.w + c) * p.nc + k] = d;
            }
        }
    }
    let sym = |d: i32| if d == 32768 { (16_u8, 0) } else { ssss(d) };
    let mut huffs = vec![];
    for t in 0..ntab {
        let mut used = [false; 17];
        for (i, d) in diffs.iter().enumerate() {
            if (i % p.nc).min(ntab - 1) == t {
                used[sym(*d).0 as usize] = true;
            }
        }
        let mut syms: Vec<u8> = (0..17_u8).filter(|x| used[*x as usize]).collect();
        for x in 0..17_u8 {
            if !used[x as usize] && rng.one_in(3) {
                syms.push(x);
            }
        }
        if syms.is_empty() {
            syms.push(0);
        }
        huffs.push(Huff::random(rng, &syms, 16));
    }
    let mut o = vec![0xff, 0xd8];
    let m = |o: &mut Vec<u8>, id: u8, body: &[u8]| {
        o.extend_from_slice(&[0xff, id]);
        o.extend_from_slice(&((body.len() + 2) as u16).to_be_bytes());
        o.extend_from_slice(body);
    };
    if p.extra_markers {
        if rng.bool() {
            m(&mut o, 0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
        }
        if rng.bool() {
            let n = rng.usize(0, 40);
            let b = rng.bytes(n);
            m(&mut o, 0xfe, &b);
        }
        if rng.bool() {
            m(&mut o, 0xe3, &[1, 2, 3]);
        }
    }
    let mut dht = vec![];
    let split = rng.bool();
    for (i, h) in huffs.iter().enumerate() {
        let mut b = vec![i as u8];
        b.extend(h.dht());
        if split {
            m(&mut o, 0xc4, &b);
        } else {
            dht.extend(b);
        }
    }
    let dht_first = split || rng.bool();
    if !split && dht_first {
        m(&mut o, 0xc4, &dht);
    }
    let mut sof = vec![p.bpc as u8];
    sof.extend_from_slice(&(p.h as u16).to_be_bytes());
    sof.extend_from_slice(&(p.w as u16).to_be_bytes());
    sof.push(p.nc as u8);
    let id0 = rng.r32(0, 200) as u8;
    for k in 0..p.nc {
        sof.extend_from_slice(&[id0 + k as u8, 0x11, 0]);
    }
    m(&mut o, 0xc3, &sof);
    if !dht_first {
        m(&mut o, 0xc4, &dht);
    }
    if p.restart > 0 {
        m(&mut o, 0xdd, &((p.restart * p.w) as u16).to_be_bytes());
    }
    let mut sos = vec![p.nc as u8];
    for k in 0..p.nc {
        sos.extend_from_slice(&[id0 + k as u8, (k.min(ntab - 1) as u8) << 4]);
    }
    sos.extend_from_slice(&[p.psv, 0, p.pt as u8]);
    m(&mut o, 0xda, &sos);
    let mut w = BitW::new(true);
    let mut rst = 0_u8;
    for r in 0..p.h {
        if p.restart > 0 && r > 0 && r % p.restart == 0 {
            w.flush(1);
            if p.fill_ff && rng.bool() {
                w.out.push(0xff);
            }
            w.out.extend_from_slice(&[0xff, 0xd0 + rst]);
            rst = (rst + 1) & 7;
        }
        for c in 0..p.w {
            for k in 0..p.nc {
                let (n, v) = sym(diffs[(r * p.w + c) * p.nc + k]);
                huffs[k.min(ntab - 1)].put(&mut w, n);
                if n < 16 {
                    w.put(v, n as u32);
                }
            }
        }
    }
    w.flush(1);
    o.extend(w.out);
    o.extend_from_slice(&[0xff, 0xd9]);
    o
}

/// A plausible sensor image: smooth gradients, noise, flats and extremes.
pub fn image(rng: &mut Rng, w: usize, h: usize, bits: u32) -> Vec<u16> {
    let max = ((1_u32 << bits) - 1) as i64;
    let style = rng.range(0, 5);
    let base = rng.i64(0, max);
    let gx = rng.i64(-40, 40);
    let gy = rng.i64(-40, 40);
    let noise = match style {
        0 => 0,
        1 => 3,
        2 => 40.min(max),
        _ => max / 8 + 1,
    };
    let mut v = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let s = match style {
                5 => rng.i64(0, max),
                4 if rng.one_in(6) => *rng.pick(&[0, max, max / 2, 1]),
                _ => {
                    let n = if noise > 0 { rng.i64(-noise, noise) } else { 0 };
                    base + gx * x as i64 + gy * y as i64 + n
                }
            };
            v.push(s.clamp(0, max) as u16);
        }
    }
    v
}

/// Smooth image whose neighbours never differ by more than `d`.
pub fn smooth(rng: &mut Rng, w: usize, h: usize, bits: u32, d: i64) -> Vec<u16> {
    let max = ((1_u32 << bits) - 1) as i64;
    let mut v = vec![0_u16; w * h];
    for y in 0..h {
        for x in 0..w {
            let p = if x > 0 {
                v[y * w + x - 1] as i64
            } else if y > 0 {
                v[(y - 1) * w] as i64
            } else {
                max / 2
            };
            v[y * w + x] = (p + rng.i64(-d, d)).clamp(0, max) as u16;
        }
    }
    v
}

/// Pack 12 bit big endian: AB CD EF -> ABC, DEF
pub fn pack_be(samples: &[u16], bits: u32) -> Vec<u8> {
    let mut w = BitW::new(false);
    for s in samples {
        w.put(*s as u32, bits);
    }
    w.flush(0);
    w.out
}

pub fn bytes16(s: &[u16], be: bool) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len() * 2);
    for v in s {
        crate::tiffb::p16(&mut o, *v, be);
    }
    o
}

/// A small JPEG-looking stream with given dimensions (SOF0). Not decodable as
/// a picture but well formed as far as markers go.
pub fn fake_jpeg(rng: &mut Rng, w: u32, h: u32, app1: Option<&[u8]>) -> Vec<u8> {
    let mut o = vec![0xff, 0xd8];
    let m = |o: &mut Vec<u8>, id: u8, body: &[u8]| {
        o.extend_from_slice(&[0xff, id]);
        o.extend_from_slice(&((body.len() + 2) as u16).to_be_bytes());
        o.extend_from_slice(body);
    };
    if let Some(a) = app1 {
        let mut b = b"Exif\0\0".to_vec();
        b.extend_from_slice(a);
        m(&mut o, 0xe1, &b);
    }
    let mut q = vec![0_u8];
    q.extend((0..64).map(|i| (i + 1) as u8));
    m(&mut o, 0xdb, &q);
    let mut sof = vec![8];
    sof.extend_from_slice(&(h as u16).to_be_bytes());
    sof.extend_from_slice(&(w as u16).to_be_bytes());
    sof.extend_from_slice(&[3, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0]);
    m(&mut o, 0xc0, &sof);
    // standard-ish DHT: one code
    let mut d = vec![0_u8];
    let mut bits = [0_u8; 16];
    bits[1] = 1;
    bits[2] = 5;
    d.extend_from_slice(&bits);
    d.extend_from_slice(&[0, 1, 2, 3, 4, 5]);
    m(&mut o, 0xc4, &d);
    let mut d = vec![0x10_u8];
    d.extend_from_slice(&bits);
    d.extend_from_slice(&[0, 1, 2, 3, 4, 5]);
    m(&mut o, 0xc4, &d);
    m(&mut o, 0xda, &[3, 1, 0, 2, 0, 3, 0, 0, 63, 0]);
    let n = rng.usize(8, 200);
    let mut body = rng.bytes(n);
    body.iter_mut().for_each(|b| {
        if *b == 0xff {
            *b = 0xfe
        }
    });
    o.extend(body);
    o.extend_from_slice(&[0xff, 0xd9]);
    o
}
