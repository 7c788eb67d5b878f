//! Canon CRW: CIFF heaps, 10 bits compressed data and the low bits.
use libopenraw::{DataType, Type};

use super::*;
use crate::bits::{bytes16, ssss, BitW, Huff};
use crate::exp::SkipExp;

#[rustfmt::skip]
const FIRST: [[u8; 29]; 3] = [
[ 0,1,4,2,3,1,2,0,0,0,0,0,0,0,0,0,
0x04,0x03,0x05,0x06,0x02,0x07,0x01,0x08,0x09,0x00,0x0a,0x0b,0xff  ],
[ 0,2,2,3,1,1,1,1,2,0,0,0,0,0,0,0,
0x03,0x02,0x04,0x01,0x05,0x00,0x06,0x07,0x09,0x08,0x0a,0x0b,0xff  ],
[ 0,0,6,3,1,1,2,0,0,0,0,0,0,0,0,0,
0x06,0x05,0x07,0x04,0x08,0x03,0x09,0x02,0x00,0x0a,0x01,0x0b,0xff  ],
];
const SECOND: [[u8; 180]; 3] = [
[ 0,2,2,2,1,4,2,1,2,5,1,1,0,0,0,139,
0x03,0x04,0x02,0x05,0x01,0x06,0x07,0x08,
0x12,0x13,0x11,0x14,0x09,0x15,0x22,0x00,0x21,0x16,0x0a,0xf0,
0x23,0x17,0x24,0x31,0x32,0x18,0x19,0x33,0x25,0x41,0x34,0x42,
0x35,0x51,0x36,0x37,0x38,0x29,0x79,0x26,0x1a,0x39,0x56,0x57,
0x28,0x27,0x52,0x55,0x58,0x43,0x76,0x59,0x77,0x54,0x61,0xf9,
0x71,0x78,0x75,0x96,0x97,0x49,0xb7,0x53,0xd7,0x74,0xb6,0x98,
0x47,0x48,0x95,0x69,0x99,0x91,0xfa,0xb8,0x68,0xb5,0xb9,0xd6,
0xf7,0xd8,0x67,0x46,0x45,0x94,0x89,0xf8,0x81,0xd5,0xf6,0xb4,
0x88,0xb1,0x2a,0x44,0x72,0xd9,0x87,0x66,0xd4,0xf5,0x3a,0xa7,
0x73,0xa9,0xa8,0x86,0x62,0xc7,0x65,0xc8,0xc9,0xa1,0xf4,0xd1,
0xe9,0x5a,0x92,0x85,0xa6,0xe7,0x93,0xe8,0xc1,0xc6,0x7a,0x64,
0xe1,0x4a,0x6a,0xe6,0xb3,0xf1,0xd3,0xa5,0x8a,0xb2,0x9a,0xba,
0x84,0xa4,0x63,0xe5,0xc5,0xf3,0xd2,0xc4,0x82,0xaa,0xda,0xe4,
0xf2,0xca,0x83,0xa3,0xa2,0xc3,0xea,0xc2,0xe2,0xe3,0xff,0xff  ],
[ 0,2,2,1,4,1,4,1,3,3,1,0,0,0,0,140,
0x02,0x03,0x01,0x04,0x05,0x12,0x11,0x06,
0x13,0x07,0x08,0x14,0x22,0x09,0x21,0x00,0x23,0x15,0x31,0x32,
0x0a,0x16,0xf0,0x24,0x33,0x41,0x42,0x19,0x17,0x25,0x18,0x51,
0x34,0x43,0x52,0x29,0x35,0x61,0x39,0x71,0x62,0x36,0x53,0x26,
0x38,0x1a,0x37,0x81,0x27,0x91,0x79,0x55,0x45,0x28,0x72,0x59,
0xa1,0xb1,0x44,0x69,0x54,0x58,0xd1,0xfa,0x57,0xe1,0xf1,0xb9,
0x49,0x47,0x63,0x6a,0xf9,0x56,0x46,0xa8,0x2a,0x4a,0x78,0x99,
0x3a,0x75,0x74,0x86,0x65,0xc1,0x76,0xb6,0x96,0xd6,0x89,0x85,
0xc9,0xf5,0x95,0xb4,0xc7,0xf7,0x8a,0x97,0xb8,0x73,0xb7,0xd8,
0xd9,0x87,0xa7,0x7a,0x48,0x82,0x84,0xea,0xf4,0xa6,0xc5,0x5a,
0x94,0xa4,0xc6,0x92,0xc3,0x68,0xb5,0xc8,0xe4,0xe5,0xe6,0xe9,
0xa2,0xa3,0xe3,0xc2,0x66,0x67,0x93,0xaa,0xd4,0xd5,0xe7,0xf8,
0x88,0x9a,0xd7,0x77,0xc4,0x64,0xe2,0x98,0xa5,0xca,0xda,0xe8,
0xf3,0xf6,0xa9,0xb2,0xb3,0xf2,0xd2,0x83,0xba,0xd3,0xff,0xff  ],
[ 0,0,6,2,1,3,3,2,5,1,2,2,8,10,0,117,
0x04,0x05,0x03,0x06,0x02,0x07,0x01,0x08,
0x09,0x12,0x13,0x14,0x11,0x15,0x0a,0x16,0x17,0xf0,0x00,0x22,
0x21,0x18,0x23,0x19,0x24,0x32,0x31,0x25,0x33,0x38,0x37,0x34,
0x35,0x36,0x39,0x79,0x57,0x58,0x59,0x28,0x56,0x78,0x27,0x41,
0x29,0x77,0x26,0x42,0x76,0x99,0x1a,0x55,0x98,0x97,0xf9,0x48,
0x54,0x96,0x89,0x47,0xb7,0x49,0xfa,0x75,0x68,0xb6,0x67,0x69,
0xb9,0xb8,0xd8,0x52,0xd7,0x88,0xb5,0x74,0x51,0x46,0xd9,0xf8,
0x3a,0xd6,0x87,0x45,0x7a,0x95,0xd5,0xf6,0x86,0xb4,0xa9,0x94,
0x53,0x2a,0xa8,0x43,0xf5,0xf7,0xd4,0x66,0xa7,0x5a,0x44,0x8a,
0xc9,0xe8,0xc8,0xe7,0x9a,0x6a,0x73,0x4a,0x61,0xc7,0xf4,0xc6,
0x65,0xe9,0x72,0xe6,0x71,0x91,0x93,0xa6,0xda,0x92,0x85,0x62,
0xf3,0xc5,0xb2,0xa4,0x84,0xba,0x64,0xa5,0xb3,0xd2,0x81,0xe5,
0xd3,0xaa,0xc4,0xca,0xf2,0xb1,0xe4,0xd1,0x83,0x63,0xea,0xc3,
0xe2,0x82,0xf1,0xa3,0xc2,0xa1,0xc1,0xe3,0xa2,0xe1,0xff,0xff  ]
];


/// Models which hide their white balance.
const MANGLED: [u32; 4] = [0x1_0012, 0x1_0017, 0x1_006b, 0x1_006c];

fn huff(t: &[u8]) -> Huff {
    let mut bits = [0; 17];
    bits[1..].copy_from_slice(&t[..16]);
    let n: usize = t[..16].iter().map(|v| *v as usize).sum();
    Huff::from_counts(bits, t[16..16 + n].to_vec())
}

/// Compress 10 bits samples.
pub fn compress(r: &mut Rng, img: &[u16], w: usize, table: usize) -> Vec<u8> {
    let (first, second) = (huff(&FIRST[table]), huff(&SECOND[table]));
    let mut bw = BitW::new(true);
    let mut base = [512_i32; 2];
    let mut carry = 0;
    let mut pos = 0;
    while pos < img.len() {
        let mut d = [0_i32; 64];
        for (i, d) in d.iter_mut().enumerate() {
            if pos + i >= img.len() {
                break;
            }
            if (pos + i) % w == 0 {
                base = [512; 2];
            }
            let v = img[pos + i] as i32;
            *d = v - base[i & 1];
            base[i & 1] = v;
        }
        pos += 64;
        let d0 = d[0];
        d[0] -= carry;
        carry = d0;
        // the first
        let (n, v) = ssss(d[0]);
        if n == 0 && r.bool() && first.code.contains_key(&0xff) {
            first.put(&mut bw, 0xff);
        } else {
            first.put(&mut bw, n);
            bw.put(v, n as u32);
        }
        let mut i = 1;
        while i < 64 {
            let run = d[i..].iter().take_while(|v| **v == 0).count();
            if i + run == 64 {
                second.put(&mut bw, 0);
                break;
            }
            if run >= 16 {
                second.put(&mut bw, 0xf0);
                i += 16;
                continue;
            }
            let (n, v) = ssss(d[i + run]);
            second.put(&mut bw, (run as u8) << 4 | n);
            bw.put(v, n as u32);
            i += run + 1;
        }
    }
    bw.flush(1);
    bw.out
}

enum Rec {
    Heap(u16, Vec<u8>),
    Inline(u16, [u8; 8]),
}

struct Ciff {
    be: bool,
}

impl Ciff {
    fn u16(&self, v: u16) -> [u8; 2] {
        if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        }
    }
    fn u32(&self, v: u32) -> [u8; 4] {
        if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        }
    }
    fn heap(&self, r: &mut Rng, mut recs: Vec<Rec>) -> Vec<u8> {
        r.shuffle(&mut recs);
        let mut o: Vec<u8> = vec![];
        let mut order: Vec<usize> = (0..recs.len()).collect();
        r.shuffle(&mut order);
        let mut pos = vec![0; recs.len()];
        if r.bool() {
            let n = r.usize(0, 5);
            o.extend(r.bytes(n));
        }
        for k in order {
            if let Rec::Heap(_, d) = &recs[k] {
                if r.bool() && o.len() % 2 == 1 {
                    o.push(r.u8());
                }
                pos[k] = o.len();
                o.extend_from_slice(d);
            }
        }
        let start = o.len() as u32;
        o.extend_from_slice(&self.u16(recs.len() as u16));
        for (k, rec) in recs.iter().enumerate() {
            match rec {
                Rec::Heap(t, d) => {
                    o.extend_from_slice(&self.u16(*t));
                    o.extend_from_slice(&self.u32(d.len() as u32));
                    o.extend_from_slice(&self.u32(pos[k] as u32));
                }
                Rec::Inline(t, d) => {
                    o.extend_from_slice(&self.u16(t | 0x4000));
                    o.extend_from_slice(d);
                }
            }
        }
        if r.one_in(4) {
            let n = r.usize(0, 9);
            o.extend(r.bytes(n));
        }
        o.extend_from_slice(&self.u32(start));
        o
    }
    fn words(&self, v: &[u16]) -> Vec<u8> {
        bytes16(v, self.be)
    }
    fn longs(&self, v: &[u32]) -> Vec<u8> {
        v.iter().flat_map(|v| self.u32(*v)).collect()
    }
    /// In the record or in the heap.
    fn small(&self, r: &mut Rng, tag: u16, d: &[u8]) -> Rec {
        if d.len() <= 8 && r.bool() {
            let mut v = [0; 8];
            v[..d.len()].copy_from_slice(d);
            Rec::Inline(tag, v)
        } else {
            Rec::Heap(tag, d.to_vec())
        }
    }
}

pub fn gen(r: &mut Rng) -> GenFile {
    let be = r.one_in(4);
    let c = Ciff { be };
    let mut b = B::new(r, Type::Crw, be);
    // identity
    let by_model = b.r.one_in(3);
    let (model, mid, id) = if by_model {
        let (m, id) = if b.r.one_in(3) {
            (unknown_model(b.r), unknown_id("canon"))
        } else {
            camera(b.r, "canon")
        };
        (m, b.r.one_in(3).then_some(0xfff0_0000u32), id)
    } else {
        let m = *b.r.pick(&tables().models["canon"]);
        (unknown_model(b.r), Some(m.0), m.1)
    };
    b.ident("canon", id);
    let make = "Canon";
    // image
    let low = b.r.one_in(3);
    let table = b.r.usize(0, 2);
    let (w, h) = if low {
        let w = 8 * dim(b.r, 8, 20);
        (w, 8 * b.r.usize(3600 / w / 8 + 1, 3600 / w / 8 + 5))
    } else {
        (2 * dim(b.r, 2, 40), dim(b.r, 1, 40))
    };
    let ten = match b.r.range(0, 3) {
        0 => image(b.r, w, h, 10),
        1 => {
            let d = b.r.i64(1, 3);
            smooth(b.r, w, h, 10, d)
        }
        2 => {
            // runs of zero differences
            let k = b.r.u64() % 60 + 2;
            let mut v = vec![512u16; w * h];
            for x in v.iter_mut() {
                if b.r.one_in(k) {
                    *x = b.r.r16(0, 1023);
                }
            }
            v
        }
        _ => {
            let mut v = image(b.r, w, h, 10);
            for row in v.chunks_mut(w) {
                for x in 2..row.len() {
                    if !b.r.one_in(12) {
                        row[x] = row[x - 2];
                    }
                }
            }
            v
        }
    };
    let mut bytes = vec![];
    let mut img = ten.clone();
    if low {
        let mut lows: Vec<u8> = (0..w * h / 4).map(|_| b.r.u8()).collect();
        // tells that there are low bits
        let p = b.r.usize(514, lows.len() - 2);
        lows[p] = 0xff;
        lows[p + 1] |= 1;
        for (i, v) in img.iter_mut().enumerate() {
            *v = *v << 2 | (lows[i / 4] >> (i % 4 * 2) & 3) as u16;
        }
        bytes = lows;
    }
    bytes.extend((0..514).map(|_| b.r.u8() & 0x7f));
    bytes.extend(compress(b.r, &ten, w, table));
    bytes.extend_from_slice(&[0; 8]);
    if !low && bytes.len() < 0x4000 {
        bytes.resize(0x4000, 0);
    }
    let bpc: u16 = if low { 12 } else { 10 };
    let mut e = RawExp {
        w: w as u32,
        h: h as u32,
        bpc: Some(bpc),
        data: img,
        crop: Some(None),
        aspect: Some(None),
        wb: Some(None),
        wb_xy: Some(None),
        photom: Some(32803),
        lin: Some(None),
        mosaic: Some((2, 2, "RGGB".into())),
        ..Default::default()
    };
    let (black, white) = builtin("canon", id).map(|m| (m.0, m.1)).unwrap_or((0, 0));
    e.blacks = Some([black; 4]);
    e.whites = Some([if white == 0 { (1 << bpc) - 1 } else { white }; 4]);

    // Exif
    let mut info = vec![];
    let mut exif: Vec<(u16, V)> = vec![];
    if let Some(m) = mid {
        info.push(c.small(b.r, 0x1834, &c.longs(&[m])));
    }
    info.push(Rec::Heap(0x1835, c.longs(&[table as u32, 0, 0, 0])));
    let (mut s, mut area) = cr2::sensor_info(b.r);
    (s[1], s[2]) = (w as u16, h as u16);
    if s.len() > 17 {
        s.truncate(17);
    }
    area = [s[5] as u32, s[6] as u32, area[2], area[3]];
    e.active = Some(Some(area));
    info.push(Rec::Heap(0x1031, c.words(&s)));
    let mut units = None;
    if !b.r.one_in(4) {
        let n = b.r.usize(26, 50);
        let mut cs: Vec<u16> = (0..n).map(|_| b.r.r16(0, 60)).collect();
        cs[0] = (n * 2) as u16;
        cs[1] = b.r.r16(0, 2);
        cs[4] = *b.r.pick(&[0, 1, 2, 3, 5]);
        cs[17] = b.r.r16(0, 5);
        cs[20] = b.r.r16(0, 5);
        units = Some(cs[25] as u32);
        if cs[1] == 1 {
            exif.push((0xa40c, V::Short(vec![1])));
        }
        exif.push((0x9209, V::Short(vec![[0, 0x19, 1, 0x41, 0, 0x41][cs[4] as usize]])));
        exif.push((0x9207, V::Short(vec![[0, 3, 1, 5, 6, 2][cs[17] as usize]])));
        exif.push((0x8822, V::Short(vec![[0, 2, 4, 3, 1, 5][cs[20] as usize]])));
        info.push(Rec::Heap(0x102d, c.words(&cs)));
    }
    let mut props = vec![];
    let mut camera_heap = vec![];
    let mut placed = vec![];
    if b.r.bool() {
        let v = [b.r.r16(0, 2), b.r.r16(1, 400), b.r.u16(), b.r.u16()];
        // Without the units it says nothing.
        if let Some(units) = units {
            exif.push((0x920a, V::Rat(vec![(v[1] as u32, units)])));
        }
        let rec = c.small(b.r, 0x1029, &c.words(&v));
        placed.push(rec);
    }
    if b.r.bool() {
        let v = b.r.u32();
        exif.push((0xa431, V::Ascii(format!("{v:X}").into_bytes())));
        let rec = c.small(b.r, 0x180b, &c.longs(&[v]));
        placed.push(rec);
    }
    if b.r.bool() {
        let s = b.r.ascii(1, 31);
        exif.push((0xa430, V::Ascii(s.clone().into_bytes())));
        let mut s = s.into_bytes();
        if s.len() < 8 {
            s.resize(8, 0);
        } else {
            s.resize(32, 0);
        }
        let rec = c.small(b.r, 0x0810, &s);
        placed.push(rec);
    }
    if b.r.bool() {
        // days of the month, to get a date without a library
        let (y, m, d) = (b.r.i64(1998, 2037), b.r.i64(1, 12), b.r.i64(1, 28));
        let (hh, mm, ss) = (b.r.i64(0, 23), b.r.i64(0, 59), b.r.i64(0, 59));
        // days from civil
        let yy = if m <= 2 { y - 1 } else { y };
        let era = yy / 400;
        let yoe = yy - era * 400;
        let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
        let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        let t = ((era * 146097 + doe - 719468) * 86400 + hh * 3600 + mm * 60 + ss) as u32;
        let s = format!("{y:04}:{m:02}:{d:02} {hh:02}:{mm:02}:{ss:02}").into_bytes();
        exif.push((0x9003, V::Ascii(s.clone())));
        exif.push((0x9004, V::Ascii(s)));
        let zone = [t, b.r.u32() % 2, 0];
        placed.push(Rec::Heap(0x180e, c.longs(&zone)));
    }
    // white balance
    let nan = f64::NAN;
    match b.r.range(0, 5) {
        0 => {
            let mut v: Vec<u16> = (0..80).map(|_| b.r.r16(1, 4000)).collect();
            v[0] = b.r.r16(513, 9000);
            let g = v[60] as f64;
            e.wb = Some(Some([g / v[62] as f64, g / v[63] as f64, 1.0, g / v[61] as f64]));
            info.push(Rec::Heap(0x102c, c.words(&v)));
            b.note("wb GMCY");
        }
        1 => {
            let mut v: Vec<u16> = (0..80).map(|_| b.r.r16(1, 60000)).collect();
            v[0] = loop {
                let k = b.r.r16(1, 512);
                if k != 276 {
                    break k;
                }
            };
            let g = (v[50] as f64 + v[53] as f64) / 2.0;
            e.wb = Some(Some([g / v[51] as f64, 1.0, g / v[52] as f64, nan]));
            info.push(Rec::Heap(0x102c, c.words(&v)));
            b.note("wb G2");
        }
        2 => {
            let v: Vec<u16> = (0..384).map(|_| b.r.r16(1, 4000)).collect();
            let g = (1024.0 / v[37] as f64 + 1024.0 / v[38] as f64) / 2.0;
            e.wb = Some(Some([g / (1024.0 / v[36] as f64), 1.0, g / (1024.0 / v[39] as f64), nan]));
            info.push(Rec::Heap(0x0032, c.words(&v)));
            b.note("wb D30");
        }
        3 => {
            let n = b.r.usize(385, 600);
            let v: Vec<u16> = (0..n).map(|_| b.r.r16(1, 4000)).collect();
            // G6, S60, S70, Pro1
            let special = MANGLED.contains(&id);
            let (o, k) = if special { (48, [0x410, 0x45f3]) } else { (60, [0, 0]) };
            let g = (v[o] ^ k[0]) as f64;
            e.wb = Some(Some([g / (v[o + 1] ^ k[1]) as f64, 1.0, g / (v[o + 2] ^ k[0]) as f64, nan]));
            info.push(Rec::Heap(0x0032, c.words(&v)));
            b.note(format!("wb PowerShot {special}"));
        }
        4 => {
            let n = b.r.usize(41, 100);
            let v: Vec<u16> = (0..n).map(|_| b.r.r16(1, 4000)).collect();
            let idx = b.r.usize(0, 9);
            let k = b"0134567028"[idx] - b'0';
            let o = 1 + 4 * k as usize;
            let g = v[o + 1] as f64;
            e.wb = Some(Some([g / v[o] as f64, 1.0, g / v[o + 3] as f64, nan]));
            let mut shot: Vec<u16> = (0..b.r.usize(16, 34)).map(|_| b.r.u16()).collect();
            shot[7] = idx as u16;
            info.push(Rec::Heap(0x102a, c.words(&shot)));
            info.push(Rec::Heap(0x10a9, c.words(&v)));
            b.note(format!("wb table {idx}"));
        }
        _ => {}
    }
    for rec in placed {
        match b.r.range(0, 2) {
            0 => props.push(rec),
            1 => camera_heap.push(rec),
            _ => info.push(rec),
        }
    }
    // image properties
    let mut mm = make.as_bytes().to_vec();
    mm.push(0);
    mm.extend_from_slice(model.as_bytes());
    mm.push(0);
    let pad = b.r.usize(0, 8);
    mm.extend(vec![0; pad]);
    camera_heap.push(Rec::Heap(0x080a, mm));
    let (iw, ih) = (b.r.r32(16, 5000), b.r.r32(16, 4000));
    let (rot, orient) = *b.r.pick(&[(0u32, 1u16), (90, 6), (180, 3), (270, 8), (45, 0)]);
    let spec = [iw, ih, f32::to_bits(1.0), rot, bpc as u32, 24, 1];
    props.push(Rec::Heap(0x1810, c.longs(&spec)));
    for (t, n) in [(0x1818u16, 12), (0x1813, 8), (0x0805, 20)] {
        if b.r.bool() {
            let d = b.r.bytes(n);
            props.push(Rec::Heap(t, d));
        }
    }
    if b.r.bool() {
        let d = b.r.bytes(8);
        props.push(Rec::Inline(0x0006, d.try_into().unwrap()));
    }
    props.push(Rec::Heap(0x2807, c.heap(b.r, camera_heap)));
    props.push(Rec::Heap(0x300b, c.heap(b.r, info)));
    let mut top = vec![Rec::Heap(0x300a, c.heap(b.r, props)), Rec::Heap(0x2005, bytes.clone())];
    if !b.r.one_in(5) {
        let (w, h, j) = b.jpeg();
        b.add_thumb(w, h, DataType::Jpeg, j.clone());
        top.push(Rec::Heap(0x2007, j));
    }
    let mut out: Vec<u8> = if be { b"MM".to_vec() } else { b"II".to_vec() };
    let hl = if b.r.one_in(4) && be { b.r.r32(26, 40) } else { 26 };
    out.extend_from_slice(&c.u32(hl));
    out.extend_from_slice(b"HEAPCCDR");
    out.extend_from_slice(&c.u32(0x0001_0002));
    out.resize(hl as usize, 0);
    out.extend(c.heap(b.r, top));

    // what to expect
    b.note(format!("{w}x{h} table={table} low={low} be={be} id={id:x} by_model={by_model}"));
    b.e.orientation = Some(orient as u32);
    b.e.meta.push(("Exif.Image.Make".into(), Some(make.into())));
    b.e.meta.push(("Exif.Image.Model".into(), Some(model.clone())));
    for (t, v) in [
        (0x100, V::Long(vec![iw])),
        (0x101, V::Long(vec![ih])),
        (0x102, V::Short(vec![bpc])),
        (0x112, V::Short(vec![orient])),
        (0x10f, V::Ascii(make.into())),
        (0x110, V::Ascii(model.into_bytes())),
    ] {
        b.e.tags.push((0, t, Some(v)));
    }
    for t in [0xa40c, 0x9209, 0x9207, 0x8822, 0x920a, 0xa431, 0xa430, 0x9003, 0x9004] {
        let v = exif.iter().find(|v| v.0 == t).map(|v| v.1.clone());
        b.e.tags.push((1, t, v));
    }
    b.e.skip = Some(SkipExp::Data8(bytes));
    e.output = None;
    b.e.raw = Some(e);
    b.e.thumbs = Some(std::mem::take(&mut b.thumbs));
    GenFile {
        kind: "crw".into(),
        desc: b.desc.join(" "),
        ext: "crw",
        hint: if be { Some(Type::Crw) } else { None },
        bytes: out,
        gap: None,
        exp: b.e.clone(),
    }
}
