//! Amplifiers: files built to make the library work, or allocate, much more
//! than their size warrants.
use crate::bits;
use crate::hostile::{valid, Input, TYPES};
use crate::rng::Rng;

type E = (u16, u16, u32, u32);

fn p2(b: &mut Vec<u8>, v: u16) {
    b.extend_from_slice(&v.to_le_bytes())
}
fn p4(b: &mut Vec<u8>, v: u32) {
    b.extend_from_slice(&v.to_le_bytes())
}

fn dir(b: &mut Vec<u8>, es: &[E], next: u32) -> u32 {
    let at = b.len() as u32;
    p2(b, es.len() as u16);
    for e in es {
        p2(b, e.0);
        p2(b, e.1);
        p4(b, e.2);
        p4(b, e.3);
    }
    p4(b, next);
    at
}

const DIR: usize = 2 + 4;

fn head() -> Vec<u8> {
    b"II*\0\x08\0\0\0".to_vec()
}

const VERSION: E = (0xc612, 1, 4, 0x0000_0401);

/// A type of value, and the largest count of it that fits in `len`.
fn big(r: &mut Rng, len: usize) -> (u16, u32) {
    let (t, u) = *r.pick(&[(1u16, 1usize), (2, 1), (7, 1), (3, 2), (4, 4), (5, 8), (12, 8)]);
    let n = match r.range(0, 4) {
        0 => u32::MAX / u as u32,
        1 => (len / u) as u32 + 1,
        _ => ((len / u) as u32).saturating_sub(r.r32(1, 200)),
    };
    (t, n)
}

/// Entries all of which refer to the whole file.
fn bigs(r: &mut Rng, len: usize, n: usize) -> Vec<E> {
    (0..n)
        .map(|i| {
            let (t, c) = big(r, len);
            (0x9000 + i as u16, t, c, r.r32(0, 200))
        })
        .collect()
}

fn chain(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = head();
    let n = *r.pick(&[1usize, 2, 30, 1000, 5000]);
    let step = DIR + 12 * (n + 1);
    while b.len() + step < size {
        let mut es = vec![VERSION];
        es.extend(bigs(r, size, n));
        let next = (b.len() + step) as u32;
        dir(&mut b, &es, next);
    }
    b.resize(size, 0x20);
    b
}

fn subs(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = head();
    let arr = 8 + DIR + 24;
    let per = *r.pick(&[1usize, 3, 12]);
    let room = size.saturating_sub(arr);
    let shared = r.bool();
    let k = if shared { room / 4 - 64 } else { room / (4 + DIR + 12 * (per + 1)) };
    dir(&mut b, &[VERSION, (0x14a, 4, k as u32, arr as u32)], 0);
    let first = arr + 4 * k;
    let step = DIR + 12 * (per + 1);
    for i in 0..k {
        let at = if shared { first } else { first + i * step };
        p4(&mut b, at as u32);
    }
    while b.len() + step <= size {
        let mut es = if r.one_in(3) { vec![(0x14a, 4, k as u32, arr as u32)] } else { vec![(0xfe, 4, 1, 1)] };
        es.extend(bigs(r, size, per));
        dir(&mut b, &es, 0);
        if shared && b.len() > first + 4 * step {
            break;
        }
    }
    b.resize(size, 0);
    b
}

/// A chain of directories, each with its array of sub-directories.
fn chainsubs(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = head();
    let (n, m) = (64, 64);
    let per = *r.pick(&[1usize, 4]);
    let step = DIR + 24;
    let arr = 8 + n * step;
    for i in 0..n {
        let next = if i + 1 < n { 8 + (i + 1) * step } else { 0 };
        dir(&mut b, &[VERSION, (0x14a, 4, m as u32, (arr + 4 * m * (i % 2)) as u32)], next as u32);
    }
    let first = arr + 8 * m;
    let sub = DIR + 12 * (per + 1);
    for i in 0..2 * m {
        p4(&mut b, (first + sub * i) as u32);
    }
    for _ in 0..2 * m {
        let mut es = vec![(0xfe, 4, 1, 1)];
        es.extend(bigs(r, size, per));
        dir(&mut b, &es, 0);
    }
    if b.len() < size {
        b.resize(size, 0);
    }
    b
}

fn cycle(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = head();
    let n = r.usize(1, 40);
    let with = r.usize(0, 3);
    let step = DIR + 12 * (5 + with);
    let any = |r: &mut Rng| (8 + step * r.usize(0, n - 1)) as u32;
    for _ in 0..n {
        let mut es = vec![
            VERSION,
            (0x14a, 4, 1, any(r)),
            (0x8769, 4, 1, any(r)),
            (0x927c, 7, 400, any(r)),
            (0x8825, 4, 1, any(r)),
        ];
        es.extend(bigs(r, size, with));
        es.sort();
        let next = any(r);
        dir(&mut b, &es, next);
    }
    b.resize(size, 0);
    b
}

fn strips(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = head();
    let arr = 8 + DIR + 12 * 16;
    let data = 2000.min(size / 4);
    let k = (size - arr - data) / 8;
    let bpc = *r.pick(&[8u32, 10, 12, 14, 16]);
    let w = *r.pick(&[1u32, 100, 4000, 65535, 1 << 20]);
    let comp = *r.pick(&[1u32, 7, 8, 32769, 32773, 34713, 34892, 65535, 6]);
    let tiles = r.bool();
    let (o, c) = if tiles { (0x144, 0x145) } else { (0x111, 0x117) };
    let mut es: Vec<E> = vec![
        (0xfe, 4, 1, 0),
        (0x100, 4, 1, w),
        (0x101, 4, 1, *r.pick(&[1, 100, 4000, 65535, 1 << 20])),
        (0x102, 3, 1, bpc),
        (0x103, 3, 1, comp),
        (0x106, 3, 1, *r.pick(&[32803, 34892, 2])),
        (o, 4, k as u32, arr as u32),
        (0x115, 3, 1, *r.pick(&[1, 3])),
        (c, 4, k as u32, (arr + 4 * k) as u32),
        VERSION,
    ];
    if tiles {
        es.push((0x142, 4, 1, *r.pick(&[1, 16, 256, 65535, 1 << 24])));
        es.push((0x143, 4, 1, *r.pick(&[1, 16, 256, 65535, 1 << 24])));
    }
    es.sort();
    let n = es.len();
    dir(&mut b, &es, 0);
    b.resize(arr, 0);
    let _ = n;
    let at = (arr + 8 * k) as u32;
    let each = match r.range(0, 3) {
        0 => (0, size as u32),
        1 => (at, data as u32),
        2 => (0, size as u32 / 2),
        _ => (8, 40000),
    };
    for _ in 0..k {
        p4(&mut b, each.0);
    }
    for _ in 0..k {
        p4(&mut b, each.1);
    }
    let j = lj(r);
    b.extend(j);
    b.resize(size, if r.bool() { 0 } else { 0x55 });
    b
}

/// A lossless JPEG that announces more than it holds.
fn lj(r: &mut Rng) -> Vec<u8> {
    let (w, h) = (8, 6);
    let img: Vec<u16> = bits::image(r, w, h, 12);
    let p = bits::LjParams {
        w,
        h,
        nc: 1,
        bpc: 12,
        psv: 1,
        pt: 0,
        restart: 0,
        tables: 1,
        extra_markers: false,
        fill_ff: false,
    };
    let mut j = bits::ljpeg(r, &p, &img);
    if let Some(i) = j.windows(2).position(|x| x == [0xff, 0xc3]) {
        for k in 5..9 {
            if r.bool() {
                j[i + k] = *r.pick(&[0xff, 0x7f, 1, 0]);
            }
        }
    }
    j
}

fn ljstrip(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = head();
    let at = 8 + DIR + 12 * 10;
    let es: Vec<E> = vec![
        (0xfe, 4, 1, 0),
        (0x100, 4, 1, 65535),
        (0x101, 4, 1, 65535),
        (0x102, 3, 1, 16),
        (0x103, 3, 1, *r.pick(&[7, 6])),
        (0x106, 3, 1, 32803),
        (0x111, 4, 1, at as u32),
        (0x115, 3, 1, 1),
        (0x117, 4, 1, (size - at) as u32),
        VERSION,
    ];
    dir(&mut b, &es, 0);
    let j = lj(r);
    b.extend(j);
    let fill = *r.pick(&[0u8, 0xff, 0xd0]);
    while b.len() < size {
        // restart markers, or zeroes
        b.push(if fill == 0xd0 && b.len() % 2 == 0 { 0xff } else { fill });
    }
    b
}

fn heap(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = b"II\x1a\0\0\0HEAPCCDR\x02\0\x01\0\0\0\0\0\0\0\0\0".to_vec();
    let recs = ((size - 40) / 10).min(*r.pick(&[1usize, 100, 65535]));
    b.resize(size - 2 - 10 * recs - 4, 0);
    let dirat = b.len() as u32 - 26;
    p2(&mut b, recs as u16);
    for i in 0..recs {
        // heaps that hold the whole of their parent
        p2(&mut b, *r.pick(&[0x2807u16, 0x3002, 0x3003, 0x3004, 0x300a, 0x300b, 0x2005, 0x1031, 0x1835, 0x080a]));
        p4(&mut b, size as u32 - 26);
        p4(&mut b, if i % 3 == 2 { r.r32(0, 100) } else { 0 });
    }
    p4(&mut b, dirat);
    b
}

fn mrw(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = b"\0MRM".to_vec();
    b.extend_from_slice(&(size as u32).to_be_bytes());
    let l = *r.pick(&[0u32, 1, 8, 24]);
    while b.len() + 8 + l as usize <= size {
        b.extend_from_slice(*r.pick(&[&b"\0PRD"[..], b"\0WBG", b"\0TTW", b"\0PAD", b"\0RIF"]));
        b.extend_from_slice(&l.to_be_bytes());
        let n = b.len() + l as usize;
        b.resize(n, 0xff);
    }
    b
}

fn boxes(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom".to_vec();
    let names: [&[u8]; 12] = [
        b"moov", b"trak", b"mdia", b"minf", b"stbl", b"uuid", b"stsd", b"stsz", b"co64", b"free", b"mdat", b"CRAW",
    ];
    match r.range(0, 3) {
        0 => {
            // deep
            let chain: Vec<&[u8]> = vec![b"moov", b"trak", b"mdia", b"minf", b"stbl"];
            let same = r.bool();
            let name = *r.pick(&names);
            let mut i = 0;
            while b.len() + 8 <= size {
                let n = if same { name } else { chain[i % 5] };
                let left = (size - b.len()) as u32;
                b.extend_from_slice(&left.to_be_bytes());
                b.extend_from_slice(n);
                i += 1;
            }
        }
        1 => {
            // many
            b.extend_from_slice(&(size as u32 - 24).to_be_bytes());
            b.extend_from_slice(b"moov");
            let name = *r.pick(&names);
            while b.len() + 8 <= size {
                b.extend_from_slice(&8u32.to_be_bytes());
                b.extend_from_slice(if r.one_in(20) { *r.pick(&names) } else { name });
            }
        }
        2 => {
            // tables that announce a lot
            let outer: [&[u8]; 5] = [b"moov", b"trak", b"mdia", b"minf", b"stbl"];
            for n in outer {
                let left = (size - b.len()) as u32;
                b.extend_from_slice(&left.to_be_bytes());
                b.extend_from_slice(n);
            }
            while b.len() + 40 <= size {
                b.extend_from_slice(&40u32.to_be_bytes());
                b.extend_from_slice(*r.pick(&names));
                for _ in 0..8 {
                    b.extend_from_slice(&r.pick(&[0u32, 1, u32::MAX, 0x7fff_ffff, 0x1000_0000]).to_be_bytes());
                }
            }
        }
        _ => {
            b.extend_from_slice(&(size as u32 - 24).to_be_bytes());
            b.extend_from_slice(b"moov");
            // zero and one sizes
            while b.len() + 16 <= size {
                b.extend_from_slice(&r.pick(&[0u32, 1, 8, 16]).to_be_bytes());
                b.extend_from_slice(*r.pick(&names));
                b.extend_from_slice(&(r.range(0, 40)).to_be_bytes());
            }
        }
    }
    b.resize(size, 0);
    b
}

fn jpeg(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = b"\xff\xd8\xff\xdb\0\x04\0\0".to_vec();
    let m = *r.pick(&[0xe1u8, 0xe0, 0xdb, 0xfe, 0xc4, 0xff, 0xd0]);
    while b.len() + 12 < size {
        b.extend_from_slice(&[0xff, m]);
        if m == 0xff || m == 0xd0 {
            continue;
        }
        if m == 0xe1 && r.one_in(4) {
            b.extend_from_slice(b"\0\x08Exif\0\0");
        } else {
            b.extend_from_slice(&[0, 2]);
        }
    }
    b
}

fn raf(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = b"FUJIFILMCCD-RAW 0201FF383501".to_vec();
    b.resize(0x54, b'x');
    let be = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&v.to_be_bytes());
    be(&mut b, 0x94); // jpeg
    be(&mut b, size as u32);
    be(&mut b, 0x94); // meta
    be(&mut b, size as u32);
    be(&mut b, *r.pick(&[0x94, 8, 200]));
    be(&mut b, size as u32);
    b.resize(0x94, 0);
    match r.range(0, 1) {
        0 => {
            be(&mut b, u32::MAX);
            while b.len() + 8 <= size {
                b.extend_from_slice(&r.pick(&[0x100u16, 0x111, 0x121, 0x130, 0xc000, 0x2ff0, 1]).to_be_bytes());
                let l = *r.pick(&[0u16, 0, 0, 4, 0xffff]);
                b.extend_from_slice(&l.to_be_bytes());
                if l == 4 {
                    be(&mut b, 0xffff_ffff);
                }
            }
        }
        _ => {
            let j = jpeg(r, size - 0x94);
            b.extend(j);
        }
    }
    b.resize(size, 0);
    b
}

/// A good file, padded, whose dimensions and byte counts are made large.
fn inflate(r: &mut Rng, size: usize) -> Input {
    let mut f = valid(r);
    let end = f.bytes.len();
    if end < size {
        match r.range(0, 2) {
            0 => f.bytes.resize(size, 0),
            1 => f.bytes.resize(size, 0x55),
            _ => {
                let x = r.bytes(size - end);
                f.bytes.extend(x);
            }
        }
    }
    let len = f.bytes.len();
    let dims = r.one_in(2);
    let lens = r.one_in(2);
    let v = *r.pick(&[0xffffu32, 0x8000, 0x4000, 0xfffe, 20000, 0x10000, 0x1_0000_0]);
    let mut n = 0;
    for p in 0..end.saturating_sub(12) {
        for be in [false, true] {
            let g2 = |b: &[u8], p: usize| if be { u16::from_be_bytes([b[p], b[p + 1]]) } else { u16::from_le_bytes([b[p], b[p + 1]]) };
            let (tag, ty) = (g2(&f.bytes, p), g2(&f.bytes, p + 2));
            let cnt = if be {
                u32::from_be_bytes(f.bytes[p + 4..p + 8].try_into().unwrap())
            } else {
                u32::from_le_bytes(f.bytes[p + 4..p + 8].try_into().unwrap())
            };
            let is_dim = matches!(tag, 0x100 | 0x101 | 0x116 | 0x142 | 0x143 | 0x2 | 0x3 | 0x4 | 0x7 | 0x6);
            let is_len = matches!(tag, 0x117 | 0x202 | 0x145);
            let v = match (is_dim, is_len) {
                (true, _) if dims && !r.one_in(4) => v,
                (_, true) if lens => len as u32,
                _ => continue,
            };
            if cnt != 1 {
                continue;
            }
            match ty {
                3 => {
                    let w = v.min(0xffff) as u16;
                    let w = if be { w.to_be_bytes() } else { w.to_le_bytes() };
                    f.bytes[p + 8..p + 10].copy_from_slice(&w);
                }
                4 => {
                    let w = if be { v.to_be_bytes() } else { v.to_le_bytes() };
                    f.bytes[p + 8..p + 12].copy_from_slice(&w);
                }
                _ => continue,
            }
            n += 1;
        }
    }
    // the binary headers some formats have
    if r.one_in(3) {
        for _ in 0..r.usize(1, 6) {
            let p = r.usize(0, end.saturating_sub(4));
            let x = *r.pick(&[[0xff, 0xff, 0xff, 0xff], [0x7f, 0xff, 0xff, 0xff], [0, 0xff, 0, 0xff]]);
            f.bytes[p..p + 4].copy_from_slice(&x);
        }
    }
    f.kind.push('+');
    f.desc = format!("{n} fields inflated, {len} bytes, of {}", f.desc);
    f
}

pub fn amplifier(r: &mut Rng) -> Input {
    let size = *r.pick(&[4usize << 10, 64 << 10, 64 << 10, 300 << 10, 1 << 20]);
    let k = r.range(0, 16);
    if k >= 12 {
        return inflate(r, size);
    }
    let (name, bytes): (&str, Vec<u8>) = match k {
        0 => ("chain", chain(r, size)),
        1 => ("subs", subs(r, size)),
        2 => ("cycle", cycle(r, size)),
        3 | 4 => ("strips", strips(r, size)),
        5 => ("ljstrip", ljstrip(r, size)),
        6 => ("heap", heap(r, size)),
        7 => ("mrw", mrw(r, size)),
        8 => ("boxes", boxes(r, size)),
        9 => ("jpeg", jpeg(r, size)),
        10 => ("chainsubs", chainsubs(r, size)),
        _ => ("raf", raf(r, size)),
    };
    let hint = if k <= 5 && r.bool() { Some(*r.pick(&TYPES)) } else { None };
    Input {
        kind: format!("amp-{name}"),
        hint,
        bytes,
        desc: format!("amplifier {name} {size}"),
    }
}
