//! Canon CR3: ISO media boxes, with a TIFF per metadata block.
use libopenraw::{DataType, Type};

use super::*;

const CANON: [u8; 16] = [
    0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48,
];
const XPACKET: [u8; 16] = [
    0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94, 0x91, 0xe3, 0xaf, 0xac,
];
const PREVIEW: [u8; 16] = [
    0xea, 0xf4, 0x2b, 0x5e, 0x1c, 0x98, 0x4b, 0x88, 0xb9, 0xfb, 0xb7, 0xdc, 0x40, 0x6e, 0x4d, 0x16,
];

/// A piece of a box. Marks are numbered, the offset and the size of what is
/// marked can be written elsewhere.
#[derive(Clone)]
enum P {
    Bytes(Vec<u8>),
    Box(&'static [u8; 4], bool, Vec<P>),
    Mark(usize, Box<P>),
    Off32(usize),
    Off64(usize),
    Size64(usize),
    /// A box with that many zeros, which aren't written
    Gap(u64),
}

fn bytes(v: &[u8]) -> P {
    P::Bytes(v.to_vec())
}
fn u16s(v: &[u16]) -> P {
    P::Bytes(v.iter().flat_map(|v| v.to_be_bytes()).collect())
}
fn u32s(v: &[u32]) -> P {
    P::Bytes(v.iter().flat_map(|v| v.to_be_bytes()).collect())
}

fn write(p: &P, o: &mut Vec<u8>, marks: &mut Vec<(u64, u64)>, gap: &mut Option<(usize, u64)>) {
    match p {
        P::Bytes(b) => o.extend_from_slice(b),
        P::Box(name, large, parts) => {
            let at = o.len();
            o.extend_from_slice(&1_u32.to_be_bytes());
            o.extend_from_slice(*name);
            if *large {
                o.extend_from_slice(&[0; 8]);
            }
            for p in parts {
                write(p, o, marks, gap);
            }
            let len = o.len() - at;
            if *large {
                o[at + 8..at + 16].copy_from_slice(&(len as u64).to_be_bytes());
            } else {
                o[at..at + 4].copy_from_slice(&(len as u32).to_be_bytes());
            }
        }
        P::Mark(n, p) => {
            let at = o.len();
            write(p, o, marks, gap);
            if marks.len() <= *n {
                marks.resize(n + 1, (0, 0));
            }
            marks[*n] = (at as u64 + gap.map(|g| g.1).unwrap_or(0), (o.len() - at) as u64);
        }
        P::Gap(n) => {
            o.extend_from_slice(&1_u32.to_be_bytes());
            o.extend_from_slice(b"free");
            o.extend_from_slice(&(n + 16).to_be_bytes());
            *gap = Some((o.len(), *n));
        }
        P::Off32(n) => {
            let v = marks.get(*n).map(|m| m.0).unwrap_or(0) as u32;
            o.extend_from_slice(&v.to_be_bytes())
        }
        P::Off64(n) => o.extend_from_slice(&marks.get(*n).map(|m| m.0).unwrap_or(0).to_be_bytes()),
        P::Size64(n) => o.extend_from_slice(&marks.get(*n).map(|m| m.1).unwrap_or(0).to_be_bytes()),
    }
}

/// A box nobody knows.
fn unknown(r: &mut Rng) -> P {
    let name = *r.pick(&[b"free", b"skip", b"wide", b"zorg", b"CCTP", b"uuid"]);
    let n = match name {
        b"uuid" => r.usize(16, 60),
        _ => r.usize(0, 60),
    };
    let b = r.bytes(n);
    P::Box(name, r.one_in(4), vec![bytes(&b)])
}

fn mix(r: &mut Rng, mut v: Vec<P>, shuffle: bool) -> Vec<P> {
    if shuffle {
        r.shuffle(&mut v);
    }
    while r.one_in(3) {
        let at = r.usize(0, v.len());
        v.insert(at, unknown(r));
    }
    v
}

fn bx(r: &mut Rng, name: &'static [u8; 4], v: Vec<P>) -> P {
    P::Box(name, r.one_in(5), v)
}

/// A full box
fn fbx(r: &mut Rng, name: &'static [u8; 4], version: u8, mut v: Vec<P>) -> P {
    v.insert(0, bytes(&[version, 0, 0, 0]));
    bx(r, name, v)
}

enum Sample {
    Jpeg,
    Raw,
    Meta,
}

/// A track whose first sample is marked.
fn trak(r: &mut Rng, id: u32, kind: &Sample, w: u16, h: u16, len: u32, mark: usize) -> P {
    let junk = |r: &mut Rng, n| {
        let b = r.bytes(n);
        bytes(&b)
    };
    let v1 = r.one_in(4);
    let tkhd = vec![
        junk(r, if v1 { 16 } else { 8 }),
        u32s(&[id, 0]),
        junk(r, if v1 { 8 } else { 4 }),
        junk(r, 16),
        junk(r, 36),
        u32s(&[(w as u32) << 16, (h as u32) << 16]),
    ];
    let tkhd = fbx(r, b"tkhd", v1 as u8, tkhd);
    let v1 = r.one_in(4);
    let mdhd = vec![
        junk(r, if v1 { 16 } else { 8 }),
        u32s(&[1]),
        junk(r, if v1 { 8 } else { 4 }),
        junk(r, 4),
    ];
    let mdhd = fbx(r, b"mdhd", v1 as u8, mdhd);
    let ty = match kind {
        Sample::Meta => b"meta",
        _ => b"vide",
    };
    let mut hv = vec![u32s(&[0]), bytes(ty), u32s(&[0, 0, 0])];
    if r.bool() {
        hv.push(bytes(b"A handler\0"));
    }
    let hdlr = fbx(r, b"hdlr", 0, hv);
    // sample description
    let entry = match kind {
        Sample::Meta => {
            let j = junk(r, 40);
            bx(r, b"CTMD", vec![bytes(&[0, 0, 0, 0, 0, 0, 0, 1]), j])
        }
        _ => {
            let inner = match kind {
                Sample::Jpeg => {
                    let j = junk(r, 4);
                    bx(r, b"JPEG", vec![j])
                }
                _ => {
                    let n = r.usize(0, 52);
                    let j = junk(r, n);
                    bx(r, b"CMP1", vec![j])
                }
            };
            let j16 = junk(r, 16);
            let j54 = junk(r, 54);
            let mut v = vec![bytes(&[0, 0, 0, 0, 0, 0, 0, 1]), j16, u16s(&[w, h]), j54];
            v.extend(mix(r, vec![inner], true));
            bx(r, b"CRAW", v)
        }
    };
    let mut sv = vec![u32s(&[1]), entry];
    if r.one_in(4) {
        sv.push(junk(r, 7));
    }
    let stsd = fbx(r, b"stsd", 0, sv);
    let stts = fbx(r, b"stts", 0, vec![u32s(&[1, 1, 1])]);
    let stsc = fbx(r, b"stsc", 0, vec![u32s(&[1, 1, 1, 1])]);
    let n = r.r32(1, 3);
    let stsz = if r.bool() {
        fbx(r, b"stsz", 0, vec![u32s(&[len, n])])
    } else {
        let mut v = vec![0, n, len];
        v.extend((1..n).map(|_| r.u32()));
        fbx(r, b"stsz", 0, vec![u32s(&v)])
    };
    let n = r.r32(1, 3);
    let mut cv = vec![u32s(&[n])];
    let co = if r.bool() || far() {
        cv.push(P::Off64(mark));
        cv.push(junk(r, 8 * (n as usize - 1)));
        fbx(r, b"co64", 0, cv)
    } else {
        cv.push(P::Off32(mark));
        cv.push(junk(r, 4 * (n as usize - 1)));
        fbx(r, b"stco", 0, cv)
    };
    let stbl = mix(r, vec![stsd, stts, stsc, stsz, co], true);
    let stbl = bx(r, b"stbl", stbl);
    let j = junk(r, 8);
    let vmhd = fbx(r, b"vmhd", 0, vec![j]);
    let minf = mix(r, vec![vmhd, stbl], true);
    let minf = bx(r, b"minf", minf);
    // the handler tells what is in the media information
    let mut mdia = vec![hdlr, minf];
    let at = r.usize(0, 2);
    mdia.insert(at, mdhd);
    let mdia = mix(r, mdia, false);
    let mdia = bx(r, b"mdia", mdia);
    let trak = mix(r, vec![tkhd, mdia], true);
    bx(r, b"trak", trak)
}

/// The TIFF file of a metadata block, with what `fill` puts in it.
fn block(b: &mut B, fill: impl FnOnce(&mut B, Node)) -> Vec<u8> {
    let mut t = Tiff::new(b.r.one_in(4));
    std::mem::swap(&mut b.t, &mut t);
    let used = std::mem::take(&mut b.used);
    let m = b.ifd();
    b.t.first = Some(m);
    fill(b, m);
    std::mem::swap(&mut b.t, &mut t);
    b.used = used;
    t.build(b.r)
}

pub fn gen(r: &mut Rng) -> GenFile {
    let mut b = B::new(r, Type::Cr3, true);
    let models = &tables().models["canon"];
    let (mid, id) = match b.r.range(0, 5) {
        0 => (Some(b.r.r32(0xf000_0000, 0xf000_ffff)), unknown_id("canon")),
        1 => (None, unknown_id("canon")),
        _ => {
            let v = *b.r.pick(models);
            (Some(v.0), v.1)
        }
    };
    b.ident("canon", id);
    let (rw, rh) = (b.r.r16(2, 9000), b.r.r16(2, 7000));
    let len = b.r.usize(1, 3000);
    let raw = b.r.bytes(len);
    let mut e = RawExp {
        w: rw as u32,
        h: rh as u32,
        bpc: Some(8),
        active: Some(None),
        crop: Some(None),
        aspect: Some(None),
        wb: Some(None),
        wb_xy: Some(None),
        data8: Some(raw.clone()),
        ..Default::default()
    };

    // metadata
    let orient = !b.r.one_in(5);
    let cmt1 = block(&mut b, |b, m| {
        b.make_model(m, Some("Canon"), Some("Canon EOS R of some kind"));
        if orient {
            b.orientation(m);
        } else {
            b.e.orientation = Some(0);
        }
        let c = b.r.usize(0, 6);
        b.noise(Some(0), m, c);
    });
    let cmt2 = (!b.r.one_in(8)).then(|| {
        block(&mut b, |b, m| {
            let c = b.r.usize(1, 8);
            b.noise(Some(1), m, c);
        })
    });
    let mut cmt3 = None;
    if mid.is_some() || b.r.bool() {
        let mut origin = [0, 0];
        cmt3 = Some(block(&mut b, |b, m| {
            if let Some(v) = mid {
                b.tag(2, m, 0x10, V::Long(vec![v]));
            }
            let c = b.r.usize(1, 6);
            b.noise(Some(2), m, c);
            if !b.r.one_in(4) {
                let (v, area) = cr2::sensor_info(b.r);
                origin = [area[0], area[1]];
                e.active = Some(Some(area));
                b.set(m, 0xe0, V::Short(v));
            }
            if b.r.bool() {
                let (code, a) = *b.r.pick(&[
                    (0, Some((3, 2))),
                    (12, Some((3, 2))),
                    (13, Some((3, 2))),
                    (1, Some((1, 1))),
                    (2, Some((4, 3))),
                    (258, Some((4, 3))),
                    (7, Some((16, 9))),
                    (8, Some((4, 5))),
                    (999, None),
                ]);
                let v = [code, b.r.r32(1, 6000), b.r.r32(1, 4000), b.r.r32(0, 900), b.r.r32(0, 900)];
                e.aspect = Some(a);
                e.crop = Some(Some([v[3] + origin[0], v[4] + origin[1], v[1], v[2]]));
                b.set(m, 0x9a, V::Long(v.to_vec()));
            }
        }));
    }
    let cmt4 = b.r.bool().then(|| {
        block(&mut b, |b, m| {
            let c = b.r.usize(1, 4);
            b.noise(None, m, c);
        })
    });

    // marks: 0 preview box, 1 XMP, 2.. samples
    let mut data: Vec<P> = vec![];
    let mut traks = vec![];
    let mut next = 2;
    let tracks: Vec<Sample> = (0..b.r.usize(3, 6))
        .map(|i| match i {
            0 if !b.r.one_in(6) => Sample::Jpeg,
            0 if b.r.one_in(3) => Sample::Meta,
            0 | 2 => Sample::Raw,
            1 => match b.r.range(0, 3) {
                0 => Sample::Jpeg,
                1 => Sample::Meta,
                _ => Sample::Raw,
            },
            _ => match b.r.range(0, 5) {
                0 => Sample::Jpeg,
                1 => Sample::Raw,
                _ => Sample::Meta,
            },
        })
        .collect();
    for (i, k) in tracks.iter().enumerate() {
        let (w, h, d) = match k {
            Sample::Jpeg => {
                let (w, h, j) = b.jpeg();
                b.add_thumb(w, h, DataType::Jpeg, j.clone());
                (w as u16, h as u16, j)
            }
            _ if i == 2 => (rw, rh, raw.clone()),
            _ => {
                let n = b.r.usize(1, 300);
                (b.r.u16(), b.r.u16(), b.r.bytes(n))
            }
        };
        let id = b.r.r32(1, 99);
        traks.push(trak(b.r, id, k, w, h, d.len() as u32, next));
        data.push(P::Mark(next, Box::new(P::Bytes(d))));
        next += 1;
    }
    // Canon's box
    let mut craw = vec![];
    let cncv = b.r.bytes(30);
    craw.push(bx(b.r, b"CNCV", vec![bytes(&cncv)]));
    let with_preview = !b.r.one_in(5);
    let mut ctbo = vec![];
    let n = if with_preview { b.r.r32(2, 5) } else { 1 };
    ctbo.push(u32s(&[n]));
    for i in 0..n {
        ctbo.push(u32s(&[i + 1]));
        match i {
            0 => ctbo.extend([P::Off64(1), P::Size64(1)]),
            1 => ctbo.extend([P::Off64(0), P::Size64(0)]),
            2 => ctbo.extend([P::Off64(2), P::Size64(2)]),
            _ => ctbo.push(u32s(&[0, 0, 0, 0])),
        }
    }
    craw.push(bx(b.r, b"CTBO", ctbo));
    for (name, d) in [(b"CMT1", Some(cmt1)), (b"CMT2", cmt2), (b"CMT3", cmt3), (b"CMT4", cmt4)] {
        if let Some(d) = d {
            craw.push(bx(b.r, name, vec![P::Bytes(d)]));
        }
    }
    if !b.r.one_in(4) {
        let (w, h, j) = b.jpeg();
        b.add_thumb(w, h, DataType::Jpeg, j.clone());
        let pad = b.r.usize(0, 7);
        let v = vec![
            u16s(&[w as u16, h as u16]),
            u32s(&[j.len() as u32]),
            u16s(&[1, 0]),
            P::Bytes(j),
            P::Bytes(vec![0; pad]),
        ];
        craw.push(fbx(b.r, b"THMB", 0, v));
    }
    let mut v = vec![bytes(&CANON)];
    v.extend(mix(b.r, craw, true));
    let craw = bx(b.r, b"uuid", v);
    let v1 = b.r.one_in(4);
    let mv = b.r.bytes(if v1 { 16 } else { 8 });
    let mv2 = b.r.bytes(if v1 { 88 } else { 84 });
    let mvhd = fbx(b.r, b"mvhd", v1 as u8, vec![bytes(&mv), u32s(&[1]), bytes(&mv2)]);
    // tracks keep their order
    let mut moov = traks;
    for p in [craw, mvhd] {
        let at = b.r.usize(0, moov.len());
        moov.insert(at, p);
    }
    let moov = mix(b.r, moov, false);
    let moov = bx(b.r, b"moov", moov);

    let mut file = vec![moov];
    let n = b.r.usize(0, 200);
    let xmp = b.r.bytes(n);
    let large = b.r.one_in(5);
    file.push(P::Mark(1, Box::new(P::Box(b"uuid", large, vec![bytes(&XPACKET), P::Bytes(xmp)]))));
    if with_preview {
        let (w, h, j) = b.jpeg();
        b.add_thumb(w, h, DataType::Jpeg, j.clone());
        let prvw = bx(
            b.r,
            b"PRVW",
            vec![
                u32s(&[0]),
                u16s(&[1, w as u16, h as u16, 1]),
                u32s(&[j.len() as u32]),
                P::Bytes(j),
            ],
        );
        let p = bx(b.r, b"uuid", vec![bytes(&PREVIEW), u32s(&[0, 1]), prvw]);
        file.push(P::Mark(0, Box::new(p)));
    }
    b.r.shuffle(&mut data);
    if b.r.bool() {
        let at = b.r.usize(0, data.len());
        let rest = data.split_off(at);
        file.push(bx(b.r, b"mdat", rest));
    }
    file.push(bx(b.r, b"mdat", data));
    let mut file = mix(b.r, file, true);
    let minor = b.r.u32();
    let mut v = vec![bytes(b"crx "), u32s(&[minor]), bytes(b"crx isom")];
    if b.r.bool() {
        v.pop();
    }
    file.insert(0, P::Box(b"ftyp", false, v));
    if far() {
        let at = b.r.usize(1, file.len());
        let n = b.r.range(0xfff0_0000, 0x1_2000_0000);
        file.insert(at, P::Gap(n));
        b.note(format!("far={n:x}"));
    }
    let mut marks = vec![];
    let mut out = vec![];
    let mut gap = None;
    for pass in 0..2 {
        out.clear();
        gap = None;
        let mut m = marks.clone();
        for p in &file {
            write(p, &mut out, &mut m, &mut gap);
        }
        if pass == 0 {
            marks = m;
        }
    }
    b.note(format!("raw={rw}x{rh} {len} bytes, {} tracks, id={id:x}", tracks.len()));
    b.e.raw = Some(e);
    b.e.thumbs = Some(std::mem::take(&mut b.thumbs));
    GenFile {
        kind: "cr3".into(),
        desc: b.desc.join(" "),
        ext: "cr3",
        hint: None,
        bytes: out,
        gap,
        exp: b.e.clone(),
    }
}
