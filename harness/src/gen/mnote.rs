//! Maker notes in all their forms, as Exiv2 and ExifTool document them.
use super::B;
use crate::tiffb::{Node, V};

/// Header, where offsets are from (None: the file, or as many bytes past the start of the note),
/// the name. The directory is after the header.
type Form = (&'static [u8], Option<i64>, &'static str);

const FORMS: &[Form] = &[
    (b"OLYMPUS\0XX\x03\0", Some(0), "Olympus2"),
    (b"OM SYSTEM\0\0\0XX\x04\0", Some(0), "Olympus2"),
    (b"OLYMP\0\x01\0", None, "Olympus"),
    (b"OLYMP\0\x02\0", None, "Olympus"),
    (b"EPSON\0\x01\0", None, "Epson"),
    (b"AOC\0XX", None, "Pentax"),
    (b"PENTAX \0XX", Some(0), "Pentax"),
    (b"Panasonic\0\0\0", None, "Panasonic"),
    (b"Ricoh\0\0\0", None, "Ricoh"),
    (b"LEICA CAMERA AG\0\0\0", None, "Leica5"),
    (b"LEICA\0\0\0", Some(0), "Leica2"),
    (b"LEICA\0\x08\0", None, "Leica5"),
    (b"LEICA\0\x09\0", None, "Leica5"),
    (b"LEICA\0\x0a\0", None, "Leica5"),
    (b"LEICA\0\x01\0", Some(0), "Leica5"),
    (b"LEICA\0\x04\0", Some(0), "Leica5"),
    (b"LEICA\0\x05\0", Some(0), "Leica5"),
    (b"LEICA\0\x06\0", Some(0), "Leica5"),
    (b"LEICA\0\x07\0", Some(0), "Leica5"),
    (b"LEICA\0\x10\0", Some(0), "Leica5"),
    (b"LEICA\0\x1a\0", Some(0), "Leica5"),
    (b"LEICA\0\x02\xff", None, "Leica6"),
    (b"LEICA0\x03\0", Some(0), "Leica4"),
    (b"LEICA\0\x02\0", None, "Leica9"),
    (b"YI     \0\0\0\0\0", Some(0), "Xiaoyi"),
    (b"Apple iOS\0\0\x01XX", Some(0), "Apple"),
    (b"FUJIFILM\x0c\0\0\0", Some(0), "Fujifilm"),
    (b"SIGMA\0\0\0\x01\0", None, "Sigma"),
    (b"", None, "Minolta"),
    (b"Nikon\0\x01\0", None, "Nikon2"),
    (b"Nikon\0\x02\x10\0\0TTTTTTTT", Some(10), "Nikon"),
    (b"", None, ""),
];

/// Add one to the Exif directory.
pub fn any(b: &mut B, exif: Node) {
    let be = b.t.be;
    let (header, base, id) = *b.r.pick(FORMS);
    let mut h = header.to_vec();
    let n = h.len();
    if h.ends_with(b"TTTTTTTT") {
        h[n - 8..].copy_from_slice(if be { b"MM\0\x2a\0\0\0\x08" } else { b"II\x2a\0\x08\0\0\0" });
    } else if let Some(at) = h.windows(2).position(|w| w == b"XX") {
        h[at..at + 2].copy_from_slice(if be { b"MM" } else { b"II" });
    }
    let be = be && id != "Fujifilm";
    let note = b.t.note_endian(h, vec![], base, be);
    if id == "Minolta" {
        minolta(b, note);
    }
    let c = b.r.usize(2, 8);
    b.noise(Some(2), note, c);
    if b.e.tags.iter().all(|t| t.0 != 2) {
        b.tag(2, note, 0xe800, V::Long(vec![1, 2, 3]));
    }
    b.set(exif, 0x927c, V::Region(note));
    b.e.mnote_id = Some(id);
    b.note(format!("mnote={id:?}"));
}

/// What tells those of Minolta.
pub fn minolta(b: &mut B, note: Node) {
    b.tag(2, note, 0, V::Undef(b"MLT0".to_vec()));
}
