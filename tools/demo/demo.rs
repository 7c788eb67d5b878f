// Print what the library answers about in.bin; compare with expect.txt.
use libopenraw::{Bitmap, Ifd, RawImage};

fn fnv(d: impl Iterator<Item = u64>) -> u64 {
    d.fold(0xcbf29ce484222325, |h, v| (h ^ v).wrapping_mul(0x100000001b3))
}

fn raw(r: &RawImage) -> String {
    let p = r.mosaic_pattern();
    format!(
        "{}x{} {:?} bpc={} data8={:?} data16={:?} tiles={:?} comp={:?} blacks={:?} whites={:?} aa={:?} crop={:?} aspect={:?} wb={:?} mosaic={}x{} {}",
        r.width(),
        r.height(),
        r.data_type(),
        r.bpc(),
        r.data8().map(|d| (d.len(), fnv(d.iter().map(|v| *v as u64)))),
        r.data16().map(|d| (d.len(), fnv(d.iter().map(|v| *v as u64)))),
        r.tile_data().map(|t| t.len()),
        r.compression(),
        r.blacks(),
        r.whites(),
        r.active_area().map(|r| (r.x, r.y, r.width, r.height)),
        r.user_crop().map(|r| (r.x, r.y, r.width, r.height)),
        r.user_aspect_ratio().map(|a| (a.0, a.1)),
        r.as_shot_neutral(),
        p.width(),
        p.height(),
        p.pattern().iter().map(|c| c.to_char()).collect::<String>(),
    )
}

/// From memory, or from a file with a buffer of `buffer`.
fn answers(path: &str, hint: &str, buffer: usize) -> String {
    use libopenraw::Type::*;
    let bytes = std::fs::read(path).unwrap();
    let mut out = String::new();
    let mut p = |k: &str, v: String| out.push_str(&format!("{k}: {v}\n"));
    if hint == "ljpeg" {
        for tiled in [true, false] {
            let t = libopenraw::LJpeg::new(true).decompress_buffer(&bytes, tiled, &None);
            p("ljpeg", format!("{:?}", t.ok().map(|t| (t.width, t.height, t.bpc, t.buf.len(), fnv(t.buf.iter().map(|v| *v as u64))))));
        }
        return out;
    }
    let hint = match hint {
        "crw" => Some(Crw),
        "arw" => Some(Arw),
        "orf" => Some(Orf),
        "pef" => Some(Pef),
        "nef" => Some(Nef),
        "rw2" => Some(Rw2),
        "dng" => Some(Dng),
        "erf" => Some(Erf),
        "jpeg" => Some(Jpeg),
        "cr2" => Some(Cr2),
        _ => None,
    };
    let file = if buffer > 0 {
        let file = std::fs::File::open(path).unwrap();
        libopenraw::rawfile_from_io(Box::new(std::io::BufReader::with_capacity(buffer, file)), hint)
    } else {
        libopenraw::rawfile_from_memory(bytes, hint)
    };
    match file {
        Err(_) => p("open", "error".into()),
        Ok(f) => {
            p("type", format!("{:?} {}", f.type_(), f.mime_type()));
            p("id", format!("{:?}", f.type_id().map(u32::from).ok()));
            p("orientation", f.orientation().to_string());
            let mut sizes = f.thumbnail_sizes().map(|s| s.to_vec()).unwrap_or_default();
            sizes.sort();
            sizes.dedup();
            p("sizes", format!("{sizes:?}"));
            let mut ask = vec![1, 160, 161, u32::MAX];
            for s in &sizes {
                ask.extend([*s, s.saturating_add(1), s.saturating_sub(1).max(1)]);
            }
            for s in ask {
                let t = f.thumbnail(s).ok().map(|t| {
                    (t.width(), t.height(), format!("{:?}", t.data_type()), t.data8().map(|d| (d.len(), fnv(d.iter().map(|v| *v as u64)))))
                });
                p(&format!("thumbnail {s}"), format!("{t:?}"));
            }
            p("raw", f.raw_data(false).as_ref().map(raw).unwrap_or("error".into()));
            p("raw skip", f.raw_data(true).as_ref().map(raw).unwrap_or("error".into()));
            for i in 1..3 {
                p("matrix", format!("{:?}", f.colour_matrix(i).ok().map(|m| m.1)));
                p("illuminant", format!("{}", f.calibration_illuminant(i) as u32));
            }
            for (n, d) in [("main", f.main_ifd()), ("exif", f.exif_ifd()), ("mnote", f.maker_note_ifd())] {
                if let Some(d) = d {
                    let mut s = String::new();
                    for t in 0..=0xffffu16 {
                        if let Some(e) = d.entry(t) {
                            s.push_str(&format!(
                                " {t:x}={:?}/{:?}/{:?}/{:?}",
                                e.string_value(),
                                e.uint_value_array(d.endian()),
                                e.int_value_array(d.endian()),
                                e.float_value_array(d.endian())
                            ));
                        }
                    }
                    p(n, s);
                }
            }
            if let Some(m) = f.metadata() {
                for (k, v, _) in m {
                    p("metadata", format!("{k} {}", v.into_string(true)));
                }
            }
        }
    }
    out
}

fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let path = format!("{dir}/in.bin");
    let hint = std::fs::read_to_string(format!("{dir}/hint")).unwrap_or_default();
    let out = answers(&path, hint.trim(), 0);
    if std::env::args().nth(2).is_some() {
        std::fs::write(format!("{dir}/expect.txt"), &out).unwrap();
    }
    let expect = std::fs::read_to_string(format!("{dir}/expect.txt")).unwrap_or_default();
    let mut code = 0;
    let mut outs = vec![("memory".to_string(), out)];
    for n in [3, 7, 40, 64, 333] {
        outs.push((format!("buffer {n}"), answers(&path, hint.trim(), n)));
    }
    for (how, out) in outs {
        if expect != out {
            for (a, b) in expect.lines().zip(out.lines()) {
                if a != b {
                    println!("{how}: expected {a}\n     got {b}");
                }
            }
            code = 1;
        }
    }
    std::process::exit(code);
}
