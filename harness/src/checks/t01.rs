//! T01: the command line tools report and extract what the library answers.
//!
//! The tools are built from the tree (ORV_BINS says where) and run in a
//! scratch directory of their own. What they print is compared with the
//! library's answers for the same files, what they write is read back.
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use libopenraw::metadata::Value;
use libopenraw::tiff::exif::TagType;
use libopenraw::{rawfile_from_file, Bitmap, DataType, Ifd, RawFileHandle, RawImage, Type};
use serde_json::json;

use crate::hostile::{family, Input};
use crate::report::{guard, h64, Ctx};
use crate::rng::Rng;

const FORMATS: [(&str, Type); 15] = [
    ("ARW", Type::Arw),
    ("CR2", Type::Cr2),
    ("CR3", Type::Cr3),
    ("CRW", Type::Crw),
    ("DNG", Type::Dng),
    ("ERF", Type::Erf),
    ("GPR", Type::Gpr),
    ("MRW", Type::Mrw),
    ("NEF", Type::Nef),
    ("NRW", Type::Nrw),
    ("ORF", Type::Orf),
    ("PEF", Type::Pef),
    ("RAF", Type::Raf),
    ("RW2", Type::Rw2),
    ("SR2", Type::Sr2),
];

/// What an extracted file must be.
#[derive(Clone)]
enum Extracted {
    Jpeg(Vec<u8>),
    Raw { w: u32, h: u32, white: u16, samples: Vec<u16> },
}

#[derive(Default)]
struct Expect {
    out: String,
    /// Debugging messages, which can be several lines, come within.
    log: bool,
    files: BTreeMap<String, Extracted>,
}

struct Opts {
    thumbs: bool,
    raw: bool,
    skip: bool,
    dev: bool,
    probe: bool,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// 10000ths, rounded.
fn tenthou(m: &[f64]) -> String {
    let mut s = String::from("[");
    for (i, v) in m.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        let _ = write!(s, "{}", (*v * 10000.0).round() as i64);
    }
    s.push(']');
    s
}

fn raw_lines(o: &mut String, file: &RawFileHandle, raw: &RawImage, dev: bool) {
    let _ = writeln!(o, "Found rawdata:");
    let _ = writeln!(o, "\tFormat: {:?}", raw.data_type());
    let _ = writeln!(o, "\tSize: {}x{}", raw.width(), raw.height());
    let size = raw.output_size();
    let _ = writeln!(o, "\tOutput Size: {}x{}", size.width, size.height);
    let _ = writeln!(o, "\tActive area: {:?}", raw.active_area());
    let ratio = raw.user_aspect_ratio().map(|r| format!(" {r}")).unwrap_or_default();
    let _ = writeln!(o, "\tUser crop: {:?}{ratio}", raw.user_crop());
    let _ = writeln!(o, "\tBayer Type: {:?}", raw.mosaic_pattern());
    let _ = writeln!(o, "\tBpc: {}", raw.bpc());
    let _ = writeln!(o, "\tWhites = {:?}", raw.whites());
    let _ = writeln!(o, "\tBlacks = {:?}", raw.blacks());
    let _ = match (raw.data_type(), raw.data8(), raw.tile_data(), raw.data16()) {
        (DataType::CompressedRaw, Some(d), _, _) => writeln!(o, "\tRaw data: {} bytes", d.len()),
        (DataType::CompressedRaw, None, Some(t), _) => writeln!(o, "\tTiled raw data: {} tiles", t.len()),
        (DataType::CompressedRaw, None, None, _) => writeln!(o, "\tMissing compressed raw data."),
        (_, _, _, Some(d)) => writeln!(o, "\tRaw data: {} bytes", d.len() * 2),
        _ => writeln!(o, "\tNo 16bits Raw data found."),
    };
    if raw.linearization_table().is_some() {
        let _ = writeln!(o, "\tHas a linearization table.");
    }
    let _ = match (raw.as_shot_neutral(), raw.as_shot_white_xy()) {
        (Some(n), _) => writeln!(o, "\tAs Shot Neutral = {n:?}"),
        (None, Some(xy)) => writeln!(o, "\tAs Shot XY = {xy:?}"),
        _ => writeln!(o, "\tNo White balance"),
    };
    if let Ok((origin, _)) = file.colour_matrix(1) {
        let _ = writeln!(o, "\tColour Matrix Origin: {origin:?}");
    }
    for i in 1..=2 {
        if let Ok((_, m)) = file.colour_matrix(i) {
            let light = file.calibration_illuminant(i);
            let _ = writeln!(o, "\tCalibration illuminant {i}: {} ({light:?})", light as u32);
            let m = if dev { tenthou(&m) } else { format!("{m:?}") };
            let _ = writeln!(o, "\tColour matrix {i}: {m}");
        }
    }
}

fn diag(e: &mut Expect, path: &Path, stem: &str, opts: &Opts) {
    let mut file = match rawfile_from_file(path, None) {
        Ok(f) => f,
        Err(_) => return,
    };
    if opts.probe {
        if let Some(f) = std::rc::Rc::get_mut(&mut file) {
            f.set_probe(true);
        }
    }
    let o = &mut e.out;
    let _ = writeln!(o, "Raw type: {:?}", file.type_());
    let _ = writeln!(o, "MIME type: {}", file.mime_type());
    match file.type_id() {
        Ok(id) => {
            let _ = writeln!(o, "Vendor id: {}", id.to_string().split(' ').next().unwrap_or(""));
            let _ = writeln!(o, "Type id: {id:?}");
        }
        Err(_) => {
            let _ = writeln!(o, "Couldn't guess file type ID");
            return;
        }
    }
    for (key, label) in [
        ("Exif.Image.Make", "Make"),
        ("Exif.Image.Model", "Model"),
        ("Exif.Image.UniqueCameraModel", "Unique Camera Model"),
    ] {
        if let Some(s) = file.metadata_value(key).as_ref().and_then(Value::string) {
            let _ = writeln!(o, "{label}: {s:?}");
        }
    }
    if let Some(sizes) = file.thumbnail_sizes() {
        let _ = writeln!(o, "Thumbnail sizes: {:?}", &sizes);
        for size in sizes {
            let Ok(t) = file.thumbnail(*size) else { continue };
            let _ = writeln!(o, "\tThumbnail size: {} x {}", t.width(), t.height());
            let _ = writeln!(o, "\tFormat: {:?}", t.data_type());
            let _ = writeln!(o, "\tSize: {} bytes", t.data8().map_or(0, |d| d.len()));
            if opts.thumbs && t.data_type() == DataType::Jpeg {
                if let Some(d) = t.data8() {
                    e.files.insert(format!("{stem}_{}x{}.jpg", t.width(), t.height()), Extracted::Jpeg(d.to_vec()));
                }
            }
        }
    }
    match file.raw_data(opts.skip) {
        Ok(raw) => {
            raw_lines(o, &file, &raw, opts.dev);
            if let (true, Some(d)) = (opts.raw, raw.data16()) {
                let white = u16::MAX >> (16 - raw.bpc().clamp(1, 16));
                e.files.insert(
                    format!("{stem}_RAW.pgm"),
                    Extracted::Raw {
                        w: raw.width(),
                        h: raw.height(),
                        white,
                        samples: d.iter().map(|v| *v.min(&white)).collect(),
                    },
                );
            }
        }
        Err(_) => o.push_str("Raw data not found\n"),
    }
    let exif = file.exif_ifd();
    let _ = writeln!(o, "Has Exif: {}", exif.is_some());
    if let Some(d) = exif {
        let _ = writeln!(o, "Number of Exif entries {}", d.num_entries());
    }
    if let Some(d) = file.maker_note_ifd() {
        let _ = writeln!(o, "Number of MakerNote entries {}", d.num_entries());
    }
    let _ = writeln!(o, "Orientation: {}", file.orientation());
    if opts.probe {
        if let Some(p) = file.probe() {
            let _ = writeln!(o, "Probe:\n{}", p.print_str());
        }
    }
}

fn probe(e: &mut Expect, path: &Path) {
    if let Ok(mut file) = rawfile_from_file(path, None) {
        if let Some(f) = std::rc::Rc::get_mut(&mut file) {
            f.set_probe(true);
        }
        for s in file.thumbnail_sizes().unwrap_or(&[]) {
            let _ = file.thumbnail(*s);
        }
        let _ = file.raw_data(false);
        let _ = (file.exif_ifd(), file.maker_note_ifd());
        if let Some(p) = file.probe() {
            let _ = writeln!(e.out, "Probe:\n{}", p.print_str());
        }
    }
}

fn metadata(e: &mut Expect, path: &Path) {
    if let Ok(file) = rawfile_from_file(path, None) {
        for (key, value, t) in file.metadata().into_iter().flatten() {
            let t = TagType::try_from(t).unwrap_or(TagType::Error_);
            let t: &'static str = t.into();
            let _ = writeln!(e.out, "{key} ({t}) => {:?}", value.into_string(false));
        }
    }
}

fn identify(e: &mut Expect, path: &Path, given: &Path, format: Option<Type>) {
    if !path.is_file() {
        return;
    }
    let name = given.display();
    let _ = match rawfile_from_file(path, format) {
        Ok(f) => match f.type_id() {
            Ok(id) => writeln!(e.out, "{name} {id}"),
            Err(err) => writeln!(e.out, "Error getting type id {name}: {err}"),
        },
        Err(err) => writeln!(e.out, "Error opening file {name}: {err}"),
    };
}

fn dump(e: &mut Expect, path: &Path) {
    if let Ok(file) = rawfile_from_file(path, None) {
        let mut v: Vec<u8> = Vec::new();
        file.dump_file(&mut v);
        e.out.push_str(&String::from_utf8_lossy(&v));
    }
}

/// Without the log, which may come within a line, and the time it took.
fn content(s: &str) -> Vec<String> {
    let mut o = String::new();
    for l in s.split_inclusive('\n') {
        let log = ["ERROR [", "WARN  [", "INFO  [", "DEBUG [", "TRACE ["].iter().filter_map(|p| l.find(p)).min();
        match log {
            Some(at) => o.push_str(&l[..at]),
            None if l.starts_with("Elapsed time: ") => (),
            None => o.push_str(l),
        }
    }
    o.lines().map(String::from).collect()
}

/// Portable graymap, as its manual page says.
fn pgm(b: &[u8]) -> Result<(u32, u32, u32, Vec<u16>), String> {
    let mut at = 0;
    let mut token = || -> Result<String, String> {
        while b.get(at).is_some_and(|c| c.is_ascii_whitespace()) {
            at += 1;
        }
        let from = at;
        while b.get(at).is_some_and(|c| !c.is_ascii_whitespace()) {
            at += 1;
        }
        std::str::from_utf8(&b[from..at]).map(String::from).map_err(|e| e.to_string())
    };
    if token()? != "P5" {
        return Err("not P5".into());
    }
    let mut number = || -> Result<u32, String> { token()?.parse::<u32>().map_err(|e| e.to_string()) };
    let (w, h, max) = (number()?, number()?, number()?);
    if max == 0 || max > 65535 {
        return Err(format!("greatest value {max}"));
    }
    let d = b.get(at + 1..).ok_or("no samples")?;
    let samples = if max < 256 {
        d.iter().map(|v| *v as u16).collect()
    } else if d.len() % 2 == 0 {
        d.chunks(2).map(|v| u16::from_be_bytes([v[0], v[1]])).collect()
    } else {
        return Err("half a sample".into());
    };
    Ok((w, h, max, samples))
}

fn extracted(want: &Extracted, got: &[u8]) -> Option<String> {
    match want {
        Extracted::Jpeg(d) => (d != got).then(|| format!("{} bytes instead of the preview's {}", got.len(), d.len())),
        Extracted::Raw { w, h, white, samples } => match pgm(got) {
            Err(e) => Some(format!("isn't a graymap: {e}")),
            Ok((gw, gh, max, s)) => {
                if (gw, gh, max) != (*w, *h, *white as u32) {
                    Some(format!("{gw}x{gh} up to {max}, not {w}x{h} up to {white}"))
                } else if s.len() != samples.len() {
                    Some(format!("{} samples, not {}", s.len(), samples.len()))
                } else {
                    s.iter().zip(samples).position(|(a, b)| a != b).map(|i| format!("sample {i} is {}, not {}", s[i], samples[i]))
                }
            }
        },
    }
}

struct Place<'a> {
    bins: &'a Path,
    root: &'a Path,
    /// Give the files by their path from the directory the tool runs in.
    relative: std::cell::Cell<bool>,
}

impl Place<'_> {
    fn given(&self, p: &Path) -> PathBuf {
        match p.strip_prefix(self.root) {
            Ok(rest) if self.relative.get() => Path::new("..").join(rest),
            _ => p.to_path_buf(),
        }
    }
}

/// Run a tool on files and compare.
#[allow(clippy::too_many_arguments)]
fn run(ctx: &Ctx, at: &Place, tool: &str, args: &[&str], files: &[PathBuf], want: Option<Expect>, what: &str, bytes: &[u8]) {
    let out = at.root.join("out");
    let _ = std::fs::remove_dir_all(&out);
    if std::fs::create_dir_all(&out).is_err() {
        ctx.count("no_scratch", 1);
        return;
    }
    let done = Command::new(at.bins.join(tool))
        .args(args)
        .args(files.iter().map(|p| at.given(p)))
        .current_dir(&out)
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .output();
    let done = match done {
        Ok(d) => d,
        Err(e) => {
            ctx.error(format!("{tool}: {e}"));
            return;
        }
    };
    ctx.count("runs", 1);
    let bad = |sig: &str, msg: String| {
        ctx.violation(&format!("{sig} {tool}"), &format!("{tool} {args:?}: {msg} ({what})"), Some(bytes));
    };
    if !done.status.success() {
        let err = String::from_utf8_lossy(&done.stderr);
        let err = err.lines().find(|l| l.contains("panicked")).or(err.lines().last()).unwrap_or("").to_string();
        bad("crashed", format!("{} {err}", done.status));
        return;
    }
    let Some(want) = want else { return };
    let got = String::from_utf8_lossy(&done.stdout);
    let (g, w) = (content(&got), content(&want.out));
    ctx.count("lines", w.len() as u64);
    if g != w && !want.log {
        let i = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        bad("output", format!("line {i} of {}: printed {:?}, the library answers {:?}", w.len(), g.get(i), w.get(i)));
    }
    let mut found = Vec::new();
    for f in std::fs::read_dir(&out).into_iter().flatten().flatten() {
        let name = f.file_name().to_string_lossy().to_string();
        match want.files.get(&name) {
            None => bad("file", format!("wrote {name:?}")),
            Some(x) => {
                ctx.count(if matches!(x, Extracted::Jpeg(_)) { "previews_extracted" } else { "raws_extracted" }, 1);
                let b = std::fs::read(f.path()).unwrap_or_default();
                if let Some(e) = extracted(x, &b) {
                    bad("extracted", format!("{name:?} {e}"));
                }
            }
        }
        found.push(name);
    }
    for name in want.files.keys().filter(|n| !found.contains(n)) {
        bad("missing", format!("didn't write {name:?}"));
    }
}

fn one(ctx: &Ctx, at: &Place, r: &mut Rng, inputs: &[Input]) {
    let dir = at.root.join("in");
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(&dir).is_err() {
        ctx.count("no_scratch", 1);
        return;
    }
    // the files of one invocation; some aren't there or can't be opened
    let mut files = Vec::new();
    let mut bytes = Vec::new();
    let mut what = String::new();
    for (k, inp) in inputs.iter().enumerate() {
        let ext = if r.one_in(3) { r.pick(&FORMATS).0.to_lowercase() } else { r.pick(&["raw", "DNG", "CR2", "x", "tar.gz"]).to_string() };
        // files of the same name in other directories, names without extension
        let stem = *r.pick(&["img", "a.b", "a b", "Œuvre_", "_-_"]);
        let sub = if r.one_in(4) { dir.join(format!("s.{k}")) } else { dir.clone() };
        let _ = std::fs::create_dir(&sub);
        let mut p = match r.usize(0, 7) {
            0 => sub.join(format!("{stem}{k}")),
            1 if sub != dir => sub.join(format!("img.{ext}")),
            _ => sub.join(format!("{stem}{k}.{ext}")),
        };
        if r.one_in(12) {
            p = dir.join(format!("missing{k}.dng"));
        } else if r.one_in(20) {
            p = dir.join(format!("dir{k}.dng"));
            let _ = std::fs::create_dir(&p);
        } else {
            let _ = std::fs::write(&p, &inp.bytes);
            bytes = inp.bytes.clone();
            what = format!("{what}{}: {}; ", inp.kind, inp.desc);
        }
        ctx.case(Some(&format!("{:x}", h64(&inp.bytes))));
        files.push(p);
    }
    at.relative.set(r.bool());
    what.truncate(what.char_indices().nth(1500).map_or(what.len(), |x| x.0));
    let stem = |p: &Path| p.file_stem().and_then(OsStr::to_str).unwrap_or("").to_string();
    let all = |f: &mut dyn FnMut(&mut Expect, &Path)| -> Option<Expect> {
        let mut e = Expect::default();
        for p in &files {
            // a panic of the library is S01's
            guard(|| f(&mut e, p)).ok()?;
        }
        Some(e)
    };
    let opts = Opts { thumbs: r.bool(), raw: r.bool(), skip: r.one_in(3), dev: r.one_in(3), probe: r.one_in(4) };
    let mut args = Vec::new();
    let probing = *r.pick(&["-p", "--probe", "-P", "--probe-only"]);
    for (on, a) in [(opts.thumbs, "-t"), (opts.raw, "-R"), (opts.skip, "-n"), (opts.dev, "-D"), (opts.probe, probing)] {
        if on {
            args.push(a);
        }
    }
    let log = r.one_in(8);
    if log {
        args.push("-d");
    }
    let Some(mut want) = all(&mut |e, p| diag(e, p, &stem(p), &opts)) else {
        ctx.count("library_panics", 1);
        return;
    };
    want.log = log;
    run(ctx, at, "ordiag", &args, &files, Some(want), &what, &bytes);
    match r.usize(0, 4) {
        0 => {
            let want = all(&mut |e, p| metadata(e, p));
            run(ctx, at, "metadata", &[], &files, want, &what, &bytes);
        }
        1 => {
            let f = r.bool().then(|| *r.pick(&FORMATS));
            let want = all(&mut |e, p| identify(e, p, &at.given(p), f.map(|f| f.1)));
            let args = f.map(|f| vec!["-f", f.0]).unwrap_or_default();
            run(ctx, at, "identify", &args, &files, want, &what, &bytes);
        }
        2 => {
            let want = all(&mut |e, p| dump(e, p));
            run(ctx, at, "ordump", &[], &files, want, &what, &bytes);
        }
        3 => {
            let want = all(&mut |e, p| probe(e, p));
            run(ctx, at, "probe", &[], &files, want, &what, &bytes);
        }
        _ => rawdata(ctx, at, &files[0], &what, &bytes),
    }
}

/// Writes the undecoded data of its only argument.
fn rawdata(ctx: &Ctx, at: &Place, p: &Path, what: &str, bytes: &[u8]) {
    let want = guard(|| {
        let raw = rawfile_from_file(p, None).and_then(|f| f.raw_data(true)).ok()?;
        raw.data8().map(|d| d.to_vec())
    });
    let Ok(want) = want else { return };
    run(ctx, at, "rawdata", &[], &[p.to_path_buf()], None, what, bytes);
    if let Some(want) = want {
        ctx.count("undecoded_extracted", 1);
        let got = std::fs::read(at.root.join("out/rawdata.raw")).unwrap_or_default();
        if got != want {
            let msg = format!("rawdata: {} bytes extracted instead of {} ({what})", got.len(), want.len());
            ctx.violation("undecoded", &msg, Some(bytes));
        }
    }
}

pub fn t01(ctx: &Ctx) -> i32 {
    let bins = match std::env::var_os("ORV_BINS") {
        Some(b) => PathBuf::from(b),
        None => {
            ctx.error("ORV_BINS isn't set".into());
            PathBuf::from("/nonexistent")
        }
    };
    let scratch = Scratch(std::env::temp_dir().join(format!("orv-t01-{}", std::process::id())));
    let n = ctx.n(12_000, 600_000);
    ctx.par(n, |i| {
        let mut r = Rng::derive(ctx.seed, "t01f", i);
        let mut pool = Vec::new();
        family(ctx.seed, "t01", i, if i % 2 == 0 { 0 } else { 3 }, |inp, _| pool.push(inp.clone()));
        if pool.is_empty() {
            pool.push(crate::hostile::valid(&mut r));
        }
        r.shuffle(&mut pool);
        pool.truncate(3);
        if r.one_in(2) {
            pool.insert(0, crate::hostile::valid(&mut r));
        }
        if i % 1000 == 3 {
            ctx.sample(json!({"files": pool.iter().map(|p| p.desc.clone()).collect::<Vec<_>>()}));
        }
        let root = Scratch(scratch.0.join(format!("{i}")));
        one(ctx, &Place { bins: &bins, root: &root.0, relative: Default::default() }, &mut r, &pool);
    });
    ctx.finish(
        "The tools run as processes in scratch directories on generated and damaged files, one to four at once: printed lines against the library's answers for the same files, extracted previews and samples read back, exit status",
        "exploration",
        &[("runs", 1500), ("lines", 20_000), ("previews_extracted", 300), ("raws_extracted", 200), ("undecoded_extracted", 50)],
        &["stdout lines of the log and of the time taken are left out; standard error isn't judged"],
    )
}
