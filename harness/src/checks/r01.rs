//! R01: rendering computes the documented pipeline. A reference renderer
//! works from what the raw image answers about itself.
use libopenraw::tiff::exif::{LightsourceValue as L, PhotometricInterpretation as P};
use libopenraw::{
    rawfile_from_memory, Bitmap, CfaPattern, ColourSpace, DataType, RawImage, RenderingOptions, RenderingStage,
};
use serde_json::json;

use crate::gen::ALL_GEN;
use crate::report::{guard, h64, panic_sig, Ctx};
use crate::rng::Rng;

const STAGES: [RenderingStage; 4] = [
    RenderingStage::Raw,
    RenderingStage::Linearization,
    RenderingStage::Interpolation,
    RenderingStage::Colour,
];
const TARGETS: [ColourSpace; 4] = [
    ColourSpace::Unknown,
    ColourSpace::Camera,
    ColourSpace::XYZ,
    ColourSpace::SRgb,
];

/// What rendering has to give.
enum Want {
    /// An error
    Error,
    /// One of these images, or an error when the flag is set
    Image {
        w: u32,
        h: u32,
        cc: usize,
        any_of: Vec<Vec<f64>>,
        or_error: bool,
        tol: i64,
    },
}

fn levels(r: &RawImage, perpos: bool, clip: bool, any_table: bool) -> Option<Vec<f64>> {
    let (w, h) = (r.width() as usize, r.height() as usize);
    let data = &r.data16()?[..w * h];
    let table = r.linearization_table();
    let mut out = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let k = if perpos { (y % 2) * 2 + x % 2 } else { 0 };
            let (b, wh) = (r.blacks()[k] as f64, r.whites()[k] as f64);
            if wh <= b {
                return None;
            }
            let v = data[y * w + x];
            let v = match table {
                Some(t) if !t.is_empty() && (any_table || t.len() as u64 == 1u64 << r.bpc().min(32)) => t[(v as usize).min(t.len() - 1)],
                _ => v,
            };
            let f = ((v as f64 - b) / (wh - b)).max(0.0);
            out.push(if clip { f.min(1.0) } else { f });
        }
    }
    Some(out)
}

fn middle(v: [f64; 4]) -> f64 {
    let mut v = v;
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    (v[1] + v[2]) / 2.0
}

fn demosaic(src: &[f64], w: usize, h: usize, pat: &str) -> Vec<f64> {
    let at = |x: usize, y: usize| src[y * w + x];
    let col = |x: usize, y: usize| pat.as_bytes()[(y % 2) * 2 + x % 2];
    let idx = |c: u8| match c {
        b'R' => 0,
        b'G' => 1,
        _ => 2,
    };
    let mut out = Vec::with_capacity((w - 2) * (h - 2) * 3);
    for y in 1..h - 1 {
        for x in 1..w - 1 {
            let mut px = [0.0; 3];
            let c = col(x, y);
            px[idx(c)] = at(x, y);
            if c == b'G' {
                px[idx(col(x + 1, y))] = (at(x - 1, y) + at(x + 1, y)) / 2.0;
                px[idx(col(x, y + 1))] = (at(x, y - 1) + at(x, y + 1)) / 2.0;
            } else {
                px[1] = middle([at(x - 1, y), at(x + 1, y), at(x, y - 1), at(x, y + 1)]);
                px[2 - idx(c)] = middle([
                    at(x - 1, y - 1),
                    at(x + 1, y - 1),
                    at(x - 1, y + 1),
                    at(x + 1, y + 1),
                ]);
            }
            out.extend_from_slice(&px);
        }
    }
    out
}

/// The inverse of a 3x3 matrix by its adjugate, and its determinant.
fn inverse(m: &[f64]) -> (f64, [f64; 9]) {
    let c = |a: usize, b: usize, c: usize, d: usize| m[a] * m[d] - m[b] * m[c];
    let adj = [
        c(4, 5, 7, 8),
        -c(1, 2, 7, 8),
        c(1, 2, 4, 5),
        -c(3, 5, 6, 8),
        c(0, 2, 6, 8),
        -c(0, 2, 3, 5),
        c(3, 4, 6, 7),
        -c(0, 1, 6, 7),
        c(0, 1, 3, 4),
    ];
    let det = m[0] * adj[0] + m[1] * adj[3] + m[2] * adj[6];
    (det, adj.map(|v| v / det))
}

const XYZ_RGB: [f64; 9] = [3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570];

fn srgb(v: f64) -> f64 {
    if v <= 0.0031308 {
        12.92 * v
    } else {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    }
}

fn want(r: &RawImage, stage: RenderingStage, target: ColourSpace) -> Want {
    let (w, h) = (r.width() as usize, r.height() as usize);
    if stage == RenderingStage::Raw || r.data_type() != DataType::Raw {
        return Want::Error;
    }
    let n = match r.data16() {
        Some(d) => d.len(),
        None => return Want::Error,
    };
    if n < w * h {
        return Want::Error;
    }
    let ph = r.photometric_interpretation();
    if n >= 3 * w * h && w * h > 0 && matches!(ph, P::LinearRaw) {
        // samples in colour
        return Want::Error;
    }
    let b = r.blacks();
    let wh = r.whites();
    if wh[0] <= b[0] {
        return Want::Error;
    }
    let mut forms = vec![];
    for perpos in [false, true] {
        if perpos && b.iter().all(|v| *v == b[0]) && wh.iter().all(|v| *v == wh[0]) {
            continue;
        }
        for (clip, any_table) in [(false, false), (true, false), (false, true), (true, true)] {
            if let Some(v) = levels(r, perpos, clip, any_table) {
                if !forms.contains(&v) {
                    forms.push(v);
                }
            }
        }
    }
    if stage == RenderingStage::Linearization {
        return Want::Image {
            w: w as u32,
            h: h as u32,
            cc: 1,
            any_of: forms,
            or_error: false,
            tol: 1,
        };
    }
    if matches!(ph, P::LinearRaw) {
        let colour = stage == RenderingStage::Colour;
        let any_of = forms
            .iter()
            .map(|f| {
                f.iter()
                    .map(|v| if colour { v.powf(1.0 / 2.2) } else { *v })
                    .flat_map(|v| [v, v, v])
                    .collect()
            })
            .collect();
        return Want::Image {
            w: w as u32,
            h: h as u32,
            cc: 3,
            any_of,
            or_error: colour && target != ColourSpace::SRgb,
            tol: 1,
        };
    }
    if !matches!(ph, P::CFA) {
        return Want::Error;
    }
    let pat = r.mosaic_pattern().to_string();
    if !["RGGB", "GBRG", "GRBG", "BGGR"].contains(&pat.as_str()) || w < 3 || h < 3 {
        return Want::Error;
    }
    let mut any_of: Vec<Vec<f64>> = forms.iter().map(|f| demosaic(f, w, h, &pat)).collect();
    let mut or_error = false;
    let mut tol = 1;
    if stage == RenderingStage::Colour {
        if target != ColourSpace::SRgb {
            return Want::Error;
        }
        let cm = (1..=2)
            .filter_map(|i| r.colour_matrix(i))
            .find(|m| m.illuminant == L::D65 && m.matrix.len() == 9);
        if let Some(cm) = cm {
            let (det, inv) = inverse(&cm.matrix);
            if det == 0.0 {
                return Want::Error;
            }
            let mut m = [0.0; 9];
            for i in 0..3 {
                for j in 0..3 {
                    m[i * 3 + j] = (0..3).map(|k| XYZ_RGB[i * 3 + k] * inv[k * 3 + j]).sum();
                }
            }
            let big = m.iter().fold(1.0f64, |a, v| a.max(v.abs()));
            if !det.is_finite() || det.abs() < 1e-7 || big > 1e4 {
                // ill conditioned: only the shape
                any_of.clear();
            }
            tol = 2;
            for img in &mut any_of {
                for px in img.chunks_exact_mut(3) {
                    let v: Vec<f64> = (0..3)
                        .map(|i| (0..3).map(|k| m[i * 3 + k] * px[k]).sum::<f64>())
                        .collect();
                    px.copy_from_slice(&v);
                }
            }
        } else {
            or_error = true;
            if (1..=2).any(|i| r.colour_matrix(i).is_some()) {
                // Another illuminant: which conversion isn't told.
                any_of.clear();
            }
        }
        for img in &mut any_of {
            img.iter_mut().for_each(|v| *v = srgb(*v));
        }
    }
    Want::Image {
        w: w as u32 - 2,
        h: h as u32 - 2,
        cc: 3,
        any_of,
        or_error,
        tol,
    }
}

/// First difference
fn differs(got: &[u16], want: &[f64], tol: i64) -> Option<(usize, u16, u16)> {
    got.iter().zip(want).enumerate().find_map(|(i, (g, w))| {
        let e = (w * 65535.0).round().clamp(0.0, 65535.0) as i64;
        ((*g as i64 - e).abs() > tol).then_some((i, *g, e as u16))
    })
}

fn describe(r: &RawImage) -> String {
    format!(
        "{}x{} bpc {} {:?} {:?} {} samples, blacks {:?} whites {:?} {} table {:?} m1 {:?} m2 {:?}",
        r.width(),
        r.height(),
        r.bpc(),
        r.data_type(),
        r.photometric_interpretation(),
        r.data_size() / 2,
        r.blacks(),
        r.whites(),
        r.mosaic_pattern(),
        r.linearization_table().map(|t| t.len()),
        r.colour_matrix(1),
        r.colour_matrix(2)
    )
}

/// Judge one rendering
fn judge(
    ctx: &Ctx,
    kind: &str,
    r: &RawImage,
    stage: RenderingStage,
    target: ColourSpace,
    got: libopenraw::Result<RawImage>,
    bytes: Option<&[u8]>,
) {
    let bad = |sig: &str, msg: String| {
        ctx.violation(
            &format!("{stage:?} {sig}"),
            &format!("{kind} rendered to {stage:?}/{target:?}: {msg}; {}", describe(r)),
            bytes,
        )
    };
    ctx.count("renderings_judged", 1);
    if r.linearization_table().map(|t| t.len()) == Some(1 << r.bpc().min(32)) {
        ctx.count("with_table", 1);
    }
    let w = match want(r, stage, target) {
        // An empty image is as good as an error
        Want::Error if r.width() == 0 || r.height() == 0 => match &got {
            Ok(i) if i.data_size() == 0 => return,
            _ => Want::Error,
        },
        Want::Image { .. } if (r.width() == 0 || r.height() == 0) && got.is_err() => return,
        w => w,
    };
    match (w, got) {
        (Want::Error, Ok(i)) => bad("no error", format!("{}x{} instead of an error", i.width(), i.height())),
        (Want::Error, Err(e)) => {
            ctx.count("errors_expected", 1);
            if stage == RenderingStage::Raw && !matches!(e, libopenraw::Error::Unimplemented) {
                bad("raw stage error", format!("{e:?}"));
            }
        }
        (Want::Image { or_error, .. }, Err(e)) => {
            if !or_error {
                bad("error", format!("{e:?}"));
            }
        }
        (
            Want::Image {
                w,
                h,
                cc,
                any_of,
                tol,
                ..
            },
            Ok(i),
        ) => {
            ctx.count(&format!("images_{stage:?}"), 1);
            if (i.width(), i.height()) != (w, h) {
                bad("size", format!("{}x{} instead of {w}x{h}", i.width(), i.height()));
                return;
            }
            let d = match i.data16() {
                Some(d) => d,
                None => {
                    bad("data", "no 16 bit samples".into());
                    return;
                }
            };
            if d.len() != w as usize * h as usize * cc || i.data_size() != d.len() * 2 {
                bad("sample count", format!("{} samples for {w}x{h}x{cc}", d.len()));
                return;
            }
            let types: &[DataType] = if stage == RenderingStage::Linearization {
                &[DataType::PixmapRgb16, DataType::Raw]
            } else {
                &[DataType::PixmapRgb16]
            };
            if !types.contains(&i.data_type()) {
                bad("data type", format!("{:?}", i.data_type()));
            }
            if i.bpc() != 16 {
                bad("bit depth", format!("{}", i.bpc()));
            }
            if i.blacks() != &[0; 4] || i.whites() != &[65535; 4] {
                bad("levels", format!("{:?} {:?}", i.blacks(), i.whites()));
            }
            let pat = i.mosaic_pattern().to_string();
            let exp = if stage == RenderingStage::Linearization {
                r.mosaic_pattern().to_string()
            } else {
                "NONE".into()
            };
            if pat != exp {
                bad("pattern", format!("{pat} instead of {exp}"));
            }
            ctx.count("samples_compared", if any_of.is_empty() { 0 } else { d.len() as u64 });
            let diffs: Vec<_> = any_of.iter().filter_map(|f| differs(d, f, tol)).collect();
            if !any_of.is_empty() && diffs.len() == any_of.len() {
                let (at, g, e) = diffs[0];
                let px = at / cc;
                bad(
                    "samples",
                    format!(
                        "sample {} at {},{} is {g} instead of {e}",
                        at % cc,
                        px % w as usize,
                        px / w as usize
                    ),
                );
            }
        }
    }
}

fn matrix(r: &mut Rng) -> Vec<f64> {
    match r.range(0, 9) {
        0 => {
            // singular: one row is zero
            let mut m: Vec<f64> = (0..9).map(|_| r.i64(-9000, 9000) as f64 / 10000.0).collect();
            let k = r.usize(0, 2);
            m[k * 3..k * 3 + 3].fill(0.0);
            m
        }
        1 => {
            let n = *r.pick(&[0, 1, 3, 8, 10, 12]);
            (0..n).map(|_| r.i64(-9000, 9000) as f64 / 10000.0).collect()
        }
        2 => vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
        _ => (0..9)
            .map(|i| r.i64(-3500, 3500) as f64 / 10000.0 + if i % 4 == 0 { 0.8 } else { 0.0 })
            .collect(),
    }
}

fn pattern(r: &mut Rng) -> CfaPattern {
    let v: Vec<u8> = match r.range(0, 11) {
        0 => (0..36).map(|_| r.r32(0, 2) as u8).collect(),
        1 => return CfaPattern::Empty,
        2 => {
            let n = r.usize(0, 40);
            if n == 4 {
                vec![0, 1, 1, 2]
            } else {
                vec![1; n]
            }
        }
        n => [[0, 1, 1, 2], [1, 2, 0, 1], [2, 1, 1, 0], [1, 0, 2, 1]][n as usize % 4].to_vec(),
    };
    CfaPattern::try_from(v.as_slice()).unwrap_or(CfaPattern::Empty)
}

fn direct(r: &mut Rng) -> RawImage {
    let (w, h) = match r.range(0, 9) {
        0 => (r.usize(0, 3), r.usize(0, 3)),
        1 => (r.usize(0, 40), r.usize(0, 3)),
        2 => (r.usize(0, 3), r.usize(0, 40)),
        3 if r.one_in(20) => (r.usize(3, 400), r.usize(3, 300)),
        _ => (r.usize(3, 24), r.usize(3, 24)),
    };
    let bpc = *r.pick(&[8, 10, 12, 14, 16, 16, 13, 1, 32]);
    let max = if bpc >= 16 { 65535u32 } else { (1 << bpc) - 1 };
    let n = match r.range(0, 19) {
        0 => r.usize(0, w * h),
        1 => w * h + r.usize(1, 50),
        2 => w * h * 3,
        3 => (w * h * 3).saturating_sub(1),
        _ => w * h,
    };
    let top = if r.one_in(6) { 65535 } else { max };
    let kind = r.range(0, 4);
    let data: Vec<u16> = (0..n)
        .map(|i| match kind {
            0 => r.r32(0, top) as u16,
            1 => *r.pick(&[0, 1, top as u16, top as u16 / 2]),
            2 => (i * 97 % (top as usize + 1)) as u16,
            _ => r.r32(top / 4, top / 2) as u16,
        })
        .collect();
    let dt = if r.one_in(15) {
        *r.pick(&[
            DataType::CompressedRaw,
            DataType::PixmapRgb16,
            DataType::PixmapRgb8,
            DataType::Jpeg,
            DataType::Unknown,
        ])
    } else {
        DataType::Raw
    };
    let pat = pattern(r);
    let mut img = if r.one_in(20) {
        RawImage::with_data8(w as u32, h as u32, bpc, dt, r.bytes(w * h), pat)
    } else {
        RawImage::with_data16(w as u32, h as u32, bpc, dt, data, pat)
    };
    let b = r.r32(0, max / 2) as u16;
    let b = if r.one_in(3) { 0 } else { b };
    let wh = match r.range(0, 9) {
        0 => b,
        1 => b.saturating_sub(1),
        2 => b.saturating_add(1),
        3 => 65535,
        _ => r.r32(b as u32, max.max(b as u32)) as u16,
    };
    let mut blacks = [b; 4];
    let mut whites = [wh; 4];
    if r.one_in(5) {
        for i in 0..4 {
            blacks[i] = r.r32(0, max / 2) as u16;
            whites[i] = r.r32(max / 2, max) as u16;
        }
    }
    img.set_blacks(blacks);
    img.set_whites(whites);
    img.set_photometric_interpretation(match r.range(0, 11) {
        0 | 1 => P::LinearRaw,
        2 => P::Rgb,
        3 => P::YCbCr,
        _ => P::CFA,
    });
    if !r.one_in(6) {
        let m = matrix(r);
        img.set_colour_matrix(1, *r.pick(&[L::D65, L::D65, L::D65, L::D55, L::Unknown]), &m);
    }
    if r.one_in(3) {
        let m = matrix(r);
        img.set_colour_matrix(2, *r.pick(&[L::D65, L::D65, L::D50]), &m);
    }
    if r.bool() {
        img.set_as_shot_neutral(&[0.5, 1.0, 0.7]);
    }
    img
}

pub fn r01(ctx: &Ctx) -> i32 {
    let n = ctx.n(200_000, 12_000_000);
    let files = ctx.n(16_000, 1_000_000);
    ctx.par(n + files, |i| {
        let mut r = Rng::derive(ctx.seed, "r01", i);
        let (kind, img, handle, bytes) = if i < n {
            ("direct", Some(direct(&mut r)), None, None)
        } else {
            // Only DNG has linearization tables.
            let k = if i % 3 == 0 { 0 } else { i as usize % ALL_GEN.len() };
            let (name, gen) = ALL_GEN[k];
            let f = gen(&mut r);
            let h = match guard(|| rawfile_from_memory(f.bytes.clone(), f.hint)) {
                Ok(Ok(h)) => h,
                _ => return,
            };
            let img = guard(|| h.raw_data(false)).ok().and_then(|r| r.ok());
            (name, img, Some(h), Some(f.bytes))
        };
        let before = img.as_ref().map(|i| crate::obs::raw_text(i));
        if let Some(t) = &before {
            ctx.case(Some(&format!("{:x}", h64(t.as_bytes()))));
        }
        for stage in STAGES {
            let targets: &[ColourSpace] = if stage == RenderingStage::Colour {
                &TARGETS
            } else {
                std::slice::from_ref(&TARGETS[r.usize(0, 3)])
            };
            for target in targets.iter().copied() {
                let opts = RenderingOptions::default().with_stage(stage).with_target(target);
                let run = || match (&handle, &img) {
                    (Some(h), _) => h.rendered_image(opts.clone()),
                    (None, Some(i)) => i.rendered_image(opts.clone()),
                    _ => unreachable!(),
                };
                let got = match guard(run) {
                    Ok(g) => g,
                    Err(p) => {
                        let what = img.as_ref().map(describe).unwrap_or_default();
                        ctx.violation(
                            &format!("panic {}", panic_sig(&p)),
                            &format!("{kind} rendered to {stage:?}/{target:?}: {p}; {what}"),
                            bytes.as_deref(),
                        );
                        continue;
                    }
                };
                // The same again
                if r.one_in(8) {
                    let t = |g: &libopenraw::Result<RawImage>| crate::obs::res(g, crate::obs::raw_text);
                    if let Ok(again) = guard(run) {
                        if t(&again) != t(&got) {
                            ctx.violation(
                                "not deterministic",
                                &format!("{kind} rendered to {stage:?}/{target:?} twice differs"),
                                bytes.as_deref(),
                            );
                        }
                        ctx.count("rendered_twice", 1);
                    }
                }
                match &img {
                    Some(i) => judge(ctx, kind, i, stage, target, got, bytes.as_deref()),
                    None => {
                        ctx.count("renderings_judged", 1);
                        if got.is_ok() {
                            ctx.violation(
                                "no raw data",
                                &format!("{kind}: rendered without raw data"),
                                bytes.as_deref(),
                            );
                        }
                    }
                }
            }
        }
        if let (Some(i), Some(t)) = (&img, &before) {
            if &crate::obs::raw_text(i) != t {
                ctx.violation("image changed", &format!("{kind}: rendering changed the raw image"), None);
            }
        }
        if i % 20_000 == 7 {
            if let Some(img) = &img {
                ctx.sample(json!({"kind": kind, "image": describe(img)}));
            }
        }
    });
    defaults(ctx);
    ctx.finish(
        "A case is a raw image (built directly with random size, pattern, samples, levels, photometric interpretation \
         and matrices, or decoded from a generated file of every format, with linearization tables) rendered to every \
         stage and target; distinct by its contents. A reference renderer gives the image each stage defines.",
        "exploration",
        &[
            ("renderings_judged", 200_000),
            ("samples_compared", 1_000_000),
            ("images_Linearization", 10_000),
            ("images_Interpolation", 10_000),
            ("images_Colour", 3_000),
            ("errors_expected", 10_000),
            ("with_table", 50),
        ],
        &[
            "Samples over the white level may be clipped before or after interpolation; levels that differ by position \
             may be applied by position or by the first one. A table whose length isn't 2^bpc may be used or not.",
            "Without a D65 matrix the colour stage may convert or fail.",
        ],
    )
}

/// Defaults of the options, as documented.
fn defaults(ctx: &Ctx) {
    let o = RenderingOptions::default();
    if o.stage != RenderingStage::Colour || o.target != ColourSpace::SRgb {
        ctx.violation("default options", &format!("{:?} {:?}", o.stage, o.target), None);
    }
}
