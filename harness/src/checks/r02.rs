//! R02: geometry and mosaic patterns.
use libopenraw::{AspectRatio, Bitmap, CfaPattern, DataType, Point, RawImage, Rect, Size};
use serde_json::json;

use crate::report::{guard, h64, panic_sig, Ctx};
use crate::rng::Rng;

fn side(r: &mut Rng) -> u32 {
    match r.range(0, 9) {
        0 => r.r32(0, 3),
        1 => u32::MAX - r.r32(0, 3),
        2 => r.u32(),
        3 => 1 << r.r32(0, 31),
        4 => (1u32 << r.r32(1, 31)) - 1,
        5 => r.r32(0, 100),
        _ => r.r32(0, 12000),
    }
}

fn ratio(r: &mut Rng) -> AspectRatio {
    match r.range(0, 5) {
        0 => AspectRatio(side(r), side(r)),
        1 => AspectRatio(r.r32(0, 4), r.r32(0, 4)),
        _ => {
            let (a, b) = *r.pick(&[(3, 2), (4, 3), (16, 9), (1, 1), (65, 24), (5, 4), (7, 6), (9, 16), (2, 3)]);
            AspectRatio(a, b)
        }
    }
}

/// The greatest size of the ratio in the given one, rounded down.
fn greatest(a: (u32, u32), w: u32, h: u32) -> (u32, u32) {
    if a.0 == 0 || a.1 == 0 {
        return (w, h);
    }
    let (rw, rh, w, h) = (a.0 as u128, a.1 as u128, w as u128, h as u128);
    if w * rh > h * rw {
        ((h * rw / rh) as u32, h as u32)
    } else {
        (w as u32, (w * rh / rw) as u32)
    }
}

fn crops(ctx: &Ctx, r: &mut Rng) {
    let a = ratio(r);
    let from = Rect {
        x: side(r),
        y: side(r),
        width: side(r),
        height: side(r),
    };
    let what = format!("{a} in {from:?}");
    ctx.case(Some(&what));
    let got = guard(|| {
        let size = a.crop(from.size());
        let rect = a.crop_into(&from);
        (size, rect)
    });
    let (size, rect) = match got {
        Ok(g) => g,
        Err(p) => {
            ctx.violation(&format!("crop panic {}", panic_sig(&p)), &format!("{what}: {p}"), None);
            return;
        }
    };
    ctx.count("crops", 1);
    let (w, h) = greatest((a.0, a.1), from.width, from.height);
    if (size.width, size.height) != (w, h) {
        ctx.violation("crop size", &format!("{what}: {size:?} instead of {w}x{h}"), None);
        return;
    }
    if rect.size() != size {
        ctx.violation("crop_into size", &format!("{what}: {rect:?} instead of {w}x{h}"), None);
        return;
    }
    // Inside, when the rectangle itself can be represented
    let far = |o: u32, l: u32| o as u64 + l as u64;
    if far(from.x, from.width) > u32::MAX as u64 || far(from.y, from.height) > u32::MAX as u64 {
        ctx.count("crops_beyond_u32", 1);
        return;
    }
    if rect.x < from.x
        || rect.y < from.y
        || far(rect.x, rect.width) > far(from.x, from.width)
        || far(rect.y, rect.height) > far(from.y, from.height)
    {
        ctx.violation("crop_into outside", &format!("{what}: {rect:?}"), None);
        return;
    }
    // Centred, to one pixel
    let off = |o: u32, l: u32, fo: u32, fl: u32| {
        let before = o as i64 - fo as i64;
        let after = (fo as i64 + fl as i64) - (o as i64 + l as i64);
        before - after
    };
    let (dx, dy) = (
        off(rect.x, rect.width, from.x, from.width),
        off(rect.y, rect.height, from.y, from.height),
    );
    if dx.abs() > 1 || dy.abs() > 1 {
        ctx.violation("crop_into not centred", &format!("{what}: {rect:?}"), None);
    }
    // Cropping again changes nothing more than rounding does.
    if a.0 > 0 && a.1 > 0 {
        let again = a.crop(size);
        if again.width > size.width || again.height > size.height {
            ctx.violation("crop grows", &format!("{what}: {size:?} then {again:?}"), None);
        }
    }
    // the parts of a rectangle
    let copy = Rect::new(from.origin(), from.size());
    if copy != from
        || from.to_vec() != vec![from.x, from.y, from.width, from.height]
        || from.origin() != (Point { x: from.x, y: from.y })
        || a.to_string() != format!("{}:{}", a.0, a.1)
    {
        ctx.violation("rectangle parts", &format!("{from:?} {copy:?} {:?} {a}", from.to_vec()), None);
    }
}

/// A raw image keeps what it is given, whatever the order of the calls.
fn image(ctx: &Ctx, r: &mut Rng) {
    let (mut w, h) = (r.r32(0, 50), r.r32(0, 50));
    let mut img = RawImage::with_data16(w, h, 12, DataType::Raw, vec![], CfaPattern::Rggb);
    let mut out: Option<(u32, u32)> = None;
    let mut crop: Option<Rect> = None;
    let mut aspect: Option<AspectRatio> = None;
    let mut active: Option<Rect> = None;
    let mut pat = "RGGB".to_string();
    let mut neutral: Option<Vec<f64>> = None;
    let mut xy: Option<(f64, f64)> = None;
    let mut blacks = [0u16; 4];
    let mut whites = [0u16; 4];
    let mut ops = vec![];
    let n = r.usize(1, 12);
    for _ in 0..n {
        let rect = |r: &mut Rng| Rect {
            x: side(r),
            y: side(r),
            width: side(r),
            height: side(r),
        };
        match r.range(0, 8) {
            0 => {
                let s = (side(r), side(r));
                img.set_output_size(s.0, s.1);
                out = Some(s);
                ops.push(format!("output {s:?}"));
            }
            1 => {
                crop = if r.one_in(4) { None } else { Some(rect(r)) };
                aspect = if r.one_in(4) { None } else { Some(ratio(r)) };
                img.set_user_crop(crop.clone(), aspect);
                ops.push(format!("crop {crop:?} {aspect:?}"));
            }
            2 => {
                active = if r.one_in(4) { None } else { Some(rect(r)) };
                img.set_active_area(active.clone());
                ops.push(format!("active {active:?}"));
            }
            3 => {
                w = side(r);
                img.set_width(w);
                ops.push(format!("width {w}"));
            }
            4 => {
                let p = r.pick(&[CfaPattern::Empty, CfaPattern::Bggr, CfaPattern::Grbg, CfaPattern::Gbrg]);
                pat = p.to_string();
                img.set_mosaic_pattern(p.clone());
                ops.push(format!("pattern {pat}"));
            }
            5 => {
                let len = r.usize(0, 6);
                let v: Vec<f64> = (0..len).map(|_| r.r32(1, 4000) as f64 / 1024.0).collect();
                img.set_as_shot_neutral(&v);
                ops.push(format!("neutral {v:?}"));
                let mut e = v.clone();
                e.truncate(4);
                neutral = Some(e);
                xy = None;
            }
            6 => {
                let v = (r.r32(0, 1000) as f64 / 1000.0, r.r32(0, 1000) as f64 / 1000.0);
                img.set_as_shot_white_xy(v);
                ops.push(format!("xy {v:?}"));
                xy = Some(v);
                neutral = None;
            }
            7 => {
                blacks = [r.u16(), r.u16(), r.u16(), r.u16()];
                img.set_blacks(blacks);
                ops.push(format!("blacks {blacks:?}"));
            }
            _ => {
                whites = [r.u16(), r.u16(), r.u16(), r.u16()];
                img.set_whites(whites);
                ops.push(format!("whites {whites:?}"));
            }
        }
        ctx.count("image_states", 1);
        let o = img.output_size();
        let want = out.unwrap_or((w, h));
        let got_neutral = img.as_shot_neutral().map(|v| v.to_vec());
        let same_neutral = match (&got_neutral, &neutral) {
            (None, None) => true,
            (Some(g), Some(e)) => {
                g.len() == 4
                    && g.iter().enumerate().all(|(i, v)| match e.get(i) {
                        Some(x) => x == v,
                        None => v.is_nan(),
                    })
            }
            _ => false,
        };
        let bad = if (o.width, o.height) != want {
            Some(("output size", format!("{o:?} instead of {want:?}")))
        } else if img.user_crop() != crop.as_ref() || img.user_aspect_ratio() != aspect {
            Some(("user crop", format!("{:?} {:?}", img.user_crop(), img.user_aspect_ratio())))
        } else if img.active_area() != active.as_ref() {
            Some(("active area", format!("{:?}", img.active_area())))
        } else if (img.width(), img.height()) != (w, h) {
            Some(("dimensions", format!("{}x{}", img.width(), img.height())))
        } else if img.mosaic_pattern().to_string() != pat {
            Some(("pattern", img.mosaic_pattern().to_string()))
        } else if !same_neutral || img.as_shot_white_xy() != xy {
            Some(("as shot", format!("{got_neutral:?} {:?}", img.as_shot_white_xy())))
        } else if img.blacks() != &blacks || img.whites() != &whites {
            Some(("levels", format!("{:?} {:?}", img.blacks(), img.whites())))
        } else {
            None
        };
        if let Some((sig, msg)) = bad {
            ctx.violation(&format!("image {sig}"), &format!("{msg} after {}", ops.join("; ")), None);
            return;
        }
    }
    ctx.case(Some(&format!("{:x}", h64(ops.join(";").as_bytes()))));
}

const NAMED: [(&str, [u8; 4]); 4] = [
    ("RGGB", [0, 1, 1, 2]),
    ("GBRG", [1, 2, 0, 1]),
    ("GRBG", [1, 0, 2, 1]),
    ("BGGR", [2, 1, 1, 0]),
];

fn letter(c: u8) -> char {
    match c {
        0 => 'R',
        1 => 'G',
        2 => 'B',
        _ => '?',
    }
}

/// The pattern of these bytes: named, free form, or none.
fn pattern(ctx: &Ctx, v: &[u8]) {
    ctx.case(Some(&format!("pattern {v:?}")));
    ctx.count("patterns", 1);
    let res = guard(|| {
        let p = match CfaPattern::try_from(v) {
            Ok(p) => p,
            Err(_) => return None,
        };
        let (w, h) = (p.width(), p.height());
        let flat: String = p.pattern().iter().map(|c| c.to_char()).collect();
        let mut at = vec![];
        for y in 0..h {
            for x in 0..w {
                at.push(p[(x, y)].to_char());
            }
        }
        Some((p.to_string(), w, h, flat, at, p.clone() == p, p.pattern_type() as u8))
    });
    let valid = v.iter().all(|c| *c < 3 || *c == 255);
    let named = NAMED.iter().find(|n| n.1 == v);
    let text: String = v.iter().map(|c| letter(*c)).collect();
    match res {
        Err(p) => ctx.violation(&format!("pattern panic {}", panic_sig(&p)), &format!("{v:?}: {p}"), None),
        Ok(None) => {
            if named.is_some() || (v.len() == 36 && v.iter().all(|c| *c < 3)) {
                ctx.violation("pattern refused", &format!("{v:?}"), None);
            }
        }
        Ok(Some((name, w, h, flat, at, same, ty))) => {
            ctx.count("patterns_answered", 1);
            if !valid {
                ctx.violation("pattern accepted", &format!("{v:?} gives {name} {flat}"), None);
                return;
            }
            if !same {
                ctx.violation("pattern clone differs", &format!("{v:?}"), None);
            }
            if flat != text && !(v.is_empty() && flat.is_empty()) {
                ctx.violation("pattern colours", &format!("{v:?} gives {flat} instead of {text}"), None);
            }
            if (v.len() == 36 && (w, h) != (6, 6)) || w * h != v.len() {
                ctx.violation("pattern size", &format!("{v:?} is {w}x{h}"), None);
            }
            let atext: String = at.iter().collect();
            if (v.len() == 4 || v.len() == 36) && atext != text {
                ctx.violation("pattern by position", &format!("{v:?} gives {atext} instead of {text}"), None);
            }
            if v.len() == 4 || v.len() == 36 {
                ctx.count("positions", at.len() as u64);
            }
            match named {
                Some((n, _)) => {
                    let code = match *n {
                        "RGGB" => 2,
                        "GBRG" => 3,
                        "BGGR" => 4,
                        _ => 5,
                    };
                    if name != *n || (w, h) != (2, 2) || at.len() != 4 || ty != code {
                        ctx.violation("named pattern", &format!("{v:?} gives {name} {w}x{h} type {ty}"), None);
                    }
                }
                None => {
                    if v.len() == 4 {
                        ctx.violation("pattern accepted", &format!("{v:?} gives {name} {flat}"), None);
                    } else if !v.is_empty() && (name != "NON_RGB22" || ty != 1) {
                        ctx.violation("free form pattern", &format!("{v:?} gives {name} type {ty}"), None);
                    }
                }
            }
        }
    }
}

pub fn r02(ctx: &Ctx) -> i32 {
    // All the 2x2 patterns
    ctx.par(256, |i| {
        let c = [0u8, 1, 2, 3, 255, 4, 254, 128];
        for k in 0..16u64 {
            let n = i * 16 + k;
            let v: Vec<u8> = (0..4).map(|j| c[(n >> (3 * j)) as usize & 7]).collect();
            pattern(ctx, &v);
        }
        // one byte in a 6x6 pattern
        let mut v = vec![1u8; 36];
        v[i as usize % 36] = i as u8;
        pattern(ctx, &v);
    });
    // Every small rectangle and ratio
    ctx.par(40, |w| {
        for h in 0..40 {
            for a in 0..12 {
                for b in 0..12 {
                    let s = AspectRatio(a, b).crop(Size {
                        width: w as u32,
                        height: h,
                    });
                    let want = greatest((a, b), w as u32, h);
                    ctx.count("small_crops", 1);
                    if (s.width, s.height) != want {
                        ctx.violation("crop size", &format!("{a}:{b} in {w}x{h}: {s:?} instead of {want:?}"), None);
                    }
                }
            }
        }
    });
    let n = ctx.n(4_000_000, 300_000_000);
    ctx.par(n, |i| {
        let mut r = Rng::derive(ctx.seed, "r02", i);
        match i % 8 {
            0 => image(ctx, &mut r),
            1 => {
                let len = match r.range(0, 3) {
                    0 => r.usize(0, 40),
                    1 => 4,
                    _ => 36,
                };
                let mut v: Vec<u8> = (0..len).map(|_| r.r32(0, 2) as u8).collect();
                if len > 0 && r.one_in(4) {
                    let k = r.usize(0, len - 1);
                    v[k] = r.u8();
                }
                pattern(ctx, &v);
            }
            _ => crops(ctx, &mut r),
        }
    });
    ctx.sample(json!({"crop": "3:2 in {0,0,5472,3651}", "pattern": NAMED[0].0}));
    ctx.finish(
        "A case is an aspect ratio with a rectangle, a sequence of settings on a raw image, or the bytes of a pattern; \
         distinct by these. Crops are judged with 128 bit arithmetic; all the ratios up to 11:11 in sizes up to 39x39 \
         and all the 2x2 patterns over 8 byte values are enumerated.",
        "exploration",
        &[
            ("crops", 100_000),
            ("small_crops", 200_000),
            ("image_states", 50_000),
            ("patterns_answered", 5_000),
            ("positions", 50_000),
        ],
        &["A ratio with a zero leaves the rectangle unchanged; sizes round down."],
    )
}
