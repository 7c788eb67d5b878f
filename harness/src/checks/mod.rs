use crate::exp::{Parts, NONE};
use crate::gen::ALL_GEN;
use crate::report::Ctx;

/// What a format's own property is about.
const IMAGE: Parts = Parts {
    raw: true,
    thumbs: true,
    ..NONE
};

fn all() -> Vec<&'static str> {
    ALL_GEN.iter().map(|g| g.0).collect()
}

pub mod c01;
pub mod d01;
pub mod d02;
pub mod fid;
pub mod m01;
pub mod r01;
pub mod r02;
pub mod s01;
pub mod s03;
pub mod s04;
pub mod s05;
pub mod t01;

pub fn run(ctx: &Ctx) -> Option<i32> {
    Some(match ctx.id.as_str() {
        "D01" => d01::d01(ctx),
        "D02" => d02::run(ctx),
        "C01" => c01::c01(ctx),
        "T01" => t01::t01(ctx),
        "R01" => r01::r01(ctx),
        "R02" => r02::r02(ctx),
        "M01" => m01::m01(ctx),
        "S01" => s01::s01(ctx),
        "S02" => s01::s02(ctx),
        "S03" => s03::s03(ctx),
        "S04" => s04::s04(ctx),
        "S05" => s05::s05(ctx),
        "DEV" => fid::dev(ctx),
        "M02" => fid::run(ctx, &all(), Parts { meta: true, ..NONE }, 40000),
        "M03" => fid::run(ctx, &all(), Parts { ident: true, colour: true, ..NONE }, 40000),
        "M04" => fid::run(ctx, &all(), Parts { thumbs: true, ..NONE }, 40000),
        "D03" => fid::run(ctx, &["dng"], Parts { colour: true, ..IMAGE }, 150000),
        "D07" => fid::run(ctx, &["nef"], IMAGE, 150000),
        "D08" => fid::run(ctx, &["pef"], IMAGE, 150000),
        "D09" => fid::run(ctx, &["orf"], IMAGE, 150000),
        "D10" => fid::run(ctx, &["rw2"], Parts { meta: true, ..IMAGE }, 150000),
        "D05" => fid::run(ctx, &["crw"], Parts { meta: true, ..IMAGE }, 80000),
        "D06" => fid::run(ctx, &["cr3"], Parts { meta: true, ..IMAGE }, 80000),
        "D04" => fid::run(ctx, &["cr2"], IMAGE, 150000),
        "D11" => fid::run(ctx, &["raf"], Parts { meta: true, ..IMAGE }, 150000),
        "D12" => fid::run(ctx, &["arw", "mrw", "erf"], IMAGE, 40000),
        _ => return None,
    })
}
