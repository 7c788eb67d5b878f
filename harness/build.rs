//! Compile the C client of the C API against the library's headers.
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=csrc/capi.c");
    println!("cargo:rerun-if-changed=/repo/include/libopenraw");
    println!("cargo:rerun-if-env-changed=ORV_CFLAGS");
    let out = std::env::var("OUT_DIR").unwrap();
    let flags = std::env::var("ORV_CFLAGS").unwrap_or_default();
    let ok = |c: &mut Command| assert!(c.status().map(|s| s.success()).unwrap_or(false), "{c:?} failed");
    ok(Command::new("clang")
        .args(["-c", "-g", "-O1", "-Wall", "-Werror=implicit-function-declaration", "-I/repo/include"])
        .args(flags.split_whitespace())
        .args(["csrc/capi.c", "-o"])
        .arg(format!("{out}/capi.o")));
    ok(Command::new("ar").args(["crs"]).arg(format!("{out}/liborvcapi.a")).arg(format!("{out}/capi.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=orvcapi");
}
