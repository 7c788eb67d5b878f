mod alloc;
mod amp;
mod bits;
mod checks;
mod exp;
mod gen;
mod hostile;
mod obs;
mod reftiff;
mod report;
mod rng;
mod tiffb;
mod watch;

use report::{Ctx, Tier};

#[global_allocator]
static ALLOC: alloc::Mon = alloc::Mon;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if let Ok(arg) = std::env::var("ORV_S05_SUB") {
        std::process::exit(checks::s05::sub(&arg));
    }
    if id == "FILE" {
        let h = libopenraw::rawfile_from_memory(std::fs::read(&args[2]).unwrap(), None).unwrap();
        for q in obs::all_queries() {
            println!("{q:?}: {}", obs::ask(&h, q));
        }
        return;
    }
    if id == "GEN" {
        // GEN KIND INDEX FILE
        let g = gen::ALL_GEN.iter().find(|g| g.0 == args[2]).expect("kind");
        gen::set_far(std::env::var("ORV_FAR").is_ok());
        let f = (g.1)(&mut rng::Rng::derive(1, "GEN", args[3].parse().unwrap()));
        std::fs::write(&args[4], &f.bytes).unwrap();
        println!("{} {:?} {} {:?}", f.ext, f.hint, f.desc, f.gap);
        return;
    }
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let root: std::path::PathBuf = std::env::var("VERIF_ROOT")
        .unwrap_or_else(|_| "/verif".into())
        .into();
    if let Some(code) = watch::supervise(&id, &root) {
        std::process::exit(code);
    }
    report::install_panic_hook();
    let ctx = Ctx::new(&id, tier, seed, root);
    match checks::run(&ctx) {
        Some(code) => std::process::exit(code),
        None => {
            eprintln!("unknown check {id}");
            std::process::exit(2)
        }
    }
}
