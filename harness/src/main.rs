//! `pv PROPERTY [--thorough] [--one FAMILY SEED REPS]`: monitors one property.
mod broker;
mod driver;
mod env;
mod heap;
mod ledger;
mod ops;
mod probe;
mod props;
mod rng;
mod step;
mod touchy;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: pv PROPERTY");
        std::process::exit(2);
    }
    // Errors need no backtrace, which takes long to note.
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    driver::install_panic_hook();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
        || args.iter().any(|a| a == "--thorough");
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let one = args.iter().position(|a| a == "--one").map(|i| {
        (
            args[i + 1].clone(),
            args[i + 2].parse().expect("seed"),
            args.get(i + 3).and_then(|s| s.parse().ok()).unwrap_or(20),
        )
    });
    let Some(prop) = props::all().into_iter().find(|p| p.id == args[0]) else {
        eprintln!("unknown property {}", args[0]);
        std::process::exit(2);
    };
    std::process::exit(driver::run(&prop, thorough, seed, one));
}
