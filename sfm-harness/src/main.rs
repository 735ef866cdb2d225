//! Property checks of the cv-sfm crate. See ../run.sh.
#[path = "../../harness/src/fw.rs"]
#[macro_use]
mod fw;
mod base;
mod features;
mod rules;
mod scene;
mod sfm;

use fw::*;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    load_known(&format!("{}/known-findings.txt", verif));
    let props: Vec<Property> = rules::all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let id = &args[1];
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let only = args.get(2).map(|s| s.as_str());
            let mult: f64 = std::env::var("CVCHECK_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            run_property(p, seed, tier, &verif, only, mult)
        }
        Some("replay") => replay_property(&props, &args[1], &verif),
        Some("list") => {
            for p in &props {
                println!("{}: {}", p.id, p.laws.iter().map(|l| l.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: sfmcheck run ID [LAW] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
