mod core1;
mod core2;
mod fw;
mod gen;
mod est;
mod geom;
mod linalg;
mod opt;
mod pinhole;

use fw::*;

fn properties() -> Vec<Property> {
    let mut v = vec![core1::c01(), core1::c02(), core1::c03(), core1::c04(), core1::c05(), core1::c06(), core2::c07(), core2::c08(), core1::c09()];
    v.extend(pinhole::all());
    v.extend(geom::all());
    v.extend(est::all());
    v.extend(opt::all());
    v
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    load_known(&format!("{}/known-findings.txt", verif));
    let props: Vec<Property> = properties();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let id = &args[1];
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let only = args.get(2).map(|s| s.as_str());
            let mult: f64 = std::env::var("CVCHECK_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            run_property(p, seed, tier, &verif, only, mult)
        }
        Some("replay") => replay_property(&props, &args[1], &verif),
        Some("list") => {
            for p in &props {
                println!("{}: {}", p.id, p.laws.iter().map(|l| l.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: cvcheck run ID [LAW] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
