mod arrays;
mod cluster;
mod core;
mod data;
mod guard;
mod feed;
mod leaf;
mod mon;
mod oracle;
mod props;
mod qcfg;
mod sqlgen;
mod tap;
mod world;

use crate::core::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let plans = props::plans();
    let find = |p: &str| plans.iter().find(|x| x.prop == p).unwrap_or_else(|| panic!("unknown property {p}"));
    let env_tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verbose = std::env::var("DDRT_VERBOSE").is_ok();
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let is_child = std::env::var("DDRT_CHILD").is_ok() || verbose;
    if is_child {
        guard::start_child();
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = find(&args[2]);
            let tier = tier_of(args.get(3).map(|s| s.as_str()).unwrap_or(&env_tier));
            if is_child { drive(p, tier, seed, None, verbose) } else { guard::supervise(p, tier, seed, &args[1..], false) }
        }
        Some("case") if !is_child => guard::supervise(find(&args[2]), tier_of(&env_tier), seed, &args[1..], true),
        Some("case") => drive(find(&args[2]), tier_of(&env_tier), seed, Some(args[3].parse().unwrap()), verbose),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let (p, tier, seed) = (find(v["property"].as_str().unwrap()), tier_of(v["tier"].as_str().unwrap()), v["seed"].as_u64().unwrap());
            if is_child {
                drive(p, tier, seed, Some(v["case"].as_u64().unwrap()), verbose)
            } else {
                guard::supervise(p, tier, seed, &args[1..], true)
            }
        }
        Some("survey") => {
            arrays::survey(args[2].parse().unwrap());
            0
        }
        Some("list") => {
            for p in &plans {
                println!("{}", p.prop);
            }
            0
        }
        _ => {
            eprintln!("usage: ddrt run <property> [quick|thorough] | case <property> <n> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
