#[macro_use]
mod engine;
mod ctx;
mod docgen;
mod gens;
mod inl;
mod json;
mod props;
mod runner;
mod sem;
mod walk;

use std::path::PathBuf;

use engine::*;

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    let cmd = a.first().map(String::as_str).unwrap_or("");
    let rest = if a.is_empty() { &a[..] } else { &a[1..] };
    let code = match cmd {
        "list" => {
            for p in &props {
                println!("{} {}", p.id, p.families.iter().map(|f| f.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        "worker" => runner::worker(&props, rest),
        "one" => runner::one(&props, rest),
        "tape" | "show" => runner::dumping(&props, cmd, rest),
        "replay" => {
            let body = std::fs::read_to_string(&rest[0]).unwrap_or_else(|e| runner::die(&e.to_string()));
            let id = body.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("").to_string();
            let fam = body.lines().find_map(|l| l.strip_prefix("family ")).unwrap_or("").to_string();
            let spec = body.lines().find_map(|l| l.strip_prefix("spec ")).map(str::to_string).unwrap_or(rest[0].clone());
            runner::one(&props, &[id, fam, spec])
        }
        "check" => {
            let root = std::env::var("VP_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = rest.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let scale = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            runner::check(&props, &rest[0], &runner::Opts { root, seed, tier, scale })
        }
        _ => runner::die("usage: vp check|replay|one|list …"),
    };
    std::process::exit(code)
}
