//! The synth crate used on its own: wiring calls and node builders.
#[path = "../../mc/src/util.rs"]
#[allow(dead_code)]
mod util;
mod builders;
mod messages;
mod sums;
mod wiring;

use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut id = String::new();
    let mut tier = Tier::Quick;
    let mut replay = None;
    let mut root = "/verif".to_string();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if a[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--replay" => {
                i += 1;
                let t = std::fs::read_to_string(&a[i]).expect("replay file");
                replay = t.lines().find_map(|l| l.strip_prefix("case: ")).map(|s| s.to_string());
                assert!(replay.is_some(), "no case in replay file");
            }
            "--root" => {
                i += 1;
                root = a[i].clone();
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    install_panic_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&id, tier, seed, replay, &root)));
    ctx.watchdog(if tier == Tier::Quick { 20 } else { 60 });
    std::process::exit(match id.as_str() {
        "C36" => wiring::c36(ctx),
        "C37" => builders::c37(ctx),
        "C38" => messages::c38(ctx),
        "C45" => sums::c45(ctx),
        _ => {
            eprintln!("no check named {id}");
            2
        }
    });
}
