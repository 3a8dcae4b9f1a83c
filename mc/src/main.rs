mod lang;
mod model;
mod props;
mod rig;
mod util;

use util::*;

/// Counts the heap bytes each thread holds.
struct Counting;
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn held(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        held(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        held(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut id = String::new();
    let mut tier = Tier::Quick;
    let mut replay = None;
    let mut root = "/verif".to_string();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if a[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--replay" => {
                i += 1;
                let t = std::fs::read_to_string(&a[i]).expect("replay file");
                replay = t.lines().find_map(|l| l.strip_prefix("case: ")).map(|s| s.to_string());
                assert!(replay.is_some(), "no case in replay file");
            }
            "--root" => {
                i += 1;
                root = a[i].clone();
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    install_panic_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&id, tier, seed, replay, &root)));
    ctx.watchdog(if tier == Tier::Quick { 20 } else { 60 });
    match props::run(ctx) {
        Some(code) => std::process::exit(code),
        None => {
            eprintln!("no check named {id}");
            std::process::exit(2);
        }
    }
}
