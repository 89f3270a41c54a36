//! Bounded witness stage: runs the real crate against a reference semantics.
#![allow(clippy::all, unused_macros, dead_code)]
#![recursion_limit = "512"]

#[macro_use]
mod probe;
#[macro_use]
mod types;
mod checks;
mod csharp;
#[cfg(feature = "cs")]
mod csharp_defs;
mod gen;
mod hist;
mod rng;
mod run;
mod val;

#[global_allocator]
static WATCH: run::Watch = run::Watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter()
            .position(|x| x == k)
            .and_then(|i| a.get(i + 1).cloned())
            .unwrap_or_else(|| d.to_string())
    };
    let shard: Vec<u64> = get("--shard", "0/1").split('/').map(|x| x.parse().unwrap()).collect();
    if a.iter().any(|x| x == "--finding") {
        std::panic::set_hook(Box::new(|_| ()));
        let still = match &*get("--finding", "") {
            "big-map-key" => checks::finding_big_key(),
            _ => false,
        };
        std::process::exit(if still { 3 } else { 0 });
    }
    let case = get("--case", "");
    let o = run::Opts {
        prop: a[1].clone(),
        seed: get("--seed", "1").parse().unwrap(),
        thorough: get("--tier", "quick") == "thorough",
        count: get("--count", "1000000").parse().unwrap(),
        secs: get("--secs", "10").parse().unwrap(),
        out: get("--out", "/dev/null"),
        progress: get("--progress", "/dev/null"),
        shard: (shard[0], shard[1]),
        case: if case.is_empty() {
            None
        } else {
            let i = case.rfind(':').unwrap();
            Some((case[..i].to_string(), case[i + 1..].parse().unwrap()))
        },
    };
    let fams = checks::families(&o.prop);
    if a.iter().any(|x| x == "--list") {
        for f in fams {
            println!("{}", f.name);
        }
        return;
    }
    // Deeply nested input needs stack.
    let code = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || run::run(&o, fams))
        .unwrap()
        .join()
        .unwrap();
    std::process::exit(code);
}
