//! Runtime monitors for boxcars. `vh run ID [quick|thorough]`, `vh worker ..`, `vh replay FILE`.
#![allow(unexpected_cfgs)]
mod alloc;
mod bitio;
mod compare;
mod corpus;
mod derive;
mod gen;
mod hostile;
mod json;
mod mini;
mod model;
mod props;
mod refdec;
mod rng;
mod run;

use run::*;

#[cfg(not(any(miri, vh_asan)))]
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn find(id: &str) -> &'static Prop {
    props::ALL.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(
            find(&a[1]),
            tier(&a[2]),
            num(3),
            num(4),
            num(5),
            num(6),
            a[7].parse().unwrap(),
            a.get(8).map(|x| x.parse().unwrap()),
        ),
        Some("run") => {
            let p = find(&a[1]);
            let t = tier(&a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
            let o = parent(p, t, seed);
            std::process::exit(finish(p, t, seed, o));
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap());
            let t = tier(v["tier"].as_str().unwrap_or("quick"));
            let total = if t == Tier::Quick { p.quick } else { p.thorough };
            worker(p, t, v["seed"].as_u64().unwrap(), total, 0, 1, 1e9, v["case"].as_u64());
        }
        Some("digest") => props::digest(num(1), num(2)),
        Some("emit") => props::emit(&a[1], num(2), num(3), num(4)),
        Some("miri") => props::miri(&a[1], a[2].parse().unwrap()),
        Some("corpus") => corpus::dev(),
        Some("list") => props::ALL.iter().for_each(|p| println!("{}", p.id)),
        _ => {
            eprintln!("usage: vh run ID [quick|thorough] | replay FILE | list");
            std::process::exit(2)
        }
    }
}
