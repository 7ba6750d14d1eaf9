mod checks;
mod explore;
mod util;

pub use sim::{chain, codes};

use explore::{Ctx, Tier};

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match args.get(1).map(|s| s.as_str()) {
            Some("check") => {
                let id = args.get(2).expect("property id");
                let mut ctx = Ctx::new(id, tier, seed);
                checks::run(id, &mut ctx);
                ctx.finish();
            }
            Some("replay") => {
                let v: serde_json::Value = serde_json::from_slice(
                    &std::fs::read(args.get(2).expect("file")).expect("read replay file"),
                )
                .expect("json");
                let id = v["property"].as_str().unwrap().to_string();
                let tier = if v["tier"] == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                };
                let mut ctx = Ctx::new(&id, tier, seed);
                ctx.set_replay(
                    v["model"].as_str().unwrap().into(),
                    v["init"].as_str().unwrap().into(),
                    v["actions"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|a| a.as_str().unwrap().to_string())
                        .collect(),
                );
                ctx.replay_clock = v["blocks_between"].as_u64().unwrap_or(0);
                checks::run(&id, &mut ctx);
                ctx.finish();
            }
            Some("list") => {
                for c in checks::IDS {
                    println!("{c}");
                }
            }
            _ => {
                eprintln!("usage: mc check <ID> | replay <file> | list");
                std::process::exit(2);
            }
        })
        .unwrap()
        .join();
    if h.is_err() {
        eprintln!("internal error of the checker (set MC_PANICS=1 to see it)");
        std::process::exit(6);
    }
}
