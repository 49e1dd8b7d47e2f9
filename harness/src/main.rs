use std::time::Duration;

use gv::run::{Plan, Tier};

fn main() {
    let a = std::env::args().collect::<Vec<_>>();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    let opt = |name: &str| -> Option<String> {
        let k = format!("--{name}");
        a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1).cloned())
    };
    let num = |name: &str, d: u64| opt(name).map(|v| v.parse().unwrap()).unwrap_or(d);

    let code = match cmd {
        "run" => {
            let id = a[2].clone();
            let tier = if opt("tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let (case, quick, thorough) = gv::props::lookup(&id).expect("unknown property");
            let plan = Plan {
                seed: num("seed", 1),
                tier,
                cases: num("cases", if tier == Tier::Quick { quick } else { thorough }),
                shard: num("shard", 0),
                shards: num("shards", 1),
                wall: Duration::from_secs(num("wall", 600)),
                out: opt("out").expect("--out"),
                only: opt("only").map(|v| v.parse().unwrap()),
                id,
            };
            // Note: deep streams are walked on a stack of a known size.
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || gv::run::run(&plan, case))
                .unwrap()
                .join()
                .unwrap()
        }
        "plan" => {
            let (_, quick, thorough) = gv::props::lookup(&a[2]).expect("unknown property");
            println!("{quick} {thorough}");
            0
        }
        "emit" => gv::emit::emit(&a[2], num("seed", 1), num("n", 100) as usize, &opt("dir").expect("--dir")),
        _ => {
            eprintln!("usage: gv run ID --seed N --tier T --shard I --shards N --out FILE");
            2
        }
    };
    std::process::exit(code);
}
