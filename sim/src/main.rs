mod choices;
mod engine;
mod kit;
mod props;
mod topo;
mod make;
mod tree;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: u64| arg(&args, k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(d);
    let code = match args.get(1).map(|s| &s[..]) {
        Some("search") => {
            let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
            engine::search(&engine::SearchCfg {
                prop: args[2].clone(),
                base: num("--seed", 1),
                secs: num("--secs", 20) as f64,
                max_runs: num("--runs", u64::MAX),
                workers: num("--workers", workers as u64) as usize,
                tier: arg(&args, "--tier").unwrap_or("quick".into()),
                evidence: arg(&args, "--evidence"),
                replays: arg(&args, "--replays").unwrap_or("/verif/replays".into()),
                collect: args.iter().any(|a| a == "--collect"),
            })
        }
        Some("replay") => engine::replay(&args[2]),
        Some("one") => engine::one(&args[2], args[3].parse().unwrap(), args.iter().any(|a| a == "--trace")),
        Some("run") => engine::one(&args[2], engine::seed_of(num("--seed", 1), &args[2], args[3].parse().unwrap()), args.iter().any(|a| a == "--trace")),
        _ => {
            eprintln!("usage: mxsim search|replay|one|run ...");
            2
        }
    };
    std::process::exit(code)
}
