//! Deterministic simulation of rsasl: `rsasl-sim check C01 [--tier quick|thorough] [--seed N]`
mod adv;
mod alloc;
mod app;
mod entropy;
mod exch;
mod gen;
mod gss;
mod io;
mod props;
mod peer;
mod runner;
mod sched;
mod scram;
mod sess;
mod sim;
mod twin;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    sess::install_panic_hook();
    pbkdf2::sim::hook(|| sched::yield_point("deriving"));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let seed = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = opt("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let all = props::all();
    let code = match args.first().map(String::as_str) {
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            match all.iter().find(|p| p.id == id) {
                Some(p) if std::env::var_os("SIM_CHILD").is_some() => runner::check(p, &tier, seed, &runner::verif_dir()),
                Some(p) => runner::supervised(p, &tier, seed, &runner::verif_dir()),
                None => {
                    println!("no property {id}");
                    2
                }
            }
        }
        Some("one") => {
            let p = all.iter().find(|p| p.id == args[1]).expect("property");
            let i = opt("--run").and_then(|s| s.parse().ok()).unwrap_or(0);
            runner::one(p, &tier, seed, i, std::path::Path::new(&opt("--tape").unwrap_or("/dev/null".into())))
        }
        Some("replay") => runner::replay(&all, std::path::Path::new(&args[1])),
        Some("selfcheck") => {
            let n = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(100);
            let sel: Vec<_> = match opt("--only") {
                Some(id) => all.into_iter().filter(|p| p.id == id).collect(),
                None => all,
            };
            runner::selfcheck(&sel, n, seed)
        }
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: rsasl-sim check <id> | replay <file> | selfcheck [--runs n] | list");
            2
        }
    };
    // parked threads of a failed run must not keep the process
    std::process::exit(code);
}
