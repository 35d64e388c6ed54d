use std::path::PathBuf;
use vp_harness::driver;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()));
    let seed = || std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let tier = || match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let code = match a.as_slice() {
        ["check", id] => driver::check(&dir, id, seed(), tier()),
        ["replay", file] => driver::replay(&PathBuf::from(file)),
        ["child", id, seed, tier] => driver::child(&dir, id, seed.parse().unwrap(), tier, None),
        ["child", id, seed, tier, trace] => {
            driver::child(&dir, id, seed.parse().unwrap(), tier, Some(PathBuf::from(trace)))
        }
        ["replay-child", file] => driver::replay_child(&dir, &PathBuf::from(file)),
        ["list"] => {
            for p in vp_harness::props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vp check <property> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
