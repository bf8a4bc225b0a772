use harness::engine::{self, Opts, Tier};

fn usage() -> ! {
    eprintln!("usage: harness run ID --seed N --tier quick|thorough --out FILE --replay FILE [--scale PCT] [--trace DIR] [--shard N] [--threads N]\n       harness replay FILE\n       harness list");
    std::process::exit(2)
}

macro_rules! registry {
    ($($id:literal => $p:expr),* $(,)?) => {
        fn run(id: &str, o: &Opts) -> (serde_json::Value, Option<engine::Failure>) {
            match id { $($id => engine::run(&$p, o),)* _ => usage() }
        }
        fn replay(id: &str, case: &serde_json::Value) -> Result<(), String> {
            match id { $($id => engine::replay(&$p, case),)* _ => usage() }
        }
        fn run_crash(id: &str, o: &Opts) -> (serde_json::Value, Option<engine::Failure>) {
            match id { $($id => engine::run(&engine::CrashOnly($p), o),)* _ => usage() }
        }
        fn replay_crash(id: &str, case: &serde_json::Value) -> Result<(), String> {
            match id { $($id => engine::replay(&engine::CrashOnly($p), case),)* _ => usage() }
        }
        fn ids() -> Vec<&'static str> { vec![$($id),*] }
    };
}
use harness::props::*;

#[global_allocator]
static ALLOC: memory::Watcher = memory::Watcher;

registry! {
    "C01" => mlkem::C01,
    "C02" => mlkem::C02,
    "C03" => mlkem::C03,
    "C04" => mlkem::C04,
    "C05" => mlkem::C05,
    "C06" => mlkem::C06,
    "C07" => mlkem::C07,
    "C08" => randomness::C08,
    "C09" => histories::C09,
    "C11" => xwing::C11,
    "C12" => xwing::C12,
    "C13" => xwing::C13,
    "C14" => xwing::C14,
    "C15" => dh::C15,
    "C16" => dh::C16,
    "C17" => dh::C17,
    "C18" => memory::C18,
    "C19" => features::C19,
    "C22" => resources::C22,
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(String::as_str) {
        Some("list") => println!("{}", ids().join(" ")),
        // `crash` runs the cases of a property for C10: only panics, aborts and errors count
        Some(mode @ ("run" | "crash")) => {
            let id = a.get(2).cloned().unwrap_or_else(|| usage());
            let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let o = Opts {
                tier,
                seed: opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
                trace_dir: opt("--trace"),
                only_shard: opt("--shard").map(|s| s.parse().unwrap()),
                scale: opt("--scale").map(|s| s.parse().unwrap()).unwrap_or(100),
                threads: opt("--threads").map(|s| s.parse().unwrap()).unwrap_or(8),
                hang: opt("--hang").map(|s| s.parse().unwrap()).unwrap_or(if tier == Tier::Quick { 120 } else { 900 }),
                replay: opt("--replay"),
                report_as: (mode == "crash").then(|| "C10".to_string()),
            };
            let (ev, fail) = if mode == "crash" { run_crash(&id, &o) } else { run(&id, &o) };
            if let Some(f) = opt("--out") {
                std::fs::write(f, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
            } else {
                println!("{}", serde_json::to_string_pretty(&ev).unwrap());
            }
            if let Some(f) = fail {
                if f.message.starts_with(engine::HARNESS_BUG) {
                    eprintln!("{}\n{}", f.message, f.case);
                    std::process::exit(3);
                }
                if let Some(p) = &o.replay {
                    std::fs::write(p, serde_json::to_string_pretty(&engine::replay_json(&o, &id, &f.message, &f.case)).unwrap()).unwrap();
                }
                println!("FAILED {}\n{}", f.message, f.case);
                std::process::exit(1);
            }
        }
        // request lines for a probe, one per line
        Some("requests") => {
            use proptest::strategy::{Strategy, ValueTree};
            use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
            let n: usize = opt("--n").map(|s| s.parse().unwrap()).unwrap_or(100);
            let seed: u64 = opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
            let rs: [u8; 32] = std::array::from_fn(|i| harness::rng::stream_byte(harness::rng::mix(seed), i));
            let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &rs));
            let s = engine::Prop::strategy(&features::C19, Tier::Quick);
            for _ in 0..n {
                let c = s.new_tree(&mut r).unwrap().current();
                for l in features::requests(&c, &mut engine::Obs::default()).concat() {
                    println!("{l}");
                }
            }
        }
        Some("replay") => {
            let f = a.get(2).cloned().unwrap_or_else(|| usage());
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            let r = match v["cases_of"].as_str() {
                Some(inner) => replay_crash(inner, &v["case"]),
                None => replay(v["property"].as_str().unwrap_or(""), &v["case"]),
            };
            match r {
                Ok(()) => println!("replay: the property held"),
                Err(m) if m.starts_with(engine::HARNESS_BUG) => {
                    eprintln!("{m}");
                    std::process::exit(3);
                }
                Err(m) => {
                    println!("replay: {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => usage(),
    }
}
