//! lpmc: exhaustive bounded exploration of lang_pt against executable references.
mod engine;
mod gram;
mod lexm;
mod props;
mod real;
mod refm;

use engine::Tier;
use std::path::PathBuf;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("LPMC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
    let find = |id: &str| props::ALL.iter().find(|p| p.id == id);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => match find(&a[2]) {
            Some(p) => engine::check(p, tier(a.get(3).map_or("quick", |s| s)), &verif),
            None => {
                eprintln!("unknown property {}", a[2]);
                2
            }
        },
        Some("child") => {
            let p = find(&a[2]).expect("property");
            let only = a.get(5).map(|s| s.parse().unwrap());
            engine::child(p, tier(&a[3]), &PathBuf::from(&a[4]), only, threads)
        }
        Some("replay") => engine::replay(&PathBuf::from(&a[2]), &|id| props::ALL.iter().find(|p| p.id == id), &verif),
        Some("digest") => {
            let n = |i: usize| a[i].parse().unwrap();
            props::c26::digest(tier(&a[2]), n(3), n(4), a.get(5).map(|s| s.parse().unwrap()))
        }
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: lpmc check ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
