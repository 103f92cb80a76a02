#![allow(clippy::all)]
mod dists;
mod oracle;
mod props;
#[macro_use]
mod runner;
mod src;
mod sym;
use std::path::PathBuf;

fn main() {
    runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
    let props = props::all();
    let get = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let known = |id: &str| runner::load_known(&verif, id).into_iter().map(|x| x.0).collect();
    match a.get(1).map(String::as_str) {
        Some("list") => {
            for p in &props {
                println!("{}: {}", p.id, p.facets.iter().map(|f| f.name).collect::<Vec<_>>().join(" "));
            }
        }
        Some("run") => {
            let o = runner::Opts {
                tier: a.get(3).cloned().unwrap_or_else(|| "quick".into()),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
                verif: verif.clone(),
                only: std::env::var("VH_FACET").ok(),
                scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            };
            std::process::exit(runner::run(get(&a[2]), &o));
        }
        Some("worker") => {
            let p = get(&a[2]);
            let f = p.facets.iter().find(|f| f.name == a[3]).expect("facet");
            let n = |i: usize| a[i].parse::<u64>().expect("number");
            runner::worker(p, f, n(4), n(5), n(6), &known(&a[2]), a[7] == "thorough", &PathBuf::from(&a[8]));
        }
        Some("trace") => {
            let p = get(&a[2]);
            let n = |i: usize| a[i].parse::<u64>().expect("number");
            runner::trace(p, &a[3], n(4), n(5), &known(&a[2]), a[6] == "thorough", &PathBuf::from(&a[7]));
        }
        Some("exec") => {
            std::process::exit(runner::exec(get(&a[2]), &a[3], &a[5], &known(&a[2]), a[4] == "thorough", false));
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let f = |k: &str| {
                t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or_default().to_string()
            };
            std::process::exit(runner::exec(
                get(&f("property")),
                &f("facet"),
                &f("choices"),
                &known(&f("property")),
                f("tier") == "thorough",
                true,
            ));
        }
        _ => panic!("usage: vharness list | run ID TIER | replay FILE"),
    }
}
