mod checks;
mod fw;
mod lin;
mod opts;
mod prob;
mod refdp5;
mod refradau;
mod rng;
mod run;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "usage: vmon run <id> | vmon replay <file> | vmon case <id> <seed> <tier> <index>";
    run::silence_panics();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let specs = checks::all();
    let tier = |s: &str| if s == "thorough" { fw::Tier::Thorough } else { fw::Tier::Quick };
    let find = |id: &str| {
        specs.iter().find(|s| s.id == id).unwrap_or_else(|| {
            println!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = a.get(2).expect(usage);
            let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or_else(|_| {
                env("VERIF_SEED", "1").bytes().fold(7u64, |x, b| x.wrapping_mul(31).wrapping_add(b as u64)) >> 1
            });
            let t = tier(&env("VERIF_TIER", "quick"));
            let scale: f64 = env("VMON_SCALE", "1").parse().unwrap();
            let ev = env("VMON_EVIDENCE", &format!("evidence/{}.json", id));
            let rp = env("VMON_REPLAYS", "replays");
            std::process::exit(fw::campaign(find(id), seed, t, &ev, &rp, scale, &env("VMON_BUILD", "plain")));
        }
        Some("case") => {
            let c = fw::run_case(find(&a[2]), a[3].parse().unwrap(), tier(&a[4]), a[5].parse().unwrap(), true);
            println!("case: {}", c.desc);
            println!("counts {:?} maxima {:?} inconclusive {:?}", c.counts, c.maxima, c.inconclusive);
            if !c.violations.is_empty() {
                println!("VIOLATION property={} replay=-", a[2]);
                std::process::exit(1);
            }
        }
        Some("cases") => {
            // a range of cases on this thread, for interpreters and sanitizers
            let (lo, hi): (u64, u64) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let mut nontrivial = 0;
            for i in lo..hi {
                let c = fw::run_case(find(&a[2]), a[3].parse().unwrap(), tier(&a[4]), i, false);
                nontrivial += c.nontrivial as u64;
                if !c.violations.is_empty() {
                    println!("case {}: {}\n  {:?}", i, c.desc, c.violations);
                    std::process::exit(1);
                }
            }
            println!("{} cases ended, {} non-trivial", hi - lo, nontrivial);
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| -> String {
                let p = txt.find(&format!("\"{}\":", k)).expect(k) + k.len() + 3;
                txt[p..].trim_start().trim_start_matches('"').chars().take_while(|c| c.is_alphanumeric()).collect()
            };
            let (id, seed, t, idx) = (get("property"), get("seed"), get("tier"), get("index"));
            let c = fw::run_case(find(&id), seed.parse().unwrap(), tier(&t), idx.parse().unwrap(), true);
            println!("case: {}", c.desc);
            if !c.violations.is_empty() {
                println!("VIOLATION property={} replay={}", id, a[2]);
                std::process::exit(1);
            }
            println!("no violation");
        }
        Some("list") => {
            for s in &specs {
                println!("{} {}", s.id, s.level);
            }
        }
        _ => {
            println!("{}", usage);
            std::process::exit(2);
        }
    }
}
