#![allow(clippy::all)]
mod engine;
mod space;
mod obs;
mod props;
use engine::*;

/// Re-runs the case named in a replay file (and only that), on the current tree.
fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| -> String {
        let l = s.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{k}\": ")).map(|x| x.trim_end_matches(',').to_string())).unwrap_or_else(|| panic!("no {k} in {path}"));
        l.trim_matches('"').replace("\\\"", "\"").replace("\\\\", "\\")
    };
    let id = field("property");
    let all = props::all();
    let p = all.iter().find(|p| p.id == id).expect("property");
    one(p, tier(&field("tier")), &field("family"), field("case").parse().unwrap())
}
fn tier(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all = props::all();
    let get = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    let scratch = Scratch::open();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(get(&a[2]), tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
        Some("work") => worker(get(&a[2]), tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("one") => one(get(&a[2]), tier(&a[3]), &a[4], a[5].parse().unwrap()),
        Some("fsize") => props::io::fsize(a[2].parse().unwrap(), a[3] == "1", a[4] == "1", &a[5]),
        Some("replay") => replay(&a[2]),
        Some("list") => {
            for p in &all { for t in [Tier::Quick, Tier::Thorough] { for f in (p.families)(t) { println!("{} {} {:>12} {}", p.id, t.name(), f.count, f.name); } } }
            0
        }
        _ => { eprintln!("usage: gbmc check|one|list …"); 2 }
    };
    drop(scratch);
    std::process::exit(code);
}
