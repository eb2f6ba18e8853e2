//! The command line of a check binary.
use crate::engine::*;
use std::path::{Path, PathBuf};

fn find(all: &'static [&'static Check], id: &str) -> &'static Check {
    all.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

pub fn main_with(all: &'static [&'static Check]) {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        // vh run ID TIER SEED OUTDIR KNOWN [CASES]
        Some("run") => {
            let c = find(all, &a[2]);
            let tier = a[3].clone();
            let cases = a.get(7).and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { c.thorough } else { c.quick });
            let o = Opts { tier, seed: a[4].parse().unwrap_or(1), cases, outdir: PathBuf::from(&a[5]) };
            run(c, &o, Path::new(&a[6]))
        }
        Some("worker") => {
            let c = find(all, &a[2]);
            let o = Opts { tier: a[3].clone(), seed: a[4].parse().unwrap(), cases: a[5].parse().unwrap(), outdir: PathBuf::from(&a[6]) };
            let known = Known::load(Path::new(&a[9]));
            worker(c, &o, Path::new(&a[7]), Path::new(&a[8]), &known)
        }
        Some("one") => {
            let c = find(all, &a[2]);
            let (src, case) = if a[4] == "choices" {
                let t = std::fs::read_to_string(&a[5]).unwrap();
                (Src::replay(t.split(',').filter_map(|x| x.trim().parse().ok()).collect()), 0)
            } else {
                let i = a[6].parse().unwrap();
                (Src::random(case_seed(a[5].parse().unwrap(), c.id, i)), i)
            };
            one(c, Path::new(&a[3]), src, case)
        }
        // vh inproc ID SEED FROM STEP TO: some cases on this thread, for Miri
        Some("inproc") => {
            let c = find(all, &a[2]);
            let n: Vec<u64> = a[3..7].iter().map(|x| x.parse().unwrap()).collect();
            inproc(c, n[0], n[1], n[2], n[3])
        }
        Some("replay") => replay(find(all, &a[2]), Path::new(&a[3])),
        Some("list") => {
            for c in all {
                println!("{} {} {}", c.id, c.quick, c.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: vh run|replay|list");
            2
        }
    };
    std::process::exit(code);
}
