//! Command line of the simulator.
//!
//!   ntfs-sim check PROP [--tier quick|thorough] [--seed N] [--dir /verif] [--peer BIN] [--runs N]
//!   ntfs-sim replay FILE [--peer BIN]
//!   ntfs-sim survey PROP N [FROM]     (histogram of violations, for development)
//!   ntfs-sim serve                    (the other build of the library, driven by the first one)
mod alloc;
mod check;
mod disk;
mod gen;
mod hurt;
mod json;
mod peer;
mod rng;
mod run;
mod scen;
mod vol;
mod world;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn opt(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|n| a.get(n + 1)).cloned()
}

fn main() {
    run::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() >= 2 => {
            let env = |k: &str| std::env::var(k).ok();
            let tier = opt(&a, "--tier").or_else(|| env("VERIF_TIER")).unwrap_or("quick".into());
            let seed = opt(&a, "--seed").or_else(|| env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let c = check::Check {
                prop: a[1].clone(),
                thorough: tier == "thorough",
                seed,
                dir: opt(&a, "--dir").unwrap_or("/verif".into()),
                peer: opt(&a, "--peer"),
                runs: opt(&a, "--runs").and_then(|s| s.parse().ok()),
                threads: opt(&a, "--threads").and_then(|s| s.parse().ok()),
            };
            check::check(&c)
        }
        Some("replay") if a.len() >= 2 => check::replay(&a[1], opt(&a, "--peer")),
        Some("survey") if a.len() >= 3 => {
            survey(&a[1], a[2].parse().unwrap(), a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0));
            0
        }
        Some("show") if a.len() >= 3 => {
            let sc = scen::make(&a[1], a[2].parse().unwrap()).unwrap();
            println!("{}", sc.to_json().dump());
            if let Ok(v) = run::volume(&sc.spec, None) {
                for f in sc.faults.iter().filter(|f| f.k == disk::FK::Elem) {
                    println!("{:?}", hurt::expand(&v, f.z));
                }
                if let Some(n) = a.get(3).and_then(|s| s.parse::<u64>().ok()) {
                    let f = &v.files[v.by_rec[&n]];
                    println!("recs {:?} list {}", f.recs, f.al.is_some());
                    for a in &f.attrs {
                        println!("  rec {} off {} len {} type {:x} name {:?} instance {} logical {} part {}", a.rec, a.off, a.len, a.ty, a.name, a.instance, a.logical, a.part);
                        if let vol::Content::Res(b) = &f.logical[a.logical].content {
                            println!("    {:?}", b);
                        }
                    }
                }
                for f in sc.faults.iter().filter(|f| f.k.is_media()) {
                    for b in &v.blocks {
                        if b.pieces.iter().any(|p| p.0 < f.x + f.y.max(1) && f.x < p.0 + p.1) {
                            println!("fault at {}: {:?} {:?}", f.x, b.kind, b.pieces);
                        }
                        if f.k == disk::FK::Copy && b.pieces.iter().any(|p| p.0 < f.z + f.y.max(1) && f.z < p.0 + p.1) {
                            println!("  copied from {:?} {:?}", b.kind, b.pieces);
                        }
                    }
                }
            }
            match run::execute(&sc) {
                Err(e) => println!("error: {e}"),
                Ok(o) => println!("bad: {:?} discarded: {}", o.bad, o.discarded),
            }
            0
        }
        Some("serve") => peer::serve(),
        _ => {
            eprintln!("usage: ntfs-sim check PROP | replay FILE | survey PROP N [FROM] | serve");
            2
        }
    };
    std::process::exit(code);
}

fn survey(prop: &str, n: u64, from: u64) {
    let t = std::time::Instant::now();
    let mut seen: std::collections::BTreeMap<String, (u64, Vec<u64>, String)> = Default::default();
    let (mut bad, mut disc, mut steps) = (0, 0, 0);
    for k in from..from + n {
        let sc = match scen::make(prop, k) {
            Ok(s) => s,
            Err(e) => {
                println!("make {k}: {e}");
                continue;
            }
        };
        match run::execute(&sc) {
            Err(e) => println!("exec {k}: {e}"),
            Ok(o) => {
                steps += o.steps;
                disc += o.discarded as u64;
                if let Some(b) = o.bad.first() {
                    bad += 1;
                    let key: String = b.1.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
                    let e = seen.entry(format!("{:?} {key}", b.0)).or_insert((0, vec![], b.1.clone()));
                    e.0 += 1;
                    if e.1.len() < 6 {
                        e.1.push(k);
                    }
                }
            }
        }
    }
    println!("{prop}: {n} runs, {steps} steps, {bad} bad, {disc} discarded, {:?}", t.elapsed());
    let mut v: Vec<_> = seen.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (_, (c, k, m)) in v.iter().take(14) {
        println!("  {c} x (seeds {k:?}) {}", m.lines().next().unwrap_or(""));
    }
}
