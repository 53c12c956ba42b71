//! The deciding step: a seeded search over many simulated runs, minimisation, replay and evidence.
use crate::disk::*;
use crate::json::{self, J};
use crate::peer::{self, Peer};
use crate::run::*;
use crate::scen;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Check {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub dir: String,
    pub peer: Option<String>,
    pub runs: Option<u64>,
    pub threads: Option<usize>,
}

/// CPU seconds one run may take, and watchdog ticks (about seconds) it may last.
const MAX_CPU: u64 = 30;
const MAX_TICKS: u64 = 200;

#[derive(Default)]
struct Total {
    runs: u64,
    discarded: u64,
    nontrivial: u64,
    digests: HashSet<u64>,
    stats: BTreeMap<FK, u64>,
    with_fault: u64,
    clock_ns: u128,
    calls: u64,
    bytes: u64,
    compared: u64,
    errors: u64,
    steps: u64,
    switches: u64,
    peak: u64,
    feats: BTreeSet<&'static str>,
    ops: BTreeMap<&'static str, u64>,
    modes: BTreeMap<&'static str, u64>,
    geo: HashSet<(u32, u32, i32)>,
    trees: HashSet<u64>,
}

fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|f| f.to_str()).and_then(|s| s.parse().ok())).unwrap_or(0)
}

/// CPU ticks of a thread of this process.
fn cpu(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = s.rsplit_once(')')?.1;
    let v: Vec<&str> = r.split_whitespace().collect();
    Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?)
}

fn set_current(w: usize, sc: Option<&Scenario>) {
    let mut c = CURRENT.lock().unwrap();
    let k = &mut c[w];
    k.sc = sc.map(|s| Arc::new(s.clone()));
    k.since = Instant::now();
    k.cpu = cpu(k.tid).unwrap_or(0);
    k.ticks = 0;
}

fn watchdog(done: Arc<AtomicBool>) {
    std::thread::spawn(move || {
        while !done.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(1000));
            let mut hit = None;
            {
                let mut c = CURRENT.lock().unwrap();
                for (n, k) in c.iter_mut().enumerate() {
                    if k.sc.is_none() {
                        continue;
                    }
                    k.ticks += 1;
                    let used = cpu(k.tid).unwrap_or(0).saturating_sub(k.cpu) / 100;
                    if used >= MAX_CPU {
                        hit = Some((n, format!("a run does not end: {used} s of CPU time without a result")));
                    } else if k.ticks > MAX_TICKS {
                        hit = Some((n, "a run does not end".to_string()));
                    }
                }
            }
            if let Some((n, m)) = hit {
                fatal_for(Some(n), &m);
            }
        }
    });
}

/// Executes a scenario and returns the first thing that is wrong with it.
fn judge(sc: &Scenario, peer: &mut Option<Peer>) -> Result<Option<String>, String> {
    if sc.prop == "C15" {
        let p = peer.as_mut().ok_or("C15 needs --peer")?;
        return peer::compare(p, sc);
    }
    Ok(execute(sc)?.bad.into_iter().next().map(|b| b.1))
}

/// Known findings: `finding: property=<id> match=<text> what=<text>`; a violation whose message
/// contains the text is that finding.
fn findings(dir: &str, prop: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(format!("{dir}/known-findings.txt")) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let l = l.strip_prefix(&format!("property={prop} "))?;
            let (m, w) = l.strip_prefix("match=")?.split_once(" what=")?;
            Some((m.to_string(), w.to_string()))
        })
        .collect()
}

pub fn check(c: &Check) -> i32 {
    let t0 = Instant::now();
    if !scen::PROPS.contains(&c.prop.as_str()) {
        eprintln!("unknown property {}", c.prop);
        return 2;
    }
    let runs = c.runs.unwrap_or_else(|| scen::runs(&c.prop, c.thorough));
    let cap = Duration::from_secs(if c.thorough { 3 * 3600 } else { 300 });
    let threads = c.threads.unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    *REPLAY_DIR.lock().unwrap() = format!("{}/replays", c.dir);
    {
        let mut cur = CURRENT.lock().unwrap();
        for _ in 0..threads + 1 {
            cur.push(Current { sc: None, since: Instant::now(), cpu: 0, tid: 0, ticks: 0 });
        }
    }
    let done = Arc::new(AtomicBool::new(false));
    watchdog(done.clone());
    let base = c.seed << 40;
    let known = findings(&c.dir, &c.prop);
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Total> = Mutex::new(Total::default());
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, best, found, broken, total, known, hits) = (&next, &best, &found, &broken, &total, &known, &hits);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    set_worker(Some(w));
                    CURRENT.lock().unwrap()[w].tid = tid();
                    let mut pr = None;
                    if let Some(b) = &c.peer {
                        match Peer::new(b) {
                            Ok(p) => pr = Some(p),
                            Err(e) => {
                                broken.lock().unwrap().get_or_insert(e);
                                return;
                            }
                        }
                    }
                    let mut t = Total::default();
                    'work: loop {
                        let from = next.fetch_add(32, Ordering::Relaxed);
                        if from >= runs || from >= best.load(Ordering::Relaxed) || t0.elapsed() > cap || broken.lock().unwrap().is_some() {
                            break;
                        }
                        for k in from..(from + 32).min(runs) {
                            if k >= best.load(Ordering::Relaxed) {
                                break 'work;
                            }
                            let seed = base + k;
                            let sc = match scen::make(&c.prop, seed) {
                                Ok(s) => s,
                                Err(e) => {
                                    broken.lock().unwrap().get_or_insert(format!("seed {seed}: {e}"));
                                    break 'work;
                                }
                            };
                            set_current(w, Some(&sc));
                            let r = execute(&sc);
                            let o = match r {
                                Ok(o) => o,
                                Err(e) => {
                                    broken.lock().unwrap().get_or_insert(format!("seed {seed}: {e}"));
                                    break 'work;
                                }
                            };
                            let mut bad = if c.prop == "C15" { None } else { o.bad.first().map(|b| b.1.clone()) };
                            if let Some(p) = pr.as_mut() {
                                match p.seed(&c.prop, seed) {
                                    Ok(d) if d == format!("{:016x}", o.digest) => {}
                                    Ok(d) if d.starts_with("error") => {
                                        broken.lock().unwrap().get_or_insert(format!("seed {seed}: {d}"));
                                        break 'work;
                                    }
                                    Ok(_) => bad = Some("the builds differ".into()),
                                    Err(e) => bad = Some(e),
                                }
                            }
                            set_current(w, None);
                            if let Some(m) = &bad {
                                if let Some(f) = known.iter().find(|f| m.contains(&f.0)) {
                                    *hits.lock().unwrap().entry(f.1.clone()).or_insert(0) += 1;
                                    bad = None;
                                }
                            }
                            t.runs += 1;
                            t.discarded += o.discarded as u64;
                            let faults: u64 = o.stats.values().sum();
                            if !o.discarded && o.steps > 0 && (o.compared > 0 || o.errors > 0 || c.prop == "C07" || c.prop == "C15" || c.prop == "C14") {
                                t.nontrivial += 1;
                                t.digests.insert(o.digest);
                            }
                            t.with_fault += (faults > 0) as u64;
                            for (k, v) in &o.stats {
                                *t.stats.entry(*k).or_insert(0) += v;
                            }
                            for (k, v) in &o.ops {
                                *t.ops.entry(k).or_insert(0) += v;
                            }
                            t.clock_ns += o.clock_ns as u128;
                            t.calls += o.calls;
                            t.bytes += o.bytes;
                            t.compared += o.compared;
                            t.errors += o.errors;
                            t.steps += o.steps;
                            t.switches += o.switches;
                            t.peak = t.peak.max(o.peak);
                            t.feats.extend(o.feats.iter());
                            *t.modes.entry(sc.mode.name()).or_insert(0) += 1;
                            t.geo.insert((sc.spec.sector_shift, sc.spec.cluster_shift, sc.spec.rec_info));
                            t.trees.insert(sc.spec.seed);
                            if let Some(m) = bad {
                                best.fetch_min(k, Ordering::Relaxed);
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map(|x| x.0 > k).unwrap_or(true) {
                                    *f = Some((k, m));
                                }
                                break 'work;
                            }
                        }
                    }
                    set_current(w, None);
                    let mut a = total.lock().unwrap();
                    a.runs += t.runs;
                    a.discarded += t.discarded;
                    a.nontrivial += t.nontrivial;
                    a.digests.extend(t.digests);
                    a.with_fault += t.with_fault;
                    for (k, v) in t.stats {
                        *a.stats.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in t.ops {
                        *a.ops.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in t.modes {
                        *a.modes.entry(k).or_insert(0) += v;
                    }
                    a.clock_ns += t.clock_ns;
                    a.calls += t.calls;
                    a.bytes += t.bytes;
                    a.compared += t.compared;
                    a.errors += t.errors;
                    a.steps += t.steps;
                    a.switches += t.switches;
                    a.peak = a.peak.max(t.peak);
                    a.feats.extend(t.feats);
                    a.geo.extend(t.geo);
                    a.trees.extend(t.trees);
                })
                .expect("thread");
        }
    });
    let search = t0.elapsed();
    if let Some(e) = broken.into_inner().unwrap() {
        eprintln!("the check itself is broken: {e}");
        return 2;
    }
    let total = total.into_inner().unwrap();
    for (w, n) in hits.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {w} ({n} runs)", c.prop);
    }
    let found = found.into_inner().unwrap();
    let mut code = 0;
    if let Some((k, m)) = &found {
        code = report(c, base + k, m, threads);
    }
    done.store(true, Ordering::Relaxed);
    evidence(c, &total, base, search, t0.elapsed(), found.is_some());
    println!(
        "{}: {} simulated runs ({} distinct, {} with faults, {} discarded), {} operations, {} device calls, {:.0} s simulated, {:.1} s",
        c.prop,
        total.runs,
        total.digests.len(),
        total.with_fault,
        total.discarded,
        total.steps,
        total.calls,
        total.clock_ns as f64 / 1e9,
        t0.elapsed().as_secs_f64()
    );
    code
}

/// The operation and the beginning of the message, without anything that depends on the volume's content.
fn kind(m: &str) -> &str {
    let m = m.strip_prefix("step ").map_or(m, |m| m.trim_start_matches(|c: char| c.is_ascii_digit() || c == ' '));
    let end = m.find(|c: char| c.is_ascii_digit() || matches!(c, '"' | '(' | '[')).unwrap_or(m.len());
    &m[..end]
}

/// Minimises, writes the replay file and makes sure that it reproduces the violation exactly.
fn report(c: &Check, seed: u64, first: &str, w: usize) -> i32 {
    set_worker(Some(w));
    CURRENT.lock().unwrap()[w].tid = tid();
    let mut peer = match &c.peer {
        Some(b) => Peer::new(b).ok(),
        None => None,
    };
    let sc = match scen::make(&c.prop, seed) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("seed {seed}: {e}");
            return 2;
        }
    };
    let known = findings(&c.dir, &c.prop);
    let mut one = |sc: &Scenario| -> Option<String> {
        set_current(w, Some(sc));
        let r = judge(sc, &mut peer).unwrap_or(None);
        if r.is_none() && sc.prop == "C15" {
            // The peer may have died.
            if let (Some(p), Some(b)) = (peer.as_mut(), c.peer.as_ref()) {
                if p.seed("C15", 0).is_err() {
                    peer = Peer::new(b).ok();
                }
            }
        }
        set_current(w, None);
        r.filter(|m| !known.iter().any(|f| m.contains(&f.0)))
    };
    let whole = one(&sc);
    let (small, tried) = match whole {
        // A smaller scenario has to fail in the same way.
        Some(m) => {
            let k = kind(&m);
            minimise(&sc, Duration::from_secs(30), &mut |s| one(s).is_some_and(|m| kind(&m) == k))
        }
        None => (sc.clone(), 0),
    };
    let m1 = one(&small);
    let m2 = one(&small);
    let exact = m1.is_some() && m1 == m2;
    let msg = m1.unwrap_or_else(|| first.to_string());
    let dir = format!("{}/replays", c.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{:x}.json", c.prop, seed);
    let j = json::obj(vec![
        ("property", json::s(c.prop.clone())),
        ("seed", json::i(seed)),
        ("violation", json::s(msg.clone())),
        ("found_as", json::s(first)),
        ("reproduced_exactly", J::Bool(exact)),
        ("minimisation_runs", json::i(tried)),
        ("steps_before", json::i(sc.steps.len() as u64)),
        ("faults_before", json::i(sc.faults.len() as u64)),
        ("schedule_before", json::i(sc.pre.len() as u64)),
        ("scenario", small.to_json()),
    ]);
    if let Err(e) = std::fs::write(&path, j.dump()) {
        eprintln!("{path}: {e}");
    }
    println!("{} seed {seed}: {msg}", c.prop);
    println!(
        "minimised to {} steps, {} faults, {} preemptions in {tried} runs; replaying it {}",
        small.steps.len(),
        small.faults.len(),
        small.pre.len(),
        if exact { "gives the same violation" } else { "is not stable" }
    );
    println!("VIOLATION property={} replay={path}", c.prop);
    1
}

fn evidence(c: &Check, t: &Total, base: u64, search: Duration, wall: Duration, violated: bool) {
    let secs = search.as_secs_f64().max(0.001);
    let map = |m: &BTreeMap<&'static str, u64>| J::Obj(m.iter().map(|(k, v)| (k.to_string(), json::i(*v))).collect());
    let mut samples = vec![];
    let mut k = 0;
    while samples.len() < 2 && k < 200 {
        if let Ok(s) = scen::make(&c.prop, base + k) {
            if s.steps.len() <= 12 || k > 150 {
                samples.push(s.to_json());
            }
        }
        k += 1;
    }
    let cov = json::obj(vec![
        ("evaluations", json::i(t.runs)),
        ("distinct_nontrivial", json::i(t.digests.len() as u64)),
        ("rule", json::s(scen::rule(&c.prop))),
        ("samples", json::arr(samples)),
        ("seeds", json::s(format!("{}..{}", base, base + t.runs))),
        ("discarded", json::i(t.discarded)),
        ("runs_with_faults", json::i(t.with_fault)),
        ("runs_per_hour", json::i((t.runs as f64 / secs * 3600.0) as u64)),
        ("simulated_seconds", json::i((t.clock_ns / 1_000_000_000) as u64)),
        ("faults_injected", J::Obj(t.stats.iter().map(|(k, v)| (k.name().to_string(), json::i(*v))).collect())),
        ("operations", json::i(t.steps)),
        ("operations_by_kind", map(&t.ops)),
        ("operations_failed", json::i(t.errors)),
        ("device_calls", json::i(t.calls)),
        ("device_bytes", json::i(t.bytes)),
        ("comparisons_with_model", json::i(t.compared)),
        ("context_switches", json::i(t.switches)),
        ("modes", map(&t.modes)),
        ("geometries", json::i(t.geo.len() as u64)),
        ("volumes", json::i(t.trees.len() as u64)),
        ("peak_memory_of_one_operation", json::i(t.peak)),
        ("features_met", json::arr(t.feats.iter().map(|s| json::s(*s)).collect())),
        ("distinct_measure", json::s("64-bit digest over every device call (kind, position, length, outcome), the schedule and the injected faults")),
        (
            "components",
            json::s(scen::components(&c.prop)),
        ),
    ]);
    let j = json::obj(vec![
        ("property", json::s(c.prop.clone())),
        ("tier", json::s(if c.thorough { "thorough" } else { "quick" })),
        ("seed", json::i(c.seed)),
        ("level", json::s("exploration")),
        ("coverage", cov),
        (
            "assumptions",
            json::arr(
                scen::assumptions(&c.prop).iter().map(|s| json::s(*s)).collect(),
            ),
        ),
        ("wall_s", J::Num(wall.as_secs_f64())),
        ("violations", json::i(violated as u64)),
    ]);
    let dir = format!("{}/evidence", c.dir);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", c.prop), j.dump()) {
        eprintln!("evidence: {e}");
    }
}

pub fn replay(path: &str, bin: Option<String>) -> i32 {
    let j = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| J::parse(&t)) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let Some(sc) = j.get("scenario").and_then(Scenario::from_json) else {
        eprintln!("{path}: no scenario");
        return 2;
    };
    let want = j.get("violation").and_then(|s| s.str()).unwrap_or("").to_string();
    {
        let mut cur = CURRENT.lock().unwrap();
        cur.push(Current { sc: None, since: Instant::now(), cpu: 0, tid: tid(), ticks: 0 });
    }
    *REPLAY_DIR.lock().unwrap() = std::env::temp_dir().to_string_lossy().to_string();
    let done = Arc::new(AtomicBool::new(false));
    watchdog(done);
    set_worker(Some(0));
    let mut peer = bin.and_then(|b| Peer::new(&b).ok());
    set_current(0, Some(&sc));
    match judge(&sc, &mut peer) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(None) => {
            println!("no violation");
            0
        }
        Ok(Some(m)) => {
            println!("{m}");
            println!("{}", if m == want { "the same violation as recorded" } else { "not the violation as recorded" });
            println!("VIOLATION property={} replay={path}", sc.prop);
            1
        }
    }
}
