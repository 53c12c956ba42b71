//! The same simulator linked against the other build of the library (no_std), as a child process.
//! Requests and answers are single lines; the scenario is generated or parsed on both sides.
use crate::json::{self, J};
use crate::run::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// What a run observed, one line per observation.
pub fn observations(sc: &Scenario) -> Result<(u64, Vec<String>), String> {
    let o = execute(sc)?;
    let mut v = vec![];
    for (n, s) in &o.logs {
        let st = &sc.steps[*n];
        v.push(format!("step {n} {}: result {:?} after {} device calls, {} bytes", st.op.name(), s.res, s.tr.calls, s.tr.bytes));
        for l in &s.logs {
            v.push(format!("step {n} {}: {l}", st.op.name()));
        }
    }
    // Panics and exceeded budgets end a run; they have to be the same, too.
    for b in &o.bad {
        if b.1.contains("panic at") || b.1.contains("device calls and transferred") {
            v.push(b.1.lines().next().unwrap_or("").to_string());
        }
    }
    Ok((o.digest, v))
}

pub fn serve() -> i32 {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    set_worker(None);
    for l in stdin.lock().lines() {
        let Ok(l) = l else { break };
        let (cmd, arg) = l.split_at(1);
        let arg = arg.trim();
        let r = match cmd {
            "S" => {
                let (p, s) = arg.split_once(' ').unwrap_or((arg, "0"));
                crate::scen::make(p, s.parse().unwrap_or(0)).and_then(|sc| observations(&sc)).map(|(d, _)| format!("{d:016x}"))
            }
            "L" => J::parse(arg)
                .and_then(|j| Scenario::from_json(&j).ok_or("no scenario".to_string()))
                .and_then(|sc| observations(&sc))
                .map(|(d, v)| json::obj(vec![("digest", json::s(format!("{d:016x}"))), ("log", json::arr(v.into_iter().map(json::s).collect()))]).dump()),
            _ => Err("unknown request".into()),
        };
        let line = match r {
            Ok(s) => s.replace('\n', " "),
            Err(e) => format!("error {}", e.replace('\n', " ")),
        };
        if writeln!(out, "{line}").and_then(|_| out.flush()).is_err() {
            break;
        }
    }
    0
}

pub struct Peer {
    child: Child,
    w: ChildStdin,
    r: BufReader<ChildStdout>,
}

impl Peer {
    pub fn new(bin: &str) -> Result<Peer, String> {
        let mut child =
            Command::new(bin).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| format!("cannot start {bin}: {e}"))?;
        let w = child.stdin.take().ok_or("no stdin")?;
        let r = BufReader::new(child.stdout.take().ok_or("no stdout")?);
        Ok(Peer { child, w, r })
    }
    fn ask(&mut self, q: &str) -> Result<String, String> {
        writeln!(self.w, "{q}").and_then(|_| self.w.flush()).map_err(|e| format!("peer: {e}"))?;
        let mut s = String::new();
        match self.r.read_line(&mut s) {
            Ok(n) if n > 0 => Ok(s.trim_end().to_string()),
            _ => Err("the no_std process ended".into()),
        }
    }
    pub fn seed(&mut self, prop: &str, seed: u64) -> Result<String, String> {
        self.ask(&format!("S {prop} {seed}"))
    }
    pub fn log(&mut self, sc: &Scenario) -> Result<(String, Vec<String>), String> {
        let a = self.ask(&format!("L {}", sc.to_json().dump().replace('\n', " ")))?;
        let j = J::parse(&a)?;
        let d = j.get("digest").and_then(|d| d.str()).ok_or("no digest")?.to_string();
        let v = j.get("log").and_then(|l| l.arr()).ok_or("no log")?.iter().filter_map(|s| s.str().map(|s| s.to_string())).collect();
        Ok((d, v))
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Compares both builds on one scenario.
pub fn compare(p: &mut Peer, sc: &Scenario) -> Result<Option<String>, String> {
    let (d, v) = observations(sc)?;
    let (pd, pv) = p.log(sc)?;
    if format!("{d:016x}") == pd {
        return Ok(None);
    }
    let flat = |v: &[String]| -> Vec<String> { v.iter().map(|s| s.replace('\n', " ")).collect() };
    let (v, pv) = (flat(&v), flat(&pv));
    let n = v.iter().zip(pv.iter()).position(|(a, b)| a != b).unwrap_or(v.len().min(pv.len()));
    let c = |v: &[String]| v.get(n).map(|s| s.chars().take(300).collect::<String>()).unwrap_or_else(|| "nothing".into());
    if v == pv {
        return Ok(Some("the builds issue different device calls".into()));
    }
    Ok(Some(format!("std build observes [{}], no_std build observes [{}]", c(&v), c(&pv))))
}
