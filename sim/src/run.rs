//! Executes scenarios: one scenario is one exactly repeatable run of the real library on a
//! simulated device, together with everything needed to judge it.
use crate::disk::*;
use crate::gen::StepTrace;
use crate::hurt::{self, Hurt};
use crate::json::{self, J};
use crate::rng::*;
use crate::vol::*;
use crate::world::*;
use binrw::io::ErrorKind;
use ntfs::{Ntfs, NtfsError};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Mode {
    /// The device works (possibly with short counts, interruptions and delays).
    Clean,
    /// The device fails; failures must be reported.
    Faulty,
    /// The device fails now and then; failed operations are repeated on the same handle.
    Retry,
    /// A writer is caught in the middle of updating records.
    Torn,
    /// The medium is damaged arbitrarily.
    Corrupt,
    /// A metadata block is replaced by something else.
    Foreign,
    /// One element inside a structure cannot be decoded.
    Hurt,
    /// Several clients interleaved on one device.
    Inter,
    /// Several tasks on one `Ntfs`, preempted at device calls.
    Threads,
    /// The library on top of the sector reader.
    Sector,
    /// Raw operations on the sector reader.
    Raw,
    /// A boot sector that has to be refused.
    BadBoot,
}
const MODES: &[(Mode, &str)] = &[
    (Mode::Clean, "clean"),
    (Mode::Faulty, "faulty"),
    (Mode::Retry, "retry"),
    (Mode::Torn, "torn"),
    (Mode::Corrupt, "corrupt"),
    (Mode::Foreign, "foreign"),
    (Mode::Hurt, "undecodable_element"),
    (Mode::Inter, "interleaved"),
    (Mode::Threads, "threads"),
    (Mode::Sector, "sector"),
    (Mode::Raw, "raw_sector"),
    (Mode::BadBoot, "bad_boot"),
];

impl Mode {
    pub fn name(self) -> &'static str {
        MODES.iter().find(|x| x.0 == self).unwrap().1
    }
}

/// The scheduler lets task `to` run when `task` is about to make its device call number `call`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pre {
    pub task: u32,
    pub call: u32,
    pub to: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub mode: Mode,
    pub spec: VolSpec,
    pub rev: Option<Rev>,
    pub steps: Vec<Step>,
    pub faults: Vec<Fault>,
    pub pre: Vec<Pre>,
    pub tasks: u32,
    /// Sector size of the sector reader (modes Sector and Raw).
    pub sector: u64,
}

impl Scenario {
    pub fn to_json(&self) -> J {
        let st = |s: &Step| {
            json::arr(vec![json::s(s.op.name()), json::i(s.task), json::i(s.d), json::i(s.s), json::i(s.a), json::i(s.b), json::i(s.c)])
        };
        let ft = |f: &Fault| {
            json::arr(vec![
                json::s(f.k.name()),
                json::i(f.task),
                json::i(f.step),
                json::i(f.attempt),
                json::i(f.call),
                json::i(f.x),
                json::i(f.y),
                json::i(f.z),
            ])
        };
        json::obj(vec![
            ("property", json::s(self.prop.clone())),
            ("seed", json::i(self.seed)),
            ("mode", json::s(self.mode.name())),
            ("volume", self.spec.to_json()),
            (
                "revision",
                match &self.rev {
                    None => J::Null,
                    Some(r) => json::arr(vec![json::i(r.target as u64), json::i(r.is_idx as u8), json::i(r.rev), json::i(r.usn)]),
                },
            ),
            ("steps", json::arr(self.steps.iter().map(st).collect())),
            ("faults", json::arr(self.faults.iter().map(ft).collect())),
            ("schedule", json::arr(self.pre.iter().map(|p| json::arr(vec![json::i(p.task), json::i(p.call), json::i(p.to)])).collect())),
            ("tasks", json::i(self.tasks)),
            ("sector", json::i(self.sector)),
        ])
    }
    pub fn from_json(j: &J) -> Option<Scenario> {
        let u = |j: &J| j.int().map(|v| v as u64);
        let mut steps = vec![];
        for s in j.get("steps")?.arr()? {
            let a = s.arr()?;
            steps.push(Step {
                op: Op::from_name(a[0].str()?)?,
                task: u(&a[1])? as u8,
                d: u(&a[2])? as u8,
                s: u(&a[3])? as u8,
                a: u(&a[4])?,
                b: u(&a[5])?,
                c: u(&a[6])?,
            });
        }
        let mut faults = vec![];
        for s in j.get("faults")?.arr()? {
            let a = s.arr()?;
            faults.push(Fault {
                k: FK::from_name(a[0].str()?)?,
                task: u(&a[1])? as u32,
                step: u(&a[2])? as u32,
                attempt: u(&a[3])? as u32,
                call: u(&a[4])? as u32,
                x: u(&a[5])?,
                y: u(&a[6])?,
                z: u(&a[7])?,
            });
        }
        let mut pre = vec![];
        for s in j.get("schedule")?.arr()? {
            let a = s.arr()?;
            pre.push(Pre { task: u(&a[0])? as u32, call: u(&a[1])? as u32, to: u(&a[2])? as u32 });
        }
        let m = j.get("mode")?.str()?;
        Some(Scenario {
            prop: j.get("property")?.str()?.to_string(),
            seed: u(j.get("seed")?)?,
            mode: MODES.iter().find(|x| x.1 == m)?.0,
            spec: VolSpec::from_json(j.get("volume")?)?,
            rev: match j.get("revision")? {
                J::Arr(a) => Some(Rev { target: u(&a[0])? as usize, is_idx: u(&a[1])? != 0, rev: u(&a[2])?, usn: a.get(3).and_then(u).unwrap_or(0) as u16 }),
                _ => None,
            },
            steps,
            faults,
            pre,
            tasks: u(j.get("tasks")?)? as u32,
            sector: u(j.get("sector")?)?,
        })
    }
}

// ---- panics and fatal events ---------------------------------------------------------------------

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static WORKER: RefCell<Option<usize>> = const { RefCell::new(None) };
}

pub fn set_worker(n: Option<usize>) {
    WORKER.with(|w| *w.borrow_mut() = n);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(b) = i.payload().downcast_ref::<Budget>() {
            b.0.clone()
        } else {
            let p = i.payload();
            let t = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                    format!("{f}:{}", l.line())
                })
                .unwrap_or_default();
            format!("panic at {l}: {t}")
        };
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

pub struct Current {
    pub sc: Option<Arc<Scenario>>,
    pub since: Instant,
    pub cpu: u64,
    pub tid: u64,
    pub ticks: u64,
}
pub static CURRENT: Mutex<Vec<Current>> = Mutex::new(Vec::new());
pub static REPLAY_DIR: Mutex<String> = Mutex::new(String::new());

/// Ends the process with a report about the current run of this thread.
pub fn fatal(msg: &str) -> ! {
    let w = WORKER.try_with(|w| *w.borrow()).ok().flatten();
    fatal_for(w, msg)
}

pub fn fatal_for(w: Option<usize>, msg: &str) -> ! {
    let cur = match CURRENT.try_lock() {
        Ok(c) => w.and_then(|w| c.get(w).and_then(|c| c.sc.clone())),
        Err(_) => None,
    };
    match cur {
        Some(sc) => {
            let dir = REPLAY_DIR.lock().map(|d| d.clone()).unwrap_or_default();
            let path = format!("{dir}/{}-fatal-{:x}.json", sc.prop, sc.seed);
            let j = json::obj(vec![
                ("property", json::s(sc.prop.clone())),
                ("violation", json::s(msg)),
                ("fatal", J::Bool(true)),
                ("scenario", sc.to_json()),
            ]);
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(&path, j.dump());
            println!("{} seed {:#x}: {msg}", sc.prop, sc.seed);
            println!("VIOLATION property={} replay={path}", sc.prop);
        }
        None => println!("fatal: {msg}"),
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}

extern "C" {
    fn _exit(code: i32) -> !;
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

// ---- histories -----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    Clean,
    Faulty,
    Retry,
    /// Errors are fine, results are not judged here.
    Relaxed,
    /// Errors are fine, results have to be right.
    Foreign,
}

#[derive(Clone, Debug, Default)]
pub struct StepRes {
    /// None: not executed; Some(Ok(applicable)); Some(Err(name)).
    pub res: Option<Result<bool, String>>,
    pub logs: Vec<String>,
    pub tr: StepTrace,
    pub tries: u32,
}

#[derive(Default)]
pub struct Hist {
    pub bad: Vec<(Cl, String)>,
    pub steps: Vec<StepRes>,
    pub stats: BTreeMap<FK, u64>,
    pub digest: u64,
    pub clock_ns: u64,
    pub calls: u64,
    pub bytes: u64,
    pub compared: u64,
    pub errors: u64,
    pub feats: BTreeSet<&'static str>,
    pub peak: u64,
}

pub struct Cfg<'a> {
    pub vol: &'a Arc<Volume>,
    pub alt: Option<Arc<Image>>,
    pub plan: Vec<Fault>,
    pub steps: &'a [(usize, Step)],
    pub policy: Policy,
    pub log: bool,
    pub work: bool,
    pub sector: u64,
    pub keep_trace: bool,
    pub check_align: bool,
    pub stop_on_bad: bool,
    pub err_pos: bool,
    pub hurt: Option<Hurt>,
}

impl<'a> Cfg<'a> {
    pub fn new(vol: &'a Arc<Volume>, steps: &'a [(usize, Step)], policy: Policy) -> Self {
        Cfg { vol, alt: None, plan: vec![], steps, policy, log: false, work: false, sector: 0, keep_trace: false, check_align: false, stop_on_bad: true, err_pos: false, hurt: None }
    }
}

fn hard_io(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

/// Memory one operation may hold on top of what it returns.
pub const MAX_MEM: u64 = 24 << 20;

#[cfg(feature = "std")]
fn make_dev(core: &Shared, task: usize, sector: u64, size: u64, raw: bool) -> Result<Dev, String> {
    let d = SimDev::new(core.clone(), task);
    if sector == 0 {
        return Ok(Dev::Plain(d));
    }
    let d = SectorDev::new(d, sector, size, !raw).map_err(|e| format!("SectorReader::new fails: {e}"))?;
    Ok(if raw { Dev::Sector(d) } else { Dev::Buffered(Box::new(std::io::BufReader::new(d))) })
}
#[cfg(not(feature = "std"))]
fn make_dev(core: &Shared, task: usize, _: u64, _: u64, _: bool) -> Result<Dev, String> {
    Ok(Dev::Plain(SimDev::new(core.clone(), task)))
}

fn lock(c: &Shared) -> std::sync::MutexGuard<'_, Core> {
    match c.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn execute_step(w: &mut World, core: &Shared, task: usize, n: usize, st: &Step, cfg_policy: Policy, cfg: &StepCfg, h: &mut Hist) -> StepRes {
    let mut out = StepRes::default();
    let mut attempt = 0u32;
    loop {
        lock(core).begin_step(task, n as u32, attempt);
        w.allow = 0;
        w.logs.clear();
        w.ctx = if attempt == 0 { format!("step {n} {}: ", st.op.name()) } else { format!("step {n} {} (attempt {}): ", st.op.name(), attempt + 1) };
        crate::alloc::arm();
        let r = guarded(|| w.exec(st));
        let peak = crate::alloc::disarm();
        h.peak = h.peak.max(peak);
        if let (true, Ok(Err(e))) = (w.opts.err_pos, &r) {
            w.check_err_pos(e);
        }
        out.logs.append(&mut w.logs);
        let (fired, bytes, reads) = {
            let mut c = lock(core);
            let t = &mut c.tasks[task];
            let f = std::mem::take(&mut t.fired);
            let bytes = t.bytes;
            out.tr.calls = t.call;
            out.tr.bytes = bytes;
            if cfg.check_align {
                let ss = cfg.sector;
                for k in &t.trace {
                    if k.pos % ss != 0 || k.len % ss != 0 {
                        h.bad.push((Cl::Sector, format!("{}the sector reader issues an unaligned access: {k:?}", w.ctx)));
                        break;
                    }
                }
            }
            if cfg.keep_trace {
                out.tr.trace = std::mem::take(&mut t.trace);
            }
            (f, bytes, t.reads)
        };
        let _ = reads;
        out.tries = attempt + 1;
        if peak > MAX_MEM && w.opts.relaxed {
            h.bad.push((Cl::Work, format!("{}the operation held {peak} bytes of memory", w.ctx)));
        }
        h.bad.append(&mut w.bad);
        match r {
            Err(p) => {
                h.bad.push((Cl::Err, format!("{}{p}", w.ctx)));
                out.res = Some(Err("panic".into()));
                return out;
            }
            Ok(Ok(a)) => {
                out.res = Some(Ok(a));
                if cfg.work && a && bytes > w.allow {
                    h.bad.push((Cl::Work, format!("{}read {bytes} bytes from the device where {} are sufficient", w.ctx, w.allow)));
                }
                return out;
            }
            Ok(Err(e)) => {
                let name = err_name(&e);
                h.errors += 1;
                if w.opts.log {
                    out.logs.push(format!("error={name}"));
                }
                out.res = Some(Err(name.clone()));
                let legit = hard_io(&e).map(|k| fired.contains(&k)).unwrap_or(false);
                match cfg_policy {
                    Policy::Clean => {
                        h.bad.push((Cl::Err, format!("{}unexpected error {e:?}", w.ctx)));
                        return out;
                    }
                    Policy::Faulty | Policy::Retry => {
                        if !legit {
                            let f: Vec<String> = fired.iter().map(|k| kind_name(*k)).collect();
                            h.bad.push((
                                Cl::Err,
                                if fired.is_empty() {
                                    format!("{}error {e:?} although the device did not fail", w.ctx)
                                } else {
                                    format!("{}error {e:?} where the device failed with {f:?}", w.ctx)
                                },
                            ));
                            return out;
                        }
                        if !h.bad.is_empty() {
                            return out;
                        }
                        if cfg_policy == Policy::Retry || st.op == Op::Mount {
                            attempt += 1;
                            if attempt > 5 {
                                if cfg_policy == Policy::Retry {
                                    h.bad.push((Cl::Retry, format!("{}does not succeed although faults have stopped", w.ctx)));
                                }
                                return out;
                            }
                            continue;
                        }
                        return out;
                    }
                    Policy::Relaxed => {
                        w.forget_dest(st);
                        return out;
                    }
                    Policy::Foreign => {
                        if w.hurt.is_some() && !legit && !w.may_fail(st) {
                            h.bad.push((Cl::Err, format!("{}error {e:?} although nothing this operation needs is damaged ({:?})", w.ctx, w.hurt.as_ref().unwrap())));
                        }
                        w.forget_dest(st);
                        return out;
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, Default)]
pub struct StepCfg {
    pub work: bool,
    pub keep_trace: bool,
    pub check_align: bool,
    pub sector: u64,
}

pub fn run_history(cfg: Cfg) -> Hist {
    let mut h = Hist::default();
    let core: Shared = Arc::new(Mutex::new(Core::new(cfg.vol.img.clone(), cfg.alt.clone(), cfg.plan.clone(), 1)));
    lock(&core).strict_end = cfg.sector != 0;
    h.steps = vec![StepRes::default(); cfg.steps.len()];
    let relaxed = cfg.policy == Policy::Relaxed;
    let dev = match guarded(|| make_dev(&core, 0, cfg.sector, cfg.vol.img.size, cfg.steps.iter().any(|s| s.1.op == Op::SecOp))) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) | Err(e) => {
            h.bad.push((Cl::Sector, e));
            return h;
        }
    };
    let opts = Opts { relaxed, log: cfg.log, max_items: if relaxed { 100_000 } else { 2_000_000 }, err_pos: cfg.err_pos };
    let mut w = World::new(cfg.vol.clone(), core.clone(), 0, dev, opts);
    w.hurt = cfg.hurt;
    let sc = StepCfg { work: cfg.work, keep_trace: cfg.keep_trace, check_align: cfg.check_align, sector: cfg.sector };
    for (k, (n, st)) in cfg.steps.iter().enumerate() {
        let r = execute_step(&mut w, &core, 0, *n, st, cfg.policy, &sc, &mut h);
        let panicked = matches!(&r.res, Some(Err(e)) if e == "panic");
        h.steps[k] = r;
        if panicked || (cfg.stop_on_bad && !h.bad.is_empty()) {
            break;
        }
    }
    h.compared = w.compared;
    h.feats = std::mem::take(&mut w.feats);
    for b in h.bad.iter_mut() {
        b.1.insert_str(0, w.dev.note());
    }
    if let Err(p) = guarded(move || drop(w)) {
        h.bad.push((Cl::Err, format!("dropping the handles: {p}")));
    }
    finish(&mut h, &core);
    h
}

fn finish(h: &mut Hist, core: &Shared) {
    let c = lock(core);
    h.digest = c.digest.0;
    h.clock_ns = c.clock_ns;
    h.calls = c.calls;
    h.bytes = c.bytes;
    h.stats = c.stats.clone();
}

// ---- concurrent tasks ----------------------------------------------------------------------------

struct Baton {
    turn: usize,
    done: Vec<bool>,
    calls: Vec<u32>,
    pre: Vec<(Pre, bool)>,
    switches: u64,
    order: Digest,
    ticks: u64,
}

pub struct Sched {
    m: Mutex<Baton>,
    cv: Condvar,
}

impl Sched {
    fn wait<'a>(&'a self, mut g: std::sync::MutexGuard<'a, Baton>, task: usize) -> std::sync::MutexGuard<'a, Baton> {
        while g.turn != task {
            let t = g.ticks;
            let (n, to) = self.cv.wait_timeout(g, Duration::from_secs(5)).unwrap();
            g = n;
            if to.timed_out() && g.ticks == t && g.turn != task {
                // The running task is blocked by something the simulator does not control (a lock
                // inside the library): let another one run.
                g.turn = task;
                self.cv.notify_all();
            }
        }
        g
    }
    fn finish(&self, task: usize) {
        let mut g = self.m.lock().unwrap();
        g.done[task] = true;
        if g.turn == task {
            if let Some(n) = g.done.iter().position(|d| !d) {
                g.turn = n;
            }
        }
        g.ticks += 1;
        self.cv.notify_all();
    }
}

impl Yielder for Sched {
    fn pause(&self, task: usize) {
        let mut g = self.m.lock().unwrap();
        g.ticks += 1;
        g = self.wait(g, task);
        g.calls[task] += 1;
        let c = g.calls[task];
        let mut to = None;
        for (p, used) in g.pre.iter_mut() {
            if !*used && p.task as usize == task && p.call == c {
                *used = true;
                to = Some(p.to as usize);
                break;
            }
        }
        if let Some(to) = to {
            if to < g.done.len() && to != task && !g.done[to] {
                g.turn = to;
                g.switches += 1;
                g.order.u64(((task as u64) << 32) | c as u64);
                g.order.u64(to as u64);
                self.cv.notify_all();
                g = self.wait(g, task);
            }
        }
        drop(g);
    }
}

struct SendPtr(usize);

pub struct ThreadsOut {
    pub hists: Vec<Hist>,
    pub switches: u64,
    pub order: u64,
    pub stats: BTreeMap<FK, u64>,
    pub clock_ns: u64,
    pub calls: u64,
    pub bytes: u64,
    pub digest: u64,
    pub mount_failed: Option<String>,
}

pub fn run_threads(vol: &Arc<Volume>, tasks: &[Vec<(usize, Step)>], pre: &[Pre], plan: &[Fault]) -> ThreadsOut {
    let n = tasks.len();
    let mut out = ThreadsOut { hists: vec![], switches: 0, order: 0, stats: BTreeMap::new(), clock_ns: 0, calls: 0, bytes: 0, digest: 0, mount_failed: None };
    let core: Shared = Arc::new(Mutex::new(Core::new(vol.img.clone(), None, plan.to_vec(), n + 1)));
    let ntfs = {
        let mut d = SimDev::new(core.clone(), n);
        lock(&core).begin_step(n, u32::MAX, 0);
        let r = guarded(|| -> Result<Ntfs, NtfsError> {
            let mut x = Ntfs::new(&mut d)?;
            x.read_upcase_table(&mut d)?;
            Ok(x)
        });
        match r {
            Ok(Ok(x)) => Box::new(x),
            Ok(Err(e)) => {
                out.mount_failed = Some(format!("{e:?}"));
                return out;
            }
            Err(p) => {
                out.mount_failed = Some(p);
                return out;
            }
        }
    };
    let ptr = SendPtr(&*ntfs as *const Ntfs as usize);
    let sched = Arc::new(Sched {
        m: Mutex::new(Baton {
            turn: 0,
            done: vec![false; n],
            calls: vec![0; n],
            pre: pre.iter().map(|p| (*p, false)).collect(),
            switches: 0,
            order: Digest::default(),
            ticks: 0,
        }),
        cv: Condvar::new(),
    });
    let worker = WORKER.with(|w| *w.borrow());
    let hists: Vec<Hist> = std::thread::scope(|s| {
        let mut hs = vec![];
        for (t, steps) in tasks.iter().enumerate() {
            let (core, sched, vol, ptr) = (core.clone(), sched.clone(), vol.clone(), ptr.0);
            hs.push(s.spawn(move || {
                set_worker(worker);
                let mut h = Hist::default();
                {
                    let mut d = SimDev::new(core.clone(), t);
                    d.yielder = Some(sched.clone());
                    let opts = Opts { relaxed: false, log: true, max_items: 2_000_000, err_pos: false };
                    let mut w = World::new(vol, core.clone(), t, Dev::Plain(d), opts);
                    w.ntfs = Some(unsafe { &*(ptr as *const Ntfs) });
                    w.has_upcase = true;
                    for (k, st) in steps {
                        sched.pause(t);
                        let r = execute_step(&mut w, &core, t, *k, st, Policy::Faulty, &StepCfg::default(), &mut h);
                        let panicked = matches!(&r.res, Some(Err(e)) if e == "panic");
                        h.steps.push(r);
                        if panicked {
                            break;
                        }
                    }
                    h.compared = w.compared;
                    let _ = guarded(move || drop(w));
                }
                sched.finish(t);
                h
            }));
        }
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let b = sched.m.lock().unwrap();
    out.switches = b.switches;
    out.order = b.order.0;
    out.hists = hists;
    let c = lock(&core);
    out.stats = c.stats.clone();
    out.clock_ns = c.clock_ns;
    out.calls = c.calls;
    out.bytes = c.bytes;
    out.digest = c.digest.0;
    drop(c);
    drop(ntfs);
    out
}

// ---- scenarios -----------------------------------------------------------------------------------

#[derive(Default, Clone)]
pub struct Out {
    pub bad: Vec<(Cl, String)>,
    /// Digest of the device trace and schedule: identifies the execution.
    pub digest: u64,
    pub stats: BTreeMap<FK, u64>,
    pub clock_ns: u64,
    pub calls: u64,
    pub bytes: u64,
    pub compared: u64,
    pub errors: u64,
    pub steps: u64,
    pub switches: u64,
    pub discarded: bool,
    pub feats: BTreeSet<&'static str>,
    pub ops: BTreeMap<&'static str, u64>,
    pub peak: u64,
    pub logs: Vec<(usize, StepRes)>,
}

type VolKey = (VolSpec, Option<Rev>);
thread_local! {
    static VOLS: RefCell<Vec<(VolKey, Arc<Volume>)>> = const { RefCell::new(Vec::new()) };
}

/// The volume of a recipe. Panics of the generator itself are bugs of this program.
pub fn volume(spec: &VolSpec, rev: Option<Rev>) -> Result<Arc<Volume>, String> {
    let key = (spec.clone(), rev);
    if let Some(v) = VOLS.with(|v| v.borrow().iter().find(|x| x.0 == key).map(|x| x.1.clone())) {
        return Ok(v);
    }
    let v = guarded(|| Arc::new(build(spec, rev)))?;
    VOLS.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() >= 4 {
            c.remove(0);
        }
        c.push((key, v.clone()));
    });
    Ok(v)
}

/// The result classes a property is about.
pub fn classes(prop: &str) -> &'static [Cl] {
    match prop {
        "C01" => &[Cl::Data, Cl::Err],
        "C02" => &[Cl::Cursor, Cl::Data, Cl::Err],
        "C08" => &[Cl::Find, Cl::Err],
        "C09" => &[Cl::Enum, Cl::Err],
        "C10" => &[Cl::Attr, Cl::Err],
        "C11" => &[Cl::Meta, Cl::Err],
        "C12" => &[Cl::Loc, Cl::Meta, Cl::Err],
        "C13" => &[Cl::Pos, Cl::Err],
        "C14" => &[Cl::Work],
        _ => ALL_CL,
    }
}

fn numbered(steps: &[Step]) -> Vec<(usize, Step)> {
    steps.iter().cloned().enumerate().collect()
}

fn absorb(out: &mut Out, h: Hist, steps: &[(usize, Step)]) -> Vec<StepRes> {
    for (k, v) in h.stats {
        *out.stats.entry(k).or_insert(0) += v;
    }
    out.clock_ns += h.clock_ns;
    out.calls += h.calls;
    out.bytes += h.bytes;
    out.compared += h.compared;
    out.errors += h.errors;
    out.feats.extend(h.feats);
    out.peak = out.peak.max(h.peak);
    out.digest = mix(out.digest ^ h.digest);
    for (k, s) in h.steps.iter().enumerate() {
        if s.res.as_ref().map(|r| r != &Ok(false)).unwrap_or(false) {
            out.steps += 1;
            *out.ops.entry(steps[k].1.op.name()).or_insert(0) += 1;
        }
    }
    h.steps
}

/// Runs a scenario. `Err`: the scenario itself is broken (a bug of this program).
pub fn execute(sc: &Scenario) -> Result<Out, String> {
    let mut out = Out::default();
    let vol = volume(&sc.spec, sc.rev.filter(|r| r.usn != 0).map(|r| Rev { rev: 0, ..r }))?;
    let steps = numbered(&sc.steps);
    let cl = classes(&sc.prop);
    match sc.mode {
        Mode::Clean | Mode::Faulty | Mode::Retry | Mode::Corrupt => {
            let policy = match sc.mode {
                Mode::Clean => Policy::Clean,
                Mode::Faulty => Policy::Faulty,
                Mode::Retry => Policy::Retry,
                _ => Policy::Relaxed,
            };
            let log = sc.prop == "C15";
            let mut cfg = Cfg::new(&vol, &steps, policy);
            cfg.plan = sc.faults.clone();
            cfg.log = log;
            cfg.work = sc.prop == "C14";
            cfg.err_pos = sc.prop == "C13";
            let mut h = run_history(cfg);
            out.bad = std::mem::take(&mut h.bad);
            let logs = absorb(&mut out, h, &steps);
            if log {
                let mut d = Digest(out.digest);
                for s in &logs {
                    d.str(&format!("{:?}", s.res));
                    for l in &s.logs {
                        d.str(l);
                    }
                }
                for b in &out.bad {
                    d.str(&b.1);
                }
                out.digest = d.0;
                out.logs = logs.into_iter().enumerate().collect();
                // Judged by comparing the builds only.
                return Ok(out);
            }
            // Properties about faults are not judged where the fault-free run is wrong already.
            if !out.bad.is_empty() && matches!(sc.mode, Mode::Faulty | Mode::Retry) {
                let b = run_history(Cfg::new(&vol, &steps, Policy::Clean));
                if !b.bad.is_empty() {
                    out.bad.clear();
                    out.discarded = true;
                }
            }
        }
        Mode::BadBoot => {
            let mut cfg = Cfg::new(&vol, &steps, Policy::Relaxed);
            cfg.plan = sc.faults.clone();
            let mut h = run_history(cfg);
            out.bad = std::mem::take(&mut h.bad);
            let damaged = h.stats.keys().any(|k| k.is_media());
            let r = absorb(&mut out, h, &steps);
            if out.bad.is_empty() && damaged {
                for (k, st) in &steps {
                    if st.op == Op::Mount && st.c == 1 {
                        out.compared += 1;
                        if r[*k].res == Some(Ok(true)) {
                            out.bad.push((Cl::Loc, format!("step {k}: a boot sector violating the documented limits is accepted ({:?})", sc.faults)));
                        }
                    }
                }
            }
        }
        Mode::Foreign => {
            let mut cfg = Cfg::new(&vol, &steps, Policy::Foreign);
            cfg.plan = sc.faults.clone();
            let mut h = run_history(cfg);
            out.bad = std::mem::take(&mut h.bad);
            let when = sc.faults.iter().filter(|f| f.k.is_media()).map(|f| (f.step, f.call)).min();
            let r = absorb(&mut out, h, &steps);
            if out.bad.is_empty() {
                for (k, st) in &steps {
                    let must = (st.op == Op::Mount && st.c == 1) || (st.op == Op::Open && st.c == 1) || (st.op == Op::RecVcn && st.a == 1);
                    if must && when.map(|w| w.0 <= *k as u32 && w.1 == 0).unwrap_or(false) {
                        out.compared += 1;
                        if r[*k].res == Some(Ok(true)) {
                            out.bad.push((Cl::Err, format!("step {k} {}: the replaced block is accepted", st.op.name())));
                            break;
                        }
                    }
                }
            }
            if !out.bad.is_empty() {
                let b = run_history(Cfg::new(&vol, &steps, Policy::Clean));
                if !b.bad.is_empty() {
                    out.bad.clear();
                    out.discarded = true;
                }
            }
        }
        Mode::Hurt => {
            let mut cfg = Cfg::new(&vol, &steps, Policy::Foreign);
            let mut n = 0;
            for f in &sc.faults {
                if f.k != FK::Elem {
                    cfg.plan.push(f.clone());
                } else if let (None, Some((h, sets))) = (&cfg.hurt, hurt::expand(&vol, f.z)) {
                    cfg.hurt = Some(h);
                    n += 1;
                    cfg.plan.extend(sets.iter().map(|s| Fault { k: FK::Set, x: s.0, y: 1, z: s.1, ..f.clone() }));
                }
            }
            if n == 0 {
                cfg.policy = Policy::Clean;
            }
            let mut h = run_history(cfg);
            if n > 0 {
                h.stats.remove(&FK::Set);
                h.stats.insert(FK::Elem, n);
            }
            out.bad = std::mem::take(&mut h.bad);
            absorb(&mut out, h, &steps);
            if !out.bad.is_empty() {
                let b = run_history(Cfg::new(&vol, &steps, Policy::Clean));
                if !b.bad.is_empty() {
                    out.bad.clear();
                    out.discarded = true;
                }
            }
        }
        Mode::Torn => torn(sc, &vol, &steps, &mut out)?,
        Mode::Inter => inter(sc, &vol, &mut out),
        Mode::Threads => threads(sc, &vol, &mut out),
        Mode::Sector | Mode::Raw => {
            let mut cfg = Cfg::new(&vol, &steps, Policy::Faulty);
            cfg.plan = sc.faults.clone();
            cfg.sector = sc.sector;
            cfg.check_align = true;
            let mut h = run_history(cfg);
            out.bad = std::mem::take(&mut h.bad);
            absorb(&mut out, h, &steps);
            if !out.bad.is_empty() && sc.mode == Mode::Sector && !out.bad.iter().any(|b| b.0 == Cl::Sector) {
                // The same on the plain device.
                let mut cfg = Cfg::new(&vol, &steps, Policy::Faulty);
                cfg.plan = sc.faults.iter().filter(|f| !f.k.is_media()).cloned().collect();
                let b = run_history(cfg);
                let c = run_history(Cfg::new(&vol, &steps, Policy::Clean));
                if !b.bad.is_empty() || !c.bad.is_empty() {
                    out.bad.clear();
                    out.discarded = true;
                }
            }
        }
    }
    out.bad.retain(|b| cl.contains(&b.0));
    Ok(out)
}

fn same(a: &StepRes, b: &StepRes) -> Option<String> {
    if a.res != b.res {
        return Some(format!("result {:?} instead of {:?}", b.res, a.res));
    }
    if a.logs != b.logs {
        let n = a.logs.iter().zip(b.logs.iter()).position(|(x, y)| x != y).unwrap_or(a.logs.len().min(b.logs.len()));
        let cut = |s: Option<&String>| s.map(|s| s.chars().take(200).collect::<String>()).unwrap_or_else(|| "nothing".into());
        return Some(format!("observes {} instead of {}", cut(b.logs.get(n)), cut(a.logs.get(n))));
    }
    None
}

/// Interleaved clients on one device: each has to observe what it observes alone.
fn inter(sc: &Scenario, vol: &Arc<Volume>, out: &mut Out) {
    let steps = numbered(&sc.steps);
    let mut cfg = Cfg::new(vol, &steps, Policy::Faulty);
    cfg.log = true;
    cfg.plan = sc.faults.clone();
    cfg.stop_on_bad = false;
    let h = run_history(cfg);
    let all = absorb(out, h, &steps);
    for t in 0..sc.tasks.max(1) as u8 {
        let mine: Vec<(usize, Step)> = steps.iter().filter(|(_, s)| s.op != Op::Foreign && (s.op == Op::Mount || s.task == t)).cloned().collect();
        let mut cfg = Cfg::new(vol, &mine, Policy::Faulty);
        cfg.log = true;
        cfg.plan = sc.faults.clone();
        cfg.stop_on_bad = false;
        let b = run_history(cfg);
        for (k, (n, st)) in mine.iter().enumerate() {
            out.compared += 1;
            if let Some(m) = same(&b.steps[k], &all[*n]) {
                out.bad.push((Cl::Data, format!("step {n} {} of client {t}: interleaved with others it {m}", st.op.name())));
                return;
            }
        }
    }
}

fn threads(sc: &Scenario, vol: &Arc<Volume>, out: &mut Out) {
    let steps = numbered(&sc.steps);
    let n = sc.tasks.max(1) as usize;
    let tasks: Vec<Vec<(usize, Step)>> = (0..n).map(|t| steps.iter().filter(|(_, s)| s.task as usize == t && s.op != Op::Mount).cloned().collect()).collect();
    let mut base = vec![];
    for (t, steps) in tasks.iter().enumerate() {
        // Alone: the same task with nobody else around.
        let mut only: Vec<Vec<(usize, Step)>> = vec![vec![]; n];
        only[t] = steps.clone();
        let mut o = run_threads(vol, &only, &[], &sc.faults);
        if let Some(_m) = o.mount_failed {
            out.discarded = true;
            return;
        }
        base.push(o.hists.remove(t));
    }
    let o = run_threads(vol, &tasks, &sc.pre, &sc.faults);
    out.switches = o.switches;
    out.digest = mix(o.digest ^ o.order);
    out.clock_ns = o.clock_ns;
    out.calls = o.calls;
    out.bytes = o.bytes;
    out.stats = o.stats;
    for t in 0..n {
        let h = &o.hists[t];
        for (k, (num, st)) in tasks[t].iter().enumerate() {
            let (Some(a), Some(b)) = (base[t].steps.get(k), h.steps.get(k)) else {
                if base[t].steps.get(k).is_some() != h.steps.get(k).is_some() {
                    out.bad.push((Cl::Data, format!("step {num} {} of task {t}: only executed {}", st.op.name(), if h.steps.len() > k { "with other tasks" } else { "alone" })));
                    return;
                }
                continue;
            };
            out.compared += 1;
            if b.res != Some(Ok(false)) {
                out.steps += 1;
                *out.ops.entry(st.op.name()).or_insert(0) += 1;
            }
            if let Some(m) = same(a, b) {
                out.bad.push((Cl::Data, format!("step {num} {} of task {t}: with other tasks it {m}", st.op.name())));
                return;
            }
        }
    }
}

fn segments(op: Op, logs: &[String]) -> Vec<&[String]> {
    let mark = match op {
        Op::AttrAll | Op::AttrNext => "attr=",
        Op::EntAll | Op::EntNext => "index entry=",
        Op::RecAll | Op::RecNext => "index record vcn=",
        _ => "",
    };
    if mark.is_empty() {
        return vec![logs];
    }
    let mut v = vec![];
    let mut from = 0;
    for (n, l) in logs.iter().enumerate() {
        if l.starts_with(mark) && n > from {
            v.push(&logs[from..n]);
            from = n;
        }
    }
    v.push(&logs[from..]);
    v
}

/// A record that is being rewritten reads as before, as after, or not at all.
fn torn(sc: &Scenario, vol: &Arc<Volume>, steps: &[(usize, Step)], out: &mut Out) -> Result<(), String> {
    let Some(rev) = sc.rev else { return Err("no revision".into()) };
    let vol1 = volume(&sc.spec, Some(rev))?;
    let go = |v: &Arc<Volume>, alt: Option<Arc<Image>>, plan: Vec<Fault>| {
        let mut cfg = Cfg::new(v, steps, Policy::Relaxed);
        cfg.log = true;
        cfg.alt = alt;
        cfg.plan = plan;
        run_history(cfg)
    };
    // The model describes version 0; both versions are read with it (logs only).
    let soft: Vec<Fault> = sc.faults.iter().filter(|f| !f.k.is_media()).cloned().collect();
    let a = go(vol, None, soft.clone());
    let b = {
        let mut v = (**vol).clone();
        v.img = vol1.img.clone();
        go(&Arc::new(v), None, soft)
    };
    if !a.bad.is_empty() || !b.bad.is_empty() || a.steps.iter().any(|s| matches!(s.res, Some(Err(_)))) || b.steps.iter().any(|s| matches!(s.res, Some(Err(_)))) {
        // An intact record has to load, unless the step asks for something that does not exist.
        let mut strict = Cfg::new(vol, steps, Policy::Clean);
        strict.plan = sc.faults.iter().filter(|f| !f.k.is_media()).cloned().collect();
        let failed = |h: &Hist| h.steps.iter().map(|s| matches!(s.res, Some(Err(_)))).collect::<Vec<_>>();
        if a.bad.is_empty() && b.bad.is_empty() && failed(&a) == failed(&b) && run_history(strict).bad.is_empty() {
            return Err("a step fails rightly".into());
        }
        let m = a.bad.first().or(b.bad.first()).map(|b| b.1.clone()).unwrap_or_else(|| {
            let f = |h: &Hist| h.steps.iter().enumerate().find(|s| matches!(s.1.res, Some(Err(_)))).map(|(n, s)| format!("step {n} {} on intact records: {:?}", sc.steps[n].op.name(), s.res));
            f(&a).or_else(|| f(&b)).unwrap_or_default()
        });
        absorb(out, a, steps);
        out.bad.push((Cl::Err, m));
        return Ok(());
    }
    let h = go(vol, Some(vol1.img.clone()), sc.faults.clone());
    out.bad = h.bad.clone();
    // Which steps could have met a torn block?
    let blocks: Vec<&Block> = vol
        .blocks
        .iter()
        .filter(|bl| match bl.kind {
            BK::Record(n) => !rev.is_idx && vol.files[rev.target].recs.iter().any(|r| r.0 == n),
            BK::Index { idx, .. } => rev.is_idx && idx == rev.target,
            _ => false,
        })
        .collect();
    let mut core = Core::new(vol.img.clone(), Some(vol1.img.clone()), sc.faults.iter().filter(|f| f.k.is_media()).cloned().collect(), 1);
    let mut torn_at = vec![false; steps.len()];
    let look = |core: &Core| {
        blocks.iter().any(|bl| {
            let (mut is0, mut is1) = (true, true);
            for (p, n) in &bl.pieces {
                let n = *n as usize;
                let (mut m, mut x, mut y) = (vec![0; n], vec![0; n], vec![0; n]);
                core.media(*p, &mut m);
                vol.img.read(*p, &mut x);
                vol1.img.read(*p, &mut y);
                is0 &= m == x;
                is1 &= m == y;
            }
            !is0 && !is1
        })
    };
    for n in 0..steps.len() {
        core.begin_step(0, n as u32, 0);
        torn_at[n] = look(&core);
        // Changes in the middle of the step.
        let mid: Vec<Fault> = core.plan.iter().filter(|f| f.k.is_media() && f.step == n as u32 && f.call > 0).cloned().collect();
        if !mid.is_empty() {
            torn_at[n] = true;
            // They may have come too late to happen; then they are not in effect later either.
            let calls = h.steps[n].tr.calls;
            for f in mid {
                if f.call <= calls {
                    let mut v = vec![0u8; f.y as usize];
                    vol1.img.read(f.x, &mut v);
                    core.poke(f.x, &v);
                }
            }
        }
    }
    for (n, st) in steps {
        let step_no = *n;
        let (x, y, z) = (&a.steps[*n], &b.steps[*n], &h.steps[*n]);
        match &z.res {
            Some(Ok(true)) => {
                if x.res != Some(Ok(true)) {
                    continue;
                }
                let (sx, sy, sz) = (segments(st.op, &x.logs), segments(st.op, &y.logs), segments(st.op, &z.logs));
                for k in 0..sz.len() {
                    out.compared += 1;
                    if sx.get(k) == Some(&sz[k]) || sy.get(k) == Some(&sz[k]) {
                        continue;
                    }
                    // The value of an attribute may need a further record, which does not load then.
                    let refused = |o: Option<&&[String]>| {
                        let Some(n) = sz[k].iter().position(|l| l == "value=\"UpdateSequenceNumberMismatch\"") else { return false };
                        torn_at[step_no] && o.map(|o| o.len() >= n && o[..n] == sz[k][..n]).unwrap_or(false)
                    };
                    if refused(sx.get(k)) || refused(sy.get(k)) {
                        continue;
                    }
                    let d = |o: Option<&&[String]>| -> String {
                        match o {
                            None => "nothing".into(),
                            Some(o) => {
                                let n = o.iter().zip(sz[k].iter()).position(|(a, b)| a != b).unwrap_or(o.len().min(sz[k].len()));
                                let c = |s: Option<&String>| s.map(|s| s.chars().take(160).collect::<String>()).unwrap_or_else(|| "end".into());
                                format!("{} -> {}", c(o.get(n)), c(sz[k].get(n)))
                            }
                        }
                    };
                    out.bad.push((
                        Cl::Data,
                        format!("step {n} {}: item {k} is neither the old nor the new version (old: {}; new: {})", st.op.name(), d(sx.get(k)), d(sy.get(k))),
                    ));
                    break;
                }
                if sz.len() != sx.len() && sz.len() != sy.len() && out.bad.is_empty() {
                    out.bad.push((Cl::Data, format!("step {n} {}: {} items instead of {} or {}", st.op.name(), sz.len(), sx.len(), sy.len())));
                }
            }
            Some(Err(e)) => {
                if !torn_at[*n] && out.bad.is_empty() {
                    out.bad.push((Cl::Err, format!("step {n} {}: error {e} although every record is intact", st.op.name())));
                }
            }
            _ => {}
        }
        if !out.bad.is_empty() {
            break;
        }
    }
    let mut h = h;
    h.bad.clear();
    absorb(out, h, steps);
    Ok(())
}

// ---- minimisation --------------------------------------------------------------------------------

fn drop_steps(sc: &Scenario, keep: &[bool]) -> Scenario {
    let mut map = vec![None; sc.steps.len()];
    let mut n = 0u32;
    let mut s = sc.clone();
    s.steps = vec![];
    for (k, st) in sc.steps.iter().enumerate() {
        if keep[k] {
            map[k] = Some(n);
            n += 1;
            s.steps.push(st.clone());
        }
    }
    s.faults = sc
        .faults
        .iter()
        .filter_map(|f| {
            let mut f = f.clone();
            match map.get(f.step as usize) {
                Some(Some(n)) => f.step = *n,
                // A fault that starts a state moves to the next step that is still there.
                Some(None) if f.call == 0 && (f.k.is_media() || matches!(f.k, FK::BadRange | FK::Trunc)) => {
                    let next = map[f.step as usize..].iter().flatten().next()?;
                    f.step = *next;
                }
                _ => return None,
            }
            Some(f)
        })
        .collect();
    s
}

/// Shrinks a scenario as long as `bad` holds.
pub fn minimise(sc: &Scenario, budget: Duration, bad: &mut dyn FnMut(&Scenario) -> bool) -> (Scenario, u64) {
    let end = Instant::now() + budget;
    let mut best = sc.clone();
    let mut tried = 0u64;
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        // Steps.
        let mut chunk = best.steps.len().div_ceil(2).max(1);
        loop {
            let mut from = best.steps.len();
            while from > 0 && Instant::now() < end {
                let a = from.saturating_sub(chunk);
                let keep: Vec<bool> = (0..best.steps.len()).map(|k| !(a..from).contains(&k)).collect();
                let c = drop_steps(&best, &keep);
                tried += 1;
                if bad(&c) {
                    best = c;
                    progress = true;
                }
                from = a;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Faults and preemptions.
        let mut n = best.faults.len();
        while n > 0 && Instant::now() < end {
            n -= 1;
            let mut c = best.clone();
            c.faults.remove(n);
            tried += 1;
            if bad(&c) {
                best = c;
                progress = true;
            }
        }
        let mut n = best.pre.len();
        while n > 0 && Instant::now() < end {
            n -= 1;
            let mut c = best.clone();
            c.pre.remove(n);
            tried += 1;
            if bad(&c) {
                best = c;
                progress = true;
            }
        }
        // Operation arguments.
        for n in 0..best.steps.len() {
            if Instant::now() >= end {
                break;
            }
            let st = best.steps[n].clone();
            if matches!(st.op, Op::Read | Op::ReadAll) && st.a > 1 {
                for a in [1, st.a / 2, st.a - 1] {
                    let mut c = best.clone();
                    c.steps[n].a = a;
                    tried += 1;
                    if bad(&c) {
                        best = c;
                        progress = true;
                        break;
                    }
                }
            }
        }
        // The volume.
        let mut cand: Vec<VolSpec> = vec![];
        let s = &best.spec;
        let mut add = |f: &dyn Fn(&mut VolSpec)| {
            let mut v = s.clone();
            f(&mut v);
            v.sanitize();
            if v != *s {
                cand.push(v);
            }
        };
        for (b, _) in FLAG_NAMES {
            add(&|v: &mut VolSpec| v.flags &= !b);
        }
        add(&|v: &mut VolSpec| v.n_files = v.n_files / 2);
        add(&|v: &mut VolSpec| v.n_files -= 1);
        add(&|v: &mut VolSpec| v.n_dirs = 0);
        add(&|v: &mut VolSpec| v.mft_frags = 1);
        add(&|v: &mut VolSpec| v.max_entries = 3);
        add(&|v: &mut VolSpec| v.upcase = 0);
        add(&|v: &mut VolSpec| {
            v.sector_shift = 9;
            v.cluster_shift = 12;
        });
        add(&|v: &mut VolSpec| v.rec_info = -10);
        add(&|v: &mut VolSpec| v.index_rec = 4096);
        add(&|v: &mut VolSpec| v.span_shift = 14);
        for v in cand {
            if Instant::now() >= end {
                break;
            }
            let mut c = best.clone();
            c.spec = v;
            tried += 1;
            if bad(&c) {
                best = c;
                progress = true;
            }
        }
    }
    (best, tried)
}
