//! The simulated device: a sparse 64-bit medium and a `Read + Seek` front end whose every call is
//! decided by the run's fault plan. Everything the library sees of the outside world is in here.
use crate::rng::{mix, Digest};
use binrw::io::{Error, ErrorKind, Read, Result as IoResult, Seek, SeekFrom};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::{Arc, Mutex, MutexGuard};

pub const BLK: u64 = 512;

#[derive(Default, Clone, Copy)]
pub struct MixHasher(u64);
impl Hasher for MixHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = mix(self.0 ^ *c as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v);
    }
}
type Map<V> = HashMap<u64, V, BuildHasherDefault<MixHasher>>;

#[derive(Clone)]
struct Blob {
    len: u64,
    data: Arc<Vec<u8>>,
    off: usize,
}

/// The medium. Places that were never written read as noise which is unique per position, so that
/// reading from a wrong place (stale clusters, slack, a wrong fragment) yields visibly wrong bytes.
pub struct Image {
    pub seed: u64,
    pub size: u64,
    chunks: Map<Box<[u8; BLK as usize]>>,
    blobs: BTreeMap<u64, Blob>,
}

pub fn noise(seed: u64, pos: u64, buf: &mut [u8]) {
    let mut i = 0;
    while i < buf.len() {
        let p = pos.wrapping_add(i as u64);
        let w = mix(seed ^ (p >> 3)).to_le_bytes();
        let o = (p & 7) as usize;
        let n = (8 - o).min(buf.len() - i);
        buf[i..i + n].copy_from_slice(&w[o..o + n]);
        i += n;
    }
}

impl Image {
    pub fn new(seed: u64, size: u64) -> Self {
        Self { seed, size, chunks: Map::default(), blobs: BTreeMap::new() }
    }
    pub fn read(&self, pos: u64, buf: &mut [u8]) {
        let mut i = 0usize;
        while i < buf.len() {
            let p = pos + i as u64;
            let o = (p % BLK) as usize;
            let n = (BLK as usize - o).min(buf.len() - i);
            let out = &mut buf[i..i + n];
            if let Some(c) = self.chunks.get(&(p / BLK)) {
                out.copy_from_slice(&c[o..o + n]);
            } else {
                let mut done = false;
                if !self.blobs.is_empty() {
                    if let Some((st, b)) = self.blobs.range(..=p).next_back() {
                        if p < st + b.len {
                            let s = b.off + (p - st) as usize;
                            out.copy_from_slice(&b.data[s..s + n]);
                            done = true;
                        }
                    }
                }
                if !done {
                    noise(self.seed, p, out);
                }
            }
            i += n;
        }
    }
    pub fn write(&mut self, pos: u64, data: &[u8]) {
        let mut i = 0usize;
        while i < data.len() {
            let p = pos + i as u64;
            let o = (p % BLK) as usize;
            let n = (BLK as usize - o).min(data.len() - i);
            if !self.chunks.contains_key(&(p / BLK)) {
                let mut c = Box::new([0u8; BLK as usize]);
                if n < BLK as usize {
                    self.read(p / BLK * BLK, &mut c[..]);
                }
                self.chunks.insert(p / BLK, c);
            }
            self.chunks.get_mut(&(p / BLK)).unwrap()[o..o + n].copy_from_slice(&data[i..i + n]);
            i += n;
        }
    }
    /// Maps a (block-aligned) range of a shared buffer onto the medium.
    pub fn map(&mut self, pos: u64, data: &Arc<Vec<u8>>, off: usize, len: u64) {
        assert!(pos % BLK == 0 && len % BLK == 0);
        self.blobs.insert(pos, Blob { len, data: data.clone(), off });
    }
}

/// Kinds of injected faults. `x`, `y`, `z` are kind-specific.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum FK {
    /// The read returns at most max(1, x) bytes.
    Short,
    /// Every read of the step is limited to max(1, x) bytes, rounded to y if y > 1.
    ShortAll,
    /// The call fails with `Interrupted` and has no effect.
    Intr,
    /// Every second read of the step is interrupted.
    IntrAll,
    /// The call fails with error kind number x; the device cursor ends up at y.
    Err,
    /// The read returns 0 although the device has not ended.
    Eof,
    /// The call takes x simulated milliseconds; if y != 0 it then fails with `TimedOut`.
    Stall,
    /// Reads touching [x, x+y) fail with error kind z from here for `attempt` steps (0 = for ever).
    BadRange,
    /// The device ends at x from here on for `attempt` steps (0 = for ever).
    Trunc,
    /// Another user of the device moves its cursor to x.
    Foreign,
    /// Media changes, effective from this call on:
    /// bit y (0..8) of byte x flips.
    Flip,
    /// [x, x+y) becomes zeros.
    Zero,
    /// [x, x+y) becomes noise.
    Noise,
    /// [x, x+y) receives the content at z (misdirected write / stale block).
    Copy,
    /// [x, x+y) receives the content of the alternate image (a write reaches the disk).
    Alt,
    /// y (1, 2, 4 or 8) bytes at x are set to z.
    Set,
    /// An element of a structure becomes undecodable (number z, see `hurt::expand`; carried out as `Set`).
    Elem,
}

pub const ALL_FK: &[(FK, &str)] = &[
    (FK::Short, "short_read"),
    (FK::ShortAll, "short_reads_all"),
    (FK::Intr, "interrupted"),
    (FK::IntrAll, "interrupted_all"),
    (FK::Err, "io_error"),
    (FK::Eof, "premature_eof"),
    (FK::Stall, "stall"),
    (FK::BadRange, "bad_region"),
    (FK::Trunc, "truncated_device"),
    (FK::Foreign, "foreign_seek"),
    (FK::Flip, "media_bit_flip"),
    (FK::Zero, "media_zeroed"),
    (FK::Noise, "media_noise"),
    (FK::Copy, "media_misdirected"),
    (FK::Alt, "media_torn_write"),
    (FK::Set, "media_field_corruption"),
    (FK::Elem, "media_undecodable_element"),
];

impl FK {
    pub fn name(self) -> &'static str {
        ALL_FK.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn from_name(n: &str) -> Option<FK> {
        ALL_FK.iter().find(|x| x.1 == n).map(|x| x.0)
    }
    pub fn is_media(self) -> bool {
        matches!(self, FK::Flip | FK::Zero | FK::Noise | FK::Copy | FK::Alt | FK::Set)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub k: FK,
    pub task: u32,
    pub step: u32,
    pub attempt: u32,
    pub call: u32,
    pub x: u64,
    pub y: u64,
    pub z: u64,
}

pub const KINDS: &[(ErrorKind, &str)] = &[
    (ErrorKind::Other, "Other"),
    (ErrorKind::TimedOut, "TimedOut"),
    (ErrorKind::PermissionDenied, "PermissionDenied"),
    (ErrorKind::NotFound, "NotFound"),
    (ErrorKind::InvalidData, "InvalidData"),
    (ErrorKind::InvalidInput, "InvalidInput"),
    (ErrorKind::UnexpectedEof, "UnexpectedEof"),
    (ErrorKind::WouldBlock, "WouldBlock"),
    (ErrorKind::BrokenPipe, "BrokenPipe"),
    (ErrorKind::ConnectionReset, "ConnectionReset"),
    (ErrorKind::NotConnected, "NotConnected"),
    (ErrorKind::Interrupted, "Interrupted"),
];
/// Number of kinds used for injected hard errors (all but `Interrupted`).
pub const HARD_KINDS: u64 = 11;

pub fn kind_name(k: ErrorKind) -> String {
    KINDS.iter().find(|x| x.0 == k).map(|x| x.1.to_string()).unwrap_or_else(|| format!("{k:?}"))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Call {
    pub read: bool,
    pub pos: u64,
    pub len: u64,
    /// Bytes delivered, or -1 on failure.
    pub got: i64,
}

/// Thrown (as a panic payload) out of the library when an operation makes too many device calls.
pub struct Budget(pub String);

#[derive(Default)]
pub struct TaskCtl {
    pub step: u32,
    pub attempt: u32,
    pub call: u32,
    pub trace: Vec<Call>,
    /// Error kinds delivered during the current attempt of the current step.
    pub fired: Vec<ErrorKind>,
    pub reads: u64,
    pub bytes: u64,
}

pub struct Core {
    pub img: Arc<Image>,
    pub alt: Option<Arc<Image>>,
    overlay: Map<Box<[u8; BLK as usize]>>,
    pub plan: Vec<Fault>,
    pub done: Vec<bool>,
    pub bad: Vec<(u64, u64, u64, u32)>,
    pub trunc: Option<(u64, u32)>,
    /// Reaching the end of the device is the reader's fault.
    pub strict_end: bool,
    pub tasks: Vec<TaskCtl>,
    pub stats: BTreeMap<FK, u64>,
    pub clock_ns: u64,
    pub digest: Digest,
    pub calls: u64,
    pub bytes: u64,
    pub max_calls: u64,
    pub max_bytes: u64,
    pub last_pos: u64,
}

impl Core {
    pub fn new(img: Arc<Image>, alt: Option<Arc<Image>>, plan: Vec<Fault>, tasks: usize) -> Self {
        let done = vec![false; plan.len()];
        Self {
            img,
            alt,
            overlay: Map::default(),
            plan,
            done,
            bad: Vec::new(),
            trunc: None,
            strict_end: false,
            tasks: (0..tasks).map(|_| TaskCtl::default()).collect(),
            stats: BTreeMap::new(),
            clock_ns: 0,
            digest: Digest::default(),
            calls: 0,
            bytes: 0,
            max_calls: 200_000,
            max_bytes: 1 << 30,
            last_pos: 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self.trunc {
            Some((n, _)) => n.min(self.img.size),
            None => self.img.size,
        }
    }
    /// What the medium holds right now.
    pub fn media(&self, pos: u64, buf: &mut [u8]) {
        if self.overlay.is_empty() {
            self.img.read(pos, buf);
            return;
        }
        let mut i = 0usize;
        while i < buf.len() {
            let p = pos + i as u64;
            let o = (p % BLK) as usize;
            let n = (BLK as usize - o).min(buf.len() - i);
            if let Some(c) = self.overlay.get(&(p / BLK)) {
                buf[i..i + n].copy_from_slice(&c[o..o + n]);
            } else {
                self.img.read(p, &mut buf[i..i + n]);
            }
            i += n;
        }
    }
    pub fn poke(&mut self, pos: u64, data: &[u8]) {
        let mut i = 0usize;
        while i < data.len() {
            let p = pos.wrapping_add(i as u64);
            let o = (p % BLK) as usize;
            let n = (BLK as usize - o).min(data.len() - i);
            if !self.overlay.contains_key(&(p / BLK)) {
                let mut c = Box::new([0u8; BLK as usize]);
                self.img.read(p / BLK * BLK, &mut c[..]);
                self.overlay.insert(p / BLK, c);
            }
            self.overlay.get_mut(&(p / BLK)).unwrap()[o..o + n].copy_from_slice(&data[i..i + n]);
            i += n;
        }
    }
    fn count(&mut self, k: FK) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn apply_media(&mut self, f: &Fault) {
        let len = f.y.min(1 << 20) as usize;
        match f.k {
            FK::Flip => {
                let mut b = [0u8];
                self.media(f.x, &mut b);
                b[0] ^= 1 << (f.y & 7);
                self.poke(f.x, &b);
            }
            FK::Zero => self.poke(f.x, &vec![0; len]),
            FK::Noise => {
                let mut v = vec![0; len];
                noise(f.z ^ 0x5eed, f.x, &mut v);
                self.poke(f.x, &v);
            }
            FK::Copy => {
                let mut v = vec![0; len];
                self.media(f.z, &mut v);
                self.poke(f.x, &v);
            }
            FK::Alt => {
                if let Some(a) = self.alt.clone() {
                    let mut v = vec![0; len];
                    a.read(f.x, &mut v);
                    self.poke(f.x, &v);
                }
            }
            FK::Set => {
                let b = f.z.to_le_bytes();
                self.poke(f.x, &b[..(f.y.clamp(1, 8)) as usize]);
            }
            _ => unreachable!(),
        }
        self.count(f.k);
    }
    pub fn begin_step(&mut self, task: usize, step: u32, attempt: u32) {
        {
            let t = &mut self.tasks[task];
            t.step = step;
            t.attempt = attempt;
            t.call = 0;
            t.trace.clear();
            t.fired.clear();
            t.reads = 0;
            t.bytes = 0;
        }
        // Expire range faults (their lifetime is counted in steps of the task that started them).
        self.bad.retain(|b| b.3 == 0 || step < b.3);
        if let Some((_, until)) = self.trunc {
            if until != 0 && step >= until {
                self.trunc = None;
            }
        }
        // State faults that begin with this step.
        for n in 0..self.plan.len() {
            let f = self.plan[n].clone();
            if self.done[n] || f.task as usize != task || f.step != step {
                continue;
            }
            match f.k {
                FK::BadRange => {
                    let until = if f.attempt == 0 { 0 } else { step + f.attempt };
                    self.bad.push((f.x, f.x.saturating_add(f.y), f.z, until));
                    self.done[n] = true;
                }
                FK::Trunc => {
                    let until = if f.attempt == 0 { 0 } else { step + f.attempt };
                    self.trunc = Some((f.x, until));
                    self.done[n] = true;
                }
                k if k.is_media() && f.call == 0 => {
                    self.apply_media(&f);
                    self.done[n] = true;
                }
                _ => {}
            }
        }
    }
}

pub type Shared = Arc<Mutex<Core>>;

/// Called before every device call; lets the scheduler run another task.
pub trait Yielder: Send + Sync {
    fn pause(&self, task: usize);
}

pub struct SimDev {
    pub core: Shared,
    pub pos: u64,
    pub task: usize,
    pub yielder: Option<Arc<dyn Yielder>>,
}

impl SimDev {
    pub fn new(core: Shared, task: usize) -> Self {
        Self { core, pos: 0, task, yielder: None }
    }
    pub fn lock(&self) -> MutexGuard<'_, Core> {
        match self.core.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    fn device_call(&mut self, read: bool, buf: &mut [u8], target: Option<i128>) -> IoResult<u64> {
        if let Some(y) = self.yielder.clone() {
            y.pause(self.task);
        }
        let core = self.core.clone();
        let mut c = match core.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        let c = &mut *c;
        let t = self.task;
        let (step, attempt, call) = {
            let k = &mut c.tasks[t];
            k.call += 1;
            (k.step, k.attempt, k.call)
        };
        c.calls += 1;
        if c.tasks[t].call as u64 > c.max_calls || c.tasks[t].bytes > c.max_bytes {
            let m = format!(
                "one operation made {} device calls and transferred {} bytes",
                c.tasks[t].call, c.tasks[t].bytes
            );
            std::panic::panic_any(Budget(m));
        }
        let mut limit = buf.len();
        let pos = self.pos;
        let mut outcome: Option<(ErrorKind, bool)> = None; // (kind, cursor kept)
        let mut eof = false;
        for n in 0..c.plan.len() {
            if c.plan[n].task as usize != t || c.plan[n].step != step || c.done[n] {
                continue;
            }
            let f = c.plan[n].clone();
            match f.k {
                FK::ShortAll if f.attempt == attempt => {
                    if read && buf.len() > 1 {
                        let mut m = f.x.max(1);
                        if f.y > 1 {
                            // Deliver up to the next multiple of y on the device.
                            m = f.y - self.pos % f.y + m / f.y * f.y;
                        }
                        if (m as usize) < limit {
                            limit = m as usize;
                            c.count(FK::ShortAll);
                        }
                    }
                    continue;
                }
                FK::IntrAll if f.attempt == attempt => {
                    // Every second read (not call: a retried read is usually preceded by its own seek).
                    if read && outcome.is_none() && c.tasks[t].reads % 2 == 0 {
                        c.count(FK::IntrAll);
                        outcome = Some((ErrorKind::Interrupted, true));
                    }
                    continue;
                }
                _ => {}
            }
            if f.attempt != attempt || f.call != call {
                continue;
            }
            match f.k {
                FK::Short if read && buf.len() > 1 => {
                    limit = limit.min(f.x.max(1) as usize);
                    c.count(f.k);
                }
                FK::Intr if read && outcome.is_none() => {
                    outcome = Some((ErrorKind::Interrupted, true));
                    c.count(f.k);
                }
                FK::Err => {
                    outcome = Some((KINDS[(f.x % HARD_KINDS) as usize].0, false));
                    self.pos = f.y;
                    c.count(f.k);
                }
                FK::Eof if read && !buf.is_empty() => {
                    eof = true;
                    c.count(f.k);
                }
                FK::Stall => {
                    c.clock_ns += f.x * 1_000_000;
                    if f.y != 0 {
                        outcome = Some((ErrorKind::TimedOut, false));
                    }
                    c.count(f.k);
                }
                k if k.is_media() && f.call > 0 => {
                    c.apply_media(&f);
                    c.done[n] = true;
                }
                _ => {}
            }
        }
        if !read {
            let target = target.unwrap();
            c.clock_ns += 20_000 + (target.unsigned_abs() as u64 ^ c.last_pos).leading_zeros() as u64 * 1000;
            let size = c.size() as i128;
            let abs = match target {
                v if v >= 0 => v,
                _ => -1,
            };
            let _ = size;
            if outcome.is_none() && (abs < 0 || abs > i64::MAX as i128) {
                outcome = Some((ErrorKind::InvalidInput, true));
            }
            let r = match outcome {
                Some((k, _)) => {
                    c.tasks[t].fired.push(k);
                    Err(Error::new(k, "simulated device failure"))
                }
                None => {
                    self.pos = abs as u64;
                    Ok(self.pos)
                }
            };
            c.digest.u64(1 ^ (self.pos << 2));
            c.digest.u64(r.is_ok() as u64);
            c.tasks[t].trace.push(Call { read: false, pos: abs as u64, len: 0, got: if r.is_ok() { 0 } else { -1 } });
            return r;
        }
        c.tasks[t].reads += 1;
        c.clock_ns += 30_000 + (buf.len() as u64) / 2;
        let size = c.size();
        if outcome.is_none() {
            for (a, b, k, _) in c.bad.clone() {
                if pos < b && pos.saturating_add(buf.len() as u64) > a && !buf.is_empty() {
                    outcome = Some((KINDS[(k % HARD_KINDS) as usize].0, true));
                    c.count(FK::BadRange);
                    break;
                }
            }
        }
        let r = match outcome {
            Some((k, _)) => {
                c.tasks[t].fired.push(k);
                Err(Error::new(k, "simulated device failure"))
            }
            None => {
                let avail = size.saturating_sub(pos);
                let mut n = (limit as u64).min(avail);
                if eof {
                    n = 0;
                }
                if (n as usize) < buf.len() && (eof || avail < limit as u64) && !buf.is_empty() {
                    // The device ended (really, or as claimed by a fault).
                    if !c.strict_end {
                        c.tasks[t].fired.push(ErrorKind::UnexpectedEof);
                    }
                    if c.trunc.is_some() && !eof {
                        c.count(FK::Trunc);
                    }
                }
                c.media(pos, &mut buf[..n as usize]);
                self.pos += n;
                c.last_pos = self.pos;
                Ok(n)
            }
        };
        let got = match &r {
            Ok(n) => *n as i64,
            Err(_) => -1,
        };
        c.bytes += got.max(0) as u64;
        c.tasks[t].bytes += got.max(0) as u64;
        c.digest.u64(2 ^ (pos << 2));
        c.digest.u64(buf.len() as u64);
        c.digest.u64(got as u64);
        c.tasks[t].trace.push(Call { read: true, pos, len: buf.len() as u64, got });
        r
    }
}

impl Read for SimDev {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        self.device_call(true, buf, None).map(|n| n as usize)
    }
}

impl Seek for SimDev {
    fn seek(&mut self, pos: SeekFrom) -> IoResult<u64> {
        let target = match pos {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
            SeekFrom::End(n) => {
                let size = self.lock().size();
                size as i128 + n as i128
            }
        };
        // A query of the current position is not a device call.
        if let SeekFrom::Current(0) = pos {
            return Ok(self.pos);
        }
        self.device_call(false, &mut [], Some(target))
    }
}
