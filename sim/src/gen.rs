//! Seeded generation of operation histories and fault plans.
use crate::disk::*;
use crate::rng::*;
use crate::vol::*;
use crate::world::*;

/// How often each operation is chosen; operations a profile does not list are only used as
/// prerequisites.
pub type Profile = &'static [(Op, u64)];

pub const P_DATA: Profile = &[(Op::Stream, 10), (Op::Read, 20), (Op::ReadAll, 14), (Op::Seek, 8), (Op::Runs, 1), (Op::RunNext, 2), (Op::Clone, 1)];
pub const P_CURSOR: Profile = &[(Op::Stream, 5), (Op::Read, 20), (Op::Seek, 24), (Op::Clone, 5), (Op::ReadAll, 3), (Op::Runs, 2), (Op::RunNext, 3)];
pub const P_FIND: Profile = &[(Op::Dir, 3), (Op::Finder, 3), (Op::Find, 40)];
pub const P_ENUM: Profile = &[(Op::Dir, 3), (Op::Entries, 5), (Op::EntNext, 10), (Op::EntAll, 8), (Op::Recs, 3), (Op::RecNext, 5), (Op::RecAll, 4), (Op::RecVcn, 4), (Op::RootEnts, 2), (Op::Clone, 2)];
pub const P_ATTR: Profile = &[(Op::EntNext, 3), (Op::Attrs, 8), (Op::AttrNext, 12), (Op::AttrAll, 10), (Op::AlOpen, 4), (Op::AlNext, 6), (Op::AlAll, 4), (Op::Stream, 10), (Op::NameOf, 5), (Op::Dir, 3), (Op::Meta, 4), (Op::Info, 2), (Op::Clone, 2)];
pub const P_META: Profile = &[(Op::Open, 6), (Op::Info, 6), (Op::NameOf, 8), (Op::Meta, 14), (Op::AttrAll, 4), (Op::Attrs, 1), (Op::Vol, 4), (Op::AlAll, 2), (Op::EntNext, 4), (Op::Mount, 1), (Op::Clone, 1), (Op::Dir, 1)];
pub const P_LOC: Profile = &[(Op::Open, 40), (Op::Mount, 2), (Op::Meta, 3), (Op::Vol, 2), (Op::EntNext, 5), (Op::AlNext, 4), (Op::Info, 2)];
pub const P_MIX: Profile = &[
    (Op::Open, 4), (Op::Info, 1), (Op::NameOf, 2), (Op::Meta, 2), (Op::Attrs, 3), (Op::AttrNext, 5), (Op::AttrAll, 2), (Op::AlOpen, 2), (Op::AlNext, 3), (Op::AlAll, 1),
    (Op::Stream, 6), (Op::Read, 10), (Op::ReadAll, 4), (Op::Seek, 6), (Op::Clone, 2), (Op::Runs, 1), (Op::RunNext, 2), (Op::Dir, 3), (Op::Entries, 3), (Op::EntNext, 5), (Op::EntAll, 2),
    (Op::Finder, 2), (Op::Find, 7), (Op::Recs, 2), (Op::RecNext, 3), (Op::RecAll, 1), (Op::RecVcn, 2), (Op::RootEnts, 1), (Op::Vol, 1), (Op::Mount, 1),
];
pub const P_POS: Profile = &[
    (Op::Open, 3), (Op::Meta, 4), (Op::Stream, 6), (Op::Read, 14), (Op::Seek, 12), (Op::Clone, 1), (Op::Runs, 2), (Op::RunNext, 4), (Op::AlOpen, 2), (Op::AlAll, 2), (Op::AlNext, 2), (Op::AttrAll, 3),
    (Op::Attrs, 1), (Op::EntAll, 3), (Op::Find, 4), (Op::RecAll, 1), (Op::RootEnts, 1), (Op::ReadAll, 2), (Op::Mount, 1),
];
/// Only operations that interpret metadata blocks (the medium is damaged under them).
pub const P_BLOCKS: Profile = &[
    (Op::Open, 10), (Op::Meta, 2), (Op::NameOf, 4), (Op::AttrAll, 5), (Op::AttrNext, 4), (Op::AlAll, 3), (Op::AlNext, 3), (Op::Dir, 4), (Op::EntNext, 8), (Op::EntAll, 4), (Op::Find, 12), (Op::RecNext, 5),
    (Op::RecAll, 2), (Op::RecVcn, 8), (Op::Vol, 3), (Op::Mount, 3),
];

/// The same, with the streams whose attributes such blocks describe.
pub const P_BLOCKS_DATA: Profile = &[
    (Op::Open, 5), (Op::Stream, 14), (Op::Read, 20), (Op::ReadAll, 6), (Op::Seek, 10), (Op::Clone, 2), (Op::AttrNext, 4), (Op::AlNext, 4), (Op::AttrAll, 2), (Op::AlAll, 1), (Op::Meta, 1), (Op::NameOf, 1),
    (Op::EntNext, 4), (Op::RecNext, 2), (Op::Find, 3), (Op::Dir, 1),
];

#[derive(Clone, Debug, PartialEq)]
enum H {
    None,
    File { m: Option<usize>, rec: u64 },
    Val { m: usize, l: usize, pos: u64 },
    Run { len: u64, pos: u64 },
    Runs { m: usize, a: usize, n: usize },
    Attrs(usize),
    Al(usize),
    Idx(usize),
    Ents(usize),
    Finder(usize),
    Recs(usize),
}

pub struct Gen<'a> {
    pub r: Rng,
    vol: &'a Volume,
    h: Vec<H>,
    lo: usize,
    hi: usize,
    task: u8,
    pub steps: Vec<Step>,
    pub foreign: u64,
    /// No streams whose bytes are metadata blocks (the medium is changed under them).
    pub no_meta_streams: bool,
    /// The volume may be damaged: records that are free may be opened, etc.
    pub upcase: bool,
    pub cap: u64,
}

pub fn step(op: Op, task: u8, d: usize, s: usize, a: u64, b: u64, c: u64) -> Step {
    Step { op, task, d: d as u8, s: s as u8, a, b, c }
}

impl<'a> Gen<'a> {
    pub fn new(r: Rng, vol: &'a Volume, task: u8, lo: usize, hi: usize) -> Self {
        Self { r, vol, h: vec![H::None; N_SLOTS], lo, hi, task, steps: vec![], foreign: 0, no_meta_streams: false, upcase: true, cap: 200_000 }
    }

    fn put(&mut self, op: Op, d: usize, s: usize, a: u64, b: u64, c: u64) {
        if self.foreign > 0 && self.r.below(100) < self.foreign && op != Op::Mount {
            let p = self.some_pos();
            self.steps.push(step(Op::Foreign, self.task, 0, 0, p, 0, 0));
        }
        self.steps.push(step(op, self.task, d, s, a, b, c));
    }

    fn some_pos(&mut self) -> u64 {
        match self.r.below(4) {
            0 => 0,
            1 => self.r.pick(&self.vol.blocks).at(0),
            2 => self.vol.img.size,
            _ => {
                let n = self.vol.img.size;
                self.r.below(n.max(1))
            }
        }
    }

    fn free_slot(&mut self) -> usize {
        let free: Vec<usize> = (self.lo..self.hi).filter(|n| self.h[*n] == H::None).collect();
        if !free.is_empty() {
            return *self.r.pick(&free);
        }
        self.r.range(self.lo as u64, self.hi as u64 - 1) as usize
    }
    fn slot_where(&mut self, f: &dyn Fn(&H) -> bool) -> Option<usize> {
        let v: Vec<usize> = (self.lo..self.hi).filter(|n| f(&self.h[*n])).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }

    /// A slot with a file satisfying `ok`, opening one if necessary.
    fn file_where(&mut self, ok: &dyn Fn(&Volume, usize) -> bool) -> Option<(usize, usize)> {
        let vol = self.vol;
        if self.r.chance(3, 5) {
            if let Some(s) = self.slot_where(&|h| matches!(h, H::File { m: Some(m), .. } if ok(vol, *m))) {
                if let H::File { m: Some(m), .. } = self.h[s] {
                    return Some((s, m));
                }
            }
        }
        let c: Vec<usize> = (0..vol.files.len()).filter(|m| ok(vol, *m)).collect();
        if c.is_empty() {
            return None;
        }
        let m = *self.r.pick(&c);
        let d = self.free_slot();
        let rec = vol.files[m].rec;
        let b = (rec == 5 && self.r.chance(1, 2)) as u64;
        self.put(Op::Open, d, 0, rec, b, 0);
        self.h[d] = H::File { m: Some(m), rec };
        Some((d, m))
    }
    fn any_file(&mut self) -> Option<(usize, usize)> {
        // User files are more interesting than system files.
        let user = self.r.chance(5, 6);
        self.file_where(&|v, m| !user || !v.files[m].is_sys)
    }

    /// Interesting offsets of a stream.
    fn offset(&mut self, m: usize, l: usize) -> u64 {
        let lg = &self.vol.files[m].logical[l];
        let size = lg.size();
        let mut c = vec![0, size];
        if let Content::Stream(s) = &lg.content {
            c.push(s.init);
            let mut o = 0u64;
            for r in &s.runs {
                o = o.saturating_add(r.clusters.saturating_mul(self.vol.cs));
                c.push(o);
                if c.len() > 64 {
                    break;
                }
            }
            // Inside a random run.
            if !s.runs.is_empty() {
                c.push(self.r.below(o.max(1)));
            }
        }
        c.push(self.r.below(size.saturating_add(1).max(1)));
        c.push(self.r.skewed(size.saturating_mul(2)));
        // Where narrower integers wrap around.
        for sh in [16, 31, 32] {
            if size >> sh > 0 {
                let k = self.r.range(1, size >> sh) << sh;
                c.push(k);
                c.push(size - k);
            }
        }
        let n = self.r.idx(c.len());
        let o = c[n];
        match self.r.below(6) {
            0 | 1 => o,
            2 => o.saturating_sub(1),
            3 => o.saturating_add(1),
            4 => {
                let d = self.r.skewed(5000);
                o.saturating_sub(d)
            }
            _ => {
                let d = self.r.skewed(5000);
                o.saturating_add(d)
            }
        }
    }

    fn read_len(&mut self, m: Option<(usize, usize)>, pos: u64) -> u64 {
        if self.r.chance(1, 4) {
            if let Some((m, l)) = m {
                let o = self.offset(m, l);
                if o > pos && o - pos < 100_000 {
                    return o - pos;
                }
            }
        }
        match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => 70_000,
            3 => self.vol.cs.min(70_000),
            4 => self.vol.cs.min(70_000) + 1,
            _ => self.r.skewed(20_000),
        }
    }

    pub fn mount(&mut self, upcase: bool) {
        self.upcase = upcase;
        let b = 2 * self.r.chance(1, 16) as u64;
        self.put(Op::Mount, 0, 0, upcase as u64, b, 0);
    }

    pub fn grow(&mut self, p: Profile, n: usize) {
        let end = self.steps.len() + n;
        let total: u64 = p.iter().map(|x| x.1).sum();
        let mut guard = 0;
        while self.steps.len() < end && guard < 20 * n {
            guard += 1;
            let mut k = self.r.below(total);
            let mut op = p[0].0;
            for (o, w) in p {
                if k < *w {
                    op = *o;
                    break;
                }
                k -= w;
            }
            self.add(op);
        }
    }

    fn stream_ok(&self, m: usize, l: usize) -> bool {
        if !self.no_meta_streams {
            return true;
        }
        let f = &self.vol.files[m];
        let lg = &f.logical[l];
        lg.ty == T_DATA && !f.is_sys
    }

    pub fn add(&mut self, op: Op) {
        let vol = self.vol;
        match op {
            Op::Mount => {
                if self.steps.iter().any(|s| s.op == Op::Mount) {
                    let a = self.r.chance(1, 2) as u64;
                    let b = 2 * self.r.chance(1, 2) as u64;
                    self.put(Op::Mount, 0, 0, a, b, 0);
                } else {
                    self.mount(true);
                }
            }
            Op::Open => {
                let n = vol.n_records;
                let rec = match self.r.below(12) {
                    0..=5 => self.r.below(n),
                    6 => n - 1 + self.r.below(3),
                    7 => vol.mft.clusters().saturating_mul(vol.cs) / vol.rs + self.r.below(3),
                    8 => n + self.r.below(40),
                    9 => self.r.u64() >> self.r.below(64),
                    10 => *self.r.pick(&[u64::MAX, u64::MAX / vol.rs, u64::MAX / vol.rs + 1, 1 << 48, (1 << 48) - 1, 1 << 32, i64::MAX as u64 / vol.rs, i64::MAX as u64 / vol.rs + 1]),
                    _ => {
                        let f = self.r.pick(&vol.files);
                        let k = self.r.clone().idx(f.recs.len());
                        f.recs[k].0
                    }
                };
                let d = self.free_slot();
                let b = self.r.chance(1, 2) as u64;
                self.put(Op::Open, d, 0, rec, b, 0);
                let known = rec < n && vol.rec_state[rec as usize] != RecState::Garbage;
                self.h[d] = if known { H::File { m: vol.by_rec.get(&rec).copied(), rec } } else { self.h[d].clone() };
            }
            Op::Info | Op::Meta => {
                let s = if self.r.chance(1, 3) { self.slot_where(&|h| matches!(h, H::File { .. })) } else { None };
                let Some(s) = s.or_else(|| self.any_file().map(|x| x.0)) else { return };
                self.put(op, 0, s, 0, 0, 0);
            }
            Op::NameOf => {
                let Some((s, m)) = self.any_file() else { return };
                let a = self.r.below(6).min(5);
                let n = vol.files[m].names.len() as u64;
                let b = match self.r.below(4) {
                    0 | 1 => 0,
                    2 => self.r.below(n + 1),
                    _ => self.r.range(1, n + 40),
                };
                self.put(op, 0, s, a, b, 0);
            }
            Op::Attrs => {
                let want_al = self.r.chance(1, 2);
                let f = self.file_where(&|v, m| !v.files[m].is_sys && (!want_al || v.files[m].al.is_some()));
                let Some((s, m)) = f.or_else(|| self.any_file()) else { return };
                let d = self.free_slot();
                self.put(op, d, s, 0, 0, 0);
                self.h[d] = H::Attrs(m);
            }
            Op::AttrNext | Op::AttrAll => {
                if self.r.chance(1, 5) || self.slot_where(&|h| matches!(h, H::Attrs(_))).is_none() {
                    self.add(Op::Attrs);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Attrs(_))) else { return };
                let a = self.r.chance(1, 4) as u64;
                self.put(op, 0, s, a, 0, 0);
            }
            Op::AlOpen => {
                let Some((s, m)) = self.file_where(&|v, m| v.files[m].al.is_some()) else { return };
                let d = self.free_slot();
                self.put(op, d, s, 0, 0, 0);
                self.h[d] = H::Al(m);
            }
            Op::AlNext | Op::AlAll => {
                if self.r.chance(1, 5) || self.slot_where(&|h| matches!(h, H::Al(_))).is_none() {
                    self.add(Op::AlOpen);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Al(_))) else { return };
                let a = self.r.chance(1, 2) as u64;
                self.put(op, 0, s, a, 0, 0);
            }
            Op::Stream => {
                let this: *const Self = self;
                let ok = move |v: &Volume, m: usize| {
                    // (only reads `no_meta_streams`)
                    let g = unsafe { &*this };
                    (0..v.files[m].logical.len()).any(|l| g.stream_ok(m, l))
                };
                let user = self.r.chance(9, 10);
                let f = self.file_where(&|v, m| ok(v, m) && (!user || !v.files[m].is_sys));
                let Some((s, m)) = f else { return };
                let c: Vec<usize> = (0..vol.files[m].logical.len()).filter(|l| self.stream_ok(m, *l)).collect();
                let mut l = *self.r.pick(&c);
                // Prefer streams with runs.
                for _ in 0..3 {
                    if vol.files[m].logical[l].is_res() {
                        l = *self.r.pick(&c);
                    }
                }
                let lg = &vol.files[m].logical[l];
                let a = if lg.ty == T_DATA { *self.r.pick(&[0u64, 1, 1, 1, 2]) } else { *self.r.pick(&[0u64, 0, 2]) };
                let one = lg.parts.len() == 1 && vol.files[m].attrs[lg.parts[0]].rec == vol.files[m].rec;
                let a = if a == 2 && !one { 0 } else { a };
                let d = self.free_slot();
                let cs = if self.r.chance(1, 2) { 0 } else { self.r.u64() >> 16 };
                self.put(op, d, s, a, l as u64, cs);
                self.h[d] = H::Val { m, l, pos: 0 };
            }
            Op::Read => {
                if self.slot_where(&|h| matches!(h, H::Val { .. } | H::Run { .. })).is_none() {
                    self.add(Op::Stream);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Val { .. } | H::Run { .. })) else { return };
                match self.h[s].clone() {
                    H::Val { m, l, pos } => {
                        let a = self.read_len(Some((m, l)), pos);
                        let b = *self.r.pick(&[0u64, 0, 0, 1, 1, 2, 3]);
                        self.put(op, 0, s, a, b, 0);
                        let size = vol.files[m].logical[l].size();
                        self.h[s] = H::Val { m, l, pos: if pos >= size { pos } else { (pos + a).min(size) } };
                    }
                    H::Run { len, pos } => {
                        let a = self.read_len(None, pos);
                        self.put(op, 0, s, a, 0, 0);
                        self.h[s] = H::Run { len, pos: if pos >= len { pos } else { (pos + a).min(len) } };
                    }
                    _ => {}
                }
            }
            Op::ReadAll => {
                if self.r.chance(1, 3) || self.slot_where(&|h| matches!(h, H::Val { .. })).is_none() {
                    self.add(Op::Stream);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Val { .. })) else { return };
                if let H::Val { m, l, pos } = self.h[s].clone() {
                    let size = vol.files[m].logical[l].size();
                    let cap = self.r.range(1, self.cap);
                    let seed = self.r.u64() >> 12;
                    let max = *self.r.pick(&[64u64, 700, 5000, 5000, 70_000]);
                    self.put(op, 0, s, cap, seed, max);
                    self.h[s] = H::Val { m, l, pos: if pos >= size { pos } else { (pos + cap).min(size) } };
                }
            }
            Op::Seek => {
                if self.slot_where(&|h| matches!(h, H::Val { .. } | H::Run { .. })).is_none() {
                    self.add(Op::Stream);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Val { .. } | H::Run { .. })) else { return };
                let (len, pos, target) = match self.h[s].clone() {
                    H::Val { m, l, pos } => {
                        let t = self.offset(m, l);
                        (vol.files[m].logical[l].size(), pos, t)
                    }
                    H::Run { len, pos } => {
                        let t = match self.r.below(4) {
                            0 => len,
                            1 => self.r.below(len + 1),
                            2 => len.saturating_add(self.r.skewed(5000)),
                            _ => self.r.skewed(len),
                        };
                        (len, pos, t)
                    }
                    _ => return,
                };
                let att = if self.r.chance(1, 4) { 4 } else { 0 };
                let (a, b) = if self.r.chance(1, 8) {
                    let x = *self.r.pick(&[u64::MAX, i64::MAX as u64, i64::MIN as u64, 1 << 62, 0, u64::MAX - 1, 1 << 32]);
                    (self.r.below(3), x)
                } else {
                    match self.r.below(3) {
                        0 => (0, target),
                        1 => (1, target.wrapping_sub(pos)),
                        _ => (2, target.wrapping_sub(len)),
                    }
                };
                self.put(op, 0, s, a | att, b, 0);
                let p = match a {
                    0 => Some(b),
                    1 => pos.checked_add_signed(b as i64),
                    _ => len.checked_add_signed(b as i64),
                };
                if let Some(p) = p {
                    match &mut self.h[s] {
                        H::Val { pos, .. } | H::Run { pos, .. } => *pos = p,
                        _ => {}
                    }
                }
            }
            Op::Clone => {
                let Some(s) = self.slot_where(&|h| !matches!(h, H::None | H::Finder(_))) else { return };
                let d = self.free_slot();
                if d == s {
                    return;
                }
                self.put(op, d, s, 0, 0, 0);
                self.h[d] = self.h[s].clone();
            }
            Op::Runs => {
                let f = self.file_where(&|v, m| v.files[m].attrs.iter().any(|a| a.rec == v.files[m].rec && matches!(a.body, Body::Non { .. })));
                let Some((s, m)) = f else { return };
                let f = &vol.files[m];
                let mut v: Vec<usize> = (0..f.attrs.len()).filter(|n| f.attrs[*n].rec == f.rec).collect();
                v.sort_by_key(|n| f.attrs[*n].off);
                let c: Vec<usize> = (0..v.len()).filter(|k| matches!(f.attrs[v[*k]].body, Body::Non { .. })).collect();
                let k = *self.r.pick(&c);
                let d = self.free_slot();
                self.put(op, d, s, 0, k as u64, 0);
                self.h[d] = H::Runs { m, a: v[k], n: 0 };
            }
            Op::RunNext => {
                if self.slot_where(&|h| matches!(h, H::Runs { .. })).is_none() {
                    self.add(Op::Runs);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Runs { .. })) else { return };
                let H::Runs { m, a, n } = self.h[s].clone() else { return };
                let d = self.free_slot();
                self.put(op, d, s, 0, 0, 0);
                if d != s {
                    if let Body::Non { runs, .. } = &vol.files[m].attrs[a].body {
                        if let Some(r) = runs.get(n) {
                            self.h[d] = H::Run { len: r.clusters * vol.cs, pos: 0 };
                        }
                    }
                }
                self.h[s] = H::Runs { m, a, n: n + 1 };
            }
            Op::Dir => {
                if self.r.chance(1, 12) {
                    // Not a directory.
                    if let Some((s, _)) = self.file_where(&|v, m| v.files[m].flags & 2 == 0) {
                        self.put(op, 0, s, 0, 1 << 20, 0);
                    }
                    return;
                }
                // Indexes with many entries are the interesting ones.
                let big = self.r.chance(1, 2);
                let f = self.file_where(&|v, m| v.files[m].idx.iter().any(|i| !big || v.idxs[*i].nodes.len() > 1));
                let f = match f {
                    Some(f) => Some(f),
                    None => self.file_where(&|v, m| !v.files[m].idx.is_empty()),
                };
                let Some((s, m)) = f else { return };
                let i = *self.r.pick(&vol.files[m].idx);
                let d = self.free_slot();
                let a = self.r.chance(1, 4) as u64;
                self.put(op, d, s, a, i as u64, 0);
                self.h[d] = H::Idx(i);
            }
            Op::Entries | Op::Finder => {
                if self.r.chance(1, 4) || self.slot_where(&|h| matches!(h, H::Idx(_))).is_none() {
                    self.add(Op::Dir);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Idx(_))) else { return };
                let H::Idx(i) = self.h[s] else { return };
                let d = self.free_slot();
                self.put(op, d, s, 0, 0, 0);
                self.h[d] = if op == Op::Entries { H::Ents(i) } else { H::Finder(i) };
            }
            Op::EntNext | Op::EntAll => {
                if self.r.chance(1, 6) || self.slot_where(&|h| matches!(h, H::Ents(_))).is_none() {
                    self.add(Op::Entries);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Ents(_))) else { return };
                let a = self.r.chance(1, 3) as u64;
                self.put(op, 0, s, a, 0, 0);
            }
            Op::Find => {
                if self.r.chance(1, 8) || self.slot_where(&|h| matches!(h, H::Finder(_))).is_none() {
                    self.add(Op::Finder);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Finder(_))) else { return };
                let H::Finder(i) = self.h[s] else { return };
                let a = self.r.below(vol.idxs[i].entries.len().max(1) as u64);
                let b = *self.r.pick(&[0u64, 0, 0, 1, 1, 1, 2, 3, 4, 4, 5, 6, 7]);
                let c = self.r.u64() >> 12;
                self.put(op, 0, s, a, b, c);
            }
            Op::Recs => {
                let Some((s, m)) = self.file_where(&|v, m| v.files[m].idx.iter().any(|i| v.idxs[*i].alloc_l.is_some())) else { return };
                let c: Vec<usize> = vol.files[m].idx.iter().copied().filter(|i| vol.idxs[*i].alloc_l.is_some()).collect();
                let i = *self.r.pick(&c);
                let d = self.free_slot();
                self.put(op, d, s, 0, i as u64, 0);
                self.h[d] = H::Recs(i);
            }
            Op::RecNext | Op::RecAll => {
                if self.r.chance(1, 5) || self.slot_where(&|h| matches!(h, H::Recs(_))).is_none() {
                    self.add(Op::Recs);
                }
                let Some(s) = self.slot_where(&|h| matches!(h, H::Recs(_))) else { return };
                let a = self.r.chance(1, 4) as u64;
                self.put(op, 0, s, a, 0, 0);
            }
            Op::RecVcn => {
                let Some((s, m)) = self.file_where(&|v, m| v.files[m].idx.iter().any(|i| v.idxs[*i].alloc_l.is_some())) else { return };
                let c: Vec<usize> = vol.files[m].idx.iter().copied().filter(|i| vol.idxs[*i].alloc_l.is_some()).collect();
                let i = *self.r.pick(&c);
                let n = vol.idxs[i].slots;
                let slot = match self.r.below(10) {
                    0 => n,
                    1 => n + self.r.skewed(1 << 40),
                    _ => self.r.below(n.max(1)),
                };
                self.put(op, 0, s, 0, i as u64, slot);
            }
            Op::RootEnts => {
                let Some((s, m)) = self.file_where(&|v, m| !v.files[m].idx.is_empty()) else { return };
                let i = *self.r.pick(&vol.files[m].idx);
                self.put(op, 0, s, 0, i as u64, 0);
            }
            Op::Vol => {
                let a = self.r.below(2);
                self.put(op, 0, 0, a, 0, 0);
            }
            Op::Foreign | Op::Idle | Op::SecOp => {}
        }
    }
}

// ---- fault plans -------------------------------------------------------------------------------

/// What a clean run of the same history did, per step.
#[derive(Clone, Debug, Default)]
pub struct StepTrace {
    pub calls: u32,
    pub bytes: u64,
    pub trace: Vec<Call>,
}

pub fn fault(k: FK, task: u32, step: u32, call: u32, x: u64, y: u64, z: u64) -> Fault {
    Fault { k, task, step, attempt: 0, call, x, y, z }
}

/// A step that does device calls.
fn busy(r: &mut Rng, t: &[StepTrace], reads: bool) -> Option<usize> {
    let v: Vec<usize> = (0..t.len()).filter(|n| if reads { t[*n].bytes > 0 } else { t[*n].calls > 0 }).collect();
    if v.is_empty() {
        return None;
    }
    // Later steps are as likely as the mount.
    Some(*r.pick(&v))
}
fn busy_call(r: &mut Rng, t: &StepTrace, read: Option<bool>) -> u32 {
    let c: Vec<u32> = t.trace.iter().enumerate().filter(|(_, c)| read.map(|x| c.read == x).unwrap_or(true)).map(|(n, _)| n as u32 + 1).collect();
    if c.is_empty() {
        return 1;
    }
    *r.pick(&c)
}

/// Legal device behaviour: short counts, interruptions, delays.
pub fn soft_faults(r: &mut Rng, task: u32, t: &[StepTrace], out: &mut Vec<Fault>) {
    let n = r.range(1, 6);
    for _ in 0..n {
        let Some(s) = busy(r, t, true) else { return };
        match r.below(8) {
            0..=2 => {
                let c = busy_call(r, &t[s], Some(true));
                let x = 1 + r.skewed(5000);
                out.push(fault(FK::Short, task, s as u32, c, x, 0, 0));
            }
            3 | 4 => {
                let min = t[s].bytes / 20_000 + 1;
                let x = min + *r.pick(&[0u64, 0, 6, 99, 510, 511, 512, 4095]);
                let y = *r.pick(&[0u64, 0, 0, 512]);
                out.push(fault(FK::ShortAll, task, s as u32, 0, x, y, 0));
            }
            5 => {
                let c = busy_call(r, &t[s], Some(true));
                out.push(fault(FK::Intr, task, s as u32, c, 0, 0, 0));
            }
            6 => out.push(fault(FK::IntrAll, task, s as u32, 0, 0, 0, 0)),
            _ => {
                let c = busy_call(r, &t[s], None);
                out.push(fault(FK::Stall, task, s as u32, c, 1 + r.skewed(30_000), 0, 0));
            }
        }
    }
}

/// Device failures.
pub fn hard_faults(r: &mut Rng, task: u32, t: &[StepTrace], transient: bool, out: &mut Vec<Fault>) {
    let n = 1 + r.skewed(4);
    for _ in 0..n {
        let Some(s) = busy(r, t, false) else { return };
        let c = busy_call(r, &t[s], None);
        let k = r.below(HARD_KINDS);
        let kind = r.below(10);
        let mut f = match kind {
            0..=3 => {
                let y = match r.below(3) {
                    0 => 0,
                    1 => t[s].trace.get(c as usize - 1).map(|c| c.pos + c.len).unwrap_or(0),
                    _ => r.u64() >> 24,
                };
                fault(FK::Err, task, s as u32, c, k, y, 0)
            }
            4 | 5 => {
                let c = busy_call(r, &t[s], Some(true));
                fault(FK::Eof, task, s as u32, c, 0, 0, 0)
            }
            6 => fault(FK::Stall, task, s as u32, c, 1 + r.skewed(60_000), 1, 0),
            _ if transient => {
                // A short read followed by a failure of the continuation.
                let c = busy_call(r, &t[s], Some(true));
                let x = 1 + r.skewed(3000);
                out.push(fault(FK::Short, task, s as u32, c, x, 0, 0));
                fault(FK::Err, task, s as u32, c + 1, k, r.u64() >> 30, 0)
            }
            7 | 8 => {
                let reads: Vec<&Call> = t[s].trace.iter().filter(|c| c.read && c.got > 0).collect();
                if reads.is_empty() {
                    continue;
                }
                let c = r.pick(&reads);
                let a = c.pos + r.below(c.got as u64);
                let len = 1 + r.skewed(70_000);
                let mut f = fault(FK::BadRange, task, r.range(0, s as u64) as u32, 0, a, len, k);
                f.attempt = *r.pick(&[0u32, 1, 3, 10]);
                f
            }
            _ => {
                let reads: Vec<&Call> = t[s].trace.iter().filter(|c| c.read && c.got > 0).collect();
                if reads.is_empty() {
                    continue;
                }
                let c = r.pick(&reads);
                let a = c.pos + r.below(c.got as u64);
                let mut f = fault(FK::Trunc, task, r.range(0, s as u64) as u32, 0, a, 0, 0);
                f.attempt = *r.pick(&[0u32, 1, 3, 10]);
                f
            }
        };
        if transient {
            f.attempt = r.skewed(2) as u32;
            if f.attempt > 0 {
                // The attempts before have to fail, too.
                for a in 0..f.attempt {
                    let mut g = fault(FK::Err, task, s as u32, busy_call(r, &t[s], None), r.below(HARD_KINDS), 0, 0);
                    g.attempt = a;
                    out.push(g);
                }
            }
        }
        out.push(f);
    }
}

/// A structure placed where it does not fit: consistent up to there, at the very end of its block; or a
/// forged run list. Adds the writes and returns true if the block is suitable.
fn crafted(r: &mut Rng, vol: &Volume, task: u32, bl: &Block, out: &mut Vec<Fault>) -> bool {
    let len = bl.len();
    let mut set = |off: u64, w: u64, z: u64| {
        // The last bytes of a sector are covered by the update sequence array.
        if off + w <= len {
            out.push(fault(FK::Set, task, 0, 0, bl.at(off), w, z));
        }
    };
    let odd = |r: &mut Rng, max: u64| *r.pick(&[0u64, 1, 8, 15, 16, 24, 32, 63, 64, 65, max / 2, max, max - 1, max - 7]);
    match bl.kind {
        BK::Record(n) => {
            let at: Vec<&Attr> = vol.files.iter().flat_map(|f| &f.attrs).filter(|a| a.rec == n).collect();
            if at.is_empty() {
                return false;
            }
            // Structures first.
            let of: Vec<&Attr> = at.iter().filter(|a| matches!(a.ty, T_ROOT | T_AL)).copied().collect();
            let a = if !of.is_empty() && r.chance(1, 3) { *r.pick(&of) } else { *r.pick(&at) };
            let off = a.off as u64;
            match (&a.body, r.below(3)) {
                (Body::Non { roff, enc, .. }, 0) => {
                    // A run list of lengths and offsets at the limits.
                    let mut o = off + *roff as u64;
                    let mut end = o + enc.len() as u64;
                    if r.chance(1, 2) && o + 48 <= len {
                        // Some small runs and then one that ends where addresses end.
                        set(off + 4, 4, *roff as u64 + 40);
                        set(0x18, 4, len);
                        for _ in 0..r.below(4) {
                            let sparse = r.chance(1, 4);
                            set(o, 1, if sparse { 0x01 } else { 0x11 });
                            set(o + 1, 1, r.range(1, 100));
                            set(o + 2, 1, r.range(1, 100));
                            o += if sparse { 2 } else { 3 };
                        }
                        let half = (1u64 << 63) / vol.cs;
                        let count = half - 1 - r.skewed(half / 2);
                        let lcn = half - 1 - r.skewed(half / 2);
                        set(o, 1, 0x88);
                        set(o + 1, 8, if r.chance(1, 2) { count } else { 2 * half - 1 - r.skewed(half) });
                        set(o + 9, 8, if r.chance(1, 2) { lcn } else { 2 * half - 1 - r.skewed(half) });
                        set(o + 17, 1, 0);
                        end = 0;
                    }
                    while o < end {
                        let h = *r.pick(&[0x11u64, 0x21, 0x31, 0x41, 0x18, 0x81, 0x88, 0x44, 0xf1, 0x1f, 0x01, 0x08, 0x10, 0x00, 0x12, 0x77, 0x87, 0x78]);
                        set(o, 1, h);
                        o += 1;
                        for k in [h & 15, h >> 4] {
                            let z = match r.below(6) {
                                // About half of all that can be addressed.
                                5 => ((1u64 << 63) / vol.cs).wrapping_add(r.below(3)).wrapping_sub(1),
                                0 => u64::MAX,
                                1 => 1,
                                2 => 0x80u64 << (8 * k.clamp(1, 8) - 8),
                                3 => (1u64 << (8 * k.clamp(1, 8) - 1)) - 1,
                                _ => r.u64(),
                            };
                            for b in 0..k.min(8) {
                                if o < end {
                                    set(o, 1, z >> (8 * b) & 255);
                                    o += 1;
                                }
                            }
                        }
                        if r.chance(1, 4) {
                            break;
                        }
                    }
                    if r.chance(1, 2) {
                        // The value is as long as its runs.
                        let z = *r.pick(&[u64::MAX, i64::MAX as u64, 1 << 63, 1 << 62]);
                        for k in [40, 48, 56] {
                            set(off + k, 8, z);
                        }
                    }
                }
                (Body::Res { val, voff }, 0 | 1) => {
                    // A value that ends in the middle of its structure.
                    let v = off + *voff as u64;
                    let min: &[u64] = match a.ty {
                        T_STD => &[48, 72],
                        T_AL => &[26],
                        T_NAME => &[66, 68],
                        T_ROOT => &[16, 24, 28, 32, 32, 48, 56],
                        T_OBJID => &[16, 32, 48, 64],
                        T_VOLINFO => &[12],
                        _ => &[0, 256],
                    };
                    let n = *r.pick(min);
                    let n = match r.below(4) {
                        0 => n,
                        1 => n.saturating_sub(r.range(1, 8)),
                        2 => n + r.below(9),
                        _ => (val.len() as u64).saturating_sub(r.below(17)),
                    };
                    set(off + 16, 4, n);
                    if r.chance(1, 3) {
                        // ... at the very end of the record.
                        let q = len.saturating_sub(n + r.below(4));
                        if q > off + 24 && q - off < 0xffff {
                            set(off + 20, 2, q - off);
                            set(off + 4, 4, len - off);
                            set(0x18, 4, len);
                            if a.ty == T_ROOT && q + 32 <= len {
                                set(q + 8, 4, *r.pick(&[512u64, 1024, 4096]));
                            }
                            return true;
                        }
                    }
                    if a.ty == T_ROOT {
                        // Sizes that just fit.
                        let left = n.saturating_sub(16);
                        let first = *r.pick(&[0u64, 0, 8, 12, 16, left, left, left.saturating_sub(16)]);
                        let used = *r.pick(&[left, left, left, left + 1, left.saturating_sub(1), first, first + 16]);
                        set(v + 16, 4, first);
                        set(v + 20, 4, used);
                        let z = if r.chance(1, 2) { used } else { left };
                        set(v + 24, 4, z);
                    } else if a.ty == T_AL && n > 40 {
                        // The last entry begins right before the end.
                        let q = n - r.range(1, 40.min(n - 27));
                        set(v + 4, 2, q);
                        let z = if r.chance(1, 2) { n - q } else { odd(r, 0xffff) };
                        set(v + q, 4, T_DATA as u64);
                        set(v + q + 4, 2, z);
                        let z = odd(r, 255);
                        set(v + q + 6, 1, z);
                        let z = odd(r, 255);
                        set(v + q + 7, 1, z);
                    } else if a.ty == T_NAME && r.chance(1, 2) {
                        let z = odd(r, 255);
                        set(v + 64, 1, z);
                        set(v + 65, 1, r.below(8));
                    }
                }
                _ => {
                    // The next attribute begins right before the end of the record.
                    let q = len - r.range(1, 72);
                    if q < off + 16 {
                        return false;
                    }
                    set(off + 4, 4, q - off);
                    let ty = if r.chance(2, 3) { *r.pick(&[T_STD, T_AL, T_NAME, T_DATA, T_ROOT, T_ALLOC]) as u64 } else { a.ty as u64 };
                    set(q, 4, ty);
                    let l = if r.chance(1, 2) { len - q } else { odd(r, 0xffff_ffff) };
                    set(q + 4, 4, l);
                    set(q + 8, 1, r.below(3));
                    let v = odd(r, 255);
                    set(q + 9, 1, if r.chance(1, 2) { 0 } else { v });
                    let v = odd(r, 0xffff);
                    set(q + 10, 2, v);
                    set(q + 14, 2, r.below(12));
                    let v = odd(r, 0xffff_ffff);
                    set(q + 16, 4, v);
                    let v = odd(r, 0xffff);
                    set(q + 20, 2, v);
                }
            }
            true
        }
        BK::Index { .. } => {
            let mut b = [0u8; 4];
            vol.img.read(bl.at(0x18), &mut b);
            let first = 24 + u32::from_le_bytes(b) as u64;
            let q = len - r.range(1, 40);
            if first + 16 > q {
                return false;
            }
            set(0x1c, 4, len - 24 + r.below(26) - r.below(2));
            if r.chance(1, 2) {
                set(0x20, 4, len - 24);
            }
            if r.chance(3, 4) {
                set(first + 8, 2, q - first);
                set(q + 8, 2, if r.chance(1, 2) { len - q } else { odd(r, 0xffff) });
                let v = odd(r, 0xffff);
                set(q + 10, 2, v);
                set(q + 12, 1, r.below(4));
            }
            true
        }
        _ => false,
    }
}

/// Damage to the medium.
pub fn media_faults(r: &mut Rng, vol: &Volume, task: u32, t: &[StepTrace], out: &mut Vec<Fault>) {
    let n = match r.below(4) {
        0 | 1 => 1,
        2 => 2,
        _ => r.range(2, 12),
    };
    // Prefer blocks the history reads.
    let touched: Vec<&Block> = vol
        .blocks
        .iter()
        .filter(|b| t.iter().any(|s| s.trace.iter().any(|c| c.read && c.got > 0 && c.pos <= b.at(0) && b.at(0) < c.pos + c.got as u64)))
        .collect();
    for _ in 0..n {
        let bl = if !touched.is_empty() && r.chance(5, 6) { *r.pick(&touched) } else { r.pick(&vol.blocks) };
        if r.chance(1, 6) && crafted(r, vol, task, bl, out) {
            continue;
        }
        let (mut step, mut call) = (0, 0);
        match r.below(4) {
            0 | 1 => {}
            2 => {
                if !t.is_empty() {
                    step = r.below(t.len() as u64) as u32;
                }
            }
            _ => {
                if let Some(s) = busy(r, t, false) {
                    step = s as u32;
                    call = busy_call(r, &t[s], None);
                }
            }
        }
        let f = match r.below(12) {
            0..=6 => {
                // A field of this block, or any.
                let c: Vec<&(u64, u8)> = vol.fields.iter().filter(|f| bl.pieces.iter().any(|(p, n)| f.0 >= *p && f.0 < p + n)).collect();
                let (p, w) = if c.is_empty() || r.chance(1, 10) { *r.pick(&vol.fields) } else { **r.pick(&c) };
                let mut b = [0u8; 8];
                vol.img.read(p, &mut b[..w as usize]);
                let old = u64::from_le_bytes(b);
                let max = if w == 8 { u64::MAX } else { (1u64 << (w as u32 * 8)) - 1 };
                let z = match r.below(10) {
                    0 => 0,
                    1 => max,
                    2 => max >> 1,
                    3 => (max >> 1) + 1,
                    4 => old.wrapping_add(*r.pick(&[1u64, 8, 16, u64::MAX, 0u64.wrapping_sub(8), 0u64.wrapping_sub(16), 512, 4096])),
                    5 => old ^ (1 << r.below(w as u64 * 8)),
                    6 => r.skewed(max),
                    7 => max - r.skewed(max.min(600)),
                    // Just around the end of the block.
                    8 if r.chance(1, 3) => (bl.len() + 24).saturating_sub(r.below(120)),
                    8 if r.chance(1, 2) => r.below(64),
                    8 => {
                        // The value of another field of this width (cycles, cross links).
                        let o: Vec<&(u64, u8)> = c.iter().copied().filter(|f| f.1 == w).collect();
                        let o = if o.is_empty() || r.chance(1, 3) { *r.pick(&vol.fields) } else { **r.pick(&o) };
                        let mut b = [0u8; 8];
                        vol.img.read(o.0, &mut b[..o.1.min(w) as usize]);
                        u64::from_le_bytes(b)
                    }
                    _ => r.u64(),
                };
                fault(FK::Set, task, step, call, p, w as u64, z & max)
            }
            7 => {
                let o = r.below(bl.len().max(1));
                fault(FK::Flip, task, step, call, bl.at(o), r.below(8), 0)
            }
            8 => {
                // Bytes anywhere in the block.
                let o = r.below(bl.len().max(1));
                let w = *r.pick(&[1u64, 2, 4, 8]);
                let z = *r.pick(&[0u64, u64::MAX, 0x8000_0000_8000_8000, 0x7fff_ffff_ffff_ffff, 0xffff_fff0_fff8_fff0, 1, 2, 8, 16]);
                fault(FK::Set, task, step, call, bl.at(o), w, z)
            }
            9 => {
                let o = r.below(bl.len().div_ceil(512)) * 512;
                fault(if r.chance(1, 2) { FK::Zero } else { FK::Noise }, task, step, call, bl.at(o), *r.pick(&[512u64, 512, 1024, 4096]), r.u64() >> 20)
            }
            10 => {
                let o = r.pick(&vol.blocks);
                let n = if r.chance(2, 3) { bl.len().min(o.len()).min(4096) } else { 512 };
                fault(FK::Copy, task, step, call, bl.at(0), n, o.at(0))
            }
            _ => {
                let o = r.below(bl.len().max(1));
                let n = r.range(1, 40);
                fault(FK::Noise, task, step, call, bl.at(o), n, r.u64() >> 20)
            }
        };
        out.push(f);
    }
}
