//! A single undecodable element inside an otherwise intact structure, and what it makes impossible.
use crate::rng::Rng;
use crate::vol::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HK {
    /// The length in an attribute header does not fit: neither it nor what follows can be reached.
    AttrLen,
    /// The name of an attribute lies outside of it.
    NameOff,
    /// The resident value of an attribute lies outside of it.
    ValOff,
    /// The run list of an attribute lies outside of it.
    RunsOff,
    /// A run header nobody can decode.
    RunHdr,
    /// A $FILE_NAME whose name is longer than the value.
    FileName,
    /// The length of an entry of an attribute list does not fit.
    AlLen,
    /// The length of an index entry does not fit.
    EntLen,
    /// The key of an index entry is longer than the entry.
    KeyLen,
    /// The subnode of an index entry lies outside of the index allocation.
    Vcn,
}

const KINDS: &[HK] = &[HK::AttrLen, HK::NameOff, HK::ValOff, HK::RunsOff, HK::RunHdr, HK::RunHdr, HK::RunHdr, HK::FileName, HK::AlLen, HK::EntLen, HK::EntLen, HK::KeyLen, HK::Vcn];

#[derive(Clone, Debug)]
pub struct Hurt {
    pub kind: HK,
    pub file: usize,
    /// The attribute concerned (index into `attrs`), its record and its number within the record.
    pub attr: usize,
    pub rec: u64,
    pub nth: usize,
    pub logical: usize,
    /// Stream offset and number of the run that is lost.
    pub off: u64,
    pub run: usize,
    /// Entry of the attribute list.
    pub al: usize,
    /// Index, node and entry.
    pub idx: usize,
    pub node: usize,
    pub ent: usize,
    /// The bytes changed.
    pub bytes: Vec<u64>,
}

/// Attributes of a record in the order they are stored in.
pub fn rec_attrs(f: &FileModel, rec: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..f.attrs.len()).filter(|n| f.attrs[*n].rec == rec).collect();
    v.sort_by_key(|n| f.attrs[*n].off);
    v
}

/// The bytes of a block as they are without the update sequence numbers.
fn content(vol: &Volume, b: &Block) -> Vec<u8> {
    let mut v = vec![];
    for (p, n) in &b.pieces {
        let mut x = vec![0u8; *n as usize];
        vol.img.read(*p, &mut x);
        v.extend(x);
    }
    let u = u16::from_le_bytes([v[4], v[5]]) as usize;
    for k in 0..v.len() / 512 {
        let (a, c) = (v[u + 2 + 2 * k], v[u + 3 + 2 * k]);
        v[k * 512 + 510] = a;
        v[k * 512 + 511] = c;
    }
    v
}

type Sets = Vec<(u64, u64)>;

/// Sets bytes of a block, unless one of them is replaced by the update sequence number.
fn put(b: &Block, off: u64, bytes: &[u8], out: &mut Sets) -> bool {
    for (k, c) in bytes.iter().enumerate() {
        let o = off + k as u64;
        if o % 512 >= 510 || o >= b.len() {
            return false;
        }
        out.push((b.at(o), *c as u64));
    }
    true
}

/// The damage number `z` means on this volume: what is damaged and the bytes to be changed.
pub fn expand(vol: &Volume, z: u64) -> Option<(Hurt, Sets)> {
    let mut r = Rng::new(z);
    for _ in 0..40 {
        let k = *r.pick(KINDS);
        let f = pick_file(vol, &mut r, k);
        let mut out = vec![];
        if let Some(mut h) = f.and_then(|f| one(vol, &mut r, k, f, &mut out)) {
            h.bytes = out.iter().map(|o| o.0).collect();
            return Some((h, out));
        }
    }
    None
}

fn pick_file(vol: &Volume, r: &mut Rng, k: HK) -> Option<usize> {
    let sys = r.chance(1, 5);
    let v: Vec<usize> = (0..vol.files.len())
        .filter(|m| {
            let f = &vol.files[*m];
            (sys || !f.is_sys)
                && match k {
                    HK::AlLen => f.al.is_some(),
                    HK::EntLen | HK::KeyLen => !f.idx.is_empty(),
                    HK::Vcn => f.idx.iter().any(|i| vol.idxs[*i].alloc_l.is_some()),
                    HK::NameOff => f.attrs.iter().any(|a| !a.name.is_empty()),
                    HK::RunsOff | HK::RunHdr => f.attrs.iter().any(|a| matches!(a.body, Body::Non { .. })),
                    _ => true,
                }
        })
        .collect();
    if v.is_empty() {
        return None;
    }
    Some(*r.pick(&v))
}

fn block(vol: &Volume, k: BK) -> Option<&Block> {
    vol.blocks.iter().find(|b| b.kind == k)
}

/// The block and the offset in it where a byte of a node is stored.
fn node_at(vol: &Volume, idx: usize, node: usize, off: u64) -> Option<(&Block, u64)> {
    let m = &vol.idxs[idx];
    match m.nodes[node].slot {
        Some(slot) => Some((block(vol, BK::Index { idx, slot })?, off)),
        None => {
            let f = &vol.files[vol.idx_file[idx]];
            let a = &f.attrs[f.logical[m.root_l].parts[0]];
            let Body::Res { voff, .. } = &a.body else { return None };
            Some((block(vol, BK::Record(a.rec))?, a.off as u64 + *voff as u64 + off))
        }
    }
}

fn one(vol: &Volume, r: &mut Rng, kind: HK, file: usize, out: &mut Sets) -> Option<Hurt> {
    let f = &vol.files[file];
    let mut h = Hurt { kind, file, attr: usize::MAX, rec: f.rec, nth: 0, logical: usize::MAX, off: 0, run: 0, al: 0, idx: usize::MAX, node: 0, ent: 0, bytes: vec![] };
    let cand: Vec<usize> = (0..f.attrs.len())
        .filter(|n| {
            let a = &f.attrs[*n];
            let res = matches!(a.body, Body::Res { .. });
            match kind {
                HK::AttrLen => true,
                HK::NameOff => !a.name.is_empty(),
                HK::ValOff => res,
                HK::RunsOff | HK::RunHdr => !res,
                HK::FileName => a.ty == 0x30 && res,
                _ => false,
            }
        })
        .collect();
    let mut b = None;
    if !cand.is_empty() {
        h.attr = *r.pick(&cand);
        let a = &f.attrs[h.attr];
        h.rec = a.rec;
        h.nth = rec_attrs(f, a.rec).iter().position(|x| *x == h.attr)?;
        h.logical = a.logical;
        b = block(vol, BK::Record(a.rec));
    }
    let done = match kind {
        HK::AttrLen => {
            let (a, b) = (f.attrs.get(h.attr)?, b?);
            let need = if matches!(a.body, Body::Res { .. }) { 23 } else { 64 };
            let room = vol.rs - a.off as u64;
            let n = match r.below(4) {
                0 => *r.pick(&[0u64, 1, 8, 15]),
                1 => r.below(need),
                2 => room + 1 + r.skewed(1 << 20),
                _ => *r.pick(&[room + 8, 0xffff_ffff, 0x8000_0000, 0x1_0000]),
            };
            put(b, a.off as u64 + 4, &(n as u32).to_le_bytes(), out)
        }
        HK::NameOff => {
            let (a, b) = (f.attrs.get(h.attr)?, b?);
            let n = a.len as u64 - a.name.len() as u64 * 2 + 1 + if r.chance(1, 2) { r.skewed(64) } else { r.skewed(60000) };
            put(b, a.off as u64 + 10, &(n as u16).to_le_bytes(), out) && n < 0x10000
        }
        HK::ValOff => {
            let (a, b) = (f.attrs.get(h.attr)?, b?);
            let Body::Res { val, .. } = &a.body else { return None };
            let room = a.len as u64 - val.len() as u64;
            let n = room + 1 + if r.chance(1, 2) { r.skewed(64) } else { r.skewed(60000) };
            put(b, a.off as u64 + 20, &(n as u16).to_le_bytes(), out) && n < 0x10000
        }
        HK::RunsOff => {
            let (a, b) = (f.attrs.get(h.attr)?, b?);
            let Body::Non { lowest, .. } = &a.body else { return None };
            h.off = lowest * vol.cs;
            let n = a.len as u64 + 1 + if r.chance(1, 2) { r.skewed(64) } else { r.skewed(60000) };
            put(b, a.off as u64 + 32, &(n as u16).to_le_bytes(), out) && n < 0x10000
        }
        HK::RunHdr => {
            let (a, b) = (f.attrs.get(h.attr)?, b?);
            let Body::Non { lowest, runs, enc, roff, .. } = &a.body else { return None };
            if runs.is_empty() {
                return None;
            }
            h.run = r.idx(runs.len());
            let mut o = 0;
            h.off = lowest * vol.cs;
            for x in &runs[..h.run] {
                let c = *enc.get(o)?;
                o += 1 + (c & 15) as usize + (c >> 4) as usize;
                h.off += x.clusters * vol.cs;
            }
            let old = *enc.get(o)? as u64;
            if old == 0 {
                return None;
            }
            let c = match r.below(3) {
                0 => (old & 0xf0) | r.range(9, 15),
                1 => (old & 0x0f) | r.range(9, 15) << 4,
                _ => r.range(1, 15) << 4,
            };
            put(b, a.off as u64 + *roff as u64 + o as u64, &[c as u8], out)
        }
        HK::FileName => {
            let (a, b) = (f.attrs.get(h.attr)?, b?);
            let Body::Res { val, voff } = &a.body else { return None };
            let room = (val.len() as u64 - 66) / 2;
            if room >= 255 {
                return None;
            }
            put(b, a.off as u64 + *voff as u64 + 64, &[r.range(room + 1, 255) as u8], out)
        }
        HK::AlLen => {
            let al = f.al.as_ref()?;
            if al.entries.is_empty() {
                return None;
            }
            h.al = r.idx(al.entries.len());
            h.logical = al.logical;
            let e = &al.entries[h.al];
            h.off = e.off;
            let total = f.logical[al.logical].size();
            let n = match r.below(3) {
                0 => *r.pick(&[0u64, 1, 8, 24, 25]),
                1 => r.below(26),
                _ => total - e.off + 1 + r.skewed(30000),
            };
            if n > 0xffff {
                return None;
            }
            let n = (n as u16).to_le_bytes();
            match &f.logical[al.logical].content {
                Content::Res(_) => {
                    let a = &f.attrs[f.logical[al.logical].parts[0]];
                    let Body::Res { voff, .. } = &a.body else { return None };
                    put(block(vol, BK::Record(a.rec))?, a.off as u64 + *voff as u64 + e.off + 4, &n, out)
                }
                Content::Stream(s) => {
                    for (k, c) in n.iter().enumerate() {
                        out.push((s.pos(vol.cs, e.off + 4 + k as u64)?, *c as u64));
                    }
                    true
                }
            }
        }
        HK::EntLen | HK::KeyLen | HK::Vcn => {
            if f.idx.is_empty() {
                return None;
            }
            h.idx = *r.pick(&f.idx);
            let m = &vol.idxs[h.idx];
            let has_child = |k: usize| m.nodes[m.entries[k].node].ents.iter().any(|e| e.0 == Some(k) && e.1.is_some());
            let c: Vec<usize> = (0..m.entries.len()).filter(|k| kind != HK::Vcn || has_child(*k)).collect();
            if c.is_empty() {
                return None;
            }
            h.ent = *r.pick(&c);
            let e = &m.entries[h.ent];
            h.node = e.node;
            let (b, o) = node_at(vol, h.idx, e.node, e.off as u64)?;
            let data = content(vol, b);
            let word = |p: u64| data.get(p as usize..p as usize + 2).map(|x| u16::from_le_bytes([x[0], x[1]]) as u64);
            let len = word(o + 8)?;
            match kind {
                HK::EntLen => {
                    let room = match m.nodes[e.node].slot {
                        Some(_) => b.len() - o,
                        None => {
                            let a = &f.attrs[f.logical[m.root_l].parts[0]];
                            let Body::Res { val, .. } = &a.body else { return None };
                            val.len() as u64 - e.off as u64
                        }
                    };
                    let n = match r.below(3) {
                        0 => *r.pick(&[0u64, 1, 8, 15]),
                        1 => r.below(16),
                        _ => room + 1 + if r.chance(1, 2) { r.skewed(64) } else { r.skewed(50000) },
                    };
                    n < 0x10000 && put(b, o + 8, &(n as u16).to_le_bytes(), out)
                }
                HK::KeyLen => {
                    let n = len - 16 + 1 + if r.chance(1, 2) { r.skewed(64) } else { r.skewed(50000) };
                    n < 0x10000 && put(b, o + 10, &(n as u16).to_le_bytes(), out)
                }
                _ => {
                    let size = m.alloc_l.map(|l| f.logical[l].size())?;
                    let end = size.div_ceil(m.unit);
                    let n = match r.below(5) {
                        0 => end + r.skewed(16),
                        1 => end + r.skewed(1 << 40),
                        2 => (-1 - r.skewed(1 << 40) as i64) as u64,
                        3 => *r.pick(&[i64::MIN as u64, i64::MAX as u64, u64::MAX, 1 << 62, 1 << 55]),
                        _ => end + (1 << (9 + r.below(50))),
                    };
                    put(b, o + len - 8, &n.to_le_bytes(), out)
                }
            }
        }
    };
    done.then_some(h)
}

impl Hurt {
    fn mft(&self, vol: &Volume) -> bool {
        vol.by_rec.get(&0) == Some(&self.file)
    }
    /// Is the attribute list of the file affected, or the way to it?
    pub fn al_hit(&self, vol: &Volume) -> bool {
        let f = &vol.files[self.file];
        let Some(al) = &f.al else { return false };
        match self.kind {
            HK::AlLen => true,
            HK::AttrLen => true,
            HK::ValOff | HK::RunsOff | HK::RunHdr => self.logical == al.logical,
            _ => false,
        }
    }
    /// The content of this value is not what it was.
    pub fn changed(&self, vol: &Volume, file: usize, logical: usize) -> bool {
        file == self.file
            && match self.kind {
                HK::FileName => logical == self.logical,
                HK::AlLen => logical == self.logical,
                HK::EntLen | HK::KeyLen | HK::Vcn => {
                    let m = &vol.idxs[self.idx];
                    logical == m.root_l || Some(logical) == m.alloc_l
                }
                _ => false,
            }
    }
    /// The physical attribute cannot be reached by going through its record.
    pub fn hides(&self, vol: &Volume, file: usize, attr: usize) -> bool {
        let f = &vol.files[file];
        self.kind == HK::AttrLen && file == self.file && f.attrs[attr].rec == self.rec && f.attrs[attr].off >= f.attrs[self.attr].off
    }
    /// Number of entries an in-order walk delivers before it needs what is lost.
    pub fn entries_before(&self, vol: &Volume, idx: usize) -> usize {
        let m = &vol.idxs[idx];
        let lost = match self.kind {
            HK::RunHdr | HK::RunsOff if Some(self.logical) == m.alloc_l => self.off,
            _ => u64::MAX,
        };
        let mut n = 0;
        fn walk(h: &Hurt, m: &IdxModel, idx: usize, node: usize, lost: u64, n: &mut usize) -> bool {
            if let Some(s) = m.nodes[node].slot {
                if (s + 1) * m.rec_size as u64 > lost {
                    return true;
                }
            }
            for (k, c) in &m.nodes[node].ents {
                if let (HK::EntLen | HK::Vcn, true, Some(k)) = (h.kind, h.idx == idx, k) {
                    if *k == h.ent {
                        return true;
                    }
                }
                if let Some(c) = c {
                    if walk(h, m, idx, *c, lost, n) {
                        return true;
                    }
                }
                if k.is_some() {
                    *n += 1;
                }
            }
            false
        }
        walk(self, m, idx, 0, lost, &mut n);
        n
    }
    /// Does a search (`cmp`: the searched key against an entry's) come across what is lost?
    pub fn on_path(&self, vol: &Volume, idx: usize, cmp: &dyn Fn(&IdxEntry) -> std::cmp::Ordering) -> bool {
        use std::cmp::Ordering::*;
        let m = &vol.idxs[idx];
        let lost = match self.kind {
            HK::RunHdr | HK::RunsOff if Some(self.logical) == m.alloc_l => self.off,
            _ => u64::MAX,
        };
        let mut node = 0;
        loop {
            if let Some(s) = m.nodes[node].slot {
                if (s + 1) * m.rec_size as u64 > lost {
                    return true;
                }
            }
            let mut next = None;
            for (k, child) in &m.nodes[node].ents {
                let here = self.idx == idx && *k == Some(self.ent);
                if here && matches!(self.kind, HK::EntLen | HK::KeyLen) {
                    return true;
                }
                match k.map(|k| cmp(&m.entries[k])) {
                    Some(Greater) => continue,
                    Some(Equal) => return false,
                    _ => {
                        if here && self.kind == HK::Vcn {
                            return true;
                        }
                        next = *child;
                        break;
                    }
                }
            }
            match next {
                Some(c) => node = c,
                None => return false,
            }
        }
    }
    /// Opening a File Record may fail.
    pub fn open_may_fail(&self, vol: &Volume, rec: u64) -> bool {
        if !self.mft(vol) {
            return false;
        }
        let f = &vol.files[self.file];
        let Some(data) = f.attrs.iter().position(|a| a.ty == T_DATA && a.name.is_empty()) else { return true };
        match self.kind {
            HK::AttrLen => self.hides(vol, self.file, data),
            HK::RunsOff => self.attr == data,
            HK::RunHdr => self.attr == data && (rec + 1) * vol.rs > self.off,
            _ => false,
        }
    }
    pub fn is_mft(&self, vol: &Volume) -> bool {
        self.mft(vol)
    }
}
