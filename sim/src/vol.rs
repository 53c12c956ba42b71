//! Random well-formed NTFS volumes together with an independent description ("model") of what is
//! on them. The model is written from the on-disk format, never derived from the library.
use crate::disk::{noise, Image};
use crate::json::{self, J};
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, OnceLock};

// ---- recipe ------------------------------------------------------------------------------------

/// Everything that determines a volume. Part of the replay file.
#[derive(Clone, Debug, PartialEq)]
pub struct VolSpec {
    pub seed: u64,
    pub sector_shift: u32,
    pub cluster_shift: u32,
    /// As in the boot sector: positive = clusters, negative = -log2(bytes).
    pub rec_info: i32,
    /// Device address space is 2^span_shift clusters.
    pub span_shift: u32,
    pub mft_frags: u32,
    pub n_files: u32,
    pub n_dirs: u32,
    pub max_entries: u32,
    pub upcase: u32,
    /// Index record size in bytes for large indexes.
    pub index_rec: u32,
    pub flags: u64,
}

pub const F_AL: u64 = 1; // attribute lists
pub const F_AL_NONRES: u64 = 2; // non-resident attribute lists
pub const F_SPLIT: u64 = 4; // streams split over several records
pub const F_SPARSE: u64 = 8;
pub const F_ADS: u64 = 16;
pub const F_HUGE: u64 = 32; // huge runs
pub const F_BASE_EXTENT: u64 = 64; // one extent of a split stream may stay in the base record
pub const F_INST: u64 = 128; // instance numbers may coincide across records
pub const F_INIT: u64 = 256; // initialized size < data size
pub const F_CASEDUP: u64 = 512; // names differing by case only
pub const F_STRADDLE: u64 = 1024; // file records may straddle MFT fragments
pub const F_NTFS12: u64 = 2048; // short standard information, old record header
pub const F_CUSTOM_IDX: u64 = 4096; // indexes with data
pub const F_PREALLOC: u64 = 8192; // allocated size far beyond data size
pub const F_BIG_CLUSTER_IDX: u64 = 16384; // allow index records smaller than a cluster
pub const F_EMPTY_NODES: u64 = 32768;
pub const F_ALL: u64 = 65535;
pub const FLAG_NAMES: &[(u64, &str)] = &[
    (F_AL, "al"),
    (F_AL_NONRES, "al_nonres"),
    (F_SPLIT, "split"),
    (F_SPARSE, "sparse"),
    (F_ADS, "ads"),
    (F_HUGE, "huge"),
    (F_BASE_EXTENT, "base_extent"),
    (F_INST, "instances"),
    (F_INIT, "init_size"),
    (F_CASEDUP, "casedup"),
    (F_STRADDLE, "straddle"),
    (F_NTFS12, "ntfs12"),
    (F_CUSTOM_IDX, "custom_idx"),
    (F_PREALLOC, "prealloc"),
    (F_BIG_CLUSTER_IDX, "small_index_records"),
    (F_EMPTY_NODES, "empty_nodes"),
];

impl VolSpec {
    pub fn cluster(&self) -> u64 {
        1 << self.cluster_shift
    }
    pub fn rec_size(&self) -> u64 {
        if self.rec_info > 0 {
            self.rec_info as u64 * self.cluster()
        } else {
            1 << (-self.rec_info)
        }
    }
    pub fn to_json(&self) -> J {
        let mut fl = Vec::new();
        for (b, n) in FLAG_NAMES {
            if self.flags & b != 0 {
                fl.push(json::s(*n));
            }
        }
        json::obj(vec![
            ("seed", json::i(self.seed)),
            ("sector_shift", json::i(self.sector_shift)),
            ("cluster_shift", json::i(self.cluster_shift)),
            ("rec_info", json::i(self.rec_info)),
            ("span_shift", json::i(self.span_shift)),
            ("mft_frags", json::i(self.mft_frags)),
            ("n_files", json::i(self.n_files)),
            ("n_dirs", json::i(self.n_dirs)),
            ("max_entries", json::i(self.max_entries)),
            ("upcase", json::i(self.upcase)),
            ("index_rec", json::i(self.index_rec)),
            ("flags", json::arr(fl)),
        ])
    }
    pub fn from_json(j: &J) -> Option<Self> {
        let g = |k: &str| j.get(k).and_then(|v| v.int());
        let mut flags = 0;
        for f in j.get("flags")?.arr()? {
            flags |= FLAG_NAMES.iter().find(|x| Some(x.1) == f.str())?.0;
        }
        Some(Self {
            seed: g("seed")? as u64,
            sector_shift: g("sector_shift")? as u32,
            cluster_shift: g("cluster_shift")? as u32,
            rec_info: g("rec_info")? as i32,
            span_shift: g("span_shift")? as u32,
            mft_frags: g("mft_frags")? as u32,
            n_files: g("n_files")? as u32,
            n_dirs: g("n_dirs")? as u32,
            max_entries: g("max_entries")? as u32,
            upcase: g("upcase")? as u32,
            index_rec: g("index_rec")? as u32,
            flags,
        })
    }
    pub fn random(r: &mut Rng) -> Self {
        let seed = r.u64();
        let sector_shift = if r.chance(3, 4) { 9 } else { r.range(9, 12) as u32 };
        let cluster_shift = match r.below(10) {
            0..=3 => r.range(sector_shift as u64, 12.max(sector_shift as u64)) as u32,
            4..=7 => 12.max(sector_shift),
            8 => r.range(sector_shift as u64, 16) as u32,
            _ => r.range(sector_shift as u64, (21).min(sector_shift as u64 + 12)) as u32,
        };
        let cluster = 1u64 << cluster_shift;
        // File record size: at least 1024 bytes.
        let rec_info = {
            let by_exp = |r: &mut Rng| -(*r.pick(&[10, 10, 10, 11, 12]) as i32);
            if cluster <= 4096 && r.chance(1, 3) {
                let min = 1024u64.div_ceil(cluster);
                let max = (4096 / cluster).max(min);
                r.range(min, max) as i32
            } else {
                by_exp(r)
            }
        };
        let mut flags = 0;
        for (b, _) in FLAG_NAMES {
            if r.chance(1, 2) {
                flags |= b;
            }
        }
        let max_span = 62 - cluster_shift;
        let span_shift = match r.below(4) {
            0 => 15.min(max_span),
            1 => 22.min(max_span),
            2 => 33.min(max_span),
            _ => r.range(15.min(max_span) as u64, max_span as u64) as u32,
        };
        let index_rec = {
            let m = *r.pick(&[4096u32, 4096, 4096, 1024, 2048, 8192, 16384]);
            m
        };
        let mut s = Self {
            seed,
            sector_shift,
            cluster_shift,
            rec_info,
            span_shift,
            mft_frags: r.skewed(12) as u32 + 1,
            n_files: r.range(1, 6) as u32,
            n_dirs: r.range(0, 2) as u32,
            max_entries: *r.pick(&[3, 10, 40, 150]),
            upcase: r.below(N_UPCASE as u64) as u32,
            index_rec,
            flags,
        };
        s.sanitize();
        s
    }
    /// Keeps the recipe within what a well-formed volume allows.
    pub fn sanitize(&mut self) {
        self.sector_shift = self.sector_shift.clamp(9, 12);
        self.cluster_shift = self.cluster_shift.clamp(self.sector_shift, (self.sector_shift + 12).min(21));
        if self.rec_info > 0 {
            let min = 1024u64.div_ceil(self.cluster()) as i32;
            if self.rec_info < min || self.rec_size() > 4096 {
                self.rec_info = -10;
            }
        } else if !(-12..=-10).contains(&self.rec_info) {
            self.rec_info = -10;
        }
        self.span_shift = self.span_shift.clamp(14, 62 - self.cluster_shift);
        if self.flags & F_BIG_CLUSTER_IDX == 0 && self.index_rec < self.cluster() as u32 {
            self.index_rec = (self.cluster() as u32).min(65536);
        }
        if (self.index_rec as u64) < self.cluster() {
            // The unit of VCNs in this case (512 bytes) is only agreed upon for 512-byte sectors.
            self.sector_shift = 9;
            self.cluster_shift = self.cluster_shift.clamp(9, 21);
        }
        if self.index_rec as u64 > self.cluster() && self.index_rec as u64 % self.cluster() != 0 {
            self.index_rec = self.cluster() as u32;
        }
        self.n_files = self.n_files.max(1);
        self.upcase %= N_UPCASE;
        self.mft_frags = self.mft_frags.clamp(1, 12);
    }
}

// ---- up-case tables ----------------------------------------------------------------------------

pub const N_UPCASE: u32 = 5;

pub struct Upcase {
    pub map: Vec<u16>,
    pub bytes: Arc<Vec<u8>>,
    inverse: HashMap<u16, Vec<u16>>,
}

pub fn upcase(n: u32) -> &'static Upcase {
    static T: OnceLock<Vec<Upcase>> = OnceLock::new();
    &T.get_or_init(|| {
        (0..N_UPCASE)
            .map(|v| {
                let mut map: Vec<u16> = (0..=65535u16).collect();
                for c in 0..=65535u16 {
                    let up = &mut map[c as usize];
                    match v {
                        0 => {
                            if let Some(ch) = char::from_u32(c as u32) {
                                let mut it = ch.to_uppercase();
                                if let (Some(u), None) = (it.next(), it.next()) {
                                    if (u as u32) < 0x10000 {
                                        *up = u as u32 as u16;
                                    }
                                }
                            }
                        }
                        1 => {
                            if (97..=122).contains(&c) {
                                *up = c - 32;
                            }
                        }
                        2 => {}
                        3 => {
                            // Lower case sorts and folds in an unusual way: letters map to far places.
                            if (97..=122).contains(&c) {
                                *up = 0x4e00 + (122 - c) / 2;
                            } else if (65..=90).contains(&c) {
                                *up = 0x4e00 + (90 - c) / 2;
                            } else if (0x400..0x500).contains(&c) {
                                *up = c ^ 0x20;
                            }
                        }
                        _ => {
                            // Coarse folding, including surrogates.
                            *up = c & 0xfff3;
                        }
                    }
                }
                let bytes = Arc::new(map.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>());
                let mut inverse: HashMap<u16, Vec<u16>> = HashMap::new();
                for (c, u) in map.iter().enumerate() {
                    inverse.entry(*u).or_default().push(c as u16);
                }
                Upcase { map, bytes, inverse }
            })
            .collect()
    })[n as usize % N_UPCASE as usize]
}

impl Upcase {
    pub fn cmp(&self, a: &[u16], b: &[u16]) -> std::cmp::Ordering {
        let x = a.iter().map(|c| self.map[*c as usize]);
        let y = b.iter().map(|c| self.map[*c as usize]);
        x.cmp(y)
    }
    /// Another spelling of the same name under this table.
    pub fn vary(&self, r: &mut Rng, a: &[u16]) -> Vec<u16> {
        a.iter()
            .map(|c| {
                let inv = &self.inverse[&self.map[*c as usize]];
                *r.pick(inv)
            })
            .collect()
    }
}

// ---- model -------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub clusters: u64,
    pub lcn: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub size: u64,
    pub init: u64,
    pub runs: Vec<Run>,
}

impl Stream {
    pub fn clusters(&self) -> u64 {
        self.runs.iter().map(|r| r.clusters).sum()
    }
    /// (run index, offset in run) of a stream offset.
    pub fn locate(&self, cs: u64, off: u64) -> Option<(usize, u64)> {
        let mut o = off;
        for (n, r) in self.runs.iter().enumerate() {
            let l = r.clusters * cs;
            if o < l {
                return Some((n, o));
            }
            o -= l;
        }
        None
    }
    pub fn pos(&self, cs: u64, off: u64) -> Option<u64> {
        let (n, o) = self.locate(cs, off)?;
        self.runs[n].lcn.map(|l| l * cs + o)
    }
    /// Pieces (device position or None for zeros, length) covering [off, off+len) clipped to size.
    pub fn pieces(&self, cs: u64, off: u64, len: u64) -> Vec<(Option<u64>, u64)> {
        let mut v = Vec::new();
        let end = off.saturating_add(len).min(self.size);
        let mut o = off;
        while o < end {
            let (mut p, mut n) = match self.locate(cs, o) {
                Some((i, ro)) => {
                    (self.runs[i].lcn.map(|l| l * cs + ro), self.runs[i].clusters * cs - ro)
                }
                None => (None, end - o),
            };
            n = n.min(end - o);
            if o >= self.init {
                p = None;
            } else {
                n = n.min(self.init - o);
            }
            v.push((p, n));
            o += n;
        }
        v
    }
    pub fn read(&self, img: &Image, cs: u64, off: u64, len: u64) -> Vec<u8> {
        let mut v = Vec::new();
        for (p, n) in self.pieces(cs, off, len) {
            let st = v.len();
            v.resize(st + n as usize, 0);
            if let Some(p) = p {
                img.read(p, &mut v[st..]);
            }
        }
        v
    }
    fn write(&self, img: &mut Image, cs: u64, off: u64, data: &[u8]) {
        let mut i = 0usize;
        while i < data.len() {
            let o = off + i as u64;
            let (n, ro) = self.locate(cs, o).expect("write inside stream");
            let l = (self.runs[n].clusters * cs - ro).min((data.len() - i) as u64) as usize;
            img.write(self.runs[n].lcn.expect("not sparse") * cs + ro, &data[i..i + l]);
            i += l;
        }
    }
    /// Is [off, off+len) stored in one piece?
    pub fn contiguous(&self, cs: u64, off: u64, len: u64) -> bool {
        match self.pos(cs, off) {
            None => false,
            Some(p) => {
                let mut o = 0;
                while o < len {
                    if self.pos(cs, off + o) != Some(p + o) {
                        return false;
                    }
                    o += 512.min(cs);
                }
                true
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Body {
    Res { val: Vec<u8>, voff: u16 },
    Non { lowest: u64, size: u64, init: u64, runs: Vec<Run>, enc: Vec<u8>, roff: u16, hdr: u16 },
}

/// A physical attribute in one file record.
#[derive(Clone, Debug)]
pub struct Attr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub instance: u16,
    pub body: Body,
    pub noff: u16,
    pub len: u32,
    pub rec: u64,
    pub off: u32,
    pub logical: usize,
    pub part: usize,
}

#[derive(Clone, Debug)]
pub enum Content {
    Res(Vec<u8>),
    Stream(Stream),
}

/// An attribute as a user sees it (all extents together).
#[derive(Clone, Debug)]
pub struct Logical {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub content: Content,
    /// Indexes into `FileModel::attrs`, in VCN order.
    pub parts: Vec<usize>,
}

impl Logical {
    pub fn size(&self) -> u64 {
        match &self.content {
            Content::Res(v) => v.len() as u64,
            Content::Stream(s) => s.size,
        }
    }
    pub fn is_res(&self) -> bool {
        matches!(self.content, Content::Res(_))
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Times {
    pub c: u64,
    pub m: u64,
    pub r: u64,
    pub a: u64,
}

#[derive(Clone, Debug)]
pub struct NameModel {
    pub parent: (u64, u16),
    pub t: Times,
    pub alloc: u64,
    pub size: u64,
    pub attrs: u32,
    pub tag: u32,
    pub ns: u8,
    pub name: Vec<u16>,
}

impl NameModel {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend_from_slice(&file_ref(self.parent.0, self.parent.1).to_le_bytes());
        for t in [self.t.c, self.t.m, self.t.r, self.t.a, self.alloc, self.size] {
            v.extend_from_slice(&t.to_le_bytes());
        }
        v.extend_from_slice(&self.attrs.to_le_bytes());
        v.extend_from_slice(&self.tag.to_le_bytes());
        v.push(self.name.len() as u8);
        v.push(self.ns);
        for c in &self.name {
            v.extend_from_slice(&c.to_le_bytes());
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct StdInfo {
    pub t: Times,
    pub attrs: u32,
    pub ext: Option<[u64; 7]>, // max_versions, version, class, owner, security, quota, usn
}

#[derive(Clone, Debug)]
pub struct AlEntry {
    pub ty: u32,
    pub name: Vec<u16>,
    pub lowest: u64,
    pub rec: (u64, u16),
    pub instance: u16,
    pub off: u64,
    pub len: u16,
    pub attr: usize,
}

#[derive(Clone, Debug)]
pub struct AlModel {
    pub entries: Vec<AlEntry>,
    /// Logical index of the attribute list attribute itself.
    pub logical: usize,
}

#[derive(Clone, Debug)]
pub enum Key {
    Name(NameModel),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct IdxEntry {
    pub key: Key,
    pub file: (u64, u16),
    pub data: Vec<u8>,
    /// Node and offset of the entry inside the node's block (index root value or index record).
    pub node: usize,
    pub off: u32,
}

impl IdxEntry {
    pub fn key_bytes(&self) -> Vec<u8> {
        match &self.key {
            Key::Name(n) => n.bytes(),
            Key::Raw(v) => v.clone(),
        }
    }
    pub fn name(&self) -> &[u16] {
        match &self.key {
            Key::Name(n) => &n.name,
            Key::Raw(_) => &[],
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Node {
    /// (entry index or None for the end entry, child node)
    pub ents: Vec<(Option<usize>, Option<usize>)>,
    /// Slot in the index allocation; None for the root.
    pub slot: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct IdxModel {
    pub name: Vec<u16>,
    pub custom: bool,
    pub entries: Vec<IdxEntry>,
    pub nodes: Vec<Node>,
    pub rec_size: u32,
    pub unit: u64,
    pub slots: u64,
    /// Entry indexes per slot (None: stale slot).
    pub slot_nodes: Vec<Option<usize>>,
    pub root_l: usize,
    pub alloc_l: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct FileModel {
    pub rec: u64,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub attrs: Vec<Attr>,
    pub logical: Vec<Logical>,
    /// All records of the file, base first: (record number, sequence number, used size).
    pub recs: Vec<(u64, u16, u32)>,
    pub al: Option<AlModel>,
    pub std: Option<StdInfo>,
    pub names: Vec<NameModel>,
    pub objid: Option<Vec<u8>>,
    pub idx: Vec<usize>,
    pub is_sys: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BK {
    Boot,
    Record(u64),
    Index { idx: usize, slot: u64 },
    Upcase,
    AttrList(usize),
}

/// A metadata block on the device (may be split in pieces on the medium).
#[derive(Clone, Debug)]
pub struct Block {
    pub kind: BK,
    pub pieces: Vec<(u64, u64)>,
}

impl Block {
    pub fn len(&self) -> u64 {
        self.pieces.iter().map(|p| p.1).sum()
    }
    pub fn at(&self, off: u64) -> u64 {
        let mut o = off;
        for (p, n) in &self.pieces {
            if o < *n {
                return p + o;
            }
            o -= n;
        }
        self.pieces[0].0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RecState {
    Used,
    Free,
    Garbage,
}

#[derive(Clone)]
pub struct Volume {
    pub spec: VolSpec,
    pub img: Arc<Image>,
    pub cs: u64,
    pub rs: u64,
    pub serial: u64,
    pub total_sectors: u64,
    pub mft: Stream,
    pub mft_lcn: u64,
    pub n_records: u64,
    pub rec_state: Vec<RecState>,
    pub files: Vec<FileModel>,
    pub by_rec: BTreeMap<u64, usize>,
    pub idxs: Vec<IdxModel>,
    /// Index -> file
    pub idx_file: Vec<usize>,
    pub label: Option<Vec<u16>>,
    pub vol_version: (u8, u8),
    pub vol_flags: u16,
    pub blocks: Vec<Block>,
    /// Interesting metadata fields: (device position, width).
    pub fields: Vec<(u64, u8)>,
    pub boot: Vec<u8>,
}

pub fn file_ref(rec: u64, seq: u16) -> u64 {
    rec | (seq as u64) << 48
}

pub fn align8(n: usize) -> usize {
    (n + 7) & !7
}

pub const T_STD: u32 = 0x10;
pub const T_AL: u32 = 0x20;
pub const T_NAME: u32 = 0x30;
pub const T_OBJID: u32 = 0x40;
pub const T_SEC: u32 = 0x50;
pub const T_VOLNAME: u32 = 0x60;
pub const T_VOLINFO: u32 = 0x70;
pub const T_DATA: u32 = 0x80;
pub const T_ROOT: u32 = 0x90;
pub const T_ALLOC: u32 = 0xa0;
pub const T_BITMAP: u32 = 0xb0;
pub const T_REPARSE: u32 = 0xc0;
pub const T_EAINFO: u32 = 0xd0;
pub const T_EA: u32 = 0xe0;
pub const T_PROP: u32 = 0xf0;
pub const T_LOGGED: u32 = 0x100;

pub fn u16s(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

// ---- cluster allocation ------------------------------------------------------------------------

struct Space {
    used: BTreeMap<u64, u64>,
    span: u64,
}

impl Space {
    fn free_at(&self, lcn: u64, n: u64) -> bool {
        if lcn.checked_add(n).is_none_or(|e| e > self.span) {
            return false;
        }
        if let Some((s, l)) = self.used.range(..lcn + n).next_back() {
            if s + l > lcn {
                return false;
            }
        }
        true
    }
    fn take(&mut self, lcn: u64, n: u64) {
        self.used.insert(lcn, n);
    }
    fn alloc(&mut self, r: &mut Rng, n: u64) -> Option<u64> {
        for try_ in 0..40 {
            let lcn = match r.below(5) {
                // right behind or right before something
                0 => {
                    let v: Vec<_> = self.used.iter().map(|(s, l)| s + l).collect();
                    *r.pick(&v)
                }
                1 => {
                    let v: Vec<_> = self.used.keys().copied().collect();
                    r.pick(&v).saturating_sub(n)
                }
                2 => r.below(self.span.min(4096)),
                3 => r.below(self.span),
                _ => self.span - (self.span.min(1 << 16)) + r.below(self.span.min(1 << 16)),
            };
            let _ = try_;
            if lcn > 0 && self.free_at(lcn, n) {
                self.take(lcn, n);
                return Some(lcn);
            }
        }
        // First fit.
        let mut c = 1;
        for (s, l) in self.used.iter() {
            if *s >= c + n {
                break;
            }
            c = c.max(s + l);
        }
        if self.free_at(c, n) {
            self.take(c, n);
            return Some(c);
        }
        None
    }
}

fn enc_len(v: u64) -> Vec<u8> {
    let mut n = 1;
    while n < 8 && (v >> (8 * n - 1)) != 0 {
        n += 1;
    }
    v.to_le_bytes()[..n].to_vec()
}
fn enc_delta(v: i64) -> Vec<u8> {
    let mut n = 1;
    while n < 8 {
        let lim = 1i64 << (8 * n - 1);
        if v >= -lim && v < lim {
            break;
        }
        n += 1;
    }
    v.to_le_bytes()[..n].to_vec()
}

pub fn encode_runs(r: &mut Rng, runs: &[Run]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut prev = 0u64;
    for run in runs {
        let mut l = enc_len(run.clusters);
        if l.len() < 8 && r.chance(1, 40) {
            l.push(0); // legal but not minimal
        }
        match run.lcn {
            None => {
                v.push(l.len() as u8);
                v.extend_from_slice(&l);
            }
            Some(lcn) => {
                let d = enc_delta(lcn.wrapping_sub(prev) as i64);
                prev = lcn;
                v.push((d.len() as u8) << 4 | l.len() as u8);
                v.extend_from_slice(&l);
                v.extend_from_slice(&d);
            }
        }
    }
    v.push(0);
    v
}

// ---- builder -----------------------------------------------------------------------------------

/// Which version of the contents to produce (for torn updates): the layout is the same.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rev {
    /// Index of the file (in `Volume::files`) or, with `idx`, of the index whose blocks differ.
    pub target: usize,
    pub is_idx: bool,
    pub rev: u64,
    /// Update sequence number of revision 0 of the target's blocks, if not 0.
    pub usn: u16,
}

struct B {
    spec: VolSpec,
    r: Rng,
    space: Space,
    img: Image,
    cs: u64,
    rs: u64,
    files: Vec<FileModel>,
    idxs: Vec<IdxModel>,
    idx_file: Vec<usize>,
    rec_pool: Vec<u64>,
    next_rec: u64,
    blocks: Vec<Block>,
    fields: Vec<(u64, u8)>,
    rev: Option<Rev>,
    upcase_l: Stream,
    idx_bytes: Vec<(usize, u64, Vec<u8>, Vec<(u32, u8)>)>,
}

fn put16(v: &mut [u8], o: usize, x: u16) {
    v[o..o + 2].copy_from_slice(&x.to_le_bytes());
}
fn put32(v: &mut [u8], o: usize, x: u32) {
    v[o..o + 4].copy_from_slice(&x.to_le_bytes());
}
fn put64(v: &mut [u8], o: usize, x: u64) {
    v[o..o + 8].copy_from_slice(&x.to_le_bytes());
}

/// Moves the last two bytes of each 512-byte block into the update sequence array.
pub fn protect(buf: &mut [u8], usa_off: usize, usn: u16) {
    let n = buf.len() / 512;
    put16(buf, usa_off, usn);
    for i in 0..n {
        let e = (i + 1) * 512 - 2;
        let (a, b) = (buf[e], buf[e + 1]);
        buf[usa_off + 2 + i * 2] = a;
        buf[usa_off + 3 + i * 2] = b;
        put16(buf, e, usn);
    }
}

impl B {
    fn has(&self, f: u64) -> bool {
        self.spec.flags & f != 0
    }
    /// Value generator for the contents of file/index `n`; differs between revisions.
    fn vals(&self, n: usize, is_idx: bool) -> Rng {
        let rev = match self.rev {
            Some(rv) if rv.target == n && rv.is_idx == is_idx => rv.rev,
            _ => 0,
        };
        Rng::sub(self.spec.seed, 0x1000 + n as u64 * 4 + is_idx as u64 * 2 + (rev << 32))
    }
    fn usn(&self, n: usize, is_idx: bool, salt: u64) -> u16 {
        let rev = match self.rev {
            Some(rv) if rv.target == n && rv.is_idx == is_idx => rv.rev,
            _ => 0,
        };
        let base = mix(self.spec.seed ^ mix(salt ^ ((n as u64) << 8) ^ is_idx as u64)) as u16;
        // Close to the wrap-around now and then.
        let base = match base % 16 {
            0 | 8 => 0xffff,
            1 => 0,
            _ => base,
        };
        let base = match self.rev {
            Some(rv) if rv.usn != 0 && rv.target == n && rv.is_idx == is_idx => rv.usn,
            _ => base,
        };
        let u = (base as u64 + rev) % 65536;
        if u == 0 && rev > 0 {
            1
        } else {
            u as u16
        }
    }
    fn new_rec(&mut self) -> u64 {
        if self.rec_pool.is_empty() {
            let n = 6;
            let st = self.next_rec;
            self.rec_pool = (st..st + n).collect();
            self.next_rec += n;
            let mut p = std::mem::take(&mut self.rec_pool);
            self.r.shuffle(&mut p);
            self.rec_pool = p;
        }
        self.rec_pool.pop().unwrap()
    }
    /// Allocates in one piece if possible.
    fn take_pieces(&mut self, c: u64, runs: &mut Vec<Run>) {
        match self.space.alloc(&mut self.r, c) {
            Some(lcn) => runs.push(Run { clusters: c, lcn: Some(lcn) }),
            None if c > 1 => {
                self.take_pieces(c / 2, runs);
                self.take_pieces(c - c / 2, runs);
            }
            None => panic!("space"),
        }
    }
    fn stream_exact(&mut self, bytes: u64, max_runs: u64) -> Stream {
        let n = bytes.div_ceil(self.cs).max(1);
        let k = self.r.range(1, max_runs.max(1)).min(n);
        let mut runs = Vec::new();
        let mut left = n;
        for i in 0..k {
            let rest = k - i - 1;
            let c = if rest == 0 { left } else { self.r.range(1, left - rest) };
            self.take_pieces(c, &mut runs);
            left -= c;
        }
        Stream { size: bytes, init: bytes, runs }
    }
    fn random_stream(&mut self) -> Stream {
        let mut runs: Vec<Run> = Vec::new();
        let many = self.r.chance(1, 3);
        let k = if many { self.r.range(2, 40) } else { self.r.range(0, 4) };
        for _ in 0..k {
            let huge = self.has(F_HUGE) && self.r.chance(1, 8);
            let mut c = if huge {
                self.r.skewed((self.space.span / if self.space.span > 1 << 20 { 64 } else { 256 }).max(1)).max(1)
            } else {
                self.r.skewed(if many { 6 } else { 24 }).max(1)
            };
            let sparse = self.has(F_SPARSE) && self.r.chance(1, 4);
            if sparse {
                if huge {
                    c = self.r.skewed(1 << (60 - self.spec.cluster_shift)).max(1);
                }
                runs.push(Run { clusters: c, lcn: None });
            } else if let Some(lcn) = self.space.alloc(&mut self.r, c) {
                runs.push(Run { clusters: c, lcn: Some(lcn) });
            }
            // Keep the whole stream below 2^62 bytes.
            let total: u64 = runs.iter().map(|r| r.clusters).sum();
            if total > 1 << (61 - self.spec.cluster_shift) {
                runs.pop();
                break;
            }
        }
        let alloc = runs.iter().map(|r| r.clusters).sum::<u64>() * self.cs;
        let last = alloc.saturating_sub(self.cs);
        let mut size = match self.r.below(8) {
            0 => alloc,
            1 => alloc.saturating_sub(1),
            2 => (last + 1).min(alloc),
            _ => {
                let lo = (last + 1).min(alloc);
                self.r.range(lo, alloc)
            }
        };
        if self.has(F_PREALLOC) && self.r.chance(1, 4) {
            size = self.r.skewed(alloc);
        }
        let mut init = size;
        if self.has(F_INIT) && self.r.chance(1, 3) {
            init = match self.r.below(4) {
                0 => 0,
                1 => self.r.skewed(size),
                2 => size.saturating_sub(self.r.skewed(self.cs)),
                _ => self.r.range(0, size),
            };
        }
        Stream { size, init, runs }
    }

    fn names_alphabet(r: &mut Rng) -> Vec<u16> {
        let mut v = Vec::new();
        let kinds = r.range(1, 4);
        for _ in 0..kinds {
            match r.below(8) {
                7 => {
                    // Anything at all.
                    for _ in 0..r.range(1, 8) {
                        v.push(r.range(1, 0xffff) as u16);
                    }
                }
                0 => v.extend(u16s("abAB")),
                1 => v.extend(u16s("aAzZ09._- ")),
                2 => v.extend(u16s("abcdefghijklmnopqrstuvwxyz")),
                3 => v.extend(u16s("äÄöÖéÉßñÿŸıİ")),
                4 => v.extend(u16s("αΑωΩжЖяЯ")),
                5 => v.extend(u16s("日本語ﾊﾟ\u{fffd}\u{e000}")),
                _ => v.extend(u16s("0123456789")),
            }
        }
        v
    }
    fn name_from(r: &mut Rng, alpha: &[u16]) -> Vec<u16> {
        let max = *r.pick(&[1, 2, 3, 8, 12, 40, 255]);
        let n = r.range(1, max) as usize;
        let mut v: Vec<u16> = (0..n).map(|_| *r.pick(alpha)).collect();
        if r.chance(1, 12) && v.len() >= 2 {
            // A surrogate pair, sometimes a lone surrogate.
            let p = r.idx(v.len() - 1);
            v[p] = 0xd83d;
            v[p + 1] = if r.chance(5, 6) { 0xde00 + r.below(64) as u16 } else { 0x61 };
        }
        v
    }

    fn times(v: &mut Rng) -> Times {
        let t = |v: &mut Rng| match v.below(8) {
            0 => 0,
            1 => v.u64(),
            _ => 116_444_736_000_000_000 + v.below(1 << 56),
        };
        Times { c: t(v), m: t(v), r: t(v), a: t(v) }
    }

    fn std_info(&mut self, v: &mut Rng) -> (StdInfo, Vec<u8>) {
        let long = !self.has(F_NTFS12) || self.r.chance(1, 2);
        let t = Self::times(v);
        let attrs = v.u64() as u32;
        let mut b = Vec::new();
        for x in [t.c, t.m, t.r, t.a] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        b.extend_from_slice(&attrs.to_le_bytes());
        let e: [u64; 7] = [
            v.u64() & 0xffff_ffff,
            v.u64() & 0xffff_ffff,
            v.u64() & 0xffff_ffff,
            v.u64() & 0xffff_ffff,
            v.u64() & 0xffff_ffff,
            v.u64(),
            v.u64(),
        ];
        for x in &e[..3] {
            b.extend_from_slice(&(*x as u32).to_le_bytes());
        }
        let mut ext = None;
        if long {
            for x in &e[3..5] {
                b.extend_from_slice(&(*x as u32).to_le_bytes());
            }
            b.extend_from_slice(&e[5].to_le_bytes());
            b.extend_from_slice(&e[6].to_le_bytes());
            ext = Some(e);
        }
        (StdInfo { t, attrs, ext }, b)
    }

    fn file_name(&mut self, v: &mut Rng, ns: u8, dir: bool, parent: (u64, u16), alpha: &[u16]) -> NameModel {
        let name = Self::name_from(&mut self.r, alpha);
        NameModel {
            parent,
            t: Self::times(v),
            alloc: v.skewed(u64::MAX),
            size: v.skewed(u64::MAX),
            attrs: (v.u64() as u32 & 0x7fff) | if dir { 0x1000_0000 } else { 0 },
            tag: v.u64() as u32,
            ns,
            name,
        }
    }

    /// Builds an index: model, index root value and the contents of the index allocation.
    fn index(&mut self, me: usize, custom: bool, name: &str, root_cap: usize) -> (IdxModel, Vec<u8>, Option<Stream>) {
        let id = self.idxs.len();
        let mut v = self.vals(id, true);
        let up = upcase(self.spec.upcase);
        let rec_size = self.spec.index_rec as u64;
        let n = {
            let m = self.spec.max_entries as u64;
            match self.r.below(6) {
                0 => self.r.skewed(3.min(m)),
                1..=2 => self.r.skewed(m),
                _ => self.r.range(m / 2, m),
            }
        };
        // Entries
        let mut entries: Vec<IdxEntry> = Vec::new();
        if custom {
            let mut keys: Vec<Vec<u8>> = Vec::new();
            for _ in 0..n {
                let l = match self.r.below(16) {
                    0 => 1 + self.r.skewed(300.min(rec_size / 4)) as usize,
                    _ => *self.r.pick(&[4usize, 4, 8, 16]),
                };
                keys.push((0..l).map(|_| self.r.skewed(255) as u8).collect());
            }
            keys.sort();
            keys.dedup();
            for k in keys {
                let l = if self.r.chance(1, 24) { self.r.skewed(500.min(rec_size / 4)) } else { self.r.skewed(40) } as usize;
                let data = (0..l).map(|_| v.u64() as u8).collect();
                entries.push(IdxEntry { key: Key::Raw(k), file: (0, 0), data, node: 0, off: 0 });
            }
        } else {
            let alpha = Self::names_alphabet(&mut self.r);
            let mut keys: Vec<Vec<u16>> = Vec::new();
            for _ in 0..n {
                if !keys.is_empty() && self.r.chance(1, 6) {
                    // A prefix or an extension of an existing name.
                    let mut k = self.r.pick(&keys).clone();
                    if self.r.chance(1, 2) && k.len() > 1 {
                        k.pop();
                    } else if k.len() < 255 {
                        k.push(*self.r.pick(&alpha));
                    }
                    keys.push(k);
                } else if !keys.is_empty() && self.r.chance(1, 8) {
                    // A name that differs in a single code unit.
                    let mut k = self.r.pick(&keys).clone();
                    let n = self.r.idx(k.len());
                    k[n] = match self.r.below(3) {
                        0 => k[n] ^ 1 << self.r.below(16),
                        1 => k[n].swap_bytes(),
                        _ => *self.r.pick(&alpha),
                    };
                    keys.push(k);
                } else if self.has(F_CASEDUP) && !keys.is_empty() && self.r.chance(1, 6) {
                    let k = self.r.pick(&keys).clone();
                    keys.push(up.vary(&mut self.r, &k));
                } else {
                    keys.push(Self::name_from(&mut self.r, &alpha));
                }
            }
            keys.sort_by(|a, b| up.cmp(a, b).then(a.cmp(b)));
            if self.has(F_CASEDUP) {
                keys.dedup();
            } else {
                keys.dedup_by(|a, b| up.cmp(a, b) == std::cmp::Ordering::Equal);
            }
            for name in keys {
                let t = if self.files.is_empty() { (5, 5) } else {
                    let f = &self.files[self.r.idx(self.files.len())];
                    (f.rec, f.seq)
                };
                let nm = NameModel {
                    parent: (self.r.below(1 << 48), self.r.u64() as u16),
                    t: Self::times(&mut v),
                    alloc: v.u64(),
                    size: v.skewed(u64::MAX),
                    attrs: v.u64() as u32 & 0x1000_7fff,
                    tag: v.u64() as u32,
                    ns: self.r.below(4) as u8,
                    name,
                };
                entries.push(IdxEntry { key: Key::Name(nm), file: t, data: vec![], node: 0, off: 0 });
            }
        }
        // Tree
        let sizes: Vec<usize> = entries.iter().map(|e| align8(16 + e.key_bytes().len() + e.data.len())).collect();
        let usa = rec_size as usize / 512 + 1;
        let first = align8(40 + usa * 2);
        let cap = rec_size as usize - first;
        let mut nodes: Vec<Node> = Vec::new();
        let style = self.r.below(5);
        let empties = self.has(F_EMPTY_NODES);
        Self::tree(&mut self.r, &sizes, 0, sizes.len(), true, 0, root_cap, cap, style, empties, &mut nodes);
        if custom {
            // Some nodes are filled up to their very last byte.
            for n in nodes.iter().skip(1) {
                if n.ents.len() > 1 && self.r.chance(1, 5) {
                    let used: usize = n.ents.iter().map(|(k, c)| k.map_or(16, |k| align8(16 + entries[k].key_bytes().len() + entries[k].data.len())) + if c.is_some() { 8 } else { 0 }).sum();
                    if let Some(k) = n.ents[self.r.idx(n.ents.len() - 1)].0 {
                        let e = &mut entries[k];
                        let full = align8(16 + e.key_bytes().len() + e.data.len()) - 16 - e.key_bytes().len() + (cap - used);
                        let short = self.r.below(8) as usize;
                        while e.data.len() < full.saturating_sub(short).max(e.data.len()) {
                            e.data.push(v.u64() as u8);
                        }
                    }
                }
            }
        }
        let has_alloc = nodes.len() > 1;
        let unit = if rec_size >= self.cs { self.cs } else { 512 };
        // Slots of the index allocation
        let live = nodes.len() as u64 - 1;
        let slots = if has_alloc { live + if self.r.chance(1, 2) { self.r.skewed(4) } else { 0 } } else { 0 };
        let mut perm: Vec<u64> = (0..slots).collect();
        if self.r.chance(2, 3) {
            self.r.shuffle(&mut perm);
        }
        let mut slot_nodes = vec![None; slots as usize];
        for i in 1..nodes.len() {
            nodes[i].slot = Some(perm[i - 1]);
            slot_nodes[perm[i - 1] as usize] = Some(i);
        }
        let stream = if has_alloc {
            let mut st = self.stream_exact(slots * rec_size, 6);
            if self.has(F_PREALLOC) && self.r.chance(1, 3) {
                if let Some(l) = self.space.alloc(&mut self.r, 2) {
                    st.runs.push(Run { clusters: 2, lcn: Some(l) });
                }
            }
            Some(st)
        } else {
            None
        };
        // Serialise the nodes
        let mut root_val = Vec::new();
        for ni in 0..nodes.len() {
            let mut e = Vec::new();
            let mut fl: Vec<(u32, u8)> = Vec::new();
            let base = if ni == 0 { 32 } else { first };
            for (k, child) in &nodes[ni].ents {
                let st = e.len();
                let vcn = child.map(|c| nodes[c].slot.unwrap() * rec_size / unit);
                let mut h = vec![0u8; 16];
                let mut flags = 0u8;
                match k {
                    Some(k) => {
                        let kb = entries[*k].key_bytes();
                        put16(&mut h, 10, kb.len() as u16);
                        if custom {
                            if !entries[*k].data.is_empty() {
                                put16(&mut h, 0, (16 + kb.len()) as u16);
                                put16(&mut h, 2, entries[*k].data.len() as u16);
                            }
                        } else {
                            put64(&mut h, 0, file_ref(entries[*k].file.0, entries[*k].file.1));
                        }
                        entries[*k].node = ni;
                        entries[*k].off = (base + st) as u32;
                        e.extend_from_slice(&h);
                        e.extend_from_slice(&kb);
                        e.extend_from_slice(&entries[*k].data);
                    }
                    None => {
                        flags |= 2;
                        e.extend_from_slice(&h);
                    }
                }
                while e.len() % 8 != 0 {
                    e.push(0);
                }
                if let Some(vcn) = vcn {
                    flags |= 1;
                    fl.push(((base + e.len()) as u32, 8));
                    e.extend_from_slice(&vcn.to_le_bytes());
                }
                let len = e.len() - st;
                put16(&mut e, st + 8, len as u16);
                e[st + 12] = flags;
                for (o, w) in [(0u32, 2u8), (2, 2), (8, 2), (10, 2), (12, 1)] {
                    fl.push(((base + st) as u32 + o, w));
                }
                if k.is_some() && !custom {
                    fl.push(((base + st) as u32 + 16 + 64, 1));
                    fl.push(((base + st) as u32 + 16 + 65, 1));
                }
            }
            let kids = nodes[ni].ents.iter().any(|x| x.1.is_some());
            if ni == 0 {
                let mut b = vec![0u8; 32];
                put32(&mut b, 0, if custom { 0 } else { 0x30 });
                put32(&mut b, 4, if custom { 0x10 } else { 1 });
                put32(&mut b, 8, rec_size as u32);
                b[12] = if rec_size >= self.cs {
                    (rec_size / self.cs) as u8
                } else {
                    (-(rec_size.trailing_zeros() as i32)) as u8
                };
                put32(&mut b, 16, 16);
                put32(&mut b, 20, 16 + e.len() as u32);
                put32(&mut b, 24, 16 + e.len() as u32);
                b[28] = has_alloc as u8;
                b.extend_from_slice(&e);
                fl.extend([(8, 4), (12, 1), (16, 4), (20, 4), (24, 4), (28, 1)]);
                root_val = b;
                self.idx_bytes.push((id, u64::MAX, Vec::new(), fl));
            } else {
                let slot = nodes[ni].slot.unwrap();
                let usn = self.usn(id, true, 0x100 + slot);
                let b = self.index_record(rec_size as usize, first, slot * rec_size / unit, &e, kids, usn, v.u64());
                fl.extend([(4, 2), (6, 2), (16, 8), (24, 4), (28, 4), (32, 4), (36, 1), (40, 2)]);
                self.idx_bytes.push((id, slot, b, fl));
            }
        }
        // Stale slots: intact-looking records that are not part of the tree.
        for s in 0..slots {
            if slot_nodes[s as usize].is_none() {
                let mut e = vec![0u8; 16];
                put16(&mut e, 8, 16);
                e[12] = 2;
                let usn = self.usn(id, true, 0x100 + s);
                let b = self.index_record(rec_size as usize, first, s * rec_size / unit, &e, false, usn, 7);
                self.idx_bytes.push((id, s, b, vec![]));
            }
        }
        let m = IdxModel {
            name: u16s(name),
            custom,
            entries,
            nodes,
            rec_size: rec_size as u32,
            unit,
            slots,
            slot_nodes,
            root_l: 0,
            alloc_l: None,
        };
        let _ = me;
        (m, root_val, stream)
    }

    fn index_record(&mut self, size: usize, first: usize, vcn: u64, ents: &[u8], kids: bool, usn: u16, lsn: u64) -> Vec<u8> {
        let mut b = vec![0u8; size];
        // Slack behind the entries is full of old garbage.
        noise(lsn ^ 0x1d, 0, &mut b);
        b[..first].fill(0);
        b[..4].copy_from_slice(b"INDX");
        put16(&mut b, 4, 40);
        put16(&mut b, 6, (size / 512 + 1) as u16);
        put64(&mut b, 8, lsn);
        put64(&mut b, 16, vcn);
        put32(&mut b, 24, (first - 24) as u32);
        put32(&mut b, 28, (first - 24 + ents.len()) as u32);
        put32(&mut b, 32, (size - 24) as u32);
        b[36] = kids as u8;
        b[first..first + ents.len()].copy_from_slice(ents);
        protect(&mut b, 40, usn);
        b
    }

    #[allow(clippy::too_many_arguments)]
    fn tree(
        r: &mut Rng,
        sizes: &[usize],
        lo: usize,
        hi: usize,
        root: bool,
        depth: u32,
        root_cap: usize,
        cap: usize,
        style: u64,
        empties: bool,
        nodes: &mut Vec<Node>,
    ) -> usize {
        let me = nodes.len();
        nodes.push(Node::default());
        let c = if root { root_cap } else { cap };
        let n = hi - lo;
        let total: usize = sizes[lo..hi].iter().sum();
        let fits = total + 16 <= c;
        let leaf = fits
            && (n == 0
                || depth >= 6
                || match style {
                    0 | 4 => true,
                    1 => r.chance(1, 2),
                    2 => n <= 3 || r.chance(1, 4),
                    _ => n <= 1 || r.chance(1, 6),
                });
        if leaf {
            nodes[me].ents = (lo..hi).map(|k| (Some(k), None)).collect();
            nodes[me].ents.push((None, None));
            return me;
        }
        // Separators
        let avg = total / n.max(1) + 8;
        let maxfit = ((c.saturating_sub(24)) / avg.max(1)).max(if root { 0 } else { 1 });
        let mut m = match style {
            0 => maxfit,
            1 => r.range(0, maxfit as u64) as usize,
            _ => r.skewed(maxfit as u64) as usize,
        };
        if depth >= 4 {
            m = maxfit;
        }
        if !(root && nodes.len() == 1) {
            m = m.max(1);
        }
        m = m.min(n);
        // Full leaves, as sequential insertion leaves them behind.
        let mut packed = Vec::new();
        if style == 4 {
            let mut sum = 16;
            for k in lo..hi {
                if sum + sizes[k] > cap {
                    packed.push(k);
                    sum = 16;
                } else {
                    sum += sizes[k];
                }
            }
            if packed.iter().map(|k| sizes[*k] + 8).sum::<usize>() + 24 > c {
                packed.clear();
            }
        }
        let mut seps: Vec<usize> = if !packed.is_empty() {
            packed
        } else if style == 0 || depth >= 4 {
            (0..m).map(|i| lo + (i + 1) * n / (m + 1)).filter(|k| *k < hi).collect()
        } else {
            (0..m).map(|_| lo + r.idx(n.max(1))).collect()
        };
        seps.sort_unstable();
        seps.dedup();
        while seps.iter().map(|k| sizes[*k] + 8).sum::<usize>() + 24 > c {
            let i = r.idx(seps.len());
            seps.remove(i);
        }
        if seps.is_empty() && !root && n > 0 {
            // A single large entry always fits.
            seps.push(lo + n / 2);
        }
        let mut start = lo;
        let mut ents = Vec::new();
        for s in seps.iter().map(|s| Some(*s)).chain([None]) {
            let end = s.unwrap_or(hi);
            let child = if end > start || (empties && r.chance(1, 10) && depth < 3) {
                Some(Self::tree(r, sizes, start, end, false, depth + 1, root_cap, cap, style, empties, nodes))
            } else {
                None
            };
            ents.push((s, child));
            start = s.map_or(hi, |s| s + 1);
        }
        nodes[me].ents = ents;
        me
    }

    fn attr_len(&mut self, a: &mut Attr) {
        let nl = a.name.len() * 2;
        match &mut a.body {
            Body::Res { val, voff } => {
                a.noff = 24;
                let mut o = align8(24 + nl);
                if self.r.chance(1, 10) {
                    o += 8;
                }
                *voff = o as u16;
                a.len = align8(o + val.len()) as u32;
            }
            Body::Non { enc, roff, hdr, .. } => {
                *hdr = if a.flags & 0x8001 != 0 { 72 } else { 64 };
                a.noff = *hdr;
                let o = align8(*hdr as usize + nl);
                *roff = o as u16;
                a.len = align8(o + enc.len()) as u32;
            }
        }
        if self.r.chance(1, 20) {
            a.len += 8;
        }
    }

    fn res_attr(&mut self, ty: u32, name: &[u16], val: Vec<u8>, logical: usize) -> Attr {
        let mut a = Attr {
            ty,
            name: name.to_vec(),
            flags: 0,
            instance: 0,
            body: Body::Res { val, voff: 0 },
            noff: 0,
            len: 0,
            rec: 0,
            off: 0,
            logical,
            part: 0,
        };
        self.attr_len(&mut a);
        a
    }

    /// One physical attribute per extent of the stream.
    fn stream_attrs(&mut self, ty: u32, name: &[u16], flags: u16, st: &Stream, logical: usize, parts: usize) -> Vec<Attr> {
        // Cut the run list into `parts` extents, also in the middle of runs.
        let mut runs: Vec<Run> = st.runs.clone();
        let mut groups: Vec<Vec<Run>> = Vec::new();
        if parts > 1 {
            for _ in 0..2 {
                if let Some(i) = (0..runs.len()).find(|i| runs[*i].clusters > 1) {
                    if self.r.chance(1, 2) {
                        let c = self.r.range(1, runs[i].clusters - 1);
                        let tail = Run { clusters: runs[i].clusters - c, lcn: runs[i].lcn.map(|l| l + c) };
                        runs[i].clusters = c;
                        runs.insert(i + 1, tail);
                    }
                }
            }
            let k = parts.min(runs.len());
            let mut cuts: Vec<usize> = (1..runs.len()).collect();
            self.r.shuffle(&mut cuts);
            cuts.truncate(k.saturating_sub(1));
            cuts.sort_unstable();
            cuts.push(runs.len());
            let mut s = 0;
            for c in cuts {
                groups.push(runs[s..c].to_vec());
                s = c;
            }
        } else {
            groups.push(runs);
        }
        let mut out = Vec::new();
        let mut vcn = 0;
        for (n, g) in groups.into_iter().enumerate() {
            let c: u64 = g.iter().map(|r| r.clusters).sum();
            let enc = encode_runs(&mut self.r, &g);
            let mut a = Attr {
                ty,
                name: name.to_vec(),
                flags,
                instance: 0,
                body: Body::Non {
                    lowest: vcn,
                    size: if n == 0 { st.size } else { 0 },
                    init: if n == 0 { st.init } else { 0 },
                    runs: g,
                    enc,
                    roff: 0,
                    hdr: 0,
                },
                noff: 0,
                len: 0,
                rec: 0,
                off: 0,
                logical,
                part: n,
            };
            self.attr_len(&mut a);
            vcn += c;
            out.push(a);
        }
        out
    }

    fn header_size(&self) -> usize {
        let usa = self.rs as usize / 512 + 1;
        let o = if self.has(F_NTFS12) { 42 } else { 48 };
        align8(o + usa * 2)
    }

    /// Instance numbers of old files are large.
    fn first_instance(&mut self) -> u16 {
        if self.r.chance(2, 3) {
            0
        } else {
            self.r.below(50_000) as u16
        }
    }

    fn instance_gap(&mut self) -> u16 {
        if self.r.chance(1, 4) {
            256
        } else {
            1
        }
    }

    /// Distributes the attributes of a file over records and registers the file.
    #[allow(clippy::too_many_arguments)]
    fn place(&mut self, rec: u64, mut f: FileModel, mut attrs: Vec<Attr>, force_al: bool, no_al: bool) {
        let cap = self.rs as usize - self.header_size() - 8;
        let key = |a: &Attr| (a.ty, a.name.clone(), a.logical, a.part);
        attrs.sort_by_key(key);
        let total: usize = attrs.iter().map(|a| a.len as usize).sum();
        let use_al = !no_al && (total > cap || force_al);
        let seq0 = f.seq;
        if !use_al {
            assert!(total <= cap, "file {} does not fit: {total} > {cap}", rec);
            let mut insts: Vec<u16> = (0..attrs.len() as u16).collect();
            if self.r.chance(1, 2) {
                self.r.shuffle(&mut insts);
            }
            let (base, gap) = (self.first_instance(), self.instance_gap());
            for (n, a) in attrs.iter_mut().enumerate() {
                a.rec = rec;
                a.instance = base + insts[n] * gap;
            }
            f.recs = vec![(rec, seq0, 0)];
        } else {
            // The list itself: its size depends only on the entries.
            let al_logical = f.logical.len();
            let ent_len: Vec<usize> = attrs.iter().map(|a| align8(26 + a.name.len() * 2)).collect();
            let al_size: usize = ent_len.iter().sum();
            // Base record: STANDARD_INFORMATION, the list, and what we like to keep.
            let std_len: usize = attrs.iter().filter(|a| a.ty == T_STD).map(|a| a.len as usize).sum();
            let nonres = (self.has(F_AL_NONRES) && self.r.chance(1, 2)) || al_size + 32 + std_len > cap / 2;
            let al_attr_len = if nonres { 64 + 64 } else { align8(24 + al_size) + 16 };
            let mut free = cap - std_len - al_attr_len;
            let base_extent = self.has(F_BASE_EXTENT);
            let mut recs: Vec<(u64, u16, usize)> = vec![];
            let keep_pct = self.r.below(100);
            let mut recs_of: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            // Per record: instances in use.
            let mut based: BTreeSet<usize> = BTreeSet::new();
            let mut where_: Vec<usize> = Vec::new(); // 0 = base, n = extension n
            let multi: Vec<bool> = attrs
                .iter()
                .map(|a| attrs.iter().filter(|b| b.logical == a.logical).count() > 1)
                .collect();
            for (n, a) in attrs.iter().enumerate() {
                let w;
                if a.ty == T_STD {
                    w = 0;
                } else {
                    let may_base = !multi[n] || (base_extent && !based.contains(&a.logical));
                    if may_base && a.len as usize <= free && self.r.below(100) < keep_pct {
                        free -= a.len as usize;
                        based.insert(a.logical);
                        w = 0;
                    } else {
                        // Prefer a fresh record for another extent of the same stream.
                        let mut cand: Vec<usize> = (0..recs.len())
                            .filter(|i| recs[*i].2 >= a.len as usize)
                            .collect();
                        if multi[n] {
                            cand.retain(|i| !recs_of.get(&a.logical).is_some_and(|v| v.contains(i)));
                        }
                        let i = if cand.is_empty() || self.r.chance(1, 4) {
                            let nr = self.new_rec();
                            let sq = self.r.range(1, 65535) as u16;
                            recs.push((nr, sq, cap));
                            recs.len() - 1
                        } else {
                            *self.r.pick(&cand)
                        };
                        recs[i].2 -= a.len as usize;
                        recs_of.entry(a.logical).or_default().push(i);
                        w = i + 1;
                    }
                }
                where_.push(w);
            }
            f.recs = vec![(rec, seq0, 0)];
            f.recs.extend(recs.iter().map(|x| (x.0, x.1, 0)));
            // Instances: unique within a record.
            let coincide = self.has(F_INST);
            let mut next: Vec<u16> = (0..=recs.len()).map(|_| self.first_instance()).collect();
            let (base, gap) = (self.first_instance(), self.instance_gap());
            if !coincide {
                // Same stream, same instance in every record; different streams never coincide.
                let mut of: BTreeMap<usize, u16> = BTreeMap::new();
                for a in attrs.iter() {
                    let n = base + (of.len() as u16 + 1) * gap;
                    of.entry(a.logical).or_insert(n);
                }
                for a in attrs.iter_mut() {
                    a.instance = of[&a.logical];
                }
            } else {
                for (n, a) in attrs.iter_mut().enumerate() {
                    a.instance = next[where_[n]];
                    next[where_[n]] += gap;
                }
            }
            let mut al_bytes = Vec::new();
            let mut entries = Vec::new();
            for (n, a) in attrs.iter_mut().enumerate() {
                let (rn, sq, _) = f.recs[where_[n]];
                a.rec = rn;
                let lowest = match &a.body {
                    Body::Non { lowest, .. } => *lowest,
                    _ => 0,
                };
                let off = al_bytes.len();
                let mut e = vec![0u8; ent_len[n]];
                put32(&mut e, 0, a.ty);
                put16(&mut e, 4, ent_len[n] as u16);
                e[6] = a.name.len() as u8;
                e[7] = 26;
                put64(&mut e, 8, lowest);
                put64(&mut e, 16, file_ref(rn, sq));
                put16(&mut e, 24, a.instance);
                for (i, c) in a.name.iter().enumerate() {
                    put16(&mut e, 26 + i * 2, *c);
                }
                al_bytes.extend_from_slice(&e);
                entries.push(AlEntry {
                    ty: a.ty,
                    name: a.name.clone(),
                    lowest,
                    rec: (rn, sq),
                    instance: a.instance,
                    off: off as u64,
                    len: ent_len[n] as u16,
                    attr: n,
                });
            }
            let mut al_attr;
            if nonres {
                let st = self.stream_exact(al_bytes.len() as u64, 3);
                let mut img = std::mem::replace(&mut self.img, Image::new(0, 0));
                st.write(&mut img, self.cs, 0, &al_bytes);
                self.img = img;
                let mut bl = Block { kind: BK::AttrList(self.files.len()), pieces: vec![] };
                for (p, n) in st.pieces(self.cs, 0, st.size) {
                    bl.pieces.push((p.unwrap(), n));
                }
                for e in &entries {
                    for (o, w) in [(0u64, 4u8), (4, 2), (6, 1), (8, 8), (16, 8), (24, 2)] {
                        self.fields.push((bl.at(e.off + o), w));
                    }
                }
                self.blocks.push(bl);
                al_attr = self.stream_attrs(T_AL, &[], 0, &st, al_logical, 1).remove(0);
                f.logical.push(Logical { ty: T_AL, name: vec![], flags: 0, content: Content::Stream(st), parts: vec![] });
            } else {
                al_attr = self.res_attr(T_AL, &[], al_bytes.clone(), al_logical);
                f.logical.push(Logical { ty: T_AL, name: vec![], flags: 0, content: Content::Res(al_bytes), parts: vec![] });
            }
            al_attr.rec = rec;
            al_attr.instance = if coincide { next[0] } else { base };
            f.al = Some(AlModel { entries, logical: al_logical });
            attrs.push(al_attr);
        }
        for (n, a) in attrs.iter().enumerate() {
            f.logical[a.logical].parts.push(n);
        }
        // Offsets within the records.
        for ri in 0..f.recs.len() {
            let mut mine: Vec<usize> = (0..attrs.len()).filter(|n| attrs[*n].rec == f.recs[ri].0).collect();
            mine.sort_by_key(|n| key(&attrs[*n]));
            let mut o = self.header_size();
            for n in mine {
                attrs[n].off = o as u32;
                o += attrs[n].len as usize;
            }
            f.recs[ri].2 = (o + 8) as u32;
            assert!(o + 8 <= self.rs as usize, "record overflow {} > {}", o + 8, self.rs);
        }
        f.attrs = attrs;
        self.files.push(f);
    }

    fn user_file(&mut self, rec: u64, dir: bool) {
        let me = self.files.len();
        let mut v = self.vals(me, false);
        let mut logical: Vec<Logical> = Vec::new();
        let mut attrs: Vec<Attr> = Vec::new();
        let alpha = Self::names_alphabet(&mut self.r);
        let mut f = FileModel {
            rec,
            seq: v.range(1, 65535) as u16,
            links: v.u64() as u16,
            flags: 1 | if dir { 2 } else { 0 },
            attrs: vec![],
            logical: vec![],
            recs: vec![],
            al: None,
            std: None,
            names: vec![],
            objid: None,
            idx: vec![],
            is_sys: false,
        };
        // The sequence number is part of references, so it must not depend on the revision.
        f.seq = (mix(self.spec.seed ^ rec) % 65535 + 1) as u16;
        if self.r.chance(1, 8) {
            f.flags |= 4 | 8;
        }
        let add_res = |b: &mut Self, logical: &mut Vec<Logical>, attrs: &mut Vec<Attr>, ty: u32, name: &[u16], val: Vec<u8>| {
            let l = logical.len();
            attrs.push(b.res_attr(ty, name, val.clone(), l));
            logical.push(Logical { ty, name: name.to_vec(), flags: 0, content: Content::Res(val), parts: vec![] });
        };
        let (si, sb) = self.std_info(&mut v);
        f.std = Some(si);
        add_res(self, &mut logical, &mut attrs, T_STD, &[], sb);
        // Names
        let lo = if self.r.chance(1, 20) { 0 } else { 1 };
        let nn = self.r.range(lo, 3);
        for _ in 0..nn {
            let ns = self.r.below(4) as u8;
            let parent = (*self.r.pick(&[5u64, 5, 24, 30, 1 << 40]), self.r.range(1, 9) as u16);
            let n = self.file_name(&mut v, ns, dir, parent, &alpha);
            add_res(self, &mut logical, &mut attrs, T_NAME, &[], n.bytes());
            f.names.push(n);
        }
        if self.r.chance(1, 3) {
            let len = *self.r.pick(&[16usize, 16, 32, 48, 64]);
            let b: Vec<u8> = (0..len).map(|_| if v.chance(1, 3) { v.below(16) as u8 } else { v.u64() as u8 }).collect();
            f.objid = Some(b.clone());
            add_res(self, &mut logical, &mut attrs, T_OBJID, &[], b);
        }
        let mut split_any = false;
        let mut streams = 0u64;
        let mut add_stream = |b: &mut Self, logical: &mut Vec<Logical>, attrs: &mut Vec<Attr>, ty: u32, name: &[u16], st: Stream, split: &mut bool| {
            let l = logical.len();
            let sparse = st.runs.iter().any(|r| r.lcn.is_none());
            let flags = if sparse { 0x8000 } else { 0 };
            streams += 1;
            let parts = if b.has(F_AL) && b.has(F_SPLIT) && b.r.chance(1, 2) { b.r.range(2, 4) as usize } else { 1 };
            // Extents must fit in a record: at most 20 runs each.
            let parts = parts.max(st.runs.len().div_ceil(20)).max(1);
            let mut a = b.stream_attrs(ty, name, flags, &st, l, parts);
            // Random cuts may leave a too large extent; recut evenly then.
            if a.iter().any(|a| a.len > 420 + name.len() as u32 * 2) {
                a = b.stream_attrs(ty, name, flags, &st, l, st.runs.len().div_ceil(6).max(parts));
            }
            if a.len() > 1 {
                *split = true;
            }
            attrs.extend(a);
            logical.push(Logical { ty, name: name.to_vec(), flags, content: Content::Stream(st), parts: vec![] });
        };
        // Data streams
        let mut data_names: Vec<Vec<u16>> = Vec::new();
        if !dir || self.r.chance(1, 10) {
            if self.r.chance(14, 15) {
                data_names.push(vec![]);
            }
        }
        if self.has(F_ADS) {
            let k = self.r.skewed(4);
            let up = upcase(self.spec.upcase);
            for _ in 0..k {
                let n = {
                    let mut n = Self::name_from(&mut self.r, &alpha);
                    let long = self.r.chance(1, 8);
                    n.truncate(if long { 255 } else { 30 });
                    n
                };
                if !data_names.iter().any(|x| up.cmp(x, &n) == std::cmp::Ordering::Equal) {
                    data_names.push(n);
                }
            }
        }
        for n in &data_names {
            if self.r.chance(1, 3) {
                let l = self.r.skewed(200) as usize;
                let b = (0..l).map(|_| v.u64() as u8).collect();
                add_res(self, &mut logical, &mut attrs, T_DATA, n, b);
            } else {
                let mut st = self.random_stream();
                if st.runs.len() > 12 && !self.has(F_AL) {
                    st.runs.truncate(12);
                    let a = st.clusters() * self.cs;
                    st.size = st.size.min(a);
                    st.init = st.init.min(st.size);
                }
                add_stream(self, &mut logical, &mut attrs, T_DATA, n, st, &mut split_any);
            }
        }
        // Other attributes
        for ty in [T_SEC, T_REPARSE, T_EAINFO, T_EA, T_PROP, T_LOGGED] {
            if self.r.chance(1, 10) {
                let nm = if ty == T_LOGGED { u16s("$EFS") } else { vec![] };
                if self.r.chance(1, 4) {
                    let st = self.stream_exact(self.cs.min(3000), 2);
                    add_stream(self, &mut logical, &mut attrs, ty, &nm, st, &mut split_any);
                } else {
                    let l = self.r.skewed(60) as usize;
                    let b = (0..l).map(|_| v.u64() as u8).collect();
                    add_res(self, &mut logical, &mut attrs, ty, &nm, b);
                }
            }
        }
        // Indexes
        let mut idx_names: Vec<(&str, bool)> = Vec::new();
        if dir {
            idx_names.push(("$I30", false));
            if self.has(F_CUSTOM_IDX) && self.r.chance(1, 3) {
                idx_names.push((*self.r.pick(&["$A", "$Q", "$I3", "$I300", "$I29", "$ABC", "$SDH", "$I31"]), true));
            }
        } else if self.has(F_CUSTOM_IDX) && self.r.chance(1, 2) {
            idx_names.push((*self.r.pick(&["$O", "$SII", "$R"]), true));
            if self.r.chance(1, 3) {
                idx_names.push(("$SDH", true));
            }
        }
        idx_names.sort();
        for (nm, custom) in idx_names {
            let root_cap = *self.r.pick(&[24usize, 120, 200, 300]);
            let root_cap = root_cap.min(self.rs as usize - 700 + 24);
            let (mut m, root_val, st) = self.index(me, custom, nm, root_cap);
            let n16 = u16s(nm);
            m.root_l = logical.len();
            add_res(self, &mut logical, &mut attrs, T_ROOT, &n16, root_val);
            if let Some(st) = st {
                m.alloc_l = Some(logical.len());
                let slots = m.slots;
                // Place the records.
                let id = self.idxs.len();
                let mut img = std::mem::replace(&mut self.img, Image::new(0, 0));
                for (i, slot, bytes, fl) in &self.idx_bytes {
                    if *i != id || *slot == u64::MAX {
                        continue;
                    }
                    st.write(&mut img, self.cs, slot * m.rec_size as u64, bytes);
                    let mut bl = Block { kind: BK::Index { idx: id, slot: *slot }, pieces: vec![] };
                    for (p, n) in st.pieces(self.cs, slot * m.rec_size as u64, m.rec_size as u64) {
                        bl.pieces.push((p.unwrap(), n));
                    }
                    for (o, w) in fl {
                        self.fields.push((bl.at(*o as u64), *w));
                    }
                    self.blocks.push(bl);
                }
                self.img = img;
                add_stream(self, &mut logical, &mut attrs, T_ALLOC, &n16, st, &mut split_any);
                let bm: Vec<u8> = vec![0xff; align8(slots.div_ceil(8) as usize)];
                add_res(self, &mut logical, &mut attrs, T_BITMAP, &n16, bm);
            }
            f.idx.push(self.idxs.len());
            self.idxs.push(m);
            self.idx_file.push(me);
        }
        f.logical = logical;
        let force = split_any || (self.has(F_AL) && self.r.chance(1, 3));
        self.place(rec, f, attrs, force, false);
    }

    fn sys_file(&mut self, rec: u64, extra: Vec<(u32, Vec<u16>, Content)>) {
        let me = self.files.len();
        let mut v = self.vals(me, false);
        let mut logical: Vec<Logical> = Vec::new();
        let mut attrs: Vec<Attr> = Vec::new();
        let (si, sb) = self.std_info(&mut v);
        let mut f = FileModel {
            rec,
            seq: rec.max(1) as u16,
            links: 1,
            flags: 1,
            attrs: vec![],
            logical: vec![],
            recs: vec![],
            al: None,
            std: Some(si),
            names: vec![],
            objid: None,
            idx: vec![],
            is_sys: true,
        };
        let mut all = vec![(T_STD, vec![], Content::Res(sb))];
        all.extend(extra);
        for (ty, name, c) in all {
            let l = logical.len();
            match &c {
                Content::Res(v) => attrs.push(self.res_attr(ty, &name, v.clone(), l)),
                Content::Stream(s) => attrs.extend(self.stream_attrs(ty, &name, 0, s, l, 1)),
            }
            logical.push(Logical { ty, name, flags: 0, content: c, parts: vec![] });
        }
        f.logical = logical;
        self.place(rec, f, attrs, false, true);
    }

    fn emit(&mut self, mft: &Stream, fi: usize) {
        let f = self.files[fi].clone();
        for (ri, (rn, sq, used)) in f.recs.iter().enumerate() {
            let mut b = vec![0u8; self.rs as usize];
            let mut v = self.vals(fi, false);
            noise(v.u64(), 0, &mut b);
            let mut fl: Vec<(u32, u8)> = Vec::new();
            let hs = self.header_size();
            b[..hs].fill(0);
            b[..4].copy_from_slice(b"FILE");
            let usa_off = if self.has(F_NTFS12) { 42 } else { 48 };
            put16(&mut b, 4, usa_off);
            put16(&mut b, 6, (self.rs / 512 + 1) as u16);
            put64(&mut b, 8, v.u64());
            put16(&mut b, 16, *sq);
            put16(&mut b, 18, if ri == 0 { f.links } else { 0 });
            put16(&mut b, 20, hs as u16);
            put16(&mut b, 22, if ri == 0 { f.flags } else { 1 });
            put32(&mut b, 24, *used);
            put32(&mut b, 28, self.rs as u32);
            put64(&mut b, 32, if ri == 0 { 0 } else { file_ref(f.rec, f.seq) });
            let n_inst = f.attrs.iter().filter(|a| a.rec == *rn).map(|a| a.instance).max().unwrap_or(0) + 1;
            put16(&mut b, 40, n_inst);
            if usa_off == 48 {
                put32(&mut b, 44, *rn as u32);
            }
            fl.extend([(0, 4), (4, 2), (6, 2), (20, 2), (22, 2), (24, 4), (28, 4), (48, 2)]);
            for a in f.attrs.iter().filter(|a| a.rec == *rn) {
                let o = a.off as usize;
                let l = a.len as usize;
                b[o..o + l].fill(0);
                put32(&mut b, o, a.ty);
                put32(&mut b, o + 4, a.len);
                b[o + 9] = a.name.len() as u8;
                put16(&mut b, o + 10, if a.name.is_empty() && self.r.chance(1, 2) { 0 } else { a.noff });
                put16(&mut b, o + 12, a.flags);
                put16(&mut b, o + 14, a.instance);
                for (i, c) in a.name.iter().enumerate() {
                    put16(&mut b, o + a.noff as usize + i * 2, *c);
                }
                for (x, w) in [(0, 4), (4, 4), (8, 1), (9, 1), (10, 2), (12, 2), (14, 2)] {
                    fl.push((o as u32 + x, w));
                }
                match &a.body {
                    Body::Res { val, voff } => {
                        put32(&mut b, o + 16, val.len() as u32);
                        put16(&mut b, o + 20, *voff);
                        b[o + 22] = (a.ty == T_NAME) as u8;
                        b[o + *voff as usize..o + *voff as usize + val.len()].copy_from_slice(val);
                        fl.push((o as u32 + 16, 4));
                        fl.push((o as u32 + 20, 2));
                        let vo = o as u32 + *voff as u32;
                        if a.ty == T_AL {
                            for e in &f.al.as_ref().unwrap().entries {
                                for (x, w) in [(0, 4), (4, 2), (6, 1), (8, 8), (16, 8), (24, 2)] {
                                    fl.push((vo + e.off as u32 + x, w));
                                }
                            }
                        }
                        if a.ty == T_NAME {
                            fl.push((vo + 64, 1));
                            fl.push((vo + 65, 1));
                        }
                        if a.ty == T_ROOT {
                            for id in &f.idx {
                                if self.idxs[*id].root_l == a.logical {
                                    for (i, slot, _, l) in &self.idx_bytes {
                                        if i == id && *slot == u64::MAX {
                                            fl.extend(l.iter().map(|(x, w)| (vo + x, *w)));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    Body::Non { lowest, size, init, runs, enc, roff, hdr } => {
                        b[o + 8] = 1;
                        let c: u64 = runs.iter().map(|r| r.clusters).sum();
                        put64(&mut b, o + 16, *lowest);
                        put64(&mut b, o + 24, (lowest + c).wrapping_sub(1));
                        put16(&mut b, o + 32, *roff);
                        if a.part == 0 {
                            let tot = match &f.logical[a.logical].content {
                                Content::Stream(s) => s.clusters() * self.cs,
                                _ => 0,
                            };
                            put64(&mut b, o + 40, tot);
                            put64(&mut b, o + 48, *size);
                            put64(&mut b, o + 56, *init);
                            if *hdr == 72 {
                                put64(&mut b, o + 64, tot / 2);
                            }
                        }
                        let ro = o + *roff as usize;
                        b[ro..ro + enc.len()].copy_from_slice(enc);
                        for (x, w) in [(16, 8), (24, 8), (32, 2), (40, 8), (48, 8), (56, 8)] {
                            fl.push((o as u32 + x, w));
                        }
                        for x in 0..enc.len() as u32 {
                            fl.push((ro as u32 + x, 1));
                        }
                    }
                }
            }
            put32(&mut b, *used as usize - 8, 0xffff_ffff);
            fl.push((*used - 8, 4));
            let usn = self.usn(fi, false, *rn);
            protect(&mut b, usa_off as usize, usn);
            let off = rn * self.rs;
            let mut img = std::mem::replace(&mut self.img, Image::new(0, 0));
            mft.write(&mut img, self.cs, off, &b);
            self.img = img;
            let mut bl = Block { kind: BK::Record(*rn), pieces: vec![] };
            for (p, n) in mft.pieces(self.cs, off, self.rs) {
                bl.pieces.push((p.unwrap(), n));
            }
            for (o, w) in fl {
                self.fields.push((bl.at(o as u64), w));
            }
            self.blocks.push(bl);
        }
    }
}

pub fn build(spec: &VolSpec, rev: Option<Rev>) -> Volume {
    let mut spec = spec.clone();
    spec.sanitize();
    let cs = spec.cluster();
    let rs = spec.rec_size();
    let span = 1u64 << spec.span_shift;
    let mut b = B {
        r: Rng::sub(spec.seed, 1),
        space: Space { used: BTreeMap::new(), span },
        img: Image::new(mix(spec.seed ^ 0x6e6f697365), span * cs),
        cs,
        rs,
        files: vec![],
        idxs: vec![],
        idx_file: vec![],
        rec_pool: vec![],
        next_rec: 24,
        blocks: vec![],
        fields: vec![],
        rev,
        upcase_l: Stream::default(),
        idx_bytes: vec![],
        spec: spec.clone(),
    };
    // Boot area
    let boot_clusters = 8192u64.div_ceil(cs);
    b.space.take(0, boot_clusters);
    // User files first, so that the system files come out independent of their number.
    let nf = spec.n_files as u64;
    let nd = spec.n_dirs as u64;
    for _ in 0..nf {
        let rec = b.new_rec();
        b.user_file(rec, false);
    }
    for _ in 0..nd {
        let rec = b.new_rec();
        b.user_file(rec, true);
    }
    b.user_file(5, true);
    // $UpCase
    let up = upcase(spec.upcase);
    let st = b.stream_exact(131072, 4);
    let mut upb = Block { kind: BK::Upcase, pieces: vec![] };
    {
        let mut off = 0u64;
        for r in &st.runs {
            let l = (r.clusters * cs).min(131072 - off.min(131072));
            if l > 0 {
                b.img.map(r.lcn.unwrap() * cs, &up.bytes, off as usize, l);
                upb.pieces.push((r.lcn.unwrap() * cs, l));
            }
            off += r.clusters * cs;
        }
    }
    b.upcase_l = st.clone();
    b.blocks.push(upb);
    b.sys_file(10, vec![(T_DATA, vec![], Content::Stream(st))]);
    // $Volume
    let label = if b.r.chance(4, 5) {
        let a = B::names_alphabet(&mut b.r);
        let mut n = B::name_from(&mut b.r, &a);
        n.truncate(*b.r.pick(&[0usize, 5, 11, 32, 128]));
        Some(n)
    } else {
        None
    };
    let vol_version = (b.r.below(4) as u8, b.r.below(256) as u8);
    let vol_flags = b.r.u64() as u16;
    let mut ex = Vec::new();
    if let Some(l) = &label {
        ex.push((T_VOLNAME, vec![], Content::Res(l.iter().flat_map(|c| c.to_le_bytes()).collect())));
    }
    let mut vi = vec![0u8; 12];
    vi[8] = vol_version.0;
    vi[9] = vol_version.1;
    put16(&mut vi, 10, vol_flags);
    ex.push((T_VOLINFO, vec![], Content::Res(vi)));
    b.sys_file(3, ex);
    // $Boot: its data starts at LCN 0.
    let boot_stream = Stream { size: 8192.min(boot_clusters * cs), init: 8192.min(boot_clusters * cs), runs: vec![Run { clusters: boot_clusters, lcn: Some(0) }] };
    b.sys_file(7, vec![(T_DATA, vec![], Content::Stream(boot_stream))]);
    // MFT
    let n_records = b.next_rec + b.r.below(4);
    let mft_size = n_records * rs;
    let slack = b.r.skewed(3) * rs;
    let need = (mft_size + slack).div_ceil(cs);
    let first_min = rs.div_ceil(cs).max(1);
    let granule = if spec.flags & F_STRADDLE != 0 { 1 } else { rs.div_ceil(cs).max(1) };
    let mut runs = Vec::new();
    let mut left = need;
    let k = spec.mft_frags as u64;
    for i in 0..k {
        let min = if i == 0 { first_min } else { granule };
        let last = i == k - 1 || left <= min + granule;
        let c = if last {
            left
        } else {
            let max = left - granule;
            let c = b.r.range(min, max.max(min));
            let c = c / granule * granule;
            c.max(min)
        };
        let lcn = b.space.alloc(&mut b.r, c).expect("mft space");
        runs.push(Run { clusters: c, lcn: Some(lcn) });
        left -= c;
        if left == 0 {
            break;
        }
    }
    let mft_lcn = runs[0].lcn.unwrap();
    let mft = Stream { size: mft_size, init: mft_size, runs };
    b.sys_file(0, vec![(T_DATA, vec![], Content::Stream(mft.clone()))]);
    // Emit
    let mut by_rec = BTreeMap::new();
    let mut rec_state = vec![RecState::Garbage; n_records as usize];
    for fi in 0..b.files.len() {
        b.emit(&mft, fi);
        for (rn, _, _) in &b.files[fi].recs {
            rec_state[*rn as usize] = RecState::Used;
        }
        by_rec.insert(b.files[fi].rec, fi);
    }
    // Free records inside, and stale records behind the end of the MFT.
    let stale_end = (mft.clusters() * cs) / rs;
    for n in 0..stale_end {
        if n < n_records && rec_state[n as usize] == RecState::Used {
            continue;
        }
        if n >= n_records || mix(spec.seed ^ n) % 2 == 0 {
            let mut f = vec![0u8; rs as usize];
            f[..4].copy_from_slice(b"FILE");
            put16(&mut f, 4, 48);
            put16(&mut f, 6, (rs / 512 + 1) as u16);
            put16(&mut f, 16, 1);
            let hs = align8(48 + (rs as usize / 512 + 1) * 2);
            put16(&mut f, 20, hs as u16);
            put32(&mut f, 24, hs as u32 + 8);
            put32(&mut f, 28, rs as u32);
            put32(&mut f, 44, n as u32);
            put32(&mut f, hs, 0xffff_ffff);
            protect(&mut f, 48, 1 + (n as u16));
            mft.write(&mut b.img, cs, n * rs, &f);
            if n < n_records {
                rec_state[n as usize] = RecState::Free;
            }
        }
    }
    // Boot sector
    let serial = mix(spec.seed ^ 77);
    let total_sectors = (span * cs) >> spec.sector_shift;
    let mut boot = vec![0u8; 512];
    boot[..3].copy_from_slice(&[0xeb, 0x52, 0x90]);
    boot[3..11].copy_from_slice(b"NTFS    ");
    put16(&mut boot, 11, 1 << spec.sector_shift);
    let spc = spec.cluster_shift - spec.sector_shift;
    // Small clusters may use the exponent form, too.
    let exponent = spc > 7 || spc > 0 && mix(spec.seed ^ 0x5bc) % 6 == 0;
    boot[13] = if exponent { (-(spc as i32)) as u8 } else { 1 << spc };
    boot[21] = 0xf8;
    put16(&mut boot, 24, 63);
    put16(&mut boot, 26, 255);
    put32(&mut boot, 28, b.r.u64() as u32);
    put64(&mut boot, 36, 0x0080_0080);
    boot[36] = 0x80;
    boot[38] = 0x80;
    put64(&mut boot, 40, total_sectors);
    put64(&mut boot, 48, mft_lcn);
    put64(&mut boot, 56, mft_lcn + 1);
    boot[64] = spec.rec_info as i8 as u8;
    boot[68] = if spec.index_rec as u64 >= cs { (spec.index_rec as u64 / cs) as u8 } else { (-(spec.index_rec.trailing_zeros() as i32)) as u8 };
    put64(&mut boot, 72, serial);
    for (i, x) in boot[84..510].iter_mut().enumerate() {
        *x = mix(i as u64) as u8;
    }
    boot[510] = 0x55;
    boot[511] = 0xaa;
    b.img.write(0, &boot);
    b.blocks.push(Block { kind: BK::Boot, pieces: vec![(0, 512)] });
    for (o, w) in [(11u64, 2u8), (13, 1), (40, 8), (48, 8), (64, 1), (68, 1), (510, 2)] {
        b.fields.push((o, w));
    }
    Volume {
        cs,
        rs,
        serial,
        total_sectors,
        mft,
        mft_lcn,
        n_records,
        rec_state,
        by_rec,
        files: b.files,
        idxs: b.idxs,
        idx_file: b.idx_file,
        label,
        vol_version,
        vol_flags,
        blocks: b.blocks,
        fields: b.fields,
        boot,
        img: Arc::new(b.img),
        spec,
    }
}

impl Volume {
    pub fn rec_pos(&self, n: u64) -> Option<u64> {
        self.mft.pos(self.cs, n * self.rs)
    }
    pub fn rec_contiguous(&self, n: u64) -> bool {
        self.mft.contiguous(self.cs, n * self.rs, self.rs)
    }
    /// Device position of a physical attribute (None if its record is not in one piece).
    pub fn attr_pos(&self, a: &Attr) -> Option<u64> {
        if !self.rec_contiguous(a.rec) {
            return None;
        }
        self.rec_pos(a.rec).map(|p| p + a.off as u64)
    }
    /// Nodes on the search path for a key position: returns number of index records visited when
    /// searching `pred` (the number of entries smaller than the searched one, and found index).
    pub fn path_records(&self, idx: usize, cmp: &dyn Fn(&IdxEntry) -> std::cmp::Ordering) -> u64 {
        let m = &self.idxs[idx];
        let mut n = 0;
        let mut node = 0;
        loop {
            let mut next = None;
            let mut found = false;
            for (k, child) in &m.nodes[node].ents {
                match k {
                    Some(k) => match cmp(&m.entries[*k]) {
                        std::cmp::Ordering::Greater => continue,
                        std::cmp::Ordering::Equal => {
                            found = true;
                            break;
                        }
                        std::cmp::Ordering::Less => {
                            next = *child;
                            break;
                        }
                    },
                    None => {
                        next = *child;
                        break;
                    }
                }
            }
            if found {
                return n;
            }
            match next {
                Some(c) => {
                    n += 1;
                    node = c;
                }
                None => return n,
            }
        }
    }
}
