//! One simulated client: a set of library handles over one (simulated) device, the operations a
//! user can perform on them, and the reference model each result is compared with.
use crate::disk::*;
use crate::hurt::{rec_attrs, Hurt, HK};
use crate::rng::*;
use crate::vol::*;
use binrw::io::{ErrorKind, Read, Result as IoResult, Seek, SeekFrom};
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::sync::Arc;

#[cfg(feature = "std")]
#[path = "/repo/examples/ntfs-shell/sector_reader.rs"]
pub mod sector_reader;

// ---- device front end ----------------------------------------------------------------------

pub enum Dev {
    Plain(SimDev),
    #[cfg(feature = "std")]
    Sector(SectorDev),
    /// As the shell uses it.
    #[cfg(feature = "std")]
    Buffered(Box<std::io::BufReader<SectorDev>>),
}

/// The sector reader and a note about which of its known defects the history has met.
#[cfg(feature = "std")]
pub struct SectorDev {
    inner: sector_reader::SectorReader<SimDev>,
    sector: u64,
    size: u64,
    pos: u64,
    synced: bool,
    sticky: bool,
    pub note: &'static str,
}

pub const NOTE_SEEK: &str = "[a read that does not directly follow a seek] ";
pub const NOTE_END: &str = "[a read within reach of the last sector] ";

#[cfg(feature = "std")]
impl SectorDev {
    pub fn new(d: SimDev, sector: u64, size: u64, sticky: bool) -> std::io::Result<Self> {
        Ok(Self { inner: sector_reader::SectorReader::new(d, sector as usize)?, sector, size, pos: 0, synced: true, sticky, note: "" })
    }
}

#[cfg(feature = "std")]
impl Read for SectorDev {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        let end = self.pos.saturating_add(buf.len() as u64);
        if !self.synced {
            self.note = NOTE_SEEK;
        } else if (end / self.sector + 1).saturating_mul(self.sector) > self.size {
            self.note = NOTE_END;
        }
        self.synced = false;
        let r = self.inner.read(buf);
        if let Ok(n) = &r {
            self.pos += *n as u64;
        }
        r
    }
}

#[cfg(feature = "std")]
impl Seek for SectorDev {
    fn seek(&mut self, pos: SeekFrom) -> IoResult<u64> {
        let r = self.inner.seek(pos);
        match &r {
            Ok(p) => {
                self.pos = *p;
                self.synced = true;
                if !self.sticky {
                    self.note = "";
                }
            }
            Err(_) => match pos {
                // Impossible: does not get to the device.
                SeekFrom::Current(n) if self.pos.checked_add_signed(n).is_none() => {}
                _ => self.synced = false,
            },
        }
        r
    }
}

impl Dev {
    pub fn note(&self) -> &'static str {
        match self {
            Dev::Plain(_) => "",
            #[cfg(feature = "std")]
            Dev::Sector(d) => d.note,
            #[cfg(feature = "std")]
            Dev::Buffered(d) => d.get_ref().note,
        }
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        match self {
            Dev::Plain(d) => d.read(buf),
            #[cfg(feature = "std")]
            Dev::Sector(d) => d.read(buf),
            #[cfg(feature = "std")]
            Dev::Buffered(d) => d.read(buf),
        }
    }
}

impl Seek for Dev {
    fn seek(&mut self, pos: SeekFrom) -> IoResult<u64> {
        match self {
            Dev::Plain(d) => d.seek(pos),
            #[cfg(feature = "std")]
            Dev::Sector(d) => d.seek(pos),
            #[cfg(feature = "std")]
            Dev::Buffered(d) => d.seek(pos),
        }
    }
}

// ---- operations ------------------------------------------------------------------------------

macro_rules! ops {
    ($($v:ident = $n:literal),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub enum Op { $($v),* }
        pub const ALL_OPS: &[(Op, &str)] = &[$((Op::$v, $n)),*];
    };
}
ops! {
    Mount = "mount", Open = "open", Info = "info", NameOf = "name", Meta = "raw_attributes",
    Attrs = "attributes", AttrNext = "attributes_next", AttrAll = "attributes_all",
    AlOpen = "list", AlNext = "list_next", AlAll = "list_all",
    Stream = "stream", Read = "read", ReadAll = "read_all", Seek = "seek", Clone = "clone",
    Runs = "runs", RunNext = "runs_next",
    Dir = "index", Entries = "entries", EntNext = "entries_next", EntAll = "entries_all",
    Finder = "finder", Find = "find", Recs = "records", RecNext = "records_next",
    RecAll = "records_all", RecVcn = "record_from_vcn", RootEnts = "root_entries",
    Vol = "volume", Foreign = "foreign", SecOp = "sector_op", Idle = "idle",
}

impl Op {
    pub fn name(self) -> &'static str {
        ALL_OPS.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn from_name(n: &str) -> Option<Op> {
        ALL_OPS.iter().find(|x| x.1 == n).map(|x| x.0)
    }
}

/// One library operation of one task. `d` and `s` are handle slots; `a`, `b`, `c` depend on the op.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: Op,
    pub task: u8,
    pub d: u8,
    pub s: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

pub const N_SLOTS: usize = 24;

/// What a comparison is about; a check only counts the classes its property speaks of.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Cl {
    Data,
    Cursor,
    Pos,
    Meta,
    Attr,
    Enum,
    Find,
    Loc,
    Work,
    Err,
    Retry,
    Sector,
}
pub const ALL_CL: &[Cl] = &[
    Cl::Data, Cl::Cursor, Cl::Pos, Cl::Meta, Cl::Attr, Cl::Enum, Cl::Find, Cl::Loc, Cl::Work, Cl::Err, Cl::Retry, Cl::Sector,
];

// ---- index types -----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct RawBytes(pub Vec<u8>);
impl NtfsIndexEntryKey for RawBytes {
    fn key_from_slice(slice: &[u8], _p: NtfsPosition) -> ntfs::Result<Self> {
        Ok(RawBytes(slice.to_vec()))
    }
}
impl NtfsIndexEntryData for RawBytes {
    fn data_from_slice(slice: &[u8], _p: NtfsPosition) -> ntfs::Result<Self> {
        Ok(RawBytes(slice.to_vec()))
    }
}
/// An index with data and byte-wise collation.
#[derive(Clone, Copy, Debug)]
pub struct DataIndex;
impl NtfsIndexEntryType for DataIndex {
    type KeyType = RawBytes;
}
impl NtfsIndexEntryHasData for DataIndex {
    type DataType = RawBytes;
}

#[derive(Clone, Debug, PartialEq)]
pub struct NameView {
    pub parent: (u64, u16),
    pub times: [u64; 4],
    pub alloc: u64,
    pub size: u64,
    pub attrs: u32,
    pub dir: bool,
    pub ns: u8,
    pub name: Vec<u16>,
    pub name_len: usize,
}

pub fn u16v(s: nt_string::u16strle::U16StrLe) -> Vec<u16> {
    s.u16_iter().collect()
}

/// The bits of a set of flags, provided that its named constants agree with the documented bits.
macro_rules! named_flags {
    ($fun:ident, $ty:ident, $int:ty, $($name:ident = $bit:expr),*) => {
        fn $fun(f: $ty) -> $int {
            let documented: $int = 0 $(| $bit)*;
            let named: $int = 0 $(| if f.contains($ty::$name) { $bit } else { 0 })*;
            let bits = f.bits();
            if named == bits & documented { bits } else { !bits }
        }
    };
}
named_flags!(attr_flags, NtfsAttributeFlags, u16, COMPRESSED = 0x0001, ENCRYPTED = 0x4000, SPARSE = 0x8000);
named_flags!(rec_flags, NtfsFileFlags, u16, IN_USE = 1, IS_DIRECTORY = 2);
named_flags!(ent_flags, NtfsIndexEntryFlags, u8, HAS_SUBNODE = 1, LAST_ENTRY = 2);
named_flags!(
    vol_flags, NtfsVolumeFlags, u16,
    IS_DIRTY = 1, RESIZE_LOG_FILE = 2, UPGRADE_ON_MOUNT = 4, MOUNTED_ON_NT4 = 8, DELETE_USN_UNDERWAY = 0x10, REPAIR_OBJECT_ID = 0x20, CHKDSK_UNDERWAY = 0x4000, MODIFIED_BY_CHKDSK = 0x8000
);
named_flags!(
    file_flags, NtfsFileAttributeFlags, u32,
    READ_ONLY = 1, HIDDEN = 2, SYSTEM = 4, ARCHIVE = 0x20, DEVICE = 0x40, NORMAL = 0x80, TEMPORARY = 0x100, SPARSE_FILE = 0x200, REPARSE_POINT = 0x400, COMPRESSED = 0x800, OFFLINE = 0x1000,
    NOT_CONTENT_INDEXED = 0x2000, ENCRYPTED = 0x4000, IS_DIRECTORY = 0x1000_0000
);
/// Every file attribute with a name.
const FILE_FLAGS: u32 = 0x1000_7fe7;

pub fn name_view(n: &NtfsFileName) -> NameView {
    NameView {
        parent: ref_view(n.parent_directory_reference()),
        times: [
            n.creation_time().nt_timestamp(),
            n.modification_time().nt_timestamp(),
            n.mft_record_modification_time().nt_timestamp(),
            n.access_time().nt_timestamp(),
        ],
        alloc: n.allocated_size(),
        size: n.data_size(),
        attrs: file_flags(n.file_attributes()),
        dir: n.is_directory(),
        ns: n.namespace() as u8,
        name: u16v(n.name()),
        name_len: n.name_length(),
    }
}

pub fn name_want(n: &NameModel) -> NameView {
    NameView {
        parent: n.parent,
        times: [n.t.c, n.t.m, n.t.r, n.t.a],
        alloc: n.alloc,
        size: n.size,
        attrs: n.attrs & FILE_FLAGS,
        dir: n.attrs & 0x1000_0000 != 0,
        ns: n.ns,
        name: n.name.clone(),
        name_len: n.name.len() * 2,
    }
}

pub fn ref_view(r: NtfsFileReference) -> (u64, u16) {
    (r.file_record_number(), r.sequence_number())
}

pub trait Kind: NtfsIndexEntryType + 'static {
    /// Everything an entry says except its place: (key, file reference or data).
    fn view(e: &NtfsIndexEntry<Self>) -> std::result::Result<String, NtfsError>;
    fn want(e: &IdxEntry) -> String;
    fn to_file(e: &NtfsIndexEntry<Self>, n: &'static Ntfs, fs: &mut Dev) -> Option<ntfs::Result<NtfsFile<'static>>>;
    fn file_ref(e: &NtfsIndexEntry<Self>) -> Option<(u64, u16)>;
    fn slot_finder(f: NtfsIndexFinder<'static, 'static, 'static, Self>, idx: usize) -> Slot;
}

impl Kind for NtfsFileNameIndex {
    fn view(e: &NtfsIndexEntry<Self>) -> std::result::Result<String, NtfsError> {
        Ok(match e.key() {
            None => "none".into(),
            Some(k) => {
                let k = k?;
                format!("{:?} -> {:?}", name_view(&k), ref_view(e.file_reference()))
            }
        })
    }
    fn want(e: &IdxEntry) -> String {
        match &e.key {
            Key::Name(n) => format!("{:?} -> {:?}", name_want(n), e.file),
            Key::Raw(_) => String::new(),
        }
    }
    fn to_file(e: &NtfsIndexEntry<Self>, n: &'static Ntfs, fs: &mut Dev) -> Option<ntfs::Result<NtfsFile<'static>>> {
        Some(e.to_file(n, fs))
    }
    fn file_ref(e: &NtfsIndexEntry<Self>) -> Option<(u64, u16)> {
        Some(ref_view(e.file_reference()))
    }
    fn slot_finder(f: NtfsIndexFinder<'static, 'static, 'static, Self>, idx: usize) -> Slot {
        Slot::Finder(f, idx)
    }
}

impl Kind for DataIndex {
    fn view(e: &NtfsIndexEntry<Self>) -> std::result::Result<String, NtfsError> {
        let k = match e.key() {
            None => None,
            Some(k) => Some(k?),
        };
        let d = match e.data() {
            None => None,
            Some(d) => Some(d?),
        };
        Ok(format!("{k:?} -> {d:?} len {}", e.data_length()))
    }
    fn want(e: &IdxEntry) -> String {
        let k = Some(RawBytes(e.key_bytes()));
        let d = if e.data.is_empty() { None } else { Some(RawBytes(e.data.clone())) };
        format!("{k:?} -> {d:?} len {}", e.data.len())
    }
    fn to_file(_: &NtfsIndexEntry<Self>, _: &'static Ntfs, _: &mut Dev) -> Option<ntfs::Result<NtfsFile<'static>>> {
        None
    }
    fn file_ref(_: &NtfsIndexEntry<Self>) -> Option<(u64, u16)> {
        None
    }
    fn slot_finder(f: NtfsIndexFinder<'static, 'static, 'static, Self>, idx: usize) -> Slot {
        Slot::FinderD(f, idx)
    }
}

// ---- handles ---------------------------------------------------------------------------------

pub struct ValS {
    pub v: NtfsAttributeValue<'static, 'static>,
    pub file: usize,
    pub log: usize,
    /// Only the extents of this one physical attribute (values taken from the raw iterator).
    pub pos: u64,
    /// The cursor was placed by a seek (and not by reading up to here).
    pub exact: bool,
}

pub struct RunS {
    pub r: NtfsDataRun,
    pub run: Run,
    pub pos: u64,
}

pub enum Slot {
    Empty,
    File(&'static NtfsFile<'static>, Option<usize>, u64),
    Val(Box<ValS>),
    Run(Box<RunS>),
    Runs(NtfsDataRuns<'static, 'static>, usize, usize, usize),
    Attrs(NtfsAttributes<'static, 'static>, usize, Vec<bool>, bool),
    Al(NtfsAttributeListEntries<'static, 'static>, usize, usize),
    Idx(&'static NtfsIndex<'static, 'static, NtfsFileNameIndex>, usize),
    IdxD(&'static NtfsIndex<'static, 'static, DataIndex>, usize),
    Ents(NtfsIndexEntries<'static, 'static, 'static, NtfsFileNameIndex>, usize, usize),
    EntsD(NtfsIndexEntries<'static, 'static, 'static, DataIndex>, usize, usize),
    Finder(NtfsIndexFinder<'static, 'static, 'static, NtfsFileNameIndex>, usize),
    FinderD(NtfsIndexFinder<'static, 'static, 'static, DataIndex>, usize),
    Recs(NtfsIndexRecords<'static, 'static>, usize, u64),
}

impl Slot {
    fn is_stateful(&self) -> bool {
        !matches!(self, Slot::Empty | Slot::File(..) | Slot::Idx(..) | Slot::IdxD(..))
    }
}

/// Objects that handles borrow from. Freed in reverse order after the handles are gone.
#[derive(Default)]
pub struct Arena {
    items: Vec<(*mut (), unsafe fn(*mut ()))>,
}

impl Arena {
    pub fn put<T>(&mut self, v: T) -> &'static T {
        unsafe fn free<T>(p: *mut ()) {
            drop(Box::from_raw(p as *mut T));
        }
        let p = Box::into_raw(Box::new(v));
        self.items.push((p as *mut (), free::<T>));
        unsafe { &*p }
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        while let Some((p, f)) = self.items.pop() {
            unsafe { f(p) }
        }
    }
}

pub struct Opts {
    /// Do not compare with the model (the medium is corrupted or versions differ).
    pub relaxed: bool,
    /// Record every observed value.
    pub log: bool,
    /// Upper bound of items delivered by one iterator in relaxed mode.
    pub max_items: u64,
    /// Check the positions errors report against the medium.
    pub err_pos: bool,
}

pub struct World {
    // Order matters: handles go first, then what they borrow from.
    pub slots: Vec<Slot>,
    pub arena: Arena,
    pub ntfs: Option<&'static Ntfs>,
    pub vol: Arc<Volume>,
    pub dev: Dev,
    pub core: Shared,
    pub task: usize,
    pub has_upcase: bool,
    pub opts: Opts,
    pub bad: Vec<(Cl, String)>,
    pub logs: Vec<String>,
    /// Upper bound for the device bytes of the current operation.
    pub allow: u64,
    /// The current operation failed on the way although it reported success (never bounded).
    pub compared: u64,
    pub ctx: String,
    pub feats: std::collections::BTreeSet<&'static str>,
    pub sector_size: usize,
    /// Where the sector reader has to be.
    pub sec_pos: u64,
    /// The one element of the medium that cannot be decoded.
    pub hurt: Option<Hurt>,
}

type R<T> = std::result::Result<T, NtfsError>;

pub const CANARY: u8 = 0xa7;

fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

/// A stable description of an error which is the same in the std and no_std builds.
pub fn err_name(e: &NtfsError) -> String {
    match io_kind(e) {
        Some(k) => format!("Io({})", kind_name(k)),
        None => {
            let s = format!("{e:?}");
            s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
        }
    }
}

fn ty_num(a: R<NtfsAttributeType>) -> i64 {
    match a {
        Ok(t) => t as u32 as i64,
        Err(_) => -1,
    }
}

fn pv(p: NtfsPosition) -> Option<u64> {
    p.value().map(|v| v.get())
}

impl World {
    pub fn new(vol: Arc<Volume>, core: Shared, task: usize, dev: Dev, opts: Opts) -> Self {
        Self {
            slots: (0..N_SLOTS).map(|_| Slot::Empty).collect(),
            arena: Arena::default(),
            ntfs: None,
            vol,
            dev,
            core,
            task,
            has_upcase: false,
            opts,
            bad: vec![],
            logs: vec![],
            allow: 0,
            compared: 0,
            sec_pos: 0,
            hurt: None,
            ctx: String::new(),
            feats: Default::default(),
            sector_size: 0,
        }
    }

    // ---- recording ---------------------------------------------------------------------------

    pub fn fail(&mut self, c: Cl, m: String) {
        if self.bad.len() < 64 {
            self.bad.push((c, m));
        }
    }
    fn log(&mut self, label: &str, v: &dyn Debug) {
        if self.opts.log {
            self.logs.push(format!("{label}={v:?}"));
        }
    }
    pub fn eq<T: PartialEq + Debug>(&mut self, c: Cl, label: &str, got: T, want: T) -> bool {
        self.compared += 1;
        self.log(label, &got);
        if self.opts.relaxed {
            return true;
        }
        if got != want {
            let (mut g, mut w) = (format!("{got:?}"), format!("{want:?}"));
            for s in [&mut g, &mut w] {
                if s.len() > 400 {
                    let mut n = 400;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                    s.push('…');
                }
            }
            self.fail(c, format!("{}{label}: got {g}, expected {w}", self.ctx));
            return false;
        }
        true
    }
    fn ok(&mut self, c: Cl, label: &str, cond: bool) -> bool {
        self.eq(c, label, cond, true)
    }
    fn pos_eq(&mut self, label: &str, got: NtfsPosition, want: Option<u64>) {
        self.eq(Cl::Pos, label, pv(got), want.filter(|p| *p != 0));
    }

    // ---- model helpers -------------------------------------------------------------------------

    fn content(&self, file: usize, log: usize, off: u64, len: u64) -> Vec<u8> {
        match &self.vol.files[file].logical[log].content {
            Content::Res(v) => {
                let a = (off.min(v.len() as u64)) as usize;
                let b = off.saturating_add(len).min(v.len() as u64) as usize;
                v[a..b.max(a)].to_vec()
            }
            Content::Stream(s) => s.read(&self.vol.img, self.vol.cs, off, len),
        }
    }
    /// How many bytes of a range of a stream are really stored on the device outside of its file record.
    fn stored(&self, file: usize, log: usize, off: u64, len: u64) -> u64 {
        let Content::Stream(s) = &self.vol.files[file].logical[log].content else { return 0 };
        let end = off.saturating_add(len).min(s.init).min(s.size);
        let (mut o, mut n) = (0u64, 0u64);
        for r in &s.runs {
            let e = o.saturating_add(r.clusters.saturating_mul(self.vol.cs));
            if r.lcn.is_some() {
                n += e.min(end).saturating_sub(o.max(off));
            }
            o = e;
            if o >= end {
                break;
            }
        }
        n
    }
    fn size(&self, file: usize, log: usize) -> u64 {
        self.vol.files[file].logical[log].size()
    }
    /// Part number of a stream offset (for streams that are split over several records).
    fn part_of(&self, file: usize, log: usize, off: u64) -> u64 {
        let f = &self.vol.files[file];
        let mut o = 0;
        for (n, p) in f.logical[log].parts.iter().enumerate() {
            if let Body::Non { runs, .. } = &f.attrs[*p].body {
                o += runs.iter().map(|r| r.clusters).sum::<u64>() * self.vol.cs;
                if off < o {
                    return n as u64;
                }
            }
        }
        (f.logical[log].parts.len() as u64).saturating_sub(1)
    }
    /// Device bytes allowed for loading one file record.
    fn load_cost(&self) -> u64 {
        2 * self.vol.rs
    }
    fn in_al(&self, file: usize, log: usize) -> bool {
        let f = &self.vol.files[file];
        f.al.is_some() && f.logical[log].parts.iter().any(|p| f.attrs[*p].rec != f.rec || f.logical[log].parts.len() > 1)
    }
    /// Device bytes allowed for walking `n` attribute list entries and loading their records.
    fn al_entries_cost(&self, file: usize, n: u64) -> u64 {
        match &self.vol.files[file].al {
            Some(al) => {
                let l = &self.vol.files[file].logical[al.logical];
                let e = if l.is_res() { 0 } else { 26 + 512 };
                n * (e + self.load_cost())
            }
            None => 0,
        }
    }
    fn al_full_cost(&self, file: usize) -> u64 {
        match &self.vol.files[file].al {
            Some(al) => {
                let l = &self.vol.files[file].logical[al.logical];
                let e = if l.is_res() { 0 } else { l.size() };
                2 * e + al.entries.len() as u64 * self.load_cost() + 1024
            }
            None => 0,
        }
    }
    fn move_cost(&self, file: usize, log: usize, from: u64, to: u64) -> u64 {
        if !self.in_al(file, log) {
            return 0;
        }
        let (a, b) = (self.part_of(file, log, from), self.part_of(file, log, to));
        let n = if to >= from { b - a.min(b) + 2 } else { b + 3 };
        self.al_entries_cost(file, n)
    }
    /// Device bytes allowed for fetching `n` index records of an index.
    fn idx_cost(&self, idx: usize, n: u64) -> u64 {
        let m = &self.vol.idxs[idx];
        let f = self.vol.idx_file[idx];
        let extra = match m.alloc_l {
            Some(l) if self.in_al(f, l) => self.al_full_cost(f),
            _ => 0,
        };
        n * (m.rec_size as u64 + extra)
    }

    fn check_val_pos(&mut self, v: &ValS) {
        if self.opts.relaxed {
            self.log("data_position", &pv(v.v.data_position()));
            return;
        }
        let vol = self.vol.clone();
        let f = &vol.files[v.file];
        let l = &f.logical[v.log];
        let got = pv(v.v.data_position());
        self.log("data_position", &got);
        let mut want: Vec<Option<u64>> = vec![];
        match &l.content {
            Content::Res(b) => {
                let a = &f.attrs[l.parts[0]];
                let Body::Res { voff, .. } = &a.body else { return };
                let Some(base) = vol.attr_pos(a) else { return };
                let n = b.len() as u64;
                if v.pos <= n {
                    want.push(Some(base + *voff as u64 + v.pos));
                }
                if v.pos >= n {
                    want.push(None);
                }
            }
            Content::Stream(s) => {
                let alloc = s.clusters().saturating_mul(vol.cs);
                if v.pos < alloc {
                    want.push(s.pos(vol.cs, v.pos));
                }
                if v.pos >= s.size {
                    want.push(None);
                }
                if v.pos > 0 && v.pos <= alloc && !v.exact {
                    let at_start = s.locate(vol.cs, v.pos).map(|x| x.1 == 0).unwrap_or(true);
                    if at_start {
                        want.push(s.pos(vol.cs, v.pos - 1).map(|p| p + 1));
                    }
                } else if v.pos == alloc && v.pos > 0 {
                    want.push(s.pos(vol.cs, v.pos - 1).map(|p| p + 1));
                }
            }
        }
        for w in want.iter_mut() {
            *w = w.filter(|p| *p != 0);
        }
        self.compared += 1;
        if !want.contains(&got) {
            self.fail(
                Cl::Pos,
                format!("{}value data_position at stream offset {}: got {got:?}, expected one of {want:?}", self.ctx, v.pos),
            );
        }
    }

    fn check_val(&mut self, v: &ValS) {
        let size = self.size(v.file, v.log);
        self.eq(Cl::Cursor, "stream_position", v.v.stream_position(), v.pos);
        self.eq(Cl::Data, "len", v.v.len(), size);
        self.eq(Cl::Data, "is_empty", v.v.is_empty(), size == 0);
        self.check_val_pos(v);
    }

    fn put_file(&mut self, f: NtfsFile<'static>) -> &'static NtfsFile<'static> {
        self.arena.put(f)
    }

    fn check_file(&mut self, f: &NtfsFile<'static>, rec: u64) {
        let vol = self.vol.clone();
        self.eq(Cl::Loc, "file_record_number", f.file_record_number(), rec);
        let found = vol.files.iter().enumerate().find_map(|(n, m)| m.recs.iter().find(|r| r.0 == rec).map(|r| (n, r)));
        let p = if rec < vol.n_records { vol.rec_pos(rec) } else { None };
        if rec < vol.n_records && vol.rec_contiguous(rec) {
            self.pos_eq("file position", f.position(), p);
        }
        if let Some((fi, (_, seq, used))) = found {
            let m = &vol.files[fi];
            self.eq(Cl::Loc, "sequence_number", f.sequence_number(), *seq);
            self.eq(Cl::Meta, "data_size", f.data_size(), *used);
            self.eq(Cl::Meta, "allocated_size", f.allocated_size(), vol.rs as u32);
            if m.rec == rec {
                self.eq(Cl::Meta, "hard_link_count", f.hard_link_count(), m.links);
                self.eq(Cl::Meta, "flags", rec_flags(f.flags()) & 3, m.flags & 3);
                self.eq(Cl::Meta, "is_directory", f.is_directory(), m.flags & 2 != 0);
            }
            // The record's own attributes identify it beyond doubt.
            let want: Vec<(u32, u16)> = {
                let mut v: Vec<&Attr> = m.attrs.iter().filter(|a| a.rec == rec).collect();
                v.sort_by_key(|a| a.off);
                v.iter().map(|a| (a.ty, a.instance)).collect()
            };
            let mut want = want;
            let mut got = vec![];
            for a in f.attributes_raw().take(4096) {
                match a {
                    Ok(a) => got.push((ty_num(a.ty()) as u32, a.instance())),
                    Err(e) => {
                        if self.lost_attr(rec, got.len()) {
                            want.truncate(got.len());
                        } else {
                            self.fail_err("attributes_raw", &e);
                        }
                        break;
                    }
                }
            }
            self.eq(Cl::Loc, "record attributes", got, want);
        } else {
            let _ = (f.sequence_number(), f.data_size(), f.allocated_size(), f.hard_link_count(), f.flags(), f.is_directory());
            let got = f.attributes_raw().take(4096).count();
            self.log("n", &got);
            if rec < vol.n_records {
                self.ok(Cl::Loc, "free record has no attributes", got == 0);
            }
        }
    }

    fn fail_err(&mut self, what: &str, e: &NtfsError) {
        self.log(what, &err_name(e));
        if !self.opts.relaxed {
            let m = format!("{}{what}: unexpected error {e:?}", self.ctx);
            self.fail(Cl::Err, m);
        }
    }

    // ---- a damaged element ---------------------------------------------------------------------

    /// Is this attribute the one that cannot be passed?
    fn lost_attr(&self, rec: u64, nth: usize) -> bool {
        self.hurt.as_ref().map(|h| h.kind == HK::AttrLen && h.rec == rec && h.nth == nth).unwrap_or(false)
    }
    fn lost_name(&self, file: usize, attr: usize) -> bool {
        self.hurt.as_ref().map(|h| h.kind == HK::NameOff && h.file == file && h.attr == attr).unwrap_or(false)
    }
    fn lost_run(&self, file: usize, attr: usize, run: usize) -> bool {
        self.hurt.as_ref().map(|h| h.kind == HK::RunHdr && h.file == file && h.attr == attr && h.run == run).unwrap_or(false)
    }
    fn changed(&self, file: usize, logical: usize) -> bool {
        self.hurt.as_ref().map(|h| h.changed(&self.vol, file, logical)).unwrap_or(false)
    }
    fn hidden(&self, file: usize, logical: usize) -> bool {
        let at = self.vol.files[file].logical[logical].parts[0];
        self.hurt.as_ref().map(|h| h.hides(&self.vol, file, at)).unwrap_or(false)
    }
    /// The attribute whose name cannot be read.
    fn nameless(&self, a: &NtfsAttribute<'static, 'static>, file: usize) -> Option<usize> {
        let h = self.hurt.as_ref()?;
        if h.kind != HK::NameOff || h.file != file || a.name().is_ok() {
            return None;
        }
        let m = &self.vol.files[file].attrs[h.attr];
        (a.instance() == m.instance && ty_num(a.ty()) == m.ty as i64).then_some(h.logical)
    }

    /// May this step fail, considering what is damaged and what it needs?
    pub fn may_fail(&self, st: &Step) -> bool {
        let Some(h) = &self.hurt else { return true };
        let vol = &*self.vol;
        match st.op {
            Op::Mount => return st.a != 0 && (h.open_may_fail(vol, 10) || vol.by_rec.get(&10) == Some(&h.file)),
            Op::Open => return h.open_may_fail(vol, st.a),
            Op::Vol => return h.open_may_fail(vol, 3) || vol.by_rec.get(&3) == Some(&h.file),
            _ => {}
        }
        let Some(file) = self.step_file(st) else { return false };
        // Following an attribute list means opening further records.
        if vol.files[file].al.is_some() && vol.files[file].recs.iter().any(|r| h.open_may_fail(vol, r.0)) {
            return true;
        }
        // An entry is also followed to its file.
        if matches!(st.op, Op::EntNext | Op::EntAll | Op::Find) && (0..vol.n_records).any(|n| h.open_may_fail(vol, n)) {
            return true;
        }
        if file != h.file {
            return false;
        }
        let f = &vol.files[h.file];
        let al = h.al_hit(vol);
        // The attribute concerned cannot be used at all.
        let dead = match h.kind {
            HK::AttrLen | HK::ValOff | HK::RunsOff => true,
            HK::RunHdr => h.run == 0,
            _ => false,
        };
        let at = |l: usize| &f.logical[l];
        let split = |l: usize| at(l).parts.len() > 1;
        // The attribute comes after the list.
        let after_al = |a: usize| {
            let list = f.al.as_ref().map(|l| f.attrs[at(l.logical).parts[0]].off).unwrap_or(usize::MAX as _);
            f.attrs[a].off > list
        };
        // The way to an attribute is blocked.
        let blocked = |l: usize| {
            let first = at(l).parts[0];
            h.hides(vol, h.file, first) || (f.al.is_some() && h.kind == HK::AttrLen) || (al && (!at(l).is_res() || f.attrs[first].rec != f.rec || after_al(first)))
        };
        // A value being read.
        let value = |l: usize, to: u64| {
            (h.logical == l && matches!(h.kind, HK::RunHdr | HK::RunsOff | HK::AttrLen) && (to > h.off || split(l)) && (h.kind != HK::AttrLen || split(l)))
                || (self.in_al(h.file, l) && al)
        };
        match (st.op, &self.slots[st.s as usize % N_SLOTS]) {
            (Op::Info, Slot::File(_, _, rec)) => {
                let std = f.attrs.iter().position(|a| a.ty == T_STD && a.rec == *rec);
                *rec == h.rec
                    && match std {
                        Some(s) => h.hides(vol, h.file, s) || (dead && h.attr == s),
                        None => h.kind == HK::AttrLen,
                    }
            }
            (Op::NameOf, _) => al || h.kind == HK::AttrLen || (matches!(h.kind, HK::FileName | HK::ValOff) && f.attrs[h.attr].ty == T_NAME),
            (Op::AttrNext | Op::AttrAll, Slot::Attrs(_, _, seen, _)) => match h.kind {
                HK::AttrLen => f.al.is_some() || seen.iter().filter(|s| **s).count() >= h.nth,
                HK::AlLen => true,
                _ => al,
            },
            (Op::AlOpen, _) => al && dead,
            (Op::AlNext | Op::AlAll, Slot::Al(_, _, n)) => {
                let e = f.al.as_ref().and_then(|a| a.entries.get(*n));
                match h.kind {
                    HK::AlLen => *n >= h.al || st.a & 1 == 1,
                    HK::RunHdr if al => e.map(|e| e.off + e.len as u64 > h.off).unwrap_or(true),
                    _ => st.a & 1 == 1,
                }
            }
            (Op::Stream, _) => {
                let l = st.b as usize;
                if l >= f.logical.len() {
                    return true;
                }
                blocked(l) || (h.logical == l && dead) || (h.kind == HK::NameOff && st.a == 1 && f.attrs[h.attr].ty == T_DATA) || (al && f.attrs[at(l).parts[0]].rec != f.rec)
            }
            (Op::Read, Slot::Val(s)) => match st.b {
                1 | 3 => value(s.log, s.pos.saturating_add(st.a)),
                _ => value(s.log, s.pos.saturating_add(1)),
            },
            (Op::ReadAll, Slot::Val(s)) => value(s.log, s.pos.saturating_add(1)),
            (Op::Seek, Slot::Val(s)) => {
                let size = at(s.log).size();
                let to = match st.a & 3 {
                    0 => Some(st.b),
                    1 => s.pos.checked_add_signed(st.b as i64),
                    _ => size.checked_add_signed(st.b as i64),
                };
                value(s.log, to.unwrap_or(0).saturating_add(1))
            }
            (Op::Runs, Slot::File(_, _, rec)) => *rec == h.rec && dead && rec_attrs(f, *rec).get(st.b as usize) == Some(&h.attr),
            (Op::RunNext, Slot::Runs(_, _, a, n)) => h.kind == HK::RunHdr && *a == h.attr && *n >= h.run,
            (Op::Dir, _) => blocked_any(f, h, al) || (h.kind == HK::NameOff && matches!(f.attrs[h.attr].ty, T_ROOT | T_ALLOC)) || (dead && f.attrs[h.attr].ty == T_ROOT),
            (Op::EntNext | Op::EntAll, Slot::Ents(_, b, n) | Slot::EntsD(_, b, n)) => {
                let l = vol.idxs[*b].alloc_l;
                *n >= h.entries_before(vol, *b) && (h.idx == *b || Some(h.logical) == l) || l.map(|l| (self.in_al(h.file, l) && (al || h.logical == l || h.kind == HK::AttrLen)) || (h.logical == l && dead)).unwrap_or(false)
            }
            (Op::Find, Slot::Finder(_, b)) => {
                let u = upcase(vol.spec.upcase);
                let name = self.find_name(*b, st);
                let l = vol.idxs[*b].alloc_l;
                h.on_path(vol, *b, &|e| u.cmp(&name, e.name())) || l.map(|l| (self.in_al(h.file, l) && (al || h.logical == l || h.kind == HK::AttrLen)) || (h.logical == l && dead)).unwrap_or(false)
            }
            (Op::Find, _) => true,
            (Op::Recs, _) => blocked_any(f, h, al) || dead,
            (Op::RecNext | Op::RecAll, Slot::Recs(_, b, n)) => {
                let l = vol.idxs[*b].alloc_l.unwrap_or(0);
                // (Going on to the next record is part of delivering one.)
                match st.op {
                    Op::RecAll => value(l, u64::MAX),
                    _ => value(l, (*n + 1) * vol.idxs[*b].rec_size as u64 + 1),
                }
            }
            (Op::RecVcn, _) => {
                let b = st.b as usize;
                if b >= vol.idxs.len() {
                    return true;
                }
                let to = st.c.saturating_add(1).saturating_mul(vol.idxs[b].rec_size as u64);
                blocked_any(f, h, al) || dead || vol.idxs[b].alloc_l.map(|l| value(l, to)).unwrap_or(true)
            }
            (Op::RootEnts, _) => blocked_any(f, h, al) || (dead && f.attrs[h.attr].ty == T_ROOT),
            _ => false,
        }
    }

    /// The file a step works on.
    fn step_file(&self, st: &Step) -> Option<usize> {
        let of_rec = |rec: u64| self.vol.files.iter().position(|m| m.recs.iter().any(|r| r.0 == rec));
        match &self.slots[st.s as usize % N_SLOTS] {
            Slot::File(_, m, rec) => m.or_else(|| of_rec(*rec)),
            Slot::Attrs(_, m, ..) | Slot::Al(_, m, _) | Slot::Runs(_, m, ..) => Some(*m),
            Slot::Val(s) => Some(s.file),
            Slot::Idx(_, b) | Slot::IdxD(_, b) | Slot::Ents(_, b, _) | Slot::EntsD(_, b, _) | Slot::Recs(_, b, _) | Slot::Finder(_, b) | Slot::FinderD(_, b) => {
                Some(self.vol.idx_file[*b])
            }
            _ => None,
        }
    }

    // ---- execution -----------------------------------------------------------------------------

    fn file_slot(&self, s: u8) -> Option<(&'static NtfsFile<'static>, Option<usize>, u64)> {
        match &self.slots[s as usize % N_SLOTS] {
            Slot::File(f, m, r) => Some((f, *m, *r)),
            _ => None,
        }
    }
    fn set(&mut self, d: u8, s: Slot) {
        self.slots[d as usize % N_SLOTS] = s;
    }
    fn take(&mut self, s: u8) -> Slot {
        std::mem::replace(&mut self.slots[s as usize % N_SLOTS], Slot::Empty)
    }
    /// What an error says to be found at a position is found there.
    /// (Only meaningful where all records are stored in one piece.)
    pub fn check_err_pos(&mut self, e: &NtfsError) {
        let (p, want, what) = match e {
            NtfsError::InvalidTwoByteSignature { position, actual, .. } => (pv(*position), actual.to_vec(), "signature"),
            NtfsError::InvalidFileSignature { position, actual, .. } => (pv(*position), actual.to_vec(), "file signature"),
            NtfsError::InvalidIndexSignature { position, actual, .. } => (pv(*position), actual.to_vec(), "index signature"),
            NtfsError::UpdateSequenceNumberMismatch { position, actual, .. } => (pv(*position), actual.to_vec(), "update sequence number"),
            NtfsError::UnsupportedAttributeType { position, actual } => (pv(*position), actual.to_le_bytes().to_vec(), "attribute type"),
            NtfsError::UnsupportedFileNamespace { position, actual } => (pv(*position).map(|p| p + 65), vec![*actual], "namespace"),
            NtfsError::InvalidUpdateSequenceCount { position, update_sequence_count } => {
                (pv(*position).map(|p| p + 6), update_sequence_count.to_le_bytes().to_vec(), "update sequence count")
            }
            NtfsError::InvalidFileUsedSize { position, expected, .. } => (pv(*position).map(|p| p + 24), expected.to_le_bytes().to_vec(), "used size"),
            NtfsError::InvalidFileAllocatedSize { position, expected, .. } => (pv(*position).map(|p| p + 28), expected.to_le_bytes().to_vec(), "allocated size"),
            _ => return,
        };
        self.compared += 1;
        self.feats.insert("error-position");
        let mut got = vec![0u8; want.len()];
        let Some(p) = p else {
            self.fail(Cl::Pos, format!("{}{what} error without a position: {e:?}", self.ctx));
            return;
        };
        match self.core.lock() {
            Ok(c) => c.media(p, &mut got),
            Err(_) => return,
        }
        if got != want {
            self.fail(Cl::Pos, format!("{}the error names position {p:#x} for a {what} that reads {want:x?}, but {got:x?} is stored there", self.ctx));
        }
    }

    /// After a failure: the handle that was to be created does not exist (nor an older one).
    pub fn forget_dest(&mut self, st: &Step) {
        if matches!(st.op, Op::Open | Op::Attrs | Op::AlOpen | Op::Stream | Op::Runs | Op::Dir | Op::Entries | Op::Finder | Op::Recs) {
            self.set(st.d, Slot::Empty);
        }
    }

    /// Executes one step. `Ok(false)`: not applicable in this state.
    pub fn exec(&mut self, st: &Step) -> R<bool> {
        self.allow = 0;
        match st.op {
            Op::Idle => Ok(true),
            Op::Mount => self.mount(st),
            Op::Foreign => {
                if let Dev::Plain(d) = &mut self.dev {
                    d.pos = st.a;
                    let mut c = d.lock();
                    *c.stats.entry(FK::Foreign).or_insert(0) += 1;
                }
                Ok(true)
            }
            Op::SecOp => self.sector_op(st),
            _ => {
                let Some(ntfs) = self.ntfs else { return Ok(false) };
                match st.op {
                    Op::Open => self.open(ntfs, st),
                    Op::Info => self.info(st),
                    Op::NameOf => self.name_of(st),
                    Op::Meta => self.meta(st),
                    Op::Attrs => self.attrs(st),
                    Op::AttrNext => self.attr_next(st, 1),
                    Op::AttrAll => self.attr_next(st, 5000),
                    Op::AlOpen => self.al_open(st),
                    Op::AlNext => self.al_next(ntfs, st, 1),
                    Op::AlAll => self.al_next(ntfs, st, 5000),
                    Op::Stream => self.stream(st),
                    Op::Read => self.read(st),
                    Op::ReadAll => self.read_all(st),
                    Op::Seek => self.seek(st),
                    Op::Clone => self.clone_slot(st),
                    Op::Runs => self.runs(st),
                    Op::RunNext => self.run_next(st),
                    Op::Dir => self.dir(st),
                    Op::Entries => self.entries(st),
                    Op::EntNext => self.ent_next(ntfs, st, 1),
                    Op::EntAll => self.ent_next(ntfs, st, 100_000),
                    Op::Finder => self.finder(st),
                    Op::Find => self.find(ntfs, st),
                    Op::Recs => self.recs(st),
                    Op::RecNext => self.rec_next(st, 1),
                    Op::RecAll => self.rec_next(st, 100_000),
                    Op::RecVcn => self.rec_vcn(st),
                    Op::RootEnts => self.root_ents(st),
                    Op::Vol => self.volume(ntfs, st),
                    _ => unreachable!(),
                }
            }
        }
    }

    fn mount(&mut self, st: &Step) -> R<bool> {
        // If there is a file system object already, this is a second one, checked and dropped.
        let vol = self.vol.clone();
        self.allow = 512 + 4 * self.load_cost() + 131072 + 4096;
        let mut n = Ntfs::new(&mut self.dev)?;
        self.eq(Cl::Meta, "cluster_size", n.cluster_size() as u64, vol.cs);
        self.eq(Cl::Meta, "sector_size", n.sector_size() as u64, 1u64 << vol.spec.sector_shift);
        self.eq(Cl::Meta, "size", n.size(), vol.total_sectors << vol.spec.sector_shift);
        self.eq(Cl::Meta, "file_record_size", n.file_record_size() as u64, vol.rs);
        self.eq(Cl::Meta, "serial_number", n.serial_number(), vol.serial);
        self.pos_eq("mft_position", n.mft_position(), Some(vol.mft_lcn * vol.cs));
        let up = st.a != 0;
        if up {
            n.read_upcase_table(&mut self.dev)?;
            if st.b == 2 {
                // Read again: if that fails, the table read first is still there.
                self.allow += self.load_cost() + 131072 + 4096;
                let again = n.read_upcase_table(&mut self.dev);
                let c = [st.d as u16, 0x61 + (st.s as u16 % 26), 0xe4, 0x3b1];
                for k in 0..4 {
                    let (x, y) = (c[k].to_le_bytes(), c[(k + 1) % 4].to_le_bytes());
                    let got = nt_string::u16strle::U16StrLe(&x).upcase_cmp(&n, &nt_string::u16strle::U16StrLe(&y));
                    if !self.opts.relaxed {
                        self.eq(Cl::Find, "upcase_cmp() after reading the table again", got, crate::vol::upcase(vol.spec.upcase).cmp(&c[k..k + 1], &[c[(k + 1) % 4]]));
                    }
                }
                again?;
            }
        }
        if self.ntfs.is_none() {
            self.ntfs = Some(self.arena.put(n));
            self.has_upcase = up;
        }
        Ok(true)
    }

    fn open(&mut self, ntfs: &'static Ntfs, st: &Step) -> R<bool> {
        let vol = self.vol.clone();
        self.allow = self.load_cost();
        let rec = st.a;
        let r = match st.b {
            1 if rec == 5 => ntfs.root_directory(&mut self.dev),
            _ => ntfs.file(&mut self.dev, rec),
        };
        let state = if rec < vol.n_records { vol.rec_state.get(rec as usize).copied() } else { None };
        match r {
            Ok(f) => {
                if !self.opts.relaxed {
                    match state {
                        None => self.fail(Cl::Loc, format!("{}file({rec}) succeeded although the MFT has {} records", self.ctx, vol.n_records)),
                        Some(RecState::Garbage) => self.fail(Cl::Loc, format!("{}file({rec}) accepted a garbage record", self.ctx)),
                        _ => {}
                    }
                }
                let f = self.put_file(f);
                self.check_file(f, rec);
                self.set(st.d, Slot::File(f, vol.by_rec.get(&rec).copied(), rec));
                Ok(true)
            }
            Err(e) => {
                if io_kind(&e).is_none() && !self.opts.relaxed {
                    match state {
                        None => {
                            self.log("open", &err_name(&e));
                            return Ok(true);
                        }
                        Some(RecState::Garbage) => {
                            self.log("open", &err_name(&e));
                            return Ok(true);
                        }
                        _ => {}
                    }
                }
                Err(e)
            }
        }
    }

    fn check_std(&mut self, i: &NtfsStandardInformation, s: &StdInfo) {
        self.eq(
            Cl::Meta,
            "standard information times",
            [
                i.creation_time().nt_timestamp(),
                i.modification_time().nt_timestamp(),
                i.mft_record_modification_time().nt_timestamp(),
                i.access_time().nt_timestamp(),
            ],
            [s.t.c, s.t.m, s.t.r, s.t.a],
        );
        self.eq(Cl::Meta, "standard information attributes", file_flags(i.file_attributes()), s.attrs & FILE_FLAGS);
        let e = s.ext;
        self.eq(Cl::Meta, "maximum_versions", i.maximum_versions(), e.map(|e| e[0] as u32));
        self.eq(Cl::Meta, "version", i.version(), e.map(|e| e[1] as u32));
        self.eq(Cl::Meta, "class_id", i.class_id(), e.map(|e| e[2] as u32));
        self.eq(Cl::Meta, "owner_id", i.owner_id(), e.map(|e| e[3] as u32));
        self.eq(Cl::Meta, "security_id", i.security_id(), e.map(|e| e[4] as u32));
        self.eq(Cl::Meta, "quota_charged", i.quota_charged(), e.map(|e| e[5]));
        self.eq(Cl::Meta, "usn", i.usn(), e.map(|e| e[6]));
    }

    fn info(&mut self, st: &Step) -> R<bool> {
        let Some((f, m, rec)) = self.file_slot(st.s) else { return Ok(false) };
        self.check_file(f, rec);
        let vol = self.vol.clone();
        let want = m.and_then(|m| vol.files[m].std.as_ref());
        match (f.info(), want) {
            (Ok(i), Some(s)) => self.check_std(&i, s),
            (Ok(i), None) => {
                self.log("info", &i);
                self.ok(Cl::Meta, "info() of a record without standard information", false);
            }
            (Err(NtfsError::AttributeNotFound { position, .. }), None) => {
                let want = vol.rec_pos(rec);
                if vol.rec_contiguous(rec) {
                    self.pos_eq("position of a record without standard information", position, want);
                }
            }
            (Err(e), _) => {
                if self.hurt.is_some() {
                    return Err(e);
                }
                if self.opts.relaxed {
                    self.log("info", &err_name(&e));
                } else {
                    self.fail(Cl::Meta, format!("{}info(): unexpected error {e:?}", self.ctx));
                }
            }
        }
        Ok(true)
    }

    fn name_of(&mut self, st: &Step) -> R<bool> {
        let Some((f, Some(m), _)) = self.file_slot(st.s) else { return Ok(false) };
        let vol = self.vol.clone();
        let fm = &vol.files[m];
        let ns = match st.a {
            1 => Some(NtfsFileNamespace::Posix),
            2 => Some(NtfsFileNamespace::Win32),
            3 => Some(NtfsFileNamespace::Dos),
            4 => Some(NtfsFileNamespace::Win32AndDos),
            _ => None,
        };
        let parent = match st.b {
            0 => None,
            n if (n as usize) <= fm.names.len() => Some(fm.names[n as usize - 1].parent.0),
            n => Some(n),
        };
        self.allow = self.al_full_cost(m);
        let got = f.name(&mut self.dev, ns, parent);
        let matches: Vec<&NameModel> = fm
            .names
            .iter()
            .filter(|n| ns.map(|x| x as u8 == n.ns).unwrap_or(true) && parent.map(|p| n.parent.0 == p).unwrap_or(true))
            .collect();
        match got {
            None => {
                self.log("name", &"none");
                let n = matches.len();
                self.eq(Cl::Attr, "name() reports absence; number of matching names", n, if self.opts.relaxed { n } else { 0 });
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(n)) => {
                let v = name_view(&n);
                let all = if fm.al.is_some() { matches.len() } else { 1 };
                let want: Vec<NameView> = matches.iter().take(all).map(|n| name_want(n)).collect();
                if want.contains(&v) {
                    let w = v.clone();
                    self.eq(Cl::Meta, "name", v, w);
                } else if want.is_empty() {
                    self.eq(Cl::Attr, "name", Some(v), None);
                } else {
                    self.eq(Cl::Meta, "name", v, want[0].clone());
                }
            }
        }
        Ok(true)
    }

    /// Compares one physical attribute with the model, including its value.
    fn check_attr(&mut self, a: &NtfsAttribute<'static, 'static>, fm: usize, n: usize) -> R<()> {
        let vol = self.vol.clone();
        let f = &vol.files[fm];
        let m = &f.attrs[n];
        self.eq(Cl::Attr, "attribute type", ty_num(a.ty()), m.ty as i64);
        let name = match a.name() {
            Ok(n) => u16v(n),
            Err(_) if self.lost_name(fm, n) => m.name.clone(),
            Err(e) => {
                self.fail_err("attribute name", &e);
                vec![]
            }
        };
        self.eq(Cl::Attr, "attribute name", name, m.name.clone());
        self.eq(Cl::Meta, "attribute name_length", a.name_length(), m.name.len() * 2);
        self.eq(Cl::Meta, "attribute flags", attr_flags(a.flags()), m.flags & 0xc001);
        self.eq(Cl::Meta, "attribute instance", a.instance(), m.instance);
        self.eq(Cl::Meta, "attribute length", a.attribute_length(), m.len);
        let want = vol.attr_pos(m);
        if vol.rec_contiguous(m.rec) {
            self.pos_eq("attribute position", a.position(), want);
        }
        let res = matches!(m.body, Body::Res { .. });
        if !self.eq(Cl::Meta, "is_resident", a.is_resident(), res) {
            return Ok(());
        }
        match &m.body {
            Body::Res { val, voff } => {
                self.eq(Cl::Meta, "value_length", a.value_length(), val.len() as u64);
                match a.value(&mut self.dev)? {
                    NtfsAttributeValue::Resident(v) => {
                        if !self.changed(fm, m.logical) {
                            self.eq(Cl::Data, "resident value", v.data().to_vec(), val.clone());
                        }
                        self.eq(Cl::Data, "resident len", v.len(), val.len() as u64);
                        if let Some(p) = want {
                            self.pos_eq("resident data_position", v.data_position(), Some(p + *voff as u64));
                        }
                    }
                    _ => {
                        self.ok(Cl::Attr, "resident attribute has a resident value", false);
                    }
                }
                self.check_structured(a, fm, n, val)?;
                self.check_other_types(a, m.ty, want.filter(|_| vol.rec_contiguous(m.rec)))?;
            }
            Body::Non { size, runs, lowest, .. } => {
                self.eq(Cl::Meta, "value_length", a.value_length(), *size);
                if *lowest == 0 && f.logical[m.logical].parts.len() == 1 {
                    match a.value(&mut self.dev)? {
                        NtfsAttributeValue::NonResident(v) => {
                            self.eq(Cl::Data, "value len", v.len(), *size);
                            let mut got = vec![];
                            let mut lost = false;
                            for r in v.data_runs().take(runs.len() + 100) {
                                match r {
                                    Ok(r) => got.push((r.allocated_size(), pv(r.data_position()))),
                                    Err(e) => {
                                        lost = self.lost_run(fm, n, got.len());
                                        if !lost {
                                            self.fail_err("data run", &e);
                                        }
                                        break;
                                    }
                                }
                            }
                            let mut want: Vec<_> = runs
                                .iter()
                                .map(|r| (r.clusters * vol.cs, r.lcn.map(|l| l * vol.cs).filter(|p| *p != 0)))
                                .collect();
                            if lost {
                                want.truncate(got.len());
                            }
                            self.eq(Cl::Data, "data runs", got, want);
                        }
                        NtfsAttributeValue::AttributeListNonResident(v) => {
                            self.eq(Cl::Data, "value len", v.len(), *size);
                        }
                        _ => {
                            self.ok(Cl::Attr, "non-resident attribute has a non-resident value", false);
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// Structured values of other types must be refused, naming the attribute.
    fn check_other_types(&mut self, a: &NtfsAttribute<'static, 'static>, ty: u32, pos: Option<u64>) -> R<()> {
        let mut errs = vec![];
        if ty != T_VOLNAME {
            errs.push(a.resident_structured_value::<NtfsVolumeName>().err());
        }
        if ty != T_STD {
            errs.push(a.structured_value::<_, NtfsStandardInformation>(&mut self.dev).err());
        }
        if ty != T_NAME {
            errs.push(a.structured_value::<_, NtfsFileName>(&mut self.dev).err());
        }
        for e in errs {
            match e {
                None => {
                    self.ok(Cl::Meta, "structured value of another type is refused", false);
                }
                Some(NtfsError::Io(e)) => return Err(NtfsError::Io(e)),
                Some(NtfsError::AttributeOfDifferentType { position, .. }) if pos.is_some() => {
                    self.pos_eq("position of an attribute of a different type", position, pos);
                }
                Some(_) => {}
            }
        }
        Ok(())
    }

    fn check_structured(&mut self, a: &NtfsAttribute<'static, 'static>, fm: usize, n: usize, val: &[u8]) -> R<()> {
        let vol = self.vol.clone();
        let f = &vol.files[fm];
        let m = &f.attrs[n];
        let attr_pos = vol.attr_pos(m);
        let Body::Res { voff, .. } = &m.body else { return Ok(()) };
        match m.ty {
            T_STD => {
                if let Some(s) = &f.std {
                    let i = a.resident_structured_value::<NtfsStandardInformation>()?;
                    self.check_std(&i, s);
                    let i = a.structured_value::<_, NtfsStandardInformation>(&mut self.dev)?;
                    self.check_std(&i, s);
                }
            }
            T_NAME => {
                if let Some(nm) = f.names.iter().find(|x| x.bytes() == val) {
                    let x = a.structured_value::<_, NtfsFileName>(&mut self.dev)?;
                    self.eq(Cl::Meta, "file name", name_view(&x), name_want(nm));
                }
            }
            T_OBJID => {
                let x = if n % 2 == 0 { a.resident_structured_value::<NtfsObjectId>()? } else { a.structured_value::<_, NtfsObjectId>(&mut self.dev)? };
                let g = |o: usize| -> Option<Vec<u8>> { val.get(o..o + 16).map(|v| v.to_vec()) };
                let b = |g: &NtfsGuid| -> Vec<u8> {
                    let mut v = g.data1.to_le_bytes().to_vec();
                    v.extend(g.data2.to_le_bytes());
                    v.extend(g.data3.to_le_bytes());
                    v.extend(g.data4);
                    v
                };
                self.eq(Cl::Meta, "object_id", Some(b(x.object_id())), g(0));
                self.eq(Cl::Meta, "birth_volume_id", x.birth_volume_id().map(b), g(16));
                self.eq(Cl::Meta, "birth_object_id", x.birth_object_id().map(b), g(32));
                self.eq(Cl::Meta, "domain_id", x.domain_id().map(b), g(48));
                let o = x.object_id();
                let hex: String = o.data4.iter().map(|c| format!("{c:02X}")).collect();
                let want = format!("{:08X}-{:04X}-{:04X}-{}-{}", o.data1, o.data2, o.data3, &hex[..4], &hex[4..]);
                self.eq(Cl::Meta, "GUID as text", o.to_string().to_uppercase(), want);
            }
            T_ROOT => {
                let x = if n % 2 == 0 { a.resident_structured_value::<NtfsIndexRoot>()? } else { a.structured_value::<_, NtfsIndexRoot>(&mut self.dev)? };
                let u = |o: usize| u32::from_le_bytes(val[o..o + 4].try_into().unwrap());
                self.eq(Cl::Meta, "index_record_size", x.index_record_size(), u(8));
                self.eq(Cl::Meta, "index_data_size", x.index_data_size(), u(20));
                self.eq(Cl::Meta, "index_allocated_size", x.index_allocated_size(), u(24));
                self.eq(Cl::Meta, "is_large_index", x.is_large_index(), val[28] & 1 != 0);
                if let Some(p) = attr_pos {
                    self.pos_eq("index root position", x.position(), Some(p + *voff as u64));
                }
            }
            T_VOLINFO => {
                let x = if m.off % 16 == 0 { a.resident_structured_value::<NtfsVolumeInformation>()? } else { a.structured_value::<_, NtfsVolumeInformation>(&mut self.dev)? };
                self.eq(Cl::Meta, "volume version", (x.major_version(), x.minor_version()), vol.vol_version);
                self.eq(Cl::Meta, "volume flags", vol_flags(x.flags()), vol.vol_flags & 0xc03f);
            }
            T_VOLNAME => {
                let x = if m.off % 16 == 0 { a.resident_structured_value::<NtfsVolumeName>()? } else { a.structured_value::<_, NtfsVolumeName>(&mut self.dev)? };
                self.eq(Cl::Meta, "volume name", Some(u16v(x.name())), vol.label.clone());
                self.eq(Cl::Meta, "volume name length", x.name_length(), val.len());
            }
            _ => {}
        }
        Ok(())
    }

    fn meta(&mut self, st: &Step) -> R<bool> {
        let Some((f, _, rec)) = self.file_slot(st.s) else { return Ok(false) };
        let vol = self.vol.clone();
        let fm = vol.files.iter().position(|m| m.recs.iter().any(|r| r.0 == rec));
        let want: Vec<usize> = match fm {
            Some(fm) => {
                let m = &vol.files[fm];
                let mut v: Vec<usize> = (0..m.attrs.len()).filter(|n| m.attrs[*n].rec == rec).collect();
                v.sort_by_key(|n| m.attrs[*n].off);
                v
            }
            None => vec![],
        };
        let mut n = 0usize;
        for a in f.attributes_raw() {
            let a = match a {
                Ok(a) => a,
                Err(_) if self.lost_attr(rec, n) => return Ok(true),
                Err(e) => {
                    self.fail_err("attributes_raw", &e);
                    break;
                }
            };
            if n as u64 > self.opts.max_items {
                self.fail(Cl::Err, format!("{}attributes_raw() of record {rec} does not end", self.ctx));
                break;
            }
            match (fm, want.get(n)) {
                (Some(fm), Some(w)) if !self.opts.relaxed => {
                    let r = self.check_attr(&a, fm, *w);
                    match r {
                        Err(e) if self.hurt.as_ref().map(|h| h.file == fm && h.attr == *w).unwrap_or(false) => self.log("attr", &err_name(&e)),
                        r => r?,
                    }
                }
                _ => {
                    self.touch_attr(&a)?;
                    if !self.opts.relaxed {
                        self.ok(Cl::Attr, "attributes_raw yields an attribute that is not in the record", false);
                    }
                }
            }
            n += 1;
        }
        self.eq(Cl::Attr, "number of raw attributes", n, want.len());
        Ok(true)
    }

    /// Calls everything an attribute offers without expecting particular values. Errors are
    /// accepted unless they are I/O errors.
    fn touch_attr(&mut self, a: &NtfsAttribute<'static, 'static>) -> R<()> {
        let v = (a.attribute_length(), attr_flags(a.flags()), a.instance(), a.is_resident(), a.name_length(), a.value_length(), pv(a.position()));
        self.log("attr", &v);
        let n = a.name().map(u16v).ok();
        self.log("name", &n);
        let ty = ty_num(a.ty());
        self.log("ty", &ty);
        self.log("std", &a.resident_structured_value::<NtfsStandardInformation>().ok());
        let n = a.structured_value::<_, NtfsFileName>(&mut self.dev).ok().map(|n| name_view(&n));
        self.log("fname", &n);
        self.log("oid", &a.resident_structured_value::<NtfsObjectId>().ok());
        self.log("vi", &a.resident_structured_value::<NtfsVolumeInformation>().ok());
        self.log("vn", &a.resident_structured_value::<NtfsVolumeName>().ok().map(|n| u16v(n.name())));
        if let Ok(r) = a.resident_structured_value::<NtfsIndexRoot>() {
            let v = (r.index_record_size(), r.index_data_size(), r.index_allocated_size(), r.is_large_index());
            self.log("root", &v);
            if let Ok(es) = r.entries::<NtfsFileNameIndex>() {
                let mut n = 0;
                for e in es {
                    n += 1;
                    if n > self.opts.max_items {
                        self.fail(Cl::Err, format!("{}index root entries do not end", self.ctx));
                        break;
                    }
                    let Ok(e) = e else { break };
                    let v = NtfsFileNameIndex::view(&e).ok();
                    let s = e.subnode_vcn().map(|v| v.map(|v| v.value()).ok());
                    self.log("e", &(v, s, e.index_entry_length(), e.key_length(), ent_flags(e.flags())));
                }
            }
            if let Ok(es) = r.entries::<DataIndex>() {
                let mut n = 0;
                for e in es {
                    n += 1;
                    if n > self.opts.max_items {
                        break;
                    }
                    let Ok(e) = e else { break };
                    let _ = (DataIndex::view(&e).ok(), e.subnode_vcn().is_some());
                }
            }
        }
        match a.value(&mut self.dev) {
            Err(e) => {
                if io_kind(&e).is_some() {
                    return Err(e);
                }
                self.log("value", &err_name(&e));
            }
            Ok(v) => {
                self.log("value", &(v.len(), pv(v.data_position())));
                match v {
                    NtfsAttributeValue::Resident(v) => self.log("data", &v.data().to_vec()),
                    NtfsAttributeValue::NonResident(v) => {
                        let mut n = 0;
                        for r in v.data_runs() {
                            n += 1;
                            if n > self.opts.max_items {
                                self.fail(Cl::Err, format!("{}data runs do not end", self.ctx));
                                break;
                            }
                            let Ok(r) = r else { break };
                            let x = (r.allocated_size(), pv(r.data_position()));
                            self.log("run", &x);
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    // ---- attributes ----------------------------------------------------------------------------

    fn attrs(&mut self, st: &Step) -> R<bool> {
        let Some((f, Some(m), _)) = self.file_slot(st.s) else { return Ok(false) };
        let n = self.vol.files[m].logical.len();
        self.set(st.d, Slot::Attrs(f.attributes(), m, vec![false; n], false));
        Ok(true)
    }

    /// Finds the logical attribute an item of `attributes()` stands for, by what it says itself.
    fn match_item(&mut self, a: &NtfsAttribute<'static, 'static>, m: usize, seen: &[bool]) -> Option<usize> {
        let vol = self.vol.clone();
        let f = &vol.files[m];
        let ty = ty_num(a.ty());
        let name = a.name().map(u16v).unwrap_or_default();
        let len = a.value_length();
        let pos = pv(a.position());
        let res = a.is_resident();
        // The value of a resident attribute is in memory already.
        let val = match res.then(|| a.value(&mut self.dev)) {
            Some(Ok(NtfsAttributeValue::Resident(v))) => Some(v.data().to_vec()),
            _ => None,
        };
        let mut best = None;
        for (n, l) in f.logical.iter().enumerate() {
            if l.ty as i64 != ty || l.name != name || Some(n) == f.al.as_ref().map(|a| a.logical) {
                continue;
            }
            let first = &f.attrs[l.parts[0]];
            let p = vol.attr_pos(first);
            let mut score = 1;
            if l.size() == len && l.is_res() == res {
                score += 2;
            }
            // A record in several pieces has no position to tell its attributes by.
            if if p.is_some() { p == pos } else { val.is_some() && matches!(&l.content, Content::Res(b) if Some(b) == val.as_ref()) } {
                score += 4;
            }
            if !seen[n] {
                score += 8;
            }
            if best.map(|(s, _)| score > s).unwrap_or(true) {
                best = Some((score, n));
            }
        }
        best.map(|b| b.1)
    }

    fn attr_next(&mut self, st: &Step, max: usize) -> R<bool> {
        let Slot::Attrs(..) = &self.slots[st.s as usize % N_SLOTS] else { return Ok(false) };
        let Slot::Attrs(mut it, m, mut seen, mut ended) = self.take(st.s) else { unreachable!() };
        let vol = self.vol.clone();
        let al = vol.files[m].al.is_some();
        self.allow = if al { self.al_full_cost(m) * 2 } else { 0 };
        let mut res = Ok(true);
        let mut n = 0u64;
        loop {
            let x = if st.a & 1 == 1 {
                let mut att = it.attach(&mut self.dev);
                let x = att.next();
                it = att.detach();
                x
            } else {
                it.next(&mut self.dev)
            };
            match x {
                None => {
                    if !self.opts.relaxed {
                        let missing: Vec<_> = vol.files[m]
                            .logical
                            .iter()
                            .enumerate()
                            .filter(|(n, _)| !seen[*n] && Some(*n) != vol.files[m].al.as_ref().map(|a| a.logical))
                            .map(|(_, l)| (l.ty, String::from_utf16_lossy(&l.name)))
                            .collect();
                        self.eq(Cl::Attr, "attributes() ended; missing attributes", missing, vec![]);
                    }
                    self.log("attr", &"end");
                    ended = true;
                    break;
                }
                Some(Err(e)) => {
                    res = Err(e);
                    break;
                }
                Some(Ok(item)) => {
                    let item = self.arena.put(item);
                    if ended {
                        self.ok(Cl::Attr, "attributes() yields items after its end", false);
                    }
                    match item.to_attribute() {
                        Err(e) => {
                            self.fail_err("to_attribute", &e);
                        }
                        Ok(a) => {
                            if self.opts.relaxed {
                                if let Err(e) = self.touch_attr(&a) {
                                    res = Err(e);
                                    break;
                                }
                            } else if let Some(l) = self.nameless(&a, m) {
                                seen[l] = true;
                            } else {
                                match self.match_item(&a, m, &seen) {
                                    None => {
                                        let d = (ty_num(a.ty()), a.name().map(u16v).ok());
                                        self.eq(Cl::Attr, "attributes() yields", Some(d), None);
                                    }
                                    Some(l) => {
                                        if seen[l] {
                                            let d = (vol.files[m].logical[l].ty, vol.files[m].logical[l].name.clone());
                                            self.eq(Cl::Attr, "attributes() yields again", Some(d), None);
                                        }
                                        seen[l] = true;
                                        let first = vol.files[m].logical[l].parts[0];
                                        // A failure in here does not concern the iterator itself.
                                        let r = self.check_item(&a, m, l, first);
                                        if let Err(e) = r {
                                            // The item has been delivered; only its value failed.
                                            // Where that is what is damaged, the others are to follow.
                                            if self.hurt.as_ref().map(|h| h.file == m && h.logical == l).unwrap_or(false) {
                                                self.log("value", &err_name(&e));
                                            } else {
                                                res = Err(e);
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    n += 1;
                    if n > self.opts.max_items {
                        self.fail(Cl::Err, format!("{}attributes() does not end", self.ctx));
                        break;
                    }
                }
            }
            if n as usize >= max {
                break;
            }
        }
        if self.opts.max_items > 1_000_000 && n > 1 {
            self.allow *= n;
        }
        self.set(st.s, Slot::Attrs(it, m, seen, ended));
        res
    }

    fn check_item(&mut self, a: &NtfsAttribute<'static, 'static>, m: usize, l: usize, first: usize) -> R<()> {
        let vol = self.vol.clone();
        let f = &vol.files[m];
        let lg = &f.logical[l];
        let at = &f.attrs[first];
        self.eq(Cl::Attr, "item value_length", a.value_length(), lg.size());
        self.eq(Cl::Attr, "item is_resident", a.is_resident(), lg.is_res());
        self.eq(Cl::Meta, "item instance", a.instance(), at.instance);
        self.eq(Cl::Meta, "item flags", attr_flags(a.flags()), at.flags & 0xc001);
        if vol.rec_contiguous(at.rec) {
            self.pos_eq("item position", a.position(), vol.attr_pos(at));
        }
        let v = a.value(&mut self.dev)?;
        self.eq(Cl::Attr, "item value len", v.len(), lg.size());
        if let (NtfsAttributeValue::Resident(v), false) = (&v, self.changed(m, l)) {
            let w = self.content(m, l, 0, u64::MAX);
            self.eq(Cl::Attr, "item resident value", v.data().to_vec(), w);
        }
        Ok(())
    }

    fn al_open(&mut self, st: &Step) -> R<bool> {
        let Some((f, Some(m), _)) = self.file_slot(st.s) else { return Ok(false) };
        let vol = self.vol.clone();
        if vol.files[m].al.is_none() && !self.opts.relaxed {
            return Ok(false);
        }
        for a in f.attributes_raw().take(5000) {
            let Ok(a) = a else { break };
            if ty_num(a.ty()) == T_AL as i64 {
                let l = a.structured_value::<_, NtfsAttributeList>(&mut self.dev)?;
                if let Some(al) = &vol.files[m].al {
                    let part = &vol.files[m].attrs[vol.files[m].logical[al.logical].parts[0]];
                    match (vol.attr_pos(part), &part.body) {
                        (Some(p), Body::Res { voff, .. }) => self.pos_eq("attribute list position", l.position(), Some(p + *voff as u64)),
                        (_, Body::Non { runs, .. }) => {
                            if let Some(r) = runs.first() {
                                self.pos_eq("attribute list position", l.position(), r.lcn.map(|l| l * vol.cs));
                            }
                        }
                        _ => {}
                    }
                }
                self.set(st.d, Slot::Al(l.entries(), m, 0));
                return Ok(true);
            }
        }
        if !self.opts.relaxed && !vol.files[m].al.as_ref().map(|a| self.hidden(m, a.logical)).unwrap_or(false) {
            self.ok(Cl::Attr, "attribute list found in the raw attributes", false);
        }
        Ok(true)
    }

    fn al_next(&mut self, ntfs: &'static Ntfs, st: &Step, max: u64) -> R<bool> {
        let Slot::Al(..) = &self.slots[st.s as usize % N_SLOTS] else { return Ok(false) };
        let Slot::Al(mut it, m, mut next) = self.take(st.s) else { unreachable!() };
        let vol = self.vol.clone();
        let al = vol.files[m].al.clone();
        let total = al.as_ref().map(|a| a.entries.len()).unwrap_or(0);
        let mut n = 0;
        let mut res = Ok(true);
        self.allow = self.al_full_cost(m) + max.min(total as u64) * self.load_cost();
        loop {
            match it.next(&mut self.dev) {
                None => {
                    self.eq(Cl::Attr, "attribute list entries", next, total);
                    break;
                }
                Some(Err(e)) => {
                    res = Err(e);
                    break;
                }
                Some(Ok(e)) => {
                    let v = (
                        ty_num(e.ty()),
                        u16v(e.name()),
                        e.name_length(),
                        e.lowest_vcn().value(),
                        ref_view(e.base_file_reference()),
                        e.instance(),
                        e.list_entry_length(),
                    );
                    match al.as_ref().and_then(|a| a.entries.get(next)) {
                        None => {
                            self.eq(Cl::Attr, "attribute list yields an entry behind its end", Some(v), None);
                        }
                        Some(w) => {
                            let want = (w.ty as i64, w.name.clone(), w.name.len() * 2, w.lowest as i64, w.rec, w.instance, w.len);
                            self.eq(Cl::Attr, "attribute list entry", v, want);
                            let lg = al.as_ref().unwrap().logical;
                            let fm = &vol.files[m];
                            let p = match &fm.logical[lg].content {
                                Content::Stream(s) => Some(s.pos(vol.cs, w.off)),
                                Content::Res(_) => {
                                    let a = &fm.attrs[fm.logical[lg].parts[0]];
                                    match (&a.body, vol.attr_pos(a)) {
                                        (Body::Res { voff, .. }, Some(p)) => Some(Some(p + *voff as u64 + w.off)),
                                        _ => None,
                                    }
                                }
                            };
                            if let Some(p) = p {
                                // At a run boundary the end of the previous run names the same place.
                                let alt = match &fm.logical[lg].content {
                                    Content::Stream(s) if w.off > 0 => s.pos(vol.cs, w.off - 1).map(|x| x + 1),
                                    _ => None,
                                };
                                if pv(e.position()) != p && alt.is_some() && pv(e.position()) == alt {
                                    self.compared += 1;
                                } else {
                                    self.pos_eq("attribute list entry position", e.position(), p);
                                }
                            }
                        }
                    }
                    if st.a & 1 == 1 {
                        let r = e.to_file(ntfs, &mut self.dev);
                        match r {
                            Err(e) => {
                                // The entry itself has been delivered.
                                next += 1;
                                res = Err(e);
                                break;
                            }
                            Ok(f) => {
                                let f = self.put_file(f);
                                if let Some(w) = al.as_ref().and_then(|a| a.entries.get(next)) {
                                    self.check_file(f, w.rec.0);
                                    if f.file_record_number() == e.base_file_reference().file_record_number() {
                                        let at = w.attr;
                                        match e.to_attribute(f) {
                                            Ok(a) if !self.opts.relaxed => {
                                                if let Err(e) = self.check_attr(&a, m, at) {
                                                    next += 1;
                                                    res = Err(e);
                                                    break;
                                                }
                                            }
                                            Ok(a) => {
                                                let _ = self.touch_attr(&a);
                                            }
                                            Err(_) if self.hurt.as_ref().map(|h| h.hides(&vol, m, at)).unwrap_or(false) => {}
                                            Err(e) => self.fail_err("to_attribute", &e),
                                        }
                                    }
                                } else if let Ok(a) = e.to_attribute(f) {
                                    let _ = self.touch_attr(&a);
                                }
                            }
                        }
                    }
                    next += 1;
                    n += 1;
                    if n > self.opts.max_items {
                        self.fail(Cl::Err, format!("{}attribute list does not end", self.ctx));
                        break;
                    }
                    if n >= max {
                        break;
                    }
                }
            }
        }
        self.set(st.s, Slot::Al(it, m, next));
        res
    }

    // ---- values --------------------------------------------------------------------------------

    /// a: 0 enumerate, 1 `data()`, 2 raw attribute; b: logical attribute; c: case variation seed
    fn stream(&mut self, st: &Step) -> R<bool> {
        let Some((f, Some(m), _)) = self.file_slot(st.s) else { return Ok(false) };
        let vol = self.vol.clone();
        let fm = &vol.files[m];
        let b = st.b as usize;
        let Some(lg) = fm.logical.get(b) else { return Ok(false) };
        let is_al = Some(b) == fm.al.as_ref().map(|a| a.logical);
        if !is_al && fm.logical.iter().enumerate().any(|(n, l)| n != b && l.ty == lg.ty && l.name == lg.name) && st.a != 2 {
            return Ok(false);
        }
        self.allow = self.al_full_cost(m) + self.al_entries_cost(m, 3);
        let v = if st.a == 2 || is_al {
            if lg.parts.len() != 1 || fm.attrs[lg.parts[0]].rec != fm.rec {
                return Ok(false);
            }
            let want = &fm.attrs[lg.parts[0]];
            let mut found = None;
            for a in f.attributes_raw().take(5000) {
                let Ok(a) = a else { break };
                if a.instance() == want.instance && ty_num(a.ty()) == want.ty as i64 {
                    found = Some(a);
                    break;
                }
            }
            match found {
                None => {
                    if !self.hidden(m, b) {
                        self.ok(Cl::Attr, "attribute found in the raw attributes", false);
                    }
                    return Ok(true);
                }
                Some(a) => a.value(&mut self.dev)?,
            }
        } else {
            let item = if st.a == 1 && lg.ty == T_DATA {
                let mut r = Rng::new(st.c);
                let name = if st.c == 0 { lg.name.clone() } else { upcase(vol.spec.upcase).vary(&mut r, &lg.name) };
                let name = match String::from_utf16(&name) {
                    Ok(n) => n,
                    Err(_) => match String::from_utf16(&lg.name) {
                        Ok(n) => n,
                        Err(_) => return Ok(false),
                    },
                };
                if !name.is_empty() && !self.has_upcase {
                    return Ok(false);
                }
                // Another stream may have the same name under this table: then any of them will do.
                let up = upcase(vol.spec.upcase);
                let amb = fm.logical.iter().filter(|l| l.ty == T_DATA && up.cmp(&l.name, &lg.name) == Ordering::Equal).count() > 1;
                let x = f.data(&mut self.dev, &name);
                match x {
                    None => {
                        self.ok(Cl::Attr, "data() finds the stream", false);
                        return Ok(true);
                    }
                    Some(Err(e)) => return Err(e),
                    Some(Ok(i)) => {
                        if amb {
                            return Ok(true);
                        }
                        i
                    }
                }
            } else {
                let mut it = f.attributes();
                let mut found = None;
                let mut n = 0;
                while let Some(x) = it.next(&mut self.dev) {
                    let x = x?;
                    n += 1;
                    if n > self.opts.max_items.min(100_000) {
                        self.fail(Cl::Err, format!("{}attributes() does not end", self.ctx));
                        break;
                    }
                    let hit = match x.to_attribute() {
                        Ok(a) => ty_num(a.ty()) == lg.ty as i64 && a.name().map(u16v).ok().as_ref() == Some(&lg.name),
                        Err(_) => false,
                    };
                    if hit {
                        found = Some(x);
                        break;
                    }
                }
                match found {
                    None => {
                        if !self.lost_name(m, lg.parts[0]) {
                            self.ok(Cl::Attr, "attributes() finds the stream", false);
                        }
                        return Ok(true);
                    }
                    Some(i) => i,
                }
            };
            let item = self.arena.put(item);
            let a = item.to_attribute()?;
            self.eq(Cl::Attr, "stream attribute name", a.name().map(u16v).ok(), Some(lg.name.clone()));
            self.eq(Cl::Data, "stream value_length", a.value_length(), lg.size());
            a.value(&mut self.dev)?
        };
        match &v {
            NtfsAttributeValue::Resident(_) => self.feats.insert("resident"),
            NtfsAttributeValue::NonResident(_) => self.feats.insert("non-resident"),
            NtfsAttributeValue::AttributeListNonResident(_) => self.feats.insert("attribute-list"),
        };
        let s = Box::new(ValS { v, file: m, log: b, pos: 0, exact: true });
        self.check_val(&s);
        self.set(st.d, Slot::Val(s));
        Ok(true)
    }

    fn check_bytes(&mut self, got: &[u8], want: Vec<u8>, at: u64) {
        self.compared += 1;
        if self.opts.log {
            let mut d = Digest::default();
            d.bytes(got);
            self.logs.push(format!("bytes@{at}+{}={:x}", got.len(), d.0));
        }
        if self.opts.relaxed {
            return;
        }
        if got != &want[..] {
            let n = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            let e = (n + 16).min(got.len());
            self.fail(
                Cl::Data,
                format!(
                    "{}data at stream offset {} (read of {} bytes at {at}): got {:02x?}, expected {:02x?} ({} bytes)",
                    self.ctx,
                    at + n as u64,
                    got.len(),
                    &got[n.min(got.len())..e],
                    &want[n.min(want.len())..(n + 16).min(want.len())],
                    want.len()
                ),
            );
        }
    }

    /// b: 0 read, 1 read_exact, 2 attached read, 3 attached read_exact
    fn read(&mut self, st: &Step) -> R<bool> {
        match &self.slots[st.s as usize % N_SLOTS] {
            Slot::Val(_) => {
                let Slot::Val(mut s) = self.take(st.s) else { unreachable!() };
                let r = self.read_val(&mut s, st.a.min(1 << 20) as usize, st.b);
                self.set(st.s, Slot::Val(s));
                r
            }
            Slot::Run(_) => {
                let Slot::Run(mut s) = self.take(st.s) else { unreachable!() };
                let r = self.read_run(&mut s, st.a.min(1 << 20) as usize);
                self.set(st.s, Slot::Run(s));
                r
            }
            _ => Ok(false),
        }
    }

    fn read_val(&mut self, s: &mut Box<ValS>, len: usize, kind: u64) -> R<bool> {
        let size = self.size(s.file, s.log);
        let left = size.saturating_sub(s.pos);
        let mut buf = vec![CANARY; len];
        let mut intr = 0;
        if kind == 1 || kind == 3 {
            let r = if kind == 1 {
                s.v.read_exact(&mut self.dev, &mut buf)
            } else {
                let mut att = s.v.clone().attach(&mut self.dev);
                let r = att.read_exact(&mut buf);
                s.v = att.detach();
                r.map_err(NtfsError::from)
            };
            let to = s.pos.saturating_add((len as u64).min(left));
            self.allow = self.stored(s.file, s.log, s.pos, (len as u64).min(left)) + self.move_cost(s.file, s.log, s.pos, to);
            match r {
                Ok(()) => {
                    if len as u64 > left {
                        self.ok(Cl::Data, "read_exact behind the end fails", false);
                        s.pos = s.v.stream_position();
                        return Ok(true);
                    }
                    if !self.opts.relaxed {
                        let w = self.content(s.file, s.log, s.pos, len as u64);
                        self.check_bytes(&buf, w, s.pos);
                    }
                    s.pos += len as u64;
                    if len > 0 {
                        s.exact = false;
                    }
                }
                Err(e) => {
                    // Up to `len` bytes may have been consumed.
                    let p = s.v.stream_position();
                    if !self.opts.relaxed && !(p >= s.pos && p <= to) {
                        self.eq(Cl::Cursor, "stream_position after a failed read_exact", p, to);
                    }
                    if p != s.pos {
                        s.exact = false;
                    }
                    let n = p.wrapping_sub(s.pos).min(len as u64) as usize;
                    if !self.opts.relaxed && n > 0 {
                        let w = self.content(s.file, s.log, s.pos, n as u64);
                        self.check_bytes(&buf[..n.min(w.len())], w, s.pos);
                    }
                    s.pos = p;
                    if io_kind(&e) == Some(ErrorKind::UnexpectedEof) && len as u64 > left && p == to {
                        self.log("read_exact", &"UnexpectedEof");
                        self.check_val(s);
                        return Ok(true);
                    }
                    self.check_val(s);
                    return Err(e);
                }
            }
            self.check_val(s);
            return Ok(true);
        }
        loop {
            let r = if kind == 2 {
                let mut att = s.v.clone().attach(&mut self.dev);
                let r = att.read(&mut buf);
                s.v = att.detach();
                r.map_err(NtfsError::from)
            } else {
                s.v.read(&mut self.dev, &mut buf)
            };
            match r {
                Err(e) => {
                    if self.opts.relaxed {
                        s.pos = s.v.stream_position();
                    }
                    self.check_val(s);
                    if io_kind(&e) == Some(ErrorKind::Interrupted) && intr < 1000 {
                        intr += 1;
                        continue;
                    }
                    return Err(e);
                }
                Ok(n) => {
                    self.log("n", &(if self.opts.relaxed { n } else { 0 }));
                    if !self.opts.relaxed {
                        let max = (len as u64).min(left);
                        if n as u64 > max || (n == 0 && max > 0) {
                            self.eq(Cl::Data, &format!("read of {len} bytes at {} of {size}", s.pos), n as u64, max);
                            s.pos = s.v.stream_position();
                            return Ok(true);
                        }
                        let w = self.content(s.file, s.log, s.pos, n as u64);
                        self.check_bytes(&buf[..n], w, s.pos);
                        if let Some(k) = buf[n..].iter().position(|c| *c != CANARY) {
                            self.fail(Cl::Data, format!("{}read returned {n} bytes but changed the buffer at {}", self.ctx, n + k));
                        }
                    }
                    self.allow = self.stored(s.file, s.log, s.pos, n as u64) + self.move_cost(s.file, s.log, s.pos, s.pos.saturating_add(n as u64));
                    s.pos = if self.opts.relaxed { s.v.stream_position() } else { s.pos + n as u64 };
                    if n > 0 {
                        s.exact = false;
                    }
                    break;
                }
            }
        }
        self.check_val(s);
        Ok(true)
    }

    /// a: cap in bytes; b: seed of the buffer sizes; c: largest buffer
    fn read_all(&mut self, st: &Step) -> R<bool> {
        let Slot::Val(_) = &self.slots[st.s as usize % N_SLOTS] else { return Ok(false) };
        let Slot::Val(mut s) = self.take(st.s) else { unreachable!() };
        let mut r = Rng::new(st.b);
        let mut done = 0u64;
        let mut allow = 0u64;
        let mut res = Ok(true);
        let mut calls = 0u64;
        while done < st.a {
            let len = 1 + r.skewed(st.c.clamp(1, 1 << 20) - 1);
            let p = s.pos;
            let kind = if r.chance(1, 8) { 2 } else { 0 };
            match self.read_val(&mut s, len as usize, kind) {
                Ok(_) => {}
                Err(e) => {
                    res = Err(e);
                    break;
                }
            }
            allow += self.allow;
            if !self.bad.is_empty() {
                break;
            }
            calls += 1;
            if s.pos == p || calls > 20_000 {
                break;
            }
            done += s.pos.wrapping_sub(p);
        }
        self.allow = allow;
        self.set(st.s, Slot::Val(s));
        res
    }

    fn read_run(&mut self, s: &mut Box<RunS>, len: usize) -> R<bool> {
        let total = s.run.clusters * self.vol.cs;
        let left = total.saturating_sub(s.pos);
        let mut buf = vec![CANARY; len];
        let mut intr = 0;
        loop {
            match s.r.read(&mut self.dev, &mut buf) {
                Err(e) => {
                    self.check_run(s);
                    if io_kind(&e) == Some(ErrorKind::Interrupted) && intr < 1000 {
                        intr += 1;
                        continue;
                    }
                    return Err(e);
                }
                Ok(n) => {
                    let max = (len as u64).min(left);
                    self.log("n", &(if self.opts.relaxed { n } else { 0 }));
                    if !self.opts.relaxed {
                        if n as u64 > max || (n == 0 && max > 0) {
                            self.eq(Cl::Data, &format!("data run read of {len} bytes at {} of {total}", s.pos), n as u64, max);
                            s.pos = s.r.stream_position();
                            return Ok(true);
                        }
                        let mut w = vec![0u8; n];
                        if let (Some(l), true) = (s.run.lcn, n > 0) {
                            let at = l * self.vol.cs + s.pos;
                            self.vol.img.read(at, &mut w);
                            for p in self.hurt.iter().flat_map(|h| &h.bytes) {
                                if *p >= at && *p - at < n as u64 {
                                    w[(*p - at) as usize] = buf[(*p - at) as usize];
                                }
                            }
                        }
                        self.check_bytes(&buf[..n], w, s.pos);
                        if let Some(k) = buf[n..].iter().position(|c| *c != CANARY) {
                            self.fail(Cl::Data, format!("{}run read returned {n} bytes but changed the buffer at {}", self.ctx, n + k));
                        }
                        s.pos += n as u64;
                    } else {
                        s.pos = s.r.stream_position();
                    }
                    self.allow = if s.run.lcn.is_some() { n as u64 } else { 0 };
                    break;
                }
            }
        }
        self.check_run(s);
        Ok(true)
    }

    fn check_run(&mut self, s: &RunS) {
        let total = s.run.clusters * self.vol.cs;
        self.eq(Cl::Cursor, "run stream_position", s.r.stream_position(), s.pos);
        self.eq(Cl::Data, "run allocated_size", s.r.allocated_size(), total);
        let p = s.run.lcn.map(|l| l * self.vol.cs);
        if s.pos < total || p.is_none() {
            self.pos_eq("run data_position", s.r.data_position(), p.map(|p| p + s.pos));
        } else if s.pos == total {
            if pv(s.r.data_position()).is_some() {
                self.pos_eq("run data_position", s.r.data_position(), p.map(|p| p + s.pos));
            }
        } else {
            self.pos_eq("run data_position", s.r.data_position(), None);
        }
    }

    /// a: 0 start, 1 current, 2 end; bit 4: attached; b: offset
    fn seek(&mut self, st: &Step) -> R<bool> {
        let (pos, len, is_run) = match &self.slots[st.s as usize % N_SLOTS] {
            Slot::Val(s) => (s.pos, self.size(s.file, s.log), false),
            Slot::Run(s) => (s.pos, s.run.clusters * self.vol.cs, true),
            _ => return Ok(false),
        };
        let off = st.b as i64;
        let (sf, want) = match st.a & 3 {
            0 => (SeekFrom::Start(st.b), Some(st.b)),
            1 => (SeekFrom::Current(off), pos.checked_add_signed(off)),
            _ => (SeekFrom::End(off), len.checked_add_signed(off)),
        };
        if is_run {
            let Slot::Run(mut s) = self.take(st.s) else { unreachable!() };
            let r = s.r.seek(&mut self.dev, sf);
            let r = self.seek_result(r, want);
            if let Ok(Some(p)) = r {
                s.pos = p;
            }
            if self.opts.relaxed {
                s.pos = s.r.stream_position();
            }
            self.check_run(&s);
            self.set(st.s, Slot::Run(s));
            return r.map(|_| true);
        }
        let Slot::Val(mut s) = self.take(st.s) else { unreachable!() };
        let r = if st.a & 4 != 0 {
            let mut att = s.v.clone().attach(&mut self.dev);
            let r = att.seek(sf);
            s.v = att.detach();
            r.map_err(NtfsError::from)
        } else {
            s.v.seek(&mut self.dev, sf)
        };
        let r = self.seek_result(r, want);
        if let Ok(Some(p)) = r {
            self.allow = self.move_cost(s.file, s.log, s.pos, p);
            let size = len;
            if p > size {
                self.allow += self.move_cost(s.file, s.log, 0, size);
            }
            if s.pos > size {
                self.allow += self.move_cost(s.file, s.log, 0, p);
            }
            if s.pos != p {
                s.exact = true;
            }
            s.pos = p;
        }
        if self.opts.relaxed {
            s.pos = s.v.stream_position();
        }
        self.check_val(&s);
        self.set(st.s, Slot::Val(s));
        r.map(|_| true)
    }

    fn seek_result(&mut self, r: R<u64>, want: Option<u64>) -> R<Option<u64>> {
        match r {
            Ok(p) => {
                self.eq(Cl::Cursor, "seek result", Some(p), want);
                Ok(Some(p))
            }
            Err(e) => {
                if want.is_none() {
                    self.eq(Cl::Cursor, "error of an impossible seek", io_kind(&e), Some(ErrorKind::InvalidInput));
                    return Ok(None);
                }
                Err(e)
            }
        }
    }

    fn clone_slot(&mut self, st: &Step) -> R<bool> {
        let n = match &self.slots[st.s as usize % N_SLOTS] {
            Slot::Val(s) => Slot::Val(Box::new(ValS { v: s.v.clone(), file: s.file, log: s.log, pos: s.pos, exact: s.exact })),
            Slot::Run(s) => Slot::Run(Box::new(RunS { r: s.r.clone(), run: s.run.clone(), pos: s.pos })),
            Slot::Runs(a, b, c, d) => Slot::Runs(a.clone(), *b, *c, *d),
            Slot::Attrs(a, b, c, d) => Slot::Attrs(a.clone(), *b, c.clone(), *d),
            Slot::Al(a, b, c) => Slot::Al(a.clone(), *b, *c),
            Slot::Ents(a, b, c) => Slot::Ents(a.clone(), *b, *c),
            Slot::EntsD(a, b, c) => Slot::EntsD(a.clone(), *b, *c),
            Slot::Recs(a, b, c) => Slot::Recs(a.clone(), *b, *c),
            Slot::File(f, m, r) => {
                let (m, r) = (*m, *r);
                let f = (*f).clone();
                let f = self.arena.put(f);
                Slot::File(f, m, r)
            }
            Slot::Idx(x, i) => {
                let i = *i;
                let x = (*x).clone();
                Slot::Idx(self.arena.put(x), i)
            }
            Slot::IdxD(x, i) => {
                let i = *i;
                let x = (*x).clone();
                Slot::IdxD(self.arena.put(x), i)
            }
            _ => return Ok(false),
        };
        if let Slot::Val(s) = &n {
            self.check_val(s);
        }
        self.set(st.d, n);
        Ok(true)
    }

    /// Data runs of a physical attribute of the record in `s`; b: attribute number (by offset).
    fn runs(&mut self, st: &Step) -> R<bool> {
        let Some((f, _, rec)) = self.file_slot(st.s) else { return Ok(false) };
        let vol = self.vol.clone();
        let Some(fm) = vol.files.iter().position(|m| m.recs.iter().any(|r| r.0 == rec)) else { return Ok(false) };
        let mut v: Vec<usize> = (0..vol.files[fm].attrs.len()).filter(|n| vol.files[fm].attrs[*n].rec == rec).collect();
        v.sort_by_key(|n| vol.files[fm].attrs[*n].off);
        let Some(&want) = v.get(st.b as usize) else { return Ok(false) };
        if !matches!(vol.files[fm].attrs[want].body, Body::Non { .. }) {
            return Ok(false);
        }
        let Some(Ok(a)) = f.attributes_raw().nth(st.b as usize) else {
            if self.hurt.as_ref().map(|h| h.hides(&vol, fm, want)).unwrap_or(false) {
                return Ok(true);
            }
            self.ok(Cl::Attr, "attribute found in the raw attributes", false);
            return Ok(true);
        };
        match a.value(&mut self.dev)? {
            NtfsAttributeValue::NonResident(v) => {
                let it = v.data_runs();
                self.set(st.d, Slot::Runs(it, fm, want, 0));
            }
            _ => {
                self.ok(Cl::Attr, "value of a non-resident raw attribute is non-resident", false);
            }
        }
        Ok(true)
    }

    fn run_next(&mut self, st: &Step) -> R<bool> {
        let Slot::Runs(..) = &self.slots[st.s as usize % N_SLOTS] else { return Ok(false) };
        let Slot::Runs(mut it, fm, at, mut n) = self.take(st.s) else { unreachable!() };
        let vol = self.vol.clone();
        let Body::Non { runs, roff, .. } = &vol.files[fm].attrs[at].body else { return Ok(false) };
        let _ = roff;
        let mut res = Ok(true);
        match it.next() {
            None => {
                self.eq(Cl::Data, "data runs end after", n, runs.len());
            }
            Some(Err(e)) => res = Err(e),
            Some(Ok(r)) => match runs.get(n) {
                None => {
                    self.eq(Cl::Data, "data run behind the last one", Some(r.allocated_size()), None);
                }
                Some(run) => {
                    let s = Box::new(RunS { r, run: run.clone(), pos: 0 });
                    self.check_run(&s);
                    n += 1;
                    if st.d != st.s {
                        self.set(st.d, Slot::Run(s));
                    }
                }
            },
        }
        self.set(st.s, Slot::Runs(it, fm, at, n));
        res
    }

    // ---- indexes -------------------------------------------------------------------------------

    /// The (root, allocation) items of an index, found by enumerating the attributes.
    #[allow(clippy::type_complexity)]
    fn idx_items(&mut self, f: &'static NtfsFile<'static>, name: &[u16]) -> R<(Option<NtfsAttributeItem<'static, 'static>>, Option<NtfsAttributeItem<'static, 'static>>)> {
        let mut root = None;
        let mut alloc = None;
        let mut it = f.attributes();
        let mut n = 0;
        while let Some(x) = it.next(&mut self.dev) {
            let x = x?;
            n += 1;
            if n > self.opts.max_items.min(100_000) {
                self.fail(Cl::Err, format!("{}attributes() does not end", self.ctx));
                break;
            }
            let (ty, nm) = match x.to_attribute() {
                Ok(a) => (ty_num(a.ty()), a.name().map(u16v).unwrap_or_default()),
                Err(_) => continue,
            };
            if nm != name {
                continue;
            }
            if ty == T_ROOT as i64 {
                root = Some(x);
            } else if ty == T_ALLOC as i64 {
                alloc = Some(x);
            }
        }
        Ok((root, alloc))
    }

    /// a: 0 directory_index(), 1 built from its attributes; b: index number
    fn dir(&mut self, st: &Step) -> R<bool> {
        let Some((f, Some(m), _)) = self.file_slot(st.s) else { return Ok(false) };
        let vol = self.vol.clone();
        let b = st.b as usize;
        if b >= vol.idxs.len() || vol.idx_file[b] != m {
            if vol.files[m].flags & 2 == 0 && st.a == 0 && !self.opts.relaxed {
                // Not a directory: must be refused.
                match f.directory_index(&mut self.dev) {
                    Err(NtfsError::NotADirectory { position }) => {
                        if let Some((_, _, rec)) = self.file_slot(st.s) {
                            let want = vol.rec_pos(rec);
                            self.pos_eq("position of a record that is no directory", position, want);
                        }
                    }
                    Err(e) => return Err(e),
                    Ok(_) => {
                        self.ok(Cl::Attr, "directory_index() of a file fails", false);
                    }
                }
                return Ok(true);
            }
            return Ok(false);
        }
        self.allow = self.al_full_cost(m) * 2;
        let ix = &vol.idxs[b];
        if !ix.custom && st.a == 0 {
            let x = f.directory_index(&mut self.dev)?;
            let x = self.arena.put(x);
            self.set(st.d, Slot::Idx(x, b));
            return Ok(true);
        }
        let (root, alloc) = self.idx_items(f, &ix.name)?;
        let Some(root) = root else {
            if !self.lost_name(m, vol.files[m].logical[vol.idxs[b].root_l].parts[0]) {
                self.ok(Cl::Attr, "index root found", false);
            }
            return Ok(true);
        };
        if let (Some(l), true) = (ix.alloc_l, alloc.is_none()) {
            if self.lost_name(m, vol.files[m].logical[l].parts[0]) {
                return Ok(true);
            }
        }
        if ix.alloc_l.is_some() {
            self.ok(Cl::Attr, "index allocation found", alloc.is_some());
        }
        if ix.custom {
            let x = NtfsIndex::<DataIndex>::new(root, alloc)?;
            let x = self.arena.put(x);
            self.set(st.d, Slot::IdxD(x, b));
        } else {
            let x = NtfsIndex::<NtfsFileNameIndex>::new(root, alloc)?;
            let x = self.arena.put(x);
            self.set(st.d, Slot::Idx(x, b));
        }
        Ok(true)
    }

    fn entries(&mut self, st: &Step) -> R<bool> {
        match &self.slots[st.s as usize % N_SLOTS] {
            Slot::Idx(x, b) => {
                let (x, b) = (*x, *b);
                self.set(st.d, Slot::Ents(x.entries(), b, 0));
            }
            Slot::IdxD(x, b) => {
                let (x, b) = (*x, *b);
                self.set(st.d, Slot::EntsD(x.entries(), b, 0));
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    /// Device position of a byte of a node's block.
    fn node_pos(&self, idx: usize, node: usize, off: u32) -> Option<u64> {
        let m = &self.vol.idxs[idx];
        match m.nodes[node].slot {
            None => {
                let f = &self.vol.files[self.vol.idx_file[idx]];
                let a = &f.attrs[f.logical[m.root_l].parts[0]];
                let Body::Res { voff, .. } = &a.body else { return None };
                self.vol.attr_pos(a).map(|p| p + *voff as u64 + off as u64)
            }
            Some(slot) => {
                let f = &self.vol.files[self.vol.idx_file[idx]];
                let Content::Stream(s) = &f.logical[m.alloc_l?].content else { return None };
                let o = slot * m.rec_size as u64;
                if !s.contiguous(self.vol.cs, o, m.rec_size as u64) {
                    return None;
                }
                s.pos(self.vol.cs, o).map(|p| p + off as u64)
            }
        }
    }

    fn check_entry<E: Kind>(&mut self, e: &NtfsIndexEntry<E>, idx: usize, k: usize, cl: Cl) {
        let vol = self.vol.clone();
        let m = &vol.idxs[idx];
        let v = E::view(e);
        match v {
            Err(_) if self.hurt.as_ref().map(|h| h.kind == HK::KeyLen && h.idx == idx && h.ent == k).unwrap_or(false) => {}
            Err(er) => self.fail_err("index entry", &er),
            Ok(v) => {
                let Some(w) = m.entries.get(k) else {
                    self.log("entry", &v);
                    return;
                };
                self.eq(cl, "index entry", v, E::want(w));
                self.eq(cl, "key_length", e.key_length() as usize, w.key_bytes().len());
                if !self.opts.relaxed {
                    if let Some(p) = self.node_pos(idx, w.node, w.off) {
                        self.pos_eq("index entry position", e.position(), Some(p));
                    }
                    let child = m.nodes[w.node].ents.iter().find(|x| x.0 == Some(k)).and_then(|x| x.1);
                    let want = child.and_then(|c| m.nodes[c].slot).map(|s| (s * m.rec_size as u64 / m.unit) as i64);
                    let got = match e.subnode_vcn() {
                        None => None,
                        Some(Ok(v)) => Some(v.value()),
                        Some(Err(_)) => Some(-1),
                    };
                    if !self.hurt.as_ref().map(|h| h.kind == HK::Vcn && h.idx == idx && h.ent == k).unwrap_or(false) {
                        self.eq(cl, "subnode_vcn", got, want);
                    }
                    self.eq(cl, "entry flags", ent_flags(e.flags()) & 3, want.is_some() as u8);
                }
            }
        }
        let _ = (e.index_entry_length(), e.subnode_vcn().is_some());
    }

    fn ent_next(&mut self, ntfs: &'static Ntfs, st: &Step, max: u64) -> R<bool> {
        match &self.slots[st.s as usize % N_SLOTS] {
            Slot::Ents(..) => {
                let Slot::Ents(mut it, b, mut n) = self.take(st.s) else { unreachable!() };
                let before = self.bad.len();
                let r = self.ent_next_in(ntfs, st, &mut it, b, &mut n, max);
                self.set(st.s, Slot::Ents(it, b, n));
                if self.vol.files[self.vol.idx_file[b]].idx.len() > 1 {
                    // A file with several indexes: these may be the entries of another one.
                    for k in before..self.bad.len() {
                        let m = self.bad[k].1.clone();
                        self.fail(Cl::Attr, m);
                    }
                }
                r
            }
            Slot::EntsD(..) => {
                let Slot::EntsD(mut it, b, mut n) = self.take(st.s) else { unreachable!() };
                let r = self.ent_next_in(ntfs, st, &mut it, b, &mut n, max);
                self.set(st.s, Slot::EntsD(it, b, n));
                r
            }
            _ => Ok(false),
        }
    }

    fn ent_next_in<E: Kind>(
        &mut self,
        ntfs: &'static Ntfs,
        st: &Step,
        it: &mut NtfsIndexEntries<'static, 'static, 'static, E>,
        b: usize,
        n: &mut usize,
        max: u64,
    ) -> R<bool> {
        let vol = self.vol.clone();
        let m = &vol.idxs[b];
        let mut k = 0u64;
        // Nodes between the current and the next entries.
        let nodes = if max == 1 {
            // Nodes that have to be entered: count those whose first entry lies at or before n.
            self.nodes_before(b, *n + 1) - if *n > 0 { self.nodes_before(b, *n) } else { 0 }
        } else {
            m.nodes.len() as u64 - 1 - if *n > 0 { self.nodes_before(b, *n) } else { 0 }
        };
        let mut allow = self.idx_cost(b, nodes);
        let relaxed = self.opts.relaxed;
        loop {
            let dev = &mut self.dev;
            match it.next(dev) {
                None => {
                    self.eq(Cl::Enum, "index entries end after", *n, m.entries.len());
                    break;
                }
                Some(Err(e)) => {
                    self.allow = allow;
                    return Err(e);
                }
                Some(Ok(e)) => {
                    let pos = *n;
                    *n += 1;
                    k += 1;
                    if !relaxed && pos >= m.entries.len() {
                        let v = E::view(&e).unwrap_or_default();
                        self.eq(Cl::Enum, "index yields an entry behind its end", Some(v), None);
                        break;
                    }
                    self.check_entry(&e, b, pos, Cl::Enum);
                    if st.a & 1 == 1 && (relaxed || E::file_ref(&e).map(|r| r.0 < vol.n_records && vol.rec_state[r.0 as usize] == RecState::Used).unwrap_or(false)) {
                        allow += self.load_cost();
                        let fr = E::file_ref(&e);
                        if let (Some(r), Some(fr)) = (E::to_file(&e, ntfs, &mut self.dev), fr) {
                            match r {
                                Ok(f) => {
                                    if relaxed {
                                        let f = self.put_file(f);
                                        self.check_file(f, fr.0);
                                    } else {
                                        let f = self.put_file(f);
                                        self.check_file(f, fr.0);
                                    }
                                }
                                Err(e) => {
                                    if !relaxed {
                                        // The entry has been delivered; loading its file failed.
                                        self.allow = allow;
                                        return Err(e);
                                    }
                                }
                            }
                        }
                    }
                    if k > self.opts.max_items {
                        self.fail(Cl::Err, format!("{}index entries do not end", self.ctx));
                        break;
                    }
                    if k >= max {
                        break;
                    }
                }
            }
        }
        self.allow = allow;
        Ok(true)
    }

    /// Number of index records (nodes except the root) an in-order walk has to load before it can
    /// deliver `n` entries.
    fn nodes_before(&self, idx: usize, n: usize) -> u64 {
        let m = &self.vol.idxs[idx];
        fn walk(m: &IdxModel, node: usize, left: &mut usize, loaded: &mut u64) -> bool {
            for (k, c) in &m.nodes[node].ents {
                if let Some(c) = c {
                    *loaded += 1;
                    if walk(m, *c, left, loaded) {
                        return true;
                    }
                }
                if k.is_some() {
                    *left -= 1;
                    if *left == 0 {
                        return true;
                    }
                }
            }
            false
        }
        let mut left = n.max(1);
        let mut loaded = 0;
        walk(m, 0, &mut left, &mut loaded);
        loaded
    }

    fn finder(&mut self, st: &Step) -> R<bool> {
        match &self.slots[st.s as usize % N_SLOTS] {
            Slot::Idx(x, b) => {
                let (x, b) = (*x, *b);
                self.set(st.d, NtfsFileNameIndex::slot_finder(x.finder(), b));
            }
            Slot::IdxD(x, b) => {
                let (x, b) = (*x, *b);
                self.set(st.d, DataIndex::slot_finder(x.finder(), b));
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    /// The name searched for by a `Find` step: b 0 as stored, 1 other case, 2.. near misses.
    fn find_name(&self, idx: usize, st: &Step) -> Vec<u16> {
        let m = &self.vol.idxs[idx];
        let up = upcase(self.vol.spec.upcase);
        let mut r = Rng::new(st.c);
        let base: Vec<u16> = if m.entries.is_empty() { u16s("x") } else { m.entries[st.a as usize % m.entries.len()].name().to_vec() };
        match st.b {
            0 => base,
            1 => up.vary(&mut r, &base),
            2 => {
                let mut n = base;
                n.truncate(n.len().saturating_sub(1));
                n
            }
            3 => {
                let mut n = up.vary(&mut r, &base);
                n.push(*r.pick(&[0u16, 32, 65, 0x7f, 0xffff]));
                n
            }
            4 => {
                let mut n = base;
                if !n.is_empty() {
                    let k = r.idx(n.len());
                    n[k] = match r.below(4) {
                        0 => n[k] ^ 1 << r.below(16),
                        1 => n[k].swap_bytes(),
                        _ => n[k].wrapping_add(*r.pick(&[1u16, 0xffff, 32, 0x100])),
                    };
                }
                n
            }
            5 => vec![],
            6 => vec![0xffff; 1 + r.idx(3)],
            _ => (0..r.range(1, 12)).map(|_| *r.pick(&[65u16, 97, 90, 122, 0x30, 0xe4, 0xdf, 0x131, 0xd83d, 0xde00, 0x4e00])).collect(),
        }
    }

    fn find(&mut self, ntfs: &'static Ntfs, st: &Step) -> R<bool> {
        match &self.slots[st.s as usize % N_SLOTS] {
            Slot::Finder(_, b) => {
                if !self.has_upcase {
                    return Ok(false);
                }
                let b = *b;
                let Slot::Finder(mut fd, _) = self.take(st.s) else { unreachable!() };
                let vol = self.vol.clone();
                let name = self.find_name(b, st);
                let up = upcase(vol.spec.upcase);
                let hits: Vec<usize> = (0..vol.idxs[b].entries.len()).filter(|k| up.cmp(&name, vol.idxs[b].entries[*k].name()) == Ordering::Equal).collect();
                self.feats.insert(if hits.is_empty() { "find-absent" } else { "find-present" });
                let n = vol.path_records(b, &|e| up.cmp(&name, e.name()));
                let allow = self.idx_cost(b, n);
                let text = String::from_utf16(&name).ok();
                let old = std::mem::take(&mut self.ctx);
                self.ctx = format!("{old}find {:?}: ", String::from_utf16_lossy(&name));
                // The ordering itself, in both directions and for all types it is implemented for.
                for k in 0..vol.idxs[b].entries.len().min(2) {
                    let k = (st.a as usize).wrapping_add(k * 7) % vol.idxs[b].entries.len();
                    let theirs = vol.idxs[b].entries[k].name();
                    let want = up.cmp(&name, theirs);
                    let raw = |v: &[u16]| -> Vec<u8> { v.iter().flat_map(|c| c.to_le_bytes()).collect() };
                    let (x, y) = (raw(&name), raw(theirs));
                    let (x, y) = (nt_string::u16strle::U16StrLe(&x), nt_string::u16strle::U16StrLe(&y));
                    let mut got = vec![x.upcase_cmp(ntfs, &y), y.upcase_cmp(ntfs, &x).reverse()];
                    if let Some(t) = &text {
                        got.push(t.as_str().upcase_cmp(ntfs, &y));
                        got.push(y.upcase_cmp(ntfs, &t.as_str()).reverse());
                    }
                    let want = vec![want; got.len()];
                    self.eq(Cl::Find, "upcase_cmp() with a stored name (all types, both directions)", got, want);
                }
                let r = match (&text, st.c & 3) {
                    (Some(t), 0..=1) => NtfsFileNameIndex::find(&mut fd, ntfs, &mut self.dev, t),
                    (_, 2) => {
                        let raw: Vec<u8> = name.iter().flat_map(|c| c.to_le_bytes()).collect();
                        let s = nt_string::u16strle::U16StrLe(&raw);
                        fd.find(&mut self.dev, |k| s.upcase_cmp(ntfs, &k.name()))
                    }
                    _ => fd.find(&mut self.dev, |k| up.cmp(&name, &u16v(k.name()))),
                };
                let res = self.found(r, b, &hits);
                self.ctx = old;
                self.allow = allow;
                self.set(st.s, Slot::Finder(fd, b));
                res
            }
            Slot::FinderD(_, b) => {
                let b = *b;
                let Slot::FinderD(mut fd, _) = self.take(st.s) else { unreachable!() };
                let vol = self.vol.clone();
                let m = &vol.idxs[b];
                let mut r = Rng::new(st.c);
                let mut key = if m.entries.is_empty() { vec![1] } else { m.entries[st.a as usize % m.entries.len()].key_bytes() };
                match st.b {
                    0 | 1 => {}
                    2 => key.truncate(key.len().saturating_sub(1)),
                    3 => key.push(r.u64() as u8),
                    4 => {
                        if !key.is_empty() {
                            let k = r.idx(key.len());
                            key[k] = if r.chance(1, 2) { key[k].wrapping_add(1) } else { key[k] ^ 1 << r.below(8) };
                        }
                    }
                    5 => key.clear(),
                    _ => key = vec![0xff; 3],
                }
                let hits: Vec<usize> = (0..m.entries.len()).filter(|k| m.entries[*k].key_bytes() == key).collect();
                let n = vol.path_records(b, &|e| key.cmp(&e.key_bytes()));
                let allow = self.idx_cost(b, n);
                let r = fd.find(&mut self.dev, |k: &RawBytes| key.cmp(&k.0));
                let res = self.found(r, b, &hits);
                self.allow = allow;
                self.set(st.s, Slot::FinderD(fd, b));
                res
            }
            _ => Ok(false),
        }
    }

    fn found<E: Kind>(&mut self, r: Option<R<NtfsIndexEntry<'_, E>>>, b: usize, hits: &[usize]) -> R<bool> {
        match r {
            None => {
                self.log("find", &"none");
                if !self.opts.relaxed {
                    let w: Vec<_> = hits.iter().map(|k| E::want(&self.vol.idxs[b].entries[*k])).collect();
                    self.eq(Cl::Find, "find() reports absence; matching entries", w, vec![]);
                }
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(e)) => {
                let v = match E::view(&e) {
                    Ok(v) => v,
                    Err(er) => {
                        self.fail_err("found entry", &er);
                        return Ok(true);
                    }
                };
                let vol = self.vol.clone();
                match hits.iter().find(|k| E::want(&vol.idxs[b].entries[**k]) == v) {
                    Some(k) => self.check_entry(&e, b, *k, Cl::Find),
                    None => {
                        let w = hits.first().map(|k| E::want(&vol.idxs[b].entries[*k]));
                        self.eq(Cl::Find, "find() result", Some(v), w);
                    }
                }
            }
        }
        Ok(true)
    }

    fn alloc_of(&mut self, st: &Step) -> R<Option<(NtfsIndexAllocation<'static, 'static>, usize)>> {
        let Some((f, Some(m), _)) = self.file_slot(st.s) else { return Ok(None) };
        let vol = self.vol.clone();
        let b = st.b as usize;
        if b >= vol.idxs.len() || vol.idx_file[b] != m || vol.idxs[b].alloc_l.is_none() {
            return Ok(None);
        }
        let (_, alloc) = self.idx_items(f, &vol.idxs[b].name)?;
        let Some(alloc) = alloc else {
            let lost = vol.idxs[b].alloc_l.map(|l| self.lost_name(m, vol.files[m].logical[l].parts[0])).unwrap_or(false);
            if !lost {
                self.ok(Cl::Attr, "index allocation found", false);
            }
            return Ok(None);
        };
        let item = self.arena.put(alloc);
        let a = item.to_attribute()?;
        let x = a.structured_value::<_, NtfsIndexAllocation>(&mut self.dev)?;
        Ok(Some((x, b)))
    }

    fn recs(&mut self, st: &Step) -> R<bool> {
        let Some((x, b)) = self.alloc_of(st)? else { return Ok(false) };
        let size = self.vol.idxs[b].rec_size;
        self.allow = self.al_full_cost(self.vol.idx_file[b]) * 2;
        self.set(st.d, Slot::Recs(x.records(size), b, 0));
        Ok(true)
    }

    fn check_record(&mut self, r: &NtfsIndexRecord, b: usize, slot: u64) {
        let vol = self.vol.clone();
        let m = &vol.idxs[b];
        let vcn = (slot * m.rec_size as u64 / m.unit) as i64;
        self.eq(Cl::Enum, "index record vcn", r.vcn().value(), vcn);
        let _ = (r.index_data_size(), r.index_allocated_size());
        let node = m.slot_nodes.get(slot as usize).copied().flatten();
        let kids = node.map(|n| m.nodes[n].ents.iter().any(|e| e.1.is_some())).unwrap_or(false);
        self.eq(Cl::Enum, "has_subnodes", r.has_subnodes(), kids);
        self.eq(Cl::Meta, "index record index_allocated_size", r.index_allocated_size(), m.rec_size - 24);
        if m.custom {
            match r.entries::<DataIndex>() {
                Ok(es) => self.node_entries(es, b, node),
                Err(e) => self.fail_err("index record entries", &e),
            }
        } else {
            match r.entries::<NtfsFileNameIndex>() {
                Ok(es) => self.node_entries(es, b, node),
                Err(e) => self.fail_err("index record entries", &e),
            }
        }
    }

    fn node_entries<E: Kind>(&mut self, es: NtfsIndexNodeEntries<'_, E>, b: usize, node: Option<usize>) {
        let vol = self.vol.clone();
        let m = &vol.idxs[b];
        let want: Vec<(Option<usize>, Option<usize>)> = match node {
            Some(n) => m.nodes[n].ents.clone(),
            None => vec![(None, None)],
        };
        let mut n = 0;
        for e in es {
            let e = match e {
                Ok(e) => e,
                Err(e) => {
                    let lost = |h: &Hurt| h.kind == HK::EntLen && h.idx == b && Some(h.node) == node && want.get(n).map(|w| w.0) == Some(Some(h.ent));
                    if !self.hurt.as_ref().map(lost).unwrap_or(false) {
                        self.fail_err("index node entry", &e);
                    }
                    return;
                }
            };
            if n as u64 > self.opts.max_items {
                self.fail(Cl::Err, format!("{}index node entries do not end", self.ctx));
                return;
            }
            match want.get(n) {
                None => {
                    if !self.opts.relaxed {
                        self.ok(Cl::Enum, "index node yields an entry behind its end", false);
                        return;
                    }
                    let _ = E::view(&e);
                }
                Some((Some(k), _)) => self.check_entry(&e, b, *k, Cl::Enum),
                Some((None, child)) => {
                    let w = child.and_then(|c| m.nodes[c].slot).map(|s| (s * m.rec_size as u64 / m.unit) as i64);
                    let got = match e.subnode_vcn() {
                        None => None,
                        Some(Ok(v)) => Some(v.value()),
                        Some(Err(_)) => Some(-1),
                    };
                    self.eq(Cl::Enum, "end entry", (ent_flags(e.flags()) & 3, got), (2 | w.is_some() as u8, w));
                    self.eq(Cl::Enum, "end entry key", e.key().is_none(), true);
                }
            }
            n += 1;
        }
        self.eq(Cl::Enum, "entries of an index node", n, want.len());
    }

    fn rec_next(&mut self, st: &Step, max: u64) -> R<bool> {
        let Slot::Recs(..) = &self.slots[st.s as usize % N_SLOTS] else { return Ok(false) };
        let Slot::Recs(mut it, b, mut n) = self.take(st.s) else { unreachable!() };
        let vol = self.vol.clone();
        let m = &vol.idxs[b];
        let mut k = 0;
        let mut res = Ok(true);
        let f = vol.idx_file[b];
        let from = n * m.rec_size as u64;
        loop {
            let x = if st.a & 1 == 1 {
                let mut att = it.attach(&mut self.dev);
                let x = att.next();
                it = att.detach();
                x
            } else {
                it.next(&mut self.dev)
            };
            match x {
                None => {
                    self.eq(Cl::Enum, "index records end after", n, m.slots);
                    break;
                }
                Some(Err(e)) => {
                    res = Err(e);
                    break;
                }
                Some(Ok(r)) => {
                    if n >= m.slots && !self.opts.relaxed {
                        self.ok(Cl::Enum, "records() yields a record behind the end", false);
                        break;
                    }
                    self.check_record(&r, b, n);
                    n += 1;
                    k += 1;
                    if k > self.opts.max_items {
                        self.fail(Cl::Err, format!("{}index records do not end", self.ctx));
                        break;
                    }
                    if k >= max {
                        break;
                    }
                }
            }
        }
        // The iterator moves on from the start of a record, so it passes the records of a split attribute again.
        self.allow = k * m.rec_size as u64 + 2 * self.move_cost(f, m.alloc_l.unwrap_or(0), from, n * m.rec_size as u64);
        self.set(st.s, Slot::Recs(it, b, n));
        res
    }

    /// c: slot (possibly out of range)
    fn rec_vcn(&mut self, st: &Step) -> R<bool> {
        let Some((x, b)) = self.alloc_of(st)? else { return Ok(false) };
        let vol = self.vol.clone();
        let m = &vol.idxs[b];
        let file = vol.idx_file[b];
        self.allow = m.rec_size as u64 + self.al_full_cost(file) * 3;
        let slot = st.c;
        let vcn = (slot as i64).wrapping_mul(m.rec_size as i64 / m.unit as i64);
        let r = x.record_from_vcn(&mut self.dev, m.rec_size, Vcn::from(vcn));
        match r {
            Ok(r) => {
                if slot >= m.slots && !self.opts.relaxed {
                    self.ok(Cl::Enum, "record_from_vcn behind the end fails", false);
                } else {
                    self.check_record(&r, b, slot);
                }
                Ok(true)
            }
            Err(e) => {
                if slot >= m.slots && io_kind(&e).is_none() {
                    return Ok(true);
                }
                Err(e)
            }
        }
    }

    fn root_ents(&mut self, st: &Step) -> R<bool> {
        let Some((f, Some(m), _)) = self.file_slot(st.s) else { return Ok(false) };
        let vol = self.vol.clone();
        let b = st.b as usize;
        if b >= vol.idxs.len() || vol.idx_file[b] != m {
            return Ok(false);
        }
        self.allow = self.al_full_cost(m) * 2;
        let (root, _) = self.idx_items(f, &vol.idxs[b].name)?;
        let Some(root) = root else {
            if !self.lost_name(m, vol.files[m].logical[vol.idxs[b].root_l].parts[0]) {
                self.ok(Cl::Attr, "index root found", false);
            }
            return Ok(true);
        };
        let item = self.arena.put(root);
        let a = item.to_attribute()?;
        let root = a.resident_structured_value::<NtfsIndexRoot>()?;
        if vol.idxs[b].custom {
            self.node_entries(root.entries::<DataIndex>()?, b, Some(0));
        } else {
            self.node_entries(root.entries::<NtfsFileNameIndex>()?, b, Some(0));
        }
        Ok(true)
    }

    fn volume(&mut self, ntfs: &'static Ntfs, st: &Step) -> R<bool> {
        let vol = self.vol.clone();
        self.allow = self.load_cost();
        if st.a & 1 == 0 {
            let i = ntfs.volume_info(&mut self.dev)?;
            self.eq(Cl::Meta, "volume version", (i.major_version(), i.minor_version()), vol.vol_version);
            self.eq(Cl::Meta, "volume flags", vol_flags(i.flags()), vol.vol_flags & 0xc03f);
        } else {
            match ntfs.volume_name(&mut self.dev) {
                None => {
                    self.eq(Cl::Meta, "volume name", None, vol.label.clone());
                }
                Some(Err(e)) => return Err(e),
                Some(Ok(n)) => {
                    self.eq(Cl::Meta, "volume name", Some(u16v(n.name())), vol.label.clone());
                }
            }
        }
        Ok(true)
    }

    // ---- sector reader -------------------------------------------------------------------------

    /// A raw operation on the sector reader: d 0 seek start, 1 seek current, 2 read, 3 read_exact.
    /// `c` holds the cursor the reference model is at (kept in slot-free state `sec_pos`).
    #[cfg(feature = "std")]
    fn sector_op(&mut self, st: &Step) -> R<bool> {
        let Dev::Sector(d) = &mut self.dev else { return Ok(false) };
        let size = self.vol.img.size;
        if st.b == 1 {
            let p = d.stream_position().map_err(NtfsError::from)?;
            self.eq(Cl::Sector, "stream_position", p, self.sec_pos);
        }
        let Dev::Sector(d) = &mut self.dev else { return Ok(false) };
        let before = self.sec_pos;
        let want_pos;
        match st.d {
            0 | 1 => {
                let (sf, want) = if st.d == 0 {
                    (SeekFrom::Start(st.a), Some(st.a))
                } else {
                    (SeekFrom::Current(st.a as i64), before.checked_add_signed(st.a as i64))
                };
                let r = d.seek(sf);
                match (r, want) {
                    (Ok(p), w) => {
                        want_pos = w.unwrap_or(before);
                        self.eq(Cl::Sector, "seek result", Some(p), w);
                    }
                    (Err(e), None) => {
                        want_pos = before;
                        self.eq(Cl::Sector, "error of an impossible seek", e.kind(), ErrorKind::InvalidInput);
                    }
                    (Err(e), Some(_)) => return Err(e.into()),
                }
            }
            _ => {
                let len = st.a.min(1 << 20) as usize;
                let mut buf = vec![CANARY; len];
                let left = size.saturating_sub(before);
                let r = if st.d == 2 { d.read(&mut buf) } else { d.read_exact(&mut buf).map(|_| len) };
                match r {
                    Ok(n) => {
                        let max = (len as u64).min(left);
                        if n as u64 > max || (n == 0 && max > 0) {
                            self.eq(Cl::Sector, &format!("read of {len} bytes at {before} of {size}"), n as u64, max);
                            return Ok(true);
                        }
                        let mut w = vec![0u8; n];
                        self.vol.img.read(before, &mut w);
                        let mut want = w;
                        want.resize(len, CANARY);
                        self.eq(Cl::Sector, &format!("bytes read at {before}"), buf, want);
                        // What follows a read does not know of its length, except by asking.
                        want_pos = before + n as u64;
                    }
                    Err(e) => {
                        if st.d == 3 {
                            // read_exact may have advanced.
                            self.sec_pos = d.pos;
                        }
                        if e.kind() == ErrorKind::UnexpectedEof && st.d == 3 && len as u64 > left {
                            return Ok(true);
                        }
                        return Err(e.into());
                    }
                }
            }
        }
        self.sec_pos = want_pos;
        Ok(true)
    }
    #[cfg(not(feature = "std"))]
    fn sector_op(&mut self, _: &Step) -> R<bool> {
        Ok(false)
    }
}

/// Enumerating the attributes of the file does not get to its end.
fn blocked_any(f: &FileModel, h: &Hurt, al: bool) -> bool {
    let _ = f;
    al || h.kind == HK::AttrLen
}
