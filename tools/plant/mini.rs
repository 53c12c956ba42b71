//! A tiny NTFS volume builder and a fault-injecting device for the demonstrations.
//! (Independent of the simulator: a demonstration only has its own folder and /repo.)
#![allow(dead_code)]

use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom};

/// What the device does with one read call.
pub enum Act {
    Go,
    Short(usize),
    Err(io::ErrorKind),
}

pub type Hook = Box<dyn FnMut(usize, u64, usize) -> Act>;

#[derive(Default)]
pub struct Dev {
    blocks: BTreeMap<u64, Box<[u8; 512]>>,
    pub size: u64,
    pub pos: u64,
    /// Every read call: position and requested length.
    pub log: Vec<(u64, usize)>,
    pub hook: Option<Hook>,
}

impl Dev {
    pub fn put(&mut self, mut at: u64, mut bytes: &[u8]) {
        while !bytes.is_empty() {
            let off = (at % 512) as usize;
            let n = bytes.len().min(512 - off);
            let block = self.blocks.entry(at / 512).or_insert_with(|| Box::new([0; 512]));
            block[off..off + n].copy_from_slice(&bytes[..n]);
            at += n as u64;
            bytes = &bytes[n..];
        }
    }
    pub fn get(&self, mut at: u64, len: usize) -> Vec<u8> {
        let mut out = Vec::new();
        while out.len() < len {
            let off = (at % 512) as usize;
            let n = (len - out.len()).min(512 - off);
            match self.blocks.get(&(at / 512)) {
                Some(b) => out.extend_from_slice(&b[off..off + n]),
                None => out.resize(out.len() + n, 0),
            }
            at += n as u64;
        }
        out
    }
    /// Fails the read calls `from..to` (counted from now on) with `kind`.
    pub fn fail(&mut self, from: usize, to: usize, kind: io::ErrorKind) {
        self.log.clear();
        self.hook = Some(Box::new(move |n, _, _| {
            if n >= from && n < to {
                Act::Err(kind)
            } else {
                Act::Go
            }
        }));
    }
    /// Fails every read touching `[start, end)` with `kind`.
    pub fn fail_at(&mut self, start: u64, end: u64, kind: io::ErrorKind) {
        self.hook = Some(Box::new(move |_, pos, len| {
            if pos < end && pos + len as u64 > start {
                Act::Err(kind)
            } else {
                Act::Go
            }
        }));
    }
    pub fn ok(&mut self) {
        self.hook = None;
        self.log.clear();
    }
    pub fn bytes_read(&self) -> usize {
        self.log.iter().map(|x| x.1).sum()
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let nth = self.log.len();
        self.log.push((self.pos, buf.len()));
        let mut n = (self.size.saturating_sub(self.pos)).min(buf.len() as u64) as usize;
        if let Some(hook) = &mut self.hook {
            match hook(nth, self.pos, buf.len()) {
                Act::Go => {}
                Act::Short(m) => n = n.min(m),
                Act::Err(kind) => return Err(io::Error::new(kind, "injected")),
            }
        }
        buf[..n].copy_from_slice(&self.get(self.pos, n));
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Dev {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.pos = match pos {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(n) => self.pos.wrapping_add(n as u64),
            SeekFrom::End(n) => self.size.wrapping_add(n as u64),
        };
        Ok(self.pos)
    }
}

pub fn p16(v: &mut [u8], at: usize, x: u16) {
    v[at..at + 2].copy_from_slice(&x.to_le_bytes());
}
pub fn p32(v: &mut [u8], at: usize, x: u32) {
    v[at..at + 4].copy_from_slice(&x.to_le_bytes());
}
pub fn p64(v: &mut [u8], at: usize, x: u64) {
    v[at..at + 8].copy_from_slice(&x.to_le_bytes());
}
pub fn al8(n: usize) -> usize {
    (n + 7) & !7
}
pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
}
/// Reproducible filler.
pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

/// Applies the update sequence array to a record whose USA lies at `usa`.
pub fn protect(v: &mut [u8], usa: usize, usn: u16) {
    p16(v, 4, usa as u16);
    p16(v, 6, (v.len() / 512 + 1) as u16);
    p16(v, usa, usn);
    for i in 0..v.len() / 512 {
        let end = (i + 1) * 512 - 2;
        let saved = [v[end], v[end + 1]];
        v[usa + 2 + 2 * i..usa + 4 + 2 * i].copy_from_slice(&saved);
        p16(v, end, usn);
    }
}

/// One data run: LCN (or `None` for a sparse one) and cluster count.
pub type Run = (Option<i64>, u64);

pub fn runs(list: &[Run]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut prev = 0i64;
    for (lcn, count) in list {
        let mut c = count.to_le_bytes().to_vec();
        while c.len() > 1 && c[c.len() - 1] == 0 {
            c.pop();
        }
        let mut l = Vec::new();
        if let Some(lcn) = lcn {
            let d = lcn - prev;
            prev = *lcn;
            l = d.to_le_bytes().to_vec();
            while l.len() > 1 {
                let top = l[l.len() - 1];
                let below = l[l.len() - 2];
                if (top == 0 && below < 0x80) || (top == 0xff && below >= 0x80) {
                    l.pop();
                } else {
                    break;
                }
            }
        }
        out.push((l.len() << 4 | c.len()) as u8);
        out.extend(c);
        out.extend(l);
    }
    out.push(0);
    out
}

pub fn resident(ty: u32, name: &str, id: u16, value: &[u8]) -> Vec<u8> {
    let name = utf16(name);
    let voff = al8(24 + name.len());
    let mut v = vec![0; al8(voff + value.len())];
    let len = v.len();
    p32(&mut v, 0, ty);
    p32(&mut v, 4, len as u32);
    v[9] = (name.len() / 2) as u8;
    p16(&mut v, 10, 24);
    p16(&mut v, 14, id);
    p32(&mut v, 16, value.len() as u32);
    p16(&mut v, 20, voff as u16);
    v[24..24 + name.len()].copy_from_slice(&name);
    v[voff..voff + value.len()].copy_from_slice(value);
    v
}

/// A non-resident attribute (or a part of one, when `lowest` > 0).
pub fn nonres(ty: u32, name: &str, id: u16, lowest: u64, list: &[Run], size: u64) -> Vec<u8> {
    let name = utf16(name);
    let roff = al8(64 + name.len());
    let r = runs(list);
    let clusters: u64 = list.iter().map(|x| x.1).sum();
    let mut v = vec![0; al8(roff + r.len())];
    let len = v.len();
    p32(&mut v, 0, ty);
    p32(&mut v, 4, len as u32);
    v[8] = 1;
    v[9] = (name.len() / 2) as u8;
    p16(&mut v, 10, 64);
    p16(&mut v, 14, id);
    p64(&mut v, 16, lowest);
    p64(&mut v, 24, (lowest + clusters).wrapping_sub(1));
    p16(&mut v, 32, roff as u16);
    p64(&mut v, 40, size);
    p64(&mut v, 48, size);
    p64(&mut v, 56, size);
    v[64..64 + name.len()].copy_from_slice(&name);
    v[roff..roff + r.len()].copy_from_slice(&r);
    v
}

pub fn fref(record: u64) -> u64 {
    record | 1 << 48
}

pub fn file_name(parent: u64, name: &str, namespace: u8) -> Vec<u8> {
    let n = utf16(name);
    let mut v = vec![0; 66 + n.len()];
    p64(&mut v, 0, fref(parent));
    for i in 0..4 {
        p64(&mut v, 8 + 8 * i, 0x01d0_0000_0000_0000 + i as u64 * 1000);
    }
    v[64] = (n.len() / 2) as u8;
    v[65] = namespace;
    v[66..].copy_from_slice(&n);
    v
}

pub fn std_info() -> Vec<u8> {
    let mut v = vec![0; 72];
    for i in 0..4 {
        p64(&mut v, 8 * i, 0x01d1_0000_0000_0000 + i as u64 * 77);
    }
    p32(&mut v, 32, 0x20);
    v
}

pub fn list_entry(ty: u32, name: &str, lowest: u64, record: u64, id: u16) -> Vec<u8> {
    let name = utf16(name);
    let mut v = vec![0; al8(26 + name.len())];
    let len = v.len();
    p32(&mut v, 0, ty);
    p16(&mut v, 4, len as u16);
    v[6] = (name.len() / 2) as u8;
    v[7] = 26;
    p64(&mut v, 8, lowest);
    p64(&mut v, 16, fref(record));
    p16(&mut v, 24, id);
    v[26..26 + name.len()].copy_from_slice(&name);
    v
}

/// Index entry: first 8 bytes (file reference or data position), key, trailing data, subnode.
pub struct Ent {
    pub head: u64,
    pub key: Vec<u8>,
    pub sub: Option<i64>,
}

pub fn name_ent(record: u64, name: &str, sub: Option<i64>) -> Ent {
    Ent { head: fref(record), key: file_name(5, name, 1), sub }
}

pub fn entries(list: &[Ent], last_sub: Option<i64>) -> Vec<u8> {
    let mut out = Vec::new();
    for e in list {
        let len = al8(16 + e.key.len()) + if e.sub.is_some() { 8 } else { 0 };
        let mut v = vec![0; len];
        p64(&mut v, 0, e.head);
        p16(&mut v, 8, len as u16);
        p16(&mut v, 10, e.key.len() as u16);
        v[12] = e.sub.is_some() as u8;
        v[16..16 + e.key.len()].copy_from_slice(&e.key);
        if let Some(s) = e.sub {
            p64(&mut v, len - 8, s as u64);
        }
        out.extend(v);
    }
    let len = 16 + if last_sub.is_some() { 8 } else { 0 };
    let mut v = vec![0; len];
    p16(&mut v, 8, len as u16);
    v[12] = 2 | last_sub.is_some() as u8;
    if let Some(s) = last_sub {
        p64(&mut v, len - 8, s as u64);
    }
    out.extend(v);
    out
}

pub fn index_root(ty: u32, record_size: u32, list: &[Ent], last_sub: Option<i64>) -> Vec<u8> {
    let e = entries(list, last_sub);
    let large = last_sub.is_some() || list.iter().any(|x| x.sub.is_some());
    let mut v = vec![0; 32];
    p32(&mut v, 0, ty);
    p32(&mut v, 4, 1);
    p32(&mut v, 8, record_size);
    v[12] = 1;
    p32(&mut v, 16, 16);
    p32(&mut v, 20, 16 + e.len() as u32);
    p32(&mut v, 24, 16 + e.len() as u32);
    v[28] = large as u8;
    v.extend(e);
    v
}

pub fn index_record(vcn: i64, size: usize, usn: u16, list: &[Ent], last_sub: Option<i64>) -> Vec<u8> {
    let e = entries(list, last_sub);
    let start = al8(40 + 2 * (size / 512 + 1));
    assert!(start + e.len() <= size);
    let mut v = vec![0; size];
    v[..4].copy_from_slice(b"INDX");
    p64(&mut v, 16, vcn as u64);
    p32(&mut v, 24, (start - 24) as u32);
    p32(&mut v, 28, (start - 24 + e.len()) as u32);
    p32(&mut v, 32, (size - 24) as u32);
    v[36] = (last_sub.is_some() || list.iter().any(|x| x.sub.is_some())) as u8;
    v[start..start + e.len()].copy_from_slice(&e);
    protect(&mut v, 40, usn);
    v
}

pub struct Vol {
    pub dev: Dev,
    pub sector: u64,
    pub cluster: u64,
    pub record: u64,
    pub mft: Vec<Run>,
    pub mft_records: u64,
}

pub const DIR: u16 = 2;

impl Vol {
    /// A volume with the given sector, cluster and file record size, whose MFT of 64 records has the
    /// given runs (none: contiguous at LCN 200), with an up-case table at record 10.
    pub fn new(sector: u64, cluster: u64, record: u64, mft: &[Run]) -> Vol {
        let records = 64;
        let mft = if mft.is_empty() {
            vec![(Some(200), (records * record + cluster - 1) / cluster)]
        } else {
            mft.to_vec()
        };
        let mut vol = Vol {
            dev: Dev::default(),
            sector,
            cluster,
            record,
            mft,
            mft_records: records,
        };
        let clusters: u64 = 1 << 24;
        vol.dev.size = clusters * cluster;
        let mut b = vec![0u8; 512];
        b[..3].copy_from_slice(&[0xeb, 0x52, 0x90]);
        b[3..11].copy_from_slice(b"NTFS    ");
        p16(&mut b, 11, sector as u16);
        let spc = cluster / sector;
        b[13] = if spc <= 128 {
            spc as u8
        } else {
            (spc.trailing_zeros() as u8).wrapping_neg()
        };
        b[21] = 0xf8;
        p64(&mut b, 40, clusters * cluster / sector);
        p64(&mut b, 48, vol.mft[0].0.unwrap() as u64);
        p64(&mut b, 56, 2);
        b[64] = (record.trailing_zeros() as u8).wrapping_neg();
        b[68] = 0xf4;
        p64(&mut b, 72, 0x1122_3344_5566_7788);
        p16(&mut b, 510, 0xaa55);
        vol.dev.put(0, &b);

        let mft_runs = vol.mft.clone();
        vol.file(0, 0, &[
            resident(0x10, "", 0, &std_info()),
            nonres(0x80, "", 1, 0, &mft_runs, records * record),
        ]);
        let mut up: Vec<u8> = Vec::new();
        for c in 0..65536u32 {
            let u = char::from_u32(c).map_or(c, |ch| {
                let mut i = ch.to_uppercase();
                let f = i.next().unwrap() as u32;
                if i.next().is_some() || f > 0xffff { c } else { f }
            });
            up.extend_from_slice(&(u as u16).to_le_bytes());
        }
        let at = (1 << 20) / cluster + 400;
        vol.dev.put(at * cluster, &up);
        let count = (131072 + cluster - 1) / cluster;
        vol.file(10, 0, &[
            resident(0x10, "", 0, &std_info()),
            nonres(0x80, "", 1, 0, &[(Some(at as i64), count)], 131072),
        ]);
        vol
    }
    pub fn plain() -> Vol {
        Vol::new(512, 512, 1024, &[])
    }
    /// Device offset of byte `off` of the MFT.
    pub fn mft_at(&self, mut off: u64) -> u64 {
        for (lcn, count) in &self.mft {
            if off < count * self.cluster {
                return lcn.unwrap() as u64 * self.cluster + off;
            }
            off -= count * self.cluster;
        }
        panic!()
    }
    pub fn build(&self, no: u64, flags: u16, attrs: &[Vec<u8>]) -> Vec<u8> {
        let size = self.record as usize;
        let mut v = vec![0; size];
        let start = al8(48 + 2 * (size / 512 + 1));
        v[..4].copy_from_slice(b"FILE");
        p64(&mut v, 8, 99);
        p16(&mut v, 16, 1);
        p16(&mut v, 18, 1);
        p16(&mut v, 20, start as u16);
        p16(&mut v, 22, 1 | flags);
        let mut at = start;
        for a in attrs {
            v[at..at + a.len()].copy_from_slice(a);
            at += a.len();
        }
        p32(&mut v, at, 0xffff_ffff);
        p32(&mut v, 24, at as u32 + 8);
        p32(&mut v, 28, size as u32);
        p16(&mut v, 40, 100);
        p32(&mut v, 44, no as u32);
        v
    }
    pub fn put_record(&mut self, no: u64, v: &[u8]) {
        // A record may be split over runs.
        for (i, chunk) in v.chunks(512).enumerate() {
            let at = self.mft_at(no * self.record + 512 * i as u64);
            self.dev.put(at, chunk);
        }
    }
    pub fn file(&mut self, no: u64, flags: u16, attrs: &[Vec<u8>]) {
        let mut v = self.build(no, flags, attrs);
        protect(&mut v, 48, 0x1d00 + no as u16);
        self.put_record(no, &v);
    }
    pub fn put_runs(&mut self, list: &[Run], data: &[u8]) {
        let mut off = 0;
        for (lcn, count) in list {
            let n = ((count * self.cluster) as usize).min(data.len() - off);
            if let Some(lcn) = lcn {
                self.dev.put(*lcn as u64 * self.cluster, &data[off..off + n]);
            }
            off += n;
        }
    }
}
