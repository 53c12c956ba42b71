//! A multi-level index whose entries carry data.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

#[derive(Clone, Debug)]
struct Ix;
#[derive(Debug)]
struct K(u32);
#[derive(Debug)]
struct D(Vec<u8>);
impl NtfsIndexEntryType for Ix {
    type KeyType = K;
}
impl NtfsIndexEntryHasData for Ix {
    type DataType = D;
}
impl NtfsIndexEntryKey for K {
    fn key_from_slice(s: &[u8], _: NtfsPosition) -> Result<Self> {
        Ok(K(u32::from_le_bytes(s[..4].try_into().unwrap())))
    }
}
impl NtfsIndexEntryData for D {
    fn data_from_slice(s: &[u8], _: NtfsPosition) -> Result<Self> {
        Ok(D(s.to_vec()))
    }
}
fn ent(key: u32, sub: Option<i64>) -> Vec<u8> {
    let len = 40 + if sub.is_some() { 8 } else { 0 };
    let mut v = vec![0; len];
    p16(&mut v, 0, 20);
    p16(&mut v, 2, 16);
    p16(&mut v, 8, len as u16);
    p16(&mut v, 10, 4);
    v[12] = sub.is_some() as u8;
    p32(&mut v, 16, key);
    v[20..36].fill(key as u8);
    if let Some(s) = sub {
        p64(&mut v, len - 8, s as u64);
    }
    v
}
fn main() {
    let mut vol = Vol::plain();
    for (i, keys) in [[1u32, 2, 3], [5, 6, 7], [9, 10, 11]].iter().enumerate() {
        let mut e: Vec<u8> = keys.iter().flat_map(|k| ent(*k, None)).collect();
        e.extend(entries(&[], None));
        let mut v = index_record(i as i64 * 8, 4096, 1, &[], None);
        // Undo the protection of the empty record, insert the entries, protect it again.
        let start = 24 + u32::from_le_bytes(v[24..28].try_into().unwrap()) as usize;
        for s in 0..8 {
            p16(&mut v, s * 512 + 510, 0);
        }
        v[start..start + e.len()].copy_from_slice(&e);
        p32(&mut v, 28, (start - 24 + e.len()) as u32);
        protect(&mut v, 40, 9);
        vol.dev.put((5000 + 8 * i as u64) * 512, &v);
    }
    let mut e = [ent(4, Some(0)), ent(8, Some(8))].concat();
    e.extend(entries(&[], Some(16)));
    let mut root = index_root(0, 4096, &[], Some(0));
    root.truncate(32);
    p32(&mut root, 20, 16 + e.len() as u32);
    p32(&mut root, 24, 16 + e.len() as u32);
    root.extend(e);
    vol.file(20, 0, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x90, "$X", 1, &root),
        nonres(0xa0, "$X", 2, 0, &[(Some(5000), 24)], 3 * 4096),
    ]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let items: Vec<_> = file.attributes().attach(dev).map(|x| x.unwrap()).collect();
    let index = NtfsIndex::<Ix>::new(items[1].clone(), Some(items[2].clone())).unwrap();
    let mut it = index.entries();
    let mut keys = vec![];
    while let Some(e) = it.next(dev) {
        let e = e.unwrap();
        let k = e.key().unwrap().unwrap().0;
        assert_eq!(e.data().unwrap().unwrap().0, vec![k as u8; 16]);
        keys.push(k);
    }
    assert_eq!(keys, (1..=11).collect::<Vec<_>>());
}
