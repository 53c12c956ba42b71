//! A directory whose tree is many levels deep.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    const LEVELS: i64 = 9;
    let mut vol = Vol::plain();
    // Every level: one entry, with the whole rest of the tree before it.
    for i in 0..LEVELS {
        let (e, last) = if i == LEVELS - 1 {
            (name_ent(30 + i as u64, &format!("N{:02}", LEVELS - i), None), None)
        } else {
            (name_ent(30 + i as u64, &format!("N{:02}", LEVELS - i), Some((i + 1) * 8)), Some((LEVELS + i) * 8))
        };
        let r = index_record(i * 8, 4096, 3, &[e], last);
        vol.dev.put((5000 + 8 * i as u64) * 512, &r);
        // and an empty leaf behind
        let leaf = index_record((LEVELS + i) * 8, 4096, 3, &[], None);
        vol.dev.put((5000 + 8 * (LEVELS + i) as u64) * 512, &leaf);
    }
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x90, "$I30", 1, &index_root(0x30, 4096, &[name_ent(50, "X", Some(0))], Some((2 * LEVELS) * 8))),
        nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 8 * (2 * LEVELS as u64 + 1))], 4096 * (2 * LEVELS as u64 + 1)),
    ]);
    let leaf = index_record(2 * LEVELS * 8, 4096, 3, &[name_ent(51, "Y", None)], None);
    vol.dev.put((5000 + 16 * LEVELS as u64) * 512, &leaf);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    let mut it = index.entries();
    let mut seen = vec![];
    while let Some(e) = it.next(dev) {
        seen.push(e.unwrap().key().unwrap().unwrap().name().to_string_lossy());
    }
    let mut want: Vec<String> = (1..=LEVELS).map(|i| format!("N{i:02}")).collect();
    want.extend(["X".to_string(), "Y".to_string()]);
    assert_eq!(seen, want);
}
