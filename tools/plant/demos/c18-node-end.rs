//! Going on after a bad index entry.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let first = name_ent(30, "A", None);
    let len = al8(16 + first.key.len());
    let list = [first, name_ent(31, "B", None), name_ent(32, "C", None)];
    vol.dev.put(5000 * 512, &index_record(0, 4096, 7, &list, None));
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x90, "$I30", 1, &index_root(0x30, 4096, &[name_ent(42, "D", Some(0))], None)),
        nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 8)], 4096),
    ]);
    // The length of the second entry of the node.
    let start = 24 + u32::from_le_bytes(vol.dev.get(5000 * 512 + 24, 4).try_into().unwrap()) as u64;
    vol.dev.put(5000 * 512 + start + len as u64 + 8, &60000u16.to_le_bytes());
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    let mut it = index.entries();
    assert_eq!(it.next(dev).unwrap().unwrap().key().unwrap().unwrap().name(), "A");
    for _ in 0..3 {
        match it.next(dev) {
            Some(Err(_)) => (),
            Some(Ok(e)) => panic!("went on with {:?}", e.key().unwrap().unwrap().name().to_string_lossy()),
            None => panic!("the iteration ended"),
        }
    }
}
