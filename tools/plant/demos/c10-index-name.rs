//! A directory record with a second index.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let other = index_root(0, 4096, &[], None);
    let list = [name_ent(30, "AAA", None), name_ent(31, "BBB", None)];
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x90, "$A17", 2, &other),
        resident(0x90, "$I30", 1, &index_root(0x30, 4096, &list, None)),
    ]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    let mut it = index.entries();
    let mut n = 0;
    while let Some(e) = it.next(dev) {
        assert!(e.unwrap().key().is_some());
        n += 1;
    }
    assert_eq!(n, 2, "entries of the directory index");
}
