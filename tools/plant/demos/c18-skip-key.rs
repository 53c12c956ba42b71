//! Lookups that meet an entry with a bad key.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    vol.dev.put(5000 * 512, &index_record(0, 4096, 7, &[name_ent(30, "A", None), name_ent(31, "B", None)], None));
    let mut root = index_root(0x30, 4096, &[name_ent(42, "M", Some(0)), name_ent(43, "Z", None)], None);
    // The key length of the first entry of the root.
    p16(&mut root, 32 + 10, 900);
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x90, "$I30", 1, &root),
        nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 8)], 4096),
    ]);
    let dev = &mut vol.dev;
    let mut ntfs = Ntfs::new(dev).unwrap();
    ntfs.read_upcase_table(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    for name in ["A", "B", "M"] {
        let mut f = index.finder();
        match NtfsFileNameIndex::find(&mut f, &ntfs, dev, name) {
            Some(Err(_)) => (),
            Some(Ok(_)) => (),
            None => panic!("{name} is reported as absent"),
        }
    }
}
