//! A failed second reading of the up-case table.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x90, "$I30", 1, &index_root(0x30, 4096, &[name_ent(42, "Docs", None)], None)),
    ]);
    let dev = &mut vol.dev;
    let mut ntfs = Ntfs::new(dev).unwrap();
    ntfs.read_upcase_table(dev).unwrap();
    for nth in 0..4 {
        dev.fail(nth, nth + 1, ErrorKind::TimedOut);
        let r = ntfs.read_upcase_table(dev);
        dev.ok();
        if let Err(e) = r {
            assert_eq!(io_kind(&e), Some(ErrorKind::TimedOut));
        }
        let file = ntfs.file(dev, 20).unwrap();
        let index = file.directory_index(dev).unwrap();
        let mut f = index.finder();
        assert!(NtfsFileNameIndex::find(&mut f, &ntfs, dev, "docs").unwrap().is_ok());
    }
}
