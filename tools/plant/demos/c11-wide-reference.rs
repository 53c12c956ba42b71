//! References to file records beyond the first 2^32.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let wide = 0x0000_9abc_1234_5678u64;
    let mut e = name_ent(31, "WIDE", None);
    e.head = wide | 0x7fff << 48;
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x30, "", 2, &file_name(0x0001_0000_0005, "dir", 1)),
        resident(0x90, "$I30", 1, &index_root(0x30, 4096, &[name_ent(30, "NEAR", None), e], None)),
    ]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let name = file.name(dev, None, None).unwrap().unwrap();
    assert_eq!(name.parent_directory_reference().file_record_number(), 0x0001_0000_0005);
    assert_eq!(name.parent_directory_reference().sequence_number(), 1);
    let index = file.directory_index(dev).unwrap();
    let mut it = index.entries();
    let a = it.next(dev).unwrap().unwrap().file_reference();
    assert_eq!((a.file_record_number(), a.sequence_number()), (30, 1));
    let b = it.next(dev).unwrap().unwrap().file_reference();
    assert_eq!((b.file_record_number(), b.sequence_number()), (wide, 0x7fff));
    assert!(b.to_file(&ntfs, dev).is_err());
}
