//! Attributes behind a bad entry of an Attribute List.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let first = list_entry(0x10, "", 0, 20, 0);
    let at = first.len();
    let mut list = [first, list_entry(0x30, "", 0, 21, 3), list_entry(0x80, "", 0, 21, 5)].concat();
    p16(&mut list, at + 4, 8);
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x20, "", 1, &list)]);
    vol.file(21, 0, &[resident(0x30, "", 3, &file_name(5, "link", 1)), resident(0x80, "", 5, b"one")]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    match file.data(dev, "") {
        None => panic!("the data is reported as absent"),
        Some(r) => assert!(r.is_err()),
    }
    assert!(file.name(dev, None, None).expect("the name is reported as absent").is_err());
}
