//! Two hard links in one extension record.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let list = [
        list_entry(0x10, "", 0, 20, 0),
        list_entry(0x30, "", 0, 21, 3),
        list_entry(0x30, "", 0, 21, 4),
        list_entry(0x80, "s1", 0, 21, 5),
        list_entry(0x80, "s2", 0, 21, 6),
    ]
    .concat();
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x20, "", 1, &list)]);
    vol.file(21, 0, &[
        resident(0x30, "", 3, &file_name(5, "first link", 1)),
        resident(0x30, "", 4, &file_name(6, "second link", 1)),
        resident(0x80, "s1", 5, b"one"),
        resident(0x80, "s2", 6, b"two"),
    ]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let mut it = file.attributes();
    let mut seen = vec![];
    while let Some(item) = it.next(dev) {
        let item = item.unwrap();
        seen.push(item.to_attribute().unwrap().instance());
    }
    assert_eq!(seen, [0, 3, 4, 5, 6]);
    let name = file.name(dev, None, Some(6)).expect("second link not found").unwrap();
    assert_eq!(name.name(), "second link");
}
