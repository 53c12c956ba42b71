//! Positions of the entries of an Attribute List.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let list = [
        list_entry(0x10, "", 0, 20, 0),
        list_entry(0x80, "a", 0, 21, 3),
        list_entry(0x80, "bcde", 0, 21, 4),
        list_entry(0x80, "fghijklm", 0, 21, 5),
        list_entry(0x80, "z", 0, 21, 6),
    ];
    let all = list.concat();
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x20, "", 1, &all)]);
    let record = vol.mft_at(20 * 1024);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let attr = file.attributes_raw().nth(1).unwrap().unwrap();
    let mut it = attr.structured_value::<_, NtfsAttributeList>(dev).unwrap().entries();
    let mut off = 0;
    for e in &list {
        let entry = it.next(dev).unwrap().unwrap();
        let at = entry.position().value().unwrap().get();
        // The entry is found in the record where it says it is.
        let in_record = (at - record) as usize;
        assert!(in_record < 1024 && in_record > off);
        let raw = dev.get(at, e.len().min(26));
        assert!(raw == e[..raw.len()], "entry of instance {} at {at:#x}", entry.instance());
        off = in_record;
    }
}
