//! The Attribute List of a file cannot be read while its name is looked up.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let list = [list_entry(0x10, "", 0, 20, 0), list_entry(0x30, "", 0, 21, 3)].concat();
    vol.dev.put(5000 * 512, &list);
    vol.file(20, 0, &[
        resident(0x10, "", 0, &std_info()),
        nonres(0x20, "", 1, 0, &[(Some(5000), 1)], list.len() as u64),
    ]);
    vol.file(21, 0, &[resident(0x30, "", 3, &file_name(5, "far away", 1))]);
    let at = vol.mft_at(21 * 1024);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    assert_eq!(file.name(dev, None, None).unwrap().unwrap().name(), "far away");
    for (a, b) in [(at, at + 1024), (5000 * 512, 5000 * 512 + 64)] {
        dev.fail_at(a, b, ErrorKind::PermissionDenied);
        match file.name(dev, None, None) {
            Some(Err(e)) => assert_eq!(io_kind(&e), Some(ErrorKind::PermissionDenied)),
            x => panic!("a device error became {x:?}"),
        }
    }
}
