//! Attributes in front of a bad one.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let mut bad = resident(0x80, "", 1, b"content");
    p32(&mut bad, 4, 0xffff_fff8);
    vol.file(20, 0, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x30, "", 2, &file_name(5, "name", 1)),
        bad,
    ]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    assert_eq!(file.name(dev, None, None).unwrap().unwrap().name(), "name");
    let info = file.info().expect("the standard information comes first");
    assert_eq!(info.creation_time().nt_timestamp(), 0x01d1_0000_0000_0000);
    assert!(file.data(dev, "").unwrap().is_err());
}
