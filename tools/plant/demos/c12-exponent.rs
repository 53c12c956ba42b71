//! Small clusters given as an exponent.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for shift in [1u8, 2, 3, 5, 7] {
        let mut vol = Vol::new(512, 512 << shift, 1024, &[]);
        vol.dev.put(13, &[shift.wrapping_neg()]);
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x80, "", 1, b"content")]);
        let dev = &mut vol.dev;
        let ntfs = Ntfs::new(dev).unwrap();
        assert_eq!(ntfs.cluster_size(), 512 << shift);
        let file = ntfs.file(dev, 20).unwrap();
        let item = file.data(dev, "").unwrap().unwrap();
        let mut v = item.to_attribute().unwrap().value(dev).unwrap();
        assert_eq!(drain(&mut v, dev, 100), b"content");
    }
}
