//! Positions at the boundaries of fragments.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let runs = [(Some(5000i64), 4u64), (Some(7000), 4), (None, 3), (Some(6000), 2)];
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x80, "", 1, 0, &runs, 13 * 512)]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let mut v = item.to_attribute().unwrap().value(dev).unwrap();
    for (c, want) in [(4, Some(7000)), (8, None), (11, Some(6000)), (0, Some(5000)), (12, Some(6001))] {
        v.seek(dev, SeekFrom::Start(c * 512)).unwrap();
        assert_eq!(v.data_position().value().map(|x| x.get() / 512), want, "cluster {c}");
    }
}
