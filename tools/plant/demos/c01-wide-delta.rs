//! A stream whose second fragment lies more than 2^31 clusters before its first one.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for (a, b) in [(0x1_0000_1000i64, 0x2000i64), (0x0200_0000, 0x3000), (0x8000_0000, 0x4000), (0x1_8000, 0x5000)] {
        let mut vol = Vol::plain();
        vol.dev.size = 1 << 50;
        let data = noise(a as u64, 4 * 512);
        let runs = [(Some(a), 2), (Some(b), 1), (Some(a + 70000), 1)];
        vol.put_runs(&runs, &data);
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x80, "", 1, 0, &runs, data.len() as u64)]);
        let dev = &mut vol.dev;
        let ntfs = Ntfs::new(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        let item = file.data(dev, "").unwrap().unwrap();
        let mut v = item.to_attribute().unwrap().value(dev).unwrap();
        assert!(drain(&mut v, dev, 700) == data, "wrong bytes");
    }
}
