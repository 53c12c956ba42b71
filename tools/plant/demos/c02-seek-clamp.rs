//! A cursor that is moved behind the end and back.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x80, "", 1, b"0123456789")]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let mut v = item.to_attribute().unwrap().value(dev).unwrap();
    for (pos, back, want) in [(SeekFrom::End(7), -9, 8u64), (SeekFrom::Current(30), -35, 3)] {
        v.seek(dev, SeekFrom::Start(8)).unwrap();
        v.seek(dev, pos).unwrap();
        assert_eq!(v.seek(dev, SeekFrom::Current(back)).unwrap(), want);
        let mut b = [0];
        assert_eq!(v.read(dev, &mut b).unwrap(), 1);
        assert_eq!(b[0], b'0' + want as u8);
    }
}
