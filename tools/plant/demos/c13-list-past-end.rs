//! Positions of a stream that is split over file records.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let data = noise(3, 8 * 512);
    let r1 = [(Some(5000i64), 4u64)];
    let r2 = [(Some(7000i64), 4u64)];
    vol.put_runs(&r1, &data);
    vol.put_runs(&r2, &data[2048..]);
    let list = [list_entry(0x10, "", 0, 20, 0), list_entry(0x80, "", 0, 21, 3), list_entry(0x80, "", 4, 22, 3)].concat();
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x20, "", 1, &list)]);
    vol.file(21, 0, &[nonres(0x80, "", 3, 0, &r1, 4096)]);
    vol.file(22, 0, &[nonres(0x80, "", 3, 4, &r2, 0)]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let attr = item.to_attribute().unwrap();
    let mut v = attr.value(dev).unwrap();
    assert!(drain(&mut v, dev, 700) == data);
    let mut v = attr.value(dev).unwrap();
    for (pos, want) in [(10, Some(5000 * 512 + 10)), (3000, Some(7000 * 512 + 952)), (4097, None), (5000, None), (1 << 40, None), (2050, Some(7000 * 512 + 2)), (9999, None)] {
        v.seek(dev, SeekFrom::Start(pos)).unwrap();
        assert_eq!(v.data_position().value().map(|x| x.get()), want, "at {pos}");
    }
}
