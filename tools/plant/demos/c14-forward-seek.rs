//! Forward seeks in a stream that is split over file records.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let mut list = list_entry(0x10, "", 0, 20, 0);
    for i in 0..8u64 {
        list.extend(list_entry(0x80, "", 4 * i, 21 + i, 3));
        vol.file(21 + i, 0, &[nonres(0x80, "", 3, 4 * i, &[(Some(5000 + 100 * i as i64), 4)], if i == 0 { 32 * 512 } else { 0 })]);
    }
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x20, "", 1, &list)]);
    let at: Vec<u64> = (0..8).map(|i| vol.mft_at((21 + i) * 1024)).collect();
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let mut v = item.to_attribute().unwrap().value(dev).unwrap();
    dev.ok();
    for i in 0..8u64 {
        v.seek(dev, SeekFrom::Start(i * 2048 + 5)).unwrap();
    }
    for a in at {
        let n = dev.log.iter().filter(|x| x.0 == a).count();
        assert!(n <= 1, "a file record of the stream was read {n} times while seeking forward");
    }
}
