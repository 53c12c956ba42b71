//! Reading and seeking within a fragment.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let data = noise(4, 20 * 512);
    let runs = [(Some(5000i64), 12u64), (Some(7000), 8)];
    vol.put_runs(&runs, &data);
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x80, "", 1, 0, &runs, data.len() as u64)]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let mut v = item.to_attribute().unwrap().value(dev).unwrap();
    let mut pos = 0usize;
    for step in [100usize, 0, 333, 2000, 1, 3000, 1500] {
        let mut b = [0; 50];
        v.read_exact(dev, &mut b).unwrap();
        assert!(b[..] == data[pos..pos + 50], "at {pos}");
        pos += 50 + step;
        assert_eq!(v.seek(dev, SeekFrom::Current(step as i64)).unwrap(), pos as u64);
    }
}
