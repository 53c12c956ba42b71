//! What lies in front of a bad data run.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let list: Vec<Run> = vec![(Some(5000), 2), (Some(6000), 3), (Some(7000), 2)];
    let data = noise(9, 7 * 512);
    vol.put_runs(&list, &data);
    let mut attr = nonres(0x80, "", 1, 0, &list, data.len() as u64);
    // The header byte of the third run.
    let third = 64 + runs(&list[..2]).len() - 1;
    attr[third] = 0x1f;
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), attr]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let mut v = item.to_attribute().unwrap().value(dev).expect("the first run is intact");
    let mut buf = vec![0; 5 * 512];
    v.read_exact(dev, &mut buf).unwrap();
    assert_eq!(buf, data[..5 * 512]);
    assert!(v.read(dev, &mut buf).is_err());
    v.seek(dev, SeekFrom::Start(100)).unwrap();
    v.read_exact(dev, &mut buf[..1000]).unwrap();
    assert_eq!(buf[..1000], data[100..1100]);
}
