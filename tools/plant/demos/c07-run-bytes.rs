//! A data run header with an impossible byte count.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for header in 1..=255u8 {
        let mut vol = Vol::plain();
        let mut a = nonres(0x80, "", 1, 0, &[(Some(5000), 1), (Some(5100), 1), (Some(70000), 3), (Some(90), 2)], 512);
        a[64] = header;
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), a]);
        let dev = &mut vol.dev;
        let ntfs = Ntfs::new(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        let item = file.data(dev, "").unwrap().unwrap();
        if let Ok(mut v) = item.to_attribute().unwrap().value(dev) {
            let mut b = [0; 64];
            let _ = v.read(dev, &mut b);
        }
    }
}
