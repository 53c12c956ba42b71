//! A damaged $FILE_NAME is not skipped.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let mut bad = file_name(5, "first", 1);
    bad[64] = 200;
    vol.file(20, 0, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x30, "", 2, &bad),
        resident(0x30, "", 3, &file_name(6, "second", 1)),
    ]);
    vol.file(21, 0, &[resident(0x10, "", 0, &std_info()), resident(0x30, "", 2, &bad)]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    for n in [20, 21] {
        let file = ntfs.file(dev, n).unwrap();
        match file.name(dev, None, None) {
            Some(Err(_)) => (),
            Some(Ok(n)) => panic!("got {}", n.name().to_string_lossy()),
            None => panic!("the name is reported as absent"),
        }
    }
}
