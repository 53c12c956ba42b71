//! An attribute at the end of a record whose name is too long.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    for at_end in [8usize, 100, 400] {
        let fill = resident(0x80, "fill", 1, &vec![1; 1024 - 56 - 96 - 200 - at_end]);
        let mut bad = resident(0x80, "n", 2, b"x");
        bad[9] = 255;
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), fill, bad]);
        let dev = &mut vol.dev;
        let mut ntfs = Ntfs::new(dev).unwrap();
        ntfs.read_upcase_table(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        for a in file.attributes_raw() {
            let _ = a.unwrap().name();
        }
        let _ = file.data(dev, "n");
    }
}
