//! An MFT with a small first fragment.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for first in [1u64, 5, 11, 12, 16] {
        // 1 KiB records in 512-byte clusters; 64 records take 128 clusters.
        let mut vol = Vol::new(512, 512, 1024, &[(Some(300), 2 * first + 1), (Some(900), 20), (Some(600), 200)]);
        for no in [3, 5, 11, 12, 15, 40] {
            vol.file(no, 0, &[resident(0x10, "", 0, &std_info())]);
        }
        let dev = &mut vol.dev;
        let mut ntfs = Ntfs::new(dev).unwrap();
        for no in [0, 3, 5, 10, 11, 12, 15, 40] {
            let file = ntfs.file(dev, no).unwrap_or_else(|e| panic!("record {no}: {e}"));
            assert!(file.info().is_ok());
        }
        ntfs.read_upcase_table(dev).unwrap();
    }
}
