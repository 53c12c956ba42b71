//! Volumes of all cluster sizes.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for sector in [512u64, 1024, 2048, 4096] {
        for shift in 9..=21 {
            let cluster = 1u64 << shift;
            if cluster < sector {
                continue;
            }
            let mut vol = Vol::new(sector, cluster, 1024, &[]);
            vol.file(20, 0, &[resident(0x10, "", 0, &std_info())]);
            let dev = &mut vol.dev;
            let ntfs = Ntfs::new(dev).unwrap_or_else(|e| panic!("sector {sector}, cluster {cluster}: {e}"));
            assert_eq!(ntfs.cluster_size() as u64, cluster);
            assert!(ntfs.file(dev, 20).unwrap().info().is_ok());
        }
    }
}
