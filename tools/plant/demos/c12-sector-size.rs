//! Volumes of all sector sizes.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for sector in [512u64, 1024, 2048, 4096] {
        for cluster in [sector, sector * 2, sector * 128] {
            let mut vol = Vol::new(sector, cluster, 4096.max(sector), &[]);
            vol.file(20, 0, &[resident(0x10, "", 0, &std_info())]);
            // The size in sectors, as a formatted volume has it.
            let size = vol.dev.size;
            let dev = &mut vol.dev;
            let ntfs = Ntfs::new(dev).unwrap();
            assert_eq!(ntfs.size(), size, "sector size {sector}, cluster size {cluster}");
            assert_eq!(ntfs.sector_size() as u64, sector);
            assert_eq!(ntfs.cluster_size() as u64, cluster);
            assert!(ntfs.file(dev, 20).is_ok());
        }
    }
}
