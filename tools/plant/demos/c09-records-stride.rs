//! Index records that are smaller than a cluster.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for (cluster, size) in [(8192u64, 4096usize), (4096, 1024), (4096, 4096), (512, 4096)] {
        let mut vol = Vol::new(512, cluster, 1024, &[]);
        let lcn = 500_000;
        let step = if cluster as usize > size { size / 512 } else { size / cluster as usize } as i64;
        for i in 0..8 {
            let r = index_record(i * step, size, 7, &[name_ent(30, &format!("n{i}"), None)], None);
            vol.dev.put(lcn * cluster + i as u64 * size as u64, &r);
        }
        vol.file(20, DIR, &[
            resident(0x10, "", 0, &std_info()),
            nonres(0xa0, "$I30", 2, 0, &[(Some(lcn as i64), (8 * size as u64 + cluster - 1) / cluster)], 8 * size as u64),
        ]);
        let dev = &mut vol.dev;
        let ntfs = Ntfs::new(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        let attr = file.attributes_raw().nth(1).unwrap().unwrap();
        let alloc = attr.structured_value::<_, NtfsIndexAllocation>(dev).unwrap();
        let mut records = alloc.records(size as u32);
        let mut got = vec![];
        while let Some(r) = records.next(dev) {
            got.push(r.unwrap().vcn().value());
        }
        assert_eq!(got, (0..8).map(|i| i * step).collect::<Vec<_>>());
    }
}
