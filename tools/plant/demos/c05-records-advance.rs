//! Retrying after a failed read of an index record.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    for i in 0..4 {
        let r = index_record(i * 8, 4096, 7, &[name_ent(30, &format!("n{i}"), None)], None);
        vol.dev.put((5000 + 8 * i as u64) * 512, &r);
    }
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 32)], 4 * 4096),
    ]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let attr = file.attributes_raw().nth(1).unwrap().unwrap();
    let alloc = attr.structured_value::<_, NtfsIndexAllocation>(dev).unwrap();
    let mut records = alloc.records(4096);
    for i in 0..4i64 {
        dev.fail_at((5000 + 8 * i as u64) * 512, (5001 + 8 * i as u64) * 512, ErrorKind::Other);
        assert!(records.next(dev).unwrap().is_err());
        dev.ok();
        let r = records.next(dev).expect("record lost after an error").unwrap();
        assert_eq!(r.vcn().value(), i * 8);
    }
    assert!(records.next(dev).is_none());
}
