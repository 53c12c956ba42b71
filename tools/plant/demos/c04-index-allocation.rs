//! The record with the $INDEX_ALLOCATION of a directory cannot be read.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let leaf = index_record(0, 4096, 7, &[name_ent(30, "aaa", None)], None);
    vol.dev.put(5000 * 512, &leaf);
    let list = [
        list_entry(0x10, "", 0, 20, 0),
        list_entry(0x90, "$I30", 0, 20, 1),
        list_entry(0xa0, "$I30", 0, 21, 2),
    ]
    .concat();
    vol.file(20, DIR, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x20, "", 5, &list),
        resident(0x90, "$I30", 1, &index_root(0x30, 4096, &[name_ent(31, "bbb", Some(0))], None)),
    ]);
    vol.file(21, 0, &[nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 8)], 4096)]);
    let at = vol.mft_at(21 * 1024);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    dev.ok();
    assert!(file.directory_index(dev).is_ok());
    let calls = dev.log.len();
    let _ = at;
    for k in 0..calls {
        for kind in [ErrorKind::TimedOut, ErrorKind::Other] {
            // From this call on, the device fails.
            dev.fail(k, usize::MAX, kind);
            let e = file.directory_index(dev).unwrap_err();
            assert_eq!(io_kind(&e), Some(kind), "device error reported as: {e}");
        }
    }
}
