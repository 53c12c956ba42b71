//! A lookup reads one index record per level.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    for i in 0..8 {
        let r = index_record(i * 8, 4096, 7, &[name_ent(30 + i as u64, &format!("{}A", (b'A' + 2 * i as u8) as char), None)], None);
        vol.dev.put((5000 + 8 * i as u64) * 512, &r);
    }
    let root: Vec<Ent> = (0..7).map(|i| name_ent(50 + i as u64, &format!("{}", (b'B' + 2 * i as u8) as char), Some(i * 8))).collect();
    vol.record = 1024;
    vol.file(20, DIR, &[
        resident(0x90, "$I30", 1, &index_root(0x30, 4096, &root[..4], Some(4 * 8))),
        nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 64)], 8 * 4096),
    ]);
    let dev = &mut vol.dev;
    let mut ntfs = Ntfs::new(dev).unwrap();
    ntfs.read_upcase_table(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    let mut f = index.finder();
    for (name, found) in [("aa", true), ("ca", true), ("ga", true), ("ia", true), ("d", true), ("zz", false)] {
        dev.ok();
        let got = NtfsFileNameIndex::find(&mut f, &ntfs, dev, name);
        assert_eq!(got.map(|x| x.unwrap().file_reference().file_record_number()).is_some(), found, "{name}");
        assert!(dev.bytes_read() <= 4096, "{} bytes read to look up {name}", dev.bytes_read());
    }
}
