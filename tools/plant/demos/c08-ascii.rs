//! A volume whose up-case table swaps two letters.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    // The table lies at LCN 2448; here, "k" has no upper case and "q" becomes "Z".
    let at = ((1 << 20) / 512 + 400) * 512;
    vol.dev.put(at + 2 * 'k' as u64, &[b'k', 0]);
    vol.dev.put(at + 2 * 'q' as u64, &[b'Z', 0]);
    // Sorted by that table: A < K < Q < Zq == ZZ, k
    let list = [name_ent(30, "A", None), name_ent(31, "K", None), name_ent(32, "Q", None), name_ent(33, "Zq", None), name_ent(34, "k", None)];
    vol.file(20, DIR, &[resident(0x10, "", 0, &std_info()), resident(0x90, "$I30", 1, &index_root(0x30, 4096, &list, None))]);
    let dev = &mut vol.dev;
    let mut ntfs = Ntfs::new(dev).unwrap();
    ntfs.read_upcase_table(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    for (name, want) in [("a", Some(30)), ("K", Some(31)), ("k", Some(34)), ("zz", Some(33)), ("Q", Some(32)), ("q", None), ("qq", Some(33))] {
        let mut f = index.finder();
        let got = NtfsFileNameIndex::find(&mut f, &ntfs, dev, name).map(|e| e.unwrap().file_reference().file_record_number());
        assert_eq!(got, want, "looking for {name}");
    }
}
