//! An inner node of an index in the place of another one.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    // Two inner nodes (VCN 0 and 8), two leaves each.
    let n0 = index_record(0, 4096, 7, &[name_ent(40, "B", Some(16))], Some(24));
    let n1 = index_record(8, 4096, 7, &[name_ent(41, "F", Some(32))], Some(40));
    let leaf = |vcn, no, name: &str| index_record(vcn, 4096, 7, &[name_ent(no, name, None)], None);
    let mut all = vec![n0.clone(), n1.clone(), leaf(16, 30, "A"), leaf(24, 31, "C"), leaf(32, 32, "E"), leaf(40, 33, "G")];
    for swap in [false, true] {
        if swap {
            all[0] = n1.clone();
        }
        for (i, r) in all.iter().enumerate() {
            vol.dev.put((5000 + 8 * i as u64) * 512, r);
        }
        vol.file(20, DIR, &[
            resident(0x10, "", 0, &std_info()),
            resident(0x90, "$I30", 1, &index_root(0x30, 4096, &[name_ent(42, "D", Some(0))], Some(8))),
            nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 48)], 6 * 4096),
        ]);
        let dev = &mut vol.dev;
        let mut ntfs = Ntfs::new(dev).unwrap();
        ntfs.read_upcase_table(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        let index = file.directory_index(dev).unwrap();
        let mut f = index.finder();
        for (name, no) in [("A", 30), ("B", 40), ("C", 31)] {
            match NtfsFileNameIndex::find(&mut f, &ntfs, dev, name) {
                Some(Ok(e)) => assert!(!swap && e.file_reference().file_record_number() == no),
                Some(Err(_)) => assert!(swap),
                None => panic!("an index record from a wrong place was accepted while looking for {name}"),
            }
        }
    }
}
