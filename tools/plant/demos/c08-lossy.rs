//! Names with unpaired surrogates.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn ent16(no: u64, units: &[u16]) -> Ent {
    let mut key = file_name(5, &"x".repeat(units.len()), 0);
    for (i, u) in units.iter().enumerate() {
        p16(&mut key, 66 + 2 * i, *u);
    }
    Ent { head: fref(no), key, sub: None }
}
fn main() {
    let mut vol = Vol::plain();
    // By UTF-16 code unit: U+D800 and U+DC01 (both unpaired) come before U+E123 and U+FFFD.
    let list = [ent16(30, &[0x41]), ent16(31, &[0xd800]), ent16(32, &[0xdc01]), ent16(33, &[0xe123]), ent16(34, &[0xfffd])];
    vol.file(20, DIR, &[resident(0x10, "", 0, &std_info()), resident(0x90, "$I30", 1, &index_root(0x30, 4096, &list, None))]);
    let dev = &mut vol.dev;
    let mut ntfs = Ntfs::new(dev).unwrap();
    ntfs.read_upcase_table(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    for (name, want) in [("a", Some(30)), ("\u{e123}", Some(33)), ("\u{fffd}", Some(34)), ("\u{e000}", None)] {
        let mut f = index.finder();
        let got = NtfsFileNameIndex::find(&mut f, &ntfs, dev, name).map(|e| e.unwrap().file_reference().file_record_number());
        assert_eq!(got, want, "looking for {name:?}");
    }
}
