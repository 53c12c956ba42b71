//! Names that only differ in the highest bit of a character.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let names = ["A\u{0042}", "A\u{4e00}", "A\u{8042}", "A\u{ce00}", "\u{5b57}"];
    let mut names: Vec<Vec<u16>> = names.iter().map(|n| n.encode_utf16().collect()).collect();
    names.push(vec![0xdb57, 0xdc00]);
    names.sort();
    let mut vol = Vol::plain();
    let list: Vec<Ent> = names
        .iter()
        .enumerate()
        .map(|(i, n)| {
            let mut e = name_ent(30 + i as u64, &"x".repeat(n.len()), None);
            for (k, c) in n.iter().enumerate() {
                p16(&mut e.key, 66 + 2 * k, *c);
            }
            e
        })
        .collect();
    vol.file(20, DIR, &[resident(0x10, "", 0, &std_info()), resident(0x90, "$I30", 1, &index_root(0x30, 4096, &list, None))]);
    let dev = &mut vol.dev;
    let mut ntfs = Ntfs::new(dev).unwrap();
    ntfs.read_upcase_table(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let index = file.directory_index(dev).unwrap();
    let mut f = index.finder();
    for (i, n) in names.iter().enumerate() {
        let name = String::from_utf16(n).unwrap();
        let e = NtfsFileNameIndex::find(&mut f, &ntfs, dev, &name).unwrap_or_else(|| panic!("{name:?} not found")).unwrap();
        assert_eq!(e.file_reference().file_record_number(), 30 + i as u64, "{name:?}");
    }
    for absent in ["A\u{8041}", "A\u{4e01}", "B\u{8042}", "\u{8041}"] {
        assert!(NtfsFileNameIndex::find(&mut f, &ntfs, dev, absent).is_none(), "{absent:?}");
    }
}
