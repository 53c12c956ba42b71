//! A file that has had hundreds of attributes in its time.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let ids = [3u16, 0x103, 0x203, 5, 0x105];
    let mut list = list_entry(0x10, "", 0, 20, 0);
    for (i, id) in ids.iter().enumerate() {
        list.extend(list_entry(0x80, &format!("s{i}"), 0, 21, *id));
    }
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x20, "", 1, &list)]);
    let attrs: Vec<Vec<u8>> = ids.iter().enumerate().map(|(i, id)| resident(0x80, &format!("s{i}"), *id, &[i as u8; 9])).collect();
    vol.file(21, 0, &attrs);
    let dev = &mut vol.dev;
    let mut ntfs = Ntfs::new(dev).unwrap();
    ntfs.read_upcase_table(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let mut it = file.attributes();
    let mut seen = vec![];
    while let Some(item) = it.next(dev) {
        let item = item.unwrap();
        let a = item.to_attribute().unwrap();
        seen.push((a.name().unwrap().to_string_lossy(), a.instance()));
    }
    assert_eq!(seen.len(), 6);
    for (i, id) in ids.iter().enumerate() {
        assert_eq!(seen[i + 1], (format!("s{i}"), *id));
        let item = file.data(dev, &format!("s{i}")).expect("stream not found").unwrap();
        let data = drain(&mut item.to_attribute().unwrap().value(dev).unwrap(), dev, 4);
        assert_eq!(data, [i as u8; 9]);
    }
}
