//! The data of a file next to an attribute with a damaged name.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let mut prop = resident(0x50, "notes", 4, b"some value");
    p16(&mut prop, 10, 4000);
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), prop, resident(0x80, "", 1, b"content")]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    assert!(file.attributes_raw().nth(1).unwrap().unwrap().name().is_err());
    let item = file.data(dev, "").expect("data is missing").expect("data does not need the damaged name");
    let mut v = item.to_attribute().unwrap().value(dev).unwrap();
    assert_eq!(drain(&mut v, dev, 100), b"content");
}
