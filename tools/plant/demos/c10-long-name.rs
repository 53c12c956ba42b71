//! Streams with long names.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    for n in [1usize, 100, 127, 128, 129, 200, 255] {
        let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x80, &name, 1, b"content")]);
        let dev = &mut vol.dev;
        let mut ntfs = Ntfs::new(dev).unwrap();
        ntfs.read_upcase_table(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        let mut names = vec![];
        for a in file.attributes_raw() {
            names.push(a.unwrap().name().unwrap().to_string_lossy());
        }
        assert_eq!(names, ["", name.as_str()]);
        let item = file.data(dev, &name).expect("stream not found").unwrap();
        assert_eq!(drain(&mut item.to_attribute().unwrap().value(dev).unwrap(), dev, 3), b"content");
    }
}
