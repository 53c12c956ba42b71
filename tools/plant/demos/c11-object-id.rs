//! Object ids of all lengths.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for n in 1..=4usize {
        let mut vol = Vol::plain();
        let id = noise(5, 16 * n);
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x40, "", 1, &id)]);
        let dev = &mut vol.dev;
        let ntfs = Ntfs::new(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        let attr = file.attributes_raw().nth(1).unwrap().unwrap();
        let o = attr.resident_structured_value::<NtfsObjectId>().unwrap();
        let got = [Some(o.object_id()), o.birth_volume_id(), o.birth_object_id(), o.domain_id()];
        for (i, g) in got.iter().enumerate() {
            match g {
                Some(g) => assert_eq!(g.data4, id[16 * i + 8..16 * i + 16]),
                None => assert!(i >= n, "id {i} of {n} is missing"),
            }
        }
    }
}
