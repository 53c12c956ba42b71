//! Index roots that end in the middle of the node header.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    for n in 24..40 {
        let mut root = index_root(0x30, 4096, &[], None);
        p32(&mut root, 16, 0);
        p32(&mut root, 20, (n - 16) as u32);
        p32(&mut root, 24, (n - 16) as u32);
        let mut a = resident(0x90, "$I30", 1, &root);
        p32(&mut a, 16, n as u32);
        vol.file(20, DIR, &[resident(0x10, "", 0, &std_info()), a]);
        let dev = &mut vol.dev;
        let ntfs = Ntfs::new(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap();
        for a in file.attributes_raw() {
            let a = a.unwrap();
            if a.ty().unwrap() == NtfsAttributeType::IndexRoot {
                if let Ok(root) = a.resident_structured_value::<NtfsIndexRoot>() {
                    let _ = (root.is_large_index(), root.index_data_size(), root.index_allocated_size());
                }
            }
        }
        let _ = file.directory_index(dev).map(|i| i.entries().next(dev).is_some());
    }
}
