//! A file record of which one sector is still of the previous version.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    // Both versions carry the same payload in the last two bytes of every sector, as unused space does.
    let mut vol = Vol::plain();
    let make = |vol: &Vol, t: u8, usn: u16| {
        let mut v = vol.build(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x80, "", 1, &vec![t; 700])]);
        for s in 0..2 {
            p16(&mut v, s * 512 + 510, 0x2a2a);
        }
        protect(&mut v, 48, usn);
        v
    };
    for (u1, u2) in [(7u16, 8u16), (0x2a29, 0x2a2a), (0x2a2a, 0x2a2b), (0xffff, 1)] {
        let (old, new) = (make(&vol, 0xaa, u1), make(&vol, 0xbb, u2));
        for mask in 0..4 {
            let mixed: Vec<u8> = (0..2).flat_map(|s| if mask >> s & 1 == 1 { &new } else { &old }[s * 512..s * 512 + 512].to_vec()).collect();
            vol.put_record(20, &mixed);
            let dev = &mut vol.dev;
            let ntfs = Ntfs::new(dev).unwrap();
            match ntfs.file(dev, 20) {
                Err(_) => assert!(mask == 1 || mask == 2, "a whole record is refused"),
                Ok(file) => {
                    let item = file.data(dev, "").unwrap().unwrap();
                    let data = drain(&mut item.to_attribute().unwrap().value(dev).unwrap(), dev, 99);
                    let want = if mask & 1 == 1 { 0xbb } else { 0xaa };
                    let strange = data.iter().filter(|b| **b != want && **b != 0x2a).count();
                    assert_eq!(strange, 0, "mask {mask:02b}, {u1:#x} to {u2:#x}: bytes of the other version");
                }
            }
        }
    }
}
