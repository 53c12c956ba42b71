//! A boot sector whose last bytes are damaged.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for (at, good) in [(510u64, 0x55u8), (511, 0xaa)] {
        for bad in [0, 0x54, 0x15, 0x5a, 0xff, 0xaa, 0x55] {
            if bad == good {
                continue;
            }
            let mut vol = Vol::plain();
            let dev = &mut vol.dev;
            assert!(Ntfs::new(dev).is_ok());
            dev.put(at, &[bad]);
            match Ntfs::new(dev) {
                Err(NtfsError::InvalidTwoByteSignature { position, .. }) => {
                    assert_eq!(position.value().unwrap().get(), 510)
                }
                Err(e) => panic!("reported as: {e}"),
                Ok(_) => panic!("byte {at} = {bad:#x} accepted"),
            }
        }
    }
}
