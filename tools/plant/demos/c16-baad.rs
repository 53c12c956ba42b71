//! A file record with a foreign signature.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for sig in [b"BAAD", b"INDX", b"HOLE", b"CHKD", b"RSTR", b"RCRD", b"file", b"\0\0\0\0", b"FILF", b"GILE"] {
        let mut vol = Vol::plain();
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info())]);
        let at = vol.mft_at(20 * 1024);
        vol.dev.put(at, sig);
        let dev = &mut vol.dev;
        let ntfs = Ntfs::new(dev).unwrap();
        assert!(ntfs.file(dev, 20).is_err(), "{sig:?} accepted");
    }
}
