//! A torn record with an update sequence number of zero.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let rec = vol.build(20, 0, &[resident(0x10, "", 0, &std_info()), resident(0x80, "", 1, &noise(3, 500))]);
    let mut whole = rec.clone();
    protect(&mut whole, 48, 0);
    vol.put_record(20, &whole);
    let ntfs = Ntfs::new(&mut vol.dev).unwrap();
    assert!(ntfs.file(&mut vol.dev, 20).is_ok());
    // The second sector still has an older version.
    let mut old = rec.clone();
    old[600..700].copy_from_slice(&noise(4, 100));
    protect(&mut old, 48, 0xfffe);
    let mut torn = whole.clone();
    torn[512..].copy_from_slice(&old[512..]);
    vol.put_record(20, &torn);
    assert!(ntfs.file(&mut vol.dev, 20).is_err(), "a torn record was accepted");
}
