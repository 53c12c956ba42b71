//! A hard-linked file asked for its name in one directory.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    vol.file(20, 0, &[
        resident(0x10, "", 0, &std_info()),
        resident(0x30, "", 1, &file_name(5, "in five", 1)),
        resident(0x30, "", 2, &file_name(40, "in forty", 1)),
        resident(0x30, "", 3, &file_name(40, "IN40~1", 2)),
    ]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let get = |dev: &mut Dev, ns, parent| file.name(dev, ns, parent).map(|x| x.unwrap().name().to_string_lossy());
    let win = Some(NtfsFileNamespace::Win32);
    assert_eq!(get(dev, None, Some(40)).as_deref(), Some("in forty"));
    assert_eq!(get(dev, win, Some(40)).as_deref(), Some("in forty"));
    assert_eq!(get(dev, win, Some(5)).as_deref(), Some("in five"));
    assert_eq!(get(dev, win, Some(6)), None);
    assert_eq!(get(dev, Some(NtfsFileNamespace::Dos), Some(5)), None);
}
