//! Every read of the device returns less than asked for.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    for n in [1usize, 7, 511, 512, 513, 700, 1023] {
        let mut vol = Vol::plain();
        let data = noise(9, 1300);
        let runs = [(Some(5000i64), 2u64), (Some(6000), 1)];
        vol.put_runs(&runs, &data);
        vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x80, "", 1, 0, &runs, 1300)]);
        let dev = &mut vol.dev;
        dev.hook = Some(Box::new(move |_, _, _| Act::Short(n)));
        let ntfs = Ntfs::new(dev).unwrap();
        let file = ntfs.file(dev, 20).unwrap_or_else(|e| panic!("short reads of {n}: {e}"));
        let item = file.data(dev, "").unwrap().unwrap();
        let mut v = item.to_attribute().unwrap().value(dev).unwrap();
        assert!(drain(&mut v, dev, 600) == data, "wrong bytes with short reads of {n}");
    }
}
