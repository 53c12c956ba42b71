//! Retrying after a failed read of an Attribute List entry.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let names: Vec<String> = (0..30).map(|i| format!("stream number {i}")).collect();
    let list: Vec<u8> = names.iter().enumerate().flat_map(|(i, n)| list_entry(0x80, n, 0, 21, i as u16)).collect();
    let runs = [(Some(5000), 1), (Some(5100), 1), (Some(5300), 9)];
    vol.put_runs(&runs, &list);
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x20, "", 1, 0, &runs, list.len() as u64)]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let attr = file.attributes_raw().nth(1).unwrap().unwrap();
    let list = attr.structured_value::<_, NtfsAttributeList>(dev).unwrap();
    for nth in 0..40 {
        let mut it = list.entries();
        for (i, n) in names.iter().enumerate() {
            dev.fail(nth, nth + 1, ErrorKind::Other);
            let entry = match it.next(dev).expect("entry lost") {
                Ok(x) => x,
                Err(_) => {
                    dev.ok();
                    it.next(dev).expect("entry lost after an error").expect("no recovery")
                }
            };
            dev.ok();
            assert_eq!(entry.instance(), i as u16);
            assert!(entry.name() == n.as_str());
        }
        assert!(it.next(dev).is_none());
    }
}
