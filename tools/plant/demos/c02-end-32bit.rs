//! Seeks from the end of a huge sparse stream.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::plain();
    let tail = noise(8, 4096);
    // 12 GiB: sparse but for the first and the last 4 KiB.
    let all = (12u64 << 30) / 512;
    let runs = [(Some(5000i64), 8u64), (None, all - 16), (Some(9000), 8)];
    vol.dev.put(5000 * 512, &noise(7, 4096));
    vol.dev.put(9000 * 512, &tail);
    let len = all * 512;
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x80, "", 1, 0, &runs, len)]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let mut v = item.to_attribute().unwrap().value(dev).unwrap();
    assert_eq!(v.len(), len);
    for back in [0u64, 1, 4095, 4096, 5000, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 100, 9 << 30, len - 4096, len] {
        assert_eq!(v.seek(dev, SeekFrom::End(-(back as i64))).unwrap(), len - back, "{back} before the end");
        assert_eq!(v.stream_position(), len - back);
        let mut b = [0; 16];
        let n = v.read(dev, &mut b).unwrap();
        assert_eq!(n as u64, back.min(16));
        if back <= 4096 {
            assert!(b[..n] == tail[4096 - back as usize..][..n]);
        }
    }
    assert!(v.seek(dev, SeekFrom::End(-(len as i64) - 1)).is_err());
}
