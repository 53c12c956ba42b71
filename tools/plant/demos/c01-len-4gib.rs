//! Reading at exact multiples of 4 GiB before the end of a large sparse stream.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn main() {
    let mut vol = Vol::new(512, 4096, 1024, &[]);
    let clusters = 3u64 << 20;
    let runs = [(None, clusters - 1), (Some(5000), 1), (Some(6000), 1)];
    let tail = noise(7, 4096 + 100);
    vol.put_runs(&runs, &[vec![0; 0], vec![]].concat());
    vol.dev.put(5000 * 4096, &tail[..4096]);
    vol.dev.put(6000 * 4096, &tail[4096..]);
    let size = clusters * 4096 + 100;
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x80, "", 1, 0, &runs, size)]);
    let dev = &mut vol.dev;
    let ntfs = Ntfs::new(dev).unwrap();
    let file = ntfs.file(dev, 20).unwrap();
    let item = file.data(dev, "").unwrap().unwrap();
    let attr = item.to_attribute().unwrap();
    for back in [4096 + 100u64, 1 << 32, 2 << 32, (1 << 32) - 1, (1 << 32) + 1] {
        let mut v = attr.value(dev).unwrap();
        assert_eq!(v.seek(dev, SeekFrom::Start(size - back)).unwrap(), size - back);
        let mut got = vec![0xee; 1000];
        v.read_exact(dev, &mut got).unwrap();
        let want: Vec<u8> = if back == 4196 { tail[..1000].to_vec() } else { vec![0; 1000] };
        assert!(got == want, "wrong bytes {back} before the end");
        assert_eq!(v.stream_position(), size - back + 1000);
    }
}
