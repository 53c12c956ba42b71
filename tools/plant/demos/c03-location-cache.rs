//! Two threads open files of one `Ntfs`: one opens while the other is in the middle of opening.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}


fn build() -> Vol {
    let mut vol = Vol::new(512, 4096, 1024, &[]);
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info())]);
    vol.file(21, DIR, &[resident(0x10, "", 0, &std_info())]);
    vol
}
fn main() {
    let mut a = build().dev;
    let ntfs = std::sync::Arc::new(Ntfs::new(&mut a).unwrap());
    let plain = |n: u64| {
        let ntfs = ntfs.clone();
        let mut dev = build().dev;
        let f = ntfs.file(&mut dev, n).unwrap();
        (f.position().value().map(|x| x.get()), f.is_directory())
    };
    let alone: Vec<_> = [20, 21].iter().map(|n| plain(*n)).collect();
    assert!(alone[0] != alone[1]);
    for at in 0..60 {
        // After `at` device calls of this thread's `file(20)`, another thread opens 21.
        let other = ntfs.clone();
        a.log.clear();
        a.hook = Some(Box::new(move |n, _, _| {
            if n == at {
                let ntfs = other.clone();
                std::thread::spawn(move || {
                    let mut dev = build().dev;
                    assert!(ntfs.file(&mut dev, 21).unwrap().is_directory());
                })
                .join()
                .unwrap();
            }
            Act::Go
        }));
        let f = ntfs.file(&mut a, 20).unwrap();
        assert_eq!((f.position().value().map(|x| x.get()), f.is_directory()), alone[0]);
        drop(f);
        a.ok();
        for (i, n) in [20, 21, 20, 20, 21].iter().enumerate() {
            // One more open of each, from a fresh device.
            let _ = i;
            assert_eq!(plain(*n), alone[*n as usize - 20], "file({n}) is another file after a race at call {at}");
        }
    }
}
