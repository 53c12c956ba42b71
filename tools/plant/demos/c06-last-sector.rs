//! An index record torn between two versions.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use mini::*;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

fn drain<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, chunk: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0; chunk];
    loop {
        let n = v.read(dev, &mut buf).unwrap();
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n]);
    }
}
fn io_kind(e: &NtfsError) -> Option<ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}

fn mixed(mask: u32, old: &[u8], new: &[u8]) -> Vec<u8> {
    old.chunks(512).zip(new.chunks(512)).enumerate().flat_map(|(i, (o, n))| if mask >> i & 1 == 1 { n } else { o }.to_vec()).collect()
}
fn main() {
    // An index record is rewritten; the crash leaves any mix of old and new sectors.
    for (u1, u2) in [(0x0101u16, 0x0102u16), (0x0102, 0x0202), (0xfffe, 0x0ffe)] {
        let list = |t: &str| (0..24).map(|i| name_ent(30 + i, &format!("name {i:02} {t} {}", "x".repeat(20)), None)).collect::<Vec<_>>();
        let old = index_record(0, 4096, u1, &list("old"), None);
        let new = index_record(0, 4096, u2, &list("new"), None);
        for mask in 0..256 {
            let mut vol = Vol::plain();
            vol.dev.put(5000 * 512, &mixed(mask, &old, &new));
            vol.file(20, DIR, &[
                resident(0x10, "", 0, &std_info()),
                resident(0x90, "$I30", 1, &index_root(0x30, 4096, &[], Some(0))),
                nonres(0xa0, "$I30", 2, 0, &[(Some(5000), 8)], 4096),
            ]);
            let dev = &mut vol.dev;
            let ntfs = Ntfs::new(dev).unwrap();
            let file = ntfs.file(dev, 20).unwrap();
            let index = file.directory_index(dev).unwrap();
            let mut it = index.entries();
            let (mut o, mut n, mut err) = (0, 0, 0);
            while let Some(e) = it.next(dev) {
                match e {
                    Ok(e) => {
                        let name = e.key().unwrap().unwrap().name().to_string_lossy();
                        if name.contains("old") { o += 1 } else { n += 1 }
                    }
                    Err(_) => {
                        err += 1;
                        break;
                    }
                }
            }
            match mask {
                0 => assert_eq!((o, n, err), (24, 0, 0)),
                255 => assert_eq!((o, n, err), (0, 24, 0)),
                _ => assert!(err == 1 && o + n == 0, "mask {mask:08b}, {u1:#x}/{u2:#x}: {o} old and {n} new entries delivered"),
            }
        }
    }
}
