//! The kind of a device error in the no_std build.
#![allow(unused_imports, dead_code, clippy::all)]
mod mini;
use binrw::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use mini::*;
use ntfs::structured_values::*;
use ntfs::*;

/// A plain device for the io traits of binrw without std.
struct Disk {
    data: Vec<u8>,
    pos: u64,
    bad: Option<(u64, u64)>,
}
impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let start = self.pos.min(self.data.len() as u64) as usize;
        let n = buf.len().min(self.data.len() - start);
        if let Some((a, b)) = self.bad {
            if self.pos < b && self.pos + n as u64 > a {
                return Err(Error::new(ErrorKind::TimedOut, "injected"));
            }
        }
        buf[..n].copy_from_slice(&self.data[start..start + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Disk {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.pos = match pos {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(n) => self.pos.wrapping_add(n as u64),
            SeekFrom::End(n) => (self.data.len() as u64).wrapping_add(n as u64),
        };
        Ok(self.pos)
    }
}
fn main() {
    let mut vol = Vol::plain();
    let list = [list_entry(0x10, "", 0, 20, 0), list_entry(0x30, "", 0, 21, 3)].concat();
    vol.dev.put(5000 * 512, &list);
    vol.file(20, 0, &[resident(0x10, "", 0, &std_info()), nonres(0x20, "", 1, 0, &[(Some(5000), 1)], list.len() as u64)]);
    vol.file(21, 0, &[resident(0x30, "", 3, &file_name(5, "far away", 1))]);
    let mut disk = Disk { data: vol.dev.get(0, 6000 * 512), pos: 0, bad: None };
    let ntfs = Ntfs::new(&mut disk).unwrap();
    let file = ntfs.file(&mut disk, 20).unwrap();
    assert!(file.name(&mut disk, None, None).unwrap().is_ok());
    disk.bad = Some((5000 * 512, 5001 * 512));
    match file.name(&mut disk, None, None) {
        Some(Err(NtfsError::Io(e))) if e.kind() == ErrorKind::TimedOut => {}
        x => panic!("a timeout of the device became {x:?}"),
    }
}
