//! A simulated disk: files with volatile and durable contents, writes that may
//! be short, interrupted, refused or torn, and reads that may be short,
//! interrupted or refused.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Default)]
pub struct File { pub cur: Vec<u8>, pub durable: Option<Vec<u8>> }

#[derive(Clone, Default)]
pub struct Disk { pub files: BTreeMap<String, File> }

/// Faults of one save or load. Offsets are bytes.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub struct DiskFault {
    /// 0 none, 1 EIO at `at`, 2 disk full at `at`, 3 sync fails, 4 crash at
    /// `at` (a phase beyond the data counts as after the write), 5 in-place
    /// overwrite torn by a crash at `at`, 6 element refuses, 7 element unwinds.
    pub kind: u8,
    pub at: u16,
    /// Largest number of bytes one call transfers; 0 is unlimited.
    pub chunk: u8,
    /// Every this many calls fail once with EINTR; 0 never.
    pub eintr: u8,
}

#[derive(Clone, Copy, Default)]
pub struct Io { pub calls: u64, pub eintr: u64, pub short: u64, pub hard: u64 }

pub struct Writer<'a> { pub out: &'a mut Vec<u8>, pub f: DiskFault, pub limit: usize, pub io: Io }

impl Write for Writer<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.io.calls += 1;
        if buf.is_empty() { return Ok(0); }
        if self.f.eintr != 0 && self.io.calls % u64::from(self.f.eintr) == 0 {
            self.io.eintr += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if self.f.chunk != 0 && n > self.f.chunk as usize { n = self.f.chunk as usize; self.io.short += 1; }
        let left = self.limit.saturating_sub(self.out.len());
        if left == 0 {
            self.io.hard += 1;
            return Err(if self.f.kind == 2 { io::Error::new(ErrorKind::StorageFull, "disk full") }
                else { io::Error::other("i/o error") });
        }
        let n = n.min(left);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub struct Reader<'a> { pub data: &'a [u8], pub pos: usize, pub f: DiskFault, pub limit: usize, pub io: Io }

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.io.calls += 1;
        if buf.is_empty() { return Ok(0); }
        if self.f.eintr != 0 && self.io.calls % u64::from(self.f.eintr) == 0 {
            self.io.eintr += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.pos >= self.limit && self.limit < self.data.len() {
            self.io.hard += 1;
            return Err(io::Error::other("i/o error"));
        }
        let mut n = buf.len().min(self.data.len().min(self.limit) - self.pos);
        if self.f.chunk != 0 && n > self.f.chunk as usize { n = self.f.chunk as usize; self.io.short += 1; }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Disk {
    pub fn crash(&mut self) {
        self.files.retain(|_, f| match f.durable.clone() {
            Some(d) => { f.cur = d; true }
            None => false,
        });
    }
    pub fn sync(&mut self, name: &str) {
        if let Some(f) = self.files.get_mut(name) { f.durable = Some(f.cur.clone()); }
    }
    /// Atomic rename, durable at once (the directory is synced).
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(f) = self.files.remove(from) { self.files.insert(to.to_string(), f); }
    }
    pub fn read(&self, name: &str) -> Option<&[u8]> { self.files.get(name).map(|f| &f.cur[..]) }
}
