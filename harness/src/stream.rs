//! The stream under the library: in memory, observed, and able to misbehave.
//!
//! Several handles share one store, like several opened files on one path. The store
//! records which byte ranges each call wrote and read, can split transfers, report
//! interruptions, fail individual operations, run full, and present a large
//! computed ("virtual") range of samples without holding it in memory.

use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Read,
    Write,
    Seek,
}
#[derive(Clone, Debug)]
pub struct Fault {
    pub op: Op,
    /// Operations of this kind that still succeed.
    pub after: u64,
    /// Operations that fail from then on (u64::MAX: all).
    pub count: u64,
    pub kind: ErrorKind,
    /// Report success without transferring anything (writes only).
    pub zero: bool,
}
/// Samples of one channel set computed on demand at [start, end).
pub struct Virtual {
    pub start: u64,
    pub end: u64,
    pub byte: Box<dyn Fn(u64) -> u8>,
}
/// Computed samples one call may fetch: scripts ask for a few, of gigabytes.
const MOST_FETCHED: u64 = 1 << 28;
#[derive(Default)]
pub struct Store {
    pub data: Vec<u8>,
    pub virt: Vec<Virtual>,
    pub wlog: Vec<(u64, u64)>,
    pub rlog: Vec<(u64, u64)>,
    pub fault: Option<Fault>,
    pub fired: bool,
    pub split: Option<Rng>,
    pub capacity: Option<u64>,
    /// Computed bytes fetched since the log was cleared.
    pub fetched: u64,
    pub reads: u64,
    pub writes: u64,
}
impl Store {
    pub fn len(&self) -> u64 {
        self.data.len() as u64 + self.virt.iter().map(|v| v.end - v.start).sum::<u64>()
    }
    /// The virtual range at a position, or the index into the real data and
    /// the number of bytes until the next virtual range.
    fn locate(&self, pos: u64) -> std::result::Result<(usize, u64), usize> {
        let mut index = pos;
        for (i, v) in self.virt.iter().enumerate() {
            if pos < v.start {
                return Ok((index as usize, v.start - pos));
            }
            if pos < v.end {
                return Err(i);
            }
            index -= v.end - v.start;
        }
        Ok((index as usize, u64::MAX))
    }
    fn fails(&mut self, op: Op) -> Option<(ErrorKind, bool)> {
        let f = self.fault.as_mut()?;
        if f.op != op {
            return None;
        }
        if f.after > 0 {
            f.after -= 1;
            return None;
        }
        if f.count == 0 {
            return None;
        }
        if f.count != u64::MAX {
            f.count -= 1;
        }
        let r = (f.kind, f.zero);
        self.fired = true;
        Some(r)
    }
    fn log(log: &mut Vec<(u64, u64)>, pos: u64, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(last) = log.last_mut()
            && last.0 + last.1 == pos
        {
            last.1 += n;
            return;
        }
        log.push((pos, n));
    }
}

#[derive(Clone)]
pub struct SimStream {
    pub store: Rc<RefCell<Store>>,
    pub pos: u64,
}

impl Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut s = self.store.borrow_mut();
        let s = &mut *s;
        s.reads += 1;
        if let Some((kind, _)) = s.fails(Op::Read) {
            return Err(Error::new(kind, "injected"));
        }
        let left = s.len().saturating_sub(self.pos);
        let mut n = (buf.len() as u64).min(left) as usize;
        if let Some(rng) = &mut s.split {
            if rng.chance(20) {
                return Err(Error::from(ErrorKind::Interrupted));
            }
            if n > 1 && rng.chance(80) {
                let most = n.min(1 + rng.below(16));
                n = rng.range(1, most);
            }
        }
        if n > 0 {
            match s.locate(self.pos) {
                Ok((i, most)) => {
                    n = (n as u64).min(most) as usize;
                    buf[..n].copy_from_slice(&s.data[i..i + n]);
                }
                Err(i) => {
                    let v = &s.virt[i];
                    if s.fetched > MOST_FETCHED {
                        return Err(Error::other("no call needs that much"));
                    }
                    n = (n as u64).min(v.end - self.pos) as usize;
                    for (k, b) in buf[..n].iter_mut().enumerate() {
                        *b = (v.byte)(self.pos + k as u64 - v.start);
                    }
                    s.fetched += n as u64;
                }
            }
        }
        Store::log(&mut s.rlog, self.pos, n as u64);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for SimStream {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.store.borrow_mut();
        let s = &mut *s;
        s.writes += 1;
        if let Some((kind, zero)) = s.fails(Op::Write) {
            return if zero { Ok(0) } else { Err(Error::new(kind, "injected")) };
        }
        let mut n = buf.len();
        if let Some(rng) = &mut s.split {
            if rng.chance(20) {
                return Err(Error::from(ErrorKind::Interrupted));
            }
            if n > 1 && rng.chance(80) {
                let most = n.min(1 + rng.below(16));
                n = rng.range(1, most);
            }
        }
        if let Some(cap) = s.capacity {
            let room = cap.saturating_sub(self.pos);
            if room == 0 && n > 0 {
                s.fired = true;
                return Err(Error::new(ErrorKind::StorageFull, "injected"));
            }
            n = n.min(room as usize);
        }
        if n > 0 {
            // writing into a virtual range is never right: keep it visible in the log only
            if let Ok((p, most)) = s.locate(self.pos) {
                n = (n as u64).min(most) as usize;
                if s.data.len() < p + n {
                    s.data.resize(p + n, 0);
                }
                s.data[p..p + n].copy_from_slice(&buf[..n]);
            }
        }
        Store::log(&mut s.wlog, self.pos, n as u64);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut s = self.store.borrow_mut();
        s.writes += 1;
        if s.fault.as_ref().is_some_and(|f| f.zero) {
            return Ok(());
        }
        match s.fails(Op::Write) {
            Some((kind, _)) => Err(Error::new(kind, "injected")),
            None => Ok(()),
        }
    }
}
impl Seek for SimStream {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let bad = || Error::new(ErrorKind::InvalidInput, "seek");
        let len = self.store.borrow().len();
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => len.checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        if let Some((kind, _)) = self.store.borrow_mut().fails(Op::Seek) {
            return Err(Error::new(kind, "injected"));
        }
        // like a real file: offsets are signed
        match p {
            Some(p) if p <= i64::MAX as u64 => {
                self.pos = p;
                Ok(p)
            }
            _ => Err(bad()),
        }
    }
}
