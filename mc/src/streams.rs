//! Streams whose every answer is decided by the explorer.

use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};

/// What the environment does at one operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// Deliver or accept a single byte.
    Short,
    Interrupted,
    Fail(ErrorKind),
    /// Accept nothing (writers only).
    Zero,
}

pub const MESSAGE: &str = "injected fault 7f3a";

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Most bytes moved by one operation, 0 for no limit.
    pub chunk: usize,
    /// Alternate between one byte and `chunk`.
    pub ragged: bool,
    /// Faults at read or write operations, by number.
    pub data: Vec<(usize, Fault)>,
    /// Faults at seek operations, by number.
    pub seeks: Vec<(usize, Fault)>,
    pub flushes: Vec<(usize, Fault)>,
    /// Total bytes a sink accepts before it fails.
    pub room: Option<usize>,
    /// A full sink accepts nothing instead of failing.
    pub full_is_zero: bool,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Ops {
    pub data: usize,
    pub seeks: usize,
    pub flushes: usize,
    /// Faults that were delivered as errors.
    pub failed: usize,
    pub interrupted: usize,
    pub moved: usize,
}

impl Plan {
    fn at(list: &[(usize, Fault)], n: usize) -> Option<Fault> {
        list.iter().find(|x| x.0 == n).map(|x| x.1)
    }
    fn cap(&self, op: usize, want: usize) -> usize {
        let c = if self.ragged && op % 2 == 0 {
            1
        } else {
            self.chunk
        };
        if c == 0 {
            want
        } else {
            want.min(c)
        }
    }
    fn raise(f: Option<Fault>, ops: &mut Ops) -> io::Result<bool> {
        match f {
            None => Ok(false),
            Some(Fault::Short) => Ok(true),
            Some(Fault::Interrupted) => {
                ops.interrupted += 1;
                Err(ErrorKind::Interrupted.into())
            }
            Some(Fault::Fail(k)) => {
                ops.failed += 1;
                Err(io::Error::new(k, MESSAGE))
            }
            Some(Fault::Zero) => Ok(false),
        }
    }
}

pub struct Source<'a> {
    pub bytes: &'a [u8],
    pub pos: u64,
    pub plan: &'a Plan,
    pub ops: Ops,
}

impl<'a> Source<'a> {
    pub fn new(bytes: &'a [u8], plan: &'a Plan) -> Source<'a> {
        Source {
            bytes,
            pos: 0,
            plan,
            ops: Ops::default(),
        }
    }
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let op = self.ops.data;
        self.ops.data += 1;
        let short = Plan::raise(Plan::at(&self.plan.data, op), &mut self.ops)?;
        let rest = &self.bytes[(self.pos as usize).min(self.bytes.len())..];
        let mut n = self.plan.cap(op, buf.len()).min(rest.len());
        if short {
            n = n.min(1);
        }
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n as u64;
        self.ops.moved += n;
        Ok(n)
    }
}

fn target(pos: u64, len: u64, to: SeekFrom) -> io::Result<u64> {
    let p = match to {
        SeekFrom::Start(n) => return Ok(n),
        SeekFrom::Current(d) => pos as i128 + d as i128,
        SeekFrom::End(d) => len as i128 + d as i128,
    };
    u64::try_from(p).map_err(|_| io::Error::new(ErrorKind::InvalidInput, "seek before start"))
}

impl Seek for Source<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let op = self.ops.seeks;
        self.ops.seeks += 1;
        Plan::raise(Plan::at(&self.plan.seeks, op), &mut self.ops)?;
        self.pos = target(self.pos, self.bytes.len() as u64, to)?;
        Ok(self.pos)
    }
}

pub struct Sink<'a> {
    pub bytes: Vec<u8>,
    pub pos: u64,
    pub plan: &'a Plan,
    pub ops: Ops,
}

impl<'a> Sink<'a> {
    pub fn new(bytes: Vec<u8>, pos: u64, plan: &'a Plan) -> Sink<'a> {
        Sink {
            bytes,
            pos,
            plan,
            ops: Ops::default(),
        }
    }
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let op = self.ops.data;
        self.ops.data += 1;
        let f = Plan::at(&self.plan.data, op);
        let short = Plan::raise(f, &mut self.ops)?;
        if f == Some(Fault::Zero) {
            self.ops.failed += 1;
            return Ok(0);
        }
        let mut n = self.plan.cap(op, buf.len());
        if short {
            n = n.min(1);
        }
        if let Some(room) = self.plan.room {
            n = n.min(room - self.ops.moved.min(room));
            if n == 0 {
                self.ops.failed += 1;
                return if self.plan.full_is_zero {
                    Ok(0)
                } else {
                    Err(io::Error::new(ErrorKind::StorageFull, MESSAGE))
                };
            }
        }
        let p = self.pos as usize;
        if self.bytes.len() < p + n {
            self.bytes.resize(p + n, 0);
        }
        self.bytes[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        self.ops.moved += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let op = self.ops.flushes;
        self.ops.flushes += 1;
        Plan::raise(Plan::at(&self.plan.flushes, op), &mut self.ops)?;
        Ok(())
    }
}

impl Seek for Sink<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let op = self.ops.seeks;
        self.ops.seeks += 1;
        Plan::raise(Plan::at(&self.plan.seeks, op), &mut self.ops)?;
        self.pos = target(self.pos, self.bytes.len() as u64, to)?;
        Ok(self.pos)
    }
}
