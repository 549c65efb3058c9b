//! An in-memory file that follows a deviation plan: failing calls, short transfers, interrupted calls.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dev {
    /// well behaved
    None,
    /// call number k fails (and, if sticky, every later one)
    Fail { k: usize, kind: ErrorKind, sticky: bool },
    /// every transfer moves at most n bytes
    Cap(usize),
    /// only transfer number k is short (at most n bytes)
    CapAt { k: usize, n: usize },
    /// transfer number k is interrupted once
    IntrAt(usize),
    /// every other transfer is interrupted
    IntrAlt,
    /// every other transfer is interrupted, the others move one byte
    IntrCap(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Read,
    Seek,
    Write,
    Trunc,
    Len,
}
pub struct Fio {
    pub data: Vec<u8>,
    pub pos: u64,
    pub dev: Dev,
    /// number of calls so far
    pub n: usize,
    /// number of transfers (reads and writes) so far
    pub x: usize,
    /// operation that was made to fail
    pub failed: Option<Op>,
    pub deviated: bool,
    pub ops: Vec<Op>,
    limit: usize,
    alt: bool,
    len_calls: std::cell::Cell<usize>,
}
impl Fio {
    pub fn new(data: &[u8], dev: Dev) -> Self {
        Fio { data: data.to_vec(), pos: 0, dev, n: 0, x: 0, failed: None, deviated: false, ops: Vec::new(), limit: 2_000_000 + 400 * data.len(), alt: false, len_calls: std::cell::Cell::new(0) }
    }
    pub fn at(mut self, pos: u64) -> Self {
        self.pos = pos;
        self
    }
    fn tick(&mut self, op: Op) -> Result<()> {
        let k = self.n;
        self.n += 1;
        if matches!(self.dev, Dev::None) {
            self.ops.push(op);
        }
        assert!(self.n < self.limit, "HANG: too many I/O calls");
        if let Dev::Fail { k: f, kind, sticky } = self.dev {
            if k == f || (sticky && k > f) {
                if self.failed.is_none() {
                    self.failed = Some(op);
                }
                self.deviated = true;
                bt_note();
                return Err(Error::new(kind, "injected fault"));
            }
        }
        Ok(())
    }
    /// how many bytes the next transfer of up to `want` bytes may move
    fn grant(&mut self, want: usize) -> Result<usize> {
        let k = self.x;
        self.x += 1;
        let intr = |s: &mut Self| {
            s.deviated = true;
            Err(Error::new(ErrorKind::Interrupted, "interrupted"))
        };
        match self.dev {
            Dev::Cap(n) if want > n => {
                self.deviated = true;
                Ok(n)
            }
            Dev::CapAt { k: f, n } if f == k && want > n => {
                self.deviated = true;
                Ok(n)
            }
            Dev::IntrAt(f) if f == k => intr(self),
            Dev::IntrAlt => {
                self.alt = !self.alt;
                if self.alt {
                    intr(self)
                } else {
                    Ok(want)
                }
            }
            Dev::IntrCap(n) => {
                self.alt = !self.alt;
                if self.alt {
                    intr(self)
                } else {
                    Ok(want.min(n))
                }
            }
            _ => Ok(want),
        }
    }
}
impl Read for Fio {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.tick(Op::Read)?;
        let left = self.data.len().saturating_sub(self.pos as usize);
        let want = buf.len().min(left);
        let n = if buf.is_empty() { 0 } else { self.grant(want)? };
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos as usize..][..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Fio {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.tick(Op::Write)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.grant(buf.len())?;
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Fio {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.tick(Op::Seek)?;
        let (b, o) = match s {
            SeekFrom::Start(n) => {
                self.pos = n;
                return Ok(n);
            }
            SeekFrom::End(o) => (self.data.len() as u64, o),
            SeekFrom::Current(o) => (self.pos, o),
        };
        match b.checked_add_signed(o) {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "invalid seek to a negative or overflowing position")),
        }
    }
}
impl lofty::io::Truncate for Fio {
    fn truncate(&mut self, n: u64) -> Result<()> {
        self.tick(Op::Trunc)?;
        self.data.resize(n as usize, 0);
        Ok(())
    }
}
impl lofty::io::Length for Fio {
    fn len(&self) -> Result<u64> {
        // numbered independently of the other calls (no mutable access): the first failing Len is simulated separately
        let c = self.len_calls.get();
        self.len_calls.set(c + 1);
        if let Dev::Fail { k, kind, .. } = self.dev {
            if k == LEN_BASE + c {
                return Err(Error::new(kind, "injected fault"));
            }
        }
        Ok(self.data.len() as u64)
    }
}
impl Fio {
    pub fn len_calls(&self) -> usize {
        self.len_calls.get()
    }
}
/// `Fail { k: LEN_BASE + i }` fails the i-th `Length::len` call
pub const LEN_BASE: usize = 1 << 40;

thread_local! {
    static ARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static BT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn bt_arm(on: bool) {
    ARM.with(|a| a.set(on));
    if on {
        BT.with(|b| b.borrow_mut().clear());
    }
}
pub fn bt_note() {
    if ARM.with(|a| a.replace(false)) {
        let b = std::backtrace::Backtrace::force_capture().to_string();
        let s: Vec<&str> = b.lines().map(str::trim).filter_map(|l| l.strip_prefix("at /repo/")).take(3).collect();
        BT.with(|x| *x.borrow_mut() = s.join(" < "));
    }
}
pub fn bt_take() -> String {
    BT.with(|b| b.borrow().clone())
}
