//! Tapes: bytes at some base, splitting reads, failing at will.
use std::collections::HashSet;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

pub struct Tape<'a> {
    pub data: &'a [u8],
    /// Where the data begins.  What lies before is a repeated byte.
    pub base: u64,
    pub pos: u64,
    /// At most so many bytes at once (0: any number).
    pub chunk: usize,
    /// Report interruptions every now and then.
    pub interrupt: bool,
    /// The number of operations so far, and the one that fails (with its kind).
    pub ops: u64,
    pub fail: Option<u64>,
    pub failed: bool,
    pub kind: ErrorKind,
    /// Where it was and where it jumped to other than back.
    pub trace: Option<Trace>,
}
#[derive(Default)]
pub struct Trace { pub been: HashSet<u64>, pub jumps: Vec<u64> }

/// How operations fail.  Reads are repeated by std when they are interrupted; seeks are not.
pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::NotFound, ErrorKind::Interrupted,
    ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::InvalidInput, ErrorKind::Unsupported, ErrorKind::ConnectionReset,
];

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u8], base: u64, pos: u64) -> Self {
        Tape { data, base, pos: base.wrapping_add(pos), chunk: 0, interrupt: false, ops: 0, fail: None, failed: false, kind: ErrorKind::Other, trace: None }
    }
    fn op(&mut self, read: bool) -> Result<()> {
        self.ops += 1;
        // Everything works again afterwards, which is what would hide a swallowed error.
        if Some(self.ops - 1) == self.fail {
            self.failed = true;
            let kind = if read && self.kind == ErrorKind::Interrupted { ErrorKind::Other } else { self.kind };
            return Err(if self.ops % 2 == 0 { Error::from(kind) } else { Error::new(kind, "injected") });
        }
        Ok(())
    }
}
impl Read for Tape<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() { return Ok(0); }
        self.op(true)?;
        if self.interrupt && self.ops % 3 == 0 { return Err(Error::new(ErrorKind::Interrupted, "interrupted")); }
        let end = self.base as u128 + self.data.len() as u128;
        let left = end.saturating_sub(self.pos as u128);
        let mut n = (buf.len() as u128).min(left) as usize;
        if self.chunk > 0 { n = n.min(self.chunk); }
        for i in 0..n {
            let p = self.pos + i as u64;
            buf[i] = if p >= self.base { self.data[(p - self.base) as usize] } else { 0xA5 };
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Tape<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op(false)?;
        let end = self.base as i128 + self.data.len() as i128;
        let p = match to { SeekFrom::Start(x) => x as i128, SeekFrom::Current(x) => self.pos as i128 + x as i128, SeekFrom::End(x) => end + x as i128 };
        if p < 0 || p > u64::MAX as i128 { return Err(Error::new(ErrorKind::InvalidInput, "seek")); }
        if let Some(t) = &mut self.trace {
            t.been.insert(self.pos);
            if !t.been.contains(&(p as u64)) && t.jumps.len() < 1000 { t.jumps.push(p as u64); }
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
