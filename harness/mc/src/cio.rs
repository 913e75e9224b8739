//! Readers and writers whose behaviour is decided by the explorer.
use kit::mc::explore::choose;
use kit::mc::label::USER;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lens {
    /// reads and writes are never short
    Whole,
    /// 1, half, all but one
    Few,
    /// every shorter length
    All,
}

#[derive(Clone, Copy, Debug)]
pub struct Menu {
    pub lens: Lens,
    pub eintr: bool,
    pub eio: bool,
}

impl Menu {
    pub const PLAIN: Menu = Menu { lens: Lens::Whole, eintr: false, eio: false };
    pub const SPLIT: Menu = Menu { lens: Lens::All, eintr: true, eio: false };
    pub const FEW: Menu = Menu { lens: Lens::Few, eintr: true, eio: false };
}

pub fn short_lens(l: Lens, max: usize) -> Vec<usize> {
    let mut v = match l {
        Lens::Whole => vec![],
        Lens::All => (1..max).collect(),
        Lens::Few => vec![1, max / 2, max.saturating_sub(1)],
    };
    v.retain(|&x| x > 0 && x < max);
    v.dedup();
    v
}

pub enum Dec {
    Len(usize),
    Intr,
    Io,
}

/// Decide how a transfer of up to `max` bytes goes.
pub fn decide(m: &Menu, max: usize, label: u32) -> Dec {
    let lens = short_lens(m.lens, max);
    let n = 1 + m.eintr as usize + m.eio as usize + lens.len();
    let mut c = choose(n, 1, USER + label);
    if c == 0 {
        return Dec::Len(max);
    }
    c -= 1;
    if m.eintr {
        if c == 0 {
            return Dec::Intr;
        }
        c -= 1;
    }
    if m.eio {
        if c == 0 {
            return Dec::Io;
        }
        c -= 1;
    }
    Dec::Len(lens[c])
}

pub fn eintr() -> io::Error {
    io::Error::from_raw_os_error(libc::EINTR)
}
pub fn eio() -> io::Error {
    io::Error::from_raw_os_error(libc::EIO)
}

pub struct CRead<'a> {
    data: &'a [u8],
    pos: usize,
    /// end of what fill_buf has shown
    shown: usize,
    pub menu: Menu,
    /// at most that many bytes at a time (0: no limit)
    pub chunk: usize,
    /// interrupt before every successful call
    pub intr_always: bool,
    toggle: bool,
    /// EIO answers so far
    pub failures: u32,
    /// fail persistently from this offset on
    pub fail_at: Option<usize>,
    /// kind of the error (EIO if none)
    pub kind: Option<io::ErrorKind>,
    pub calls: u64,
}

/// Kinds of errors a caller could be tempted to treat specially.
pub const KINDS: [io::ErrorKind; 9] = [
    io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero, io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData, io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::Other,
];

impl<'a> CRead<'a> {
    pub fn new(data: &'a [u8], menu: Menu) -> CRead<'a> {
        CRead { data, pos: 0, shown: 0, menu, chunk: 0, intr_always: false, toggle: false, failures: 0, fail_at: None, kind: None, calls: 0 }
    }
    pub fn chunk(mut self, n: usize) -> CRead<'a> {
        self.chunk = n;
        self
    }
    pub fn intr(mut self) -> CRead<'a> {
        self.intr_always = true;
        self
    }
    pub fn fail_at(mut self, at: usize) -> CRead<'a> {
        self.fail_at = Some(at);
        self
    }
    pub fn kind(mut self, k: Option<io::ErrorKind>) -> CRead<'a> {
        self.kind = k;
        self
    }
    fn err(&mut self) -> io::Error {
        self.failures += 1;
        match self.kind {
            Some(k) => io::Error::new(k, "injected"),
            None => eio(),
        }
    }
    /// Is this the error that was injected?
    pub fn mine(kind: Option<io::ErrorKind>, e: &io::Error) -> bool {
        match kind {
            Some(k) => e.kind() == k,
            None => e.raw_os_error() == Some(libc::EIO),
        }
    }
    fn go(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        let mut max = want.min(self.data.len() - self.pos);
        if self.chunk > 0 {
            max = max.min(self.chunk);
        }
        if want == 0 {
            return Ok(0);
        }
        if self.intr_always {
            self.toggle = !self.toggle;
            if self.toggle {
                return Err(eintr());
            }
        }
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(self.err());
            }
            max = max.min(f - self.pos);
        }
        match decide(&self.menu, max, 1) {
            Dec::Len(n) => Ok(n),
            Dec::Intr => Err(eintr()),
            Dec::Io => Err(self.err()),
        }
    }
}

impl<'a> Read for CRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.shown > self.pos {
            // like BufReader: what has been buffered is served first
            let n = buf.len().min(self.shown - self.pos);
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
        let n = self.go(buf.len())?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.shown = self.pos;
        Ok(n)
    }
}

impl<'a> BufRead for CRead<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.shown == self.pos {
            let n = self.go(usize::MAX)?;
            self.shown = self.pos + n;
        }
        Ok(&self.data[self.pos..self.shown])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        assert!(self.pos <= self.shown);
    }
}

impl<'a> Seek for CRead<'a> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let to = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if to < 0 {
            return Err(io::Error::from_raw_os_error(libc::EINVAL));
        }
        // beyond the end there is nothing to read
        self.pos = (to.min(self.data.len() as i128)) as usize;
        self.shown = self.pos;
        Ok(to as u64)
    }
}

/// What a writer may do besides accepting everything.
#[derive(Clone, Copy, Debug)]
pub struct WMenu {
    pub menu: Menu,
    /// Ok(0)
    pub zero: bool,
    /// errors persist once they have happened
    pub sticky: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    /// ENOSPC
    Space,
    /// nothing accepted
    Zero,
}

pub struct CWrite {
    pub got: Vec<u8>,
    pub m: WMenu,
    pub failed: bool,
    pub calls: u64,
    /// accept exactly that many bytes, then fail
    pub room: Option<usize>,
    /// only the first write beyond the room fails
    pub once: bool,
    /// what the failures were
    pub errs: Vec<Fail>,
    /// kind of the errors (ENOSPC if none)
    pub kind: Option<io::ErrorKind>,
    pub chunk: usize,
    pub intr_always: bool,
    toggle: bool,
}

impl CWrite {
    pub fn new(m: WMenu) -> CWrite {
        CWrite { got: vec![], m, failed: false, calls: 0, room: None, once: false, errs: vec![], kind: None, chunk: 0, intr_always: false, toggle: false }
    }
    pub fn short(lens: Lens) -> CWrite {
        CWrite::new(WMenu { menu: Menu { lens, eintr: true, eio: false }, zero: false, sticky: false })
    }
    pub fn plain() -> CWrite {
        CWrite::new(WMenu { menu: Menu::PLAIN, zero: false, sticky: false })
    }
    pub fn room(mut self, n: usize) -> CWrite {
        self.room = Some(n);
        self
    }
    pub fn once(mut self) -> CWrite {
        self.once = true;
        self
    }
    fn no(&mut self) -> io::Result<usize> {
        self.failed = true;
        self.errs.push(Fail::Space);
        Err(match self.kind {
            Some(k) => io::Error::new(k, "injected"),
            None => io::Error::from_raw_os_error(libc::ENOSPC),
        })
    }
    pub fn kind(mut self, k: Option<io::ErrorKind>) -> CWrite {
        self.kind = k;
        self
    }
    pub fn chunk(mut self, n: usize) -> CWrite {
        self.chunk = n;
        self
    }
    pub fn intr(mut self) -> CWrite {
        self.intr_always = true;
        self
    }
}

impl Write for CWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        kit::interpose::unhooked(|| {
            self.calls += 1;
            if buf.is_empty() {
                return Ok(0);
            }
            if self.failed && self.m.sticky {
                return self.no();
            }
            if self.intr_always {
                self.toggle = !self.toggle;
                if self.toggle {
                    return Err(eintr());
                }
            }
            let mut max = buf.len();
            if self.chunk > 0 {
                max = max.min(self.chunk);
            }
            if let Some(r) = self.room {
                max = max.min(r - self.got.len());
                if max == 0 {
                    if self.once {
                        self.room = None;
                    }
                    return self.no();
                }
            }
            if self.m.zero && choose(2, 1, USER + 3) == 1 {
                self.failed = true;
                self.errs.push(Fail::Zero);
                return Ok(0);
            }
            match decide(&self.m.menu, max, 2) {
                Dec::Len(n) => {
                    self.got.extend_from_slice(&buf[..n]);
                    Ok(n)
                }
                Dec::Intr => Err(eintr()),
                Dec::Io => self.no(),
            }
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
