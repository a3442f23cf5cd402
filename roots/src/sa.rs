//! Markers the analyser gives a meaning to, and the environment it assumes.
use std::io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom, Write};

/// Any value of the type.
#[inline(never)]
pub fn any<T>() -> T {
    unimplemented!()
}
/// Any value of the result type of a function which is not called.
pub fn any_like<A, T>(_f: fn(A) -> T) -> T {
    any()
}
/// Any byte slice (an immutable input buffer).
#[inline(never)]
pub fn any_bytes() -> &'static [u8] {
    unimplemented!()
}
/// Any vector of `n` bytes not above `max`.
#[inline(never)]
pub fn any_vec_below(_n: usize, _max: u8) -> Vec<u8> {
    unimplemented!()
}
/// This program is outside of what the roots can judge.
#[inline(never)]
pub fn unknown(_what: &'static str) {}
#[inline(never)]
pub fn assume(_c: bool) {}
/// Proof obligation.
#[inline(never)]
pub fn check(_c: bool, _what: &'static str) {}

/// No execution may come here.
pub fn never(what: &'static str) {
    check(false, what)
}

/// An I/O failure of any kind which is not the end of the data.
pub fn any_failure() -> io::Error {
    let kind = any::<ErrorKind>();
    assume(kind != ErrorKind::Interrupted);
    assume(kind != ErrorKind::UnexpectedEof);
    io::Error::from(kind)
}

/// Reader over any finite content, where any call may fail.
pub struct AnyReader {
    pub data: &'static [u8],
    pub pos: u64,
}
impl AnyReader {
    pub fn new() -> Self {
        AnyReader { data: any_bytes(), pos: 0 }
    }
    fn rest(&self) -> &'static [u8] {
        if self.pos >= self.data.len() as u64 { &[] } else { &self.data[self.pos as usize..] }
    }
}
impl Read for AnyReader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if crate::model::fails_at(1) {
            return crate::model::fail();
        }
        let r = self.rest();
        let n = any::<usize>();
        assume(n <= r.len() && n <= out.len());
        assume(n > 0 || r.len() == 0 || out.len() == 0);
        out[..n].copy_from_slice(&r[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn read_exact(&mut self, out: &mut [u8]) -> io::Result<()> {
        if crate::model::fails_at(1) {
            return crate::model::fail();
        }
        let r = self.rest();
        if r.len() < out.len() {
            self.pos += r.len() as u64;
            return Err(crate::model::own_error(ErrorKind::UnexpectedEof));
        }
        out.copy_from_slice(&r[..out.len()]);
        self.pos += out.len() as u64;
        Ok(())
    }
}
impl BufRead for AnyReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if crate::model::fails_at(2) {
            return crate::model::fail();
        }
        let r = self.rest();
        let n = any::<usize>();
        assume(n <= r.len() && (n > 0 || r.len() == 0));
        Ok(&r[..n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n as u64;
    }
}
impl Seek for AnyReader {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if crate::model::fails_at(3) {
            return crate::model::fail();
        }
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
        };
        match p {
            Some(p) if p <= i64::MAX as u64 => {
                self.pos = p;
                Ok(p)
            }
            _ => crate::model::fail(),
        }
    }
}

/// Writer with any I/O behaviour.
pub struct AnyWriter(());
impl AnyWriter {
    #[inline(never)]
    pub fn new() -> Self {
        AnyWriter(())
    }
}
impl Write for AnyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if crate::model::fails() {
            return crate::model::fail();
        }
        let n = any::<usize>();
        assume(n <= b.len());
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if crate::model::fails() { crate::model::fail() } else { Ok(()) }
    }
}

/// Reader over any finite content which never fails.
pub struct FullReader {
    pub data: &'static [u8],
    pub pos: u64,
}
impl FullReader {
    pub fn new(data: &'static [u8]) -> Self {
        FullReader { data, pos: 0 }
    }
    fn rest(&self) -> &'static [u8] {
        if self.pos >= self.data.len() as u64 { &[] } else { &self.data[self.pos as usize..] }
    }
}
impl Read for FullReader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let r = self.rest();
        let n = any::<usize>();
        assume(n <= r.len() && n <= out.len());
        assume(n > 0 || r.len() == 0 || out.len() == 0);
        out[..n].copy_from_slice(&r[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn read_exact(&mut self, out: &mut [u8]) -> io::Result<()> {
        let r = self.rest();
        if r.len() < out.len() {
            self.pos += r.len() as u64;
            return Err(io::Error::from(ErrorKind::UnexpectedEof));
        }
        out.copy_from_slice(&r[..out.len()]);
        self.pos += out.len() as u64;
        Ok(())
    }
}
impl BufRead for FullReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let r = self.rest();
        let n = any::<usize>();
        assume(n <= r.len() && (n > 0 || r.len() == 0));
        Ok(&r[..n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n as u64;
    }
}
impl Seek for FullReader {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
        };
        match p {
            Some(p) if p <= i64::MAX as u64 => {
                self.pos = p;
                Ok(p)
            }
            _ => Err(io::Error::from(ErrorKind::InvalidInput)),
        }
    }
}
