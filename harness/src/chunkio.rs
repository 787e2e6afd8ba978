//! Sources and sinks that deliver or accept their bytes piecewise and may fail

use serde_json::Value;
use std::io::{self, ErrorKind, Read, Write};

fn nums(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}

fn kind(v: &Value) -> ErrorKind {
    match v.as_str() {
        Some("eof") => ErrorKind::UnexpectedEof,
        Some("timeout") => ErrorKind::TimedOut,
        Some("wouldblock") => ErrorKind::WouldBlock,
        Some("zero") => ErrorKind::WriteZero,
        Some("pipe") => ErrorKind::BrokenPipe,
        _ => ErrorKind::Other,
    }
}

/// {"chunks": [sizes, the last repeats], "intr": n (every n-th call is
/// interrupted), "fail": offset, "kind": error, "once": true if it works again
/// after failing, "eof": offset}
pub struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    chunks: Vec<usize>,
    calls: usize,
    reads: usize,
    intr: usize,
    fail: Option<usize>,
    kind: ErrorKind,
    once: bool,
    pub failed: bool,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], s: &Value) -> Source<'a> {
        let eof = s["eof"].as_u64().map(|n| n as usize).unwrap_or(data.len()).min(data.len());
        Source {
            data: &data[..eof],
            pos: 0,
            chunks: nums(&s["chunks"]),
            calls: 0,
            reads: 0,
            intr: s["intr"].as_u64().unwrap_or(0) as usize,
            fail: s["fail"].as_u64().map(|n| n as usize),
            kind: kind(&s["kind"]),
            once: s["once"] == true,
            failed: false,
        }
    }
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(f) = self.fail.filter(|_| !(self.once && self.failed)) {
            if self.pos >= f {
                self.failed = true;
                return Err(self.kind.into());
            }
            n = n.min(f - self.pos);
        }
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.reads.min(self.chunks.len() - 1)]);
            self.reads += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// {"chunks", "intr", "fail", "kind", "once", "stuck": offset where writes accept
/// nothing, "flush": true if flushing fails}
#[derive(Default)]
pub struct Sink {
    pub data: Vec<u8>,
    chunks: Vec<usize>,
    calls: usize,
    writes: usize,
    intr: usize,
    fail: Option<usize>,
    stuck: Option<usize>,
    kind: Option<ErrorKind>,
    no_flush: bool,
    once: bool,
    pub failed: bool,
}

impl Sink {
    pub fn new(s: &Value) -> Sink {
        Sink {
            chunks: nums(&s["chunks"]),
            intr: s["intr"].as_u64().unwrap_or(0) as usize,
            fail: s["fail"].as_u64().map(|n| n as usize),
            stuck: s["stuck"].as_u64().map(|n| n as usize),
            kind: Some(kind(&s["kind"])),
            no_flush: s["flush"] == true,
            once: s["once"] == true,
            ..Default::default()
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if let Some(f) = self.fail.filter(|_| !(self.once && self.failed)) {
            if self.data.len() >= f && n > 0 {
                self.failed = true;
                return Err(self.kind.unwrap().into());
            }
            n = n.min(f - self.data.len().min(f));
        }
        if let Some(f) = self.stuck {
            if self.data.len() >= f && n > 0 {
                self.failed = true;
                return Ok(0);
            }
            n = n.min(f - self.data.len().min(f));
        }
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.writes.min(self.chunks.len() - 1)]);
            self.writes += 1;
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        if self.no_flush && !(self.once && self.failed) {
            self.failed = true;
            return Err(self.kind.unwrap().into());
        }
        Ok(())
    }
}
