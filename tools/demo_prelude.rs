#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{self, perf_event_attr, perf_event_header};
use std::borrow::Cow;

/// A configuration from event attributes.
fn conf<E: Endian>(e: E, f: impl FnOnce(&mut perf_event_attr)) -> ParseConfig<E> {
    let mut a = perf_event_attr::default();
    f(&mut a);
    ParseConfig::<Native>::from(a).with_endian(e)
}

/// Little-endian bytes of several words.
fn w64(ws: &[u64]) -> Vec<u8> { ws.iter().flat_map(|w| w.to_le_bytes()).collect() }
fn w32(ws: &[u32]) -> Vec<u8> { ws.iter().flat_map(|w| w.to_le_bytes()).collect() }
fn cat(parts: &[&[u8]]) -> &'static [u8] { parts.concat().leak() }

/// One record, little-endian.
fn record(ty: u32, misc: u16, body: &[u8]) -> &'static [u8] {
    let mut v = ty.to_le_bytes().to_vec();
    v.extend(misc.to_le_bytes());
    v.extend(((body.len() + 8) as u16).to_le_bytes());
    v.extend(body);
    v.leak()
}

/// Memory with chosen alignment.
struct Mem { v: Vec<u64>, off: usize, len: usize }
fn mem(b: &[u8], off: usize) -> Mem {
    let mut v = vec![0u64; b.len() / 8 + 3];
    let p = v.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), b.len()) };
    Mem { v, off, len: b.len() }
}
impl Mem {
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.v.as_ptr() as *const u8).add(self.off), self.len) }
    }
}

/// A source that gives its bytes in pieces.
#[derive(Clone)]
struct Pieces<'a> { q: Vec<&'a [u8]>, i: usize, off: usize, temp: bool, hint: bool, fail: Option<&'static str>, taken: usize, asked: usize }
fn pieces<'a>(b: &'a [u8], n: usize, temp: bool, hint: bool) -> Pieces<'a> {
    Pieces { q: b.chunks(n).collect(), i: 0, off: 0, temp, hint, fail: None, taken: 0, asked: 0 }
}
unsafe impl<'p> ParseBuf<'p> for Pieces<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        if self.i >= self.q.len() {
            return Err(match self.fail { Some(m) => ParseError::new(m), None => ParseError::eof() });
        }
        let c = &self.q[self.i][self.off..];
        self.asked = self.taken + c.len();
        Ok(if self.temp { ParseBufChunk::Temporary(c) } else { ParseBufChunk::External(c) })
    }
    fn advance(&mut self, mut n: usize) {
        self.taken += n;
        while n > 0 {
            let c = self.q[self.i].len() - self.off;
            if n < c { self.off += n; break }
            n -= c; self.i += 1; self.off = 0;
        }
    }
    fn remaining_hint(&self) -> Option<usize> {
        if !self.hint { return None }
        Some(self.q[self.i.min(self.q.len())..].iter().map(|c| c.len()).sum::<usize>() - self.off)
    }
}

