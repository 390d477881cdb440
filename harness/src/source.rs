//! Input sources: a plain slice at a chosen alignment, a `BufReader` over a
//! scripted reader, and a custom source that follows the `ParseBuf` contract
//! to the letter, delivers its input in chosen chunks, and records how the
//! parser treats it.
use std::cell::{Cell, RefCell};
use std::io::{self, Read};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};

use perf_event_data::parse::{ParseBuf, ParseBufChunk, ParseError, ParseResult};

/// Aligned, mutable storage handed out as `&'static [u8]`; freed by `Drop`
/// after everything that borrows from it is gone.
pub struct Store {
    ptr: *mut u8,
    len: usize,
    layout: std::alloc::Layout,
    al: usize,
}
impl Store {
    pub fn new(data: &[u8], al: usize) -> Store {
        let layout = std::alloc::Layout::from_size_align(data.len() + 64, 64).unwrap();
        let ptr = unsafe { std::alloc::alloc(layout) };
        unsafe {
            std::ptr::write_bytes(ptr, 0xA5, layout.size());
            std::ptr::copy_nonoverlapping(data.as_ptr(), ptr.add(al), data.len());
        }
        Store { ptr, len: data.len(), layout, al }
    }
    pub fn slice(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr.add(self.al), self.len) }
    }
    /// Offset of `p` within the stored data, or -1.
    pub fn offset_of(&self, p: *const u8, n: usize) -> i64 {
        let base = self.ptr as usize + self.al;
        let a = p as usize;
        if a >= base && a + n <= base + self.len {
            (a - base) as i64
        } else {
            -1
        }
    }
    /// Overwrite everything. Only once nothing borrows from it any more.
    pub fn scribble(&mut self) {
        for i in 0..self.layout.size() {
            unsafe { *self.ptr.add(i) ^= 0x5A };
        }
    }
}
impl Drop for Store {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr, self.layout) }
    }
}

/// Whether sources record what they hear (property C21).
pub static EVENTS: AtomicBool = AtomicBool::new(false);

/// What the source saw during the current call.
#[derive(Default)]
pub struct Log {
    pub tracked: bool,
    pub pos: Cell<usize>,
    /// what the source heard: chunk() that offered n bytes (0: failed), advance(n)
    pub ev: RefCell<Vec<(&'static str, usize)>>,
    /// what it heard between calls
    pub idle: RefCell<Vec<(&'static str, usize)>>,
    pub sup: Cell<usize>,
}
impl Log {
    pub fn begin(&self) {
        self.idle.replace(self.ev.take());
    }
    fn heard(&self, what: &'static str, n: usize) {
        if EVENTS.load(Ordering::Relaxed) {
            self.ev.borrow_mut().push((what, n));
        }
    }
}

/// How and where the source fails instead of delivering more bytes.
#[derive(Clone, Debug)]
pub struct Fault {
    pub off: usize,
    pub kind: u8,
    pub msg: String,
    /// it fails only the first time
    pub once: bool,
}
pub type FaultCell = Rc<RefCell<Option<Fault>>>;

/// Kinds of I/O error a source may fail with (fault kinds from 4 on).
pub const IO_KINDS: [io::ErrorKind; 20] = [
    io::ErrorKind::WouldBlock,
    io::ErrorKind::Interrupted,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::Other,
];

pub fn fault_error(f: &Fault) -> ParseError {
    match f.kind {
        0 => ParseError::new(f.msg.clone()),
        2 => {
            let b: Box<dyn std::error::Error + Send + Sync> = f.msg.clone().into();
            ParseError::from(b)
        }
        // an error of the crate's own, as the cause
        RAW_EOF => ParseError::new(ParseError::eof()),
        RAW_OWN => ParseError::new(ParseError::new(f.msg.clone())),
        _ => ParseError::from(fault_io(f)),
    }
}
/// Kinds of fault whose text is given by the kind.
pub const RAW_OS: u8 = 24;
pub const RAW_KIND: u8 = 25;
pub const RAW_EOF: u8 = 26;
/// and one with a text
pub const RAW_OWN: u8 = 27;
pub fn text_of(kind: u8) -> Option<String> {
    let f = Fault { off: 0, kind, msg: String::new(), once: false };
    (RAW_OS..=RAW_EOF).contains(&kind).then(|| fault_io(&f).to_string())
}
pub fn fault_io(f: &Fault) -> io::Error {
    match f.kind {
        RAW_OS => return io::Error::from_raw_os_error(5),
        RAW_KIND => return io::Error::from(io::ErrorKind::TimedOut),
        RAW_EOF => return io::Error::new(io::ErrorKind::Other, ParseError::eof()),
        RAW_OWN => return io::Error::new(io::ErrorKind::Other, ParseError::new(f.msg.clone())),
        _ => (),
    }
    let k = match f.kind {
        0 | 1 | 2 => io::ErrorKind::Other,
        3 => io::ErrorKind::UnexpectedEof,
        n => IO_KINDS[(n as usize - 4) % IO_KINDS.len()],
    };
    io::Error::new(k, f.msg.clone())
}

pub struct Chunks {
    buf: &'static [u8],
    cuts: Rc<Vec<usize>>,
    temp: Rc<Vec<bool>>,
    hint: bool,
    fault: FaultCell,
    pub log: Rc<Log>,
    tmp: Vec<u8>,
    /// zeros still to come before `buf`; nobody takes notes of them
    before: u64,
}

/// Pieces of what comes before (never touched, so it takes no room).
pub static ZEROS: [u8; 1 << 24] = [0; 1 << 24];

thread_local! {
    /// Log of the source most recently made by cloning a `Chunks`.
    pub static CLONED: RefCell<Option<Rc<Log>>> = RefCell::new(None);
}

impl Chunks {
    pub fn new(
        buf: &'static [u8],
        cuts: Vec<usize>,
        temp: Vec<bool>,
        hint: bool,
        fault: FaultCell,
        log: Rc<Log>,
    ) -> Chunks {
        let mut start = 0;
        let mut max = 0;
        for &c in &cuts {
            max = max.max(c - start);
            start = c;
        }
        Chunks {
            buf,
            cuts: Rc::new(cuts),
            temp: Rc::new(temp),
            hint,
            fault,
            log,
            tmp: vec![0; max],
            before: 0,
        }
    }
    pub fn after(mut self, before: u64) -> Chunks {
        self.before = before;
        self
    }
}

impl Clone for Chunks {
    fn clone(&self) -> Self {
        let l = Rc::new(Log { tracked: true, ..Default::default() });
        l.pos.set(self.log.pos.get());
        l.sup.set(self.log.sup.get());
        CLONED.with(|c| *c.borrow_mut() = Some(l.clone()));
        Chunks {
            buf: self.buf,
            cuts: self.cuts.clone(),
            temp: self.temp.clone(),
            hint: self.hint,
            fault: self.fault.clone(),
            log: l,
            tmp: self.tmp.clone(),
            before: self.before,
        }
    }
}

unsafe impl ParseBuf<'static> for Chunks {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'static>> {
        if self.before > 0 {
            let n = self.before.min(ZEROS.len() as u64) as usize;
            return Ok(ParseBufChunk::External(&ZEROS[..n]));
        }
        crate::noise::now();
        let log = &self.log;
        let pos = log.pos.get();
        let fault = self.fault.borrow();
        let limit = fault.as_ref().map_or(self.buf.len(), |f| f.off.min(self.buf.len()));
        if pos >= limit {
            log.heard("c", 0);
            let e = match &*fault {
                Some(f) => fault_error(f),
                None => ParseError::eof(),
            };
            let once = fault.as_ref().map_or(false, |f| f.once);
            drop(fault);
            if once {
                *self.fault.borrow_mut() = None;
            }
            return Err(e);
        }
        drop(fault);
        let i = self.cuts.partition_point(|&c| c <= pos);
        let end = self.cuts[i].min(limit);
        log.heard("c", end - pos);
        log.sup.set(log.sup.get().max(end));
        if self.temp[i] {
            let n = end - pos;
            self.tmp[..n].copy_from_slice(&self.buf[pos..end]);
            Ok(ParseBufChunk::Temporary(&self.tmp[..n]))
        } else {
            Ok(ParseBufChunk::External(&self.buf[pos..end]))
        }
    }

    fn advance(&mut self, count: usize) {
        if self.before > 0 {
            self.before = self.before.checked_sub(count as u64).expect("advanced past what was offered");
            return;
        }
        crate::noise::now();
        self.log.heard("a", count);
        self.log.pos.set(self.log.pos.get().saturating_add(count).min(self.buf.len()));
        for b in self.tmp.iter_mut() {
            *b = b.wrapping_mul(31).wrapping_add(0x5B);
        }
    }

    fn remaining_hint(&self) -> Option<usize> {
        crate::noise::now();
        self.hint.then(|| self.before as usize + self.buf.len() - self.log.pos.get())
    }
}

/// A reader that returns its data in reads of scripted sizes.
pub struct Script {
    pub buf: &'static [u8],
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub turn: usize,
    pub fault: FaultCell,
    pub log: Rc<Log>,
}
impl Read for Script {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        crate::noise::now();
        let fault = self.fault.borrow();
        let limit = fault.as_ref().map_or(self.buf.len(), |f| f.off.min(self.buf.len()));
        if self.pos >= limit {
            if let Some(f) = &*fault {
                let (e, once) = (fault_io(f), f.once);
                drop(fault);
                if once {
                    *self.fault.borrow_mut() = None;
                }
                return Err(e);
            }
            return Ok(0);
        }
        let want = if self.sizes.is_empty() {
            usize::MAX
        } else {
            let s = self.sizes[self.turn % self.sizes.len()];
            self.turn += 1;
            s.max(1)
        };
        let n = want.min(out.len()).min(limit - self.pos);
        out[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
        self.pos += n;
        self.log.sup.set(self.log.sup.get().max(self.pos));
        Ok(n)
    }
}
