//! Other users of the crate: unrelated records, with other configurations, that
//! are decoded while a call under test is under way -- from within its source
//! and its handlers, and by other threads.  What they get is not judged; what
//! the call under test gets must not depend on them.
use perf_event_data::endian::{Big, Dynamic, Little, Native};
use perf_event_data::parse::{ParseConfig, Parser};
use perf_event_data::{Record, SampleId};
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex, OnceLock};

use crate::emit::*;
use crate::exec::{attr_of, Cfg, Scenario};
use crate::rng::Rng;

struct Job {
    b: Vec<u8>,
    pieces: Vec<usize>,
    big: bool,
    attr: perf_event_attr,
    /// it panics even when it is alone
    bad: bool,
}

fn run(j: &Job) {
    let d = if j.big { Dynamic::Big } else { Dynamic::Little };
    let c = ParseConfig::<Native>::from(j.attr).with_endian(d);
    let _ = SampleId::estimate_len(&c);
    if !j.pieces.is_empty() {
        let s = Pieces { b: &j.b, cuts: &j.pieces, pos: 0, tmp: vec![0; j.b.len()] };
        let _ = Parser::new(s, c).parse::<Record>();
    } else if j.b.len() % 3 == 0 {
        let mut p = Parser::new(&j.b[..], c);
        if let Ok((mut q, _)) = p.parse_metadata() {
            let _ = q.parse_rest_trim_nul();
        };
    } else if j.b.len() % 3 == 1 {
        if j.big {
            let _ = Parser::new(&j.b[..], c.with_endian(Big)).parse::<Record>();
        } else {
            let _ = Parser::new(&j.b[..], c.with_endian(Little)).parse::<Record>();
        }
    } else {
        let mut p = Parser::new(&j.b[..], c);
        if let Ok(h) = p.parse::<perf_event_header>() {
            if let Ok(r) = Record::parse_with_header(&mut p, h) {
                let _ = format!("{r:?}").len();
            }
        }
    }
}

struct Pieces<'a> {
    b: &'a [u8],
    cuts: &'a [usize],
    pos: usize,
    tmp: Vec<u8>,
}
unsafe impl<'p> perf_event_data::parse::ParseBuf<'p> for Pieces<'p> {
    fn chunk(&mut self) -> perf_event_data::parse::ParseResult<perf_event_data::parse::ParseBufChunk<'_, 'p>> {
        if self.pos >= self.b.len() {
            return Err(perf_event_data::parse::ParseError::eof());
        }
        let k = self.cuts.partition_point(|&c| c <= self.pos);
        let end = self.cuts.get(k).copied().unwrap_or(self.b.len()).min(self.b.len());
        let n = end - self.pos;
        self.tmp[..n].copy_from_slice(&self.b[self.pos..end]);
        Ok(perf_event_data::parse::ParseBufChunk::Temporary(&self.tmp[..n]))
    }
    fn advance(&mut self, n: usize) {
        self.pos += n;
    }
}

static JOBS: OnceLock<Vec<Job>> = OnceLock::new();

fn jobs() -> &'static [Job] {
    JOBS.get_or_init(|| {
        let mut r = Rng::new(77);
        let mut v = vec![];
        let mut add = |r: &mut Rng, t: u32, m: u16, c: Cfg, big: bool| {
            let b = record(r, t, m, &c, SMALL, big).bytes(big);
            let pieces = if r.chance(1, 3) { vec![r.range(1, 16), r.range(17, 40)] } else { vec![] };
            let mut j = Job { b, pieces, big, attr: attr_of(&c), bad: false };
            j.bad = catch_unwind(AssertUnwindSafe(|| run(&j))).is_err();
            v.push(j);
        };
        for k in 0..24 {
            let big = k % 2 == 1;
            let c = cfg(&mut r);
            add(&mut r, 9, 0, c, big);
            // one option at a time, on and off
            let bit = 1u64 << [4, 11, 12, 18, 5, 10, 13, 7][k % 8];
            for on in [0u64, 1] {
                let c = Cfg {
                    sty: bit | on * 0x1_0042,
                    rf: [0, 8, 12, 31][k % 4] ^ (on * 4),
                    bst: on << 17,
                    ru: 3 + on * 4,
                    ri: 5 + on * 2,
                    fl: on * SIA,
                };
                add(&mut r, 9, 0, c, big);
                let m = [0u16, 0x4000, 0x2000, 0xFFFF][(k + on as usize) % 4];
                add(&mut r, 10, m, c, big);
                add(&mut r, 15, m, c, big);
                add(&mut r, [3u32, 8, 16, 17, 20, 1, 4000, 14][k % 8], m, c, big);
            }
        }
        v
    })
}

thread_local! {
    static AT: Cell<usize> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

/// Sources and handlers make noise (on this thread) from now on, or not.
pub fn nested(on: bool) {
    ON.with(|o| o.set(on));
    AT.with(|a| a.set(0));
}
fn alloc_aside<T>(f: impl FnOnce() -> T) -> T {
    crate::alloc::leave_out(f)
}

/// Decode something else, now and then.
pub fn now() {
    if !ON.with(|o| o.get()) {
        return;
    }
    let k = AT.with(|a| {
        let k = a.get();
        a.set(k + 1);
        k
    });
    // at the first few turns, and then seldom
    if k > 8 && k % 7 != 0 {
        return;
    }
    let all = alloc_aside(jobs);
    let j = &all[k * 37 % all.len()];
    if j.bad {
        return;
    }
    if let Err(p) = alloc_aside(|| catch_unwind(AssertUnwindSafe(|| run(j)))) {
        resume_unwind(p);
    }
}

static LOUD: AtomicBool = AtomicBool::new(false);
static THREADS: OnceLock<Vec<std::thread::JoinHandle<()>>> = OnceLock::new();

/// What the other threads decode instead of the usual, as long as it is set.
static NEAR: Mutex<Option<Arc<Vec<Job>>>> = Mutex::new(None);
static NEAR_NO: AtomicUsize = AtomicUsize::new(0);

fn set_near(v: Vec<Job>) {
    *NEAR.lock().unwrap() = Some(Arc::new(v));
    NEAR_NO.fetch_add(1, Relaxed);
}

/// Have the other threads decode the first record of this session meanwhile,
/// with configurations that differ from the session's in one option.
pub fn crowd(sc: &Scenario, on: bool) {
    if JOBS.get().is_none() || sc.b.len() < 8 {
        return;
    }
    alloc_aside(|| {
        if !on {
            threads(false);
            return set_near(vec![]);
        }
        let big = sc.en.big();
        let size = if big { sc.b[6] as usize * 256 + sc.b[7] as usize } else { sc.b[7] as usize * 256 + sc.b[6] as usize };
        let b = &sc.b[..size.min(sc.b.len())];
        let pick = b.iter().map(|x| *x as usize).sum::<usize>();
        let v = (0..4)
            .map(|k| {
                let (mut c, mut b, mut big) = (sc.cfg, b.to_vec(), big);
                match if k == 0 { 0 } else { (pick / 7 + k * 5) % 16 } {
                    0 => c.bst ^= HWI,
                    1 => c.fl ^= SIA,
                    n @ 2..=6 => c.rf ^= 1 << (n - 2),
                    7 => c.ru ^= 2,
                    8 => c.ri ^= 2,
                    9 => b[if big { 4 } else { 5 }] ^= 0x40,
                    10 => b[if big { 4 } else { 5 }] ^= 0x20,
                    11 => {
                        big = !big;
                        b[4..8].reverse();
                        b.swap(4, 6);
                        b.swap(5, 7);
                        b[..4].reverse();
                    }
                    n => c.sty ^= 1 << [1, 2, 6, 9][n - 12],
                }
                let mut j = Job { b, pieces: vec![], big, attr: attr_of(&c), bad: false };
                j.bad = catch_unwind(AssertUnwindSafe(|| run(&j))).is_err();
                j
            })
            .collect();
        set_near(v);
        threads(true);
    })
}

/// Other threads decode things from now on, or not.
pub fn threads(on: bool) {
    // not before a call has seen that they do no harm
    if on && JOBS.get().is_some() {
        alloc_aside(|| {
            let t = THREADS.get_or_init(|| {
                (0..3usize)
                    .map(|k| {
                        std::thread::spawn(move || {
                            alloc_aside(|| {
                                let all = jobs();
                                let mut i = k * 13;
                                loop {
                                    let mut seen = 0;
                                    let mut near = Arc::new(vec![]);
                                    while LOUD.load(Relaxed) {
                                        i += 1;
                                        if NEAR_NO.load(Relaxed) != seen {
                                            seen = NEAR_NO.load(Relaxed);
                                            near = NEAR.lock().unwrap().clone().unwrap_or_default();
                                        }
                                        let j = match near.len() {
                                            0 => &all[i * 31 % all.len()],
                                            n => &near[i % n],
                                        };
                                        if !j.bad {
                                            let _ = catch_unwind(AssertUnwindSafe(|| run(j)));
                                        }
                                    }
                                    std::thread::park();
                                }
                            })
                        })
                    })
                    .collect()
            });
            LOUD.store(true, Relaxed);
            for t in t {
                t.thread().unpark();
            }
        });
    } else {
        LOUD.store(false, Relaxed);
    }
}
