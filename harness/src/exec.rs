//! Runs a scenario against the real crate and writes one trace line per call.
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::BufReader;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering;

use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::{
    ErrorKind, Parse, ParseBuf, ParseConfig, ParseError, ParseResult, Parser,
};
use perf_event_data::*;
use perf_event_open_sys::bindings::{self, perf_event_attr, perf_event_header};

use crate::json::J;
use crate::proj::*;
use crate::source::*;
use crate::{alloc, dbg};

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cfg {
    pub sty: u64,
    pub rf: u64,
    pub fl: u64,
    pub bst: u64,
    pub ru: u64,
    pub ri: u64,
}

#[derive(Clone, Debug)]
pub enum Src {
    Slice,
    Buf { cap: usize, reads: Vec<usize> },
    Chunks { cuts: Vec<usize>, temp: Vec<bool>, hint: bool },
}

/// Which endianness type the parser is built with.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum En {
    Native,
    Little,
    Big,
    DynL,
    DynB,
    CustL,
    CustB,
}
impl En {
    pub const ALL: [En; 7] =
        [En::Native, En::Little, En::Big, En::DynL, En::DynB, En::CustL, En::CustB];
    pub fn big(self) -> bool {
        match self {
            En::Native => cfg!(target_endian = "big"),
            En::Big | En::DynB | En::CustB => true,
            _ => false,
        }
    }
    pub fn native(self) -> bool {
        match self {
            En::Native => true,
            En::Little | En::DynL => cfg!(target_endian = "little"),
            En::Big | En::DynB => cfg!(target_endian = "big"),
            _ => false,
        }
    }
    fn name(self) -> &'static str {
        match self {
            En::Native => "Native",
            En::Little => "Little",
            En::Big => "Big",
            En::DynL => "DynL",
            En::DynB => "DynB",
            En::CustL => "CustL",
            En::CustB => "CustB",
        }
    }
}

/// A user-written endianness that never claims to be native.
#[derive(Clone, Copy, Debug)]
pub struct Custom(bool);
unsafe impl Endian for Custom {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        if self.0 { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        if self.0 { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        if self.0 { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) }
    }
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub b: Vec<u8>,
    pub en: En,
    pub cfg: Cfg,
    pub src: Src,
    pub al: usize,
    pub fault: Option<Fault>,
    /// "" | "set" (its outcomes become the reference) | "cmp" (must equal it)
    pub rf: &'static str,
    /// extra observations: l(ocations) d(ebug) c(opies) k(eep)
    pub want: String,
    pub ops: Vec<J>,
    pub note: String,
}

impl Scenario {
    pub fn new(b: Vec<u8>, en: En, cfg: Cfg) -> Scenario {
        Scenario {
            b,
            en,
            cfg,
            src: Src::Slice,
            al: 0,
            fault: None,
            rf: "",
            want: String::new(),
            ops: vec![],
            note: String::new(),
        }
    }
    /// How many zeros come before the data: as many as the first op skips.
    fn before(&self) -> u64 {
        match self.ops.first() {
            Some(op) if op.get("op").unwrap().str() == "far" => op.get("n").unwrap().word(),
            _ => 0,
        }
    }
    pub fn op(mut self, o: J) -> Self {
        self.ops.push(o);
        self
    }
    pub fn to_json(&self) -> J {
        let (src, cuts, temp, hint, cap, reads) = match &self.src {
            Src::Slice => ("slice", vec![self.b.len()], vec![false], true, 0, vec![]),
            Src::Buf { cap, reads } => {
                ("buf", vec![self.b.len()], vec![true], false, *cap, reads.clone())
            }
            Src::Chunks { cuts, temp, hint } => {
                ("chunks", cuts.clone(), temp.clone(), *hint, 0, vec![])
            }
        };
        let us = |v: Vec<usize>| J::A(v.into_iter().map(|x| J::N(x as i64)).collect());
        J::obj(vec![
            ("op", J::s("open")),
            ("b", J::bytes(&self.b)),
            ("en", J::s(if self.en.big() { "B" } else { "L" })),
            ("ent", J::s(self.en.name())),
            ("nat", J::B(self.en.native())),
            ("cfg", J::obj(vec![
                ("sty", w8(self.cfg.sty)),
                ("rf", w8(self.cfg.rf)),
                ("fl", w8(self.cfg.fl)),
                ("bst", w8(self.cfg.bst)),
                ("ru", w8(self.cfg.ru)),
                ("ri", w8(self.cfg.ri)),
            ])),
            ("src", J::s(src)),
            ("cuts", us(cuts)),
            ("temp", J::A(temp.into_iter().map(J::B).collect())),
            ("hint", J::B(hint)),
            ("cap", J::N(cap as i64)),
            ("reads", us(reads)),
            ("al", J::N(self.al as i64)),
            ("hi", J::N(self.fault.as_ref().map_or(self.b.len(), |f| f.off) as i64)),
            ("fk", J::N(self.fault.as_ref().map_or(-1, |f| f.kind as i64))),
            ("ek", J::s(match &self.fault {
                Some(f) if f.kind != 3 => "External",
                _ => "Eof",
            })),
            ("cause", J::s(self.fault.as_ref().map_or("", |f| &f.msg))),
            ("once", J::B(self.fault.as_ref().map_or(false, |f| f.once))),
            ("ref", J::s(self.rf)),
            ("want", J::s(&self.want)),
            ("note", J::s(&self.note)),
        ])
    }
    pub fn from_json(open: &J, ops: Vec<J>) -> Scenario {
        let g = |k: &str| open.get(k).unwrap_or_else(|| panic!("open line lacks {k}"));
        let us = |j: &J| j.arr().iter().map(|x| x.num() as usize).collect::<Vec<_>>();
        let c = g("cfg");
        let cw = |k: &str| c.get(k).unwrap().word();
        let src = match g("src").str() {
            "slice" => Src::Slice,
            "buf" => Src::Buf { cap: g("cap").num() as usize, reads: us(g("reads")) },
            _ => Src::Chunks {
                cuts: us(g("cuts")),
                temp: g("temp").arr().iter().map(|x| x.bool()).collect(),
                hint: g("hint").bool(),
            },
        };
        let fk = g("fk").num();
        Scenario {
            b: g("b").to_bytes(),
            en: *En::ALL.iter().find(|e| e.name() == g("ent").str()).unwrap(),
            cfg: Cfg {
                sty: cw("sty"),
                rf: cw("rf"),
                fl: cw("fl"),
                bst: cw("bst"),
                ru: cw("ru"),
                ri: cw("ri"),
            },
            src,
            al: g("al").num() as usize,
            fault: (fk >= 0).then(|| Fault {
                off: g("hi").num() as usize,
                kind: fk as u8,
                msg: g("cause").str().to_string(),
                once: open.get("once").map_or(false, |x| *x == J::B(true)),
            }),
            rf: match g("ref").str() {
                "set" => "set",
                "cmp" => "cmp",
                _ => "",
            },
            want: g("want").str().to_string(),
            ops,
            note: g("note").str().to_string(),
        }
    }
}

pub fn attr_of(c: &Cfg) -> perf_event_attr {
    let mut a = perf_event_attr::default();
    a.size = std::mem::size_of::<perf_event_attr>() as u32;
    a.sample_type = c.sty;
    a.read_format = c.rf;
    a._bitfield_1 = bindings::__BindgenBitfieldUnit::new(c.fl.to_ne_bytes());
    a.branch_sample_type = c.bst;
    a.sample_regs_user = c.ru;
    a.sample_regs_intr = c.ri;
    a
}

/// Where trace lines go; shared with the watchdog.
pub trait Sink {
    fn line(&mut self, s: &str);
    fn mark(&mut self, s: &str);
}

pub struct Cx<'s> {
    sink: &'s mut dyn Sink,
    store: Rc<Store>,
    fault: FaultCell,
    big: bool,
    want_loc: bool,
    want_dbg: bool,
    want_cp: bool,
    want_mem: bool,
    want_keep: bool,
    kept: Vec<(usize, Box<dyn Fn() -> J>)>,
    owned: Vec<(usize, &'static str, Later)>,
    count: usize,
    dead: bool,
    /// the length of the records of a session in a crowd (0: not in one)
    crowd: usize,
}

/// Decode the record many times over, and say what came out that is seldom.
fn oddest<E: Endian + 'static>(b: &'static [u8], c: ParseConfig<E>) -> Option<ParseResult<Record<'static>>> {
    let mut seen: Vec<(String, usize, ParseResult<Record<'static>>)> = vec![];
    for _ in 0..150 {
        let r = Parser::new(b, c.clone()).parse::<Record>();
        let k = match &r {
            Ok(r) => format!("{r:?}"),
            Err(e) => format!("{:?}", e.kind()),
        };
        match seen.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += 1,
            None => seen.push((k, 1, r)),
        }
    }
    (seen.len() > 1).then(|| seen.into_iter().min_by_key(|x| x.1).unwrap().2)
}

fn kind_name(k: ErrorKind) -> &'static str {
    match k {
        ErrorKind::Eof => "Eof",
        ErrorKind::InvalidRecord => "InvalidRecord",
        ErrorKind::UnsupportedConfig => "UnsupportedConfig",
        ErrorKind::UnsupportedData => "UnsupportedData",
        ErrorKind::External => "External",
        _ => "Other",
    }
}

fn clamp(x: usize) -> J {
    J::N(x.min(1 << 30) as i64)
}

fn heard(ev: &[(&'static str, usize)]) -> J {
    J::A(ev.iter().map(|&(w, n)| J::A(vec![J::s(w), clamp(n)])).collect())
}

impl<'s> Cx<'s> {
    fn begin(&mut self, log: &Log, op: &J) {
        log.begin();
        let mut s = String::new();
        op.write(&mut s);
        self.sink.mark(&s);
        drop(s);
        alloc::start();
    }

    fn common(&self, line: &mut J, log: &Log, mem: usize) {
        line.push("p", if log.tracked { clamp(log.pos.get()) } else { J::N(-1) });
        if log.tracked && EVENTS.load(Ordering::Relaxed) {
            line.push("ev", heard(&log.ev.take()));
            let idle = log.idle.take();
            if !idle.is_empty() {
                line.push("idle", heard(&idle));
            }
        }
        line.push("sup", clamp(if log.tracked { log.sup.get() } else { self.store.slice().len() }));
        line.push("mem", clamp(mem));
    }

    fn put(&mut self, line: &J) {
        let mut s = String::new();
        line.write(&mut s);
        self.sink.line(&s);
        self.count += 1;
    }

    fn error(&self, line: &mut J, e: &ParseError) {
        use std::error::Error;
        line.push("ok", J::B(false));
        line.push("k", J::s(kind_name(e.kind())));
        line.push("c", J::opt(e.source().map(|s| J::S(s.to_string()))));
        line.push("txt", J::S(e.to_string()));
    }

    /// Log the outcome of a call whose value can be projected.
    fn outcome<T: Proj + 'static>(
        &mut self,
        op: &J,
        log: &Log,
        mem: usize,
        r: std::thread::Result<ParseResult<T>>,
    ) {
        let mut line = op.clone();
        let r = match r {
            Ok(r) => r,
            Err(p) => return self.panicked(line, p),
        };
        match r {
            Err(e) => self.error(&mut line, &e),
            Ok(v) => {
                // Accessors, iterators and formatting belong to the call.
                let want = (self.want_loc, self.want_dbg, self.want_cp, self.want_keep);
                let extra = catch_unwind(AssertUnwindSafe(|| {
                    let j = v.proj();
                    let text = v.dbg();
                    let mut views = vec![];
                    if want.0 {
                        v.views(&mut views);
                    }
                    let d = if want.1 { text.map(|t| J::A(vec![dbg::tree(&t.0), dbg::tree(&t.1)])) } else { None };
                    let (c, o) = if want.2 { (v.copies(), v.owned()) } else { (vec![], vec![]) };
                    (j, views, d, c, o)
                }));
                let (j, views, d, c, o) = match extra {
                    Ok(x) => x,
                    Err(p) => return self.panicked(line, p),
                };
                line.push("ok", J::B(true));
                line.push("v", j);
                if self.want_mem {
                    line.push("kept", clamp(alloc::kept()));
                }
                if want.0 {
                    let l = views
                        .into_iter()
                        .filter(|v| v.2 > 0)
                        .map(|(n, p, len)| {
                            J::A(vec![J::s(n), J::N(self.store.offset_of(p, len))])
                        })
                        .collect();
                    line.push("loc", J::A(l));
                }
                if let Some(d) = d {
                    line.push("dbg", d);
                }
                if want.2 {
                    let c = c.into_iter().map(|(n, j)| J::A(vec![J::s(n), j])).collect();
                    line.push("cp", J::A(c));
                    for (n, l) in o {
                        self.owned.push((self.count, n, l));
                    }
                }
                if want.3 {
                    self.kept.push((self.count, Box::new(move || v.proj())));
                }
            }
        }
        self.common(&mut line, log, mem);
        self.put(&line);
    }

    fn panicked(&mut self, mut line: J, p: Box<dyn std::any::Any + Send>) {
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        line.push("panic", J::S(msg));
        self.put(&line);
        self.dead = true;
    }
}

/// Run `f` as one observed call.
fn call<T>(
    cx: &mut Cx,
    log: &Log,
    op: &J,
    f: impl FnOnce() -> ParseResult<T>,
) -> (std::thread::Result<ParseResult<T>>, usize) {
    cx.begin(log, op);
    let r = catch_unwind(AssertUnwindSafe(f));
    let mem = alloc::stop();
    (r, mem)
}

fn hdr_arg(op: &J) -> perf_event_header {
    let h = op.get("h").unwrap();
    let w = |k: &str| h.get(k).unwrap().word();
    perf_event_header { type_: w("ty") as u32, misc: w("misc") as u16, size: w("size") as u16 }
}

macro_rules! parse_arr {
    ($p:expr, $n:expr, $($k:literal)*) => {
        match $n {
            $($k => $p.parse::<[u8; $k]>().map(|a| Cow::<'static, [u8]>::Owned(a.to_vec())),)*
            n => panic!("array length {n} not supported by the harness"),
        }
    };
}

/// Execute ops from `i` on `p` until "pop", a "clone", or the end.  Tells
/// whether it was a "pop".
fn run_ops<B, E>(p: &mut Parser<B, E>, cx: &mut Cx, log: &Log, ops: &[J], i: &mut usize) -> bool
where
    B: ParseBuf<'static>,
    E: Endian + 'static,
{
    while *i < ops.len() && !cx.dead {
        let op = &ops[*i];
        let name = op.get("op").unwrap().str();
        let cnt = || op.get("n").unwrap().word() as usize;
        let ty = || op.get("t").unwrap().str();
        macro_rules! done {
            ($e:expr) => {{
                let (r, mem) = call(cx, log, op, || $e);
                cx.outcome(op, log, mem, r);
            }};
        }
        crate::noise::now();
        match name {
            "pop" => {
                *i += 1;
                let l = op.clone();
                cx.put(&l);
                return true;
            }
            "clone" => return false,
            "u8" => done!(p.parse_u8()),
            "u16" => done!(p.parse_u16()),
            "u32" => done!(p.parse_u32()),
            "u64" => done!(p.parse_u64()),
            "arr" => done!(parse_arr!(p, op.get("n").unwrap().num(), 0 1 2 3 4 5 7 8 12 16 24 31 40)),
            "bytes" => done!(p.parse_bytes(cnt())),
            "far" => done!((|| {
                let (n, mut k) = (cnt(), 0);
                while k < n {
                    k += p.parse_bytes((n - k).min(crate::source::ZEROS.len()))?.len();
                }
                Ok(k as u64)
            })()),
            "rest" => done!(p.parse_rest()),
            "resttrim" => done!(p.parse_rest_trim_nul()),
            "rep" => match ty() {
                "u8" => done!(p.parse_repeated::<u8>(cnt()).map(|v| Elems(v.into()))),
                "u16" => done!(p.parse_repeated::<u16>(cnt()).map(|v| Elems(v.into()))),
                "u32" => done!(p.parse_repeated::<u32>(cnt()).map(|v| Elems(v.into()))),
                "u64" => done!(p.parse_repeated::<u64>(cnt()).map(|v| Elems(v.into()))),
                "a0" => done!(p.parse_repeated::<[u8; 0]>(cnt()).map(|v| Elems(v.into()))),
                "a3" => done!(p.parse_repeated::<[u8; 3]>(cnt()).map(|v| Elems(v.into()))),
                "a64" => done!(p.parse_repeated::<[u8; 64]>(cnt()).map(|v| Elems(v.into()))),
                "a1024" => done!(p.parse_repeated::<[u8; 1024]>(cnt()).map(|v| Elems(v.into()))),
                "wide" => done!(p.parse_repeated::<Wide>(cnt()).map(|v| Elems(v.into()))),
                "narrow" => done!(p.parse_repeated::<Narrow>(cnt()).map(|v| Elems(v.into()))),
                "over16" => done!(p.parse_repeated::<Over16>(cnt()).map(|v| Elems(v.into()))),
                "over64" => done!(p.parse_repeated::<Over64>(cnt()).map(|v| Elems(v.into()))),
                "gone" => done!(p.parse_repeated::<Gone>(cnt()).map(|v| Elems(v.into()))),
                "str" => done!(p.parse_repeated::<Str>(cnt()).map(|v| Elems(v.into()))),
                "skip" => done!(p.parse_repeated::<Skip>(cnt()).map(|v| Elems(v.into()))),
                "counted" => done!(p.parse_repeated::<Counted>(cnt()).map(|v| Elems(v.into()))),
                "ns" => done!(p.parse_repeated::<NamespaceEntry>(cnt()).map(|v| Elems(v.into()))),
                "br" => done!(p.parse_repeated::<BranchEntry>(cnt()).map(|v| Elems(v.into()))),
                t => panic!("rep {t}"),
            },
            "slice" => unsafe {
                match ty() {
                    "u8" => done!(p.parse_slice::<u8>(cnt()).map(Elems)),
                    "u16" => done!(p.parse_slice::<u16>(cnt()).map(Elems)),
                    "u32" => done!(p.parse_slice::<u32>(cnt()).map(Elems)),
                    "u64" => done!(p.parse_slice::<u64>(cnt()).map(Elems)),
                    "ns" => done!(p.parse_slice::<NamespaceEntry>(cnt()).map(Elems)),
                    "br" => done!(p.parse_slice::<BranchEntry>(cnt()).map(Elems)),
                    t => panic!("slice {t}"),
                }
            },
            "sdirect" => unsafe {
                match ty() {
                    "u16" => done!(p
                        .parse_slice_direct::<u16>(cnt())
                        .map(|o| o.map(|s| Elems(Cow::Borrowed(s))))),
                    "u32" => done!(p
                        .parse_slice_direct::<u32>(cnt())
                        .map(|o| o.map(|s| Elems(Cow::Borrowed(s))))),
                    "u64" => done!(p
                        .parse_slice_direct::<u64>(cnt())
                        .map(|o| o.map(|s| Elems(Cow::Borrowed(s))))),
                    t => panic!("sdirect {t}"),
                }
            },
            "if" => {
                let c = op.get("q").unwrap().bool();
                match ty() {
                    "u32" => done!(p.parse_if::<u32>(c)),
                    "u64" => done!(p.parse_if::<u64>(c)),
                    "with" => done!(p.parse_if_with(c, |p| Ok([p.parse_u8()?, p.parse_u8()?]))),
                    t => panic!("if {t}"),
                }
            }
            "with" => done!(p.parse_with(|p| {
                let a = p.parse_u8()?;
                let b = p.parse::<[u8; 2]>()?;
                Ok([a, b[0], b[1]])
            })),
            "hdr" => done!(p.parse::<perf_event_header>()),
            "ty" => match ty() {
                "Mmap" => done!(p.parse::<Mmap>()),
                "Lost" => done!(p.parse::<Lost>()),
                "Comm" => done!(p.parse::<Comm>()),
                "Exit" => done!(p.parse::<Exit>().map(Record::Exit)),
                "Fork" => done!(p.parse::<Fork>().map(Record::Fork)),
                "Throttle" => done!(p.parse::<Throttle>().map(Record::Throttle)),
                "Unthrottle" => done!(p.parse::<Throttle>().map(Record::Unthrottle)),
                "Read" => done!(p.parse::<Read>()),
                "Sample" => done!(p.parse::<Sample>()),
                "Mmap2" => done!(p.parse::<Mmap2>()),
                "Aux" => done!(p.parse::<Aux>()),
                "ITraceStart" => done!(p.parse::<ITraceStart>()),
                "LostSamples" => done!(p.parse::<LostSamples>()),
                "SwitchCpuWide" => done!(p.parse::<SwitchCpuWide>()),
                "Namespaces" => done!(p.parse::<Namespaces>()),
                "KSymbol" => done!(p.parse::<KSymbol>()),
                "BpfEvent" => done!(p.parse::<BpfEvent>()),
                "CGroup" => done!(p.parse::<CGroup>()),
                "TextPoke" => done!(p.parse::<TextPoke>()),
                "AuxOutputHwId" => done!(p.parse::<AuxOutputHwId>()),
                "SampleId" => done!(p.parse::<SampleId>()),
                "ReadValue" => done!(p.parse::<ReadValue>()),
                "ReadGroup" => done!(p.parse::<ReadGroup>()),
                "RegsUser" => done!(Registers::parse_user(p)),
                "RegsIntr" => done!(Registers::parse_intr(p)),
                "NsEntry" => done!(p.parse::<NamespaceEntry>()),
                "Branch" => done!(p.parse::<BranchEntry>()),
                "DataSource" => done!(p.parse::<DataSource>()),
                "Txn" => done!(p.parse::<Txn>()),
                "AuxFlags" => done!(p.parse::<AuxFlags>()),
                "Abi" => done!(p.parse::<SampleRegsAbi>()),
                "BpfType" => done!(p.parse::<BpfEventType>()),
                "KsymType" => done!(p.parse::<KSymbolType>()),
                "KsymFlags" => done!(p.parse::<KSymbolFlags>()),
                "Attr" => done!(p.parse::<perf_event_attr>()),
                t => panic!("type {t} not known to the harness"),
            },
            "rec" if cx.crowd > 0 => {
                let all = cx.store.slice();
                let at = all.get(*i * cx.crowd..(*i + 1) * cx.crowd).unwrap_or(&[]);
                let c = p.config().clone();
                let odd = catch_unwind(AssertUnwindSafe(|| oddest(at, c))).ok().flatten();
                done!({
                    let r = p.parse::<Record>();
                    odd.unwrap_or(r)
                })
            }
            "rec" => done!(p.parse::<Record>()),
            "recs" => done!(p.parse_repeated::<Record>(cnt()).map(|v| Elems(v.into()))),
            "rech" => done!(Record::parse_with_header(p, hdr_arg(op))),
            "vis" => done!(crate::visit::visit(p, op.get("w").unwrap().str(), None)),
            "vish" => done!(crate::visit::visit(p, op.get("w").unwrap().str(), Some(hdr_arg(op)))),
            "group" => done!(p.parse::<ReadGroup>().map(|g| crate::iter::Probe::new(
                g,
                op.get("script").unwrap()
            ))),
            "order" => {
                let (n, big) = (op.get("n").unwrap().word(), cx.big);
                done!(Ok(Order::of(p, n, big)))
            }
            "conf" => done!(Ok(ConfView::of(p.config()))),
            "consts" => done!(Ok(crate::consts::Table(crate::consts::table(ty())))),
            "clear" => {
                *cx.fault.borrow_mut() = None;
                let l = op.clone();
                cx.put(&l);
            }
            "meta" | "metah" => {
                *i += 1;
                if name == "meta" {
                    let (r, mem) = call(cx, log, op, || p.parse_metadata());
                    sub(cx, log, op, r, mem, ops, i);
                } else {
                    let (r, mem) =
                        call(cx, log, op, || p.parse_metadata_with_header(hdr_arg(op)));
                    sub(cx, log, op, r, mem, ops, i);
                }
                continue;
            }
            "attrconf" => {
                // parse an attr, and report the configuration made from it
                done!(p.parse::<perf_event_attr>().map(|a| ConfView::of(
                    &ParseConfig::<Native>::from(a)
                )))
            }
            n => panic!("op {n} not known to the harness"),
        }
        *i += 1;
    }
    false
}

/// A record frame has been read: log it and carry on inside it.
fn sub<B, E>(
    cx: &mut Cx,
    log: &Log,
    op: &J,
    r: std::thread::Result<ParseResult<(Parser<B, E>, RecordMetadata)>>,
    mem: usize,
    ops: &[J],
    i: &mut usize,
) where
    B: ParseBuf<'static>,
    E: Endian + 'static,
{
    match r {
        Ok(Ok((mut q, md))) => {
            cx.outcome(op, log, mem, Ok(Ok(md)));
            let inner = Log::default();
            run_ops(&mut q, cx, &inner, ops, i);
        }
        Ok(Err(e)) => {
            cx.outcome::<RecordMetadata>(op, log, mem, Ok(Err(e)));
            // nothing was entered: skip what was meant for the inside
            let mut depth = 1;
            while *i < ops.len() && depth > 0 {
                match ops[*i].get("op").unwrap().str() {
                    "meta" | "metah" | "clone" => depth += 1,
                    "pop" => depth -= 1,
                    _ => (),
                }
                *i += 1;
            }
        }
        Err(p) => cx.outcome::<RecordMetadata>(op, log, mem, Err(p)),
    }
}

macro_rules! own_type {
    ($($(#[$d:meta])* $n:ident $t:ty, |$p:ident| $e:expr, |$x:ident| $j:expr;)*) => {$(
        $(#[$d])*
        #[derive(Clone)]
        struct $n($t);
        impl<'p> Parse<'p> for $n {
            fn parse<B: ParseBuf<'p>, E: Endian>($p: &mut Parser<B, E>) -> ParseResult<Self> {
                crate::noise::now();
                Ok($n($e))
            }
        }
        impl Proj for $n {
            fn proj(&self) -> J { let $x = &self.0; $j }
        }
    )*};
}
own_type! {
    /// A user's type that takes less room in the input than in memory,
    Wide [u64; 4], |p| [p.parse_u8()? as u64; 4], |x| J::bytes(&[x[3] as u8]);
    /// one that takes more,
    Narrow u8, |p| p.parse_u32()? as u8, |x| J::bytes(&[*x]);
    /// ones that memory wants well aligned,
    #[repr(align(16))] Over16 u8, |p| p.parse_u8()?, |x| J::bytes(&[*x]);
    #[repr(align(64))] Over64 u16, |p| p.parse_u32()? as u16, |x| J::bytes(&[*x as u8, (*x >> 8) as u8]);
    /// one that takes none in memory,
    Gone (), |p| { p.parse_u16()?; }, |_x| J::bytes(&[]);
    /// and ones that end where their contents say: the length of a string,
    Str u8, |p| { let mut n = 0u8; while p.parse_u8()? != 0 { n = n.wrapping_add(1); } n }, |x| J::bytes(&[*x]);
    /// a string that is skipped,
    Skip (), |p| { while p.parse_u8()? != 0 {} }, |_x| J::bytes(&[]);
    /// the last of counted bytes.
    Counted u8, |p| { let n = p.parse_u8()?; *p.parse_bytes(n as usize)?.last().unwrap_or(&n) }, |x| J::bytes(&[*x]);
}

/// One number, written in the byte order of each way to choose one, and read
/// back with it.
pub struct Order(Vec<(u16, u32, u64)>);
impl Order {
    fn of<B: ParseBuf<'static>, E: Endian>(p: &Parser<B, E>, n: u64, big: bool) -> Order {
        fn one<E: Endian>(e: &E, n: u64, big: bool) -> (u16, u32, u64) {
            let (a, b, c) = (n as u16, n as u32, n);
            if big {
                (e.convert_u16(a.to_be_bytes()), e.convert_u32(b.to_be_bytes()), e.convert_u64(c.to_be_bytes()))
            } else {
                (e.convert_u16(a.to_le_bytes()), e.convert_u32(b.to_le_bytes()), e.convert_u64(c.to_le_bytes()))
            }
        }
        let c = p.config();
        Order(vec![
            one(p.endian(), n, big),
            one(c.endian(), n, big),
            one(c.clone().endian(), n, big),
            one(c.clone().with_endian(Native).endian(), n, cfg!(target_endian = "big")),
            one(c.clone().with_endian(Little).endian(), n, false),
            one(c.clone().with_endian(Big).endian(), n, true),
            one(c.clone().with_endian(Dynamic::Little).endian(), n, false),
            one(c.clone().with_endian(Dynamic::Big).endian(), n, true),
            one(c.clone().with_endian(Dynamic::Little).with_endian(Custom(true)).endian(), n, true),
        ])
    }
}
impl Proj for Order {
    fn proj(&self) -> J {
        J::A(self.0.iter().map(|x| J::A(vec![w2(x.0), w4(x.1), w8(x.2)])).collect())
    }
}

pub struct ConfView {
    sty: u64,
    rf: u64,
    ru: u64,
    ri: u64,
    sid: usize,
    copies: Vec<(&'static str, J)>,
    text: (String, String),
}
impl ConfView {
    fn of<E: Endian>(c: &ParseConfig<E>) -> ConfView {
        let one = |c: &ParseConfig<E>| ConfView {
            sty: c.sample_type().bits(),
            rf: c.read_format().bits(),
            ru: c.regs_user(),
            ri: c.regs_intr(),
            sid: SampleId::estimate_len(c),
            copies: vec![],
            text: Default::default(),
        };
        let swapped = c.clone().with_endian(Dynamic::Big);
        let s = ConfView {
            sty: swapped.sample_type().bits(),
            rf: swapped.read_format().bits(),
            ru: swapped.regs_user(),
            ri: swapped.regs_intr(),
            sid: SampleId::estimate_len(&swapped),
            copies: vec![],
            text: Default::default(),
        };
        let text = both(&swapped).unwrap();
        let mut v = one(c);
        v.copies = vec![("clone", one(&c.clone()).proj()), ("swapped", s.proj())];
        v.text = text;
        v
    }
}
impl Proj for ConfView {
    fn proj(&self) -> J {
        J::obj(vec![
            ("sty", w8(self.sty)),
            ("rf", w8(self.rf)),
            ("ru", w8(self.ru)),
            ("ri", w8(self.ri)),
            ("sid", J::N(self.sid as i64)),
        ])
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        self.copies.clone()
    }
    fn dbg(&self) -> Option<(String, String)> {
        Some(self.text.clone())
    }
}

fn top<B, E>(mut p: Parser<B, E>, cx: &mut Cx, log: &Log, ops: &[J])
where
    B: ParseBuf<'static> + Clone,
    E: Endian + 'static,
{
    let mut i = 0;
    top_ops(&mut p, cx, log, ops, &mut i, 0);
}

fn top_ops<B, E>(
    p: &mut Parser<B, E>,
    cx: &mut Cx,
    log: &Log,
    ops: &[J],
    i: &mut usize,
    depth: usize,
) where
    B: ParseBuf<'static> + Clone,
    E: Endian + 'static,
{
    loop {
        if run_ops(p, cx, log, ops, i) || cx.dead || *i >= ops.len() {
            return;
        }
        // a clone
        let l = ops[*i].clone();
        cx.put(&l);
        *i += 1;
        CLONED.with(|c| *c.borrow_mut() = None);
        let mut q = p.clone();
        let newlog = CLONED.with(|c| c.borrow_mut().take());
        let dflt = Rc::new(Log::default());
        let newlog = newlog.unwrap_or(dflt);
        top_ops(&mut q, cx, &newlog, ops, i, depth + 1);
    }
}

fn with_endian<B: ParseBuf<'static>, R>(
    data: B,
    sc: &Scenario,
    k: impl Visit<B, R>,
) -> R {
    let attr = attr_of(&sc.cfg);
    match sc.en {
        En::Native => k.go(Parser::new(data, ParseConfig::<Native>::from(attr))),
        En::Little => k.go(Parser::new(data, ParseConfig::<Little>::from(attr))),
        En::Big => k.go(Parser::new(data, ParseConfig::<Big>::from(attr))),
        En::DynL | En::DynB => {
            let e = if sc.en == En::DynL { Dynamic::Little } else { Dynamic::Big };
            k.go(Parser::new(data, ParseConfig::<Native>::from(attr).with_endian(e)))
        }
        En::CustL | En::CustB => {
            let e = Custom(sc.en == En::CustB);
            k.go(Parser::new(data, ParseConfig::<Big>::from(attr).with_endian(e)))
        }
    }
}
trait Visit<B, R> {
    fn go<E: Endian + 'static>(self, p: Parser<B, E>) -> R;
}
struct TopClone<'a, 'b, 's>(&'a mut Cx<'s>, &'b Log, &'b [J]);
impl<'a, 'b, 's, B: ParseBuf<'static> + Clone> Visit<B, ()> for TopClone<'a, 'b, 's> {
    fn go<E: Endian + 'static>(self, p: Parser<B, E>) {
        top(p, self.0, self.1, self.2)
    }
}
struct TopPlain<'a, 'b, 's>(&'a mut Cx<'s>, &'b Log, &'b [J]);
impl<'a, 'b, 's, B: ParseBuf<'static>> Visit<B, ()> for TopPlain<'a, 'b, 's> {
    fn go<E: Endian + 'static>(self, mut p: Parser<B, E>) {
        let mut i = 0;
        run_ops(&mut p, self.0, self.1, self.2, &mut i);
    }
}

struct Nowhere;
impl Sink for Nowhere {
    fn line(&mut self, _: &str) {}
    fn mark(&mut self, _: &str) {}
}

/// What is still held once a whole session is over and everything it made has
/// been dropped. (The least of several runs: what is kept once and for all is
/// no leak.)
fn held_after(sc: &Scenario) -> usize {
    let mut least = usize::MAX;
    for _ in 0..3 {
        let a = alloc::held();
        session(sc, &mut Nowhere);
        let d = alloc::held().wrapping_sub(a) as isize;
        least = least.min(d.max(0) as usize);
        if least == 0 {
            break;
        }
    }
    least
}

pub fn run(sc: &Scenario, sink: &mut dyn Sink) {
    crate::noise::nested(true);
    let crowd = sc.note == "crowd";
    if crowd {
        crate::noise::crowd(sc, true);
    }
    let dead = session(sc, sink);
    if crowd {
        crate::noise::crowd(sc, false);
    }
    if sc.want.contains('m') && !dead {
        let l = J::obj(vec![("op", J::s("held")), ("n", clamp(held_after(sc)))]);
        let mut s = String::new();
        l.write(&mut s);
        sink.line(&s);
    }
    sink.line("{\"op\":\"close\"}");
}

fn session(sc: &Scenario, sink: &mut dyn Sink) -> bool {
    let store = Rc::new(Store::new(&sc.b, sc.al));
    let fault: FaultCell = Rc::new(RefCell::new(sc.fault.clone()));
    let has = |c: char| sc.want.contains(c);
    {
        let mut s = String::new();
        sc.to_json().write(&mut s);
        sink.line(&s);
    }
    let mut cx = Cx {
        sink,
        big: sc.en.big(),
        store: store.clone(),
        fault: fault.clone(),
        want_loc: has('l'),
        want_dbg: has('d'),
        want_cp: has('c'),
        want_mem: has('m'),
        want_keep: has('k'),
        kept: vec![],
        owned: vec![],
        count: 1,
        dead: false,
        crowd: if sc.note == "crowd" { sc.b.len() / sc.ops.len().max(1) } else { 0 },
    };
    let slice = store.slice();
    match &sc.src {
        Src::Slice => {
            let log = Log::default();
            with_endian(slice, sc, TopClone(&mut cx, &log, &sc.ops));
        }
        Src::Buf { cap, reads } => {
            let log = Rc::new(Log::default());
            let r = Script {
                buf: slice,
                pos: 0,
                sizes: reads.clone(),
                turn: 0,
                fault: fault.clone(),
                log: log.clone(),
            };
            let b = BufReader::with_capacity(*cap, r);
            with_endian(b, sc, TopPlain(&mut cx, &log, &sc.ops));
        }
        Src::Chunks { cuts, temp, hint } => {
            let log = Rc::new(Log { tracked: true, ..Default::default() });
            let c = Chunks::new(
                slice,
                cuts.clone(),
                temp.clone(),
                *hint,
                fault.clone(),
                log.clone(),
            )
            .after(sc.before());
            with_endian(c, sc, TopClone(&mut cx, &log, &sc.ops));
            // what the source heard since the last call
            let ev = log.ev.take();
            if !ev.is_empty() && !cx.dead {
                cx.put(&J::obj(vec![("op", J::s("idle")), ("ev", heard(&ev))]));
            }
        }
    }
    // The parser and its source are gone. Values kept alive must not have changed.
    let kept = std::mem::take(&mut cx.kept);
    if !kept.is_empty() && !cx.dead {
        let a = kept.iter().map(|(i, f)| J::A(vec![J::N(*i as i64), f()])).collect();
        let l = J::obj(vec![("op", J::s("again")), ("vs", J::A(a))]);
        cx.put(&l);
    }
    drop(kept);
    let owned = std::mem::take(&mut cx.owned);
    let dead = cx.dead;
    drop(cx);
    if !owned.is_empty() && !dead {
        let mut store = Rc::try_unwrap(store).ok().expect("store still shared");
        store.scribble();
        let a = owned
            .iter()
            .map(|(i, n, f)| J::A(vec![J::N(*i as i64), J::s(n), f()]))
            .collect();
        let mut s = String::new();
        J::obj(vec![("op", J::s("owned")), ("vs", J::A(a))]).write(&mut s);
        sink.line(&s);
    }
    dead
}

#[allow(dead_code)]
fn _bounds<'p, T: Parse<'p>>() {}
