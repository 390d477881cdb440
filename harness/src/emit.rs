//! Writes records the way the kernel does, in either byte order, from random
//! logical contents. (Input generation only: what the bytes mean is decided by
//! the specification.)
use crate::exec::Cfg;
use crate::rng::Rng;

pub const KNOWN: std::ops::RangeInclusive<u32> = 1..=21;
pub const MMAP: u32 = 1;
pub const SAMPLE: u32 = 9;
pub const NAMES: [&str; 21] = [
    "Mmap", "Lost", "Comm", "Exit", "Throttle", "Unthrottle", "Fork", "Read", "Sample", "Mmap2",
    "Aux", "ITraceStart", "LostSamples", "Switch", "SwitchCpuWide", "Namespaces", "KSymbol",
    "BpfEvent", "CGroup", "TextPoke", "AuxOutputHwId",
];
pub fn name_of(ty: u32) -> Option<&'static str> {
    KNOWN.contains(&ty).then(|| NAMES[ty as usize - 1])
}

pub const SIA: u64 = 1 << 18;
pub const HWI: u64 = 1 << 17;
pub const S_SID: u64 = (1 << 1) | (1 << 2) | (1 << 6) | (1 << 9) | (1 << 7) | (1 << 16);
pub const S_ALL: u64 = (1 << 25) - 1;
pub const R_GROUP: u64 = 8;

#[derive(Clone)]
pub struct W {
    pub big: bool,
    pub out: Vec<u8>,
}
impl W {
    pub fn new(big: bool) -> W {
        W { big, out: vec![] }
    }
    pub fn u8(&mut self, x: u8) {
        self.out.push(x)
    }
    pub fn u16(&mut self, x: u16) {
        let b = if self.big { x.to_be_bytes() } else { x.to_le_bytes() };
        self.out.extend(b)
    }
    pub fn u32(&mut self, x: u32) {
        let b = if self.big { x.to_be_bytes() } else { x.to_le_bytes() };
        self.out.extend(b)
    }
    pub fn u64(&mut self, x: u64) {
        let b = if self.big { x.to_be_bytes() } else { x.to_le_bytes() };
        self.out.extend(b)
    }
    pub fn bytes(&mut self, x: &[u8]) {
        self.out.extend(x)
    }
    pub fn len(&self) -> usize {
        self.out.len()
    }
}

/// Sizes of variable parts are drawn from this.
#[derive(Clone, Copy)]
pub struct Shape {
    pub max: usize,
    /// now and then a part has one of the sizes in LONG instead
    pub tail: bool,
}
pub const SMALL: Shape = Shape { max: 5, tail: false };
pub const MIXED: Shape = Shape { max: 5, tail: true };
/// Just around where a size crosses a power of two, or a limit of the kernel (127 frames).
const LONG: [usize; 20] = [6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];

/// The size of a variable part; `k` is the number of units in one of its usual elements.
pub fn size(r: &mut Rng, sh: Shape, k: usize) -> usize {
    if sh.tail && r.chance(1, 16) {
        *r.pick(&LONG)
    } else if sh.tail && r.chance(1, if r.novel() { 8 } else { 24 }) {
        r.literal_size(if k > 4 { 9000 } else { 700 })
    } else {
        r.range(0, sh.max * k)
    }
}

pub const ODD_NAMES: [&str; 29] = ["[heap]", "//anon", "/a (deleted)", "a\n", " a ", "/", "//", "a/", "[", "\r\n", "\\", "\u{feff}a", ".",
            "//anon", "[vdso]", "[stack]", "[anon:x]", "[kernel.kallsyms]_text", "/memfd:x (deleted)", "/SYSV00000000 (deleted)",
            "/dev/zero (deleted)", "socket:[1]", "anon_inode:[perf_event]", "%s", "..", "~", "a:b", "-1", "/proc/self/exe"];

/// Characters that text is often not ready for.
const ODD_CHARS: [char; 28] = ['\u{301}', '\u{20dd}', '\u{200d}', '\u{200b}', '\u{202e}', '\u{feff}', '\u{e000}', '\u{378}',
            '\u{2028}', '\u{fffd}', '\u{10ffff}', '\u{1f600}', '\u{85}', '\u{ad}', '\u{1b}', '\u{7f}', '\u{80}', '\u{7ff}',
            '\u{800}', '\u{ffff}', '\u{10000}', '\'', '"', '\\', '\t', '\r', '{', '\u{e0100}'];

pub fn name(r: &mut Rng, sh: Shape) -> Vec<u8> {
    let n = if sh.tail { size(r, sh, 2) } else { r.range(0, 12) };
    let mut v: Vec<u8> = match r.below(9) {
        8 => {
            let mut t = String::new();
            for _ in 0..r.range(1, 4) {
                if r.chance(1, 2) { t.push((b'a' + r.below(26) as u8) as char) }
                t.push(*r.pick(&ODD_CHARS));
            }
            let mut v = t.into_bytes();
            if r.chance(1, 4) { v.pop(); }
            v
        }
        0 => r.bytes(n),
        // names the code under test mentions, whole or as a part
        7 => {
            let (b, a) = (r.range(0, 2), r.range(0, 2));
            let mut v: Vec<u8> = (0..b).map(|_| b'a' + r.below(26) as u8).collect();
            v.extend(r.text());
            v.extend((0..a).map(|_| b'a' + r.below(26) as u8));
            v
        }
        // names that some tool might treat specially
        5 => r.pick(&ODD_NAMES).as_bytes().to_vec(),
        6 => {
            let mut v: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
            v.push(r.next() as u8);
            v
        }
        1 => vec![0; n],
        2 => "\u{e9}t\u{fb}/\"q\\".as_bytes().to_vec(),
        _ => (0..n).map(|_| b'a' + r.below(26) as u8).collect(),
    };
    if r.chance(1, 5) && !v.is_empty() {
        let i = r.below(v.len() as u64) as usize;
        v[i] = 0; // a NUL inside
    }
    match r.below(4) {
        0 => (),
        1 => v.push(0),
        _ => {
            v.push(0);
            while v.len() % 8 != 0 {
                v.push(0);
            }
        }
    }
    v
}

fn counter(r: &mut Rng, rf: u64, w: &mut W) {
    w.u64(r.word());
    if rf & 4 != 0 {
        w.u64(small_id(r));
    }
    if rf & 16 != 0 {
        w.u64(r.word());
    }
}
/// ids collide often
pub fn small_id(r: &mut Rng) -> u64 {
    if r.chance(2, 3) {
        r.below(4)
    } else {
        r.word()
    }
}

pub fn read_value(r: &mut Rng, rf: u64, w: &mut W) {
    w.u64(r.word());
    for b in [1, 2] {
        if rf & b != 0 {
            w.u64(r.word());
        }
    }
    if rf & 4 != 0 {
        w.u64(small_id(r));
    }
    if rf & 16 != 0 {
        w.u64(r.word());
    }
}
pub fn read_group(r: &mut Rng, rf: u64, n: usize, w: &mut W) {
    w.u64(n as u64);
    for b in [1, 2] {
        if rf & b != 0 {
            w.u64(r.word());
        }
    }
    for _ in 0..n {
        counter(r, rf, w);
    }
}

pub fn regs(r: &mut Rng, mask: u64, w: &mut W) {
    let abi = *r.pick(&[0u64, 1, 2, 2, 1, 7, u64::MAX, 1 << 32]);
    w.u64(abi);
    if abi != 0 {
        for _ in 0..mask.count_ones() {
            w.u64(r.word());
        }
    }
}

pub fn sample(r: &mut Rng, c: &Cfg, sh: Shape, w: &mut W) {
    let has = |i: u32| c.sty & (1 << i) != 0;
    let count = |r: &mut Rng| size(r, sh, 1);
    if has(16) { w.u64(r.word()) }
    if has(0) { w.u64(r.word()) }
    if has(1) { w.u32(r.word() as u32); w.u32(r.word() as u32) }
    if has(2) { w.u64(r.word()) }
    if has(3) { w.u64(r.word()) }
    if has(6) { w.u64(r.word()) }
    if has(9) { w.u64(r.word()) }
    if has(7) { w.u32(r.word() as u32); w.u32(r.word() as u32) }
    if has(8) { w.u64(r.word()) }
    if has(4) {
        if c.rf & R_GROUP != 0 {
            let n = count(r);
            read_group(r, c.rf, n, w)
        } else {
            read_value(r, c.rf, w)
        }
    }
    if has(5) {
        let n = count(r);
        w.u64(n as u64);
        for _ in 0..n { w.u64(r.word()) }
    }
    if has(10) {
        let n = size(r, sh, 5);
        let start = w.len();
        w.u32(n as u32);
        let d = r.bytes(n);
        w.bytes(&d);
        while (w.len() - start) % 8 != 0 { w.u8(r.next() as u8) }
    }
    if has(11) {
        let n = count(r);
        w.u64(n as u64);
        if c.bst & HWI != 0 { w.u64(r.word()) }
        for _ in 0..3 * n { w.u64(r.word()) }
    }
    if has(12) { regs(r, c.ru, w) }
    if has(13) {
        let n = size(r, sh, 5);
        w.u64(n as u64);
        if n > 0 {
            let d = r.bytes(n);
            w.bytes(&d);
            w.u64(r.range(0, n) as u64)
        }
    }
    if has(14) || has(24) { w.u64(r.word()) }
    if has(15) { w.u64(r.word()) }
    if has(17) { w.u64(r.word()) }
    if has(18) { regs(r, c.ri, w) }
    if has(19) { w.u64(r.word()) }
    if has(21) { w.u64(r.word()) }
    if has(22) { w.u64(r.word()) }
    if has(23) { w.u64(r.word()) }
    if has(20) {
        let n = size(r, sh, 5);
        w.u64(n as u64);
        let d = r.bytes(n);
        w.bytes(&d);
    }
}

pub fn body(r: &mut Rng, ty: u32, misc: u16, c: &Cfg, sh: Shape, w: &mut W) {
    macro_rules! u32s { ($n:expr) => { for _ in 0..$n { w.u32(r.word() as u32) } } }
    macro_rules! u64s { ($n:expr) => { for _ in 0..$n { w.u64(r.word()) } } }
    match ty {
        1 => { u32s!(2); u64s!(3); let n = name(r, sh); w.bytes(&n) }
        2 => u64s!(2),
        3 => { u32s!(2); let n = name(r, sh); w.bytes(&n) }
        4 | 7 => { u32s!(4); u64s!(1) }
        5 | 6 => u64s!(3),
        8 => { u32s!(2); read_value(r, c.rf, w) }
        9 => sample(r, c, sh, w),
        10 => {
            u32s!(2);
            u64s!(3);
            if misc & 0x4000 != 0 {
                let n = *r.pick(&[0u8, 1, 8, 16, 19, 20, 20, 20]);
                w.u8(n);
                w.u8(r.next() as u8);
                w.u16(r.next() as u16);
                let mut d = r.bytes(20);
                // an identifier padded with zeros, or full of them
                if r.chance(1, 2) {
                    let keep = *r.pick(&[0, 1, 4, 8, 12, 15, 16, 17, 19]);
                    d[keep..].fill(0);
                }
                w.bytes(&d);
            } else {
                u32s!(2);
                u64s!(2);
            }
            u32s!(2);
            let n = name(r, sh);
            w.bytes(&n)
        }
        11 => u64s!(3),
        12 | 15 => u32s!(2),
        13 => u64s!(1),
        14 => (),
        16 => {
            u32s!(2);
            let n = if sh.tail { size(r, sh, 2) } else { r.range(0, 9) };
            w.u64(n as u64);
            u64s!(2 * n);
        }
        17 => { u64s!(1); u32s!(1); w.u16(r.next() as u16); w.u16(r.next() as u16); let n = name(r, sh); w.bytes(&n) }
        18 => { w.u16(r.next() as u16); w.u16(r.next() as u16); u32s!(1); let d = r.bytes(8); w.bytes(&d) }
        19 => { u64s!(1); let n = name(r, sh); w.bytes(&n) }
        20 => {
            u64s!(1);
            let (mut o, n) = if sh.tail { (size(r, sh, 2), size(r, sh, 2)) } else { (r.range(0, 9), r.range(0, 9)) };
            // code is most often replaced by code of the same length
            if r.chance(1, 3) { o = n }
            poke(r, o, n, w)
        }
        21 => u64s!(1),
        _ => { let n = if sh.tail { size(r, sh, 6) } else { r.range(0, 30) }; let d = r.bytes(n); w.bytes(&d) }
    }
}

pub fn poke(r: &mut Rng, o: usize, n: usize, w: &mut W) {
    w.u16(o as u16);
    w.u16(n as u16);
    let d = r.bytes(o + n);
    w.bytes(&d);
    while (w.len() + 4) % 8 != 0 {
        // the generator writes pokes at the start of an 8-byte aligned body, after addr
        w.u8(r.next() as u8)
    }
}

pub fn sample_id(r: &mut Rng, c: &Cfg, w: &mut W) {
    if c.fl & SIA == 0 {
        return;
    }
    let has = |i: u32| c.sty & (1 << i) != 0;
    if has(1) { w.u32(r.word() as u32); w.u32(r.word() as u32) }
    for i in [2, 6, 9] {
        if has(i) { w.u64(r.word()) }
    }
    if has(7) { w.u32(r.word() as u32); w.u32(r.word() as u32) }
    if has(16) { w.u64(r.word()) }
}

pub fn header(w: &mut W, ty: u32, misc: u16, size: u16) {
    w.u32(ty);
    w.u16(misc);
    w.u16(size);
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub ty: u32,
    pub misc: u16,
    /// body and trailer, without the header
    pub data: Vec<u8>,
    pub body_len: usize,
}
impl Rec {
    pub fn size(&self) -> usize {
        self.data.len() + 8
    }
    pub fn put(&self, w: &mut W) {
        header(w, self.ty, self.misc, self.size() as u16);
        w.bytes(&self.data);
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        self.put(&mut w);
        w.out
    }
}

/// A complete record. The same `r` state gives the same contents in both byte orders.
pub fn record(r: &mut Rng, ty: u32, misc: u16, c: &Cfg, sh: Shape, big: bool) -> Rec {
    let mut w = W::new(big);
    body(r, ty, misc, c, sh, &mut w);
    let body_len = w.len();
    if ty != MMAP && ty != SAMPLE {
        sample_id(r, c, &mut w);
    }
    Rec { ty, misc, data: w.out, body_len }
}

pub fn misc(r: &mut Rng) -> u16 {
    match r.below(if r.novel() { 8 } else { 6 }) {
        6 => r.literal() as u16,
        7 => (1 << (r.literal() & 15)) | (1 << r.below(16)),
        0 => 0,
        1 => 0x2000,
        2 => 0x4000,
        3 => 0x6000,
        4 => 1 << r.below(16),
        _ => r.next() as u16,
    }
}

pub fn any_type(r: &mut Rng) -> u32 {
    match r.below(if r.novel() { 12 } else { 10 }) {
        10.. => r.literal() as u32,
        0 => *r.pick(&[0, 22, 23, 64, 100, 0xFFFF, 0x10000, 0x1000001, 0x1000009, u32::MAX]),
        1 | 2 => SAMPLE,
        _ => 1 + r.below(21) as u32,
    }
}

pub fn mask(r: &mut Rng) -> u64 {
    match r.below(if r.novel() { 8 } else { 6 }) {
        6 => r.literal(),
        7 => 1 << (r.literal() & 63) | r.below(2),
        0 => 0,
        1 => r.below(16),
        2 => 1 << 63,
        3 => (1 << r.below(64)) | 1,
        4 => u64::MAX,
        _ => r.next() & r.next() & r.next(),
    }
}

/// A configuration; `bits` is the average number of sample_type flags.
pub fn cfg(r: &mut Rng) -> Cfg {
    let sty = match r.below(5) {
        0 => r.next() & S_ALL,
        1 => S_ALL,
        2 => r.next() & r.next() & S_ALL,
        3 => r.next() & S_SID,
        _ => (1 << r.below(25)) | (1 << r.below(25)) | (1 << r.below(25)),
    };
    let rf = r.below(32);
    let rf = if r.chance(1, 2) { rf & !R_GROUP } else { rf };
    let mut fl = r.next() & !SIA;
    if r.chance(1, 2) {
        fl |= SIA
    }
    let mut bst = r.next() & !HWI;
    if r.chance(1, 2) {
        bst |= HWI
    }
    Cfg { sty, rf, fl, bst, ru: mask(r), ri: mask(r) }
}
