//! Scenario generators, one per property. A group of scenarios that belong
//! together (a reference session and those compared with it) stays together.
use crate::emit::*;
use crate::exec::{Cfg, En, Scenario, Src};
use crate::json::J;
use crate::proj::{w2, w4, w8};
use crate::rng::Rng;
use crate::source::Fault;

pub struct Gen {
    seed: u64,
    scale: f64,
    shard: u64,
    n: u64,
    count: u64,
}
pub type Out<'a> = &'a mut dyn FnMut(Scenario);

impl Gen {
    pub fn new(seed: u64, scale: f64, shard: u64, n: u64) -> Gen {
        Gen { seed, scale, shard, n, count: 0 }
    }
    /// One group, made from a generator that depends only on its number.
    pub fn group(&mut self, out: Out, f: impl FnOnce(&mut Rng, Out)) {
        self.count += 1;
        if self.count % self.n == self.shard {
            let mut r = Rng::new(self.seed.wrapping_mul(0x1000_0001).wrapping_add(self.count));
            f(&mut r, out);
        }
    }
    pub fn times(&self, k: usize) -> usize {
        ((k as f64) * self.scale).ceil() as usize
    }
}

// ------------------------------------------------------------------ op helpers
pub fn o(name: &str) -> J {
    J::obj(vec![("op", J::s(name))])
}
pub fn on(name: &str, n: u64) -> J {
    J::obj(vec![("op", J::s(name)), ("n", w8(n))])
}
pub fn arr(n: i64) -> J {
    J::obj(vec![("op", J::s("arr")), ("n", J::N(n))])
}
pub fn otn(name: &str, t: &str, n: u64) -> J {
    J::obj(vec![("op", J::s(name)), ("t", J::s(t)), ("n", w8(n))])
}
pub fn ty(t: &str) -> J {
    J::obj(vec![("op", J::s("ty")), ("t", J::s(t))])
}
pub fn oif(t: &str, c: bool) -> J {
    J::obj(vec![("op", J::s("if")), ("t", J::s(t)), ("q", J::B(c))])
}
pub fn vis(w: &str) -> J {
    J::obj(vec![("op", J::s("vis")), ("w", J::s(w))])
}
fn h(ty: u32, misc: u16, size: u16) -> J {
    J::obj(vec![("ty", w4(ty)), ("misc", w2(misc)), ("size", w2(size))])
}
pub fn rech(rc: &Rec) -> J {
    J::obj(vec![("op", J::s("rech")), ("h", h(rc.ty, rc.misc, rc.size() as u16))])
}
pub fn metah(rc: &Rec) -> J {
    J::obj(vec![("op", J::s("metah")), ("h", h(rc.ty, rc.misc, rc.size() as u16))])
}
pub fn vish(w: &str, rc: &Rec) -> J {
    J::obj(vec![("op", J::s("vish")), ("w", J::s(w)), ("h", h(rc.ty, rc.misc, rc.size() as u16))])
}
fn step(name: &str) -> J {
    J::A(vec![J::s(name)])
}
fn stepn(name: &str, n: u64) -> J {
    J::A(vec![J::s(name), w8(n)])
}

const PLAIN: [En; 3] = [En::Little, En::Big, En::Native];

// ------------------------------------------------------------------- sources
/// Random delivery of `len` bytes.
pub fn any_src(r: &mut Rng, len: usize) -> Src {
    match r.below(10) {
        0..=2 => Src::Slice,
        3..=4 => buf_src(r, len),
        _ => chunk_src(r, len),
    }
}
pub fn buf_src(r: &mut Rng, len: usize) -> Src {
    let mut cap = *r.pick(&[1, 2, 3, 5, 7, 8, 9, 16, 31, 64, 4096, len.max(1)]);
    if r.novel() && r.chance(1, 5) {
        cap = r.literal_size(9000).max(1);
    }
    let k = r.range(0, 4);
    let reads = (0..k).map(|_| r.range(1, 1 + len.min(40))).collect();
    Src::Buf { cap, reads }
}
pub fn cuts_from(mut v: Vec<usize>, len: usize) -> Vec<usize> {
    v.retain(|&c| c > 0 && c < len);
    v.push(len);
    v.sort();
    v.dedup();
    if len == 0 {
        v = vec![0];
    }
    v
}
pub fn chunk_src(r: &mut Rng, len: usize) -> Src {
    let cuts = match r.below(if r.novel() { 8 } else { 6 }) {
        // the first piece, or every piece, of a size from the code
        6 => vec![r.literal_size(len)],
        7 => {
            let k = r.literal_size(len).max(1);
            (1..len).filter(|x| x % k == 0).collect()
        }
        0 => vec![],
        1 => (1..len).collect(),
        2 => {
            let k = r.range(2, 9);
            (1..len).filter(|x| x % k == 0).collect()
        }
        3 => vec![r.range(0, len)],
        _ => {
            let k = r.range(2, 8);
            (0..k).map(|_| r.range(0, len)).collect()
        }
    };
    let cuts = cuts_from(cuts, len);
    let mode = r.below(3);
    let temp = cuts.iter().map(|_| match mode { 0 => false, 1 => true, _ => r.chance(1, 2) }).collect();
    Src::Chunks { cuts, temp, hint: r.chance(1, 2) }
}
/// One borrowed chunk that is tracked, with or without a hint.
/// All at once, but only to be looked at: nothing can be borrowed, so that K1 does not come up.
pub fn lent(len: usize) -> Src {
    Src::Chunks { cuts: vec![len], temp: vec![true], hint: true }
}
fn whole(hint: bool, len: usize) -> Src {
    Src::Chunks { cuts: vec![len], temp: vec![false], hint }
}

// ------------------------------------------------------------------- streams
fn put_all(recs: &[Rec], big: bool) -> Vec<u8> {
    let mut w = W::new(big);
    for x in recs {
        x.put(&mut w);
    }
    w.out
}

/// A record whose body may have been damaged in a way that keeps the frame.
fn odd_record(r: &mut Rng, ty: u32, c: &Cfg, big: bool) -> Rec {
    let m = misc(r);
    let mut rc = record(r, ty, m, c, SMALL, big);
    match r.below(7) {
        0 => {
            // extra trailing bytes
            let mut n = r.range(1, 17);
            if r.novel() && r.chance(1, 3) {
                // the whole record, or its rest, of a size from the code
                n = r.literal_size(9000);
                n = if r.chance(1, 2) && n > rc.data.len() { n - rc.data.len() } else { n };
            }
            let d = r.bytes(n);
            rc.data.extend(d);
        }
        1 => {
            let n = r.range(0, rc.data.len());
            rc.data.truncate(n);
        }
        2 => smash(r, &mut rc.data),
        3 => rc.data.clear(),
        _ => (),
    }
    rc
}

/// Overwrite something with a value that is likely to be taken for a count.
pub fn smash(r: &mut Rng, d: &mut Vec<u8>) {
    if d.is_empty() {
        return;
    }
    let w = *r.pick(&[1usize, 2, 4, 8]);
    let at = if r.chance(2, 3) { r.range(0, d.len() - 1) & !(w - 1) } else { r.range(0, d.len() - 1) };
    let v: u64 = match r.below(if r.novel() { 10 } else { 8 }) {
        8.. => r.literal(),
        0 => u64::MAX,
        1 => 0,
        2 => 1 << r.below(64),
        3 => r.below(40),
        4 => (1 << 61) - 1,
        5 => (1 << 61) + r.below(3),
        6 => u64::MAX / 24 + r.below(3),
        _ => r.next(),
    };
    let b = if r.chance(1, 2) { v.to_le_bytes() } else { v.to_be_bytes() };
    for i in 0..w {
        if at + i < d.len() {
            d[at + i] = if r.chance(1, 2) { b[i] } else { b[8 - w + i] };
        }
    }
}

fn stream(r: &mut Rng, c: &Cfg, big: bool, n: usize) -> Vec<Rec> {
    (0..n)
        .map(|_| {
            let t = any_type(r);
            odd_record(r, t, c, big)
        })
        .collect()
}

fn rec_op(r: &mut Rng) -> J {
    match r.below(4) {
        0 => vis("all"),
        1 => vis(*r.pick(&["none", "Mmap", "Sample", "Unknown", "Switch", "Comm"])),
        _ => o("rec"),
    }
}

/// ops that read a record one way or another
fn read_record(r: &mut Rng, rc: &Rec) -> Vec<J> {
    match r.below(9) {
        0 => {
            let mut v = vec![o("meta")];
            if r.chance(1, 2) {
                if let Some(n) = name_of(rc.ty).filter(|n| *n != "Switch") {
                    v.push(ty(n));
                } else {
                    v.push(o("rest"));
                }
            }
            v.push(o("pop"));
            v
        }
        1 => vec![o("hdr"), rech(rc)],
        2 => vec![o("hdr"), vish("all", rc)],
        3 => vec![o("hdr"), metah(rc), o("pop")],
        _ => vec![rec_op(r)],
    }
}

fn all_types() -> Vec<u32> {
    let mut v: Vec<u32> = KNOWN.collect();
    v.extend([0, 22, 100, 0x8000_0009, u32::MAX]);
    v
}

// ------------------------------------------------------------------ generate
pub fn generate(prop: &str, g: &mut Gen, out: Out) {
    if g.shard == 0 {
        known_probe(prop, out);
    }
    match prop {
        "C01" => c01(g, out),
        "C02" => c02(g, out),
        "C03" => c03(g, out),
        "C04" => c04(g, out),
        "C05" => c05(g, out),
        "C06" => c06(g, out),
        "C07" => c07(g, out),
        "C08" => c08(g, out),
        "C09" => c09(g, out),
        "C10" => c10(g, out),
        "C11" => c11(g, out),
        "C12" => c12(g, out),
        "C13" => c13(g, out),
        "C14" => c14(g, out),
        "C15" => c15(g, out),
        "C16" => c16(g, out),
        "C17" => c17(g, out),
        "C18" => c18(g, out),
        "C19" => c19(g, out),
        "C20" => c20(g, out),
        "C21" => c21(g, out),
        p => panic!("no generator for {p}"),
    }
    crate::large::add(prop, g, out);
    neighbours(prop, g, out);
    crowds(prop, g, out);
    frames(prop, g, out);
    far(prop, g, out);
}

/// Records a long way into the input, where counts of bytes cross the limits
/// of the types they may be kept in.
fn far(prop: &str, g: &mut Gen, out: Out) {
    if !["C01", "C04", "C08", "C10", "C16", "C17", "C21"].contains(&prop) {
        return;
    }
    for i in 0..g.times(16) {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.sty |= 1 << 10;
            c.sty &= !(0x0010_3060);
            let en = if prop == "C08" { En::Big } else { *r.pick(&PLAIN) };
            let recs: Vec<Rec> = (0..r.range(2, 4))
                .map(|k| {
                    let t = if k == 0 || r.chance(1, 2) { SAMPLE } else { any_type(r) };
                    let m = misc(r);
                    record(r, t, m, &c, SMALL, en.big())
                })
                .collect();
            let b = put_all(&recs, en.big());
            let edge: u64 = [1 << 32, 1 << 31, 1 << 16, 1 << 32][i % 4];
            let n = edge - r.below(b.len() as u64 + 1);
            let mut sc = Scenario::new(b, en, c);
            sc.src = chunk_src(r, sc.b.len());
            sc.ops = vec![on("far", n)];
            if i % 2 == 0 {
                // on the source itself
                sc.b = recs[0].data.clone();
                sc.src = chunk_src(r, sc.b.len());
                sc.ops = vec![on("far", edge - r.below(sc.b.len() as u64 + 1)), ty("Sample"), o("u8")];
            } else {
                for rc in &recs {
                    sc.ops.extend(read_record(r, rc));
                }
            }
            out(sc);
        });
    }
}

/// Records whose type, misc and size are numbers from the code, one beside
/// the other, with something odd behind them.
fn frames(prop: &str, g: &mut Gen, out: Out) {
    if !["C01", "C02", "C05", "C09", "C10", "C12", "C17", "C21"].contains(&prop) || !Rng::new(0).novel() {
        return;
    }
    for _ in 0..g.times(200) {
        g.group(out, |r, out| {
            let c = cfg(r);
            // not where K1 could come up in a property it does not break
            let en = if ["C09", "C12"].contains(&prop) { En::Big } else { *r.pick(&PLAIN) };
            let mut b = vec![];
            let mut ops = vec![];
            for k in 0..r.range(1, 3) {
                let t = if r.chance(2, 3) { r.exact() as u32 } else { any_type(r) };
                let m = if r.chance(1, 3) { r.exact() as u16 } else { misc(r) };
                let mut rc = record(r, t, m, &c, SMALL, en.big());
                let size = match r.below(4) {
                    0 | 1 => r.exact(),
                    2 => 8 * r.range(1, 12) as u64,
                    _ => rc.size() as u64,
                };
                if (8..9000).contains(&size) {
                    let d = r.bytes(size as usize);
                    let n = rc.data.len();
                    rc.data.resize(size as usize - 8, 0);
                    if n < rc.data.len() {
                        let end = rc.data.len();
                        rc.data[n..].copy_from_slice(&d[n..end]);
                    }
                }
                b.extend(rc.bytes(en.big()));
                ops.extend(if k == 0 && r.chance(1, 2) { vec![rec_op(r)] } else { read_record(r, &rc) });
            }
            if r.chance(1, 2) {
                let lost = record(r, 2, 0, &c, SMALL, en.big());
                b.extend(lost.bytes(en.big()));
                ops.push(o("rec"));
            }
            let n = r.range(0, 9);
            b.extend(r.bytes(n));
            ops.extend([o("u8"), o("rec")]);
            let mut sc = Scenario::new(b, en, c);
            sc.ops = ops;
            for _ in 0..2 {
                sc.src = any_src(r, sc.b.len());
                out(sc.clone());
            }
        });
    }
}

/// The same data under one configuration and others that differ from it in
/// one respect, in turn: what one parser was told must not tell on the next.
fn neighbours(prop: &str, g: &mut Gen, out: Out) {
    if !["C01", "C02", "C03", "C04", "C05", "C10", "C11", "C13", "C17", "C18"].contains(&prop) {
        return;
    }
    for _ in 0..g.times(40) {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.ru &= 7;
            c.ri &= 7;
            c.rf &= 31;
            if r.chance(1, 2) {
                c.fl |= SIA;
            }
            let t = match prop {
                "C04" | "C18" => SAMPLE,
                "C11" => 8,
                _ if r.chance(1, 3) => *r.pick(&[10u32, 15, 3, 2]),
                _ => any_type(r),
            };
            let (m, en) = (misc(r), *r.pick(&PLAIN));
            let base = record(r, t, m, &c, MIXED, en.big());
            for k in 0..8 {
                let (mut c2, mut en2, mut rc) = (c, en, base.clone());
                match k {
                    0 => c2.fl ^= SIA,
                    1 => c2.bst ^= HWI,
                    2 => c2.sty ^= 1 << *r.pick(&[1u32, 2, 6, 9, 7, 16]),
                    3 => c2.sty ^= 1 << r.below(25),
                    4 => c2.rf ^= 1 << r.below(5),
                    5 => if r.chance(1, 2) { c2.ru ^= 1 << r.below(64) } else { c2.ri ^= 1 << r.below(64) },
                    6 => rc.misc ^= *r.pick(&[0x4000u16, 0x2000, 1]),
                    _ => en2 = if en.big() { En::Little } else { En::Big },
                }
                if r.chance(1, 2) {
                    let m2 = rc.misc;
                    rc = record(r, t, m2, &c2, SMALL, en2.big());
                }
                for (rc, c, en) in [(&base, c, en), (&rc, c2, en2)] {
                    let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = vec![if r.chance(1, 2) { vis("all") } else { o("rec") }];
                    if prop == "C05" || prop == "C13" {
                        sc.ops.push(o("conf"));
                        sc.want = "c".into();
                    }
                    out(sc);
                }
            }
        });
    }
}

/// The same record again and again, while other threads decode it with
/// configurations that differ in one option.
fn crowds(prop: &str, g: &mut Gen, out: Out) {
    let n = match prop {
        "C13" => 60,
        "C03" | "C04" | "C05" | "C11" => 24,
        _ => return,
    };
    for _ in 0..g.times(n) {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.ru &= 7;
            c.ri &= 7;
            c.rf &= 31;
            let t = match prop {
                "C04" | "C11" => SAMPLE,
                _ => *r.pick(&[9u32, 9, 9, 10, 15, 8, 3]),
            };
            if t == SAMPLE {
                // not much besides what options bear on
                c.sty &= !(0x0210_3020) | 1 << r.below(25);
                if prop == "C11" {
                    c.sty |= 16;
                }
                if r.chance(1, 2) {
                    c.sty |= 1 << 11;
                }
            } else if prop == "C05" {
                c.fl |= SIA;
            }
            let (m, en) = (misc(r), *r.pick(&PLAIN));
            let rc = record(r, t, m, &c, Shape { max: 1, tail: false }, en.big());
            let k = r.range(8, 16);
            let mut b = vec![];
            for _ in 0..k {
                b.extend(rc.bytes(en.big()));
            }
            let mut sc = Scenario::new(b, en, c);
            sc.src = Src::Slice;
            sc.ops = (0..k).map(|i| if i % 4 == 3 { vis("all") } else { o("rec") }).collect();
            sc.note = "crowd".into();
            out(sc);
        });
    }
}

/// A case in which known finding K1 shows, for each property it breaks, so
/// that every run says whether it is still there.
fn known_probe(prop: &str, out: Out) {
    const K1: [&str; 16] = [
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C13", "C14", "C15", "C16",
        "C17", "C18", "C21",
    ];
    if !K1.contains(&prop) {
        return;
    }
    let big = En::Native.big();
    let note = |mut sc: Scenario| {
        sc.note = "probe K1".to_string();
        sc
    };
    // call chain of one entry, raw data; the record goes on behind them
    let chain = |big: bool, more: bool| {
        let mut w = W::new(big);
        w.u64(1);
        w.u64(0x1122_3344_5566_7788);
        for k in 0..1 + more as u8 {
            w.u32(4);
            w.bytes(&[k, 2, 3, 4]);
        }
        let data = w.out;
        let rc = Rec { ty: 9, misc: 0, body_len: data.len(), data };
        put_all(&[rc], big)
    };
    let cfg = Cfg { sty: 1 << 5 | 1 << 10, ..Cfg::default() };
    let mut sc = Scenario::new(chain(big, true), En::Native, cfg);
    sc.al = 1;
    sc.ops = vec![o("rec")];
    match prop {
        "C06" => {
            let n = sc.b.len();
            sc.al = 0;
            compare(note(sc), vec![(Src::Slice, 1), (whole(true, n), 1)], out);
        }
        "C07" => {
            let other = if big { En::Little } else { En::Big };
            let mut a = Scenario::new(chain(!big, true), other, cfg);
            a.ops = vec![o("rec")];
            a.rf = "set";
            out(note(a));
            sc.rf = "cmp";
            out(note(sc));
        }
        "C10" => {
            sc.b = chain(big, false);
            out(note(sc));
        }
        "C14" | "C16" | "C21" => {
            let mut s = Scenario::new((0..16).collect(), En::Native, Cfg::default());
            s.src = whole(true, 16);
            s.al = 1;
            s.ops = vec![otn("slice", "u64", 1)];
            if prop == "C14" {
                s.fault = Some(Fault { off: 8, kind: 0, msg: "gone".to_string(), once: false });
            }
            out(note(s));
        }
        "C11" => {
            let mut w = W::new(big);
            for x in [1u64, 7, 9] {
                w.u64(x);
            }
            let mut s = Scenario::new(w.out, En::Native, Cfg { rf: R_GROUP, ..Cfg::default() });
            s.al = 1;
            s.ops = vec![ty("ReadGroup")];
            out(note(s));
        }
        "C03" => {
            let mut w = W::new(big);
            w.u32(1);
            w.u32(2);
            for x in [1u64, 3, 4, 5, 6] {
                w.u64(x);
            }
            let data = w.out;
            let rc = Rec { ty: 16, misc: 0, body_len: data.len(), data };
            let mut s = Scenario::new(put_all(&[rc], big), En::Native, Cfg::default());
            s.al = 1;
            s.ops = vec![o("rec")];
            out(note(s));
        }
        "C15" => {
            sc.want = "l".to_string();
            out(note(sc));
        }
        _ => out(note(sc)),
    }
}

fn random_stream_session(r: &mut Rng, src: fn(&mut Rng, usize) -> Src) -> Scenario {
    let c = cfg(r);
    let en = *r.pick(&En::ALL);
    let n = r.range(1, 6);
    let recs = stream(r, &c, en.big(), n);
    let mut b = put_all(&recs, en.big());
    if r.chance(1, 4) {
        let k = r.range(1, 12);
        let extra = r.bytes(k);
        b.extend(extra);
    }
    if r.chance(1, 6) {
        let k = r.range(0, b.len());
        b.truncate(k);
    }
    let mut sc = Scenario::new(b, en, c);
    sc.src = src(r, sc.b.len());
    sc.al = r.range(0, 7);
    if r.chance(1, 6) {
        // several at a time
        let k = r.range(0, recs.len() + 1) as u64;
        sc.ops.push(on("recs", k));
        sc.ops.push(on("recs", recs.len() as u64 - k.min(recs.len() as u64)));
    } else {
        for rc in &recs {
            sc.ops.extend(read_record(r, rc));
        }
    }
    if r.chance(1, 3) {
        sc.ops.push(o("rec"));
    }
    sc
}

/// Records inside a record, whose frames are read one in the other.
fn nested(r: &mut Rng, c: &Cfg, en: En, depth: usize) -> (Rec, Vec<J>) {
    let n = r.range(1, 3);
    let mut w = W::new(en.big());
    let mut ops = vec![o("meta")];
    if r.chance(1, 4) {
        ops.push(o("conf"));
    }
    for _ in 0..n {
        let (rc, os) = if depth > 1 && r.chance(2, 3) {
            nested(r, c, en, depth - 1)
        } else if r.chance(1, 4) {
            // its misc says something other than that of the record around it
            let m = *r.pick(&[0u16, 0, 0x4000, 0x2000, 0xBFFF]);
            let rc = record(r, 10, m, c, SMALL, en.big());
            let os = vec![o("meta"), if r.chance(1, 4) { o("conf") } else { ty("Mmap2") }, ty("Mmap2"), o("pop")];
            (rc, os)
        } else {
            let t = any_type(r);
            let m = misc(r);
            let rc = if r.chance(4, 5) { record(r, t, m, c, MIXED, en.big()) } else { odd_record(r, t, c, en.big()) };
            let os = read_record(r, &rc);
            (rc, os)
        };
        w.bytes(&rc.bytes(en.big()));
        ops.extend(os);
    }
    if r.chance(1, 3) {
        ops.push(ty("SampleId"));
    }
    if r.chance(1, 3) {
        ops.push(o("rest"));
    }
    ops.push(o("pop"));
    let t = *r.pick(&[99u32, 80, 9, 1, 14, 20, 2]);
    let body_len = w.len();
    if t != 9 && t != 1 {
        sample_id(r, c, &mut w);
    }
    let m = misc(r) | if r.chance(1, 3) { 0x4000 } else { 0 };
    (Rec { ty: t, misc: m, data: w.out, body_len }, ops)
}
fn nested_session(r: &mut Rng) -> Scenario {
    let mut c = cfg(r);
    if r.chance(2, 3) {
        c.fl |= SIA;
        c.sty |= 1 << *r.pick(&[1u64, 2, 6, 7, 9, 16]);
    }
    let en = *r.pick(&En::ALL);
    let depth = r.range(1, 3);
    let (rc, mut ops) = nested(r, &c, en, depth);
    let tail = record(r, 2, 0, &c, SMALL, en.big());
    let mut sc = Scenario::new(put_all(&[rc, tail], en.big()), en, c);
    sc.src = any_src(r, sc.b.len());
    sc.al = r.range(0, 7);
    ops.push(o("rec"));
    sc.ops = ops;
    sc.note = "nested".into();
    sc
}
fn nests(g: &mut Gen, n: usize, out: Out) {
    for _ in 0..g.times(n) {
        g.group(out, |r, out| out(nested_session(r)));
    }
}

/// A great many small records on one parser.
fn long_stream(r: &mut Rng, k: usize) -> Scenario {
    let mut c = cfg(r);
    c.sty &= 0x1_0046;
    c.ru = 0;
    c.ri = 0;
    let en = *r.pick(&PLAIN);
    let n = *r.pick(&[300usize, 700, 1100, 1500]);
    // all alike, or all different
    let t = *r.pick(&[2u32, 4, 5, 9, 12, 15, 3, 99]);
    let way = r.below(4);
    let mut recs = vec![];
    let mut ops = vec![];
    for i in 0..n {
        let rc = if k % 2 == 0 {
            if i % 97 == 96 { odd_record(r, t, &c, en.big()) } else { record(r, t, 0, &c, Shape { max: 1, tail: false }, en.big()) }
        } else {
            let t = *r.pick(&[2u32, 4, 5, 6, 7, 9, 11, 12, 13, 14, 15, 3, 21, 99]);
            if r.chance(1, 4) { odd_record(r, t, &c, en.big()) } else { record(r, t, 0, &c, Shape { max: 1, tail: false }, en.big()) }
        };
        let inner = match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => o("rest") };
        match (k % 2 == 0, way) {
            (true, 0) => ops.push(vis("all")),
            (true, 1) => ops.extend([o("meta"), inner, o("pop")]),
            (true, _) => ops.push(o("rec")),
            _ => ops.extend(read_record(r, &rc)),
        }
        recs.push(rc);
    }
    let mut sc = Scenario::new(put_all(&recs, en.big()), en, c);
    sc.src = crate::large::pieces(r, sc.b.len());
    sc.ops = ops;
    sc.note = "long".into();
    sc
}

fn tracked_src(r: &mut Rng, len: usize) -> Src {
    if r.chance(1, 4) {
        let hint = r.chance(1, 2);
        whole(hint, len)
    } else {
        chunk_src(r, len)
    }
}

fn c01(g: &mut Gen, out: Out) {
    nests(g, 40, out);
    // every type, every body length, with a sentinel after it
    let step = if g.scale >= 2.0 { 1 } else { 3 };
    for t in all_types() {
        for sia in [false, true] {
            for len in (0..100usize).step_by(1) {
                if (len + t as usize) % step != 0 && len > 24 {
                    continue;
                }
                g.group(out, |r, out| {
                    let mut c = cfg(r);
                    c.fl = if sia { SIA } else { 0 };
                    if r.chance(1, 2) {
                        c.sty &= S_SID | 0xF;
                    }
                    let en = *r.pick(&PLAIN);
                    let m = misc(r);
                    let big = Shape { max: 8, tail: false };
                    let mut rc = record(r, t, m, &c, big, en.big());
                    rc.data.resize(len, 0x5A);
                    let lost = record(r, 2, 0, &c, SMALL, en.big());
                    let b = put_all(&[rc.clone(), lost], en.big());
                    let src = tracked_src(r, b.len());
                    let mut sc = Scenario::new(b, en, c);
                    sc.src = src;
                    sc.ops = read_record(r, &rc);
                    sc.ops.push(o("rec"));
                    sc.ops.push(o("u8"));
                    out(sc);
                });
            }
        }
    }
    // header sizes 0..8 and sizes larger than what is there
    for size in 0..=9u16 {
        for t in [1u32, 2, 9, 14, 16, 99] {
            for extra in [0usize, 3, 24] {
                g.group(out, |r, out| {
                    let c = cfg(r);
                    let en = *r.pick(&PLAIN);
                    let mut w = W::new(en.big());
                    header(&mut w, t, 0, size);
                    let d = r.bytes(extra);
                    w.bytes(&d);
                    for op in ["rec", "meta"] {
                        let mut sc = Scenario::new(w.out.clone(), en, c);
                        sc.src = tracked_src(r, sc.b.len());
                        sc.ops = vec![o(op), o("pop")];
                        if op == "rec" {
                            sc.ops.pop();
                        }
                        out(sc);
                    }
                });
            }
        }
    }
    // large records
    for _ in 0..g.times(10) {
        g.group(out, |r, out| {
            let c = Cfg { fl: if r.chance(1, 2) { SIA } else { 0 }, sty: S_SID, ..Cfg::default() };
            let t = *r.pick(&[1u32, 3, 19, 99, 2]);
            let size = *r.pick(&[65535usize, 65528, 32768, 20000]);
            let mut rc = Rec { ty: t, misc: 0, data: vec![0; size - 8], body_len: size - 8 };
            rc.data[40] = 7;
            let tail = record(r, 2, 0, &c, SMALL, false);
            let b = put_all(&[rc.clone(), tail], false);
            let mut sc = Scenario::new(b, En::Little, c);
            let cut = r.range(0, sc.b.len());
            sc.src = match r.below(3) {
                0 => whole(false, sc.b.len()),
                1 => Src::Chunks { cuts: cuts_from(vec![cut], sc.b.len()), temp: vec![true; 2], hint: false },
                _ => Src::Buf { cap: 8192, reads: vec![] },
            };
            if let Src::Chunks { cuts, temp, .. } = &mut sc.src {
                temp.resize(cuts.len(), true);
            }
            sc.ops = vec![o("rec"), o("rec")];
            out(sc);
        });
    }
    for k in 0..g.times(8) {
        g.group(out, |r, out| out(long_stream(r, k)));
    }
    // random streams
    for _ in 0..g.times(900) {
        g.group(out, |r, out| {
            let f: fn(&mut Rng, usize) -> Src = if r.chance(2, 3) { tracked_src } else { any_src };
            out(random_stream_session(r, f))
        });
    }
}

fn c02(g: &mut Gen, out: Out) {
    let mut visitors = vec!["all", "none", "Unknown"];
    visitors.extend(NAMES);
    let mut types = all_types();
    types.extend([23, 255, 256 + 1, 0x0100_0000]);
    for &t in &types {
        for &w in &visitors {
            g.group(out, |r, out| {
                for k in 0..2 {
                    let mut c = cfg(r);
                    if t == 8 {
                        c.rf &= !R_GROUP
                    }
                    let en = *r.pick(&PLAIN);
                    let m = if k == 0 { misc(r) & !0x4000 } else { misc(r) | 0x4000 };
                    let rc = record(r, t, m, &c, MIXED, en.big());
                    let tail = record(r, 2, 0, &c, SMALL, en.big());
                    let mut sc = Scenario::new(put_all(&[rc.clone(), tail], en.big()), en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = match k {
                        0 => vec![vis(w), o("rec")],
                        _ => vec![o("hdr"), vish(w, &rc), o("rec")],
                    };
                    out(sc);
                    if w == "all" {
                        let mut sc = Scenario::new(put_all(&[rc.clone()], en.big()), en, c);
                        sc.ops = vec![o("rec")];
                        sc.src = any_src(r, sc.b.len());
                        out(sc);
                    }
                }
            });
        }
    }
    // unknown types: nearby numbers and sign/width variants, bodies of all sizes
    for _ in 0..g.times(250) {
        g.group(out, |r, out| {
            let t = match r.below(4) {
                0 => 22 + r.below(200) as u32,
                1 => (1 + r.below(21) as u32) | (1 << (8 + r.below(24))),
                2 => r.next() as u32,
                _ => 1 << r.below(32),
            };
            let c = cfg(r);
            let en = *r.pick(&PLAIN);
            let m = misc(r);
            let rc = record(r, t, m, &c, SMALL, en.big());
            let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![if r.chance(1, 2) { o("rec") } else { vis("all") }];
            out(sc);
        });
    }
    for _ in 0..g.times(500) {
        g.group(out, |r, out| {
            let mut sc = random_stream_session(r, any_src);
            for op in sc.ops.iter_mut() {
                if op.get("op").unwrap().str() == "rec" {
                    *op = vis("all");
                }
            }
            out(sc)
        });
    }
}

fn c03(g: &mut Gen, out: Out) {
    nests(g, 30, out);
    let types: Vec<u32> = KNOWN.filter(|&t| t != SAMPLE).collect();
    // names that some tool might treat specially
    for n in ODD_NAMES {
        g.group(out, |r, out| {
            for t in [1u32, 3, 10, 17, 19] {
                let c = Cfg { fl: if r.chance(1, 2) { SIA } else { 0 }, sty: S_SID & r.next(), ..Cfg::default() };
                let (m, en) = (misc(r) & !0x4000, *r.pick(&PLAIN));
                let mut w = W::new(en.big());
                let fixed = [0, 32, 0, 8, 0, 0, 0, 0, 0, 0, 64, 0, 0, 0, 0, 0, 0, 16, 0, 8][t as usize];
                let d = r.bytes(fixed);
                w.bytes(&d);
                w.bytes(n.as_bytes());
                if r.chance(3, 4) {
                    w.u8(0);
                    while w.len() % 8 != 0 {
                        w.u8(0);
                    }
                }
                let body_len = w.len();
                if t != MMAP {
                    sample_id(r, &c, &mut w);
                }
                let rc = Rec { ty: t, misc: m, data: w.out, body_len };
                let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                sc.src = any_src(r, sc.b.len());
                sc.ops = vec![o("rec")];
                out(sc);
            }
        });
    }
    // well-formed contents
    for &t in &types {
        for _ in 0..g.times(40) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if r.chance(4, 5) {
                    c.rf &= !R_GROUP;
                }
                let en = *r.pick(&En::ALL);
                let m = misc(r);
                let rc = record(r, t, m, &c, MIXED, en.big());
                let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                sc.src = any_src(r, sc.b.len());
                sc.al = r.range(0, 7);
                sc.ops = vec![o("rec")];
                out(sc);
            });
        }
        // every body length
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.rf &= !R_GROUP;
            c.fl = 0;
            let en = *r.pick(&PLAIN);
            let m = misc(r);
            let rc = record(r, t, m, &c, SMALL, en.big());
            for n in 0..=rc.data.len() {
                let mut x = rc.clone();
                x.data.truncate(n);
                let mut sc = Scenario::new(x.bytes(en.big()), en, c);
                sc.src = any_src(r, sc.b.len());
                sc.ops = vec![o("rec")];
                out(sc);
            }
        });
    }
    // names: NUL placement
    for t in [1u32, 3, 10, 17, 19] {
        for lead in 0..5usize {
            for nul in 0..5usize {
                g.group(out, |r, out| {
                    let mut c = cfg(r);
                    if r.chance(1, 2) {
                        c.fl |= SIA;
                    }
                    let en = *r.pick(&PLAIN);
                    let mut rc = record(r, t, 0, &Cfg { fl: 0, ..c }, SMALL, en.big());
                    let fixed = match t { 1 => 32, 3 => 8, 10 => 64, 17 => 16, _ => 8 };
                    rc.data.truncate(fixed);
                    for i in 0..lead {
                        rc.data.push(if i == 1 { 0 } else { b'x' + i as u8 });
                    }
                    rc.data.extend(vec![0; nul]);
                    if t != 1 {
                        let mut w = W::new(en.big());
                        sample_id(r, &c, &mut w);
                        rc.data.extend(w.out);
                    }
                    let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = vec![o("rec")];
                    out(sc);
                });
            }
        }
    }
    // every byte as the last and the first of a name
    for t in [1u32, 3, 10, 17, 19] {
        for from in [0u32, 64, 128, 192] {
            g.group(out, |r, out| {
                let en = *r.pick(&PLAIN);
                let c = Cfg::default();
                let rc = record(r, t, 0, &c, SMALL, en.big());
                let fixed = match t { 1 => 32, 3 => 8, 10 => 64, 17 => 16, _ => 8 };
                for v in from..from + 64 {
                    let mut x = rc.clone();
                    x.data.truncate(fixed);
                    if r.chance(1, 2) {
                        x.data.extend([b'n', v as u8]);
                    } else {
                        x.data.extend([v as u8, b'n']);
                    }
                    x.data.extend(vec![0; r.range(0, 2)]);
                    let mut sc = Scenario::new(x.bytes(en.big()), en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = vec![o("rec")];
                    out(sc);
                }
            });
        }
    }
    // long names and tails of NULs (beyond 255 and 4096)
    for n in [250usize, 256, 300, 4095, 4097, 9000] {
        g.group(out, |r, out| {
            let t = *r.pick(&[1u32, 3, 10, 17, 19]);
            let mut rc = record(r, t, 0, &Cfg::default(), SMALL, false);
            let keep = r.range(0, n);
            rc.data.extend(vec![b'n'; keep]);
            rc.data.extend(vec![0; n - keep]);
            let mut sc = Scenario::new(rc.bytes(false), En::Little, Cfg::default());
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![o("rec")];
            out(sc);
        });
    }
    // MMAP2 build ids of every length
    for n in 0..=255u16 {
        if n > 40 && n % 5 != 0 && g.scale < 2.0 {
            continue;
        }
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let c = cfg(r);
            let mi = 0x4000 | (misc(r) & 0x2FFF); let mut rc = record(r, 10, mi, &c, SMALL, en.big());
            rc.data[32] = n as u8;
            let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![o("rec")];
            out(sc);
        });
    }
    // text pokes: all small length pairs, exact, one byte short, and lying lengths
    let top = if g.scale >= 2.0 { 17 } else { 10 };
    for ol in 0..top {
        for nl in 0..top {
            g.group(out, |r, out| {
                let en = *r.pick(&PLAIN);
                let c = Cfg::default();
                let mut w = W::new(en.big());
                w.u64(r.word());
                poke(r, ol, nl, &mut w);
                let full = w.out.clone();
                for cut in [0usize, 1, 4, 8] {
                    let mut d = full.clone();
                    let k = d.len().saturating_sub(cut);
                    d.truncate(k);
                    let rc = Rec { ty: 20, misc: 0, body_len: d.len(), data: d };
                    let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = vec![o("rec")];
                    out(sc);
                }
            });
        }
    }
    // code replaced by as much code, and lengths apart by little
    for k in 0..g.times(48) {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let ol = if k % 2 == 0 { r.range(9, 140) } else { r.range(140, 1500) };
            let nl = if r.chance(2, 3) { ol } else { ol + r.range(0, 8) - 4 };
            let mut w = W::new(en.big());
            w.u64(r.word());
            poke(r, ol, nl, &mut w);
            let rc = Rec { ty: 20, misc: 0, body_len: w.len(), data: w.out };
            let mut sc = Scenario::new(rc.bytes(en.big()), en, Cfg::default());
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![o("rec")];
            out(sc);
        });
    }
    for (ol, nl) in [(65535u16, 0u16), (0, 65535), (65535, 65535), (40000, 40000), (300, 1000), (65532, 3)] {
        g.group(out, |r, out| {
            let mut w = W::new(false);
            w.u64(7);
            w.u16(ol);
            w.u16(nl);
            let n = r.range(0, 60);
            let d = r.bytes(n);
            w.bytes(&d);
            let rc = Rec { ty: 20, misc: 0, body_len: w.len(), data: w.out };
            let mut sc = Scenario::new(rc.bytes(false), En::Little, Cfg::default());
            sc.ops = vec![o("rec")];
            out(sc);
        });
    }
    // namespaces: counts 0..10, and counts that lie
    for n in 0..=10u64 {
        for lie in [0i64, 1, -1, 1000, i64::MAX, 1 << 60] {
            g.group(out, |r, out| {
                let en = *r.pick(&PLAIN);
                let c = cfg(r);
                let mut w = W::new(en.big());
                w.u32(1);
                w.u32(2);
                w.u64((n as i64).wrapping_add(lie) as u64);
                for _ in 0..2 * n {
                    w.u64(r.word())
                }
                sample_id(r, &c, &mut w);
                let rc = Rec { ty: 16, misc: 0, body_len: w.len(), data: w.out };
                let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                sc.src = any_src(r, sc.b.len());
                sc.al = r.range(0, 7);
                sc.ops = vec![o("rec")];
                out(sc);
            });
        }
    }
    // odd ones
    for _ in 0..g.times(600) {
        g.group(out, |r, out| {
            let t = *r.pick(&types);
            let c = cfg(r);
            let en = *r.pick(&En::ALL);
            let rc = odd_record(r, t, &c, en.big());
            let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
            sc.src = any_src(r, sc.b.len());
            sc.al = r.range(0, 7);
            sc.ops = vec![o("rec")];
            out(sc);
        });
    }
}

fn one_record(r: &mut Rng, rc: &Rec, en: En, c: Cfg) -> Scenario {
    let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
    sc.src = any_src(r, sc.b.len());
    sc.al = r.range(0, 7);
    sc.ops = vec![o("rec")];
    sc
}

fn c04(g: &mut Gen, out: Out) {
    nests(g, 30, out);
    counts(g, out);
    stacks(g, "", out);
    let base = |r: &mut Rng, sty: u64| {
        let mut c = cfg(r);
        c.sty = sty;
        // keep wide register files for the random part
        c.ru = r.next() & r.next() & r.next() & r.next();
        c.ri = r.next() & r.next() & r.next() & r.next();
        c
    };
    // each flag alone and each pair of flags
    for a in 0..25u32 {
        for b in 0..=a {
            g.group(out, |r, out| {
                let c = base(r, (1 << a) | (1 << b));
                let en = *r.pick(&PLAIN);
                let mi = misc(r); let rc = record(r, SAMPLE, mi, &c, MIXED, en.big());
                out(one_record(r, &rc, en, c));
            });
        }
        // all but one flag
        g.group(out, |r, out| {
            let c = base(r, S_ALL & !(1 << a));
            let en = *r.pick(&PLAIN);
            let rc = record(r, SAMPLE, 0, &c, SMALL, en.big());
            out(one_record(r, &rc, en, c));
        });
    }
    // every read format inside a sample
    for rf in 0..64u64 {
        g.group(out, |r, out| {
            let st = (1 << 4) | (r.next() & S_ALL); let mut c = base(r, st);
            c.rf = rf;
            let en = *r.pick(&PLAIN);
            let rc = record(r, SAMPLE, 0, &c, SMALL, en.big());
            out(one_record(r, &rc, en, c));
        });
    }
    // variable parts: length words around the truth
    for bit in [4u32, 5, 10, 11, 13, 20] {
        for n in 0..6u64 {
            for lie in [0i64, 1, -1, 8, 1 << 20, 1 << 32, i64::MAX, -8, (1 << 61) - 1, 1 << 61, 1 << 60] {
                g.group(out, |r, out| {
                    let mut c = base(r, 1 << bit);
                    c.rf = (r.next() & 0x1F) | R_GROUP;
                    let en = *r.pick(&PLAIN);
                    let mut w = W::new(en.big());
                    let v = (n as i64).wrapping_add(lie) as u64;
                    match bit {
                        10 => w.u32(v as u32),
                        _ => w.u64(v),
                    }
                    match bit {
                        4 => {
                            for _ in 0..(c.rf & 3).count_ones() { w.u64(r.word()) }
                            for _ in 0..n { w.u64(r.word()); for _ in 0..(c.rf & 20).count_ones() { w.u64(r.word()) } }
                        }
                        5 => for _ in 0..n { w.u64(r.word()) },
                        11 => {
                            if c.bst & HWI != 0 { w.u64(r.word()) }
                            for _ in 0..3 * n { w.u64(r.word()) }
                        }
                        13 => {
                            let d = r.bytes(n as usize);
                            w.bytes(&d);
                            let dy = *r.pick(&[0, n, n + 1, n.saturating_sub(1), u64::MAX]);
                            w.u64(dy);
                        }
                        _ => {
                            let d = r.bytes(n as usize);
                            w.bytes(&d);
                            let pad = r.range(0, 7);
                            let d = r.bytes(pad);
                            w.bytes(&d);
                        }
                    }
                    let rc = Rec { ty: SAMPLE, misc: 0, body_len: w.len(), data: w.out };
                    out(one_record(r, &rc, en, c));
                });
            }
        }
    }
    // RAW: every size mod 8, followed by another field
    for n in 0..20usize {
        for cut in [0usize, 1, 7, 8] {
            g.group(out, |r, out| {
                let c = base(r, (1 << 10) | (1 << 15) | if n % 2 == 0 { 1 << 5 } else { 0 });
                let en = *r.pick(&PLAIN);
                let mut w = W::new(en.big());
                if n % 2 == 0 { w.u64(1); w.u64(5) }
                w.u32(n as u32);
                let d = r.bytes(n);
                w.bytes(&d);
                while w.len() % 8 != 0 { w.u8(0xEE) }
                w.u64(r.word());
                let k = w.len() - cut;
                w.out.truncate(k);
                let rc = Rec { ty: SAMPLE, misc: 0, body_len: k, data: w.out };
                out(one_record(r, &rc, en, c));
            });
        }
    }
    // stacks: dynamic sizes around the size, followed by another field
    for n in 0..6u64 {
        for dy in [0u64, 1, 2, 5, 6, 7, u64::MAX, 1 << 32] {
            g.group(out, |r, out| {
                let c = base(r, (1 << 13) | (1 << 14));
                let en = *r.pick(&PLAIN);
                let mut w = W::new(en.big());
                w.u64(n);
                let d = r.bytes(n as usize);
                w.bytes(&d);
                if n > 0 || r.chance(1, 3) { w.u64(dy) }
                w.u64(r.word());
                let rc = Rec { ty: SAMPLE, misc: 0, body_len: w.len(), data: w.out };
                out(one_record(r, &rc, en, c));
            });
        }
    }
    // registers: masks with 0..64 bits
    for k in 0..=64u32 {
        g.group(out, |r, out| {
            let mut c = base(r, (1 << 12) | (1 << 18) | (1 << 17));
            c.ru = if k == 64 { u64::MAX } else { ((1u64 << k) - 1) << r.below(64 - k as u64 + 1) };
            c.ri = if k % 3 == 0 { 0 } else { mask(r) };
            let en = *r.pick(&PLAIN);
            let mut rc = record(r, SAMPLE, 0, &c, SMALL, en.big());
            out(one_record(r, &rc, en, c));
            let n = r.range(0, rc.data.len());
            rc.data.truncate(n);
            out(one_record(r, &rc, en, c));
        });
    }
    // every truncation of a full sample
    for _ in 0..g.times(2) {
        g.group(out, |r, out| {
            let st = S_ALL & r.next(); let c = base(r, st);
            let en = *r.pick(&PLAIN);
            let rc = record(r, SAMPLE, 0, &c, Shape { max: 2, tail: false }, en.big());
            for n in (0..=rc.data.len()).rev().step_by(if rc.data.len() > 300 { 3 } else { 1 }) {
                let mut x = rc.clone();
                x.data.truncate(n);
                out(one_record(r, &x, en, c));
            }
        });
    }
    // random configurations, well-formed and odd
    for _ in 0..g.times(900) {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            if r.chance(1, 8) {
                c.sty |= r.next() << 25;
            }
            if r.chance(1, 10) {
                c.rf |= r.next() << 5;
            }
            let en = *r.pick(&En::ALL);
            let rc = if r.chance(1, 2) {
                let m = misc(r);
                record(r, SAMPLE, m, &c, MIXED, en.big())
            } else {
                odd_record(r, SAMPLE, &c, en.big())
            };
            out(one_record(r, &rc, en, c));
        });
    }
    // large arrays
    for bit in [5u32, 11, 13, 10, 20] {
        g.group(out, |r, out| {
            let c = base(r, 1 << bit);
            let rc = record(r, SAMPLE, 0, &c, Shape { max: 600, tail: false }, false);
            out(one_record(r, &rc, En::Little, c));
        });
    }
}

fn sid_subset(k: u64) -> u64 {
    let bits = [1u64, 2, 6, 9, 7, 16];
    bits.iter().enumerate().filter(|(i, _)| k & (1 << i) != 0).map(|(_, b)| 1 << b).sum()
}

fn c05(g: &mut Gen, out: Out) {
    nests(g, 150, out);
    for k in 0..64u64 {
        for sia in [true, false] {
            for round in 0..g.times(2).max(2) {
                g.group(out, |r, out| {
                    let noise = r.next() & S_ALL & !S_SID;
                    let c = Cfg { sty: sid_subset(k) | noise, fl: if sia { SIA | (r.next() & !SIA) } else { r.next() & !SIA }, ..cfg(r) };
                    let mut c = c;
                    c.rf &= !R_GROUP;
                    let en = *r.pick(&En::ALL);
                    for _ in 0..3 {
                        let t = if round == 0 { *r.pick(&[2u32, 3, 16, 99, 1, 9, 14, 8]) } else { any_type(r) };
                        let m = misc(r);
                        let rc = record(r, t, m, &c, MIXED, en.big());
                        let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                        sc.src = any_src(r, sc.b.len());
                        sc.ops = vec![vis("all"), o("conf")];
                        sc.want = "c".into();
                        out(sc);
                    }
                    // the trailer on its own
                    let mut w = W::new(en.big());
                    sample_id(r, &c, &mut w);
                    let extra = r.range(0, 9);
                    let d = r.bytes(extra);
                    w.bytes(&d);
                    let mut sc = Scenario::new(w.out, en, c);
                    sc.src = tracked_src(r, sc.b.len());
                    sc.ops = vec![o("conf"), ty("SampleId"), o("rest")];
                    sc.want = "c".into();
                    out(sc);
                    // bodies too short for it
                    for n in [0usize, 7, 8, 15, 16, 24, 40, 47] {
                        let t = *r.pick(&[2u32, 3, 14, 99, 1, 9]);
                        let d = r.bytes(n);
                        let rc = Rec { ty: t, misc: 0, body_len: n, data: d };
                        let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                        sc.src = any_src(r, sc.b.len());
                        sc.ops = vec![if r.chance(1, 2) { vis("all") } else { o("meta") }];
                        out(sc);
                    }
                });
            }
        }
    }
    // every type with every field present, all lengths of name
    for t in all_types() {
        for _ in 0..g.times(6) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                c.sty |= r.next() & S_SID;
                c.fl |= SIA;
                c.rf &= !R_GROUP;
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let rc = record(r, t, m, &c, SMALL, en.big());
                let mut sc = Scenario::new(rc.bytes(en.big()), en, c);
                sc.src = any_src(r, sc.b.len());
                sc.ops = vec![vis("all")];
                sc.want = "c".into();
                out(sc);
            });
        }
    }
    // identification extracted from samples
    for _ in 0..g.times(150) {
        g.group(out, |r, out| {
            let c = cfg(r);
            let en = *r.pick(&PLAIN);
            let rc = record(r, SAMPLE, 0, &c, SMALL, en.big());
            let mut sc = one_record(r, &rc, en, c);
            sc.want = "c".into();
            out(sc);
        });
    }
}

/// Deliveries to compare with a plain slice. `all` asks for every single split.
fn deliveries(r: &mut Rng, len: usize, all: bool, extra: usize) -> Vec<(Src, usize)> {
    let mut v: Vec<(Src, usize)> = vec![];
    for al in 1..8 {
        v.push((Src::Slice, al));
    }
    for hint in [true, false] {
        v.push((whole(hint, len), r.range(0, 7)));
    }
    let one = |cuts: Vec<usize>, mode: u64, hint: bool| {
        let cuts = cuts_from(cuts, len);
        let temp = (0..cuts.len()).map(|i| match mode { 0 => false, 1 => true, 2 => i % 2 == 0, _ => i % 2 == 1 }).collect();
        Src::Chunks { cuts, temp, hint }
    };
    if all {
        for c in 1..len {
            let m = r.below(4);
            let hint = r.chance(1, 2);
            v.push((one(vec![c], m, hint), r.range(0, 7)));
        }
    }
    for m in 0..3 {
        v.push((one((1..len).collect(), m, m == 0), 0));
    }
    for (cap, reads) in [(1usize, vec![]), (3, vec![]), (8, vec![1]), (16, vec![5, 1]), (7, vec![3]), (8192, vec![]), (8192, vec![1]), (8192, vec![13, 2])] {
        if r.chance(1, 2) {
            v.push((Src::Buf { cap, reads }, 0));
        }
    }
    for _ in 0..extra {
        let s = if r.chance(1, 4) { buf_src(r, len) } else { chunk_src(r, len) };
        v.push((s, r.range(0, 7)));
    }
    v
}

pub fn compare(sc: Scenario, ds: Vec<(Src, usize)>, out: Out) {
    let mut set = sc.clone();
    set.rf = "set";
    set.src = lent(sc.b.len());
    set.al = 0;
    out(set);
    let ds = [(Src::Slice, 0)].into_iter().chain(ds);
    for (s, al) in ds {
        let mut x = sc.clone();
        x.rf = "cmp";
        x.src = s;
        x.al = al;
        out(x);
    }
}

fn prim_ops(r: &mut Rng, len: usize, n: usize) -> Vec<J> {
    (0..n).map(|_| prim_op(r, len)).collect()
}
fn prim_op(r: &mut Rng, len: usize) -> J {
    let size = |r: &mut Rng| -> u64 {
        match r.below(20) {
            0 => u64::MAX,
            1 => 1 << 61,
            2 => (u64::MAX / 8) + 1,
            3 => len as u64,
            4 => len as u64 + 1,
            5..=7 => 0,
            8 => r.literal_size(len) as u64,
            _ => r.below(12),
        }
    };
    match r.below(20) {
        0 => o("u8"),
        1 => o("u16"),
        2 => o("u32"),
        3 | 4 => o("u64"),
        5 => arr(*r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 40])),
        6 | 7 => on("bytes", size(r)),
        8 => o("rest"),
        9 => o("resttrim"),
        10 if r.chance(1, 6) => otn("rep", "a0", r.below(12)),
        10 if r.chance(1, 3) => otn("rep", "wide", r.below(12)),
        11 if r.chance(1, 3) => otn("rep", *r.pick(&["narrow", "gone", "a64", "over16", "over64", "str", "skip", "counted"]), size(r)),
        10 | 11 => otn("rep", *r.pick(&["u8", "u16", "u32", "u64", "a3", "ns", "br"]), size(r)),
        12 | 13 | 14 => otn("slice", *r.pick(&["u8", "u16", "u32", "u64", "u64", "ns", "br"]), size(r)),
        15 => oif(*r.pick(&["u32", "u64", "with"]), r.chance(1, 2)),
        16 => o("with"),
        17 => o("hdr"),
        _ => otn("sdirect", *r.pick(&["u16", "u32", "u64"]), size(r)),
    }
}

fn c06(g: &mut Gen, out: Out) {
    for k in 0..g.times(4) {
        g.group(out, |r, out| {
            let sc = long_stream(r, k);
            let len = sc.b.len();
            let ds = (0..3).map(|_| (crate::large::pieces(r, len), r.range(0, 7))).collect();
            compare(sc, ds, out);
        });
    }
    // single records of every type: every split point
    for t in all_types() {
        for round in 0..g.times(2) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if t == SAMPLE {
                    c.sty = if round % 2 == 0 { c.sty } else { (1 << (r.below(25))) | (1 << r.below(25)) };
                    c.ru &= 0xFF;
                    c.ri &= 0xFF00;
                }
                if t == 8 && r.chance(2, 3) {
                    c.rf &= !R_GROUP;
                }
                let en = *r.pick(&[En::Little, En::Native, En::Big, En::DynL]);
                let m = misc(r);
                let rc = if round < 2 { record(r, t, m, &c, Shape { max: 3, tail: false }, en.big()) } else { odd_record(r, t, &c, en.big()) };
                let tail = record(r, 2, 0, &c, SMALL, en.big());
                let mut sc = Scenario::new(put_all(&[rc.clone(), tail], en.big()), en, c);
                sc.ops = vec![if r.chance(1, 2) { vis("all") } else { o("rec") }, o("rec"), o("u8")];
                let all = sc.b.len() < 160;
                let ds = deliveries(r, sc.b.len(), all, 12);
                compare(sc, ds, out);
            });
        }
    }
    // text pokes and raw data at the edges
    for ol in [0usize, 1, 4, 7, 8] {
        for nl in [0usize, 1, 4, 8] {
            g.group(out, |r, out| {
                let mut w = W::new(false);
                w.u64(r.word());
                poke(r, ol, nl, &mut w);
                let rc = Rec { ty: 20, misc: 0, body_len: w.len(), data: w.out };
                let mut sc = Scenario::new(rc.bytes(false), En::Little, Cfg::default());
                sc.ops = vec![o("rec")];
                let ds = deliveries(r, sc.b.len(), true, 4);
                compare(sc, ds, out);
            });
        }
    }
    // primitives
    for _ in 0..g.times(60) {
        g.group(out, |r, out| {
            let n = r.range(0, 60);
            let mut b = r.bytes(n);
            if r.chance(1, 2) {
                let z = r.range(0, 9);
                b.extend(vec![0; z]);
            }
            let en = *r.pick(&[En::Little, En::Native, En::Big, En::CustL]);
            let mut sc = Scenario::new(b, en, cfg(r));
            let k = r.range(1, 7);
            sc.ops = prim_ops(r, sc.b.len(), k);
            sc.ops.retain(|x| x.get("op").unwrap().str() != "sdirect");
            let ds = deliveries(r, sc.b.len(), false, 14);
            compare(sc, ds, out);
        });
    }
    // attributes
    for size in [64u32, 72, 80, 96, 104, 112, 120, 128, 136, 144, 65] {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let b = attr_bytes(r, size, en.big(), size as usize + 8, false);
            let mut sc = Scenario::new(b, en, Cfg::default());
            sc.ops = vec![ty("Attr"), o("u8")];
            let all = g_small(r);
            let ds = deliveries(r, sc.b.len(), all, 8);
            compare(sc, ds, out);
        });
    }
    // malformed streams
    for _ in 0..g.times(60) {
        g.group(out, |r, out| {
            let mut sc = random_stream_session(r, |_, _| Src::Slice);
            sc.al = 0;
            let ds = deliveries(r, sc.b.len(), false, 10);
            compare(sc, ds, out);
        });
    }
    // large inputs: beyond internal buffer sizes
    for _ in 0..g.times(4) {
        g.group(out, |r, out| {
            let mode = r.below(3);
            let (b, ops) = match mode {
                0 => {
                    let n = *r.pick(&[16384usize, 16385, 20000, 33000]);
                    let mut b = vec![0u8; n + 16];
                    for (i, x) in b.iter_mut().enumerate() {
                        *x = (i % 251) as u8;
                    }
                    (b, vec![on("bytes", n as u64), o("u64"), o("rest")])
                }
                1 => {
                    let n = 3000u64;
                    let mut w = W::new(false);
                    for i in 0..n {
                        w.u64(i * 0x0101_0101)
                    }
                    (w.out, vec![otn("slice", "u64", 2500), o("rest")])
                }
                _ => {
                    let mut rc = record(r, 3, 0, &Cfg::default(), SMALL, false);
                    rc.data.extend(vec![b'q'; 40000]);
                    rc.data.extend(vec![0; 3000]);
                    (rc.bytes(false), vec![o("rec"), o("u8")])
                }
            };
            let mut sc = Scenario::new(b, En::Little, Cfg::default());
            sc.ops = ops;
            let len = sc.b.len();
            let ds = vec![
                (whole(false, len), 0),
                (Src::Buf { cap: 8192, reads: vec![] }, 0),
                (Src::Buf { cap: 512, reads: vec![100, 7] }, 0),
                (Src::Chunks { cuts: cuts_from(vec![16384], len), temp: vec![true, true], hint: false }, 0),
                (Src::Chunks { cuts: cuts_from(vec![8, 16390], len), temp: vec![false, true, false], hint: true }, 0),
                (Src::Slice, 3),
            ];
            let ds = ds
                .into_iter()
                .map(|(s, a)| match s {
                    Src::Chunks { cuts, mut temp, hint } => {
                        temp.resize(cuts.len(), false);
                        (Src::Chunks { cuts, temp, hint }, a)
                    }
                    s => (s, a),
                })
                .collect();
            compare(sc, ds, out);
        });
    }
}
fn g_small(r: &mut Rng) -> bool {
    r.chance(1, 3)
}

pub fn attr_bytes(r: &mut Rng, size: u32, big: bool, avail: usize, dirty: bool) -> Vec<u8> {
    let mut w = W::new(big);
    w.u32(r.word() as u32);
    w.u32(size);
    for i in 0..5 {
        let _ = i;
        w.u64(r.word());
    }
    w.u32(r.word() as u32);
    w.u32(r.word() as u32);
    for _ in 0..3 {
        w.u64(r.word());
    }
    w.u64(r.word());
    w.u32(r.word() as u32);
    w.u32(r.word() as u32);
    w.u64(r.word());
    w.u32(r.word() as u32);
    w.u16(r.word() as u16);
    w.u16(r.word() as u16);
    w.u32(r.word() as u32);
    w.u32(r.word() as u32);
    w.u64(r.word());
    w.u64(r.word());
    let size = (size as usize).min(4096);
    let mut b = w.out;
    if size > 136 {
        b.resize(size, 0);
        if dirty {
            let i = r.range(136, size - 1);
            b[i] = 1 + r.below(255) as u8;
        }
    } else {
        b.truncate(size.max(8));
    }
    while b.len() < avail {
        b.push(0x80 | r.next() as u8);
    }
    b.truncate(avail);
    b
}

fn c07(g: &mut Gen, out: Out) {
    let others = [En::Native, En::Big, En::DynL, En::DynB, En::CustL, En::CustB];
    let mut both = |r: &mut Rng, c: Cfg, mk: &dyn Fn(&mut Rng, bool) -> Vec<u8>, ops: Vec<J>, want: &str, out: Out| {
        let mut first = true;
        for en in [En::Little].into_iter().chain(others) {
            let mut rr = r.clone();
            let b = mk(&mut rr, en.big());
            let mut sc = Scenario::new(b, en, c);
            sc.rf = if first { "set" } else { "cmp" };
            sc.ops = ops.clone();
            sc.want = want.into();
            sc.al = r.clone().range(0, 7);
            let mut r2 = Rng::new(r.0 ^ en as u64);
            sc.src = any_src(&mut r2, sc.b.len());
            if first {
                sc.src = lent(sc.b.len());
            }
            first = false;
            out(sc);
        }
        r.next();
    };
    for t in all_types() {
        for _ in 0..g.times(10) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if t == 8 {
                    c.rf &= !R_GROUP;
                }
                let m = misc(r);
                let mk = move |r: &mut Rng, big: bool| {
                    let rc = record(r, t, m, &c, MIXED, big);
                    rc.bytes(big)
                };
                let ops = vec![if r.chance(1, 2) { vis("all") } else { o("rec") }];
                both(r, c, &mk, ops, "", out);
            });
        }
    }
    // attributes
    for size in [64u32, 72, 80, 96, 104, 112, 120, 128, 136, 152] {
        g.group(out, |r, out| {
            let mk = move |r: &mut Rng, big: bool| attr_bytes(r, size, big, size as usize, false);
            both(r, Cfg::default(), &mk, vec![ty("Attr")], "", out);
            both(r, Cfg::default(), &mk, vec![o("attrconf")], "", out);
        });
    }
    // primitives and element arrays
    for _ in 0..g.times(80) {
        g.group(out, |r, out| {
            let mk = |r: &mut Rng, big: bool| {
                let mut w = W::new(big);
                w.u8(r.next() as u8);
                w.u8(r.next() as u8);
                w.u16(r.word() as u16);
                w.u32(r.word() as u32);
                w.u64(r.word());
                for _ in 0..4 { w.u16(r.word() as u16) }
                for _ in 0..4 { w.u32(r.word() as u32) }
                for _ in 0..4 { w.u64(r.word()) }
                for _ in 0..4 { w.u64(r.word()) }
                for _ in 0..6 { w.u64(r.word()) }
                let d = r.bytes(11);
                w.bytes(&d);
                w.u32(r.word() as u32);
                w.u64(r.word());
                w.out
            };
            let sr = if r.chance(1, 2) { "rep" } else { "slice" };
            let ops = vec![
                arr(2), o("u16"), o("u32"), o("u64"), otn(sr, "u16", 4), otn(sr, "u32", 4),
                otn(sr, "u64", 4), otn(sr, "ns", 2), otn(sr, "br", 2), on("bytes", 4), arr(7),
                oif("u32", true), oif("u64", true),
            ];
            let c = cfg(r); both(r, c, &mk, ops, "", out);
        });
    }
    // typed words, headers, custom path
    for _ in 0..g.times(40) {
        g.group(out, |r, out| {
            let mk = |r: &mut Rng, big: bool| {
                let mut w = W::new(big);
                for _ in 0..4 { w.u64(r.word()) }
                for _ in 0..3 { w.u16(r.word() as u16) }
                w.u32(r.word() as u32);
                w.u16(r.next() as u16);
                w.u16(r.next() as u16);
                for _ in 0..2 { w.u64(r.word()) }
                for _ in 0..3 { w.u64(r.word()) }
                w.out
            };
            let ops = vec![ty("DataSource"), ty("Txn"), ty("AuxFlags"), ty("Abi"), ty("BpfType"),
                ty("KsymType"), ty("KsymFlags"), o("hdr"), ty("NsEntry"), ty("Branch")];
            both(r, Cfg::default(), &mk, ops, "", out);
        });
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.rf &= !R_GROUP;
            let t = 1 + r.below(21) as u32;
            let m = misc(r);
            let mk = move |r: &mut Rng, big: bool| record(r, t, m, &c, SMALL, big).bytes(big);
            let inner = match name_of(t) { Some(n) if n != "Switch" => ty(n), _ => o("rest") };
            let n = r.word();
            both(r, c, &mk, vec![o("meta"), on("order", n), inner, o("pop"), o("conf"), on("order", n)], "", out);
        });
        // counter reads
        g.group(out, |r, out| {
            let mut c = cfg(r);
            let n = r.range(0, 4);
            let grp = r.chance(1, 2);
            if grp { c.rf |= R_GROUP } else { c.rf &= !R_GROUP }
            let mk = move |r: &mut Rng, big: bool| {
                let mut w = W::new(big);
                if grp { read_group(r, c.rf, n, &mut w) } else { read_value(r, c.rf, &mut w) }
                w.out
            };
            both(r, c, &mk, vec![ty(if grp { "ReadGroup" } else { "ReadValue" })], "", out);
        });
    }
    // truncated data fails alike
    for _ in 0..g.times(60) {
        g.group(out, |r, out| {
            let c = cfg(r);
            let t = any_type(r);
            let m = misc(r);
            let cut = r.range(0, 40);
            let mk = move |r: &mut Rng, big: bool| {
                let mut rc = record(r, t, m, &c, SMALL, big);
                let n = rc.data.len().saturating_sub(cut);
                rc.data.truncate(n);
                rc.bytes(big)
            };
            // a cut may split a name, never a number that matters for success
            both(r, c, &mk, vec![o("rec")], "", out);
        });
    }
}
fn r_ref(r: &mut Rng) -> &mut Rng {
    r
}

fn any_ops(r: &mut Rng, len: usize, n: usize) -> Vec<J> {
    let mut v = vec![];
    let mut depth = 0;
    for _ in 0..n {
        match r.below(20) {
            0..=5 => v.push(rec_op(r)),
            6..=9 => v.push(prim_op(r, len)),
            10..=12 => v.push(ty(*r.pick(&TYPED))),
            13 => v.push(o("conf")),
            14 => v.push(group_op(r)),
            15 | 16 if depth < 3 => {
                v.push(o("meta"));
                depth += 1;
            }
            17 if depth > 0 => {
                v.push(o("pop"));
                depth -= 1;
            }
            18 => {
                let rc = Rec { ty: any_type(r), misc: misc(r), data: vec![], body_len: 0 };
                let mut x = rech(&rc);
                let size = *r.pick(&[0u16, 7, 8, 9, 16, 24, 65535]);
                if let J::O(f) = &mut x {
                    f.retain(|(k, _)| k != "h");
                    f.push(("h".into(), h(rc.ty, rc.misc, size)));
                }
                v.push(x)
            }
            _ => v.push(o("attrconf")),
        }
    }
    for _ in 0..depth {
        v.push(o("pop"));
    }
    v
}
const TYPED: [&str; 34] = [
    "Mmap", "Lost", "Comm", "Exit", "Fork", "Throttle", "Unthrottle", "Read", "Sample", "Mmap2",
    "Aux", "ITraceStart", "LostSamples", "SwitchCpuWide", "Namespaces", "KSymbol", "BpfEvent",
    "CGroup", "TextPoke", "AuxOutputHwId", "SampleId", "ReadValue", "ReadGroup", "RegsUser",
    "RegsIntr", "NsEntry", "Branch", "DataSource", "Txn", "AuxFlags", "Abi", "BpfType", "KsymType",
    "Attr",
];

fn group_op(r: &mut Rng) -> J {
    group_script(r, 4, &[])
}
/// A script for a group of about `n` entries, some of whose values are `vs`.
fn group_script(r: &mut Rng, n: u64, vs: &[u64]) -> J {
    let k = r.range(1, 14);
    J::obj(vec![("op", J::s("group")), ("script", J::A((0..k).map(|_| group_step(r, n, vs)).collect()))])
}
fn group_step(r: &mut Rng, near: u64, vs: &[u64]) -> J {
    let k = |r: &mut Rng| match r.below(if r.novel() { 13 } else { 11 }) {
        11.. => if r.chance(1, 2) { r.literal() } else { r.literal().wrapping_mul(r.below(4)) },
        // a power of two, or beside one, or a multiple
        10 => match near.max(1).ilog2() as u64 {
            l if r.chance(1, 2) => (1 << r.below(l + 1)) + r.below(3) - 1,
            l => r.below(4) << r.below(l + 1),
        },
        7 => r.below(near + 1),
        2 => near - r.below(near.min(3)),
        0 => u64::MAX,
        // just where the product with an entry's length (1, 2 or 3 words, 8, 16 or 24 bytes) wraps
        8 | 9 => {
            let m = *r.pick(&[2u128, 3, 8, 16, 24]);
            (((1u128 << 64) * r.range(1, m as usize - 1) as u128).div_ceil(m) as u64).wrapping_add(r.below(3))
        }
        1 => *r.pick(&[1 << 61, u64::MAX / 3]),
        3 => r.next(),
        _ => r.below(5),
    };
    match r.below(32) {
        0..=3 => step("next"),
        4..=6 => step("back"),
        7 | 8 => { let n = k(r); stepn("nth", n) }
        9 | 10 => { let n = k(r); stepn("nthback", n) }
        11 => step("len"),
        12 => step("hint"),
        13 => step("fork"),
        14 => step("rev"),
        15 => step("last"),
        16 => step("count"),
        17 => step("restart"),
        18 => { let n = k(r); stepn("get", n) }
        19 => { let n = small_id(r); stepn("byid", n) }
        20 => step(*r.pick(&["glen", "empty", "owned"])),
        21 => step("single"),
        22 => { let n = k(r); stepn("entry", n) }
        23 => { let n = k(r); stepn("again", n) }
        24 => step("fold"),
        25 => step("rfold"),
        26 => { let n = k(r); stepn("skip", n) }
        27 => { let n = k(r).max(1); stepn("every", n) }
        28 => { let n = k(r); stepn("take", n) }
        29 => { let n = k(r); stepn("takeback", n) }
        c => {
            let v = if vs.is_empty() || r.chance(1, 8) { r.word() } else { *r.pick(vs) };
            stepn(if c == 30 { "find" } else { "rfind" }, v)
        }
    }
}

fn wild_cfg(r: &mut Rng) -> Cfg {
    let mut c = cfg(r);
    if r.chance(1, 6) {
        c.sty = r.next();
    }
    if r.chance(1, 6) {
        c.rf = r.next();
    }
    if r.chance(1, 3) {
        c.ru = r.next();
        c.ri = r.word();
    }
    c
}

/// Every small user stack: its size, what follows it, and the claimed dynamic
/// size, whether or not they agree.
fn stacks(g: &mut Gen, want: &str, out: Out) {
    for size in 0..=18u64 {
        g.group(out, |r, out| {
            for dynamic in 0..=27u64 {
                let en = *r.pick(&PLAIN);
                let more = r.chance(1, 2);
                let c = Cfg { sty: 1 << 13 | if more { 1 << 14 } else { 0 }, ..Cfg::default() };
                let mut w = W::new(en.big());
                w.u64(size);
                w.bytes(&r.bytes(size as usize));
                w.u64(dynamic);
                if more {
                    w.u64(r.next());
                }
                // sizes that are not a multiple of eight have more behind them
                let pad = r.range(0, 16);
                w.bytes(&r.bytes(pad));
                let rc = Rec { ty: SAMPLE, misc: 0, body_len: w.len(), data: w.out };
                let mut sc = one_record(r, &rc, en, c);
                sc.want = want.into();
                out(sc);
            }
        });
    }
}

/// Each sample field alone, with every small count, cut at every byte.
fn cut_fields(g: &mut Gen, out: Out) {
    for bit in 0..25u32 {
        for count in 0..3usize {
            for rf in if bit == 4 { vec![0u64, 7, 8, 12, 15, 24, 28, 31] } else { vec![0] } {
                g.group(out, |r, out| {
                    let c = Cfg { sty: 1 << bit, rf, ru: 5, ri: 6, ..Cfg::default() };
                    let en = *r.pick(&PLAIN);
                    let mut rc = record(r, SAMPLE, 0, &c, Shape { max: count, tail: false }, en.big());
                    for _ in 0..20 {
                        // a shape of this size
                        if rc.data.len() >= 8 * (count + 1) {
                            break;
                        }
                        rc = record(r, SAMPLE, 0, &c, Shape { max: count, tail: false }, en.big());
                    }
                    for n in 0..=rc.data.len().min(130) {
                        let mut w = W::new(en.big());
                        header(&mut w, rc.ty, rc.misc, (n + 8) as u16);
                        w.bytes(&rc.data);
                        let pad = r.range(0, 24);
                        w.bytes(&r.bytes(pad));
                        let mut sc = Scenario::new(w.out, en, c);
                        sc.src = any_src(r, sc.b.len());
                        sc.ops = vec![o("rec")];
                        out(sc);
                    }
                });
            }
        }
    }
}

fn c08(g: &mut Gen, out: Out) {
    nests(g, 60, out);
    stacks(g, "d", out);
    for _ in 0..g.times(16) {
        g.group(out, many);
    }
    // well-formed records of every type, several in a row
    for t in all_types().into_iter().chain([1, 3, 9, 9, 9, 10, 10, 16, 19, 20, 20, 20, 20]) {
        for _ in 0..g.times(14) {
            g.group(out, |r, out| {
                let en = *r.pick(&En::ALL);
                let c = cfg(r);
                let recs: Vec<Rec> = (0..r.range(4, 8))
                    .map(|_| {
                        let m = misc(r);
                        record(r, t, m, &c, Shape { max: 3, tail: false }, en.big())
                    })
                    .collect();
                let mut sc = Scenario::new(put_all(&recs, en.big()), en, c);
                sc.src = any_src(r, sc.b.len());
                sc.al = *r.pick(&[0, 0, 0, 4, 1]);
                sc.want = (if r.chance(1, 4) { "dc" } else { "" }).into();
                for rc in &recs {
                    sc.ops.extend(read_record(r, rc));
                }
                out(sc);
            });
        }
    }
    for _ in 0..g.times(5000) {
        g.group(out, |r, out| {
            let en = *r.pick(&En::ALL);
            let c = wild_cfg(r);
            let b = match r.below(4) {
                0 => {
                    let n = r.range(0, 200);
                    r.bytes(n)
                }
                1 => {
                    let n = r.range(0, 25);
                    let mut w = W::new(en.big());
                    for _ in 0..n {
                        w.u64(r.word())
                    }
                    w.out
                }
                _ => {
                    let n = r.range(1, 4);
                    let recs = stream(r, &c, en.big(), n);
                    let mut b = put_all(&recs, en.big());
                    for _ in 0..r.range(0, 3) {
                        smash(r, &mut b);
                    }
                    if r.chance(1, 4) {
                        let k = r.range(0, b.len());
                        b.truncate(k);
                    }
                    b
                }
            };
            let mut sc = Scenario::new(b, en, c);
            sc.src = any_src(r, sc.b.len());
            sc.al = r.range(0, 7);
            let n = r.range(1, 8);
            sc.ops = any_ops(r, sc.b.len(), n);
            if !matches!(sc.src, Src::Slice) && r.chance(1, 6) {
                sc.fault = Some(any_fault(r, sc.b.len()));
            }
            sc.want = r.pick(&["", "d", "c", "dc", "dclk"]).to_string();
            if !matches!(sc.src, Src::Buf { .. }) && r.chance(1, 5) {
                let i = r.range(0, sc.ops.len());
                if depth_at(&sc.ops, i) == 0 {
                    sc.ops.insert(i, o("clone"));
                }
            }
            out(sc);
        });
    }
    // count fields in every count-carrying place, with every hostile value
    let hostile = [
        u64::MAX, u64::MAX - 7, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 61, (1 << 61) - 1, 1 << 60,
        u64::MAX / 24, u64::MAX / 24 + 1, u64::MAX / 16, u64::MAX / 16 + 1, u64::MAX / 3, u64::MAX / 3 + 1, 1 << 32, 1 << 31, 0xFFFF_FFFF,
        0x7FFF_FFFF, 65536, 0,
    ];
    for (i, &v) in hostile.iter().enumerate() {
        for bit in [4u32, 5, 10, 11, 13, 20] {
            g.group(out, |r, out| {
                for rf in [8u64, 12, 24, 28, 31] {
                    let mut c = Cfg { sty: 1 << bit, rf, ..cfg(r) };
                    c.sty |= if r.chance(1, 3) { 1 << 14 } else { 0 };
                    let en = *r.pick(&PLAIN);
                    let mut w = W::new(en.big());
                    if bit == 10 { w.u32(v as u32) } else { w.u64(v) }
                    let n = r.range(0, 10);
                    for _ in 0..n {
                        w.u64(r.word())
                    }
                    let rc = Rec { ty: SAMPLE, misc: 0, body_len: w.len(), data: w.out.clone() };
                    let mut sc = one_record(r, &rc, en, c);
                    sc.want = "d".into();
                    out(sc);
                    // the same directly on a source, where no frame limits it
                    let mut sc = Scenario::new(w.out, en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = vec![ty("Sample")];
                    out(sc);
                    if bit != 4 {
                        break;
                    }
                }
            });
        }
        g.group(out, |r, out| {
            for t in ["u8", "u16", "u32", "u64", "a3", "a64", "a1024", "wide", "narrow", "over16", "over64", "gone", "str", "skip", "counted", "ns", "br"] {
                let b = r.bytes(40);
                for op in ["rep", "slice", "sdirect"] {
                    if (["a3", "a64", "a1024", "wide", "narrow", "over16", "over64", "gone", "str", "skip", "counted"].contains(&t) && op != "rep") || (op == "sdirect" && !["u16", "u32", "u64"].contains(&t)) {
                        continue;
                    }
                    let mut sc = Scenario::new(b.clone(), *r.pick(&PLAIN), Cfg::default());
                    sc.src = any_src(r, 40);
                    sc.ops = vec![otn(op, t, v), o("u8")];
                    out(sc);
                }
            }
            let mut sc = Scenario::new(r.bytes(40), En::Little, Cfg::default());
            sc.src = any_src(r, 40);
            sc.ops = vec![on("bytes", v)];
            out(sc);
            let mut w = W::new(false);
            w.u64(1);
            w.u64(v);
            w.bytes(&r.bytes(48));
            let rc = Rec { ty: 16, misc: 0, body_len: w.len(), data: w.out };
            out(one_record(r, &rc, En::Little, Cfg::default()));
            let _ = i;
        });
    }
    // every byte of a record of every type set to hostile values
    for t in all_types() {
        for variant in 0..4 {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                c.ru &= 0xF;
                c.ri &= 0xF;
                let en = *r.pick(&PLAIN);
                let m = if variant == 0 { 0 } else if variant == 1 { 0xFFFF } else { misc(r) };
                let rc = record(r, t, m, &c, Shape { max: 2, tail: false }, en.big());
                for at in 0..rc.data.len().min(120) {
                    let old = rc.data[at];
                    for _ in 0..2 {
                        let mut x = rc.clone();
                        x.data[at] = *r.pick(&[0, 1, 7, 19, 20, 21, 22, 24, 25, 31, 0x7F, 0x80, 0xFE, 0xFF, old ^ 1, old.wrapping_add(1), old.wrapping_sub(1)]);
                        let mut sc = one_record(r, &x, en, c);
                        sc.want = r.pick(&["", "d", "c", "dclk"]).to_string();
                        out(sc);
                    }
                }
            });
        }
    }
    for len in 0..=255u8 {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let c = Cfg::default();
            let mut rc = record(r, 10, 1 << 14, &c, SMALL, en.big());
            rc.data[32] = len;
            let mut sc = one_record(r, &rc, en, c);
            sc.want = "dclk".into();
            out(sc);
        });
    }
    // zero-length and tiny frames of every type under every trailer
    for t in all_types() {
        g.group(out, |r, out| {
            for n in 0..12usize {
                let c = wild_cfg(r);
                let d = r.bytes(n);
                let rc = Rec { ty: t, misc: misc(r), body_len: n, data: d };
                let mut sc = one_record(r, &rc, *r.clone().pick(&PLAIN), c);
                sc.want = "dc".into();
                out(sc);
            }
        });
    }
}

/// A great deal in very small pieces, and a great many items.
fn many(r: &mut Rng, out: Out) {
    let en = *r.pick(&PLAIN);
    let n = *r.pick(&[40_000usize, 65_000]);
    let mut rest: Vec<J> = vec![
        o("rest"), o("resttrim"), on("bytes", n as u64), on("bytes", n as u64 + 1), otn("rep", "u8", n as u64),
        otn("slice", "u8", n as u64), otn("slice", "u64", n as u64 / 8), o("rec"), ty("Comm"),
    ];
    let i = r.below(rest.len() as u64) as usize;
    let op = rest.remove(i);
    let b: Vec<u8> = if op.get("op").unwrap().str() == "rec" {
        let mut w = W::new(en.big());
        header(&mut w, *r.pick(&[1u32, 3, 99, 17]), 0, n as u16);
        w.bytes(&vec![b'x'; n - 8]);
        w.out
    } else {
        (0..n).map(|i| (i % 250) as u8).collect()
    };
    let mut sc = Scenario::new(b, en, Cfg::default());
    sc.src = if r.chance(1, 2) {
        Src::Buf { cap: *r.pick(&[1usize, 1, 2]), reads: vec![] }
    } else {
        let k = *r.pick(&[1usize, 1, 2]);
        let cuts = cuts_from((1..n).filter(|x| x % k == 0).collect(), n);
        let mode = r.below(3);
        let temp = cuts.iter().map(|_| match mode { 0 => false, 1 => true, _ => r.chance(1, 2) }).collect();
        Src::Chunks { cuts, temp, hint: r.chance(1, 2) }
    };
    sc.ops = vec![op];
    out(sc);
}

fn depth_at(ops: &[J], i: usize) -> i32 {
    let mut d = 0;
    for x in &ops[..i] {
        match x.get("op").unwrap().str() {
            "meta" | "metah" | "clone" => d += 1,
            "pop" => d -= 1,
            _ => (),
        }
    }
    // a failed meta skips to its pop, so only depth 0 is predictable
    d
}

fn any_fault(r: &mut Rng, len: usize) -> Fault {
    let msgs = [
        "disk on fire", "x", "a: b", "\u{e9}chec", "", " ", "two\nlines", "end\n", ": ", "{}", "%s", "invalid record",
        "unexpected EOF during parsing", "user-provided error", "external", "a: a: a",
    ];
    let kind = if r.chance(1, 2) { r.below(4) } else { r.below(28) } as u8;
    let msg = crate::source::text_of(kind).unwrap_or_else(|| r.pick(&msgs).to_string());
    Fault { off: r.range(0, len), kind, msg, once: false }
}

fn c09(g: &mut Gen, out: Out) {
    // whatever the session does, everything is released at its end
    let out: Out = &mut |mut sc: Scenario| {
        if sc.b.len() < 5000 {
            sc.want.push('m');
        }
        out(sc)
    };
    let mut types = all_types();
    types.extend([SAMPLE; 10]);
    for t in types {
        for k in 0..g.times(8) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if t == SAMPLE && k % 2 == 0 {
                    c.sty = (1 << r.below(25)) | (1 << r.below(25));
                }
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let rc = if k % 4 == 3 { odd_record(r, t, &c, en.big()) } else { record(r, t, m, &c, MIXED, en.big()) };
                let mut sc = one_record(r, &rc, en, c);
                sc.src = any_src(r, sc.b.len());
                sc.want = if r.chance(1, 2) { "cd".into() } else { String::new() };
                match r.below(6) {
                    0 => {
                        let inner = match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => o("rest") };
                        sc.ops = vec![o("meta"), inner, o("pop")];
                    }
                    1 => sc.ops = vec![vis("all")],
                    2 => sc.ops = vec![vis("none")],
                    _ => (),
                }
                out(sc);
            });
        }
    }
    let hostile = [1u64 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 32, 1 << 40, 1 << 61, 1 << 62, u64::MAX, u64::MAX / 8, u64::MAX / 24, 5000, 20000];
    for &v in &hostile {
        for op in 0..7 {
            g.group(out, |r, out| {
                for k in 0..5 {
                    let n = r.range(0, 400);
                    let b = r.bytes(n);
                    let t = *r.pick(&["u8", "u16", "u32", "u64", "ns", "br"]);
                    let en = *r.pick(&[En::Little, En::Big, En::CustL, En::Native]);
                    let mut sc = Scenario::new(b, en, Cfg { rf: R_GROUP | r.below(32), sty: (1 << 5) , ru: u64::MAX, ..Cfg::default() });
                    sc.src = match k {
                        0 => Src::Slice,
                        1 => whole(false, sc.b.len()),
                        2 => Src::Buf { cap: 64, reads: vec![] },
                        _ => chunk_src(r, sc.b.len()),
                    };
                    let mut w = W::new(en.big());
                    w.u64(v);
                    let mut bb = w.out.clone();
                    bb.extend(&sc.b);
                    sc.ops = match op {
                        0 => vec![on("bytes", v)],
                        1 if k == 4 || r.chance(1, 3) => vec![otn("rep", *r.pick(&["a64", "a1024", "narrow", "over64"]), v)],
                        1 => vec![otn("rep", t, v)],
                        2 => vec![otn("slice", t, v)],
                        3 => { sc.b = bb; vec![ty("ReadGroup")] }
                        4 => { sc.b = bb; sc.cfg.sty = *r.pick(&[1 << 5, 1 << 11, 1 << 13, 1 << 20, 1 << 10]); vec![ty("Sample")] }
                        5 => {
                            let mut w = W::new(en.big());
                            w.u64(9);
                            bb.splice(0..0, w.out);
                            sc.b = bb;
                            vec![ty("Namespaces")]
                        }
                        _ => {
                            let mut w = W::new(en.big());
                            w.u32(1);
                            w.u32(v.min(u32::MAX as u64) as u32);
                            w.bytes(&sc.b);
                            sc.b = w.out;
                            vec![ty("Attr")]
                        }
                    };
                    if let Src::Chunks { cuts, .. } = &mut sc.src {
                        let len = sc.b.len();
                        cuts.pop();
                        cuts.push(len);
                    }
                    out(sc);
                }
            });
        }
    }
    // lengths of 16 bits
    // code replaced by as much code, and lengths apart by little
    for k in 0..g.times(48) {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let ol = if k % 2 == 0 { r.range(9, 140) } else { r.range(140, 1500) };
            let nl = if r.chance(2, 3) { ol } else { ol + r.range(0, 8) - 4 };
            let mut w = W::new(en.big());
            w.u64(r.word());
            poke(r, ol, nl, &mut w);
            let rc = Rec { ty: 20, misc: 0, body_len: w.len(), data: w.out };
            let mut sc = Scenario::new(rc.bytes(en.big()), en, Cfg::default());
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![o("rec")];
            out(sc);
        });
    }
    for (ol, nl) in [(65535u16, 0u16), (0, 65535), (65535, 65535), (40000, 40000), (60000, 8), (8, 60000), (32768, 32767), (1, 65534)] {
        g.group(out, |r, out| {
            for k in 0..6 {
                let en = *r.pick(&PLAIN);
                let mut w = W::new(en.big());
                w.u64(r.word());
                w.u16(ol);
                w.u16(nl);
                let n = r.range(0, 60);
                let d = r.bytes(n);
                w.bytes(&d);
                let mut sc = if k < 3 {
                    Scenario::new(w.out, en, Cfg::default())
                } else {
                    let rc = Rec { ty: 20, misc: 0, body_len: w.len(), data: w.out };
                    Scenario::new(rc.bytes(en.big()), en, Cfg::default())
                };
                sc.src = any_src(r, sc.b.len());
                sc.ops = vec![if k < 3 { ty("TextPoke") } else { o("rec") }];
                out(sc);
            }
        });
    }
    // records claiming much, holding little
    for _ in 0..g.times(500) {
        g.group(out, |r, out| {
            let c = wild_cfg(r);
            let en = *r.pick(&En::ALL);
            let t = any_type(r);
            let rc = odd_record(r, t, &c, en.big());
            let mut b = rc.bytes(en.big());
            if r.chance(1, 3) {
                // a header that claims more than follows
                let mut w = W::new(en.big());
                header(&mut w, t, 0, 65535);
                b.splice(0..8, w.out);
            }
            let mut sc = Scenario::new(b, en, c);
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![o("rec")];
            out(sc);
        });
    }
    // a lot of real data: the multiple
    for _ in 0..g.times(24) {
        g.group(out, |r, out| {
            let n = *r.pick(&[10_000usize, 30_000, 65_000]);
            let b: Vec<u8> = (0..n).map(|i| (i % 250) as u8).collect();
            let mut sc = Scenario::new(b, *r.pick(&[En::Little, En::Big]), Cfg { rf: 8, ..Cfg::default() });
            let k = *r.pick(&[1000usize, 4096, 20_000]);
            let mode = r.below(3);
            sc.src = match r.below(4) {
                0 => Src::Slice,
                1 => Src::Buf { cap: 4096, reads: vec![] },
                _ => {
                    let cuts = cuts_from((1..n).filter(|x| x % k == 0).collect(), n);
                    let temp = cuts.iter().map(|_| mode == 0).collect();
                    Src::Chunks { cuts, temp, hint: r.chance(1, 2) }
                }
            };
            let m = n as u64;
            sc.ops = match r.below(10) {
                8 => vec![otn("rep", "a64", *r.pick(&[m / 64, m, u64::MAX]))],
                9 => vec![otn("rep", "a1024", *r.pick(&[m / 1024, m, u64::MAX]))],
                0 => vec![on("bytes", m)],
                1 => vec![o("rest")],
                2 => vec![otn("slice", "u64", m / 8)],
                3 => vec![otn("rep", "u8", m)],
                4 => vec![otn("rep", "br", m / 24)],
                5 => vec![otn("slice", "u64", m / 8 + 1)],
                6 => vec![on("bytes", m + 1)],
                _ => vec![o("resttrim")],
            };
            out(sc);
        });
    }
    for _ in 0..g.times(400) {
        g.group(out, |r, out| {
            let mut sc = random_stream_session(r, any_src);
            sc.want.clear();
            out(sc)
        });
    }
}

/// Counts of every magnitude, over data that are a little or much too short for them (or just enough).
fn counts(g: &mut Gen, out: Out) {
    let mut vs: Vec<u64> = vec![2, 3, 5, 6, 10, 12, 20, 24, 48, 100, 120, 126, 135, 136, 137, 200, 300, 500, 1000, 1500, 2000, 2730, 4000, 5000, 10000, 100000];
    for k in 2..=20 {
        vs.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let mut lits = Rng::new(g.seed);
    for _ in 0..if lits.novel() { 24 } else { 4 } {
        let v = lits.literal();
        vs.extend([v, v / 8]);
    }
    vs.retain(|&v| v > 0);
    for bit in [4u32, 5, 10, 11, 13, 16, 20, 29] {
        for &v in &vs {
            if v > 5000 && g.scale < 2.0 && v % 7 != 0 {
                continue;
            }
            g.group(out, |r, out| {
                let mut c = cfg(r);
                let en = *r.pick(&PLAIN);
                c.rf = R_GROUP | r.next() & 0x17;
                c.sty = 1 << (bit % 29) | if r.chance(1, 3) { 1 << 20 } else { 0 };
                c.fl &= !SIA;
                let mut w = W::new(en.big());
                // bytes per counted element
                let unit = match bit {
                    4 => 8 + 8 * (c.rf & 20).count_ones() as u64,
                    11 => 24,
                    16 => 16,
                    10 | 13 | 20 | 29 => 1,
                    _ => 8,
                };
                match bit {
                    10 => w.u32(v as u32),
                    16 => { w.u32(1); w.u32(2); w.u64(v) }
                    29 => {
                        let nl = r.below(9) as u16;
                        w.u64(7); w.u16((v as u16).saturating_sub(nl)); w.u16(nl)
                    }
                    _ => w.u64(v),
                }
                if bit == 4 { for _ in 0..(c.rf & 3).count_ones() { w.u64(r.word()) } }
                if bit == 11 && c.bst & HWI != 0 { w.u64(r.word()) }
                let full = v.saturating_mul(unit);
                let have = if full > 9000 { r.below(600) } else {
                    match r.below(6) {
                        0 => full,
                        1 => full - 1,
                        2 => full.saturating_sub(8),
                        3 => full - unit,
                        4 => full / 2,
                        _ => r.below(full.min(64)),
                    }
                };
                let d = r.bytes(have as usize);
                w.bytes(&d);
                if r.chance(1, 3) { while w.len() % 8 != 0 { w.u8(0) } }
                let t = match bit { 16 => 16, 29 => 20, _ => SAMPLE };
                let rc = Rec { ty: t, misc: 0, body_len: w.len(), data: w.out };
                let mut b = rc.bytes(en.big());
                // what would fill the gap if it were taken
                if r.chance(2, 3) {
                    let k = r.range(0, 40);
                    b.extend(r.bytes(k));
                }
                let mut sc = Scenario::new(b, en, c);
                sc.src = any_src(r, sc.b.len());
                sc.al = r.range(0, 7);
                sc.ops = vec![o("rec"), o("rest")];
                out(sc);
            });
        }
    }
}

fn c10(g: &mut Gen, out: Out) {
    nests(g, 40, out);
    counts(g, out);
    stacks(g, "", out);
    cut_fields(g, out);
    // the same record among different neighbours
    let mut all = all_types();
    all.extend([SAMPLE; 6]);
    for t in all {
        for round in 0..g.times(12) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if r.chance(1, 2) {
                    c.rf &= !R_GROUP;
                }
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let rc = if round % 2 == 0 { record(r, t, m, &c, SMALL, en.big()) } else { odd_record(r, t, &c, en.big()) };
                let pre = r.range(0, 17);
                let op = match r.below(4) {
                    0 => vec![vis("all")],
                    1 => {
                        let inner = match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => ty("Lost") };
                        vec![o("meta"), inner, o("pop")]
                    }
                    _ => vec![o("rec")],
                };
                for k in 0..6 {
                    let fill = |r: &mut Rng, n: usize| -> Vec<u8> {
                        match k {
                            0 => vec![0; n],
                            1 => vec![0xFF; n],
                            _ => r.bytes(n),
                        }
                    };
                    let mut b = fill(r, pre);
                    b.extend(rc.bytes(en.big()));
                    let n = if k == 2 { 0 } else { r.range(1, 64) };
                    let post = fill(r, n);
                    b.extend(post);
                    let mut sc = Scenario::new(b, en, c);
                    sc.rf = if k == 0 { "set" } else { "cmp" };
                    sc.src = any_src(r, sc.b.len());
                    if k == 0 && round % 4 < 3 {
                        sc.src = lent(sc.b.len());
                    }
                    sc.al = r.range(0, 7);
                    sc.ops = vec![on("bytes", pre as u64)];
                    sc.ops.extend(op.clone());
                    out(sc);
                }
            });
        }
    }
    // a record cut short: the rest of the input is the next record's
    for t in KNOWN.chain([SAMPLE, SAMPLE, SAMPLE]) {
        for _ in 0..g.times(2) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if r.chance(2, 3) {
                    c.rf &= !R_GROUP;
                }
                c.fl = 0;
                c.ru &= 0x1F;
                c.ri &= 0x1F;
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let rc = record(r, t, m, &c, Shape { max: 3, tail: false }, en.big());
                for n in (0..rc.data.len()).step_by(if rc.data.len() > 120 { 5 } else { 1 }) {
                    // declared size shortened; the bytes stay
                    let mut w = W::new(en.big());
                    header(&mut w, rc.ty, rc.misc, (n + 8) as u16);
                    w.bytes(&rc.data);
                    let mut sc = Scenario::new(w.out, en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = vec![o("rec")];
                    out(sc);
                }
                // input ends early
                let full = rc.bytes(en.big());
                for n in (0..full.len()).step_by(7) {
                    let mut sc = Scenario::new(full[..n].to_vec(), en, c);
                    sc.src = any_src(r, n);
                    sc.ops = vec![o("rec")];
                    out(sc);
                }
            });
        }
    }
    // counts that would fit if the following record were included
    for bit in [4u32, 5, 10, 11, 12, 13, 20] {
        for extra in 1..4u64 {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                c.sty = 1 << bit;
                c.rf = R_GROUP;
                c.ru = 0xFF;
                let en = *r.pick(&PLAIN);
                let mut rc = record(r, SAMPLE, 0, &c, SMALL, en.big());
                let mut w = W::new(en.big());
                if bit == 10 {
                    w.u32((rc.data.len() as u64 + 8 * extra) as u32)
                } else if bit == 12 {
                    w.u64(2)
                } else {
                    w.u64(rc.data.len() as u64 + extra)
                }
                let k = w.len();
                rc.data.splice(0..k.min(rc.data.len()), w.out);
                if bit == 12 {
                    rc.data.truncate(8 + 8 * (8 - extra as usize));
                }
                let mut b = rc.bytes(en.big());
                let d = r.bytes(600);
                b.extend(d);
                let mut sc = Scenario::new(b, en, c);
                sc.src = any_src(r, sc.b.len());
                sc.ops = vec![o("rec")];
                out(sc);
            });
        }
    }
}

fn c11(g: &mut Gen, out: Out) {
    for rf in 0..64u64 {
        for n in 0..5usize {
            for _ in 0..g.times(2) {
                g.group(out, |r, out| {
                    let mut c = cfg(r);
                    c.rf = rf;
                    let en = *r.pick(&En::ALL);
                    let mut w = W::new(en.big());
                    read_group(r, rf, n, &mut w);
                    let d = r.bytes(3);
                    w.bytes(&d);
                    let mut sc = Scenario::new(w.out, en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.ops = vec![group_op(r)];
                    out(sc.clone());
                    sc.ops = vec![ty("ReadGroup"), ty("ReadValue")];
                    sc.want = "c".into();
                    sc.src = any_src(r, sc.b.len());
                    out(sc);
                    let mut w = W::new(en.big());
                    read_value(r, rf, &mut w);
                    let d = r.bytes(2);
                    w.bytes(&d);
                    let mut sc = Scenario::new(w.out, en, c);
                    sc.src = any_src(r, sc.b.len());
                    sc.want = "c".into();
                    sc.ops = vec![ty("ReadValue")];
                    out(sc.clone());
                    sc.ops = vec![ty("ReadGroup")];
                    out(sc);
                });
            }
        }
        g.group(out, |r, out| {
            // READ records and samples with READ
            for t in [8u32, 9] {
                let mut c = cfg(r);
                c.rf = rf;
                c.sty = if t == 9 { (c.sty & 0xF) | (1 << 4) } else { c.sty };
                let en = *r.pick(&PLAIN);
                let rc = record(r, t, 0, &c, MIXED, en.big());
                out(one_record(r, &rc, en, c));
            }
        });
    }
    // unknown read formats
    for bit in 5..64u32 {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.rf = (1 << bit) | r.below(32);
            let mut w = W::new(false);
            for _ in 0..8 {
                w.u64(r.below(3))
            }
            for t in ["ReadValue", "ReadGroup"] {
                let mut sc = Scenario::new(w.out.clone(), En::Little, c);
                sc.ops = vec![ty(t)];
                out(sc);
            }
            for t in [8u32, 9] {
                c.sty = 1 << 4;
                let rc = record(r, t, 0, &c, SMALL, false);
                out(one_record(r, &rc, En::Little, c));
            }
        });
    }
    // exhaustive short scripts over groups of 0..3 entries
    let steps = ["next", "back", "nth0", "nth1", "nth2", "nb0", "nb1", "nb2"];
    let mk = |s: &str| match s {
        "nth0" => stepn("nth", 0),
        "nth1" => stepn("nth", 1),
        "nth2" => stepn("nth", 2),
        "nb0" => stepn("nthback", 0),
        "nb1" => stepn("nthback", 1),
        "nb2" => stepn("nthback", 2),
        x => step(x),
    };
    for n in 0..=4usize {
        for a in steps {
            for b in steps {
                g.group(out, |r, out| {
                    let rf = R_GROUP | *r.pick(&[0u64, 4, 16, 20, 23]);
                    let mut w = W::new(false);
                    read_group(r, rf, n, &mut w);
                    for cc in steps {
                        let mut sc = Scenario::new(w.out.clone(), En::Little, Cfg { rf, ..Cfg::default() });
                        let mut script = vec![];
                        for s in [a, b, cc] {
                            script.push(mk(s));
                            script.push(step("len"));
                            script.push(step("hint"));
                        }
                        script.extend([step("fork"), step("rev"), step("last"), step("count"), step("next"), step("back"), step("next")]);
                        sc.ops = vec![J::obj(vec![("op", J::s("group")), ("script", J::A(script))])];
                        out(sc);
                    }
                });
            }
        }
    }
    // far into long groups
    for i in 0..g.times(48) {
        g.group(out, |r, out| {
            let rf = R_GROUP | *r.pick(&[0u64, 0, 4, 16]);
            let n = *r.pick(&[130usize, 260, 300, 515, 600]);
            let mut w = W::new(false);
            read_group(r, rf, n, &mut w);
            let mut script = vec![];
            for j in 0..10 {
                let l = r.range(4, 9) as u64;
                let at = match r.below(if r.novel() { 4 } else { 2 }) {
                    0 => 1 << l,
                    1 => (1 << l) + r.below(3) - 1,
                    2 => r.exact(),
                    _ => r.literal().wrapping_mul(r.range(1, 3) as u64),
                };
                let way = ["nth", "nthback", "get", "skip", "take", "takeback", "every", "again", "entry"][(i + j) % 9];
                script.push(stepn(way, at.max(1)));
                if !["get", "entry", "again"].contains(&way) {
                    script.extend([step("len"), step("next"), step("back")]);
                }
                if r.chance(1, 2) {
                    script.push(step("restart"));
                }
            }
            let mut sc = Scenario::new(w.out, En::Little, Cfg { rf, ..Cfg::default() });
            sc.src = if r.chance(1, 2) { Src::Slice } else { any_src(r, sc.b.len()) };
            sc.ops = vec![J::obj(vec![("op", J::s("group")), ("script", J::A(script))])];
            out(sc);
        });
    }
    for i in 0..g.times(640) {
        g.group(out, |r, out| {
            let rf = R_GROUP | r.below(32);
            // every ninth group is a large one
            let n = if i % 9 == 8 { size(r, Shape { max: 70, tail: true }, 1) } else { r.range(0, 12) };
            let en = *r.pick(&En::ALL);
            let mut w = W::new(en.big());
            read_group(r, rf, n, &mut w);
            let unit = 1 + (rf & 20).count_ones() as usize;
            let vs: Vec<u64> = w.out.chunks(8).skip(1 + (rf & 3).count_ones() as usize).step_by(unit)
                .map(|b| if en.big() { u64::from_be_bytes(b.try_into().unwrap()) } else { u64::from_le_bytes(b.try_into().unwrap()) })
                .collect();
            let mut sc = Scenario::new(w.out, en, Cfg { rf, ..Cfg::default() });
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![group_script(r, n as u64, &vs)];
            if n > 12 {
                // the shortest ways to either end
                let script = ["last", "len", "back", "last", "next"].map(step);
                sc.ops[0] = J::obj(vec![("op", J::s("group")), ("script", J::A(script.to_vec()))]);
                out(sc.clone());
                sc.ops = vec![group_script(r, n as u64, &vs)];
            }
            out(sc);
        });
    }
}

fn c12(g: &mut Gen, out: Out) {
    let mut sizes: Vec<u32> = (0..=200).collect();
    if Rng::new(0).novel() {
        let mut r = Rng::new(g.seed);
        sizes.extend((0..16).map(|_| r.literal().min(70000) as u32));
    }
    sizes.extend([256, 400, 512, 1000, 4096, 65536, 1 << 24, 1 << 31, u32::MAX, u32::MAX - 7, 0x4000_0000]);
    sizes.extend([0x6400_0000, 0x8800_0000, 0x4000, 0x0140, 0x10040]);
    for &size in &sizes {
        g.group(out, |r, out| {
            for k in 0..4 {
                let en = *r.pick(&En::ALL);
                let real = (size as usize).min(5000);
                let avail = match k {
                    0 => real + 9,
                    1 => real,
                    2 => real.saturating_sub(1).max(r.range(0, 8)),
                    _ => r.range(0, real + 20),
                };
                let dirty = r.chance(1, 2);
                let b = attr_bytes(r, size, en.big(), avail, dirty);
                let mut sc = Scenario::new(b, en, Cfg::default());
                sc.src = tracked_src(r, sc.b.len());
                if k == 1 {
                    sc.src = any_src(r, sc.b.len());
                }
                sc.ops = vec![ty("Attr"), o("u8")];
                out(sc);
            }
        });
    }
    // every published size, several times, back to back
    for _ in 0..g.times(60) {
        for &size in &[64u32, 72, 80, 96, 104, 112, 120, 128, 136, 144, 160] {
            g.group(out, |r, out| {
                let en = *r.pick(&En::ALL);
                let mut b = attr_bytes(r, size, en.big(), size as usize, false);
                let next = *r.pick(&[64u32, 72, 80, 96, 104, 112, 120, 128, 136]);
                let d = attr_bytes(r, next, en.big(), next as usize, false);
                b.extend(d);
                let mut sc = Scenario::new(b, en, Cfg::default());
                sc.src = if r.chance(2, 3) { tracked_src(r, sc.b.len()) } else { any_src(r, sc.b.len()) };
                sc.al = r.range(0, 7);
                sc.ops = vec![ty("Attr"), if r.chance(1, 2) { ty("Attr") } else { o("attrconf") }, o("u8")];
                out(sc);
            });
        }
    }
    // structures far larger than any there is, clean but perhaps for one byte
    for &size in &[200u32, 300, 512, 1000, 1024, 4000, 4096, 4232, 4233, 5000, 8192, 8328, 16384, 20000, 65535, 65536, 66000] {
        g.group(out, |r, out| {
            for k in 0..6 {
                let en = *r.pick(&PLAIN);
                let n = size as usize;
                let mut b = attr_bytes(r, size, en.big(), n + 4, false);
                for x in 136..n { b[x] = 0 }
                match k {
                    0 => (),
                    1 => b[n - 1] = 1,
                    2 => b[n - r.range(1, 8)] = 0x80,
                    3 => b[136] = 1,
                    4 => b[n] = 9,
                    _ => b[r.range(136, n - 1)] = *r.pick(&[1u8, 0x10, 0xFF]),
                }
                let mut sc = Scenario::new(b, en, Cfg::default());
                sc.src = crate::large::pieces(r, sc.b.len());
                sc.ops = vec![ty("Attr"), o("u8")];
                out(sc);
            }
        });
    }
    // the tail: each single byte dirty
    for i in 136..176usize {
        g.group(out, |r, out| {
            for size in [(i + 1) as u32, 176, 177, i as u32] {
                if size < 136 { continue }
                let en = *r.pick(&PLAIN);
                let mut b = attr_bytes(r, size, en.big(), (size as usize).max(i + 1) + 4, false);
                for x in 136..b.len() { b[x] = 0 }
                b[i] = *r.pick(&[1, 0x80, 0xFF]);
                let mut sc = Scenario::new(b, en, Cfg::default());
                sc.src = tracked_src(r, sc.b.len());
                sc.ops = vec![ty("Attr"), o("u8")];
                out(sc);
            }
        });
    }
}

fn c13(g: &mut Gen, out: Out) {
    nests(g, 40, out);
    let follow = |r: &mut Rng, c: Cfg, out: Out| {
        // decode something whose layout depends on the configuration
        let en = *r.pick(&PLAIN);
        let clean = Cfg { sty: c.sty & S_ALL, rf: c.rf & 31, ..c };
        let mut recs = vec![];
        for t in [SAMPLE, 2, 15, 10, 3] {
            if r.chance(1, 2) {
                let m = misc(r);
                recs.push(record(r, t, m, &clean, Shape { max: 2, tail: false }, en.big()));
            }
        }
        let b = put_all(&recs, en.big());
        let mut sc = Scenario::new(b, en, c);
        sc.want = "c".into();
        sc.src = any_src(r, sc.b.len());
        sc.ops = vec![o("conf"), on("order", r.word())];
        for _ in &recs {
            sc.ops.push(vis("all"));
        }
        sc.ops.push(o("conf"));
        out(sc);
    };
    for bit in 0..64u32 {
        g.group(out, |r, out| {
            for k in 0..6 {
                let mut c = if k == 0 { Cfg::default() } else { cfg(r) };
                c.ru &= 0xFFFF;
                match k {
                    0 | 1 => c.sty |= 1 << bit,
                    2 => c.rf |= 1 << bit,
                    3 => c.fl ^= 1 << bit,
                    4 => c.bst ^= 1 << bit,
                    _ => { c.ru = 1 << bit; c.ri = !(1 << bit) }
                }
                follow(r, c, out);
            }
        });
    }
    // counter values under every read_format bit, known or not
    for bit in 0..64u32 {
        g.group(out, |r, out| {
            for known in [0u64, 8, r.below(32), r.below(32)] {
                for extra in [0u64, 0, 1 << r.below(64)] {
                    let c = Cfg { rf: known | 1 << bit | extra, sty: 1 << 4, ..Cfg::default() };
                    let en = *r.pick(&PLAIN);
                    let mut w = W::new(en.big());
                    for _ in 0..14 {
                        w.u64(r.below(3));
                    }
                    for op in [ty("ReadValue"), ty("ReadGroup"), ty("Read"), ty("Sample"), o("conf")] {
                        let mut sc = Scenario::new(w.out.clone(), en, c);
                        sc.src = any_src(r, sc.b.len());
                        sc.ops = vec![op];
                        out(sc);
                    }
                    for t in [SAMPLE, 7] {
                        let rc = Rec { ty: t, misc: 0, body_len: w.out.len(), data: w.out.clone() };
                        out(one_record(r, &rc, en, c));
                    }
                }
            }
        });
    }
    for fl in [0, SIA, !SIA, u64::MAX, SIA << 1, SIA >> 1] {
        for bst in [0, HWI, !HWI, u64::MAX, HWI << 1, HWI >> 1] {
            g.group(out, |r, out| {
                for sty in [S_ALL, S_SID | (1 << 11), 1 << 11, S_SID, u64::MAX, 0] {
                    let mut c = cfg(r);
                    c.fl = fl;
                    c.bst = bst;
                    c.sty = sty;
                    c.rf &= 31;
                    c.ru &= 3;
                    c.ri &= 3;
                    follow(r, c, out);
                }
            });
        }
    }
    // from a parsed attribute
    for _ in 0..g.times(100) {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let size = *r.pick(&[64u32, 72, 80, 96, 104, 112, 120, 128, 136]);
            let b = attr_bytes(r, size, en.big(), size as usize, false);
            let mut sc = Scenario::new(b, en, Cfg::default());
            sc.ops = vec![o("attrconf")];
            sc.want = "c".into();
            out(sc);
        });
    }
    // misc flags of one record and decoding of the next
    for _ in 0..g.times(300) {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.ru &= 0xF;
            c.ri &= 0xF;
            let en = *r.pick(&PLAIN);
            let n = r.range(2, 6);
            let recs: Vec<Rec> = (0..n)
                .map(|_| {
                    let t = *r.pick(&[15u32, 10, 15, 10, 14, 2, 16, 99]);
                    let m = misc(r);
                    record(r, t, m, &c, MIXED, en.big())
                })
                .collect();
            let mut b = put_all(&recs, en.big());
            // and a bare body read by the outer parser afterwards
            let mut w = W::new(en.big());
            for _ in 0..9 {
                w.u64(r.word())
            }
            b.extend(w.out);
            let mut sc = Scenario::new(b, en, c);
            sc.src = any_src(r, sc.b.len());
            for rc in &recs {
                let ops = read_record(r, rc);
                sc.ops.extend(ops);
            }
            sc.ops.push(ty("SwitchCpuWide"));
            sc.ops.push(ty("Mmap2"));
            out(sc);
        });
    }
    // records that fail in their frame or in their body, then bare bodies
    for _ in 0..g.times(300) {
        g.group(out, |r, out| {
            let mut c = Cfg { fl: SIA, sty: r.next() & S_SID, ..Cfg::default() };
            if r.chance(1, 3) {
                c.fl = 0;
            }
            let en = *r.pick(&PLAIN);
            let mut w = W::new(en.big());
            let mut ops = vec![];
            for _ in 0..r.range(1, 3) {
                let m = *r.pick(&[0u16, 0x4000, 0x2000, 0x6000, 0xFFFF]);
                let t = *r.pick(&[10u32, 15, 14, 3, 99]);
                let n = match r.below(4) {
                    0 => r.range(0, 7),
                    1 => 8,
                    _ => r.range(8, 40),
                };
                header(&mut w, t, m, n as u16);
                let d = r.bytes(n.max(8) - 8);
                w.bytes(&d);
                let mut op = if r.chance(1, 4) { o("meta") } else { rec_op(r) };
                if r.chance(1, 3) {
                    // the header handed over by the caller
                    let at = w.out.len() - d.len() - 8;
                    w.out.drain(at..at + 8);
                    op = J::obj(vec![("op", J::s(*r.pick(&["rech", "metah"]))), ("h", h(t, m, n as u16))]);
                }
                if op.get("op").unwrap().str().starts_with("meta") {
                    ops.push(op);
                    // a frame that failed was not entered
                    ops.push(o("pop"));
                } else {
                    ops.push(op);
                }
                ops.push(ty(*r.pick(&["SwitchCpuWide", "Mmap2", "Mmap2"])));
                for _ in 0..20 {
                    w.u64(r.word())
                }
            }
            let mut sc = Scenario::new(w.out, en, c);
            sc.src = any_src(r, sc.b.len());
            sc.ops = ops;
            out(sc);
        });
    }
    for _ in 0..g.times(300) {
        g.group(out, |r, out| {
            let c = wild_cfg(r);
            follow(r, c, out);
        });
    }
    g.group(out, |_, out| {
        let mut sc = Scenario::new(vec![], En::Little, Cfg::default());
        sc.ops = vec![J::obj(vec![("op", J::s("consts")), ("t", J::s("flags"))])];
        out(sc);
    });
}

/// A small COMM record.
fn cat_record(r: &mut Rng) -> Vec<u8> {
    let c = Cfg::default();
    record(r, 3, 0, &c, SMALL, false).bytes(false)
}

fn c14(g: &mut Gen, out: Out) {
    let faulty = |r: &mut Rng, sc: &Scenario, off: usize, out: Out| {
        let mut x = sc.clone();
        let mut f = any_fault(r, sc.b.len());
        f.off = off;
        x.fault = Some(f);
        out(x);
    };
    // every offset of single records of every type
    for t in all_types() {
        for _ in 0..g.times(2) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                c.rf &= !R_GROUP;
                c.ru &= 0xF;
                c.ri &= 0xF;
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let rc = record(r, t, m, &c, Shape { max: 2, tail: false }, en.big());
                let tail = record(r, 2, 0, &c, SMALL, en.big());
                let b = put_all(&[rc.clone(), tail], en.big());
                let len = b.len();
                for off in (0..=rc.size() + 8).step_by(if rc.size() > 120 { 7 } else { 1 }) {
                    let mut sc = Scenario::new(b.clone(), en, c);
                    sc.src = if r.chance(1, 2) { buf_src(r, len) } else { chunk_src(r, len) };
                    sc.ops = read_record(r, &rc);
                    sc.ops.push(o("rec"));
                    faulty(r, &sc, off.min(len), out);
                }
            });
        }
    }
    // every kind of failure, under every way of running out
    for kind in 0..28u8 {
        g.group(out, |r, out| {
            for op in [o("rest"), o("resttrim"), o("u64"), on("bytes", 12), otn("rep", "u16", 9), ty("Comm"), ty("Lost"), ty("Attr"), o("rec")] {
                for buf in [false, true] {
                    let b = cat_record(r);
                    let mut sc = Scenario::new(b, En::Little, Cfg::default());
                    sc.src = if buf { buf_src(r, sc.b.len()) } else { chunk_src(r, sc.b.len()) };
                    sc.ops = vec![op.clone()];
                    let off = *r.pick(&[0usize, 1, 6, 7]);
                    sc.fault = Some(Fault { off, kind, msg: crate::source::text_of(kind).unwrap_or("the source broke".into()), once: false });
                    out(sc);
                }
            }
        });
    }
    // primitives
    for _ in 0..g.times(700) {
        g.group(out, |r, out| {
            let n = r.range(0, 50);
            let mut b = r.bytes(n);
            if r.chance(1, 2) {
                let z = r.range(0, 9);
                b.extend(vec![0; z]);
            }
            let en = *r.pick(&En::ALL);
            let mut sc = Scenario::new(b, en, cfg(r));
            let len = sc.b.len();
            sc.src = if r.chance(1, 2) { buf_src(r, len) } else { chunk_src(r, len) };
            let k = r.range(1, 5);
            sc.ops = prim_ops(r, len, k);
            // transient: the source recovers, the parser goes on from where it stands
            if matches!(sc.src, Src::Chunks { .. }) && r.chance(1, 2) {
                sc.ops.push(o("clear"));
                sc.ops.extend(prim_ops(r, len, 2));
            }
            let off = r.range(0, len);
            faulty(r, &sc, off, out);
        });
    }
    // a failure just where the needed bytes end, or one before
    for (op, n) in [("u8", 1usize), ("u16", 2), ("u32", 4), ("u64", 8), ("hdr", 8), ("with", 3)] {
        for d in 0..=2usize {
            g.group(out, |r, out| {
                for _ in 0..3 {
                    let b = r.bytes(20);
                    let mut sc = Scenario::new(b, *r.pick(&PLAIN), Cfg::default());
                    sc.src = if r.chance(1, 2) { buf_src(r, 20) } else { chunk_src(r, 20) };
                    sc.ops = vec![o(op), o("rest")];
                    faulty(r, &sc, (n + d).saturating_sub(1), out);
                }
            });
        }
    }
    for n in [0u64, 1, 7, 8, 9, 16] {
        g.group(out, |r, out| {
            for off in 0..=18usize {
                let b = r.bytes(18);
                let mut sc = Scenario::new(b, *r.pick(&PLAIN), Cfg::default());
                sc.src = if r.chance(1, 2) { buf_src(r, 18) } else { chunk_src(r, 18) };
                sc.ops = vec![match r.below(4) {
                    0 => on("bytes", n),
                    1 => otn("slice", "u64", n / 8),
                    2 => otn("rep", "u16", n / 2),
                    _ => otn("slice", "u8", n),
                }];
                faulty(r, &sc, off, out);
            }
        });
    }
    // attributes, groups, typed values
    for _ in 0..g.times(300) {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let (b, op, c) = match r.below(4) {
                0 => {
                    let size = *r.pick(&[64u32, 96, 112, 136, 150]);
                    let b = attr_bytes(r, size, en.big(), size as usize, false);
                    (b, ty("Attr"), Cfg::default())
                }
                1 => {
                    let rf = R_GROUP | r.below(32);
                    let mut w = W::new(en.big());
                    let n = r.range(0, 4);
                    read_group(r, rf, n, &mut w);
                    (w.out, ty("ReadGroup"), Cfg { rf, ..Cfg::default() })
                }
                2 => {
                    let mut c = cfg(r);
                    c.ru &= 7;
                    c.ri &= 7;
                    let mut w = W::new(en.big());
                    sample(r, &c, Shape { max: 2, tail: false }, &mut w);
                    (w.out, ty("Sample"), c)
                }
                _ => {
                    let c = cfg(r);
                    let t = 1 + r.below(21) as u32;
                    let mut w = W::new(en.big());
                    body(r, t, 0, &c, SMALL, &mut w);
                    let n = name_of(t).unwrap();
                    (w.out, if n == "Switch" { o("u8") } else { ty(n) }, c)
                }
            };
            let len = b.len();
            let mut sc = Scenario::new(b, en, c);
            sc.ops = vec![op];
            sc.src = if r.chance(1, 2) { buf_src(r, len) } else { chunk_src(r, len) };
            let off = if r.chance(1, 4) { len } else { r.range(0, len) };
            faulty(r, &sc, off, out);
        });
    }
    // the source fails once and has recovered when it is asked again
    for _ in 0..g.times(400) {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let mut c = cfg(r);
            c.ru &= 7;
            c.ri &= 7;
            let t = any_type(r);
            let m = misc(r);
            let mut b = record(r, t, m, &c, SMALL, en.big()).bytes(en.big());
            let n = r.range(8, 40);
            b.extend(r.bytes(n));
            let len = b.len();
            let mut sc = Scenario::new(b, en, c);
            let buf = r.chance(1, 2);
            sc.src = if buf { buf_src(r, len) } else { chunk_src(r, len) };
            sc.ops = if r.chance(1, 2) { vec![rec_op(r)] } else { vec![prim_op(r, len)] };
            sc.ops.push(o("clear"));
            if !buf {
                sc.ops.extend(prim_ops(r, len, 2));
            }
            let off = if r.chance(1, 2) { r.range(0, 12) } else { r.range(0, len) };
            sc.fault = Some(Fault { off, kind: r.below(24) as u8, msg: "for a moment".into(), once: true });
            out(sc);
        });
    }
    // transient failures between records
    for _ in 0..g.times(150) {
        g.group(out, |r, out| {
            let mut sc = random_stream_session(r, chunk_src);
            sc.ops.insert(r.range(0, sc.ops.len()), o("clear"));
            let ops = sc.ops.clone();
            sc.ops = ops.into_iter().filter(|x| !["meta", "metah", "pop"].contains(&x.get("op").unwrap().str())).collect();
            let off = r.range(0, sc.b.len());
            faulty(r, &sc, off, out);
        });
    }
}

fn c15(g: &mut Gen, out: Out) {
    for t in [1u32, 3, 9, 9, 9, 9, 10, 16, 17, 19, 20, 99, 0] {
        for _ in 0..g.times(28) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if t == SAMPLE && r.chance(1, 2) {
                    c.sty = S_ALL;
                }
                c.ru &= 0xFF;
                c.ri &= 0xFF;
                let en = *r.pick(&[En::Native, En::Little, En::Native, En::DynL, En::Big, En::CustL]);
                let m = misc(r);
                let mut rc = record(r, t, m, &c, MIXED, en.big());
                if r.chance(1, 8) {
                    rc = odd_record(r, t, &c, en.big());
                }
                let pre = *r.pick(&[0usize, 8, 3, 16]);
                let mut b = r.bytes(pre);
                b.extend(rc.bytes(en.big()));
                let post = r.bytes(5);
                b.extend(post);
                let len = b.len();
                for k in 0..6 {
                    let mut sc = Scenario::new(b.clone(), en, c);
                    sc.al = if r.chance(1, 2) { 0 } else { r.range(0, 7) };
                    let hint = r.chance(1, 2);
                    sc.src = match k {
                        0 => Src::Slice,
                        1 => whole(hint, len),
                        2 => Src::Chunks { cuts: cuts_from(vec![pre, pre + rc.size()], len), temp: vec![], hint },
                        3 => chunk_src(r, len),
                        4 => Src::Chunks { cuts: vec![len], temp: vec![true], hint },
                        _ => buf_src(r, len),
                    };
                    if let Src::Chunks { cuts, temp, .. } = &mut sc.src {
                        temp.resize(cuts.len(), false);
                    }
                    sc.want = "lk".into();
                    sc.ops = vec![on("bytes", pre as u64)];
                    sc.ops.extend(match r.below(5) {
                        0 => {
                            let inner = match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => o("rest") };
                            vec![o("meta"), inner, o("pop")]
                        }
                        1 => vec![vis("all")],
                        2 => vec![vis("Mmap")],
                        _ => vec![o("rec")],
                    });
                    sc.ops.push(o("rest"));
                    out(sc);
                }
            });
        }
    }
    // primitives
    for _ in 0..g.times(700) {
        g.group(out, |r, out| {
            let n = r.range(8, 80);
            let b = r.bytes(n);
            let mut sc = Scenario::new(b, *r.pick(&[En::Native, En::Little, En::Big, En::CustL]), Cfg::default());
            sc.src = any_src(r, n);
            sc.al = if r.chance(1, 2) { 0 } else { r.range(0, 7) };
            sc.want = "lk".into();
            for _ in 0..r.range(1, 5) {
                sc.ops.push(match r.below(6) {
                    0 | 1 => on("bytes", r.below(20)),
                    2 | 3 => otn("slice", *r.pick(&["u8", "u16", "u32", "u64", "ns", "br"]), r.below(4)),
                    4 => otn("sdirect", *r.pick(&["u16", "u32", "u64"]), r.below(4)),
                    _ => otn("rep", "u64", r.below(3)),
                });
            }
            if r.chance(1, 2) {
                sc.ops.push(o(if r.chance(1, 2) { "rest" } else { "resttrim" }));
            }
            out(sc);
        });
    }
    // counter groups, whose values cannot be seen to be borrowed, only that nothing was allocated for them
    for k in 0..g.times(120) {
        g.group(out, |r, out| {
            let en = *r.pick(&[En::Native, En::Little, En::DynL, En::Native, En::Big]);
            let rf = R_GROUP | r.below(32);
            let mut c = Cfg { rf, ..Cfg::default() };
            let n = *r.pick(&[1usize, 1, 1, 2, 2, 3, 5, 8, 16, 40, 130]);
            let mut w = W::new(en.big());
            let ops = if k % 2 == 0 {
                read_group(r, rf, n, &mut w);
                vec![ty("ReadGroup"), o("rest")]
            } else {
                // and nothing else in the sample that is not a number
                c.sty = 1 << 4 | r.next() & 0x00EB_C3CF;
                let mut w1 = W::new(en.big());
                sample(r, &c, Shape { max: 300, tail: false }, &mut w1);
                let rc = Rec { ty: SAMPLE, misc: misc(r), body_len: w1.out.len(), data: w1.out };
                w.bytes(&rc.bytes(en.big()));
                vec![o("rec"), o("rest")]
            };
            let mut sc = Scenario::new(w.out, en, c);
            let len = sc.b.len();
            sc.src = match r.below(4) {
                0 => chunk_src(r, len),
                1 => { let hint = r.chance(1, 2); whole(hint, len) }
                _ => Src::Slice,
            };
            sc.al = *r.pick(&[0, 0, 0, 4]);
            sc.want = "lm".into();
            sc.ops = ops;
            out(sc);
        });
    }
    // long reads through temporary buffers stay what they were
    for _ in 0..g.times(10) {
        g.group(out, |r, out| {
            let n = *r.pick(&[20000usize, 17000, 40000]);
            let b: Vec<u8> = (0..n).map(|i| (i % 249) as u8).collect();
            let mut sc = Scenario::new(b, En::Little, Cfg::default());
            sc.src = match r.below(3) {
                0 => Src::Buf { cap: 4096, reads: vec![] },
                _ => Src::Chunks { cuts: cuts_from(vec![5000, 9000, 16384], n), temp: vec![true; 4], hint: r.chance(1, 2) },
            };
            sc.want = "lk".into();
            sc.ops = vec![on("bytes", 6000), on("bytes", 10000), o("rest")];
            out(sc);
        });
    }
}

fn c16(g: &mut Gen, out: Out) {
    let one = |r: &mut Rng, n: usize, k: usize, out: Out| {
        let mut b = r.bytes(n);
        if r.chance(1, 3) {
            let z = r.range(0, 20);
            b.extend(vec![0; z]);
        }
        let en = *r.pick(&En::ALL);
        let mut sc = Scenario::new(b, en, Cfg::default());
        sc.src = if r.chance(1, 2) { tracked_src(r, sc.b.len()) } else { any_src(r, sc.b.len()) };
        sc.al = r.range(0, 7);
        sc.ops = prim_ops(r, sc.b.len(), k);
        if !matches!(sc.src, Src::Buf { .. }) && r.chance(1, 3) {
            let i = r.range(0, sc.ops.len());
            let inner = r.range(0, 3);
            let mut ins = vec![o("clone")];
            ins.extend(prim_ops(r, sc.b.len(), inner));
            ins.push(o("pop"));
            sc.ops.splice(i..i, ins);
        }
        out(sc);
    };
    for _ in 0..g.times(3500) {
        g.group(out, |r, out| {
            let n = *r.clone().pick(&[0usize, 1, 8, 16, 30, 60, 100]);
            r.next();
            let k = r.range(1, 9);
            one(r, n, k, out)
        });
    }
    // elements that end where their contents say
    for _ in 0..g.times(300) {
        g.group(out, |r, out| {
            let n = r.range(0, 50);
            let b: Vec<u8> = (0..n).map(|_| *r.pick(&[0u8, 0, 1, 2, 3, 5, b'a', b'b', 0xFF])).collect();
            let mut sc = Scenario::new(b, *r.pick(&En::ALL), Cfg::default());
            sc.src = if r.chance(1, 2) { tracked_src(r, n) } else { any_src(r, n) };
            for _ in 0..r.range(1, 4) {
                let t = *r.pick(&["str", "skip", "counted", "gone"]);
                let n = if r.chance(1, 9) { r.word() } else { r.below(7) };
                sc.ops.push(otn("rep", t, n));
                if r.chance(1, 3) {
                    sc.ops.push(o("u8"));
                }
            }
            out(sc);
        });
    }
    // whole values read at any distance from the start
    for t in TYPED {
        for k in 0..g.times(6) {
            g.group(out, |r, out| {
                let mut c = Cfg { ru: 3, ri: 9, ..Cfg::default() };
                if t == "Sample" {
                    c.sty = match k % 4 { 0 => 1 << 10, 1 => 1 << 10 | 1 << 14, 2 => 1 << 13 | 1 << 10, _ => cfg(r).sty };
                    c.rf = r.next() & 0x1F;
                } else if k % 2 == 1 {
                    c.rf = r.next() & 0x1F;
                    c.sty = r.next() & 0x3FF;
                }
                let en = *r.pick(&PLAIN);
                let pre = r.range(0, 17);
                let mut b = r.bytes(pre);
                for _ in 0..2 {
                    if let Some(n) = (1..22).find(|n| name_of(*n) == Some(t)) {
                        let m = 0;
                        let rc = record(r, n, m, &Cfg { fl: 0, ..c }, Shape { max: 2, tail: false }, en.big());
                        b.extend(rc.data);
                    } else {
                        let mut w = W::new(en.big());
                        w.u64(r.range(0, 2) as u64);
                        b.extend(w.out);
                        b.extend(r.bytes(40));
                    }
                }
                let mut sc = Scenario::new(b, en, c);
                sc.src = match r.below(3) { 0 => Src::Slice, 1 => tracked_src(r, sc.b.len()), _ => any_src(r, sc.b.len()) };
                sc.al = r.range(0, 7);
                sc.ops = vec![on("bytes", pre as u64)];
                if !matches!(sc.src, Src::Buf { .. }) && r.chance(1, 2) {
                    sc.ops.extend([o("clone"), ty(t), o("rest"), o("pop")]);
                }
                sc.ops.extend([ty(t), ty(t), o("u8"), o("rest")]);
                out(sc);
            });
        }
    }
    // every op with exactly enough, one short, one spare; on every kind of source
    let ops: Vec<(J, usize)> = vec![
        (o("u8"), 1), (o("u16"), 2), (o("u32"), 4), (o("u64"), 8), (arr(0), 0), (otn("rep", "a0", 3), 0), (arr(1), 1), (arr(3), 3), (arr(8), 8),
        (arr(24), 24), (on("bytes", 0), 0), (on("bytes", 1), 1), (on("bytes", 9), 9), (otn("rep", "u8", 3), 3),
        (otn("rep", "u64", 2), 16), (otn("rep", "ns", 1), 16), (otn("rep", "a3", 2), 6), (otn("slice", "u8", 5), 5),
        (otn("rep", "wide", 3), 3), (otn("rep", "narrow", 3), 12), (otn("rep", "gone", 3), 6), (otn("rep", "a64", 2), 128),
        (otn("rep", "over16", 3), 3), (otn("rep", "over64", 2), 8), (otn("rep", "str", 1), 5), (otn("rep", "skip", 2), 7), (otn("rep", "counted", 2), 9),
        (otn("rep", "wide", 1), 1), (otn("rep", "narrow", 1), 4), (otn("rep", "gone", 1), 2),
        (otn("slice", "u16", 2), 4), (otn("slice", "u32", 3), 12), (otn("slice", "u64", 2), 16), (otn("slice", "ns", 2), 32),
        (otn("slice", "br", 1), 24), (otn("slice", "u64", 0), 0), (otn("rep", "u64", 0), 0), (oif("u64", true), 8),
        (oif("u64", false), 0), (oif("with", true), 2), (o("with"), 3), (o("hdr"), 8),
    ];
    for (op, n) in ops {
        for d in 0..3usize {
            if n + d == 0 {
                continue;
            }
            g.group(out, |r, out| {
                for k in 0..6 {
                    let len = n + d - 1;
                    let b = r.bytes(len);
                    let mut sc = Scenario::new(b, *r.pick(&En::ALL), Cfg::default());
                    sc.src = match k { 0 => Src::Slice, 1 => { let hint = r.chance(1, 2); whole(hint, len) } 2 => buf_src(r, len), _ => chunk_src(r, len) };
                    sc.al = r.range(0, 7);
                    sc.ops = vec![op.clone(), o("rest"), o("rest"), on("bytes", 0), o("resttrim")];
                    out(sc);
                }
            });
        }
    }
    for _ in 0..g.times(16) {
        g.group(out, |r, out| {
            let n = *r.pick(&[16384usize, 16383, 16385, 33000]);
            let b: Vec<u8> = (0..n).map(|i| (i % 253) as u8).collect();
            let mut sc = Scenario::new(b, En::Big, Cfg::default());
            let c = r.range(1, n - 1);
            sc.src = match r.below(3) {
                0 => Src::Buf { cap: 1000, reads: vec![] },
                1 => whole(false, n),
                _ => Src::Chunks { cuts: cuts_from(vec![c, 100], n), temp: vec![true, false, true], hint: false },
            };
            if let Src::Chunks { cuts, temp, .. } = &mut sc.src {
                temp.resize(cuts.len(), false);
            }
            let k = r.range(0, 9);
            sc.ops = vec![on("bytes", k as u64), on("bytes", (n - 2 * k) as u64), o("rest")];
            if r.chance(1, 3) {
                sc.ops = vec![otn("slice", "u32", (n / 4 - 1) as u64), o("u8"), o("resttrim")];
            }
            out(sc);
        });
    }
}

fn c17(g: &mut Gen, out: Out) {
    nests(g, 150, out);
    for k in 0..g.times(8) {
        g.group(out, |r, out| out(long_stream(r, k)));
    }
    for t in all_types() {
        for _ in 0..g.times(20) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if r.chance(2, 3) {
                    c.rf &= !R_GROUP;
                }
                c.ru &= 0xFFF;
                c.ri &= 0xFFF;
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let rc = if r.chance(3, 4) { record(r, t, m, &c, MIXED, en.big()) } else { odd_record(r, t, &c, en.big()) };
                let t2 = *r.pick(&[2u32, 15, 10, 3]);
                let m2 = misc(r);
                let nx = record(r, t2, m2, &c, SMALL, en.big());
                let b = put_all(&[rc.clone(), nx], en.big());
                let inner = match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => o("rest") };
                let part = prim_op(r, b.len());
                let ways: Vec<Vec<J>> = vec![
                    vec![o("meta"), inner.clone(), o("rest"), o("pop"), vis("all")],
                    vec![o("meta"), o("pop"), vis("all")],
                    vec![o("meta"), part, o("pop"), vis("all")],
                    vec![o("meta"), o("rest"), o("u8"), o("pop"), o("meta"), o("rest"), o("pop")],
                    vec![o("hdr"), rech(&rc), o("rec")],
                    vec![o("hdr"), vish("all", &rc), vis("all")],
                    vec![o("hdr"), metah(&rc), inner.clone(), o("pop"), vis("all")],
                    vec![o("clone"), o("rec"), o("pop"), o("meta"), inner, o("pop"), o("rec")],
                ];
                for ops in ways {
                    let mut sc = Scenario::new(b.clone(), en, c);
                    sc.src = if r.chance(1, 2) { tracked_src(r, b.len()) } else { any_src(r, b.len()) };
                    if ops.iter().any(|x| x.get("op").unwrap().str() == "clone") && matches!(sc.src, Src::Buf { .. }) {
                        sc.src = Src::Slice;
                    }
                    sc.al = r.range(0, 7);
                    sc.ops = ops;
                    out(sc);
                }
            });
        }
    }
    // a frame of one type, read as if it were another whose shape hangs on the misc bits
    for t in all_types().into_iter().chain([0, 22, 64, u32::MAX]) {
        for _ in 0..g.times(2) {
            g.group(out, |r, out| {
                let c = cfg(r);
                let en = *r.pick(&PLAIN);
                for (t2, m) in [(10u32, 0x4000u16), (10, 0), (15, 0x2000), (14, 0x2000), (3, 0x2000), (1, 0x2000)] {
                    let m = m | if r.chance(1, 2) { misc(r) & !0x6000 } else { 0 };
                    let mut rc = record(r, t2, m, &c, SMALL, en.big());
                    rc.ty = t;
                    let b = put_all(&[rc.clone()], en.big());
                    let inner = match name_of(t2) { Some(n) if n != "Switch" => ty(n), _ => ty("SwitchCpuWide") };
                    for ops in [
                        vec![o("meta"), inner.clone(), o("conf"), o("pop"), o("conf")],
                        vec![o("hdr"), metah(&rc), o("conf"), inner.clone(), o("rest"), o("pop")],
                    ] {
                        let mut sc = Scenario::new(b.clone(), en, c);
                        sc.src = any_src(r, b.len());
                        sc.ops = ops;
                        out(sc);
                    }
                }
            });
        }
    }
    // unknown types: every way of reading them gives the whole body
    for t in [0u32, 22, 23, 64, 100, 255, 256, 0x8000_0009, u32::MAX] {
        for tail in 0..4usize {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if r.chance(1, 2) {
                    c.fl = 0;
                }
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let mut rc = record(r, t, m, &c, SMALL, en.big());
                let n = r.range(0, rc.body_len);
                for x in rc.data[n..rc.body_len].iter_mut() {
                    *x = match tail { 0 => 0, 1 => 0xFF, _ => *x };
                }
                let m = misc(r);
                let nx = record(r, 15, m, &c, SMALL, en.big());
                let b = put_all(&[rc.clone(), nx], en.big());
                for ops in [
                    vec![o("rec"), o("rec")],
                    vec![vis("all"), vis("all")],
                    vec![vis("Unknown"), vis("all")],
                    vec![o("hdr"), rech(&rc), o("rec")],
                    vec![o("hdr"), vish("all", &rc), o("rec")],
                    vec![o("hdr"), vish("Unknown", &rc), o("rec")],
                    vec![o("hdr"), metah(&rc), o("rest"), o("pop"), o("rec")],
                    vec![o("meta"), o("rest"), o("pop"), o("rec")],
                ] {
                    let mut sc = Scenario::new(b.clone(), en, c);
                    sc.src = any_src(r, b.len());
                    sc.ops = ops;
                    out(sc);
                }
            });
        }
    }
    // records inside records: a frame whose body holds further frames
    for _ in 0..g.times(150) {
        g.group(out, |r, out| {
            let c = Cfg { fl: 0, ..cfg(r) };
            let en = *r.pick(&PLAIN);
            let n = r.range(1, 3);
            let inner = stream(r, &c, en.big(), n);
            let d = put_all(&inner, en.big());
            let outer = Rec { ty: 99, misc: misc(r), body_len: d.len(), data: d };
            let m = misc(r);
            let nx = record(r, 15, m, &c, SMALL, en.big());
            let mut sc = Scenario::new(put_all(&[outer, nx], en.big()), en, c);
            sc.src = any_src(r, sc.b.len());
            sc.ops = vec![o("meta")];
            for x in &inner {
                let ops = read_record(r, x);
                sc.ops.extend(ops);
            }
            sc.ops.extend([o("rec"), o("pop"), vis("all")]);
            out(sc);
        });
    }
}

fn c18(g: &mut Gen, out: Out) {
    let words: Vec<u64> = (0..64)
        .flat_map(|i| [1u64 << i, !(1u64 << i), (1 << i) | (1 << ((i + 1) % 64))])
        .chain([0, u64::MAX])
        .collect();
    for chunk in words.chunks(6) {
        let chunk = chunk.to_vec();
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            for t in ["DataSource", "Txn", "AuxFlags", "Abi"] {
                let mut w = W::new(en.big());
                for &x in &chunk {
                    w.u64(x)
                }
                let mut sc = Scenario::new(w.out, en, Cfg::default());
                sc.ops = chunk.iter().map(|_| ty(t)).collect();
                out(sc);
            }
            let mut w = W::new(en.big());
            for &x in &chunk {
                w.u64(r.next());
                w.u64(!r.next());
                w.u64(x);
            }
            let mut sc = Scenario::new(w.out, en, Cfg::default());
            sc.ops = chunk.iter().map(|_| ty("Branch")).collect();
            sc.src = any_src(r, sc.b.len());
            out(sc.clone());
            sc.ops = vec![otn("slice", "br", chunk.len() as u64)];
            sc.src = any_src(r, sc.b.len());
            sc.al = *r.pick(&[0, 0, 1, 4]);
            out(sc);
            let mut w = W::new(en.big());
            for &x in &chunk {
                w.u16(x as u16);
                w.u16((x >> 16) as u16);
                w.u16((x >> 32) as u16);
            }
            let mut sc = Scenario::new(w.out, en, Cfg::default());
            for _ in &chunk {
                sc.ops.extend([ty("BpfType"), ty("KsymType"), ty("KsymFlags")]);
            }
            out(sc);
        });
    }
    // every 16-bit code in steps; random words
    for _ in 0..g.times(500) {
        g.group(out, |r, out| {
            let en = *r.pick(&En::ALL);
            let mut w = W::new(en.big());
            let mut ops = vec![];
            for _ in 0..6 {
                match r.below(6) {
                    0 | 1 => { w.u64(r.next()); ops.push(ty("DataSource")) }
                    2 => { w.u64(r.word()); ops.push(ty("Txn")) }
                    3 => { w.u64(r.word()); ops.push(ty("AuxFlags")) }
                    4 => { w.u64(r.next()); w.u64(r.next()); w.u64(r.next()); ops.push(ty("Branch")) }
                    _ => { w.u16(r.next() as u16); ops.push(ty(*r.pick(&["BpfType", "KsymType", "KsymFlags"]))) }
                }
            }
            let mut sc = Scenario::new(w.out, en, Cfg::default());
            sc.src = any_src(r, sc.b.len());
            sc.ops = ops;
            out(sc);
        });
    }
    // the same values inside records
    for _ in 0..g.times(250) {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.sty = (1 << 11) | (1 << 15) | (1 << 17) | (1 << 12);
            c.ru &= 3;
            let t = *r.pick(&[9u32, 9, 11, 17, 18]);
            let en = *r.pick(&PLAIN);
            let rc = record(r, t, 0, &c, SMALL, en.big());
            out(one_record(r, &rc, en, c));
        });
    }
    g.group(out, |_, out| {
        let mut sc = Scenario::new(vec![], En::Little, Cfg::default());
        sc.ops = vec!["codes", "made"].into_iter().map(|t| J::obj(vec![("op", J::s("consts")), ("t", J::s(t))])).collect();
        out(sc);
    });
}

fn c19(g: &mut Gen, out: Out) {
    let mut types = all_types();
    types.extend([SAMPLE; 10]);
    types.extend([10, 10, 20]);
    for t in types {
        for k in 0..g.times(36) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if t == SAMPLE && k % 3 == 0 {
                    c.sty = 1 << r.below(25);
                }
                if t == 8 {
                    c.rf &= !R_GROUP;
                }
                let en = *r.pick(&PLAIN);
                let m = misc(r);
                let rc = record(r, t, m, &c, MIXED, en.big());
                let mut sc = one_record(r, &rc, en, c);
                sc.want = "c".into();
                sc.al = *r.pick(&[0, 0, 1]);
                match r.below(6) {
                    0 => {
                        let inner = match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => o("rest") };
                        sc.ops = vec![o("meta"), inner, o("pop")];
                    }
                    1 => sc.ops = vec![o("conf"), o("rec")],
                    _ => (),
                }
                out(sc);
            });
        }
    }
    // every single sample field, every pair
    for a in 0..25u32 {
        for b in 0..a {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                c.sty = (1 << a) | (1 << b);
                let rc = record(r, SAMPLE, 0, &c, MIXED, false);
                let mut sc = one_record(r, &rc, En::Little, c);
                sc.want = "c".into();
                sc.al = 0;
                out(sc);
            });
        }
    }
    for rf in 0..32u64 {
        for n in 0..4usize {
            g.group(out, |r, out| {
                let mut w = W::new(false);
                if rf & 8 != 0 { read_group(r, rf, n, &mut w) } else { read_value(r, rf, &mut w) }
                let mut sc = Scenario::new(w.out, En::Little, Cfg { rf, ..Cfg::default() });
                sc.src = any_src(r, sc.b.len());
                sc.want = "c".into();
                sc.ops = vec![ty(if rf & 8 != 0 { "ReadGroup" } else { "ReadValue" })];
                out(sc);
            });
        }
    }
    for k in 0..64u64 {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.sty = sid_subset(k);
            c.fl |= SIA;
            let mut w = W::new(false);
            sample_id(r, &c, &mut w);
            let mut sc = Scenario::new(w.out, En::Little, c);
            sc.want = "c".into();
            sc.ops = vec![ty("SampleId"), o("conf")];
            out(sc);
        });
    }
}

fn c20(g: &mut Gen, out: Out) {
    let mut types = all_types();
    types.extend([SAMPLE; 8]);
    types.extend([10, 10, 10]);
    for t in types {
        for k in 0..g.times(22) {
            g.group(out, |r, out| {
                let mut c = cfg(r);
                if t == SAMPLE && k % 3 == 0 {
                    c.sty = (1 << r.below(25)) | (1 << r.below(25));
                }
                c.ru &= 0xF0F;
                c.ri &= 0xF0F;
                if t == 8 {
                    c.rf &= !R_GROUP;
                }
                let en = *r.pick(&PLAIN);
                let m = if t == 10 && r.chance(1, 2) { 0x4000 } else { misc(r) };
                let rc = record(r, t, m, &c, Shape { max: 3, tail: false }, en.big());
                let mut sc = one_record(r, &rc, en, c);
                sc.want = "d".into();
                if r.chance(1, 5) {
                    sc.ops = vec![o("meta"), match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => o("rest") }, o("pop")];
                }
                out(sc);
            });
        }
    }
    // names with every byte value
    for lo in (0..256usize).step_by(8) {
        g.group(out, |r, out| {
            for t in [1u32, 3, 10, 17, 19] {
                let c = Cfg::default();
                let mut rc = record(r, t, 0, &c, MIXED, false);
                let fixed = match t { 1 => 32, 3 => 8, 10 => 64, 17 => 16, _ => 8 };
                rc.data.truncate(fixed);
                for i in 0..8 {
                    rc.data.push((lo + i) as u8);
                    if r.chance(1, 3) { rc.data.push(b'"') }
                    if r.chance(1, 4) { rc.data.extend("\u{20ac}".as_bytes()) }
                }
                rc.data.push(b'!');
                let mut sc = one_record(r, &rc, En::Little, c);
                sc.want = "d".into();
                out(sc);
            }
        });
    }
    // build ids with every byte value
    for lo in (0..256usize).step_by(20) {
        g.group(out, |r, out| {
            let c = Cfg::default();
            let mut rc = record(r, 10, 0x4000, &c, SMALL, false);
            rc.data[32] = 20;
            for i in 0..20 {
                rc.data[36 + i] = (lo + i) as u8;
            }
            let mut sc = one_record(r, &rc, En::Little, c);
            sc.want = "d".into();
            out(sc);
        });
    }
    // counter reads and ids
    for rf in 0..32u64 {
        g.group(out, |r, out| {
            let mut w = W::new(false);
            let n = r.range(0, 3);
            if rf & 8 != 0 { read_group(r, rf, n, &mut w) } else { read_value(r, rf, &mut w) }
            let mut sc = Scenario::new(w.out, En::Little, Cfg { rf, ..Cfg::default() });
            sc.want = "d".into();
            sc.ops = vec![ty(if rf & 8 != 0 { "ReadGroup" } else { "ReadValue" })];
            out(sc);
        });
    }
    for k in 0..64u64 {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.sty = sid_subset(k);
            c.fl |= SIA;
            let mut w = W::new(false);
            sample_id(r, &c, &mut w);
            let mut sc = Scenario::new(w.out, En::Little, c);
            sc.want = "d".into();
            sc.ops = vec![ty("SampleId")];
            out(sc);
        });
    }
    // packed values and parts on their own
    for t in ["DataSource", "Txn", "AuxFlags", "Abi", "BpfType", "KsymType", "KsymFlags", "NsEntry",
              "Branch", "RegsUser", "RegsIntr"] {
        for k in 0..g.times(24).max(16) {
            g.group(out, |r, out| {
                let mut w = W::new(false);
                match t {
                    "RegsUser" | "RegsIntr" => (),
                    "BpfType" | "KsymType" | "KsymFlags" => w.u16(if k < 16 { 1u16 << k >> 1 } else { r.next() as u16 }),
                    "NsEntry" | "Branch" => (),
                    _ => w.u64(if k < 8 { k as u64 } else if k < 12 { u64::MAX >> k } else { r.next() & r.next() }),
                }
                let c = cfg(r);
                let pad = r.bytes(600);
                if t.starts_with("Regs") {
                    w.u64(k as u64 % 4);
                }
                w.bytes(&pad);
                let mut sc = Scenario::new(w.out, En::Little, c);
                sc.want = "d".into();
                sc.ops = vec![ty(t)];
                out(sc);
            });
        }
    }
    for _ in 0..g.times(40) {
        g.group(out, |r, out| {
            let c = if r.chance(1, 2) { cfg(r) } else { wild_cfg(r) };
            let mut sc = Scenario::new(vec![0; 8], *r.pick(&PLAIN), c);
            sc.want = "d".into();
            sc.ops = vec![o("conf")];
            out(sc);
        });
    }
    // errors of every kind
    for _ in 0..g.times(500) {
        g.group(out, |r, out| {
            let mut sc = random_stream_session(r, any_src);
            if r.chance(1, 4) {
                sc.cfg.rf |= 1 << 9;
            }
            if !matches!(sc.src, Src::Slice) && r.chance(1, 2) {
                sc.fault = Some(any_fault(r, sc.b.len()));
            }
            sc.want = "d".into();
            out(sc);
        });
    }
    for size in [0u32, 63, 65, 100, 137, 140] {
        g.group(out, |r, out| {
            let b = attr_bytes(r, size, false, 200, true);
            let mut sc = Scenario::new(b, En::Little, Cfg::default());
            sc.ops = vec![ty("Attr")];
            out(sc);
        });
    }
}

fn c21(g: &mut Gen, out: Out) {
    // every op, every source shape
    for _ in 0..g.times(1800) {
        g.group(out, |r, out| {
            let n = r.range(0, 60);
            let mut b = r.bytes(n);
            if r.chance(1, 3) {
                let z = r.range(0, 9);
                b.extend(vec![0; z]);
            }
            let mut sc = Scenario::new(b, *r.pick(&En::ALL), cfg(r));
            sc.src = tracked_src(r, sc.b.len());
            sc.al = r.range(0, 7);
            let k = r.range(1, 7);
            sc.ops = prim_ops(r, sc.b.len(), k);
            if r.chance(1, 6) {
                sc.fault = Some(any_fault(r, sc.b.len()));
                let k = r.range(0, sc.ops.len());
                if r.chance(1, 2) {
                    sc.ops.insert(k, o("clear"));
                }
            }
            out(sc);
        });
    }
    for _ in 0..g.times(900) {
        g.group(out, |r, out| {
            let mut sc = random_stream_session(r, tracked_src);
            if r.chance(1, 6) {
                sc.fault = Some(any_fault(r, sc.b.len()));
            }
            out(sc);
        });
    }
    // records of every type, split at every place
    for t in all_types() {
        g.group(out, |r, out| {
            let mut c = cfg(r);
            c.ru &= 0xF;
            c.ri &= 0xF;
            let en = *r.pick(&PLAIN);
            let m = misc(r);
            let rc = record(r, t, m, &c, Shape { max: 2, tail: false }, en.big());
            let b = rc.bytes(en.big());
            let len = b.len();
            for cut in (1..len).step_by(if len > 100 { 5 } else { 1 }) {
                let mut sc = Scenario::new(b.clone(), en, c);
                let mode = r.below(3);
                let cuts = cuts_from(vec![cut], len);
                let temp = cuts.iter().map(|_| mode == 0).collect();
                sc.src = Src::Chunks { cuts, temp, hint: mode == 1 };
                sc.ops = vec![o("rec"), o("u8")];
                out(sc);
            }
        });
    }
    // samples straight from the source, each of their fields the last one, ending anywhere in a word
    for f in 0..25u32 {
        for _ in 0..g.times(if [5, 10, 11, 12, 13, 18, 20].contains(&f) { 14 } else { 4 }) {
            g.group(out, |r, out| {
                let en = *r.pick(&PLAIN);
                let mut c = cfg(r);
                c.sty = 1 << f | if r.chance(1, 2) { 1 << r.below(f as u64 + 1) } else { 0 };
                c.ru &= 0x3;
                c.ri &= 0x3;
                let mut w = W::new(en.big());
                let max = r.range(0, 3);
                sample(r, &c, Shape { max, tail: false }, &mut w);
                let mut b = w.out;
                let len = b.len();
                let k = *r.pick(&[0usize, 0, 1, 9]);
                let d = r.bytes(k);
                b.extend(d);
                let mut sc = Scenario::new(b, en, c);
                let total = sc.b.len();
                let mut cuts = vec![len];
                if r.chance(1, 2) { cuts.push(r.range(0, len)) }
                let cuts = cuts_from(cuts, total);
                let temp = cuts.iter().map(|_| r.chance(1, 2)).collect();
                sc.src = Src::Chunks { cuts, temp, hint: r.chance(1, 2) };
                sc.ops = vec![ty("Sample"), o("u8"), o("rest")];
                out(sc);
            });
        }
    }
    // typed values and attributes straight from the source
    for _ in 0..g.times(500) {
        g.group(out, |r, out| {
            let en = *r.pick(&PLAIN);
            let mut c = cfg(r);
            c.ru &= 0xF;
            c.ri &= 0xF;
            let (mut b, op) = match r.below(3) {
                0 => {
                    let size = *r.pick(&[64u32, 80, 96, 104, 112, 136, 140]);
                    (attr_bytes(r, size, en.big(), size as usize, false), ty("Attr"))
                }
                _ => {
                    let t = *r.pick(&[2u32, 4, 5, 8, 9, 9, 11, 12, 13, 15, 16, 18, 20, 21]);
                    let mut w = W::new(en.big());
                    body(r, t, 0, &c, SMALL, &mut w);
                    (w.out, ty(name_of(t).unwrap()))
                }
            };
            let k = r.range(0, 9);
            let d = r.bytes(k);
            b.extend(d);
            let mut sc = Scenario::new(b, en, c);
            sc.src = tracked_src(r, sc.b.len());
            sc.ops = vec![op, o("u8"), o("rest")];
            out(sc);
        });
    }
}
