//! Records whose variable part is large: lengths and counts around the powers
//! of two, up to the largest record there can be.
use crate::emit::*;
use crate::exec::{Cfg, En, Scenario, Src};
use crate::gen::*;
use crate::json::J;
use crate::rng::Rng;
use crate::source::Fault;

fn size(r: &mut Rng, max: usize) -> usize {
    let huge = r.chance(1, 12);
    let n = if huge {
        *r.pick(&[8191usize, 8192, 16384, 32759, 32760, 32767, 32768, 40000, 65000, 65535])
    } else {
        let p = 1usize << r.range(4, 12);
        match r.below(5) {
            0 => p - 1,
            1 => p,
            2 => p + 1,
            _ => r.range(p / 2, p),
        }
    };
    n.min(max)
}

/// A long name: letters, perhaps NULs within, and a tail of NULs.
fn long_name(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match r.below(5) {
        0 => r.bytes(n),
        3 | 4 => {
            // characters of several bytes, at every offset from a round number
            let mut v = vec![b'z'; r.range(0, 3)];
            let c = r.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{300}", "\u{fffd}"]).as_bytes();
            while v.len() < n {
                v.extend(c);
            }
            v.truncate(n);
            v
        }
        _ => (0..n).map(|i| b'a' + (i % 26) as u8).collect(),
    };
    if r.chance(1, 3) && n > 2 {
        let k = r.range(1, n - 1);
        v[k] = 0;
    }
    let tail = match r.below(4) {
        0 => 0,
        1 => r.range(1, 9),
        2 => n,
        _ => n / 2,
    };
    let from = n - tail.min(n);
    v[from..].fill(0);
    v
}

const FIELDS: [u32; 6] = [4, 5, 10, 11, 13, 20];
pub const TYPES: [u32; 10] = [1, 3, 9, 9, 9, 10, 16, 17, 19, 20];

/// All there can be after a header: a record of this capacity is as full as it
/// gets, or up to three elements less.
const FULL: usize = 65527;
fn bare_for(r: &mut Rng, t: u32) -> Cfg {
    let mut c = Cfg::default();
    if t == SAMPLE {
        c.sty = 1 << *r.pick(&FIELDS);
        c.rf = if c.sty == 16 { r.next() & 0x17 | R_GROUP } else { 0 };
        c.bst = if r.chance(1, 3) { HWI } else { 0 };
    } else if r.chance(1, 2) {
        c.fl = SIA;
    }
    c
}

/// The configuration goes with the record: a large field alone among small ones.
pub fn cfg_for(r: &mut Rng, t: u32) -> Cfg {
    let mut c = cfg(r);
    c.ru &= 0x8000_0003;
    c.ri &= 0x8000_0003;
    if t == SAMPLE {
        let f = *r.pick(&FIELDS);
        c.sty &= !FIELDS.iter().map(|f| 1u64 << f).sum::<u64>();
        if r.chance(1, 2) {
            c.sty &= 0x10002;
        }
        c.sty |= 1 << f;
        if f == 4 {
            c.rf |= R_GROUP;
        }
    }
    c
}

pub fn record_of(r: &mut Rng, t: u32, m: u16, c: &Cfg, big: bool, cap: usize) -> Rec {
    let mut w = W::new(big);
    // room for everything else
    let room = if cap == FULL {
        cap - match (t, c.sty) {
            (1, _) => 32,
            (9, 0x400) => 11,
            (9, 0x2000) => 16,
            (9, 0x10) => 8 + 8 * (c.rf & 1) as usize + 4 * (c.rf & 2) as usize,
            (9, 0x800) => 8 + (c.bst >> 14 & 8) as usize,
            (10, _) => 64,
            (16 | 17, _) => 16,
            (20, _) => 19,
            _ => 8,
        }
    } else {
        cap - 600
    };
    let size = |r: &mut Rng, max: usize| if cap == FULL { max - r.range(0, 3).min(max) } else { size(r, max) };
    macro_rules! u32s { ($n:expr) => { for _ in 0..$n { w.u32(r.word() as u32) } } }
    macro_rules! u64s { ($n:expr) => { for _ in 0..$n { w.u64(r.word()) } } }
    match t {
        1 => { u32s!(2); u64s!(3); let n = { let n = size(r, room); long_name(r, n) }; w.bytes(&n) }
        3 => { u32s!(2); let n = { let n = size(r, room); long_name(r, n) }; w.bytes(&n) }
        9 => {
            // one empty record of the configuration, with the large field put in
            let f = *FIELDS.iter().find(|f| c.sty & (1 << **f) != 0).unwrap();
            let below = Cfg { sty: c.sty & before(f), ..*c };
            let above = Cfg { sty: c.sty & !before(f) & !(1 << f), ..*c };
            sample(r, &below, SMALL, &mut w);
            match f {
                4 => {
                    let each = 8 * (1 + (c.rf >> 2 & 1) + (c.rf >> 4 & 1)) as usize;
                    let n = size(r, room / each);
                    read_group(r, c.rf, n, &mut w)
                }
                5 => {
                    let n = size(r, room / 8);
                    w.u64(n as u64);
                    u64s!(n);
                }
                10 => {
                    let n = size(r, room);
                    let start = w.len();
                    w.u32(n as u32);
                    let d = r.bytes(n);
                    w.bytes(&d);
                    while (w.len() - start) % 8 != 0 { w.u8(r.next() as u8) }
                }
                11 => {
                    let n = size(r, room / 24);
                    w.u64(n as u64);
                    if c.bst & HWI != 0 { w.u64(r.word()) }
                    u64s!(3 * n);
                }
                13 => {
                    let n = size(r, room);
                    w.u64(n as u64);
                    let d = r.bytes(n);
                    w.bytes(&d);
                    let k = if r.chance(1, 3) { n } else { r.range(0, n) };
                    w.u64(k as u64)
                }
                _ => {
                    let n = size(r, room);
                    w.u64(n as u64);
                    let d = r.bytes(n);
                    w.bytes(&d);
                }
            }
            sample(r, &above, SMALL, &mut w);
        }
        10 => {
            u32s!(2);
            u64s!(3);
            if m & 0x4000 != 0 {
                w.u8(20);
                w.u8(0);
                w.u16(0);
                let d = r.bytes(20);
                w.bytes(&d);
            } else {
                u32s!(2);
                u64s!(2);
            }
            u32s!(2);
            let n = { let n = size(r, room); long_name(r, n) };
            w.bytes(&n)
        }
        16 => {
            u32s!(2);
            let n = size(r, room / 16);
            w.u64(n as u64);
            u64s!(2 * n);
        }
        17 => { u64s!(1); u32s!(1); w.u16(r.next() as u16); w.u16(r.next() as u16); let n = { let n = size(r, room); long_name(r, n) }; w.bytes(&n) }
        19 => { u64s!(1); let n = { let n = size(r, room); long_name(r, n) }; w.bytes(&n) }
        20 => {
            u64s!(1);
            let a = size(r, room);
            let b = if r.chance(1, 2) { size(r, room - a) } else { r.range(0, 9.min(room - a)) };
            let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
            poke(r, a, b, &mut w)
        }
        _ => { let n = size(r, room); let d = r.bytes(n); w.bytes(&d) }
    }
    let body_len = w.len();
    if t != MMAP && t != SAMPLE {
        sample_id(r, c, &mut w);
    }
    Rec { ty: t, misc: m, data: w.out, body_len }
}

/// sample_type bits whose fields come before field f in a sample
fn before(f: u32) -> u64 {
    const ORDER: [u32; 25] = [16, 0, 1, 2, 3, 6, 9, 7, 8, 4, 5, 10, 11, 12, 13, 14, 24, 15, 17, 18, 19, 21, 22, 23, 20];
    ORDER.iter().take_while(|b| **b != f).map(|b| 1u64 << b).sum()
}

/// Few pieces, so that a large input stays affordable.
pub fn pieces(r: &mut Rng, len: usize) -> Src {
    match r.below(5) {
        0 => Src::Slice,
        1 => Src::Buf { cap: *r.pick(&[16usize, 100, 1024, 4096, 8192]), reads: if r.chance(1, 2) { vec![] } else { vec![r.range(1, 2000)] } },
        _ => {
            let k = r.range(0, 5);
            let mut cuts: Vec<usize> = (0..k).map(|_| r.range(0, len)).collect();
            if r.chance(1, 5) {
                let step = (len / 40).max(1);
                cuts = (1..len).filter(|x| x % step == 0).collect();
            }
            if r.chance(1, 8) && len < 9100 {
                let step = r.range(1, 3);
                cuts = (1..len).filter(|x| x % step == 0).collect();
            }
            let cuts = cuts_from(cuts, len);
            let mode = r.below(3);
            let temp = cuts.iter().map(|_| match mode { 0 => false, 1 => true, _ => r.chance(1, 2) }).collect();
            Src::Chunks { cuts, temp, hint: r.chance(1, 2) }
        }
    }
}
fn tracked(r: &mut Rng, len: usize) -> Src {
    loop {
        let s = pieces(r, len);
        if matches!(s, Src::Chunks { .. }) {
            return s;
        }
    }
}

fn ops_for(r: &mut Rng, rc: &Rec) -> Vec<J> {
    let inner = match name_of(rc.ty) { Some(n) if n != "Switch" => ty(n), _ => o("rest") };
    match r.below(5) {
        0 => vec![o("meta"), inner, o("pop")],
        1 => vec![o("hdr"), rech(rc)],
        2 => vec![vis("all")],
        _ => vec![o("rec")],
    }
}

pub fn add(prop: &str, g: &mut Gen, out: Out) {
    let times = match prop {
        "C01" | "C03" | "C04" | "C05" | "C07" | "C10" | "C14" | "C15" | "C17" | "C19" | "C21" => 24,
        "C06" => 16,
        "C08" | "C09" => 40,
        "C20" => 12,
        _ => return,
    };
    // a few that fill the largest record
    let full = if prop == "C04" { 18 } else { times / 6 };
    for k in 0..g.times(times + full) {
        let full = k >= g.times(times);
        g.group(out, |r, out| {
            let mut t = *r.pick(&TYPES);
            match prop {
                "C03" | "C05" if t == SAMPLE => t = *r.pick(&[16, 20, 3]),
                "C04" => t = SAMPLE,
                _ if r.chance(1, 12) && prop != "C04" => t = 4000,
                _ => (),
            }
            let full = full && !matches!(prop, "C20" | "C06" | "C07") && t != 4000;
            let mut c = if full { bare_for(r, t) } else { cfg_for(r, t) };
            if prop == "C05" {
                c.fl |= SIA;
            }
            let m = misc(r);
            let en = *r.pick(&[En::Little, En::Big, En::Native]);
            let cap = match prop { _ if full => FULL, "C20" => 2000, "C06" | "C07" => 9000, _ => 65535 };
            let seed = r.clone();
            let mk = |big: bool| {
                let mut r = seed.clone();
                record_of(&mut r, t, m, &c, big, cap)
            };
            let rc = mk(en.big());
            r.next();
            let nx = record(r, 2, 0, &c, SMALL, en.big());
            let mut b = rc.bytes(en.big());
            b.extend(nx.bytes(en.big()));
            let len = b.len();
            let mut sc = Scenario::new(b, en, c);
            sc.ops = ops_for(r, &rc);
            sc.ops.push(o("rec"));
            sc.src = pieces(r, len);
            sc.al = r.range(0, 7);
            sc.note = "large".into();
            match prop {
                "C06" => {
                    let mut ds = vec![];
                    for _ in 0..5 {
                        ds.push((pieces(r, len), r.range(0, 7)));
                    }
                    compare(sc, ds, out);
                    return;
                }
                "C07" => {
                    let mut first = true;
                    let ops: Vec<J> = vec![o("rec")];
                    for e in [En::Little, En::Big, En::DynB, En::DynL] {
                        let b = mk(e.big()).bytes(e.big());
                        let mut x = Scenario::new(b, e, c);
                        x.rf = if first { "set" } else { "cmp" };
                        x.ops = ops.clone();
                        x.src = if first { lent(x.b.len()) } else { pieces(r, x.b.len()) };
                        x.note = "large".into();
                        first = false;
                        out(x);
                    }
                    return;
                }
                "C10" => {
                    // cut a little or a lot
                    let n = rc.data.len();
                    let cut = if r.chance(1, 2) { n - r.range(1, 9.min(n)) } else { r.range(0, n) };
                    let mut w = W::new(en.big());
                    header(&mut w, rc.ty, rc.misc, (cut + 8) as u16);
                    w.bytes(&rc.data);
                    w.bytes(&r.bytes(64));
                    sc.b = w.out;
                    sc.src = pieces(r, sc.b.len());
                    sc.ops = vec![o("rec")];
                }
                "C14" => {
                    sc.src = tracked(r, len);
                    sc.fault = Some(Fault { off: r.range(0, rc.size()), kind: *r.pick(&[0u8, 1, 2, 3, 4, 5]), msg: "gone".into(), once: false });
                }
                "C15" => sc.want = "lk".into(),
                "C19" => sc.want = "c".into(),
                "C20" => sc.want = "d".into(),
                "C08" => {
                    sc.want = "dc".into();
                    if k % 2 == 0 {
                        smash(r, &mut sc.b);
                    }
                }
                "C01" | "C17" | "C21" => {
                    if r.chance(2, 3) {
                        sc.src = tracked(r, len);
                    }
                }
                _ => (),
            }
            out(sc);
        });
    }
}
