//! splitmix64, and the values worth trying
use std::sync::OnceLock;

/// Numbers and strings from the code under test (bin/literals.py); the new
/// ones, if there are any, are drawn most often.
#[derive(Default)]
struct Literals {
    new: Vec<u64>,
    old: Vec<u64>,
    new_texts: Vec<Vec<u8>>,
    old_texts: Vec<Vec<u8>>,
}
static LITERALS: OnceLock<Literals> = OnceLock::new();
fn literals() -> &'static Literals {
    LITERALS.get_or_init(|| {
        let mut l = Literals::default();
        let file = std::env::var("LITERALS").unwrap_or_default();
        for line in std::fs::read_to_string(file).unwrap_or_default().lines() {
            let (new, lit) = (line.starts_with("new"), &line[4..]);
            if let Some(n) = lit.strip_prefix('n').and_then(|n| n.parse().ok()) {
                if new { l.new.push(n) } else { l.old.push(n) }
            } else {
                let b = (1..lit.len() - 1).step_by(2).filter_map(|i| u8::from_str_radix(&lit[i..i + 2], 16).ok()).collect();
                if new { l.new_texts.push(b) } else { l.old_texts.push(b) }
            }
        }
        l
    })
}

#[derive(Clone)]
pub struct Rng(pub u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, 0);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Bytes: mostly random ones, sometimes ending in a run of one value or all the same.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..n).map(|_| self.next() as u8).collect();
        if n > 0 && self.chance(1, 3) {
            let from = if self.chance(1, 3) { 0 } else { self.below(n as u64) as usize };
            let b = *self.pick(&[0, 0, 0, 0xFF, 0x20, 0x80, b'\n', 1]);
            let to = if self.chance(3, 4) { n } else { self.range(from, n) };
            v[from..to].fill(b);
        }
        // two of them have something to do with each other
        if n > 1 && self.chance(1, 5) {
            let i = *self.pick(&[0, n - 1, n / 2]);
            let j = if i == 0 { *self.pick(&[n - 1, 1, n / 2]) } else { 0 };
            let how = self.below(8);
            v[j] = match how {
                0 => v[i],
                1 => !v[i],
                2 => v[i].wrapping_neg(),
                3 => v[i].wrapping_add(1),
                4 => v[i] ^ 1,
                _ => v[i].rotate_left(4),
            };
        }
        v
    }
    /// Is there something new to try?
    pub fn novel(&self) -> bool {
        !literals().new.is_empty()
    }
    /// A number from the code under test, or one beside it.
    pub fn literal(&mut self) -> u64 {
        let l = literals();
        let from = if !l.new.is_empty() && self.chance(4, 5) { &l.new } else { &l.old };
        if from.is_empty() {
            return self.below(300);
        }
        let v = *self.pick(from);
        match self.below(4) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        }
    }
    /// A number just as it stands in the code under test.
    pub fn exact(&mut self) -> u64 {
        let l = literals();
        let from = if !l.new.is_empty() && self.chance(2, 3) { &l.new } else { &l.old };
        if from.is_empty() {
            return self.below(300);
        }
        *self.pick(from)
    }
    /// A size that has something to do with such a number, at most `max`.
    pub fn literal_size(&mut self, max: usize) -> usize {
        let v = self.literal();
        let v = match self.below(5) {
            0 => v / 8,
            1 => v / 24,
            _ => v,
        };
        if v <= max as u64 { v as usize } else { self.range(0, max.min(9)) }
    }
    /// A string from the code under test.
    pub fn text(&mut self) -> Vec<u8> {
        let l = literals();
        let from = if !l.new_texts.is_empty() && self.chance(4, 5) { &l.new_texts } else { &l.old_texts };
        if from.is_empty() { vec![] } else { self.pick(from).clone() }
    }
    /// A word with "interesting" values over-represented, and often related
    /// to the one before: the same, a neighbour, the complement, its halves swapped.
    pub fn word(&mut self) -> u64 {
        let p = self.1;
        let w = match self.below(if self.novel() { 15 } else { 13 }) {
            12.. => {
                let v = self.literal();
                match self.below(6) {
                    0 => v << 32 | self.below(3),
                    1 => self.next() << 32 | v,
                    2 => 1 << (v & 63),
                    _ => v,
                }
            }
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => !(1 << self.below(64)),
            4 | 5 => self.below(300),
            6 => match self.below(8) {
                0 => p.wrapping_add(1),
                1 => p.wrapping_sub(1),
                2 => !p,
                3 => p.rotate_left(32),
                4 => p.swap_bytes(),
                _ => p,
            },
            7 => match self.below(7) {
                0 => (1u64 << self.below(64)).wrapping_add(1),
                1 => (1u64 << self.below(64)).wrapping_sub(1),
                // callchain context markers
                2 => self.pick(&[32u64, 128, 512, 2048, 2176, 2560, 4095]).wrapping_neg(),
                // a page of the kernel, one of a process
                3 => 0xFFFF_8000_0000_0000 | self.below(1 << 40) << 12,
                4 => self.below(1 << 35) << 12,
                // a time of day in ns, a cookie with both halves small
                5 => 1_700_000_000_000_000_000 + self.below(1 << 50),
                _ => self.below(300) << 32 | self.below(300),
            },
            _ => self.next(),
        };
        self.1 = w;
        w
    }
}
