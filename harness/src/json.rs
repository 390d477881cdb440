//! A minimal JSON value: enough for traces and scenarios.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(i64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn obj(fields: Vec<(&str, J)>) -> J {
        J::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn none() -> J {
        J::A(vec![])
    }
    pub fn some(x: J) -> J {
        J::A(vec![x])
    }
    pub fn opt(x: Option<J>) -> J {
        J::A(x.into_iter().collect())
    }
    pub fn bytes(x: &[u8]) -> J {
        J::A(x.iter().map(|&b| J::N(b as i64)).collect())
    }
    pub fn push(&mut self, k: &str, v: J) {
        if let J::O(f) = self {
            f.push((k.to_string(), v));
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(f) => f.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("not a number: {self:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => panic!("not a bool: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.num() as u8).collect()
    }
    /// little-endian word
    pub fn word(&self) -> u64 {
        self.to_bytes().iter().rev().fold(0, |a, &b| (a << 8) | b as u64)
    }

    pub fn write(&self, out: &mut String) {
        match self {
            J::N(n) => write!(out, "{n}").unwrap(),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::S(s) => quote(s, out),
            J::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(f) => {
                out.push('{');
                for (i, (k, v)) in f.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    quote(k, out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let v = value(b, &mut i);
        v
    }
}

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    write!(out, "\\u{:04x}", u).unwrap();
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut f = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b'}' => {
                        *i += 1;
                        return J::O(f);
                    }
                    b',' => *i += 1,
                    _ => {
                        let k = match value(b, i) {
                            J::S(s) => s,
                            x => panic!("key {x:?}"),
                        };
                        ws(b, i);
                        assert_eq!(b[*i], b':');
                        *i += 1;
                        f.push((k, value(b, i)));
                    }
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return J::A(a);
                    }
                    b',' => *i += 1,
                    _ => a.push(value(b, i)),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut s = Vec::new();
            loop {
                match b[*i] {
                    b'"' => {
                        *i += 1;
                        return J::S(String::from_utf8(s).unwrap());
                    }
                    b'\\' => {
                        *i += 1;
                        match b[*i] {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                                let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                                s.extend(c.to_string().as_bytes());
                                *i += 4;
                            }
                            c => s.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        s.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}
