//! Reads `{:?}` text back into a tree, so that the specification can compare
//! fields without depending on their order or on spacing.
use crate::json::J;

pub fn tree(s: &str) -> J {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    match value(&c, &mut i) {
        Some(t) if { ws(&c, &mut i); i == c.len() } => t,
        _ => J::obj(vec![("k", J::s("bad")), ("s", codes(s))]),
    }
}

pub fn codes(s: &str) -> J {
    J::bytes(s.as_bytes())
}

fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i].is_whitespace() {
        *i += 1;
    }
}

/// Plain text, split at " | " (sets of flags): every word with its bytes and,
/// if it is a number, its value and base.
fn leaf(s: String) -> J {
    let word = |w: &str| {
        let dec = w.parse::<u64>().ok();
        let hex = w.strip_prefix("0x").and_then(|h| u64::from_str_radix(h, 16).ok());
        J::obj(vec![
            ("s", J::s(w)),
            ("c", codes(w)),
            ("n", J::opt(dec.or(hex).map(|n| J::bytes(&n.to_le_bytes())))),
            ("b", J::s(if hex.is_some() { "x" } else { "d" })),
        ])
    };
    J::obj(vec![("k", J::s("leaf")), ("w", J::A(s.split(" | ").map(word).collect()))])
}
/// The inside of a quoted string.
fn text(s: String) -> J {
    J::obj(vec![("k", J::s("str")), ("s", codes(&s))])
}

fn list(c: &[char], i: &mut usize, close: char) -> Option<Vec<J>> {
    let mut out = vec![];
    loop {
        ws(c, i);
        match *c.get(*i)? {
            x if x == close => {
                *i += 1;
                return Some(out);
            }
            ',' => *i += 1,
            _ => out.push(value(c, i)?),
        }
    }
}

fn value(c: &[char], i: &mut usize) -> Option<J> {
    ws(c, i);
    match *c.get(*i)? {
        '[' => {
            *i += 1;
            let f = list(c, i, ']')?;
            Some(J::obj(vec![("k", J::s("list")), ("f", J::A(f))]))
        }
        '"' => {
            let mut s = String::new();
            *i += 1;
            loop {
                let x = *c.get(*i)?;
                *i += 1;
                if x == '"' {
                    return Some(text(s));
                }
                s.push(x);
                if x == '\\' {
                    s.push(*c.get(*i)?);
                    *i += 1;
                }
            }
        }
        _ => {
            let mut s = String::new();
            while *i < c.len() && !matches!(c[*i], '{' | '(' | '[' | ',' | '}' | ']' | ')') {
                s.push(c[*i]);
                *i += 1;
            }
            let s = s.trim().to_string();
            match c.get(*i) {
                Some('{') => {
                    *i += 1;
                    let mut f = vec![];
                    loop {
                        ws(c, i);
                        match *c.get(*i)? {
                            '}' => {
                                *i += 1;
                                break;
                            }
                            ',' => *i += 1,
                            '.' => *i += 1,
                            _ => {
                                let mut k = String::new();
                                while *c.get(*i)? != ':' {
                                    k.push(c[*i]);
                                    *i += 1;
                                }
                                *i += 1;
                                f.push(J::A(vec![J::S(k), value(c, i)?]));
                            }
                        }
                    }
                    Some(J::obj(vec![("k", J::s("struct")), ("n", J::S(s)), ("f", J::A(f))]))
                }
                Some('(') => {
                    *i += 1;
                    let f = list(c, i, ')')?;
                    Some(J::obj(vec![("k", J::s("tuple")), ("n", J::S(s)), ("f", J::A(f))]))
                }
                _ => Some(leaf(s)),
            }
        }
    }
}
