//! A small JSON value, with printing and reading.

use std::{collections::BTreeMap, fmt};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn s(s: &str) -> J {
        J::Str(s.into())
    }
    pub fn obj(kv: &[(&str, J)]) -> J {
        J::Obj(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::Obj(o) = self { o.get(k) } else { None }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let c: Vec<char> = t.chars().collect();
        let mut i = 0;
        let v = value(&c, &mut i)?;
        blank(&c, &mut i);
        if i == c.len() { Ok(v) } else { Err(format!("text after the value at {i}")) }
    }
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::Bool(b) => write!(f, "{b}"),
            J::Num(n) => write!(f, "{n}"),
            J::Str(s) => f.write_str(&crate::engine::json_str(s)),
            J::Arr(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    write!(f, "{}{x}", if i > 0 { "," } else { "" })?;
                }
                f.write_str("]")
            }
            J::Obj(o) => {
                f.write_str("{")?;
                for (i, (k, x)) in o.iter().enumerate() {
                    write!(f, "{}{}:{x}", if i > 0 { "," } else { "" }, crate::engine::json_str(k))?;
                }
                f.write_str("}")
            }
        }
    }
}

fn blank(c: &[char], i: &mut usize) {
    while *i < c.len() && " \t\r\n".contains(c[*i]) {
        *i += 1;
    }
}

fn value(c: &[char], i: &mut usize) -> Result<J, String> {
    blank(c, i);
    let word = |w: &str, i: &mut usize| -> bool {
        let hit = c[*i..].iter().take(w.len()).collect::<String>() == w;
        if hit {
            *i += w.len();
        }
        hit
    };
    match c.get(*i) {
        Some('{') => {
            *i += 1;
            let mut o = BTreeMap::new();
            blank(c, i);
            if c.get(*i) == Some(&'}') {
                *i += 1;
                return Ok(J::Obj(o));
            }
            loop {
                blank(c, i);
                let k = string(c, i)?;
                blank(c, i);
                if c.get(*i) != Some(&':') {
                    return Err(format!("no colon at {i}"));
                }
                *i += 1;
                let v = value(c, i)?;
                if o.insert(k.clone(), v).is_some() {
                    return Err(format!("key {k:?} twice"));
                }
                blank(c, i);
                *i += 1;
                match c.get(*i - 1) {
                    Some(',') => {}
                    Some('}') => return Ok(J::Obj(o)),
                    _ => return Err(format!("no comma or brace at {i}")),
                }
            }
        }
        Some('[') => {
            *i += 1;
            let mut v = vec![];
            blank(c, i);
            if c.get(*i) == Some(&']') {
                *i += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(value(c, i)?);
                blank(c, i);
                *i += 1;
                match c.get(*i - 1) {
                    Some(',') => {}
                    Some(']') => return Ok(J::Arr(v)),
                    _ => return Err(format!("no comma or bracket at {i}")),
                }
            }
        }
        Some('"') => Ok(J::Str(string(c, i)?)),
        Some(x) if x.is_ascii_digit() || *x == '-' => {
            let a = *i;
            while *i < c.len() && "+-.eE0123456789".contains(c[*i]) {
                *i += 1;
            }
            let t: String = c[a..*i].iter().collect();
            t.parse().map(J::Num).map_err(|_| format!("bad number {t}"))
        }
        _ if word("null", i) => Ok(J::Null),
        _ if word("true", i) => Ok(J::Bool(true)),
        _ if word("false", i) => Ok(J::Bool(false)),
        x => Err(format!("unexpected {x:?} at {i}")),
    }
}

fn string(c: &[char], i: &mut usize) -> Result<String, String> {
    if c.get(*i) != Some(&'"') {
        return Err(format!("no string at {i}"));
    }
    *i += 1;
    let mut s = String::new();
    let hex = |i: &mut usize| -> Result<u32, String> {
        let t: String = c[*i..].iter().take(4).collect();
        *i += 4;
        u32::from_str_radix(&t, 16).map_err(|_| format!("bad escape {t:?}"))
    };
    loop {
        let x = *c.get(*i).ok_or("unterminated string")?;
        *i += 1;
        match x {
            '"' => return Ok(s),
            '\\' => {
                let e = *c.get(*i).ok_or("unterminated string")?;
                *i += 1;
                s.push(match e {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    '"' | '\\' | '/' => e,
                    'u' => {
                        let mut u = hex(i)?;
                        if (0xD800..0xDC00).contains(&u) {
                            *i += 2;
                            u = 0x10000 + ((u - 0xD800) << 10) + (hex(i)?.wrapping_sub(0xDC00) & 0x3ff);
                        }
                        char::from_u32(u).unwrap_or('\u{fffd}')
                    }
                    _ => return Err(format!("bad escape {e:?}")),
                })
            }
            x if (x as u32) < 32 => return Err("control character in a string".into()),
            x => s.push(x),
        }
    }
}
