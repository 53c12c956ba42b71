//! A minimal JSON value, parser and writer (no third-party crates are needed).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

pub fn s(v: impl Into<String>) -> J {
    J::Str(v.into())
}
pub fn i(v: impl TryInto<i128>) -> J {
    J::Int(v.try_into().ok().unwrap())
}
pub fn arr(v: Vec<J>) -> J {
    J::Arr(v)
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            J::Int(v) => Some(*v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(v) => Some(v),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0, 2);
        o
    }
    fn write(&self, o: &mut String, ind: usize, depth: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(v) => {
                let _ = write!(o, "{v}");
            }
            J::Num(v) => {
                let _ = write!(o, "{v:.4}");
            }
            J::Str(v) => {
                o.push('"');
                for c in v.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                let multi = depth > 0 && v.iter().any(|x| matches!(x, J::Arr(_) | J::Obj(_)));
                o.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        o.push_str(if multi { "," } else { ", " });
                    }
                    if multi {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(o, ind + 1, depth.saturating_sub(1));
                }
                if multi {
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                }
                o.push(']');
            }
            J::Obj(m) => {
                let multi = depth > 0;
                o.push('{');
                for (n, (k, x)) in m.iter().enumerate() {
                    if n > 0 {
                        o.push_str(if multi { "," } else { ", " });
                    }
                    if multi {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    J::Str(k.clone()).write(o, 0, 0);
                    o.push_str(": ");
                    x.write(o, ind + 1, depth.saturating_sub(1));
                }
                if multi {
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                }
                o.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing data at {p}"));
        }
        Ok(v)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        None => Err("unexpected end".into()),
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b'}') {
                    *p += 1;
                    return Ok(J::Obj(m));
                }
                let k = match val(b, p)? {
                    J::Str(k) => k,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("colon".into());
                }
                *p += 1;
                m.insert(k, val(b, p)?);
                ws(b, p);
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                }
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b']') {
                    *p += 1;
                    return Ok(J::Arr(v));
                }
                v.push(val(b, p)?);
                ws(b, p);
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                }
            }
        }
        Some(b'"') => {
            *p += 1;
            let mut o: Vec<u8> = Vec::new();
            loop {
                let c = *b.get(*p).ok_or("string")?;
                *p += 1;
                match c {
                    b'"' => return Ok(J::Str(String::from_utf8_lossy(&o).into_owned())),
                    b'\\' => {
                        let e = *b.get(*p).ok_or("escape")?;
                        *p += 1;
                        match e {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*p..*p + 4]).map_err(|e| e.to_string())?;
                                *p += 4;
                                let c = char::from_u32(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                                    .unwrap_or('?');
                                let mut t = [0; 4];
                                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            }
                            e => o.push(e),
                        }
                    }
                    c => o.push(c),
                }
            }
        }
        Some(b't') => {
            *p += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') => {
            *p += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') => {
            *p += 4;
            Ok(J::Null)
        }
        Some(_) => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).map_err(|e| e.to_string())?;
            if let Ok(v) = t.parse::<i128>() {
                Ok(J::Int(v))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|e| format!("{t:?}: {e}"))
            }
        }
    }
}
