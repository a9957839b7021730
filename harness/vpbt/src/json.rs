//! Just enough JSON: values, printing, parsing.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::Int(s as i128)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::Int(s as i128)
    }
}

pub fn obj(items: Vec<(&str, J)>) -> J {
    J::Obj(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            J::Int(s) => Some(*s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(s) => Some(s),
            _ => None,
        }
    }
    pub fn print(&self) -> String {
        let mut s = String::new();
        self.fmt(&mut s, 0, true);
        s
    }
    fn fmt(&self, s: &mut String, ind: usize, pretty: bool) {
        match self {
            J::Null => s.push_str("null"),
            J::Bool(b) => write!(s, "{}", b).unwrap(),
            J::Int(i) => write!(s, "{}", i).unwrap(),
            J::Num(f) => write!(s, "{:.3}", f).unwrap(),
            J::Str(t) => quote(s, t),
            J::Arr(a) => {
                let flat = a.iter().all(|x| matches!(x, J::Int(_) | J::Num(_)));
                s.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    if pretty && !flat {
                        nl(s, ind + 1);
                    }
                    x.fmt(s, ind + 1, pretty);
                }
                if pretty && !flat && !a.is_empty() {
                    nl(s, ind);
                }
                s.push(']');
            }
            J::Obj(o) => {
                s.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    nl(s, ind + 1);
                    quote(s, k);
                    s.push_str(": ");
                    v.fmt(s, ind + 1, pretty);
                }
                if !o.is_empty() {
                    nl(s, ind);
                }
                s.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        Ok(v)
    }
}

fn nl(s: &mut String, ind: usize) {
    s.push('\n');
    for _ in 0..ind {
        s.push(' ');
    }
}

fn quote(s: &mut String, t: &str) {
    s.push('"');
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(s, "\\u{:04x}", c as u32).unwrap(),
            c => s.push(c),
        }
    }
    s.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    let c = *b.get(*p).ok_or("end of JSON")?;
    match c {
        b'{' => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b'}') {
                    *p += 1;
                    return Ok(J::Obj(o));
                }
                if !o.is_empty() {
                    if b.get(*p) != Some(&b',') {
                        return Err("expected ,".into());
                    }
                    *p += 1;
                    ws(b, p);
                }
                let k = match val(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("expected a key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("expected :".into());
                }
                *p += 1;
                let v = val(b, p)?;
                o.push((k, v));
            }
        }
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b']') {
                    *p += 1;
                    return Ok(J::Arr(a));
                }
                if !a.is_empty() {
                    if b.get(*p) != Some(&b',') {
                        return Err("expected ,".into());
                    }
                    *p += 1;
                }
                a.push(val(b, p)?);
            }
        }
        b'"' => {
            *p += 1;
            let mut out: Vec<u8> = Vec::new();
            loop {
                let c = *b.get(*p).ok_or("open string")?;
                *p += 1;
                match c {
                    b'"' => return String::from_utf8(out).map(J::Str).map_err(|e| e.to_string()),
                    b'\\' => {
                        let e = *b.get(*p).ok_or("open string")?;
                        *p += 1;
                        match e {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'b' => out.push(8),
                            b'f' => out.push(12),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4).ok_or("bad \\u")?)
                                    .map_err(|e| e.to_string())?;
                                let v = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *p += 4;
                                let c = char::from_u32(v).unwrap_or('?');
                                let mut t = [0; 4];
                                out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            }
                            e => out.push(e),
                        }
                    }
                    c => out.push(c),
                }
            }
        }
        b't' | b'f' | b'n' => {
            for (w, j) in [("true", J::Bool(true)), ("false", J::Bool(false)), ("null", J::Null)] {
                if b[*p..].starts_with(w.as_bytes()) {
                    *p += w.len();
                    return Ok(j);
                }
            }
            Err("bad word".into())
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).unwrap();
            if let Ok(i) = t.parse::<i128>() {
                Ok(J::Int(i))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|e| format!("{}: {:?}", e, t))
            }
        }
    }
}
