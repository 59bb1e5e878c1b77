use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
static NULL: J = J::Null;
impl J {
    pub fn s(s: impl AsRef<str>) -> J {
        J::Str(s.as_ref().to_string())
    }
    pub fn i(i: impl TryInto<i64>) -> J {
        J::Int(i.try_into().ok().unwrap())
    }
    pub fn b(b: bool) -> J {
        J::Bool(b)
    }
    pub fn arr(it: impl IntoIterator<Item = J>) -> J {
        J::Arr(it.into_iter().collect())
    }
    pub fn ints<T: TryInto<i64>>(it: impl IntoIterator<Item = T>) -> J {
        J::Arr(it.into_iter().map(|x| J::i(x)).collect())
    }
    pub fn obj<'a>(it: impl IntoIterator<Item = (&'a str, J)>) -> J {
        J::Obj(it.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => *b as i64,
            J::Null => 0,
            x => panic!("not an int: {x:?}"),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn boolean(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            J::Int(i) => *i != 0,
            J::Null => false,
            x => panic!("not a bool: {x:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            J::Null => "",
            x => panic!("not a string: {x:?}"),
        }
    }
    pub fn list(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            J::Null => &[],
            x => panic!("not a list: {x:?}"),
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = val(b, &mut i)?;
        ws(b, &mut i);
        if i != b.len() {
            return Err(format!("trailing at {i}"));
        }
        Ok(v)
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => wstr(s, o),
            J::Arr(v) => {
                o.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        self.write(&mut s);
        f.write_str(&s)
    }
}
fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c if (c as u32) > 126 => c.encode_utf16(&mut [0; 2]).iter().for_each(|u| write!(o, "\\u{u:04x}").unwrap()),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    let e = |i: usize| Err(format!("bad json at {i}"));
    match b.get(*i) {
        Some(b'{') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b'}') {
                *i += 1;
                return Ok(J::Obj(v));
            }
            loop {
                ws(b, i);
                let k = match val(b, i)? {
                    J::Str(s) => s,
                    _ => return e(*i),
                };
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return e(*i);
                }
                *i += 1;
                v.push((k, val(b, i)?));
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(v));
                    }
                    _ => return e(*i),
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(val(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return e(*i),
                }
            }
        }
        Some(b'"') => {
            *i += 1;
            let mut s = String::new();
            loop {
                match b.get(*i) {
                    Some(b'"') => {
                        *i += 1;
                        return Ok(J::Str(s));
                    }
                    Some(b'\\') => {
                        *i += 1;
                        match b.get(*i) {
                            Some(b'n') => s.push('\n'),
                            Some(b'r') => s.push('\r'),
                            Some(b't') => s.push('\t'),
                            Some(b'b') => s.push('\u{8}'),
                            Some(b'f') => s.push('\u{c}'),
                            Some(b'u') => {
                                let hex = |at: usize| b.get(at..at + 4).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u16::from_str_radix(h, 16).ok());
                                let Some(hi) = hex(*i + 1) else { return e(*i) };
                                *i += 4;
                                let mut units = vec![hi];
                                if (0xd800..0xdc00).contains(&hi) && b.get(*i + 1) == Some(&b'\\') && b.get(*i + 2) == Some(&b'u') {
                                    let Some(lo) = hex(*i + 3) else { return e(*i) };
                                    units.push(lo);
                                    *i += 6;
                                }
                                s.push_str(&String::from_utf16_lossy(&units));
                            }
                            Some(&c) => s.push(c as char),
                            None => return e(*i),
                        }
                        *i += 1;
                    }
                    Some(&c) => {
                        s.push(c as char);
                        *i += 1;
                    }
                    None => return e(*i),
                }
            }
        }
        Some(b't') if b[*i..].starts_with(b"true") => {
            *i += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') if b[*i..].starts_with(b"false") => {
            *i += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') if b[*i..].starts_with(b"null") => {
            *i += 4;
            Ok(J::Null)
        }
        Some(c) if c.is_ascii_digit() || *c == b'-' => {
            let st = *i;
            *i += 1;
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i]).unwrap().parse().map(J::Int).map_err(|x| x.to_string())
        }
        _ => e(*i),
    }
}
