//! Strict JSON reader (RFC 8259; duplicate keys are an error) and a small writer.
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64, String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            J::Num(n, _) => Some(*n),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn keys(&self) -> Vec<&str> {
        match self {
            J::Obj(v) => v.iter().map(|(k, _)| k.as_str()).collect(),
            _ => vec![],
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}

pub fn parse(text: &str) -> Result<J, String> {
    let mut p = P { b: text.as_bytes(), s: text, i: 0 };
    p.ws();
    // Values are parsed with an explicit stack so that deep nesting is no problem.
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing content at byte {}", p.i));
    }
    Ok(v)
}

enum Frame {
    Arr(Vec<J>),
    Obj(Vec<(String, J)>, HashSet<String>, String),
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{} at byte {}", m, self.i))
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn key(&mut self, seen: &mut HashSet<String>) -> Result<String, String> {
        self.ws();
        let k = self.string()?;
        if !seen.insert(k.clone()) {
            return self.err(&format!("duplicate key {:?}", k));
        }
        self.ws();
        if self.b.get(self.i) != Some(&b':') {
            return self.err("expected ':'");
        }
        self.i += 1;
        Ok(k)
    }
    fn value(&mut self) -> Result<J, String> {
        let mut stack: Vec<Frame> = vec![];
        loop {
            self.ws();
            let mut v = match self.b.get(self.i) {
                None => return self.err("unexpected end"),
                Some(b'[') => {
                    self.i += 1;
                    self.ws();
                    if self.b.get(self.i) == Some(&b']') {
                        self.i += 1;
                        J::Arr(vec![])
                    } else {
                        stack.push(Frame::Arr(vec![]));
                        continue;
                    }
                }
                Some(b'{') => {
                    self.i += 1;
                    self.ws();
                    if self.b.get(self.i) == Some(&b'}') {
                        self.i += 1;
                        J::Obj(vec![])
                    } else {
                        let mut seen = HashSet::new();
                        let k = self.key(&mut seen)?;
                        stack.push(Frame::Obj(vec![], seen, k));
                        continue;
                    }
                }
                Some(b'"') => J::Str(self.string()?),
                Some(b't') => self.lit("true", J::Bool(true))?,
                Some(b'f') => self.lit("false", J::Bool(false))?,
                Some(b'n') => self.lit("null", J::Null)?,
                Some(_) => self.number()?,
            };
            loop {
                match stack.pop() {
                    None => return Ok(v),
                    Some(Frame::Arr(mut a)) => {
                        a.push(v);
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => {
                                self.i += 1;
                                stack.push(Frame::Arr(a));
                                break;
                            }
                            Some(b']') => {
                                self.i += 1;
                                v = J::Arr(a);
                            }
                            _ => return self.err("expected ',' or ']'"),
                        }
                    }
                    Some(Frame::Obj(mut o, mut seen, k)) => {
                        o.push((k, v));
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => {
                                self.i += 1;
                                let k = self.key(&mut seen)?;
                                stack.push(Frame::Obj(o, seen, k));
                                break;
                            }
                            Some(b'}') => {
                                self.i += 1;
                                v = J::Obj(o);
                            }
                            _ => return self.err("expected ',' or '}'"),
                        }
                    }
                }
            }
        }
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let st = self.i;
        let d = |p: &mut P| -> usize {
            let s = p.i;
            while p.i < p.b.len() && p.b[p.i].is_ascii_digit() {
                p.i += 1;
            }
            p.i - s
        };
        if self.b.get(self.i) == Some(&b'-') {
            self.i += 1;
        }
        let z = self.b.get(self.i) == Some(&b'0');
        let n = d(self);
        if n == 0 || (z && n > 1) {
            return self.err("bad number");
        }
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            if d(self) == 0 {
                return self.err("bad number");
            }
        }
        if matches!(self.b.get(self.i), Some(b'e') | Some(b'E')) {
            self.i += 1;
            if matches!(self.b.get(self.i), Some(b'+') | Some(b'-')) {
                self.i += 1;
            }
            if d(self) == 0 {
                return self.err("bad number");
            }
        }
        let t = &self.s[st..self.i];
        let f: f64 = t.parse().map_err(|_| format!("bad number {:?}", t))?;
        if !f.is_finite() {
            return self.err("number out of range");
        }
        Ok(J::Num(f, t.to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).ok_or("bad \\u escape")?;
        if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
            return self.err("bad \\u escape");
        }
        self.i += 4;
        Ok(u32::from_str_radix(h, 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.b.get(self.i) != Some(&b'"') {
            return self.err("expected string");
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            let st = self.i;
            while self.i < self.b.len() && self.b[self.i] != b'"' && self.b[self.i] != b'\\' && self.b[self.i] >= 0x20 {
                self.i += 1;
            }
            out.push_str(&self.s[st..self.i]);
            match self.b.get(self.i) {
                None => return self.err("unterminated string"),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(out);
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = *self.b.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    match c {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if self.b.get(self.i) != Some(&b'\\') || self.b.get(self.i + 1) != Some(&b'u') {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return self.err("lone surrogate");
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                            }
                            out.push(char::from_u32(u).ok_or("bad code point")?);
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                Some(_) => return self.err("raw control character in string"),
            }
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (0xfff0..=0xffff).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
