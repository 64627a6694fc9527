//! A small strict JSON reader, independent of serde_json: exact doubles (str::parse), duplicate keys
//! refused.  Numbers become f64 values.
use serde_json::{Map, Number, Value};

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}
pub fn parse(s: &str) -> Result<Value, String> {
    let mut p = P { s, b: s.as_bytes(), i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing content at byte {}", p.i));
    }
    Ok(v)
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, l: &str, v: Value) -> Result<Value, String> {
        if self.s[self.i..].starts_with(l) {
            self.i += l.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self, depth: usize) -> Result<Value, String> {
        if depth > 200 {
            return Err("too deep".into());
        }
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut m = Map::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(Value::Object(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return Err(format!("expected : at {}", self.i));
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value(depth + 1)?;
                    if m.insert(k.clone(), v).is_some() {
                        return Err(format!("duplicate key {k}"));
                    }
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(Value::Object(m));
                        }
                        _ => return Err(format!("expected , or }} at {}", self.i)),
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(Value::Array(a));
                }
                loop {
                    self.ws();
                    a.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(Value::Array(a));
                        }
                        _ => return Err(format!("expected , or ] at {}", self.i)),
                    }
                }
            }
            b'"' => Ok(Value::String(self.string()?)),
            b't' => self.lit("true", Value::Bool(true)),
            b'f' => self.lit("false", Value::Bool(false)),
            b'n' => self.lit("null", Value::Null),
            _ => self.number(),
        }
    }
    fn digits(&mut self) -> usize {
        let a = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        self.i - a
    }
    fn number(&mut self) -> Result<Value, String> {
        let a = self.i;
        let bad = |i| Err(format!("bad number at {i}"));
        if self.peek() == b'-' {
            self.i += 1;
        }
        let z = self.peek() == b'0';
        let n = self.digits();
        if n == 0 || (z && n > 1) {
            return bad(a);
        }
        if self.peek() == b'.' {
            self.i += 1;
            if self.digits() == 0 {
                return bad(a);
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if self.digits() == 0 {
                return bad(a);
            }
        }
        let x: f64 = self.s[a..self.i].parse().map_err(|_| format!("bad number at {a}"))?;
        Number::from_f64(x).map(Value::Number).ok_or(format!("number out of range at {a}"))
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return Err(format!("expected a string at {}", self.i));
        }
        self.i += 1;
        let mut o = String::new();
        loop {
            let Some(c) = self.s[self.i..].chars().next() else { return Err("unterminated string".into()) };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    o.push(match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut u = self.hex()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if !self.s[self.i..].starts_with("\\u") {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 2;
                                let l = self.hex()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return Err("lone surrogate".into());
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                            }
                            char::from_u32(u).ok_or("bad escape")?
                        }
                        _ => return Err("bad escape".into()),
                    });
                }
                c if c < ' ' => return Err("control character in string".into()),
                c => o.push(c),
            }
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).ok_or("bad escape")?;
        self.i += 4;
        u32::from_str_radix(h, 16).map_err(|_| "bad escape".into())
    }
}
