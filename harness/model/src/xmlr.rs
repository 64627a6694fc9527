//! A small strict XML reader, independent of quick-xml: elements, attributes, text, the five named
//! entities, character references, CDATA, comments, processing instructions, declaration.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct XNode {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<XNode>,
    pub text: String,
}

struct P<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
}

pub fn parse(src: &str) -> Result<XNode, String> {
    let mut p = P { s: src.as_bytes(), src, i: 0 };
    if src.starts_with("<?xml") {
        p.i = src.find("?>").ok_or("unterminated declaration")? + 2;
    }
    p.misc()?;
    let n = p.element()?;
    p.misc()?;
    if p.i != p.s.len() {
        return Err(format!("trailing content at byte {}", p.i));
    }
    Ok(n)
}

impl P<'_> {
    fn at(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1;
        }
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.at("<!--") {
                let e = self.src[self.i..].find("-->").ok_or("comment")?;
                self.i += e + 3;
            } else if self.at("<?") {
                let e = self.src[self.i..].find("?>").ok_or("pi")?;
                self.i += e + 2;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while self.i < self.s.len() && {
            let c = self.s[self.i];
            c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-' | b'.' | b':') || c >= 0x80
        } {
            self.i += 1;
        }
        if st == self.i {
            return Err(format!("name expected at byte {st}"));
        }
        Ok(self.src[st..self.i].to_string())
    }
    fn element(&mut self) -> Result<XNode, String> {
        if !self.at("<") {
            return Err(format!("'<' expected at byte {}", self.i));
        }
        self.i += 1;
        let mut n = XNode { name: self.name()?, ..Default::default() };
        loop {
            let before = self.i;
            self.ws();
            if self.at("/>") {
                self.i += 2;
                return Ok(n);
            }
            if self.at(">") {
                self.i += 1;
                break;
            }
            if before == self.i {
                return Err(format!("space expected at byte {}", self.i));
            }
            let an = self.name()?;
            self.ws();
            if !self.at("=") {
                return Err("'=' expected".into());
            }
            self.i += 1;
            self.ws();
            let q = *self.s.get(self.i).ok_or("eof")?;
            if q != b'"' && q != b'\'' {
                return Err("quote expected".into());
            }
            self.i += 1;
            let st = self.i;
            while *self.s.get(self.i).ok_or("eof in attribute")? != q {
                if self.s[self.i] == b'<' {
                    return Err("'<' in attribute".into());
                }
                self.i += 1;
            }
            let v = unescape(&self.src[st..self.i])?;
            self.i += 1;
            if n.attrs.iter().any(|(k, _)| *k == an) {
                return Err(format!("duplicate attribute {an}"));
            }
            n.attrs.push((an, v));
        }
        loop {
            if self.i >= self.s.len() {
                return Err(format!("eof in element {}", n.name));
            }
            if self.at("</") {
                self.i += 2;
                let e = self.name()?;
                if e != n.name {
                    return Err(format!("end tag {e} for element {}", n.name));
                }
                self.ws();
                if !self.at(">") {
                    return Err("'>' expected".into());
                }
                self.i += 1;
                return Ok(n);
            } else if self.at("<!--") {
                let e = self.src[self.i..].find("-->").ok_or("comment")?;
                self.i += e + 3;
            } else if self.at("<![CDATA[") {
                let e = self.src[self.i..].find("]]>").ok_or("cdata")?;
                n.text.push_str(&self.src[self.i + 9..self.i + e]);
                self.i += e + 3;
            } else if self.at("<?") {
                let e = self.src[self.i..].find("?>").ok_or("pi")?;
                self.i += e + 2;
            } else if self.at("<") {
                n.children.push(self.element()?);
            } else {
                let st = self.i;
                while self.i < self.s.len() && self.s[self.i] != b'<' {
                    self.i += 1;
                }
                n.text.push_str(&unescape(&self.src[st..self.i])?);
            }
        }
    }
}

fn unescape(s: &str) -> Result<String, String> {
    if !s.contains('&') {
        return Ok(s.to_string());
    }
    let mut o = String::new();
    let mut r = s;
    while let Some(k) = r.find('&') {
        o.push_str(&r[..k]);
        let e = r[k..].find(';').ok_or("bare &")? + k;
        let ent = &r[k + 1..e];
        match ent {
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "amp" => o.push('&'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            _ if ent.starts_with("#x") => o.push(
                u32::from_str_radix(&ent[2..], 16).ok().and_then(char::from_u32).ok_or("charref")?,
            ),
            _ if ent.starts_with('#') => {
                o.push(ent[1..].parse().ok().and_then(char::from_u32).ok_or("charref")?)
            }
            _ => return Err(format!("unknown entity &{ent};")),
        }
        r = &r[e + 1..];
    }
    o.push_str(r);
    Ok(o)
}

impl XNode {
    /// first element with this name in document order, this one included
    pub fn find(&self, name: &str) -> Option<&XNode> {
        if self.name == name {
            return Some(self);
        }
        self.children.iter().find_map(|c| c.find(name))
    }
}
