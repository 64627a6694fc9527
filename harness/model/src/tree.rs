//! Instance trees of the reference model, with an independent XML writer, JSON writer,
//! XML reader (via xmlr) and the reference validator.
use crate::schema::*;
use crate::xmlr::{self, XNode};
use serde_json::{Map, Value, json};

#[derive(Clone, Debug)]
pub enum Node {
    Text(String),
    Num(f64),
    Bool(bool),
    /// One entry per schema field (schema order): the occurrences of that field.
    Struct(Vec<Vec<Node>>),
}
impl PartialEq for Node {
    fn eq(&self, o: &Node) -> bool {
        match (self, o) {
            (Node::Text(a), Node::Text(b)) => a == b,
            (Node::Num(a), Node::Num(b)) => a == b || (a.is_nan() && b.is_nan()),
            (Node::Bool(a), Node::Bool(b)) => a == b,
            (Node::Struct(a), Node::Struct(b)) => a == b,
            _ => false,
        }
    }
}

/// A location inside a tree: (field index, occurrence) steps from the root.
pub type Path = Vec<(usize, usize)>;

pub fn fmt_num(x: f64) -> String {
    format!("{x}")
}

pub fn esc(s: &str, attr: bool) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' if attr => o.push_str("&quot;"),
            '\n' if attr => o.push_str("&#10;"),
            '\r' => o.push_str("&#13;"),
            '\t' if attr => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
    o
}

impl Node {
    pub fn get(&self, p: &[(usize, usize)]) -> &Node {
        let mut n = self;
        for (f, i) in p {
            match n {
                Node::Struct(v) => n = &v[*f][*i],
                _ => panic!("path into leaf"),
            }
        }
        n
    }
    pub fn get_mut(&mut self, p: &[(usize, usize)]) -> &mut Node {
        let mut n = self;
        for (f, i) in p {
            match n {
                Node::Struct(v) => n = &mut v[*f][*i],
                _ => panic!("path into leaf"),
            }
        }
        n
    }
    pub fn fields_mut(&mut self) -> &mut Vec<Vec<Node>> {
        match self {
            Node::Struct(v) => v,
            _ => panic!("leaf"),
        }
    }
    pub fn fields(&self) -> &Vec<Vec<Node>> {
        match self {
            Node::Struct(v) => v,
            _ => panic!("leaf"),
        }
    }
    pub fn leaf_text(&self) -> String {
        match self {
            Node::Text(s) => s.clone(),
            Node::Num(x) => fmt_num(*x),
            Node::Bool(b) => b.to_string(),
            _ => panic!("struct"),
        }
    }
}

/// Options for the XML writer (lexical variants).  Default: canonical compact form.
#[derive(Clone, Default)]
pub struct XmlStyle {
    /// whitespace between elements
    pub indent: bool,
}

pub fn write_xml(m: &Module, t: usize, n: &Node, tag: &str, out: &mut String) {
    let fs = m.fields(t);
    let vals = n.fields();
    out.push('<');
    out.push_str(tag);
    for (f, occ) in fs.iter().zip(vals) {
        if f.is_attr() {
            for o in occ {
                out.push(' ');
                out.push_str(&f.name[1..]);
                out.push_str("=\"");
                out.push_str(&esc(&o.leaf_text(), true));
                out.push('"');
            }
        }
    }
    out.push('>');
    for (f, occ) in fs.iter().zip(vals) {
        if f.is_attr() {
            continue;
        }
        for o in occ {
            if f.is_value() {
                out.push_str(&esc(&o.leaf_text(), false));
            } else if let (Node::Struct(_), Ty::Ref(ct)) = (o, f.ty) {
                write_xml(m, ct, o, &f.name, out);
            } else {
                out.push('<');
                out.push_str(&f.name);
                out.push('>');
                out.push_str(&esc(&o.leaf_text(), false));
                out.push_str("</");
                out.push_str(&f.name);
                out.push('>');
            }
        }
    }
    out.push_str("</");
    out.push_str(tag);
    out.push('>');
}

pub fn to_xml(m: &Module, n: &Node, tag: &str) -> String {
    let mut s = String::new();
    write_xml(m, m.root, n, tag, &mut s);
    s
}

pub fn to_json(m: &Module, t: usize, n: &Node) -> Value {
    match n {
        Node::Text(s) => json!(s),
        Node::Num(x) => json!(x),
        Node::Bool(b) => json!(b),
        Node::Struct(vals) => {
            let mut o = Map::new();
            for (f, occ) in m.fields(t).iter().zip(vals) {
                let ct = if let Ty::Ref(c) = f.ty { c } else { usize::MAX };
                if f.card.many() {
                    if !occ.is_empty() || f.card == Card::Vec {
                        o.insert(
                            f.name.clone(),
                            Value::Array(occ.iter().map(|x| to_json(m, ct, x)).collect()),
                        );
                    }
                } else if let Some(x) = occ.first() {
                    o.insert(f.name.clone(), to_json(m, ct, x));
                }
            }
            Value::Object(o)
        }
    }
}

/// Compare a JSON value produced by the library with the model.  Absent optional fields may be
/// missing or null; numbers compare as f64.  Returns a description of the first difference.
pub fn json_diff(m: &Module, t: usize, n: &Node, v: &Value, at: &str) -> Option<String> {
    match n {
        Node::Text(s) => (v.as_str() != Some(s)).then(|| format!("{at}: expected {s:?}, got {v}")),
        Node::Num(x) => match v.as_f64() {
            Some(y) if y == *x => None,
            _ => Some(format!("{at}: expected number {x}, got {v}")),
        },
        Node::Bool(b) => (v.as_bool() != Some(*b)).then(|| format!("{at}: expected {b}, got {v}")),
        Node::Struct(vals) => {
            let Some(o) = v.as_object() else {
                return Some(format!("{at}: expected object, got {v}"));
            };
            let fs = m.fields(t);
            for k in o.keys() {
                if !fs.iter().any(|f| &f.name == k) {
                    return Some(format!("{at}: unexpected key {k}"));
                }
            }
            for (f, occ) in fs.iter().zip(vals) {
                let ct = if let Ty::Ref(c) = f.ty { c } else { usize::MAX };
                let p = if at.is_empty() { f.name.clone() } else { format!("{at}.{}", f.name) };
                match o.get(&f.name) {
                    None | Some(Value::Null) => {
                        if !occ.is_empty() {
                            return Some(format!("{p}: missing in JSON"));
                        }
                    }
                    Some(x) if f.card.many() => {
                        let Some(a) = x.as_array() else {
                            return Some(format!("{p}: expected array, got {x}"));
                        };
                        if a.len() != occ.len() {
                            return Some(format!("{p}: expected {} items, got {}", occ.len(), a.len()));
                        }
                        for (i, (c, y)) in occ.iter().zip(a).enumerate() {
                            if let Some(d) = json_diff(m, ct, c, y, &format!("{p}[{i}]")) {
                                return Some(d);
                            }
                        }
                    }
                    Some(x) => match occ.first() {
                        None => return Some(format!("{p}: present in JSON, absent in model: {x}")),
                        Some(c) => {
                            if let Some(d) = json_diff(m, ct, c, x, &p) {
                                return Some(d);
                            }
                        }
                    },
                }
            }
            None
        }
    }
}

/// Compare an XML element produced by the library (read by the independent reader) with the model:
/// exactly the present fields, in schema order, each with its own name and content.
pub fn xml_diff(m: &Module, t: usize, n: &Node, x: &XNode, at: &str) -> Option<String> {
    let fs = m.fields(t);
    let vals = n.fields();
    let mut want_attrs: Vec<(String, String)> = vec![];
    let has_value = fs.iter().any(|f| f.is_value());
    for (f, occ) in fs.iter().zip(vals) {
        if f.is_attr() {
            for o in occ {
                want_attrs.push((f.name[1..].to_string(), o.leaf_text()));
            }
        }
    }
    let mut got = x.attrs.clone();
    got.sort();
    want_attrs.sort();
    if got != want_attrs {
        return Some(format!("{at}: attributes {got:?}, expected {want_attrs:?}"));
    }
    if has_value {
        if !x.children.is_empty() {
            return Some(format!("{at}: child elements in a simple-content element"));
        }
        let v = fs.iter().zip(vals).find(|(f, _)| f.is_value()).unwrap().1;
        return leaf_diff(&v[0], &x.text, at);
    }
    if !x.text.trim().is_empty() {
        return Some(format!("{at}: stray text {:?}", x.text));
    }
    let mut it = x.children.iter();
    for (f, occ) in fs.iter().zip(vals) {
        if f.is_attr() {
            continue;
        }
        for (i, o) in occ.iter().enumerate() {
            let p = format!("{at}/{}[{i}]", f.name);
            let Some(c) = it.next() else {
                return Some(format!("{p}: missing"));
            };
            if c.name != f.name {
                return Some(format!("{p}: found element {} instead", c.name));
            }
            if let (Node::Struct(_), Ty::Ref(ct)) = (o, f.ty) {
                if let Some(d) = xml_diff(m, ct, o, c, &p) {
                    return Some(d);
                }
            } else {
                if !c.attrs.is_empty() || !c.children.is_empty() {
                    return Some(format!("{p}: unexpected attributes or children"));
                }
                if let Some(d) = leaf_diff(o, &c.text, &p) {
                    return Some(d);
                }
            }
        }
    }
    if let Some(c) = it.next() {
        return Some(format!("{at}: extra element {}", c.name));
    }
    None
}

fn leaf_diff(n: &Node, text: &str, at: &str) -> Option<String> {
    let ok = match n {
        Node::Text(s) => s == text,
        Node::Num(x) => text.trim().parse::<f64>().map(|y| y == *x).unwrap_or(false),
        Node::Bool(b) => text.trim() == b.to_string(),
        _ => false,
    };
    (!ok).then(|| format!("{at}: expected {n:?}, found text {text:?}"))
}

/// Independent envelope (canonical form).
pub fn envelope(hdr: &str, doc_tag_content: &str) -> String {
    format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Envelope>{hdr}<Document>{doc_tag_content}</Document></Envelope>"
    )
}

pub fn parse_xml(s: &str) -> Result<XNode, String> {
    xmlr::parse(s)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Err3 {
    pub code: u32,
    pub field: String,
    pub path: String,
}

/// Reference validator: the list of constraint violations of a tree, in document order per field
/// (length before pattern).  `lenient` skips optional structured parts.
pub fn ref_validate(m: &Module, t: usize, n: &Node, path: &str, lenient: bool, out: &mut Vec<Err3>) {
    for (f, occ) in m.fields(t).iter().zip(n.fields()) {
        let p = if path.is_empty() { f.name.clone() } else { format!("{path}.{}", f.name) };
        for o in occ {
            match o {
                Node::Text(s) => {
                    let n = s.chars().count();
                    if let Some((min, max)) = f.len {
                        if min.is_some_and(|x| n < x) {
                            out.push(Err3 { code: 1001, field: f.name.clone(), path: p.clone() });
                        }
                        if max.is_some_and(|x| n > x) {
                            out.push(Err3 { code: 1002, field: f.name.clone(), path: p.clone() });
                        }
                    }
                    if let Some(pat) = &f.pat
                        && !crate::rx::compiled(pat).accepts(s.trim())
                    {
                        out.push(Err3 { code: 1005, field: f.name.clone(), path: p.clone() });
                    }
                }
                Node::Struct(_) => {
                    if let Ty::Ref(ct) = f.ty
                        && f.nested
                        && !(lenient && f.guard)
                    {
                        ref_validate(m, ct, o, &p, lenient, out);
                    }
                }
                _ => {}
            }
        }
    }
}

/// Tolerant reading of an XML element as a struct of the model: unknown attributes, unknown elements
/// and stray text are ignored, fields may come in any order; a missing mandatory field, a second
/// occurrence of a single field, a code outside its list or a text that is no number/flag is an error.
pub fn read_xml(m: &Module, t: usize, x: &XNode) -> Result<Node, String> {
    let fs = m.fields(t);
    let mut v: Vec<Vec<Node>> = vec![vec![]; fs.len()];
    for (a, s) in &x.attrs {
        if let Some(i) = fs.iter().position(|f| f.is_attr() && f.name[1..] == *a) {
            v[i].push(read_leaf(m, fs[i].ty, s)?);
        }
    }
    if let Some(i) = fs.iter().position(|f| f.is_value()) {
        if !x.children.is_empty() {
            return Err("elements in simple content".into());
        }
        v[i].push(read_leaf(m, fs[i].ty, &x.text)?);
    } else {
        for c in &x.children {
            let Some(i) = fs.iter().position(|f| f.name == c.name) else { continue };
            v[i].push(if m.is_struct(fs[i].ty) {
                let Ty::Ref(ct) = fs[i].ty else { unreachable!() };
                read_xml(m, ct, c)?
            } else {
                if !c.children.is_empty() {
                    return Err(format!("elements inside the text of {}", c.name));
                }
                read_leaf(m, fs[i].ty, &c.text)?
            });
        }
    }
    check_card(fs, &v)?;
    Ok(Node::Struct(v))
}
fn check_card(fs: &[Field], v: &[Vec<Node>]) -> Result<(), String> {
    for (f, o) in fs.iter().zip(v) {
        if o.is_empty() && f.card.required() {
            return Err(format!("{} missing", f.name));
        }
        if o.len() > 1 && !f.card.many() {
            return Err(format!("{} repeated", f.name));
        }
    }
    Ok(())
}
fn read_leaf(m: &Module, ty: Ty, s: &str) -> Result<Node, String> {
    match ty {
        Ty::Str => Ok(Node::Text(s.to_string())),
        Ty::F64 => s.trim().parse().map(Node::Num).map_err(|_| format!("{s:?} is not a number")),
        Ty::Bool => match s.trim() {
            "true" | "1" => Ok(Node::Bool(true)),
            "false" | "0" => Ok(Node::Bool(false)),
            // other spellings XML readers know
            "TRUE" | "True" | "t" | "Yes" | "YES" | "yes" | "y" => Ok(Node::Bool(true)),
            "FALSE" | "False" | "f" | "No" | "NO" | "no" | "n" => Ok(Node::Bool(false)),
            _ => Err(format!("{s:?} is not a flag")),
        },
        Ty::Ref(_) => {
            if m.codes(ty).iter().any(|c| c == s.trim()) {
                Ok(Node::Text(s.trim().to_string()))
            } else {
                Err(format!("{s:?} is not a code"))
            }
        }
    }
}

/// The error of `read_json` for a mandatory list without items (a value the formats disagree about).
pub const EMPTY: &str = "empty list";

/// Tolerant reading of a JSON value: unknown members are ignored, null is an absent optional member.
pub fn read_json(m: &Module, t: usize, x: &Value) -> Result<Node, String> {
    let Some(o) = x.as_object() else { return Err("not an object".into()) };
    let fs = m.fields(t);
    let mut v: Vec<Vec<Node>> = vec![vec![]; fs.len()];
    for (i, f) in fs.iter().enumerate() {
        match o.get(&f.name) {
            None => {}
            Some(Value::Null) if !f.card.required() => {}
            Some(Value::Array(a)) if f.card.many() => {
                for y in a {
                    v[i].push(read_json_value(m, f.ty, y)?);
                }
                if a.is_empty() && f.card == Card::Vec {
                    return Err(EMPTY.into());
                }
            }
            Some(y) if !f.card.many() => v[i].push(read_json_value(m, f.ty, y)?),
            Some(_) => return Err(format!("{} is not a list", f.name)),
        }
    }
    check_card(fs, &v)?;
    Ok(Node::Struct(v))
}
fn read_json_value(m: &Module, ty: Ty, y: &Value) -> Result<Node, String> {
    match (ty, y) {
        (Ty::Str, Value::String(s)) => Ok(Node::Text(s.clone())),
        (Ty::F64, Value::Number(n)) => Ok(Node::Num(n.as_f64().ok_or("number")?)),
        (Ty::Bool, Value::Bool(b)) => Ok(Node::Bool(*b)),
        (Ty::Ref(_), Value::String(s)) if m.codes(ty).contains(s) => Ok(Node::Text(s.clone())),
        (Ty::Ref(c), Value::Object(_)) if m.is_struct(ty) => read_json(m, c, y),
        _ => Err(format!("{y} does not fit")),
    }
}
