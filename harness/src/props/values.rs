//! C01-C05: reading, writing and converting message values.
use crate::common::*;
use crate::targets::*;
use mx_message::mx_envelope::MxMessage;
use refmodel::engine::{Ctx, par_items};
use refmodel::schema::*;
use refmodel::tree::{self, Node};
use refmodel::xmlr::XNode;
use serde_json::{Value, json};

pub type Check<'a> = dyn Fn(&World, Target, &Node) -> Option<String> + Sync + 'a;

/// Run `check` on every item; on a mismatch shrink the tree and report.
pub fn explore(ctx: &Ctx, w: &World, items: &[Item], per: u64, check: &Check) {
    par_items(items, |it| {
        if ctx.stop() {
            return;
        }
        let n = it.build(w);
        ctx.state(&format!("{}{:?}", it.t.module(), tree::to_json(w.m(it.t), w.m(it.t).root, &n)));
        ctx.step(1);
        ctx.trace(per);
        let Some(d) = check(w, it.t, &n) else {
            ctx.outcome("agrees");
            return;
        };
        ctx.outcome("differs");
        let m = w.m(it.t);
        let small = if ctx.nviol() < 4 { tree_shrunk(w, it.t, &n, check) } else { n };
        let d2 = check(w, it.t, &small).unwrap_or(d);
        ctx.violation(
            &format!("{}: {}", it.t.module(), d2.chars().take(160).collect::<String>()),
            json!({"case": it.name(w), "difference": d2, "json": t_json(w, it.t, &small), "xml": tree::to_xml(m, &small, it.t.tag())}),
        );
    });
}
fn t_json(w: &World, t: Target, n: &Node) -> Value {
    let m = w.m(t);
    serde_json::from_str(&t.wrap_json(&w.hj2, &tree::to_json(m, m.root, n))).unwrap()
}
fn tree_shrunk(w: &World, t: Target, n: &Node, check: &Check) -> Node {
    shrink(w.m(t), n, &|c| check(w, t, c).is_some())
}

fn build(w: &World, t: Target, n: &Node) -> Result<Box<dyn Inst>, String> {
    t.from_json(&w.json(t, n)).map_err(|e| format!("message cannot be built from JSON: {e}"))
}

// ---------------------------------------------------------------- C01

fn c01_one(w: &World, t: Target, n: &Node) -> Option<String> {
    let a = match build(w, t, n) {
        Ok(a) => a,
        // fall back to the XML form so that a JSON-only defect does not blind this check
        Err(e) => match t.from_xml(&w.xml(t, n)) {
            Ok(a) => a,
            Err(_) => return Some(e),
        },
    };
    let x = match a.xml() {
        Ok(x) => x,
        Err(e) => return Some(format!("writing fails: {e}")),
    };
    let b = match t.from_xml(&x) {
        Ok(b) => b,
        Err(e) => return Some(format!("reading back fails: {e}\nXML: {x}")),
    };
    if !same(a.as_ref(), b.as_ref()) {
        let (ja, jb) = (a.json().ok(), b.json().ok());
        return Some(format!("read back differs: {}", first_diff(&ja, &jb)));
    }
    // the value itself is the model's value (an equality that hides a difference would be noticed)
    match b.json() {
        Ok(j) => whole_json_diff(w, t, n, &j).map(|d| format!("after the round trip: {d}")),
        Err(e) => Some(e),
    }
}
pub fn first_diff(a: &Option<Value>, b: &Option<Value>) -> String {
    fn rec(a: &Value, b: &Value, p: &str) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    match y.get(k) {
                        None => return Some(format!("{p}/{k} lost")),
                        Some(u) => {
                            if let Some(d) = rec(v, u, &format!("{p}/{k}")) {
                                return Some(d);
                            }
                        }
                    }
                }
                y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{p}/{k} appeared"))
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return Some(format!("{p}: {} items became {}", x.len(), y.len()));
                }
                x.iter().zip(y).enumerate().find_map(|(i, (u, v))| rec(u, v, &format!("{p}[{i}]")))
            }
            _ if a == b => None,
            _ => Some(format!("{p}: {a} became {b}")),
        }
    }
    match (a, b) {
        (Some(a), Some(b)) => rec(a, b, "").unwrap_or_else(|| "values differ although their JSON is the same".into()),
        _ => "JSON not available".into(),
    }
}

/// namespace declarations x types
fn namespaces(ctx: &Ctx, w: &World) {
    let cases = declarations();
    par_items(&cases, |(d, a, b)| {
        let t = Target::Mx(d);
        ctx.state(&("ns", d.short, a, b));
        ctx.step(1);
        ctx.trace(2);
        let r = (|| -> Result<(), String> {
            let v = build(w, t, w.min(t))?;
            let mut v: MxMessage = v.any().downcast_ref::<MxMessage>().unwrap().clone();
            v.xmlns = a.clone();
            v.xmlns_xsi = b.clone();
            let x = gres(|| v.to_xml())?;
            let r = gres(|| MxMessage::from_xml(&x)).map_err(|e| format!("{e}\nXML: {x}"))?;
            if r != v || format!("{r:?}") != format!("{v:?}") {
                return Err(format!("xmlns {:?} -> {:?}, xmlns:xsi {:?} -> {:?}, rest equal: {}", v.xmlns, r.xmlns, v.xmlns_xsi, r.xmlns_xsi, r.document == v.document && r.app_hdr == v.app_hdr));
            }
            let j = gres(|| v.to_json())?;
            let r = gres(|| MxMessage::from_json(&j))?;
            if r != v {
                return Err("JSON round trip loses the namespace declarations".into());
            }
            // a message made with the constructor
            let n = MxMessage::new(v.app_hdr.clone(), v.document.clone());
            let x = gres(|| n.to_xml())?;
            let r = gres(|| MxMessage::from_xml(&x)).map_err(|e| format!("{e}\nXML: {x}"))?;
            if r != n {
                return Err("a newly constructed message does not round-trip".into());
            }
            Ok(())
        })();
        if let Err(e) = r {
            ctx.violation(&format!("{}: namespaces {a:?} {b:?}", d.short), json!({"type": d.short, "xmlns": a, "xmlns:xsi": b, "difference": e}));
        }
    });
}
pub fn declarations() -> Vec<(&'static DocType, Option<String>, Option<String>)> {
    let mut vals: Vec<Option<String>> = vec![None];
    for s in [
        "urn:iso:std:iso:20022:tech:xsd:head.001.001.02", "http://www.w3.org/2001/XMLSchema-instance", "urn:a", "a\"b", "a'b", "<x>", "a>b",
        "&amp;", "a&b", "", "xmlns=\"q\"", "中文", "a b", "urn:iso:std:iso:20022:tech:xsd:pacs.008.001.08", "</AppHdr>", "xmlns:xsi=", "<Document",
    ] {
        vals.push(Some(s.to_string()));
    }
    let mut cases = vec![];
    for d in DOC_TYPES {
        for (i, a) in vals.iter().enumerate() {
            for (j, b) in vals.iter().enumerate() {
                // all pairs for one type, a row and a column for the others
                if d.short == "pacs.008" || i < 2 || j < 2 || i == j {
                    cases.push((d, a.clone(), b.clone()));
                }
            }
        }
    }
    cases
}

/// headers: every header field path and text rotation, inside one message per type of document
pub fn headers_in_messages(ctx: &Ctx, w: &World, json_only: bool, check: &(dyn Fn(&World, &Node, Target) -> Option<String> + Sync)) {
    let hm = w.s.get(APPHDR);
    let ht = Target::by_module(APPHDR).unwrap();
    let mut items: Vec<Item> = structural(w, &[ht], true);
    for k in 0..TEXTS.len() {
        items.push(Item { t: ht, what: What::Rot(k) });
    }
    items.extend(rotations(w, &[ht], TEXTS.len()));
    if json_only {
        items.extend((0..SPACES.len()).map(|k| Item { t: ht, what: What::Spaces(k) }));
    }
    let idx: Vec<usize> = (0..items.len()).collect();
    par_items(&idx, |&i| {
        let it = &items[i];
        let h = it.build(w);
        let t = Target::Mx(&DOC_TYPES[i % DOC_TYPES.len()]);
        ctx.state(&("hdr", format!("{h:?}")));
        ctx.step(1);
        ctx.trace(2);
        if let Some(d) = check(w, &h, t) {
            ctx.violation(
                &format!("header: {}", d.chars().take(160).collect::<String>()),
                json!({"case": it.name(w), "document": t.module(), "difference": d, "header": tree::to_json(hm, hm.root, &h)}),
            );
        }
    });
}

pub fn c01(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let ts = if ctx.thorough { Target::all() } else { docs_and_variants() };
    let mut items = structural(&w, &ts, ctx.thorough);
    items.extend(rotations(&w, &ts, 1));
    ctx.sample(|| json!(items.iter().step_by(items.len() / 8 + 1).map(|i| i.name(&w)).collect::<Vec<_>>()));
    explore(ctx, &w, &items, 2, &c01_one);
    namespaces(ctx, &w);
    headers_in_messages(ctx, &w, false, &|w, h, t| {
        let hm = w.s.get(APPHDR);
        let m = w.m(t);
        let j = t.wrap_json(&tree::to_json(hm, hm.root, h), &tree::to_json(m, m.root, w.min(t)));
        let r = (|| -> Result<Option<String>, String> {
            let a = t.from_json(&j)?;
            let x = a.xml()?;
            let b = t.from_xml(&x)?;
            if !same(a.as_ref(), b.as_ref()) {
                return Ok(Some(format!("read back differs: {}", first_diff(&a.json().ok(), &b.json().ok()))));
            }
            Ok(tree::json_diff(hm, hm.root, h, &b.json()?["AppHdr"], "AppHdr"))
        })();
        r.unwrap_or_else(Some)
    });
    vec!["texts come from the alphabet TEXTS and generated valid values; numbers from NUMS; lists up to 3 items"]
}

fn docs_and_variants() -> Vec<Target> {
    let mut v = Target::all_docs();
    v.extend(Target::variants());
    v
}

// ---------------------------------------------------------------- C02

/// Structure of a whole written message, read by the independent reader.
fn written_diff(w: &World, t: Target, hdr: &Node, n: &Node, ns: (&Option<String>, &Option<String>), x: &str) -> Option<String> {
    let p: XNode = match tree::parse_xml(x) {
        Ok(p) => p,
        Err(e) => return Some(format!("not well-formed: {e}\nXML: {x}")),
    };
    let m = w.m(t);
    let Target::Mx(d) = t else {
        return tree::xml_diff(m, m.root, n, &p, "");
    };
    if p.name != "Envelope" {
        return Some(format!("root element is {}", p.name));
    }
    let want: Vec<(String, String)> =
        [("xmlns", ns.0), ("xmlns:xsi", ns.1)].iter().filter_map(|(k, v)| v.as_ref().map(|v| (k.to_string(), v.clone()))).collect();
    if p.attrs != want {
        return Some(format!("envelope attributes {:?}, expected {want:?}", p.attrs));
    }
    if !p.text.trim().is_empty() {
        return Some(format!("text in the envelope: {:?}", p.text));
    }
    let names: Vec<_> = p.children.iter().map(|c| c.name.as_str()).collect();
    if names != ["AppHdr", "Document"] {
        return Some(format!("envelope holds {names:?}"));
    }
    let hm = w.s.get(APPHDR);
    let strip = |x: &XNode| {
        let mut x = x.clone();
        // a namespace declaration on the part is not content
        x.attrs.retain(|(k, _)| k != "xmlns" && !k.starts_with("xmlns:"));
        x
    };
    if let Some(d) = tree::xml_diff(hm, hm.root, hdr, &strip(&p.children[0]), "AppHdr") {
        return Some(d);
    }
    let doc = strip(&p.children[1]);
    if !doc.attrs.is_empty() || !doc.text.trim().is_empty() || doc.children.len() != 1 {
        return Some("Document is not a plain wrapper of one element".into());
    }
    if doc.children[0].name != d.element {
        return Some(format!("document root is {}, expected {}", doc.children[0].name, d.element));
    }
    tree::xml_diff(m, m.root, n, &strip(&doc.children[0]), d.element)
}

fn c02_one(w: &World, t: Target, n: &Node) -> Option<String> {
    let a = match build(w, t, n).or_else(|_| t.from_xml(&w.xml(t, n))) {
        Ok(a) => a,
        Err(e) => return Some(e),
    };
    match a.xml() {
        Err(e) => Some(format!("writing fails: {e}")),
        Ok(x) => written_diff(w, t, &w.hdr, n, (&None, &None), &x),
    }
}

pub fn c02(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let ts = if ctx.thorough { Target::all() } else { docs_and_variants() };
    let mut items = structural(&w, &ts, ctx.thorough);
    items.extend(rotations(&w, &ts, 1));
    ctx.sample(|| json!(items.iter().step_by(items.len() / 8 + 1).map(|i| i.name(&w)).collect::<Vec<_>>()));
    explore(ctx, &w, &items, 1, &c02_one);
    headers_in_messages(ctx, &w, false, &|w, h, t| {
        let hm = w.s.get(APPHDR);
        let m = w.m(t);
        let j = t.wrap_json(&tree::to_json(hm, hm.root, h), &tree::to_json(m, m.root, w.min(t)));
        match t.from_json(&j).and_then(|a| a.xml()) {
            Err(e) => Some(e),
            Ok(x) => written_diff(w, t, h, w.min(t), (&None, &None), &x),
        }
    });
    // declared namespaces appear on the envelope, and nowhere else
    for d in DOC_TYPES {
        let t = Target::Mx(d);
        for a in [None, Some("urn:a".to_string()), Some("x\"&<>'y".to_string())] {
            for b in [None, Some("urn:b".to_string()), Some("<\"&>".to_string())] {
                ctx.state(&("ns", d.short, &a, &b));
                ctx.step(1);
                ctx.trace(1);
                let r = build(&w, t, w.min(t)).and_then(|v| {
                    let mut v = v.any().downcast_ref::<MxMessage>().unwrap().clone();
                    v.xmlns = a.clone();
                    v.xmlns_xsi = b.clone();
                    gres(|| v.to_xml())
                });
                let diff = match r {
                    Err(e) => Some(e),
                    Ok(x) => written_diff(&w, t, &w.hdr, w.min(t), (&a, &b), &x),
                };
                if let Some(e) = diff {
                    ctx.violation(&format!("{}: namespaces {a:?} {b:?}", d.short), json!({"type": d.short, "xmlns": a, "xsi": b, "difference": e}));
                }
            }
        }
    }
    vec!["well-formedness is judged by the independent reader refmodel::xmlr", "white space between elements is not content"]
}

// ---------------------------------------------------------------- C03

/// A lexical style of writing the same XML.
pub struct Style {
    pub name: &'static str,
    /// text of a leaf
    pub text: fn(&str) -> String,
    /// attribute ` name="value"`
    pub attr: fn(&str, &str) -> String,
    /// white space between elements (prefix per depth)
    pub gap: fn(usize) -> String,
    /// extra markup between the children of an element
    pub between: &'static str,
    pub start_pad: &'static str,
    pub end_pad: &'static str,
    pub decl: &'static str,
    pub envelope: &'static str,
    pub envelope_attrs: &'static str,
    pub hdr_attrs: &'static str,
    pub doc_attrs: &'static str,
    pub root_attrs: &'static str,
    pub tail: &'static str,
    pub selfclose: bool,
}
fn t_plain(s: &str) -> String {
    tree::esc(s, false)
}
fn t_cdata(s: &str) -> String {
    if s.contains('\r') || s.is_empty() {
        return t_plain(s);
    }
    format!("<![CDATA[{}]]>", s.replace("]]>", "]]]]><![CDATA[>"))
}
fn t_hex(s: &str) -> String {
    s.chars().map(|c| format!("&#x{:X};", c as u32)).collect()
}
fn t_dec(s: &str) -> String {
    s.chars().map(|c| format!("&#{};", c as u32)).collect()
}
fn t_named(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '\'' => "&apos;".into(),
            '"' => "&quot;".into(),
            '<' => "&lt;".into(),
            '>' => "&gt;".into(),
            '&' => "&amp;".into(),
            '\r' => "&#13;".into(),
            c => c.to_string(),
        })
        .collect()
}
fn t_rawgt(s: &str) -> String {
    // '>' and quotes may stand unescaped in text
    if s.contains("]]>") { t_plain(s) } else { tree::esc(s, false).replace("&gt;", ">") }
}
fn a_dq(k: &str, v: &str) -> String {
    format!(" {k}=\"{}\"", tree::esc(v, true))
}
fn a_sq(k: &str, v: &str) -> String {
    format!(" {k}='{}'", tree::esc(v, true).replace("&quot;", "\"").replace('\'', "&apos;"))
}
fn a_sp(k: &str, v: &str) -> String {
    format!("\n   {k} = \"{}\" ", tree::esc(v, true))
}
fn a_hex(k: &str, v: &str) -> String {
    format!(" {k}=\"{}\"", t_hex(v))
}
const PLAIN: Style = Style {
    name: "compact",
    text: t_plain,
    attr: a_dq,
    gap: |_| String::new(),
    between: "",
    start_pad: "",
    end_pad: "",
    decl: "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
    envelope: "Envelope",
    envelope_attrs: "",
    hdr_attrs: "",
    doc_attrs: "",
    root_attrs: "",
    tail: "",
    selfclose: false,
};
fn nl(d: usize) -> String {
    format!("\n{}", "  ".repeat(d))
}
fn crlf(d: usize) -> String {
    format!("\r\n{}", "\t".repeat(d))
}
pub const STYLES: &[Style] = &[
    PLAIN,
    Style { name: "indented", gap: nl, tail: "\n", decl: "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", ..PLAIN },
    Style { name: "CRLF and tabs", gap: crlf, tail: "\r\n\r\n", decl: "<?xml version=\"1.0\" encoding=\"utf-8\"?>\r\n", ..PLAIN },
    Style { name: "CDATA", text: t_cdata, ..PLAIN },
    Style { name: "CDATA indented", text: t_cdata, gap: nl, ..PLAIN },
    Style { name: "hexadecimal references", text: t_hex, attr: a_hex, ..PLAIN },
    Style { name: "decimal references", text: t_dec, ..PLAIN },
    Style { name: "named entities", text: t_named, ..PLAIN },
    Style { name: "raw > and quotes", text: t_rawgt, ..PLAIN },
    Style { name: "single-quoted attributes", attr: a_sq, ..PLAIN },
    Style { name: "spaced attributes", attr: a_sp, ..PLAIN },
    Style { name: "spaces inside tags", start_pad: " ", ..PLAIN },
    Style { name: "no declaration", decl: "", ..PLAIN },
    Style { name: "standalone declaration", decl: "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>", ..PLAIN },
    Style { name: "leading blank lines, no declaration", decl: "\n  \n", ..PLAIN },
    Style {
        name: "default namespaces",
        envelope_attrs: " xmlns=\"urn:swift:xsd:envelope\"",
        hdr_attrs: " xmlns=\"urn:iso:std:iso:20022:tech:xsd:head.001.001.02\"",
        doc_attrs: " xmlns=\"urn:iso:std:iso:20022:tech:xsd:$FULL\"",
        ..PLAIN
    },
    Style {
        name: "schema locations",
        envelope_attrs: " xmlns=\"urn:swift:xsd:envelope\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"urn:a b.xsd\"",
        doc_attrs: "\n  xmlns='urn:iso:std:iso:20022:tech:xsd:$FULL'\n  xmlns:xsi='http://www.w3.org/2001/XMLSchema-instance'",
        gap: nl,
        ..PLAIN
    },
    Style { name: "root element attributes", root_attrs: " xmlns:q=\"urn:q\"", ..PLAIN },
    Style { name: "envelope of another name", envelope: "BusMsg", envelope_attrs: " xmlns=\"urn:x\"", ..PLAIN },
    Style { name: "comments between elements", between: "<!-- note -->", ..PLAIN },
    Style { name: "processing instructions between elements", between: "<?app data?>", ..PLAIN },
    Style { name: "comments holding tags", between: "<!-- </Document></AppHdr><AppHdr><Document><PmtRtr> -->", gap: nl, ..PLAIN },
    Style { name: "instructions holding tags", between: "<?x </Document><AppHdr>?>", ..PLAIN },
    Style { name: "spaces inside end tags", end_pad: " ", ..PLAIN },
    Style { name: "comment with tags before the message", decl: "<!-- <Envelope><AppHdr></AppHdr><Document xmlns='q'></Document> -->", ..PLAIN },
    Style { name: "> inside attribute values", envelope_attrs: " note=\"a>b\"", doc_attrs: " note='</Document>'", ..PLAIN },
    Style { name: "comment after the message", tail: "<!-- end -->\n", ..PLAIN },
    Style { name: "comment before the message", decl: "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- made by X -->\n", ..PLAIN },
    Style { name: "empty elements", selfclose: true, ..PLAIN },
];

fn styled(st: &Style, m: &Module, t: usize, n: &Node, tag: &str, extra: &str, depth: usize, out: &mut String) {
    let (fs, vals) = (m.fields(t), n.fields());
    out.push('<');
    out.push_str(tag);
    out.push_str(extra);
    for (f, occ) in fs.iter().zip(vals) {
        if f.is_attr() {
            for o in occ {
                out.push_str(&(st.attr)(&f.name[1..], &o.leaf_text()));
            }
        }
    }
    out.push_str(st.start_pad);
    out.push('>');
    let mut simple = false;
    for (f, occ) in fs.iter().zip(vals) {
        if f.is_attr() {
            continue;
        }
        for o in occ {
            if f.is_value() {
                simple = true;
                out.push_str(&(st.text)(&o.leaf_text()));
                continue;
            }
            out.push_str(&(st.gap)(depth + 1));
            out.push_str(st.between);
            if let (Node::Struct(_), Ty::Ref(ct)) = (o, f.ty) {
                styled(st, m, ct, o, &f.name, "", depth + 1, out);
            } else {
                let s = o.leaf_text();
                if s.is_empty() && st.selfclose {
                    out.push_str(&format!("<{}/>", f.name));
                } else {
                    out.push_str(&format!("<{}{}>{}</{}{}>", f.name, st.start_pad, (st.text)(&s), f.name, st.end_pad));
                }
            }
        }
    }
    if !simple {
        out.push_str(st.between);
        out.push_str(&(st.gap)(depth));
    }
    out.push_str(&format!("</{tag}{}>", st.end_pad));
}
pub fn styled_text(w: &World, st: &Style, t: Target, n: &Node) -> String {
    let m = w.m(t);
    let mut o = String::from(st.decl);
    match t {
        Target::St(_) => {
            styled(st, m, m.root, n, t.tag(), st.root_attrs, 0, &mut o);
        }
        Target::Mx(d) => {
            let hm = w.s.get(APPHDR);
            o.push_str(&format!("<{}{}>{}{}", st.envelope, st.envelope_attrs, (st.gap)(1), st.between));
            styled(st, hm, hm.root, &w.hdr, "AppHdr", st.hdr_attrs, 1, &mut o);
            o.push_str(&format!("{}{}<Document{}>{}{}", (st.gap)(1), st.between, st.doc_attrs.replace("$FULL", d.full), (st.gap)(2), st.between));
            styled(st, m, m.root, n, d.element, st.root_attrs, 2, &mut o);
            o.push_str(&format!("{}{}</Document{}>{}</{}>", st.between, (st.gap)(1), st.end_pad, (st.gap)(0), st.envelope));
        }
    }
    o.push_str(st.tail);
    o
}

fn c03_read(w: &World, t: Target, n: &Node, x: &str) -> Option<String> {
    let a = match t.from_xml(x) {
        Ok(a) => a,
        Err(e) => return Some(format!("reading fails: {e}")),
    };
    match a.json() {
        Ok(j) => whole_json_diff(w, t, n, &j),
        Err(e) => Some(format!("no JSON form: {e}")),
    }
}

pub fn c03(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let ts = if ctx.thorough { Target::all() } else { docs_and_variants() };
    let mut items = structural(&w, &ts, ctx.thorough);
    items.extend(rotations(&w, &ts, 1));
    explore(ctx, &w, &items, 1, &|w, t, n| c03_read(w, t, n, &w.xml(t, n)));
    // styles: full and minimal messages of every target, with plain texts and with the alphabet
    let mut cases = vec![];
    for si in 0..STYLES.len() {
        for t in Target::all() {
            let rot = if ctx.thorough { TEXTS.len() } else { 6 };
            for k in 0..rot {
                cases.push((si, Item { t, what: What::Rot(if ctx.thorough { k } else { k * 13 }) }));
            }
            cases.push((si, Item { t, what: What::Min }));
            cases.push((si, Item { t, what: What::Full }));
        }
        // every field path in a rotating style is covered below
    }
    par_items(&cases, |(si, it)| {
        if ctx.stop() {
            return;
        }
        let st = &STYLES[*si];
        let n = it.build(&w);
        let x = styled_text(&w, st, it.t, &n);
        ctx.state(&x);
        ctx.step(1);
        ctx.trace(1);
        if let Some(d) = c03_read(&w, it.t, &n, &x) {
            let small = if ctx.nviol() < 4 { shrink(w.m(it.t), &n, &|c| c03_read(&w, it.t, c, &styled_text(&w, st, it.t, c)).is_some()) } else { n };
            let d = c03_read(&w, it.t, &small, &styled_text(&w, st, it.t, &small)).unwrap_or(d);
            ctx.violation(
                &format!("{}: style {}: {}", it.t.module(), st.name, d.chars().take(120).collect::<String>()),
                json!({"case": it.name(&w), "style": st.name, "difference": d, "xml": styled_text(&w, st, it.t, &small)}),
            );
        } else {
            ctx.outcome(st.name);
        }
    });
    // every field path in every style would be 400k; each path gets 3 styles, rotating (all with --thorough)
    let mut cases = vec![];
    for t in ts {
        for (i, s) in refmodel::generate::field_paths(w.m(t)).into_iter().enumerate() {
            for k in 0..if ctx.thorough { STYLES.len() } else { 3 } {
                cases.push(((i * 3 + k) % STYLES.len(), Item { t, what: What::With(s.clone()) }));
            }
        }
    }
    par_items(&cases, |(si, it)| {
        if ctx.stop() {
            return;
        }
        let n = it.build(&w);
        let x = styled_text(&w, &STYLES[*si], it.t, &n);
        ctx.state(&x);
        ctx.step(1);
        ctx.trace(1);
        if let Some(d) = c03_read(&w, it.t, &n, &x) {
            ctx.violation(&format!("{}: style {}: {}", it.t.module(), STYLES[*si].name, d.chars().take(120).collect::<String>()), json!({"case": it.name(&w), "difference": d, "xml": x}));
        }
    });
    headers_in_messages(ctx, &w, false, &|w, h, t| {
        let hm = w.s.get(APPHDR);
        let x = t.wrap_xml(&tree::to_xml(hm, h, "AppHdr"), &tree::to_xml(w.m(t), w.min(t), t.tag()));
        match t.from_xml(&x).and_then(|a| a.json()) {
            Err(e) => Some(e),
            Ok(j) => tree::json_diff(hm, hm.root, h, &j["AppHdr"], "AppHdr"),
        }
    });
    // namespace declarations of the envelope in several spellings
    for d in DOC_TYPES {
        let t = Target::Mx(d);
        let dx = tree::to_xml(w.m(t), w.min(t), t.tag());
        for (attrs, a, b) in [
            ("", None, None),
            (" xmlns=\"urn:a\"", Some("urn:a"), None),
            (" xmlns='urn:a'", Some("urn:a"), None),
            ("\n xmlns = \"urn:a\"\n xmlns:xsi = 'urn:b'\n", Some("urn:a"), Some("urn:b")),
            (" xmlns:xsi=\"urn:b\"", None, Some("urn:b")),
            (" xmlns:xsi=\"urn:b\" xmlns=\"urn:a\"", Some("urn:a"), Some("urn:b")),
            (" xmlns:a=\"xmlns=&quot;\" xmlns=\"a&amp;b&#x41;\" xmlns:xsi='\"'", Some("a&bA"), Some("\"")),
            (" q='xmlns=\"z\"' xmlns='>'", Some(">"), None),
        ] {
            let x = format!("<Envelope{attrs}>{}<Document>{dx}</Document></Envelope>", w.hx);
            ctx.state(&x);
            ctx.step(1);
            ctx.trace(1);
            let got = gres(|| MxMessage::from_xml(&x)).map(|m| (m.xmlns, m.xmlns_xsi));
            let want = Ok((a.map(String::from), b.map(String::from)));
            if got != want {
                ctx.violation(&format!("{}: envelope attributes {attrs}", d.short), json!({"type": d.short, "attributes": attrs, "expected": format!("{want:?}"), "got": format!("{got:?}")}));
            }
        }
    }
    ctx.sample(|| json!(styled_text(&w, &STYLES[16], Target::all_docs()[0], w.min(Target::all_docs()[0]))));
    vec!["what was read is observed through its JSON form (C04 checks that form on its own)"]
}

// ---------------------------------------------------------------- C04

fn has_null(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.iter().any(has_null),
        Value::Object(o) => o.values().any(has_null),
        _ => false,
    }
}
/// The same JSON content in another spelling.
fn respell(v: &Value, how: usize, out: &mut String, depth: usize) {
    let q = |s: &str, out: &mut String| {
        if how == 1 {
            out.push('"');
            for u in s.encode_utf16() {
                out.push_str(&format!("\\u{u:04x}"));
            }
            out.push('"');
        } else {
            out.push_str(&Value::String(s.to_string()).to_string());
        }
    };
    let gap = |out: &mut String, d: usize| {
        if how == 2 {
            out.push_str(&format!("\r\n{}", "\t".repeat(d)));
        }
    };
    match v {
        Value::Object(o) => {
            out.push('{');
            // reversed key order
            let mut first = true;
            let keys: Vec<&String> = if how == 0 || how == 2 { o.keys().rev().collect() } else { o.keys().collect() };
            for k in keys {
                if !first {
                    out.push(',');
                }
                first = false;
                gap(out, depth + 1);
                q(k, out);
                out.push(':');
                if how == 2 {
                    out.push(' ');
                }
                respell(&o[k], how, out, depth + 1);
            }
            gap(out, depth);
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(out, depth + 1);
                respell(x, how, out, depth + 1);
            }
            gap(out, depth);
            out.push(']');
        }
        Value::String(s) => q(s, out),
        v => out.push_str(&v.to_string()),
    }
}

fn c04_one(w: &World, t: Target, n: &Node) -> Option<String> {
    let j0 = w.json(t, n);
    let a = match t.from_json(&j0) {
        Ok(a) => a,
        Err(e) => return Some(format!("reading JSON fails: {e}")),
    };
    let j = match a.json() {
        Ok(j) => j,
        Err(e) => return Some(format!("writing JSON fails: {e}")),
    };
    if let Some(d) = whole_json_diff(w, t, n, &j) {
        return Some(d);
    }
    if has_null(&j) {
        return Some("an absent field is written as null".into());
    }
    match t.from_json(&j.to_string()) {
        Err(e) => return Some(format!("reading its own JSON fails: {e}")),
        Ok(b) => {
            if !same(a.as_ref(), b.as_ref()) {
                return Some(format!("JSON round trip differs: {}", first_diff(&Some(j), &b.json().ok())));
            }
        }
    }
    None
}

pub fn c04(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let ts = Target::all();
    let mut items = structural(&w, &ts, ctx.thorough);
    items.extend(rotations(&w, &ts, 1));
    items.extend(ts.iter().flat_map(|t| (0..SPACES.len()).map(|k| Item { t: *t, what: What::Spaces(k) })));
    ctx.sample(|| json!(items.iter().step_by(items.len() / 8 + 1).map(|i| i.name(&w)).collect::<Vec<_>>()));
    explore(ctx, &w, &items, 3, &c04_one);
    // other spellings of the same JSON content
    let mut cases = vec![];
    for t in Target::all() {
        for how in 0..3 {
            cases.push((how, Item { t, what: What::Min }));
            cases.push((how, Item { t, what: What::Full }));
            for k in 0..if ctx.thorough { TEXTS.len() } else { 6 } {
                cases.push((how, Item { t, what: What::Rot(k * 11 % TEXTS.len()) }));
            }
        }
    }
    par_items(&cases, |(how, it)| {
        let n = it.build(&w);
        let v: Value = serde_json::from_str(&w.json(it.t, &n)).unwrap();
        let mut s = String::new();
        respell(&v, *how, &mut s, 0);
        ctx.state(&s);
        ctx.step(1);
        ctx.trace(2);
        let d = match (it.t.from_json(&s), it.t.from_json(&v.to_string())) {
            (Ok(a), Ok(b)) => {
                if !same(a.as_ref(), b.as_ref()) {
                    Some("another spelling of the same JSON reads as a different message".to_string())
                } else {
                    a.json().map(|j| whole_json_diff(&w, it.t, &n, &j)).unwrap_or_else(Some)
                }
            }
            (a, b) => Some(format!("{:?} / {:?}", a.err(), b.err())),
        };
        if let Some(d) = d {
            ctx.violation(&format!("{}: JSON spelling {how}: {}", it.t.module(), d.chars().take(120).collect::<String>()), json!({"case": it.name(&w), "difference": d, "json": s}));
        }
    });
    headers_in_messages(ctx, &w, true, &|w, h, t| {
        let hm = w.s.get(APPHDR);
        let m = w.m(t);
        let j = t.wrap_json(&tree::to_json(hm, hm.root, h), &tree::to_json(m, m.root, w.min(t)));
        match t.from_json(&j).and_then(|a| a.json()) {
            Err(e) => Some(e),
            Ok(j) if has_null(&j) => Some("null in JSON".into()),
            Ok(j) => tree::json_diff(hm, hm.root, h, &j["AppHdr"], "AppHdr"),
        }
    });
    vec!["empty optional lists (present but without items) are not part of the space"]
}

// ---------------------------------------------------------------- C05

fn c05_one(w: &World, t: Target, n: &Node) -> Option<String> {
    let (js, xs) = (w.json(t, n), w.xml(t, n));
    let r = (|| -> Result<Option<String>, String> {
        let a = t.from_json(&js).map_err(|e| format!("from JSON: {e}"))?;
        let b = t.from_xml(&xs).map_err(|e| format!("from XML: {e}"))?;
        let (ja, jb) = (a.json()?, b.json()?);
        if !same(a.as_ref(), b.as_ref()) {
            return Ok(Some(format!("read from JSON and from XML differ: {}", first_diff(&Some(ja), &Some(jb)))));
        }
        // XML -> value -> JSON -> value -> XML -> value -> JSON
        let c = t.from_json(&jb.to_string()).map_err(|e| format!("JSON of a message read from XML is refused: {e}"))?;
        let xc = c.xml()?;
        let d = t.from_xml(&xc).map_err(|e| format!("XML of a message read from JSON is refused: {e}"))?;
        if xc != b.xml()? || xc != a.xml()? {
            return Ok(Some("the XML text depends on the format the message was read from".into()));
        }
        if d.json()? != ja {
            return Ok(Some(format!("XML -> JSON -> XML -> JSON changed the content: {}", first_diff(&Some(ja), &d.json().ok()))));
        }
        if let Some(d) = whole_json_diff(w, t, n, &d.json()?) {
            return Ok(Some(format!("after the chain: {d}")));
        }
        if let Target::Mx(dt) = t {
            // the direct conversion of the document part
            for (what, text) in [("enveloped", xs.clone()), ("document only", format!("<Document>{}</Document>", tree::to_xml(w.m(t), n, t.tag()))), ("written", xc.clone())] {
                let v = gres(|| mx_message::xml::xml_to_json_via_document(&text, dt.short)).map_err(|e| format!("direct conversion ({what}) fails: {e}"))?;
                if v != json!({"Document": ja["Document"]}) {
                    return Ok(Some(format!("direct conversion ({what}) differs: {}", first_diff(&Some(json!({"Document": ja["Document"]})), &Some(v)))));
                }
            }
        }
        Ok(None)
    })();
    r.unwrap_or_else(Some)
}

pub fn c05(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let ts = if ctx.thorough { Target::all() } else { docs_and_variants() };
    let mut items = structural_with(&w, &ts, ctx.thorough, false);
    items.extend(rotations(&w, &ts, if ctx.thorough { 1 } else { 5 }));
    ctx.sample(|| json!(items.iter().step_by(items.len() / 8 + 1).map(|i| i.name(&w)).collect::<Vec<_>>()));
    explore(ctx, &w, &items, 10, &c05_one);
    headers_in_messages(ctx, &w, false, &|w, h, t| {
        let hm = w.s.get(APPHDR);
        let m = w.m(t);
        let j = t.wrap_json(&tree::to_json(hm, hm.root, h), &tree::to_json(m, m.root, w.min(t)));
        let x = t.wrap_xml(&tree::to_xml(hm, h, "AppHdr"), &tree::to_xml(m, w.min(t), t.tag()));
        match (t.from_json(&j), t.from_xml(&x)) {
            (Ok(a), Ok(b)) => (!same(a.as_ref(), b.as_ref())).then(|| format!("header read from JSON and XML differ: {}", first_diff(&a.json().ok(), &b.json().ok()))),
            (a, b) => Some(format!("{:?} {:?}", a.err(), b.err())),
        }
    });
    vec![]
}
