//! C17: publish then parse.  C18: the validate step's verdict.  C19: documents without header.
//! C22: the generate step.
use super::boundary::*;
use super::values::{explore, first_diff, headers_in_messages};
use super::validation;
use crate::common::*;
use crate::steps::{self, Steps, full_message};
use crate::targets::*;
use mx_message::mx_envelope::{self as env, MxMessage};
use mx_message::plugin::common as pc;
use refmodel::engine::{Ctx, par_items};
use refmodel::generate;
use refmodel::schema::*;
use refmodel::tree::{self, Node};
use serde_json::{Value, json};

fn dt(t: Target) -> &'static DocType {
    match t {
        Target::Mx(d) => d,
        _ => unreachable!(),
    }
}
fn doc_json(w: &World, t: Target, n: &Node) -> Value {
    let m = w.m(t);
    json!({"Document": {t.tag(): tree::to_json(m, m.root, n)}})
}
fn whole_json(w: &World, t: Target, n: &Node) -> Value {
    let mut v = doc_json(w, t, n);
    v["AppHdr"] = w.hj.clone();
    v
}
fn cut(s: impl AsRef<str>, n: usize) -> String {
    s.as_ref().chars().take(n).collect()
}

/// The same content through a step from each of its three places; the stored value and the
/// metadata entry.
fn three_ways(st: &Steps, step: &str, x: &str, meta: &str) -> Result<(Value, Value), String> {
    let mut first: Option<(Value, Value)> = None;
    for (how, payload, data, source) in [
        ("field", Value::Null, json!({"in": x}), "in"),
        ("object", Value::Null, json!({"in": {"mx_message": x, "json_data": {"a": 1}}}), "in"),
        ("payload", json!(x), json!({}), "payload"),
    ] {
        let mut m = full_message(payload, data, json!({}));
        st.run(step, &mut m, json!({"source": source, "target": "out"})).map_err(|e| format!("{step} of a {how}: {e}"))?;
        let mut r = (m.data()["out"].clone(), m.metadata()[meta].clone());
        for v in [&mut r.0, &mut r.1] {
            if let Some(o) = v.as_object_mut() {
                o.remove("timestamp");
            }
        }
        match &first {
            None => first = Some(r),
            Some(f) if *f != r => return Err(format!("{step} of a {how} gives another result: {}", first_diff(&Some(f.0.clone()), &Some(r.0)))),
            _ => {}
        }
    }
    Ok(first.unwrap())
}

// ---------------------------------------------------------------- C17

fn c17_one(w: &World, st: &Steps, t: Target, n: &Node, h: &Node, sources: bool) -> Option<String> {
    let (m, hm) = (w.m(t), w.s.get(APPHDR));
    let r = (|| -> Result<(), String> {
        for with_header in [true, false] {
            let form = if with_header { "message" } else { "document" };
            let mut v = doc_json(w, t, n);
            if with_header {
                v["AppHdr"] = tree::to_json(hm, hm.root, h);
            }
            let x = st.publish(&v).map_err(|e| format!("publishing the {form}: {e}"))?;
            if with_header {
                let direct = gres(|| MxMessage::from_json(&v.to_string())).and_then(|a| a.xml()).map_err(|e| format!("writing directly: {e}"))?;
                if direct != x {
                    return Err("publishing differs from writing the message".into());
                }
            }
            // what the published text says
            let tree = refmodel::xmlr::parse(&x).map_err(|e| format!("published {form} is not XML: {e}"))?;
            let d = tree.find("Document").ok_or("no document published")?;
            if d.children.len() != 1 {
                return Err(format!("published {form} holds {} documents", d.children.len()));
            }
            if let Some(e) = tree::xml_diff(m, m.root, n, &d.children[0], "").or((d.children[0].name != t.tag()).then(|| d.children[0].name.clone())) {
                return Err(format!("published {form}: {e}"));
            }
            if with_header != tree.find("AppHdr").is_some() {
                return Err("header published wrongly".into());
            }
            if !with_header && tree.name != "Document" {
                return Err(format!("document published inside {}", tree.name));
            }
            // and what the parse step makes of it
            let (p, meta) = if sources {
                three_ways(st, "parse_mx", &x, "out")?
            } else {
                let (p, k) = st.parse(&x).map_err(|e| format!("parsing the published {form}: {e}"))?;
                (p, json!({"message_type": k, "format": "json"}))
            };
            if meta != json!({"message_type": dt(t).short, "format": "json"}) {
                return Err(format!("recorded {meta}"));
            }
            if let Some(e) = tree::json_diff(m, m.root, n, &p["Document"][t.tag()], "") {
                return Err(format!("parsed {form}: {e}"));
            }
            let keys: Vec<&String> = p.as_object().map(|o| o.keys().filter(|k| !k.starts_with("@xmlns")).collect()).unwrap_or_default();
            let want: &[&str] = if with_header { &["AppHdr", "Document"] } else { &["Document"] };
            if keys != want || p["Document"].as_object().map(|o| o.len()) != Some(1) {
                return Err(format!("parsed {form} has {keys:?}"));
            }
            if with_header && let Some(e) = tree::json_diff(hm, hm.root, h, &p["AppHdr"], "AppHdr") {
                return Err(format!("parsed header: {e}"));
            }
            // publishing once more gives the same text
            if sources && st.publish(&p)? != x {
                return Err(format!("publishing the parsed {form} gives another text"));
            }
        }
        Ok(())
    })();
    r.err()
}

pub fn c17(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let st = &Steps::new();
    let ts = Target::all_docs();
    let hm = w.s.get(APPHDR);
    let mut items = structural_with(&w, &ts, ctx.thorough, false);
    items.extend(rotations(&w, &ts, if ctx.thorough { 1 } else { 3 }));
    ctx.sample(|| json!(items.iter().step_by(items.len() / 8 + 1).map(|i| i.name(&w)).collect::<Vec<_>>()));
    let all = ctx.thorough;
    explore(ctx, &w, &items, 5, &|w, t, n| c17_one(w, st, t, n, &w.hdr, all));
    ctx.lap("structures and texts");
    // every text of the alphabet at one place of every type, all three sources
    let mut v = vec![];
    for &t in &ts {
        for k in 0..TEXTS.len() {
            v.push((t, k, true));
        }
        v.push((t, 0, false));
    }
    par_items(&v, |(t, k, min)| {
        if ctx.stop() {
            return;
        }
        let m = w.m(*t);
        let n = if *min { rotate(m, w.min(*t), *k, TEXTS) } else { w.full(*t).clone() };
        let h = rotate(hm, &w.hdr, *k, TEXTS);
        ctx.state(&(t.module(), k, min, "sources"));
        ctx.step(1);
        ctx.trace(16);
        if let Some(d) = c17_one(&w, st, *t, &n, &h, true) {
            ctx.violation(&format!("{}: {}", t.module(), cut(&d, 160)), json!({"text rotation": k, "difference": d, "json": tree::to_json(m, m.root, &n)}));
        }
    });
    // ... also with the text spelled raw and in CDATA, and with texts that cannot be read
    let mut v: Vec<(Target, String)> = vec![];
    let mut chunks: Vec<String> = TEXTS.iter().map(|s| s.to_string()).collect();
    chunks.extend(pairs());
    for (i, c) in chunks.iter().enumerate() {
        for (k, &t) in ts.iter().enumerate() {
            if !ctx.thorough && (i + k) % 5 != 0 {
                continue;
            }
            let m = w.m(t);
            let mut n = w.min(t).clone();
            let Some((p, _, _)) = generate::leaves(m, &n).into_iter().find(|(_, ty, f)| m.fields(*ty)[*f].ty == Ty::Str && !m.fields(*ty)[*f].is_attr()) else { continue };
            *n.get_mut(&p) = Node::Text("@@mark@@".into());
            let x = tree::to_xml(m, &n, t.tag());
            let x = if (i + k) % 2 == 0 { t.wrap_xml(&w.hx, &x) } else { format!("<Document>{x}</Document>") };
            v.push((t, x.replace("@@mark@@", &c.replace('&', "&amp;").replace('<', "&lt;").replace("]]>", "]]&gt;"))));
            v.push((t, x.replace("@@mark@@", c)));
            if !c.contains("]]>") {
                v.push((t, x.replace("@@mark@@", &format!("<![CDATA[{c}]]>"))));
            }
        }
    }
    ctx.count("spelled_sources", v.len() as u64);
    par_items(&v, |(t, x)| {
        if ctx.stop() || !ctx.state(x) {
            return;
        }
        ctx.step(1);
        ctx.trace(3);
        match three_ways(st, "parse_mx", x, "out") {
            Ok(_) => ctx.outcome("read"),
            // refused: from every place alike
            Err(e) if e.contains("another result") || e.contains("PANIC") => {
                ctx.violation(&format!("{}: {}", t.module(), cut(&e, 160)), json!({"xml": x, "difference": e}));
            }
            Err(e) => {
                ctx.outcome("refused");
                let ways: Vec<bool> = [json!(x), json!({"mx_message": x, "json_data": {}})]
                    .into_iter()
                    .map(|s| st.run("parse_mx", &mut steps::message(json!({"in": s})), json!({"source": "in", "target": "out"})).is_ok())
                    .chain([st.run("parse_mx", &mut full_message(json!(x), json!({}), json!({})), json!({"source": "payload", "target": "out"})).is_ok()])
                    .collect();
                if ways != [false; 3] {
                    ctx.violation(&format!("{}: read from some places only: {}", t.module(), cut(&e, 100)), json!({"xml": x, "read from field, object, payload": ways}));
                }
            }
        }
    });
    ctx.lap("sources");
    headers_in_messages(ctx, &w, false, &|w, h, t| c17_one(w, st, t, w.min(t), h, false));
    ctx.lap("headers");
    // namespace declarations come along
    par_items(&super::values::declarations(), |(d, a, b)| {
        let t = Target::Mx(d);
        ctx.state(&("ns", d.short, a, b));
        ctx.step(1);
        ctx.trace(3);
        let r = (|| -> Result<(), String> {
            let mut j: Value = serde_json::from_str(&w.json(t, w.min(t))).map_err(|e| e.to_string())?;
            for (k, v) in [("@xmlns", a), ("@xmlns:xsi", b)] {
                match v {
                    Some(v) => j[k] = json!(v),
                    None => {
                        j.as_object_mut().map(|o| o.remove(k));
                    }
                }
            }
            let x = st.publish(&j)?;
            let want = gres(|| MxMessage::from_json(&j.to_string())).and_then(|m| gres(|| m.to_xml()))?;
            if x != want {
                return Err("published is not what the message writes".into());
            }
            let (p, _) = st.parse(&x)?;
            if p != j {
                return Err(format!("xmlns {} -> {}, xmlns:xsi {} -> {}, rest equal: {}", j["@xmlns"], p["@xmlns"], j["@xmlns:xsi"], p["@xmlns:xsi"], p["Document"] == j["Document"] && p["AppHdr"] == j["AppHdr"]));
            }
            Ok(())
        })();
        if let Err(e) = r {
            ctx.violation(&format!("{}: namespaces {a:?} {b:?}: {}", d.short, cut(&e, 60)), json!({"type": d.short, "xmlns": a, "xmlns:xsi": b, "difference": e}));
        }
    });
    ctx.lap("namespaces");
    vec![]
}

// ---------------------------------------------------------------- C18

const ENV: &str = "message";
const DOC: &str = "document";

/// Verdict of the validate step and the readers' opinion, for one text.
fn verdict_of(ctx: &Ctx, st: &Steps, t: Target, x: &str, form: &str, want: Option<bool>, name: &str, broken: bool, sources: bool) {
    let short = dt(t).short;
    ctx.step(1);
    ctx.trace(4);
    let bad = |d: String| {
        ctx.violation(
            &format!("{short} {form}: {}: {}", cut(name, 80), cut(&d, 100)),
            json!({"type": short, "form": form, "case": name, "difference": d, "xml": x}),
        )
    };
    let r = if sources {
        three_ways(st, "validate_mx", x, "validation")
    } else {
        let mut m = steps::message(json!({"in": x}));
        st.run("validate_mx", &mut m, json!({"source": "in", "target": "out"})).map(|_| {
            let mut meta = m.metadata()["validation"].clone();
            if let Some(o) = meta.as_object_mut() {
                o.remove("timestamp");
            }
            (m.data()["out"].clone(), meta)
        })
    };
    let (v, meta) = match r {
        Ok(x) => x,
        Err(e) => return bad(e),
    };
    if meta != json!({"validated": true}) {
        bad(format!("recorded {meta}"));
    }
    let got = match steps::verdict(&v) {
        Ok(b) => b,
        Err(e) => return bad(e),
    };
    ctx.outcome(if got { "valid" } else { "invalid" });
    if broken && got {
        // the whole class is one call site: the step never asks the field validation
        ctx.violation(
            &format!("{short} {form}: field constraint broken, reported valid"),
            json!({"type": short, "form": form, "case": name, "xml": x}),
        );
    }
    let readable = st.parse(x).is_ok();
    let direct = if form == ENV { gres(|| MxMessage::from_xml(x)).map(|_| ()) } else { gres(|| mx_message::xml::from_mx_xml_envelope_str(x, short)) };
    let direct2 = gres(|| mx_message::xml::xml_to_json_via_document(x, short)).is_ok();
    if !broken {
        if got != readable {
            bad(format!("valid={got}, but the parse step {}", if readable { "reads it" } else { "refuses it" }));
        }
        // a text with escaped line breaks is only for the steps
        if (got && direct.is_err() && !x.contains("\\n")) || (!got && direct.is_ok() && form == ENV) {
            bad(format!("valid={got}, but reading it directly gives {direct:?}"));
        }
        if let Some(b) = want
            && b != got
        {
            bad(format!("valid={got}, errors {}", v["errors"]));
        }
        if form == DOC && want == Some(true) && !direct2 && !x.contains("\\n") {
            bad("xml_to_json_via_document refuses it".into());
        }
    }
}

pub fn c18(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let st = &Steps::new();
    let ts = Target::all_docs();
    let text = |t: Target, n: &Node, form: &str| -> String {
        let x = tree::to_xml(w.m(t), n, t.tag());
        if form == ENV { t.wrap_xml(&w.hx, &x) } else { format!("<Document xmlns=\"urn:x\">{x}</Document>") }
    };
    // other spellings of the same wrapper; the n-th case gets the n-th of them
    let spelled = |t: Target, x: &str, form: &str, n: usize| -> String {
        let ns = format!("urn:iso:std:iso:20022:tech:xsd:{}", dt(t).full);
        let atts = [format!(" xmlns=\"{ns}\""), String::new(), format!(" xmlns='{ns}' xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\""), "\n xmlns=\"urn:x\"\n".into()];
        let decl = ["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0'?>\n", "<!-- c -->\n"][n / 4 % 4];
        let at = &atts[n % 4];
        let x = x.replace("<Document xmlns=\"urn:x\">", "<Document>").replace("<Document>", &format!("<Document{at}>"));
        if form == ENV { x } else { format!("{decl}{x}") }
    };
    // ---- readable messages without any broken constraint
    let mut items = vec![];
    for &t in &ts {
        items.push(Item { t, what: What::Min });
        items.push(Item { t, what: What::Full });
        let m = w.m(t);
        for s in generate::field_paths(m) {
            items.push(Item { t, what: What::With(s.clone()) });
            if ctx.thorough {
                if generate::field_at(m, &s).card.many() {
                    items.push(Item { t, what: What::Count(s.clone(), 2) });
                }
                if optional(m, &s) {
                    items.push(Item { t, what: What::Without(s) });
                }
            }
        }
    }
    let items: Vec<(usize, Item)> = items.into_iter().enumerate().collect();
    par_items(&items, |(k, it)| {
        if ctx.stop() {
            return;
        }
        let n = it.build(w);
        for form in [ENV, DOC] {
            let x = spelled(it.t, &text(it.t, &n, form), form, *k);
            ctx.state(&x);
            let first = matches!(it.what, What::Min | What::Full);
            verdict_of(ctx, st, it.t, &x, form, Some(true), &it.name(w), false, first || ctx.thorough);
        }
    });
    ctx.lap("valid");

    // ---- one field constraint broken
    let mut v = validation::all_broken(w, &ts, ctx.thorough);
    ctx.count("broken_constraints", v.len() as u64);
    par_items(&v, |(t, name, n)| {
        for form in [ENV, DOC] {
            let x = text(*t, n, form);
            ctx.state(&x);
            verdict_of(ctx, st, *t, &x, form, Some(false), name, true, false);
        }
    });
    v.clear();
    ctx.lap("constraints");

    // ---- unreadable: every mandatory field removed, every code and number spoilt
    let mut u: Vec<(Target, Vec<usize>, Option<&'static str>)> = vec![];
    for &t in &ts {
        let m = w.m(t);
        for s in if ctx.thorough { generate::field_paths(m) } else { field_sites(m) } {
            let f = generate::field_at(m, &s);
            if f.card.required() {
                u.push((t, s.clone(), None));
            }
            let raws: &[&'static str] = match f.ty {
                ty if m.is_enum(ty) => &["Nope", "nope nope"],
                Ty::F64 => &["x", "1,5", "--1"],
                Ty::Bool => &["maybe", "2"],
                _ => &[],
            };
            for r in raws {
                u.push((t, s.clone(), Some(r)));
            }
        }
    }
    ctx.count("unreadable_cases", u.len() as u64);
    par_items(&u, |(t, s, raw)| {
        if ctx.stop() {
            return;
        }
        let m = w.m(*t);
        let (mut n, p) = generate::with_path(m, s);
        let name = generate::path_str(m, s);
        let name = match raw {
            None => {
                n.get_mut(&p[..p.len() - 1]).fields_mut()[s[s.len() - 1]].clear();
                format!("{name} removed")
            }
            Some(r) => {
                *n.get_mut(&p) = Node::Text(r.to_string());
                format!("{name} = {r}")
            }
        };
        for form in [ENV, DOC] {
            let x = text(*t, &n, form);
            let k = name.len() + s.len();
            for x in [spelled(*t, &x, form, k), spelled(*t, &x, form, k + 5)] {
                ctx.state(&x);
                verdict_of(ctx, st, *t, &x, form, Some(false), &name, false, false);
            }
        }
    });
    ctx.lap("unreadable");

    // ---- damaged texts and texts that are no message at all: the verdict agrees with the readers
    let mut d: Vec<(Target, &str, String, String)> = vec![];
    for &t in &ts {
        for form in [ENV, DOC] {
            let x = text(t, w.min(t), form);
            let f = if form == ENV { Form::Xml } else { Form::DocXml };
            let toks = tokens(&x, f);
            for k in 0..toks.len() - 1 {
                let mut ds = vec![Damage::Cut(toks[k]), Damage::Del(toks[k], toks[k + 1]), Damage::Dup(toks[k], toks[k + 1])];
                if k + 2 < toks.len() {
                    ds.push(Damage::Swap(toks[k], toks[k + 1], toks[k + 2]));
                }
                for dm in ds {
                    d.push((t, form, format!("{dm:?}"), apply(&x, dm)));
                }
            }
            // spelled with escaped line breaks, as some transports do
            d.push((t, form, "escaped line breaks".into(), x.replace("><", ">\\n<")));
            d.push((t, form, "line breaks".into(), x.replace("><", ">\n<")));
            for (name, y) in [
                ("other release of the root", x.replace(t.tag(), &format!("{}V99", t.tag()))),
                ("type name as root", x.replace(t.tag(), &dt(t).full.replace('.', ""))),
                ("another root", x.replace(t.tag(), "NotARegisteredRoot")),
                ("lower case root", x.replace(t.tag(), &t.tag().to_lowercase())),
                ("no document", x.replace("Document", "Dokument")),
                ("empty", String::new()),
                ("white space", " \n".into()),
                ("text", "not XML at all".into()),
                ("JSON", whole_json(w, t, w.min(t)).to_string()),
                ("declaration only", "<?xml version=\"1.0\"?>".into()),
                ("empty document", "<Document></Document>".into()),
                ("empty root", format!("<Document><{}/></Document>", t.tag())),
                ("root only", tree::to_xml(w.m(t), w.min(t), t.tag())),
            ] {
                for k in 0..if name.ends_with("root") || name.ends_with("document") { 16 } else { 0 } {
                    d.push((t, form, name.into(), spelled(t, &y, form, k)));
                }
                d.push((t, form, name.into(), y));
            }
        }
    }
    ctx.count("damaged_texts", d.len() as u64);
    par_items(&d, |(t, form, name, x)| {
        if !ctx.stop() && ctx.state(x) {
            let want = match name.as_str() {
                "escaped line breaks" | "line breaks" => Some(true),
                "other release of the root" | "type name as root" | "another root" | "lower case root" | "no document" | "empty" | "white space" | "text" | "JSON" | "declaration only" | "empty document" | "root only" => Some(false),
                _ => None,
            };
            verdict_of(ctx, st, *t, x, form, want, name, false, true);
        }
    });
    ctx.lap("damaged");
    vec![]
}

// ---------------------------------------------------------------- C19

/// Spellings of a document without header.
fn doc_spellings(x: &str, ns: &str) -> Vec<String> {
    let attrs = [
        String::new(),
        format!(" xmlns=\"{ns}\""),
        format!(" xmlns='{ns}'"),
        format!("\n  xmlns = \"{ns}\"\n"),
        format!(" xmlns=\"{ns}\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"a b\""),
        " a=\"x > y\"".into(),
        " a='</Document>' b=\"&lt;Document>\"".into(),
        " ".into(),
    ];
    let around = [
        ("", ""),
        ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>", ""),
        ("<?xml version='1.0'?>\n<!-- <Envelope><AppHdr/> -->\n", "\n"),
        ("\n\t ", "  \n<!-- </Document> -->"),
        ("<!-- AppHdr -->", "<!-- <AppHdr></AppHdr> -->"),
    ];
    let inside = [("", ""), ("\n  ", "\n"), ("<!-- <PmtRtr> -->", "<!-- x -->"), ("<?pi <AppHdr> ?>", "")];
    let mut v = vec![];
    for (i, a) in attrs.iter().enumerate() {
        for (j, (b, c)) in around.iter().enumerate() {
            for (k, (d, e)) in inside.iter().enumerate() {
                if k == 0 || (i + j) % 3 == 0 || i == 0 {
                    v.push(format!("{b}<Document{a}>{d}{x}{e}</Document>{c}"));
                }
            }
        }
    }
    v
}

fn c19_one(w: &World, st: &Steps, t: Target, n: &Node, text: &str) -> Option<String> {
    let short = dt(t).short;
    let r = (|| -> Result<(), String> {
        let whole = t.wrap_xml(&w.hx, &tree::to_xml(w.m(t), n, t.tag()));
        let (a, ta) = st.parse(&whole).map_err(|e| format!("parsing the message: {e}"))?;
        let (b, tb) = st.parse(text).map_err(|e| format!("parsing the document: {e}"))?;
        if ta != tb || ta != short {
            return Err(format!("types {ta} and {tb}"));
        }
        if b != json!({"Document": a["Document"]}) {
            return Err(format!("parsed contents differ: {}", first_diff(&Some(json!({"Document": a["Document"]})), &Some(b))));
        }
        if let Some(d) = tree::json_diff(w.m(t), w.m(t).root, n, &b["Document"][t.tag()], "") {
            return Err(format!("parsed document: {d}"));
        }
        let (va, vb) = (st.validate(&whole)?, st.validate(text)?);
        if steps::verdict(&va)? != steps::verdict(&vb)? {
            return Err(format!("message is {va}, document is {vb}"));
        }
        match gres(|| mx_message::xml::xml_to_json_via_document(text, short)) {
            Ok(v) if v == b => {}
            r => return Err(format!("direct conversion: {}", cut(format!("{r:?}"), 200))),
        }
        gres(|| mx_message::xml::from_mx_xml_envelope_str(text, short)).map_err(|e| format!("from_mx_xml_envelope_str: {e}"))?;
        match gres(|| pc::extract_message_type_from_xml(text)) {
            Ok(x) if x == short => {}
            r => return Err(format!("extract_message_type_from_xml: {r:?}")),
        }
        match gres(|| pc::extract_message_type(&b)) {
            Ok(x) if x == short => {}
            r => return Err(format!("extract_message_type: {r:?}")),
        }
        // publishing
        let (pa, pb) = (st.publish(&a).map_err(|e| format!("publishing the message: {e}"))?, st.publish(&b).map_err(|e| format!("publishing the document: {e}"))?);
        let (xa, xb) = (refmodel::xmlr::parse(&pa)?, refmodel::xmlr::parse(&pb)?);
        let (da, db) = (xa.find("Document").ok_or("no document")?, xb.find("Document").ok_or("no document")?);
        if format!("{:?}", da.children) != format!("{:?}", db.children) || xb.find("AppHdr").is_some() {
            return Err(format!("published documents differ: {} / {}", cut(format!("{da:?}"), 300), cut(format!("{db:?}"), 300)));
        }
        match st.parse(&pb) {
            Ok((v, k)) if v == b && k == short => {}
            r => return Err(format!("published document parsed again: {}", cut(format!("{r:?}"), 200))),
        }
        // a full message is required here
        let refused = |what: &str, r: Result<(), String>| match r {
            Ok(()) => Err(format!("{what} accepts a document without header")),
            Err(e) if e.starts_with("PANIC") => Err(format!("{what}: {e}")),
            Err(_) => Ok(()),
        };
        refused("from_xml", gres(|| MxMessage::from_xml(text)).map(|_| ()))?;
        refused("from_json", gres(|| MxMessage::from_json(&b.to_string())).map(|_| ()))?;
        refused("peek_message_type_from_xml", gres(|| env::peek_message_type_from_xml(text)).map(|_| ()))?;
        refused("peek_message_type_from_json", gres(|| env::peek_message_type_from_json(&b.to_string())).map(|_| ()))?;
        Ok(())
    })();
    r.err()
}

pub fn c19(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let st = &Steps::new();
    let ts = Target::all_docs();
    let plain = |t: Target, n: &Node| format!("<Document>{}</Document>", tree::to_xml(w.m(t), n, t.tag()));
    let mut items = vec![];
    for &t in &ts {
        items.push(Item { t, what: What::Full });
        for s in if ctx.thorough { generate::field_paths(w.m(t)) } else { field_sites(w.m(t)) } {
            items.push(Item { t, what: What::With(s) });
        }
    }
    items.extend(rotations(&w, &ts, if ctx.thorough { 1 } else { 6 }));
    explore(ctx, w, &items, 14, &|w, t, n| c19_one(w, st, t, n, &plain(t, n)));
    ctx.lap("contents");
    // spellings
    let mut v = vec![];
    for &t in &ts {
        for (k, s) in doc_spellings(&tree::to_xml(w.m(t), w.min(t), t.tag()), &format!("urn:iso:std:iso:20022:tech:xsd:{}", dt(t).full)).into_iter().enumerate() {
            v.push((t, k, s));
        }
    }
    ctx.count("spellings", v.len() as u64);
    par_items(&v, |(t, k, s)| {
        if ctx.stop() {
            return;
        }
        ctx.state(s);
        ctx.step(1);
        ctx.trace(14);
        if let Some(d) = c19_one(w, st, *t, w.min(*t), s) {
            ctx.violation(&format!("{} spelling {k}: {}", dt(*t).short, cut(&d, 120)), json!({"type": dt(*t).short, "text": s, "difference": d}));
        }
    });
    ctx.lap("spellings");
    // texts all over the smallest message
    let mut v = vec![];
    for &t in &ts {
        for k in 0..TEXTS.len() {
            v.push((t, k));
        }
    }
    par_items(&v, |(t, k)| {
        if ctx.stop() {
            return;
        }
        let n = rotate(w.m(*t), w.min(*t), *k, TEXTS);
        ctx.state(&(t.module(), k));
        ctx.step(1);
        ctx.trace(14);
        if let Some(d) = c19_one(w, st, *t, &n, &plain(*t, &n)) {
            ctx.violation(&format!("{}: {}", dt(*t).short, cut(&d, 120)), json!({"type": dt(*t).short, "rotation": k, "difference": d}));
        }
    });
    ctx.lap("texts");
    // unreadable documents are refused the same with and without header
    let mut v = vec![];
    for &t in &ts {
        let m = w.m(t);
        for s in field_sites(m) {
            if generate::field_at(m, &s).card.required() {
                v.push((t, s));
            }
        }
    }
    par_items(&v, |(t, s)| {
        if ctx.stop() {
            return;
        }
        let m = w.m(*t);
        let (mut n, p) = generate::with_path(m, s);
        n.get_mut(&p[..p.len() - 1]).fields_mut()[s[s.len() - 1]].clear();
        let (x, d) = (t.wrap_xml(&w.hx, &tree::to_xml(m, &n, t.tag())), plain(*t, &n));
        ctx.state(&d);
        ctx.step(1);
        ctx.trace(6);
        let short = dt(*t).short;
        let r = [
            ("parse step", st.parse(&x).is_ok(), st.parse(&d).is_ok()),
            ("validate step", st.validate(&x).is_ok_and(|v| v["valid"] == json!(true)), st.validate(&d).is_ok_and(|v| v["valid"] == json!(true))),
            ("reading", gres(|| MxMessage::from_xml(&x)).is_ok(), gres(|| mx_message::xml::from_mx_xml_envelope_str(&d, short)).is_ok()),
            ("publish step", st.publish(&whole_json(w, *t, &n)).is_ok(), st.publish(&doc_json(w, *t, &n)).is_ok()),
        ];
        for (what, a, b) in r {
            if a != b {
                ctx.violation(&format!("{short} without {}: {what}: message {a}, document {b}", generate::path_str(m, s)), json!({"xml": d}));
            }
        }
    });
    ctx.lap("unreadable");
    // every document with every type asked for
    let mut v = vec![];
    for &a in &ts {
        for &b in &ts {
            if a.module() != b.module() {
                v.push((a, b));
            }
        }
    }
    par_items(&v, |(a, b)| {
        for n in [w.min(*a), w.full(*a)] {
            for x in [plain(*a, n), w.xml(*a, n)] {
                ctx.state(&(a.module(), b.module(), x.len()));
                ctx.step(2);
                ctx.trace(2);
                let asked = dt(*b).short;
                if let Ok(v) = gres(|| mx_message::xml::xml_to_json_via_document(&x, asked)) {
                    ctx.violation(&format!("{} read as {asked} on request", dt(*a).short), json!({"xml": x, "result": v}));
                }
                if gres(|| mx_message::xml::from_mx_xml_envelope_str(&x, asked)).is_ok() {
                    ctx.violation(&format!("{} accepted as {asked}", dt(*a).short), json!({"xml": x}));
                }
            }
        }
    });
    vec![]
}

// ---------------------------------------------------------------- C22

const OPS: &[&str] = &[
    "var", "==", "!=", "===", "!==", "!", "!!", "or", "and", "?:", "if", ">", ">=", "<", "<=", "max", "min", "+", "-", "*", "/", "%", "map",
    "filter", "reduce", "all", "none", "some", "merge", "in", "cat", "substr", "log", "method", "preserve", "missing", "missing_some", "fake",
];
fn is_op(v: &Value) -> bool {
    v.as_object().is_some_and(|o| o.len() == 1 && OPS.contains(&o.keys().next().unwrap().as_str()))
}
/// The generate step on one scenario, into a message with other content.
fn generated(st: &Steps, scenario: &Value) -> Result<Value, String> {
    generated_over(st, scenario, json!("old"))
}
fn generated_over(st: &Steps, scenario: &Value, prior: Value) -> Result<Value, String> {
    let mut m = full_message(scenario.clone(), json!({"out": prior, "keep": [1]}), json!({"keep": 2}));
    let before = m.clone();
    match st.run("generate_mx", &mut m, json!({"target": "out"})) {
        Err(e) => {
            if m.context != before.context || m.payload != before.payload {
                return Err(format!("a failed step changed the message: {e}"));
            }
            Err(e)
        }
        Ok((code, ch)) => {
            let v = m.data()["out"].clone();
            if code != 200 || ch.len() != 1 || *ch[0].new_value != v || *ch[0].old_value != prior || &*ch[0].path != "data.out" {
                return Err("PANIC: the reported change is wrong".into());
            }
            if m.data()["keep"] != json!([1]) || *m.metadata() != json!({"keep": 2}) || m.payload != before.payload || m.data().as_object().map(|o| o.len()) != Some(2) {
                return Err("PANIC: changed more than the target".into());
            }
            Ok(v)
        }
    }
}
fn scenario(vars: Value, schema: Value) -> Value {
    json!({"metadata": {"name": "n", "description": "d"}, "variables": vars, "schema": schema})
}

fn c22_one(w: &World, st: &Steps, t: Target, n: &Node, flow: bool) -> Option<String> {
    let r = (|| -> Result<(), String> {
        for v in [whole_json(w, t, n), doc_json(w, t, n)] {
            let g = generated(st, &scenario(json!({}), v.clone()))?;
            if g != v {
                return Err(format!("generated data differs: {}", first_diff(&Some(v), &Some(g))));
            }
            if !flow {
                continue;
            }
            // the whole pipeline on one message
            let mut m = full_message(scenario(json!({}), v.clone()), json!({}), json!({}));
            for (s, i) in [
                ("generate_mx", json!({"target": "j"})),
                ("publish_mx", json!({"source": "j", "target": "x"})),
                ("validate_mx", json!({"source": "x", "target": "v"})),
                ("parse_mx", json!({"source": "x", "target": "p"})),
            ] {
                st.run(s, &mut m, i).map_err(|e| format!("{s}: {e}"))?;
            }
            if m.data()["j"] != v {
                return Err("later steps changed the generated data".into());
            }
            if !steps::verdict(&m.data()["v"])? {
                return Err(format!("generated message invalid: {}", m.data()["v"]));
            }
            let p = &m.data()["p"];
            if let Some(d) = tree::json_diff(w.m(t), w.m(t).root, n, &p["Document"][t.tag()], "") {
                return Err(format!("after the pipeline: {d}"));
            }
            if m.metadata()["p"]["message_type"] != json!(dt(t).short) {
                return Err(format!("recorded {}", m.metadata()["p"]));
            }
        }
        Ok(())
    })();
    r.err()
}

/// Compare a schema with what was generated from it: structure and constants, and every variable
/// with the same value wherever it stands.
fn follows(schema: &Value, got: &Value, vars: &mut std::collections::BTreeMap<String, Value>, at: &str) -> Option<String> {
    if is_op(schema) {
        if let Some(k) = schema.get("var").and_then(|v| v.as_str()) {
            let e = vars.entry(k.to_string()).or_insert_with(|| got.clone());
            return (e != got).then(|| format!("{at}: variable {k} is {e} and {got}"));
        }
        return None;
    }
    match (schema, got) {
        (Value::Object(a), Value::Object(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at}: members {:?} became {:?}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>()));
            }
            a.iter().find_map(|(k, v)| match b.get(k) {
                None => Some(format!("{at}/{k} lost")),
                Some(x) => follows(v, x, vars, &format!("{at}/{k}")),
            })
        }
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at}: {} items became {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| follows(x, y, vars, &format!("{at}[{i}]")))
        }
        (a, b) => (a != b).then(|| format!("{at}: {a} became {b}")),
    }
}
fn leaf_pointers(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => o.iter().for_each(|(k, x)| leaf_pointers(x, format!("{at}/{k}"), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaf_pointers(x, format!("{at}/{i}"), out)),
        _ => out.push(at),
    }
}

pub fn c22(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let st = &Steps::new();
    let ts = Target::all_docs();
    // ---- constants
    let items = structural_with(w, &ts, ctx.thorough, false);
    ctx.sample(|| json!(items.iter().step_by(items.len() / 8 + 1).map(|i| i.name(w)).collect::<Vec<_>>()));
    explore(ctx, w, &items, 2, &|w, t, n| c22_one(w, st, t, n, false));
    ctx.lap("constants");
    let mut items = rotations(&w, &ts, 1);
    for &t in &ts {
        items.push(Item { t, what: What::Full });
        for s in if ctx.thorough { generate::field_paths(w.m(t)) } else { field_sites(w.m(t)) } {
            items.push(Item { t, what: What::With(s) });
        }
    }
    explore(ctx, w, &items, 10, &|w, t, n| c22_one(w, st, t, n, true));
    ctx.lap("pipeline");

    // ---- constants of every JSON kind, alone and nested
    let mut consts: Vec<Value> = vec![
        json!(0), json!(-1), json!(1.5), json!(0.1), json!(1e300), json!(5e-324), json!(u64::MAX), json!(i64::MIN), json!(100000000000000000u64), json!(1.0),
        json!(true), json!(false), json!([]), json!({}), json!([[], {}, [1]]), json!({"a": {}}), json!({"x": 1}), json!({"vars": 1}), json!({"Var": "a"}),
        json!({"var": "a", "b": 1}), json!({"fake": ["uuid"], "b": 1}), json!([1, "1", 1.0, true]),
    ];
    consts.extend(TEXTS.iter().map(|t| json!(t)));
    let mut schemas: Vec<Value> = vec![];
    for c in &consts {
        schemas.extend([c.clone(), json!([c]), json!({"k": c}), json!({"k": c, "l": [c, {"m": c}]}), json!([c, c])]);
        if c.as_str().is_some_and(|s| !s.is_empty()) {
            let k = c.as_str().unwrap();
            schemas.push(json!({k: 1, "other": {k: "x", "y": k}}));
        }
    }
    for (i, a) in consts.iter().enumerate() {
        for b in consts.iter().skip(i % 3).step_by(if ctx.thorough { 1 } else { 5 }) {
            schemas.push(json!({"a": a, "b": [b, a]}));
        }
    }
    ctx.count("constant_schemas", schemas.len() as u64);
    par_items(&schemas, |s| {
        if is_op(s) {
            return;
        }
        ctx.state(&s.to_string());
        ctx.step(1);
        ctx.trace(1);
        match generated(st, &scenario(json!({}), s.clone())) {
            Ok(g) if g == *s => {}
            r => ctx.violation(&format!("constant schema {}", cut(s.to_string(), 80)), json!({"schema": s, "got": format!("{r:?}")})),
        }
    });
    ctx.lap("kinds");

    // ---- into a target that holds something already: nothing of it remains
    let mut msgs: Vec<Value> = vec![];
    for (i, &t) in ts.iter().enumerate() {
        msgs.push(whole_json(w, t, w.min(t)));
        msgs.push(doc_json(w, t, w.full(t)));
        if i % 5 == 0 || ctx.thorough {
            msgs.push(whole_json(w, t, w.full(t)));
        }
    }
    let c = json!({"a": 1, "b": {"c": [1, 2, {"d": "x"}], "e": true}, "f": [], "g": {}});
    for p in ["", "/a", "/b", "/b/c", "/b/c/2", "/b/c/2/d", "/b/e", "/f", "/g"] {
        for x in [json!(null), json!(7), json!("x"), json!([]), json!([3]), json!([1, 2, {"d": "x", "h": 1}, 4]), json!({}), json!({"z": 1}), json!({"c": [9]})] {
            let mut v = c.clone();
            *v.pointer_mut(p).unwrap() = x;
            msgs.push(v);
        }
    }
    let idx: Vec<usize> = (0..msgs.len()).collect();
    par_items(&idx, |i| {
        for (j, prior) in msgs.iter().enumerate() {
            if ctx.stop() || is_op(&msgs[*i]) || msgs[*i].to_string().contains("null") || (!ctx.thorough && (i + j) % 2 == 1 && *i < 100 && j < 100 && i / 2 != j / 2) {
                continue;
            }
            ctx.state(&("prior", i, j));
            ctx.step(1);
            ctx.trace(1);
            match generated_over(st, &scenario(json!({}), msgs[*i].clone()), prior.clone()) {
                Ok(g) if g == msgs[*i] => {}
                r => ctx.violation(
                    &format!("generated over an earlier result: {}", cut(format!("{r:?}"), 80)),
                    json!({"schema": msgs[*i], "earlier": prior, "got": format!("{r:?}")}),
                ),
            }
        }
    });
    ctx.lap("earlier results");

    // ---- variables: every leaf of every type through a variable, alone and all at once
    let mut v: Vec<(Target, Option<usize>)> = vec![];
    for &t in &ts {
        let mut ls = vec![];
        leaf_pointers(&whole_json(w, t, w.full(t)), String::new(), &mut ls);
        v.push((t, None));
        let step = if ctx.thorough { 1 } else { 1 + ls.len() / 24 };
        v.extend((0..ls.len()).step_by(step).map(|i| (t, Some(i))));
    }
    ctx.count("variable_scenarios", v.len() as u64);
    par_items(&v, |(t, one)| {
        if ctx.stop() {
            return;
        }
        let v = whole_json(w, *t, w.full(*t));
        let mut ls = vec![];
        leaf_pointers(&v, String::new(), &mut ls);
        let mut schema = v.clone();
        let mut vars = serde_json::Map::new();
        vars.insert("unused".into(), json!("u"));
        for (i, p) in ls.iter().enumerate() {
            if one.is_none_or(|k| k == i) {
                let c = v.pointer(p).unwrap().clone();
                if c == json!("") {
                    continue;
                }
                vars.insert(format!("v{i}"), c);
                *schema.pointer_mut(p).unwrap() = json!({"var": format!("v{i}")});
            }
        }
        ctx.state(&(t.module(), one, "vars"));
        ctx.step(1);
        ctx.trace(1);
        match generated(st, &scenario(Value::Object(vars), schema)) {
            Ok(g) if g == v => {}
            Ok(g) => ctx.violation(&format!("{} with variables: {}", dt(*t).short, cut(first_diff(&Some(v.clone()), &Some(g)), 120)), json!({"leaf": one.map(|i| ls[i].clone())})),
            Err(e) => ctx.violation(&format!("{} with variables: {}", dt(*t).short, cut(&e, 120)), json!({"leaf": one.map(|i| ls[i].clone())})),
        }
    });
    // a made-up value is drawn once and is the same wherever its variable stands
    for f in [json!({"fake": ["uuid"]}), json!({"fake": ["f64", 1.0, 1e9]}), json!({"fake": ["first_name"]}), json!({"fake": ["iban"]}), json!({"cat": [{"fake": ["uuid"]}, "-x"]})] {
        let s = json!({"a": {"var": "v"}, "b": [{"var": "v"}, {"c": {"var": "v"}, "d": 1}], "e": {"f": {"var": "v"}}});
        for _ in 0..4 {
            ctx.step(1);
            ctx.trace(1);
            match generated(st, &scenario(json!({"v": f, "u": {"fake": ["uuid"]}}), s.clone())) {
                Ok(g) if g["a"] == g["b"][0] && g["a"] == g["b"][1]["c"] && g["a"] == g["e"]["f"] && !g["a"].is_null() && g["b"][1]["d"] == json!(1) => {}
                r => ctx.violation(&format!("variable {f} is not consistent"), json!({"got": format!("{r:?}")})),
            }
        }
    }
    ctx.lap("variables");

    // ---- the scenarios that come with the library: structure, constants and variables
    let mut files: Vec<std::path::PathBuf> = vec![];
    if let Ok(ds) = std::fs::read_dir("/repo/test_scenarios") {
        for d in ds.flatten() {
            if let Ok(fs) = std::fs::read_dir(d.path()) {
                files.extend(fs.flatten().map(|f| f.path()).filter(|p| p.extension().is_some_and(|e| e == "json") && p.file_name().is_some_and(|n| n != "index.json")));
            }
        }
    }
    files.sort();
    ctx.count("shipped_scenarios", files.len() as u64);
    par_items(&files, |p| {
        let Some(v) = std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else { return };
        if v.get("schema").is_none() {
            return;
        }
        for _ in 0..if ctx.thorough { 10 } else { 2 } {
            ctx.state(&p);
            ctx.step(1);
            ctx.trace(1);
            // a scenario may itself be unusable, but not change the data it describes
            match generated(st, &v) {
                Err(e) if e.starts_with("PANIC") => ctx.violation(&format!("{}: {e}", p.display()), json!({})),
                Err(_) => ctx.outcome("scenario refused"),
                Ok(g) => {
                    if let Some(d) = follows(&v["schema"], &g, &mut Default::default(), "") {
                        ctx.violation(&format!("{}: {}", p.display(), cut(&d, 120)), json!({"difference": d}));
                    }
                }
            }
        }
    });
    ctx.lap("shipped");

    // ---- unusable scenarios
    let ok = whole_json(w, ts[0], w.min(ts[0]));
    let mut un: Vec<Value> = vec![
        Value::Null, json!(1), json!(true), json!("text"), json!(""), json!([]), json!([scenario(json!({}), ok.clone())]), json!({}),
        json!({"variables": {}}), json!({"metadata": {}, "variables": {}}), json!({"Schema": ok}), json!({"schema ": ok}),
        json!({"variables": [], "schema": ok}), json!({"variables": "x", "schema": ok}), json!({"variables": 3, "schema": ok}),
        json!(ok.to_string()), json!(scenario(json!({}), ok.clone()).to_string()),
    ];
    let bad_parts = [
        json!({"fake": ["nosuch"]}), json!({"fake": []}), json!({"fake": ["nosuch", 1, 2]}), json!({"fake": [""]}), json!({"fake": ["f64", "x", "y"]}),
        json!({"fake": [7]}), json!({"fake": null}), json!({"fake": {}}),
    ];
    for b in &bad_parts {
        un.push(scenario(json!({}), b.clone()));
        un.push(scenario(json!({"v": b}), json!({"a": {"var": "v"}})));
        let mut ls = vec![];
        leaf_pointers(&ok, String::new(), &mut ls);
        for p in ls {
            let mut s = ok.clone();
            *s.pointer_mut(&p).unwrap() = b.clone();
            un.push(scenario(json!({}), s));
        }
    }
    ctx.count("unusable_scenarios", un.len() as u64);
    par_items(&un, |s| {
        ctx.state(&s.to_string());
        ctx.step(1);
        ctx.trace(1);
        match generated(st, s) {
            Err(e) if e.starts_with("ERR") => ctx.outcome("refused"),
            r => ctx.violation(&format!("unusable scenario {}: {}", cut(s.to_string(), 60), cut(format!("{r:?}"), 80)), json!({"scenario": s, "got": format!("{r:?}")})),
        }
    });
    vec!["datafake's own operators and random methods are not judged beyond being drawn once per variable"]
}
