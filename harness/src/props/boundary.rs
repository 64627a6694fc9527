//! C14: the document type follows the root element.  C15: damaged input.
use super::tables::neighbours;
use crate::common::*;
use crate::steps::{self, Steps};
use crate::targets::*;
use mx_message::mx_envelope::{self as env, MxMessage};
use mx_message::plugin::common as pc;
use refmodel::engine::{Ctx, par_items};
use refmodel::generate;
use refmodel::schema::*;
use refmodel::tree::{self, Node};
use refmodel::xmlr::XNode;
use serde_json::{Value, json};

pub fn hdr_field(w: &World, name: &str) -> usize {
    let hm = w.s.get(APPHDR);
    hm.fields(hm.root).iter().position(|f| f.name == name).unwrap_or_else(|| panic!("header has no {name}"))
}
/// minimal header with two of its texts replaced
pub fn header(w: &World, id: &str, biz: Option<&str>) -> Node {
    let hm = w.s.get(APPHDR);
    let mut h = generate::minimal(hm);
    h.fields_mut()[hdr_field(w, "MsgDefIdr")] = vec![Node::Text(id.into())];
    if let Some(b) = biz {
        h.fields_mut()[hdr_field(w, "BizMsgIdr")] = vec![Node::Text(b.into())];
    }
    h
}
pub fn hdr_json(w: &World, h: &Node) -> Value {
    let hm = w.s.get(APPHDR);
    tree::to_json(hm, hm.root, h)
}
pub fn hdr_xml(w: &World, h: &Node) -> String {
    tree::to_xml(w.s.get(APPHDR), h, "AppHdr")
}
fn inner(xml: &str) -> &str {
    let a = xml.find('>').unwrap() + 1;
    &xml[a..xml.rfind("</").unwrap()]
}
pub fn short_of(id: &str) -> String {
    DOC_TYPES.iter().find(|d| d.short == id || d.full == id).map(|d| d.short).unwrap_or(id).to_string()
}
fn doc(t: Target) -> &'static DocType {
    match t {
        Target::Mx(d) => d,
        _ => unreachable!(),
    }
}

pub fn c14(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all_docs();
    let st = &Steps::new();

    // ---- header identifier x document type, both formats, reading / peeking / workflow steps
    let mut ids: Vec<String> = DOC_TYPES.iter().flat_map(|d| [d.short.to_string(), d.full.to_string()]).collect();
    ids.extend(
        ["", "x", "pacs", "pacs.999.001.01", "pacs.008.001.09", "PACS.008.001.08", "pacs.008.001.08.stp", "xpacs.008", "pacs.009 ADV", "head.001.001.02",
         "FICdtTrf", "<FICdtTrf>", "<Document><PmtRtr>", "</AppHdr>", "a&b", "\"", "é.001", "$value"].map(String::from),
    );
    let mut v: Vec<(Target, &String)> = vec![];
    for &t in &ts {
        for id in &ids {
            v.push((t, id));
        }
    }
    par_items(&v, |(t, id)| {
        if ctx.stop() {
            return;
        }
        let (t, d) = (*t, doc(*t));
        let m = w.m(t);
        let h = header(w, id, None);
        let mut docs = vec![w.min(t)];
        if d.full == id.as_str() || d.short == id.as_str() || ctx.thorough {
            docs.push(w.full(t));
        }
        let bad = |what: &str, d2: String| {
            ctx.violation(
                &format!("{} with header identifier {id:?}: {what}", d.short),
                json!({"document": d.short, "header identifier": id, "what": what, "difference": d2}),
            )
        };
        for n in docs {
            let js = t.wrap_json(&hdr_json(w, &h), &tree::to_json(m, m.root, n));
            let xs = t.wrap_xml(&hdr_xml(w, &h), &tree::to_xml(m, n, t.tag()));
            ctx.state(&(t.module(), id, n.fields().len()));
            ctx.step(6);
            ctx.trace(6);
            for (what, r) in [("from_json", gres(|| MxMessage::from_json(&js))), ("from_xml", gres(|| MxMessage::from_xml(&xs)))] {
                let msg = match r {
                    Ok(x) => x,
                    Err(e) => {
                        // an identifier that is empty or white space may be refused as a missing text
                        ctx.outcome("refused");
                        if !id.is_empty() {
                            bad(what, e);
                        }
                        continue;
                    }
                };
                ctx.outcome("read");
                if doc_variant(&msg.document) != d.short {
                    bad(what, format!("read as {}", doc_variant(&msg.document)));
                    continue;
                }
                let want_ns = format!("urn:iso:std:iso:20022:tech:xsd:{}", d.full);
                if msg.document.namespace() != want_ns {
                    bad(what, format!("document namespace {}", msg.document.namespace()));
                }
                match gres(|| msg.message_type().map(String::from)) {
                    Ok(x) if &x == *id => {}
                    r => bad(what, format!("message_type() = {r:?}")),
                }
                match msg.json() {
                    Ok(j) => {
                        if let Some(x) = tree::json_diff(m, m.root, n, t.doc_json(&j), "") {
                            bad(what, x);
                        }
                    }
                    Err(e) => bad(what, e),
                }
                match msg.xml().and_then(|x| gres(|| MxMessage::from_xml(&x))) {
                    Ok(x) if doc_variant(&x.document) == d.short && x.app_hdr == msg.app_hdr => {}
                    Ok(x) => bad(what, format!("written and read again as {}", doc_variant(&x.document))),
                    Err(_) if id.is_empty() => {}
                    Err(e) => bad(what, format!("written and read again: {e}")),
                }
            }
            for (what, r) in [
                ("peek_message_type_from_json", gres(|| env::peek_message_type_from_json(&js))),
                ("peek_message_type_from_xml", gres(|| env::peek_message_type_from_xml(&xs))),
            ] {
                match r {
                    Ok(x) if x == short_of(id) => {}
                    Err(_) if id.is_empty() => {}
                    r => bad(what, format!("{r:?}")),
                }
            }
            match gres(|| pc::extract_message_type_from_xml(&xs)) {
                Ok(x) if x == d.short => {}
                r => bad("extract_message_type_from_xml", format!("{r:?}")),
            }
            match st.parse(&xs) {
                Ok((j, ty)) => {
                    if ty != d.short {
                        bad("parse step", format!("type {ty}"));
                    }
                    if let Some(x) = tree::json_diff(m, m.root, n, t.doc_json(&j), "") {
                        bad("parse step", x);
                    }
                }
                Err(_) if id.is_empty() => {}
                Err(e) => bad("parse step", e),
            }
        }
    });
    ctx.lap("header x document");

    // ---- a root that is not registered is an error, everywhere
    let mut v: Vec<(Target, String)> = vec![];
    let known: Vec<&str> = DOC_TYPES.iter().flat_map(|d| [d.element, d.rust]).chain(["FinInstnCdtTrf", "Rct", "ClmNonRct", "ClaimNonReceiptV07"]).collect();
    for &t in &ts {
        let mut ns = neighbours(t.tag());
        for d in DOC_TYPES {
            ns.extend([d.short.replace('.', ""), d.module.into(), d.element.to_lowercase(), format!("{}V08", d.element), format!("{}x", d.rust), format!("{}{}", d.element, t.tag())]);
        }
        ns.extend(["Document", "AppHdr", "Envelope", "Unknown", "x", "_", "xml", "Pacs008", "Pacs009", "Camt053", "GrpHdr"].map(String::from));
        ns.sort();
        ns.dedup();
        for x in ns {
            let name_ok = x.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') && x.chars().all(|c| c.is_alphanumeric() || matches!(c, '_' | '.' | '-'));
            if name_ok && !known.contains(&x.as_str()) {
                v.push((t, x));
            }
        }
    }
    ctx.count("unregistered_roots", v.len() as u64);
    par_items(&v, |(t, root)| {
        if ctx.stop() {
            return;
        }
        let t = *t;
        let m = w.m(t);
        let n = w.min(t);
        ctx.state(&("root", t.module(), root));
        ctx.step(1);
        ctx.trace(22);
        let dx = tree::to_xml(m, n, root);
        let xs = t.wrap_xml(&w.hx2, &dx);
        let only = format!("<Document>{dx}</Document>");
        let ns = format!("<Document xmlns=\"urn:iso:std:iso:20022:tech:xsd:{}\">", doc(t).full);
        let (xn, onlyn) = (xs.replace("<Document>", &ns), format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n{}", only.replace("<Document>", &ns)));
        let js = json!({"AppHdr": w.hj2, "Document": {root.as_str(): tree::to_json(m, m.root, n)}});
        let bad = |what: &str, got: String| {
            ctx.violation(
                &format!("root element {root:?} with the content of {}: {what}", t.tag()),
                json!({"root": root, "content of": t.tag(), "what": what, "got": got}),
            )
        };
        let ck = |what: &str, r: Result<String, String>| match r {
            Ok(x) => bad(what, x),
            Err(e) if e.starts_with("PANIC") => bad(what, e),
            Err(_) => ctx.outcome("refused"),
        };
        let dbg = |r: Result<MxMessage, String>| r.map(|x| format!("read as {}", doc_variant(&x.document)));
        ck("from_xml", dbg(gres(|| MxMessage::from_xml(&xs))));
        ck("from_json", dbg(gres(|| MxMessage::from_json(&js.to_string()))));
        ck("extract_message_type_from_xml", gres(|| pc::extract_message_type_from_xml(&xs)));
        ck("extract_message_type", gres(|| pc::extract_message_type(&js)));
        ck("parse step", st.parse(&xs).map(|x| x.1));
        ck("parse step, document only", st.parse(&only).map(|x| x.1));
        ck("publish step", st.publish(&js));
        for (what, x) in [("message", &xs), ("document", &only), ("message with namespace", &xn), ("document with namespace", &onlyn)] {
            ck(&format!("xml_to_json_via_document of a {what}"), gres(|| mx_message::xml::xml_to_json_via_document(x, doc(t).short)).map(|v| v.to_string()));
            ck(&format!("from_mx_xml_envelope_str of a {what}"), gres(|| mx_message::xml::from_mx_xml_envelope_str(x, doc(t).short)).map(|_| "accepted".into()));
        }
        ck("publish step, document only", st.publish(&json!({"Document": js["Document"]})));
        ck("from_xml, with namespace", dbg(gres(|| MxMessage::from_xml(&xn))));
        ck("parse step, with namespace", st.parse(&xn).map(|x| x.1));
        ck("parse step, document with namespace", st.parse(&onlyn).map(|x| x.1));
        for (what, c) in [("validate step", &xs), ("validate step, document only", &only), ("validate step, with namespace", &xn), ("validate step, document with namespace", &onlyn)] {
            match st.validate(c).and_then(|x| steps::verdict(&x)) {
                Ok(false) => {}
                r => bad(what, format!("{r:?}")),
            }
        }
    });
    ctx.lap("unregistered roots");

    // ---- distractors
    distractors(ctx, w, st);
    ctx.lap("distractors");

    // ---- the content of one type under the root of another: read as that root's type or refused
    let mut v = vec![];
    for &a in &ts {
        for &b in &ts {
            if a.module() != b.module() {
                v.push((a, b));
            }
        }
    }
    par_items(&v, |(a, b)| {
        for n in [w.min(*a), w.full(*a)] {
            let m = w.m(*a);
            ctx.step(2);
            ctx.trace(4);
            let dx = tree::to_xml(m, n, b.tag());
            let xs = b.wrap_xml(&w.hx2, &dx);
            let js = json!({"AppHdr": w.hj2, "Document": {b.tag(): tree::to_json(m, m.root, n)}}).to_string();
            for (what, r) in [("from_xml", gres(|| MxMessage::from_xml(&xs))), ("from_json", gres(|| MxMessage::from_json(&js)))] {
                match r {
                    Ok(x) if doc_variant(&x.document) != doc(*b).short => ctx.violation(
                        &format!("content of {} under root {}: {what}", a.tag(), b.tag()),
                        json!({"read as": doc_variant(&x.document)}),
                    ),
                    Ok(_) => ctx.outcome("read as the root's type"),
                    Err(e) if e.starts_with("PANIC") => ctx.violation(&format!("content of {} under root {}: {what}", a.tag(), b.tag()), json!({"got": e})),
                    Err(_) => ctx.outcome("refused"),
                }
            }
            match gres(|| pc::extract_message_type_from_xml(&xs)) {
                Ok(x) if x == doc(*b).short => {}
                r => ctx.violation(&format!("content of {} under root {}: extract_message_type_from_xml", a.tag(), b.tag()), json!({"got": format!("{r:?}")})),
            }
        }
    });
    ctx.lap("foreign content");

    // ---- header identifiers one edit away from a registered one, and their namespaces, peeked at
    let mut v: Vec<String> = vec![];
    for d in DOC_TYPES {
        v.extend(neighbours(d.full));
        v.extend(neighbours(d.short));
        v.extend(["urn:iso:std:iso:20022:tech:xsd:", "urn:swift:xsd:", "MX ", "swift.cbprplus.", "\t"].map(|p| format!("{p}{}", d.full)));
        v.extend(["urn:iso:std:iso:20022:tech:xsd:", "MX "].map(|p| format!("{p}{}", d.short)));
    }
    v.sort();
    v.dedup();
    let t = ts[0];
    let dx = tree::to_xml(w.m(t), w.min(t), t.tag());
    let dj = tree::to_json(w.m(t), w.m(t).root, w.min(t));
    par_items(&v, |id| {
        let h = header(w, id, None);
        ctx.state(&("peeked", id));
        ctx.step(2);
        ctx.trace(4);
        let (js, xs) = (t.wrap_json(&hdr_json(w, &h), &dj), t.wrap_xml(&hdr_xml(w, &h), &dx));
        // white space around a text is not part of it in XML
        let trimmed = id.trim();
        for (what, want, r) in [
            ("peek_message_type_from_json", id.as_str(), gres(|| env::peek_message_type_from_json(&js))),
            ("peek_message_type_from_xml", trimmed, gres(|| env::peek_message_type_from_xml(&xs))),
            ("from_json", id.as_str(), gres(|| MxMessage::from_json(&js)).map(|m| short_of(m.message_type().unwrap_or_default()))),
            ("from_xml", trimmed, gres(|| MxMessage::from_xml(&xs)).map(|m| short_of(m.message_type().unwrap_or_default().trim()))),
        ] {
            match r {
                Ok(x) if x == short_of(want) || (want == trimmed && short_of(x.trim()) == short_of(want)) => ctx.outcome("peeked"),
                Err(e) if trimmed.is_empty() && !e.starts_with("PANIC") => {}
                r => ctx.violation(&format!("header identifier {id:?}: {what}"), json!({"header identifier": id, "what": what, "got": format!("{r:?}")})),
            }
        }
    });
    ctx.count("peeked_identifiers", v.len() as u64);
    ctx.lap("peeked identifiers");

    // ---- peeking at JSON: where the header may be, and what is not a header
    json_peek(ctx, &ids);
    vec![
        "the Rust struct names that the registry also lists as roots, and namespace prefixes on the root, are outside the claim",
        "an empty header identifier may be refused",
    ]
}

/// Text that looks like the markup of another message type.
fn contents(e: &DocType) -> Vec<String> {
    vec![
        format!("<{}>", e.element),
        format!("<{}/>", e.element),
        format!("<Document><{}>", e.element),
        format!("<Document xmlns=\"urn:iso:std:iso:20022:tech:xsd:{}\"><{}><GrpHdr>", e.full, e.element),
        format!("</Document><Document><{}></{}></Document>", e.element, e.element),
        format!("</AppHdr><Document><{}>", e.element),
        format!("<AppHdr><MsgDefIdr>{}</MsgDefIdr></AppHdr>", e.full),
        format!("<MsgDefIdr>{}</MsgDefIdr>", e.full),
        format!("</{}>", e.element),
        format!("<Envelope><AppHdr><MsgDefIdr>{}</MsgDefIdr></AppHdr>", e.full),
        "</Envelope>".into(),
        "</AppHdr>".into(),
        "</Document>".into(),
        "<AppHdr>".into(),
        "<AppHdr/>".into(),
        "<Envelope".into(),
        "<Document".into(),
        "<Document/>".into(),
        e.full.into(),
        e.element.into(),
    ]
}

fn distractors(ctx: &Ctx, w: &World, st: &Steps) {
    #[derive(Clone, Copy, Debug)]
    enum Kind {
        Comment(usize),
        Pi(usize),
        Attr(usize),
        HdrText,
        HdrCdata,
        DocText,
        DocCdata,
    }
    let ts = Target::all_docs();
    let nd = DOC_TYPES.len();
    let mut v: Vec<(Target, &'static DocType, Kind, bool)> = vec![];
    for (i, &t) in ts.iter().enumerate() {
        // quick: two other types per type (together every type misleads and is misled); thorough: all
        let others: Vec<usize> = if ctx.thorough { (1..nd).collect() } else { vec![1, 11] };
        for o in others {
            let e = &DOC_TYPES[(i + o) % nd];
            for env in [true, false] {
                let lo = if env { 0 } else { 4 };
                let hi = if env { 9 } else { 8 };
                for p in lo..=hi {
                    v.push((t, e, Kind::Comment(p), env));
                    v.push((t, e, Kind::Pi(p), env));
                }
                for a in 0..4 {
                    if env || a >= 2 {
                        v.push((t, e, Kind::Attr(a), env));
                    }
                }
                if env {
                    v.push((t, e, Kind::HdrText, env));
                    v.push((t, e, Kind::HdrCdata, env));
                }
                v.push((t, e, Kind::DocText, env));
                v.push((t, e, Kind::DocCdata, env));
            }
        }
    }
    par_items(&v, |(t, e, kind, env)| {
        if ctx.stop() {
            return;
        }
        let (t, d, kind, env) = (*t, doc(*t), *kind, *env);
        let m = w.m(t);
        for c in contents(e) {
            let mut n = w.min(t).clone();
            let mut biz = None;
            let mut slot = vec![String::new(); 10];
            let mut attr = vec![String::new(); 4];
            let mut cdata: Option<String> = None;
            const MARK: &str = "@@mark@@";
            match kind {
                Kind::Comment(p) => slot[p] = format!("<!-- {c} -->"),
                Kind::Pi(p) => slot[p] = format!("<?note {c}?>"),
                Kind::Attr(a) => attr[a] = format!(" note='{}'", c.replace('<', "&lt;")),
                Kind::HdrText => biz = Some(c.clone()),
                Kind::HdrCdata => {
                    biz = Some(MARK.to_string());
                    cdata = Some(c.clone());
                }
                Kind::DocText | Kind::DocCdata => {
                    let text = matches!(kind, Kind::DocText);
                    let ls = generate::leaves(m, &n);
                    let Some((p, _, _)) = ls.into_iter().find(|(_, t, f)| m.fields(*t)[*f].ty == Ty::Str && !m.fields(*t)[*f].is_attr()) else { continue };
                    *n.get_mut(&p) = Node::Text(if text { c.clone() } else { MARK.into() });
                    if !text {
                        cdata = Some(c.clone());
                    }
                }
            }
            let id = "pacs.028.001.03";
            let h = header(w, id, biz.as_deref());
            let (hx, dx) = (hdr_xml(w, &h), tree::to_xml(m, &n, t.tag()));
            let dx = inner(&dx);
            let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
            if env {
                s += &slot[0];
                s += &format!("<Envelope{}>{}<AppHdr{}>{}{}{}</AppHdr>", attr[0], slot[1], attr[1], slot[2], inner(&hx), slot[3]);
            }
            s += &format!("{}<Document{}>{}<{}{}>{}{dx}</{}>{}</Document>{}", slot[4], attr[2], slot[5], t.tag(), attr[3], slot[6], t.tag(), slot[7], slot[8]);
            if env {
                s += &format!("</Envelope>{}", slot[9]);
            }
            if let Some(x) = &cdata {
                s = s.replace(MARK, &format!("<![CDATA[{x}]]>"));
            }
            // the expected tree
            let (mut want, mut wh) = (n.clone(), h.clone());
            if let Some(x) = &cdata {
                let put = |m: &Module, n: &mut Node| {
                    for (p, _, _) in generate::leaves(m, &n.clone()) {
                        if *n.get(&p) == Node::Text(MARK.into()) {
                            *n.get_mut(&p) = Node::Text(x.clone());
                        }
                    }
                };
                put(m, &mut want);
                put(w.s.get(APPHDR), &mut wh);
            }
            ctx.state(&s);
            ctx.step(1);
            ctx.trace(5);
            let bad = |what: &str, got: String| {
                ctx.violation(
                    &format!("{}: {what} misled by {kind:?} {} ({})", d.short, c.replace(e.element, "ELEMENT").replace(e.full, "ID"), if env { "envelope" } else { "document only" }),
                    json!({"type": d.short, "what": what, "kind": format!("{kind:?}"), "content": c, "got": got, "xml": s}),
                )
            };
            let hm = w.s.get(APPHDR);
            let judge = |what: &str, j: &Value| {
                if let Some(x) = tree::json_diff(m, m.root, &want, t.doc_json(j), "") {
                    bad(what, x);
                }
                if env && let Some(x) = tree::json_diff(hm, hm.root, &wh, &j["AppHdr"], "AppHdr") {
                    bad(what, x);
                }
            };
            match gres(|| MxMessage::from_xml(&s)) {
                Ok(x) if env => {
                    ctx.outcome("read");
                    match x.json() {
                        Ok(j) => judge("from_xml", &j),
                        Err(e) => bad("from_xml", e),
                    }
                }
                Ok(_) => bad("from_xml", "a document without header was read as a full message".into()),
                Err(_) if !env => ctx.outcome("refused"),
                Err(e) => bad("from_xml", e),
            }
            match gres(|| env::peek_message_type_from_xml(&s)) {
                Ok(x) if env && x == id => {}
                Err(_) if !env => {}
                r => bad("peek_message_type_from_xml", format!("{r:?}")),
            }
            match gres(|| pc::extract_message_type_from_xml(&s)) {
                Ok(x) if x == d.short => {}
                r => bad("extract_message_type_from_xml", format!("{r:?}")),
            }
            match st.parse(&s) {
                Ok((j, ty)) => {
                    if ty != d.short {
                        bad("parse step", format!("type {ty}"));
                    }
                    judge("parse step", &j);
                }
                Err(x) => bad("parse step", x),
            }
            match st.validate(&s).and_then(|x| steps::verdict(&x)) {
                Ok(true) => {}
                r => bad("validate step", format!("{r:?}")),
            }
        }
    });
}

fn json_peek(ctx: &Ctx, ids: &[String]) {
    let ck = |name: &str, v: Value, want: Option<String>| {
        ctx.step(1);
        ctx.trace(1);
        ctx.state(&v.to_string());
        let r = gres(|| env::peek_message_type_from_json(&v.to_string()));
        let ok = match (&r, &want) {
            (Ok(x), Some(y)) => x == y,
            (Err(e), None) => !e.starts_with("PANIC"),
            _ => false,
        };
        if !ok {
            ctx.violation(&format!("peek_message_type_from_json: {name}"), json!({"json": v, "expected": want, "got": format!("{r:?}")}));
        }
    };
    for id in ids {
        let h = json!({"MsgDefIdr": id, "BizMsgIdr": "pacs.009.001.08"});
        let s = Some(short_of(id));
        ck("AppHdr", json!({"AppHdr": h, "Document": {"FICdtTrf": {"AppHdr": {"MsgDefIdr": "camt.053.001.08"}}}}), s.clone());
        ck("Envelope.AppHdr", json!({"Envelope": {"AppHdr": h, "Document": {"MsgDefIdr": "camt.053.001.08"}}}), s.clone());
        ck("AppHdr before Envelope.AppHdr", json!({"Envelope": {"AppHdr": {"MsgDefIdr": "camt.053.001.08"}}, "AppHdr": h}), s);
        for (n, x) in [
            ("only inside the document", json!({"Document": {"AppHdr": h, "MsgDefIdr": id}})),
            ("beside the header", json!({"MsgDefIdr": id, "AppHdr": {"BizMsgIdr": id}})),
            ("a list", json!([{"AppHdr": h}])),
            ("a text", json!(id)),
            ("list of headers", json!({"AppHdr": [h]})),
            ("nested identifier", json!({"AppHdr": {"MsgDefIdr": {"MsgDefIdr": id}}})),
            ("list identifier", json!({"AppHdr": {"MsgDefIdr": [id]}})),
        ] {
            ck(n, x, None);
        }
    }
    for x in [json!(null), json!(1), json!({}), json!([]), json!({"AppHdr": null}), json!({"AppHdr": {}}), json!({"AppHdr": {"MsgDefIdr": null}}),
              json!({"AppHdr": {"MsgDefIdr": 8}}), json!({"AppHdr": {"msgdefidr": "pacs.008"}}), json!({"apphdr": {"MsgDefIdr": "pacs.008"}}), json!({"Envelope": {}})] {
        ck("no identifier", x, None);
    }
    for s in ["", " ", "{", "{\"AppHdr\":{\"MsgDefIdr\":\"pacs.008\"}", "<AppHdr><MsgDefIdr>pacs.008</MsgDefIdr></AppHdr>", "{\"AppHdr\":{\"MsgDefIdr\":\"pacs.008\"}}x"] {
        ctx.step(1);
        match gres(|| env::peek_message_type_from_json(s)) {
            Err(e) if !e.starts_with("PANIC") => {}
            r => ctx.violation(&format!("peek_message_type_from_json: {s:?}"), json!({"got": format!("{r:?}")})),
        }
    }
    // type of parsed JSON
    let ck = |name: &str, v: Value, want: Option<&str>| {
        ctx.step(1);
        ctx.trace(1);
        ctx.state(&v.to_string());
        let r = gres(|| pc::extract_message_type(&v));
        let ok = match (&r, want) {
            (Ok(x), Some(y)) => x == y,
            (Err(e), None) => !e.starts_with("PANIC"),
            _ => false,
        };
        if !ok {
            ctx.violation(&format!("extract_message_type: {name}"), json!({"json": v, "expected": want, "got": format!("{r:?}")}));
        }
    };
    for d in DOC_TYPES {
        for e in DOC_TYPES {
            let h = json!({"MsgDefIdr": e.full});
            ck("document root", json!({"AppHdr": h, "Document": {d.element: {e.element: {}, "message_type": e.short}}}), Some(d.short));
            ck("message_type", json!({"message_type": e.short, "Document": {d.element: {}}}), Some(e.short));
            ck("message_type of another type", json!({"message_type": [e.short], "Document": {d.element: {}}}), Some(d.short));
        }
    }
    for (n, v) in [
        ("no document", json!({"AppHdr": {"MsgDefIdr": "pacs.008.001.08"}})),
        ("empty document", json!({"Document": {}})),
        ("document is a text", json!({"Document": "FICdtTrf"})),
        ("document is a list", json!({"Document": [{"FICdtTrf": {}}]})),
        ("document is null", json!({"Document": null})),
        ("root without document", json!({"FICdtTrf": {}})),
        ("not an object", json!("FICdtTrf")),
    ] {
        ck(n, v, None);
    }
}

// ---------------------------------------------------------------- C15


/// What the header and document parts of a text say, by the reference readers.
struct Said {
    hdr: Result<Option<Node>, String>,
    doc: Result<(Target, Node), String>,
    ids: Vec<String>,
    root: Option<String>,
}
fn root_target(name: &str) -> Result<Target, String> {
    Target::all_docs().into_iter().find(|t| t.tag() == name).ok_or(format!("unknown root {name}"))
}
fn said_xml(w: &World, x: &XNode) -> Said {
    let hm = w.s.get(APPHDR);
    let hdr = match x.find("AppHdr") {
        Some(h) => tree::read_xml(hm, hm.root, h).map(Some),
        None => Ok(None),
    };
    let r = x.find("Document").and_then(|d| d.children.first());
    let doc = match r {
        None => Err("no document".to_string()),
        Some(r) => root_target(&r.name).and_then(|ty| {
            let m = w.m(ty);
            Ok((ty, tree::read_xml(m, m.root, r)?))
        }),
    };
    let ids = x.find("AppHdr").map(|h| h.children.iter().filter(|c| c.name == "MsgDefIdr").map(|c| c.text.trim().to_string()).collect()).unwrap_or_default();
    Said { hdr, doc, ids, root: r.map(|r| r.name.clone()) }
}
fn said_json(w: &World, v: &Value) -> Said {
    let hm = w.s.get(APPHDR);
    let hdr = match v.get("AppHdr") {
        Some(h) => tree::read_json(hm, hm.root, h).map(Some),
        None => Ok(None),
    };
    let d = v.get("Document").and_then(|d| d.as_object());
    let doc = match d {
        Some(o) if o.len() == 1 => {
            let (k, x) = o.iter().next().unwrap();
            root_target(k).and_then(|ty| {
                let m = w.m(ty);
                Ok((ty, tree::read_json(m, m.root, x)?))
            })
        }
        _ => Err("no document".into()),
    };
    let ids = v.get("AppHdr").and_then(|h| h.get("MsgDefIdr")).and_then(|x| x.as_str()).map(|s| vec![s.to_string()]).unwrap_or_default();
    let root = d.and_then(|o| o.keys().next().cloned());
    Said { hdr, doc, ids, root }
}
fn trimmed(n: &Node) -> Node {
    match n {
        Node::Text(s) => Node::Text(s.trim().to_string()),
        Node::Struct(v) => Node::Struct(v.iter().map(|o| o.iter().map(trimmed).collect()).collect()),
        x => x.clone(),
    }
}
fn trimmed_json(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(s.trim()),
        Value::Array(a) => a.iter().map(trimmed_json).collect(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), trimmed_json(x))).collect()),
        x => x.clone(),
    }
}
/// the JSON says what the tree says; white space at the ends of a text may be lost
fn says(m: &Module, n: &Node, v: &Value) -> Option<String> {
    let d = tree::json_diff(m, m.root, n, v, "")?;
    tree::json_diff(m, m.root, &trimmed(n), &trimmed_json(v), "").map(|_| d)
}

/// An undamaged text, what it says, and how it is damaged.
struct Base<'a> {
    t: Target,
    form: Form,
    text: String,
    hdr: &'a Node,
    doc: &'a Node,
    id: String,
}
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Form {
    Xml,
    DocXml,
    Json,
}
#[derive(Clone, Copy, Debug)]
pub enum Damage {
    Cut(usize),
    Del(usize, usize),
    Dup(usize, usize),
    /// swap [a,b) with [b,c)
    Swap(usize, usize, usize),
    Put(usize, char),
    /// an element or member gets another name everywhere
    Rename(&'static str),
}
pub fn apply(s: &str, d: Damage) -> String {
    match d {
        Damage::Cut(i) => s[..i].to_string(),
        Damage::Del(a, b) => format!("{}{}", &s[..a], &s[b..]),
        Damage::Dup(a, b) => format!("{}{}", &s[..b], &s[a..]),
        Damage::Swap(a, b, c) => format!("{}{}{}{}", &s[..a], &s[b..c], &s[a..b], &s[c..]),
        Damage::Put(i, c) => {
            let n = s[i..].chars().next().map(char::len_utf8).unwrap_or(0);
            format!("{}{c}{}", &s[..i], &s[i + n..])
        }
        Damage::Rename(n) => ["<", "</", "\""].iter().zip([">", ">", "\":"]).fold(s.replace(&format!("<{n} "), "<Nope "), |s, (a, b)| {
            s.replace(&format!("{a}{n}{b}"), &format!("{a}Nope{b}"))
        }),
    }
}
/// Token boundaries: tags and the texts between them; JSON punctuation, strings and literals.
pub fn tokens(s: &str, form: Form) -> Vec<usize> {
    let b = s.as_bytes();
    let mut v = vec![0];
    let mut i = 0;
    while i < b.len() {
        if form == Form::Json {
            match b[i] {
                b'"' => {
                    i += 1;
                    while b[i] != b'"' {
                        i += if b[i] == b'\\' { 2 } else { 1 };
                    }
                    i += 1;
                }
                b'{' | b'}' | b'[' | b']' | b',' | b':' => i += 1,
                _ => {
                    while i < b.len() && !b"\"{}[],:".contains(&b[i]) {
                        i += 1;
                    }
                }
            }
        } else if b[i] == b'<' {
            while b[i] != b'>' {
                i += 1;
            }
            i += 1;
        } else {
            while i < b.len() && b[i] != b'<' {
                i += 1;
            }
        }
        v.push(i);
    }
    v
}

fn damaged(ctx: &Ctx, w: &World, st: &Steps, b: &Base, d: Damage, all: bool) {
    let s = apply(&b.text, d);
    if s == b.text {
        return;
    }
    let t = b.t;
    let short = doc(t).short;
    ctx.step(1);
    let lo = match d {
        Damage::Cut(i) | Damage::Del(i, _) | Damage::Dup(i, _) | Damage::Swap(i, _, _) | Damage::Put(i, _) => i,
        Damage::Rename(_) => 0,
    };
    let near = {
        let a = b.text[..lo].char_indices().rev().nth(40).map(|x| x.0).unwrap_or(0);
        let e = b.text[lo..].char_indices().nth(40).map(|x| lo + x.0).unwrap_or(b.text.len());
        format!("{}⟂{}", &b.text[a..lo], &b.text[lo..e])
    };
    let bad = |what: &str, got: String| {
        ctx.violation(
            &format!("{short} {:?}: {what} after {d:?} at {near:?}", b.form),
            json!({"type": short, "form": format!("{:?}", b.form), "entry point": what, "damage": format!("{d:?}"), "near": near, "got": got, "damaged text": s}),
        )
    };
    let said: std::cell::OnceCell<Result<Said, String>> = Default::default();
    let said = || {
        said.get_or_init(|| match b.form {
            Form::Json => refmodel::jsonr::parse(&s).map(|v| said_json(w, &v)),
            _ => refmodel::xmlr::parse(&s).map(|x| said_xml(w, &x)),
        })
    };
    let m = w.m(t);
    let hm = w.s.get(APPHDR);
    // judge an accepted content: header JSON (None: the entry point gives none) and document JSON
    let judge = |what: &str, hdr: Option<&Value>, dv: &Value, elem: &str| {
        ctx.outcome("accepted");
        if elem == t.tag() && says(m, b.doc, dv).is_none() && hdr.is_none_or(|h| says(hm, b.hdr, h).is_none()) {
            // JSON that is not well-formed says nothing at all
            if b.form == Form::Json
                && let Err(e) = said()
            {
                bad(what, format!("accepted although the text is not well-formed: {e}"));
            }
            // what the undamaged text says: a well-formed damaged text must say the same
            if let Ok(x) = said()
                && let Ok((ty, n)) = &x.doc
                && (ty.tag() != elem || says(w.m(*ty), n, dv).is_some())
            {
                bad(what, "read as the undamaged text although the damaged one says something else".into());
            }
            return;
        }
        match said() {
            Err(e) => bad(what, format!("accepted with other content although the text is not well-formed: {e}")),
            Ok(x) => {
                match &x.doc {
                    Err(e) => bad(what, format!("accepted although it cannot be read: {e}")),
                    Ok((ty, n)) => {
                        if ty.tag() != elem {
                            bad(what, format!("read as {elem}"));
                        } else if let Some(d) = says(w.m(*ty), n, dv) {
                            bad(what, format!("accepted with other content: {d}"));
                        }
                    }
                }
                if let Some(h) = hdr {
                    match &x.hdr {
                        Err(e) => bad(what, format!("header accepted although it cannot be read: {e}")),
                        Ok(None) => bad(what, "header out of nothing".into()),
                        Ok(Some(n)) => {
                            if let Some(d) = says(hm, n, h) {
                                bad(what, format!("header accepted with other content: {d}"));
                            }
                        }
                    }
                }
            }
        }
    };
    let judge_value = |what: &str, v: &Value| {
        let Some(o) = v["Document"].as_object().filter(|o| o.len() == 1) else {
            bad(what, "no document in the result".into());
            return;
        };
        let (k, x) = o.iter().next().unwrap();
        judge(what, v.get("AppHdr"), x, k);
    };
    let no_panic = |what: &str, e: &str| {
        ctx.outcome("refused");
        if e.starts_with("PANIC") {
            bad(what, e.to_string());
        }
    };
    // readable at all (for entry points that return only yes or no)
    let readable = |header: bool| match said() {
        Ok(x) => x.doc.is_ok() && (!header || matches!(x.hdr, Ok(Some(_)))),
        // not well-formed, yet the parts that count may be whole
        Err(_) => match b.form {
            Form::Json => false,
            _ => !matches!(d, Damage::Cut(i) if i < b.text.find("</Document>").unwrap_or(usize::MAX)),
        },
    };
    let typed = |what: &str, r: Result<MxMessage, String>| match r {
        Err(e) => no_panic(what, &e),
        Ok(x) => match x.json() {
            Ok(j) => judge_value(what, &j),
            Err(e) => bad(what, e),
        },
    };
    let peek = |what: &str, r: Result<String, String>| match r {
        Err(e) => no_panic(what, &e),
        Ok(x) => {
            let ok = match said() {
                Ok(s) => s.ids.iter().any(|i| short_of(i) == x || i.trim() == x),
                Err(_) => x == short_of(&b.id),
            };
            if !ok {
                bad(what, format!("{x:?}"));
            }
        }
    };
    let ty = |what: &str, r: Result<String, String>| match r {
        Err(e) => no_panic(what, &e),
        Ok(x) => {
            let ok = match said() {
                Ok(s) => s.root.as_ref().and_then(|r| root_target(r).ok()).is_some_and(|t| doc(t).short == x),
                Err(_) => x == short,
            };
            if !ok {
                bad(what, format!("{x:?}"));
            }
        }
    };
    if b.form == Form::Json {
        // a mandatory list left without items can be held in JSON but not in XML: outside the claim
        if refmodel::jsonr::parse(&s).is_ok_and(|v| said_json(w, &v).doc.is_err_and(|e| e == tree::EMPTY)) {
            ctx.outcome("mandatory list without items");
            return;
        }
        ctx.trace(1);
        typed("from_json", gres(|| MxMessage::from_json(&s)));
        if all {
            ctx.trace(2);
            peek("peek_message_type_from_json", gres(|| env::peek_message_type_from_json(&s)));
            if let Ok(v) = serde_json::from_str::<Value>(&s) {
                // damage between members can leave a well-formed value: publishing must not invent content
                match st.publish(&v) {
                    Err(e) => no_panic("publish step", &e),
                    Ok(x) => match refmodel::xmlr::parse(&x).map(|x| said_xml(w, &x)) {
                        Ok(Said { hdr, doc: Ok((ty, n)), .. }) => {
                            let h = match hdr {
                                Ok(Some(h)) => Some(tree::to_json(hm, hm.root, &h)),
                                _ => None,
                            };
                            judge("publish step", h.as_ref(), &tree::to_json(w.m(ty), w.m(ty).root, &n), ty.tag());
                        }
                        Ok(Said { doc: Err(e), .. }) | Err(e) => bad("publish step", e),
                    },
                }
            }
        }
        return;
    }
    ctx.trace(1);
    if b.form == Form::Xml {
        typed("from_xml", gres(|| MxMessage::from_xml(&s)));
    } else {
        match gres(|| mx_message::xml::xml_to_json_via_document(&s, short)) {
            Err(e) => no_panic("xml_to_json_via_document", &e),
            Ok(v) => judge_value("xml_to_json_via_document", &v),
        }
    }
    if !all {
        return;
    }
    ctx.trace(8);
    if b.form == Form::DocXml {
        match gres(|| MxMessage::from_xml(&s)) {
            Err(e) => no_panic("from_xml", &e),
            Ok(_) => bad("from_xml", "a document without header was read as a full message".into()),
        }
    } else {
        match gres(|| mx_message::xml::xml_to_json_via_document(&s, short)) {
            Err(e) => no_panic("xml_to_json_via_document", &e),
            Ok(v) => judge_value("xml_to_json_via_document", &v),
        }
    }
    match st.parse(&s) {
        Err(e) => no_panic("parse step", &e),
        Ok((v, k)) => {
            judge_value("parse step", &v);
            ty("parse step type", Ok(k));
        }
    }
    match st.validate(&s) {
        Err(e) => no_panic("validate step", &e),
        Ok(v) => match steps::verdict(&v) {
            Err(e) => bad("validate step", e),
            Ok(true) if !readable(false) => bad("validate step", "valid although it cannot be read".into()),
            Ok(_) => {}
        },
    }
    match gres(|| mx_message::xml::from_mx_xml_envelope_str(&s, short)) {
        Err(e) => no_panic("from_mx_xml_envelope_str", &e),
        Ok(()) if !readable(false) => bad("from_mx_xml_envelope_str", "accepted although it cannot be read".into()),
        Ok(()) => {}
    }
    peek("peek_message_type_from_xml", gres(|| env::peek_message_type_from_xml(&s)));
    ty("extract_message_type_from_xml", gres(|| pc::extract_message_type_from_xml(&s)));
    if let Err(e) = gres(|| mx_message::xml::from_mx_xml_to_json(&s)) {
        no_panic("from_mx_xml_to_json", &e);
    }
    if let Err(e) = gres(|| env::peek_message_type_from_json(&s)) {
        no_panic("peek_message_type_from_json", &e);
    }
    if let Err(e) = gres(|| MxMessage::from_json(&s)) {
        no_panic("from_json", &e);
    }
}

/// Damaged messages with long stretches of characters of two bytes, in both alignments: whatever
/// byte offset the library cuts a text at, for a message or a look-ahead, falls inside a character.
fn wide(ctx: &Ctx, w: &World, st: &Steps, ts: &[Target]) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Place {
        Header,
        First,
        Last,
        Comment,
        Attribute,
    }
    let mut v: Vec<(Target, Form, Place, usize)> = vec![];
    for &t in ts {
        for form in [Form::Xml, Form::DocXml, Form::Json] {
            for place in [Place::Header, Place::First, Place::Last, Place::Comment, Place::Attribute] {
                if (form == Form::DocXml && place == Place::Header) || (form == Form::Json && matches!(place, Place::Comment | Place::Attribute)) {
                    continue;
                }
                v.extend([(t, form, place, 0), (t, form, place, 1)]);
            }
        }
    }
    par_items(&v, |(t, form, place, shift)| {
        if ctx.stop() {
            return;
        }
        let (t, m) = (*t, w.m(*t));
        let wide = format!("{}{}", "x".repeat(*shift), "é".repeat(300));
        let h = header(w, doc(t).full, Some(if *place == Place::Header { &wide } else { "Biz" }));
        let mut n = w.min(t).clone();
        let ls: Vec<_> = generate::leaves(m, &n).into_iter().filter(|(_, ty, f)| m.fields(*ty)[*f].ty == Ty::Str && !m.fields(*ty)[*f].is_attr()).collect();
        let l = match place {
            Place::First => ls.first(),
            Place::Last => ls.last(),
            _ => None,
        };
        if let Some((p, _, _)) = l {
            *n.get_mut(p) = Node::Text(wide.clone());
        } else if matches!(place, Place::First | Place::Last) {
            return;
        }
        let mut text = match form {
            Form::Json => t.wrap_json(&hdr_json(w, &h), &tree::to_json(m, m.root, &n)),
            Form::Xml => t.wrap_xml(&hdr_xml(w, &h), &tree::to_xml(m, &n, t.tag())),
            Form::DocXml => format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Document>{}</Document>", tree::to_xml(m, &n, t.tag())),
        };
        if *place == Place::Comment {
            for (a, b) in [("<Document>", format!("<Document><!--{wide}-->")), ("<AppHdr>", format!("<AppHdr><!--{wide}-->")), ("<?xml", format!("<!--{wide}--><?xml"))] {
                // a comment in front of the declaration is itself a damage
                if a != "<?xml" {
                    text = text.replace(a, &b);
                }
            }
        }
        if *place == Place::Attribute {
            text = text.replace("<Document>", &format!("<Document a=\"{wide}\">"));
        }
        let b = Base { t, form: *form, text, hdr: &h, doc: &n, id: doc(t).full.into() };
        let toks = tokens(&b.text, *form);
        let mut ds = vec![Damage::Rename(t.tag()), Damage::Rename("Document"), Damage::Rename("AppHdr"), Damage::Rename("Envelope"), Damage::Rename("MsgDefIdr"), Damage::Rename("BizMsgIdr")];
        for k in 0..toks.len() - 1 {
            ds.push(Damage::Cut(toks[k]));
            ds.push(Damage::Del(toks[k], toks[k + 1]));
            if ctx.thorough {
                ds.push(Damage::Dup(toks[k], toks[k + 1]));
                if k + 2 < toks.len() {
                    ds.push(Damage::Swap(toks[k], toks[k + 1], toks[k + 2]));
                }
            }
        }
        for d in ds {
            ctx.state(&(t.module(), format!("{form:?} {place:?} {d:?}"), shift));
            ctx.count("damages_of_wide_texts", 1);
            ctx.watch(|| format!("{} {form:?} {place:?} {d:?}", t.module()), || damaged(ctx, w, st, &b, d, true));
        }
    });
}

pub fn c15(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let st = &Steps::new();
    let ts = Target::all_docs();
    let mut h = header(w, "pacs.028.001.03", Some("Biz & <1>"));
    let hs: Vec<Node> = DOC_TYPES
        .iter()
        .map(|d| {
            h.fields_mut()[hdr_field(w, "MsgDefIdr")] = vec![Node::Text(d.full.into())];
            h.clone()
        })
        .collect();
    let base = |t: Target, form: Form, full: bool| -> Base {
        let i = ts.iter().position(|x| x.module() == t.module()).unwrap();
        let m = w.m(t);
        let n = if full { w.full(t) } else { w.min(t) };
        let text = match form {
            Form::Json => t.wrap_json(&hdr_json(w, &hs[i]), &tree::to_json(m, m.root, n)),
            Form::Xml => t.wrap_xml(&hdr_xml(w, &hs[i]), &tree::to_xml(m, n, t.tag())),
            Form::DocXml => format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Document xmlns=\"urn:x\">{}</Document>", tree::to_xml(m, n, t.tag())),
        };
        Base { t, form, text, hdr: &hs[i], doc: n, id: DOC_TYPES[i].full.into() }
    };
    // the undamaged texts must be read, or the exploration means nothing
    for &t in &ts {
        for full in [false, true] {
            let r = [
                gres(|| MxMessage::from_xml(&base(t, Form::Xml, full).text)).map(|_| ()),
                gres(|| MxMessage::from_json(&base(t, Form::Json, full).text)).map(|_| ()),
                st.parse(&base(t, Form::DocXml, full).text).map(|_| ()),
            ];
            for e in r.into_iter().filter_map(|r| r.err()) {
                ctx.violation(&format!("{}: undamaged message is refused", t.module()), json!({"error": e}));
            }
        }
    }
    super::nest::explore(ctx);
    ctx.lap("nesting");
    wide(ctx, w, st, &ts);
    ctx.lap("wide texts");
    // (base, damage, all entry points)
    for full in [false, true] {
        let bases: Vec<Base> = ts.iter().flat_map(|&t| [Form::Xml, Form::DocXml, Form::Json].map(|f| base(t, f, full))).collect();
        let mut v: Vec<(usize, Damage, bool)> = vec![];
        for (i, b) in bases.iter().enumerate() {
            let chars: Vec<usize> = b.text.char_indices().map(|x| x.0).collect();
            let end = b.text.len();
            let at = |k: usize| chars.get(k).copied().unwrap_or(end);
            let toks = tokens(&b.text, b.form);
            assert_eq!(toks.last(), Some(&end));
            if !full {
                for k in 0..chars.len() {
                    v.push((i, Damage::Cut(at(k)), true));
                    v.push((i, Damage::Del(at(k), at(k + 1)), ctx.thorough));
                    v.push((i, Damage::Dup(at(k), at(k + 1)), ctx.thorough));
                    if k + 1 < chars.len() {
                        v.push((i, Damage::Swap(at(k), at(k + 1), at(k + 2)), ctx.thorough));
                    }
                    if ctx.thorough {
                        for c in ['<', '>', '&', '"', '/', '{', '}', ' ', '\0', 'é'] {
                            v.push((i, Damage::Put(at(k), c), false));
                        }
                    }
                }
            }
            // quick: in a full message, one place per distinct triple of neighbouring tokens
            let shape = |k: usize| -> &str {
                if k + 1 >= toks.len() {
                    return "";
                }
                let x = &b.text[toks[k]..toks[k + 1]];
                let name = match b.form {
                    Form::Json => toks.get(k + 2).is_some_and(|e| &b.text[toks[k + 1]..*e] == ":") || x.len() == 1,
                    _ => x.starts_with('<'),
                };
                if name { x } else { "text" }
            };
            let mut seen = std::collections::HashSet::new();
            let pick: Vec<bool> = (0..toks.len())
                .map(|k| !full || ctx.thorough || seen.insert((if k > 0 { shape(k - 1) } else { "" }, shape(k), shape(k + 1))))
                .collect();
            if full {
                for k in (0..toks.len()).filter(|k| pick[*k]) {
                    v.push((i, Damage::Cut(toks[k]), ctx.thorough));
                    if k + 1 < toks.len() {
                        let mut mid = (toks[k] + toks[k + 1]) / 2;
                        while !b.text.is_char_boundary(mid) {
                            mid -= 1;
                        }
                        v.push((i, Damage::Cut(mid), false));
                    }
                }
            }
            for k in (0..toks.len() - 1).filter(|k| pick[*k]) {
                v.push((i, Damage::Del(toks[k], toks[k + 1]), !full || ctx.thorough));
                v.push((i, Damage::Dup(toks[k], toks[k + 1]), !full || ctx.thorough));
                if k + 2 < toks.len() {
                    v.push((i, Damage::Swap(toks[k], toks[k + 1], toks[k + 2]), !full || ctx.thorough));
                }
                if ctx.thorough && k + 3 < toks.len() {
                    // an element of one text: removed, doubled
                    v.push((i, Damage::Del(toks[k], toks[k + 3]), true));
                    v.push((i, Damage::Dup(toks[k], toks[k + 3]), true));
                }
            }
        }
        ctx.count(if full { "damages_of_full_messages" } else { "damages_of_minimal_messages" }, v.len() as u64);
        eprintln!("{} bases, {} bytes, {} damages", bases.len(), bases.iter().map(|b| b.text.len()).sum::<usize>(), v.len());
        par_items(&v, |(i, d, all)| {
            if !ctx.stop() {
                let b = &bases[*i];
                ctx.watch(|| format!("{} {:?} {d:?}", b.t.module(), b.form), || damaged(ctx, w, st, b, *d, *all));
                ctx.state(&(i, full, format!("{d:?}")));
            }
        });
        ctx.lap(if full { "full" } else { "minimal" });
    }
    vec!["white space at the ends of a text may be lost", "a text that is not well-formed may be read as the undamaged message, never as another one"]
}
