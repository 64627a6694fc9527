//! C13: the message type tables.
use crate::common::*;
use crate::targets::*;
use mx_message::message_registry as reg;
use mx_message::mx_envelope as env;
use mx_message::plugin::common as pc;
use refmodel::engine::{Ctx, par_items};
use refmodel::schema::*;
use serde_json::json;
use std::collections::BTreeSet;

const NS: &str = "urn:iso:std:iso:20022:tech:xsd:";

/// All strings at edit distance 1 of `s` over a small alphabet, plus case and space variants.
pub fn neighbours(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut o = BTreeSet::new();
    for i in 0..=c.len() {
        for x in ['0', '1', '9', 'a', 'V', '.', ' ', '-', 'é', '€', '😀'] {
            let mut d = c.clone();
            d.insert(i, x);
            o.insert(d.iter().collect::<String>());
            if i < c.len() {
                let mut d = c.clone();
                d[i] = x;
                o.insert(d.iter().collect());
            }
        }
        if i < c.len() {
            let mut d = c.clone();
            d.remove(i);
            o.insert(d.iter().collect());
            o.insert(c[..i].iter().collect());
            let mut d = c.clone();
            d[i] = if d[i].is_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() };
            o.insert(d.iter().collect());
        }
        if i + 1 < c.len() {
            let mut d = c.clone();
            d.swap(i, i + 1);
            o.insert(d.iter().collect());
        }
    }
    for x in [s.to_uppercase(), s.to_lowercase(), format!("{s}.001"), format!("{NS}{s}"), format!("{s}{s}"), format!(" {s}"), format!("{s}\n"), format!("x:{s}")] {
        o.insert(x);
    }
    o.remove(s);
    o.into_iter().collect()
}

pub fn c13(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let by = |s: &str| DOC_TYPES.iter().find(|d| d.short == s || d.full == s);
    let byel = |s: &str| DOC_TYPES.iter().find(|d| d.element == s || d.rust == s);
    let bad = |fun: &str, arg: &str, want: String, got: String| {
        ctx.violation(&format!("{fun}({arg:?})"), json!({"lookup": fun, "argument": arg, "expected": want, "got": got}));
    };
    macro_rules! eq {
        ($fun:literal, $arg:expr, $want:expr, $got:expr) => {{
            ctx.step(1);
            ctx.trace(1);
            let want = format!("{:?}", $want);
            let got = format!("{:?}", guard(|| $got));
            let want = format!("Ok({want})");
            if want != got {
                bad($fun, $arg, want, got);
            }
        }};
    }
    let mut words: BTreeSet<String> = BTreeSet::new();
    for d in DOC_TYPES {
        for s in [d.short, d.full, d.element, d.rust] {
            words.insert(s.to_string());
            words.extend(neighbours(s));
        }
        words.insert(format!("{}.{:02}", &d.full[..d.full.len() - 3], 99));
    }
    for s in ["", ".", "pacs", "pacs.008.001", "pacs.008.001.08.stp", "pacs.008.001.08_STP", "head.001.001.02", "camt.027", "camt.110", "seev.031", "MT103", "Document", "AppHdr", "Envelope", "Unknown", "\0", "中", "pacs.008 ", "AppHdr.MsgDefIdr"] {
        words.insert(s.to_string());
    }
    // ISO 20022 identifiers of other messages and versions
    for fam in ["pacs", "pain", "camt", "admi", "head", "auth", "acmt"] {
        for n in 0..120 {
            words.insert(format!("{fam}.{n:03}"));
            for v in [1, 2, 3, 5, 6, 8, 9, 10, 11, 12] {
                words.insert(format!("{fam}.{n:03}.001.{v:02}"));
            }
        }
    }
    let words: Vec<String> = words.into_iter().collect();
    par_items(&words, |s| {
        ctx.state(s);
        let s = s.as_str();
        let d = by(s);
        let e = byel(s);
        let ns = format!("{NS}{}", d.map(|d| d.full).unwrap_or(s));
        let nm = d.map(|d| d.short).unwrap_or(s).to_string();
        eq!("get_namespace", s, ns, reg::get_namespace(s));
        eq!("get_namespace_for_message_type", s, ns, env::get_namespace_for_message_type(s));
        eq!("normalize_message_type", s, nm, reg::normalize_message_type(s));
        eq!("mx_envelope::normalize_message_type", s, nm, env::normalize_message_type(s));
        eq!("element_to_message_type", s, e.map(|d| d.short), reg::element_to_message_type(s));
        eq!("message_type_to_element", s, d.map(|d| d.element), reg::message_type_to_element(s));
        eq!("message_type_to_rust_type", s, d.map(|d| d.rust), reg::message_type_to_rust_type(s));
        eq!("get_full_form", s, d.map(|d| d.full), reg::get_full_form(s));
        ctx.outcome(if d.is_some() { "type" } else if e.is_some() { "element" } else { "unknown" });
        // the workflow table additionally knows documented aliases of older names
        let alias = match s {
            "FinInstnCdtTrf" => Some("pacs.009"),
            "Rct" => Some("camt.025"),
            "ClmNonRct" | "ClaimNonReceiptV07" => Some("camt.027"),
            _ => None,
        };
        let want = e.map(|d| d.short).or(alias).map(|x| x.to_string());
        eq!("map_document_element_to_message_type", s, want, pc::map_document_element_to_message_type(s).ok());
    });
    // the table itself
    let mut got: Vec<_> = reg::MESSAGE_REGISTRY.iter().map(|i| (i.short_form, i.full_form, i.xml_element_name, i.rust_type_name)).collect();
    let mut want: Vec<_> = DOC_TYPES.iter().map(|d| (d.short, d.full, d.element, d.rust)).collect();
    got.sort();
    want.sort();
    if got != want {
        let a: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        let b: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        ctx.violation("MESSAGE_REGISTRY", json!({"unexpected": format!("{a:?}"), "missing": format!("{b:?}")}));
    }
    // inverse through every composition of lookups
    for d in DOC_TYPES {
        for form in [d.short, d.full] {
            ctx.state(&("compose", form));
            eq!("element . type . element", form, Some(d.short), reg::message_type_to_element(form).and_then(reg::element_to_message_type));
            eq!("element . rust type", form, Some(d.short), reg::message_type_to_rust_type(form).and_then(reg::element_to_message_type));
            eq!("normalize . full", form, Some(d.short.to_string()), reg::get_full_form(form).map(reg::normalize_message_type));
            eq!("full . normalize", form, Some(d.full), reg::get_full_form(&reg::normalize_message_type(form)));
            eq!("namespace . normalize", form, format!("{NS}{}", d.full), reg::get_namespace(&reg::normalize_message_type(form)));
        }
    }
    // the namespace and type a message value answers with
    let hm = w.s.get(APPHDR);
    let idx = hm.fields(hm.root).iter().position(|f| f.name == "MsgDefIdr").unwrap();
    for d in DOC_TYPES {
        let t = Target::Mx(d);
        for id in DOC_TYPES.iter().flat_map(|x| [x.full, x.short]).chain(["", "pacs.008.001.99", "nonsense", "pacs.008.001.08.x"]) {
            let mut h = w.hdr.clone();
            h.get_mut(&vec![(idx, 0)]).clone_from(&refmodel::tree::Node::Text(id.to_string()));
            let m = w.m(t);
            let j = t.wrap_json(&refmodel::tree::to_json(hm, hm.root, &h), &refmodel::tree::to_json(m, m.root, w.min(t)));
            ctx.state(&(d.short, id));
            let a = match t.from_json(&j) {
                Ok(a) => a,
                Err(e) => {
                    bad("from_json", d.short, "a message".into(), e);
                    continue;
                }
            };
            let a = a.any().downcast_ref::<env::MxMessage>().unwrap();
            let full = by(id).map(|x| x.full).unwrap_or(id);
            eq!("MxMessage::message_type", id, Ok::<&str, String>(id), a.message_type().map_err(|e| e.to_string()));
            eq!("MxMessage::namespace", id, Ok::<String, String>(format!("{NS}{full}")), a.namespace().map_err(|e| e.to_string()));
            eq!("Document::namespace", d.short, format!("{NS}{}", d.full), a.document.namespace());
        }
    }
    ctx.sample(|| json!({"words": words.len(), "first": words.iter().take(8).collect::<Vec<_>>()}));
    vec!["the specification table (spec of 25 types in refmodel::schema) is right about ISO 20022 names"]
}
