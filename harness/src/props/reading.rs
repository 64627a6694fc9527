//! C10-C12: code lists, mandatory/single occurrence rules, numbers and flags.
use super::validation::{paths_where, sites_where};
use crate::common::*;
use crate::targets::*;
use refmodel::engine::{Ctx, par_items};
use refmodel::generate::{self, Gen};
use refmodel::schema::*;
use refmodel::tree::{self, Node, Path};
use refmodel::xmlr::XNode;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

fn steps_name(m: &Module, s: &[usize]) -> String {
    generate::path_str(m, s)
}
fn owner(m: &Module, s: &[usize]) -> usize {
    let mut t = m.root;
    for x in &s[..s.len() - 1] {
        let Ty::Ref(c) = m.fields(t)[*x].ty else { panic!() };
        t = c;
    }
    t
}
/// The value the library holds at a path, from its JSON form.
fn json_at<'a>(m: &Module, t: Target, v: &'a Value, s: &[usize]) -> Option<&'a Value> {
    let mut x = t.doc_json(v);
    let mut ty = m.root;
    for i in s {
        let f = &m.fields(ty)[*i];
        x = x.get(&f.name)?;
        if f.card.many() {
            x = x.get(0)?;
        }
        if let Ty::Ref(c) = f.ty {
            ty = c;
        }
    }
    Some(x)
}
fn set(m: &Module, s: &[usize], v: Node) -> Node {
    let (mut n, p) = generate::with_path(m, s);
    *n.get_mut(&p) = v;
    n
}
/// JSON text of the minimal message with a raw JSON value at a path.
fn json_raw(w: &World, t: Target, s: &[usize], raw: &str) -> String {
    const MARK: &str = "@@mark@@";
    w.json(t, &set(w.m(t), s, Node::Text(MARK.into()))).replace(&format!("\"{MARK}\""), raw)
}
/// XML text of the minimal message with raw character data at a path.
fn xml_raw(w: &World, t: Target, s: &[usize], raw: &str) -> String {
    const MARK: &str = "@@mark@@";
    w.xml(t, &set(w.m(t), s, Node::Text(MARK.into()))).replace(MARK, raw)
}

// ---------------------------------------------------------------- C10

/// JSON of the smallest message with a text at this path: what comes before and after the text
fn json_around(w: &World, t: Target, s: &[usize]) -> (String, String) {
    let n = set(w.m(t), s, Node::Text("@@mark@@".into()));
    let j = w.json(t, &n);
    let (a, z) = j.split_once("@@mark@@").unwrap();
    (a.to_string(), z.to_string())
}
/// Words for what codes mean: other message standards, spelled out, the names in the source
const WORDS: &[&str] = &[
    "OUR", "BEN", "SHA", "SHARE", "Shared", "Debit", "Credit", "DEBIT", "CREDIT", "Debtor", "Creditor", "DR", "CR", "D", "C", "Y", "N", "Yes", "No", "High", "Normal", "Urgent",
    "HIGH", "NORMAL", "URGENT", "LOW", "Low", "Accepted", "Rejected", "Pending", "ACCEPTED", "REJECTED", "PENDING", "Booked", "BOOKED", "Mr", "Mrs", "Ms", "Dr", "MR", "MRS",
    "MISS", "Residential", "RESIDENTIAL", "Business", "Home", "HOME ", "Postal", "DeliveryTo", "DEFAULT", "default", "*", "?", "-", "N/A", "ANY", "ALL", "Code", "CODE", "Proprietary",
    "PRTRY", "Prtry", "Cd", "RTGS", "CLRG", "INDA", "INGA", "COVE", "RTNS", "SDVA", "BOOK", "PDNG", "INFO", "FUTR", "OPBD", "CLBD", "PRCD", "ITBD", "ITAV", "CLAV", "FWAV", "OPAV",
    "Wholesale", "SLEV2", "CRED1", "DEBT0", "SHAR.", "SHAR\n", "\tSHAR", "SHAR\0",
];

/// Texts one edit away from a code, and other near misses.
fn near_codes(c: &str) -> Vec<String> {
    let ch: Vec<char> = c.chars().collect();
    let mut v = vec![c.to_lowercase(), c.to_uppercase(), format!("{c}{c}"), format!("{c} X"), format!("X {c}"), format!("\"{c}\"")];
    for i in 0..ch.len() {
        let mut a = ch.clone();
        a.remove(i);
        v.push(a.iter().collect());
        for r in ['A', 'z', '0', ' ', '_', 'é'] {
            let mut a = ch.clone();
            a[i] = r;
            v.push(a.iter().collect());
        }
        let mut a = ch.clone();
        a[i] = if a[i].is_lowercase() { a[i].to_ascii_uppercase() } else { a[i].to_ascii_lowercase() };
        v.push(a.iter().collect());
        if i + 1 < ch.len() {
            let mut a = ch.clone();
            a.swap(i, i + 1);
            v.push(a.iter().collect());
        }
    }
    for i in 0..=ch.len() {
        for r in ['A', 'z', '0', '_'] {
            let mut a = ch.clone();
            a.insert(i, r);
            v.push(a.iter().collect());
        }
    }
    v
}

pub fn c10(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all();
    // every code of every list anywhere: a code of another list is not a code of this one
    let mut all: BTreeSet<String> = BTreeSet::new();
    for m in w.s.modules.values() {
        for t in &m.types {
            match t {
                TypeDef::Enum(c) => all.extend(c.iter().cloned()),
                TypeDef::Struct(_) => all.extend(m.type_names.iter().take(3).cloned()),
            }
        }
    }
    all.extend(["", "Unknown", "UNKNOWN", "Other", "OTHR", "NULL", "null", "None", "true", "1", "0", "Default", "$value", "$text"].map(String::from));
    let all: Vec<String> = all.into_iter().collect();
    // per (struct type, field): everything; per path: every code and two near misses
    let mut v: Vec<(Target, Vec<usize>, bool)> = vec![];
    for &t in &ts {
        let m = w.m(t);
        let sites: BTreeSet<Vec<usize>> = field_sites(m).into_iter().collect();
        for s in generate::field_paths(m) {
            if m.is_enum(generate::field_at(m, &s).ty) {
                let deep = ctx.thorough || sites.contains(&s);
                v.push((t, s, deep));
            }
        }
    }
    ctx.count("code_paths", v.len() as u64);
    par_items(&v, |(t, s, deep)| {
        if ctx.stop() {
            return;
        }
        let t = *t;
        let m = w.m(t);
        let codes: Vec<String> = m.codes(generate::field_at(m, s).ty).to_vec();
        let name = steps_name(m, s);
        let bad = |what: &str, x: &str, d: String| {
            ctx.violation(
                &format!("{}: {name}: {what} {x:?}: {}", t.module(), d.chars().take(100).collect::<String>()),
                json!({"type": t.module(), "path": name, "what": what, "text": x, "difference": d, "codes": codes}),
            )
        };
        // accepted codes, both formats, written unchanged in both formats
        for c in &codes {
            let n = set(m, s, Node::Text(c.clone()));
            ctx.state(&(t.module(), &name, c));
            ctx.step(2);
            ctx.trace(4);
            for (what, r) in [("JSON", t.from_json(&w.json(t, &n))), ("XML", t.from_xml(&w.xml(t, &n)))] {
                match r {
                    Err(e) => bad(&format!("{what} code refused"), c, e),
                    Ok(i) => {
                        match i.json() {
                            Ok(j) if json_at(m, t, &j, s) == Some(&json!(c)) => {}
                            Ok(j) => bad(&format!("{what} code written to JSON as"), c, format!("{:?}", json_at(m, t, &j, s))),
                            Err(e) => bad("cannot be written to JSON", c, e),
                        }
                        match i.xml().and_then(|x| tree::parse_xml(&x)) {
                            Ok(x) => {
                                let root = if matches!(t, Target::Mx(_)) {
                                    x.children.iter().find(|c| c.name == "Document").and_then(|d| d.children.first().cloned()).unwrap_or(x)
                                } else {
                                    x
                                };
                                if let Some(d) = tree::xml_diff(m, m.root, &n, &root, "") {
                                    bad(&format!("{what} code written to XML"), c, d)
                                }
                            }
                            Err(e) => bad("cannot be written to XML", c, e),
                        }
                        ctx.outcome("code accepted");
                    }
                }
            }
        }
        // everything else is refused
        let mut no: BTreeSet<String> = BTreeSet::new();
        for (k, c) in codes.iter().enumerate() {
            let near = near_codes(c);
            if *deep {
                no.extend(near);
            } else {
                no.insert(c.to_lowercase());
                no.insert(near[k % near.len()].clone());
            }
        }
        no.insert(String::new());
        if *deep {
            no.extend(all.iter().cloned());
            no.extend(WORDS.iter().map(|x| x.to_string()));
            no.extend(codes.iter().flat_map(|c| [format!("Code{c}"), format!("code{c}"), format!("{c}.001"), format!("{c}Code"), format!("{c}/X")]));
        }
        for x in no {
            // surrounding white space is not part of an XML value
            if codes.iter().any(|c| c == &x) {
                continue;
            }
            ctx.state(&(t.module(), &name, &x));
            ctx.step(2);
            ctx.trace(2);
            let n = set(m, s, Node::Text(x.clone()));
            if t.from_json(&w.json(t, &n)).is_ok() {
                bad("JSON accepts", &x, "not in the code list".into());
            }
            if !codes.iter().any(|c| c == x.trim()) && t.from_xml(&w.xml(t, &n)).is_ok() {
                bad("XML accepts", &x, "not in the code list".into());
            }
            ctx.outcome("other text refused");
        }
    });
    // every short word: up to 3 capital letters at each code type of each module, thorough: 4 capital
    // letters once for each different list
    let mut types: BTreeMap<(String, usize), (Target, Vec<usize>)> = BTreeMap::new();
    for (t, s, _) in &v {
        let m = w.m(*t);
        let Ty::Ref(ty) = generate::field_at(m, s).ty else { continue };
        let e = types.entry((t.module().to_string(), ty)).or_insert((*t, s.clone()));
        if e.1.len() > s.len() {
            *e = (*t, s.clone());
        }
    }
    let mut lists = BTreeSet::new();
    let mut jobs: Vec<(Target, Vec<usize>, usize, char)> = vec![];
    for (t, s) in types.values() {
        let m = w.m(*t);
        let codes: Vec<String> = m.codes(generate::field_at(m, s).ty).to_vec();
        let new = lists.insert(codes);
        for c in 'A'..='Z' {
            jobs.push((*t, s.clone(), if new && ctx.thorough { 4 } else { 3 }, c));
        }
    }
    ctx.count("code_types", types.len() as u64);
    ctx.count("code_lists", lists.len() as u64);
    ctx.lap("words");
    par_items(&jobs, |(t, s, len, c)| {
        let m = w.m(*t);
        let codes = m.codes(generate::field_at(m, s).ty);
        let (a, z) = json_around(w, *t, s);
        let mut text = String::new();
        let mut accepted = vec![];
        let mut try_ = |x: &str| {
            text.clear();
            text.push_str(&a);
            text.push_str(x);
            text.push_str(&z);
            if t.from_json(&text).is_ok() {
                accepted.push(x.to_string());
            }
        };
        let mut x = vec![*c as u8];
        let mut n = 0u64;
        // counts up like an odometer over the remaining letters
        for l in 1..=*len {
            x.truncate(1);
            x.resize(l, b'A');
            loop {
                if ctx.stop() {
                    return;
                }
                n += 1;
                try_(std::str::from_utf8(&x).unwrap());
                let Some(i) = (1..l).rev().find(|i| x[*i] != b'Z') else { break };
                x[i] += 1;
                x[i + 1..].fill(b'A');
            }
        }
        ctx.step(n);
        ctx.state(&("words", t.module(), s, c));
        let want: Vec<&String> = {
            let mut v: Vec<&String> = codes.iter().filter(|k| k.starts_with(*c) && k.len() <= *len && k.bytes().all(|b| b.is_ascii_uppercase())).collect();
            v.sort();
            v
        };
        accepted.sort();
        if accepted.iter().collect::<Vec<_>>() != want {
            ctx.violation(
                &format!("{}: {}: JSON accepts other words than the codes", t.module(), steps_name(m, s)),
                json!({"type": t.module(), "path": steps_name(m, s), "accepted": accepted, "codes": want}),
            );
        }
        ctx.outcome("all words of a letter");
    });
    vec!["code lists are those of the frozen schema model", "white space around an XML value is not part of it"]
}

// ---------------------------------------------------------------- C11

fn ser(n: &XNode, out: &mut String) {
    out.push('<');
    out.push_str(&n.name);
    for (k, v) in &n.attrs {
        out.push_str(&format!(" {k}=\"{}\"", tree::esc(v, true)));
    }
    out.push('>');
    if n.children.is_empty() {
        out.push_str(&tree::esc(&n.text, false));
    }
    for c in &n.children {
        ser(c, out);
    }
    out.push_str(&format!("</{}>", n.name));
}

pub fn c11(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all();
    let key = |t: Target, what: &str, name: &str| format!("{}: {what} {name}", t.module());

    // 1. each mandatory field missing, in a minimal message reaching it and in the full message
    let v = paths_where(w, &ts, |f| f.card.required());
    ctx.count("mandatory_fields", v.len() as u64);
    par_items(&v, |(t, s)| {
        if ctx.stop() {
            return;
        }
        let t = *t;
        let m = w.m(t);
        let f = generate::field_at(m, s);
        let name = steps_name(m, s);
        let mut trees = vec![];
        let (mut n, p) = generate::with_path(m, s);
        n.get_mut(&p[..p.len() - 1]).fields_mut()[s[s.len() - 1]].clear();
        trees.push(("minimal", n));
        if ctx.thorough || matches!(t, Target::St(_)) {
            let mut n = w.full(t).clone();
            n.get_mut(&p[..p.len() - 1]).fields_mut()[s[s.len() - 1]].clear();
            trees.push(("full", n));
        }
        for (k, n) in trees {
            ctx.state(&("mandatory", t.module(), &name, k));
            ctx.step(2);
            ctx.trace(2);
            // JSON: the key is absent; a mandatory list would be written as [] by the model writer
            let mut j: Value = serde_json::from_str(&w.json(t, &n)).unwrap();
            if f.card == Card::Vec {
                remove_at(&mut j, t, m, s);
            }
            if let Ok(i) = t.from_json(&j.to_string()) {
                ctx.violation(&key(t, "JSON accepted without mandatory", &name), json!({"case": k, "path": name, "json": j, "read_as": i.json().ok()}));
            }
            let x = w.xml(t, &n);
            if let Ok(i) = t.from_xml(&x) {
                ctx.violation(&key(t, "XML accepted without mandatory", &name), json!({"case": k, "path": name, "xml": x, "read_as": i.json().ok()}));
            }
            // null is not a value either
            if !f.card.many() && k == "minimal" {
                let raw = json_raw_any(w, t, s, "null");
                if t.from_json(&raw).is_ok() {
                    ctx.violation(&key(t, "JSON accepted with null for mandatory", &name), json!({"path": name, "json": raw}));
                }
            }
            ctx.outcome("missing mandatory refused");
        }
    });

    // 2. each optional field missing in a message holding every struct type with every field
    let v = sites_where(w, &ts, |f| !f.card.required());
    ctx.count("optional_fields", v.len() as u64);
    par_items(&v, |(t, s)| {
        if ctx.stop() {
            return;
        }
        let t = *t;
        let m = w.m(t);
        let name = steps_name(m, s);
        // the struct holding the field, all its other fields present
        let mut g = Gen { m, salt: 40 };
        let mut n = g.minimal(m.root);
        let ty = owner(m, s);
        let parent: Path = s[..s.len() - 1].iter().map(|i| (*i, 0)).collect();
        if !parent.is_empty() {
            generate::ensure(&mut g, &mut n, &s[..s.len() - 1]);
        }
        for (i, f) in m.fields(ty).iter().enumerate() {
            let occ = &n.get(&parent).fields()[i];
            if i == s[s.len() - 1] {
                n.get_mut(&parent).fields_mut()[i].clear();
            } else if occ.is_empty() {
                let x = g.value(f, false);
                n.get_mut(&parent).fields_mut()[i].push(x);
            }
        }
        ctx.state(&("optional", t.module(), &name));
        ctx.step(2);
        ctx.trace(2);
        let mut forms = vec![("JSON", t.from_json(&w.json(t, &n))), ("XML", t.from_xml(&w.xml(t, &n)))];
        // an explicit null is an absent field
        let f = generate::field_at(m, s);
        let mut j: Value = serde_json::from_str(&w.json(t, &n)).unwrap();
        insert_at(&mut j, t, m, &s[..s.len() - 1], &f.name, Value::Null);
        forms.push(("JSON with null", t.from_json(&j.to_string())));
        for (what, r) in forms {
            match r {
                Err(e) => ctx.violation(&key(t, &format!("{what} refused without optional"), &name), json!({"path": name, "error": e})),
                Ok(i) => {
                    if let Some(d) = i.json().err().or_else(|| whole(w, t, &n, i.as_ref())) {
                        ctx.violation(&key(t, &format!("{what} without optional"), &name), json!({"path": name, "difference": d}));
                    }
                }
            }
        }
        ctx.outcome("missing optional accepted");
    });

    // 3. each non-repeating element twice in XML: adjacent equal, adjacent different, at the end
    let v = paths_where(w, &ts, |f| !f.card.many() && !f.is_attr() && !f.is_value());
    ctx.count("single_elements", v.len() as u64);
    par_items(&v, |(t, s)| {
        if ctx.stop() {
            return;
        }
        let t = *t;
        let m = w.m(t);
        let f = generate::field_at(m, s);
        let name = steps_name(m, s);
        let (n, p) = generate::with_path(m, s);
        let mut forms: Vec<(&str, String)> = vec![];
        let last = s[s.len() - 1];
        let mut a = n.clone();
        let dup = a.get(&p).clone();
        a.get_mut(&p[..p.len() - 1]).fields_mut()[last].push(dup);
        forms.push(("twice the same", w.xml(t, &a)));
        let mut b = n.clone();
        let mut g = Gen { m, salt: 900 };
        let other = g.value(f, true);
        b.get_mut(&p[..p.len() - 1]).fields_mut()[last].push(other);
        forms.push(("twice, different", w.xml(t, &b)));
        // the second one after all other fields of the struct
        let mut x = tree::parse_xml(&tree::to_xml(m, &a, t.tag())).unwrap();
        {
            let mut e = &mut x;
            let mut ty = m.root;
            for i in &s[..s.len() - 1] {
                let fd = &m.fields(ty)[*i];
                e = e.children.iter_mut().find(|c| c.name == fd.name).unwrap();
                let Ty::Ref(c) = fd.ty else { panic!() };
                ty = c;
            }
            let k = e.children.iter().position(|c| c.name == f.name).unwrap();
            let c = e.children.remove(k);
            e.children.push(c);
        }
        let mut o = String::new();
        ser(&x, &mut o);
        if let Target::Mx(_) = t {
            o = tree::envelope(&w.hx, &o);
        }
        forms.push(("again at the end", o));
        for (what, x) in forms {
            ctx.state(&("dup", t.module(), &name, what));
            ctx.step(1);
            ctx.trace(1);
            if let Ok(i) = t.from_xml(&x) {
                ctx.violation(&key(t, &format!("XML accepted with {what}"), &name), json!({"path": name, "xml": x, "read_as": i.json().ok()}));
            }
            ctx.outcome("second occurrence refused");
        }
    });
    // duplicate attributes
    for (t, s) in paths_where(w, &ts, |f| f.is_attr()) {
        let m = w.m(t);
        let f = generate::field_at(m, &s);
        let raw = xml_raw(w, t, &s, "@@");
        let raw = raw.replace(&format!("{}=\"@@\"", &f.name[1..]), &format!("{0}=\"EUR\" {0}=\"USD\"", &f.name[1..]));
        ctx.step(1);
        ctx.trace(1);
        ctx.state(&("attr", t.module(), &steps_name(m, &s)));
        if raw.contains("USD") && t.from_xml(&raw).is_ok() {
            ctx.violation(&key(t, "XML accepted with a repeated attribute", &steps_name(m, &s)), json!({"xml": raw}));
        }
    }

    // 4. lists: 1..n items in order, every path, both formats, both parse entry points
    let v = paths_where(w, &ts, |f| f.card.many());
    ctx.count("lists", v.len() as u64);
    par_items(&v, |(t, s)| {
        if ctx.stop() {
            return;
        }
        let t = *t;
        let m = w.m(t);
        let name = steps_name(m, s);
        let top = if ctx.thorough { 17 } else { 6 };
        let f = generate::field_at(m, s);
        for k in 1..=top {
            let mut n = Item { t, what: What::Count(s.clone(), k) }.build(w);
            // also lists of equal items: multiplicity must survive
            if k == top {
                let p: Path = s[..s.len() - 1].iter().map(|i| (*i, 0)).collect();
                let l = &mut n.get_mut(&p).fields_mut()[s[s.len() - 1]];
                let a = l[0].clone();
                l[1] = a.clone();
                l[3] = a;
            }
            ctx.state(&("list", t.module(), &name, k));
            ctx.step(2);
            ctx.trace(2);
            for (what, r) in [("JSON", t.from_json(&w.json(t, &n))), ("XML", t.from_xml(&w.xml(t, &n)))] {
                match r {
                    Err(e) => ctx.violation(&key(t, &format!("{what} with {k} items refused at"), &name), json!({"path": name, "error": e})),
                    Ok(i) => {
                        if let Some(d) = whole(w, t, &n, i.as_ref()) {
                            ctx.violation(&key(t, &format!("{what} with {k} items at"), &name), json!({"path": name, "difference": d}));
                        }
                    }
                }
            }
            let _ = f;
            ctx.outcome("list kept");
        }
    });
    vec!["which fields are mandatory, optional or repeating is taken from the frozen schema model", "a mandatory list with no item is outside the claim for JSON (an explicit empty array)"]
}
fn whole(w: &World, t: Target, n: &Node, i: &dyn Inst) -> Option<String> {
    match i.json() {
        Ok(j) => whole_json_diff(w, t, n, &j),
        Err(e) => Some(e),
    }
}
fn doc_mut<'a>(j: &'a mut Value, t: Target) -> &'a mut Value {
    match t {
        Target::Mx(d) => &mut j["Document"][d.element],
        Target::St(_) => j,
    }
}
fn struct_at<'a>(j: &'a mut Value, t: Target, m: &Module, s: &[usize]) -> &'a mut Value {
    let mut x = doc_mut(j, t);
    let mut ty = m.root;
    for i in s {
        let f = &m.fields(ty)[*i];
        x = &mut x[&f.name];
        if f.card.many() {
            x = &mut x[0];
        }
        let Ty::Ref(c) = f.ty else { panic!() };
        ty = c;
    }
    x
}
fn remove_at(j: &mut Value, t: Target, m: &Module, s: &[usize]) {
    let name = generate::field_at(m, s).name.clone();
    struct_at(j, t, m, &s[..s.len() - 1]).as_object_mut().unwrap().remove(&name);
}
fn insert_at(j: &mut Value, t: Target, m: &Module, s: &[usize], name: &str, v: Value) {
    struct_at(j, t, m, s).as_object_mut().unwrap().insert(name.to_string(), v);
}
/// JSON of the minimal message with a raw value (of any shape) at a path
fn json_raw_any(w: &World, t: Target, s: &[usize], raw: &str) -> String {
    let m = w.m(t);
    let (n, _) = generate::with_path(m, s);
    let mut j: Value = serde_json::from_str(&w.json(t, &n)).unwrap();
    let name = generate::field_at(m, s).name.clone();
    insert_at(&mut j, t, m, &s[..s.len() - 1], &name, json!("@@mark@@"));
    j.to_string().replace("\"@@mark@@\"", raw)
}

// ---------------------------------------------------------------- C12

/// Doubles: integers, cents, all 17 digits, limits of the format, subnormals, negative, zero.
pub fn doubles(thorough: bool) -> Vec<f64> {
    let mut v = vec![
        0.0, 1.0, 0.01, 0.1, 0.2, 0.30000000000000004, 1.1, 99.99, 100.10, 1e3, 123456.78, 1234567.891, 999999999999.99, 99999999999999.98,
        4503599627370497.5, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 123456789012345680.0, 1e21, 1e22, 1e23, 1.5e300, f64::MAX,
        f64::MIN_POSITIVE, 5e-324, 2.2250738585072011e-308, f64::EPSILON, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.1 + 0.7, 1.0 / 3.0,
        2.0 / 3.0, 1e-5, 1e-7, 0.000001234, 3.141592653589793, 2.718281828459045, 1.7976931348623155e308, 8.5, 0.5, 0.25, 1e15, 1e16, 1e17, 123e-20,
        -1.0, -0.01, -123456.78, -9007199254740993.0, 5708990770823839.5, 1.0715660391465826e12, 6.02214076e23, 1.2345678901234567e17, 72057594037927945.0,
    ];
    // ISO amounts have up to 18 digits, up to 5 of them after the point
    let digits = "123456789987654321";
    for n in 1..=18 {
        for frac in 0..=5usize.min(n) {
            if !thorough && ![0, 2, 5].contains(&frac) {
                continue;
            }
            let a: f64 = format!("{}.{}", &digits[..n - frac], &digits[n - frac..n]).trim_end_matches('.').trim_start_matches('.').parse().unwrap();
            v.push(a);
            let nines: f64 = "9".repeat(n).parse().unwrap();
            v.push(nines / 10f64.powi(frac as i32));
        }
    }
    if thorough {
        for i in 0..2000u64 {
            v.push((i * 7919 + 13) as f64 / 100.0);
            v.push(f64::from_bits(0x3ff0000000000000 + i.wrapping_mul(0x9E3779B97F4A7C15) % (1 << 52)));
        }
    }
    v
}
/// Spellings of a number with the same value, as XSD decimal/double and JSON allow.
fn spellings(x: f64, xml: bool) -> Vec<String> {
    let d = format!("{x}");
    let e = format!("{x:e}");
    let mut v = vec![d.clone(), e.clone(), e.replace('e', "E")];
    let (mant, exp) = e.split_once('e').unwrap();
    let exp: i32 = exp.parse().unwrap();
    let dot = if mant.contains('.') { mant.to_string() } else { format!("{mant}.0") };
    v.push(format!("{dot}0e{exp:+}"));
    v.push(format!("{dot}E{exp:+03}"));
    // shifted mantissa
    let sign = if mant.starts_with('-') { "-" } else { "" };
    let ds: String = mant.chars().filter(|c| c.is_ascii_digit()).collect();
    v.push(format!("{sign}{}e{}", if ds.starts_with('0') && ds.len() > 1 { ds.trim_start_matches('0') } else { &ds }, exp - (ds.len() as i32 - 1)));
    v.push(format!("{sign}0.00{ds}e{}", exp + 3));
    v.push(if d.contains('.') { format!("{d}000") } else { format!("{d}.000") });
    if xml {
        v.push(format!("{}00{}", sign, d.trim_start_matches('-')));
        if !d.starts_with('-') {
            v.push(format!("+{d}"));
        }
        if !d.contains('.') {
            v.push(format!("{d}."));
        }
        if let Some(r) = d.strip_prefix("0.") {
            v.push(format!(".{r}"));
        }
        v.push(format!(" {d}\n"));
        v.push(format!("<![CDATA[{d}]]>"));
        let c = d.chars().next().unwrap();
        v.push(format!("&#{};{}", c as u32, &d[1..]));
    }
    v.retain(|s| s.trim().parse::<f64>().map(|y| y == x).unwrap_or(true));
    v
}
/// At most 15 significant digits (zeros included) and a moderate exponent.
fn short_number(s: &str) -> bool {
    let (m, e) = s.split_once(['e', 'E']).unwrap_or((s, "0"));
    let d: String = m.chars().filter(|c| c.is_ascii_digit()).collect();
    let frac = m.split_once('.').map(|x| x.1.len()).unwrap_or(0) as i32;
    d.trim_start_matches('0').len() <= 15 && (e.parse::<i32>().unwrap() - frac).abs() <= 22
}
/// Numbers with 16 and 17 digits, as the library itself writes them.
const LONG_JSON: &[&str] = &[
    "9007199254740991", "9007199254740992.0", "9007199254740993", "9007199254740991.0", "123456789987654.33", "1234567899876543.2", "99999999999999.98",
    "0.30000000000000004", "0.9999999999999999", "12345678998765.432", "1.0000000000000002", "0.6666666666666666", "0.3333333333333333", "2.220446049250313e-16",
    "2.718281828459045", "3.141592653589793", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "1.5e300", "1e23", "6.02214076e23", "1.2345678901234567e17",
];
const NOT_NUMBERS: &[&str] = &[
    "", " ", "abc", "1,5", "1 000", "0x10", "1e", "e5", "--1", "+-1", "1_000", "1.2.3", "１", "1e5.5", "1f", "1d", "$1", "EUR 1", "1 EUR", "ten", "1e+", ".", "-", "+", "0b1",
    "1/2", "١", "1\u{a0}0", "1;", "%1", "null", "true", "#1", "1'000", "(1)", "1-", "1 2",
    "NaN", "nan", "-NaN", "inf", "-inf", "+inf", "INF", "-INF", "infinity", "Infinity", "-Infinity", "iNf",
];
const OVERFLOW: &[&str] = &["1e309", "-1e309", "1e400", "9e99999"];
const NOT_JSON_NUMBERS: &[&str] = &["\"1\"", "\"1.5\"", "\"abc\"", "\"\"", "true", "[]", "[1]", "{}", "{\"a\":1}", "\"NaN\"", "\"inf\""];
const NOT_BOOL: &[&str] = &["", "2", "10", "-1", "truefalse", "tru", "on", "null", "0.0", "1.0", "01", "tr ue", "ｔrue", "oui", "wahr", "trueX", "Xfalse"];
/// Spellings beyond XSD that may be refused, but never read as the opposite.
const LENIENT_BOOL: &[(&str, bool)] = &[
    ("yes", true), ("no", false), ("TRUE", true), ("False", false), ("True", true), ("FALSE", false), ("t", true), ("f", false), ("y", true), ("n", false),
    ("Yes", true), ("No", false), ("YES", true), ("NO", false),
];
const NOT_JSON_BOOL: &[&str] = &["\"true\"", "\"false\"", "1", "0", "\"\"", "[]", "[true]", "{}", "1.0"];

const NUMBER_CHARS: &[u8] = b"0159.eE+-_, xnaif";
/// The number a text stands for: XSD decimal and double, or JSON.
fn decimal(s: &str, json: bool) -> Option<f64> {
    let b = s.as_bytes();
    let digits = |mut i: usize| {
        let from = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        (i - from, i)
    };
    let mut i = 0;
    if i < b.len() && (b[i] == b'-' || (b[i] == b'+' && !json)) {
        i += 1;
    }
    let start = i;
    let (n, j) = digits(i);
    i = j;
    let mut frac = 0;
    let mut dot = false;
    if i < b.len() && b[i] == b'.' {
        dot = true;
        (frac, i) = digits(i + 1);
    }
    if n + frac == 0 || (json && (n == 0 || (dot && frac == 0) || (n > 1 && b[start] == b'0'))) {
        return None;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let (e, j) = digits(i);
        if e == 0 {
            return None;
        }
        i = j;
    }
    if i != b.len() {
        return None;
    }
    s.parse().ok()
}
/// JSON of the smallest message with a value at this path: what comes before and after the value
fn json_around_raw(w: &World, t: Target, s: &[usize]) -> (String, String) {
    let j = json_raw(w, t, s, "@@mark@@");
    let (a, z) = j.split_once("@@mark@@").unwrap();
    (a.to_string(), z.to_string())
}
/// ISO 4217 (active, funds, metals, testing), some withdrawn codes, and words that are none.
const CURRENCIES: &[&str] = &[
    "AED", "AFN", "ALL", "AMD", "ANG", "AOA", "ARS", "AUD", "AWG", "AZN", "BAM", "BBD", "BDT", "BGN", "BHD", "BIF", "BMD", "BND", "BOB", "BOV", "BRL", "BSD", "BTN", "BWP",
    "BYN", "BZD", "CAD", "CDF", "CHE", "CHF", "CHW", "CLF", "CLP", "CNH", "CNY", "COP", "COU", "CRC", "CUC", "CUP", "CVE", "CZK", "DJF", "DKK", "DOP", "DZD", "EGP", "ERN",
    "ETB", "EUR", "FJD", "FKP", "GBP", "GEL", "GHS", "GIP", "GMD", "GNF", "GTQ", "GYD", "HKD", "HNL", "HRK", "HTG", "HUF", "IDR", "ILS", "INR", "IQD", "IRR", "ISK", "JMD",
    "JOD", "JPY", "KES", "KGS", "KHR", "KMF", "KPW", "KRW", "KWD", "KYD", "KZT", "LAK", "LBP", "LKR", "LRD", "LSL", "LYD", "MAD", "MDL", "MGA", "MKD", "MMK", "MNT", "MOP",
    "MRU", "MUR", "MVR", "MWK", "MXN", "MXV", "MYR", "MZN", "NAD", "NGN", "NIO", "NOK", "NPR", "NZD", "OMR", "PAB", "PEN", "PGK", "PHP", "PKR", "PLN", "PYG", "QAR", "RON",
    "RSD", "RUB", "RWF", "SAR", "SBD", "SCR", "SDG", "SEK", "SGD", "SHP", "SLE", "SLL", "SOS", "SRD", "SSP", "STN", "SVC", "SYP", "SZL", "THB", "TJS", "TMT", "TND", "TOP",
    "TRY", "TTD", "TWD", "TZS", "UAH", "UGX", "USD", "USN", "UYI", "UYU", "UYW", "UZS", "VED", "VES", "VND", "VUV", "WST", "XAF", "XAG", "XAU", "XBA", "XBB", "XBC", "XBD",
    "XCD", "XDR", "XOF", "XPD", "XPF", "XPT", "XSU", "XTS", "XUA", "XXX", "YER", "ZAR", "ZMW", "ZWL", "DEM", "FRF", "ITL", "XEU", "eur", "", "E", "EURO", "BTC",
];
/// Numbers that some currencies would not take: fractions of a unit, nothing, less than nothing.
const BESIDE: &[f64] = &[1234.5678, 0.0, -99.05];

pub fn c12(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all();
    let mut v: Vec<(Target, Vec<usize>, bool)> = vec![];
    for &t in &ts {
        let m = w.m(t);
        let sites: BTreeSet<Vec<usize>> = field_sites(m).into_iter().collect();
        for s in generate::field_paths(m) {
            if matches!(generate::field_at(m, &s).ty, Ty::F64 | Ty::Bool) {
                let site = sites.contains(&s);
                v.push((t, s, site));
            }
        }
    }
    ctx.count("numeric_and_flag_paths", v.len() as u64);
    let nums = doubles(ctx.thorough);
    ctx.count("numbers", nums.len() as u64);
    par_items(&v, |(t, s, site)| {
        if ctx.stop() {
            return;
        }
        let t = *t;
        let m = w.m(t);
        let f = generate::field_at(m, s);
        let name = steps_name(m, s);
        let viol = |key: String, d: Value| ctx.violation(&key, json!({"type": t.module(), "path": name, "case": d}));
        // the currency attribute beside an amount must come along
        let check = |n: &Node, what: &str, x: &str, trip: bool, jsonable: bool, r: Result<Box<dyn Inst>, String>| match r {
            Err(e) => viol(format!("{what} refuses {x}"), json!(format!("{}: {e}", t.module()))),
            Ok(i) => {
                if let Some(d) = whole(w, t, n, i.as_ref()) {
                    viol(format!("{what} reads {x} differently"), json!(d));
                    return;
                }
                if !trip {
                    return;
                }
                // written and read again, both formats
                let back = i.xml().and_then(|x| t.from_xml(&x)).map(|b| same(b.as_ref(), i.as_ref()));
                if back != Ok(true) {
                    viol(format!("XML round trip of {x}"), json!(format!("{back:?}")));
                }
                if !jsonable {
                    return;
                }
                let back = i.json().and_then(|j| t.from_json(&j.to_string())).map(|b| same(b.as_ref(), i.as_ref()));
                if back != Ok(true) {
                    viol(format!("JSON round trip of {x}"), json!(format!("{back:?}")));
                }
            }
        };
        match f.ty {
            Ty::F64 => {
                for (k, x) in nums.iter().enumerate() {
                    // all numbers at one place per (struct type, field); a slice elsewhere
                    if !site && !ctx.thorough && (k + s.len() + s[s.len() - 1]) % 24 != 0 {
                        continue;
                    }
                    let n = set(m, s, Node::Num(*x));
                    ctx.state(&(t.module(), &name, x.to_bits()));
                    for (q, sp) in spellings(*x, true).iter().enumerate() {
                        if q > 0 && !ctx.thorough && (k + q) % 8 != 0 {
                            continue;
                        }
                        ctx.step(1);
                        ctx.trace(3);
                        check(&n, "XML", sp, q == 0 || ctx.thorough, generate::digits(*x) <= 15, t.from_xml(&xml_raw(w, t, s, sp)));
                    }
                    for (q, sp) in spellings(*x, false).iter().enumerate() {
                        if !short_number(sp) {
                            continue;
                        }
                        if q > 0 && !ctx.thorough && (k + q) % 8 != 0 {
                            continue;
                        }
                        ctx.step(1);
                        ctx.trace(3);
                        check(&n, "JSON", sp, q == 0 || ctx.thorough, true, t.from_json(&json_raw(w, t, s, sp)));
                    }
                    ctx.outcome("number kept");
                }
                // long numbers in JSON: a fixed list
                for sp in LONG_JSON {
                    let n = set(m, s, Node::Num(sp.parse().unwrap()));
                    ctx.state(&(t.module(), &name, sp));
                    ctx.step(1);
                    ctx.trace(3);
                    check(&n, "JSON", sp, false, false, t.from_json(&json_raw(w, t, s, sp)));
                }
                for x in NOT_NUMBERS.iter().chain(OVERFLOW) {
                    ctx.step(1);
                    ctx.trace(1);
                    ctx.state(&(t.module(), &name, x));
                    if let Ok(i) = t.from_xml(&xml_raw(w, t, s, x)) {
                        viol(format!("XML accepts {x:?} as a number"), json!(i.json().ok().and_then(|j| json_at(m, t, &j, s).cloned())));
                    }
                    ctx.outcome("not a number, refused");
                }
                for x in NOT_JSON_NUMBERS.iter().chain(OVERFLOW) {
                    ctx.step(1);
                    ctx.trace(1);
                    if let Ok(i) = t.from_json(&json_raw(w, t, s, x)) {
                        viol(format!("JSON accepts {x} as a number"), json!(i.json().ok()));
                    }
                }
            }
            _ => {
                for b in [true, false] {
                    let n = set(m, s, Node::Bool(b));
                    ctx.state(&(t.module(), &name, b));
                    ctx.step(5);
                    ctx.trace(12);
                    for sp in [format!("{b}"), (b as u8).to_string(), format!(" {b}\n")] {
                        check(&n, "XML", &sp, true, true, t.from_xml(&xml_raw(w, t, s, &sp)));
                    }
                    check(&n, "JSON", &b.to_string(), true, true, t.from_json(&json_raw(w, t, s, &b.to_string())));
                    ctx.outcome("flag kept");
                }
                for x in NOT_BOOL {
                    ctx.step(1);
                    ctx.trace(1);
                    if t.from_xml(&xml_raw(w, t, s, x)).is_ok() {
                        viol(format!("XML accepts {x:?} as a flag"), json!(null));
                    }
                }
                for (x, b) in LENIENT_BOOL {
                    ctx.step(1);
                    ctx.trace(1);
                    if let Ok(i) = t.from_xml(&xml_raw(w, t, s, x))
                        && let Some(d) = whole(w, t, &set(m, s, Node::Bool(*b)), i.as_ref())
                    {
                        viol(format!("XML reads {x:?} as the opposite flag"), json!(d));
                    }
                }
                for x in NOT_JSON_BOOL {
                    ctx.step(1);
                    ctx.trace(1);
                    if t.from_json(&json_raw(w, t, s, x)).is_ok() {
                        viol(format!("JSON accepts {x} as a flag"), json!(null));
                    }
                }
            }
        }
    });
    // several amounts in one message: no value or currency moves to another field
    let mut rot = vec![];
    for &t in &ts {
        for k in 0..if ctx.thorough { nums.len() } else { 16 } {
            rot.push((t, k));
        }
    }
    par_items(&rot, |(t, k)| {
        if ctx.stop() {
            return;
        }
        let m = w.m(*t);
        let mut n = w.full(*t).clone();
        let (mut i, mut b) = (0, 0);
        let safe: Vec<f64> = (0..997).map(|i| (i * 37 + 1) as f64 / 100.0).collect();
        for (p, ty, f) in generate::leaves(m, w.full(*t)) {
            let f = &m.fields(ty)[f];
            if f.ty == Ty::F64 {
                *n.get_mut(&p) = Node::Num(safe[(i * 7 + k * 61) % safe.len()]);
                i += 1;
            } else if f.ty == Ty::Bool {
                *n.get_mut(&p) = Node::Bool((b + k) % 2 == 0);
                b += 1;
            } else if f.is_attr() && f.ty == Ty::Str {
                let c = i + k;
                *n.get_mut(&p) = Node::Text((0..3).map(|d| (b'A' + (c / 26usize.pow(d) % 26) as u8) as char).collect());
            }
        }
        ctx.state(&("full", t.module(), k));
        ctx.step(2);
        ctx.trace(2);
        for (what, r) in [("JSON", t.from_json(&w.json(*t, &n))), ("XML", t.from_xml(&w.xml(*t, &n)))] {
            let d = match r {
                Ok(i) => whole(w, *t, &n, i.as_ref()).or_else(|| {
                    let x = i.xml().and_then(|x| t.from_xml(&x)).map(|b| same(b.as_ref(), i.as_ref()));
                    (x != Ok(true)).then(|| format!("{x:?}"))
                }),
                Err(e) => Some(e),
            };
            if let Some(d) = d {
                ctx.violation(&format!("{}: full message, {what}: {}", t.module(), d.chars().take(120).collect::<String>()), json!({"type": t.module(), "rotation": k, "difference": d}));
            }
        }
    });
    // every short text over the characters of numbers, read as a number or refused as the grammars say
    let mut jobs: Vec<(Target, Vec<usize>, usize, u8)> = vec![];
    let mut seen = BTreeSet::new();
    for (t, s, site) in &v {
        let m = w.m(*t);
        if generate::field_at(m, s).ty == Ty::F64 && *site {
            // shallow sites first in field_sites; the first of a module goes deepest
            let len = if !seen.insert(t.module()) { 2 } else if seen.len() == 1 { 4 } else { 3 } + ctx.thorough as usize;
            jobs.extend(NUMBER_CHARS.iter().map(|c| (*t, s.clone(), len, *c)));
        }
    }
    ctx.lap("number texts");
    par_items(&jobs, |(t, s, len, c)| {
        let m = w.m(*t);
        let (ja, jz) = json_around_raw(w, *t, s);
        let x = xml_raw(w, *t, s, "@@mark@@");
        let (xa, xz) = x.split_once("@@mark@@").unwrap();
        let name = steps_name(m, s);
        let mut texts = vec![vec![*c]];
        let mut from = 0;
        for _ in 1..*len {
            let to = texts.len();
            for i in from..to {
                for d in NUMBER_CHARS {
                    let mut y = texts[i].clone();
                    y.push(*d);
                    texts.push(y);
                }
            }
            from = to;
        }
        ctx.state(&("number texts", t.module(), &name, c));
        ctx.step(2 * texts.len() as u64);
        ctx.trace(2 * texts.len() as u64);
        for y in &texts {
            if ctx.stop() {
                return;
            }
            let y = std::str::from_utf8(y).unwrap();
            // these are in NOT_NUMBERS
            if matches!(y.trim().trim_start_matches(['+', '-']), "nan" | "inf") {
                continue;
            }
            for (what, want, got) in [
                ("XML", decimal(y.trim(), false), t.from_xml(&format!("{xa}{y}{xz}"))),
                // up to 4 characters: longer texts with large exponents are often off by one unit (known finding)
                ("JSON", decimal(y.trim(), true), t.from_json(&format!("{ja}{y}{jz}"))),
            ] {
                if what == "JSON" && y.len() > 4 {
                    continue;
                }
                let got = got.ok().map(|i| i.json().ok().and_then(|j| json_at(m, *t, &j, s).and_then(|v| v.as_f64())));
                if want.map(Some) != got {
                    // the same key as the other spellings when only the value is off
                    if let (Some(_), Some(Some(_))) = (want, got) {
                        ctx.violation(&format!("{what} reads {y} differently"), json!({"type": t.module(), "path": name, "want": want, "got": got}));
                        continue;
                    }
                    ctx.violation(
                        &format!("{what} reads the number text {y:?} as {got:?}"),
                        json!({"type": t.module(), "path": name, "text": y, "want": want, "got": format!("{got:?}")}),
                    );
                }
            }
        }
        ctx.outcome("number texts");
    });
    // every currency beside every kind of number, at every amount of a full message
    let mut cur = vec![];
    for &t in &ts {
        let m = w.m(t);
        let at: Vec<(Path, bool)> = generate::leaves(m, w.full(t))
            .into_iter()
            .filter_map(|(p, ty, f)| {
                let f = &m.fields(ty)[f];
                (f.ty == Ty::F64 || (f.is_attr() && f.ty == Ty::Str)).then(|| (p, f.ty == Ty::F64))
            })
            .collect();
        if at.iter().any(|(_, num)| *num) {
            cur.extend((0..CURRENCIES.len()).map(|k| (t, at.clone(), k)));
        }
    }
    ctx.count("currency_messages", (cur.len() * BESIDE.len()) as u64);
    par_items(&cur, |(t, at, k)| {
        for q in 0..BESIDE.len() {
            if ctx.stop() {
                return;
            }
            let mut n = w.full(*t).clone();
            // an amount's currency comes before it
            let mut i = 0;
            for (p, num) in at {
                *n.get_mut(p) = if *num {
                    i += 1;
                    Node::Num(BESIDE[(i + q) % BESIDE.len()])
                } else {
                    Node::Text(CURRENCIES[(i / BESIDE.len() + k) % CURRENCIES.len()].to_string())
                };
            }
            ctx.state(&("currency", t.module(), k, q));
            ctx.step(2);
            ctx.trace(2);
            // read from JSON, compared, written as XML, read again: each of the four once
            let d = match t.from_json(&w.json(*t, &n)) {
                Ok(i) => whole(w, *t, &n, i.as_ref()).or_else(|| {
                    let x = i.xml().and_then(|x| t.from_xml(&x)).map(|b| same(b.as_ref(), i.as_ref()));
                    (x != Ok(true)).then(|| format!("written as XML and read again: {x:?}"))
                }),
                Err(e) => Some(e),
            };
            if let Some(d) = d {
                ctx.violation(
                    &format!("{}: currencies: {}", t.module(), d.chars().take(120).collect::<String>()),
                    json!({"type": t.module(), "rotation": [k, q], "difference": d}),
                );
            }
        }
    });
    vec!["numbers are finite doubles; a spelling stands for the nearest double"]
}
