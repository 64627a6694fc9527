//! C16: the workflow steps as a transition system, explored breadth-first next to a model of it.
use super::boundary::{hdr_json, hdr_xml, header};
use crate::common::*;
use crate::steps::{self, Steps, full_message};
use crate::targets::*;
use dataflow_rs::engine::message::{Change, Message};
use dataflow_rs::engine::{Engine, FunctionConfig, Workflow};
use refmodel::engine::{Ctx, par_items};
use refmodel::tree;
use serde_json::{Map, Value, json};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

#[derive(Clone, Debug)]
struct Act {
    step: &'static str,
    /// None: the parameter is not given
    source: Option<&'static str>,
    target: &'static str,
}

/// What the steps compute, for the contents used here: from the reference model.
struct Meaning {
    /// text -> (JSON, type)
    parse: HashMap<String, (Value, String)>,
    /// JSON -> text
    publish: Vec<(Value, String)>,
    /// payload -> generated value
    generate: Vec<(Value, Value)>,
}

/// The part of a message a step may touch, with validation results reduced to their verdict.
#[derive(Clone, PartialEq, Debug)]
struct St {
    payload: Value,
    data: Value,
    meta: Value,
}

/// Field names that are anything but plain
const NAMES: [&str; 35] = [
    "", " ", "a b", "a.b", "data.a", "é", "$", "0", "metadata", "mx_message", "Document", "a/b", "a\"b", "temp_data", "\u{0}", "A", "b.0", "b[0]", "b/0", "/c", "/a/b",
    "c ", " c", "C", "$.c", "#c", "a.c.d", "a..b", ".", "c.", ".c", "data/a", "data.", "payload", "a~1b",
];

fn squash(v: &Value) -> Value {
    if v.get("valid").is_some()
        && let Ok(b) = steps::verdict(v)
    {
        return json!({"verdict": b});
    }
    v.clone()
}
fn squash_map(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, v)| {
                    let w = if v.get("validated").is_some() { json!({"validated": v["validated"]}) } else { squash(v) };
                    (k.clone(), w)
                })
                .collect(),
        ),
        x => x.clone(),
    }
}
fn state_of(m: &Message) -> St {
    St { payload: (*m.payload).clone(), data: squash_map(m.data()), meta: squash_map(m.metadata()) }
}

impl Meaning {
    fn content(&self, s: &St, source: &str) -> Option<String> {
        let v = if source == "payload" { &s.payload } else { s.data.get(source)? };
        v.get("mx_message").unwrap_or(v).as_str().map(String::from)
    }
    /// The step on the model: None is an error.
    fn apply(&self, s: &St, a: &Act) -> Option<(St, Value)> {
        let mut n = s.clone();
        let new = match a.step {
            "parse_mx" => {
                let (v, t) = self.parse.get(&self.content(s, a.source?)?)?.clone();
                n.meta.as_object_mut()?.insert(a.target.into(), json!({"message_type": t, "format": "json"}));
                v
            }
            "validate_mx" => {
                let ok = self.parse.contains_key(&self.content(s, a.source?)?);
                n.meta.as_object_mut()?.insert("validation".into(), json!({"validated": true}));
                json!({"verdict": ok})
            }
            "publish_mx" => {
                let v = s.data.get(a.source?)?;
                Value::String(self.publish.iter().find(|x| &x.0 == v)?.1.clone())
            }
            _ => self.generate.iter().find(|x| x.0 == s.payload)?.1.clone(),
        };
        n.data.as_object_mut()?.insert(a.target.into(), new.clone());
        Some((n, new))
    }
}

fn outside(m: &Message) -> Value {
    let mut c = m.context.clone();
    if let Some(o) = c.as_object_mut() {
        o.remove("data");
        o.remove("metadata");
    }
    json!({"id": m.id, "rest": c, "audit": m.audit_trail.len(), "errors": m.errors.len(), "payload": *m.payload})
}

/// One transition on the implementation; the difference with the model, if any.
fn transition(me: &Meaning, st: &Steps, m: &mut Message, before: &St, a: &Act, cfg: &FunctionConfig, broken_cfg: bool) -> Result<bool, String> {
    let (old_data, old_meta, old_rest) = (m.data().clone(), m.metadata().clone(), outside(m));
    let _ = m.get_context_arc();
    let r = st.run_cfg(a.step, m, cfg);
    if *m.get_context_arc() != m.context {
        return Err("the cached context is stale after the step".into());
    }
    if outside(m) != old_rest {
        return Err(format!("changed outside data and metadata: {} -> {}", old_rest, outside(m)));
    }
    let want = if broken_cfg { None } else { me.apply(before, a) };
    match (r, want) {
        (Err(e), _) if e.starts_with("PANIC") => Err(e),
        (Err(_), None) => {
            if *m.data() != old_data || *m.metadata() != old_meta {
                return Err("a failed step changed the message".into());
            }
            Ok(false)
        }
        (Err(e), Some(_)) => Err(format!("fails: {e}")),
        (Ok(_), None) => Err(format!("succeeds where it must fail; target becomes {}", m.data()[a.target])),
        (Ok((code, ch)), Some((n, _))) => {
            if let Some(e) = change_error(&ch, code, a.target, &old_data, m.data()) {
                return Err(e);
            }
            let now = state_of(m);
            if now != n {
                return Err(format!("data {} metadata {}; expected data {} metadata {}", now.data, now.meta, n.data, n.meta));
            }
            // the values next to the target are the very same, verdict details included
            for (what, o, n, k) in [("data", &old_data, m.data(), a.target), ("metadata", &old_meta, m.metadata(), if a.step == "validate_mx" { "validation" } else { a.target })] {
                if let (Some(o), Some(n)) = (o.as_object(), n.as_object()) {
                    let cut = |x: &Map<String, Value>| {
                        let mut x = x.clone();
                        x.remove(k);
                        x
                    };
                    if cut(o) != cut(n) {
                        return Err(format!("changed another {what} entry"));
                    }
                }
            }
            Ok(true)
        }
    }
}
fn change_error(ch: &[Change], code: usize, target: &str, old: &Value, new: &Value) -> Option<String> {
    if code != 200 {
        return Some(format!("status {code}"));
    }
    if ch.len() != 1 {
        return Some(format!("{} changes reported", ch.len()));
    }
    let c = &ch[0];
    if *c.path != *format!("data.{target}") {
        return Some(format!("change path {}", c.path));
    }
    let o = old.get(target).cloned().unwrap_or(Value::Null);
    if *c.old_value != o {
        return Some(format!("reported old value {} instead of {o}", c.old_value));
    }
    if Some(&*c.new_value) != new.get(target) {
        return Some(format!("reported new value {} instead of {:?}", c.new_value, new.get(target)));
    }
    None
}
fn config(a: &Act) -> FunctionConfig {
    let mut o = Map::new();
    if let Some(s) = a.source {
        o.insert("source".into(), json!(s));
    }
    o.insert("target".into(), json!(a.target));
    FunctionConfig::Custom { name: a.step.into(), input: Value::Object(o) }
}

pub fn c16(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let st = &Steps::new();
    // two small messages of different types, one with header, one without
    let (ta, tb) = (Target::by_module("camt_025_001_08").unwrap(), Target::by_module("pacs_010_001_03").unwrap());
    let h = header(&w, "camt.025.001.08", Some("a<&>\"b"));
    let (ma, mb) = (w.m(ta), w.m(tb));
    let xa = ta.wrap_xml(&hdr_xml(&w, &h), &tree::to_xml(ma, w.min(ta), ta.tag()));
    let xb = format!("<Document>{}</Document>", tree::to_xml(mb, w.min(tb), tb.tag()));
    let xe = xa.replace("><", ">\\n  <");
    let mut me = Meaning { parse: HashMap::new(), publish: vec![], generate: vec![] };
    let bad = |what: &str, d: String| ctx.violation(what, json!({"difference": d}));
    // the value the parse step delivers is the model's content (compared here), then used verbatim
    let full = json!({"AppHdr": hdr_json(&w, &h), "Document": {ta.tag(): tree::to_json(ma, ma.root, w.min(ta))}});
    let alone = json!({"Document": {tb.tag(): tree::to_json(mb, mb.root, w.min(tb))}});
    let (mut ja, mut jb) = (full.clone(), alone.clone());
    match st.parse(&xa) {
        Ok((v, t)) => {
            let hm = w.s.get(refmodel::schema::APPHDR);
            if let Some(d) = tree::json_diff(hm, hm.root, &h, &v["AppHdr"], "").or(tree::json_diff(ma, ma.root, w.min(ta), ta.doc_json(&v), "")) {
                bad("parse step: message with header", d);
            }
            if t != "camt.025" {
                bad("parse step: message with header: type", t);
            }
            ja = v;
        }
        Err(e) => bad("parse step: message with header", e),
    }
    match st.parse(&xb) {
        Ok((v, t)) => {
            if let Some(d) = tree::json_diff(mb, mb.root, w.min(tb), tb.doc_json(&v), "") {
                bad("parse step: document", d);
            }
            if v.as_object().map(|o| o.len()) != Some(1) {
                bad("parse step: document", "more than the document".into());
            }
            if t != "pacs.010" {
                bad("parse step: document: type", t);
            }
            jb = v;
        }
        Err(e) => bad("parse step: document", e),
    }
    for (v, t) in [(&ja, "camt.025"), (&jb, "pacs.010")] {
        match st.publish(v) {
            Ok(x) => {
                // publishing and parsing again gives the same value
                match st.parse(&x) {
                    Ok((v2, _)) if v2 == *v => {}
                    r => bad("published text parsed again", format!("{r:?}")),
                }
                me.parse.insert(x.clone(), (v.clone(), t.into()));
                me.publish.push((v.clone(), x));
            }
            Err(e) => bad("publish step", e),
        }
    }
    for (x, v, t) in [(&xa, &ja, "camt.025"), (&xe, &ja, "camt.025"), (&xb, &jb, "pacs.010")] {
        me.parse.insert(x.clone(), (v.clone(), t.into()));
    }
    let scen = |schema: &Value| json!({"metadata": {"name": "s"}, "variables": {}, "schema": schema});
    let obj = json!({"mx_message": xb, "other": [1, null]});
    for s in [&ja, &obj["mx_message"], &json!({"mx_message": xa, "other": 1})] {
        me.generate.push((scen(s), s.clone()));
    }
    let me = &me;

    // ---- initial messages
    let payloads = [
        scen(&ja), me.generate[1].0.clone(), me.generate[2].0.clone(), json!(xa), json!(xb), json!(xe), json!("garbage"), json!(""), Value::Null, json!(7), json!({"mx_message": xa, "json_data": 1}),
        json!({"schema": {"fake": ["nosuch"]}}), json!([xa]),
    ];
    let datas = [
        json!({}),
        json!({"a": xa, "b": jb, "keep": {"x": [1]}}),
        json!({"a": obj, "b": 5, "keep": ja}),
        json!({"a": ja, "b": null, "validation": "old", "payload": xb}),
        json!({"a": xe, "b": "<Document><Nope/></Document>", "c": {"valid": false, "errors": ["e"], "warnings": []}}),
        json!({"a": alone, "b": full, "c": {"mx_message": 3}, "payload": jb}),
    ];
    let metas = [json!({}), json!({"a": {"message_type": "x", "format": "y"}, "validation": "old", "keep": [2]})];
    let mut init: Vec<(Value, Value, Value)> = vec![];
    for p in &payloads {
        for (i, d) in datas.iter().enumerate() {
            init.push((p.clone(), d.clone(), metas[i % 2].clone()));
        }
    }
    for odd in [json!([]), Value::Null, json!("text"), json!(1), json!([{"a": xa}])] {
        for p in [&payloads[0], &payloads[3]] {
            init.push((p.clone(), odd.clone(), json!({})));
            init.push((p.clone(), datas[1].clone(), odd.clone()));
            init.push((p.clone(), odd.clone(), odd.clone()));
        }
    }

    let steps4 = ["parse_mx", "validate_mx", "publish_mx", "generate_mx"];
    let mut acts = vec![];
    for step in steps4 {
        for target in ["a", "b", "c", "payload", "validation"] {
            if step == "generate_mx" {
                acts.push(Act { step, source: None, target });
                continue;
            }
            for source in ["a", "b", "c", "payload", "validation"] {
                acts.push(Act { step, source: Some(source), target });
            }
        }
    }
    let acts = &acts;
    let mut names = st.names();
    names.sort();
    let mut want = steps4.to_vec();
    want.sort();
    if names != want {
        bad("registered steps", format!("{names:?}"));
    }

    // ---- breadth-first exploration, one search per initial message
    let depth = if ctx.thorough { 4 } else { 3 };
    ctx.note("depth", json!(depth));
    ctx.note("actions", json!(acts.len()));
    ctx.note("initial_messages", json!(init.len()));
    par_items(&init, |(p, d, md)| {
        let mut seen: HashSet<String> = HashSet::new();
        let m0 = full_message(p.clone(), d.clone(), md.clone());
        let key = |s: &St| format!("{}|{}", s.data, s.meta);
        seen.insert(key(&state_of(&m0)));
        let mut layer: Vec<(Message, Vec<usize>)> = vec![(m0, vec![])];
        for _ in 0..depth {
            let mut next = vec![];
            for (m, hist) in &layer {
                let before = state_of(m);
                ctx.state(&format!("{}{}", p, key(&before)));
                for (i, a) in acts.iter().enumerate() {
                    if ctx.stop() {
                        return;
                    }
                    let mut n = m.clone();
                    ctx.step(1);
                    ctx.trace(1);
                    match transition(me, st, &mut n, &before, a, &config(a), false) {
                        Ok(ok) => {
                            ctx.outcome(&format!("{} {}", a.step, if ok { "done" } else { "failed" }));
                            let k = key(&state_of(&n));
                            if ok && seen.insert(k) {
                                let mut h2 = hist.clone();
                                h2.push(i);
                                next.push((n, h2));
                            }
                        }
                        Err(e) => {
                            let hs: Vec<_> = hist.iter().map(|i| &acts[*i]).collect();
                            ctx.violation(
                                &format!("{a:?}: {}", e.chars().take(60).collect::<String>()),
                                json!({"payload": p, "data": d, "metadata": md, "history": format!("{hs:?}"), "step": format!("{a:?}"), "difference": e}),
                            );
                        }
                    }
                }
            }
            layer = next;
        }
    });
    ctx.lap("sequences");

    // ---- configurations: every parameter in every state of disrepair, and unusual field names
    let odd: Vec<Option<Value>> = vec![
        None, Some(Value::Null), Some(json!(1)), Some(json!(true)), Some(json!([])), Some(json!(["a"])), Some(json!({})), Some(json!({"a": "a"})),
        Some(json!("a")), Some(json!("c")), Some(json!("nosuch")),
    ];
    let mut cfgs: Vec<(&'static str, FunctionConfig, Option<Act>)> = vec![];
    for step in steps4 {
        for s in &odd {
            for t in &odd {
                for extra in [false, true] {
                    let mut o = Map::new();
                    if extra {
                        o.insert("message_type".into(), json!("pacs.008"));
                        o.insert("format".into(), json!(7));
                        o.insert("Source".into(), json!("a"));
                        o.insert("Target".into(), json!("a"));
                    }
                    if let Some(s) = s {
                        o.insert("source".into(), s.clone());
                    }
                    if let Some(t) = t {
                        o.insert("target".into(), t.clone());
                    }
                    let st_ = |v: &Option<Value>| v.as_ref().and_then(|x| x.as_str()).map(|x| -> &'static str { Box::leak(x.to_string().into_boxed_str()) });
                    let (src, tgt) = (st_(s), st_(t));
                    let ok = tgt.is_some() && (step == "generate_mx" || src.is_some());
                    let act = ok.then(|| Act { step, source: src, target: tgt.unwrap() });
                    cfgs.push((step, FunctionConfig::Custom { name: "whatever".into(), input: Value::Object(o) }, act));
                }
            }
        }
        for input in [Value::Null, json!([]), json!(["a", "b"]), json!("a"), json!(3)] {
            cfgs.push((step, FunctionConfig::Custom { name: step.into(), input }, None));
        }
        for c in [
            json!({"name": "map", "input": {"mappings": []}}),
            json!({"name": "validation", "input": {"rules": []}}),
            json!({"name": "map", "input": {"mappings": [{"path": "data.a", "logic": {"var": "data.b"}}]}}),
        ] {
            match serde_json::from_value::<FunctionConfig>(c.clone()) {
                Ok(f) if !matches!(f, FunctionConfig::Custom { .. }) => cfgs.push((step, f, None)),
                r => panic!("harness: {c} is {r:?}"),
            }
        }
        for name in NAMES {
            for (source, target) in [(name, "a"), ("a", name), (name, name)] {
                let a = Act { step, source: Some(source), target };
                cfgs.push((step, config(&a), Some(a)));
            }
        }
    }
    ctx.count("configurations", cfgs.len() as u64);
    let bases: Vec<(Value, Value, Value)> = [0usize, 3]
        .iter()
        .flat_map(|i| {
            let p = payloads[*i].clone();
            let named = json!({"": xa, "a b": jb, "a.b": xb, "a": {"b": xa, "mx_message": xb}, "é": obj, "Document": ja, "A": "x", "0": xb, "mx_message": xa});
            let mut v = vec![(p.clone(), datas[1].clone(), metas[1].clone()), (p.clone(), named, json!({"a.b": 1})), (p.clone(), json!([1]), json!({}))];
            // every name holds one content; whatever else the name could be taken for (a path, a
            // trimmed or differently written name) holds another, or, without the names, is all there is
            for (own, other) in [(&json!(xa), &json!(xb)), (&ja, &jb), (&obj, &jb), (&jb, &obj)] {
                let decoy = |d: &mut Map<String, Value>| {
                    d.insert("a".into(), json!({"b": other, "": other, "mx_message": other, "json": other, "c": {"d": other}}));
                    d.insert("data".into(), json!({"a": other, "b": other}));
                    d.insert("b".into(), json!([other, {"c": other}]));
                    d.insert("c".into(), other.clone());
                };
                for with in [true, false] {
                    let mut d = Map::new();
                    decoy(&mut d);
                    if with {
                        for n in NAMES {
                            if !["b", "c", "a", "data"].contains(&n) {
                                d.insert(n.into(), own.clone());
                            }
                        }
                    }
                    v.push((p.clone(), Value::Object(d), json!({"a.b": other, "é": 1})));
                }
            }
            v
        })
        .collect();
    let v: Vec<(usize, usize)> = (0..cfgs.len()).flat_map(|c| (0..bases.len()).map(move |b| (c, b))).collect();
    par_items(&v, |(c, b)| {
        if ctx.stop() {
            return;
        }
        let ((step, f, act), (p, d, md)) = (&cfgs[*c], &bases[*b]);
        let mut m = full_message(p.clone(), d.clone(), md.clone());
        let before = state_of(&m);
        let a = act.clone().unwrap_or(Act { step, source: None, target: "?" });
        ctx.step(1);
        ctx.trace(1);
        if let Err(e) = transition(me, st, &mut m, &before, &a, f, act.is_none()) {
            ctx.violation(
                &format!("{step} {act:?} configured {f:?}: {}", e.chars().take(60).collect::<String>()),
                json!({"configuration": format!("{f:?}"), "payload": p, "data": d, "metadata": md, "difference": e}),
            );
        }
    });
    ctx.lap("configurations");

    // ---- the same through the workflow engine: every sequence of one or two steps
    let mut seqs: Vec<Vec<usize>> = (0..acts.len()).map(|i| vec![i]).collect();
    let few: Vec<usize> = (0..acts.len()).filter(|i| ctx.thorough || (acts[*i].target != "validation" && acts[*i].source != Some("validation") && acts[*i].target != "b")).collect();
    for &i in &few {
        for &j in &few {
            seqs.push(vec![i, j]);
        }
    }
    ctx.count("engine_sequences", seqs.len() as u64);
    let starts = [0usize, 7, 21, 35];
    let harness_fault = Mutex::new(None);
    par_items(&seqs, |q| {
        if ctx.stop() {
            return;
        }
        let tasks: Vec<Value> = q
            .iter()
            .enumerate()
            .map(|(n, i)| {
                let a = &acts[*i];
                let mut input = json!({"target": a.target});
                if let Some(s) = a.source {
                    input["source"] = json!(s);
                }
                json!({"id": format!("t{n}"), "name": format!("t{n}"), "function": {"name": a.step, "input": input}})
            })
            .collect();
        let wf = json!({"id": "w", "name": "w", "priority": 0, "continue_on_error": false, "condition": true, "tasks": tasks}).to_string();
        let wf = match Workflow::from_json(&wf) {
            Ok(x) => x,
            Err(e) => {
                *harness_fault.lock().unwrap() = Some(e.to_string());
                return;
            }
        };
        let fns = mx_message::plugin::register_mx_functions().into_iter().map(|(n, f)| (n.to_string(), f)).collect();
        let engine = Engine::new(vec![wf], Some(fns));
        for s in starts {
            let (p, d, md) = &init[s];
            let mut m = full_message(p.clone(), d.clone(), md.clone());
            ctx.step(1);
            ctx.trace(1);
            if let Err(e) = guard(|| steps::block_on(engine.process_message(&mut m)).is_ok()) {
                ctx.violation(&format!("engine {:?}: {e}", q.iter().map(|i| &acts[*i]).collect::<Vec<_>>()), json!({"data": d, "payload": p}));
                continue;
            }
            let mut model = St { payload: p.clone(), data: squash_map(d), meta: squash_map(md) };
            let mut done = 0;
            for i in q {
                let Some((n, _)) = me.apply(&model, &acts[*i]) else { break };
                model = n;
                done += 1;
            }
            // the engine's own entries aside
            let mut now = state_of(&m);
            if let Some(o) = now.meta.as_object_mut() {
                o.retain(|k, _| !["processed_at", "engine_version", "progress"].contains(&k.as_str()));
            }
            let d2 = if now != model {
                Some(format!("data {} metadata {}; expected {} {}", now.data, now.meta, model.data, model.meta))
            } else if (done == q.len()) != m.errors.is_empty() {
                Some(format!("{} of {} steps succeed in the model, errors {:?}", done, q.len(), m.errors.len()))
            } else if m.audit_trail.iter().filter(|t| t.status == 200).count() != done {
                Some(format!("{} audit entries, {done} successful steps", m.audit_trail.len()))
            } else {
                // the engine adds an entry without changes for a failed step
                m.audit_trail.iter().filter(|t| t.status == 200 || !t.changes.is_empty()).zip(q).find_map(|(t, i)| {
                    let ok = t.changes.len() == 1 && *t.changes[0].path == *format!("data.{}", acts[*i].target);
                    (!ok).then(|| format!("audit entry {:?}", t.changes.iter().map(|c| c.path.to_string()).collect::<Vec<_>>()))
                })
            };
            if let Some(d2) = d2 {
                let names: Vec<_> = q.iter().map(|i| format!("{:?}", acts[*i])).collect();
                ctx.violation(&format!("engine {}: {}", names.join(", "), d2.chars().take(60).collect::<String>()), json!({"payload": p, "data": d, "metadata": md, "difference": d2}));
            }
        }
    });
    assert!(harness_fault.lock().unwrap().is_none(), "workflow refused: {:?}", harness_fault.lock().unwrap());
    ctx.lap("engine");
    ctx.sample(|| json!({"payload": init[7].0, "data": init[7].1, "actions": format!("{:?}", &acts[..3])}));
    vec!["time stamps are not compared", "the dataflow engine runs the tasks of a workflow in order and stops at the first failing one"]
}
