//! Nesting depth (part of C15).  A stack overflow ends the process, so every type's cases run in a
//! child process; the parent judges how the child ended.
use crate::common::World;
use crate::steps::Steps;
use crate::targets::*;
use mx_message::mx_envelope::{self as env, MxMessage};
use mx_message::plugin::common as pc;
use refmodel::engine::{Ctx, par_items};
use refmodel::tree;
use serde_json::{Value, json};
use std::process::{Command, Stdio};

const SHAPES: &[&str] = &[
    "document alone", "before the header", "in the header", "before the document root", "in the document root", "in the first text",
    "document in document", "root in root", "unclosed", "around the whole", "JSON arrays", "JSON objects", "JSON document",
    "JSON header", "JSON root",
];
pub fn depths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 17 } else { 15 }).map(|k| 1 << k).collect();
    if thorough {
        v.extend((0..64).map(|k| 96 + k));
        v.extend((8..17).flat_map(|k| [(1 << k) + 1, 3 << (k - 1)]));
        v.extend([1 << 19, 1 << 20]);
    }
    v
}

fn text(shape: &str, d: usize, root: &str, hdr: &str, doc: &str, hj: &Value, dj: &Value) -> String {
    let nest = |n: &str, x: &str| format!("{}{x}{}", format!("<{n}>").repeat(d), format!("</{n}>").repeat(d));
    let into = |s: &str, x: &str| {
        // after the first tag
        let i = s.find('>').unwrap() + 1;
        format!("{}{x}{}", &s[..i], &s[i..])
    };
    let docx = |x: &str| format!("<Document xmlns=\"urn:x\">{x}</Document>");
    let whole = |pre: &str, h: &str, x: &str| format!("<Envelope>{pre}{h}<Document>{x}</Document></Envelope>");
    match shape {
        "document alone" => docx(&nest("a", "x")),
        "before the header" => whole(&nest("a", "x"), hdr, doc),
        "in the header" => whole("", &into(hdr, &nest("a", "x")), doc),
        "before the document root" => whole("", hdr, &format!("{}{doc}", nest("a", "x"))),
        "in the document root" => whole("", hdr, &into(doc, &nest("a", "x"))),
        "in the first text" => {
            let i = doc.find("</").unwrap();
            whole("", hdr, &format!("{}{}{}", &doc[..i], nest("a", "x"), &doc[i..]))
        }
        "document in document" => nest("Document", doc),
        "root in root" => docx(&nest(root, doc)),
        "unclosed" => format!("<Envelope>{hdr}<Document>{}", format!("<{root}>").repeat(d)),
        "around the whole" => nest("Envelope", &whole("", hdr, doc)),
        "JSON arrays" => format!("{}{}", "[".repeat(d), "]".repeat(d)),
        "JSON objects" => format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)),
        "JSON document" => format!("{{\"AppHdr\":{hj},\"Document\":{}1{}}}", "{\"a\":".repeat(d), "}".repeat(d)),
        "JSON header" => format!("{{\"AppHdr\":{}1{},\"Document\":{{\"{root}\":{dj}}}}}", "[".repeat(d), "]".repeat(d)),
        "JSON root" => format!("{{\"AppHdr\":{hj},\"Document\":{{\"{root}\":{}1{}}}}}", format!("{{\"{root}\":").repeat(d), "}".repeat(d)),
        _ => unreachable!(),
    }
}

/// The child: prints a line before every call, so that the last line tells what was running.
pub fn child(module: &str, thorough: bool) -> i32 {
    let ctx = Ctx::new("C15", thorough);
    let w = World::new(&ctx);
    let t = Target::by_module(module).expect("module");
    let (m, n) = (w.m(t), w.min(t));
    let doc = tree::to_xml(m, n, t.tag());
    let dj = tree::to_json(m, m.root, n);
    let Target::Mx(dt) = t else { return 2 };
    let short = dt.short;
    // the stack a program has by default
    let h = std::thread::Builder::new().stack_size(8 << 20);
    let (hx, hj) = (w.hx.clone(), w.hj.clone());
    let run = move || {
        let st = Steps::new();
        for shape in SHAPES {
            for d in depths(thorough) {
                let s = text(shape, d, t.tag(), &hx, &doc, &hj, &dj);
                let call = |what: &str, f: &dyn Fn() -> Result<(), String>| {
                    println!("@ {shape}, {d} levels: {what}");
                    if let Err(e) = f()
                        && e.starts_with("PANIC")
                    {
                        println!("! {shape}, {d} levels: {what}: {e}");
                    }
                };
                call("from_xml", &|| gres(|| MxMessage::from_xml(&s)).map(|_| ()));
                call("from_json", &|| gres(|| MxMessage::from_json(&s)).map(|_| ()));
                call("from_mx_xml_to_json", &|| gres(|| mx_message::xml::from_mx_xml_to_json(&s)).map(|_| ()));
                call("xml_to_json_via_document", &|| gres(|| mx_message::xml::xml_to_json_via_document(&s, short)).map(|_| ()));
                call("from_mx_xml_envelope_str", &|| gres(|| mx_message::xml::from_mx_xml_envelope_str(&s, short)));
                call("peek_message_type_from_xml", &|| gres(|| env::peek_message_type_from_xml(&s)).map(|_| ()));
                call("peek_message_type_from_json", &|| gres(|| env::peek_message_type_from_json(&s)).map(|_| ()));
                call("extract_message_type_from_xml", &|| gres(|| pc::extract_message_type_from_xml(&s)).map(|_| ()));
                call("parse step", &|| st.parse(&s).map(|_| ()));
                call("validate step", &|| st.validate(&s).map(|_| ()));
                if let Ok(v) = serde_json::from_str::<Value>(&s) {
                    call("publish step", &|| st.publish(&v).map(|_| ()));
                }
                println!("#");
            }
        }
    };
    match h.spawn(run).unwrap().join() {
        Ok(()) => 0,
        Err(_) => 3,
    }
}

pub fn explore(ctx: &Ctx) {
    let exe = std::env::current_exe().expect("own path");
    let ts: Vec<Target> = Target::all_docs().into_iter().collect();
    // one type of every business area in quick, each has its own generated reader
    let ts: Vec<Target> = if ctx.thorough { ts } else { ts.into_iter().step_by(5).collect() };
    par_items(&ts, |t| {
        let mut c = Command::new("timeout");
        c.arg("500").arg(&exe).arg("nest").arg(t.module()).arg(if ctx.thorough { "thorough" } else { "quick" });
        let o = c.stdin(Stdio::null()).stderr(Stdio::piped()).output().expect("child");
        let out = String::from_utf8_lossy(&o.stdout);
        let n = out.lines().filter(|l| *l == "#").count();
        ctx.step(n as u64);
        ctx.trace(out.lines().filter(|l| l.starts_with('@')).count() as u64);
        ctx.count("nesting_cases", n as u64);
        for l in out.lines().filter(|l| l.starts_with('!')) {
            ctx.violation(&format!("{} nesting{}", t.module(), &l[1..]), json!({"type": t.module(), "case": l}));
        }
        if o.status.code() != Some(0) {
            let last = out.lines().rev().find(|l| l.starts_with('@')).unwrap_or("@ start").to_string();
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            ctx.violation(
                &format!("{} nesting {}: the process ends", t.module(), &last[2..]),
                json!({"type": t.module(), "case": last, "status": format!("{:?}", o.status), "stderr": err}),
            );
        }
    });
}
