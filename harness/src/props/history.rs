//! C20: results depend on the input alone.  Every operation of the library is run once in a fresh
//! process; child processes then run the operations in explored histories (all ordered pairs, all
//! triples of a reduced set, large messages between others, long repetitions, all two-thread alternations, all preemptions at an allocator call or atomic operation) and
//! every result is compared with that of the fresh process.
use crate::common::*;

use crate::steps::{Steps, full_message};
use crate::targets::*;
use mx_message::mx_envelope::{self as env, MxMessage};
use mx_message::parse_result::ErrorCollector;
use mx_message::plugin::common as pc;
use mx_message::message_registry as reg;
use refmodel::engine::{Ctx, par, par_items};
use refmodel::generate;
use refmodel::schema::*;
use refmodel::tree::{self, Node};
use serde_json::{Value, json};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

/// operations on every module, and on the registered types only
const KINDS: &[&str] = &["read xml", "read json", "write xml", "write json", "validate", "object"];
const MX_KINDS: &[&str] = &[
    "convert", "plain convert", "check", "look", "parse step", "publish step", "validate step", "generate step",
];

#[derive(Clone)]
struct Op {
    kind: String,
    module: String,
    variant: String,
    xml: String,
    json: String,
    want: u64,
}
impl Op {
    fn name(&self) -> String {
        format!("{} {} ({})", self.kind, self.module, self.variant)
    }
    fn value(&self) -> Value {
        json!([self.kind, self.module, self.variant, self.xml, self.json, self.want])
    }
    fn of(v: &Value) -> Op {
        let s = |i: usize| v[i].as_str().unwrap().to_string();
        Op { kind: s(0), module: s(1), variant: s(2), xml: s(3), json: s(4), want: v[5].as_u64().unwrap() }
    }
}
/// Stands for a text of more than two megabytes; expanded where the operation runs, to keep the
/// operations file small.
const BIG: &str = "@@BIG@@";
/// Stands for one of many texts of the same length.
const ID: &str = "idTEMPLATE0";
fn big(op: &mut Op) {
    let b = "0123456789 é".repeat(200_000);
    op.xml = op.xml.replace(BIG, &b);
    op.json = op.json.replace(BIG, &b);
}
fn digest(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// What operations run with: the registered steps and, per operation on an existing object, the
/// object, shared by all threads.
struct Env {
    st: Steps,
    objs: Vec<Option<Box<dyn Inst>>>,
}
impl Env {
    fn new(ops: &[Op]) -> Env {
        let objs = ops
            .iter()
            .map(|o| if o.kind == "object" { Target::by_module(&o.module).unwrap().from_json(&o.json).ok() } else { None })
            .collect();
        Env { st: Steps::new(), objs }
    }
}
fn without_time(mut v: Value) -> Value {
    match &mut v {
        Value::Object(o) => {
            o.remove("timestamp");
            o.values_mut().for_each(|x| *x = without_time(x.take()));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| *x = without_time(x.take())),
        _ => {}
    }
    v
}
fn validated(i: &dyn Inst) -> String {
    let mut s = String::new();
    for (f, o) in [(false, true), (true, true), (false, false)] {
        let c = super::validation::cfg(f, o, o && !f);
        let r = guard(|| {
            let mut col = ErrorCollector::new();
            i.validate("Root", &c, &mut col);
            format!("{} {} {}\n{:?}\n", col.has_errors(), col.has_critical_errors(), col.error_count(), col.errors())
        });
        s += &format!("{r:?}");
    }
    s
}
fn step(env: &Env, name: &str, payload: Value, data: Value, input: Value) -> String {
    let mut m = full_message(payload, data, json!({"k": 1}));
    let r = env.st.run(name, &mut m, input);
    let r = r.map(|(c, ch)| (c, ch.into_iter().map(|c| format!("{} {} {}", c.path, without_time((*c.old_value).clone()), without_time((*c.new_value).clone()))).collect::<Vec<_>>()));
    format!("{r:?} {} {}", without_time(m.context.clone()), m.payload)
}
/// Run one operation; the result in full.
fn exec(env: &Env, op: &Op, idx: usize) -> String {
    let t = Target::by_module(&op.module).unwrap();
    let (x, j) = (op.xml.as_str(), op.json.as_str());
    let short = if let Target::Mx(d) = t { d.short } else { "" };
    match op.kind.as_str() {
        "read xml" => format!("{:?}", t.from_xml(x).map(|i| i.dbg())),
        "read json" => format!("{:?}", t.from_json(j).map(|i| i.dbg())),
        "write xml" => format!("{:?}", t.from_json(j).and_then(|i| i.xml())),
        "write json" => format!("{:?}", t.from_xml(x).and_then(|i| written_json(&*i))),
        "validate" => match t.from_json(j) {
            Ok(i) => validated(&*i),
            Err(e) => e,
        },
        "object" => match &env.objs[idx] {
            Some(i) => format!("{:?} {:?} {} {}", i.xml(), written_json(&**i), validated(&**i), i.dbg()),
            None => "none".into(),
        },
        "convert" => format!("{:?}", gres(|| mx_message::xml::xml_to_json_via_document(x, short)).map(|v| v.to_string())),
        "plain convert" => format!("{:?}", gres(|| mx_message::xml::from_mx_xml_to_json(x)).map(|v| v.to_string())),
        "check" => format!("{:?}", gres(|| mx_message::xml::from_mx_xml_envelope_str(x, short))),
        "look" => format!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            gres(|| env::peek_message_type_from_xml(x)),
            gres(|| env::peek_message_type_from_json(j)),
            gres(|| pc::extract_message_type_from_xml(x)),
            serde_json::from_str::<Value>(j).map(|v| gres(|| pc::extract_message_type(&v))).map_err(|e| e.to_string()),
            guard(|| reg::get_namespace(short)),
            guard(|| reg::normalize_message_type(short)),
            guard(|| reg::get_full_form(short)),
            guard(|| reg::message_type_to_element(short)),
            guard(|| reg::message_type_to_rust_type(short)),
        ),
        "parse step" => step(env, "parse_mx", json!("p"), json!({"in": x}), json!({"source": "in", "target": "out"})),
        "validate step" => step(env, "validate_mx", json!("p"), json!({"in": x}), json!({"source": "in", "target": "out"})),
        "publish step" => step(env, "publish_mx", json!("p"), json!({"in": value(j)}), json!({"source": "in", "target": "out"})),
        "generate step" => step(env, "generate_mx", json!({"metadata": {"name": "n", "description": "d"}, "variables": {}, "schema": value(j)}), json!({}), json!({"target": "out"})),
        k => panic!("operation {k}"),
    }
}
fn value(j: &str) -> Value {
    serde_json::from_str(j).unwrap_or(json!(j))
}
fn written_json(i: &dyn Inst) -> Result<String, String> {
    match i.any().downcast_ref::<MxMessage>() {
        Some(m) => gres(|| m.to_json()),
        None => i.json().map(|v| v.to_string()),
    }
}

// ---------------------------------------------------------------- the child process

/// What a child found: counters and wrong results.
struct Found {
    steps: AtomicU64,
    wrong: std::sync::Mutex<Vec<String>>,
}
fn check(env: &Env, ops: &[Op], i: usize, found: &Found, history: &dyn Fn() -> String) -> bool {
    let r = exec(env, &ops[i], i);
    found.steps.fetch_add(1, Relaxed);
    judge(ops, i, digest(&r), found, history)
}
fn judge(ops: &[Op], i: usize, got: u64, found: &Found, history: &dyn Fn() -> String) -> bool {
    if got == ops[i].want {
        return true;
    }
    let mut w = found.wrong.lock().unwrap();
    if w.len() < 20 {
        w.push(json!({"operation": ops[i].name(), "history": history(), "index": i}).to_string());
    }
    false
}
/// `hist one`: one operation from standard input, its result on standard output.
/// `hist run FILE MODE PART PARTS`: explore the part of the histories of that mode.
pub fn child(a: &[String], thorough: bool) -> i32 {
    let a = a.to_vec();
    let h = std::thread::Builder::new().stack_size(64 << 20).name(std::env::var("MXMC_NAME").unwrap_or("main".into()));
    let r = h.spawn(move || if a[0] == "one" { one() } else { explore(&a[1], &a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), thorough) }).unwrap().join();
    if r.is_ok() { 0 } else { 3 }
}
fn one() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let mut op = Op::of(&serde_json::from_str(&s).unwrap());
    big(&mut op);
    let ops = vec![op];
    let env = Env::new(&ops);
    std::io::stdout().write_all(exec(&env, &ops[0], 0).as_bytes()).unwrap();
}
fn explore(file: &str, mode: &str, part: usize, parts: usize, thorough: bool) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let mut ops: Vec<Op> = v["ops"].as_array().unwrap().iter().map(Op::of).collect();
    if mode == "large" {
        ops.iter_mut().for_each(big);
    }
    // the indices this mode works on, in groups
    let groups: Vec<Vec<usize>> = v[mode].as_array().unwrap().iter().map(|g| g.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect();
    let env = Env::new(&ops);
    let found = Found { steps: AtomicU64::new(0), wrong: Default::default() };
    let mut histories = 0u64;
    let mut longest = 0u64;
    let start = std::time::Instant::now();
    let budget = if thorough { 12000 } else { 300 };
    let mut cut = false;
    match mode {
        // every ordered pair of operations of a group, in one long history
        "pairs" | "near" | "large" => {
            for g in &groups {
                for (r, &a) in g.iter().enumerate() {
                    if r % parts != part {
                        continue;
                    }
                    // a b1 a b2 a ...: both orders of every pair
                    let last = |n: &str| format!("{} after {n}", mode);
                    check(&env, &ops, a, &found, &|| last("many"));
                    for &b in &g[r..] {
                        check(&env, &ops, b, &found, &|| last(&ops[a].name()));
                        check(&env, &ops, a, &found, &|| last(&ops[b].name()));
                        histories += 2;
                    }
                }
            }
        }
        "triples" => {
            for (k, g) in groups.iter().enumerate() {
                for (r, &a) in g.iter().enumerate() {
                    if (r + k) % parts != part {
                        continue;
                    }
                    for &b in g {
                        for &c in g {
                            for i in [a, b, c] {
                                check(&env, &ops, i, &found, &|| format!("{} / {} / {}", ops[a].name(), ops[b].name(), ops[c].name()));
                            }
                            histories += 1;
                        }
                    }
                }
            }
        }
        // the same operation many times, and on many messages in turn
        "repeat" => {
            let (often, many) = if thorough { (70_000, 70_000) } else { (1_100, 1_100) };
            let all: Vec<usize> = groups.concat();
            for (r, &i) in all.iter().enumerate() {
                if r % parts != part {
                    continue;
                }
                for n in 0..often {
                    check(&env, &ops, i, &found, &|| format!("repeat, {n} times before"));
                }
                histories += 1;
                let op = &ops[i];
                if op.variant != "marked" || op.kind == "object" {
                    continue;
                }
                // distinct messages one after the other, then the first ones again
                for n in (0..many).chain(0..many / 10) {
                    let id = format!("id{n:09}");
                    let o = Op { xml: op.xml.replace(ID, &id), json: op.json.replace(ID, &id), ..op.clone() };
                    let r = exec(&env, &o, i).replace(&id, ID);
                    found.steps.fetch_add(1, Relaxed);
                    judge(&ops, i, digest(&r), &found, &|| format!("repeat, {n} other messages before"));
                }
                histories += 1;
            }
        }
        "threads" | "preempt" | "preempt2" => {
            // the second thread of every schedule
            let job = AtomicUsize::new(usize::MAX);
            let (j2, result) = (AtomicU64::new(0), AtomicU64::new(0));
            let (asked, served) = (AtomicU64::new(0), AtomicU64::new(0));
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut n = 0;
                        loop {
                            spin(|| asked.load(SeqCst) > n);
                            n += 1;
                            let i = job.load(SeqCst);
                            if i == usize::MAX {
                                break;
                            }
                            let (r, _) = sched::run(2, j2.load(SeqCst), || exec(&env, &ops[i], i));
                            result.store(digest(&r), SeqCst);
                            served.store(n, SeqCst);
                        }
                    })
                    .unwrap();
                let second = |i: usize, k: u64| {
                    job.store(i, SeqCst);
                    j2.store(k, SeqCst);
                    asked.fetch_add(1, SeqCst);
                };
                let done = || {
                    let n = asked.load(SeqCst);
                    spin(|| served.load(SeqCst) == n);
                };
                for (k, g) in groups.iter().enumerate() {
                    if mode == "threads" {
                        // all words over (operation, thread) of the given length; the prefix is
                        // rerun for every word
                        let len = if thorough { 4 } else { 3 };
                        let n = g.len() * 2;
                        for word in 0..n.pow(len) {
                            if (word + k) % parts != part {
                                continue;
                            }
                            let letters: Vec<usize> = (0..len).map(|i| word / n.pow(i) % n).collect();
                            for (p, l) in letters.iter().enumerate() {
                                let i = g[l / 2];
                                let h = || format!("alternating threads: {}", letters[..p].iter().map(|l| format!("{} on thread {}", ops[g[l / 2]].name(), l % 2 + 1)).collect::<Vec<_>>().join(" / "));
                                if l % 2 == 0 {
                                    check(&env, &ops, i, &found, &h);
                                } else {
                                    sched::reset_to(2);
                                    second(i, 0);
                                    done();
                                    found.steps.fetch_add(1, Relaxed);
                                    judge(&ops, i, result.load(SeqCst), &found, &h);
                                }
                            }
                            histories += 1;
                        }
                        continue;
                    }
                    // every ordered pair of operations x every preemption point
                    for (p, (a, b)) in g.iter().flat_map(|a| g.iter().map(move |b| (*a, *b))).enumerate() {
                        if (p + k) % parts != part {
                            continue;
                        }
                        let (_, na) = sched::count(|| exec(&env, &ops[a], a));
                        let (_, nb) = sched::count(|| exec(&env, &ops[b], b));
                        longest = longest.max(na).max(nb);
                        let seconds: Vec<u64> = if mode == "preempt" { vec![0] } else { (1..=nb).collect() };
                        for i in 1..=na {
                            for &j in &seconds {
                                sched::reset();
                                second(b, j);
                                let (r, _) = sched::run(1, i, || exec(&env, &ops[a], a));
                                done();
                                found.steps.fetch_add(2, Relaxed);
                                histories += 1;
                                let h = |o: usize| format!("at the same time {}, switched at scheduling point {i}{}", ops[o].name(), if j > 0 { format!(" and back at {j}") } else { String::new() });
                                judge(&ops, a, digest(&r), &found, &|| h(b));
                                judge(&ops, b, result.load(SeqCst), &found, &|| h(a));
                            }
                            if found.wrong.lock().unwrap().len() >= 20 || start.elapsed().as_secs() > budget {
                                cut = true;
                                break;
                            }
                        }
                    }
                }
                second(usize::MAX, 0);
            });
        }
        m => panic!("mode {m}"),
    }
    // the shared objects are what they were
    for (i, o) in ops.iter().enumerate() {
        if let Some(obj) = &env.objs[i] {
            let fresh = Target::by_module(&o.module).unwrap().from_json(&o.json).unwrap();
            if !same(&**obj, &*fresh) {
                found.wrong.lock().unwrap().push(json!({"operation": o.name(), "history": "the object itself changed", "index": i}).to_string());
            }
        }
    }
    let w = found.wrong.into_inner().unwrap();
    println!("{}", json!({"steps": found.steps.load(SeqCst), "histories": histories, "blocked": sched::blocked(), "atomics": sched::atomics_seen(), "longest": longest, "cut": cut}));
    for l in w {
        println!("{l}");
    }
}
fn spin(f: impl Fn() -> bool) {
    let mut n = 0u32;
    while !f() {
        n += 1;
        if n < 2000 { std::hint::spin_loop() } else { std::thread::yield_now() }
    }
}

// ---------------------------------------------------------------- the parent

fn fresh(op: &Op, how: usize) -> Result<String, String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(["hist", "one"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if how == 1 {
        // the same operation in other surroundings
        c.current_dir("/").env_clear().env("LC_ALL", "tr_TR.UTF-8").env("LANG", "de_DE").env("TZ", "Pacific/Auckland").env("RUST_LOG", "trace").env("MXMC_NAME", "worker-7").env("RUST_BACKTRACE", "1").env("HOME", "/nonexistent");
    }
    let mut p = c.spawn().map_err(|e| e.to_string())?;
    p.stdin.take().unwrap().write_all(op.value().to_string().as_bytes()).map_err(|e| e.to_string())?;
    let o = p.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("{:?}", o.status));
    }
    String::from_utf8(o.stdout).map_err(|e| e.to_string())
}

/// same shape and lengths, other texts
fn reversed(m: &Module, n: &Node) -> Node {
    let mut n = n.clone();
    for (p, ty, f) in generate::leaves(m, &n.clone()) {
        if m.fields(ty)[f].ty == Ty::Str
            && let Node::Text(s) = n.get_mut(&p)
        {
            *s = s.chars().rev().collect();
        }
    }
    n
}
fn variants(w: &World, t: Target) -> Vec<(&'static str, Node)> {
    let m = w.m(t);
    let mut v = vec![("minimal", w.min(t).clone())];
    v.push(("twin", reversed(m, w.min(t))));
    let cons = |f: &Field| f.ty == Ty::Str && (f.len.is_some() || f.pat.is_some());
    let mut broken = w.min(t).clone();
    for (p, ty, f) in generate::leaves(m, &broken.clone()) {
        if cons(&m.fields(ty)[f]) {
            *broken.get_mut(&p) = Node::Text("€".repeat(400));
        }
    }
    v.push(("broken", broken));
    v.push(("full", w.full(t).clone()));
    v
}
fn ops(w: &World) -> Vec<Op> {
    let mut out = vec![];
    for t in Target::all() {
        let mx = matches!(t, Target::Mx(_));
        // the header of the twin is another one, too
        let hm = w.s.get(APPHDR);
        let h2 = reversed(hm, &generate::minimal(hm));
        let mut texts: Vec<(String, String, String)> = variants(w, t)
            .iter()
            .map(|(n, x)| match n {
                &"twin" if mx => {
                    let m = w.m(t);
                    let (hx, hj) = (tree::to_xml(hm, &h2, "AppHdr"), tree::to_json(hm, hm.root, &h2));
                    (n.to_string(), t.wrap_xml(&hx, &tree::to_xml(m, x, t.tag())), t.wrap_json(&hj, &tree::to_json(m, m.root, x)))
                }
                _ => (n.to_string(), w.xml(t, x), w.json(t, x)),
            })
            .collect();
        let (_, x, j) = texts[0].clone();
        // damaged in the middle, and a wrong root
        texts.push(("cut".into(), x.chars().take(x.chars().count() / 2).collect(), j.chars().take(j.chars().count() / 2).collect()));
        if mx {
            texts.push(("unknown root".into(), x.replace(t.tag(), "Nothing"), j.replace(t.tag(), "Nothing")));
            let m = w.m(t);
            texts.push(("document".into(), format!("<Document>{}</Document>", tree::to_xml(m, w.min(t), t.tag())), json!({"Document": {t.tag(): tree::to_json(m, m.root, w.min(t))}}).to_string()));
        }
        // a message with one text that is very long, or one of many
        if mx && ["camt_025_001_08", "pacs_002_001_10", "camt_054_001_08"].contains(&t.module()) {
            let m = w.m(t);
            for (name, mark) in [("large", BIG), ("marked", ID)] {
                let mut n = w.min(t).clone();
                // a text without pattern if there is one
                let at = generate::leaves(m, w.min(t)).into_iter().filter(|(_, ty, f)| m.fields(*ty)[*f].ty == Ty::Str).min_by_key(|(_, ty, f)| m.fields(*ty)[*f].pat.is_some());
                let (p, _, _) = at.expect("a text field");
                *n.get_mut(&p) = Node::Text(mark.into());
                texts.push((name.into(), w.xml(t, &n), w.json(t, &n)));
            }
        }
        for (variant, xml, json) in texts {
            for k in KINDS.iter().chain(if mx { MX_KINDS } else { &[] }) {
                out.push(Op { kind: k.to_string(), module: t.module().into(), variant: variant.clone(), xml: xml.clone(), json: json.clone(), want: 0 });
            }
        }
    }
    out
}

pub fn c20(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let mut all = ops(&w);
    ctx.count("operations", all.len() as u64);
    ctx.sample(|| json!(all.iter().step_by(all.len() / 8).map(|o| o.name()).collect::<Vec<_>>()));
    // ---- every operation first in a process, twice, the second time in other surroundings
    let want: Vec<std::sync::Mutex<u64>> = all.iter().map(|_| Default::default()).collect();
    par(all.len(), |i| {
        let o = &all[i];
        ctx.state(&o.name());
        ctx.step(2);
        ctx.trace(2);
        match (fresh(o, 0), fresh(o, 1)) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    ctx.violation(&format!("{}: two processes give two results", o.name()), json!({"first": a, "second": b, "xml": o.xml, "json": o.json}));
                }
                if a.contains("PANIC") {
                    ctx.violation(&format!("{}: panic", o.name()), json!({"result": a, "xml": o.xml, "json": o.json}));
                }
                *want[i].lock().unwrap() = digest(&a);
            }
            (a, b) => ctx.violation(&format!("{}: the process fails", o.name()), json!({"first": format!("{a:?}"), "second": format!("{b:?}"), "xml": o.xml})),
        }
    });
    for (o, v) in all.iter_mut().zip(want) {
        o.want = v.into_inner().unwrap();
    }
    ctx.lap("fresh processes");
    if ctx.nviol() > 0 {
        return vec![];
    }
    // ---- histories
    let pick = |f: &dyn Fn(&Op) -> bool| -> Vec<usize> { all.iter().enumerate().filter(|(_, o)| f(o)).map(|(i, _)| i).collect() };
    let mx = |o: &Op| DOC_TYPES.iter().any(|d| d.module == o.module);
    let v = |o: &Op, l: &[&str]| l.contains(&o.variant.as_str());
    let thorough = ctx.thorough;
    let pairs: Vec<Vec<usize>> = vec![
        pick(&|o| mx(o) && v(o, if thorough { &["minimal", "broken", "document", "cut"] } else { &["minimal"] })),
        pick(&|o| v(o, &["minimal", "broken"]) && ["read xml", "read json", "validate", "write xml"].contains(&o.kind.as_str()) && (thorough || !mx(o) || o.kind == "validate")),
    ];
    let by_type = |f: &dyn Fn(&Op) -> bool| -> Vec<Vec<usize>> { Target::all().iter().map(|t| pick(&|o| o.module == t.module() && f(o))).collect() };
    let near = by_type(&|o| {
        (thorough && !v(o, &["large", "marked"])) || v(o, &["minimal", "twin", "broken", "cut"]) || (o.variant == "document" && o.kind.ends_with(" step")) || (o.variant == "full" && o.kind == "object")
    });
    let mut triples = by_type(&|o| mx(o) && if thorough { v(o, &["minimal", "broken", "document"]) } else { v(o, &["minimal"]) });
    triples.push(pick(&|o| mx(o) && (thorough && o.kind == "validate" || o.kind == "validate step") && v(o, &["minimal"])));
    let some: Vec<&str> = DOC_TYPES.iter().map(|d| d.module).collect();
    let step = if thorough { 4 } else { 13 };
    let few: Vec<&str> = some.iter().step_by(step).copied().collect();
    let threads: Vec<Vec<usize>> = few
        .iter()
        .map(|m| pick(&|o| o.module == *m && v(o, &["minimal", "broken"]) && ["read xml", "write xml", "validate", "parse step", "validate step", "publish step"].contains(&o.kind.as_str())))
        .collect();
    // preemption: pairs within one type and pairs of one kind across types
    let small = ["read xml", "read json", "write xml", "write json", "validate", "convert", "look", "object", "parse step", "publish step", "validate step", "generate step"];
    let smallest = { let mut t: Vec<&DocType> = DOC_TYPES.iter().collect(); t.sort_by_key(|d| w.json(Target::by_module(d.module).unwrap(), w.min(Target::by_module(d.module).unwrap())).len()); t };
    let mut preempt: Vec<Vec<usize>> = vec![];
    let fewer = ["read xml", "write xml", "validate", "convert", "object", "parse step", "validate step"];
    for d in smallest.iter().take(if thorough { 8 } else { 1 }) {
        preempt.push(pick(&|o| o.module == d.module && v(o, &["minimal"]) && if thorough { &small[..] } else { &fewer[..] }.contains(&o.kind.as_str())));
    }
    for k in small {
        // the same operation on two messages of one type, and on messages of different types
        let ms: Vec<&str> = smallest.iter().take(if thorough { 6 } else { 2 }).map(|d| d.module).collect();
        preempt.push(pick(&|o| o.kind == k && o.module == ms[0] && v(o, &["minimal", "twin"])));
        preempt.push(pick(&|o| o.kind == k && ms.contains(&o.module.as_str()) && v(o, if thorough { &["minimal", "broken"] } else { &["minimal"] })));
    }
    let preempt2: Vec<Vec<usize>> = if thorough { vec![pick(&|o| o.module == smallest[0].module && v(o, &["minimal"]) && ["look", "validate", "write xml"].contains(&o.kind.as_str()))] } else { vec![] };

    // large messages before and after every other operation of their type
    let large: Vec<Vec<usize>> = ["camt_025_001_08", "pacs_002_001_10", "camt_054_001_08"]
        .iter()
        .take(if thorough { 3 } else { 1 })
        .map(|m| pick(&|o| o.module == *m && v(o, &["minimal", "large"])))
        .collect();
    assert!(large.iter().all(|g| g.iter().any(|i| v(&all[*i], &["large"]))), "harness: no large message");
    let repeat = vec![pick(&|o| v(o, &["marked"])), pick(&|o| o.module == "camt_025_001_08" && v(o, &["broken", "cut", "document", "unknown root"]))];

    let dir = format!("{}/target/hist-{}", refmodel::schema::verif_dir(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let file = format!("{dir}/ops.json");
    let doc = json!({"ops": all.iter().map(|o| o.value()).collect::<Vec<_>>(), "pairs": pairs, "near": near, "triples": triples, "threads": threads, "preempt": preempt, "preempt2": preempt2, "large": large, "repeat": repeat});
    std::fs::write(&file, doc.to_string()).expect("operations file");
    let exe = std::env::current_exe().unwrap();
    let mut jobs = vec![];
    for (mode, parts) in [("pairs", 8), ("near", 8), ("triples", 8), ("large", 8), ("repeat", 8), ("threads", 4), ("preempt", 6), ("preempt2", 6)] {
        for p in 0..parts {
            jobs.push((mode, p, parts));
        }
    }
    let limit = if thorough { "14000" } else { "700" };
    for mode in ["pairs", "near", "triples", "large", "repeat", "threads", "preempt", "preempt2"] {
        let now: Vec<_> = jobs.iter().filter(|j| j.0 == mode).collect();
        par_items(&now, |(mode, p, parts)| {
            let mut c = Command::new("timeout");
            c.arg(limit).arg(&exe).args(["hist", "run", &file, mode, &p.to_string(), &parts.to_string()]);
            if thorough {
                c.arg("thorough");
            }
            let o = c.stdin(Stdio::null()).stderr(Stdio::piped()).output().expect("child");
            let out = String::from_utf8_lossy(&o.stdout);
            let mut lines = out.lines();
            let Some(n) = lines.next().and_then(|l| serde_json::from_str::<Value>(l).ok()) else {
                // a crash or an endless wait in some history
                ctx.violation(&format!("{mode}: a history ends the process or does not end"), json!({"part": p, "status": format!("{:?}", o.status), "stderr": String::from_utf8_lossy(&o.stderr)}));
                return;
            };
            ctx.step(n["steps"].as_u64().unwrap());
            ctx.trace(n["histories"].as_u64().unwrap());
            for i in 0..n["histories"].as_u64().unwrap() {
                ctx.state(&(mode, p, i));
            }
            ctx.count(&format!("{mode}_histories"), n["histories"].as_u64().unwrap());
            if n["cut"] == json!(true) {
                ctx.count(&format!("{mode}_cut_short_by_time"), 1);
            }
            ctx.count("atomic_operations_of_the_library", n["atomics"].as_u64().unwrap());
            ctx.count("blocked_schedules", n["blocked"].as_u64().unwrap());
            for l in lines {
                let v: Value = serde_json::from_str(l).unwrap_or(json!(l));
                let i = v["index"].as_u64().unwrap_or(0) as usize;
                ctx.violation(
                    &format!("{}: another result in a history ({})", v["operation"].as_str().unwrap_or(""), mode),
                    json!({"history": v["history"], "in a fresh process": fresh(&all[i], 0).unwrap_or_default(), "xml": all[i].xml, "json": all[i].json}),
                );
            }
        });
        ctx.lap(mode);
    }
    let _ = std::fs::remove_dir_all(&dir);
    vec!["scheduling points inside an operation are the calls of the allocator and the library's atomic operations; histories are cut at the stated lengths"]
}
