//! C21: the error collector, the parse result and the check helpers, explored as a state machine:
//! every sequence of operations up to a length, in step with a model.
use crate::targets::*;
use mx_message::error::{MxError, ValidationError};
use mx_message::parse_result::{ErrorCollector, ParseResult, ParserConfig};
use mx_message::validation::helpers as h;
use refmodel::engine::{Ctx, par, par_items};
use serde_json::json;

#[derive(Clone, Debug)]
enum Call {
    Add(usize),
    Critical(usize),
    Length { text: &'static str, min: Option<usize>, max: Option<usize> },
    Pattern { text: &'static str, pattern: &'static str, fits: Option<bool> },
    Required(bool),
}
#[derive(Clone, Debug)]
struct Letter {
    call: Call,
    ff: bool,
    opt: bool,
    all: bool,
}
impl Letter {
    fn cfg(&self) -> ParserConfig {
        super::validation::cfg(self.ff, self.opt, self.all)
    }
}
fn err(i: usize) -> ValidationError {
    match i {
        0 => ValidationError::new(1001, "first".into()),
        1 => ValidationError::new(0, String::new()).with_field("F".into()),
        2 => ValidationError::new(u32::MAX, "é\u{0}".into()).with_path("a.b".into()).with_field(String::new()),
        // equal to the first one: equal errors are two errors
        _ => ValidationError::new(1001, "first".into()),
    }
}
/// What one call adds: (code, field, path) of every error, whether critical; and the allowed return.
struct Effect {
    adds: Vec<(u32, Option<String>, Option<String>)>,
    critical: bool,
    /// returned verdict; None: either is acceptable
    ret: Option<bool>,
}
fn effect(l: &Letter, field: &str, path: &str, before: usize) -> Effect {
    let e = |c: u32| (c, Some(field.to_string()), Some(path.to_string()));
    // in fail-fast mode nothing is added after the first error
    let ended = l.ff && before > 0;
    let (codes, critical): (Vec<u32>, bool) = match &l.call {
        Call::Add(_) | Call::Critical(_) => unreachable!(),
        Call::Length { text, min, max } => {
            let n = text.chars().count();
            let mut v = vec![];
            if min.is_some_and(|m| n < m) {
                v.push(1001);
            }
            if max.is_some_and(|m| n > m) {
                v.push(1002);
            }
            if l.ff {
                v.truncate(1);
            }
            (v, l.ff)
        }
        Call::Pattern { fits: Some(f), .. } => (if *f { vec![] } else { vec![1005] }, l.ff),
        Call::Pattern { fits: None, .. } => (vec![9999], true),
        Call::Required(some) => (if *some { vec![] } else { vec![1003] }, true),
    };
    let broken = !codes.is_empty();
    Effect {
        adds: if ended { vec![] } else { codes.iter().map(|c| e(*c)).collect() },
        critical: critical && broken && !ended,
        ret: if broken { Some(false) } else if ended { None } else { Some(true) },
    }
}
#[derive(Default, Clone)]
struct Model {
    errs: Vec<(u32, Option<String>, Option<String>, Option<String>)>,
    critical: bool,
}

fn run(word: &[&Letter]) -> Option<String> {
    let r = guard(|| -> Result<(), String> {
        let mut c = if word.len() % 2 == 0 { ErrorCollector::new() } else { ErrorCollector::default() };
        let mut m = Model::default();
        for (i, l) in word.iter().enumerate() {
            let (field, path) = (["Fld", "", "a.b"][i % 3], ["Root.x", "", "p"][i % 3]);
            match &l.call {
                Call::Add(k) => {
                    c.add_error(err(*k));
                    let e = err(*k);
                    m.errs.push((e.code, e.field, e.path, Some(e.message)));
                }
                Call::Critical(k) => {
                    c.add_critical_error(err(*k));
                    let e = err(*k);
                    m.errs.push((e.code, e.field, e.path, Some(e.message)));
                    m.critical = true;
                }
                call => {
                    let cfg = l.cfg();
                    let got = match call {
                        Call::Length { text, min, max } => h::validate_length(text, field, *min, *max, path, &cfg, &mut c),
                        Call::Pattern { text, pattern, .. } => h::validate_pattern(text, field, pattern, path, &cfg, &mut c),
                        Call::Required(s) => h::validate_required(&s.then_some(1u8), field, path, &cfg, &mut c),
                        _ => unreachable!(),
                    };
                    let e = effect(l, field, path, m.errs.len());
                    if e.ret.is_some_and(|r| r != got) {
                        return Err(format!("call {i} returns {got}"));
                    }
                    m.critical |= e.critical;
                    m.errs.extend(e.adds.into_iter().map(|(a, b, c)| (a, b, c, None)));
                }
            }
            if (c.has_errors(), c.error_count(), c.has_critical_errors()) != (!m.errs.is_empty(), m.errs.len(), m.critical) {
                return Err(format!(
                    "after call {i} the collector says errors {}, count {}, critical {}; recorded were {}, critical {}",
                    c.has_errors(), c.error_count(), c.has_critical_errors(), m.errs.len(), m.critical
                ));
            }
        }
        let got = c.errors();
        if got.len() != m.errs.len() {
            return Err(format!("{} errors of {}", got.len(), m.errs.len()));
        }
        for (i, (g, w)) in got.iter().zip(&m.errs).enumerate() {
            if (g.code, &g.field, &g.path) != (w.0, &w.1, &w.2) || w.3.as_ref().is_some_and(|x| *x != g.message) || (w.3.is_none() && g.message.is_empty()) {
                return Err(format!("error {i} is {g:?}, recorded was {w:?}"));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) | Err(e) => Some(e),
    }
}

fn words(ctx: &Ctx, what: &str, alpha: &[Letter], len: u32) {
    let n = alpha.len();
    let total = n.pow(len);
    const CHUNK: usize = 2000;
    par(total.div_ceil(CHUNK), |k| {
        if ctx.stop() {
            return;
        }
        let mut steps = 0;
        for word in k * CHUNK..((k + 1) * CHUNK).min(total) {
            let w: Vec<&Letter> = (0..len).map(|i| &alpha[word / n.pow(i) % n]).collect();
            steps += len as u64;
            if total < 20_000_000 || word % 16 == 0 {
                // memory: of the largest spaces every sixteenth is remembered, all are run
                ctx.state(&(what, word));
            }
            if run(&w).is_some() {
                // the shortest failing prefix
                let k = (1..=w.len()).find(|k| run(&w[..*k]).is_some()).unwrap_or(w.len());
                let d = run(&w[..k]).unwrap_or_default();
                ctx.violation(&format!("collector: {}", d.chars().take(120).collect::<String>()), json!({"calls": format!("{:?}", &w[..k]), "difference": d}));
            }
        }
        ctx.step(steps);
        ctx.trace(((k + 1) * CHUNK).min(total) as u64 - (k * CHUNK) as u64);
    });
    ctx.count(&format!("{what}_sequences"), total as u64);
    ctx.lap(what);
}

pub fn c21(ctx: &Ctx) -> Vec<&'static str> {
    let modes = |c: &Call| -> Vec<Letter> {
        let mut v = vec![];
        for ff in [false, true] {
            for opt in [false, true] {
                for all in [false, true] {
                    v.push(Letter { call: c.clone(), ff, opt, all });
                }
            }
        }
        v
    };
    let calls = [
        Call::Length { text: "", min: Some(1), max: Some(3) },
        Call::Length { text: "é€", min: Some(1), max: Some(2) },
        Call::Length { text: "abcd", min: None, max: Some(3) },
        Call::Length { text: "ab", min: Some(3), max: Some(1) },
        Call::Length { text: "ab", min: None, max: None },
        Call::Pattern { text: " A1 ", pattern: "[A-Z][0-9]", fits: Some(true) },
        Call::Pattern { text: "xA1", pattern: "[A-Z][0-9]", fits: Some(false) },
        Call::Pattern { text: "b", pattern: "a|b", fits: Some(true) },
        Call::Pattern { text: "ab", pattern: "a|b", fits: Some(false) },
        Call::Pattern { text: "a", pattern: "[", fits: None },
        Call::Required(true),
        Call::Required(false),
    ];
    let plain = |c: Call| Letter { call: c, ff: false, opt: true, all: true };
    let adds: Vec<Letter> = (0..4).flat_map(|i| [plain(Call::Add(i)), plain(Call::Critical(i))]).collect();
    ctx.sample(|| json!(calls.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>()));
    // ---- recording alone, long
    words(ctx, "recording", &adds, if ctx.thorough { 8 } else { 7 });
    words(ctx, "recording_long", &[plain(Call::Add(0)), plain(Call::Critical(1))], if ctx.thorough { 20 } else { 18 });
    // ---- long histories: the same two calls again and again, and one call at the end of a long run
    let mut long: Vec<(usize, usize, usize, bool)> = vec![];
    for n in [10usize, 16, 32, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 4096, 10_000, 16_384, 65_536, 100_003] {
        for a in 0..adds.len() {
            for b in 0..adds.len() {
                long.push((n, a, b, true));
                long.push((n, a, b, false));
            }
        }
    }
    par_items(&long, |(n, a, b, alternate)| {
        if ctx.stop() {
            return;
        }
        let w: Vec<&Letter> = (0..=*n).map(|i| &adds[if *alternate { [*a, *b][i % 2] } else if i == *n { *b } else { *a }]).collect();
        ctx.state(&("long", n, a, b, alternate));
        ctx.step(w.len() as u64);
        ctx.trace(1);
        if let Some(d) = run(&w) {
            let k = (0..17).map(|k| 1usize << k).find(|k| *k < w.len() && run(&w[..*k]).is_some()).unwrap_or(w.len());
            let d = run(&w[..k]).unwrap_or(d);
            ctx.violation(&format!("collector, long: {}", d.chars().take(120).collect::<String>()), json!({"calls": k, "first": format!("{:?}", w[0]), "second": format!("{:?}", w[1]), "last": format!("{:?}", w[k - 1]), "difference": d}));
        }
    });
    ctx.count("long_histories", long.len() as u64);
    ctx.lap("long histories");
    // ---- every call in every mode, in sequence
    let mut every: Vec<Letter> = calls.iter().flat_map(&modes).collect();
    every.extend(adds.iter().take(4).cloned());
    words(ctx, "every_call_and_mode", &every, 3);
    // the three documented modes, without the costly patterns longer
    let doc = |c: &Call| -> Vec<Letter> { [ParserConfig::default(), ParserConfig::fail_fast(), ParserConfig::lenient()].into_iter().map(|p| Letter { call: c.clone(), ff: p.fail_fast, opt: p.validate_optional_fields, all: p.collect_all_errors }).collect() };
    let mut three: Vec<Letter> = calls.iter().flat_map(doc).collect();
    three.extend(adds.iter().take(2).cloned());
    words(ctx, "three_modes", &three, if ctx.thorough { 5 } else { 4 });
    let mut cheap: Vec<Letter> = calls.iter().filter(|c| !matches!(c, Call::Pattern { .. })).flat_map(doc).filter(|l| l.ff || l.opt).collect();
    cheap.extend(adds.iter().take(2).cloned());
    words(ctx, "without_patterns", &cheap, if ctx.thorough { 6 } else { 5 });

    // ---- length: every text length x minimum x maximum around each other
    let texts: Vec<String> = ["a", "é", "€", "😀", "e\u{301}", " ", "\n", "\u{0}"].iter().flat_map(|c| (0..=6).map(|n| c.chars().cycle().take(n).collect())).collect();
    let bounds = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7), Some(usize::MAX)];
    for t in &texts {
        for min in bounds {
            for max in bounds {
                for (ff, opt, all) in [(false, true, true), (true, true, false), (false, false, false), (true, false, true)] {
                    ctx.step(1);
                    ctx.trace(1);
                    ctx.state(&(t, min, max, ff, opt, all));
                    let n = t.chars().count();
                    let mut want = vec![];
                    if min.is_some_and(|m| n < m) {
                        want.push(1001);
                    }
                    if max.is_some_and(|m| n > m) {
                        want.push(1002);
                    }
                    if ff {
                        want.truncate(1);
                    }
                    let c = super::validation::cfg(ff, opt, all);
                    let mut col = ErrorCollector::new();
                    let r = guard(|| h::validate_length(t, "F", min, max, "P.F", &c, &mut col));
                    let crit = col.has_critical_errors();
                    let got: Vec<u32> = col.errors().iter().map(|e| e.code).collect();
                    if r != Ok(want.is_empty()) || got != want || crit != (ff && !want.is_empty()) {
                        ctx.violation(&format!("length of {t:?} within {min:?}..{max:?} fail_fast={ff}"), json!({"returned": format!("{r:?}"), "codes": got, "critical": crit, "expected": want}));
                    }
                }
            }
        }
    }
    ctx.lap("lengths");

    // ---- paths
    let names = ["", "a", "Root", "a.b", "A.B.C", " ", ".", "é"];
    for a in names {
        for b in names {
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&("path", a, b));
            let want = if a.is_empty() { b.to_string() } else { format!("{a}.{b}") };
            let got = guard(|| h::child_path(a, b));
            if got != Ok(want.clone()) {
                ctx.violation(&format!("path of {b:?} below {a:?}"), json!({"got": format!("{got:?}"), "expected": want}));
            }
        }
    }

    // ---- configurations
    for (n, c, want) in [
        ("default", ParserConfig::default(), (false, true, true)),
        ("fail_fast", ParserConfig::fail_fast(), (true, true, false)),
        ("lenient", ParserConfig::lenient(), (false, false, false)),
    ] {
        let got = (c.fail_fast, c.validate_optional_fields, c.collect_all_errors);
        if (got.0, got.1) != (want.0, want.1) {
            ctx.violation(&format!("configuration {n}"), json!({"got": format!("{got:?}")}));
        }
        let back = serde_json::to_string(&c).ok().and_then(|s| serde_json::from_str::<ParserConfig>(&s).ok());
        if back.map(|b| (b.fail_fast, b.validate_optional_fields, b.collect_all_errors)) != Some(got) {
            ctx.violation(&format!("configuration {n} stored and read"), json!({}));
        }
    }

    // ---- parse results: every case x every error list up to length 3
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < lists.len() {
        if lists[at].len() < 3 {
            for k in 0..4 {
                let mut x = lists[at].clone();
                x.push(k);
                lists.push(x);
            }
        }
        at += 1;
    }
    for l in &lists {
        let es: Vec<ValidationError> = l.iter().map(|i| err(*i)).collect();
        for (case, r) in [
            ("success", ParseResult::Success("v".to_string())),
            ("partial", ParseResult::PartialSuccess("v".to_string(), es.clone())),
            ("failure", ParseResult::Failure(es.clone())),
        ] {
            if case == "success" && !l.is_empty() {
                continue;
            }
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(case, l));
            let value = (case != "failure").then(|| "v".to_string());
            let errs: Vec<ValidationError> = if case == "success" { vec![] } else { es.clone() };
            let ok = guard(|| {
                r.is_success() == (case == "success")
                    && r.is_failure() == (case == "failure")
                    && r.value() == value.as_ref()
                    && r.errors() == errs.iter().collect::<Vec<_>>()
                    && r.clone() == r
                    && r.clone().to_result() == if case == "failure" { Err(errs.clone()) } else { Ok("v".to_string()) }
            });
            if ok != Ok(true) {
                ctx.violation(&format!("parse result {case} with {} errors", l.len()), json!({"result": format!("{r:?}"), "to_result": format!("{:?}", guard(|| r.clone().to_result()))}));
            }
        }
    }
    // long lists
    for n in [100usize, 1000, 65_537] {
        let es: Vec<ValidationError> = (0..n).map(|i| err(i % 4)).collect();
        for (case, r) in [("partial", ParseResult::PartialSuccess(1, es.clone())), ("failure", ParseResult::Failure(es.clone()))] {
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(case, n));
            let ok = guard(|| r.errors() == es.iter().collect::<Vec<_>>() && r.clone().to_result() == if case == "failure" { Err(es.clone()) } else { Ok(1) });
            if ok != Ok(true) {
                ctx.violation(&format!("parse result {case} with {n} errors"), json!({"errors": r.errors().len()}));
            }
        }
    }
    // ---- errors: every code x message x field x path, made in both orders, converted
    let texts = ["", "x", "Fld", "a.b", "é<&>", "{0}"];
    for code in [0u32, 1, 1001, 1002, 1003, 1005, 9999, u32::MAX] {
        for m in texts {
            for f in std::iter::once(None).chain(texts.iter().map(Some)) {
                for p in std::iter::once(None).chain(texts.iter().map(Some)) {
                    ctx.step(1);
                    ctx.trace(2);
                    let want = (code, m.to_string(), f.map(|x| x.to_string()), p.map(|x| x.to_string()));
                    ctx.state(&want);
                    for order in 0..2 {
                        let mut e = ValidationError::new(code, m.to_string());
                        if order == 1 && let Some(p) = p { e = e.with_path(p.to_string()) }
                        if let Some(f) = f { e = e.with_field(f.to_string()) }
                        if order == 0 && let Some(p) = p { e = e.with_path(p.to_string()) }
                        let got = (e.code, e.message.clone(), e.field.clone(), e.path.clone());
                        let mx: Result<MxError, String> = guard(|| e.clone().into());
                        let (conv, said) = match &mx {
                            Ok(x @ MxError::Validation { code, message, field, path }) => ((*code, message.clone(), field.clone(), path.clone()) == want, x.to_string()),
                            o => (false, format!("{o:?}")),
                        };
                        if got != want || !conv || !said.contains(m) {
                            ctx.violation(&format!("error {code} {m:?} {f:?} {p:?}"), json!({"made": format!("{e:?}"), "converted": format!("{mx:?}"), "text": said}));
                        }
                    }
                }
            }
        }
    }
    ctx.lap("results");
    vec![]
}
