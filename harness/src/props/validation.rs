//! C06-C09: field validation, against the reference validator of the frozen schema.
use crate::common::*;
use crate::targets::*;
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use refmodel::engine::{Ctx, par_items};
use refmodel::generate::{self, Gen};
use refmodel::rx;
use refmodel::schema::*;
use refmodel::tree::{self, Err3, Node, Path};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Got {
    pub errs: Vec<Err3>,
    pub critical: bool,
}
pub fn cfg(fail_fast: bool, optional: bool, all: bool) -> ParserConfig {
    ParserConfig { fail_fast, validate_optional_fields: optional, collect_all_errors: all }
}
pub fn run(i: &dyn Inst, start: &str, c: &ParserConfig) -> Result<Got, String> {
    guard(|| {
        let mut col = ErrorCollector::new();
        i.validate(start, c, &mut col);
        let critical = col.has_critical_errors();
        let (n, any) = (col.error_count(), col.has_errors());
        let errs: Vec<Err3> = col
            .errors()
            .into_iter()
            .map(|e| Err3 { code: e.code, field: e.field.unwrap_or_default(), path: e.path.unwrap_or_default() })
            .collect();
        assert_eq!((n, any), (errs.len(), !errs.is_empty()));
        Got { errs, critical }
    })
}
fn expected(w: &World, t: Target, n: &Node, start: &str, lenient: bool) -> Vec<Err3> {
    let mut v = vec![];
    // the validator of an envelope's document starts at the document's root struct
    tree::ref_validate(w.m(t), w.m(t).root, n, start, lenient, &mut v);
    v
}
/// Multiset difference, as text.
fn diff(mut want: Vec<Err3>, mut got: Vec<Err3>) -> Option<String> {
    want.sort();
    got.sort();
    if want == got {
        return None;
    }
    let mut c: BTreeMap<Err3, i64> = BTreeMap::new();
    want.into_iter().for_each(|e| *c.entry(e).or_default() += 1);
    got.into_iter().for_each(|e| *c.entry(e).or_default() -= 1);
    let f = |e: &Err3, n: i64| format!("{}x {} {} at {:?}", n.abs(), e.code, e.field, e.path);
    let miss: Vec<String> = c.iter().filter(|x| *x.1 > 0).map(|(e, n)| f(e, *n)).take(3).collect();
    let extra: Vec<String> = c.iter().filter(|x| *x.1 < 0).map(|(e, n)| f(e, *n)).take(3).collect();
    Some(format!("not reported: {miss:?}, reported wrongly: {extra:?}"))
}
fn build(w: &World, t: Target, n: &Node) -> Result<Box<dyn Inst>, String> {
    match t.from_json(&w.json(t, n)) {
        Ok(a) => Ok(a),
        Err(e) => t.from_xml(&w.xml(t, n)).map_err(|_| format!("message cannot be built: {e}")),
    }
}

type Filter = fn(&Err3) -> bool;
/// Validate one tree in collecting mode and compare the errors selected by `keep`.
fn one(w: &World, t: Target, n: &Node, keep: Filter) -> Option<String> {
    let i = match build(w, t, n) {
        Ok(i) => i,
        Err(e) => return Some(e),
    };
    match run(i.as_ref(), "", &ParserConfig::default()) {
        Err(e) => Some(e),
        Ok(g) => diff(
            expected(w, t, n, "", false).into_iter().filter(keep).collect(),
            g.errs.into_iter().filter(|e| keep(e)).collect(),
        ),
    }
}
fn report(ctx: &Ctx, w: &World, t: Target, n: &Node, name: &str, d: String, keep: Filter) {
    ctx.outcome("differs");
    let m = w.m(t);
    let small = if ctx.nviol() < 4 { shrink_bad(m, n, &|c| one(w, t, c, keep).is_some()) } else { n.clone() };
    let d = one(w, t, &small, keep).unwrap_or(d);
    ctx.violation(
        &format!("{}: {}", t.module(), d.chars().take(160).collect::<String>()),
        json!({"case": format!("{}: {name}", t.module()), "difference": d, "json": tree::to_json(m, m.root, &small)}),
    );
}
/// Like `shrink`, but keeps leaf values.
fn shrink_bad(m: &Module, n: &Node, fails: &dyn Fn(&Node) -> bool) -> Node {
    shrink_structure(m, n, 300, fails)
}

/// One explored case: a name and a tree for a target.
fn cases<T: Sync>(ctx: &Ctx, w: &World, items: &[T], keep: Filter, f: impl Fn(&T) -> Option<(Target, String, Node)> + Sync) {
    ctx.lap("cases");
    par_items(items, |x| {
        if ctx.stop() {
            return;
        }
        let Some((t, name, n)) = f(x) else { return };
        ctx.state(&(t.module(), &name));
        ctx.step(1);
        ctx.trace(1);
        match one(w, t, &n, keep) {
            None => ctx.outcome("agrees"),
            Some(d) => report(ctx, w, t, &n, &name, d, keep),
        }
    });
}

// ---------------------------------------------------------------- C06

fn of_chars(style: &str, n: usize) -> String {
    style.chars().cycle().take(n).collect()
}
pub fn length_values(f: &Field) -> Arc<Vec<String>> {
    type Lists = std::collections::HashMap<Option<(Option<usize>, Option<usize>)>, Arc<Vec<String>>>;
    static C: std::sync::OnceLock<std::sync::Mutex<Lists>> = std::sync::OnceLock::new();
    let c = C.get_or_init(Default::default);
    c.lock().unwrap().entry(f.len).or_insert_with(|| Arc::new(length_list(f.len))).clone()
}
fn length_list(len: Option<(Option<usize>, Option<usize>)>) -> Vec<String> {
    let Some((min, max)) = len else { return vec![] };
    let mut lens = vec![0usize, 1];
    if let Some(a) = min {
        lens.extend([a.saturating_sub(1), a, a + 1]);
    }
    if let Some(b) = max {
        lens.extend([b / 4, b / 3, b / 2, b.saturating_sub(1), b, b + 1, b + 2, 2 * b, 4 * b, b + 256]);
    } else {
        lens.extend([1000, 20000]);
    }
    lens.sort();
    lens.dedup();
    let mut v: Vec<String> = vec![];
    for s in ["a", "é", "中", "😀", "e\u{301}", " ", "0", "a é"] {
        for l in &lens {
            v.push(of_chars(s, *l));
        }
    }
    // the limit counts characters: strings whose byte or UTF-16 length is on the other side of it
    if let Some(b) = max {
        for k in 1..=4usize {
            v.push(format!("{}{}", of_chars("a", b.saturating_sub(k)), of_chars("é", k)));
            v.push(format!("{}{}", of_chars("a", (b + 1).saturating_sub(k)), of_chars("😀", k)));
        }
        v.push(format!("{}\n", of_chars("a", b)));
        v.push(format!(" {}", of_chars("a", b)));
        v.push(format!("{} ", of_chars("a", b.saturating_sub(1))));
    }
    v.sort();
    v.dedup();
    v
}
fn is_len(e: &Err3) -> bool {
    e.code == 1001 || e.code == 1002
}

/// Full tree with every constrained leaf set to its (i+k)-th value.
fn rotated(m: &Module, base: &Node, k: usize, vals: &dyn Fn(&Field) -> Arc<Vec<String>>) -> Node {
    let mut n = base.clone();
    let mut cache: BTreeMap<(usize, usize), Arc<Vec<String>>> = BTreeMap::new();
    for (i, (p, t, f)) in generate::leaves(m, base).into_iter().enumerate() {
        let fd = &m.fields(t)[f];
        if fd.ty != Ty::Str {
            continue;
        }
        let v = cache.entry((t, f)).or_insert_with(|| vals(fd));
        if !v.is_empty() {
            *n.get_mut(&p) = Node::Text(v[(i * 7 + k) % v.len()].clone());
        }
    }
    n
}

pub fn with_value(m: &Module, s: &[usize], v: String) -> Node {
    let (mut n, p) = generate::with_path(m, s);
    *n.get_mut(&p) = Node::Text(v);
    n
}
/// All paths whose field satisfies `f`, per target.
pub fn paths_where(w: &World, ts: &[Target], f: impl Fn(&Field) -> bool) -> Vec<(Target, Vec<usize>)> {
    let mut v = vec![];
    for &t in ts {
        let m = w.m(t);
        for s in generate::field_paths(m) {
            if f(generate::field_at(m, &s)) {
                v.push((t, s));
            }
        }
    }
    v
}
pub fn sites_where(w: &World, ts: &[Target], f: impl Fn(&Field) -> bool) -> Vec<(Target, Vec<usize>)> {
    let mut v = vec![];
    for &t in ts {
        let m = w.m(t);
        for s in field_sites(m) {
            if f(generate::field_at(m, &s)) {
                v.push((t, s));
            }
        }
    }
    v
}

/// Struct occurrences: every path to a struct (all, or one per struct type), with the indexes of
/// its constrained fields.
fn groups(w: &World, ts: &[Target], every_path: bool, f: impl Fn(&Field) -> bool) -> Vec<(Target, Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    for &t in ts {
        let m = w.m(t);
        let mut sites: Vec<(usize, Vec<usize>)> = if every_path {
            let mut x = vec![(m.root, vec![])];
            for s in generate::field_paths(m) {
                if let (true, Ty::Ref(c)) = (m.is_struct(generate::field_at(m, &s).ty), generate::field_at(m, &s).ty) {
                    x.push((c, s));
                }
            }
            x
        } else {
            struct_sites(m)
        };
        sites.sort();
        for (ty, s) in sites {
            let fs: Vec<usize> = (0..m.fields(ty).len()).filter(|i| f(&m.fields(ty)[*i])).collect();
            if !fs.is_empty() {
                v.push((t, s, fs));
            }
        }
    }
    v
}
/// minimal message + the struct at `s`, whose fields `fs` all get their k-th value
fn group_tree(m: &Module, s: &[usize], fs: &[usize], val: &dyn Fn(usize, &Field) -> String) -> Node {
    let mut g = Gen::new(m);
    let mut n = g.minimal(m.root);
    for (i, f) in fs.iter().enumerate() {
        let mut q = s.to_vec();
        q.push(*f);
        let p = generate::ensure(&mut g, &mut n, &q);
        *n.get_mut(&p) = Node::Text(val(i, generate::field_at(m, &q)));
    }
    n
}

fn max_len(m: &Module, f: &dyn Fn(&Field) -> usize) -> usize {
    m.types.iter().filter_map(|x| if let TypeDef::Struct(f) = x { Some(f) } else { None }).flatten().map(f).max().unwrap_or(0)
}
fn cover_tree(m: &Module) -> Node {
    let mut g = Gen { m, salt: 700 };
    let mut n = g.minimal(m.root);
    for s in field_sites(m) {
        generate::ensure(&mut g, &mut n, &s);
    }
    n
}
fn field_of(m: &Module, s: &[usize], f: usize) -> Field {
    let mut q = s.to_vec();
    q.push(f);
    generate::field_at(m, &q).clone()
}

/// Lists: for every list field at every path, `n` items where the subset `mask` is wrong, in the
/// first leaf (any depth below, at occurrence 0) that `bad` gives a wrong value for.
fn list_cases(w: &World, ts: &[Target], n: usize, bad: &(dyn Fn(&Field) -> Option<String> + Sync)) -> Vec<(Target, Vec<usize>, Vec<usize>, u32)> {
    fn below(m: &Module, ty: Ty, f: &Field, pre: &mut Vec<usize>, bad: &dyn Fn(&Field) -> Option<String>, out: &mut Vec<Vec<usize>>) {
        if let (true, Ty::Ref(t)) = (m.is_struct(ty), ty) {
            let mut leaf_done = false;
            for (i, g) in m.fields(t).iter().enumerate() {
                pre.push(i);
                if m.is_struct(g.ty) {
                    below(m, g.ty, g, pre, bad, out)
                } else if !leaf_done && bad(g).is_some() {
                    leaf_done = true;
                    out.push(pre.clone());
                }
                pre.pop();
            }
        } else if bad(f).is_some() {
            out.push(pre.clone());
        }
    }
    let mut v = vec![];
    for &t in ts {
        let m = w.m(t);
        for s in generate::field_paths(m) {
            let f = generate::field_at(m, &s);
            if !f.card.many() {
                continue;
            }
            let mut sub = vec![];
            below(m, f.ty, f, &mut vec![], bad, &mut sub);
            // the shallowest and the deepest wrong leaf below the list
            sub.sort_by_key(|x| x.len());
            let mut pick = vec![];
            if let Some(x) = sub.first() {
                pick.push(x.clone());
            }
            if sub.len() > 1 {
                pick.push(sub[sub.len() - 1].clone());
            }
            for p in pick {
                for mask in 1..(1u32 << n) {
                    v.push((t, s.clone(), p.clone(), mask));
                }
            }
        }
    }
    v
}
fn list_tree(m: &Module, s: &[usize], sub: &[usize], wrong: &[usize], n: usize, bad: &dyn Fn(&Field) -> Option<String>) -> Node {
    let (mut tree, p) = generate::with_path(m, s);
    let mut g = Gen { m, salt: 500 };
    let f = generate::field_at(m, s);
    let items: Vec<Node> = (0..n).map(|_| g.value(f, false)).collect();
    tree.get_mut(&p[..p.len() - 1]).fields_mut()[s[s.len() - 1]] = items;
    for &k in wrong {
        // walk down from item k
        let mut q: Path = p.clone();
        q.last_mut().unwrap().1 = k;
        let mut fd = f;
        for step in sub {
            let Ty::Ref(t) = fd.ty else { panic!() };
            fd = &m.fields(t)[*step];
            if tree.get(&q).fields()[*step].is_empty() {
                let x = g.value(fd, false);
                tree.get_mut(&q).fields_mut()[*step].push(x);
            }
            q.push((*step, 0));
        }
        *tree.get_mut(&q) = Node::Text(bad(fd).unwrap());
    }
    tree
}

pub fn c06(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all();
    let has = |f: &Field| f.ty == Ty::Str && f.len.is_some();
    // 1. every limited leaf of a full message takes every value of its list
    let mut rots = vec![];
    for &t in &ts {
        let m = w.m(t);
        let top = m.types.iter().filter_map(|x| if let TypeDef::Struct(f) = x { Some(f) } else { None }).flatten();
        let mx = top.map(|f| length_values(f).len()).max().unwrap_or(0);
        for k in (0..mx).step_by(if ctx.thorough { 1 } else { 6 }) {
            rots.push((t, k));
        }
    }
    cases(ctx, w, &rots, is_len, |(t, k)| Some((*t, format!("full, length values rotated by {k}"), rotated(w.m(*t), w.full(*t), *k, &length_values))));
    // 2. every value of every field: a message holding every struct type once
    let mut v = vec![];
    for &t in &ts {
        let m = w.m(t);
        let cover = Arc::new(cover_tree(m));
        for k in 0..max_len(m, &|f| length_values(f).len()) {
            v.push((t, cover.clone(), k));
        }
    }
    ctx.count("rotations_of_cover_messages", v.len() as u64);
    cases(ctx, w, &v, is_len, |(t, c, k)| Some((*t, format!("cover message, length values rotated by {k}"), rotated(w.m(*t), c, *k, &length_values))));
    // 3. the decisive lengths at every path
    let mut v = vec![];
    for (t, s, fs) in groups(w, &ts, true, has) {
        for k in 0..if ctx.thorough { 6 } else { 4 } {
            v.push((t, s.clone(), fs.clone(), k));
        }
    }
    ctx.count("values_at_each_path", v.len() as u64);
    cases(ctx, w, &v, is_len, |(t, s, fs, k)| {
        let m = w.m(*t);
        let n = group_tree(m, s, fs, &|_, f| {
            let (min, max) = f.len.unwrap();
            let (lo, hi) = (min.unwrap_or(0), max.unwrap_or(100));
            match k {
                0 => of_chars("é", hi),
                1 => of_chars("a", hi + 1),
                2 => of_chars("😀", lo),
                3 => of_chars("é", lo.saturating_sub(1)),
                4 => of_chars("中", hi + 1),
                _ => String::new(),
            }
        });
        Some((*t, format!("{} {fs:?} lengths {k}", generate::path_str(m, s)), n))
    });
    // 4. the rule itself, far from the limits of any field
    length_rule(ctx);
    // 5. list items
    let bad = |f: &Field| if f.ty == Ty::Str { f.len.and_then(|(_, b)| b).map(|b| of_chars("é", b + 1)) } else { None };
    lists(ctx, w, &ts, is_len, &bad);
    vec!["characters are Unicode scalar values", "limits are those of the frozen schema model (spec/schema.json)"]
}

/// One call of a rule on a fresh collector: its verdict and the errors it reports.
fn rule(f: impl FnOnce(&mut ErrorCollector) -> bool) -> Result<(bool, Vec<Err3>, bool), String> {
    guard(|| {
        let mut col = ErrorCollector::new();
        let ok = f(&mut col);
        let critical = col.has_critical_errors();
        let errs = col.errors().into_iter().map(|e| Err3 { code: e.code, field: e.field.unwrap_or_default(), path: e.path.unwrap_or_default() });
        (ok, errs.collect(), critical)
    })
}
fn length_rule(ctx: &Ctx) {
    use mx_message::validation::helpers::validate_length;
    ctx.lap("the rule itself");
    let check = |s: &str, n: usize, min: Option<usize>, max: Option<usize>, ff: bool| {
        ctx.step(1);
        ctx.trace(1);
        let short = min.is_some_and(|a| n < a);
        let long = max.is_some_and(|b| n > b);
        let e = |code| Err3 { code, field: "F".into(), path: "P.F".into() };
        let mut want: Vec<Err3> = [(short, 1001), (long, 1002)].iter().filter(|x| x.0).map(|x| e(x.1)).collect();
        if ff {
            want.truncate(1);
        }
        let got = rule(|c| validate_length(s, "F", min, max, "P.F", &cfg(ff, true, true), c));
        if got != Ok((want.is_empty(), want.clone(), ff && !want.is_empty())) {
            let show: String = s.chars().take(20).collect();
            ctx.violation(
                &format!("length rule: {n} characters, limits {min:?} {max:?}"),
                json!({"text starts": show, "characters": n, "min": min, "max": max, "fail_fast": ff, "got": format!("{got:?}"), "want": format!("{want:?}")}),
            );
        }
    };
    // every text of up to 3 characters that some notion of length counts differently
    let a: Vec<char> = "aé中😀\u{301}\u{200d}\u{200b}\u{feff}\u{fe0f}\u{1f3fd}\u{1f1e9}\u{1f1ea}\u{ad}\u{202e}\u{a0}\u{3000}\u{2028}\u{85}\u{10ffff}\u{fffd}\u{e000}ﬁßİ각ᄀ \t\r\n\0\u{7f}&<;\\\"#"
        .chars()
        .collect();
    let n = a.len();
    let total = 1 + n + n * n + n * n * n;
    ctx.count("short_texts", total as u64);
    let limits: Vec<(Option<usize>, Option<usize>)> = {
        let v: Vec<Option<usize>> = [None].into_iter().chain((0..=4).map(Some)).collect();
        v.iter().flat_map(|x| v.iter().map(move |y| (*x, *y))).collect()
    };
    let firsts: Vec<usize> = (0..=n).collect();
    par_items(&firsts, |&i| {
        let mut texts: Vec<Vec<char>> = vec![];
        if i == n {
            texts.push(vec![]);
            texts.extend(a.iter().map(|x| vec![*x]));
        } else {
            texts.extend(a.iter().map(|y| vec![a[i], *y]));
            texts.extend(a.iter().flat_map(|y| a.iter().map(|z| vec![a[i], *y, *z]).collect::<Vec<_>>()));
        }
        for t in texts {
            if ctx.stop() {
                return;
            }
            let s: String = t.iter().collect();
            ctx.state(&("short text", &s));
            for (k, (min, max)) in limits.iter().enumerate() {
                check(&s, t.len(), *min, *max, (k + t.len()) % 2 == 0);
            }
        }
    });
    // every length up to several thousand, and around every power of two, against limits near it and far from it
    let mut lens: Vec<usize> = (0..=if ctx.thorough { 10_000 } else { 2_500 }).collect();
    for p in 11..=if ctx.thorough { 22 } else { 20 } {
        lens.extend((0..=4).map(|d| (1usize << p) + d - 2));
    }
    lens.extend([10_000, 99_999, 100_000, 65_536 + 35, 65_536 + 140, 131_072 + 16, 1_000_000]);
    lens.sort();
    lens.dedup();
    ctx.count("lengths", lens.len() as u64);
    par_items(&lens, |&n| {
        for c in ["a", "é", "😀", " ", "\n"] {
            if ctx.stop() {
                return;
            }
            if n > 70_000 && c != "a" && c != "😀" {
                continue;
            }
            ctx.state(&("length", n, c));
            let s = c.repeat(n);
            let near = [n.saturating_sub(1), n, n + 1];
            for ff in [false, true] {
                for x in near {
                    check(&s, n, Some(x), None, ff);
                    check(&s, n, None, Some(x), ff);
                }
                for (a, b) in [(1, 35), (1, 140), (4, 4), (1, 255), (0, 256), (1, 65_535), (1, 9_000), (n / 2, 2 * n), (n + 1, n.saturating_sub(1)), (0, 0)] {
                    check(&s, n, Some(a), Some(b), ff);
                }
            }
        }
    });
}

fn lists(ctx: &Ctx, w: &World, ts: &[Target], keep: Filter, bad: &(dyn Fn(&Field) -> Option<String> + Sync)) {
    let n = if ctx.thorough { 4 } else { 3 };
    let v = list_cases(w, ts, n, bad);
    ctx.count("list_cases", v.len() as u64);
    cases(ctx, w, &v, keep, |(t, s, sub, mask)| {
        let m = w.m(*t);
        Some((*t, format!("{} with wrong items {mask:b}, leaf {sub:?}", generate::path_str(m, s)), list_tree(m, s, sub, &(0..n).filter(|k| mask >> k & 1 == 1).collect::<Vec<_>>(), n, bad)))
    });
    // long lists: one path per type of list (thorough: every path), the first of each module very long
    let mut long = vec![];
    let mut seen: Vec<&str> = vec![];
    for (t, s, sub, _) in v.iter().filter(|x| x.3 == 1) {
        let m = w.m(*t);
        if !ctx.thorough && !field_sites(m).contains(s) {
            continue;
        }
        let first = !seen.contains(&t.module());
        let n = if first { 1030 } else { 40 };
        seen.push(t.module());
        let subsets: [&[usize]; 5] = [&[n - 1], &[9], &[10], &[0, 11, n - 2], &[n / 2, n / 2 + 1, n / 2 + 2]];
        long.extend(subsets.iter().map(|x| (*t, s.clone(), sub.clone(), x.to_vec(), n)));
        // every item wrong
        long.push((*t, s.clone(), sub.clone(), (0..n).collect(), n));
    }
    ctx.count("long_list_cases", long.len() as u64);
    cases(ctx, w, &long, keep, |(t, s, sub, wrong, n)| {
        let m = w.m(*t);
        let which = if wrong.len() == *n { "all".to_string() } else { format!("{wrong:?}") };
        Some((*t, format!("{} of {n}, wrong items {which}, leaf {sub:?}", generate::path_str(m, s)), list_tree(m, s, sub, wrong, *n, bad)))
    });
}

// ---------------------------------------------------------------- C07

fn is_pat(e: &Err3) -> bool {
    e.code == 1005 || e.code == 9999
}
/// Words deciding a pattern: a transition cover of its minimal automaton with every representative
/// of every character class, each continued to acceptance when possible, plus whole-value attacks.
pub fn words(p: &str) -> Vec<String> {
    let d = rx::compiled(p);
    let mut v: Vec<String> = vec![String::new()];
    for q in 0..d.next.len() {
        let acc = &d.access[q];
        v.push(d.word(acc));
        if let Some(c) = &d.completion[q] {
            let mut a = acc.clone();
            a.extend(c);
            v.push(d.word(&a));
        }
        for c in 0..d.next[q].len() {
            let to = d.next[q][c];
            // all representatives from the first three states and the accepting ones, else one each
            let all = q < 4 || d.acc[q];
            for (ri, r) in d.reps[c].iter().enumerate() {
                if !all && ri != (q + c) % d.reps[c].len() {
                    continue;
                }
                let mut s = d.word(acc);
                s.push(*r);
                let rest = match (&d.completion[to], &d.completion[q]) {
                    (Some(x), _) => x.clone(),
                    (None, Some(x)) => x.clone(),
                    _ => vec![],
                };
                v.push(s.clone() + &d.word(&rest));
                // rejected exactly because of one inserted, or one replaced, character
                if let (None, Some(x)) = (&d.completion[to], &d.completion[q])
                    && !x.is_empty()
                {
                    v.push(s + &d.word(&x[1..]));
                }
            }
        }
    }
    let mut base: Vec<String> = (1..=40).filter_map(|n| d.word_of_len(n, n)).collect();
    base.dedup();
    let few: Vec<String> = base.iter().take(2).chain(base.last()).cloned().collect();
    for b in &few {
        for t in [
            format!("{b}\n"), format!("\n{b}"), format!(" {b} "), format!("\t{b}"), format!("\u{a0}{b}\u{2003}"), format!("{b}\n{b}"),
            format!("{b}\n~é"), format!("~é\n{b}"), format!("{b}é"), format!("é{b}"), format!("{b}{b}"), format!("{b} {b}"),
            b.to_uppercase(), b.to_lowercase(), format!("{b}|"), format!("^{b}$"), format!("{b}\u{0}"), format!("{b}\r\n"), format!("{b}\u{feff}"),
            b.chars().skip(1).collect(), b.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(),
        ] {
            v.push(t);
        }
    }
    v.extend(base);
    // \d in the library's syntax covers other digits than the ASCII ones XSD patterns mean for these
    // identifiers; such values are outside the claim
    if p.contains("\\d") {
        v.retain(|s| s.chars().all(|c| c.is_ascii() || !c.is_numeric()));
    }
    v.sort();
    v.dedup();
    v
}
/// A short list: one accepted, and rejected words of different kinds.
pub fn few_words(p: &str) -> Vec<String> {
    let d = rx::compiled(p);
    let ok = (1..=40).find_map(|n| d.word_of_len(n, 3)).unwrap();
    let cand = [
        ok.clone(), format!("{ok}é"), format!("é{ok}"), format!("{ok}\n{ok}"), format!(" {ok}\n"), format!("{ok}\u{0}"), String::new(),
        ok[..ok.len() - ok.chars().last().unwrap().len_utf8()].to_string(), format!("~é\n{ok}"),
    ];
    cand.to_vec()
}
fn rejected(f: &Field) -> Option<String> {
    // within the length limits when possible, so that only the pattern is broken
    let p = f.pat.as_ref()?;
    if f.ty != Ty::Str {
        return None;
    }
    let d = rx::compiled(p);
    let (min, max) = f.len.unwrap_or((None, None));
    let ok = |s: &String| {
        let n = s.chars().count();
        !d.accepts(s.trim()) && min.is_none_or(|a| n >= a) && max.is_none_or(|b| n <= b)
    };
    let lo = min.unwrap_or(1).max(1);
    (lo..=lo + 3).map(|n| of_chars("é", n)).find(ok)
}

pub fn c07(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all();
    let has = |f: &Field| f.ty == Ty::Str && f.pat.is_some();
    let mut wl: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for m in w.s.modules.values() {
        for t in &m.types {
            if let TypeDef::Struct(fs) = t {
                for p in fs.iter().filter_map(|f| f.pat.clone()) {
                    wl.entry(p).or_insert_with_key(|p| words(p));
                }
            }
        }
    }
    ctx.note("patterns", json!(wl.iter().map(|(k, v)| {
        let d = rx::compiled(k);
        let a = v.iter().filter(|s| d.accepts(s.trim())).count();
        json!({"pattern": k, "dfa_states": d.next.len(), "words": v.len(), "accepted": a})
    }).collect::<Vec<_>>()));
    let wl = &wl;
    // 1. every word of every field's pattern: a message holding every struct type once; words beyond
    //    the first 300 of a pattern in messages with one struct
    const HEAD: usize = 300;
    let heads: BTreeMap<&String, Arc<Vec<String>>> = wl.iter().map(|(p, l)| (p, Arc::new(l[..l.len().min(HEAD)].to_vec()))).collect();
    let mut v = vec![];
    for &t in &ts {
        let m = w.m(t);
        let cover = Arc::new(cover_tree(m));
        for k in 0..max_len(m, &|f| f.pat.as_ref().map(|p| wl[p].len().min(HEAD)).unwrap_or(0)) {
            v.push((t, cover.clone(), k));
        }
    }
    ctx.count("rotations_of_cover_messages", v.len() as u64);
    cases(ctx, w, &v, is_pat, |(t, c, k)| {
        let vals = |f: &Field| f.pat.as_ref().map(|p| heads[p].clone()).unwrap_or_default();
        Some((*t, format!("cover message, first {HEAD} words rotated by {k}"), rotated(w.m(*t), c, *k, &vals)))
    });
    let mut v = vec![];
    for (t, s, fs) in groups(w, &ts, false, |f| has(f) && wl[f.pat.as_ref().unwrap()].len() > HEAD) {
        let m = w.m(t);
        let mx = fs.iter().map(|f| wl[field_of(m, &s, *f).pat.as_ref().unwrap()].len()).max().unwrap();
        for k in HEAD..mx {
            v.push((t, s.clone(), fs.clone(), k));
        }
    }
    ctx.count("words_beyond_the_first_300", v.len() as u64);
    cases(ctx, w, &v, is_pat, |(t, s, fs, k)| {
        let m = w.m(*t);
        let n = group_tree(m, s, fs, &|_, f| {
            let l = &wl[f.pat.as_ref().unwrap()];
            l[k % l.len()].clone()
        });
        Some((*t, format!("{} {fs:?} = word {k}", generate::path_str(m, s)), n))
    });
    // 2. a few words at every path
    let fw: BTreeMap<&String, Vec<String>> = wl.keys().map(|p| (p, few_words(p))).collect();
    let mut v = vec![];
    for (t, s, fs) in groups(w, &ts, true, has) {
        for k in 0..if ctx.thorough { 9 } else { 3 } {
            v.push((t, s.clone(), fs.clone(), k));
        }
    }
    ctx.count("words_at_each_path", v.len() as u64);
    cases(ctx, w, &v, is_pat, |(t, s, fs, k)| {
        let m = w.m(*t);
        let n = group_tree(m, s, fs, &|_, f| fw[f.pat.as_ref().unwrap()][*k].clone());
        Some((*t, format!("{} {fs:?} = short word {k}", generate::path_str(m, s)), n))
    });
    // 3. rotations over full messages
    let all: BTreeMap<&String, Arc<Vec<String>>> = wl.iter().map(|(p, l)| (p, Arc::new(l.clone()))).collect();
    let mut rots = vec![];
    for &t in &ts {
        let m = w.m(t);
        let fs = m.types.iter().filter_map(|x| if let TypeDef::Struct(f) = x { Some(f) } else { None }).flatten();
        let mx = fs.filter_map(|f| f.pat.as_ref()).map(|p| wl[p].len()).max().unwrap_or(0);
        for k in (0..mx).step_by(if ctx.thorough { 3 } else { 61 }) {
            rots.push((t, k));
        }
    }
    ctx.count("rotations_of_full_messages", rots.len() as u64);
    cases(ctx, w, &rots, is_pat, |(t, k)| {
        let vals = |f: &Field| f.pat.as_ref().map(|p| all[p].clone()).unwrap_or_default();
        Some((*t, format!("full, pattern words rotated by {k}"), rotated(w.m(*t), w.full(*t), *k, &vals)))
    });
    // 4. the rule itself
    pattern_rule(ctx, wl);
    // 5. list items
    lists(ctx, w, &ts, is_pat, &rejected);
    vec![
        "patterns are those of the frozen schema model; their language is decided by the harness's own automaton construction",
        "for the pattern using \\d, words with non-ASCII digits are outside the claim",
    ]
}

fn pattern_rule(ctx: &Ctx, wl: &BTreeMap<String, Vec<String>>) {
    use mx_message::validation::helpers::validate_pattern;
    ctx.lap("the rule itself");
    let pats: Vec<&String> = wl.keys().collect();
    let check = |p: &str, s: &str, ff: bool| {
        ctx.step(1);
        ctx.trace(1);
        let ok = rx::compiled(p).accepts(s.trim());
        let e = Err3 { code: 1005, field: "F".into(), path: "P.F".into() };
        let want = if ok { vec![] } else { vec![e] };
        let got = rule(|c| validate_pattern(s, "F", p, "P.F", &cfg(ff, true, true), c));
        if got != Ok((ok, want, ff && !ok)) {
            let show: String = s.chars().take(60).collect();
            ctx.violation(
                &format!("pattern rule: {p}: {} characters, accepted by the pattern: {ok}", s.chars().count()),
                json!({"pattern": p, "text": show, "accepted by the pattern": ok, "fail_fast": ff, "got": format!("{got:?}")}),
            );
        }
    };
    // every text of up to 2 (thorough: 3) characters: one of each class of the pattern, white space and
    // characters a matcher may treat as line ends, nothing, or each other
    let extra: Vec<char> = "\n\r \t\u{b}\u{c}\u{85}\u{a0}\u{2028}\u{feff}\0\u{301}é中😀ſKＡ１_-.".chars().collect();
    let mut jobs: Vec<(&String, Option<char>, Vec<char>)> = vec![];
    for p in &pats {
        let d = rx::compiled(p);
        let mut a: Vec<char> = d.reps.iter().filter_map(|r| r.first().copied()).chain(extra.iter().copied()).collect();
        a.sort();
        a.dedup();
        if p.contains("\\d") {
            a.retain(|c| c.is_ascii() || !c.is_numeric());
        }
        jobs.push((p, None, a.clone()));
        jobs.extend(a.iter().map(|c| (*p, Some(*c), a.clone())));
    }
    par_items(&jobs, |(p, first, a)| {
        let mut v: Vec<String> = vec![];
        match first {
            None => {
                v.push(String::new());
                v.extend(a.iter().map(|c| c.to_string()));
            }
            Some(f) => {
                v.extend(a.iter().map(|c| format!("{f}{c}")));
                if ctx.thorough {
                    v.extend(a.iter().flat_map(|c| a.iter().map(move |e| format!("{f}{c}{e}"))));
                }
            }
        }
        for (i, s) in v.iter().enumerate() {
            if ctx.stop() {
                return;
            }
            ctx.state(&("rule", p, s));
            check(p, s, i % 2 == 0);
        }
    });
    // long texts: accepted ones of every length up to 200 and around powers of two, when the pattern has them, and ones
    // that leave the pattern only at the start, in the middle, at the end
    let mut lens: Vec<usize> = (1..=200).collect();
    lens.extend([255, 256, 257, 300, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2048, 4096, 10_000, 65_535, 65_536, 70_000]);
    let jobs: Vec<(&String, usize)> = pats.iter().flat_map(|p| lens.iter().map(move |n| (*p, *n))).collect();
    par_items(&jobs, |(p, n)| {
        if ctx.stop() {
            return;
        }
        let d = rx::compiled(p);
        ctx.state(&("long", p, n));
        let base = if *n <= 300 { d.word_of_len(*n, *n) } else { None };
        let s = base.or_else(|| {
            // pump a short accepted word at its first and at its last character
            let b = (1..=40).find_map(|k| d.word_of_len(k, 1)).unwrap();
            let c: Vec<char> = b.chars().collect();
            let more = n.saturating_sub(c.len());
            let front: String = std::iter::repeat_n(c[0], more).chain(c.iter().copied()).collect();
            let back: String = c.iter().copied().chain(std::iter::repeat_n(*c.last().unwrap(), more)).collect();
            Some(if d.accepts(&back) { back } else { front })
        });
        let s = s.unwrap();
        let cut = s.char_indices().nth(s.chars().count() / 2).unwrap().0;
        for (i, t) in [s.clone(), format!("{s}é"), format!("é{s}"), format!("{}é{}", &s[..cut], &s[cut..]), format!("{s}\n{s}"), format!("  {s}\n\n")].iter().enumerate() {
            check(p, t, (i + n) % 2 == 0);
        }
    });
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Short,
    Long,
    Pattern,
    LongAndPattern,
}
/// A value breaking exactly the constraints of this kind (None when the field has no such value).
fn bad_value(f: &Field, k: Kind) -> Option<String> {
    if f.ty != Ty::Str {
        return None;
    }
    let (min, max) = f.len.unwrap_or((None, None));
    let d = f.pat.as_ref().map(|p| rx::compiled(p));
    match k {
        Kind::Short => {
            let n = min?.checked_sub(1)?;
            let s = d.as_ref().and_then(|d| d.word_of_len(n, 5)).unwrap_or(of_chars("a", n));
            Some(s)
        }
        Kind::Long => {
            let n = max? + 1;
            Some(d.as_ref().and_then(|d| d.word_of_len(n, 5)).unwrap_or(of_chars("a", n)))
        }
        Kind::Pattern => rejected(f),
        Kind::LongAndPattern => {
            d.as_ref()?;
            Some(of_chars("é", max? + 1))
        }
    }
}
const KINDS: [Kind; 4] = [Kind::Short, Kind::Long, Kind::Pattern, Kind::LongAndPattern];
const STARTS: [&str; 4] = ["", "Document", "a.b", "Document.CdtTrfTxInf"];

fn all_errs(_: &Err3) -> bool {
    true
}

pub fn c08(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all();
    let constrained = |f: &Field| f.ty == Ty::Str && (f.len.is_some() || f.pat.is_some());
    // 1. no broken constraint: minimal, full, minimal + each path
    let items: Vec<Item> = structural_with(w, &ts, ctx.thorough, false);
    ctx.count("valid_messages", items.len() as u64);
    cases(ctx, w, &items, all_errs, |it| Some((it.t, it.name(w), it.build(w))));
    // 2. each constraint alone, at every path
    let mut v = vec![];
    for (t, s) in paths_where(w, &ts, constrained) {
        for k in KINDS {
            if bad_value(generate::field_at(w.m(t), &s), k).is_some() {
                v.push((t, s.clone(), k));
            }
        }
    }
    ctx.count("single_broken", v.len() as u64);
    cases(ctx, w, &v, all_errs, |(t, s, k)| {
        let m = w.m(*t);
        let x = bad_value(generate::field_at(m, s), *k)?;
        Some((*t, format!("{} {k:?}", generate::path_str(m, s)), with_value(m, s, x)))
    });
    // 3. every constraint alone inside an otherwise full message, thorough: all; quick: per site
    let v: Vec<_> = if ctx.thorough { paths_where(w, &ts, constrained) } else { sites_where(w, &Target::variants(), constrained) };
    ctx.count("single_broken_in_full", v.len() as u64);
    cases(ctx, w, &v, all_errs, |(t, s)| {
        let m = w.m(*t);
        let f = generate::field_at(m, s);
        let x = bad_value(f, Kind::LongAndPattern).or(bad_value(f, Kind::Long)).or(bad_value(f, Kind::Pattern))?;
        let mut n = w.full(*t).clone();
        let p: Path = s.iter().map(|i| (*i, 0)).collect();
        *n.get_mut(&p) = Node::Text(x);
        Some((*t, format!("full with {} broken", generate::path_str(m, s)), n))
    });
    // 4. many at once: every kind everywhere, modular subsets
    let mut v = vec![];
    let mods = if ctx.thorough { 12 } else { 4 };
    for &t in &ts {
        for k in 0..KINDS.len() {
            v.push((t, 1usize, 0usize, k));
            for a in 2..=mods {
                for r in 0..a {
                    v.push((t, a, r, k));
                }
            }
        }
    }
    ctx.count("modular_subsets", v.len() as u64);
    cases(ctx, w, &v, all_errs, |(t, a, r, k)| Some((*t, format!("every {a}-th constrained leaf broken from {r}, kinds from {k}"), broken_subset(w, *t, *a, *r, *k))));
    // 5. pairs of broken constraints inside every struct type
    let mut v = vec![];
    for &t in &ts {
        let m = w.m(t);
        for (ty, s) in struct_sites(m) {
            let fs: Vec<usize> = (0..m.fields(ty).len()).filter(|i| constrained(&m.fields(ty)[*i])).collect();
            for (i, a) in fs.iter().enumerate() {
                for b in &fs[i + 1..] {
                    v.push((t, s.clone(), *a, *b));
                }
            }
        }
    }
    ctx.count("pairs_of_broken", v.len() as u64);
    cases(ctx, w, &v, all_errs, |(t, s, a, b)| {
        let m = w.m(*t);
        let mut g = Gen::new(m);
        let mut n = g.minimal(m.root);
        for i in [a, b] {
            let mut q = s.clone();
            q.push(*i);
            let p = generate::ensure(&mut g, &mut n, &q);
            let f = generate::field_at(m, &q);
            *n.get_mut(&p) = Node::Text(KINDS.iter().rev().find_map(|k| bad_value(f, *k))?);
        }
        Some((*t, format!("{} fields {a} and {b} broken", generate::path_str(m, s)), n))
    });
    // 6. list items
    let bad = |f: &Field| bad_value(f, Kind::Long).or_else(|| bad_value(f, Kind::Pattern));
    lists(ctx, w, &ts, all_errs, &bad);
    // 7. starting points
    let mut v = vec![];
    for &t in &ts {
        for s in STARTS {
            v.push((t, s));
        }
    }
    par_items(&v, |(t, s)| {
        let n = broken_subset(w, *t, 1, 0, 0);
        ctx.state(&("start", t.module(), s));
        ctx.step(1);
        ctx.trace(1);
        let d = match build(w, *t, &n) {
            Err(e) => Some(e),
            Ok(i) => match run(i.as_ref(), s, &ParserConfig::default()) {
                Err(e) => Some(e),
                Ok(g) => diff(expected(w, *t, &n, s, false), g.errs),
            },
        };
        if let Some(d) = d {
            ctx.violation(&format!("{}: from {s:?}: {}", t.module(), &d.chars().take(120).collect::<String>()), json!({"type": t.module(), "start": s, "difference": d}));
        }
    });
    vec!["constraints are those of the frozen schema model", "the order of errors inside one run is judged by C09 only"]
}

/// full tree where the constrained leaves with index % a == r are broken, kinds cycling
fn broken_subset(w: &World, t: Target, a: usize, r: usize, k0: usize) -> Node {
    let m = w.m(t);
    let mut n = w.full(t).clone();
    let mut i = 0;
    for (p, ty, f) in generate::leaves(m, w.full(t)) {
        let f = &m.fields(ty)[f];
        if f.ty != Ty::Str || (f.len.is_none() && f.pat.is_none()) {
            continue;
        }
        if i % a == r
            && let Some(x) = (0..4).find_map(|k| bad_value(f, KINDS[(i / a + k0 + k) % 4]))
        {
            *n.get_mut(&p) = Node::Text(x);
        }
        i += 1;
    }
    n
}

// ---------------------------------------------------------------- C09

/// All eight settings on one message.
fn modes(w: &World, t: Target, n: &Node) -> Option<String> {
    let i = match build(w, t, n) {
        Ok(i) => i,
        Err(e) => return Some(e),
    };
    let i = i.as_ref();
    let mut order: Option<Vec<Err3>> = None;
    for all in [true, false] {
        for optional in [true, false] {
            let want = expected(w, t, n, "", !optional);
            // collecting mode
            let g = match run(i, "", &cfg(false, optional, all)) {
                Ok(g) => g,
                Err(e) => return Some(e),
            };
            if let Some(d) = diff(want, g.errs.clone()) {
                return Some(format!("collecting (optional {optional}, all {all}): {d}"));
            }
            if optional {
                match &order {
                    None => order = Some(g.errs.clone()),
                    Some(o) if *o != g.errs => return Some("collect_all_errors changes the errors or their order".into()),
                    _ => {}
                }
            }
            // fail-fast with the same settings
            let f = match run(i, "", &cfg(true, optional, all)) {
                Ok(f) => f,
                Err(e) => return Some(e),
            };
            let first: Vec<Err3> = g.errs.first().cloned().into_iter().collect();
            if f.errs != first {
                return Some(format!("fail-fast (optional {optional}, all {all}) reports {:?}, the first collected error is {:?}", f.errs.iter().take(3).collect::<Vec<_>>(), first));
            }
            if f.critical == f.errs.is_empty() {
                return Some(format!("fail-fast (optional {optional}, all {all}): critical flag is {} with {} errors", f.critical, f.errs.len()));
            }
        }
    }
    // the named configurations
    for (name, c, ff, opt) in [
        ("default", ParserConfig::default(), false, true),
        ("fail_fast", ParserConfig::fail_fast(), true, true),
        ("lenient", ParserConfig::lenient(), false, false),
    ] {
        let g = match run(i, "", &c) {
            Ok(g) => g,
            Err(e) => return Some(e),
        };
        let b = match run(i, "", &cfg(ff, opt, true)) {
            Ok(g) => g,
            Err(e) => return Some(e),
        };
        if g.errs != b.errs || g.critical != b.critical {
            return Some(format!("ParserConfig::{name}() reports {} errors, the settings it stands for {}", g.errs.len(), b.errs.len()));
        }
    }
    None
}

pub fn c09(ctx: &Ctx) -> Vec<&'static str> {
    let w = World::new(ctx);
    let w = &w;
    let ts = Target::all();
    let constrained = |f: &Field| f.ty == Ty::Str && (f.len.is_some() || f.pat.is_some());
    enum Case {
        Valid(bool),
        One(Vec<usize>, Kind),
        Two(Vec<usize>, Vec<usize>),
        Sub(usize, usize, usize),
        FirstOnly(usize),
    }
    let mut v: Vec<(Target, Case)> = vec![];
    for &t in &ts {
        let m = w.m(t);
        v.push((t, Case::Valid(false)));
        v.push((t, Case::Valid(true)));
        let mods = if ctx.thorough { 9 } else { 3 };
        for k in 0..4 {
            for a in 1..=mods {
                for r in 0..a {
                    v.push((t, Case::Sub(a, r, k)));
                }
            }
        }
        let ps: Vec<Vec<usize>> = generate::field_paths(m).into_iter().filter(|s| constrained(generate::field_at(m, s))).collect();
        for (i, s) in ps.iter().enumerate() {
            for k in KINDS {
                if (ctx.thorough || k == Kind::LongAndPattern || (k == Kind::Long && bad_value(generate::field_at(m, s), Kind::LongAndPattern).is_none()))
                    && bad_value(generate::field_at(m, s), k).is_some()
                {
                    v.push((t, Case::One(s.clone(), k)));
                }
            }
            // two broken constraints in different places
            for d in if ctx.thorough { vec![1, 2, 5, 11, 23] } else { vec![7] } {
                v.push((t, Case::Two(s.clone(), ps[(i + d) % ps.len()].clone())));
            }
        }
        // in a full message, everything after the i-th constrained leaf broken: what comes first?
        let nl = generate::leaves(m, w.full(t)).len();
        for i in (0..nl).step_by(if ctx.thorough { 1 } else { (nl / 40).max(1) }) {
            v.push((t, Case::FirstOnly(i)));
        }
    }
    ctx.count("messages", v.len() as u64);
    ctx.count("configurations_per_message", 11);
    par_items(&v, |(t, c)| {
        if ctx.stop() {
            return;
        }
        let m = w.m(*t);
        let (name, n) = match c {
            Case::Valid(full) => (format!("valid, full {full}"), if *full { w.full(*t).clone() } else { w.min(*t).clone() }),
            Case::One(s, k) => (
                format!("{} {k:?}", generate::path_str(m, s)),
                with_value(m, s, bad_value(generate::field_at(m, s), *k).unwrap()),
            ),
            Case::Two(a, b) => {
                let mut g = Gen::new(m);
                let mut n = g.minimal(m.root);
                for s in [a, b] {
                    let p = generate::ensure(&mut g, &mut n, s);
                    let f = generate::field_at(m, s);
                    if let Some(x) = KINDS.iter().rev().find_map(|k| bad_value(f, *k)) {
                        *n.get_mut(&p) = Node::Text(x);
                    }
                }
                (format!("{} and {}", generate::path_str(m, a), generate::path_str(m, b)), n)
            }
            Case::Sub(a, r, k) => (format!("every {a}-th leaf from {r} broken, kinds from {k}"), broken_subset(w, *t, *a, *r, *k)),
            Case::FirstOnly(i) => {
                let mut n = w.full(*t).clone();
                for (j, (p, ty, f)) in generate::leaves(m, w.full(*t)).into_iter().enumerate() {
                    let f = &m.fields(ty)[f];
                    if j >= *i
                        && let Some(x) = KINDS.iter().rev().find_map(|k| bad_value(f, *k))
                    {
                        *n.get_mut(&p) = Node::Text(x);
                    }
                }
                (format!("all leaves from the {i}-th on broken"), n)
            }
        };
        ctx.state(&(t.module(), &name));
        ctx.step(11);
        ctx.trace(11);
        match modes(w, *t, &n) {
            None => ctx.outcome("agrees"),
            Some(d) => {
                ctx.outcome("differs");
                let small = if ctx.nviol() < 4 { shrink_bad(m, &n, &|c| modes(w, *t, c).is_some()) } else { n };
                let d = modes(w, *t, &small).unwrap_or(d);
                ctx.violation(
                    &format!("{}: {}", t.module(), d.chars().take(160).collect::<String>()),
                    json!({"case": format!("{}: {name}", t.module()), "difference": d, "json": tree::to_json(m, m.root, &small)}),
                );
            }
        }
    });
    vec!["optional structured parts are the guarded fields of the frozen schema model"]
}

/// Messages breaking one field constraint each: every constrained field (thorough: every path), every kind.
pub fn all_broken(w: &World, ts: &[Target], thorough: bool) -> Vec<(Target, String, Node)> {
    let constrained = |f: &Field| f.ty == Ty::Str && (f.len.is_some() || f.pat.is_some());
    let v = if thorough { paths_where(w, ts, constrained) } else { sites_where(w, ts, constrained) };
    let mut out = vec![];
    for (t, s) in v {
        let m = w.m(t);
        for k in KINDS {
            if let Some(x) = bad_value(generate::field_at(m, &s), k) {
                out.push((t, format!("{} {k:?}", generate::path_str(m, &s)), with_value(m, &s, x)));
            }
        }
    }
    out
}
