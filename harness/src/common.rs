//! Shared pieces of the property checks.
use crate::targets::*;
use refmodel::engine::Ctx;
use refmodel::generate::{self, Gen};
use refmodel::schema::*;
use refmodel::tree::{self, Node, Path};
use serde_json::Value;
use std::collections::HashMap;

pub struct World {
    pub s: Schema,
    pub hdr: Node,
    pub hj: Value,
    pub hx: String,
    /// a different header, minimal
    pub hj2: Value,
    pub hx2: String,
    full: HashMap<&'static str, Node>,
    min: HashMap<&'static str, Node>,
}
impl World {
    pub fn new(ctx: &Ctx) -> World {
        let s = Schema::load();
        let hm = s.get(APPHDR);
        let mut g = Gen::new(hm);
        g.salt = ctx.seed as usize % 50 + 1;
        let hdr = g.full(hm.root);
        let h2 = generate::minimal(hm);
        let (hj, hx) = (tree::to_json(hm, hm.root, &hdr), tree::to_xml(hm, &hdr, "AppHdr"));
        let (hj2, hx2) = (tree::to_json(hm, hm.root, &h2), tree::to_xml(hm, &h2, "AppHdr"));
        let mut full = HashMap::new();
        let mut min = HashMap::new();
        for t in Target::all() {
            let m = s.get(t.module());
            let mut g = Gen::new(m);
            g.salt = ctx.seed as usize % 50;
            full.insert(t.module(), g.full(m.root));
            min.insert(t.module(), generate::minimal(m));
        }
        World { s, hdr, hj, hx, hj2, hx2, full, min }
    }
    pub fn m(&self, t: Target) -> &Module {
        self.s.get(t.module())
    }
    pub fn full(&self, t: Target) -> &Node {
        &self.full[t.module()]
    }
    pub fn min(&self, t: Target) -> &Node {
        &self.min[t.module()]
    }
    pub fn json(&self, t: Target, n: &Node) -> String {
        let m = self.m(t);
        t.wrap_json(&self.hj, &tree::to_json(m, m.root, n))
    }
    pub fn xml(&self, t: Target, n: &Node) -> String {
        t.wrap_xml(&self.hx, &tree::to_xml(self.m(t), n, t.tag()))
    }
}

/// Same value, by the library's own equality (every check using it also compares with the model).
pub fn same(a: &dyn Inst, b: &dyn Inst) -> bool {
    a.same(b) && b.same(a)
}

pub fn hdr_diff(w: &World, v: &Value) -> Option<String> {
    let hm = w.s.get(APPHDR);
    tree::json_diff(hm, hm.root, &w.hdr, &v["AppHdr"], "AppHdr")
}

/// Difference between a produced JSON value and the model of the whole target.
pub fn whole_json_diff(w: &World, t: Target, n: &Node, v: &Value) -> Option<String> {
    let m = w.m(t);
    if let Target::Mx(d) = t {
        if let Some(d) = hdr_diff(w, v) {
            return Some(d);
        }
        let Some(o) = v.as_object() else { return Some("not an object".into()) };
        for k in o.keys() {
            if !["AppHdr", "Document", "@xmlns", "@xmlns:xsi"].contains(&k.as_str()) {
                return Some(format!("unexpected key {k}"));
            }
        }
        let Some(o) = v["Document"].as_object() else { return Some("Document is not an object".into()) };
        if o.len() != 1 || !o.contains_key(d.element) {
            return Some(format!("Document holds {:?}", o.keys().collect::<Vec<_>>()));
        }
    }
    tree::json_diff(m, m.root, n, t.doc_json(v), "")
}

/// One element of the explored space: a target and a tree, with a description of how it was made.
pub struct Item {
    pub t: Target,
    pub what: What,
}
#[derive(Clone, Debug)]
pub enum What {
    Min,
    Full,
    /// minimal + the field at these steps
    With(Vec<usize>),
    /// minimal + the field, itself full
    WithFull(Vec<usize>),
    /// full minus the field at these steps (first occurrence of the parents)
    Without(Vec<usize>),
    /// minimal + list field with n occurrences
    Count(Vec<usize>, usize),
    /// minimal + list field with equal items: the same one twice, another one, the same one again
    Same(Vec<usize>),
    /// minimal + two fields of the struct at these steps
    Pair(Vec<usize>, usize, usize),
    /// full with leaf i of kind text set to the alphabet value (i+k)
    Rot(usize),
    /// all text leaves of a full message are equal, to the k-th of EQUAL; its numbers come from EQUAL_NUMS
    Equal(usize),
    /// all text leaves of a minimal message are longer than any buffer
    Long,
    /// full with leaf i of kind text set to SPACES (i+k): only JSON carries these
    Spaces(usize),
    /// every text leaf of a full message holds another pair of special characters; the k-th part
    Pairs(usize),
}
impl Item {
    pub fn name(&self, w: &World) -> String {
        let m = w.m(self.t);
        let p = |s: &[usize]| generate::path_str(m, s);
        let d = match &self.what {
            What::Min => "minimal".into(),
            What::Full => "full".into(),
            What::With(s) => format!("minimal+{}", p(s)),
            What::WithFull(s) => format!("minimal+full {}", p(s)),
            What::Without(s) => format!("full-{}", p(s)),
            What::Count(s, n) => format!("{}x{n}", p(s)),
            What::Pair(s, a, b) => {
                let (mut x, mut y) = (s.clone(), s.clone());
                x.push(*a);
                y.push(*b);
                format!("minimal+{}+{}", p(&x), p(&y))
            }
            What::Same(s) => format!("{} equal", p(s)),
            What::Equal(k) => format!("full, all texts {:?}, zero, negative and fractional numbers", EQUAL[*k]),
            What::Long => "minimal, long texts".into(),
            What::Spaces(k) => format!("full, white space around texts, rotated by {k}"),
            What::Rot(k) => format!("full, text alphabet rotated by {k}"),
            What::Pairs(k) => format!("full, character pairs, part {k}"),
        };
        format!("{}: {d}", self.t.module())
    }
    pub fn build(&self, w: &World) -> Node {
        let m = w.m(self.t);
        match &self.what {
            What::Min => w.min(self.t).clone(),
            What::Full => w.full(self.t).clone(),
            What::With(s) => generate::with_path(m, s).0,
            What::WithFull(s) => {
                let (mut n, p) = generate::with_path(m, s);
                let mut g = Gen { m, salt: 200 };
                *n.get_mut(&p) = g.value(generate::field_at(m, s), true);
                n
            }
            What::Without(s) => {
                let mut n = w.full(self.t).clone();
                let pp: Path = s[..s.len() - 1].iter().map(|f| (*f, 0)).collect();
                n.get_mut(&pp).fields_mut()[s[s.len() - 1]].clear();
                n
            }
            What::Count(s, k) => {
                let (mut n, p) = generate::with_path(m, s);
                let mut g = Gen { m, salt: 300 };
                let f = generate::field_at(m, s);
                let items: Vec<Node> = (0..*k).map(|_| g.value(f, false)).collect();
                n.get_mut(&p[..p.len() - 1]).fields_mut()[s[s.len() - 1]] = items;
                n
            }
            What::Same(s) => {
                let (mut n, p) = generate::with_path(m, s);
                let mut g = Gen { m, salt: 300 };
                let f = generate::field_at(m, s);
                let (a, b) = (g.value(f, true), g.value(f, false));
                n.get_mut(&p[..p.len() - 1]).fields_mut()[s[s.len() - 1]] = vec![a.clone(), a.clone(), b, a];
                n
            }
            What::Equal(k) => {
                let mut n = rotate(m, w.full(self.t), 0, &EQUAL[*k..=*k]);
                for (i, (p, t, f)) in generate::leaves(m, w.full(self.t)).into_iter().enumerate() {
                    match m.fields(t)[f].ty {
                        Ty::F64 => *n.get_mut(&p) = Node::Num(EQUAL_NUMS[(k + i / 7) % EQUAL_NUMS.len()]),
                        Ty::Bool => *n.get_mut(&p) = Node::Bool(k % 2 == 0),
                        _ => {}
                    }
                }
                n
            }
            What::Long => rotate(m, w.min(self.t), 0, &[&"0123456789 é<".repeat(6000)]),
            What::Pair(s, a, b) => {
                let mut g = Gen::new(m);
                let mut n = g.minimal(m.root);
                for i in [a, b] {
                    let mut x = s.clone();
                    x.push(*i);
                    generate::ensure(&mut g, &mut n, &x);
                }
                n
            }
            What::Rot(k) => rotate(m, w.full(self.t), *k, TEXTS),
            What::Spaces(k) => rotate(m, w.full(self.t), *k, SPACES),
            What::Pairs(k) => {
                let (v, n) = (pairs(), text_leaves(m, w.full(self.t)));
                let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                rotate(m, w.full(self.t), k * n % v.len(), &v)
            }
        }
    }
}

/// Free-text values: markup characters, entities look-alikes, white space inside, control
/// characters of XML, Unicode of every UTF-8 width, combining marks, text that looks like the
/// library's own tags and attributes, and the empty string.
pub const TEXTS: &[&str] = &[
    "plain", "<", ">", "&", "\"", "'", "a<b>c&d\"e'f", "&amp;", "&lt;x&gt;", "]]>", "<![CDATA[x]]>", "<!-- c -->",
    "<?pi?>", "a\nb", "a\r\nb", "a\tb", "a  b", "é", "中文", "😀", "e\u{301}", "\u{a0}x\u{a0}", "\u{2028}x",
    "<Document>", "</Document>", "<Document", "</AppHdr>", "<AppHdr", "<Envelope>", "</Envelope>", "xmlns=\"urn:x\"",
    "xmlns:xsi=\"urn:y\"", "<MsgDefIdr>pacs.009</MsgDefIdr>", "BusinessApplicationHeaderV02",
    "<BusinessApplicationHeaderV02>", "FIToFICustomerCreditTransferV08", "<FIToFICustomerCreditTransferV08>",
    "<PmtRtr>", "</FICdtTrf>", "<NtfctnToRcv>", "\\n", "\\u0041", "{}", "[]", "null", "true", "0", "1e5", "007",
    "%41", "$value", "@Ccy", "--", "a=b", "/", ".", "#", "", "ÀÉ&<é>", "x", "\u{85}y", "\u{feff}z", "\u{fffd}",
    "{{x}}", "a.b.c", "&#65;", "&nosuch;", "<a/>", "</", "\u{7f}",
    // what a library might take for something to normalise
    "2024-02-29T23:59:60.000Z", "2024-01-01T00:00:00+00:00", "2024-01-01T00:00:00.120-05:00", "2024-01-01", "2024-1-1", "24:00:00", "+05:30",
    "DEUTDEFFXXX", "deutdeff", "gb82 west 1234", "GB82WEST12345698765432", "gb", "eur", "+49-1234", "-0", "+1", "1.0", "1.50", "0.1e1",
    ".5", "1,000.00", "0x1F", "NaN", "TRUE", "False", "yes", "NULL", "None", "undefined", "a/b//c", "a\\b", "\\\\", "A@B.C", "123e4567-E89B-12D3",
    "ß", "ﬁ", "É", "ǅ", "İ", "Å", "\u{200b}x\u{200d}", "\u{202e}x", "\u{10ffff}", "\u{e000}", "\u{1f468}\u{200d}\u{1f469}",
];
/// Words the domain gives a meaning, alone in every text of a message.
pub const EQUAL: &[&str] = &[
    "x", "", "é&<", "JPY", "EUR", "USD", "KWD", "CLP", "XXX", "NOTPROVIDED", "NONE", "true", "false", "0", "1", "GB", "US", "DEUTDEFFXXX", "SLEV", "SHAR",
    "CRED", "DEBT", "COVE", "NORM", "swift.cbprplus.02", "OTHR", "UNKNOWN", "N/A", "-", "2024-01-01", "2024-01-01T00:00:00Z",
];
/// White space and control characters where XML would not keep them.
pub const SPACES: &[&str] = &[
    " x", "x ", " x ", " ", "  ", "\n", "\tx", "x\n", "x\r", "\r\nx\r\n", "\u{0}", "x\u{0}", "\u{1}x", "x\u{1f}", "\u{b}x\u{c}", "\u{3000}x", "x\u{85}", "\u{2029}", "\u{fffe}", "\u{ffff}x", "\u{8}x",
    "\u{1b}[0m", " a  b ",
];
pub const EQUAL_NUMS: &[f64] = &[0.0, 1234.5678, -2.5, 1.0, 0.005, 100.0];

/// leaves up to the last one, the stride of `rotate`
fn text_leaves(m: &Module, n: &Node) -> usize {
    generate::leaves(m, n).len()
}
/// Every pair of special characters inside a text.
pub fn pairs() -> Vec<String> {
    let c = ['<', '>', '&', '"', '\'', '\\', '/', 'n', ';', '#', '=', '?', '!', '-', '[', ']', '{', '}', '$', '@', '%', ':', '.', ' ', '\n', '\t', '0', 'é', '€'];
    c.iter().flat_map(|a| c.iter().map(move |b| format!("a{a}{b}z"))).collect()
}

/// Every free-text leaf of the tree gets an alphabet value; the k-th rotation.  Over all k every
/// text leaf takes every value.  Constraints are irrelevant for reading and writing.
pub fn rotate(m: &Module, base: &Node, k: usize, alpha: &[&str]) -> Node {
    let mut n = base.clone();
    for (i, (p, t, f)) in generate::leaves(m, base).into_iter().enumerate() {
        if m.fields(t)[f].ty == Ty::Str {
            *n.get_mut(&p) = Node::Text(alpha[(i + k) % alpha.len()].to_string());
        }
    }
    n
}

/// Struct steps (path to a struct type) of every reachable struct type, shortest.
pub fn struct_sites(m: &Module) -> Vec<(usize, Vec<usize>)> {
    generate::type_paths(m).into_iter().enumerate().filter_map(|(t, p)| p.map(|p| (t, p))).collect()
}
/// One path per (struct type, field): the shortest.
pub fn field_sites(m: &Module) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for (t, p) in struct_sites(m) {
        for i in 0..m.fields(t).len() {
            let mut q = p.clone();
            q.push(i);
            out.push(q);
        }
    }
    out
}
/// do the parents of this path exist in a full tree at occurrence 0 (always) -- field is optional there
pub fn optional(m: &Module, s: &[usize]) -> bool {
    !generate::field_at(m, s).card.required()
}

/// The structural space: minimal, full, minimal+each path, list counts, full-minus-one, pairs.
pub fn structural(w: &World, ts: &[Target], thorough: bool) -> Vec<Item> {
    structural_with(w, ts, thorough, true)
}
pub fn structural_with(w: &World, ts: &[Target], thorough: bool, without: bool) -> Vec<Item> {
    let mut v = vec![];
    for &t in ts {
        let m = w.m(t);
        v.push(Item { t, what: What::Min });
        v.push(Item { t, what: What::Full });
        for s in generate::field_paths(m) {
            let f = generate::field_at(m, &s);
            if f.card.many() {
                // an optional list with no items is the absent list, a mandatory one has at least one
                for k in [2usize, 3] {
                    v.push(Item { t, what: What::Count(s.clone(), k) });
                }
                v.push(Item { t, what: What::Same(s.clone()) });
            }
            if thorough && m.is_struct(f.ty) {
                v.push(Item { t, what: What::WithFull(s.clone()) });
            }
            if thorough && optional(m, &s) {
                v.push(Item { t, what: What::Without(s.clone()) });
            }
            v.push(Item { t, what: What::With(s) });
        }
        // long lists: one path per type of list, one very long
        for (i, s) in field_sites(m).into_iter().filter(|s| generate::field_at(m, s).card.many()).enumerate() {
            v.push(Item { t, what: What::Count(s, if i == 0 { 1030 } else { 40 }) });
        }
        if !thorough && without {
            for s in field_sites(m) {
                if optional(m, &s) {
                    v.push(Item { t, what: What::Without(s) });
                }
            }
        }
        for (ty, s) in struct_sites(m) {
            let n = m.fields(ty).len();
            for a in 0..n {
                for b in a + 1..n {
                    if !m.fields(ty)[a].card.required() && !m.fields(ty)[b].card.required() {
                        v.push(Item { t, what: What::Pair(s.clone(), a, b) });
                    }
                }
            }
        }
    }
    v
}
pub fn rotations(w: &World, ts: &[Target], step: usize) -> Vec<Item> {
    let mut v = vec![];
    for k in (0..TEXTS.len()).step_by(step) {
        for &t in ts {
            v.push(Item { t, what: What::Rot(k) });
        }
    }
    let p = pairs().len();
    for &t in ts {
        v.extend((0..EQUAL.len()).map(|k| Item { t, what: What::Equal(k) }));
        v.push(Item { t, what: What::Long });
        let parts = p.div_ceil(text_leaves(w.m(t), w.full(t)).max(1));
        v.extend((0..parts).map(|k| Item { t, what: What::Pairs(k) }));
    }
    v
}

/// Shrink a failing tree: drop optional parts while it still fails.
pub fn shrink_structure(m: &Module, n: &Node, mut budget: usize, fails: &dyn Fn(&Node) -> bool) -> Node {
    let mut cur = n.clone();
    // remove optional occurrences, outermost first
    fn sites(m: &Module, t: usize, n: &Node, p: &mut Path, out: &mut Vec<(Path, usize)>) {
        for (i, f) in m.fields(t).iter().enumerate() {
            let occ = &n.fields()[i];
            if !occ.is_empty() && (!f.card.required() || occ.len() > 1) {
                out.push((p.clone(), i));
            }
            for (k, c) in occ.iter().enumerate() {
                if let (Node::Struct(_), Ty::Ref(ct)) = (c, f.ty) {
                    p.push((i, k));
                    sites(m, ct, c, p, out);
                    p.pop();
                }
            }
        }
    }
    let mut again = true;
    while again && budget > 0 {
        again = false;
        let mut ss = vec![];
        sites(m, m.root, &cur, &mut vec![], &mut ss);
        ss.sort_by_key(|(p, _)| p.len());
        let mut i = 0;
        while i < ss.len() && budget > 0 {
            let (p, f) = &ss[i];
            i += 1;
            let mut c = cur.clone();
            let occ = &mut c.get_mut(p).fields_mut()[*f];
            let keep = if let Some(o) = occ.len().checked_sub(1) { o } else { continue };
            occ.truncate(if keep > 0 { keep } else { 0 });
            budget -= 1;
            if fails(&c) {
                cur = c;
                again = true;
                break;
            }
        }
    }
    cur
}
/// ... and simplify leaves.
pub fn shrink(m: &Module, n: &Node, fails: &dyn Fn(&Node) -> bool) -> Node {
    let mut cur = shrink_structure(m, n, 400, fails);
    let mut budget = 100;
    for (p, t, f) in generate::leaves(m, &cur) {
        if budget == 0 {
            break;
        }
        if m.fields(t)[f].ty != Ty::Str {
            continue;
        }
        let mut c = cur.clone();
        *c.get_mut(&p) = Node::Text("x".into());
        budget -= 1;
        if fails(&c) {
            cur = c;
        }
    }
    cur
}
