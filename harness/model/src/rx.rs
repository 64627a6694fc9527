//! Own matcher for the frozen pattern subset (XSD pattern facets): whole-value matching by
//! explicit NFA -> DFA construction over character classes.  Independent of the regex crate.
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug)]
enum Ast {
    Set(Vec<(char, char)>), // ranges
    Cat(Vec<Ast>),
    Alt(Vec<Ast>),
    Rep(Box<Ast>, usize, Option<usize>),
}

struct Ps {
    c: Vec<char>,
    i: usize,
}
impl Ps {
    fn alt(&mut self) -> Ast {
        let mut v = vec![self.cat()];
        while self.i < self.c.len() && self.c[self.i] == '|' {
            self.i += 1;
            v.push(self.cat());
        }
        if v.len() == 1 { v.pop().unwrap() } else { Ast::Alt(v) }
    }
    fn cat(&mut self) -> Ast {
        let mut v = vec![];
        while self.i < self.c.len() && self.c[self.i] != '|' && self.c[self.i] != ')' {
            let mut a = self.atom();
            loop {
                match self.c.get(self.i) {
                    Some('+') => {
                        self.i += 1;
                        a = Ast::Rep(Box::new(a), 1, None);
                    }
                    Some('*') => {
                        self.i += 1;
                        a = Ast::Rep(Box::new(a), 0, None);
                    }
                    Some('?') => {
                        self.i += 1;
                        a = Ast::Rep(Box::new(a), 0, Some(1));
                    }
                    Some('{') => {
                        let e = self.c[self.i..].iter().position(|x| *x == '}').unwrap() + self.i;
                        let b: String = self.c[self.i + 1..e].iter().collect();
                        self.i = e + 1;
                        let (lo, hi) = match b.split_once(',') {
                            None => (b.parse().unwrap(), Some(b.parse().unwrap())),
                            Some((l, "")) => (l.parse().unwrap(), None),
                            Some((l, h)) => (l.parse().unwrap(), Some(h.parse().unwrap())),
                        };
                        a = Ast::Rep(Box::new(a), lo, hi);
                    }
                    _ => break,
                }
            }
            v.push(a);
        }
        Ast::Cat(v)
    }
    fn esc(&mut self) -> Vec<(char, char)> {
        let c = self.c[self.i];
        self.i += 1;
        match c {
            'd' => vec![('0', '9')],
            'n' => vec![('\n', '\n')],
            'r' => vec![('\r', '\r')],
            't' => vec![('\t', '\t')],
            c if c.is_ascii_alphanumeric() => panic!("unsupported escape \\{c}"),
            c => vec![(c, c)],
        }
    }
    fn atom(&mut self) -> Ast {
        let c = self.c[self.i];
        self.i += 1;
        match c {
            '(' => {
                let a = self.alt();
                assert_eq!(self.c[self.i], ')');
                self.i += 1;
                a
            }
            '.' => Ast::Set(vec![('\0', '\t'), ('\u{b}', '\u{10ffff}')]), // any but newline
            '\\' => Ast::Set(self.esc()),
            '[' => {
                let mut r = vec![];
                assert_ne!(self.c[self.i], '^', "negated class unsupported");
                while self.c[self.i] != ']' {
                    let lo = if self.c[self.i] == '\\' {
                        self.i += 1;
                        let e = self.esc();
                        if e[0].0 != e[0].1 {
                            r.extend(e);
                            continue;
                        }
                        e[0].0
                    } else {
                        self.i += 1;
                        self.c[self.i - 1]
                    };
                    if self.c[self.i] == '-' && self.c[self.i + 1] != ']' {
                        self.i += 1;
                        let hi = if self.c[self.i] == '\\' {
                            self.i += 1;
                            self.esc()[0].0
                        } else {
                            self.i += 1;
                            self.c[self.i - 1]
                        };
                        assert!(lo <= hi);
                        r.push((lo, hi));
                    } else {
                        r.push((lo, lo));
                    }
                }
                self.i += 1;
                Ast::Set(r)
            }
            c => {
                assert!(!"*+?{}|^$".contains(c), "unexpected {c}");
                Ast::Set(vec![(c, c)])
            }
        }
    }
}

#[derive(Default)]
struct Nfa {
    eps: Vec<Vec<usize>>,
    edge: Vec<Vec<(usize, usize)>>, // (set index, target)
    sets: Vec<Vec<(char, char)>>,
}
impl Nfa {
    fn st(&mut self) -> usize {
        self.eps.push(vec![]);
        self.edge.push(vec![]);
        self.eps.len() - 1
    }
    fn build(&mut self, a: &Ast, from: usize) -> usize {
        match a {
            Ast::Set(r) => {
                let t = self.st();
                self.sets.push(r.clone());
                let k = self.sets.len() - 1;
                self.edge[from].push((k, t));
                t
            }
            Ast::Cat(v) => v.iter().fold(from, |s, x| self.build(x, s)),
            Ast::Alt(v) => {
                let end = self.st();
                for x in v {
                    let s = self.st();
                    self.eps[from].push(s);
                    let e = self.build(x, s);
                    self.eps[e].push(end);
                }
                end
            }
            Ast::Rep(x, lo, hi) => {
                let mut s = from;
                for _ in 0..*lo {
                    s = self.build(x, s);
                }
                match hi {
                    None => {
                        let l = self.st();
                        self.eps[s].push(l);
                        let e = self.build(x, l);
                        self.eps[e].push(l);
                        let end = self.st();
                        self.eps[l].push(end);
                        end
                    }
                    Some(h) => {
                        let end = self.st();
                        for _ in *lo..*h {
                            self.eps[s].push(end);
                            s = self.build(x, s);
                        }
                        self.eps[s].push(end);
                        end
                    }
                }
            }
        }
    }
}

/// Complete minimal-alphabet DFA.  Class 0.. are disjoint character classes with a representative.
pub struct Dfa {
    pub pattern: String,
    /// sorted starts of disjoint intervals -> class
    cuts: Vec<(u32, usize)>,
    /// several representative characters of each class
    pub reps: Vec<Vec<char>>,
    pub next: Vec<Vec<usize>>,
    pub acc: Vec<bool>,
    pub start: usize,
    /// shortest access word per state (class indexes)
    pub access: Vec<Vec<usize>>,
    /// shortest completion to acceptance per state, None = dead
    pub completion: Vec<Option<Vec<usize>>>,
}

pub fn compiled(p: &str) -> Arc<Dfa> {
    thread_local! { static L: std::cell::RefCell<HashMap<String, Arc<Dfa>>> = Default::default(); }
    static C: OnceLock<Mutex<HashMap<String, Arc<Dfa>>>> = OnceLock::new();
    L.with(|l| {
        if let Some(d) = l.borrow().get(p) {
            return d.clone();
        }
        let mut g = C.get_or_init(Default::default).lock().unwrap();
        let d = g.entry(p.to_string()).or_insert_with(|| Arc::new(Dfa::new(p))).clone();
        l.borrow_mut().insert(p.to_string(), d.clone());
        d
    })
}

impl Dfa {
    pub fn new(p: &str) -> Dfa {
        let mut ps = Ps { c: p.chars().collect(), i: 0 };
        let ast = ps.alt();
        assert_eq!(ps.i, ps.c.len(), "pattern {p}");
        let mut n = Nfa::default();
        let s = n.st();
        let f = n.build(&ast, s);
        // alphabet partition
        let mut cutpts: BTreeSet<u32> = BTreeSet::new();
        cutpts.insert(0);
        for r in n.sets.iter().flatten() {
            cutpts.insert(r.0 as u32);
            cutpts.insert(r.1 as u32 + 1);
        }
        let pts: Vec<u32> = cutpts.into_iter().filter(|x| *x <= 0x10ffff).collect();
        let mut sig: HashMap<Vec<bool>, usize> = HashMap::new();
        let mut cuts = vec![];
        let mut ranges: Vec<Vec<(u32, u32)>> = vec![];
        for (i, c) in pts.iter().enumerate() {
            let end = pts.get(i + 1).map(|x| x - 1).unwrap_or(0x10ffff);
            let k: Vec<bool> = n
                .sets
                .iter()
                .map(|s| s.iter().any(|r| r.0 as u32 <= *c && *c <= r.1 as u32))
                .collect();
            let l = sig.len();
            let cl = *sig.entry(k).or_insert(l);
            if cl == ranges.len() {
                ranges.push(vec![]);
            }
            ranges[cl].push((*c, end));
            cuts.push((*c, cl));
        }
        let nclass = ranges.len();
        let reps: Vec<Vec<char>> = ranges
            .iter()
            .map(|rs| {
                let mut out: Vec<char> = vec![];
                let mut push = |x: u32| {
                    if let Some(c) = char::from_u32(x)
                        && (c >= ' ' || c == '\n' || c == '\r' || c == '\t')
                        && c != '\u{7f}'
                        && !out.contains(&c)
                        && x < 0xfffe
                    {
                        out.push(c)
                    }
                };
                // prefer printable ASCII: ends and middles of each interval
                for (a, b) in rs {
                    if *a < 0x7f {
                        let b2 = (*b).min(0x7e);
                        let a2 = (*a).max(0x21);
                        if a2 <= b2 {
                            push(a2);
                            push(b2);
                            push((a2 + b2) / 2);
                        }
                    }
                }
                for (a, b) in rs {
                    push(*a);
                    if *b < 0x10ffff {
                        push(*b);
                    }
                    for x in [0x20u32, 0xa, 0xe9, 0x4e2d, 0x660, 0x441] {
                        if *a <= x && x <= *b {
                            push(x);
                        }
                    }
                }
                out
            })
            .collect();
        // subset construction
        let clos = |mut set: BTreeSet<usize>| {
            let mut st: Vec<usize> = set.iter().copied().collect();
            while let Some(x) = st.pop() {
                for e in &n.eps[x] {
                    if set.insert(*e) {
                        st.push(*e);
                    }
                }
            }
            set
        };
        let cls_of = |set: &[(char, char)], cl: usize| {
            let c = ranges[cl][0].0;
            set.iter().any(|r| r.0 as u32 <= c && c <= r.1 as u32)
        };
        let setcls: Vec<Vec<bool>> =
            n.sets.iter().map(|s| (0..nclass).map(|c| cls_of(s, c)).collect()).collect();
        let s0 = clos([s].into_iter().collect());
        let mut ids: HashMap<BTreeSet<usize>, usize> = HashMap::new();
        ids.insert(s0.clone(), 0);
        let mut order = vec![s0];
        let mut next: Vec<Vec<usize>> = vec![];
        let mut acc = vec![];
        let mut i = 0;
        while i < order.len() {
            let cur = order[i].clone();
            acc.push(cur.contains(&f));
            let mut row = vec![];
            for cl in 0..nclass {
                let mut t = BTreeSet::new();
                for x in &cur {
                    for (k, y) in &n.edge[*x] {
                        if setcls[*k][cl] {
                            t.insert(*y);
                        }
                    }
                }
                let t = clos(t);
                let l = order.len();
                let id = *ids.entry(t.clone()).or_insert(l);
                if id == l {
                    order.push(t);
                }
                row.push(id);
            }
            next.push(row);
            i += 1;
        }
        let (next, acc, start) = minimise(&next, &acc, 0);
        let ns = next.len();
        let mut access: Vec<Option<Vec<usize>>> = vec![None; ns];
        access[start] = Some(vec![]);
        let mut q = std::collections::VecDeque::from([start]);
        while let Some(x) = q.pop_front() {
            for c in 0..nclass {
                let y = next[x][c];
                if access[y].is_none() {
                    let mut w = access[x].clone().unwrap();
                    w.push(c);
                    access[y] = Some(w);
                    q.push_back(y);
                }
            }
        }
        let mut completion: Vec<Option<Vec<usize>>> =
            acc.iter().map(|a| if *a { Some(vec![]) } else { None }).collect();
        loop {
            let mut ch = false;
            for x in 0..ns {
                for c in 0..nclass {
                    if let Some(w) = completion[next[x][c]].clone() {
                        let l = w.len() + 1;
                        if completion[x].as_ref().is_none_or(|z| z.len() > l) {
                            let mut v = vec![c];
                            v.extend(w);
                            completion[x] = Some(v);
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        Dfa {
            pattern: p.to_string(),
            cuts,
            reps,
            next,
            acc,
            start,
            access: access.into_iter().map(|x| x.unwrap()).collect(),
            completion,
        }
    }
    pub fn class(&self, c: char) -> usize {
        let k = self.cuts.partition_point(|x| x.0 <= c as u32);
        self.cuts[k - 1].1
    }
    pub fn accepts(&self, s: &str) -> bool {
        let mut q = self.start;
        for c in s.chars() {
            q = self.next[q][self.class(c)];
        }
        self.acc[q]
    }
    pub fn word(&self, w: &[usize]) -> String {
        // vary the representative with the position so that repeated classes use different characters
        w.iter().enumerate().map(|(i, c)| self.reps[*c][i % self.reps[*c].len()]).collect()
    }
    /// An accepted word of exactly `n` characters without surrounding whitespace, if there is one.
    pub fn word_of_len(&self, n: usize, salt: usize) -> Option<String> {
        // reach[k][q]: acceptance reachable from q in exactly k steps
        let ns = self.next.len();
        let mut reach = vec![self.acc.clone()];
        for k in 0..n {
            let r: Vec<bool> =
                (0..ns).map(|q| self.next[q].iter().any(|t| reach[k][*t])).collect();
            reach.push(r);
        }
        if !reach[n][self.start] {
            return None;
        }
        let mut q = self.start;
        let mut out = String::new();
        for i in 0..n {
            let left = n - i - 1;
            let cands: Vec<usize> =
                (0..self.next[q].len()).filter(|c| reach[left][self.next[q][*c]]).collect();
            // choose a class having a non-blank representative
            let mut done = false;
            for d in 0..cands.len() {
                let c = cands[(d + salt + i) % cands.len()];
                let rs: Vec<char> =
                    self.reps[c].iter().copied().filter(|x| !x.is_whitespace() && x.is_ascii()).collect();
                if rs.is_empty() {
                    continue;
                }
                out.push(rs[(i + salt) % rs.len()]);
                q = self.next[q][c];
                done = true;
                break;
            }
            if !done {
                return None;
            }
        }
        Some(out)
    }
}

fn minimise(next: &[Vec<usize>], acc: &[bool], start: usize) -> (Vec<Vec<usize>>, Vec<bool>, usize) {
    let n = next.len();
    let mut part: Vec<usize> = acc.iter().map(|a| *a as usize).collect();
    let mut count = 0;
    loop {
        let mut ids: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
        let mut np = vec![0; n];
        for q in 0..n {
            let key = (part[q], next[q].iter().map(|t| part[*t]).collect::<Vec<_>>());
            let l = ids.len();
            np[q] = *ids.entry(key).or_insert(l);
        }
        let c = ids.len();
        part = np;
        if c == count {
            break;
        }
        count = c;
    }
    let mut nn = vec![vec![]; count];
    let mut na = vec![false; count];
    for q in 0..n {
        if nn[part[q]].is_empty() {
            nn[part[q]] = next[q].iter().map(|t| part[*t]).collect();
            na[part[q]] = acc[q];
        }
    }
    (nn, na, part[start])
}
