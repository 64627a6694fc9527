//! Systematic construction of instance trees from the frozen schema (no randomness).
use crate::rx;
use crate::schema::*;
use crate::tree::*;

/// Numbers used as amounts: magnitudes, fractions, values needing all 17 digits.
pub const NUMS: &[f64] = &[
    1000.0, 0.01, 123456789.12, 1.0, 0.1, 99999999999999.98, 2.5, 1234567890123456.0, 0.00001, 7.0,
    0.30000000000000004, 100.10,
];

pub fn valid_text(f: &Field, salt: usize) -> String {
    let (min, max) = f.len.unwrap_or((Some(1), None));
    let min = min.unwrap_or(0).max(1);
    let max = max.unwrap_or(40);
    if let Some(p) = &f.pat {
        let d = rx::compiled(p);
        let hi = max.min(40);
        // a length that varies with the salt
        let span = hi - min + 1;
        for k in 0..span {
            let n = min + (salt / 3 + 5 + k) % span;
            if let Some(w) = d.word_of_len(n, salt) {
                return w;
            }
        }
        panic!("no valid value for {p} in {min}..{max}");
    }
    // free text: a marker unique per salt, cut/padded to the bounds
    let base = format!("V{salt}x");
    let mut s: String = base.chars().take(max).collect();
    if max < base.len() {
        // base-36 so that short fields still vary
        s = (0..max)
            .map(|i| char::from_digit(((salt / 36usize.pow(i as u32)) % 36) as u32, 36).unwrap())
            .collect();
    }
    while s.chars().count() < min {
        s.push('p');
    }
    s
}

pub fn leaf(m: &Module, f: &Field, salt: usize) -> Node {
    match f.ty {
        Ty::Str => Node::Text(valid_text(f, salt)),
        Ty::F64 => {
            let (a, b) = (NUMS[salt % NUMS.len()], (salt / NUMS.len() % 97) as f64);
            // longer ones are the business of the number property (C12)
            Node::Num(if digits(a + b) <= 15 { a + b } else { a })
        }
        Ty::Bool => Node::Bool(salt % 2 == 0),
        Ty::Ref(_) => {
            let c = m.codes(f.ty);
            Node::Text(c[salt % c.len()].clone())
        }
    }
}

pub struct Gen<'a> {
    pub m: &'a Module,
    pub salt: usize,
}
impl<'a> Gen<'a> {
    pub fn new(m: &'a Module) -> Self {
        Gen { m, salt: 1 }
    }
    pub fn value(&mut self, f: &Field, full: bool) -> Node {
        if let (true, Ty::Ref(t)) = (self.m.is_struct(f.ty), f.ty) {
            if full { self.full(t) } else { self.minimal(t) }
        } else {
            self.salt += 1;
            leaf(self.m, f, self.salt)
        }
    }
    pub fn minimal(&mut self, t: usize) -> Node {
        let m = self.m;
        let fs = m.fields(t);
        Node::Struct(
            fs.iter()
                .map(|f| if f.card.required() { vec![self.value(f, false)] } else { vec![] })
                .collect(),
        )
    }
    /// Everything present; lists hold one full and one minimal item.
    pub fn full(&mut self, t: usize) -> Node {
        let m = self.m;
        let fs = m.fields(t);
        Node::Struct(
            fs.iter()
                .map(|f| {
                    if f.card.many() {
                        vec![self.value(f, true), self.value(f, false)]
                    } else {
                        vec![self.value(f, true)]
                    }
                })
                .collect(),
        )
    }
}

pub fn minimal(m: &Module) -> Node {
    Gen::new(m).minimal(m.root)
}
pub fn full(m: &Module) -> Node {
    Gen::new(m).full(m.root)
}

/// All field paths of the schema (leaf and struct), as field-index steps from the root.
pub fn field_paths(m: &Module) -> Vec<Vec<usize>> {
    fn rec(m: &Module, t: usize, pre: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        for (i, f) in m.fields(t).iter().enumerate() {
            pre.push(i);
            out.push(pre.clone());
            if let (true, Ty::Ref(c)) = (m.is_struct(f.ty), f.ty) {
                rec(m, c, pre, out);
            }
            pre.pop();
        }
    }
    let mut out = vec![];
    rec(m, m.root, &mut vec![], &mut out);
    out
}
pub fn field_at<'a>(m: &'a Module, steps: &[usize]) -> &'a Field {
    let mut t = m.root;
    for s in &steps[..steps.len() - 1] {
        match m.fields(t)[*s].ty {
            Ty::Ref(c) => t = c,
            _ => panic!(),
        }
    }
    &m.fields(t)[steps[steps.len() - 1]]
}
pub fn is_leaf(m: &Module, f: &Field) -> bool {
    !m.is_struct(f.ty)
}
pub fn path_str(m: &Module, steps: &[usize]) -> String {
    let mut t = m.root;
    let mut v = vec![];
    for s in steps {
        let f = &m.fields(t)[*s];
        v.push(f.name.clone());
        if let Ty::Ref(c) = f.ty {
            t = c;
        }
    }
    v.join("/")
}

/// Make the field at `steps` present (occurrence 0 all the way) in `n`; returns its concrete path.
pub fn ensure(g: &mut Gen, n: &mut Node, steps: &[usize]) -> Path {
    let m = g.m;
    let mut t = m.root;
    let mut p: Path = vec![];
    for s in steps {
        let f = &m.fields(t)[*s];
        {
            let parent = n.get_mut(&p);
            if parent.fields()[*s].is_empty() {
                let v = g.value(f, false);
                parent.fields_mut()[*s].push(v);
            }
        }
        p.push((*s, 0));
        if let Ty::Ref(c) = f.ty {
            t = c;
        }
    }
    p
}

/// minimal message + the given field
pub fn with_path(m: &Module, steps: &[usize]) -> (Node, Path) {
    let mut g = Gen::new(m);
    let mut n = g.minimal(m.root);
    let p = ensure(&mut g, &mut n, steps);
    (n, p)
}

/// Shortest path (struct steps) to every struct type of the module: type -> steps.
pub fn type_paths(m: &Module) -> Vec<Option<Vec<usize>>> {
    let mut out = vec![None; m.types.len()];
    out[m.root] = Some(vec![]);
    let mut q = std::collections::VecDeque::from([m.root]);
    while let Some(t) = q.pop_front() {
        for (i, f) in m.fields(t).iter().enumerate() {
            if let (true, Ty::Ref(c)) = (m.is_struct(f.ty), f.ty)
                && out[c].is_none()
            {
                let mut p = out[t].clone().unwrap();
                p.push(i);
                out[c] = Some(p);
                q.push_back(c);
            }
        }
    }
    out
}

/// Concrete paths of all leaves present in a tree.
pub fn leaves(m: &Module, n: &Node) -> Vec<(Path, usize, usize)> {
    // (path, type, field)
    fn rec(m: &Module, t: usize, n: &Node, p: &mut Path, out: &mut Vec<(Path, usize, usize)>) {
        for (i, f) in m.fields(t).iter().enumerate() {
            for (k, c) in n.fields()[i].iter().enumerate() {
                p.push((i, k));
                match (c, f.ty) {
                    (Node::Struct(_), Ty::Ref(ct)) => rec(m, ct, c, p, out),
                    _ => out.push((p.clone(), t, i)),
                }
                p.pop();
            }
        }
    }
    let mut out = vec![];
    rec(m, m.root, n, &mut vec![], &mut out);
    out
}

/// Significant digits of the shortest decimal form.
pub fn digits(x: f64) -> usize {
    let e = format!("{x:e}");
    e.split('e').next().unwrap().chars().filter(|c| c.is_ascii_digit()).count()
}
