//! Random worlds: documents, queries (as syntax trees, so that the reference model can evaluate
//! them), patterns, environments, schedules.
use crate::rng::{hash2, Rng};
use crate::rt::{MemSpec, SchedSpec};
use crate::spec::*;
use std::fmt;

pub const NAMES: [&str; 18] = [
    "count", "length", "match", "search", "value", "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10",
    "f11", "f12",
];
pub const NF: usize = 13;
pub const KINDS: [FnKind; NF] = [
    FnKind::Ident,
    FnKind::Tag,
    FnKind::Pass,
    FnKind::NonEmpty,
    FnKind::Cnt,
    FnKind::Cat,
    FnKind::Seq,
    FnKind::Same,
    FnKind::Nodes,
    FnKind::Odd,
    FnKind::Konst,
    FnKind::Flag,
    FnKind::Five,
];

// ------------------------------------------------------------------ queries
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Name(String),
    Idx(i64),
    Wild,
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Lx),
    Sing(Q),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Child(Vec<Sel>),
    Desc(Vec<Sel>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Q {
    pub root: bool,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Lx {
    Or(Box<Lx>, Box<Lx>),
    And(Box<Lx>, Box<Lx>),
    Not(Box<Lx>),
    Test(Q),
    Cmp(Vx, &'static str, Vx),
    Call(Call),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Vx {
    Int(i64),
    Float(f64),
    Str(String),
    Bool(bool),
    Null,
    Q(Q),
    Call(Call),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    /// index into NAMES
    pub name: usize,
    pub args: Vec<Arg>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    V(Vx),
    N(Q),
    /// a function which answers with nodes
    F(Call),
    /// a comparison or a conjunction or disjunction
    L(Lx),
}
fn list<T: fmt::Display>(f: &mut fmt::Formatter, v: &[T]) -> fmt::Result {
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            f.write_str(", ")?;
        }
        write!(f, "{}", x)?;
    }
    Ok(())
}
impl fmt::Display for Sel {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Sel::Name(n) => write!(f, "'{}'", n),
            Sel::Idx(i) => write!(f, "{}", i),
            Sel::Wild => f.write_str("*"),
            Sel::Slice(a, b, c) => {
                let s = |x: &Option<i64>| x.map(|i| i.to_string()).unwrap_or_default();
                write!(f, "{}:{}", s(a), s(b))?;
                if c.is_some() {
                    write!(f, ":{}", s(c))?;
                }
                Ok(())
            }
            Sel::Filter(l) => write!(f, "?{}", l),
            Sel::Sing(q) => write!(f, "{}", q),
        }
    }
}
impl fmt::Display for Seg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (d, v) = match self {
            Seg::Child(v) => ("", v),
            Seg::Desc(v) => ("..", v),
        };
        f.write_str(d)?;
        if v.len() == 1 {
            match &v[0] {
                Sel::Name(n) if !n.is_empty() && n.chars().all(|c| c.is_ascii_lowercase()) => {
                    return write!(f, "{}{}", if d.is_empty() { "." } else { "" }, n);
                }
                _ => {}
            }
        }
        f.write_str("[")?;
        list(f, v)?;
        f.write_str("]")
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.root { "$" } else { "@" })?;
        for s in &self.segs {
            write!(f, "{}", s)?;
        }
        Ok(())
    }
}
impl fmt::Display for Lx {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Lx::Or(a, b) => write!(f, "({} || {})", a, b),
            Lx::And(a, b) => write!(f, "({} && {})", a, b),
            Lx::Not(a) => match &**a {
                Lx::Cmp(..) => write!(f, "!({})", a),
                Lx::Not(_) => write!(f, "!({})", a),
                _ => write!(f, "!{}", a),
            },
            Lx::Test(q) => write!(f, "{}", q),
            Lx::Cmp(a, o, b) => write!(f, "{} {} {}", a, o, b),
            Lx::Call(c) => write!(f, "{}", c),
        }
    }
}
impl fmt::Display for Vx {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Vx::Int(i) => write!(f, "{}", i),
            Vx::Float(x) => write!(f, "{:?}", x),
            Vx::Str(s) => write!(f, "'{}'", s.replace('\\', "\\\\").replace('\'', "\\'")),
            Vx::Bool(b) => write!(f, "{}", b),
            Vx::Null => write!(f, "null"),
            Vx::Q(q) => write!(f, "{}", q),
            Vx::Call(c) => write!(f, "{}", c),
        }
    }
}
impl fmt::Display for Call {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}(", NAMES[self.name])?;
        list(f, &self.args)?;
        f.write_str(")")
    }
}
impl fmt::Display for Arg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Arg::V(v) => write!(f, "{}", v),
            Arg::N(q) => write!(f, "{}", q),
            Arg::F(c) => write!(f, "{}", c),
            Arg::L(l) => match l {
                Lx::Or(..) | Lx::And(..) => write!(f, "{}", l),
                _ => write!(f, "({})", l),
            },
        }
    }
}

#[derive(Clone, Copy)]
pub struct G {
    pub std: bool,
    pub custom: bool,
    pub regex: bool,
    pub sing: bool,
    /// weight of filters
    pub filt: usize,
    pub seq: bool,
}
pub const MEMBERS: [&str; 7] = ["a", "b", "s", "x", "k", "p", "n"];
pub const WORDS: [&str; 12] =
    ["a", "ab", "abc", "b", "ba", "aab", "abab", "c", "", "xyz", "a.b", "\u{e9}t\u{e9}"];

fn member(r: &mut Rng) -> String {
    r.pick(&MEMBERS).to_string()
}
fn sing_q(r: &mut Rng, root_ok: bool) -> Q {
    let root = root_ok && r.chance(1, 8);
    let n = [0, 1, 1, 1, 2][r.below(5)];
    let n = if root { n.max(1) } else { n };
    let segs = (0..n)
        .map(|_| {
            Seg::Child(vec![if r.chance(1, 4) { Sel::Idx(r.below(3) as i64 - 1) } else { Sel::Name(member(r)) }])
        })
        .collect();
    Q { root, segs }
}
fn rel_q(r: &mut Rng, g: G, depth: usize, root_ok: bool) -> Q {
    let root = root_ok && r.chance(1, 8);
    let n = r.range(if root { 1 } else { 0 }, 2).max(1);
    let segs = (0..n).map(|_| seg(r, g, depth + 1)).collect();
    Q { root, segs }
}
fn call_value(r: &mut Rng, g: G, depth: usize, root_ok: bool) -> Option<Call> {
    let mut c: Vec<usize> = vec![];
    if g.std {
        c.extend([0, 1, 4]);
    }
    if g.custom {
        c.extend([5, 5, 5, 6, 6, 6, 9, 9, 10, 10, 15, 16, 17]);
        if g.seq {
            c.extend([11, 11]);
        }
    }
    if c.is_empty() {
        return None;
    }
    let name = *r.pick(&c);
    let args = match name {
        0 | 4 | 9 => vec![nodes_arg(r, g, depth, root_ok)],
        15 => vec![],
        16 => vec![logical_arg(r, g, depth, root_ok)],
        17 => (0..5).map(|i| Arg::V(value(r, g, if i == 0 { depth + 1 } else { 9 }, root_ok))).collect(),
        10 => vec![Arg::V(value(r, g, depth + 1, root_ok)), Arg::V(value(r, g, depth + 1, root_ok))],
        _ => vec![Arg::V(value(r, g, depth + 1, root_ok))],
    };
    Some(Call { name, args })
}
fn nodes_arg(r: &mut Rng, g: G, depth: usize, root_ok: bool) -> Arg {
    let q = Arg::N(rel_q(r, g, depth + 1, root_ok));
    if g.custom && depth < 3 && r.chance(1, 8) {
        return Arg::F(Call { name: 13, args: vec![q] });
    }
    q
}
fn logical_arg(r: &mut Rng, g: G, depth: usize, root_ok: bool) -> Arg {
    let d = depth + 1;
    let mut cmp = |d| Lx::Cmp(value(r, g, d, root_ok), *r.pick(&OPS), value(r, g, d, root_ok));
    let a = cmp(d);
    if depth < 2 && r.chance(1, 4) {
        let b = logical(r, g, d, root_ok);
        return Arg::L(if r.chance(1, 2) { Lx::Or(Box::new(a), Box::new(b)) } else { Lx::And(Box::new(a), Box::new(b)) });
    }
    Arg::L(a)
}
fn call_logical(r: &mut Rng, g: G, depth: usize, root_ok: bool) -> Option<Call> {
    let mut c: Vec<usize> = vec![];
    if g.regex {
        c.extend([2, 2, 3, 3]);
    }
    if g.custom {
        c.extend([7, 7, 7, 7, 7, 8, 8, 12, 12, 13, 14]);
    }
    if c.is_empty() {
        return None;
    }
    let name = *r.pick(&c);
    let args = match name {
        2 | 3 => vec![
            Arg::V(if r.chance(3, 4) { Vx::Q(sing_q(r, root_ok)) } else { value(r, g, depth + 1, root_ok) }),
            Arg::V(if r.chance(4, 5) { Vx::Str(pattern(r)) } else { Vx::Q(sing_q(r, root_ok)) }),
        ],
        8 | 13 => vec![nodes_arg(r, g, depth, root_ok)],
        14 => vec![logical_arg(r, g, depth, root_ok), Arg::V(value(r, g, depth + 1, root_ok)), nodes_arg(r, g, depth, root_ok)],
        12 => vec![Arg::V(value(r, g, depth + 1, root_ok)), Arg::V(value(r, g, depth + 1, root_ok))],
        _ => vec![Arg::V(value(r, g, depth + 1, root_ok))],
    };
    Some(Call { name, args })
}
fn value(r: &mut Rng, g: G, depth: usize, root_ok: bool) -> Vx {
    match r.below(10) {
        0 => Vx::Int(r.below(4) as i64),
        1 => Vx::Str(r.pick(&WORDS).to_string()),
        2 => match r.below(4) {
            0 => Vx::Bool(true),
            1 => Vx::Bool(false),
            2 => Vx::Null,
            _ => Vx::Float(1.5),
        },
        3..=4 if depth < 3 => match call_value(r, g, depth, root_ok) {
            Some(c) => Vx::Call(c),
            None => Vx::Q(sing_q(r, root_ok)),
        },
        _ => Vx::Q(sing_q(r, root_ok)),
    }
}
const OPS: [&str; 6] = ["==", "!=", "<", ">", "<=", ">="];
pub fn logical(r: &mut Rng, g: G, depth: usize, root_ok: bool) -> Lx {
    match r.below(12) {
        0 if depth < 2 => Lx::Or(Box::new(logical(r, g, depth + 1, root_ok)), Box::new(logical(r, g, depth + 1, root_ok))),
        1 if depth < 2 => Lx::And(Box::new(logical(r, g, depth + 1, root_ok)), Box::new(logical(r, g, depth + 1, root_ok))),
        2 if depth < 2 => Lx::Not(Box::new(logical(r, g, depth + 1, root_ok))),
        3 => Lx::Test(rel_q(r, g, depth + 1, root_ok)),
        4..=6 => Lx::Cmp(value(r, g, depth, root_ok), *r.pick(&OPS), value(r, g, depth, root_ok)),
        _ => match call_logical(r, g, depth, root_ok) {
            Some(c) => Lx::Call(c),
            None => Lx::Cmp(value(r, g, depth, root_ok), *r.pick(&OPS), value(r, g, depth, root_ok)),
        },
    }
}
fn selector(r: &mut Rng, g: G, depth: usize) -> Sel {
    let f = if depth >= 2 { g.filt / 4 } else { g.filt };
    if r.chance(f, 10) {
        return Sel::Filter(logical(r, g, depth, depth == 0));
    }
    if g.sing && depth == 0 && r.chance(1, 5) {
        let mut q = sing_q(r, true);
        if q.segs.is_empty() {
            q.segs.push(Seg::Child(vec![Sel::Name(member(r))]));
        }
        return Sel::Sing(q);
    }
    match r.below(8) {
        0..=2 => Sel::Name(member(r)),
        3 => Sel::Idx(r.below(5) as i64 - 2),
        4 => {
            let step = [None, None, Some(1), Some(2), Some(-1)][r.below(5)];
            // slices that start inside the array only
            match step {
                Some(-1) => Sel::Slice(None, None, step),
                _ => Sel::Slice(
                    if r.chance(1, 2) { Some(0) } else { None },
                    if r.chance(1, 2) { Some(r.below(4) as i64) } else { None },
                    step,
                ),
            }
        }
        _ => Sel::Wild,
    }
}
fn seg(r: &mut Rng, g: G, depth: usize) -> Seg {
    let n = if r.chance(1, 6) { 2 } else { 1 };
    let v = (0..n).map(|_| selector(r, g, depth)).collect();
    if r.chance(1, if depth == 0 { 5 } else { 10 }) {
        Seg::Desc(v)
    } else {
        Seg::Child(v)
    }
}
pub fn query(r: &mut Rng, g: G) -> Q {
    let n = [1, 1, 2, 2, 3][r.below(5)];
    let mut segs: Vec<Seg> = (0..n).map(|_| seg(r, g, 0)).collect();
    if g.filt >= 5 && !has_filter(&segs) {
        let l = segs.len();
        segs[l - 1] = if r.chance(1, 4) {
            Seg::Desc(vec![Sel::Filter(logical(r, g, 0, true))])
        } else {
            Seg::Child(vec![Sel::Filter(logical(r, g, 0, true))])
        };
    }
    Q { root: true, segs }
}
fn has_filter(s: &[Seg]) -> bool {
    s.iter().any(|s| match s {
        Seg::Child(v) | Seg::Desc(v) => v.iter().any(|x| matches!(x, Sel::Filter(_))),
    })
}

// ------------------------------------------------------------------ patterns
pub const BAD_PATTERNS: [&str; 8] = ["(", "a)", "[", "a{2,1}", "*", "(ab", "[b", "+"];
pub fn pattern(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return r.pick(&BAD_PATTERNS).to_string();
    }
    pat(r, 0)
}
fn atom(r: &mut Rng, d: usize) -> String {
    match r.below(10) {
        0..=4 => r.pick(&["a", "b", "c", "x"]).to_string(),
        5 => ".".into(),
        6 => "[ab]".into(),
        7 => "[^a]".into(),
        8 if d < 2 => format!("({})", pat(r, d + 1)),
        _ => "ab".into(),
    }
}
fn pat(r: &mut Rng, d: usize) -> String {
    let alts = if r.chance(1, 5) { 2 } else { 1 };
    (0..alts)
        .map(|_| {
            (0..r.range(1, 3))
                .map(|_| {
                    let a = atom(r, d);
                    if a.chars().count() > 1 && !a.starts_with('(') && !a.starts_with('[') {
                        return a;
                    }
                    format!("{}{}", a, r.pick(&["", "", "", "*", "+", "?"]))
                })
                .collect::<String>()
        })
        .collect::<Vec<_>>()
        .join("|")
}

// ------------------------------------------------------------------ documents
pub fn value_doc(r: &mut Rng, d: usize, size: &mut i32) -> serde_json::Value {
    use serde_json::{json, Value};
    *size -= 1;
    if d >= 4 || *size <= 0 || r.chance(d, 6) {
        return match r.below(9) {
            0 => json!(null),
            1 => json!(true),
            2 => json!(false),
            3 => json!(1.5),
            4..=5 => json!(r.below(4)),
            _ => json!(*r.pick(&WORDS)),
        };
    }
    let n = r.range(0, 4);
    if r.chance(1, 2) {
        Value::Array((0..n).map(|_| value_doc(r, d + 1, size)).collect())
    } else {
        let mut m = serde_json::Map::new();
        for _ in 0..n {
            m.insert(member(r), value_doc(r, d + 1, size));
        }
        Value::Object(m)
    }
}
pub fn document(r: &mut Rng) -> Doc {
    let mut v;
    loop {
        let mut size = [6, 12, 24, 40][r.below(4)];
        v = value_doc(r, 0, &mut size);
        let ok = match &v {
            serde_json::Value::Array(a) => a.len() >= 2,
            serde_json::Value::Object(o) => o.len() >= 2,
            _ => false,
        };
        if ok {
            break;
        }
    }
    Doc::Text(v.to_string())
}
/// an array of records with strings and patterns
pub fn records(r: &mut Rng, n: usize) -> Doc {
    use serde_json::json;
    let v: Vec<_> = (0..n)
        .map(|_| {
            let mut o = serde_json::Map::new();
            o.insert("s".into(), json!(*r.pick(&WORDS)));
            if r.chance(1, 2) {
                o.insert("p".into(), json!(pattern(r)));
            }
            if r.chance(1, 2) {
                o.insert("a".into(), json!(r.below(3)));
            }
            serde_json::Value::Object(o)
        })
        .collect();
    Doc::Text(serde_json::Value::Array(v).to_string())
}
/// same shape (and so the same heap layout), other leaf values
pub fn variant(r: &mut Rng, d: &Doc) -> Doc {
    fn go(r: &mut Rng, v: &mut serde_json::Value) {
        use serde_json::{json, Value};
        match v {
            Value::Array(a) => a.iter_mut().for_each(|x| go(r, x)),
            Value::Object(o) => o.values_mut().for_each(|x| go(r, x)),
            Value::String(s) => {
                if r.chance(1, 2) {
                    let n = s.chars().count();
                    *s = (0..n).map(|_| *r.pick(&['a', 'b', 'c'])).collect();
                }
            }
            Value::Number(_) => *v = json!(r.below(5)),
            Value::Bool(b) => *b = r.chance(1, 2),
            Value::Null => {}
        }
    }
    match d {
        Doc::Text(t) => {
            let mut v = serde_json::from_str(t).unwrap();
            go(r, &mut v);
            Doc::Text(v.to_string())
        }
        x => x.clone(),
    }
}

// ------------------------------------------------------------------ pools
#[derive(Clone)]
pub struct Ex {
    pub text: String,
    pub q: Option<Q>,
    pub custom: bool,
    pub sing: bool,
    pub seq: bool,
}
pub struct Pool {
    pub docs: Vec<Doc>,
    /// with custom functions
    pub cust: Vec<Ex>,
    /// standard functions only
    pub std: Vec<Ex>,
    /// regex-heavy, standard only
    pub rex: Vec<Ex>,
    /// singular-query selectors
    pub sing: Vec<Ex>,
    pub bad: Vec<Ex>,
    /// every spelling; half of them with custom functions
    pub rich: Vec<Ex>,
    /// one of every error
    pub err: Vec<Ex>,
    pub long: Vec<Ex>,
    /// documents with many elements or members
    pub wide: Vec<Doc>,
}
pub fn is_custom(t: &str) -> bool {
    (0..NF).any(|k| t.contains(&["f", &k.to_string(), "("].concat()))
}
fn uses_seq(t: &str) -> bool {
    t.contains("f6(")
}
impl Pool {
    pub fn new(seed: u64) -> Pool {
        let mut r = Rng::new(seed);
        let r = &mut r;
        let mut docs: Vec<Doc> = vec![];
        for _ in 0..3 {
            docs.push(document(r));
        }
        for _ in 0..2 {
            let n = r.range(2, 6);
            docs.push(records(r, n));
        }
        let v = variant(r, &docs[0]);
        docs.push(v);
        let v = variant(r, &docs[3]);
        docs.push(v);
        let mk = |r: &mut Rng, n: usize, g: G| -> Vec<Ex> {
            (0..n)
                .map(|_| {
                    let q = query(r, g);
                    let text = q.to_string();
                    let seq = uses_seq(&text);
                    Ex { text, q: Some(q), custom: g.custom, sing: g.sing, seq }
                })
                .collect()
        };
        let base = G { std: true, custom: false, regex: true, sing: false, filt: 4, seq: false };
        let cust = mk(r, 24, G { custom: true, filt: 8, seq: true, ..base });
        let std = mk(r, 14, base);
        let rex = mk(r, 10, G { std: false, filt: 9, ..base });
        let sing = mk(r, 8, G { sing: true, ..base });
        let mut bad = vec![];
        for i in 0..12 {
            let src = if i % 2 == 0 { &std[i].text } else { &cust[i].text };
            bad.push(Ex { text: corrupt(r, src), q: None, custom: true, sing: false, seq: false });
        }
        let ex = |text: String| Ex { custom: is_custom(&text), sing: false, seq: uses_seq(&text), q: None, text };
        let rich = (0..24).map(|i| ex(crate::texts::valid(r, i % 2 == 0))).collect();
        let err = (0..24).map(|_| ex(crate::texts::error(r))).collect();
        let long = (0..6).map(|_| ex(crate::texts::long(r))).collect();
        let wide = (0..4).map(|_| crate::texts::wide(r)).collect();
        Pool { docs, cust, std, rex, sing, bad, rich, err, long, wide }
    }
    /// a text for parsers: of any kind
    pub fn text(&self, r: &mut Rng) -> &Ex {
        match r.below(8) {
            0 => r.pick(&self.bad),
            1..=3 => r.pick(&self.err),
            4 => r.pick(&self.long),
            _ => r.pick(&self.rich),
        }
    }
    /// a document for this query: large ones for queries which do not multiply the work
    pub fn doc_for(&self, r: &mut Rng, text: &str) -> &Doc {
        let cheap = text.matches('?').count() <= 1 && text.matches("..").count() <= 1 && text.split('?').nth(1).map(|x| !x.contains("..") && !x.contains('$')).unwrap_or(true);
        if cheap && r.chance(1, 8) {
            return r.pick(&self.wide);
        }
        self.doc(r)
    }
    pub fn doc(&self, r: &mut Rng) -> &Doc {
        &self.docs[r.below(self.docs.len())]
    }
}
pub const BAD_TEXTS: [&str; 16] = [
    "", "$.", "$[", "$[?", "$..", "$[?@.a", "$['a", "$[?nosuch(@)]", "$[?match(@.a)]", "$[1:2:3:4]", "$a", "$[?@.a == ]",
    "$[01]", "$[?length(@.*) > 1]", "$[9007199254740992]", "$[?count(@.a) && true]",
];
pub fn corrupt(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 3) {
        return r.pick(&BAD_TEXTS).to_string();
    }
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        if c.is_empty() {
            break;
        }
        let i = r.below(c.len());
        match r.below(3) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *r.pick(&['[', ']', '.', '?', '\'', '(', ')', ' ', '*', '@', '$', '9', 'q', ',', '\u{e9}', '&', '='])),
            _ => c[i] = *r.pick(&['[', ']', '.', '?', '\'', '(', ')', ' ', '*', '@', '$', '9', 'q']),
        }
    }
    c.into_iter().collect()
}

// ------------------------------------------------------------------ schedules and memory
/// Several executions share one world and workload and differ in schedule, heap and clocks only
/// (set by the driver before a world is generated)
pub static SALT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn salted(r: &mut Rng) -> Rng {
    Rng::new(hash2(r.next(), SALT.load(std::sync::atomic::Ordering::Relaxed)))
}
/// program points reached by a fixed warm-up workload (set by the driver)
pub static mut LIVE: Vec<u32> = Vec::new();
/// program points inside of critical sections
pub static mut CRIT: Vec<u32> = Vec::new();
pub fn sched(r: &mut Rng) -> SchedSpec {
    let strat = [1u8, 1, 1, 2, 2, 3, 3, 4, 5, 5, 7, 7, 0, 8, 8, 9, 9, 9, 10, 10][r.below(20)];
    let logu = |r: &mut Rng, lo: f64, hi: f64| -> u64 {
        let u = (r.next() >> 11) as f64 / (1u64 << 53) as f64;
        (lo.ln() + u * (hi.ln() - lo.ln())).exp() as u64
    };
    let mut s = SchedSpec { seed: r.next(), strat, lifo: r.chance(1, 2), budget: 40_000_000, ..Default::default() };
    s.spurious = if r.chance(1, 3) { 3 } else { 0 };
    match strat {
        1 => s.mean = logu(r, 2.0, 20_000.0),
        2 => {
            s.depth = r.range(1, 6) as u32;
            s.est = logu(r, 500.0, 300_000.0);
        }
        3 => {
            // a few of the program points which ordinary operations pass
            let live = unsafe { &*std::ptr::addr_of!(LIVE) };
            let n = live.len().max(1);
            let k = [n / 16, n / 64, n / 512, 12][r.below(4)].max(1);
            let seed = r.next();
            s.hot = (0..k).filter_map(|i| live.get((hash2(seed, i as u64) % n as u64) as usize).copied()).collect();
            s.hot.sort();
            s.hot.dedup();
            s.mean = r.range(1, 6) as u64;
        }
        8 => {
            let crit = unsafe { &*std::ptr::addr_of!(CRIT) };
            let live = unsafe { &*std::ptr::addr_of!(LIVE) };
            let from = if crit.is_empty() { live } else { crit };
            let n = from.len().max(1);
            let k = [n, n / 4, n / 16, 4, 1][r.below(5)].clamp(1, 400);
            let seed = r.next();
            s.hot = (0..k).filter_map(|i| from.get((hash2(seed, i as u64) % n as u64) as usize).copied()).collect();
            s.hot.sort();
            s.hot.dedup();
            s.mean = [1, 2, 4, 16][r.below(4)];
            s.depth = [2, 8, 32, 128][r.below(4)];
        }
        7 => {
            s.depth = r.range(1, 5) as u32;
            // at a subset of the program points only
            s.mean = [1, 1, 4, 16, 64][r.below(5)];
            s.est = logu(r, 3.0, 10_000.0 / s.mean as f64);
        }
        9 => s.mean = [1, 2, 3, 5, 10, 30][r.below(6)],
        10 => {
            s.depth = r.range(1, 4) as u32;
            s.est = logu(r, 3.0, 2_000.0);
        }
        4 => s.mean = logu(r, 1.0, 60.0),
        5 => s.mean = logu(r, 1.0, 30.0),
        _ => {}
    }
    s
}
pub fn mem(r: &mut Rng) -> MemSpec {
    MemSpec {
        reuse: [0, 0, 1, 2][r.below(4)],
        skew: r.below(4096) as u64,
        entropy: r.next(),
        clock_base: if r.chance(1, 3) { r.next() >> 2 } else { 1_000_000_000 },
        clock_jumps: r.chance(1, 3) as u8,
        scatter: if r.chance(1, 4) { r.next() | 1 } else { 0 },
    }
}

// ------------------------------------------------------------------ spec builder
/// the standard functions, replaced by recording ones of the same signatures
pub const OVER: [FnKind; 5] = [FnKind::Cnt, FnKind::Tag, FnKind::Same, FnKind::Same, FnKind::Cnt];
pub fn overridden(e: &EnvSpec) -> bool {
    e.funcs.iter().any(|f| f.0 < 5)
}
pub struct B {
    pub s: Spec,
    /// environments replace the standard functions
    pub over: bool,
}
impl B {
    pub fn new(prop: &str, r: &mut Rng) -> B {
        let over = matches!(prop, "C01" | "C03" | "C04" | "C05" | "C06" | "C08" | "C13" | "C17") && r.chance(1, 4);
        B {
            over,
            s: Spec {
                prop: prop.to_string(),
                names: NAMES.iter().map(|s| s.to_string()).collect(),
                docs: vec![],
                exprs: vec![],
                envs: vec![],
                parsers: vec![],
                queries: vec![],
                tasks: vec![],
                sched: sched(&mut salted(r)),
                mem: mem(&mut salted(r)),
                measure_stack: false,
                tag: String::new(),
                par: vec![],
            },
        }
    }
    pub fn doc(&mut self, d: &Doc) -> u16 {
        if let Some(i) = self.s.docs.iter().position(|x| x == d) {
            return i as u16;
        }
        self.s.docs.push(d.clone());
        self.s.docs.len() as u16 - 1
    }
    pub fn expr(&mut self, t: &str) -> u16 {
        if let Some(i) = self.s.exprs.iter().position(|x| x == t) {
            return i as u16;
        }
        self.s.exprs.push(t.to_string());
        self.s.exprs.len() as u16 - 1
    }
    fn funcs(&self, tag: u32) -> Vec<(u16, FnSpec)> {
        let mut v: Vec<_> = (0..NF).map(|k| (5 + k as u16, FnSpec { kind: KINDS[k], tag })).collect();
        if self.over {
            v.extend((0..5).map(|k| (k as u16, FnSpec { kind: OVER[k], tag })));
        }
        v
    }
    /// environment with all custom functions (tag distinguishes environments)
    pub fn env(&mut self, e: E, tag: u32) -> u16 {
        let spec = EnvSpec { e, funcs: self.funcs(tag), removed: vec![] };
        if let Some(i) = self.s.envs.iter().position(|x| *x == spec) {
            return i as u16;
        }
        self.s.envs.push(spec);
        self.s.envs.len() as u16 - 1
    }
    pub fn new_env(&mut self, e: E, tag: u32) -> u16 {
        let funcs = self.funcs(tag);
        self.s.envs.push(EnvSpec { e, funcs, removed: vec![] });
        self.s.envs.len() as u16 - 1
    }
    pub fn parser(&mut self, e: E) -> u16 {
        if let Some(i) = self.s.parsers.iter().position(|x| x.e == e) {
            return i as u16;
        }
        self.new_parser(e)
    }
    pub fn new_parser(&mut self, e: E) -> u16 {
        self.s.parsers.push(ParserSpec {
            e,
            funcs: (0..NF).map(|k| (5 + k as u16, KINDS[k])).collect(),
            removed: vec![],
            range: None,
        });
        self.s.parsers.len() as u16 - 1
    }
    pub fn new_parser_if_few(&mut self, e: E) -> u16 {
        if self.s.parsers.len() < 6 {
            return self.new_parser(e);
        }
        self.parser(e)
    }
    /// a compiled query (compiled before the tasks start)
    pub fn query(&mut self, e: E, ex: &Ex) -> u16 {
        let expr = self.expr(&ex.text);
        let parser = if ex.custom { Some(self.parser(e)) } else { None };
        let q = QuerySpec { e, parser, expr, setup: true };
        if let Some(i) = self.s.queries.iter().position(|x| *x == q) {
            return i as u16;
        }
        self.s.queries.push(q);
        self.s.queries.len() as u16 - 1
    }
    /// `Environment::find` knows the standard functions only: texts which call custom functions
    /// go through a parser instance (now and then through the environment all the same)
    pub fn env_how(&mut self, e: E, text: &str) -> How {
        let x = self.expr(text);
        self.env_x(e, x)
    }
    pub fn env_x(&mut self, e: E, x: u16) -> How {
        let t = &self.s.exprs[x as usize];
        if is_custom(t) && crate::rng::hash_str(t) % 16 != 0 {
            let p = self.parser(e);
            return How::Parser(p, x);
        }
        How::Env(x)
    }
    pub fn own_query(&mut self, e: E, parser: Option<u16>, expr: u16) -> u16 {
        self.s.queries.push(QuerySpec { e, parser, expr, setup: false });
        self.s.queries.len() as u16 - 1
    }
    pub fn task(&mut self, ops: Vec<OpSpec>) -> usize {
        self.s.tasks.push(TaskSpec { ops, after: 0, stack: 2 << 20 });
        self.s.tasks.len() - 1
    }
}
