//! A small executable reference model: evaluation of the generated queries, with the custom
//! function calls they imply, and an independent matcher for the generated patterns.
use crate::gen::*;
use crate::spec::FnKind;
use serde_json::Value;
use std::collections::HashMap;

// ------------------------------------------------------------------ patterns
#[derive(Debug, Clone)]
enum R {
    Char(char),
    Any,
    Class(bool, Vec<(char, char)>),
    Seq(Vec<R>),
    Alt(Vec<R>),
    Rep(Box<R>, usize, usize),
}
struct RP<'a> {
    c: std::iter::Peekable<std::str::Chars<'a>>,
}
impl<'a> RP<'a> {
    fn alt(&mut self, top: bool) -> Option<R> {
        let mut v = vec![self.seq()?];
        while self.c.peek() == Some(&'|') {
            self.c.next();
            v.push(self.seq()?);
        }
        match self.c.peek() {
            None if top => {}
            Some(')') if !top => {
                self.c.next();
            }
            _ => return None,
        }
        Some(R::Alt(v))
    }
    fn seq(&mut self) -> Option<R> {
        let mut v = vec![];
        while let Some(c) = self.c.peek().copied() {
            let a = match c {
                '|' | ')' => break,
                '(' => {
                    self.c.next();
                    self.alt(false)?
                }
                '.' => {
                    self.c.next();
                    R::Any
                }
                '[' => {
                    self.c.next();
                    let mut neg = false;
                    if self.c.peek() == Some(&'^') {
                        neg = true;
                        self.c.next();
                    }
                    let mut m = vec![];
                    loop {
                        let x = self.c.next()?;
                        if x == ']' {
                            break;
                        }
                        if !x.is_alphanumeric() && x != '.' {
                            return None;
                        }
                        if self.c.peek() == Some(&'-') {
                            self.c.next();
                            let y = self.c.next()?;
                            if !y.is_alphanumeric() || y < x {
                                return None;
                            }
                            m.push((x, y));
                        } else {
                            m.push((x, x));
                        }
                    }
                    if m.is_empty() {
                        return None;
                    }
                    R::Class(neg, m)
                }
                '\\' => {
                    self.c.next();
                    let x = self.c.next()?;
                    if !matches!(x, '.' | '\\' | '*' | '+' | '?' | '(' | ')' | '[' | ']' | '{' | '}' | '|') {
                        return None;
                    }
                    R::Char(x)
                }
                c if c.is_alphanumeric() || c == '_' || c == ' ' || c == ':' => {
                    self.c.next();
                    R::Char(c)
                }
                _ => return None,
            };
            let r = match self.c.peek() {
                Some('*') => R::Rep(Box::new(a), 0, usize::MAX),
                Some('+') => R::Rep(Box::new(a), 1, usize::MAX),
                Some('?') => R::Rep(Box::new(a), 0, 1),
                Some('{') => return None,
                _ => {
                    v.push(a);
                    continue;
                }
            };
            self.c.next();
            if matches!(self.c.peek(), Some('*') | Some('+') | Some('?') | Some('{')) {
                return None;
            }
            v.push(r);
        }
        Some(R::Seq(v))
    }
}
fn parse_re(p: &str) -> Option<R> {
    RP { c: p.chars().peekable() }.alt(true)
}
/// all end positions of matches starting at `from`
fn ends(r: &R, s: &[char], from: &[bool]) -> Vec<bool> {
    let n = s.len();
    match r {
        R::Char(_) | R::Any | R::Class(..) => {
            let mut out = vec![false; n + 1];
            for i in 0..n {
                if from[i] {
                    let c = s[i];
                    out[i + 1] = match r {
                        R::Char(x) => *x == c,
                        R::Any => c != '\n' && c != '\r',
                        R::Class(neg, m) => m.iter().any(|(a, b)| *a <= c && c <= *b) != *neg,
                        _ => false,
                    };
                }
            }
            out
        }
        R::Seq(v) => v.iter().fold(from.to_vec(), |f, r| ends(r, s, &f)),
        R::Alt(v) => {
            let mut out = vec![false; n + 1];
            for r in v {
                for (o, x) in out.iter_mut().zip(ends(r, s, from)) {
                    *o |= x;
                }
            }
            out
        }
        R::Rep(r, lo, hi) => {
            let mut cur = from.to_vec();
            for _ in 0..*lo {
                cur = ends(r, s, &cur);
            }
            let mut out = cur.clone();
            let mut k = 0;
            while k < *hi && k <= n + 1 {
                cur = ends(r, s, &cur);
                for (o, x) in out.iter_mut().zip(&cur) {
                    *o |= *x;
                }
                k += 1;
            }
            out
        }
    }
}
/// None: the model does not know this pattern
pub fn re_match(p: &str, s: &str, full: bool) -> Option<bool> {
    if BAD_PATTERNS.contains(&p) || ["ab)", "[ab", "[a-C]*"].contains(&p) {
        return Some(false);
    }
    let r = parse_re(p)?;
    let c: Vec<char> = s.chars().collect();
    if c.iter().any(|c| *c == '\n' || *c == '\r') {
        return None;
    }
    let mut from = vec![!full; c.len() + 1];
    from[0] = true;
    let e = ends(&r, &c, &from);
    Some(if full { e[c.len()] } else { e.iter().any(|x| *x) })
}

// ------------------------------------------------------------------ evaluation
#[derive(Clone)]
pub struct N<'a> {
    pub path: String,
    pub v: &'a Value,
    /// number of custom function calls made when this node was produced
    pub at: usize,
}
#[derive(Clone)]
enum M<'a> {
    Bool(bool),
    Int(i64),
    Float(f64),
    Null,
    Str(String),
    Ref(&'a Value),
    Nodes(Vec<N<'a>>),
    Nothing,
}
pub struct Model<'a> {
    pub calls: Vec<String>,
    pub unknown: bool,
    ids: HashMap<usize, u32>,
    pub tag: u32,
    seq: u32,
    pub record: bool,
    /// the standard functions are replaced
    pub over: bool,
    _p: std::marker::PhantomData<&'a ()>,
}
fn from_value<'a>(v: &'a Value) -> M<'a> {
    match v {
        Value::Bool(b) => M::Bool(*b),
        Value::Null => M::Null,
        Value::Number(n) => match n.as_i64() {
            Some(i) => M::Int(i),
            None => M::Float(n.as_f64().unwrap_or(0.0)),
        },
        Value::String(s) => M::Str(s.clone()),
        _ => M::Ref(v),
    }
}
fn eq(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Nothing, M::Nothing) => true,
        (M::Nodes(n), M::Nothing) | (M::Nothing, M::Nodes(n)) => n.is_empty(),
        (M::Nodes(a), M::Nodes(b)) => a.is_empty() && b.is_empty(),
        (M::Int(a), M::Int(b)) => a == b,
        (M::Float(a), M::Float(b)) => a == b,
        (M::Int(a), M::Float(b)) | (M::Float(b), M::Int(a)) => *a as f64 == *b,
        (M::Null, M::Null) => true,
        (M::Bool(a), M::Bool(b)) => a == b,
        (M::Str(a), M::Str(b)) => a == b,
        (M::Ref(a), M::Ref(b)) => a == b,
        _ => false,
    }
}
fn lt(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Str(a), M::Str(b)) => a < b,
        (M::Int(a), M::Int(b)) => a < b,
        (M::Float(a), M::Float(b)) => a < b,
        (M::Int(a), M::Float(b)) => (*a as f64) < *b,
        (M::Float(a), M::Int(b)) => *a < *b as f64,
        _ => false,
    }
}
impl<'a> Model<'a> {
    pub fn new(root: &'a Value, tag: u32) -> Model<'a> {
        let mut ids = HashMap::new();
        let mut stack = vec![root];
        let mut n = 0;
        while let Some(x) = stack.pop() {
            ids.insert(x as *const Value as usize, n);
            n += 1;
            match x {
                Value::Array(a) => stack.extend(a.iter().rev()),
                Value::Object(o) => stack.extend(o.values().rev()),
                _ => {}
            }
        }
        Model { calls: vec![], unknown: false, ids, tag, seq: 0, record: true, over: false, _p: std::marker::PhantomData }
    }
    pub fn text(&self, nodes: &[N]) -> String {
        nodes.iter().map(|n| format!("{}={}\n", n.path, self.ids[&(n.v as *const Value as usize)])).collect()
    }
    pub fn find(&mut self, q: &Q, root: &'a Value, start: &'a Value) -> Vec<N<'a>> {
        let mut nodes = vec![N { path: "$".into(), v: start, at: self.calls.len() }];
        for s in &q.segs {
            let mut out = vec![];
            for n in &nodes {
                match s {
                    Seg::Child(v) => {
                        for sel in v {
                            self.select(sel, root, n, &mut out);
                        }
                    }
                    Seg::Desc(v) => {
                        let mut st = vec![n.clone()];
                        while let Some(x) = st.pop() {
                            for sel in v {
                                self.select(sel, root, &x, &mut out);
                            }
                            let mut kids = vec![];
                            self.select(&Sel::Wild, root, &x, &mut kids);
                            st.extend(kids.into_iter().rev());
                        }
                    }
                }
            }
            nodes = out;
        }
        nodes
    }
    fn select(&mut self, s: &Sel, root: &'a Value, n: &N<'a>, out: &mut Vec<N<'a>>) {
        let el = |i: usize, v: &'a Value, at: usize| N { path: format!("{}[{}]", n.path, i), v, at };
        let mb = |k: &str, v: &'a Value, at: usize| N { path: format!("{}['{}']", n.path, k), v, at };
        let at = self.calls.len();
        match (s, n.v) {
            (Sel::Name(k), Value::Object(o)) => {
                if let Some(v) = o.get(k) {
                    out.push(mb(k, v, at));
                }
            }
            (Sel::Idx(i), Value::Array(a)) => {
                let j = if *i < 0 { a.len() as i64 + i } else { *i };
                if j >= 0 && (j as usize) < a.len() {
                    out.push(el(j as usize, &a[j as usize], at));
                }
            }
            (Sel::Wild, Value::Array(a)) => out.extend(a.iter().enumerate().map(|(i, v)| el(i, v, at))),
            (Sel::Wild, Value::Object(o)) => out.extend(o.iter().map(|(k, v)| mb(k, v, at))),
            (Sel::Slice(lo, hi, st), Value::Array(a)) => {
                let len = a.len() as i64;
                let st = st.unwrap_or(1);
                let norm = |x: i64| if x < 0 { x + len } else { x };
                if st > 0 {
                    let mut i = norm(lo.unwrap_or(0)).clamp(0, len);
                    let h = norm(hi.unwrap_or(len)).clamp(0, len);
                    while i < h {
                        out.push(el(i as usize, &a[i as usize], at));
                        i += st;
                    }
                } else if st < 0 {
                    let mut i = norm(lo.unwrap_or(len - 1)).clamp(-1, len - 1);
                    let h = hi.map(|x| norm(x).clamp(-1, len - 1)).unwrap_or(-1);
                    while i > h {
                        out.push(el(i as usize, &a[i as usize], at));
                        i += st;
                    }
                }
            }
            (Sel::Filter(l), Value::Array(a)) => {
                for (i, v) in a.iter().enumerate() {
                    if self.logical(l, root, v) {
                        let at = self.calls.len();
                        out.push(el(i, v, at));
                    }
                }
            }
            (Sel::Filter(l), Value::Object(o)) => {
                for (k, v) in o.iter() {
                    if self.logical(l, root, v) {
                        let at = self.calls.len();
                        out.push(mb(k, v, at));
                    }
                }
            }
            (Sel::Sing(_), _) => self.unknown = true,
            _ => {}
        }
    }
    // both operands are always evaluated
    fn logical(&mut self, l: &Lx, root: &'a Value, cur: &'a Value) -> bool {
        match l {
            Lx::Or(a, b) => {
                let x = self.logical(a, root, cur);
                let y = self.logical(b, root, cur);
                x || y
            }
            Lx::And(a, b) => {
                let x = self.logical(a, root, cur);
                let y = self.logical(b, root, cur);
                x && y
            }
            Lx::Not(a) => !self.logical(a, root, cur),
            Lx::Test(q) => !self.sub(q, root, cur).is_empty(),
            Lx::Cmp(a, o, b) => {
                let a = self.value(a, root, cur);
                let b = self.value(b, root, cur);
                match *o {
                    "==" => eq(&a, &b),
                    "!=" => !eq(&a, &b),
                    "<" => lt(&a, &b),
                    ">" => lt(&b, &a),
                    "<=" => lt(&a, &b) || eq(&a, &b),
                    _ => lt(&b, &a) || eq(&a, &b),
                }
            }
            Lx::Call(c) => match self.call(c, root, cur) {
                M::Bool(b) => b,
                M::Nothing => false,
                M::Nodes(n) => !n.is_empty(),
                _ => true,
            },
        }
    }
    fn sub(&mut self, q: &Q, root: &'a Value, cur: &'a Value) -> Vec<N<'a>> {
        let start = if q.root { root } else { cur };
        self.find(q, start, start)
    }
    fn value(&mut self, v: &Vx, root: &'a Value, cur: &'a Value) -> M<'a> {
        match v {
            Vx::Int(i) => M::Int(*i),
            Vx::Float(x) => M::Float(*x),
            Vx::Str(s) => M::Str(s.clone()),
            Vx::Bool(b) => M::Bool(*b),
            Vx::Null => M::Null,
            Vx::Q(q) => {
                let n = self.sub(q, root, cur);
                match n.len() {
                    0 => M::Nothing,
                    1 => from_value(n[0].v),
                    _ => {
                        self.unknown = true;
                        M::Nothing
                    }
                }
            }
            Vx::Call(c) => match self.call(c, root, cur) {
                M::Nodes(_) => {
                    self.unknown = true;
                    M::Nothing
                }
                x => x,
            },
        }
    }
    fn show(&self, m: &M) -> String {
        let id = |v: &Value| self.ids.get(&(v as *const Value as usize)).map(|i| format!("#{}", i)).unwrap_or("#?".into());
        match m {
            M::Bool(b) => b.to_string(),
            M::Int(i) => i.to_string(),
            M::Float(f) => format!("{:?}f", f),
            M::Null => "null".into(),
            M::Str(s) => format!("{:?}", s),
            M::Ref(v) => id(v),
            M::Nodes(n) => format!("[{}]", n.iter().map(|n| format!("{}={}", n.path, id(n.v))).collect::<Vec<_>>().join(",")),
            M::Nothing => "nothing".into(),
        }
    }
    fn call(&mut self, c: &Call, root: &'a Value, cur: &'a Value) -> M<'a> {
        let args: Vec<M<'a>> = c
            .args
            .iter()
            .map(|a| match a {
                Arg::V(v) => self.value(v, root, cur),
                Arg::N(q) => M::Nodes(self.sub(q, root, cur)),
                Arg::F(c) => self.call(c, root, cur),
                Arg::L(l) => M::Bool(self.logical(l, root, cur)),
            })
            .collect();
        match c.name {
            n if n < 5 && self.over => self.custom(crate::gen::OVER[n], args),
            0 => match &args[0] {
                M::Nodes(n) => M::Int(n.len() as i64),
                _ => M::Nothing,
            },
            1 => match &args[0] {
                M::Str(s) => M::Int(s.chars().count() as i64),
                M::Ref(Value::Array(a)) => M::Int(a.len() as i64),
                M::Ref(Value::Object(o)) => M::Int(o.len() as i64),
                _ => M::Nothing,
            },
            4 => match &args[0] {
                M::Nodes(n) if n.len() == 1 => from_value(n[0].v),
                _ => M::Nothing,
            },
            2 | 3 => match (&args[0], &args[1]) {
                (M::Str(s), M::Str(p)) => match re_match(p, s, c.name == 2) {
                    Some(b) => M::Bool(b),
                    None => {
                        self.unknown = true;
                        M::Bool(false)
                    }
                },
                _ => M::Bool(false),
            },
            n => self.custom(KINDS[n - 5], args),
        }
    }
    fn custom(&mut self, kind: FnKind, args: Vec<M<'a>>) -> M<'a> {
                let shown: Vec<String> = args.iter().map(|a| self.show(a)).collect();
                self.calls.push(format!("{:?}{}({})", kind, self.tag, shown.join(", ")));
                let plain = |i: usize| match &args[i] {
                    M::Str(s) => s.clone(),
                    _ => shown[i].clone(),
                };
                match kind {
                    FnKind::Ident => args[0].clone(),
                    FnKind::Tag => M::Str(format!("{}:{}", self.tag, plain(0))),
                    FnKind::Pass => M::Bool(match &args[0] {
                        M::Bool(b) => *b,
                        M::Int(i) => *i != 0,
                        M::Float(x) => *x != 0.0,
                        M::Str(s) => !s.is_empty(),
                        M::Ref(_) => true,
                        _ => false,
                    }),
                    FnKind::NonEmpty => M::Bool(matches!(&args[0], M::Nodes(n) if !n.is_empty())),
                    FnKind::Cnt => match &args[0] {
                        M::Nodes(n) => M::Int(n.len() as i64 + self.tag as i64),
                        _ => M::Int(-1),
                    },
                    FnKind::Cat => M::Str(format!("{}{}", plain(0), plain(1))),
                    FnKind::Seq => {
                        self.seq += 1;
                        M::Int(self.seq as i64 - 1)
                    }
                    FnKind::Same => M::Bool(shown[0] == shown[1]),
                    FnKind::Nodes => args[0].clone(),
                    FnKind::Odd => {
                        let a = matches!(&args[0], M::Bool(true));
                        let b = matches!(&args[1], M::Bool(true));
                        let c = matches!(&args[2], M::Nodes(n) if !n.is_empty());
                        M::Bool(a ^ b ^ c)
                    }
                    FnKind::Konst => M::Int(self.tag as i64),
                    FnKind::Flag => M::Int(matches!(&args[0], M::Bool(true)) as i64),
                    FnKind::Five => M::Str((0..5).map(plain).collect::<Vec<_>>().concat()),
                }
    }
}
