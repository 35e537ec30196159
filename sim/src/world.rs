//! Executes a `Spec` inside the simulator (in a forked child) and records what happened.
#![allow(static_mut_refs)]
use crate::engines::*;
use crate::lists;
use crate::rng::{hash2, hash_bytes, hash_str, Rng};
use crate::rt;
use crate::spec::*;
use serde_json::{json, Value};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const DEFENV: u16 = u16::MAX;

pub enum ArgV {
    Bool(bool),
    Int(i64),
    Float(f64),
    Null,
    Str(String),
    Ref(*const Value),
    Nodes(Vec<(String, *const Value)>),
    Nothing,
}
pub enum RetV {
    Bool(bool),
    Int(i64),
    Str(String),
    Null,
    Nothing,
    Arg(usize),
}

pub struct AddrMap(Vec<(usize, u32)>);
impl AddrMap {
    pub fn build(v: &Value) -> AddrMap {
        let mut out = Vec::new();
        let mut stack: Vec<&Value> = vec![v];
        let mut n = 0;
        while let Some(x) = stack.pop() {
            out.push((x as *const Value as usize, n));
            n += 1;
            match x {
                Value::Array(a) => stack.extend(a.iter().rev()),
                Value::Object(o) => stack.extend(o.values().rev()),
                _ => {}
            }
        }
        out.sort();
        AddrMap(out)
    }
    fn id(&self, p: *const Value) -> Option<u32> {
        self.0.binary_search_by_key(&(p as usize), |e| e.0).ok().map(|i| self.0[i].1)
    }
}
pub struct DocInst {
    val: *mut Value,
    map: AddrMap,
    hash: u64,
}
impl DocInst {
    fn build(d: &Doc) -> DocInst {
        let mut v = Box::new(build_doc(d));
        let seed = spec().mem.scatter;
        if seed != 0 && !spec().measure_stack && !matches!(d, Doc::Deep(..)) {
            let old = std::mem::take(&mut *v);
            *v = scattered(&mut Rng::new(seed), &old);
        }
        let map = AddrMap::build(&v);
        let hash = doc_hash(&v);
        DocInst { val: Box::into_raw(v), map, hash }
    }
    fn get(&self) -> &'static Value {
        unsafe { &*self.val }
    }
}
impl Drop for DocInst {
    fn drop(&mut self) {
        // iterative, so that deep documents do not need a deep stack here
        let _m = rt::Mode::harness();
        let mut todo = vec![unsafe { *Box::from_raw(self.val) }];
        while let Some(mut v) = todo.pop() {
            match &mut v {
                Value::Array(a) => todo.append(a),
                Value::Object(o) => {
                    let m = std::mem::take(o);
                    todo.extend(m.into_iter().map(|(_, v)| v));
                }
                _ => {}
            }
        }
    }
}
fn doc_hash(v: &Value) -> u64 {
    let mut h = 7u64;
    let mut stack: Vec<(&str, &Value)> = vec![("", v)];
    while let Some((k, x)) = stack.pop() {
        h = hash2(h, hash_str(k));
        match x {
            Value::Array(a) => {
                h = hash2(h, a.len() as u64 + 1000);
                stack.extend(a.iter().map(|v| ("", v)))
            }
            Value::Object(o) => {
                h = hash2(h, o.len() as u64 + 2000);
                stack.extend(o.iter().map(|(k, v)| (k.as_str(), v)))
            }
            Value::String(s) => h = hash2(h, hash_str(s)),
            Value::Null => h = hash2(h, 3),
            Value::Bool(b) => h = hash2(h, 4 + *b as u64),
            Value::Number(n) => h = hash2(h, hash_str(&n.to_string())),
        }
    }
    h
}
/// an equal value whose parts were allocated in a random order
fn scattered(r: &mut Rng, v: &Value) -> Value {
    fn order(r: &mut Rng, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        r.shuffle(&mut v);
        v
    }
    match v {
        Value::Array(a) => {
            let first = r.chance(1, 2);
            let mut out = Vec::with_capacity(if first { a.len() } else { 0 });
            let mut parts: Vec<(usize, Value)> = order(r, a.len()).into_iter().map(|i| (i, scattered(r, &a[i]))).collect();
            parts.sort_by_key(|p| p.0);
            out.extend(parts.into_iter().map(|p| p.1));
            Value::Array(out)
        }
        Value::Object(o) => {
            let l: Vec<(&String, &Value)> = o.iter().collect();
            let mut parts: Vec<(usize, String, Value)> = order(r, l.len()).into_iter().map(|i| (i, l[i].0.clone(), scattered(r, l[i].1))).collect();
            parts.sort_by_key(|p| p.0);
            Value::Object(parts.into_iter().map(|p| (p.1, p.2)).collect())
        }
        x => x.clone(),
    }
}
pub fn build_doc(d: &Doc) -> Value {
    fn item(i: u32, shape: u8) -> Value {
        match shape {
            0 => json!({"a": i % 7, "s": format!("s{}", i % 5), "b": i % 2 == 0}),
            1 => json!(i % 100),
            2 => json!(format!("s{}", i % 13)),
            3 => json!([i % 3, "x"]),
            _ => json!({"a": {"b": i % 4}}),
        }
    }
    match d {
        Doc::Text(t) => serde_json::from_str(t).expect("generated document"),
        Doc::WideArray(n, s) => Value::Array((0..*n).map(|i| item(i, *s)).collect()),
        Doc::WideObject(n, s) => {
            Value::Object((0..*n).map(|i| (format!("k{:06}", i), item(i, *s))).collect())
        }
        Doc::Deep(n, s) => {
            let mut v = json!({"a": 1, "s": "ab"});
            for i in 0..*n {
                v = if *s == 0 || (*s == 2 && i % 2 == 0) { json!([v]) } else { json!({"a": v}) };
            }
            v
        }
    }
}

struct OpCtx {
    map: *const AddrMap,
    calls: Vec<String>,
    callh: u64,
    ncalls: u32,
    plan: *const [(u32, Act)],
    nest: Vec<u32>,
    opi: u16,
    seq: Vec<(u32, u32)>,
    bad: Vec<String>,
    live: bool,
    brief: bool,
}
struct Held {
    e: E,
    nodes: P,
    snap: Vec<(String, usize, u64)>,
}
struct ItSlot {
    it: P,
    doc: usize,
    fresh: Option<DocInst>,
    done: bool,
    /// dropped after the iterator
    _env: Option<EGuard>,
}
#[derive(Default)]
struct TaskState {
    held: Vec<Option<Held>>,
    iters: Vec<Option<ItSlot>>,
    lists: Option<lists::Lists>,
    ctx: Vec<OpCtx>,
}
pub struct World {
    spec: *const Spec,
    docs: Vec<Option<DocInst>>,
    envs: Vec<Option<(E, P)>>,
    parsers: Vec<Option<(E, P)>>,
    queries: Vec<Option<(E, P)>>,
    qerr: Vec<Option<String>>,
    ts: Vec<TaskState>,
    res: Vec<OpRes>,
    bad: Vec<String>,
}
static mut W: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *W }
}
fn spec() -> &'static Spec {
    unsafe { &*w().spec }
}

// ------------------------------------------------------------------ custom functions
fn show(v: *const Value, m: &AddrMap, bad: &mut Vec<String>) -> String {
    match m.id(v) {
        Some(i) => format!("#{}", i),
        None => {
            bad.push("a custom function received a value that is not part of the queried document".into());
            "#?".into()
        }
    }
}
fn show_arg(a: &ArgV, m: &AddrMap, bad: &mut Vec<String>) -> String {
    match a {
        ArgV::Bool(b) => b.to_string(),
        ArgV::Int(i) => i.to_string(),
        ArgV::Float(f) => format!("{:?}f", f),
        ArgV::Null => "null".into(),
        ArgV::Str(s) => format!("{:?}", s),
        ArgV::Ref(v) => show(*v, m, bad),
        ArgV::Nodes(n) => {
            let v: Vec<String> = n.iter().map(|(p, v)| format!("{}={}", p, show(*v, m, bad))).collect();
            format!("[{}]", v.join(","))
        }
        ArgV::Nothing => "nothing".into(),
    }
}
/// Called by every registered custom function, in harness mode.
pub fn on_call(f: FnSpec, args: Vec<ArgV>) -> RetV {
    let t = rt::cur();
    if t == rt::NONE || !rt::on_task_stack() {
        w().bad.push("a custom function was called on a thread that drives no evaluation".into());
        return RetV::Nothing;
    }
    let ts = &mut w().ts[t];
    let depth = ts.ctx.len();
    if depth == 0 || !ts.ctx[depth - 1].live {
        w().bad.push(format!("a custom function was called outside of any evaluation (task {})", t));
        return RetV::Nothing;
    }
    let c = &mut ts.ctx[depth - 1];
    let k = c.ncalls;
    c.ncalls += 1;
    let m = unsafe { &*c.map };
    let mut bad = Vec::new();
    let shown: Vec<String> = args.iter().map(|a| show_arg(a, m, &mut bad)).collect();
    c.bad.append(&mut bad);
    let (sig, _) = f.kind.sig();
    // (where functions are replaced, queries compiled earlier may call with another signature)
    let fixed = spec().prop != "C10" && spec().prop != "ref";
    if fixed && sig.len() != args.len() {
        c.bad.push(format!("a custom function of {} parameters received {} arguments", sig.len(), args.len()));
    }
    for (i, a) in args.iter().enumerate() {
        let isn = matches!(a, ArgV::Nodes(_));
        match sig.get(i) {
            Some(2) if fixed && isn => c.bad.push("a value parameter received a node list".into()),
            Some(1) if fixed && !isn => c.bad.push("a node list parameter received something else".into()),
            _ => {}
        }
    }
    let line = format!("{:?}{}({})", f.kind, f.tag, shown.join(", "));
    c.callh = hash2(c.callh, hash_str(&line));
    if c.calls.len() < 400 && !c.brief {
        c.calls.push(line);
    }
    let plan = unsafe { &*c.plan };
    let nest = c.nest.clone();
    let opi = c.opi;
    let mut seqn = 0;
    if f.kind == FnKind::Seq {
        let key = f.tag;
        match c.seq.iter_mut().find(|s| s.0 == key) {
            Some(s) => {
                s.1 += 1;
                seqn = s.1;
            }
            None => c.seq.push((key, 0)),
        }
    }
    rt::yield_point(1);
    for (i, act) in plan {
        if *i != k {
            continue;
        }
        match act {
            Act::Panic => {
                // the payload reaches the caller of the evaluation as it is, whatever it is
                match (k + f.tag as u32) % 5 {
                    0 => std::panic::resume_unwind(Box::new(PanicPair(f.tag as u32, k))),
                    1 => std::panic::resume_unwind(Box::new("sim-panic, nothing else")),
                    2 => std::panic::resume_unwind(Box::new(PanicText(format!("{:?}{} at call {}", f.kind, f.tag, k)))),
                    _ => {
                        let s = format!("sim-panic in {:?}{} at call {}", f.kind, f.tag, k);
                        std::panic::resume_unwind(Box::new(s));
                    }
                }
            }
            Act::Stall(n) => rt::stall(*n),
            Act::Yield => rt::yield_point(2),
            Act::Nothing => {}
            Act::Nest(op) => {
                let mut n2 = nest.clone();
                n2.push(k);
                run_op(t, opi, n2, op);
            }
        }
    }
    rt::yield_point(3);
    let plain = |a: &ArgV, s: &String| match a {
        ArgV::Str(x) => x.clone(),
        _ => s.clone(),
    };
    match f.kind {
        FnKind::Ident => match args.first() {
            Some(ArgV::Nodes(_)) | None => RetV::Nothing,
            Some(_) => RetV::Arg(0),
        },
        FnKind::Tag => RetV::Str(format!("{}:{}", f.tag, args.first().map(|a| plain(a, &shown[0])).unwrap_or_default())),
        FnKind::Pass => RetV::Bool(match args.first() {
            Some(ArgV::Bool(b)) => *b,
            Some(ArgV::Int(i)) => *i != 0,
            Some(ArgV::Float(x)) => *x != 0.0,
            Some(ArgV::Str(s)) => !s.is_empty(),
            Some(ArgV::Ref(_)) => true,
            _ => false,
        }),
        FnKind::NonEmpty => RetV::Bool(matches!(args.first(), Some(ArgV::Nodes(n)) if !n.is_empty())),
        FnKind::Cnt => RetV::Int(match args.first() {
            Some(ArgV::Nodes(n)) => n.len() as i64 + f.tag as i64,
            _ => -1,
        }),
        FnKind::Cat => {
            let mut s = String::new();
            for (a, x) in args.iter().zip(&shown) {
                s += &plain(a, x);
            }
            RetV::Str(s)
        }
        FnKind::Seq => RetV::Int(seqn as i64),
        FnKind::Same => RetV::Bool(shown.len() == 2 && shown[0] == shown[1]),
        FnKind::Nodes => match args.first() {
            Some(_) => RetV::Arg(0),
            None => RetV::Nothing,
        },
        FnKind::Odd => {
            let a = matches!(args.first(), Some(ArgV::Bool(true)));
            let b = matches!(args.get(1), Some(ArgV::Bool(true)));
            let c = matches!(args.get(2), Some(ArgV::Nodes(n)) if !n.is_empty());
            RetV::Bool(a ^ b ^ c)
        }
        FnKind::Konst => RetV::Int(f.tag as i64),
        FnKind::Flag => RetV::Int(matches!(args.first(), Some(ArgV::Bool(true))) as i64),
        FnKind::Five => {
            let mut s = String::new();
            for (a, x) in args.iter().zip(&shown) {
                s += &plain(a, x);
            }
            RetV::Str(s)
        }
    }
}

// ------------------------------------------------------------------ owned library objects
struct QGuard(E, P);
impl Drop for QGuard {
    fn drop(&mut self) {
        let _m = rt::Mode::lib();
        par(self.0).query_drop(self.1)
    }
}
struct NGuard(E, P);
impl Drop for NGuard {
    fn drop(&mut self) {
        if self.1 != NIL {
            let _m = rt::Mode::lib();
            eng(self.0).nodes_drop(self.1)
        }
    }
}
struct EGuard(E, P);
impl Drop for EGuard {
    fn drop(&mut self) {
        let _m = rt::Mode::lib();
        eng(self.0).env_drop(self.1)
    }
}

pub struct SimWriter {
    n: u32,
    plan: WPlan,
    pub text: String,
    failed: bool,
    pub bad: Vec<String>,
    t: usize,
    opi: u16,
    nest: Vec<u32>,
}
impl fmt::Write for SimWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _m = rt::Mode::harness();
        rt::yield_point(4);
        if self.failed {
            self.bad.push("a write was attempted after the sink had refused one".into());
            return Err(fmt::Error);
        }
        let k = self.n;
        self.n += 1;
        match self.plan.clone() {
            WPlan::Fail(i) if i == k => {
                self.failed = true;
                return Err(fmt::Error);
            }
            WPlan::Panic(i) if i == k => {
                self.failed = true;
                std::panic::resume_unwind(Box::new(format!("sim-writer-panic {}", k)));
            }
            WPlan::Stall(i) if i == k => rt::stall(u64::MAX),
            WPlan::Nest(i, op) if i == k => {
                let mut n2 = self.nest.clone();
                n2.push(k);
                run_op(self.t, self.opi, n2, &op);
            }
            WPlan::Short(b) => {
                if self.text.len() + s.len() > b as usize {
                    self.failed = true;
                    let mut cut = b as usize - self.text.len();
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    self.text.push_str(&s[..cut]);
                    return Err(fmt::Error);
                }
            }
            _ => {}
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// payloads that are no texts
struct PanicPair(u32, u32);
struct PanicText(String);

fn pstr(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(PanicPair(a, b)) = p.downcast_ref::<PanicPair>() {
        format!("sim-panic pair {} {}", a, b)
    } else if let Some(PanicText(s)) = p.downcast_ref::<PanicText>() {
        format!("sim-panic text {}", s)
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else {
        "<other payload>".into()
    }
}

struct Outcome {
    k: &'static str,
    text: String,
    n: i64,
    x: Vec<i64>,
}
fn done() -> Outcome {
    Outcome { k: "done", text: String::new(), n: 0, x: vec![] }
}

fn fmt_nodes(e: E, n: P, map: &AddrMap, brief: bool, bad: &mut Vec<String>) -> (i64, String) {
    let g = eng(e);
    let len = rt::lib(|| g.len(n));
    let mut s = String::new();
    let mut h = 1u64;
    for i in 0..len {
        let (p, v) = rt::lib(|| g.node(n, i));
        let id = match map.id(v) {
            Some(x) => x.to_string(),
            None => {
                if bad.len() < 3 {
                    bad.push(format!("a result node ({}) does not refer to a value of the queried document", p));
                }
                "?".into()
            }
        };
        if brief {
            h = hash2(hash2(h, hash_str(&p)), hash_str(&id));
        } else {
            s.push_str(&p);
            s.push('=');
            s.push_str(&id);
            s.push('\n');
        }
    }
    if brief {
        s = format!("{} nodes, hash {:016x}", len, h);
    }
    (len as i64, s)
}

fn env_of(e: E, env: u16) -> (P, Option<EGuard>) {
    if env == DEFENV {
        if let Some(p) = rt::lib(|| eng(e).env_default()) {
            return (p, None);
        }
        let p = rt::lib(|| eng(e).env_new());
        return (p, Some(EGuard(e, p)));
    }
    let (_, p) = w().envs[env as usize].expect("environment");
    (p, None)
}
fn find(e: E, how: &How, env: u16, doc: &'static Value, loopy: bool, fresh: bool) -> Result<P, String> {
    let g = eng(e);
    // a private copy of the query text lives only during the call
    let own;
    let text = |x: &u16| -> &'static str { spec().exprs[*x as usize].as_str() };
    let mut ex: &str = match how {
        How::Top(x) | How::Env(x) | How::Std(x) | How::Parser(_, x) => text(x),
        How::Query(_) => "",
    };
    if fresh {
        own = String::from(ex);
        ex = &own;
    }
    match how {
        How::Top(_) => rt::lib(|| g.top(ex, doc, loopy)),
        How::Env(_) => {
            let (p, _g) = env_of(e, env);
            rt::lib(|| g.env_find(p, ex, doc, loopy))
        }
        How::Query(q) => {
            let (p, _g) = env_of(e, env);
            match &w().queries[*q as usize] {
                Some((_, q)) => rt::lib(|| g.eval(*q, p, doc, loopy)),
                None => Err(w().qerr[*q as usize].clone().unwrap_or("no query".into())),
            }
        }
        How::Parser(..) | How::Std(_) => {
            let pp = match how {
                How::Parser(i, _) => Some(w().parsers[*i as usize].expect("parser").1),
                _ => None,
            };
            let q = QGuard(e, rt::lib(|| g.parse(pp, ex))?);
            let (p, _g) = env_of(e, env);
            rt::lib(|| g.eval(q.1, p, doc, loopy))
        }
    }
}

fn parse_outcome(e: E, r: Result<P, String>) -> Outcome {
    match r {
        Err(s) => Outcome { k: "err", text: s, n: 0, x: vec![] },
        Ok(q) => {
            let q = QGuard(e, q);
            let d = rt::lib(|| par(e).debug(q.1));
            let mut s = String::new();
            rt::lib(|| par(e).render(q.1, 0, &mut s)).expect("rendering to a string");
            let fl = rt::lib(|| par(e).flags(q.1));
            Outcome { k: "ok", text: format!("{} {:?} {}", s, fl, d), n: 0, x: vec![] }
        }
    }
}

fn slot<T>(v: &mut Vec<Option<T>>, i: u8) -> &mut Option<T> {
    while v.len() <= i as usize {
        v.push(None);
    }
    &mut v[i as usize]
}

fn do_op(t: usize, opi: u16, nest: &Vec<u32>, o: &OpSpec, bad: &mut Vec<String>) -> Outcome {
    let sp = spec();
    match &o.op {
        Op::Find { e, how, env, doc, loopy } => {
            let own;
            let d: &DocInst = if o.fresh {
                own = DocInst::build(&sp.docs[*doc as usize]);
                &own
            } else {
                w().docs[*doc as usize].as_ref().expect("document")
            };
            set_map(t, &d.map, true);
            let r = find(*e, how, *env, d.get(), *loopy, o.fresh);
            set_live(t, false);
            match r {
                Err(s) => Outcome { k: "err", text: s, n: 0, x: vec![] },
                Ok(n) => {
                    let n = NGuard(*e, n);
                    let (c, s) = fmt_nodes(*e, n.1, &d.map, o.brief, bad);
                    Outcome { k: "ok", text: s, n: c, x: vec![] }
                }
            }
        }
        Op::Hold { e, how, env, doc, loopy, slot: sl } => {
            let d = w().docs[*doc as usize].as_ref().expect("document");
            set_map(t, &d.map, true);
            let r = find(*e, how, *env, d.get(), *loopy, false);
            set_live(t, false);
            match r {
                Err(s) => Outcome { k: "err", text: s, n: 0, x: vec![] },
                Ok(n) => {
                    let mut n = NGuard(*e, n);
                    let (c, s) = fmt_nodes(*e, n.1, &d.map, o.brief, bad);
                    let mut snap = Vec::new();
                    for i in 0..c as usize {
                        let (p, v) = rt::lib(|| eng(*e).node(n.1, i));
                        snap.push((p.as_str().to_owned(), v as *const Value as usize, shallow(v)));
                    }
                    let nodes = n.1;
                    n.1 = NIL;
                    drop_held(t, *sl, 0, bad);
                    *slot(&mut w().ts[t].held, *sl) = Some(Held { e: *e, nodes, snap });
                    Outcome { k: "ok", text: s, n: c, x: vec![] }
                }
            }
        }
        Op::CheckHeld { slot: sl } => {
            if let Some(h) = slot(&mut w().ts[t].held, *sl) {
                check_held(h, bad);
            }
            done()
        }
        Op::ExtendHeld { slot: sl, i, k } => {
            if let Some(h) = slot(&mut w().ts[t].held, *sl) {
                if !h.snap.is_empty() {
                    let i = *i as usize % h.snap.len();
                    let kids = rt::lib(|| eng(h.e).extend(h.nodes, i, *k as usize));
                    for (j, c) in kids.iter().enumerate() {
                        let want = match h.e {
                            E::Serde => h.snap[i].0.clone(),
                            _ if j % 2 == 0 => format!("{}[{}]", h.snap[i].0, j),
                            _ => format!("{}['k{}']", h.snap[i].0, j),
                        };
                        if *c != want {
                            bad.push(format!("child node of a held node has path {} instead of {}", c, want));
                        }
                    }
                    check_held(h, bad);
                }
            }
            done()
        }
        Op::DropHeld { slot: sl, mode } => {
            drop_held(t, *sl, *mode, bad);
            done()
        }
        Op::Open { how, env, doc, slot: sl } => {
            close_iter(t, *sl);
            let guard;
            let mut fresh = None;
            if o.fresh {
                fresh = Some(DocInst::build(&sp.docs[*doc as usize]));
            }
            let d: &DocInst = match &fresh {
                Some(d) => d,
                None => w().docs[*doc as usize].as_ref().expect("document"),
            };
            set_map(t, &d.map, true);
            let ex = |x: &u16| sp.exprs[*x as usize].as_str();
            let r: Result<P, String> = match how {
                How::Top(x) => {
                    guard = None;
                    rt::lib(|| iter_top(ex(x), d.get()))
                }
                How::Env(x) => {
                    let (p, g) = env_of(E::Iter, *env);
                    guard = g;
                    rt::lib(|| iter_env(p, ex(x), d.get()))
                }
                How::Query(q) => {
                    let (p, g) = env_of(E::Iter, *env);
                    guard = g;
                    match &w().queries[*q as usize] {
                        Some((_, q)) => Ok(rt::lib(|| iter_query(*q, p, d.get()))),
                        None => Err("no query".into()),
                    }
                }
                How::Parser(..) | How::Std(_) => {
                    let (pp, x) = match how {
                        How::Parser(i, x) => (Some(w().parsers[*i as usize].expect("parser").1), x),
                        How::Std(x) => (None, x),
                        _ => unreachable!(),
                    };
                    let (p, g) = env_of(E::Iter, *env);
                    guard = g;
                    rt::lib(|| par(E::Iter).parse(pp, ex(x))).map(|q| {
                        let q = QGuard(E::Iter, q);
                        rt::lib(|| iter_query(q.1, p, d.get()))
                    })
                }
            };
            set_live(t, false);
            match r {
                Err(s) => Outcome { k: "err", text: s, n: 0, x: vec![] },
                Ok(it) => {
                    *slot(&mut w().ts[t].iters, *sl) =
                        Some(ItSlot { it, doc: *doc as usize, fresh, done: false, _env: guard });
                    Outcome { k: "ok", text: String::new(), n: 0, x: vec![] }
                }
            }
        }
        Op::Pull { slot: sl, n, mode } => {
            let Some(it) = slot(&mut w().ts[t].iters, *sl).as_mut() else {
                return done();
            };
            let it: &mut ItSlot = unsafe { &mut *(it as *mut ItSlot) };
            let map: &AddrMap = match &it.fresh {
                Some(d) => &d.map,
                None => &w().docs[it.doc].as_ref().expect("document").map,
            };
            set_map(t, map, true);
            let mut s = String::new();
            let mut cnt = 0;
            let mut nones = 0;
            let mut marks = vec![];
            let was_done = it.done;
            let item = |p: String, v: &'static serde_json::Value, s: &mut String, marks: &mut Vec<i64>, bad: &mut Vec<String>| {
                if was_done {
                    bad.push("an exhausted iterator yielded an item".into());
                }
                let id = map.id(v).map(|x| x.to_string()).unwrap_or_else(|| {
                    bad.push("an iterator yielded a node outside of the queried document".into());
                    "?".into()
                });
                s.push_str(&p);
                s.push('=');
                s.push_str(&id);
                s.push('\n');
                marks.push(w().ts[t].ctx.last().unwrap().ncalls as i64);
            };
            let i = it.it;
            let n = *n as usize;
            if matches!(mode, 4 | 5) {
                // (these take the iterator by value)
                it.it = NIL;
            }
            match mode {
                _ if i == NIL => {}
                0 => {
                    for _ in 0..n {
                        set_live(t, true);
                        let r = rt::lib(|| iter_next(i));
                        set_live(t, false);
                        match r {
                            Some((p, v)) => {
                                if it.done {
                                    bad.push("an exhausted iterator yielded an item".into());
                                }
                                item(p, v, &mut s, &mut marks, bad);
                                cnt += 1;
                            }
                            None => {
                                it.done = true;
                                nones += 1;
                                if nones > 3 {
                                    break;
                                }
                            }
                        }
                        rt::yield_point(5);
                    }
                }
                1 | 3 => {
                    set_live(t, true);
                    let bad2: &mut Vec<String> = &mut *bad;
                    let mut f = |p: String, v: &'static serde_json::Value| {
                        item(p, v, &mut s, &mut marks, bad2);
                        cnt += 1;
                        rt::yield_point(5);
                    };
                    rt::lib(|| if *mode == 1 { iter_take(i, n, &mut f) } else { iter_try(i, n, &mut f) });
                    set_live(t, false);
                    it.done |= (cnt as usize) < n;
                }
                2 => {
                    set_live(t, true);
                    let r = rt::lib(|| iter_nth(i, n.max(1) - 1));
                    set_live(t, false);
                    match r {
                        Some((p, v)) => {
                            item(p, v, &mut s, &mut marks, bad);
                            // (the items passed over)
                            let m = marks.pop().unwrap_or(0);
                            marks.extend(std::iter::repeat(0).take(n.max(1) - 1));
                            marks.push(m);
                            cnt = n.max(1) as i64;
                        }
                        None => {
                            it.done = true;
                        }
                    }
                }
                4 => {
                    set_live(t, true);
                    let r = rt::lib(|| iter_last(i));
                    set_live(t, false);
                    if let Some((p, v)) = r {
                        item(p, v, &mut s, &mut marks, bad);
                        marks.clear();
                    }
                    it.done = true;
                }
                _ => {
                    set_live(t, true);
                    cnt = rt::lib(|| iter_count(i)) as i64;
                    set_live(t, false);
                    s = format!("{} items\n", cnt);
                    it.done = true;
                }
            }
            let mut x = vec![it.done as i64];
            x.extend(marks);
            Outcome { k: "ok", text: s, n: cnt, x }
        }
        Op::Close { slot: sl } => {
            close_iter(t, *sl);
            done()
        }
        Op::Parse { e, parser, expr } => {
            let own;
            let mut ex = sp.exprs[*expr as usize].as_str();
            if o.fresh {
                own = String::from(ex);
                ex = &own;
            }
            let pp = parser.map(|i| w().parsers[i as usize].expect("parser").1);
            let r = rt::lib(|| par(*e).parse(pp, ex));
            parse_outcome(*e, r)
        }
        Op::Tokens { expr } => {
            let (a, b) = tokens(&sp.exprs[*expr as usize]);
            Outcome { k: "ok", text: format!("{} || {}", a, b), n: 0, x: vec![] }
        }
        Op::Render { e, how, part, w: wp } => {
            let own: Option<QGuard>;
            let q: P = match how {
                How::Query(q) => match &w().queries[*q as usize] {
                    Some((_, q)) => *q,
                    None => return Outcome { k: "err", text: "no query".into(), n: 0, x: vec![] },
                },
                How::Top(x) | How::Std(x) | How::Env(x) | How::Parser(_, x) => {
                    let pp = match how {
                        How::Parser(i, _) => Some(w().parsers[*i as usize].expect("parser").1),
                        _ => None,
                    };
                    match rt::lib(|| par(*e).parse(pp, &sp.exprs[*x as usize])) {
                        Ok(q) => {
                            own = Some(QGuard(*e, q));
                            own.as_ref().unwrap().1
                        }
                        Err(s) => return Outcome { k: "err", text: s, n: 0, x: vec![] },
                    }
                }
            };
            let mut wr = SimWriter {
                n: 0,
                plan: wp.clone(),
                text: String::new(),
                failed: false,
                bad: vec![],
                t,
                opi,
                nest: nest.clone(),
            };
            let r = catch_unwind(AssertUnwindSafe(|| rt::lib(|| par(*e).render(q, *part as usize, &mut wr))));
            bad.append(&mut wr.bad);
            let (k, pay): (&'static str, String) = match r {
                Ok(Ok(())) => ("ok", String::new()),
                Ok(Err(_)) => ("refused", String::new()),
                Err(p) => ("panic", pstr(p)),
            };
            Outcome { k, text: format!("{}{}", wr.text, if pay.is_empty() { String::new() } else { format!("\u{1}{}", pay) }), n: wr.n as i64, x: vec![wr.failed as i64] }
        }
        Op::RegEnv { e, env, name, f } => {
            let (p, _g) = env_of(*e, *env);
            rt::lib(|| eng(*e).env_set(p, &sp.names[*name as usize], *f));
            done()
        }
        Op::RegParser { e, parser, name, f } => {
            let p = w().parsers[*parser as usize].expect("parser").1;
            rt::lib(|| par(*e).parser_set(p, &sp.names[*name as usize], f.map(|f| f.kind)));
            done()
        }
        Op::Range { e, parser, lo, hi } => {
            let p = w().parsers[*parser as usize].expect("parser").1;
            rt::lib(|| par(*e).parser_range(p, *lo, *hi));
            done()
        }
        Op::Compile { e, q, parser, expr } => {
            let pp = parser.map(|i| w().parsers[i as usize].expect("parser").1);
            match rt::lib(|| par(*e).parse(pp, &sp.exprs[*expr as usize])) {
                Ok(p) => {
                    release(*q);
                    w().queries[*q as usize] = Some((*e, p));
                    done()
                }
                Err(s) => Outcome { k: "err", text: s, n: 0, x: vec![] },
            }
        }
        Op::Release { q } => {
            release(*q);
            done()
        }
        Op::DropEnv { env } => {
            if let Some((e, p)) = w().envs[*env as usize].take() {
                rt::lib(|| eng(e).env_drop(p));
            }
            done()
        }
        Op::DropParser { parser } => {
            if let Some((e, p)) = w().parsers[*parser as usize].take() {
                rt::lib(|| par(e).parser_drop(p));
            }
            done()
        }
        Op::List { e, ops } => {
            let ls = w().ts[t].lists.get_or_insert_with(|| lists::Lists::new());
            lists::run(*e, ls, ops, bad);
            done()
        }
        Op::Measure => {
            let l = rt::live_lib();
            Outcome { k: "done", text: String::new(), n: 0, x: vec![l.bytes, l.blocks] }
        }
        Op::Pause => {
            rt::yield_point(6);
            done()
        }
        Op::Stall(n) => {
            rt::stall(*n);
            done()
        }
        Op::Rebuild { doc } => {
            w().docs[*doc as usize] = None;
            w().docs[*doc as usize] = Some(DocInst::build(&sp.docs[*doc as usize]));
            done()
        }
    }
}
fn shallow(v: &Value) -> u64 {
    match v {
        Value::Array(a) => 100 + a.len() as u64,
        Value::Object(o) => 1_000_000 + o.len() as u64,
        Value::String(s) => hash_str(s),
        Value::Number(n) => hash_str(&n.to_string()),
        Value::Bool(b) => *b as u64,
        Value::Null => 2,
    }
}
fn check_held(h: &Held, bad: &mut Vec<String>) {
    let n = rt::lib(|| eng(h.e).len(h.nodes));
    if n != h.snap.len() {
        bad.push(format!("a held result changed its length from {} to {}", h.snap.len(), n));
        return;
    }
    for i in 0..n {
        let (p, v) = rt::lib(|| eng(h.e).node(h.nodes, i));
        let s = &h.snap[i];
        if p != s.0 {
            bad.push(format!("a held node changed its path from {} to {}", s.0, p));
            return;
        }
        if v as *const Value as usize != s.1 {
            bad.push(format!("a held node ({}) changed its value", s.0));
            return;
        }
        if shallow(v) != s.2 {
            bad.push(format!("the value of a held node ({}) was modified", s.0));
            return;
        }
    }
}
fn drop_held(t: usize, sl: u8, mode: u8, bad: &mut Vec<String>) {
    let Some(mut h) = slot(&mut w().ts[t].held, sl).take() else {
        return;
    };
    let mut left = h.snap.len();
    if left <= 200 && mode > 0 {
        let keep = if mode == 3 { left / 2 } else { 0 };
        while left > keep {
            let i = match mode {
                1 => 0,
                2 => left - 1,
                3 => (left * 7 + 3) % left.max(1),
                _ => left / 2,
            };
            rt::lib(|| eng(h.e).node_remove(h.nodes, i));
            h.snap.remove(i);
            left -= 1;
            check_held(&h, bad);
        }
    }
    rt::lib(|| eng(h.e).nodes_drop(h.nodes));
}
fn close_iter(t: usize, sl: u8) {
    if let Some(it) = slot(&mut w().ts[t].iters, sl).take() {
        let ItSlot { it, fresh, _env, .. } = it;
        if it != NIL {
            rt::lib(|| iter_drop(it));
        }
        drop(_env);
        drop(fresh);
    }
}
fn release(q: u16) {
    if let Some((e, p)) = w().queries[q as usize].take() {
        rt::lib(|| par(e).query_drop(p));
    }
}
fn set_map(t: usize, m: *const AddrMap, live: bool) {
    let c = w().ts[t].ctx.last_mut().unwrap();
    c.map = m;
    c.live = live;
}
fn set_live(t: usize, live: bool) {
    w().ts[t].ctx.last_mut().unwrap().live = live;
}

fn run_op(t: usize, opi: u16, nest: Vec<u32>, o: &OpSpec) {
    let top = nest.is_empty();
    if top {
        rt::set_op(t, opi as u32);
        rt::set_oom(&o.oom);
    }
    w().ts[t].ctx.push(OpCtx {
        map: std::ptr::null(),
        calls: vec![],
        callh: 0,
        ncalls: 0,
        plan: o.plan.as_slice() as *const _,
        nest: nest.clone(),
        opi,
        seq: vec![],
        bad: vec![],
        live: false,
        brief: o.brief,
    });
    let mut bad = Vec::new();
    let depth = w().ts[t].ctx.len();
    let (ev0, al0, _) = rt::op_counters();
    let (sl0, wa0) = rt::waits();
    let mut r = None;
    let mut body = || r = Some(catch_unwind(AssertUnwindSafe(|| do_op(t, opi, &nest, o, &mut bad))));
    if !o.worker || !rt::on_worker(&mut body) {
        body();
    }
    let r = r.unwrap();
    let (ev1, al1, oomf) = rt::op_counters();
    let (sl1, wa1) = rt::waits();
    if top {
        rt::set_oom(&[]);
    }
    let out = match r {
        Ok(o) => o,
        Err(p) => Outcome { k: "panic", text: pstr(p), n: 0, x: vec![] },
    };
    w().ts[t].ctx.truncate(depth);
    let mut c = w().ts[t].ctx.pop().unwrap();
    bad.append(&mut c.bad);
    let mut text = out.text;
    let hash = hash_bytes(text.as_bytes());
    let limit = if matches!(o.op, Op::Render { .. }) { 60_000 } else { 3000 };
    if text.len() > limit {
        let mut n = limit;
        while !text.is_char_boundary(n) {
            n -= 1;
        }
        // (what follows the rendering is kept)
        let rest = text.split_once('\u{1}').map(|(_, p)| format!("\u{1}{}", p)).unwrap_or_default();
        text.truncate(n);
        if !text.contains('\u{1}') {
            text.push_str(&rest);
        }
    }
    bad.truncate(4);
    w().res.push(OpRes {
        t: t as u8 - 1,
        i: opi,
        nest,
        k: out.k.to_string(),
        // library-owned capacity must not outlive the operation
        text: text.as_str().to_owned(),
        hash,
        calls: c.calls,
        callh: c.callh,
        ncalls: c.ncalls,
        events: ev1 - ev0,
        slept: sl1 - sl0,
        waited: wa1 - wa0,
        allocs: al1 - al0,
        oomf,
        n: out.n,
        x: out.x,
        bad,
    });
    drop(text);
}

fn task_main(t: usize) {
    if t == 0 {
        setup();
        return;
    }
    let sp = spec();
    for (i, o) in sp.tasks[t - 1].ops.iter().enumerate() {
        run_op(t, i as u16, vec![], o);
        rt::yield_point(7);
    }
    // release what the task still holds
    for s in 0..w().ts[t].iters.len() {
        close_iter(t, s as u8);
    }
    let mut bad = Vec::new();
    for s in 0..w().ts[t].held.len() {
        drop_held(t, s as u8, 0, &mut bad);
    }
    if let Some(l) = w().ts[t].lists.take() {
        l.finish();
    }
}

fn setup() {
    let sp = spec();
    let ww = w();
    for d in &sp.docs {
        ww.docs.push(Some(DocInst::build(d)));
    }
    for e in &sp.envs {
        let p = rt::lib(|| eng(e.e).env_new());
        for r in &e.removed {
            rt::lib(|| eng(e.e).env_set(p, &sp.names[*r as usize], None));
        }
        for (n, f) in &e.funcs {
            rt::lib(|| eng(e.e).env_set(p, &sp.names[*n as usize], Some(*f)));
        }
        ww.envs.push(Some((e.e, p)));
    }
    for q in &sp.parsers {
        let p = rt::lib(|| par(q.e).parser_new());
        for r in &q.removed {
            rt::lib(|| par(q.e).parser_set(p, &sp.names[*r as usize], None));
        }
        for (n, k) in &q.funcs {
            rt::lib(|| par(q.e).parser_set(p, &sp.names[*n as usize], Some(*k)));
        }
        if let Some((lo, hi)) = q.range {
            rt::lib(|| par(q.e).parser_range(p, lo, hi));
        }
        ww.parsers.push(Some((q.e, p)));
    }
    for q in &sp.queries {
        let mut slot = None;
        let mut err = None;
        if q.setup {
            let pp = q.parser.map(|i| ww.parsers[i as usize].unwrap().1);
            let r = catch_unwind(AssertUnwindSafe(|| rt::lib(|| par(q.e).parse(pp, &sp.exprs[q.expr as usize]))));
            match r {
                Ok(Ok(p)) => slot = Some((q.e, p)),
                Ok(Err(s)) => err = Some(s),
                Err(p) => err = Some(pstr(p)),
            }
        }
        ww.queries.push(slot);
        ww.qerr.push(err);
    }
}

fn oom_hook(_: std::alloc::Layout) {
    // unwinding instead of aborting: what an allocation-error hook of an embedding process does
    std::panic::resume_unwind(Box::new(String::from("sim-oom")));
}

/// In the forked child: run the spec, leave the results in the shared region, never return.
pub fn child(sp: &Spec) -> ! {
    unsafe {
        std::panic::set_hook(Box::new(|_| {}));
        std::alloc::set_alloc_error_hook(oom_hook);
        let mut wd = World {
            spec: sp,
            docs: vec![],
            envs: vec![],
            parsers: vec![],
            queries: vec![],
            qerr: vec![],
            ts: vec![],
            res: vec![],
            bad: vec![],
        };
        for _ in 0..=sp.tasks.len() {
            wd.ts.push(TaskState::default());
        }
        W = &mut wd;
        let mut cfg = vec![rt::TaskCfg { after: 0, stack: 4 << 20 }];
        for t in &sp.tasks {
            cfg.push(rt::TaskCfg { after: 1 | (t.after << 1), stack: t.stack });
        }
        rt::run(&cfg, &sp.sched, &sp.mem, task_main);
        // back on the process's own thread
        for (i, d) in wd.docs.iter().enumerate() {
            if let Some(d) = d {
                if doc_hash(d.get()) != d.hash {
                    wd.bad.push(format!("document {} was modified", i));
                }
            }
        }
        let mut stack = vec![];
        if sp.measure_stack {
            for i in 0..=sp.tasks.len() {
                stack.push(rt::stack_used(i) as i64);
            }
        }
        let l = rt::live_lib();
        let out = RunOut {
            ops: std::mem::take(&mut wd.res),
            stack,
            bad: std::mem::take(&mut wd.bad),
            live_end: (l.bytes, l.blocks),
        };
        let sh = &mut *rt::SH;
        let mut cur = std::io::Cursor::new(&mut sh.out[..]);
        if serde_json::to_writer(&mut cur, &out).is_ok() {
            sh.outlen = cur.position();
            rt::finish_ok();
        } else {
            sh.outlen = 0;
        }
        libc::_exit(0);
    }
}
