//! Type-erased drivers for the seven crates under test (public API only).
use crate::rt;
use crate::spec::*;
use crate::world::{on_call, ArgV, RetV};
use serde_json::Value;
use std::fmt;

/// type-erased owned pointer to a library object
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct P(pub *mut u8);
pub const NIL: P = P(std::ptr::null_mut());
fn boxed<T>(t: T) -> P {
    P(Box::into_raw(Box::new(t)) as *mut u8)
}
unsafe fn rf<T>(p: P) -> &'static T {
    &*(p.0 as *const T)
}
unsafe fn mu<T>(p: P) -> &'static mut T {
    &mut *(p.0 as *mut T)
}
unsafe fn un<T>(p: P) -> T {
    *Box::from_raw(p.0 as *mut T)
}

pub trait Par: Sync {
    fn parser_new(&self) -> P;
    fn parser_set(&self, p: P, name: &str, f: Option<FnKind>);
    fn parser_range(&self, p: P, lo: i64, hi: i64);
    fn parser_drop(&self, p: P);
    fn parse(&self, p: Option<P>, expr: &str) -> Result<P, String>;
    fn render(&self, q: P, part: usize, w: &mut dyn fmt::Write) -> fmt::Result;
    fn debug(&self, q: P) -> String;
    fn flags(&self, q: P) -> (bool, bool);
    fn query_drop(&self, q: P);
}
pub trait Eng: Par {
    fn env_new(&self) -> P;
    fn env_default(&self) -> Option<P>;
    fn env_set(&self, env: P, name: &str, f: Option<FnSpec>);
    fn env_drop(&self, env: P);
    fn top(&self, expr: &str, doc: &'static Value, loopy: bool) -> Result<P, String>;
    fn env_find(&self, env: P, expr: &str, doc: &'static Value, loopy: bool) -> Result<P, String>;
    fn eval(&self, q: P, env: P, doc: &'static Value, loopy: bool) -> Result<P, String>;
    fn len(&self, n: P) -> usize;
    fn node(&self, n: P, i: usize) -> (String, &'static Value);
    fn nodes_drop(&self, n: P);
    fn node_remove(&self, n: P, i: usize);
    /// child paths made from node i (k of them), for engines with public constructors
    fn extend(&self, n: P, i: usize, k: usize) -> Vec<String>;
}

fn ret_value<'a>(_: &'a ()) {}

macro_rules! parser_common {
    ($krate:ident, $ptype:ty, $qtype:ty, $sigf:ident, $ety:path, $fsig:path) => {
        fn parser_new(&self) -> P {
            boxed(<$ptype>::new())
        }
        fn parser_set(&self, p: P, name: &str, f: Option<FnKind>) {
            use $ety as ET;
            use $fsig as FS;
            fn ty(k: u8) -> ET {
                match k {
                    0 => ET::Logical,
                    1 => ET::Nodes,
                    _ => ET::Value,
                }
            }
            let p: &mut $ptype = unsafe { mu(p) };
            match f {
                Some(k) => {
                    let (a, r) = k.sig();
                    p.$sigf.insert(
                        name.to_string(),
                        FS { param_types: a.iter().map(|x| ty(*x)).collect(), return_type: ty(r) },
                    );
                }
                None => {
                    p.$sigf.remove(name);
                }
            }
        }
        fn parser_range(&self, p: P, lo: i64, hi: i64) {
            let p: &mut $ptype = unsafe { mu(p) };
            p.index_range = lo..=hi;
        }
        fn parser_drop(&self, p: P) {
            drop(unsafe { un::<$ptype>(p) })
        }
        fn parse(&self, p: Option<P>, expr: &str) -> Result<P, String> {
            let r = match p {
                Some(p) => unsafe { rf::<$ptype>(p) }.parse(expr),
                None => <$qtype>::standard(expr),
            };
            match r {
                Ok(q) => Ok(boxed(q)),
                Err(e) => Err(rt::harness(|| format!("{} / {:?}", e, e))),
            }
        }
        fn debug(&self, q: P) -> String {
            format!("{:?}", unsafe { rf::<$qtype>(q) })
        }
        fn query_drop(&self, q: P) {
            drop(unsafe { un::<$qtype>(q) })
        }
    };
}
/// every part of a syntax tree which can be rendered on its own
macro_rules! walk {
    ($q:ty, $seg:path, $sel:path, $fe:path, |$query:ident| $segs:expr) => {
        #[allow(unreachable_patterns)]
        fn w_query<'a>($query: &'a $q, v: &mut Vec<&'a dyn fmt::Display>) {
            use $seg as SG;
            for s in $segs {
                v.push(s);
                match s {
                    SG::Child { selectors, .. } | SG::Recursive { selectors, .. } => {
                        selectors.iter().for_each(|s| w_sel(s, v))
                    }
                    _ => {}
                }
            }
        }
        fn w_sel<'a>(s: &'a $sel, v: &mut Vec<&'a dyn fmt::Display>) {
            use $sel as SL;
            v.push(s);
            if let SL::Filter { expression, .. } = s {
                w_fe(expression, v)
            }
        }
        fn w_fe<'a>(x: &'a $fe, v: &mut Vec<&'a dyn fmt::Display>) {
            use $fe as FE;
            v.push(x);
            match x {
                FE::Not { expression, .. } => w_fe(expression, v),
                FE::Logical { left, operator, right, .. } => {
                    w_fe(left, v);
                    v.push(operator);
                    w_fe(right, v);
                }
                FE::Comparison { left, operator, right, .. } => {
                    w_fe(left, v);
                    v.push(operator);
                    w_fe(right, v);
                }
                FE::RelativeQuery { query, .. } | FE::RootQuery { query, .. } => {
                    v.push(&**query);
                    w_query(query, v)
                }
                FE::Function { args, .. } => args.iter().for_each(|x| w_fe(x, v)),
                _ => {}
            }
        }
    };
    ($q:ty) => {
        fn w_query<'a>(q: &'a $q, v: &mut Vec<&'a dyn fmt::Display>) {
            q.segments.iter().for_each(|s| v.push(s));
        }
    };
}
fn render_part<'a>(q: &'a dyn fmt::Display, part: usize, w: &mut dyn fmt::Write, walk: impl FnOnce(&mut Vec<&'a dyn fmt::Display>)) -> fmt::Result {
    let mut x = q;
    if part > 0 {
        rt::harness(|| {
            let mut v = vec![];
            walk(&mut v);
            if !v.is_empty() {
                x = v[(part - 1) % v.len()];
            }
        });
    }
    fmt::write(w, format_args!("{}", x))
}
macro_rules! seg_parts {
    ($qtype:ty) => {
        fn render(&self, q: P, part: usize, w: &mut dyn fmt::Write) -> fmt::Result {
            let q = unsafe { rf::<$qtype>(q) };
            render_part(q, part, w, |v| w_query(q, v))
        }
        fn flags(&self, q: P) -> (bool, bool) {
            let q = unsafe { rf::<$qtype>(q) };
            (q.is_empty(), q.is_singular())
        }
    };
}

macro_rules! engine {
    ($unit:ident, $krate:ident, $fer:path, $qpath:path, $npath:expr,
     env_default: $envd:expr, top: $top:expr, env_find: $ef:expr, eval: $eval:expr,
     nodes: $nodes:ty, extend: $ext:expr, walk: $($walk:tt)*) => {
        pub mod $unit {
            use super::*;
            use $fer as FER;
            use $krate::env::Environment as Env;
            use $krate::function::{ExpressionType, FunctionExtension, FunctionSignature};
            use $qpath as Query;
            pub struct X;
            walk!($($walk)*);
            pub struct SimFn(pub FnSpec);
            impl FunctionExtension for SimFn {
                fn call<'a>(&self, mut args: Vec<FER<'a>>) -> FER<'a> {
                    let _m = rt::Mode::harness();
                    let r = {
                        let path = $npath;
                        let a: Vec<ArgV> = args
                            .iter()
                            .map(|x| match x {
                                FER::Bool(b) => ArgV::Bool(*b),
                                FER::Int(i) => ArgV::Int(*i),
                                FER::Float(f) => ArgV::Float(*f),
                                FER::Null => ArgV::Null,
                                FER::String(s) => ArgV::Str(s.clone()),
                                FER::Array(v) => ArgV::Ref(*v as *const Value),
                                FER::Object(v) => ArgV::Ref(*v as *const Value),
                                FER::Nodes(n) => ArgV::Nodes(
                                    n.iter().map(|n| (path(n), n.value as *const Value)).collect(),
                                ),
                                FER::Nothing => ArgV::Nothing,
                            })
                            .collect();
                        on_call(self.0, a)
                    };
                    rt::ret_lib(|| match r {
                        RetV::Bool(b) => FER::Bool(b),
                        RetV::Int(i) => FER::Int(i),
                        RetV::Str(s) => FER::String(s.as_str().to_owned()),
                        RetV::Null => FER::Null,
                        RetV::Nothing => FER::Nothing,
                        RetV::Arg(i) => args.swap_remove(i),
                    })
                }
                fn sig(&self) -> FunctionSignature {
                    fn ty(k: u8) -> ExpressionType {
                        match k {
                            0 => ExpressionType::Logical,
                            1 => ExpressionType::Nodes,
                            _ => ExpressionType::Value,
                        }
                    }
                    rt::ret_lib(|| {
                        let (a, r) = self.0.kind.sig();
                        FunctionSignature {
                            param_types: a.iter().map(|x| ty(*x)).collect(),
                            return_type: ty(r),
                        }
                    })
                }
            }
            impl Par for X {
                parser_common!($krate, $krate::JSONPathParser, Query, functions,
                    $krate::function::ExpressionType, $krate::function::FunctionSignature);
                seg_parts!(Query);
            }
            impl Eng for X {
                fn env_new(&self) -> P {
                    boxed(Env::new())
                }
                fn env_default(&self) -> Option<P> {
                    $envd
                }
                fn env_set(&self, env: P, name: &str, f: Option<FnSpec>) {
                    let env: &mut Env = unsafe { mu(env) };
                    match f {
                        Some(f) => {
                            env.function_register.insert(name.to_string(), Box::new(SimFn(f)));
                        }
                        None => {
                            env.function_register.remove(name);
                        }
                    }
                }
                fn env_drop(&self, env: P) {
                    drop(unsafe { un::<Env>(env) })
                }
                fn top(&self, expr: &str, doc: &'static Value, loopy: bool) -> Result<P, String> {
                    let f: fn(&str, &'static Value, bool) -> Result<$nodes, $krate::errors::JSONPathError> = $top;
                    wrap(f(expr, doc, loopy))
                }
                fn env_find(&self, env: P, expr: &str, doc: &'static Value, loopy: bool) -> Result<P, String> {
                    let f: fn(&'static Env, &str, &'static Value, bool) -> Result<$nodes, $krate::errors::JSONPathError> = $ef;
                    wrap(f(unsafe { rf::<Env>(env) }, expr, doc, loopy))
                }
                fn eval(&self, q: P, env: P, doc: &'static Value, loopy: bool) -> Result<P, String> {
                    let f: fn(&Query, &'static Env, &'static Value, bool) -> Result<$nodes, $krate::errors::JSONPathError> = $eval;
                    unsafe { wrap(f(rf::<Query>(q), rf::<Env>(env), doc, loopy)) }
                }
                fn len(&self, n: P) -> usize {
                    unsafe { rf::<$nodes>(n) }.len()
                }
                fn node(&self, n: P, i: usize) -> (String, &'static Value) {
                    let n = unsafe { rf::<$nodes>(n) };
                    let path = $npath;
                    (path(&n[i]), n[i].value)
                }
                fn nodes_drop(&self, n: P) {
                    drop(unsafe { un::<$nodes>(n) })
                }
                fn node_remove(&self, n: P, i: usize) {
                    let n: &mut $nodes = unsafe { mu(n) };
                    drop(n.remove(i));
                }
                fn extend(&self, n: P, i: usize, k: usize) -> Vec<String> {
                    let n = unsafe { rf::<$nodes>(n) };
                    let f = $ext;
                    f(&n[i], k)
                }
            }
            fn wrap(r: Result<$nodes, $krate::errors::JSONPathError>) -> Result<P, String> {
                match r {
                    Ok(n) => Ok(boxed(n)),
                    Err(e) => Err(rt::harness(|| format!("{} / {:?}", e, e))),
                }
            }
        }
    };
}

engine!(serde_e, jsonpath_rfc9535_serde, jsonpath_rfc9535_serde::ast::FilterExpressionResult,
    jsonpath_rfc9535_serde::Query, |n: &jsonpath_rfc9535_serde::ast::Node| n.location.clone(),
    env_default: None,
    top: |e, d, l| if l { jsonpath_rfc9535_serde::find_loop(e, d) } else { jsonpath_rfc9535_serde::find(e, d) },
    env_find: |v, e, d, l| if l { v.find_loop(e, d) } else { v.find(e, d) },
    eval: |q, v, d, l| if l { q.find_loop(d, v) } else { q.find(d, v) },
    nodes: Vec<jsonpath_rfc9535_serde::ast::Node<'static>>,
    extend: |n: &jsonpath_rfc9535_serde::ast::Node<'static>, k: usize| -> Vec<String> {
        (0..k).map(|_| n.clone().location).collect()
    },
    walk: jsonpath_rfc9535_serde::Query, jsonpath_rfc9535_serde::ast::Segment, jsonpath_rfc9535_serde::ast::Selector, jsonpath_rfc9535_serde::ast::FilterExpression, |q| &q.segments
);
engine!(iter_e, jsonpath_rfc9535_iter, jsonpath_rfc9535_iter::filter::FilterExpressionResult,
    jsonpath_rfc9535_iter::Query, |n: &std::rc::Rc<jsonpath_rfc9535_iter::node::Node>| n.location.clone(),
    env_default: None,
    top: |e, d, _l| jsonpath_rfc9535_iter::find(e, d).map(|i| i.collect()),
    env_find: |v, e, d, _l| v.find(e, d).map(|i| i.collect()),
    eval: |q, v, d, _l| Ok(jsonpath_rfc9535_iter::iter::QueryIter::new(v, d, q.clone()).collect()),
    nodes: Vec<std::rc::Rc<jsonpath_rfc9535_iter::node::Node<'static>>>,
    extend: |n: &std::rc::Rc<jsonpath_rfc9535_iter::node::Node<'static>>, k: usize| -> Vec<String> {
        let kids: Vec<_> = (0..k)
            .map(|j| if j % 2 == 0 { n.new_child_element(n.value, j) } else { n.new_child_member(n.value, &format!("k{}", j)) })
            .collect();
        kids.iter().map(|c| c.location.clone()).collect()
    },
    walk: jsonpath_rfc9535_iter::Query, jsonpath_rfc9535_iter::segment::Segment, jsonpath_rfc9535_iter::selector::Selector, jsonpath_rfc9535_iter::filter::FilterExpression, |q| &q.segments
);
engine!(loc_e, jsonpath_rfc9535_locations, jsonpath_rfc9535_locations::filter::FilterExpressionResult,
    jsonpath_rfc9535_locations::Query, |n: &jsonpath_rfc9535_locations::node::Node| n.path(),
    env_default: Some(P(&*jsonpath_rfc9535_locations::ENV as *const Env as *mut u8)),
    top: |e, d, _l| jsonpath_rfc9535_locations::find(e, d),
    env_find: |v, e, d, _l| v.find(e, d),
    eval: |q, v, d, _l| Ok(q.find(d, v)),
    nodes: Vec<jsonpath_rfc9535_locations::node::Node<'static>>,
    extend: |n: &jsonpath_rfc9535_locations::node::Node<'static>, k: usize| -> Vec<String> {
        use jsonpath_rfc9535_locations::node::Node;
        let kids: Vec<_> = (0..k)
            .map(|j| if j % 2 == 0 { Node::new_array_element(n.value, &n.location, j) } else { Node::new_object_member(n.value, &n.location, format!("k{}", j)) })
            .collect();
        kids.iter().map(|c| c.path()).collect()
    },
    walk: jsonpath_rfc9535_locations::Query
);
engine!(sing_e, jsonpath_rfc9535_singular, jsonpath_rfc9535_singular::filter::FilterExpressionResult,
    jsonpath_rfc9535_singular::Query, |n: &jsonpath_rfc9535_singular::node::Node| n.path(),
    env_default: Some(P(&*jsonpath_rfc9535_singular::ENV as *const Env as *mut u8)),
    top: |e, d, _l| jsonpath_rfc9535_singular::find(e, d),
    env_find: |v, e, d, _l| v.find(e, d),
    eval: |q, v, d, _l| Ok(q.find(d, v)),
    nodes: Vec<jsonpath_rfc9535_singular::node::Node<'static>>,
    extend: |n: &jsonpath_rfc9535_singular::node::Node<'static>, k: usize| -> Vec<String> {
        use jsonpath_rfc9535_singular::node::Node;
        let kids: Vec<_> = (0..k)
            .map(|j| if j % 2 == 0 { Node::new_array_element(n.value, &n.location, j) } else { Node::new_object_member(n.value, &n.location, format!("k{}", j)) })
            .collect();
        kids.iter().map(|c| c.path()).collect()
    },
    walk: jsonpath_rfc9535_singular::Query
);

pub mod hand_e {
    use super::*;
    pub struct X;
    walk!(jsonpath_rfc9535::Query, jsonpath_rfc9535::query::Segment, jsonpath_rfc9535::query::Selector, jsonpath_rfc9535::query::FilterExpression, |q| &q.segments);
    impl Par for X {
        parser_common!(jsonpath_rfc9535, jsonpath_rfc9535::Parser, jsonpath_rfc9535::Query, functions,
            jsonpath_rfc9535::ExpressionType, jsonpath_rfc9535::FunctionSignature);
        seg_parts!(jsonpath_rfc9535::Query);
    }
}
pub mod pest_e {
    use super::*;
    pub struct X;
    walk!(jsonpath_rfc9535_pest::ast::Query, jsonpath_rfc9535_pest::ast::Segment, jsonpath_rfc9535_pest::ast::Selector, jsonpath_rfc9535_pest::ast::FilterExpression, |q| &q.segments);
    impl Par for X {
        parser_common!(jsonpath_rfc9535_pest, jsonpath_rfc9535_pest::JSONPathParser, jsonpath_rfc9535_pest::ast::Query, functions,
            jsonpath_rfc9535_pest::parser::ExpressionType, jsonpath_rfc9535_pest::parser::FunctionSignature);
        seg_parts!(jsonpath_rfc9535_pest::ast::Query);
    }
}
pub mod pestr_e {
    use super::*;
    use jsonpath_rfc9535_pest_recursive::ast::Segment;
    pub struct X;
    fn chain(q: &jsonpath_rfc9535_pest_recursive::Query) -> Vec<&Segment> {
        let mut v = vec![&q.ast];
        while let Segment::Child { left, .. } | Segment::Recursive { left, .. } = v[v.len() - 1] {
            v.push(&**left);
        }
        v
    }
    walk!(jsonpath_rfc9535_pest_recursive::Query, jsonpath_rfc9535_pest_recursive::ast::Segment, jsonpath_rfc9535_pest_recursive::ast::Selector, jsonpath_rfc9535_pest_recursive::ast::FilterExpression, |q| chain(q));
    impl Par for X {
        parser_common!(jsonpath_rfc9535_pest_recursive, jsonpath_rfc9535_pest_recursive::JSONPathParser, jsonpath_rfc9535_pest_recursive::Query, function_signatures,
            jsonpath_rfc9535_pest_recursive::parser::ExpressionType, jsonpath_rfc9535_pest_recursive::parser::FunctionSignature);
        fn render(&self, q: P, part: usize, w: &mut dyn fmt::Write) -> fmt::Result {
            let q = unsafe { rf::<jsonpath_rfc9535_pest_recursive::Query>(q) };
            render_part(q, part, w, |v| w_query(q, v))
        }
        fn flags(&self, q: P) -> (bool, bool) {
            (false, unsafe { rf::<jsonpath_rfc9535_pest_recursive::Query>(q) }.is_singular())
        }
    }
}

pub fn par(e: E) -> &'static dyn Par {
    match e {
        E::Serde => &serde_e::X,
        E::Iter => &iter_e::X,
        E::Loc => &loc_e::X,
        E::Sing => &sing_e::X,
        E::Hand => &hand_e::X,
        E::Pest => &pest_e::X,
        E::PestR => &pestr_e::X,
    }
}
pub fn eng(e: E) -> &'static dyn Eng {
    match e {
        E::Serde => &serde_e::X,
        E::Iter => &iter_e::X,
        E::Loc => &loc_e::X,
        E::Sing => &sing_e::X,
        _ => panic!("not an evaluator"),
    }
}

// ------------------------------------------------------------------ lazy iterators (iter crate)
use jsonpath_rfc9535_iter::iter::QueryIter;
pub fn iter_top(expr: &str, doc: &'static Value) -> Result<P, String> {
    match jsonpath_rfc9535_iter::find(expr, doc) {
        Ok(i) => Ok(boxed(i)),
        Err(e) => Err(rt::harness(|| format!("{} / {:?}", e, e))),
    }
}
pub fn iter_env(env: P, expr: &str, doc: &'static Value) -> Result<P, String> {
    let env = unsafe { rf::<jsonpath_rfc9535_iter::env::Environment>(env) };
    match env.find(expr, doc) {
        Ok(i) => Ok(boxed(i)),
        Err(e) => Err(rt::harness(|| format!("{} / {:?}", e, e))),
    }
}
pub fn iter_query(q: P, env: P, doc: &'static Value) -> P {
    let env = unsafe { rf::<jsonpath_rfc9535_iter::env::Environment>(env) };
    let q = unsafe { rf::<jsonpath_rfc9535_iter::Query>(q) };
    boxed(QueryIter::new(env, doc, q.clone()))
}
pub fn iter_next(i: P) -> Option<(String, &'static Value)> {
    let it = unsafe { mu::<QueryIter<'static>>(i) };
    let n = it.next()?;
    let r = rt::harness(|| (n.location.clone(), n.value));
    drop(n);
    Some(r)
}
/// keep the node alive (results must survive their iterator)
pub fn iter_next_keep(i: P) -> Option<P> {
    let it = unsafe { mu::<QueryIter<'static>>(i) };
    let n = it.next()?;
    Some(boxed(n))
}
type Item = (String, &'static Value);
fn item(n: std::rc::Rc<jsonpath_rfc9535_iter::node::Node<'static>>) -> Item {
    let r = rt::harness(|| (n.location.clone(), n.value));
    drop(n);
    r
}
pub fn iter_take(i: P, n: usize, f: &mut dyn FnMut(String, &'static Value)) {
    let it = unsafe { mu::<QueryIter<'static>>(i) };
    for n in it.by_ref().take(n) {
        let (p, v) = item(n);
        rt::harness(|| f(p, v));
    }
}
pub fn iter_try(i: P, n: usize, f: &mut dyn FnMut(String, &'static Value)) {
    let it = unsafe { mu::<QueryIter<'static>>(i) };
    let mut k = n;
    if k == 0 {
        return;
    }
    let _ = it.try_for_each(|n| {
        let (p, v) = item(n);
        rt::harness(|| f(p, v));
        k -= 1;
        if k == 0 {
            Err(())
        } else {
            Ok(())
        }
    });
}
pub fn iter_nth(i: P, n: usize) -> Option<Item> {
    unsafe { mu::<QueryIter<'static>>(i) }.nth(n).map(item)
}
pub fn iter_last(i: P) -> Option<Item> {
    unsafe { un::<QueryIter<'static>>(i) }.last().map(item)
}
pub fn iter_count(i: P) -> usize {
    unsafe { un::<QueryIter<'static>>(i) }.count()
}
pub fn iter_drop(i: P) {
    drop(unsafe { un::<QueryIter<'static>>(i) })
}

// ------------------------------------------------------------------ hand-written lexer
pub fn tokens(expr: &str) -> (String, String) {
    let t = rt::lib(|| jsonpath_rfc9535::lexer::tokenize(expr));
    let a = format!("{:?} | {}", t, t.iter().map(|t| t.kind.to_string()).collect::<Vec<_>>().join(" "));
    rt::lib(|| drop(t));
    let l = rt::lib(|| jsonpath_rfc9535::lexer::lex(expr));
    let b = match &l {
        Ok(t) => format!("{:?}", t),
        Err(e) => format!("{} / {:?}", e, e),
    };
    rt::lib(|| drop(l));
    (a, b)
}

// ------------------------------------------------------------------ auto-trait facts
pub struct Probe<T>(std::marker::PhantomData<T>);
pub trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
pub trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
impl<T> NotSend for &Probe<T> {}
impl<T: Sync> Probe<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<T: Send> Probe<T> {
    fn is_send(&self) -> bool {
        true
    }
}
macro_rules! facts { ($v:ident, $($t:ty),*) => { $(
    {
        let p = Probe::<$t>(std::marker::PhantomData);
        #[allow(unused_imports)] use NotSync as _; #[allow(unused_imports)] use NotSend as _;
        $v.push((stringify!($t), (&p).is_sync(), (&p).is_send()));
    }
)* } }
/// (type, Sync, Send) of everything a caller shares between threads
pub fn auto_traits() -> Vec<(&'static str, bool, bool)> {
    let mut v = Vec::new();
    facts!(v, jsonpath_rfc9535::Query, jsonpath_rfc9535_pest::ast::Query, jsonpath_rfc9535_pest_recursive::Query,
        jsonpath_rfc9535_serde::Query, jsonpath_rfc9535_iter::Query, jsonpath_rfc9535_locations::Query,
        jsonpath_rfc9535_singular::Query,
        jsonpath_rfc9535::Parser, jsonpath_rfc9535_pest::JSONPathParser, jsonpath_rfc9535_pest_recursive::JSONPathParser,
        jsonpath_rfc9535_serde::JSONPathParser, jsonpath_rfc9535_iter::JSONPathParser,
        jsonpath_rfc9535_locations::JSONPathParser, jsonpath_rfc9535_singular::JSONPathParser);
    // environments hold boxed Sync functions: shareable, not necessarily sendable
    let n = v.len();
    facts!(v, jsonpath_rfc9535_serde::env::Environment, jsonpath_rfc9535_iter::env::Environment,
        jsonpath_rfc9535_locations::env::Environment, jsonpath_rfc9535_singular::env::Environment);
    for x in v[n..].iter_mut() {
        x.2 = true;
    }
    let _ = ret_value(&());
    v
}
