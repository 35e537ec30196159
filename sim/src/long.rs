//! Long histories: bursts of hundreds of the same few cheap operations, then others of the same
//! family.  What counts uses, remembers a bounded number of things, adapts to what it has seen or
//! leaks a little each time shows after such bursts only.
use crate::families::{family, lookalikes, Use, SUBJECTS};
use crate::gen::*;
use crate::props::{add_plan, cust_find, find, iterate, parse, render, RX_MATCH, RX_SEARCH};
use crate::rng::Rng;
use crate::spec::*;
use crate::world::DEFENV;
use serde_json::{json, Value};

type Unit = Vec<OpSpec>;

fn records(r: &mut Rng, n: usize) -> Value {
    Value::Array(
        (0..n)
            .map(|_| {
                let mut o = serde_json::Map::new();
                for k in ["a", "b"] {
                    if r.chance(3, 4) {
                        o.insert(k.into(), json!(r.below(4)));
                    }
                }
                o.insert("s".into(), json!(*r.pick(&["a", "b", "ab", ""])));
                Value::Object(o)
            })
            .collect(),
    )
}
/// one compiled query over many elements of few values
fn many_elements(r: &mut Rng, b: &mut B, e: E, env: u16) -> Vec<OpSpec> {
    let t = r
        .pick(&[
            "$[?f2(@.a)]", "$[?f2(@.a) && f2(@.b)]", "$[?f2(@.a) || f2(@.b)]", "$[?f3(@.*)]", "$[?f6(1) == 70]", "$[?f7(@.a, @.b)]", "$[?f1(@.s) == '1:ab']", "$[?f0(@.a) == f0(@.b)]",
            "$[?f2(@.a) && f7(@.a, @.b)]", "$..[?f2(@.a) || @.b == 1]", "$[?!f2(@.a) && f3(@.b)]", "$[?f4(@.*) == 3]", "$[?f6(@.a) > 65]", "$[?(f2(@.a) || f2(@.b)) && f2(@.s)]",
        ])
        .to_string();
    let ex = Ex { text: t, custom: true, q: None, sing: false, seq: false };
    let how = if r.chance(2, 3) { How::Query(b.query(e, &ex)) } else { b.env_how(e, &ex.text) };
    (0..r.range(1, 3))
        .map(|_| {
            let n = [3, 20, 40, 70, 130][r.below(5)];
            let mut v = records(r, n);
            if r.chance(1, 2) {
                // everything up to some point alike
                let k = r.below(n);
                let x = v[0].clone();
                let a = v.as_array_mut().unwrap();
                a[..k].iter_mut().for_each(|y| *y = x.clone());
            }
            let doc = b.doc(&Doc::Text(v.to_string()));
            OpSpec::new(Op::Find { e, how: how.clone(), env, doc, loopy: r.chance(1, 2) })
        })
        .collect()
}
/// evaluations of look-alike patterns
fn patterns(r: &mut Rng, b: &mut B, e: E, env: Option<u16>, n: usize) -> Vec<OpSpec> {
    let fam = lookalikes(r);
    let words: Vec<&str> = (0..3).map(|_| *r.pick(&SUBJECTS)).collect();
    (0..n)
        .map(|_| {
            let search = r.chance(1, 3);
            let f = if search { "search" } else { "match" };
            let (t, d) = if r.chance(1, 3) {
                (format!("$[?{}(@, {})]", f, Vx::Str(r.pick(&fam).clone())), json!(words))
            } else {
                let m = [1, 1, 2, 30, 70][r.below(5)];
                let pool: Vec<&String> = (0..r.range(1, 2)).map(|_| r.pick(&fam)).collect();
                let mut v: Vec<_> = (0..m).map(|_| json!({"s": *r.pick(&words), "p": *r.pick(&pool)})).collect();
                v.push(json!({"s": *r.pick(&words), "p": r.pick(&fam)}));
                (if search { RX_SEARCH } else { RX_MATCH }.to_string(), Value::Array(v))
            };
            let x = b.expr(&t);
            let doc = b.doc(&Doc::Text(d.to_string()));
            let (how, env) = match env {
                None => (How::Top(x), DEFENV),
                Some(v) => (How::Env(x), v),
            };
            OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 2) })
        })
        .collect()
}

pub fn history(prop: &str, r: &mut Rng, p: &Pool) -> Spec {
    let mut b = B::new(prop, r);
    let nt = match prop {
        "C01" | "C05" => 2,
        "C07" | "C08" => 1,
        _ => [1, 1, 1, 2][r.below(4)],
    };
    let e = *r.pick(if prop == "C06" { &[E::Iter] } else { &ENGINES });
    let env = b.env(e, 1);
    let ev = if r.chance(3, 4) { Some(env) } else { None };
    // what is repeated, and what is tried in between
    let mut units: Vec<Unit> = vec![];
    let mut probes: Vec<Unit> = vec![];
    let one = |v: Vec<OpSpec>| -> Vec<Unit> { v.into_iter().map(|o| vec![o]).collect() };
    let n = r.range(2, 4);
    match prop {
        "C02" => {
            units = one(patterns(r, &mut b, e, ev, n));
            probes = units.clone();
            if r.chance(1, 2) {
                probes.extend(one(patterns(r, &mut b, e, ev, 3)));
            }
        }
        "C03" | "C04" => {
            let mut v = family(r, &mut b, p, e, Some(env), Use::Custom, n);
            v.push(cust_find(r, &mut b, p, e, env));
            if r.chance(1, 3) {
                v.extend(many_elements(r, &mut b, e, env));
            }
            let mut inner = family(r, &mut b, p, e, Some(env), Use::Any, 2);
            inner.extend(v.iter().cloned());
            for o in &v {
                let mut o = o.clone();
                let k = r.below(3) as u32;
                if prop == "C03" || r.chance(1, 6) {
                    o.plan.push((k, Act::Panic));
                } else {
                    let mut i = r.pick(&inner).clone();
                    if r.chance(1, 4) {
                        add_plan(r, &mut i, Act::Panic);
                    }
                    o.plan.push((k, Act::Nest(Box::new(i))));
                }
                units.push(vec![o]);
            }
            if e == E::Iter && r.chance(1, 2) {
                let mut v = iterate(r, &mut b, p, Some(env), 0);
                v.truncate(2);
                add_plan(r, &mut v[1], Act::Panic);
                v.push(OpSpec::new(Op::Close { slot: 0 }));
                units.push(v);
            }
            probes = one(v);
            probes.extend(one(family(r, &mut b, p, e, Some(env), Use::Any, 3)));
            if r.chance(1, 3) {
                probes.push(vec![parse(r, &mut b, p, e)]);
                probes.push(vec![render(r, &mut b, p, e, WPlan::Fine)]);
            }
        }
        "C06" => {
            let mode = if r.chance(1, 2) { Use::Any } else { Use::Custom };
            let set = family(r, &mut b, p, E::Iter, ev, mode, n);
            for (k, o) in set.iter().enumerate() {
                if let Op::Find { how, env, doc, .. } = &o.op {
                    let t = match how {
                        How::Query(q) => &b.s.exprs[b.s.queries[*q as usize].expr as usize],
                        How::Top(x) | How::Env(x) | How::Std(x) | How::Parser(_, x) => &b.s.exprs[*x as usize],
                    };
                    if t.contains("f6(") {
                        continue;
                    }
                    let s = k as u8 % 4;
                    let open = OpSpec::new(Op::Open { how: how.clone(), env: *env, doc: *doc, slot: s });
                    let pull = |n: u32| OpSpec::new(Op::Pull { slot: s, n, mode: 0 });
                    let close = OpSpec::new(Op::Close { slot: s });
                    units.push(match r.below(4) {
                        0 => vec![open.clone(), close.clone()],
                        1 => vec![open.clone(), pull(1), close.clone()],
                        2 => vec![open.clone(), pull(1), pull(2), close.clone()],
                        _ => vec![open.clone(), pull(1000), pull(1), pull(1), close.clone()],
                    });
                    probes.push(vec![open.clone(), pull(1), pull(1), pull(1000), pull(1), close.clone()]);
                    probes.push(vec![o.clone()]);
                }
            }
            if units.is_empty() {
                units.push(vec![find(r, &mut b, p, E::Iter, ev)]);
                probes = units.clone();
            }
        }
        "C08" => {
            let mut v = match r.below(3) {
                0 => patterns(r, &mut b, e, ev, n),
                1 => vec![parse(r, &mut b, p, e), render(r, &mut b, p, e, WPlan::Fine)],
                _ => family(r, &mut b, p, e, ev, Use::Any, n),
            };
            if r.chance(1, 2) {
                v.push(cust_find(r, &mut b, p, e, env));
            }
            for o in &v {
                let mut x = o.clone();
                let k = [3, 10, 40][r.below(3)];
                x.oom = vec![(1 + r.below(k) as u64, [1, 1, 3, 1000][r.below(4)])];
                units.push(vec![x]);
            }
            probes = one(v);
            units.push(probes[0].clone());
        }
        "C09" | "C15" if prop == "C09" || r.chance(1, 3) => {
            let pe = *r.pick(&PARSERS);
            let k = r.range(2, 4);
            let mut v = vec![];
            for _ in 0..k {
                v.push(parse(r, &mut b, p, pe));
                let ex = if r.chance(1, 2) { r.pick(&p.bad) } else { r.pick(&p.err) }.clone();
                let t = if r.chance(1, 4) { r.pick(&p.long).text.clone() } else { ex.text };
                let expr = b.expr(&t);
                let parser = if r.chance(1, 2) { Some(b.parser(pe)) } else { None };
                v.push(OpSpec::new(Op::Parse { e: pe, parser, expr }));
            }
            v.extend(family(r, &mut b, p, pe, Some(env), Use::Parse, 3));
            if prop == "C15" {
                v.iter_mut().for_each(|o| o.fresh = r.chance(2, 3));
            }
            units = one(v);
            probes = units.clone();
        }
        "C12" => {
            let pe = *r.pick(&PARSERS);
            for _ in 0..n {
                let o = render(r, &mut b, p, pe, WPlan::Fine);
                let mut x = o.clone();
                let plan = match r.below(4) {
                    0 => WPlan::Panic(r.below(4) as u32),
                    1 => WPlan::Short(r.below(12) as u32),
                    _ => WPlan::Fail(r.below(6) as u32),
                };
                if let Op::Render { w, .. } = &mut x.op {
                    *w = plan;
                }
                units.push(vec![x]);
                probes.push(vec![o]);
            }
        }
        "C13" => {
            let v = if r.chance(2, 3) { many_elements(r, &mut b, e, env) } else { family(r, &mut b, p, e, Some(env), Use::Custom, n) };
            units = one(v);
            probes = units.clone();
            for o in probes.iter_mut() {
                if r.chance(1, 4) {
                    add_plan(r, &mut o[0], Act::Panic);
                }
            }
            if r.chance(1, 2) {
                probes.extend(one(family(r, &mut b, p, e, Some(env), Use::Custom, 2)));
            }
        }
        "C15" => {
            // the same query over ever new documents of the same shape
            let set = family(r, &mut b, p, e, ev, Use::Any, 2);
            for o in &set {
                if let Op::Find { doc, .. } = &o.op {
                    let d = b.s.docs[*doc as usize].clone();
                    for _ in 0..8 {
                        let d2 = variant(r, &d);
                        let d2 = b.doc(&d2);
                        let mut o = o.clone();
                        if let Op::Find { doc, .. } = &mut o.op {
                            *doc = d2;
                        }
                        o.fresh = true;
                        units.push(vec![o]);
                    }
                }
            }
            probes = units.clone();
        }
        "C17" => {
            let mut v = match r.below(3) {
                0 => many_elements(r, &mut b, e, env),
                _ => family(r, &mut b, p, e, Some(env), Use::Compiled, n + 1),
            };
            for o in v.iter_mut() {
                o.fresh = r.chance(1, 4);
            }
            units = one(v);
            probes = units.clone();
        }
        _ => {
            let mut v = family(r, &mut b, p, e, ev, Use::Any, n);
            if r.chance(1, 3) {
                v.extend(many_elements(r, &mut b, e, env));
            }
            if r.chance(1, 3) {
                v.push(parse(r, &mut b, p, e));
            }
            units = one(v);
            probes = units.clone();
            probes.push(vec![find(r, &mut b, p, e, ev)]);
        }
    }
    if prop == "C08" {
        // first use of the process-wide defaults happens with memory available
        let x0 = b.expr("$[?match(@.a, 'a') && search(@.a, 'b')]");
        let d0 = b.doc(&Doc::Text("[{\"a\":\"ab\"}]".into()));
        let mut warm = vec![];
        for e in ENGINES {
            warm.push(OpSpec::new(Op::Find { e, how: How::Top(x0), env: DEFENV, doc: d0, loopy: false }));
        }
        for e in PARSERS {
            warm.push(OpSpec::new(Op::Parse { e, parser: None, expr: x0 }));
        }
        b.task(warm);
    }
    let longest = [60, 150, 300, 600][r.below(4)] / nt;
    for t in 0..nt {
        let mut ops: Vec<OpSpec> = vec![];
        while ops.len() < longest {
            let k = *r.pick(&[5, 12, 20, 40, 70, 130, 260, 520]);
            let k = k.min(longest * 2 / 3).max(3);
            let set: Vec<&Unit> = match r.below(3) {
                0 | 1 => vec![r.pick(&units)],
                _ => vec![r.pick(&units), r.pick(&units)],
            };
            let rnd = r.chance(1, 2);
            let start = ops.len();
            let mut i = 0;
            while ops.len() < start + k {
                let u = set[if rnd { r.below(set.len()) } else { i % set.len() }];
                ops.extend(u.iter().cloned().map(|o| OpSpec { brief: !matches!(o.op, Op::Pull { .. } | Op::Open { .. } | Op::Render { .. }), ..o }));
                i += 1;
            }
            for _ in 0..r.range(1, 4) {
                ops.extend(r.pick(&probes).iter().cloned());
            }
        }
        if t > 0 && prop != "C01" && r.chance(1, 2) {
            // a second thread with a short history
            ops = probes.iter().flat_map(|u| u.iter().cloned()).collect();
        }
        let t = b.task(ops);
        if prop == "C08" {
            b.s.tasks[t].after = 1;
        }
    }
    if nt == 1 || r.chance(1, 2) {
        b.s.sched.strat = 0;
    }
    if b.s.sched.strat == 1 || b.s.sched.strat == 4 || b.s.sched.strat == 5 {
        b.s.sched.mean = b.s.sched.mean.max(50);
    }
    b.s.tag = "long history".into();
    b.s
}
