//! Per property: how worlds, histories and faults are generated, and what is checked.
use crate::drive::*;
use crate::families::{draws, f_streak, f_within, family, lookalikes, Use, SUBJECTS};
use crate::gen::*;
use crate::model;
use crate::rng::{hash2, hash_str, Rng};
use crate::spec::*;
use crate::world::{build_doc, DEFENV};
use std::collections::BTreeMap;

pub type Gen = fn(&mut Ctx, &mut Rng, &Pool, u64) -> Spec;
pub type Check = fn(&mut Ctx, &Spec, &RunRes) -> Vec<Viol>;
pub struct Prop {
    pub id: &'static str,
    pub gen: Gen,
    pub check: Check,
    pub rule: &'static str,
}

/// one in so many runs is a long history
const LONG: usize = 14;

// ------------------------------------------------------------------ building blocks
fn an_ex<'a>(r: &mut Rng, p: &'a Pool, custom: bool, e: E) -> &'a Ex {
    if e == E::Sing && r.chance(1, 5) {
        return r.pick(&p.sing);
    }
    let k = r.below(20);
    if k == 0 {
        return if r.chance(1, 2) { r.pick(&p.bad) } else { r.pick(&p.err) };
    }
    if k == 19 || k == 18 {
        let x = r.pick(&p.rich);
        if custom || !x.custom {
            return x;
        }
    }
    if custom && k < 11 {
        return r.pick(&p.cust);
    }
    if k < 16 {
        r.pick(&p.rex)
    } else {
        r.pick(&p.std)
    }
}
/// (how, env): any entry point of an evaluating crate
fn entry(r: &mut Rng, b: &mut B, p: &Pool, e: E, env: Option<u16>) -> (How, u16) {
    let custom_env = env.is_some() && r.chance(4, 5);
    if !custom_env {
        let ex = an_ex(r, p, false, e);
        let ex = if ex.custom { &p.std[0] } else { ex }.clone();
        let x = b.expr(&ex.text);
        return match r.below(4) {
            0 | 1 => (How::Top(x), DEFENV),
            2 => (How::Std(x), DEFENV),
            _ => (How::Query(b.query(e, &ex)), DEFENV),
        };
    }
    let env = env.unwrap();
    let ex = an_ex(r, p, true, e).clone();
    match r.below(6) {
        0 | 1 => (b.env_how(e, &ex.text), env),
        2 => {
            let ps = b.parser(e);
            (How::Parser(ps, b.expr(&ex.text)), env)
        }
        _ => (How::Query(b.query(e, &ex)), env),
    }
}
fn text_of<'a>(sp: &'a Spec, how: &How) -> &'a str {
    match how {
        How::Top(x) | How::Env(x) | How::Std(x) | How::Parser(_, x) => &sp.exprs[*x as usize],
        How::Query(q) => &sp.exprs[sp.queries[*q as usize].expr as usize],
    }
}
fn doc_for(r: &mut Rng, b: &mut B, p: &Pool, how: &How) -> u16 {
    let d = p.doc_for(r, text_of(&b.s, how));
    b.doc(d)
}
pub fn find(r: &mut Rng, b: &mut B, p: &Pool, e: E, env: Option<u16>) -> OpSpec {
    let (how, env) = entry(r, b, p, e, env);
    let doc = doc_for(r, b, p, &how);
    OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 3) })
}
pub fn parse(r: &mut Rng, b: &mut B, p: &Pool, e: E) -> OpSpec {
    let ex = match r.below(9) {
        0 => r.pick(&p.bad),
        5..=7 => p.text(r),
        1 => r.pick(&p.rex),
        2 => r.pick(&p.std),
        3 if e == E::Sing => r.pick(&p.sing),
        _ => r.pick(&p.cust),
    }
    .clone();
    let parser = if ex.custom || r.chance(1, 3) { Some(b.parser(e)) } else { None };
    let expr = b.expr(&ex.text);
    OpSpec::new(Op::Parse { e, parser, expr })
}
pub fn render(r: &mut Rng, b: &mut B, p: &Pool, e: E, w: WPlan) -> OpSpec {
    let mut ex = match r.below(7) {
        0 => r.pick(&p.rex),
        1 => r.pick(&p.std),
        2 | 3 => r.pick(&p.rich),
        4 if r.chance(1, 3) => r.pick(&p.long),
        _ => r.pick(&p.cust),
    };
    if e == E::Sing && r.chance(1, 4) {
        ex = r.pick(&p.sing);
    }
    let ex = ex.clone();
    let how = if r.chance(1, 2) {
        How::Query(b.query(e, &ex))
    } else if ex.custom {
        let ps = b.parser(e);
        How::Parser(ps, b.expr(&ex.text))
    } else {
        How::Std(b.expr(&ex.text))
    };
    let part = if r.chance(1, 2) { r.range(1, 30) as u16 } else { 0 };
    OpSpec::new(Op::Render { e, how, part, w })
}
/// an iterator's life: open, some pulls, close
pub fn iterate(r: &mut Rng, b: &mut B, p: &Pool, env: Option<u16>, slot: u8) -> Vec<OpSpec> {
    let (how, env) = entry(r, b, p, E::Iter, env);
    let doc = doc_for(r, b, p, &how);
    let mut v = vec![OpSpec::new(Op::Open { how, env, doc, slot })];
    for _ in 0..r.range(1, 4) {
        let n = if r.chance(1, 3) { 1000 } else { r.range(1, 3) as u32 };
        v.push(OpSpec::new(Op::Pull { slot, n, mode: 0 }));
    }
    if r.chance(3, 4) {
        v.push(OpSpec::new(Op::Close { slot }));
    }
    v
}
fn engines(r: &mut Rng, n: usize) -> Vec<E> {
    (0..n).map(|_| *r.pick(&ENGINES)).collect()
}
fn any_op(r: &mut Rng, b: &mut B, p: &Pool, e: E, env: Option<u16>) -> OpSpec {
    match r.below(10) {
        0 => parse(r, b, p, e),
        1 => render(r, b, p, e, WPlan::Fine),
        _ => find(r, b, p, e, env),
    }
}
fn plain_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    c.universal(sp, run, false)
}

// ------------------------------------------------------------------ C01
fn c01(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C01", r, p);
    }
    let mut b = B::new("C01", r);
    let es = { let n = r.range(1, 2); engines(r, n) };
    let nt = [2, 2, 2, 3, 3, 4, 6][r.below(7)];
    let same = r.chance(1, 3);
    let envs: Vec<u16> = es.iter().map(|e| b.env(*e, 1)).collect();
    if r.chance(1, 3) {
        // the state which the library shares between threads
        let e = es[0];
        let env = if r.chance(1, 4) { DEFENV } else { envs[0] };
        let n = r.range(2, 6);
        let set = pattern_ops(r, &mut b, e, env, n);
        // first uses are over, half of the time
        let warm = if r.chance(1, 2) {
            let ops = draws(r, &set, 2, false);
            Some(b.task(ops))
        } else {
            None
        };
        for _ in 0..nt.min(3) {
            let n = r.range(2, 8);
            let ops = draws(r, &set, n, false);
            let t = b.task(ops);
            if let Some(w) = warm {
                b.s.tasks[t].after = 1 << w;
            }
        }
        b.s.tag = format!("{} threads, patterns", nt.min(3));
        return b.s;
    }
    if r.chance(1, 2) {
        // related cheap operations, many times over
        let mut set = vec![];
        for k in 0..es.len() {
            let mode = if r.chance(1, 10) { Use::Parse } else { Use::Any };
            let e = if mode == Use::Parse { *r.pick(&PARSERS) } else { es[k] };
            let n = r.range(2, 5);
            set.extend(family(r, &mut b, p, e, Some(envs[k]), mode, n));
        }
        for _ in 0..nt {
            let n = r.range(3, 8);
            let ops = draws(r, &set, n, false);
            b.task(ops);
        }
        b.s.tag = format!("{} threads, related operations", nt);
        return b.s;
    }
    let mut shared: Vec<OpSpec> = vec![];
    for _ in 0..3 {
        let k = r.below(es.len());
        shared.push(find(r, &mut b, p, es[k], Some(envs[k])));
    }
    for _ in 0..nt {
        let mut ops = vec![];
        for s in 0..r.range(1, 4) {
            let k = r.below(es.len());
            if same || r.chance(1, 4) {
                ops.push(r.pick(&shared).clone());
            } else if es[k] == E::Iter && r.chance(1, 4) {
                ops.extend(iterate(r, &mut b, p, Some(envs[k]), s as u8));
            } else {
                ops.push(any_op(r, &mut b, p, es[k], Some(envs[k])));
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}
/// fixed workloads in which threads wait for each other, if they ever do
pub fn contention(p: &Pool, i: u64) -> Spec {
    let mut r = Rng::new(hash2(0xC0117, i));
    let r = &mut r;
    let mut b = B::new("C01", r);
    let e = ENGINES[i as usize % 4];
    let env = b.env(e, 1);
    let set = match (i / 4) % 4 {
        0 | 1 => pattern_ops(r, &mut b, e, env, 6),
        2 => {
            let pe = PARSERS[(i / 16) as usize % PARSERS.len()];
            let mut v: Vec<OpSpec> = (0..3).map(|_| parse(r, &mut b, p, pe)).collect();
            v.push(render(r, &mut b, p, pe, WPlan::Fine));
            v.push(cust_find(r, &mut b, p, e, env));
            v
        }
        _ => family(r, &mut b, p, e, Some(env), Use::Any, 5),
    };
    let x = b.expr("$[?match(@.s, 'q') || search(@.s, 'q')]");
    let d = b.doc(&records_min());
    let mut warm = vec![OpSpec::new(Op::Find { e, how: How::Env(x), env, doc: d, loopy: false }), OpSpec::new(Op::Find { e, how: How::Top(x), env: DEFENV, doc: d, loopy: false })];
    let xs = b.expr("$.a");
    for pe in PARSERS {
        warm.push(OpSpec::new(Op::Parse { e: pe, parser: None, expr: xs }));
    }
    let w = b.task(warm);
    for _ in 0..3 {
        let ops = draws(r, &set, 5, false);
        let t = b.task(ops);
        b.s.tasks[t].after = 1 << w;
    }
    b.s.sched.strat = 1;
    b.s.sched.mean = [1, 2, 5, 12][r.below(4)];
    b.s.sched.hot.clear();
    b.s
}
/// match() and search() with patterns that resemble each other, from the text and from the document
fn pattern_ops(r: &mut Rng, b: &mut B, e: E, env: u16, n: usize) -> Vec<OpSpec> {
    use serde_json::json;
    let mut fam = lookalikes(r);
    if r.chance(1, 3) {
        fam.extend(lookalikes(r));
    }
    let words: Vec<&str> = (0..3).map(|_| *r.pick(&SUBJECTS)).collect();
    let both = r.chance(2, 3);
    let f = r.chance(1, 2);
    (0..n)
        .map(|_| {
            let search = if both { r.chance(1, 2) } else { f };
            let (x, doc) = if r.chance(2, 3) {
                let v: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(&words)).collect();
                let t = format!("$[?{}(@, {})]", if search { "search" } else { "match" }, Vx::Str(r.pick(&fam).clone()));
                (b.expr(&t), b.doc(&Doc::Text(json!(v).to_string())))
            } else {
                let v: Vec<_> = (0..r.range(1, 4)).map(|_| json!({"s": *r.pick(&words), "p": r.pick(&fam)})).collect();
                (b.expr(if search { RX_SEARCH } else { RX_MATCH }), b.doc(&Doc::Text(serde_json::Value::Array(v).to_string())))
            };
            let how = if env == DEFENV { How::Top(x) } else { How::Env(x) };
            OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 3) })
        })
        .collect()
}
fn c01_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    let mut v = c.universal(sp, run, false);
    if v.is_empty() {
        v.extend(trait_loss());
    }
    v
}

// ------------------------------------------------------------------ C02
/// the expected selection of `$[?match(@.s, @.p)]` over an array of {s, p}
/// (selected, unknown to the matcher)
fn expected_regex(doc: &Doc, full: bool) -> Option<(Vec<usize>, Vec<usize>)> {
    let v = build_doc(doc);
    let (mut out, mut unknown) = (vec![], vec![]);
    for (i, x) in v.as_array()?.iter().enumerate() {
        if let (Some(s), Some(p)) = (x.get("s").and_then(|x| x.as_str()), x.get("p").and_then(|x| x.as_str())) {
            match model::re_match(p, s, full) {
                Some(true) => out.push(i),
                Some(false) => {}
                None => unknown.push(i),
            }
        }
    }
    Some((out, unknown))
}
pub const RX_MATCH: &str = "$[?match(@.s, @.p)]";
pub const RX_SEARCH: &str = "$[?search(@.s, @.p)]";
fn pat_family(r: &mut Rng, fam: usize, k: usize) -> String {
    // many distinct patterns which agree in length, in a long prefix or in a long suffix
    match fam {
        0 => format!("a{:03}|[ab]+", k),
        1 => format!("(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{:03})|b*", k),
        2 => format!("{:03}(b|c)*[abc]?", k),
        4 => {
            // every pair differs in letter case or in one letter only
            let c = |i: usize| { let b = [b'a', b'b', b'c', b'x'][(k >> (3 * i) & 7) >> 1]; (if k >> (3 * i) & 1 == 1 { b.to_ascii_uppercase() } else { b }) as char };
            format!("{}{}{}.*", c(0), c(1), c(2))
        }
        3 => {
            if k % 9 == 8 {
                BAD_PATTERNS[(k / 9) % BAD_PATTERNS.len()].to_string()
            } else {
                format!("x{:03}|.{}", k, ["", "?", "*", "+"][k % 4])
            }
        }
        _ => {
            let _ = r;
            format!("{}{}", ["a", "b", "ab", "a*", "[ab]", "(a|b)", ".", "c?"][k % 8], ["", "a", "b*", "c", "[^a]", "ab", "a+", "x?", "(b|c)", "b", "aa", "bc", "ba", "cc"][(k / 8) % 14])
        }
    }
}
fn c02(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C02", r, p);
    }
    use serde_json::json;
    let mut b = B::new("C02", r);
    let e = *r.pick(&ENGINES);
    let two = r.chance(1, 4);
    let nt = [1, 1, 2, 2, 3][r.below(5)];
    let env = if r.chance(3, 4) { b.env(e, 1) } else { DEFENV };
    if r.chance(2, 5) {
        // few patterns which are easily mistaken for each other, again and again
        let fam = { let mut v = lookalikes(r); if r.chance(1, 2) { v.extend(lookalikes(r)); } v };
        let words: Vec<&str> = (0..3).map(|_| *r.pick(&SUBJECTS)).collect();
        let nt = [1, 2, 2, 3][r.below(4)];
        for _ in 0..nt {
            let mut ops = vec![];
            for _ in 0..r.range(2, 6) {
                let v: Vec<_> = (0..r.range(1, 6)).map(|_| json!({"s": *r.pick(&words), "p": r.pick(&fam)})).collect();
                let lit = r.chance(1, 3);
                let search = r.chance(1, 3);
                let (x, doc) = if lit {
                    let v: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(&words)).collect();
                    let t = format!("$[?{}(@, {})]", if search { "search" } else { "match" }, Vx::Str(r.pick(&fam).clone()));
                    (b.expr(&t), b.doc(&Doc::Text(json!(v).to_string())))
                } else {
                    (b.expr(if search { RX_SEARCH } else { RX_MATCH }), b.doc(&Doc::Text(serde_json::Value::Array(v).to_string())))
                };
                let how = if env == DEFENV { How::Top(x) } else { How::Env(x) };
                ops.push(OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 2) }));
            }
            b.task(ops);
        }
        b.s.tag = "look-alike patterns".into();
        return b.s;
    }
    if r.chance(1, 20) {
        // hundreds of patterns, no two of them the same, valid ones and invalid ones
        let nt = [1, 1, 1, 2][r.below(4)];
        let f = if r.chance(1, 2) { RX_MATCH } else { RX_SEARCH };
        let mut id = r.below(100_000);
        for _ in 0..nt {
            let mut ops = vec![];
            let kind = r.below(4);
            for k in 0..r.range(2, 5) {
                let n = if k == 0 { r.range(100, 450) } else { r.range(20, 120) };
                let v: Vec<_> = (0..n)
                    .map(|_| {
                        id += r.range(1, 3);
                        let bad = match kind {
                            0 => k == 0,
                            1 => r.chance(1, 2),
                            2 => r.chance(9, 10),
                            _ => r.chance(1, 10),
                        };
                        json!({"s": *r.pick(&["a", "ab", "b", "abc"]), "p": serial_pattern(r, bad, id)})
                    })
                    .collect();
                let doc = b.doc(&Doc::Text(serde_json::Value::Array(v).to_string()));
                let x = b.expr(f);
                let how = if env == DEFENV { How::Top(x) } else { How::Env(x) };
                ops.push(OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 2) }));
            }
            b.task(ops);
        }
        if b.s.sched.strat == 1 && b.s.sched.mean < 100 {
            b.s.sched.mean = 100;
        }
        b.s.tag = "hundreds of patterns".into();
        return b.s;
    }
    let fam = r.below(6);
    let fam_n = 112;
    let strings = ["a", "b", "ab", "ba", "aab", "abc", "", "c", "bc", "x", "cc", "xyz", "aaa"];
    let words: Vec<&str> = (0..3).map(|_| *r.pick(&strings)).collect();
    let chunk = |r: &mut Rng, b: &mut B, ks: &[usize]| -> u16 {
        let v: Vec<_> = ks
            .iter()
            .map(|k| json!({"s": words[(k + r.below(2)) % 3], "p": pat_family(r, fam, *k)}))
            .collect();
        b.doc(&Doc::Text(serde_json::Value::Array(v).to_string()))
    };
    let big = r.chance(1, 2);
    for _ in 0..nt {
        let mut ops = vec![];
        let n = if big { r.range(3, 8) } else { r.range(2, 6) };
        for _ in 0..n {
            let mut ks: Vec<usize> = vec![];
            if big {
                match r.below(4) {
                    // a sweep over most of the family: evicts
                    0 => {
                        let from = r.below(fam_n);
                        let n = r.range(60, 111);
                        ks = (0..n).map(|i| (from + i) % fam_n).collect();
                    }
                    1 => {
                        let from = r.below(fam_n);
                        let n = r.range(90, 111);
                        ks = (0..n).map(|i| (from + n - i) % fam_n).collect();
                    }
                    // re-use with recency
                    2 => {
                        let base = r.below(fam_n);
                        for i in 0..30 {
                            ks.push((base + i) % fam_n);
                            ks.push((base + r.below(5)) % fam_n);
                        }
                    }
                    _ => {
                        for _ in 0..r.range(5, 60) {
                            ks.push(r.below(fam_n));
                        }
                    }
                }
            } else {
                for _ in 0..r.range(1, 6) {
                    let m = if r.chance(1, 2) { 6 } else { fam_n };
                    ks.push(r.below(m));
                }
            }
            let doc = chunk(r, &mut b, &ks);
            let x = b.expr(if r.chance(1, 2) { RX_MATCH } else { RX_SEARCH });
            let ee = if two && env == DEFENV { *r.pick(&ENGINES) } else { e };
            let how = if env == DEFENV && r.chance(1, 2) { How::Top(x) } else { How::Env(x) };
            let how = if env == DEFENV && matches!(how, How::Env(_)) { How::Std(x) } else { how };
            // serde and iter have no public default environment: everything through the top level
            let how = if env == DEFENV && matches!(ee, E::Serde | E::Iter) { How::Top(x) } else { how };
            ops.push(OpSpec::new(Op::Find { e: ee, how, env, doc, loopy: r.chance(1, 2) }));
            if r.chance(1, 6) && env != DEFENV {
                let ex = r.pick(&p.rex).clone();
                let x = b.expr(&ex.text);
                let doc = b.doc(p.doc(r));
                ops.push(OpSpec::new(Op::Find { e, how: How::Env(x), env, doc, loopy: false }));
            }
        }
        b.task(ops);
    }
    if big && b.s.sched.strat == 1 && b.s.sched.mean < 30 {
        b.s.sched.mean = 30;
    }
    b.s.tag = if big { "beyond the remembered number of patterns".into() } else { "few patterns".into() };
    b.s
}
fn serial_pattern(r: &mut Rng, bad: bool, i: usize) -> String {
    if bad {
        match r.below(8) {
            0 => format!("(a{}", i),
            1 => format!("[b-a]{}", i),
            2 => format!("*{}", i),
            3 => format!("a\\d{}", i),
            4 => format!("a{{2,1}}|{}", i),
            5 => format!("{})", i),
            6 => format!("a**|x{}", i),
            _ => format!("ab|[{}", i),
        }
    } else {
        match r.below(8) {
            0 => format!("a|x{}", i),
            1 => format!("[a-c]*|{}", i),
            2 => format!("(x{})?ab", i),
            3 => format!("{}|a.?", i),
            4 => format!("[^b]([bc]|{})", i),
            5 => format!("(ab|n{})c?", i),
            6 => format!("b+|{}y", i),
            _ => format!("q{}", i),
        }
    }
}
fn c02_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    let mut v = c.universal(sp, run, false);
    if !v.is_empty() {
        return v;
    }
    // absolute answers of an independent matcher
    for r in &run.out.ops {
        let Some(os) = find_op(sp, r) else { continue };
        let Op::Find { how, doc, .. } = &os.op else { continue };
        if os.brief {
            continue;
        }
        let x = match how {
            How::Top(x) | How::Env(x) | How::Std(x) => *x,
            _ => continue,
        };
        let full = match sp.exprs[x as usize].as_str() {
            RX_MATCH => true,
            RX_SEARCH => false,
            t => {
                if let Some((q, d)) = tree(&BTreeMap::new(), t).map(|q| (q, build_doc(&sp.docs[doc_index(*doc)]))) {
                    let mut m = model::Model::new(&d, 0);
                    let n = m.find(&q, &d, &d);
                    if !m.unknown && r.k == "ok" && r.text.len() < 2990 && m.text(&n) != r.text {
                        v.push(viol("regex-answer", format!("{}: {:?} instead of {:?}", describe(sp, r), r.text, m.text(&n))));
                    }
                }
                continue;
            }
        };
        if r.k != "ok" {
            v.push(viol("regex-answer", format!("{}: {} {}", describe(sp, r), r.k, r.text)));
            continue;
        }
        let Some((exp, unknown)) = expected_regex(&sp.docs[doc_index(*doc)], full) else { continue };
        if !unknown.is_empty() {
            *c.cov.skipped.entry("pattern unknown to the independent matcher".into()).or_insert(0) += unknown.len() as u64;
        }
        if r.text.len() >= 2990 && !unknown.is_empty() {
            continue;
        }
        if r.text.len() >= 2990 {
            if r.n as usize != exp.len() {
                v.push(viol("regex-answer", format!("{}: {} of the strings match instead of {}", describe(sp, r), r.n, exp.len())));
            }
            continue;
        }
        let got: Vec<String> = r.text.lines().map(|l| l.split('=').next().unwrap_or("").to_string()).collect();
        let want: Vec<String> = exp.iter().map(|i| format!("$[{}]", i)).collect();
        let unknown: Vec<String> = unknown.iter().map(|i| format!("$[{}]", i)).collect();
        let got: Vec<String> = got.into_iter().filter(|g| !unknown.contains(g)).collect();
        if got != want {
            let g = got.iter().find(|x| !want.contains(x));
            let m = want.iter().find(|x| !got.contains(x));
            v.push(viol("regex-answer", format!("{}: wrongly selected {:?}, wrongly left out {:?}", describe(sp, r), g, m)));
        }
    }
    v
}
fn doc_index(d: u16) -> usize {
    d as usize
}

// ------------------------------------------------------------------ C03
pub fn add_plan(r: &mut Rng, o: &mut OpSpec, a: Act) {
    let k = if r.chance(1, 2) { r.below(3) } else { r.below(12) } as u32;
    if o.plan.iter().all(|x| x.0 != k) {
        o.plan.push((k, a));
    }
}
/// operations performed on short-lived threads
pub fn on_workers(r: &mut Rng, den: usize, o: &mut OpSpec) {
    let may = matches!(
        o.op,
        Op::Find { .. }
            | Op::Parse { .. }
            | Op::Render { .. }
            | Op::Tokens { .. }
            | Op::Compile { .. }
            | Op::Release { .. }
            | Op::RegEnv { .. }
            | Op::RegParser { .. }
            | Op::Range { .. }
    );
    if may && o.oom.is_empty() && r.chance(1, den) {
        o.worker = true;
    }
    for (_, a) in o.plan.iter_mut() {
        if let Act::Nest(o) = a {
            on_workers(r, den, o);
        }
    }
}
/// an operation in which custom functions are called
pub fn cust_find(r: &mut Rng, b: &mut B, p: &Pool, e: E, env: u16) -> OpSpec {
    let ex = match r.below(6) {
        0 | 1 if b.over => r.pick(&p.rex),
        2 if b.over => r.pick(&p.std),
        _ => r.pick(&p.cust),
    }
    .clone();
    let how = match r.below(5) {
        0 | 1 => b.env_how(e, &ex.text),
        2 => {
            let ps = b.parser(e);
            How::Parser(ps, b.expr(&ex.text))
        }
        _ => How::Query(b.query(e, &ex)),
    };
    let doc = b.doc(p.doc(r));
    OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 3) })
}
fn c03(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C03", r, p);
    }
    let mut b = B::new("C03", r);
    let es = { let n = r.range(1, 2); engines(r, n) };
    let envs: Vec<u16> = es.iter().map(|e| b.env(*e, 1)).collect();
    if r.chance(1, 25) {
        // very many panics, then ordinary use
        let k = r.below(es.len());
        let mut ops = vec![];
        let mut o = cust_find(r, &mut b, p, es[k], envs[k]);
        o.plan.push((0, Act::Panic));
        for _ in 0..[30, 70, 140, 300][r.below(4)] {
            ops.push(o.clone());
        }
        for _ in 0..3 {
            ops.push(find(r, &mut b, p, es[k], Some(envs[k])));
            ops.push(cust_find(r, &mut b, p, es[k], envs[k]));
        }
        b.task(ops);
        b.s.tag = "very many panics".into();
        b.s.sched.strat = 0;
        return b.s;
    }
    let nt = [1, 1, 2, 2, 3][r.below(5)];
    for _ in 0..nt {
        let mut ops = vec![];
        if r.chance(1, 3) {
            let k = r.below(es.len());
            let n = r.range(2, 4);
            let mut set = family(r, &mut b, p, es[k], Some(envs[k]), Use::Custom, n);
            for o in set.clone() {
                let mut o = o;
                add_plan(r, &mut o, Act::Panic);
                set.push(o);
            }
            let n = r.range(1, 3);
            set.extend(family(r, &mut b, p, es[k], Some(envs[k]), Use::Any, n));
            let n = r.range(3, 9);
            ops.extend(draws(r, &set, n, false));
            b.task(ops);
            continue;
        }
        for s in 0..r.range(2, 4) {
            let k = r.below(es.len());
            if es[k] == E::Iter && r.chance(1, 3) {
                let mut v = iterate(r, &mut b, p, Some(envs[k]), s as u8);
                let j = r.below(v.len());
                if matches!(v[j].op, Op::Pull { .. } | Op::Open { .. }) {
                    add_plan(r, &mut v[j], Act::Panic);
                    v.truncate(j + 1);
                    v.push(OpSpec::new(Op::Close { slot: s as u8 }));
                }
                ops.extend(v);
                continue;
            }
            let mut o = cust_find(r, &mut b, p, es[k], envs[k]);
            let again = o.clone();
            if r.chance(3, 4) {
                add_plan(r, &mut o, Act::Panic);
                ops.push(o);
                if r.chance(1, 2) {
                    ops.push(again);
                }
            } else {
                ops.push(find(r, &mut b, p, es[k], Some(envs[k])));
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}

// ------------------------------------------------------------------ C04
fn nested_op(r: &mut Rng, b: &mut B, p: &Pool, es: &[E], envs: &[u16], depth: usize) -> OpSpec {
    let k = r.below(es.len());
    let (e, env) = (es[k], envs[k]);
    let mut o = match r.below(8) {
        0 => parse(r, b, p, *r.clone().pick(&PARSERS)),
        1 => render(r, b, p, e, WPlan::Fine),
        2 | 3 => find(r, b, p, e, Some(env)),
        _ => cust_find(r, b, p, e, env),
    };
    if depth > 0 && matches!(o.op, Op::Find { .. }) && r.chance(1, 2) {
        let inner = nested_op(r, b, p, es, envs, depth - 1);
        add_plan(r, &mut o, Act::Nest(Box::new(inner)));
    } else if r.chance(1, 8) {
        add_plan(r, &mut o, Act::Panic);
    }
    o
}
fn c04(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C04", r, p);
    }
    let mut b = B::new("C04", r);
    let n = r.range(1, 2);
    let es = engines(r, n);
    let envs: Vec<u16> = es.iter().map(|e| b.env(*e, 1)).collect();
    if r.chance(1, 14) {
        // a deep tower of evaluations within evaluations
        let d = [8, 20, 40, 80, 130, 260][r.below(6)];
        let (e, env) = (es[0], envs[0]);
        let q = r.pick(&["$[?f2(@.s)]", "$..[?f2(@)]", "$.*[?f2(f0(@))]", "$[?f7(f0(@.a), 1) || f2(@)]"]).to_string();
        let ex = Ex { text: q, q: None, custom: true, sing: false, seq: false };
        let doc = b.doc(&records_min());
        let mk = |b: &mut B, r: &mut Rng| {
            let how = if r.chance(1, 2) { How::Query(b.query(e, &ex)) } else { b.env_how(e, &ex.text) };
            OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 2) })
        };
        let mut o = mk(&mut b, r);
        for _ in 0..d {
            let mut x = mk(&mut b, r);
            x.plan.push((0, Act::Nest(Box::new(o))));
            o = x;
        }
        b.task(vec![o]);
        b.s.tasks[0].stack = 64 << 20;
        b.s.sched.strat = 0;
        b.s.tag = "deep tower".into();
        return b.s;
    }
    if r.chance(1, 4) {
        // one query: from within its own evaluation, over other documents
        let (e, env) = (es[0], envs[0]);
        for _ in 0..r.range(1, 4) {
            let (qs, docs) = f_within(r);
            let x = Ex { text: r.pick(&qs).clone(), q: None, custom: true, sing: false, seq: false };
            let how = if r.chance(4, 5) { How::Query(b.query(e, &x)) } else { b.env_how(e, &x.text) };
            let ds: Vec<u16> = docs.iter().map(|d| b.doc(d)).collect();
            let mk = |r: &mut Rng| OpSpec::new(Op::Find { e, how: how.clone(), env, doc: *r.pick(&ds), loopy: r.chance(1, 3) });
            let mut o = mk(r);
            for _ in 0..r.range(1, 3) {
                let mut i = mk(r);
                if r.chance(1, 4) {
                    let a = if r.chance(1, 4) { Act::Panic } else { Act::Nest(Box::new(mk(r))) };
                    add_plan(r, &mut i, a);
                }
                add_plan(r, &mut o, Act::Nest(Box::new(i)));
            }
            b.task(vec![o]);
            if r.chance(2, 3) {
                let n = b.s.tasks.len();
                if n > 1 {
                    // one after the other
                    let o = b.s.tasks.pop().unwrap();
                    b.s.tasks[0].ops.extend(o.ops);
                }
            }
        }
        b.s.tag = "one query within itself".into();
        return b.s;
    }
    let nt = [1, 1, 2, 3][r.below(4)];
    for _ in 0..nt {
        let mut ops = vec![];
        for s in 0..r.range(1, 3) {
            let k = r.below(es.len());
            if es[k] == E::Iter && r.chance(1, 3) {
                let mut v = iterate(r, &mut b, p, Some(envs[k]), s as u8);
                for o in v.iter_mut() {
                    if matches!(o.op, Op::Open { .. } | Op::Pull { .. }) {
                        let inner = nested_op(r, &mut b, p, &es, &envs, 1);
                        add_plan(r, o, Act::Nest(Box::new(inner)));
                    }
                }
                ops.extend(v);
            } else {
                if r.chance(1, 3) {
                    let n = r.range(2, 4);
                    let outer = family(r, &mut b, p, es[k], Some(envs[k]), Use::Custom, n);
                    let mut inner = outer.clone();
                    let n = r.range(1, 3);
                    inner.extend(family(r, &mut b, p, es[k], Some(envs[k]), Use::Any, n));
                    for _ in 0..r.range(1, 3) {
                        let mut o = r.pick(&outer).clone();
                        for _ in 0..r.range(1, 4) {
                            let mut i = r.pick(&inner).clone();
                            if r.chance(1, 3) {
                                let j = r.pick(&inner).clone();
                                add_plan(r, &mut i, Act::Nest(Box::new(j)));
                            }
                            add_plan(r, &mut o, Act::Nest(Box::new(i)));
                        }
                        ops.push(o);
                    }
                    continue;
                }
                let mut o = cust_find(r, &mut b, p, es[k], envs[k]);
                for _ in 0..r.range(1, 2) {
                    let inner = nested_op(r, &mut b, p, &es, &envs, 2);
                    add_plan(r, &mut o, Act::Nest(Box::new(inner)));
                }
                ops.push(o);
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}
fn records_min() -> Doc {
    Doc::Text("[{\"s\":\"ab\",\"a\":1},{\"s\":\"\",\"a\":0}]".into())
}

// ------------------------------------------------------------------ C05
/// nearly all of many threads are suspended within evaluations
fn c05_many(r: &mut Rng, p: &Pool) -> Spec {
    let mut b = B::new("C05", r);
    let es = { let n = r.range(1, 2); engines(r, n) };
    let envs: Vec<u16> = es.iter().map(|e| b.env(*e, 1)).collect();
    let mut sets = vec![];
    for k in 0..es.len() {
        let mut v = family(r, &mut b, p, es[k], Some(envs[k]), Use::Custom, 3);
        v.push(cust_find(r, &mut b, p, es[k], envs[k]));
        sets.push(v);
    }
    if r.chance(1, 3) {
        // many iterators which are part of the way
        let env = b.env(E::Iter, 1);
        let mut all = family(r, &mut b, p, E::Iter, Some(env), Use::Any, 2);
        all.extend(family(r, &mut b, p, E::Iter, Some(env), Use::Any, 2));
        let n = [6, 10, 18, 34, 70, 140][r.below(6)];
        let mut v = vec![];
        let opened = |r: &mut Rng, v: &mut Vec<OpSpec>, s: usize| {
            if let Op::Find { how, env, doc, .. } = &r.pick(&all).op {
                v.push(OpSpec::new(Op::Open { how: how.clone(), env: *env, doc: *doc, slot: s as u8 }));
                if r.chance(3, 4) {
                    v.push(OpSpec::new(Op::Pull { slot: s as u8, n: 1, mode: r.below(2) as u8 }));
                }
            }
        };
        for s in 0..n {
            opened(r, &mut v, s);
        }
        v.push(OpSpec::new(Op::Stall(u64::MAX)));
        b.task(v);
        let mut v = vec![];
        for s in 0..r.range(1, 3) {
            opened(r, &mut v, s);
            v.push(OpSpec::new(Op::Pull { slot: s as u8, n: 1000, mode: 0 }));
        }
        v.extend(draws(r, &all, 2, false));
        b.task(v);
        b.s.tag = "many unfinished iterators".into();
        return b.s;
    }
    let nt = r.range(6, 15);
    let free = r.range(1, 2);
    for t in 0..nt {
        let k = r.below(es.len());
        if t < nt - free {
            let mut v: Vec<OpSpec> = vec![];
            for s in 0..r.range(1, 2) as u8 {
                let mut o = r.pick(&sets[k]).clone();
                match &o.op {
                    Op::Find { e: E::Iter, how, env, doc, .. } if r.chance(1, 3) => {
                        v.push(OpSpec::new(Op::Open { how: how.clone(), env: *env, doc: *doc, slot: s }));
                        let mut pull = OpSpec::new(Op::Pull { slot: s, n: 1000, mode: 0 });
                        if r.chance(1, 2) {
                            pull.plan.push((r.below(2) as u32, Act::Stall(u64::MAX)));
                        } else {
                            v.push(OpSpec::new(Op::Pull { slot: s, n: 1, mode: 0 }));
                            v.push(OpSpec::new(Op::Stall(u64::MAX)));
                        }
                        v.push(pull);
                    }
                    _ => {
                        let at = if r.chance(3, 4) { 0 } else { r.below(3) as u32 };
                        o.plan.push((at, Act::Stall(u64::MAX)));
                        v.push(o);
                    }
                }
            }
            b.task(v);
        } else {
            let mut v = draws(r, &sets[k], 2, false);
            v.extend(family(r, &mut b, p, es[k], Some(envs[k]), Use::Any, 2));
            v.push(parse(r, &mut b, p, *r.clone().pick(&PARSERS)));
            v.push(render(r, &mut b, p, *r.clone().pick(&PARSERS), WPlan::Fine));
            r.shuffle(&mut v);
            // an iterator is opened before it is pulled
            v.retain(|o| !matches!(o.op, Op::Open { .. } | Op::Pull { .. } | Op::Close { .. }));
            b.task(v);
        }
    }
    b.s.tag = "many suspended threads".into();
    b.s
}
fn c05(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, 10) {
        return c05_many(r, p);
    }
    let mut b = B::new("C05", r);
    let n = r.range(1, 2);
    let es = engines(r, n);
    let envs: Vec<u16> = es.iter().map(|e| b.env(*e, 1)).collect();
    let nt = [2, 2, 3, 4][r.below(4)];
    let stalled = r.range(1, nt - 1);
    let related = r.chance(1, 3);
    let set = if related {
        let n = r.range(2, 5);
        let mut v = family(r, &mut b, p, es[0], Some(envs[0]), Use::Any, n);
        v.extend(family(r, &mut b, p, es[0], Some(envs[0]), Use::Custom, 2));
        v
    } else {
        vec![]
    };
    for t in 0..nt {
        let mut ops = vec![];
        if related && (t >= stalled || r.chance(1, 2)) {
            let n = r.range(2, 6);
            let mut v = draws(r, &set, n, false);
            if t < stalled {
                for o in v.iter_mut() {
                    if matches!(o.op, Op::Find { .. }) {
                        add_plan(r, o, Act::Stall(u64::MAX));
                    }
                }
                let at = r.below(v.len());
                v.insert(at, OpSpec::new(Op::Stall(u64::MAX)));
            }
            b.task(v);
            continue;
        }
        for s in 0..r.range(1, 3) {
            let k = r.below(es.len());
            let (e, env) = (es[k], envs[k]);
            if t < stalled {
                match r.below(6) {
                    0 => {
                        let w = WPlan::Stall(r.below(4) as u32);
                        ops.push(render(r, &mut b, p, *r.clone().pick(&PARSERS), w));
                    }
                    1 | 2 if es.contains(&E::Iter) || r.chance(1, 2) => {
                        let ie = b.env(E::Iter, 1);
                        let mut v = iterate(r, &mut b, p, Some(ie), s as u8);
                        let at = r.range(1, v.len() - 1);
                        v.insert(at, OpSpec::new(Op::Stall(u64::MAX)));
                        // through other objects in the same thread
                        if r.chance(1, 2) {
                            let o = any_op(r, &mut b, p, e, Some(env));
                            v.insert(at, o);
                        }
                        ops.extend(v);
                    }
                    _ => {
                        let mut o = cust_find(r, &mut b, p, e, env);
                        let stall = if r.chance(3, 4) { u64::MAX } else { r.below(30_000) as u64 };
                        add_plan(r, &mut o, Act::Stall(stall));
                        ops.push(o);
                    }
                }
            } else if e == E::Iter && r.chance(1, 4) {
                ops.extend(iterate(r, &mut b, p, Some(env), s as u8));
            } else {
                let pe = *r.pick(&PARSERS);
                ops.push(match r.below(8) {
                    0 => parse(r, &mut b, p, pe),
                    1 => render(r, &mut b, p, pe, WPlan::Fine),
                    _ => find(r, &mut b, p, e, Some(env)),
                });
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} of {} threads may stall", stalled, nt);
    b.s
}
fn c05_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    let mut v = c.universal(sp, run, false);
    if run.stats.blocked_by_stall {
        v.push(viol("blocked-by-suspended", format!("an operation cannot proceed while another evaluation is suspended in caller code: {}", run.diag)));
    }
    v
}

// ------------------------------------------------------------------ C06
fn noseq<'a>(r: &mut Rng, p: &'a Pool) -> &'a Ex {
    loop {
        let ex = match r.below(5) {
            0 => r.pick(&p.std),
            1 => r.pick(&p.rex),
            _ => r.pick(&p.cust),
        };
        if !ex.seq {
            return ex;
        }
    }
}
/// how an iterator is advanced: mostly with next()
fn any_mode(r: &mut Rng) -> u8 {
    if r.chance(2, 3) {
        0
    } else {
        r.range(1, 5) as u8
    }
}
fn c06(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C06", r, p);
    }
    let mut b = B::new("C06", r);
    let nt = [1, 1, 1, 2, 3][r.below(5)];
    let env = b.env(E::Iter, 1);
    let mut docs: Vec<u16> = (0..2).map(|_| b.doc(p.doc(r))).collect();
    let mut related: Vec<Ex> = vec![];
    let twins = r.chance(1, 4);
    if twins {
        // few queries over few containers, pulled alternately
        let (q, d) = crate::families::f_containers(r);
        related = q.into_iter().map(|t| Ex { custom: is_custom(&t), q: None, sing: false, seq: false, text: t }).collect();
        docs = d.iter().map(|d| b.doc(d)).collect();
    } else if r.chance(1, 3) {
        let mode = if r.chance(1, 2) { Use::Custom } else { Use::Any };
        docs.clear();
        for o in family(r, &mut b, p, E::Iter, Some(env), mode, 4) {
            if let Op::Find { how, doc, .. } = &o.op {
                let t = match how {
                    How::Query(q) => b.s.exprs[b.s.queries[*q as usize].expr as usize].clone(),
                    How::Top(x) | How::Env(x) | How::Std(x) | How::Parser(_, x) => b.s.exprs[*x as usize].clone(),
                };
                docs.push(*doc);
                if !t.contains("f6(") {
                    related.push(Ex { custom: is_custom(&t), q: None, sing: false, seq: false, text: t });
                }
            }
        }
    }
    for _ in 0..nt {
        let ns = r.range(if twins { 2 } else { 1 }, 4) as u8;
        let mut ops = vec![];
        let mut open = vec![false; ns as usize];
        for _ in 0..if twins { r.range(8, 20) } else { r.range(3, 14) } {
            let s = r.below(ns as usize);
            if !open[s] {
                let ex = if related.is_empty() { noseq(r, p).clone() } else { r.pick(&related).clone() };
                let how = match r.below(4) {
                    0 | 1 => b.env_how(E::Iter, &ex.text),
                    2 => How::Query(b.query(E::Iter, &ex)),
                    _ if !ex.custom => How::Top(b.expr(&ex.text)),
                    _ => b.env_how(E::Iter, &ex.text),
                };
                let doc = if twins || r.chance(3, 4) { *r.pick(&docs) } else { b.doc(p.doc(r)) };
                let env = if matches!(how, How::Top(_)) { DEFENV } else { env };
                ops.push(OpSpec::new(Op::Open { how, env, doc, slot: s as u8 }));
                open[s] = true;
                continue;
            }
            match r.below(12) {
                0 => {
                    ops.push(OpSpec::new(Op::Close { slot: s as u8 }));
                    open[s] = false;
                }
                1 => ops.push(find(r, &mut b, p, E::Iter, Some(env))),
                2 => ops.push(OpSpec::new(Op::Pause)),
                3 => ops.push(OpSpec::new(Op::Stall(r.below(20_000) as u64))),
                4 | 5 if !twins => ops.push(OpSpec::new(Op::Pull { slot: s as u8, n: 1000, mode: any_mode(r) })),
                _ => ops.push(OpSpec::new(Op::Pull { slot: s as u8, n: r.range(1, 3) as u32, mode: any_mode(r) % 4 })),
            }
        }
        for s in 0..ns {
            if open[s as usize] && r.chance(1, 2) {
                ops.push(OpSpec::new(Op::Pull { slot: s, n: 100_000, mode: any_mode(r) }));
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}
struct Eager {
    text: String,
    calls: Vec<String>,
    marks: Option<Vec<usize>>,
    n: i64,
}
/// the syntax tree of a text, for the reference model
fn tree(pool: &BTreeMap<String, Q>, t: &str) -> Option<Q> {
    pool.get(t).cloned().or_else(|| crate::qparse::parse(t))
}
fn eager(c: &mut Ctx, sp: &Spec, how: &How, env: u16, doc: u16, pool: &BTreeMap<String, Q>) -> Option<Eager> {
    // the same query on the same document, evaluated eagerly by another crate
    let (text, custom) = match how {
        How::Top(x) | How::Env(x) | How::Std(x) | How::Parser(_, x) => (sp.exprs[*x as usize].clone(), true),
        How::Query(q) => (sp.exprs[sp.queries[*q as usize].expr as usize].clone(), true),
    };
    let _ = custom;
    let tag = if env == DEFENV { None } else { sp.envs[env as usize].funcs.first().map(|f| f.1.tag) };
    let e = E::Loc;
    let mut r = Rng::new(1);
    let mut b = B::new("ref", &mut r);
    b.over = env != DEFENV && overridden(&sp.envs[env as usize]);
    let over = b.over;
    let d = b.doc(&sp.docs[doc as usize]);
    let x = b.expr(&text);
    let (how, env) = match tag {
        Some(t) => (b.env_how(e, &text), b.env(e, t)),
        None => (How::Top(x), DEFENV),
    };
    b.task(vec![OpSpec::new(Op::Find { e, how, env, doc: d, loopy: false })]);
    b.s.tasks[0].stack = 64 << 20;
    b.s.sched = crate::rt::SchedSpec { budget: 400_000_000, ..Default::default() };
    b.s.mem = crate::rt::MemSpec { entropy: 7, clock_base: 1_000_000_000, ..Default::default() };
    let rf = c.reference_of(&b.s);
    let o = rf.op.as_ref()?;
    if o.k != "ok" || o.text.len() >= 2990 || o.calls.len() as u32 != o.ncalls {
        return None;
    }
    let mut marks = None;
    if let Some(q) = &tree(pool, &text) {
        let v = build_doc(&sp.docs[doc as usize]);
        let mut m = model::Model::new(&v, tag.unwrap_or(0));
        m.over = over;
        let n = m.find(q, &v, &v);
        if !m.unknown && m.text(&n) == o.text && m.calls == o.calls {
            marks = Some(n.iter().map(|n| n.at).collect());
        } else {
            *c.cov.skipped.entry("demand bound (model and eager evaluation differ)".into()).or_insert(0) += 1;
            if std::env::var_os("SIM_DEBUG").is_some() {
                eprintln!("{} {} {:?} {:?} {:?} {:?}", text, v, m.text(&n), o.text, m.calls, o.calls);
            }
        }
    }
    Some(Eager { text: o.text.clone(), calls: o.calls.clone(), marks, n: o.n })
}
fn c06_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    let mut v = c.universal(sp, run, false);
    if !v.is_empty() || run.status != "done" {
        return v;
    }
    let pool = c.exprs.clone();
    // per iterator: everything it yielded against the eager result
    for (t, ts) in sp.tasks.iter().enumerate() {
        let res = |i: usize| run.out.ops.iter().find(|x| x.t as usize == t && x.i as usize == i && x.nest.is_empty());
        for (i, o) in ts.ops.iter().enumerate() {
            let Op::Open { how, env, doc, slot } = &o.op else { continue };
            let Some(ro) = res(i) else { continue };
            if ro.k != "ok" {
                continue;
            }
            let Some(eg) = eager(c, sp, how, *env, *doc, &pool) else {
                *c.cov.skipped.entry("no eager result".into()).or_insert(0) += 1;
                continue;
            };
            let lines: Vec<&str> = eg.text.split_inclusive('\n').collect();
            // (names with line breaks)
            let by_line = lines.len() as i64 == eg.n;
            let mut skipped = false;
            let mut text = String::new();
            let mut calls = ro.calls.clone();
            let mut items = 0usize;
            let mut done = false;
            let base = |x: &OpRes| x.x.first().copied().unwrap_or(0) == 1;
            for j in i + 1..ts.ops.len() {
                match &ts.ops[j].op {
                    Op::Pull { slot: s, n, mode } if s == slot => {
                        let Some(p) = res(j) else { break };
                        if let Some(m) = &eg.marks {
                            for (k, mk) in p.x.iter().skip(1).enumerate() {
                                let so_far = calls.len() + *mk as usize;
                                if items + k < m.len() && so_far > m[items + k] {
                                    v.push(viol("not-on-demand", format!("{}: {} function calls were made by the time item {} was yielded, {} suffice", describe(sp, p), so_far, items + k, m[items + k])));
                                    return v;
                                }
                            }
                        }
                        // items which were passed over or only counted
                        let rest = &lines[items.min(lines.len())..];
                        let wrong = by_line
                            && match mode {
                                2 if p.n > 0 => rest.get(*n as usize - 1).copied() != Some(p.text.as_str()),
                                2 => rest.len() >= *n as usize,
                                4 => rest.last().copied().unwrap_or("") != p.text,
                                5 => rest.len() as i64 != p.n,
                                _ => skipped && rest.get(..p.n as usize).map(|l| l.concat()) != Some(p.text.clone()),
                            };
                        if wrong {
                            v.push(viol("not-eager-result", format!("{}: {} items of {:?} had been passed, and the next ones were {} {:?}", describe(sp, p), items, eg.text, p.n, p.text)));
                            return v;
                        }
                        if matches!(mode, 2 | 4 | 5) {
                            skipped = true;
                        }
                        text += &p.text;
                        calls.extend(p.calls.clone());
                        items += p.n as usize;
                        if matches!(mode, 4 | 5) || *mode == 2 && p.n == 0 {
                            items = lines.len();
                        }
                        done = base(p);
                    }
                    Op::Close { slot: s } | Op::Open { slot: s, .. } if s == slot => break,
                    _ => {}
                }
            }
            if !skipped && (!eg.text.starts_with(&text) || (done && text != eg.text)) {
                v.push(viol("not-eager-result", format!("{}: yielded {:?}{} where the eager result is {:?}", describe(sp, ro), text, if done { " and then ended" } else { "" }, eg.text)));
            } else if calls.len() > eg.calls.len() || calls[..] != eg.calls[..calls.len()] || (done && calls != eg.calls) {
                v.push(viol("not-eager-calls", format!("{}: custom function calls differ from those of the eager evaluation", describe(sp, ro))));
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C07
fn c07(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    let mut b = B::new("C07", r);
    b.s.sched.strat = 0;
    let e = *r.pick(&ENGINES);
    let scen = r.below(8);
    let mut ops: Vec<OpSpec> = vec![];
    let measure = || OpSpec::new(Op::Measure);
    match scen {
        // many distinct patterns / query texts / documents: flat after a warm-up
        0 | 1 | 2 => {
            let env = if r.chance(1, 2) { b.env(e, 1) } else { DEFENV };
            let doc = b.doc(&records_min());
            let per = 60;
            let kind = match scen {
                0 => [0, 1, 6, 7, 8, 9][r.below(6)],
                1 => 2 + r.below(4),
                _ => 10 + r.below(9),
            };
            let rounds = if (6..10).contains(&kind) { 19 } else { 14 };
            let letters = alpha(r.below(26 * 26 * 26));
            let pe = *r.pick(&PARSERS);
            let ps = b.new_parser(pe);
            for round in 0..rounds {
                for i in 0..per {
                    let k = round * per + i;
                    let t = match kind {
                        0 => format!("$[?match(@.s, 'a{:05}b*')]", k),
                        1 => format!("$[?search(@.s, '[a-c]{:05}')]", k),
                        2 => format!("$.a{}.b", alpha(k)),
                        3 => format!("$[?@.s == 'v{:05}' && count(@.*) > 1]", k),
                        4 => format!("$[?@.a == {}", 10_000 + k), // invalid
                        5 => format!("$['m{:05}', {}]", k, 10_000 + k),
                        // patterns which do not compile
                        6 => format!("$[?match(@.s, '({:05}')]", k),
                        7 => format!("$[?search(@.s, '[{:05}')]", k),
                        8 => format!("$[?match(@.s, 'a{{9,{:05}}}*)')]", k),
                        // both functions, valid and invalid
                        9 => format!("$[?{}(@.s, '{}{:05}')]", ["match", "search"][k % 2], ["a", "(", "b|", "*"][(k / 2) % 4], k),
                        10 => format!("$[?nosuch{}(@.a)]", alpha(k)),
                        11 => format!("$[?count(@.a{}, @.b) > 1]", alpha(k)),
                        12 => format!("$[?match('s{:05}', 'a.*') || length('{}') == 9]", k, alpha(k)),
                        13 => format!("$[?@.a == {}.5 || @.b == -{}e-1]", 10_000 + k, 10_000 + k),
                        14 => format!("$['\\u00e9{}', \"{}\\n\"]", alpha(k), alpha(k)),
                        15 => format!("$..{}..[?@.{} == $.{}]", alpha(k), alpha(k), alpha(k)),
                        16 => format!("$[{}:{}, {}]", 10_000 + k, 20_000 + k, -(10_000 + k as i64)),
                        17 => format!("$[90071992547{:05}99]", k),
                        _ => format!("{}$.{}", alpha(k), letters),
                    };
                    let x = b.expr(&t);
                    let how = if env == DEFENV { if k % 2 == 0 || matches!(e, E::Serde | E::Iter) { How::Top(x) } else { How::Std(x) } } else { How::Env(x) };
                    let patterns = kind < 2 || (6..10).contains(&kind);
                    ops.push(if !patterns && k % 2 == 1 {
                        OpSpec::new(Op::Parse { e: pe, parser: if k % 4 == 1 { Some(ps) } else { None }, expr: x })
                    } else {
                        OpSpec::new(Op::Find { e, how, env, doc, loopy: k % 3 == 0 })
                    });
                }
                ops.push(measure());
            }
            b.s.par = vec![1, rounds as i64, per as i64, if rounds == 19 { 10 } else { 5 }];
            let what = [
                "match patterns", "search patterns", "query texts", "filter texts", "invalid texts", "names and indices", "invalid match patterns", "invalid search patterns",
                "unbalanced match patterns", "patterns of all kinds", "unknown functions", "wrong arguments", "subjects and string arguments", "numbers", "escaped names", "descendant names",
                "slices", "indices out of range", "texts with a false start",
            ];
            b.s.tag = format!("distinct {}", what[kind]);
        }
        // every round has a document of its own: other values, patterns, members, shapes
        6 | 7 => {
            let env = if r.chance(1, 2) { b.env(e, 1) } else { DEFENV };
            let kind = r.below(6);
            let rounds = 60;
            let t = match kind {
                0 => r.pick(&[RX_MATCH, RX_SEARCH]).to_string(),
                1 => "$[?@.s == $[0].s && length(@.s) > 2]".to_string(),
                2 => "$..*".to_string(),
                3 => "$[?match(@.s, @.p) || search(@.s, @.q)]".to_string(),
                4 => "$[?count(@..*) > 1]".to_string(),
                _ => p.text(r).text.clone(),
            };
            let x = b.expr(&t);
            let how = match r.below(3) {
                0 => {
                    let ex = Ex { custom: is_custom(&t), text: t.clone(), q: None, sing: false, seq: false };
                    How::Query(b.query(e, &ex))
                }
                _ if env == DEFENV => How::Top(x),
                _ => b.env_how(e, &t),
            };
            for round in 0..rounds {
                for i in 0..3 {
                    let k = round * 3 + i;
                    let rec = |j: usize| {
                        serde_json::json!({"s": format!("v{:05}{}", k, j), "p": format!("{}{:05}{}*", ["v", "(", "["][(k + j) % 3], k, j), "q": format!("[a-c]{:05}", k * 10 + j),
                            "a": 10_000 + k, format!("m{:05}", k): [k, j]})
                    };
                    let d = serde_json::Value::Array((0..4).map(rec).collect());
                    let doc = b.doc(&Doc::Text(d.to_string()));
                    let mut o = OpSpec::new(Op::Find { e, how: how.clone(), env, doc, loopy: k % 3 == 0 });
                    o.fresh = true;
                    ops.push(o);
                }
                ops.push(measure());
            }
            b.s.par = vec![1, rounds as i64, 12, 35];
            b.s.tag = format!("distinct documents, {}", ["patterns from them", "compared strings", "all nodes", "both functions", "counts", "any query"][kind]);
        }
        // the same history again and again, with panics, abandoned iterators, refused writes
        3 | 4 => {
            let env = if r.chance(2, 3) { Some(b.env(e, 1)) } else { None };
            let mut unit: Vec<OpSpec> = vec![];
            for s in 0..r.range(1, 4) {
                match r.below(9) {
                    0 => {
                        let ie = b.env(E::Iter, 1);
                        let mut v = iterate(r, &mut b, p, Some(ie), s as u8);
                        if !matches!(v.last().unwrap().op, Op::Close { .. }) {
                            v.push(OpSpec::new(Op::Close { slot: s as u8 }));
                        }
                        let j = v.len() - 2;
                        if r.chance(1, 2) {
                            add_plan(r, &mut v[j], Act::Panic);
                        }
                        unit.extend(v);
                    }
                    1 => {
                        let w = match r.below(3) {
                            0 => WPlan::Fail(r.below(5) as u32),
                            1 => WPlan::Panic(r.below(5) as u32),
                            _ => WPlan::Short(r.below(20) as u32),
                        };
                        unit.push(render(r, &mut b, p, *r.clone().pick(&PARSERS), w));
                    }
                    2 => unit.push(parse(r, &mut b, p, *r.clone().pick(&PARSERS))),
                    3 => {
                        let (how, env) = entry(r, &mut b, p, e, env);
                        let doc = b.doc(p.doc(r));
                        unit.push(OpSpec::new(Op::Hold { e, how, env, doc, loopy: false, slot: s as u8 }));
                        if r.chance(1, 2) {
                            unit.push(OpSpec::new(Op::ExtendHeld { slot: s as u8, i: r.below(9) as u16, k: 3 }));
                        }
                        unit.push(OpSpec::new(Op::DropHeld { slot: s as u8, mode: r.below(5) as u8 }));
                    }
                    4 => {
                        let q = b.own_query(e, None, 0);
                        let ex = r.pick(&p.std).clone();
                        let x = b.expr(&ex.text);
                        unit.push(OpSpec::new(Op::Compile { e, q, parser: None, expr: x }));
                        unit.push(OpSpec::new(Op::Release { q }));
                    }
                    5 if env.is_some() => {
                        let mut o = cust_find(r, &mut b, p, e, env.unwrap());
                        add_plan(r, &mut o, Act::Panic);
                        unit.push(o);
                    }
                    6 if env.is_some() => {
                        let mut o = cust_find(r, &mut b, p, e, env.unwrap());
                        let inner = cust_find(r, &mut b, p, e, env.unwrap());
                        add_plan(r, &mut o, Act::Nest(Box::new(inner)));
                        unit.push(o);
                    }
                    _ => {
                        let mut o = find(r, &mut b, p, e, env);
                        o.fresh = r.chance(1, 3);
                        unit.push(o);
                    }
                }
            }
            // every operation on a thread of its own: what is kept per thread goes with it
            let threads = r.chance(1, 3);
            // or few cheap operations very often: what grows a little each time
            let long = r.chance(1, 3);
            if long || threads {
                unit = family(r, &mut b, p, e, env, Use::Any, 2);
                if r.chance(1, 2) {
                    unit.push(parse(r, &mut b, p, *r.clone().pick(&PARSERS)));
                }
                if env.is_some() && r.chance(1, 4) {
                    let mut o = unit[0].clone();
                    let a = if r.chance(1, 2) { Act::Panic } else { Act::Nest(Box::new(unit[0].clone())) };
                    add_plan(r, &mut o, a);
                    unit.push(o);
                }
            }
            if threads {
                unit.iter_mut().for_each(|o| on_workers(r, 1, o));
            }
            let rounds = if long || threads { 400 } else { 40 };
            for _ in 0..rounds {
                ops.extend(unit.iter().cloned());
                ops.push(measure());
            }
            b.s.par = vec![2, rounds, 0];
            b.s.tag = if long && !threads { "long repeated history" } else if threads { "repeated history of short-lived threads" } else { "repeated history" }.into();
        }
        // environments and parsers come and go: everything returns
        _ => {
            let n = 12;
            // warm up process-wide and per-thread state
            let w = b.env(e, 1);
            for ex in p.rex.iter().take(3) {
                let x = b.expr(&ex.text);
                let doc = b.doc(p.doc(r));
                ops.push(OpSpec::new(Op::Find { e, how: How::Env(x), env: w, doc, loopy: false }));
            }
            ops.push(OpSpec::new(Op::DropEnv { env: w }));
            let picks: Vec<Ex> = (0..3).map(|_| an_ex(r, p, true, e).clone()).collect();
            let doc = b.doc(p.doc(r));
            let mut envs = vec![];
            for _ in 0..n {
                envs.push(b.new_env(e, 1));
            }
            ops.push(measure());
            for env in envs {
                for ex in &picks {
                    let x = b.env_how(e, &ex.text);
                    ops.push(OpSpec::new(Op::Find { e, how: x, env, doc, loopy: false }));
                }
                ops.push(OpSpec::new(Op::DropEnv { env }));
                ops.push(measure());
            }
            b.s.par = vec![3, n as i64, 0];
            b.s.tag = "environments come and go".into();
        }
    }
    for o in ops.iter_mut() {
        if !matches!(o.op, Op::Measure) {
            o.brief = true;
        }
    }
    b.task(ops);
    b.s
}
fn alpha(mut k: usize) -> String {
    let mut s = String::new();
    for _ in 0..4 {
        s.push((b'a' + (k % 26) as u8) as char);
        k /= 26;
    }
    s
}
fn c07_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    // results are compared on a sample only; the point is memory
    let mut v = vec![];
    if run.status != "done" {
        return c.universal(sp, run, false);
    }
    for b in &run.out.bad {
        v.push(viol("invariant", b.clone()));
    }
    let m: Vec<(i64, i64)> = run.out.ops.iter().filter(|o| o.k == "done" && o.x.len() == 2).map(|o| (o.x[0], o.x[1])).collect();
    if m.len() < 4 {
        return v;
    }
    let mode = sp.par[0];
    let last = m.len() - 1;
    match mode {
        1 => {
            // after the remembered patterns are full (100 per function), nothing may grow
            let warm = sp.par.get(3).map(|w| *w as usize).unwrap_or(5).min(last);
            let (b0, n0) = m[warm];
            let (b1, n1) = m[last];
            let items = (last - warm) as i64 * sp.par[2];
            // tolerance: one generation of remembered patterns differing in size
            if n1 - n0 > items / 12 || b1 - b0 > 24 * items + 4096 {
                v.push(viol("memory-grows", format!("{}: {} blocks / {} bytes more after {} further distinct items (from {} blocks / {} bytes)", sp.tag, n1 - n0, b1 - b0, items, n0, b0)));
            }
        }
        2 => {
            let h = m.len() / 2;
            let k = (last - h) as i64;
            let (b0, n0) = m[h];
            let (b1, n1) = m[last];
            let inc = m[h..].windows(2).all(|w| w[1].1 > w[0].1 || w[1].0 > w[0].0);
            let most = if k > 100 { 6 * k + 512 } else { 64 * k + 2048 };
            if (n1 - n0) * 2 > k || (inc && b1 > b0) || b1 - b0 > most {
                v.push(viol("memory-grows", format!("repeating the same history {} times added {} blocks / {} bytes", k, n1 - n0, b1 - b0)));
            }
        }
        _ => {
            // every measurement is taken with no environment alive
            let (b0, n0) = m[2.min(last)];
            let (b1, n1) = m[last];
            let k = (last - 2.min(last)) as i64;
            if (n1 - n0) * 2 > k || b1 - b0 > 1024 {
                v.push(viol("memory-grows", format!("{} environments created, used and dropped left {} blocks / {} bytes behind", k, n1 - n0, b1 - b0)));
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C08
fn allocs_of(c: &mut Ctx, b: &B, o: &OpSpec) -> u64 {
    let probe = Spec { tasks: vec![TaskSpec { ops: vec![o.clone()], after: 0, stack: 2 << 20 }], ..b.s.clone() };
    let red = reduce(&probe, 0, 0, o, true, false, &|_, _| None);
    red.and_then(|x| c.reference_of(&x).op.as_ref().map(|o| o.allocs)).unwrap_or(30).max(1)
}
fn c08(c: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C08", r, p);
    }
    let mut b = B::new("C08", r);
    let e = *r.pick(&ENGINES);
    let env = b.env(e, 1);
    let defaults = r.chance(1, 3);
    let nt = [1, 1, 2][r.below(3)];
    let mut warm = vec![];
    // first use of the process-wide defaults happens with memory available
    let x0 = b.expr("$[?match(@.a, 'a') && search(@.a, 'b')]");
    let d0 = b.doc(&records_min());
    for e2 in ENGINES {
        if e2 == e || r.chance(1, 4) {
            warm.push(OpSpec::new(Op::Find { e: e2, how: How::Top(x0), env: DEFENV, doc: d0, loopy: false }));
        }
    }
    let pe = *r.pick(&PARSERS);
    let xs = b.expr("$.a");
    for e2 in [e, pe] {
        warm.push(OpSpec::new(Op::Parse { e: e2, parser: None, expr: xs }));
    }
    let wt = b.task(warm);
    let scen = r.below(6);
    if r.chance(1, 2) {
        // one operation after the other, the next allocation failing each time
        let ev = if defaults { None } else { Some(env) };
        let mut set = match r.below(6) {
            0 => vec![parse(r, &mut b, p, pe)],
            1 => {
                let t = crate::texts::escaped(r);
                let expr = b.expr(&t);
                vec![OpSpec::new(Op::Parse { e: pe, parser: None, expr })]
            }
            2 => vec![render(r, &mut b, p, pe, WPlan::Fine)],
            3 => family(r, &mut b, p, e, ev, Use::Any, 1),
            4 => vec![cust_find(r, &mut b, p, e, env)],
            _ => vec![find(r, &mut b, p, e, ev)],
        };
        set.truncate(2);
        let other = find(r, &mut b, p, e, ev);
        let mut ops = vec![];
        for o in &set {
            let allocs = allocs_of(c, &b, o);
            let n = 40.min(allocs);
            let from = if allocs <= 40 { 1 } else { 1 + r.next() % (allocs - 40) };
            let many = [1, 1, 1, 2, 1000][r.below(5)];
            for k in 0..n {
                let mut o2 = o.clone();
                o2.oom.push((from + k, many));
                ops.push(o2);
                if r.chance(1, 8) {
                    ops.push(if r.chance(2, 3) { o.clone() } else { other.clone() });
                }
            }
            ops.push(o.clone());
        }
        let t = b.task(ops);
        b.s.tasks[t].after = 1 << wt;
        b.s.tag = "each allocation in turn".into();
        return b.s;
    }
    for _ in 0..nt {
        let mut ops = vec![];
        if scen < 2 {
            // related operations, some of them with failing allocations; or very many patterns
            let ev = if defaults { None } else { Some(env) };
            let mut set = if scen == 0 {
                let n = r.range(2, 5);
                family(r, &mut b, p, e, ev, Use::Any, n)
            } else {
                let fam = r.below(6);
                let x = b.expr(if r.chance(1, 2) { RX_MATCH } else { RX_SEARCH });
                let mut set = vec![];
                for _ in 0..r.range(2, 4) {
                    let (from, n) = (r.below(112), [1, 3, 20, 60, 104][r.below(5)]);
                    let v: Vec<_> = (0..n).map(|i| serde_json::json!({"s": *r.pick(&["a", "b", "ab", ""]), "p": pat_family(r, fam, (from + i) % 112)})).collect();
                    let doc = b.doc(&Doc::Text(serde_json::Value::Array(v).to_string()));
                    let (how, ev) = match ev {
                        None => (How::Top(x), DEFENV),
                        Some(v) => (How::Env(x), v),
                    };
                    set.push(OpSpec::new(Op::Find { e, how, env: ev, doc, loopy: r.chance(1, 2) }));
                }
                set
            };
            for o in set.clone() {
                let allocs = allocs_of(c, &b, &o);
                let mut o = o;
                let n = [1, 1, 2, 5, 1000][r.below(5)];
                for _ in 0..r.range(1, 2) {
                    o.oom.push((1 + r.next() % allocs, n));
                }
                set.push(o);
            }
            let n = r.range(3, 8);
            let mut v = draws(r, &set, n, false);
            for o in v.iter_mut() {
                if !o.oom.is_empty() && r.chance(1, 2) {
                    o.oom[0].0 = 1 + r.next() % (o.oom[0].0 * 2);
                }
            }
            ops.extend(v);
            let t = b.task(ops);
            b.s.tasks[t].after = 1 << wt;
            continue;
        }
        for s in 0..r.range(1, 3) {
            let mut o = match r.below(10) {
                0 | 1 => parse(r, &mut b, p, pe),
                2 => render(r, &mut b, p, pe, WPlan::Fine),
                3 if e == E::Iter => {
                    let mut v = iterate(r, &mut b, p, Some(env), s as u8);
                    v.truncate(2);
                    v[1].oom = vec![(1 + r.below(60) as u64, 1)];
                    ops.extend(v);
                    ops.push(OpSpec::new(Op::Close { slot: s as u8 }));
                    continue;
                }
                4 | 5 => cust_find(r, &mut b, p, e, env),
                _ => find(r, &mut b, p, e, if defaults { None } else { Some(env) }),
            };
            let again = o.clone();
            // how many allocations does it make?
            let allocs = allocs_of(c, &b, &o);
            let n = [1, 1, 1, 2, 5, 1000][r.below(6)];
            for _ in 0..r.range(1, 2) {
                o.oom.push((1 + r.next() % allocs, n));
            }
            ops.push(o);
            ops.push(again);
            if r.chance(1, 2) {
                ops.push(find(r, &mut b, p, e, if defaults { None } else { Some(env) }));
            }
        }
        let t = b.task(ops);
        b.s.tasks[t].after = 1 << wt;
    }
    b.s.tag = if defaults { "default environment".into() } else { "custom environment".into() };
    if scen < 2 {
        b.s.tag += [", related operations", ", many patterns"][scen];
    }
    b.s
}

// ------------------------------------------------------------------ C09
fn c09(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C09", r, p);
    }
    let mut b = B::new("C09", r);
    let nt = [1, 2, 2, 3, 4][r.below(5)];
    let es: Vec<E> = (0..r.range(1, 3)).map(|_| *r.pick(&PARSERS)).collect();
    // texts that resemble each other
    let mut texts: Vec<String> = vec![];
    let long = r.chance(1, 4);
    if long {
        // very long next to very short
        for _ in 0..r.range(1, 2) {
            texts.push(r.pick(&p.long).text.clone());
            texts.push(crate::texts::tiny(r));
        }
    } else if r.chance(1, 3) {
        for _ in 0..r.range(2, 5) {
            let t = p.text(r).text.clone();
            if r.chance(1, 3) {
                let t2 = corrupt(r, &t);
                texts.push(t2);
            }
            texts.push(t);
        }
    } else if r.chance(1, 3) {
        let ev = b.env(E::Loc, 1);
        for o in family(r, &mut b, p, E::Loc, Some(ev), Use::Parse, 4) {
            if let Op::Parse { expr, .. } = &o.op {
                let t = b.s.exprs[*expr as usize].clone();
                texts.push(t);
            }
        }
    }
    for _ in 0..r.range(if texts.is_empty() { 2 } else { 0 }, if texts.is_empty() { 5 } else { 1 }) {
        let t = match r.below(4) {
            0 => &r.pick(&p.bad).text,
            1 => &r.pick(&p.std).text,
            _ => &r.pick(&p.cust).text,
        };
        texts.push(t.clone());
        if r.chance(1, 2) {
            let t2 = corrupt(r, t);
            texts.push(t2);
        }
        if r.chance(1, 3) {
            let t2 = t.replace('a', "b");
            texts.push(t2);
        }
    }
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(2, if long { 10 } else { 6 }) {
            let e = *r.pick(&es);
            let t = r.pick(&texts).clone();
            let expr = b.expr(&t);
            let parser = match r.below(4) {
                0 => None,
                1 => Some(b.new_parser_if_few(e)),
                _ => Some(b.parser(e)),
            };
            let mut o = OpSpec::new(match r.below(10) {
                0 => Op::Tokens { expr },
                _ => Op::Parse { e, parser, expr },
            });
            if r.chance(1, 10) && parser.is_some() {
                o.oom = vec![(1 + r.below(80) as u64, 1)];
            }
            o.fresh = r.chance(1, 3);
            ops.push(o);
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads{}", nt, if long { ", long and short texts" } else { "" });
    b.s
}

// ------------------------------------------------------------------ C10
fn c10(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, 3) {
        return c10_series(r);
    }
    if r.chance(1, 8) {
        return c10_ranges(r);
    }
    let mut b = B::new("C10", r);
    let nt = [1, 1, 2, 3][r.below(4)];
    let es = engines(r, 2);
    let texts: Vec<String> = {
        let mut v: Vec<String> = vec![
            "$[?f2(@.a)]".into(), "$[?f0(@.a) == 1]".into(), "$[?f1(@.s) == '1:a']".into(), "$[?f1(@.s) == '2:ab']".into(),
            "$[?length(@.s) > 1]".into(), "$[?match(@.s, 'a.*')]".into(), "$[?search(@.s, 'b')]".into(), "$[?count(@.*) > 1]".into(),
            "$[?f4(@.*) == 3]".into(), "$[?value(@.*) == 1]".into(), "$[1]".into(), "$[7]".into(), "$[-3]".into(), "$[0:5]".into(), "$[100]".into(),
            "$[?f2(f0(@.s))]".into(), "$..[?f3(@.*)]".into(),
        ];
        for _ in 0..3 {
            v.push(r.pick(&p.cust).text.clone());
        }
        for _ in 0..2 {
            v.push(r.pick(&p.err).text.clone());
            v.push(r.pick(&p.rich).text.clone());
        }
        v
    };
    let shared_env: Vec<u16> = es.iter().map(|e| b.new_env(*e, 1)).collect();
    let shared_par: Vec<u16> = es.iter().map(|e| b.new_parser(*e)).collect();
    let all_pes: Vec<Vec<E>> = (0..nt).map(|_| (0..2).map(|_| *r.pick(&PARSERS)).collect()).collect();
    // shared instances come first: B::parser finds these
    for e in all_pes.iter().flatten() {
        b.parser(*e);
    }
    for t in 0..nt {
        // instances owned by this task
        let own: Vec<u16> = es.iter().map(|e| b.new_env(*e, 1)).collect();
        let pes = all_pes[t].clone();
        let ownp: Vec<u16> = pes.iter().map(|e| b.new_parser(*e)).collect();
        let mut ops = vec![];
        let mut queries: Vec<(E, u16)> = vec![];
        for _ in 0..r.range(4, 12) {
            let k = r.below(2);
            let x = { let t = r.pick(&texts).clone(); b.expr(&t) };
            let doc = b.doc(p.doc(r));
            let name = if r.chance(1, 3) { r.below(5) } else { 5 + r.below(NF) } as u16;
            match r.below(12) {
                0 | 1 => {
                    let f = reg(r, name);
                    ops.push(OpSpec::new(Op::RegEnv { e: es[k], env: own[k], name, f }));
                }
                2 | 3 => {
                    let f = reg(r, name);
                    ops.push(OpSpec::new(Op::RegParser { e: pes[k], parser: ownp[k], name, f }));
                }
                4 => {
                    let (lo, hi) = *r.pick(&[(-2i64, 2i64), (0, 6), (-9007199254740991, 9007199254740991), (-1, 0)]);
                    ops.push(OpSpec::new(Op::Range { e: pes[k], parser: ownp[k], lo, hi }));
                }
                5 => ops.push(OpSpec::new(Op::Parse { e: pes[k], parser: Some(ownp[k]), expr: x })),
                6 => ops.push(OpSpec::new(Op::Parse { e: pes[k], parser: if r.chance(1, 2) { None } else { Some(b.parser(pes[k])) }, expr: x })),
                7 => {
                    if ENGINES.contains(&pes[k]) {
                        let q = b.own_query(pes[k], Some(ownp[k]), x);
                        ops.push(OpSpec::new(Op::Compile { e: pes[k], q, parser: Some(ownp[k]), expr: x }));
                        queries.push((pes[k], q));
                    }
                }
                8 if !queries.is_empty() => {
                    let (e, q) = *r.pick(&queries);
                    let env = match es.iter().position(|x| *x == e) {
                        Some(i) => *r.pick(&[own[i], shared_env[i]]),
                        None => DEFENV,
                    };
                    ops.push(OpSpec::new(Op::Find { e, how: How::Query(q), env, doc, loopy: r.chance(1, 2) }));
                }
                9 => ops.push(OpSpec::new(Op::Find { e: es[k], how: b.env_x(es[k], x), env: shared_env[k], doc, loopy: r.chance(1, 2) })),
                10 => {
                    let e = es[k];
                    ops.push(if r.chance(1, 2) {
                        OpSpec::new(Op::Find { e, how: How::Top(x), env: DEFENV, doc, loopy: false })
                    } else {
                        OpSpec::new(Op::Find { e, how: How::Parser(shared_par[k], x), env: *r.pick(&[own[k], shared_env[k]]), doc, loopy: false })
                    });
                }
                _ => ops.push(OpSpec::new(Op::Find { e: es[k], how: b.env_x(es[k], x), env: own[k], doc, loopy: r.chance(1, 2) })),
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}
/// one or two names through a series of registrations, used after each of them
fn c10_series(r: &mut Rng) -> Spec {
    let mut b = B::new("C10", r);
    let nt = [1, 1, 1, 2][r.below(4)];
    let docs = [
        "[{\"a\":1,\"b\":1,\"s\":\"ab\"},{\"a\":2,\"s\":\"b\"},{\"b\":[1,2]},{}]",
        "[{\"a\":\"ab\",\"b\":\"a\",\"s\":\"a\"},{\"a\":null},{\"a\":0,\"b\":false},[1,[2]]]",
    ];
    let docs: Vec<u16> = docs.iter().map(|d| b.doc(&Doc::Text(d.to_string()))).collect();
    let many = r.chance(1, 6);
    for _ in 0..nt {
        let e = *r.pick(&ENGINES);
        let ni = r.range(1, 2);
        let envs: Vec<u16> = (0..ni).map(|_| b.new_env(e, 1)).collect();
        let pars: Vec<u16> = (0..ni).map(|_| b.new_parser(e)).collect();
        let names: Vec<u16> = (0..r.range(1, 2)).map(|_| if r.chance(1, 4) { r.below(5) } else { 5 + r.below(NF) } as u16).collect();
        let mut texts: Vec<String> = vec![];
        for n in &names {
            let f = NAMES[*n as usize];
            let t = ["N(@.a) == 1", "N(@.a)", "N(@.*)", "N(@.*) == 2", "N(@.a, @.b)", "N(@.s, 'b') == 'ab'", "N(@.s, 'b')", "N('1:a') == '1:a'", "N(N(@.a)) == 1", "!N(@.a)", "N(@.b) == N(@.a)", "N(@.s) == '1:ab'",
                "N(@.a) == 2", "N(@.*) == 3", "N(@.s) > 1", "N($[0].a) == @.a", "N(@[?@.a])",
                "N() == 1", "N()", "N((@.a == 1)) == 1", "N((@.a == 1 || @.b), @.s, @.*)", "N(f8(@.*)) == 2", "count(N(@.*)) == 2", "N(@.a, 1, 'b', @.s, @.b) != ''"];
            for _ in 0..r.range(1, 3) {
                texts.push(format!("$[?{}]", r.pick(&t).replace("N", f)));
            }
        }
        let mut ops = vec![];
        let mut queries: Vec<u16> = vec![];
        for _ in 0..if many { r.range(30, 60) } else { r.range(2, 6) } {
            let i = r.below(ni);
            let name = *r.pick(&names);
            let f = reg(r, name);
            // the environment's and the parser's registers agree most of the time
            let g = if r.chance(1, 8) { reg(r, name) } else { f.clone() };
            if !r.chance(1, 10) {
                ops.push(OpSpec::new(Op::RegEnv { e, env: envs[i], name, f }));
            }
            if !r.chance(1, 10) {
                ops.push(OpSpec::new(Op::RegParser { e, parser: pars[i], name, f: g }));
            }
            for _ in 0..if many { r.below(2) } else { r.range(1, 3) } {
                let x = { let t = r.pick(&texts).clone(); b.expr(&t) };
                let (i, k) = (r.below(ni), r.below(ni));
                let doc = *r.pick(&docs);
                match r.below(8) {
                    0 => ops.push(OpSpec::new(Op::Parse { e, parser: Some(pars[i]), expr: x })),
                    1 => {
                        let q = b.own_query(e, Some(pars[i]), x);
                        ops.push(OpSpec::new(Op::Compile { e, q, parser: Some(pars[i]), expr: x }));
                        queries.push(q);
                    }
                    2 | 3 if !queries.is_empty() => {
                        let q = *r.pick(&queries);
                        ops.push(OpSpec::new(Op::Find { e, how: How::Query(q), env: envs[k], doc, loopy: r.chance(1, 2) }));
                    }
                    4 => ops.push(OpSpec::new(Op::Find { e, how: How::Env(x), env: envs[k], doc, loopy: r.chance(1, 2) })),
                    _ => ops.push(OpSpec::new(Op::Find { e, how: How::Parser(pars[i], x), env: envs[k], doc, loopy: r.chance(1, 2) })),
                }
            }
        }
        b.task(ops);
    }
    b.s.tag = if many { "a long series of registrations".into() } else { "a series of registrations".into() };
    b.s
}
/// parsers with different index ranges, and few integers
fn c10_ranges(r: &mut Rng) -> Spec {
    let mut b = B::new("C10", r);
    let nt = [1, 1, 2, 3][r.below(4)];
    let doc = b.doc(&Doc::Text("[0, 1, 2, [3, 4], 5, {\"a\": [1, 2, 3, 4, 5, 6, 7, 8]}]".into()));
    let shapes = ["$[N]", "$[N:]", "$[:N]", "$[::N]", "$[N:M]", "$[N, M]", "$..[N]", "$[?@[N]]", "$[?@.a[N] == 1]", "$[N].a", "$[M:N:M]", "$[?count(@[N:M]) == 2]", "$['a', N]"];
    for _ in 0..nt {
        let e = *r.pick(&PARSERS);
        let k = r.range(2, 3);
        let pars: Vec<u16> = (0..k).map(|_| b.new_parser(e)).collect();
        let ints: Vec<i64> = (0..r.range(1, 3)).map(|_| *r.pick(&[0i64, 1, 2, 3, 5, 7, -1, -2, -7, 100, 9007199254740991, -9007199254740991])).collect();
        let ranges = [(-2i64, 2i64), (0, 6), (-9007199254740991, 9007199254740991), (-1, 0), (1, 7), (-100, 100), (3, 3)];
        let texts: Vec<u16> = (0..r.range(1, 3))
            .map(|_| {
                let t = r.pick(&shapes).replace("N", &r.pick(&ints).to_string()).replace("M", &r.pick(&ints).to_string());
                b.expr(&t)
            })
            .collect();
        let mut ops = vec![];
        let mut queries: Vec<u16> = vec![];
        for _ in 0..r.range(4, 16) {
            let x = *r.pick(&texts);
            let pr = *r.pick(&pars);
            match r.below(8) {
                0..=2 => {
                    let (lo, hi) = *r.pick(&ranges);
                    ops.push(OpSpec::new(Op::Range { e, parser: pr, lo, hi }));
                }
                3 => ops.push(OpSpec::new(Op::Parse { e, parser: None, expr: x })),
                4 if ENGINES.contains(&e) => {
                    let q = b.own_query(e, Some(pr), x);
                    ops.push(OpSpec::new(Op::Compile { e, q, parser: Some(pr), expr: x }));
                    queries.push(q);
                }
                5 if !queries.is_empty() => {
                    let q = *r.pick(&queries);
                    ops.push(OpSpec::new(Op::Find { e, how: How::Query(q), env: DEFENV, doc, loopy: r.chance(1, 2) }));
                }
                _ => ops.push(OpSpec::new(Op::Parse { e, parser: Some(pr), expr: x })),
            }
        }
        b.task(ops);
    }
    b.s.tag = "index ranges".into();
    b.s
}
fn reg(r: &mut Rng, name: u16) -> Option<FnSpec> {
    if r.chance(1, 4) {
        return None;
    }
    let kind = if r.chance(1, 2) && name >= 5 { KINDS[name as usize - 5] } else { *r.pick(&KINDS) };
    Some(FnSpec { kind, tag: r.range(1, 3) as u32 })
}

// ------------------------------------------------------------------ C11
fn c11(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    let mut b = B::new("C11", r);
    let nt = [1, 2, 2, 3, 4, 6][r.below(6)];
    let es: Vec<E> = (0..r.range(1, 2)).map(|_| *r.pick(&PARSERS)).collect();
    let e0 = *r.pick(&ENGINES);
    let kind = r.chance(1, 3);
    let related = kind || r.chance(1, 3);
    let set = if kind {
        // one library, one sort of text
        let k = r.below(8);
        let e = if k == 7 { e0 } else { *r.pick(&PARSERS) };
        let mut v = vec![];
        for _ in 0..5 {
            let t = match k {
                0 | 1 => crate::texts::escaped(r),
                2 => r.pick(&p.rex).text.clone(),
                3 => r.pick(&p.std).text.clone(),
                4 => r.pick(&p.rich).text.clone(),
                5 => r.pick(&p.err).text.clone(),
                6 => r.pick(&p.bad).text.clone(),
                _ => {
                    let l = lookalikes(r);
                    format!("$[?{}(@.s, {})]", if r.chance(1, 2) { "search" } else { "match" }, Vx::Str(r.pick(&l).clone()))
                }
            };
            let x = b.expr(&t);
            v.push(if ENGINES.contains(&e) && !is_custom(&t) && r.chance(1, 2) {
                let d = b.doc(&records_min());
                OpSpec::new(Op::Find { e, how: How::Top(x), env: DEFENV, doc: d, loopy: false })
            } else {
                OpSpec::new(Op::Parse { e, parser: None, expr: x })
            });
        }
        v
    } else if related {
        family(r, &mut b, p, e0, None, Use::Default, 4)
    } else {
        vec![]
    };
    for t in 0..nt {
        let mut ops = vec![];
        if related {
            let n = r.range(1, 4);
            ops = draws(r, &set, n, false);
            b.task(ops);
            continue;
        }
        for _ in 0..r.range(1, 2) {
            let e = *r.pick(&es);
            let ex = match r.below(10) {
                0 => r.pick(&p.bad),
                1..=4 => r.pick(&p.rex),
                5 => r.pick(&p.err),
                6 => p.text(r),
                _ => r.pick(&p.std),
            }
            .clone();
            let x = b.expr(&ex.text);
            let doc = b.doc(p.doc(r));
            let evaluator = ENGINES.contains(&e);
            let o = match r.below(10) {
                0 | 1 => OpSpec::new(Op::Parse { e, parser: None, expr: x }),
                2 => {
                    let inner = if evaluator && r.chance(1, 2) {
                        OpSpec::new(Op::Find { e, how: How::Top(x), env: DEFENV, doc, loopy: false })
                    } else {
                        OpSpec::new(Op::Parse { e: *r.pick(&PARSERS), parser: None, expr: x })
                    };
                    let y = { let t = r.pick(&p.std).text.clone(); b.expr(&t) };
                    OpSpec::new(Op::Render { e, how: How::Std(y), part: 0, w: WPlan::Nest(r.below(3) as u32, Box::new(inner)) })
                }
                3 if e == E::Iter => {
                    ops.push(OpSpec::new(Op::Open { how: How::Top(x), env: DEFENV, doc, slot: t as u8 }));
                    OpSpec::new(Op::Pull { slot: t as u8, n: 1000, mode: 0 })
                }
                4 if evaluator => OpSpec::new(Op::Find { e, how: How::Std(x), env: DEFENV, doc, loopy: r.chance(1, 2) }),
                _ if evaluator => OpSpec::new(Op::Find { e, how: How::Top(x), env: DEFENV, doc, loopy: r.chance(1, 2) }),
                _ => OpSpec::new(Op::Parse { e, parser: None, expr: x }),
            };
            ops.push(o);
        }
        b.task(ops);
    }
    // initialisation takes many steps: switch in the middle of it
    if b.s.sched.strat == 0 && nt > 1 {
        b.s.sched.strat = 2;
        b.s.sched.depth = r.range(1, 4) as u32;
        b.s.sched.est = r.range(200, 20_000) as u64;
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}
fn c11_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    c.universal(sp, run, true)
}

// ------------------------------------------------------------------ C12
fn c12(c: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C12", r, p);
    }
    let mut b = B::new("C12", r);
    let nt = [1, 1, 2, 3][r.below(4)];
    for _ in 0..nt {
        let e = *r.pick(&PARSERS);
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let mut o = render(r, &mut b, p, e, WPlan::Fine);
            // how many writes, how long?
            let probe = Spec { tasks: vec![TaskSpec { ops: vec![o.clone()], after: 0, stack: 2 << 20 }], ..b.s.clone() };
            let red = reduce(&probe, 0, 0, &o, true, false, &|_, _| None);
            let (writes, len) = red
                .and_then(|x| c.reference_of(&x).op.as_ref().map(|o| (o.n.max(1) as usize, o.text.len().max(1))))
                .unwrap_or((5, 20));
            let w = match r.below(8) {
                0 => WPlan::Panic(r.below(writes) as u32),
                1 => WPlan::Stall(r.below(writes) as u32),
                2 => {
                    let inner = match r.below(3) {
                        0 => {
                            let w = WPlan::Fail(r.below(4) as u32);
                            render(r, &mut b, p, e, w)
                        }
                        1 => parse(r, &mut b, p, e),
                        _ => {
                            let k = *r.pick(&ENGINES);
                            find(r, &mut b, p, k, None)
                        }
                    };
                    WPlan::Nest(r.below(writes) as u32, Box::new(inner))
                }
                3 | 4 => WPlan::Short(r.below(len + 1) as u32),
                _ => WPlan::Fail(r.below(writes) as u32),
            };
            let again = o.clone();
            if let Op::Render { w: ww, .. } = &mut o.op {
                *ww = w;
            }
            ops.push(o);
            if r.chance(1, 2) {
                ops.push(again);
            }
            if r.chance(1, 4) && ENGINES.contains(&e) {
                ops.push(find(r, &mut b, p, e, None));
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}
fn c12_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    let mut v = c.universal(sp, run, false);
    if run.status != "done" {
        return v;
    }
    for r in &run.out.ops {
        let Some(o) = find_op(sp, r) else { continue };
        let Op::Render { e, how, part, w } = &o.op else { continue };
        if r.k == "err" {
            continue;
        }
        let refused = r.x.first() == Some(&1);
        let (text, pay) = match r.text.split_once('\u{1}') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (r.text.clone(), String::new()),
        };
        match r.k.as_str() {
            "ok" if refused => v.push(viol("failure-not-reported", format!("{}: returned Ok although the sink refused a write", describe(sp, r)))),
            "refused" if !refused => v.push(viol("false-failure", format!("{}: returned an error although the sink refused nothing", describe(sp, r)))),
            "panic" if !matches!(w, WPlan::Panic(_)) || !pay.starts_with("sim-writer-panic") => {
                v.push(viol("render-panics", format!("{}: panicked with {:?}", describe(sp, r), pay)));
            }
            _ => {}
        }
        // the full rendering, to a sink that accepts everything
        let full = OpSpec::new(Op::Render { e: *e, how: how.clone(), part: *part, w: WPlan::Fine });
        let kinds = |_: usize, _: usize| -> Option<String> { Some("done".into()) };
        if let Some(red) = reduce(sp, r.t as usize, r.i as usize, &full, true, false, &kinds) {
            let rf = c.reference_of(&red);
            if let Some(ro) = &rf.op {
                if ro.k == "ok" && text.len() < 50_000 && ro.text.len() < 50_000 {
                    if !ro.text.starts_with(&text) {
                        v.push(viol("not-a-prefix", format!("{}: the sink received {:?}, which is not a prefix of {:?}", describe(sp, r), text, ro.text)));
                    } else if r.k == "ok" && text != ro.text {
                        v.push(viol("incomplete", format!("{}: Ok, but the sink received {:?} instead of {:?}", describe(sp, r), text, ro.text)));
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C13
fn c13(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C13", r, p);
    }
    let mut b = B::new("C13", r);
    let n = r.range(1, 2);
    let es = engines(r, n);
    let envs: Vec<u16> = es.iter().map(|e| b.env(*e, 1)).collect();
    let nt = [1, 2, 2, 3][r.below(4)];
    let set = if r.chance(1, 3) {
        let k = r.below(es.len());
        let n = r.range(2, 5);
        family(r, &mut b, p, es[k], Some(envs[k]), Use::Custom, n)
    } else {
        vec![]
    };
    for _ in 0..nt {
        let mut ops = vec![];
        if !set.is_empty() && r.chance(3, 4) {
            let n = r.range(2, 6);
            ops = draws(r, &set, n, false);
            for o in ops.iter_mut() {
                if matches!(o.op, Op::Find { .. }) && r.chance(1, 5) {
                    let a = match r.below(4) {
                        0 => Act::Panic,
                        1 => Act::Stall(r.below(3000) as u64),
                        2 => Act::Yield,
                        _ => Act::Nest(Box::new(r.pick(&set).clone())),
                    };
                    add_plan(r, o, a);
                }
            }
            b.task(ops);
            continue;
        }
        for s in 0..r.range(1, 4) {
            let k = r.below(es.len());
            if es[k] == E::Iter && r.chance(1, 3) {
                ops.extend(iterate(r, &mut b, p, Some(envs[k]), s as u8));
                continue;
            }
            let mut o = cust_find(r, &mut b, p, es[k], envs[k]);
            if r.chance(1, 2) {
                // many elements
                if let Op::Find { doc, how, .. } = &mut o.op {
                    *doc = doc_for(r, &mut b, p, how);
                }
            }
            if r.chance(1, 3) {
                let a = match r.below(4) {
                    0 => Act::Panic,
                    1 => Act::Stall(r.below(5000) as u64),
                    2 => Act::Yield,
                    _ => {
                        let inner = cust_find(r, &mut b, p, es[k], envs[k]);
                        Act::Nest(Box::new(inner))
                    }
                };
                add_plan(r, &mut o, a);
            }
            if r.chance(1, 3) {
                let mut o2 = o.clone();
                o2.plan.clear();
                ops.push(o2);
            }
            ops.push(o);
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}
fn c13_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    let mut v = c.universal(sp, run, false);
    if !v.is_empty() || run.status != "done" {
        return v;
    }
    let pool = c.exprs.clone();
    for r in &run.out.ops {
        let Some(o) = find_op(sp, r) else { continue };
        let Op::Find { how, env, doc, .. } = &o.op else { continue };
        if r.k != "ok" && !r.text.starts_with("sim-panic") {
            continue;
        }
        let text = match how {
            How::Top(x) | How::Env(x) | How::Std(x) | How::Parser(_, x) => &sp.exprs[*x as usize],
            How::Query(q) => &sp.exprs[sp.queries[*q as usize].expr as usize],
        };
        let Some(q) = &tree(&pool, text) else { continue };
        let tag = if *env == DEFENV { 0 } else { sp.envs[*env as usize].funcs[0].1.tag };
        let d = build_doc(&sp.docs[*doc as usize]);
        let mut m = model::Model::new(&d, tag);
        m.over = *env != DEFENV && overridden(&sp.envs[*env as usize]);
        let n = m.find(q, &d, &d);
        if o.brief && !m.unknown && r.k == "ok" && r.ncalls > 0 {
            // only a hash of the calls was kept
            let h = m.calls.iter().fold(0, |h, l| hash2(h, hash_str(l)));
            *c.cov.faults.entry("evaluations whose calls were checked against the model".into()).or_insert(0) += 1;
            if h != r.callh || m.calls.len() as u32 != r.ncalls {
                v.push(viol("calls-implied", format!("{}: {} calls, the query implies {} (in this order and with these arguments: {:?})", describe(sp, r), r.ncalls, m.calls.len(), &m.calls[..m.calls.len().min(12)])));
            }
            continue;
        }
        if m.unknown || r.ncalls as usize != r.calls.len() {
            *c.cov.skipped.entry("call model does not apply".into()).or_insert(0) += 1;
            continue;
        }
        // the model speaks about calls; results only decide whether it applies
        if r.k == "ok" && m.text(&n) != r.text && r.text.len() < 2990 && m.calls == r.calls {
            *c.cov.skipped.entry("model result differs".into()).or_insert(0) += 1;
            if std::env::var_os("SIM_DEBUG").is_some() {
                eprintln!("{:?} {} {} over {}\n  model {:?}\n  real {:?}\n  calls {:?}", o.op, text, d, m.over, m.text(&n), r.text, r.calls);
            }
            continue;
        }
        *c.cov.faults.entry("evaluations whose calls were checked against the model".into()).or_insert(0) += 1;
        let ok = if r.k == "ok" { m.calls == r.calls } else { r.calls.len() <= m.calls.len() && m.calls[..r.calls.len()] == r.calls[..] };
        if !ok {
            let k = (0..r.calls.len().max(m.calls.len())).find(|k| r.calls.get(*k) != m.calls.get(*k)).unwrap_or(0);
            v.push(viol("calls-implied", format!("{}: call {} is {:?}, the query implies {:?} ({} calls instead of {})", describe(sp, r), k, r.calls.get(k), m.calls.get(k), r.calls.len(), m.calls.len())));
        }
    }
    v
}

// ------------------------------------------------------------------ C14
fn c14(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    let mut b = B::new("C14", r);
    let nt = [1, 1, 2][r.below(3)];
    let big = r.chance(1, 8);
    for _ in 0..nt {
        let mut ops = vec![];
        if r.chance(1, 2) {
            let e = if r.chance(1, 2) { E::Loc } else { E::Sing };
            for _ in 0..r.range(1, 3) {
                let mut l = vec![];
                for _ in 0..r.range(3, 25) {
                    let (d, s) = (r.below(6) as u8, r.below(6) as u8);
                    let n = [0, 1, 2, 3, 5, 9, 40][r.below(7)] as u32;
                    l.push(match r.below(16) {
                        0 => LOp::New(d),
                        1..=4 => LOp::Append(d, s, r.below(2000) as u32),
                        5 => LOp::Grow(d, s, if big { [20_000, 200_000, 400_000][r.below(3)] } else { n * 3 }),
                        6 => LOp::From(d, if big { 100_000 } else { n }),
                        7 => LOp::Tail(d, s),
                        8 => LOp::Tailn(d, s, n),
                        9 => LOp::Lastn(d, s, n),
                        10 => LOp::Clone(d, s),
                        11 => LOp::Drop(d),
                        12 => LOp::IterWhileDrop(s, d, n),
                        13 => LOp::Check(s),
                        14 => [LOp::Debug(s), LOp::Node(s, n)][r.below(2)].clone(),
                        15 if big => LOp::Debug(s),
                        _ => LOp::PanicHold(s),
                    });
                }
                ops.push(OpSpec::new(Op::List { e, ops: l }));
            }
        } else {
            let e = *r.pick(&ENGINES);
            let env = b.env(e, 1);
            let ns = r.range(1, 3);
            let set = if r.chance(1, 3) { family(r, &mut b, p, e, Some(env), Use::Any, 4) } else { vec![] };
            for _ in 0..r.range(3, 10) {
                let slot = r.below(ns) as u8;
                match r.below(9) {
                    0..=2 => {
                        let (mut how, mut ev) = entry(r, &mut b, p, e, Some(env));
                        let mut doc = b.doc(p.doc(r));
                        if !set.is_empty() {
                            if let Op::Find { how: h, env: v, doc: d, .. } = &r.pick(&set).op {
                                (how, ev, doc) = (h.clone(), *v, *d);
                            }
                        }
                        let mut o = OpSpec::new(Op::Hold { e, how, env: ev, doc, loopy: r.chance(1, 3), slot });
                        if r.chance(1, 5) {
                            add_plan(r, &mut o, Act::Panic);
                        }
                        ops.push(o);
                    }
                    3 => ops.push(OpSpec::new(Op::ExtendHeld { slot, i: r.below(30) as u16, k: r.range(1, 20) as u16 })),
                    4 => ops.push(OpSpec::new(Op::DropHeld { slot, mode: r.below(5) as u8 })),
                    5 => ops.push(find(r, &mut b, p, e, Some(env))),
                    6 => {
                        // the environment goes, the results stay
                        let ev = b.new_env(e, 2);
                        let ex = r.pick(&p.cust).clone();
                        let x = b.env_how(e, &ex.text);
                        let doc = b.doc(p.doc(r));
                        ops.push(OpSpec::new(Op::Hold { e, how: x, env: ev, doc, loopy: false, slot }));
                        ops.push(OpSpec::new(Op::DropEnv { env: ev }));
                    }
                    7 => {
                        let ex = r.pick(&p.std).clone();
                        let x = b.expr(&ex.text);
                        let q = b.own_query(e, None, x);
                        let doc = b.doc(p.doc(r));
                        ops.push(OpSpec::new(Op::Compile { e, q, parser: None, expr: x }));
                        ops.push(OpSpec::new(Op::Hold { e, how: How::Query(q), env, doc, loopy: false, slot }));
                        ops.push(OpSpec::new(Op::Release { q }));
                    }
                    _ => ops.push(OpSpec::new(Op::CheckHeld { slot })),
                }
                ops.push(OpSpec::new(Op::CheckHeld { slot: r.below(ns) as u8 }));
            }
        }
        b.task(ops);
    }
    // also on the small stack of a secondary thread
    if r.chance(1, 2) {
        for t in b.s.tasks.iter_mut() {
            t.stack = 512 << 10;
        }
    }
    b.s.sched.budget = 1_600_000_000;
    if big && b.s.sched.strat == 1 {
        b.s.sched.mean = b.s.sched.mean.max(2000);
    }
    b.s.tag = if big { "long lists".into() } else { format!("{} threads", nt) };
    b.s
}

// ------------------------------------------------------------------ C15
/// lists of lists: nodes whose order and whose addresses have little to do with each other
fn nested_arrays(r: &mut Rng) -> Doc {
    use serde_json::{json, Value};
    let m = r.range(1, 3);
    let mut k = 0;
    let mut v: Vec<Value> = vec![];
    for _ in 0..[4, 20, 70][r.below(3)] {
        let l: Vec<Value> = (0..r.range(0, m + 1))
            .map(|_| {
                k += 1;
                match r.below(3) {
                    0 => json!(k % 5),
                    1 => json!({"a": k % 3, "s": "ab"}),
                    _ => json!([k % 4]),
                }
            })
            .collect();
        v.push(if r.chance(1, 2) { json!(l) } else { json!({"a": l, "b": k % 3}) });
    }
    Doc::Text(Value::Array(v).to_string())
}
fn c15(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C15", r, p);
    }
    let mut b = B::new("C15", r);
    let e = *r.pick(&ENGINES);
    let nt = [1, 1, 1, 2][r.below(4)];
    let env = b.new_env(e, 1);
    r.shuffle(&mut b.s.envs[env as usize].funcs);
    let ps = b.new_parser(e);
    r.shuffle(&mut b.s.parsers[ps as usize].funcs);
    if r.chance(1, 3) {
        let n = r.range(2, 5);
        let set = family(r, &mut b, p, e, Some(env), Use::Any, n);
        for _ in 0..nt {
            let n = r.range(3, 9);
            let ops = draws(r, &set, n, true);
            b.task(ops);
        }
        b.s.mem.reuse = [0, 0, 0, 1, 2][r.below(5)];
        b.s.mem.clock_jumps = r.chance(2, 3) as u8;
        b.s.tag = "related operations on re-used addresses".into();
        return b.s;
    }
    if r.chance(1, 4) {
        // texts: trees, renderings and error texts of every parser
        let pes: Vec<E> = (0..r.range(1, 3)).map(|_| *r.pick(&PARSERS)).collect();
        for e in &pes {
            let ps = b.new_parser(*e);
            r.shuffle(&mut b.s.parsers[ps as usize].funcs);
        }
        let texts: Vec<Ex> = (0..r.range(2, 5)).map(|_| p.text(r).clone()).collect();
        for _ in 0..nt {
            let mut ops = vec![];
            for _ in 0..r.range(4, 12) {
                let pe = *r.pick(&pes);
                let ex = r.pick(&texts).clone();
                let t = if r.chance(1, 4) { ex.text.replace('a', "b") } else { ex.text.clone() };
                let expr = b.expr(&t);
                let mut o = if r.chance(1, 6) {
                    render(r, &mut b, p, pe, WPlan::Fine)
                } else {
                    let parser = if r.chance(2, 3) { Some(b.parser(pe)) } else { None };
                    OpSpec::new(Op::Parse { e: pe, parser, expr })
                };
                o.fresh = r.chance(4, 5);
                ops.push(o);
            }
            b.task(ops);
        }
        b.s.mem.reuse = [0, 0, 0, 1, 2][r.below(5)];
        b.s.mem.clock_jumps = r.chance(2, 3) as u8;
        b.s.tag = "texts".into();
        return b.s;
    }
    // documents of the same shape, so that re-used addresses line up; allocated in any order
    if r.chance(1, 2) {
        b.s.mem.scatter = r.next() | 1;
    }
    let sizes = crate::families::f_sizes(r, true);
    let by_size = r.chance(1, 8);
    let d0 = match r.below(8) {
        _ if by_size => sizes.1[0].clone(),
        0 => r.pick(&p.wide).clone(),
        1 => nested_arrays(r),
        _ => p.doc(r).clone(),
    };
    let mut docs = vec![b.doc(&d0)];
    for _ in 0..3 {
        let d = variant(r, &d0);
        docs.push(b.doc(&d));
    }
    let mut exs: Vec<Ex> = (0..3).map(|_| an_ex(r, p, true, e).clone()).collect();
    if by_size {
        let t = sizes.0[0].clone();
        exs[0] = Ex { custom: is_custom(&t), seq: false, q: None, sing: false, text: t };
    }
    let alt: Vec<String> = exs.iter().map(|x| x.text.replace(".a", ".b").replace("'a", "'b")).collect();
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(3, 8) {
            let k = r.below(exs.len());
            let t = if r.chance(1, 3) { alt[k].clone() } else { exs[k].text.clone() };
            let x = b.expr(&t);
            let how = if r.chance(1, 3) || is_custom(&t) { How::Parser(ps, x) } else { How::Env(x) };
            let doc = *r.pick(&docs);
            let mut o = match r.below(8) {
                0 => parse(r, &mut b, p, *r.clone().pick(&PARSERS)),
                1 => render(r, &mut b, p, *r.clone().pick(&PARSERS), WPlan::Fine),
                _ => OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 3) }),
            };
            o.fresh = r.chance(4, 5);
            ops.push(o);
        }
        b.task(ops);
    }
    b.s.mem.reuse = [0, 0, 0, 1, 2][r.below(5)];
    b.s.mem.clock_jumps = r.chance(2, 3) as u8;
    b.s.tag = ["LIFO address re-use", "FIFO address re-use", "no address re-use"][b.s.mem.reuse as usize].into();
    b.s
}

// ------------------------------------------------------------------ C16
/// (query, document, doc size parameter position)
fn c16_case(r: &mut Rng, w: u32) -> (String, Doc, bool) {
    let shape = r.below(5) as u8;
    let obj = r.chance(1, 3);
    let d = if obj { Doc::WideObject(w, shape) } else { Doc::WideArray(w, shape) };
    let q = match r.below(38) {
        0 => "$[*]",
        1 => "$.*",
        2 => "$..*",
        3 => "$[?@.a == 99]",
        4 => "$[?@.nosuch]",
        5 => "$[?@.a]",
        6 => "$[?@.s == 'zz']",
        7 => "$..[?@.a > 100]",
        8 => "$[*].a",
        9 => "$[*][*]",
        10 => "$[*]['a','b','zz']",
        11 => "$..a",
        12 => "$[?count(@..*) > 90]",
        13 => "$[::2]",
        14 => "$[::-1]",
        15 => "$[-1:0:-1]",
        16 => "$[5:]",
        17 => "$[::3].a",
        18 => "$..[::-1]",
        19 => "$[:-2:7]",
        20 => "$[::-2].nosuch",
        21 => "$[?length(@.s) == 2]",
        22 => "$[?match(@.s, 's[0-3]')]",
        23 => "$[?search(@.s, 'zz')]",
        24 => "$[?value(@.a) == 3]",
        25 => "$[?@.a == $[0].a]",
        26 => "$[?!@.nosuch && @.a != 99]",
        27 => "$[?@.a == 99 || @.a == 98 || @.nosuch]",
        28 => "$[?@ == 'zz']",
        29 => "$[-1, 0, ::5]",
        30 => "$[*][?@ == 99]",
        31 => "$[?@[?@ == 99]]",
        32 => "$[?@.*]",
        33 => "$..[0]",
        34 => "$..['a','s']",
        35 => "$..[?@.nosuch].a",
        36 => "$[-3:]",
        _ => "$[?@..b]",
    };
    (q.to_string(), d, obj)
}
fn c16(_: &mut Ctx, r: &mut Rng, _p: &Pool, _i: u64) -> Spec {
    let mut b = B::new("C16", r);
    b.s.sched.strat = 0;
    b.s.sched.budget = 600_000_000;
    let e = *r.pick(&ENGINES);
    let w = [400u32, 1200, 3000][r.below(3)];
    let scen = r.below(8);
    let mut ops = vec![];
    let mut kind = 1;
    match scen {
        0 => {
            // many selectors in one segment, long result
            let form = r.below(5);
            let n = if form == 4 { w / 8 } else { w / 2 };
            let desc = r.chance(1, 4);
            let mk = |n: u32| {
                let v: Vec<String> = (0..n)
                    .map(|i| match form {
                        0 => format!("{}", i % 30),
                        1 => format!("'n{}'", i % 50),
                        2 => format!("{}:{}", i % 20, i % 20 + 1),
                        3 => if i % 3 == 0 { format!("'n{}'", i) } else if i % 3 == 1 { format!("{}", i) } else { format!("-{}", i % 20 + 1) },
                        _ => if i % 3 == 0 { "?@.a".into() } else if i % 3 == 1 { format!("{}", i) } else { "*".into() },
                    })
                    .collect();
                format!("${}[{}]", if desc { ".." } else { "" }, v.join(","))
            };
            let x1 = b.expr(&mk(n / 4));
            let x4 = b.expr(&mk(n));
            let doc = b.doc(&Doc::WideArray(20, 1));
            let _ = x4;
            ops.push(mk_c16(e, r, x1, doc, 0));
            kind = 2;
            b.s.tag = "many selectors".into();
        }
        1 | 2 if e == E::Iter => {
            // pulls with long runs of rejected candidates
            let (q, d, _) = c16_case(r, w);
            let x = b.expr(&q);
            let doc = b.doc(&d);
            ops.push(OpSpec { brief: true, ..OpSpec::new(Op::Open { how: How::Top(x), env: DEFENV, doc, slot: 0 }) });
            for _ in 0..3 {
                ops.push(OpSpec { brief: true, ..OpSpec::new(Op::Pull { slot: 0, n: if r.chance(1, 2) { 2 } else { 1_000_000 }, mode: any_mode(r) }) });
            }
            ops.push(OpSpec::new(Op::Close { slot: 0 }));
            b.s.tag = "lazy".into();
        }
        3 => {
            // nested wide documents
            let inner: Vec<String> = (0..6).map(|_| format!("[{}]", vec!["0"; w as usize / 6].join(","))).collect();
            let d = Doc::Text(format!("[{}]", inner.join(",")));
            let doc = b.doc(&d);
            let x = { let t = r.pick(&["$[*][?@ > 1]", "$..[?@ == 7]", "$[*][*]", "$..*", "$[?count(@[?@ == 0]) == 3]"]).to_string(); b.expr(&t) };
            ops.push(mk_c16(e, r, x, doc, 0));
            kind = 3;
            b.s.tag = "nested wide".into();
        }
        _ => {
            let (q, d, obj) = c16_case(r, w);
            let x = b.expr(&q);
            let doc = b.doc(&d);
            ops.push(mk_c16(e, r, x, doc, r.clone().below(2) as u8));
            b.s.tag = format!("wide {}", if obj { "object" } else { "array" });
        }
    }
    b.task(ops);
    b.s.measure_stack = true;
    // measured on a large stack, compared with four times the width; sometimes run on a small one
    let small = r.chance(1, 3);
    b.s.tasks[0].stack = if small { 192 << 10 } else { 16 << 20 };
    b.s.par = vec![kind, w as i64, small as i64];
    b.s
}
fn mk_c16(e: E, r: &mut Rng, x: u16, doc: u16, hold: u8) -> OpSpec {
    let how = How::Top(x);
    let mut o = if hold == 1 {
        OpSpec::new(Op::Hold { e, how, env: DEFENV, doc, loopy: r.chance(1, 2), slot: 0 })
    } else {
        OpSpec::new(Op::Find { e, how, env: DEFENV, doc, loopy: r.chance(1, 2) })
    };
    o.brief = true;
    o
}
fn widen(sp: &Spec, f: u32) -> Spec {
    let mut s = sp.clone();
    for d in s.docs.iter_mut() {
        match d {
            Doc::WideArray(n, _) | Doc::WideObject(n, _) if *n > 100 => *n *= f,
            Doc::Text(t) if t.len() > 1000 => {
                let v: serde_json::Value = serde_json::from_str(t).unwrap();
                let w: Vec<String> = v.as_array().unwrap().iter().map(|a| format!("[{}]", vec!["0"; a.as_array().unwrap().len() * f as usize].join(","))).collect();
                *t = format!("[{}]", w.join(","));
            }
            _ => {}
        }
    }
    if sp.par[0] == 2 {
        let n = s.exprs.len();
        s.exprs.swap(0, n - 1);
    }
    s
}
fn c16_check(c: &mut Ctx, sp: &Spec, run: &RunRes) -> Vec<Viol> {
    let mut v = vec![];
    if run.status == "stack-overflow" {
        v.push(viol("stack-overflow", format!("evaluation of {} over {} elements overflowed a stack of {} KB", sp.exprs[0].chars().take(60).collect::<String>(), sp.par[1], sp.tasks[0].stack >> 10)));
        return v;
    }
    if run.status != "done" {
        return c.universal(sp, run, false);
    }
    if run.stats.blocked_by_stall {
        return v;
    }
    let mut s1 = sp.clone();
    s1.tasks[0].stack = 64 << 20;
    let a = if sp.par[2] == 1 { c.run(&s1) } else { run.clone() };
    let s4 = widen(&s1, 4);
    let b = c.run(&s4);
    if b.status == "stack-overflow" {
        v.push(viol("stack-overflow", format!("evaluation of {} over {} elements overflowed a stack of 64 MB", sp.exprs[0].chars().take(60).collect::<String>(), sp.par[1] * 4)));
        return v;
    }
    if a.status != "done" || b.status != "done" {
        *c.cov.skipped.entry(format!("width comparison: {} {}", a.status, b.status)).or_insert(0) += 1;
        return v;
    }
    let (x, y) = (a.out.stack.get(1).copied().unwrap_or(0), b.out.stack.get(1).copied().unwrap_or(0));
    if y > x + x / 2 + 16_384 {
        v.push(viol("stack-grows", format!("{} needed {} bytes of stack over {} elements and {} bytes over four times as many", sp.exprs[0].chars().take(60).collect::<String>(), x, sp.par[1], y)));
    }
    v
}

// ------------------------------------------------------------------ C17
fn c17(_: &mut Ctx, r: &mut Rng, p: &Pool, _i: u64) -> Spec {
    if r.chance(1, LONG) {
        return crate::long::history("C17", r, p);
    }
    let mut b = B::new("C17", r);
    let e = *r.pick(&ENGINES);
    let nt = [1, 1, 2, 3][r.below(4)];
    let envs: Vec<u16> = vec![b.env(e, 1), b.env(e, 2)];
    if r.chance(1, 4) {
        // one query, the same answer many times over, then another one
        for _ in 0..r.range(1, 3) {
            let (qs, docs) = f_streak(r, true);
            let ds: Vec<u16> = docs.iter().map(|d| b.doc(d)).collect();
            let ops = (0..r.range(3, 7))
                .map(|_| {
                    let t = r.pick(&qs).clone();
                    let x = Ex { custom: is_custom(&t), seq: false, q: None, sing: false, text: t };
                    let q = b.query(e, &x);
                    OpSpec::new(Op::Find { e, how: How::Query(q), env: envs[r.below(2)], doc: *r.pick(&ds), loopy: r.chance(1, 3) })
                })
                .collect::<Vec<_>>();
            if b.s.tasks.is_empty() || r.chance(1, 4) {
                b.task(ops);
            } else {
                b.s.tasks[0].ops.extend(ops);
            }
        }
        b.s.tag = "the same answer many times over".into();
        return b.s;
    }
    if r.chance(2, 5) {
        let n = r.range(3, 6);
        let mut set = family(r, &mut b, p, e, Some(envs[0]), Use::Compiled, n);
        for o in set.iter_mut() {
            if let Op::Find { env, .. } = &mut o.op {
                if *env != DEFENV {
                    *env = *r.pick(&envs);
                }
            }
            if r.chance(1, 6) {
                add_plan(r, o, Act::Panic);
            }
            o.fresh = r.chance(1, 3);
        }
        for _ in 0..nt {
            let n = r.range(3, 9);
            let ops = draws(r, &set, n, false);
            b.task(ops);
        }
        b.s.tag = format!("{} threads, related documents", nt);
        return b.s;
    }
    let qs: Vec<Ex> = (0..r.range(1, 2))
        .map(|_| match r.below(6) {
            0 if e == E::Sing => r.pick(&p.sing).clone(),
            1 => r.pick(&p.rex).clone(),
            2 => if r.chance(1, 2) { r.pick(&p.std) } else { r.pick(&p.rich) }.clone(),
            _ => r.pick(&p.cust).clone(),
        })
        .collect();
    let docs: Vec<u16> = {
        let d = p.doc(r).clone();
        let d2 = variant(r, &d);
        let d3 = p.doc(r).clone();
        vec![b.doc(&d), b.doc(&d2), b.doc(&d3)]
    };
    for _ in 0..nt {
        let mut ops = vec![];
        for s in 0..r.range(2, 7) {
            let ex = r.pick(&qs).clone();
            let q = b.query(e, &ex);
            let env = *r.pick(&envs);
            let doc = *r.pick(&docs);
            match r.below(9) {
                0 => {
                    let w = match r.below(3) {
                        0 => WPlan::Fine,
                        1 => WPlan::Fail(r.below(4) as u32),
                        _ => WPlan::Panic(r.below(4) as u32),
                    };
                    ops.push(OpSpec::new(Op::Render { e, how: How::Query(q), part: if r.chance(1, 2) { 0 } else { r.below(30) as u16 }, w }));
                }
                1 | 2 if e == E::Iter => {
                    ops.push(OpSpec::new(Op::Open { how: How::Query(q), env, doc, slot: s as u8 }));
                    ops.push(OpSpec::new(Op::Pull { slot: s as u8, n: r.range(1, 3) as u32, mode: 0 }));
                    ops.push(OpSpec::new(Op::Close { slot: s as u8 }));
                }
                3 => {
                    let mut o = OpSpec::new(Op::Find { e, how: How::Query(q), env, doc, loopy: r.chance(1, 2) });
                    o.oom = vec![(1 + r.below(60) as u64, 1)];
                    ops.push(o);
                }
                _ => {
                    let mut o = OpSpec::new(Op::Find { e, how: How::Query(q), env, doc, loopy: r.chance(1, 2) });
                    if r.chance(1, 3) {
                        add_plan(r, &mut o, Act::Panic);
                    }
                    o.fresh = r.chance(1, 3);
                    ops.push(o);
                }
            }
        }
        b.task(ops);
    }
    b.s.tag = format!("{} threads", nt);
    b.s
}

pub const PROPS: [Prop; 17] = [
    Prop { id: "C01", gen: c01, check: c01_check, rule: "2-6 threads evaluating, iterating, parsing and rendering through shared environments, queries and documents under a seeded schedule; each outcome compared with the same operation alone in a fresh process" },
    Prop { id: "C02", gen: c02, check: c02_check, rule: "histories of match/search over families of up to 112 look-alike patterns (sweeps, reversals, re-use with recency, invalid ones), 1-3 threads; answers compared with an independent matcher and with a fresh process" },
    Prop { id: "C03", gen: c03, check: plain_check, rule: "custom functions panic at seeded calls, in 1-3 threads, once or hundreds of times, also inside pulls; all other outcomes compared with the same operation alone, calls before the panic with a prefix" },
    Prop { id: "C04", gen: c04, check: plain_check, rule: "operations started inside custom functions at seeded calls, nested up to 3 levels in mixtures and up to 130 in towers, 1-3 threads; inner and outer compared with the same operation alone" },
    Prop { id: "C05", gen: c05, check: c05_check, rule: "threads suspended indefinitely in custom functions, between pulls and in writers, the others must finish first, with their usual results and in about their usual number of steps" },
    Prop { id: "C06", gen: c06, check: c06_check, rule: "up to 4 iterators per thread pulled, paused, abandoned and polled past the end in seeded order, 1-3 threads; items and calls against the eager result of another crate, calls so far against the model's demand" },
    Prop { id: "C07", gen: c07, check: c07_check, rule: "long histories (distinct patterns, texts, repeated faulty histories, environments coming and going) on the simulated heap; live bytes and blocks compared between rounds" },
    Prop { id: "C08", gen: c08, check: plain_check, rule: "allocation failures at seeded allocation indices (single, bursts, persistent) handled by unwinding; that operation unwinds or is right, all others and later ones are right" },
    Prop { id: "C09", gen: c09, check: plain_check, rule: "seven parsers, shared and separate instances, look-alike valid and invalid texts, aborted parses, 1-4 threads; outcome (tree, rendering, error text) against a fresh process" },
    Prop { id: "C10", gen: c10, check: plain_check, rule: "interleaved registrations, replacements, removals, index ranges and uses over several instances and threads; every use against a fresh instance configured as the history says" },
    Prop { id: "C11", gen: c11, check: c11_check, rule: "1-6 threads whose first library use, through any entry point of any crate, overlaps or nests; outcomes against the second use in a warmed-up process" },
    Prop { id: "C12", gen: c12, check: c12_check, rule: "renderings of whole queries and parts to sinks that refuse, accept part, panic, stall or re-enter at a seeded write; result, prefix and later renderings checked" },
    Prop { id: "C13", gen: c13, check: c13_check, rule: "recording, stateful, stalling, panicking and re-entrant functions in 1-3 threads; call sequences against the executable model and against the same evaluation alone; thread identity at every call" },
    Prop { id: "C14", gen: c14, check: plain_check, rule: "operation histories on location lists (up to 400000 elements) against vectors, and held result nodes re-read after drops and removals of siblings, queries, environments and aborted evaluations, partly on small stacks" },
    Prop { id: "C15", gen: c15, check: plain_check, rule: "same-shaped documents and texts in fresh copies at re-used addresses, seeded hash seeds, clocks, clock jumps, heap placement and registration orders; outcomes against one canonical environment" },
    Prop { id: "C16", gen: c16, check: c16_check, rule: "queries over flat documents of 400-12000 elements: simulated stacks' high-water mark at width W and 4W, and completion on a 192 KB guarded stack" },
    Prop { id: "C17", gen: c17, check: plain_check, rule: "one or two compiled queries used over several documents and environments by 1-3 threads with panics, failed allocations, failed renderings and abandonment; every use against a freshly compiled copy" },
];
