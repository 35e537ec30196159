//! Families of closely related, cheap operations: one compiled query on documents which differ in
//! one respect, texts or patterns which differ in one place.  State that is wrongly shared between
//! operations shows up when such operations follow or overlap each other.
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::DEFENV;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq)]
pub enum Use {
    /// any entry point; custom functions if an environment is given
    Any,
    /// compiled queries shared by the tasks
    Compiled,
    /// the default environment only
    Default,
    /// parsing only
    Parse,
    /// only what calls custom functions
    Custom,
}

fn txt(v: Value) -> Doc {
    Doc::Text(v.to_string())
}
/// arrays of different lengths: index and slice selectors
fn f_index(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let qs = [
        "$[-1]", "$[-2]", "$[-3]", "$[-2:]", "$[::-1]", "$[1:-1]", "$..[-1]", "$[?@[-1] == 1]", "$[-1, 0, -2]", "$[1]", "$[?@.k[-1] == 2]",
        "$[:-1].k", "$..[-2:]", "$[::2]", "$[-5]", "$[4]", "$[-1].k[-1]",
    ];
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(&qs).to_string()).collect();
    let el = |r: &mut Rng, i: usize| match r.below(4) {
        0 => json!(i),
        1 => json!((0..r.range(1, 4)).collect::<Vec<_>>()),
        2 => json!({"k": (0..r.range(1, 4)).collect::<Vec<_>>()}),
        _ => json!([i, 1]),
    };
    let d = (0..3).map(|_| { let n = r.range(1, 7); txt(Value::Array((0..n).map(|i| el(r, i)).collect())) }).collect();
    (q, d)
}
/// patterns which are easily mistaken for each other
pub fn lookalikes(r: &mut Rng) -> Vec<String> {
    let (x, y) = (*r.pick(&["a", "b", "ab", "c"]), *r.pick(&["a", "b", "c", "x"]));
    let all: Vec<String> = match r.below(12) {
        // letter case
        0 => vec!["ab".into(), "AB".into(), "aB".into(), "Ab".into(), "abc".into(), "ABC".into()],
        1 => vec!["[a-c]+".into(), "[A-C]+".into(), "[a-C]*".into(), "[A-c]*".into()],
        // one character
        2 => vec![format!("{}a*", x), format!("{}b*", x), format!("{}c*", x), format!("{}x*", x)],
        // permuted
        3 => vec!["abc".into(), "acb".into(), "bca".into(), "cab".into(), "bac".into(), "cba".into()],
        // anchors and groups a wrapper might add
        4 => vec![format!("{}|{}", x, y), format!("({}|{})", x, y), format!("({})|{}", x, y), format!("{}|({})", x, y)],
        // blanks
        5 => vec![x.to_string(), format!(" {}", x), format!("{} ", x), format!("{}  ", x)],
        // a shared prefix or suffix, other length
        6 => vec![x.to_string(), format!("{}{}", x, x), format!("{}{}{}", x, x, x), format!("{}.", x), format!("{}.*", x)],
        7 => vec![".*a".into(), ".*b".into(), ".*".into(), "a.*".into(), "b.*".into()],
        // escapes
        8 => vec!["a.b".into(), "a\\.b".into(), "a[.]b".into(), "a\\\\.b".into()],
        9 => vec!["[ab]".into(), "[^ab]".into(), "[ba]".into(), "[^ba]".into(), "(a|b)".into()],
        // invalid and valid
        10 => vec!["(ab".into(), "(ab)".into(), "ab".into(), "ab)".into(), "[ab".into(), "[ab]".into()],
        // a long shared prefix
        _ => (0..4).map(|i| format!("(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{})|{}", i, ["a", "b", "ab", "c"][i])).collect(),
    };
    let mut v = all;
    r.shuffle(&mut v);
    v.truncate(4);
    v
}
pub const SUBJECTS: [&str; 22] = [
    "a", "b", "ab", "abc", "AB", "ABC", "aB", "acb", "cba", "x", "", "aa", "aaa", "aab", "a.b", "axb", " a", "a ", "B", "A", "ba", "c",
];
/// match/search with literal patterns
fn f_pattern(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let fam = lookalikes(r);
    let both = r.chance(1, 3);
    let f = *r.pick(&["match", "search"]);
    let q = fam
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let f = if both && i % 2 == 1 { if f == "match" { "search" } else { "match" } } else { f };
            format!("$[?{}(@, {})]", f, Vx::Str(p.clone()))
        })
        .collect();
    let v: Vec<&str> = (0..r.range(2, 5)).map(|_| *r.pick(&SUBJECTS)).collect();
    (q, vec![txt(json!(v))])
}
/// match/search with patterns from the document
fn f_pattern_doc(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let fam = lookalikes(r);
    let f = *r.pick(&["match", "search"]);
    let words: Vec<&str> = (0..3).map(|_| *r.pick(&SUBJECTS)).collect();
    let d = (0..3)
        .map(|_| {
            let v: Vec<Value> = (0..r.range(1, 4)).map(|_| json!({"s": *r.pick(&words), "p": r.pick(&fam)})).collect();
            txt(json!(v))
        })
        .collect();
    (vec![format!("$[?{}(@.s, @.p)]", f)], d)
}
/// texts which differ in one token
fn f_text(r: &mut Rng, custom: bool) -> (Vec<String>, Vec<Doc>) {
    let t = if custom && r.chance(1, 2) {
        *r.pick(&["$[?f2(@.{n})]", "$[?f1(@.{n}) == '1:{w}']", "$[?f4(@.*) == {i}]", "$[?f0(@.{n}) == {i}]", "$[?f5(@.{n}, '{w}') == 'a{w}']", "$[?f7(@.{n}, {i})]"])
    } else {
        *r.pick(&[
            "$[?@.{n} == {i}]", "$[?@.{n}]", "$..{n}", "$[*].{n}", "$[{i}]", "$[?@.s == '{w}']", "$[?length(@.{n}) > {i}]", "$[?count(@.*) == {i}]", "$[?value(@.{n}) == {i}]",
            "$['{n}', {i}]", "$[?@.{n} < {i} || @.s == '{w}']", "$[{i}:]", "$[?!@.{n}]", "$..[?@.{n} == {i}]", "$[?@['{n}'] == $[{i}].{n}]",
        ])
    };
    let hole = |r: &mut Rng| {
        t.replace("{n}", r.pick(&["a", "b", "s", "k"])).replace("{i}", &r.below(3).to_string()).replace("{w}", r.pick(&["a", "b", "ab"]))
    };
    let mut q = vec![];
    for _ in 0..6 {
        let x = hole(r);
        if !q.contains(&x) && q.len() < 3 {
            q.push(x);
        }
    }
    let d = (0..2)
        .map(|_| {
            let v: Vec<Value> = (0..r.range(2, 3))
                .map(|_| {
                    let mut o = serde_json::Map::new();
                    for k in ["a", "b", "k"] {
                        if r.chance(2, 3) {
                            o.insert(k.into(), json!(r.below(3)));
                        }
                    }
                    o.insert("s".into(), json!(*r.pick(&["a", "b", "ab"])));
                    Value::Object(o)
                })
                .collect();
            txt(json!(v))
        })
        .collect();
    (q, d)
}
/// queries which look at the root from inside a filter
fn f_root(r: &mut Rng, custom: bool) -> (Vec<String>, Vec<Doc>) {
    let mut qs = vec![
        "$[?@.a == $[0].a]", "$[?count($..a) == 2]", "$[?@.a < $[-1].a]", "$[?count($[*]) == 3]", "$[?$[0].b]", "$[?length($) == 2]", "$[?value($[0].a) == @.a]", "$[?@.a == value($..b)]",
        "$[?count($[?@.a == 1]) == 1]", "$[?match(@.s, $[0].s)]", "$[?search($[0].s, @.s)]",
    ];
    if custom {
        qs.extend(["$[?f7(@.a, $[0].a)]", "$[?f4($[*]) == 3]", "$[?f3($..b)]", "$[?f2($[0].a)]"]);
    }
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(&qs).to_string()).collect();
    let d = (0..3)
        .map(|_| {
            let v: Vec<Value> = (0..r.range(2, 3))
                .map(|_| {
                    let mut o = serde_json::Map::new();
                    o.insert("a".into(), json!(r.below(3)));
                    if r.chance(1, 2) {
                        o.insert("b".into(), json!(r.below(3)));
                    }
                    o.insert("s".into(), json!(*r.pick(&["a", "b", "ab"])));
                    Value::Object(o)
                })
                .collect();
            txt(json!(v))
        })
        .collect();
    (q, d)
}
/// function arguments: the same call over nodes which differ
fn f_calls(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let qs = [
        "$[?f2(@.a)]", "$[?f1(@.s) == '1:ab']", "$[?f3(@.*)]", "$[?f3(@.a)]", "$[?f0(@.a) == f0(@.b)]", "$[?f4(@.*) == f4(@[?f2(@)])]", "$[?f5(@.s, @.s) == 'abab']",
        "$[?f7(@.a, @.b)]", "$..[?f2(f0(@.a))]", "$[?f2(@.a) || f2(@.b)]", "$[?f2(@.a) && f2(@.b)]", "$[?!f2(@.a)]", "$[?f1('x') == f1(@.s)]", "$[?f6(1) == 1]", "$[?f6(@.a) > 0]", "$.*[?f2(@)]", "$[?f0(1) == @.a]",
        "$[?f0(@.a) == f0(@.a)]", "$[?f6(@.a) < f6(@.a)]", "$[?f7(f0(@.a), f0(@.a))]", "$[?f3(@[?f2(@)])]", "$[?f2(@.a), ?f2(@.b)]",
    ];
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(&qs).to_string()).collect();
    let (_, d) = f_root(r, true);
    (q, d)
}

/// calls of the standard functions (which the environment may have replaced)
fn f_std_calls(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let qs = [
        "$[?match(@.s, @.s)]", "$[?match(@.a, @.b)]", "$[?search(@.s, 'ab')]", "$[?!match(@.s, 'a')]", "$[?length(@.s) == '1:ab']", "$[?count(@.*) == 3]", "$[?count(@.*) == count(@.a)]",
        "$[?value(@.a) == 2]", "$[?match(@.s, $[0].s)]", "$[?length(length(@.a)) != 'x']", "$..[?match(@.a, @.b)]", "$[?match(@.a, 1) || search(@.b, 1)]", "$[?match(@.a, 1) && search(@.b, 1)]",
        "$[?count($[*]) == 4]", "$[?value($..b) > 1]", "$.*[?search(@, 'a')]", "$[?match(length(@.s), '1:ab')]", "$[?count(@[?match(@, @)]) > 1]", "$[?match(@.s, 'a'), ?search(@.s, 'a')]",
    ];
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(&qs).to_string()).collect();
    let (_, d) = f_root(r, false);
    (q, d)
}
/// filters composed of few parts which look at the root, at the element, or call functions
fn f_mixed(r: &mut Rng, custom: bool) -> (Vec<String>, Vec<Doc>) {
    let mut tests = vec!["$.x", "$[0].a", "$.l", "$..x", "@.a", "@.b", "$.l[1]", "@.*", "$.y"];
    let mut other = vec!["@.a == 1", "count($..x) == 1", "length($.l) == 2", "$.x == @.a", "value($.x) == 1", "@.a != $.y", "count(@.*) == 1", "$.x == $.y"];
    if custom {
        for _ in 0..3 {
            tests.extend(["f2(@.a)", "f2($.x)", "f3($..x)", "f3(@.*)", "f2(@.b)", "f7(@.a, $.x)", "f3($.y)"]);
        }
        other.extend(["f0($.x) == 1", "f0(@.a) == 1", "f4($.l.*) == 3", "f6($.x) == 1", "f1(@.a) == f1($.x)"]);
    }
    fn part(r: &mut Rng, tests: &[&str], other: &[&str]) -> String {
        match r.below(4) {
            0 => r.pick(other).to_string(),
            1 => format!("!{}", r.pick(tests)),
            _ => r.pick(tests).to_string(),
        }
    }
    let filter = |r: &mut Rng| {
        let mut x = || part(r, &tests, &other);
        let (a, b, c) = (x(), x(), x());
        match r.below(9) {
            0 => a,
            1 | 2 => format!("{} && {}", a, b),
            3 | 4 => format!("{} || {}", a, b),
            5 => format!("!({} && {})", a, b),
            6 => format!("{} && ({} || {})", a, b, c),
            7 => format!("({} && {}) || {}", a, b, c),
            _ => format!("{} || {} && {}", a, b, c),
        }
    };
    let n = r.range(1, 2);
    let q = (0..n)
        .map(|_| {
            let (x, y) = (filter(r), filter(r));
            match r.below(7) {
                0 | 1 => format!("$[?{}]", x),
                2 | 3 => format!("$.l[?{}]", x),
                4 => format!("$..[?{}]", x),
                5 => format!("$.l[?{}, ?{}]", x, y),
                _ => format!("$[?{}][?{}]", x, y),
            }
        })
        .collect();
    let mut d = vec![];
    for k in 0..3 {
        let l: Vec<Value> = (0..r.range(1, 3))
            .map(|_| {
                let mut o = serde_json::Map::new();
                for k in ["a", "b"] {
                    if r.chance(2, 3) {
                        o.insert(k.into(), json!(r.below(3)));
                    }
                }
                Value::Object(o)
            })
            .collect();
        let mut o = serde_json::Map::new();
        o.insert("l".into(), json!(l));
        // with and without
        for (i, n) in ["x", "y"].iter().enumerate() {
            if (k + i) % 2 == 0 || r.chance(1, 3) {
                o.insert(n.to_string(), json!(r.below(3)));
            }
        }
        d.push(txt(if r.chance(1, 5) { o["l"].clone() } else { Value::Object(o) }));
    }
    (q, d)
}
/// the same thing many times in a row, and then something else
pub fn f_streak(r: &mut Rng, custom: bool) -> (Vec<String>, Vec<Doc>) {
    let mut qs = vec![
        "$[*].a", "$..a", "$[?@.a]", "$[*][1]", "$[*][-1]", "$[*][0:2]", "$[?match(@.s, 'a.')]", "$[?@.a == 1]", "$[?@.a < 2]", "$[*]['a', 'b']", "$[*].*", "$[?length(@) == 2]", "$[?count(@.*) == 1]",
        "$[?search(@.s, @.s)]", "$[?!@.b]", "$[*][?@.a]", "$[*][?@ == 1]", "$[?@.a == @.b]", "$[?@[0] == 1 || @.a]", "$[?value(@.*) == 1]", "$[?@ == 'ab']", "$..[1]", "$[?@.a && @.s]", "$[?match(@, 'a.')]",
        "$[?@['a']]", "$[*]['a']", "$[?@.*]",
    ];
    if custom {
        qs.extend(["$[?f2(@.a)]", "$[?f0(@.a) == 1]", "$[?f7(@.a, @.b)]", "$[?f3(@.*)]"]);
    }
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(&qs).to_string()).collect();
    let kind = |r: &mut Rng| match r.below(12) {
        0..=2 => json!({"a": 1, "s": "ab"}),
        3 | 4 => json!({"b": 1}),
        5 => json!([1, 2]),
        6 => json!([]),
        7 => json!({}),
        8 => json!("ab"),
        9 => json!(1),
        10 => json!({"a": {"a": 1, "b": 2}}),
        _ => json!({"a": 5, "b": 5, "s": "xx"}),
    };
    let (x, y) = (kind(r), kind(r));
    let n = *r.pick(&[10, 18, 34, 55, 70, 105, 135, 200, 270]);
    let part = |k: usize, m: usize| -> Vec<Value> { (0..k).map(|_| x.clone()).chain((0..m).map(|_| y.clone())).collect() };
    let mut d = vec![json!(part(n, 0)), json!(part(n, 2)), json!(part(0, 2)), json!(part(2, 0)), json!(part(1, 1))];
    r.shuffle(&mut d);
    d.truncate(3);
    if !d.iter().any(|v| v.as_array().unwrap().len() >= n) {
        d[0] = json!(part(n, r.below(2)));
    }
    (q, d.into_iter().map(txt).collect())
}
/// filters in which a look at the root, at the element or a standard call stands beside a custom
/// call; documents with several elements which agree on some of that only
pub fn f_within(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let looks = [
        "$.x", "!$.x", "!$.y", "$.x == 1", "@.a", "!@.a", "@.a == 1", "count($..x) == 1", "!$..y", "$.x == $.y", "!$.l[?@.a == 1]", "$.l[?@.b]", "length($.l) == 2", "value($..x) == 1", "@.a == $.x",
        "match(@.s, $.p)", "search(@.s, $.p)", "!match(@.s, $.p)", "count(@.*) == 2", "@.a < $.x", "$.l[1].a == @.a", "match($.p, 'a.?')", "length(@.s) == length($.p)", "!($.x && $.y)",
    ];
    let calls = ["f2(@.a)", "f2($.x)", "f3(@.*)", "f7(@.a, 1)", "f0(@.a) == 1", "f4($.l.*) == 3", "f2(@)", "!f2(@.s)", "f1(@.s) != ''", "f3($..x)"];
    let n = r.range(1, 2);
    let q = (0..n)
        .map(|_| {
            let (l, m, c, k) = (r.pick(&looks), r.pick(&looks), r.pick(&calls), r.pick(&calls));
            let t = match r.below(10) {
                0 | 1 => format!("{} && {}", l, c),
                2 => format!("{} || {}", l, c),
                3 => format!("{} && {}", c, l),
                4 => format!("{} || {}", c, l),
                5 => format!("({} || {}) && {}", c, k, l),
                6 => format!("{} && {} || {}", l, c, m),
                7 => format!("({} || {}) && {}", l, c, m),
                8 => format!("!({} && {})", l, c),
                _ => format!("({} || {}) && ({} || {})", l, c, m, k),
            };
            match r.below(8) {
                0 => format!("$..[?{}]", t),
                1 => format!("$.l[?{}].a", t),
                2 => format!("$.l[?{}, 0]", t),
                3 => format!("$.l[?@.a, ?{}]", t),
                _ => format!("$.l[?{}]", t),
            }
        })
        .collect();
    let d = (0..r.range(2, 4))
        .map(|k| {
            let l: Vec<Value> = (0..r.range(2, 4))
                .map(|_| {
                    let mut o = serde_json::Map::new();
                    for k in ["a", "b"] {
                        if r.chance(3, 4) {
                            o.insert(k.into(), json!(r.below(3)));
                        }
                    }
                    o.insert("s".into(), json!(*r.pick(&["a", "b", "ab"])));
                    Value::Object(o)
                })
                .collect();
            let mut o = serde_json::Map::new();
            for (i, n) in ["x", "y"].iter().enumerate() {
                if (k + i) % 2 == 0 || r.chance(1, 3) {
                    o.insert(n.to_string(), json!(r.below(3)));
                }
            }
            o.insert("p".into(), json!(*r.pick(&["a", "b", "a.*", "ab?"])));
            o.insert("l".into(), json!(l));
            txt(Value::Object(o))
        })
        .collect();
    (q, d)
}
/// names which some documents have everywhere, some nowhere and some here and there
fn f_members(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let qs = ["$.k", "$..k", "$[*].k", "$['k', 'm']", "$[?@.k]", "$.k.m", "$[*]['m', 'k']", "$..['k']", "$[0].k", "$.k[0]", "$[?@.k == 1]", "$.*.*.k", "$[?!@.k]", "$[?@.k || @.m]"];
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(&qs).to_string()).collect();
    let d = vec![
        txt(json!({"k": [1, {"k": 2, "m": 1}], "m": {"k": 1}})),
        txt(json!({"m": 1})),
        txt(json!([{"k": 1}, {"k": 2, "m": {"k": 3}}, {"k": {"m": 1}}])),
        txt(json!([{"m": 1}, {"m": 2}, {"n": 2}])),
        txt(json!([{"m": 1}, {"k": 2}, {"n": {"k": 1}}])),
        txt(json!({})),
    ];
    let mut d = d;
    r.shuffle(&mut d);
    d.truncate(3);
    (q, d)
}
/// arrays whose lengths are the same modulo a power of two
fn f_lengths(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let qs = [
        "$[-1]", "$[-2:]", "$[1:]", "$[:-1]", "$[::-1]", "$[0, -1]", "$.k[-1]", "$.k[1:]", "$.k[::7]", "$..[-1]", "$[?@ == 1]", "$[-3]", "$[2]", "$.k[:2]", "$[1:3]", "$.k[-2:-1]", "$[*]", "$.*[-1]", "$.k[*]", "$[5:]", "$..[1:]",
    ];
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(&qs).to_string()).collect();
    let (base, m) = (r.below(6), *r.pick(&[16, 32, 64, 128, 256, 256, 256]));
    let d = (0..3)
        .map(|i| {
            let a: Vec<usize> = (0..base + i * m).collect();
            txt(if r.chance(1, 2) { json!(a) } else { json!({"k": a}) })
        })
        .collect();
    (q, d)
}
/// queries whose last part walks over a container
pub fn f_containers(r: &mut Rng) -> (Vec<String>, Vec<Doc>) {
    let qs = [
        "$.*", "$[*]", "$.o.*", "$.a[*]", "$..*", "$..[*]", "$.a[::2]", "$.a[::-1]", "$.*.*", "$[*, *]", "$.o['x', 'y', 'z']", "$.a[0, 1, 2]", "$.o[?@ > 0]", "$.a[?@ > 0]", "$.a[?f2(@)]", "$.o[?f2(@)]", "$[?f2(@.x)]", "$[?@.*]", "$..[?f2(@)]",
        "$..[0]", "$..x", "$.*[1:]", "$.a[*, 0]", "$.*[?f3(@.*)]", "$.a[?f0(@) == 1, *]", "$.o", "$..['x', 'y']", "$.a[?f6(@) < 3 || @ > 1]",
    ];
    let n = r.range(1, 2);
    let q: Vec<String> = (0..n).map(|_| r.pick(&qs).to_string()).filter(|t| !t.contains("f6(")).collect();
    let q = if q.is_empty() { vec!["$.*".to_string()] } else { q };
    let d = (0..r.range(1, 2))
        .map(|_| {
            let a: Vec<Value> = (0..r.range(2, 5)).map(|i| match r.below(4) { 0 => json!([i, 1, 2]), 1 => json!({"x": i, "y": 1}), _ => json!(i) }).collect();
            let mut o = serde_json::Map::new();
            for (i, k) in ["x", "y", "z", "w"].iter().enumerate() {
                if r.chance(3, 4) {
                    o.insert(k.to_string(), if r.chance(1, 4) { json!([i, 0]) } else { json!(i) });
                }
            }
            txt(match r.below(4) {
                0 => json!(a),
                1 => Value::Object(o),
                _ => json!({"a": a, "o": o, "x": 1}),
            })
        })
        .collect();
    (q, d)
}

/// containers with numbers of members around powers of two
pub fn f_sizes(r: &mut Rng, custom: bool) -> (Vec<String>, Vec<Doc>) {
    let qs = [
        "$.*", "$[*]", "$..*", "$[?@ > 1]", "$[?@]", "$..[?@ == 1]", "$[*, *]", "$.k.*", "$.*.*", "$.k[?@ > 0]", "$[?length(@) == 2]", "$[?match(@, 'a.')]", "$[?count(@.*) > 8]", "$[?@.* == 1]", "$..k", "$[?length(@.k) > 8]",
        "$..[-1]", "$[::-1]", "$[?@ == $.m0]", "$[?value(@.*) == 1]", "$[?f2(@)]", "$[?f4(@.*) > 8]", "$.k[?f2(@)]",
    ];
    let qs = &qs[..if custom { qs.len() } else { qs.len() - 3 }];
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(qs).to_string()).collect();
    let leaf = |r: &mut Rng| match r.below(7) {
        0 => json!(null),
        1 => json!("ab"),
        2 => json!([0, 1]),
        3 => json!({"k": 1}),
        _ => json!(r.below(3)),
    };
    let d = (0..2)
        .map(|_| {
            let n = *r.pick(&[8usize, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65]);
            let inner = if r.chance(1, 2) {
                json!((0..n).map(|_| leaf(r)).collect::<Vec<_>>())
            } else {
                Value::Object((0..n).map(|i| (format!("m{}", i), leaf(r))).collect())
            };
            txt(if r.chance(2, 3) { inner } else { json!({"k": inner, "m0": 1}) })
        })
        .collect();
    (q, d)
}
/// documents nested to different depths
pub fn f_depth(r: &mut Rng, custom: bool) -> (Vec<String>, Vec<Doc>) {
    let qs = ["$..x", "$..*", "$..[?@.x]", "$..[?@ == 1]", "$..[0]", "$..['k', 'x']", "$[?count(@..x) > 3]", "$..k.x", "$..[?count(@.*) == 2]", "$..[?f4(@..*) == 3]", "$..[?f2(@)]"];
    let qs = &qs[..if custom { qs.len() } else { qs.len() - 2 }];
    let n = r.range(1, 2);
    let q = (0..n).map(|_| r.pick(qs).to_string()).collect();
    let d = (0..2)
        .map(|_| {
            let n = *r.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70]);
            let form = r.below(3);
            let mut v = json!({"x": 1});
            for i in 0..n {
                v = match form {
                    0 => json!({"k": v, "x": i}),
                    1 => json!([v]),
                    _ if i % 2 == 0 => json!([1, v]),
                    _ => json!({"k": v}),
                };
            }
            txt(v)
        })
        .collect();
    (q, d)
}

/// up to `n` operations of one family
pub fn family(r: &mut Rng, b: &mut B, p: &Pool, e: E, env: Option<u16>, mode: Use, n: usize) -> Vec<OpSpec> {
    let custom = env.is_some() && mode != Use::Default;
    let (qs, docs) = if mode == Use::Custom {
        match r.below(7) {
            0 => f_mixed(r, true),
            1 => f_within(r),
            6 if r.chance(1, 3) => f_depth(r, true),
            6 => f_sizes(r, true),
            2 => f_root(r, true),
            3 | 4 if b.over => f_std_calls(r),
            _ => f_calls(r),
        }
    } else {
        match r.below(if custom { 20 } else { 15 }) {
            0 | 1 => f_index(r),
            2 | 3 => f_pattern(r),
            4 => f_pattern_doc(r),
            5 | 6 => f_text(r, custom),
            7 => f_root(r, custom),
            8 => {
                let x = r.pick(&p.rex).clone();
                let d = p.doc(r).clone();
                let d2 = variant(r, &d);
                (vec![x.text], vec![d, d2])
            }
            9 if custom && r.chance(1, 2) => f_within(r),
            9 => f_mixed(r, custom),
            10 => f_members(r),
            11 => f_lengths(r),
            12 => f_sizes(r, custom),
            13 => f_depth(r, custom),
            14 => f_streak(r, custom),
            15 if b.over => f_std_calls(r),
            _ => f_calls(r),
        }
    };
    let compiled = match mode {
        Use::Compiled => true,
        Use::Default | Use::Parse => false,
        _ => r.chance(1, 2),
    };
    let mut out = vec![];
    let envs = [env, if r.chance(1, 6) { None } else { env }];
    for k in 0..n {
        // every text at least once, then at random
        let t = if k < qs.len() { qs[k].clone() } else { r.pick(&qs).clone() };
        let mut ex = Ex { custom: is_custom(&t), seq: false, q: None, sing: false, text: t };
        if mode == Use::Parse {
            if r.chance(1, 5) {
                ex.text = corrupt(r, &ex.text);
            }
            let parser = if ex.custom || r.chance(1, 3) { Some(b.parser(e)) } else { None };
            let expr = b.expr(&ex.text);
            out.push(OpSpec::new(Op::Parse { e, parser, expr }));
            continue;
        }
        let doc = b.doc(r.pick(&docs));
        let env = *r.pick(&envs);
        let env = if ex.custom { envs[0] } else { env };
        let (how, env) = match env {
            _ if compiled => (How::Query(b.query(e, &ex)), env.unwrap_or(DEFENV)),
            None => {
                let x = b.expr(&ex.text);
                (if r.chance(2, 3) { How::Top(x) } else { How::Std(x) }, DEFENV)
            }
            Some(v) => (b.env_how(e, &ex.text), v),
        };
        out.push(OpSpec::new(Op::Find { e, how, env, doc, loopy: r.chance(1, 4) }));
    }
    out
}
/// `n` draws from a set of operations; evaluations of the lazy crate are sometimes pulled
pub fn draws(r: &mut Rng, set: &[OpSpec], n: usize, fresh: bool) -> Vec<OpSpec> {
    let mut out = vec![];
    // runs of the same operation, or alternation
    let mut last = r.below(set.len());
    for i in 0..n {
        if !r.chance(1, 3) {
            last = r.below(set.len());
        }
        let mut o = set[last].clone();
        o.fresh = fresh && r.chance(3, 4);
        match &o.op {
            Op::Find { e: E::Iter, how, env, doc, .. } if r.chance(1, 4) => {
                let slot = (i % 8) as u8;
                let open = OpSpec { op: Op::Open { how: how.clone(), env: *env, doc: *doc, slot }, ..OpSpec::new(Op::Pause) };
                out.push(open);
                for _ in 0..r.range(1, 3) {
                    out.push(OpSpec::new(Op::Pull { slot, n: if r.chance(1, 2) { 1 } else { 1000 }, mode: if r.chance(2, 3) { 0 } else { r.range(1, 3) as u8 } }));
                }
                out.push(OpSpec::new(Op::Close { slot }));
            }
            _ => out.push(o),
        }
    }
    out
}
