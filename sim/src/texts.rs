//! Query texts beyond what the syntax trees of gen.rs produce: every spelling the grammars accept,
//! every error the parsers report, very long and very short texts.
use crate::rng::Rng;
use crate::spec::Doc;
use serde_json::{json, Value};

pub const ODD_NAMES: [&str; 12] = ["\u{e9}", "a b", "'", "\"", "\\", "\n", "\u{2603}", "\u{1F600}", "", "a.b", "1", "\u{7f}\u{80}"];

fn quoted(r: &mut Rng, s: &str) -> String {
    let d = r.chance(1, 2);
    let mut o = String::from(if d { "\"" } else { "'" });
    for c in s.chars() {
        match c {
            '"' if d => o.push_str("\\\""),
            '\'' if !d => o.push_str("\\'"),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '/' if r.chance(1, 2) => o.push_str("\\/"),
            c if (c as u32) < 0x20 || r.chance(1, 12) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &if r.chance(1, 2) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
                }
            }
            c => o.push(c),
        }
    }
    o.push(if d { '"' } else { '\'' });
    o
}
fn ws(r: &mut Rng) -> &'static str {
    ["", "", "", "", " ", "  ", "\t", "\n", "\r\n "][r.below(9)]
}
fn a_name(r: &mut Rng) -> &'static str {
    if r.chance(1, 4) {
        ODD_NAMES[r.below(12)]
    } else {
        ["a", "b", "s", "x", "k", "p", "n"][r.below(7)]
    }
}
fn int(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "-1".into(),
        1 => "9007199254740991".into(),
        2 => "-9007199254740991".into(),
        3 => format!("{}", r.below(300)),
        4 => "-0".replace("-0", "0"),
        _ => format!("{}", r.below(4) as i64 - 1),
    }
}
fn number(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "-0".into(),
        1 => "1.5".into(),
        2 => "1e2".into(),
        3 => "1E-2".into(),
        4 => "0.1".into(),
        5 => "1e+1".into(),
        6 => "-1.5e-1".into(),
        7 => "123456789012345678901234567890".into(),
        8 => "1.0".into(),
        _ => int(r),
    }
}
fn literal(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "true".into(),
        1 => "false".into(),
        2 => "null".into(),
        3..=5 => number(r),
        _ => {
            let s = if r.chance(1, 3) { ODD_NAMES[r.below(12)].to_string() } else { ["a", "ab", "abc", "b", "", "a.b"][r.below(6)].to_string() };
            quoted(r, &s)
        }
    }
}
fn singular(r: &mut Rng, d: usize) -> String {
    let mut s = String::from(if r.chance(1, 5) { "$" } else { "@" });
    for _ in 0..r.below(3) + (d == 0) as usize {
        s += ws(r);
        s += &match r.below(4) {
            0 => format!("[{}]", int(r)),
            1 => format!("[{}]", { let n = a_name(r); quoted(r, n) }),
            _ => format!(".{}", ["a", "b", "s", "x", "\u{e9}", "a1", "_k"][r.below(7)]),
        };
    }
    s
}
fn comparable(r: &mut Rng, d: usize, custom: bool) -> String {
    match r.below(8) {
        0..=2 => literal(r),
        3 if d < 3 => call(r, d + 1, custom, false),
        _ => singular(r, d),
    }
}
fn nodes(r: &mut Rng, d: usize, custom: bool) -> String {
    let q = query(r, "@", d + 2, custom);
    if custom && r.chance(1, 8) {
        return format!("f8({})", q);
    }
    q
}
fn compared(r: &mut Rng, d: usize, custom: bool) -> String {
    let a = comparable(r, d, custom);
    let b = comparable(r, d, custom);
    format!("{}{}{}{}{}", a, ws(r), ["==", "!=", "<", ">", "<=", ">="][r.below(6)], ws(r), b)
}
fn call(r: &mut Rng, d: usize, custom: bool, logical: bool) -> String {
    let f: &str = match (custom && r.chance(2, 3), logical) {
        (false, false) => ["count", "length", "value", "length"][r.below(4)],
        (false, true) => ["match", "search"][r.below(2)],
        (true, false) => ["f0", "f1", "f4", "f5", "f0", "f1", "f4", "f5", "f10", "f11", "f12"][r.below(11)],
        (true, true) => ["f2", "f3", "f7", "f2", "f3", "f7", "f8", "f9"][r.below(8)],
    };
    let one = |r: &mut Rng| comparable(r, d + 1, custom);
    let args = match f {
        "count" | "value" | "f4" | "f3" | "f8" => vec![nodes(r, d, custom)],
        "f10" => vec![],
        "f11" => vec![format!("({})", compared(r, d + 1, custom))],
        "f9" => vec![format!("({})", compared(r, d + 1, custom)), one(r), nodes(r, d, custom)],
        "f12" => (0..5).map(|_| comparable(r, 9, custom)).collect(),
        "match" | "search" => {
            let a = one(r);
            let p = ["'a.*'", "\"[ab]+\"", "'\u{e9}.'", "'a\\\\.b'", "'('", "@.p", "'\\u0061'", "'\\\\p{Lu}'", "'\\\\d'"][r.below(9)];
            vec![a, p.to_string()]
        }
        "f5" | "f7" => vec![one(r), one(r)],
        _ => vec![one(r)],
    };
    let (x, y, z) = (ws(r), ws(r), ws(r));
    format!("{}({}{}{})", f, x, args.join(&format!("{},{}", y, z)), ws(r))
}
fn logical(r: &mut Rng, d: usize, custom: bool) -> String {
    match r.below(11) {
        0 | 1 if d < 3 => format!("{}{}||{}{}", logical(r, d + 1, custom), ws(r), ws(r), logical(r, d + 1, custom)),
        2 | 3 if d < 3 => format!("{}{}&&{}{}", logical(r, d + 1, custom), ws(r), ws(r), logical(r, d + 1, custom)),
        4 if d < 3 => format!("{}({}{}{})", ["", "!", "! "][r.below(3)], ws(r), logical(r, d + 1, custom), ws(r)),
        5 => {
            let id = if r.chance(1, 5) { "$" } else { "@" };
            format!("{}{}", ["", "!"][r.below(2)], query(r, id, d + 2, custom))
        }
        6 => format!("{}{}", ["", "!"][r.below(2)], call(r, d + 1, custom, true)),
        _ => format!("{}{}{}{}{}", comparable(r, d, custom), ws(r), ["==", "!=", "<", ">", "<=", ">="][r.below(6)], ws(r), comparable(r, d, custom)),
    }
}
fn selector(r: &mut Rng, d: usize, custom: bool) -> String {
    match r.below(10) {
        0..=2 => { let n = a_name(r); quoted(r, n) }
        3 => int(r),
        4 => "*".into(),
        5 => {
            let o = |r: &mut Rng| if r.chance(1, 2) { String::new() } else { format!("{}", r.below(5) as i64 - 1) };
            let mut s = format!("{}{}:{}{}", o(r), ws(r), ws(r), o(r));
            if r.chance(1, 2) {
                s += &format!("{}:{}{}", if s.ends_with(|c: char| c.is_ascii_digit()) { ws(r) } else { "" }, "", ["", "1", "2", "-1"][r.below(4)]);
            }
            s
        }
        _ if d < 3 => format!("?{}{}", ws(r), logical(r, d + 1, custom)),
        _ => "0".into(),
    }
}
fn query(r: &mut Rng, id: &str, d: usize, custom: bool) -> String {
    let mut s = id.to_string();
    for _ in 0..r.range(1, if d == 0 { 3 } else { 2 }) {
        s += ws(r);
        s += &match r.below(8) {
            0 | 1 => format!(".{}", ["a", "b", "s", "x", "\u{e9}", "a1", "_k", "*"][r.below(8)]),
            2 => format!("..{}", ["a", "b", "s", "*", "\u{e9}"][r.below(5)]),
            k => {
                let n = [1, 1, 1, 2, 3][r.below(5)];
                let v: Vec<String> = (0..n).map(|_| selector(r, d, custom)).collect();
                let (x, y) = (ws(r), ws(r));
                format!("{}[{}{}{}]", if k == 3 { ".." } else { "" }, ws(r), v.join(&format!("{},{}", x, y)), ws(r))
            }
        };
    }
    s
}
/// any spelling
pub fn valid(r: &mut Rng, custom: bool) -> String {
    loop {
        let s = query(r, "$", 0, custom);
        if s.len() < 400 {
            return s;
        }
    }
}
/// texts at every place where a parser gives up, with holes
const ERRORS: [&str; 84] = [
    "$[?{f}(@.{n})]", "$[?{f}(@.{n}) == {i}]", "$[?{f}()]", "$[?{g}()]", "$[?{g}(@.{n}, @.{n}, @.{n})]", "$[?{g}(@.*, @.*)]", "$[?{g}(@.*) == {i}]", "$[?{g}(@.{n}, 'a') == {i}]",
    "$[?{g}({i})]", "$[?{g}('{n}')]", "$[?{g}(true) == {i}]", "$[?{g}(@.{n} == 1) == {i}]", "$[?{g}({g}(@.{n})) == {i}]", "$[?{g}({f}(@.{n})) == {i}]", "$[?{g}(@.{n}, {f}(@))]",
    "$[?@.* == {i}]", "$[?{i} == @..{n}]", "$[?@[{i},0] == {i}]", "$[?@[{i}:] < {i}]", "$[?@.{n} == $..*]", "$[?'{n}']", "$[?{i}]", "$[?true]", "$[?@.{n} && {i}]", "$[?@.{n} || '{n}']", "$[?!{i}]",
    "$[?(@.{n}", "$[?@.{n})]", "$[?((@.{n})]", "$[?@.{n} = {i}]", "$[?@.{n} & {i}]", "$[?@.{n} | {i}]", "$[?@.{n} === {i}]", "$[?]", "$[? ]", "$[?{n}]", "$[?@.{n} ==]", "$[?== {i}]", "$[?@{n}]", "$[?@.{n} == nul]",
    "$[?@.{n} == True]", "$[?@.{n} == 01]", "$[?@.{n} == 1.]", "$[?@.{n} == .5]", "$[?@.{n} == 1e]", "$[?@.{n} == --1]", "$[?@.{n} == +1]", "$[?@.{n} == 0x1]", "$[0{i}]", "$[-0]", "$[-]", "$[--{i}]", "$[{i}.0]", "$[1e2]",
    "$[9007199254740992]", "$[-9007199254740992:]", "$[:99999999999999999999]", "$[::9007199254740993]", "$[{i}:{i}:{i}:{i}]", "$[{i}", "$[{i},", "$[{i},]", "$[,{i}]", "$[]", "$[ ]", "$['{n}", "$[\"{n}]", "$['{n}\"]", "$['\\q']",
    "$['\\u12']", "$['\\uD800']", "$['\\uDC00\\uD800']", "$['\\uD800\\u0041']", "$[\"\\'\"]", "$['{n}\u{1}']", "$.", "$..", "$...{n}", "$.{i}", "$. {n}", "$.'{n}'", "{n}", " $.{n}", "$.{n} ",
];
pub fn error(r: &mut Rng) -> String {
    let t = if r.chance(1, 3) { ERRORS[r.below(15)] } else { ERRORS[r.below(84)] };
    let mut o = String::new();
    let mut it = t.split('{').peekable();
    o += it.next().unwrap();
    for x in it {
        let (h, rest) = x.split_at(2.min(x.len()));
        match h {
            "n}" => o += ["a", "b", "s", "k"][r.below(4)],
            "i}" => o += &r.below(4).to_string(),
            "f}" => o += ["nosuch", "lenght", "counts", "f8", "matches", "f_1", "no_such_function_at_all"][r.below(7)],
            "g}" => o += ["count", "length", "match", "search", "value", "f0", "f2", "f3", "f4", "f5", "f7"][r.below(11)],
            _ => {
                o.push('{');
                o += h;
            }
        }
        o += rest;
    }
    // at some depth
    match r.below(6) {
        0 => o.replacen('$', "$..[?@.a].b", 1),
        1 => o.replacen('$', "$[?@.a == 1]", 1),
        2 if o.starts_with("$[?") && o.ends_with(']') => format!("$[?@.b || {}]", &o[3..o.len() - 1]),
        _ => o,
    }
}
/// hundreds of characters
pub fn long(r: &mut Rng) -> String {
    let n = [20, 40, 80, 150, 300][r.below(5)];
    let w = ["a", "b", "s", "k"][r.below(4)];
    match r.below(9) {
        0 => format!("$[?{}]", (0..n).map(|i| format!("@.{} == {}", w, i % 7)).collect::<Vec<_>>().join([" && ", " || ", "&&"][r.below(3)])),
        1 => format!("$[{}]", (0..n).map(|i| format!("'{}{}'", w, i)).collect::<Vec<_>>().join(", ")),
        2 => format!("$[{}]", (0..n).map(|i| format!("{}", i)).collect::<Vec<_>>().join(",")),
        3 => format!("${}", (0..n).map(|_| format!(".{}", w)).collect::<String>()),
        4 => format!("$['{}']", w.repeat(n * 4)),
        5 => {
            let d = 1 + n / 12;
            format!("$[?{}@.{}{}]", "(".repeat(d), w, ")".repeat(d))
        }
        6 => format!("${}$.{}{}", "[?".repeat(1 + n / 20), w, "]".repeat(1 + n / 20)).replace("[?$", "[?@"),
        7 => format!("$[?match(@.{}, '{}')]", w, "a|b*".repeat(n)),
        _ => format!("$[?{} && @.{} == ]", (0..n).map(|i| format!("@.{}[{}]", w, i)).collect::<Vec<_>>().join(" || "), w),
    }
}
pub fn tiny(r: &mut Rng) -> String {
    ["$", "$.a", "$[0]", "$.*", "$..a", "$['a']", "$[?@.a]", "$[?@.a == 1]", "$[", "", "$[?match(@.s,'a')]"][r.below(11)].to_string()
}

/// many elements or members, odd names, depth
pub fn wide(r: &mut Rng) -> Doc {
    let n = [12, 17, 33, 34, 40, 65, 70, 130][r.below(8)];
    let rec = |r: &mut Rng, i: usize| match r.below(5) {
        0 => json!({"a": i % 3, "s": *r.pick(&crate::gen::WORDS)}),
        1 => json!({"a": r.below(3), "b": [1, {"a": 1}], "s": "ab"}),
        2 => json!(r.below(3)),
        3 => json!({"s": *r.pick(&crate::gen::WORDS), "p": "a.*"}),
        _ => json!({"a": i, "b": i % 2}),
    };
    let v = match r.below(5) {
        0 | 1 => Value::Array((0..n).map(|i| rec(r, i)).collect()),
        2 => {
            let mut m = serde_json::Map::new();
            for i in 0..n {
                m.insert(format!("m{}", i), rec(r, i));
            }
            m.insert("a".into(), json!([1, 2, 3]));
            m.insert("s".into(), json!("ab"));
            Value::Object(m)
        }
        3 => {
            let mut m = serde_json::Map::new();
            for k in ODD_NAMES {
                m.insert(k.into(), rec(r, k.len()));
            }
            m.insert("a".into(), Value::Array((0..n).map(|i| rec(r, i)).collect()));
            Value::Object(m)
        }
        _ => {
            let mut v = json!({"a": 1, "s": "ab"});
            for i in 0..r.range(5, 40) {
                v = if i % 3 == 0 { json!([v, i]) } else { json!({"a": v, "b": i}) };
            }
            json!([v, {"a": 1}])
        }
    };
    Doc::Text(v.to_string())
}
/// names and strings with escapes, in names, comparisons and arguments
pub fn escaped(r: &mut Rng) -> String {
    let n = |r: &mut Rng| {
        let base = *r.pick(&["a", "ab", "x\n", "\u{e9}\\", "\u{1F600}a", "a/b", "'\"", "\t\u{7}"]);
        let s = quoted(r, base);
        // at least one escape
        if s.contains('\\') { s } else { format!("{}\\u0062{}", &s[..s.len() - 1], &s[s.len() - 1..]) }
    };
    match r.below(7) {
        0 => format!("$[{}]", n(r)),
        1 => format!("$[{}, {}]", n(r), n(r)),
        2 => format!("$[?@[{}] == {}]", n(r), n(r)),
        3 => format!("$[?match(@.a, {})]", n(r)),
        4 => format!("$..[{}]['a']", n(r)),
        5 => format!("$[?@.a == {} || $[{}]]", n(r), n(r)),
        _ => format!("$[?length({}) == 1, {}]", n(r), n(r)),
    }
}
