//! Location lists against a model (plain vectors).
use crate::rt;
use crate::spec::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Lists {
    loc: Vec<(jsonpath_rfc9535_locations::node::Location, Vec<u32>)>,
    sing: Vec<(jsonpath_rfc9535_singular::node::Location, Vec<u32>)>,
}
impl Lists {
    pub fn new() -> Lists {
        Lists { loc: vec![], sing: vec![] }
    }
    pub fn finish(self) {
        let Lists { loc, sing } = self;
        for (l, m) in loc {
            rt::lib(|| drop(l));
            drop(m);
        }
        for (l, m) in sing {
            rt::lib(|| drop(l));
            drop(m);
        }
    }
}
/// what was written to a sink: its start, length and a hash
#[derive(PartialEq, Default)]
struct Shown {
    start: String,
    len: usize,
    hash: u64,
}
impl Shown {
    fn of(f: impl FnOnce(&mut Shown)) -> Shown {
        let mut s = Shown::default();
        f(&mut s);
        s
    }
}
impl std::fmt::Write for Shown {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        rt::harness(|| {
            if self.start.len() < 300 {
                self.start.push_str(t);
            }
            self.len += t.len();
            for b in t.bytes() {
                self.hash = (self.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
        });
        Ok(())
    }
}
macro_rules! list_impl {
    ($modn:ident, $krate:ident) => {
        mod $modn {
            use super::*;
            use $krate::node::{Location, Node, PathElement};
            type L = (Location, Vec<u32>);
            fn el(x: u32) -> PathElement {
                if x % 3 == 1 {
                    PathElement::Name(format!("n{}", x))
                } else {
                    PathElement::Index(x as usize)
                }
            }
            fn same(e: &PathElement, x: u32) -> bool {
                match e {
                    PathElement::Index(i) => x % 3 != 1 && *i == x as usize,
                    PathElement::Name(s) => x % 3 == 1 && rt::harness(|| *s == format!("n{}", x)),
                }
            }
            // the model keeps the front of the list at the end of the vector
            fn check(l: &L, full: bool, bad: &mut Vec<String>) {
                let (l, m) = l;
                if l.len() != m.len() {
                    bad.push(format!("location has length {} instead of {}", l.len(), m.len()));
                    return;
                }
                if l.is_empty() != m.is_empty() {
                    bad.push("is_empty disagrees with the length".into());
                }
                match (l.head(), m.last()) {
                    (None, None) => {}
                    (Some(e), Some(x)) if same(e, *x) => {}
                    _ => bad.push("wrong head of a location".into()),
                }
                if !full && m.len() > 300 {
                    return;
                }
                match (rt::lib(|| l.last()), m.first()) {
                    (None, None) => {}
                    (Some(e), Some(x)) if same(e, *x) => {}
                    _ => bad.push("wrong last element of a location".into()),
                }
                let it = rt::lib(|| l.iter());
                if it.size_hint() != (m.len(), Some(m.len())) {
                    bad.push("wrong size hint of a location iterator".into());
                }
                let mut n = 0;
                for e in it {
                    if n >= m.len() || !same(e, m[m.len() - 1 - n]) {
                        bad.push(format!("wrong element {} of a location of length {}", n, m.len()));
                        return;
                    }
                    n += 1;
                }
                if n != m.len() {
                    bad.push(format!("iterating a location of length {} gave {} elements", m.len(), n));
                }
                if m.len() > 3000 {
                    return;
                }
                // the other ways to go through it
                let k = m.len() / 2;
                let mut it = rt::lib(|| l.into_iter());
                let at = rt::lib(|| it.nth(k));
                let twin = rt::lib(|| it.clone());
                let want = |i: usize| m.len().checked_sub(1 + i).map(|i| m[i]);
                let right = |e: Option<&PathElement>, i: usize| match (e, want(i)) {
                    (None, None) => true,
                    (Some(e), Some(x)) => same(e, x),
                    _ => false,
                };
                if !right(at, k) {
                    bad.push(format!("nth({}) of a location of length {} is wrong", k, m.len()));
                }
                for mut it in [it, twin] {
                    let mut i = k + 1;
                    loop {
                        let e = rt::lib(|| it.next());
                        if !right(e, i) {
                            bad.push(format!("wrong element {} of a location of length {} after nth({})", i, m.len(), k));
                            return;
                        }
                        if e.is_none() {
                            break;
                        }
                        i += 1;
                    }
                }
                if rt::lib(|| l.iter().count()) != m.len() {
                    bad.push("wrong count of a location's elements".into());
                }
            }
            fn text(m: &[u32]) -> String {
                let mut s = String::from("$");
                for x in m {
                    s += &if x % 3 == 1 { format!("['n{}']", x) } else { format!("[{}]", x) };
                }
                s
            }
            fn set(v: &mut Vec<L>, i: u8, l: L) {
                let i = i as usize;
                while v.len() <= i {
                    v.push((Location::new(), vec![]));
                }
                let old = std::mem::replace(&mut v[i], l);
                rt::lib(|| drop(old.0));
            }
            fn get(v: &mut Vec<L>, i: u8) -> &L {
                let i = i as usize;
                while v.len() <= i {
                    v.push((Location::new(), vec![]));
                }
                &v[i]
            }
            pub fn run(v: &mut Vec<L>, ops: &[LOp], bad: &mut Vec<String>) {
                for o in ops {
                    if bad.len() > 3 {
                        return;
                    }
                    match o {
                        LOp::New(d) => set(v, *d, (rt::lib(|| Location::new()), vec![])),
                        LOp::Append(d, s, x) => {
                            let (l, m) = get(v, *s);
                            let mut m = m.clone();
                            let l = rt::lib(|| l.append(el(*x)));
                            m.push(*x);
                            set(v, *d, (l, m));
                            check(get(v, *d), false, bad);
                            if d != s {
                                check(get(v, *s), false, bad);
                            }
                        }
                        LOp::Grow(d, s, k) => {
                            let (l, m) = get(v, *s);
                            let mut m = m.clone();
                            let mut l = rt::lib(|| l.clone());
                            for i in 0..*k {
                                l = rt::lib(|| l.append(el(i)));
                                m.push(i);
                            }
                            set(v, *d, (l, m));
                            check(get(v, *d), false, bad);
                        }
                        LOp::From(d, k) => {
                            let m: Vec<u32> = (0..*k).map(|i| i.wrapping_mul(7) % 1000).collect();
                            let l: Location = rt::lib(|| m.iter().map(|x| el(*x)).collect());
                            set(v, *d, (l, m));
                            check(get(v, *d), true, bad);
                        }
                        LOp::Tail(d, s) => {
                            let (l, m) = get(v, *s);
                            let mut m = m.clone();
                            let l = rt::lib(|| l.tail());
                            m.pop();
                            set(v, *d, (l, m));
                            check(get(v, *d), false, bad);
                        }
                        LOp::Tailn(d, s, n) => {
                            let (l, m) = get(v, *s);
                            let mut m = m.clone();
                            let n = *n as usize;
                            let l = rt::lib(|| l.tailn(n));
                            m.truncate(m.len().saturating_sub(n));
                            set(v, *d, (l, m));
                            check(get(v, *d), false, bad);
                        }
                        LOp::Lastn(d, s, n) => {
                            let (l, m) = get(v, *s);
                            let mut m = m.clone();
                            let n = *n as usize;
                            let l = rt::lib(|| l.lastn(n));
                            m.truncate(n);
                            set(v, *d, (l, m));
                            check(get(v, *d), false, bad);
                        }
                        LOp::Clone(d, s) => {
                            let (l, m) = get(v, *s);
                            let m = m.clone();
                            let l = rt::lib(|| l.clone());
                            set(v, *d, (l, m));
                            check(get(v, *d), false, bad);
                        }
                        LOp::Drop(d) => set(v, *d, (Location::new(), vec![])),
                        LOp::IterWhileDrop(s, d, at) => {
                            let _ = get(v, *d);
                            let _ = get(v, *s);
                            let other = std::mem::replace(&mut v[*d as usize], (Location::new(), vec![]));
                            let mut other = Some(other);
                            let (l, m) = if s == d { (other.as_ref().unwrap().0.clone(), other.as_ref().unwrap().1.clone()) } else { (v[*s as usize].0.clone(), v[*s as usize].1.clone()) };
                            let mut n = 0;
                            for e in l.iter() {
                                if n == *at as usize {
                                    let o = other.take();
                                    rt::lib(|| drop(o));
                                }
                                if n >= m.len() || !same(e, m[m.len() - 1 - n]) {
                                    bad.push("wrong element while another list sharing structure was dropped".into());
                                    break;
                                }
                                n += 1;
                            }
                            if n != m.len() {
                                bad.push("iteration ended early while another list was dropped".into());
                            }
                            rt::lib(|| drop(l));
                        }
                        LOp::Check(s) => check(get(v, *s), true, bad),
                        LOp::Eq(..) | LOp::Cmp(..) | LOp::Hash(_) => {}
                        LOp::Debug(s) => {
                            let (l, m) = get(v, *s);
                            let want = Shown::of(|w| {
                                use std::fmt::Write;
                                let _ = w.write_str("[");
                                for (i, x) in m.iter().rev().enumerate() {
                                    let _ = write!(w, "{}{:?}", if i > 0 { ", " } else { "" }, el(*x));
                                }
                                let _ = w.write_str("]");
                            });
                            let got = Shown::of(|w| {
                                use std::fmt::Write;
                                let _ = rt::lib(|| write!(w, "{:?}", l));
                            });
                            if got != want {
                                bad.push(format!("location of length {} prints as {}... instead of {}...", m.len(), got.start, want.start));
                            }
                        }
                        LOp::Node(s, x) => {
                            let (l, m) = get(v, *s);
                            let val = serde_json::Value::Bool(true);
                            let (p, q) = rt::lib(|| {
                                let a = Node::new_array_element(&val, l, *x as usize);
                                let b = Node::new_object_member(&val, &a.location, format!("m{}", x));
                                let q = b.path();
                                drop(b);
                                (a.path(), q)
                            });
                            let want = format!("{}[{}]", text(m), x);
                            let want2 = format!("{}['m{}']", want, x);
                            if p != want || q != want2 {
                                bad.push(format!("node has path {} instead of {}", &p[..p.len().min(200)], &want[..want.len().min(200)]));
                            }
                        }
                        LOp::PanicHold(s) => {
                            let l = get(v, *s).0.clone();
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                let _keep = rt::lib(|| (l.clone(), l.tail(), l.append(el(5))));
                                let _m = rt::Mode::harness();
                                std::panic::resume_unwind(Box::new(String::from("sim-panic")));
                            }));
                            if r.is_ok() {
                                bad.push("panic swallowed".into());
                            }
                            rt::lib(|| drop(l));
                            check(get(v, *s), false, bad);
                        }
                    }
                }
            }
        }
    };
}
list_impl!(loc_l, jsonpath_rfc9535_locations);
list_impl!(sing_l, jsonpath_rfc9535_singular);

pub fn run(e: E, ls: &mut Lists, ops: &[LOp], bad: &mut Vec<String>) {
    match e {
        E::Sing => sing_l::run(&mut ls.sing, ops, bad),
        _ => loc_l::run(&mut ls.loc, ops, bad),
    }
}
