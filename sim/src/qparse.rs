//! A small parser for the query texts the generators write, so that the reference model can
//! evaluate them.  Anything it does not know is simply unknown to the model.
use crate::gen::*;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    /// nesting of filters
    f: usize,
}
pub fn parse(t: &str) -> Option<Q> {
    if !t.is_ascii() {
        return None;
    }
    let mut p = P { s: t.as_bytes(), i: 0, f: 0 };
    let q = p.query()?;
    if p.i == p.s.len() && q.root {
        Some(q)
    } else {
        None
    }
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.s.get(self.i) == Some(&b' ') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            return true;
        }
        false
    }
    fn need(&mut self, t: &str) -> Option<()> {
        if self.eat(t) {
            Some(())
        } else {
            None
        }
    }
    fn name(&mut self) -> Option<String> {
        let a = self.i;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' {
            self.i += 1;
        }
        if a == self.i || self.s[a].is_ascii_digit() {
            return None;
        }
        Some(String::from_utf8_lossy(&self.s[a..self.i]).into_owned())
    }
    fn int(&mut self) -> Option<i64> {
        let a = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[a..self.i]).ok()?.parse().ok()
    }
    fn string(&mut self) -> Option<String> {
        self.need("'")?;
        let mut o = String::new();
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                b'\'' => return Some(o),
                b'\\' => {
                    let d = *self.s.get(self.i)?;
                    self.i += 1;
                    if d != b'\\' && d != b'\'' {
                        return None;
                    }
                    o.push(d as char);
                }
                c => o.push(c as char),
            }
        }
    }
    fn query(&mut self) -> Option<Q> {
        let root = match self.peek() {
            b'$' => true,
            b'@' => false,
            _ => return None,
        };
        if root && self.f > 1 {
            return None;
        }
        self.i += 1;
        let mut segs = vec![];
        loop {
            if self.eat("..") {
                segs.push(Seg::Desc(if self.peek() == b'[' {
                    self.bracket()?
                } else if self.eat("*") {
                    vec![Sel::Wild]
                } else {
                    vec![Sel::Name(self.name()?)]
                }));
            } else if self.eat(".") {
                segs.push(Seg::Child(if self.eat("*") { vec![Sel::Wild] } else { vec![Sel::Name(self.name()?)] }));
            } else if self.peek() == b'[' {
                segs.push(Seg::Child(self.bracket()?));
            } else {
                return Some(Q { root, segs });
            }
        }
    }
    fn bracket(&mut self) -> Option<Vec<Sel>> {
        self.need("[")?;
        let mut v = vec![];
        loop {
            self.ws();
            v.push(self.selector()?);
            self.ws();
            if self.eat("]") {
                return Some(v);
            }
            self.need(",")?;
        }
    }
    fn selector(&mut self) -> Option<Sel> {
        match self.peek() {
            b'*' => {
                self.i += 1;
                Some(Sel::Wild)
            }
            b'\'' => Some(Sel::Name(self.string()?)),
            b'?' => {
                self.i += 1;
                self.ws();
                self.f += 1;
                let l = self.or()?;
                self.f -= 1;
                Some(Sel::Filter(l))
            }
            b'$' | b'@' => Some(Sel::Sing(self.query()?)),
            _ => {
                let num = |p: &mut Self| -> Option<Option<i64>> {
                    p.ws();
                    let r = if p.peek() == b'-' || p.peek().is_ascii_digit() { Some(p.int()?) } else { None };
                    p.ws();
                    Some(r)
                };
                let a = num(self)?;
                if !self.eat(":") {
                    return Some(Sel::Idx(a?));
                }
                let b = num(self)?;
                let c = if self.eat(":") { num(self)? } else { None };
                // (as the generators write them: within the array)
                match (a, b, c) {
                    (None, None, Some(-1)) | (None | Some(0), None | Some(0..), None | Some(1 | 2)) => Some(Sel::Slice(a, b, c)),
                    _ => None,
                }
            }
        }
    }
    fn or(&mut self) -> Option<Lx> {
        let mut a = self.and()?;
        loop {
            self.ws();
            if !self.eat("||") {
                return Some(a);
            }
            self.ws();
            a = Lx::Or(Box::new(a), Box::new(self.and()?));
        }
    }
    fn and(&mut self) -> Option<Lx> {
        let mut a = self.basic()?;
        loop {
            self.ws();
            if !self.eat("&&") {
                return Some(a);
            }
            self.ws();
            a = Lx::And(Box::new(a), Box::new(self.basic()?));
        }
    }
    fn basic(&mut self) -> Option<Lx> {
        self.ws();
        if self.eat("!") {
            self.ws();
            return Some(Lx::Not(Box::new(if self.peek() == b'(' { self.paren()? } else { self.test()? })));
        }
        if self.peek() == b'(' {
            return self.paren();
        }
        let a = self.value()?;
        self.ws();
        for op in ["==", "!=", "<=", ">=", "<", ">"] {
            if self.eat(op) {
                self.ws();
                return Some(Lx::Cmp(a, op, self.value()?));
            }
        }
        as_test(a)
    }
    fn paren(&mut self) -> Option<Lx> {
        self.need("(")?;
        let l = self.or()?;
        self.ws();
        self.need(")")?;
        Some(l)
    }
    fn test(&mut self) -> Option<Lx> {
        let v = self.value()?;
        as_test(v)
    }
    fn value(&mut self) -> Option<Vx> {
        match self.peek() {
            b'$' | b'@' => return Some(Vx::Q(self.query()?)),
            b'\'' => return Some(Vx::Str(self.string()?)),
            b'-' | b'0'..=b'9' => {
                let a = self.i;
                while matches!(self.peek(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[a..self.i]).ok()?;
                if t.contains(['e', 'E']) || t == "-0" {
                    return None;
                }
                return if t.contains('.') { t.parse().ok().map(Vx::Float) } else { t.parse().ok().map(Vx::Int) };
            }
            _ => {}
        }
        let n = self.name()?;
        if self.peek() != b'(' {
            return match n.as_str() {
                "true" => Some(Vx::Bool(true)),
                "false" => Some(Vx::Bool(false)),
                "null" => Some(Vx::Null),
                _ => None,
            };
        }
        self.i += 1;
        let name = NAMES.iter().position(|x| *x == n)?;
        let mut args = vec![];
        loop {
            self.ws();
            if self.eat(")") {
                break;
            }
            if !args.is_empty() {
                self.need(",")?;
                self.ws();
            }
            let nodes = matches!(name, 0 | 4 | 8 | 9 | 13) || name == 14 && args.len() == 2;
            let logical = name == 16 || name == 14 && args.is_empty();
            args.push(if nodes && self.peek() == b'f' {
                match self.value()? {
                    Vx::Call(c) if c.name == 13 => Arg::F(c),
                    _ => return None,
                }
            } else if nodes {
                Arg::N(self.query()?)
            } else if logical {
                match self.paren()? {
                    l @ (Lx::Or(..) | Lx::And(..) | Lx::Cmp(..)) => Arg::L(l),
                    _ => return None,
                }
            } else {
                Arg::V(self.value()?)
            });
        }
        let want = match name {
            2 | 3 | 10 | 12 => 2,
            14 => 3,
            15 => 0,
            17 => 5,
            _ => 1,
        };
        if args.len() != want {
            return None;
        }
        Some(Vx::Call(Call { name, args }))
    }
}
fn as_test(v: Vx) -> Option<Lx> {
    match v {
        Vx::Q(q) => Some(Lx::Test(q)),
        Vx::Call(c) if matches!(c.name, 2 | 3 | 7 | 8 | 12 | 13 | 14) => Some(Lx::Call(c)),
        _ => None,
    }
}

/// the parser reads what the generators write (run by `simcheck selftest`)
pub fn selftest() -> usize {
    let mut n = 0;
    for s in 0..200 {
        let p = Pool::new(s);
        for l in [&p.cust, &p.std, &p.rex] {
            for x in l.iter().filter(|x| x.text.is_ascii()) {
                let q = parse(&x.text);
                if x.text.contains(':') && q.is_none() {
                    continue;
                }
                let t = q.as_ref().map(|q| q.to_string());
                if t.as_ref() != Some(&x.text) {
                    println!("{} is read as {:?}", x.text, t);
                    std::process::exit(1);
                }
                n += 1;
            }
        }
    }
    n
}
