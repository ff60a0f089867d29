//! JSON texts, and what they mean (RFC 8259).
use super::expr::E::{self, *};
use std::collections::BTreeMap;

struct J<'a> {
    s: &'a [u8],
    at: usize,
    depth: usize,
}

/// `None`: not a JSON text.
pub fn json(text: &str) -> Option<E> {
    let mut j = J { s: text.as_bytes(), at: 0, depth: 0 };
    let v = j.value()?;
    j.space();
    (j.at == j.s.len()).then_some(v)
}

impl J<'_> {
    fn space(&mut self) {
        while self.s.get(self.at).is_some_and(|c| b" \t\r\n".contains(c)) {
            self.at += 1
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        let ok = self.s[self.at..].starts_with(t.as_bytes());
        if ok {
            self.at += t.len()
        }
        ok
    }
    fn value(&mut self) -> Option<E> {
        self.space();
        self.depth += 1;
        let v = match *self.s.get(self.at)? {
            b'{' => {
                self.at += 1;
                let mut m = BTreeMap::new();
                self.space();
                if !self.eat("}") {
                    loop {
                        self.space();
                        let k = self.string()?;
                        self.space();
                        if !self.eat(":") {
                            return Option::None;
                        }
                        let v = self.value()?;
                        m.insert(k, v);
                        self.space();
                        if self.eat("}") {
                            break;
                        }
                        if !self.eat(",") {
                            return Option::None;
                        }
                    }
                }
                Map(m)
            }
            b'[' => {
                self.at += 1;
                let mut v = vec![];
                self.space();
                if !self.eat("]") {
                    loop {
                        v.push(self.value()?);
                        self.space();
                        if self.eat("]") {
                            break;
                        }
                        if !self.eat(",") {
                            return Option::None;
                        }
                    }
                }
                List(v)
            }
            b'"' => Str(self.string()?),
            b't' if self.eat("true") => Bool(true),
            b'f' if self.eat("false") => Bool(false),
            b'n' if self.eat("null") => E::None,
            _ => self.number()?,
        };
        self.depth -= 1;
        Some(v)
    }
    fn digits(&mut self) -> bool {
        let start = self.at;
        while self.s.get(self.at).is_some_and(u8::is_ascii_digit) {
            self.at += 1
        }
        self.at > start
    }
    fn number(&mut self) -> Option<E> {
        let start = self.at;
        self.eat("-");
        if !self.eat("0") && !self.digits() {
            return Option::None;
        }
        if self.eat(".") && !self.digits() {
            return Option::None;
        }
        if self.eat("e") || self.eat("E") {
            let _ = self.eat("+") || self.eat("-");
            if !self.digits() {
                return Option::None;
            }
        }
        std::str::from_utf8(&self.s[start..self.at]).ok()?.parse().ok().map(Flt)
    }
    fn unit(&mut self) -> Option<u32> {
        let h = self.s.get(self.at..self.at + 4)?;
        if !h.iter().all(u8::is_ascii_hexdigit) {
            return Option::None;
        }
        self.at += 4;
        u32::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        if !self.eat("\"") {
            return Option::None;
        }
        let mut out = vec![];
        loop {
            let c = *self.s.get(self.at)?;
            self.at += 1;
            match c {
                b'"' => break,
                0..=0x1f => return Option::None,
                b'\\' => {
                    let e = *self.s.get(self.at)?;
                    self.at += 1;
                    let c = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\x08',
                        b'f' => '\x0c',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.unit()?;
                            let code = if (0xd800..0xdc00).contains(&a) {
                                // the other half must follow
                                if !self.eat("\\u") {
                                    return Option::None;
                                }
                                let b = self.unit()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return Option::None;
                                }
                                0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                            } else {
                                a
                            };
                            char::from_u32(code)?
                        }
                        _ => return Option::None,
                    };
                    out.extend(c.to_string().bytes())
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).ok()
    }
}

/// The value of a single TOML literal. `Err`: it is none.
pub const TOML: &[(&str, Result<E, ()>)] = &[
    ("1", Ok(Int(1))), ("-5", Ok(Int(-5))), ("+3", Ok(Int(3))), ("0", Ok(Int(0))), ("1_000", Ok(Int(1000))), ("0x1F", Ok(Int(31))), ("0o17", Ok(Int(15))), ("0b101", Ok(Int(5))), ("9223372036854775807", Ok(Int(i64::MAX))), ("-9223372036854775808", Ok(Int(i64::MIN))), ("9223372036854775808", Err(())), ("01", Err(())), ("_1", Err(())), ("1__0", Err(())), ("1.5", Ok(Flt(1.5))), ("-0.25", Ok(Flt(-0.25))), ("1e3", Ok(Flt(1000.0))), ("2.5E-1", Ok(Flt(0.25))), ("1.", Err(())), (".5", Err(())), ("0.1", Ok(Flt(0.1))), ("123456789.987654321", Ok(Flt(123456789.987654321))), ("inf", Ok(Flt(f64::INFINITY))), ("-inf", Ok(Flt(f64::NEG_INFINITY))), ("nan", Ok(Flt(f64::NAN))),
    ("true", Ok(Bool(true))), ("false", Ok(Bool(false))), ("True", Err(())), ("tru", Err(())), ("", Err(())), ("x", Err(())), ("[", Err(())), ("[1", Err(())), ("1 2", Err(())), ("\"a", Err(())), ("\"\\q\"", Err(())), ("\"\\u00\"", Err(())), ("\"\\ud800\"", Err(())), ("{", Err(())), ("{a = 1", Err(())), ("{a = 1, a = 2}", Err(())), ("[1,,2]", Err(())), ("1979-13-01", Err(())),
];

/// Literals whose values cannot be constants.
pub fn toml_texts() -> Vec<(&'static str, E)> {
    vec![
        ("\"\"", E::str("")), ("\"a b\"", E::str("a b")), ("\"\\n\\t\\\"\\\\\"", E::str("\n\t\"\\")), ("\"\\u00e9\\U0001F600\"", E::str("é😀")), ("'a\\n\"'", E::str("a\\n\"")), ("\"\"\"\na\nb\"\"\"", E::str("a\nb")), ("'''\na\\\n'''", E::str("a\\\n")), ("\"\"\"a\\\n   b\"\"\"", E::str("ab")), ("\"# no\" # comment", E::str("# no")), ("1979-05-27", E::str("1979-05-27")), ("1979-05-27T07:32:00Z", E::str("1979-05-27T07:32:00Z")), ("1979-05-27T00:32:00.5-07:00", E::str("1979-05-27T00:32:00.5-07:00")), ("07:32:00", E::str("07:32:00")), ("[]", List(vec![])), ("[1, 2]", E::ints([1, 2])), ("[ 1 , 2, ]", E::ints([1, 2])), ("[\n1, # one\n2\n]", E::ints([1, 2])), ("[[1], [\"a\"], []]", List(vec![E::ints([1]), List(vec![E::str("a")]), List(vec![])])), ("{}", E::map(&[])), ("{a = 1, \"b c\" = [true]}", E::map(&[("a", Int(1)), ("b c", List(vec![Bool(true)]))])), ("{a = {b = {c = 1.5}}}", E::map(&[("a", E::map(&[("b", E::map(&[("c", Flt(1.5))]))]))])), ("[{a = 1}, {b = 2}]", List(vec![E::map(&[("a", Int(1))]), E::map(&[("b", Int(2))])])), ("{a.b = 1}", E::map(&[("a", E::map(&[("b", Int(1))]))])),
    ]
}

#[derive(Clone, Debug)]
enum Node {
    Value(E),
    /// named in a header; only named on the way to another; made by a dotted key
    Table(BTreeMap<String, Node>, Made),
    Tables(Vec<BTreeMap<String, Node>>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Made {
    Header,
    Way,
    Key,
}

/// A line of a TOML document, taken apart.
#[derive(Clone, Debug)]
pub enum Line {
    Header(&'static [&'static str]),
    Item(&'static [&'static str]),
    Key(&'static [&'static str], i64),
    Nothing,
    Wrong,
}

pub fn toml(lines: &[Line]) -> Result<E, ()> {
    let mut root = BTreeMap::new();
    let mut at: &[&str] = &[];
    for l in lines {
        match l {
            Line::Nothing => {}
            Line::Wrong => return Err(()),
            Line::Header(p) => {
                let (last, way) = p.split_last().unwrap();
                let t = descend(&mut root, way)?;
                match t.get_mut(*last) {
                    Option::None => {
                        t.insert(last.to_string(), Node::Table(BTreeMap::new(), Made::Header));
                    }
                    Some(Node::Table(_, m)) if *m == Made::Way => *m = Made::Header,
                    _ => return Err(()),
                }
                at = p
            }
            Line::Item(p) => {
                let (last, way) = p.split_last().unwrap();
                match descend(&mut root, way)?.entry(last.to_string()).or_insert(Node::Tables(vec![])) {
                    Node::Tables(v) => v.push(BTreeMap::new()),
                    _ => return Err(()),
                }
                at = p
            }
            Line::Key(p, n) => {
                let mut t = descend(&mut root, at)?;
                let (last, way) = p.split_last().unwrap();
                for k in way {
                    t = match t.entry(k.to_string()).or_insert(Node::Table(BTreeMap::new(), Made::Key)) {
                        Node::Table(t, Made::Key) => t,
                        _ => return Err(()),
                    }
                }
                if t.insert(last.to_string(), Node::Value(Int(*n))).is_some() {
                    return Err(());
                }
            }
        }
    }
    fn value(n: &Node) -> E {
        match n {
            Node::Value(e) => e.clone(),
            Node::Table(t, _) => table(t),
            Node::Tables(v) => List(v.iter().map(table).collect()),
        }
    }
    fn table(t: &BTreeMap<String, Node>) -> E {
        Map(t.iter().map(|(k, v)| (k.clone(), value(v))).collect())
    }
    Ok(table(&root))
}

/// Where a header leads: into the last of several tables.
fn descend<'a>(root: &'a mut BTreeMap<String, Node>, way: &[&str]) -> Result<&'a mut BTreeMap<String, Node>, ()> {
    let mut t = root;
    for k in way {
        t = match t.entry(k.to_string()).or_insert(Node::Table(BTreeMap::new(), Made::Way)) {
            Node::Table(_, Made::Key) | Node::Value(_) => return Err(()),
            Node::Table(t, _) => t,
            Node::Tables(v) => v.last_mut().unwrap(),
        }
    }
    Ok(t)
}
