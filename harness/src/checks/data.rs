//! C21 texts of data, C26 chance, C29 how values look, C31 source files.
use super::diff::prepare;
use super::util::*;
use crate::engine::*;
use crate::spec::builtins::source;
use crate::spec::data::{json, toml, toml_texts, Line, TOML};
use crate::spec::expr::E::{self, *};
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::rc::Rc;

type Held = Rc<RefCell<Option<Environment>>>;

fn held() -> (Held, impl Fn(&std::path::Path) + Clone) {
    let h: Held = Rc::new(RefCell::new(Option::None));
    let h2 = h.clone();
    (h, move |scratch: &std::path::Path| {
        prepare(scratch);
        *h2.borrow_mut() = Some(full_env("/dev"));
    })
}

/// A builtin of a module, applied to values.
fn call(env: &mut Environment, path: &str, args: &[X]) -> Result<Result<X, Error>, String> {
    let mut p = path.split('@');
    let mut f = env.get(p.next().unwrap()).unwrap();
    for k in p {
        let X::Map(m) = &f else { panic!("{path}") };
        f = m[k].clone();
    }
    let x = X::Apply(Box::new(f), args.iter().map(|a| X::Quote(Box::new(a.clone()))).collect());
    guard(|| x.eval(env))
}

// ---------------------------------------------------------------------------- C21

/// The value of a text of data, or that it has none.
fn data(env: &mut Environment, f: &str, text: &str, want: Option<&E>, rec: &mut Rec) -> bool {
    rec.step();
    let got = match call(env, f, &[X::String(text.into())]) {
        Ok(g) => g,
        Err(p) => {
            rec.fail("panic", format!("{f} {text:?}: {p}"));
            return false;
        }
    };
    let ok = match (&got, want) {
        (Ok(v), Some(w)) => E::from_impl(v) == *w,
        (Err(Error::CustomError(_)), Option::None) => true,
        _ => false,
    };
    if !ok {
        let got = got.map(|v| E::from_impl(&v).debug()).map_err(|e| e.to_string());
        rec.fail("value", format!("{f} {text:?} is {got:?} and not {:?}", want.map(|w| w.debug())));
        return false;
    }
    rec.state(&want.map(|w| w.debug()));
    rec.trace();
    true
}

const JSON: &[&str] = &[
    "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"\"", "1", "-0.5", "true", "null", " ", "\"\\u00e9\\n\"", "x", "\"", "\\", "tru", "e", "0", "'a'", "#", "\n",
];

const STRINGS: &[&str] = &[
    "a", "\\", "\"", "/", "n", "u", "0", "\\u0041", "\\ud83d", "\\ude00", "\\uD800", "é", "日", "\n", "\t", "\u{7f}", "b", "e9",
];

fn texts(name: &str, alphabet: &'static [&'static str], n: u32, wrap: (&'static str, &'static str), f: &'static str, meaning: fn(&str) -> Option<E>) -> Space {
    let (h, init) = held();
    let k = alphabet.len() as u64;
    let text = move |i: u64| format!("{}{}{}", wrap.0, word(i, k, 0, n).iter().map(|&d| alphabet[d]).collect::<String>(), wrap.1);
    Space::new(name, words(k, 0, n), move |i| format!("{:?}", text(i)), move |i, rec| {
        let t = text(i);
        // nothing is the value of nothing
        let want = if t.is_empty() { Some(E::None) } else { meaning(&t) };
        data(h.borrow_mut().as_mut().unwrap(), f, &t, want.as_ref(), rec);
    })
    .init(init)
}

/// Numbers of every length and size.
fn decimal(i: u64) -> String {
    let (len, digits, form) = (i % 40 + 1, i / 40 % 1000, i / 40000);
    // the digits of a fraction, that do not repeat soon
    let mut x = 7 * digits as u128 + 1;
    let mut d = String::new();
    for _ in 0..len {
        x = x * 1_000_003 % 999_999_937;
        d.push(char::from(b'0' + (x / 7 % 10) as u8));
    }
    let n = d.trim_start_matches('0');
    let n = if n.is_empty() { "0" } else { n };
    const EXP: &[&str] = &["", "e0", "e1", "e-1", "e22", "e-22", "e300", "e-300", "e-320", "e40000", "e-40000", "E308"];
    let e = EXP[(form % 12) as usize];
    if form < 12 {
        format!("{n}{e}")
    } else {
        format!("-0.{d}{e}")
    }
}

const LINES: &[(&str, Line)] = &[
    ("[a]", Line::Header(&["a"])),
    ("[a.b]", Line::Header(&["a", "b"])),
    ("[ b ]", Line::Header(&["b"])),
    ("[t.c]", Line::Header(&["t", "c"])),
    ("[t]", Line::Header(&["t"])),
    ("[[t]]", Line::Item(&["t"])),
    ("[[a.b]]", Line::Item(&["a", "b"])),
    ("[[t.c]]", Line::Item(&["t", "c"])),
    ("a = 1", Line::Key(&["a"], 1)),
    ("b = 2 # two", Line::Key(&["b"], 2)),
    ("  \"b\" = 3", Line::Key(&["b"], 3)),
    ("c=4", Line::Key(&["c"], 4)),
    ("'d e' = 5", Line::Key(&["d e"], 5)),
    ("# a = 1", Line::Nothing),
    ("", Line::Nothing),
    ("a", Line::Wrong),
    ("[a", Line::Wrong),
    ("= 1", Line::Wrong),
    ("[]", Line::Wrong),
];

/// Keys with dots, in documents that have no tables of the same names.
const DOTTED: &[(&str, Line)] = &[
    ("a.b = 1", Line::Key(&["a", "b"], 1)), ("a . c = 2", Line::Key(&["a", "c"], 2)), ("a.b.c = 3", Line::Key(&["a", "b", "c"], 3)), ("a = 4", Line::Key(&["a"], 4)), ("\"a\".'d' = 5", Line::Key(&["a", "d"], 5)), ("\"a.b\" = 6", Line::Key(&["a.b"], 6)), ("[x]", Line::Header(&["x"])), ("[[y]]", Line::Item(&["y"])), ("b = 7", Line::Key(&["b"], 7)),
];

fn documents(name: &str, pool: &'static [(&'static str, Line)], n: u32) -> Space {
    let (h, init) = held();
    let k = pool.len() as u64;
    let doc = move |i: u64| word(i, k, 1, n).iter().map(|&d| pool[d].0).collect::<Vec<_>>();
    Space::new(name, words(k, 1, n), move |i| format!("{:?}", doc(i)), move |i, rec| {
        let lines: Vec<Line> = word(i, k, 1, n).iter().map(|&d| pool[d].1.clone()).collect();
        let want = toml(&lines).ok();
        let ok = data(h.borrow_mut().as_mut().unwrap(), "parse@toml", &doc(i).join("\n"), want.as_ref(), rec);
        if ok {
            rec.steps(lines.len() as u64)
        }
    })
    .init(init)
}

/// Every literal as a value, alone and in arrays and tables.
fn literals() -> Space {
    let (h, init) = held();
    let mut cases: Vec<(String, Option<E>)> = vec![];
    let mut all: Vec<(String, Option<E>)> = TOML.iter().map(|(t, v)| (t.to_string(), v.clone().ok())).collect();
    all.extend(toml_texts().into_iter().map(|(t, v)| (t.to_string(), Some(v))));
    for (t, v) in &all {
        let some = |f: &dyn Fn(E) -> E| v.clone().map(f);
        cases.push((format!("k = {t}"), some(&|v| E::map(&[("k", v)]))));
        cases.push((format!("k={t}\nm = 1"), some(&|v| E::map(&[("k", v), ("m", Int(1))]))));
        cases.push((format!("m = 1\n[t.u]\nk = {t}\n"), some(&|v| E::map(&[("m", Int(1)), ("t", E::map(&[("u", E::map(&[("k", v)]))]))]))));
        if t.contains('#') || (t.is_empty() || t == "1 2") {
            continue;
        }
        cases.push((format!("k = [{t}]"), some(&|v| E::map(&[("k", List(vec![v]))]))));
        cases.push((format!("k = [{t}, {t}]"), some(&|v| E::map(&[("k", List(vec![v.clone(), v]))]))));
        cases.push((format!("k = {{a = {t}, b = [{t}]}}"), some(&|v| E::map(&[("k", E::map(&[("a", v.clone()), ("b", List(vec![v]))]))]))));
    }
    Space::list("TOML values", cases, move |(t, want), rec| {
        data(h.borrow_mut().as_mut().unwrap(), "parse@toml", t, want.as_ref(), rec);
    })
    .init(init)
}

/// JSON texts nested ever deeper: the value, or an error when that is too deep.
fn nested() -> Space {
    let (h, init) = held();
    Space::new("nesting", 2 * 2000, |i| format!("{i}"), move |i, rec| {
        let n = (i / 2) as usize;
        let (open, close) = if i % 2 == 0 { ("[", "]") } else { ("{\"k\":", "}") };
        let t = format!("{}1{}", open.repeat(n), close.repeat(n));
        rec.step();
        match call(h.borrow_mut().as_mut().unwrap(), "parse@json", &[X::String(t)]) {
            Err(p) => rec.fail("panic", format!("nested {n} times: {p}")),
            Ok(Ok(mut v)) => {
                for k in 0..n {
                    v = match v {
                        X::List(mut l) if open == "[" && l.len() == 1 => l.remove(0),
                        X::Map(mut m) if open != "[" && m.len() == 1 => m.remove("k").unwrap_or(X::None),
                        _ => return rec.fail("value", format!("nested {n} times: differs {k} deep")),
                    }
                }
                if !matches!(v, X::Float(x) if x == 1.0) {
                    rec.fail("value", format!("nested {n} times: ends in {v:?}"))
                }
                rec.trace();
                rec.note("values")
            }
            Ok(Err(Error::CustomError(_))) if n >= 100 => rec.note("too deep"),
            Ok(Err(e)) => rec.fail("value", format!("nested {n} times: {}", e.to_string().chars().take(80).collect::<String>())),
        }
        rec.state(&i);
    })
    .init(init)
}

/// Sizes at which something could change.
fn sizes(most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..40).collect();
    for k in 6..20 {
        v.extend((1usize << k) - 2..=(1 << k) + 1)
    }
    v.extend([99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001]);
    v.retain(|&n| n <= most);
    v.sort();
    v
}

const MANY: &[&str] = &[
    "list", "objects", "object", "object backwards", "equal keys", "text", "escapes", "pairs", "blanks", "digits", "members of members", "TOML keys", "TOML tables", "TOML list of tables", "TOML list", "TOML text", "TOML lines", "TOML comments", "program", "statements",
];

/// A text of so many parts, what reads it, and the value.
fn many_parts(kind: &str, n: usize) -> (String, &'static str, E) {
    let join = |sep: &str, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let list = |f: &dyn Fn(usize) -> E| List((0..n).map(f).collect());
    let table = |f: &dyn Fn(usize) -> (String, E)| Map((0..n).map(f).collect());
    let key = |k: usize| format!("k{k}");
    match kind {
        "list" => (format!("[{}]", join(",", &|k| k.to_string())), "parse@json", list(&|k| Flt(k as f64))),
        "objects" => (format!("[{}]", join(" , ", &|k| format!("{{\"a\": {k}}}"))), "parse@json", list(&|k| E::map(&[("a", Flt(k as f64))]))),
        "object" => (format!("{{{}}}", join(",", &|k| format!("\"k{k}\":\"v{k}\""))), "parse@json", table(&|k| (key(k), Str(format!("v{k}"))))),
        "object backwards" => (format!("{{{}}}", join(",", &|k| format!("\"k{}\":{}", n - k, n - k))), "parse@json", Map((1..=n).map(|k| (key(k), Flt(k as f64))).collect())),
        "equal keys" => (format!("{{\"other\":true{}}}", (0..n).map(|k| format!(",\"a\":{k}")).collect::<String>()), "parse@json", {
            let mut m = vec![("other", Bool(true))];
            if n > 0 {
                m.push(("a", Flt(n as f64 - 1.0)))
            }
            E::map(&m)
        }),
        "text" => (format!("\"{}\"", "aé".repeat(n)), "parse@json", Str("aé".repeat(n))),
        "escapes" => (format!("\"{}\"", "\\n\\u00e9\\\"".repeat(n)), "parse@json", Str("\né\"".repeat(n))),
        "pairs" => (format!("\"{}x\"", "\\ud83d\\udc1a".repeat(n)), "parse@json", Str("🐚".repeat(n) + "x")),
        "blanks" => (format!("[{b}1{b},{b}2{b}]", b = " \n\t\r".repeat(n)), "parse@json", List(vec![Flt(1.0), Flt(2.0)])),
        // a sum that is exact: zeroes after the point
        "digits" => (format!("[2.5{}]", "0".repeat(n)), "parse@json", List(vec![Flt(2.5)])),
        "members of members" => (format!("[{}]", join(",", &|k| format!("[{}]", vec!["null"; k % 5].join(",")))), "parse@json", list(&|k| List(vec![None; k % 5]))),
        "TOML keys" => (join("\n", &|k| format!("k{k} = {k}")), "parse@toml", table(&|k| (key(k), Int(k as i64)))),
        "TOML tables" => (join("\n", &|k| format!("[k{k}]\na = {k}")), "parse@toml", table(&|k| (key(k), E::map(&[("a", Int(k as i64))])))),
        "TOML list of tables" => (format!("{}{}", "first = true\n", join("\n", &|k| format!("[[t]]\na = {k}"))), "parse@toml", {
            let mut m = vec![("first", Bool(true))];
            if n > 0 {
                m.push(("t", list(&|k| E::map(&[("a", Int(k as i64))]))))
            }
            E::map(&m)
        }),
        "TOML list" => (format!("a = [{}]", join(",\n", &|k| k.to_string())), "parse@toml", E::map(&[("a", list(&|k| Int(k as i64)))])),
        "TOML text" => (format!("a = \"{}\"", "aé\\n".repeat(n)), "parse@toml", E::map(&[("a", Str("aé\n".repeat(n)))])),
        "TOML lines" => (format!("a = \"\"\"\n{}\"\"\"", "é line\n".repeat(n)), "parse@toml", E::map(&[("a", Str("é line\n".repeat(n)))])),
        "TOML comments" => (format!("{}a = 1", "# a = 2\n\n".repeat(n)), "parse@toml", E::map(&[("a", Int(1))])),
        "program" => (format!("[{}]", join(", ", &|k| k.to_string())), "sys@parse", Do(vec![list(&|k| Int(k as i64))])),
        _ => (format!("x{}", ";x".repeat(n)), "sys@parse", Do(vec![Sym("x".into()); n + 1])),
    }
}

/// Texts of very many parts.
fn many(most: usize) -> Space {
    let (h, init) = held();
    let cases: Vec<(&str, usize)> = MANY.iter().flat_map(|k| sizes(if k.starts_with("TOML t") || *k == "TOML keys" || k.starts_with("TOML l") { most / 4 } else { most }).into_iter().map(|n| (*k, n))).filter(|&(k, n)| (k, n) != ("TOML keys", 0) && (k, n) != ("TOML tables", 0)).collect();
    Space::list("many parts", cases, move |&(kind, n), rec| {
        let (text, f, want) = many_parts(kind, n);
        rec.step();
        match call(h.borrow_mut().as_mut().unwrap(), f, &[X::String(text)]) {
            Err(p) => rec.fail("panic", format!("{kind} of {n}: {}", p.chars().take(200).collect::<String>())),
            Ok(Ok(v)) if E::from_impl(&v) == want => rec.trace(),
            Ok(r) => {
                let r = r.map(|v| E::from_impl(&v).debug()).map_err(|e| e.to_string());
                let (r, want) = (format!("{r:?}"), want.debug());
                let at = r.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| s.chars().skip(at.saturating_sub(30)).take(100).collect::<String>();
                rec.fail("value", format!("{kind} of {n} is ...{} and not ...{}", cut(&r), cut(&want)))
            }
        }
        rec.state(&(kind, n));
    })
    .init(init)
    .timeout(60.0)
}

const SCRIPT: &[&str] = &["x", "1", "+", "(", ")", "[", "]", "{", "}", " ", "let", "=", "'", "\"a\"", ";", "if", "->", "`", "\"\\q\"", ","];

/// Texts of programs: the program, unevaluated; `sys@parse` has none for what is wrong.
fn scripts(n: u32) -> Space {
    let (h, init) = held();
    let k = SCRIPT.len() as u64;
    let text = move |i: u64| word(i, k, 0, n).iter().map(|&d| SCRIPT[d]).collect::<Vec<_>>().join(" ");
    Space::new("programs", words(k, 0, n), move |i| format!("{:?}", text(i)), move |i, rec| {
        let t = text(i);
        let want = crate::spec::parse::parse(&t).0.ok();
        let mut h = h.borrow_mut();
        let env = h.as_mut().unwrap();
        for f in ["parse@expr", "sys@parse"] {
            rec.step();
            let got = match call(env, f, &[X::String(t.clone())]) {
                Ok(g) => g,
                Err(p) => return rec.fail("panic", format!("{f} {t:?}: {p}")),
            };
            let ok = match (&got, &want) {
                (Ok(v), _) if t.is_empty() && f == "parse@expr" => matches!(v, X::None),
                (Ok(v), Some(w)) => E::from_impl(v) == *w,
                (Ok(X::None), Option::None) => f == "sys@parse",
                (Err(Error::SyntaxError(..)), Option::None) => f == "parse@expr",
                _ => false,
            };
            if !ok {
                let got = got.map(|v| E::from_impl(&v).debug()).map_err(|e| e.to_string());
                return rec.fail("program", format!("{f} {t:?} is {got:?} and not {:?}", want.map(|w| w.debug())));
            }
        }
        rec.state(&want.map(|w| w.debug()));
        rec.trace();
    })
    .init(init)
}

pub fn formats(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let (a, b, c, d, e) = if q { (5, 5, 7, 4, 3) } else { (6, 6, 8, 5, 4) };
    let (h, init) = held();
    let numbers = Space::new("decimals", 40 * 1000 * 24, |i| format!("{:?}", decimal(i)), move |i, rec| {
        let t = decimal(i);
        let mut want = json(&t);
        assert!(want.is_some());
        // of more digits than a number can have, the neighbour is close enough
        if t.bytes().take_while(|c| *c != b'e').filter(u8::is_ascii_digit).count() > 18 {
            if let (Some(Flt(w)), Ok(Ok(X::Float(g)))) = (&want, call(h.borrow_mut().as_mut().unwrap(), "parse@json", &[X::String(t.clone())])) {
                if w.to_bits().abs_diff(g.to_bits()) <= 1 {
                    want = Some(Flt(g))
                }
            }
        }
        data(h.borrow_mut().as_mut().unwrap(), "parse@json", &t, want.as_ref(), rec);
    })
    .init(init);
    const DIGITS: &[&str] = &["0", "1", "7", ".", "e", "-", "+", "E"];
    Check {
        id: "C21",
        rule: "every text over the alphabets, up to the lengths; every sequence of lines; every literal in every place".into(),
        bounds: format!("JSON: up to {a} tokens, {b} parts of a string, {c} characters of a number, 960000 decimals of up to 40 digits, nesting up to 2000; TOML: every literal in six places, documents of up to {d} lines, dotted keys of up to {} lines; programs of up to {e} tokens; {} kinds of texts of up to 10001 parts", d + 1, MANY.len()),
        assumptions: vec!["a number of more than 18 digits may be off by one in its last binary digit".into(), "nesting of more than 99 levels may be refused".into()],
        spaces: vec![
            texts("JSON tokens", JSON, a, ("", ""), "parse@json", json),
            texts("JSON strings", STRINGS, b, ("\"", "\""), "parse@json", json),
            texts("JSON numbers", DIGITS, c, ("", ""), "parse@json", json),
            numbers,
            nested(),
            literals(),
            documents("TOML documents", LINES, d),
            documents("TOML dotted keys", DOTTED, d + 1),
            scripts(e),
            many(if q { 10001 } else { 300_000 }),
        ],
    }
}
