//! What the built-in functions do, as their documentation and help texts describe it.
use super::eval::{equal, order, Env, Er, M, R};
use super::expr::E::{self, *};
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// The text of an error in the model: it stands for any text.
pub const ANY_TEXT: &str = "\u{1}any";

fn custom<T>() -> Result<T, Er> {
    Err(Er::Custom)
}

pub fn unmodelled<T>(what: &str) -> Result<T, Er> {
    Err(Er::Unmodelled(what.into()))
}

/// The text a value is printed as.
pub fn text(e: &E) -> Result<String, Er> {
    fn plain(e: &E) -> bool {
        match e {
            Builtin(_) => false,
            Str(s) => s != ANY_TEXT,
            List(v) | Do(v) => v.iter().all(plain),
            Map(m) => m.values().all(plain),
            Group(x) | Quote(x) | Assign(_, x) | Mac(_, x) | Lam(_, x, _) => plain(x),
            For(_, a, b) => plain(a) && plain(b),
            If(a, b, c) => plain(a) && plain(b) && plain(c),
            Apply(f, a) => plain(f) && a.iter().all(plain),
            _ => true,
        }
    }
    match e.display() {
        Some(s) if plain(e) => Ok(s),
        _ => unmodelled("text of a table or builtin"),
    }
}

fn textual(e: &E) -> Option<&str> {
    match e {
        Str(s) | Sym(s) if s != ANY_TEXT => Some(s),
        _ => Option::None,
    }
}

// ---- arithmetic -------------------------------------------------------------------------

fn num2(a: &E, b: &E, int: fn(i64, i64) -> Option<i64>, flt: fn(f64, f64) -> f64) -> Option<E> {
    match (a, b) {
        (Int(x), Int(y)) => int(*x, *y).map(Int),
        (Int(x), Flt(y)) => Some(Flt(flt(*x as f64, *y))),
        (Flt(x), Int(y)) => Some(Flt(flt(*x, *y as f64))),
        (Flt(x), Flt(y)) => Some(Flt(flt(*x, *y))),
        _ => Option::None,
    }
}

pub fn add(a: &E, b: &E) -> Option<E> {
    Some(match (a, b) {
        (Str(x), Str(y)) => Str(format!("{x}{y}")),
        (Bytes(x), Bytes(y)) => Bytes([x.as_slice(), y].concat()),
        (List(x), List(y)) => List([x.as_slice(), y].concat()),
        _ => return num2(a, b, i64::checked_add, |x, y| x + y),
    })
}

pub fn sub(a: &E, b: &E) -> Option<E> {
    Some(match (a, b) {
        // the item of a table, or of a list
        (Map(m), Str(k)) => m.get(k)?.clone(),
        (List(v), Int(i)) => v.get(usize::try_from(*i).ok()?)?.clone(),
        _ => return num2(a, b, i64::checked_sub, |x, y| x - y),
    })
}

pub fn mul(a: &E, b: &E) -> Option<E> {
    let times = |n: i64| (n.max(0)) as usize;
    Some(match (a, b) {
        (Str(s), Int(n)) | (Int(n), Str(s)) => {
            if s.is_empty() {
                return Some(Str(String::new()));
            }
            if times(*n).checked_mul(s.len()).map_or(true, |l| l > 1 << 40) {
                return Option::None;
            }
            Str(s.repeat(times(*n)))
        }
        (List(v), Int(n)) | (Int(n), List(v)) => {
            if v.is_empty() {
                return Some(List(vec![]));
            }
            if times(*n).checked_mul(v.len()).map_or(true, |l| l > 1 << 40) {
                return Option::None;
            }
            let mut out = vec![];
            for _ in 0..times(*n) {
                out.extend(v.iter().cloned())
            }
            List(out)
        }
        _ => return num2(a, b, i64::checked_mul, |x, y| x * y),
    })
}

pub fn div(a: &E, b: &E) -> Option<E> {
    num2(a, b, i64::checked_div, |x, y| x / y)
}

pub fn rem(a: &E, b: &E) -> Option<E> {
    match (a, b) {
        (Int(x), Int(y)) => x.checked_rem(*y).map(Int),
        _ => Option::None,
    }
}

fn index(v: &E, i: &E) -> E {
    match (v, i) {
        (Map(m), Sym(k) | Str(k)) => m.get(k).cloned().unwrap_or(None),
        (List(l), Int(i)) => usize::try_from(*i).ok().and_then(|i| l.get(i)).cloned().unwrap_or(None),
        _ => None,
    }
}

fn compare(name: &str, a: &E, b: &E) -> bool {
    let o = order(a, b);
    match name {
        "<" => o == Some(Ordering::Less),
        ">" => o == Some(Ordering::Greater),
        "<=" => matches!(o, Some(Ordering::Less | Ordering::Equal)),
        _ => matches!(o, Some(Ordering::Greater | Ordering::Equal)),
    }
}

// ---- functions of several steps --------------------------------------------------------

fn arg(i: usize) -> String {
    format!("arg{i}")
}

/// A function of `n` parameters, taken one at a time, that calls `f` with all of them.
pub fn curried(f: E, n: usize, reverse: bool) -> E {
    let mut params: Vec<E> = (0..n).map(|i| Sym(arg(i))).collect();
    if reverse {
        params.reverse()
    }
    let mut body = Apply(Box::new(f), params);
    for i in (0..n).rev() {
        body = Lam(arg(i), Box::new(body), BTreeMap::new());
    }
    body
}

/// A closed function given by its source.
pub fn source(text: &str) -> E {
    match super::parse::parse(text).0 {
        Ok(Do(mut v)) if v.len() == 1 => v.remove(0),
        Ok(e) => e,
        Err(e) => panic!("{text}: {e:?}"),
    }
}

/// The environment programs start in: the documented names that the model describes.
pub fn initial() -> Env {
    let b = |p: &str| Builtin(p.to_string());
    let module = |name: &str, fs: &str| -> Vec<(String, E)> {
        fs.split_whitespace().map(|f| (f.to_string(), b(&format!("{name}@{f}")))).collect()
    };
    let mut env = Env::new();
    for n in "+ - && || ! == != < <= > >= @ print println echo debug to str int insert keys vals len lines eval exec unbind report".split(' ') {
        env.insert(n.into(), b(n));
    }
    for n in ["*", "//", "%"] {
        env.insert(n.into(), curried(b(n), 2, false));
    }
    let mut put = |name: &str, mut v: Vec<(String, E)>, more: Vec<(&str, E)>| {
        v.extend(more.into_iter().map(|(k, v)| (k.to_string(), v)));
        env.insert(name.into(), Map(v.into_iter().collect()));
    };
    put(
        "list",
        module("list", "list tail head chunk cons append len rev range foldl foldr zip unzip split-at nth"),
        vec![("take", curried(b("list@take"), 2, false)), ("drop", curried(b("list@drop"), 2, false))],
    );
    put(
        "dict",
        module("dict", "flatten items keys values insert remove has? len from-items union intersect difference"),
        vec![],
    );
    put(
        "fn",
        module("fn", "apply curry map filter reduce ?"),
        vec![
            ("id", source("x -> x")),
            ("const", source("x -> y -> x")),
            ("flip", source("f -> x -> y -> f y x")),
            ("compose", source("f -> g -> x -> f (g x)")),
        ],
    );
    put(
        "string",
        module("string", "to-string caesar len get-width is-whitespace? is-alpha? is-alphanumeric? is-numeric? split to-lower to-upper to-title is-lower is-upper is-title rev join lines chars words paragraphs split-at trim trim-start trim-end replace starts-with? ends-with? contains?"),
        vec![],
    );
    let codes = ["cannot-apply", "symbol-not-defined", "command-failed", "for-non-list", "recursion-depth", "permission-denied", "program-not-found", "syntax-error", "custom-error"];
    let codes = Map(codes.iter().enumerate().map(|(i, n)| (n.to_string(), Int(i as i64 + 1))).collect());
    put("err", module("err", "try"), vec![("codes", codes)]);
    put("sys", module("sys", "parse quote eval exec set unset defined? cwd"), vec![]);
    put(
        "math",
        module("math", "lsh sum product fact abs floor ceil round trunc sinh cosh tanh asinh acosh atanh sinpi cospi tanpi isodd iseven pow ln log2 log10 sqrt cbrt sin cos tan asin acos atan"),
        vec![
            ("E", Flt(std::f64::consts::E)),
            ("PI", Flt(std::f64::consts::PI)),
            ("TAU", Flt(std::f64::consts::TAU)),
            ("max", source("x -> y -> if (x > y) { x } else { y }")),
            ("min", source("x -> y -> if (x < y) { x } else { y }")),
            ("l-rsh", curried(b("math@l-rsh"), 2, false)),
            ("a-rsh", curried(b("math@a-rsh"), 2, false)),
            ("rsh", curried(b("math@a-rsh"), 2, false)),
            ("log", curried(b("math@log"), 2, false)),
        ],
    );
    // functions written in the language see the operators they use
    let mut m = M::new();
    let base = env.clone();
    for module in ["math", "fn"] {
        let Some(Map(t)) = env.get_mut(module) else { unreachable!() };
        for v in t.values_mut() {
            if matches!(v, Lam(..)) {
                *v = m.eval(v, &mut base.clone()).unwrap();
            }
        }
    }
    env
}

fn one_of(args: &[E], lo: usize, hi: usize) -> Result<(), Er> {
    if args.len() >= lo && args.len() <= hi {
        Ok(())
    } else {
        custom()
    }
}

/// How many arguments each function takes.
fn arity(name: &str) -> (usize, usize) {
    const ANY: usize = usize::MAX;
    match name {
        "+" | "-" | "*" | "//" | "%" | "@" => (1, ANY),
        "==" | "!=" | "<" | "<=" | ">" | ">=" => (2, ANY),
        "to" => (2, 2),
        "str" | "int" | "keys" | "vals" | "len" | "lines" | "eval" | "exec" | "report" | "sys@eval" | "sys@exec" => (1, ANY),
        "insert" | "dict@insert" | "list@foldl" | "list@foldr" | "fn@?" | "string@replace" => (3, 3),
        "unbind" => (1, 1),
        "list@tail" | "list@head" | "list@len" | "list@rev" | "list@unzip" => (1, 1),
        "list@chunk" | "list@cons" | "list@append" | "list@range" | "list@zip" | "list@take" | "list@drop" | "list@split-at" | "list@nth" => (2, 2),
        "dict@flatten" | "dict@items" | "dict@keys" | "dict@values" | "dict@len" | "dict@from-items" => (1, 1),
        "dict@remove" | "dict@has?" | "dict@union" | "dict@intersect" | "dict@difference" => (2, 2),
        "fn@apply" | "err@try" | "sys@set" => (2, 2),
        "fn@curry" => (2, ANY),
        "fn@map" | "fn@filter" | "string@caesar" => (1, 2),
        "fn@reduce" => (1, 3),
        "sys@parse" | "sys@quote" | "sys@unset" | "sys@defined?" => (1, 1),
        "string@is-whitespace?" | "string@is-alpha?" | "string@is-alphanumeric?" | "string@is-numeric?" | "string@to-lower"
        | "string@to-upper" | "string@to-title" | "string@is-lower" | "string@is-upper" | "string@is-title" | "string@trim"
        | "string@trim-start" | "string@trim-end" => (1, ANY),
        "string@to-string" | "string@len" | "string@get-width" | "string@rev" | "string@lines" | "string@chars" | "string@words"
        | "string@paragraphs" => (1, 1),
        "string@join" | "string@split-at" | "string@starts-with?" | "string@ends-with?" | "string@contains?" => (2, 2),
        "math@l-rsh" | "math@a-rsh" | "math@lsh" | "math@pow" | "math@log" => (2, 2),
        "math@sum" | "math@product" => (0, ANY),
        _ if name.starts_with("math@") => (1, 1),
        _ => (0, ANY),
    }
}

pub fn call(m: &mut M, name: &str, args: &[E], env: &mut Env) -> R {
    m.nest += 1;
    if m.nest > 300 {
        return unmodelled("deep recursion through builtins");
    }
    let r = call2(m, name, args, env);
    m.nest -= 1;
    r
}

fn call2(m: &mut M, name: &str, args: &[E], env: &mut Env) -> R {
    let (lo, hi) = arity(name);
    one_of(args, lo, hi)?;
    // what comes after the arguments that a function uses is ignored
    let used = match name {
        "==" | "!=" | "<" | "<=" | ">" | ">=" | "fn@curry" => 2,
        "+" | "-" | "*" | "//" | "%" | "@" | "math@sum" | "math@product" => usize::MAX,
        _ if hi == usize::MAX && lo == 1 => 1,
        _ => usize::MAX,
    };
    let args = &args[..args.len().min(used)];
    // ---- what does not simply evaluate its arguments from left to right
    match name {
        "@" => {
            let mut v = m.eval(&args[0], env)?;
            for a in &args[1..] {
                let i = match a {
                    Int(_) | Sym(_) => a.clone(),
                    _ => m.eval(a, env)?,
                };
                v = index(&v, &i);
            }
            return Ok(v);
        }
        "+" | "-" | "*" | "//" | "%" => {
            let mut v = m.eval(&args[0], env)?;
            if args.len() == 1 {
                return match name {
                    "+" => {
                        let f = m.eval(&curried(Builtin("+".into()), 2, true), &mut Env::new())?;
                        m.eval(&E::apply(f, vec![Quote(Box::new(v))]), env)
                    }
                    "-" => match v {
                        Int(i) => i.checked_neg().map(Int).ok_or(Er::Custom),
                        Flt(x) => Ok(Flt(-x)),
                        Bool(b) => Ok(Bool(!b)),
                        _ => custom(),
                    },
                    _ => Ok(v),
                };
            }
            for a in &args[1..] {
                let b = m.eval(a, env)?;
                let op = match name {
                    "+" => add,
                    "-" => sub,
                    "*" => mul,
                    "//" => div,
                    _ => rem,
                };
                // an item that is None cannot be told from no item
                v = match op(&v, &b) {
                    Some(None) | Option::None => return custom(),
                    Some(v) => v,
                };
            }
            return Ok(v);
        }
        "unbind" => {
            return match &args[0] {
                Sym(s) | Str(s) => {
                    env.remove(s);
                    Ok(None)
                }
                _ => custom(),
            }
        }
        "eval" | "sys@eval" => {
            let mut before = env.clone();
            let e = m.eval(&args[0], env)?;
            if *env != before {
                // whether the expression sees it is left open
                return unmodelled("eval of what changes the environment");
            }
            return m.eval(&e, &mut before);
        }
        "exec" | "sys@exec" => {
            let e = m.eval(&args[0], env)?;
            return m.eval(&e, env);
        }
        "sys@quote" => return Ok(Quote(Box::new(args[0].clone()))),
        "sys@set" => {
            env.insert(text(&args[0])?, args[1].clone());
            return Ok(None);
        }
        "sys@unset" => {
            env.remove(&text(&args[0])?);
            return Ok(None);
        }
        "sys@defined?" => return Ok(Bool(env.contains_key(&text(&args[0])?))),
        "sys@cwd" => return Ok(env.get("CWD").cloned().unwrap_or(None)),
        "sys@parse" => {
            let t = text(&m.eval(&args[0], env)?)?;
            return Ok(super::parse::parse(&t).0.unwrap_or(None));
        }
        "err@try" => {
            let r = m.eval(&args[0], env);
            return match r {
                Err(Er::Unmodelled(u)) => Err(Er::Unmodelled(u)),
                Err(e) => {
                    let t = E::map(&[
                        ("message", E::str(ANY_TEXT)),
                        ("code", Int(e.code())),
                        ("expression", Quote(Box::new(args[0].clone()))),
                    ]);
                    m.eval(&E::apply(args[1].clone(), vec![t]), env)
                }
                ok => ok,
            };
        }
        "fn@?" => {
            let c = m.eval(&args[0], env)?;
            return m.eval(&args[if c.truthy() { 1 } else { 2 }], env);
        }
        "fn@curry" => {
            let f = m.eval(&args[0], env)?;
            return match m.eval(&args[1], env)? {
                Int(n) if (0..=256).contains(&n) => {
                    let c = curried(f, n as usize, false);
                    if n == 0 {
                        Ok(c)
                    } else {
                        m.eval(&c, env)
                    }
                }
                Int(_) => custom(),
                _ => Ok(f),
            };
        }
        "fn@map" | "fn@filter" if args.len() == 1 => {
            // a function waiting for the list
            let f = source(if name == "fn@map" {
                "f -> list -> for item in list {f item}"
            } else {
                "f -> list -> {let kept = []; for item in list {if (f item) {let kept = kept + [item]}}; kept}"
            });
            return m.eval(&E::apply(f, args.to_vec()), env);
        }
        "fn@map" | "fn@filter" => {
            let List(l) = m.eval(&args[1], env)? else { return custom() };
            let f = m.eval(&args[0], env)?;
            let mut out = vec![];
            for x in l {
                value_only(&x)?;
                let r = m.eval(&E::apply(f.clone(), vec![x.clone()]), env)?;
                if name == "fn@map" {
                    out.push(r)
                } else if r.truthy() {
                    out.push(x)
                }
            }
            return Ok(List(out));
        }
        "fn@reduce" if args.len() < 3 => {
            let f = source("f -> acc -> list -> {for item in list {let acc = f acc item}; acc}");
            return m.eval(&E::apply(f, args.to_vec()), env);
        }
        "fn@reduce" => {
            let List(l) = m.eval(&args[2], env)? else { return custom() };
            let f = m.eval(&args[0], env)?;
            let mut acc = m.eval(&args[1], env)?;
            for x in l {
                value_only(&x)?;
                value_only(&acc)?;
                acc = m.eval(&E::apply(f.clone(), vec![acc, x]), env)?;
            }
            return Ok(acc);
        }
        "fn@apply" => {
            let f = m.eval(&args[0], env)?;
            let List(l) = m.eval(&args[1], env)? else { return custom() };
            for x in &l {
                value_only(x)?
            }
            return m.eval(&E::apply(f, l), env);
        }
        "list@cons" => {
            let List(mut l) = m.eval(&args[1], env)? else { return custom() };
            l.insert(0, m.eval(&args[0], env)?);
            return Ok(List(l));
        }
        "list@append" => {
            let List(mut l) = m.eval(&args[0], env)? else { return custom() };
            l.push(m.eval(&args[1], env)?);
            return Ok(List(l));
        }
        "print" | "println" | "echo" | "debug" => {
            for (i, a) in args.iter().enumerate() {
                let v = m.eval(a, env)?;
                let t = if name == "debug" {
                    text(&Quote(Box::new(v)))?[1..].to_string()
                } else {
                    text(&v)?
                };
                m.out += &t;
                if i + 1 < args.len() {
                    m.out += " "
                } else if name != "print" {
                    m.out += "\n"
                }
            }
            return Ok(None);
        }
        "string@split" => {
            let f = m.eval(&curried(Builtin("split2".into()), 2, false), env)?;
            return m.eval(&E::apply(f, args.to_vec()), env);
        }
        _ => {}
    }
    let mut v = vec![];
    for a in args {
        v.push(m.eval(a, env)?)
    }
    Ok(match (name, v.as_slice()) {
        ("&&", v) => Bool(v.iter().all(E::truthy)),
        ("||", v) => Bool(v.iter().any(E::truthy)),
        ("!", v) => Bool(v.iter().all(|x| !x.truthy())),
        ("==", [a, b, ..]) => Bool(equal(a, b)),
        ("!=", [a, b, ..]) => Bool(!equal(a, b)),
        ("<" | "<=" | ">" | ">=", [a, b, ..]) => Bool(compare(name, a, b)),
        ("report", [a, ..]) => {
            if *a != None {
                m.out += &text(a)?;
                m.out += "\n";
            }
            None
        }
        ("to", [Int(a), Int(b)]) => range(*a, *b)?,
        ("list@range", [Int(a), Int(b)]) => match b.checked_add(1) {
            Some(b) => range(*a, b)?,
            Option::None => return if *a == i64::MAX { Ok(E::ints([*a])) } else { custom() },
        },
        ("str", [a, ..]) | ("string@to-string", [a]) => Str(text(a)?),
        ("int", [a, ..]) => match a {
            Int(i) => Int(*i),
            Flt(x) => Int(*x as i64),
            Str(s) => match s.parse() {
                Ok(i) => Int(i),
                Err(_) => return custom(),
            },
            _ => return custom(),
        },
        ("insert", [Map(t), Str(k), x]) => {
            let mut t = t.clone();
            t.insert(k.clone(), x.clone());
            Map(t)
        }
        ("insert", [List(l), Int(i), x]) if (0..=l.len() as i64).contains(i) => {
            let mut l = l.clone();
            l.insert(*i as usize, x.clone());
            List(l)
        }
        ("insert", [Str(s), Int(i), x]) if usize::try_from(*i).map_or(false, |i| s.is_char_boundary(i)) => {
            let i = *i as usize;
            Str(format!("{}{}{}", &s[..i], text(x)?, &s[i..]))
        }
        ("keys", [Map(t), ..]) | ("dict@keys", [Map(t)]) => List(t.keys().map(|k| E::str(k)).collect()),
        ("vals", [Map(t), ..]) | ("dict@values", [Map(t)]) => List(t.values().cloned().collect()),
        ("len", [a, ..]) => Int(match a {
            Map(t) => t.len() as i64,
            List(l) => l.len() as i64,
            Str(s) | Sym(s) if s != ANY_TEXT => s.chars().count() as i64,
            _ => return custom(),
        }),
        ("lines", [Str(s), ..]) | ("string@lines", [Sym(s) | Str(s)]) => strs(lines(s)),
        // ---- lists
        ("list@list", v) => List(v.to_vec()),
        ("list@tail", [List(l)]) => List(l.get(1..).unwrap_or(&[]).to_vec()),
        ("list@head", [List(l)]) => l.first().cloned().unwrap_or(None),
        ("list@chunk", [Int(n), List(l)]) if *n >= 1 => {
            let n = (*n).min(1 << 40) as usize;
            List((0..l.len()).step_by(n).map(|i| List(l[i..(i + n).min(l.len())].to_vec())).collect())
        }
        ("list@len" | "dict@len" | "string@len", [a]) => Int(match a {
            Map(t) => t.len() as i64,
            List(l) => l.len() as i64,
            Bytes(b) => b.len() as i64,
            Str(s) if s.is_ascii() => s.len() as i64,
            Str(_) => return unmodelled("length of other than ASCII text"),
            _ if name == "dict@len" => return Ok(None),
            _ => return custom(),
        }),
        ("list@rev" | "string@rev", [a]) => match a {
            List(l) => List(l.iter().rev().cloned().collect()),
            Str(s) => Str(s.chars().rev().collect()),
            Sym(s) => Sym(s.chars().rev().collect()),
            Bytes(b) => Bytes(b.iter().rev().copied().collect()),
            _ => return custom(),
        },
        ("list@foldl" | "list@foldr", [f, acc, List(l)]) => {
            let (mut l, mut acc) = (l.clone(), acc.clone());
            let right = name == "list@foldr";
            if right {
                l.reverse()
            }
            for x in l {
                value_only(&x)?;
                value_only(&acc)?;
                let a = if right { vec![x, acc] } else { vec![acc, x] };
                acc = m.eval(&E::apply(f.clone(), a), env)?;
            }
            acc
        }
        ("list@zip", [List(a), List(b)]) => {
            List(a.iter().zip(b).map(|(x, y)| List(vec![x.clone(), y.clone()])).collect())
        }
        ("list@unzip", [List(l)]) => {
            let (mut a, mut b) = (vec![], vec![]);
            for p in l {
                match p {
                    List(p) if p.len() == 2 => {
                        a.push(p[0].clone());
                        b.push(p[1].clone())
                    }
                    _ => return custom(),
                }
            }
            List(vec![List(a), List(b)])
        }
        ("list@take" | "list@drop" | "list@split-at", [Int(n), List(l)]) => {
            // a negative number is more than any
            let k = usize::try_from(*n).map_or(l.len(), |n| n.min(l.len()));
            let (a, b) = (List(l[..k].to_vec()), List(l[k..].to_vec()));
            match name {
                "list@take" => a,
                "list@drop" => b,
                _ => List(vec![a, b]),
            }
        }
        ("list@nth", [Int(n), List(l)]) => {
            let i = if *n < 0 { *n + l.len() as i64 } else { *n };
            match usize::try_from(i).ok().and_then(|i| l.get(i)) {
                Some(x) => x.clone(),
                Option::None => return custom(),
            }
        }
        // ---- tables
        ("dict@flatten", [a]) => {
            let mut out = vec![];
            flatten(a, &mut out);
            List(out)
        }
        ("dict@items", [Map(t)]) => List(t.iter().map(|(k, v)| List(vec![E::str(k), v.clone()])).collect()),
        ("dict@items", [List(l)]) => {
            List(l.iter().enumerate().map(|(i, v)| List(vec![Int(i as i64), v.clone()])).collect())
        }
        ("dict@insert", [Map(t), k, x]) => {
            let mut t = t.clone();
            t.insert(text(k)?, x.clone());
            Map(t)
        }
        ("dict@remove", [Map(t), k]) => {
            let mut t = t.clone();
            t.remove(&text(k)?);
            Map(t)
        }
        ("dict@has?", [Map(t), k]) => Bool(t.contains_key(&text(k)?)),
        ("dict@from-items", [List(l)]) => {
            let mut t = BTreeMap::new();
            for p in l {
                match p {
                    List(p) if p.len() == 2 => {
                        t.insert(text(&p[0])?, p[1].clone());
                    }
                    _ => {}
                }
            }
            Map(t)
        }
        ("dict@union", [Map(a), Map(b)]) => {
            let mut t = b.clone();
            for (k, v) in a {
                t.entry(k.clone()).or_insert(v.clone());
            }
            Map(t)
        }
        ("dict@intersect", [Map(a), Map(b)]) => {
            Map(a.iter().filter(|(k, _)| b.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect())
        }
        ("dict@difference", [Map(a), Map(b)]) => {
            Map(a.iter().filter(|(k, _)| !b.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect())
        }
        // a table function of something else is nothing
        (n, _) if n.starts_with("dict@") => None,
        // ---- text
        ("split2", [a, b]) => match (textual(a), textual(b)) {
            (Some(sep), Some(s)) => strs(split(s, sep)),
            _ => return custom(),
        },
        ("string@caesar", [a]) => match textual(a) {
            Some(s) => Str(rotate(s, 13)),
            _ => None,
        },
        ("string@caesar", [a, n]) => match (textual(a), n) {
            (Some(s), Int(n)) => Str(rotate(s, *n)),
            _ => None,
        },
        ("string@get-width", [a]) => {
            Int(textual(a).map_or(0, |s| s.split('\n').map(|l| l.chars().count()).max().unwrap_or(0) as i64))
        }
        ("string@join", [List(l), sep]) => {
            let mut s = String::new();
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    s += &text(sep)?
                }
                s += &text(x)?
            }
            Str(s)
        }
        ("string@join", _) => None,
        ("string@split-at", [a, Int(i)]) if textual(a).is_some() => {
            let s = textual(a).unwrap();
            match usize::try_from(*i) {
                Ok(i) if s.is_char_boundary(i) => List(vec![E::str(&s[..i]), E::str(&s[i..])]),
                _ => return custom(),
            }
        }
        ("string@split-at", _) => None,
        ("string@replace", [a, b, c]) => match textual(a) {
            Some(s) => Str(replace(s, &text(b)?, &text(c)?)),
            _ => None,
        },
        ("string@starts-with?" | "string@ends-with?" | "string@contains?", [a, b]) => match textual(a) {
            Some(s) => {
                let t = text(b)?;
                let (s, t) = (s.as_bytes(), t.as_bytes());
                Bool(match name {
                    "string@starts-with?" => s.len() >= t.len() && &s[..t.len()] == t,
                    "string@ends-with?" => s.len() >= t.len() && &s[s.len() - t.len()..] == t,
                    _ => t.is_empty() || s.windows(t.len()).any(|w| w == t),
                })
            }
            _ => None,
        },
        ("string@words", [a]) => match textual(a) {
            Some(s) => strs(s.split(|c: char| c.is_whitespace()).filter(|w| !w.is_empty()).map(String::from).collect()),
            _ => None,
        },
        ("string@paragraphs", [a]) => match textual(a) {
            Some(s) => strs(split(s, "\n\n")),
            _ => None,
        },
        ("string@lines", _) => None,
        (n, [a, ..]) if n.starts_with("string@") => {
            let Some(s) = textual(a) else { return custom() };
            let ws = |c: char| c.is_whitespace();
            let all = |f: fn(char) -> bool| Bool(s.chars().all(f));
            match &n[7..] {
                "is-whitespace?" => all(char::is_whitespace),
                "is-alpha?" => all(char::is_alphabetic),
                "is-alphanumeric?" => all(char::is_alphanumeric),
                "is-numeric?" => all(char::is_numeric),
                "is-lower" => all(char::is_lowercase),
                "is-upper" => all(char::is_uppercase),
                "to-lower" => Str(s.to_lowercase()),
                "to-upper" => Str(s.to_uppercase()),
                "to-title" => Str(title(s)),
                "is-title" => Bool(title(s) == *s),
                "chars" => strs(s.chars().map(String::from).collect()),
                "trim" => E::str(s.trim_matches(ws)),
                "trim-start" => E::str(s.trim_start_matches(ws)),
                "trim-end" => E::str(s.trim_end_matches(ws)),
                _ => return unmodelled(n),
            }
        }
        (n, v) if n.starts_with("math@") => math(&n[5..], v)?,
        ("to" | "list@range", _) | ("insert", _) | ("keys" | "vals" | "lines", _) => return custom(),
        (n, _) if n.starts_with("list@") => return custom(),
        (n, _) => return unmodelled(n),
    })
}

fn range(a: i64, b: i64) -> R {
    if b.saturating_sub(a) > 1 << 32 {
        return custom();
    }
    Ok(E::ints(a..b))
}

/// Whether evaluating a value again (which applying a function to it does) leaves it alone.
fn value_only(x: &E) -> Result<(), Er> {
    let ok = match x {
        None | Int(_) | Flt(_) | Bool(_) | Str(_) | Bytes(_) | Lam(..) | Mac(..) | Builtin(_) => true,
        List(v) => v.iter().all(|x| value_only(x).is_ok()),
        Map(t) => t.values().all(|x| value_only(x).is_ok()),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        unmodelled("code as an item")
    }
}

fn strs(v: Vec<String>) -> E {
    List(v.into_iter().map(Str).collect())
}

fn flatten(e: &E, out: &mut Vec<E>) {
    match e {
        List(v) => v.iter().for_each(|x| flatten(x, out)),
        Map(m) => m.values().for_each(|x| flatten(x, out)),
        x => out.push(x.clone()),
    }
}

pub fn lines(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let (line, more) = match rest.find('\n') {
            Some(i) => (&rest[..i], &rest[i + 1..]),
            Option::None => (rest, ""),
        };
        // "\r\n" ends a line as well
        let ended = line.len() < rest.len();
        out.push(if ended { line.strip_suffix('\r').unwrap_or(line) } else { line }.to_string());
        rest = more;
    }
    out
}

fn split(s: &str, sep: &str) -> Vec<String> {
    let mut out = vec![];
    if sep.is_empty() {
        // around every character
        out.push(String::new());
        out.extend(s.chars().map(String::from));
        out.push(String::new());
        return out;
    }
    let mut cur = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if let Some(r) = rest.strip_prefix(sep) {
            out.push(std::mem::take(&mut cur));
            rest = r;
        } else {
            cur.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out.push(cur);
    out
}

fn replace(s: &str, old: &str, new: &str) -> String {
    let parts = split(s, old);
    if old.is_empty() {
        // before every character and at the end
        return format!("{}{}{}", new, parts[1..parts.len() - 1].iter().map(|c| format!("{c}{new}")).collect::<String>(), "");
    }
    parts.join(new)
}

fn rotate(s: &str, n: i64) -> String {
    let k = n.rem_euclid(26) as u8;
    s.chars()
        .map(|c| match c {
            'a'..='z' => (b'a' + (c as u8 - b'a' + k) % 26) as char,
            'A'..='Z' => (b'A' + (c as u8 - b'A' + k) % 26) as char,
            c => c,
        })
        .collect()
}

fn title(s: &str) -> String {
    let mut first = true;
    let mut out = String::new();
    for c in s.chars() {
        if first {
            out.extend(c.to_uppercase())
        } else {
            out.extend(c.to_lowercase())
        }
        first = c.is_whitespace();
    }
    out
}

/// Numbers that the model gives as "about": compared with a tolerance by the check.
fn math(name: &str, v: &[E]) -> R {
    let f = |e: &E| match e {
        Int(i) => Ok(*i as f64),
        Flt(x) => Ok(*x),
        _ => Err(Er::Custom),
    };
    let i2 = || match v {
        [Int(a), Int(b)] => Ok((*a, *b)),
        _ => Err(Er::Custom),
    };
    let shift = |b: i64| if (0..64).contains(&b) { Ok(b as u32) } else { Err(Er::Custom) };
    Ok(match name {
        "l-rsh" => {
            let (a, b) = i2()?;
            Int(((a as u64) >> shift(b)?) as i64)
        }
        "a-rsh" => {
            let (a, b) = i2()?;
            Int(a >> shift(b)?)
        }
        "lsh" => {
            let (a, b) = i2()?;
            Int(((a as u64) << shift(b)?) as i64)
        }
        "sum" | "product" => {
            let mut items = vec![];
            for x in v {
                match x {
                    List(l) => {
                        for y in l {
                            value_only(y)?;
                            items.push(y.clone())
                        }
                    }
                    x => items.push(x.clone()),
                }
            }
            let sum = name == "sum";
            let (mut i, mut x, mut flt) = (!sum as i128, !sum as i64 as f64, false);
            let mut over = false;
            let mut bad = false;
            for y in items {
                match y {
                    Int(n) => {
                        let r = if sum { i.checked_add(n as i128) } else { i.checked_mul(n as i128) };
                        match r {
                            Some(r) if i64::try_from(r).is_ok() => i = r,
                            _ => {
                                over = true;
                                break;
                            }
                        }
                    }
                    Flt(y) => {
                        flt = true;
                        x = if sum { x + y } else { x * y }
                    }
                    _ => {
                        bad = true;
                        break;
                    }
                }
            }
            if over || bad {
                return custom();
            }
            if !flt {
                Int(i as i64)
            } else if x == !sum as i64 as f64 {
                return unmodelled("a float sum without effect");
            } else {
                Flt(if sum { i as f64 + x } else { i as f64 * x })
            }
        }
        "fact" => match v {
            [Int(n)] if *n < 0 => return custom(),
            [Flt(x)] if *x < 0.0 => return custom(),
            [Int(n)] => {
                let mut r = 1i64;
                for k in 1..=*n {
                    r = r.checked_mul(k).ok_or(Er::Custom)?
                }
                Int(r)
            }
            [Flt(x)] if x.fract() == 0.0 && *x < 1e3 => {
                let mut r = 1.0;
                for k in 1..=*x as i64 {
                    r *= k as f64
                }
                Flt(r)
            }
            [Flt(_)] => return unmodelled("factorial of a fraction"),
            _ => return custom(),
        },
        "abs" => match v {
            [Int(n)] => Int(n.checked_abs().ok_or(Er::Custom)?),
            [Flt(x)] => Flt(x.abs()),
            _ => return custom(),
        },
        "floor" | "ceil" | "round" | "trunc" => match v {
            [Int(n)] => Int(*n),
            [Flt(x)] => Flt(match name {
                "floor" => x.floor(),
                "ceil" => x.ceil(),
                "round" => x.round(),
                _ => x.trunc(),
            }),
            _ => return custom(),
        },
        "isodd" | "iseven" => {
            let odd = match v {
                [Int(n)] => n & 1 == 1,
                [Flt(x)] if x.fract() == 0.0 && x.abs() < 1e15 => (*x as i64) & 1 == 1,
                [Flt(_)] => return unmodelled("parity of a fraction"),
                _ => return custom(),
            };
            Bool(odd == (name == "isodd"))
        }
        "pow" => match v {
            [Int(a), Int(b)] => {
                // by repeated multiplication
                if *b < 0 {
                    return custom();
                }
                match (*a, *b) {
                    (-1..=1, b) if b > u32::MAX as i64 => return unmodelled("a power that may be refused"),
                    (_, 0) | (1, _) => Int(1),
                    (0, _) => Int(0),
                    (-1, b) => Int(if b % 2 == 0 { 1 } else { -1 }),
                    (a, b) if b < 64 => {
                        let mut r = 1i64;
                        for _ in 0..b {
                            r = r.checked_mul(a).ok_or(Er::Custom)?
                        }
                        Int(r)
                    }
                    _ => return custom(),
                }
            }
            [a, b] => Flt(f(a)?.powf(f(b)?)),
            _ => return custom(),
        },
        "log" => Flt(f(&v[1])?.ln() / f(&v[0])?.ln()),
        _ => {
            let x = f(&v[0])?;
            let pi = std::f64::consts::PI;
            Flt(match name {
                "sinh" => x.sinh(),
                "cosh" => x.cosh(),
                "tanh" => x.tanh(),
                "asinh" => x.asinh(),
                "acosh" => x.acosh(),
                "atanh" => x.atanh(),
                "sinpi" => (x * pi).sin(),
                "cospi" => (x * pi).cos(),
                "tanpi" => (x * pi).tan(),
                "ln" => x.ln(),
                "log2" => x.ln() / std::f64::consts::LN_2,
                "log10" => x.ln() / std::f64::consts::LN_10,
                "sqrt" => x.sqrt(),
                "cbrt" => x.cbrt(),
                "sin" => x.sin(),
                "cos" => x.cos(),
                "tan" => x.tan(),
                "asin" => x.asin(),
                "acos" => x.acos(),
                "atan" => x.atan(),
                _ => return unmodelled(name),
            })
        }
    })
}

/// Whether what the implementation computed is what the model says.
pub fn matches(model: &E, real: &E) -> bool {
    match (model, real) {
        (Str(s), Str(_)) if s == ANY_TEXT => true,
        (Flt(x), Flt(y)) => {
            x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-12 * x.abs().max(y.abs()).max(1e-2)
        }
        (Builtin(_), Builtin(_) | Lam(..) | Mac(..)) => true,
        (Apply(f, _), Lam(..) | Builtin(_)) if matches!(&**f, Builtin(n) if n.starts_with("partial ")) => true,
        (Lam(p, _, _), Lam(..) | Builtin(_)) if p.starts_with("arg") => true,
        (List(x), List(y)) | (Do(x), Do(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| matches(a, b)),
        (Map(x), Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && matches(a, b)),
        (Group(x), Group(y)) | (Quote(x), Quote(y)) => matches(x, y),
        (Assign(n, x), Assign(o, y)) | (Mac(n, x), Mac(o, y)) | (Lam(n, x, _), Lam(o, y, _)) => n == o && matches(x, y),
        (For(n, a, b), For(o, c, d)) => n == o && matches(a, c) && matches(b, d),
        (If(a, b, c), If(d, e, f)) => matches(a, d) && matches(b, e) && matches(c, f),
        (Apply(f, x), Apply(g, y)) => matches(f, g) && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| matches(a, b)),
        (a, b) => a == b,
    }
}
