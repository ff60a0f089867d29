//! C08-C13: the operators and the list, table, text, function and math modules, on every tuple
//! of arguments from pools, against the reference model.
use super::diff::*;
use crate::engine::*;
use crate::spec::builtins::source;
use crate::spec::expr::E::{self, *};
use std::cell::RefCell;
use std::rc::Rc;

/// The function of this name; see `held`.
fn function(n: &str) -> E {
    match n.split_once('@') {
        Some((m, f)) if !m.is_empty() && n.chars().all(|c| c.is_alphanumeric() || "@-?".contains(c)) && !f.is_empty() => E::sym(n),
        _ => source(n),
    }
}

/// `'x` as a value: what evaluates to the symbol or the code itself.
fn values(texts: &[&str]) -> Vec<E> {
    texts.iter().map(|t| source(t)).collect()
}

fn describe(name: &str, args: &[E]) -> String {
    format!("{} {}", name, args.iter().map(|a| format!("({})", a.debug())).collect::<Vec<_>>().join(" "))
}

struct Calls {
    label: String,
    env: Vec<&'static str>,
    setup: &'static str,
    names: Vec<String>,
    /// the values of each argument position
    pools: Vec<Vec<E>>,
}

type Held = Rc<RefCell<Option<Pair>>>;

fn held(env: Vec<&'static str>, setup: &'static str) -> (Held, impl Fn(&std::path::Path)) {
    let p: Held = Rc::new(RefCell::new(Option::None));
    let p2 = p.clone();
    (p, move |scratch: &std::path::Path| {
        prepare(scratch);
        let mut p = Pair::new(&env).with(setup);
        let mut access = (*p.access).clone();
        // the members of a module under names of their own, found without copying the module
        for n in &env {
            if let Some(Map(m)) = p.model.get(*n).cloned() {
                for (k, v) in m {
                    let name = format!("{n}@{k}");
                    let x = E::call("@", vec![E::sym(n), E::sym(&k)]).to_impl().eval(&mut access).unwrap();
                    p.model.insert(name.clone(), v);
                    p.real.define(&name, x);
                }
            }
        }
        *p2.borrow_mut() = Some(p);
    })
}

impl Calls {
    fn decode(&self, i: u64) -> (String, Vec<E>) {
        let per: u64 = self.pools.iter().map(|p| p.len() as u64).product();
        let radix: Vec<u64> = self.pools.iter().map(|p| p.len() as u64).collect();
        let d = digits(i % per, &radix);
        (self.names[(i / per) as usize].clone(), d.iter().zip(&self.pools).map(|(d, p)| p[*d].clone()).collect())
    }
    fn size(&self) -> u64 {
        self.names.len() as u64 * self.pools.iter().map(|p| p.len() as u64).product::<u64>()
    }
    /// The value of every call.
    fn space(self) -> Space {
        let (pair, init) = held(self.env.clone(), self.setup);
        let size = self.size();
        let label = self.label.clone();
        let c = Rc::new(self);
        let c2 = c.clone();
        Space::new(
            &label,
            size,
            move |i| {
                let (n, a) = c2.decode(i);
                describe(&n, &a)
            },
            move |i, rec| {
                let (n, a) = c.decode(i);
                let e = if a.is_empty() { E::apply(function(&n), vec![]) } else { E::apply(function(&n), a.clone()) };
                let mut g = pair.borrow_mut();
                let p = g.as_mut().unwrap();
                if step(p, &e, rec, "value", false) == Same::Yes {
                    rec.trace();
                    if i % 4099 == 7 {
                        rec.sample(|| describe(&n, &a));
                    }
                }
            },
        )
        .init(init)
    }
    /// Every argument is evaluated exactly once by a call that succeeds; in order, if `ordered`.
    fn effects(self, ordered: bool) -> Space {
        let (pair, init) = held(self.env.clone(), self.setup);
        let size = self.size();
        let label = self.label.clone();
        let c = Rc::new(self);
        let c2 = c.clone();
        Space::new(
            &label,
            size,
            move |i| {
                let (n, a) = c2.decode(i);
                describe(&n, &a)
            },
            move |i, rec| {
                let (n, a) = c.decode(i);
                let wrapped: Vec<E> = a
                    .iter()
                    .enumerate()
                    .map(|(k, v)| Do(vec![E::call("println", vec![E::str(&format!("argument {k}"))]), v.clone()]))
                    .collect();
                let e = E::apply(function(&n), wrapped);
                let mut g = pair.borrow_mut();
                let p = g.as_mut().unwrap();
                let mut probe = p.model.clone();
                let mut m = crate::spec::eval::M::new();
                if !matches!(m.eval(&e, &mut probe), Ok(ref v) if !matches!(v, Lam(..) | Apply(..))) {
                    rec.note("no value");
                    return;
                }
                rec.steps(m.steps);
                let x = e.to_impl();
                let (r, out, _) = capture(|| guard(|| x.eval(&mut p.real).map(|_| ()).map_err(|e| e.to_string())));
                if let Err(e) | Ok(Err(e)) = r {
                    rec.fail("effects", format!("{}: {e}", describe(&n, &a)));
                    return;
                }
                let out = String::from_utf8_lossy(&out).to_string();
                let mut lines: Vec<&str> = out.lines().collect();
                let mut want: Vec<&str> = m.out.lines().collect();
                if !ordered {
                    lines.sort();
                    want.sort();
                }
                rec.state(&(&n, &lines));
                if lines != want {
                    rec.fail("effects", format!("{}: evaluation prints {lines:?}, not {want:?}", describe(&n, &a)));
                } else {
                    rec.trace();
                }
            },
        )
        .init(init)
    }
}

/// Calls with many arguments, all alike but one somewhere: their value, and that each argument
/// is evaluated once and in order if there is one.
fn many(label: &str, env: Vec<&'static str>, names: Vec<String>, pairs: Vec<(E, E)>) -> Space {
    let mut counts: Vec<usize> = (5..=20).collect();
    counts.extend([31, 32, 33, 50, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300]);
    let mut v = vec![];
    for name in &names {
        for &n in &counts {
            for pair in 0..pairs.len() {
                let mut odd = vec![usize::MAX, 0, 1, 2, n / 2, n - 2, n - 1];
                if n <= 10 {
                    odd = (0..=n).collect();
                }
                v.extend(odd.into_iter().map(|o| (name.clone(), n, pair, o)));
            }
        }
    }
    let (pair, init) = held(env, "");
    let pairs = Rc::new(pairs);
    let args = move |n: usize, p: usize, odd: usize| -> Vec<E> { (0..n).map(|k| if k == odd { pairs[p].1.clone() } else { pairs[p].0.clone() }).collect() };
    let (v, a2) = (Rc::new(v), args.clone());
    let v2 = v.clone();
    let describe = move |i: u64| {
        let (name, n, p, odd) = &v2[i as usize];
        let a = a2(*n, *p, *odd);
        format!("{name} of {n} arguments {} but one, {}", a[if *odd == 0 { 1 } else { 0 }].debug(), if odd < n { format!("{} at {odd}", a[*odd].debug()) } else { "or none".into() })
    };
    let (name_of, n) = (describe.clone(), v.len() as u64);
    Space::new(label, n, describe, move |i, rec| {
        let (name, n, k, odd) = &v[i as usize];
        let e = E::apply(function(name), args(*n, *k, *odd));
        let mut g = pair.borrow_mut();
        if step(g.as_mut().unwrap(), &e, rec, "value", false) == Same::Yes {
            rec.trace();
            if i % 997 == 5 {
                rec.sample(|| name_of(i));
            }
        }
    })
    .init(init)
}

/// Listed calls, named by their function and the sizes of their arguments.
fn listed(label: &str, env: Vec<&'static str>, calls: Vec<(&'static str, Vec<E>)>) -> Space {
    fn size(e: &E) -> String {
        let d = e.debug();
        if d.chars().count() <= 40 {
            return d;
        }
        match e {
            List(v) => format!("a list of {} from {}", v.len(), size(&v[0])),
            Map(m) => format!("a table of {}", m.len()),
            Str(s) => format!("a text of {}", s.chars().count()),
            _ => d,
        }
    }
    let (pair, init) = held(env, "");
    let calls = Rc::new(calls);
    let c2 = calls.clone();
    let describe = move |i: u64| {
        let (f, a) = &c2[i as usize];
        format!("{f} {}", a.iter().map(|x| format!("({})", size(x))).collect::<Vec<_>>().join(" "))
    };
    let (name_of, n) = (describe.clone(), calls.len() as u64);
    Space::new(label, n, describe, move |i, rec| {
        let (f, a) = &calls[i as usize];
        let mut g = pair.borrow_mut();
        if step(g.as_mut().unwrap(), &E::apply(function(f), a.clone()), rec, "value", false) == Same::Yes {
            rec.trace();
            if i % 97 == 5 {
                rec.sample(|| name_of(i));
            }
        }
    })
    .init(init)
}

const SIZES: &[usize] = &[13, 14, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000];

fn long_lists(env: &[&'static str]) -> Space {
    let mut v: Vec<(&'static str, Vec<E>)> = vec![];
    for &n in SIZES {
        let l = |m: usize| List((0..m as i64).map(|k| Int(k * 7 % 1009)).collect());
        let pairs = |m: usize, odd: usize| List((0..m).map(|k| if k == odd { List(vec![Int(k as i64)]) } else { List(vec![Int(k as i64), E::str(&format!("v{k}"))]) }).collect());
        for f in ["list@tail", "list@head", "list@len", "list@rev", "len"] {
            v.push((f, vec![l(n)]));
        }
        for odd in [n, 0, n / 2, n - 1] {
            v.push(("list@unzip", vec![pairs(n, odd)]));
        }
        for c in [-1, 0, 1, 2, 3, 7, n as i64 / 2, n as i64 - 1, n as i64, n as i64 + 1, -(n as i64), -(n as i64) - 1] {
            for f in ["list@chunk", "list@take", "list@drop", "list@split-at", "list@nth", "list@cons"] {
                v.push((f, vec![Int(c), l(n)]));
            }
            v.push(("insert", vec![l(n), Int(c), E::str("new")]));
            v.push(("@", vec![l(n), Int(c)]));
            v.push(("-", vec![l(n), Int(c)]));
            if c <= 40 {
                v.push(("*", vec![l(n), Int(c)]));
            }
            v.push(("list@range", vec![Int(c), Int(n as i64)]));
            v.push(("to", vec![Int(c), Int(n as i64)]));
        }
        for m in [0, 1, n / 2, n - 1, n, n + 1, 2 * n] {
            v.push(("list@zip", vec![l(n), l(m)]));
            v.push(("+", vec![l(n), l(m)]));
            v.push(("list@append", vec![l(n), l(m)]));
            v.push(("list@cons", vec![l(m), l(n)]));
        }
        for f in ["a -> b -> a - b", "a -> b -> b - a", "a -> b -> [b]"] {
            for g in ["list@foldl", "list@foldr"] {
                v.push((g, vec![source(f), Int(3), l(n)]));
            }
        }
    }
    listed("long lists", env.to_vec(), v)
}

fn long_tables(env: &[&'static str]) -> Space {
    let mut v: Vec<(&'static str, Vec<E>)> = vec![];
    // the keys from a to b, in version w
    let t = |a: usize, b: usize, w: i64| Map((a..b).map(|k| (format!("k{k}"), if k % 3 == 0 { List(vec![Int(k as i64 * w)]) } else { Int(k as i64 * w) })).collect());
    for &n in SIZES {
        for f in ["dict@flatten", "dict@items", "dict@keys", "dict@values", "dict@len", "keys", "vals", "len"] {
            v.push((f, vec![t(0, n, 1)]));
        }
        for k in ["k0".to_string(), "k1".into(), format!("k{}", n / 2), format!("k{}", n - 1), format!("k{n}"), "k".into(), "".into(), "zz".into()] {
            for f in ["dict@remove", "dict@has?", "@", "-"] {
                v.push((f, vec![t(0, n, 1), E::str(&k)]));
            }
            for f in ["dict@insert", "insert"] {
                v.push((f, vec![t(0, n, 1), E::str(&k), E::str("new")]));
            }
        }
        for (a, b) in [(0, n), (0, n / 2), (n / 2, n), (n / 2, n + n / 2), (n, n + 1), (n - 1, n), (0, 0), (0, 1), (n, 2 * n)] {
            for f in ["dict@union", "dict@intersect", "dict@difference"] {
                v.push((f, vec![t(0, n, 1), t(a, b, -1)]));
                v.push((f, vec![t(a, b, -1), t(0, n, 1)]));
            }
        }
        for distinct in [1, 2, n / 2, n] {
            let items = |odd: usize| List((0..n).map(|k| if k == odd { List(vec![Int(1)]) } else { List(vec![E::str(&format!("k{}", k % distinct)), Int(k as i64)]) }).collect());
            for odd in [n, 0, n - 1] {
                v.push(("dict@from-items", vec![items(odd)]));
            }
        }
    }
    listed("large tables", env.to_vec(), v)
}

fn long_texts(env: &[&'static str]) -> Space {
    let mut v: Vec<(&'static str, Vec<E>)> = vec![];
    for &n in SIZES {
        for unit in ["a", "ab ", "Word\n", "é\r\n", "x\n\n", "  ", "aab", "Zz9 "] {
            let text = unit.repeat(n);
            for odd in ["", "Q", "é", " ", "\n"] {
                for at in [0, n / 2, n] {
                    if odd.is_empty() && at > 0 {
                        continue;
                    }
                    let t = E::str(&format!("{}{odd}{}", unit.repeat(at), unit.repeat(n - at)));
                    for f in "caesar get-width is-whitespace? is-alpha? is-alphanumeric? is-numeric? to-lower to-upper to-title is-lower is-upper is-title rev lines chars words paragraphs trim trim-start trim-end".split(' ') {
                        let f: &'static str = Box::leak(format!("string@{f}").into_boxed_str());
                        v.push((f, vec![t.clone()]));
                    }
                    for p in [unit.to_string(), odd.to_string(), "b".into(), "a".into(), "\n".into(), " ".into(), format!("{odd}{unit}"), text.clone()] {
                        v.push(("string@split", vec![E::str(&p), t.clone()]));
                        for f in ["string@starts-with?", "string@ends-with?", "string@contains?"] {
                            v.push((f, vec![t.clone(), E::str(&p)]));
                        }
                        v.push(("string@replace", vec![t.clone(), E::str(&p), E::str("--")]));
                    }
                    for i in [0, 1, n as i64 / 2, n as i64 - 1, n as i64, n as i64 * 2, 100000] {
                        v.push(("string@split-at", vec![t.clone(), Int(i)]));
                        v.push(("insert", vec![t.clone(), Int(i), E::str("<>")]));
                    }
                }
            }
        }
        let l = List((0..n).map(|k| if k % 5 == 3 { Int(k as i64) } else { E::str(&"s".repeat(k % 4)) }).collect());
        for sep in ["", ",", "\n", "--"] {
            v.push(("string@join", vec![l.clone(), E::str(sep)]));
        }
    }
    listed("long texts", env.to_vec(), v)
}

/// Functions of up to `most` parameters given their arguments in every way: all at once, one at a
/// time and everything in between.
fn splits(env: &[&'static str], most: usize) -> Space {
    let mut v = vec![];
    for n in 1..=most {
        let ps: Vec<String> = (0..n).map(|k| format!("p{k}")).collect();
        let list = format!("[{}]", ps.join(", "));
        let funs = [
            format!("({} -> {list})", ps.join(" -> ")),
            format!("({} ~> {list})", ps.join(" ~> ")),
            format!("(fn@curry list@list {n})"),
            format!("(fn@curry ({} -> {list}) {n})", ps.join(" -> ")),
            format!("(fn@curry math@max {n})"),
            format!("(fn@flip ({} -> {list}))", ps.join(" -> ")),
        ];
        for f in 0..funs.len() {
            for cut in 0..1u64 << (n - 1) {
                for extra in [false, true] {
                    // an argument too many is given to what the function gives
                    let mut text = funs[f].clone();
                    for k in 0..n {
                        if k > 0 && cut >> (k - 1) & 1 == 1 {
                            text = format!("({text})");
                        }
                        text += &format!(" {}", (k * 5 + 3) % 7);
                    }
                    if extra {
                        text += " 9";
                    }
                    v.push(text);
                }
            }
        }
    }
    let (pair, init) = held(env.to_vec(), "");
    Space::list("ways to give arguments", v, move |text, rec| {
        let mut g = pair.borrow_mut();
        let p = g.as_mut().unwrap();
        // what macros bind is forgotten
        for k in 0..12 {
            p.model.remove(&format!("p{k}"));
            p.real.undefine(&format!("p{k}"));
        }
        if step(p, &source(text), rec, "value", false) == Same::Yes {
            rec.trace();
        }
    })
    .init(init)
}

fn names(module: &str, list: &str) -> Vec<String> {
    list.split_whitespace().map(|n| if module.is_empty() { n.to_string() } else { format!("{module}@{n}") }).collect()
}

fn same(pool: &[E], k: usize) -> Vec<Vec<E>> {
    vec![pool.to_vec(); k]
}

const ASSUME: &str = "floating point results are compared with a relative tolerance of 1e-12 (1e-6 for the factorial of a float)";

// ---------------------------------------------------------------------------------- operators

pub fn operators(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let env = vec!["+", "-", "*", "//", "%", "&&", "||", "!", "==", "!=", "<", "<=", ">", ">=", "@", "to", "println"];
    let ops = names("", "+ - * // % && || ! == != < <= > >= @");
    let mut pool = values(&["0", "1", "2", "3", "7", "1.5", "-0.5", "\"\"", "\"a\"", "\"ab\"", "\"b\"", "[]", "[1]", "[1, 2]", "[2, 1]", "[[1], \"a\"]", "[None]", "{}", "{a = 1}", "{a = 2}", "{a = 1, b = None}", "'a", "'b", "True", "False", "None", "x -> x", "'(1 + 2)"]);
    pool.extend([Int(-1), Int(-2), Int(-7), Int(i64::MAX), Int(i64::MIN), Int(i64::MAX - 1), Flt(f64::INFINITY), Flt(f64::NAN), Flt(0.0), Flt(-0.0), Flt(2.0), Flt(9007199254740993.0), Bytes(vec![]), Bytes(vec![9, 255]), Bytes(vec![1])]);
    pool.extend([Int((1 << 53) + 1), Int(1 - (1 << 32))]);
    let small: Vec<E> = [values(&["2", "\"a\"", "[1, 2]", "{a = 1}", "None", "1.5", "True", "'a", "0"]), vec![Int(-1), Int(i64::MAX)]].concat();
    let three = pool.clone();
    let four = if q { small[..6].to_vec() } else { small.clone() };
    let mk = |label: &str, names: Vec<String>, pools: Vec<Vec<E>>| Calls { label: label.into(), env: env.clone(), setup: "", names, pools };
    let mut range: Vec<E> = (-3..=3).map(Int).collect();
    range.extend([Int(i64::MAX), Int(i64::MIN), Int(i64::MAX - 1), Flt(1.0), Str("1".into()), None]);
    Check {
        id: "C08",
        rule: "every operator applied to every tuple of operands from the pool (integers with both ends of their range, floats with infinity and NaN, texts, byte strings, lists, tables, symbols, code, truth values, functions, None): the value or error is the reference model's, integer arithmetic is exact or an error, and operands are evaluated once from left to right".into(),
        bounds: format!("{} operand values; tuples of 0-3 over all of them and of 4 over {}; 5 to 300 operands alike but one", pool.len(), four.len()),
        assumptions: vec![ASSUME.into()],
        spaces: vec![
            mk("no operand", ops.clone(), vec![]).space(),
            mk("one operand", ops.clone(), same(&pool, 1)).space(),
            mk("two operands", ops.clone(), same(&pool, 2)).space(),
            mk("far indices", names("", "@"), vec![values(&["[]", "[1]", "[1, 2, 3]", "\"\"", "\"abc\"", "{a = 1}"]), [30, 31, 32, 33, 52, 53, 61, 62].iter().flat_map(|b| (-3..=3i64).flat_map(move |d| [(1i64 << b) + d, d - (1i64 << b)])).chain((0..4).flat_map(|d| [i64::MAX - d, i64::MIN + d])).map(Int).collect()]).space(),
            mk("far numbers", names("", "+ - * // % == != < <= > >="), {
                let far: Vec<E> = [31, 32, 52, 53, 62].iter().flat_map(|b| (-1..=1i64).flat_map(move |d| [Int((1i64 << b) + d), Int(d - (1i64 << b)), Flt(((1i64 << b) + d) as f64), Flt(-((1i64 << b) as f64))])).chain([Int(i64::MAX), Int(i64::MIN), Flt(i64::MAX as f64), Flt(i64::MIN as f64), Flt(0.5), Int(2), Int(3), Int(-1)]).collect();
                same(&far, 2)
            }).space(),
            mk("three operands", ops.clone(), same(&three, 3)).space(),
            mk("four operands", ops.clone(), same(&four, 4)).space(),
            many(
                "many operands",
                env.clone(),
                ops.clone(),
                vec![
                    (Int(2), Int(7)),
                    (Int(1), None),
                    (Int(0), Int(1)),
                    (Flt(0.5), Int(3)),
                    (E::str("a"), E::str("")),
                    (E::str("ab"), Int(1)),
                    (List(vec![Int(1)]), List(vec![E::str("b"), None])),
                    (Bool(true), Bool(false)),
                    (Int(-1), Int(i64::MIN)),
                ],
            ),
            mk("partial addition", names("", "(+)"), same(&small, 1)).space(),
            Calls { setup: "let section = a -> b -> ((+ a) b)", ..mk("sections", names("", "section"), same(&pool, 2)) }.space(),
            mk("ranges", names("", "to"), same(&range, 2)).space(),
            mk("effects of one", ops.clone(), same(&small, 1)).effects(true),
            mk("effects of two", [ops.clone(), names("", "to")].concat(), same(&small, 2)).effects(true),
            mk("effects of three", ops, same(&small, 3)).effects(true),
        ],
    }
}

// ---------------------------------------------------------------------------------- lists

pub fn lists(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let env = vec!["list", "println", "+", "-", "len", "insert", "to", "@", "*"];
    let fs = "list tail head chunk cons append len rev range foldl foldr zip unzip take drop split-at nth";
    let mut ints: Vec<E> = (-4..=5).map(Int).collect();
    ints.extend([Int(i64::MAX), Int(i64::MIN)]);
    let lists = values(&["[]", "[1]", "[1, 2]", "[3, 1, 2]", "[1, 2, 3, 4]", "[5, 4, 3, 2, 1]", "[\"a\", None]", "[[1, 2], [3, 4]]", "[[1, \"a\"]]", "[[1], [2]]", "[[], [1, 2, 3]]", "[[1, 2], 3]", "[[1, 2], [1, 2, 3]]", "[{a = 1}, 1.5]", "[None]", "['a, 'b]"]);
    let other = values(&["None", "\"abc\"", "\"\"", "1.5", "{a = 1}", "True", "'abc", "x -> x", "a -> b -> a - b", "a -> b -> [a, b]", "a -> b -> b + a", "+", "(-)"]);
    let all: Vec<E> = [ints.clone(), lists.clone(), other.clone(), vec![Bytes(vec![1, 2, 3])]].concat();
    let funs: Vec<E> = values(&["a -> b -> a - b", "a -> b -> [a, b]", "a -> b -> b + a", "(-)", "x -> x", "None", "(+)", "a -> b -> (if (len [a]) {a} else {b})"]);
    let folded = values(&["[]", "[1]", "[1, 2]", "[3, 1, 2]", "[1, 2, 3, 4]", "[\"a\", \"b\", \"c\"]", "[[1], [2]]", "[None, 1]", "3", "\"abc\""]);
    let accs = values(&["0", "10", "[]", "\"z\"", "None", "1.5"]);
    // every list of up to n items over two values
    let mut shapes = vec![];
    let n = if q { 9 } else { 12 };
    for i in 0..words(2, 0, n) {
        shapes.push(List(word(i, 2, 0, n).into_iter().enumerate().map(|(k, d)| if d == 0 { Int(k as i64) } else { List(vec![Int(k as i64), E::str("v")]) }).collect()));
    }
    let counts: Vec<E> = (-2..=n as i64 + 2).chain([1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 - (1 << 32), 1 - (1 << 62), i64::MAX, i64::MIN]).map(Int).collect();
    let mk = |label: &str, names: Vec<String>, pools: Vec<Vec<E>>| Calls { label: label.into(), env: env.clone(), setup: "", names, pools };
    let full = [names("list", fs), names("", "len insert")].concat();
    let three: Vec<E> = all.clone();
    Check {
        id: "C09",
        rule: "every list function applied to every tuple of arguments from pools of integers (negative, out of bounds and extreme), lists of all shapes up to a length, functions and other values gives the reference model's value or error, and evaluates each argument once".into(),
        bounds: format!("{} values for one and two arguments, {} for three; all {} lists of up to {n} items of two kinds with counts -2..{}; lists of up to 1000", all.len(), three.len(), shapes.len(), n + 2),
        assumptions: vec!["items that are code are not passed to functions".into()],
        spaces: vec![
            mk("none", full.clone(), vec![]).space(),
            mk("one", full.clone(), same(&all, 1)).space(),
            mk("two", full.clone(), same(&all, 2)).space(),
            mk("three", full.clone(), same(&three, 3)).space(),
            mk("shapes", names("list", "tail head len rev unzip"), vec![shapes.clone()]).space(),
            mk("counts", names("list", "chunk take drop split-at nth cons"), vec![counts.clone(), shapes.clone()]).space(),
            mk("insert", names("", "insert"), vec![shapes.clone(), counts.clone(), values(&["9"])]).space(),
            mk("pairs", names("list", "zip"), vec![shapes.clone(), if q { [lists.clone(), shapes[..127].to_vec()].concat() } else { shapes[..2047].to_vec() }]).space(),
            mk("folds", names("list", "foldl foldr"), vec![funs, accs, folded]).space(),
            long_lists(&env),
            mk("effects of two", full.clone(), same(&all, 2)).effects(false),
            mk("effects of three", full, same(&values(&["[]", "[1, 2]", "1", "0", "a -> b -> a + b", "\"ab\""]), 3)).effects(false),
        ],
    }
}

// ---------------------------------------------------------------------------------- tables

pub fn tables(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let env = vec!["dict", "println", "+", "insert", "keys", "vals", "len", "@", "-"];
    let fs = names("dict", "flatten items keys values insert remove has? len from-items union intersect difference");
    let full = [fs, names("", "insert keys vals len @ -")].concat();
    let keys = ["a", "b", "c"];
    // every table over three keys with three kinds of values, in two versions
    let mut maps = vec![];
    for version in 0..2i64 {
        for i in 0..64u64 {
            let d = digits(i, &[4, 4, 4]);
            let mut t = std::collections::BTreeMap::new();
            for (k, d) in keys.iter().zip(d) {
                match d {
                    1 => {
                        t.insert(k.to_string(), Int(10 * version + d as i64));
                    }
                    2 => {
                        t.insert(k.to_string(), List(vec![Int(version), E::map(&[("a", Int(7))])]));
                    }
                    3 => {
                        t.insert(k.to_string(), None);
                    }
                    _ => {}
                }
            }
            maps.push(Map(t));
        }
    }
    let ks = [values(&["\"a\"", "\"b\"", "\"c\"", "\"zz\"", "'a", "\"\"", "1", "None", "1.5", "True", "\"é\""]), vec![Int(-1)]].concat();
    let vals = values(&["1", "None", "\"v\"", "[1]", "{x = 1}"]);
    let other = values(&["[]", "[1, 2]", "[[1, 2]]", "[[\"a\", 1], [\"b\", 2], [\"a\", 3]]", "[['k, 1], [2, 3], [4], 5, [1, 2, 3]]", "[[None, 1]]", "[[1, [2, [{b = 3, a = [4]}]]]]", "\"abc\"", "x -> x", "{a = {b = {c = [1, [2]]}}}", "[{a = 1, b = 2}, {c = 3}]", "'sym"]);
    let all = [maps.clone(), ks.clone(), other.clone(), vec![Bytes(vec![1, 2])]].concat();
    let mk = |label: &str, names: Vec<String>, pools: Vec<Vec<E>>| Calls { label: label.into(), env: env.clone(), setup: "", names, pools };
    let three = if q { [maps[..64].to_vec(), ks.clone(), vals.clone(), other.clone()].concat() } else { all.clone() };
    Check {
        id: "C10",
        rule: "every table function applied to every tuple of arguments (all tables over three keys and three kinds of values in two versions, keys of all kinds, nested structures, other values) gives the reference model's value or error, leaves its arguments alone, and evaluates each argument once".into(),
        bounds: format!("{} values for one and two arguments, {} for three; tables of up to 1000 keys", all.len(), three.len()),
        assumptions: vec![],
        spaces: vec![
            mk("none", full.clone(), vec![]).space(),
            mk("one", full.clone(), same(&all, 1)).space(),
            mk("two", full.clone(), same(&all, 2)).space(),
            mk("three", full.clone(), same(&three, 3)).space(),
            mk("insert", names("", "dict@insert insert"), vec![maps.clone(), ks.clone(), vals.clone()]).space(),
            long_tables(&env),
            mk("effects of two", full.clone(), vec![maps[..64].to_vec(), [maps[64..100].to_vec(), ks.clone()].concat()]).effects(false),
            mk("effects of three", full, vec![maps[..12].to_vec(), ks, vals]).effects(false),
        ],
    }
}

// ---------------------------------------------------------------------------------- text

pub fn texts(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let env = vec!["string", "println", "len", "lines", "insert", "str", "int", "keys"];
    let unary = [names("string", "to-string caesar len get-width is-whitespace? is-alpha? is-alphanumeric? is-numeric? to-lower to-upper to-title is-lower is-upper is-title rev lines chars words paragraphs trim trim-start trim-end"), names("", "len lines str int")].concat();
    let binary = names("string", "caesar split join split-at starts-with? ends-with? contains?");
    let full = [unary.clone(), binary.clone(), names("string", "replace")].concat();
    let alphabet: Vec<char> = "abZ é\n\r7-".chars().collect();
    let k = alphabet.len() as u64;
    let strings = |n: u32| -> Vec<E> { (0..words(k, 0, n)).map(|i| Str(word(i, k, 0, n).into_iter().map(|d| alphabet[d]).collect())).collect() };
    let few: Vec<char> = "aab\n".chars().collect::<std::collections::BTreeSet<_>>().into_iter().chain(['é']).collect();
    let fewstr = |n: u32| -> Vec<E> { (0..words(few.len() as u64, 0, n)).map(|i| Str(word(i, few.len() as u64, 0, n).into_iter().map(|d| few[d]).collect())).collect() };
    let long = strings(if q { 5 } else { 7 });
    // characters with properties of their own: blanks, letters without case, with two or three
    // cases or longer ones, digits that are not 0-9, combining marks, and outside the first plane
    let odd: Vec<char> = "aA \u{a0}\u{2003}\u{85}\u{2028}\u{3000}\u{200b}\tßŉǆǅªºΣσςİıŁ٣½Ⅷ一_\u{301}𝔸😀".chars().collect();
    let ok = odd.len() as u64;
    let odd: Vec<E> = (0..words(ok, 0, if q { 3 } else { 4 })).map(|i| Str(word(i, ok, 0, 4).into_iter().map(|d| odd[d]).collect())).collect();
    let mid = fewstr(if q { 5 } else { 6 });
    let short = fewstr(2);
    let other = [values(&["'sym", "1", "1.5", "None", "[1, 2]", "[]", "[\"a\", \"b\"]", "[\"a\", 1, None, True]", "{a = 1}", "x -> x", "True", "\"Zz Aa\\tx\"", "\"ÀÉ Öß日\"", "\"  x  \\n\\n y\"", "\"12\"", "\"-3\"", "\"+3\"", "\"9223372036854775808\"", "\"½²\"", "'x"]), vec![Int(-1), Int(26), Int(27), Int(-27), Int(i64::MAX), Int(i64::MIN), Int(3)]].concat();
    let all = [fewstr(2), other.clone()].concat();
    let shifts: Vec<E> = (-30..=30).chain([i64::MAX, i64::MIN, 1 << 32, (1 << 32) + 1, 1 - (1 << 32)]).map(Int).collect();
    let at: Vec<E> = (-2..=10).chain([i64::MAX, i64::MIN, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 - (1 << 32)]).map(Int).collect();
    let lists = values(&["[]", "[\"a\"]", "[\"a\", \"b\", \"c\"]", "[1, 2.5, None]", "[\"\", \"\"]", "['x, \"é\"]"]);
    let mk = |label: &str, names: Vec<String>, pools: Vec<Vec<E>>| Calls { label: label.into(), env: env.clone(), setup: "", names, pools };
    Check {
        id: "C11",
        rule: "every text function on every text up to a length over an alphabet of letters of both cases, multi-byte letters, digits, blanks and line ends (and, for functions of two and three texts, every tuple of texts) gives the reference model's value or error; indices that are not between two characters are errors".into(),
        bounds: format!("{} texts for one argument, {} x {} for two, {} x {} x {} for three, {} values of all kinds in every position; texts of up to 1000 parts", long.len(), mid.len(), short.len(), mid.len(), short.len(), short.len(), all.len()),
        assumptions: vec!["the length functions of the string, list and dict modules are only compared on ASCII text".into()],
        spaces: vec![
            mk("none", full.clone(), vec![]).space(),
            mk("one", full.clone(), same(&all, 1)).space(),
            mk("two", full.clone(), same(&all, 2)).space(),
            mk("texts", unary.clone(), vec![long.clone()]).space(),
            mk("unusual characters", unary, vec![odd]).space(),
            mk("two texts", binary, vec![mid.clone(), short.clone()]).space(),
            mk("split", names("", "string@split"), vec![short.clone(), mid.clone()]).space(),
            mk("replace", names("", "string@replace"), vec![mid.clone(), short.clone(), short.clone()]).space(),
            mk("rotate", names("", "string@caesar"), vec![values(&["\"abcxyzABCXYZ\"", "\"é1 -aZ\"", "'sym"]), shifts]).space(),
            mk("index", names("", "string@split-at"), vec![[mid.clone(), values(&["'sym", "\"日本\""])].concat(), at.clone()]).space(),
            mk("insert", names("", "insert"), vec![mid, at, values(&["\"\"", "\"é\"", "1", "None"])]).space(),
            mk("join", names("", "string@join"), vec![lists, [short.clone(), other.clone()].concat()]).space(),
            long_texts(&env),
            mk("effects of two", full.clone(), same(&all, 2)).effects(false),
            mk("effects of three", full, same(&values(&["\"ab\"", "\"a\"", "'b", "1"]), 3)).effects(false),
        ],
    }
}

// ---------------------------------------------------------------------------------- functions

pub fn functions(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let env = vec!["fn", "println", "+", "-", "*", "//", "%", "list", "math", "string", "==", "<", ">", "dict", "@", "len"];
    let funs = values(&["x -> x", "x -> x + 1", "x -> y -> x - y", "x -> y -> z -> [x, y, z]", "x ~> [x, x]", "+", "(-)", "(*)", "(//)", "(%)", "fn@id", "fn@const", "fn@flip", "fn@compose", "len", "math@max", "list@rev", "None", "3", "x -> None + x", "fn@flip (-)", "(+ 1)", "fn@const 5", "list@take 2", "string@split \",\"", "math@abs", "x -> []"]);
    let vals = [values(&["0", "1", "2", "7", "\"a,b\"", "[1, 2, 3]", "[]", "None", "x -> x * 2", "x -> y -> y"]), vec![Int(-3)]].concat();
    let lists = values(&["[]", "[1]", "[1, 2]", "[3, 1, 2]", "[0, 1, 0, 2]", "[\"a,b\", \"c\"]", "[[1, 2, 3], [4]]", "[None, 1]", "[1, \"a\"]", "[x -> x, 2]", "5", "\"abc\"", "None", "{a = 1}"]);
    let counts = [values(&["0", "1", "2", "3", "4", "300", "None", "1.5"]), vec![Int(-1), Int(256), Int(257)]].concat();
    let mk = |label: &str, names: Vec<String>, pools: Vec<Vec<E>>| Calls { label: label.into(), env: env.clone(), setup: "", names, pools };
    let clash = "let arg0 = 100; let arg1 = 200; let arg2 = 300; let x = 400; let y = 500; let f = 600; let g = 700; None";
    let clashing = |label: &str, names: Vec<String>, pools: Vec<Vec<E>>| Calls { label: label.into(), env: env.clone(), setup: clash, names, pools };
    // applying curried functions one argument at a time, all at once, and in between
    let mut curried = vec![];
    for f in ["x -> y -> z -> [x, y, z]", "list@list", "+", "a -> b -> a - b", "math@max", "fn@?", "x ~> x", "list@nth", "arg0 -> arg1 -> [arg1, arg0]"] {
        for n in 0..=4 {
            curried.push(format!("fn@curry ({f}) {n}"));
        }
    }
    let curried: Vec<String> = curried.into_iter().map(|c| format!("({c})")).collect();
    let some = values(&["1", "2", "[5, 6]", "\"s\"", "None"]);
    let composed: Vec<String> = {
        let u = ["(x -> x + 1)", "(x -> x * 3)", "fn@id", "list@rev", "(fn@const 4)", "(fn@flip (-) 2)", "(list@take 1)", "len", "(fn@map (x -> x + 1))", "(fn@filter (x -> x - 1))", "(fn@reduce (a -> b -> a - b) 10)"];
        let mut v = vec![];
        for a in u {
            for b in u {
                v.push(format!("(fn@compose {a} {b})"));
            }
        }
        v
    };
    let more = vals.clone();
    let sorts: Vec<E> = values(&["a -> b -> a - b", "a -> b -> [a, b]", "(+)", "(-)", "a -> b -> b", "x -> x", "3", "a -> acc -> acc", "(*)"]);
    let hof = names("fn", "map filter");
    Check {
        id: "C12",
        rule: "the functions over functions (map, filter, reduce, apply, curry, compose, flip, const, id, the conditional, and every curried function of the library) applied to every combination of functions, lists and values from pools, with and without variables named like their parameters in scope, give the reference model's value or error; currying makes argument-at-a-time and all-at-once calls agree".into(),
        bounds: format!("{} functions, {} lists, {} values; curried functions of 0-4 parameters called with 1-4 arguments; functions of up to 9 parameters given them in every way; lists of up to 1000", funs.len(), lists.len(), vals.len()),
        assumptions: vec!["items that are code are not passed to functions".into(), "calls of map, filter and reduce with fewer arguments are compared through what the resulting function does".into()],
        spaces: vec![
            mk("map filter", hof.clone(), vec![funs.clone(), lists.clone()]).space(),
            clashing("map filter with clashes", hof.clone(), vec![funs.clone(), lists.clone()]).space(),
            mk("apply", names("fn", "apply"), vec![funs.clone(), lists.clone()]).space(),
            clashing("apply with clashes", names("fn", "apply"), vec![funs.clone(), lists.clone()]).space(),
            mk("reduce", names("", "fn@reduce"), vec![[sorts.clone(), funs.clone()].concat(), vals.clone(), lists.clone()]).space(),
            splits(&env, if q { 9 } else { 11 }),
            {
                let mut v: Vec<(&'static str, Vec<E>)> = vec![];
                for &n in SIZES {
                    let l = List((0..n as i64).map(|k| Int(k * 7 % 101)).collect());
                    for f in ["x -> x + 1", "x -> x % 2", "x -> [x]", "x -> if x > 50 {x} else {None}", "x ~> x * 2"] {
                        v.push(("fn@map", vec![source(f), l.clone()]));
                        v.push(("fn@filter", vec![source(f), l.clone()]));
                        v.push(("(f -> l -> fn@map f l)", vec![source(f), l.clone()]));
                    }
                    for f in ["a -> b -> a - b", "a -> b -> b - a", "a -> b -> [b]", "(+)"] {
                        v.push(("fn@reduce", vec![source(f), Int(3), l.clone()]));
                    }
                    v.push(("fn@apply", vec![source("list@list"), l.clone()]));
                    v.push(("fn@apply", vec![source("(+)"), l.clone()]));
                }
                listed("long lists", env.clone(), v)
            },
            mk("conditional", names("fn", "?"), vec![vals.clone(), more.clone(), more.clone()]).space(),
            mk("curry", names("fn", "curry"), vec![funs.clone(), counts]).space(),
            mk("curried one", curried.clone(), same(&vals, 1)).space(),
            clashing("curried two", curried.clone(), same(&vals, 2)).space(),
            clashing("curried three", curried.clone(), same(&some, 3)).space(),
            mk("curried four", curried.clone(), same(&some, 4)).space(),
            mk("library one", names("", "fn@id fn@const fn@flip fn@compose (*) (//) (%) math@max math@min list@take list@drop math@l-rsh math@a-rsh math@rsh math@log"), vec![[vals.clone(), funs.clone()].concat()]).space(),
            clashing("library two", names("", "fn@const fn@flip fn@compose (*) (//) (%) math@max math@min list@take list@drop math@l-rsh math@a-rsh math@rsh math@log"), same(&[vals.clone(), funs.clone()].concat(), 2)).space(),
            clashing("library three", names("", "fn@const fn@flip fn@compose (*) (//) (%) math@max math@min list@take list@drop"), same(&[more.clone(), funs[..12].to_vec()].concat(), 3)).space(),
            mk("composed", composed, vec![[vals, lists].concat()]).space(),
            mk("effects", names("fn", "map filter apply ? curry"), same(&more, 2)).effects(false),
            mk("effects of three", names("fn", "? reduce"), same(&more, 3)).effects(false),
        ],
    }
}

// ---------------------------------------------------------------------------------- math

pub fn math(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let env = vec!["math", "println", "<", ">"];
    let unary = names("math", "fact abs floor ceil round trunc sinh cosh tanh asinh acosh atanh sinpi cospi tanpi isodd iseven ln log2 log10 sqrt cbrt sin cos tan asin acos atan sum product");
    let binary = names("math", "lsh l-rsh a-rsh rsh pow log max min sum product");
    let mut ints: Vec<i64> = (-12..=70).collect();
    ints.extend([100, 127, 128, 255, 256, 1000, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, 3037000499, 3037000500, (1 << 53) + 1, 1 << 62, -(1 << 62), i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, -64, -63]);
    let ints: Vec<E> = ints.into_iter().map(Int).collect();
    let mut flts: Vec<f64> = vec![0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.0, -2.0, 2.5, 3.0, -3.0, 0.1, 1e-9, 1e9, 10.0, 100.0, 1000.0, 8.0, 27.0, 64.0, 0.25, -0.25, 1e300, -1e300, 1e-300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, std::f64::consts::PI, std::f64::consts::E, 4.0, 5.0, 6.0, 7.0, 12.0, 20.0];
    flts.extend([0.49999999999999994, 4503599627370497.5, 2.4999]);
    let flts: Vec<E> = flts.into_iter().map(Flt).collect();
    let other = values(&["None", "\"1\"", "[]", "[1, 2]", "[1, 2.5, 3]", "[1.5, 2.5]", "[[1]]", "[\"a\"]", "True", "'a", "{a = 1}", "x -> x"]);
    let other = [other, vec![List(vec![Int(i64::MAX), Int(1)]), List(vec![Int(i64::MIN), Int(-1)]), List(vec![Int(1 << 40), Int(1 << 30)])]].concat();
    let all = [ints.clone(), flts, other].concat();
    let three: Vec<E> = all.iter().step_by(if q { 4 } else { 2 }).cloned().collect();
    let mk = |label: &str, names: Vec<String>, pools: Vec<Vec<E>>| Calls { label: label.into(), env: env.clone(), setup: "", names, pools };
    Check {
        id: "C13",
        rule: "every math function on every number of the pool (all small integers, powers of two and both ends of the integer range, fractions, huge, tiny and non-finite floats; for functions of two arguments, every pair) gives the mathematical result: exact for integers or an error when it does not fit, to within rounding for floats".into(),
        bounds: format!("{} values, all pairs of them; triples of {}; 5 to 300 numbers alike but one", all.len(), three.len()),
        assumptions: vec![ASSUME.into(), "the elementary functions of the Rust standard library are trusted".into(), "factorials and parities of fractions are left open".into()],
        spaces: vec![
            mk("none", [unary.clone(), binary.clone()].concat(), vec![]).space(),
            mk("one", [unary.clone(), binary.clone()].concat(), same(&all, 1)).space(),
            mk("two", [binary.clone(), unary.clone()].concat(), same(&all, 2)).space(),
            mk("three", names("math", "sum product lsh pow max min abs sqrt"), same(&three, 3)).space(),
            many(
                "many numbers",
                env.clone(),
                names("math", "sum product max min"),
                vec![(Int(1), Int(5)), (Flt(0.5), Int(2)), (Int(-3), Int(i64::MAX)), (Int(2), Flt(-0.5)), (Int(1), List(vec![Int(3), Int(4)])), (List(vec![Int(1), Int(2)]), Int(9)), (Int(1), None)],
            ),
            // and in lists
            {
                let mut v = vec![];
                for n in (5..40usize).chain([64, 65, 100, 256, 300]) {
                    for (x, y) in [(Int(1), Int(5)), (Flt(0.5), Int(2)), (Int(2), Flt(-0.5)), (Int(-3), Int(i64::MAX)), (Int(1), List(vec![Int(3), Int(4)])), (Int(1), E::str("a"))] {
                        for odd in [0, 1, n / 2, n - 1] {
                            v.push(List((0..n).map(|k| if k == odd { y.clone() } else { x.clone() }).collect()));
                        }
                    }
                }
                mk("long lists", names("math", "sum product max min"), vec![v]).space()
            },
            mk("effects", [binary, unary].concat(), same(&three, 2)).effects(false),
        ],
    }
}
