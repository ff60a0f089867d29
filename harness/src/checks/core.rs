//! C05: every program means what the language defines. C06: variables and scopes.
use super::diff::*;
use crate::engine::*;
use crate::gram::Gram;
use crate::spec::builtins::source;
use crate::spec::expr::E::{self, *};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

fn b(e: E) -> Box<E> {
    Box::new(e)
}

fn grammar() -> Gram {
    let s = E::sym;
    Gram::new(vec![s("x"), Int(1), s("f"), s("y"), s("m"), None, E::str("s"), s("l"), List(vec![]), Int(0), s("+")])
        .node(2, |v| E::apply(v[0].clone(), vec![v[1].clone()]))
        .node(1, |v| Quote(b(v[0].clone())))
        .node(1, |v| Assign("x".into(), b(v[0].clone())))
        .node(1, |v| Lam("x".into(), b(v[0].clone()), BTreeMap::new()))
        .node(1, |v| Lam("y".into(), b(v[0].clone()), BTreeMap::new()))
        .node(1, |v| Mac("y".into(), b(v[0].clone())))
        .node(1, |v| Group(b(v[0].clone())))
        .node(2, |v| Do(v))
        .node(2, |v| For("x".into(), b(v[0].clone()), b(v[1].clone())))
        .node(3, |v| E::apply(v[0].clone(), v[1..].to_vec()))
        .node(3, |v| If(b(v[0].clone()), b(v[1].clone()), b(v[2].clone())))
        .node(1, |v| List(v))
        .node(1, |v| Map([("k".to_string(), v[0].clone())].into()))
        .node(2, |v| List(v))
        .node(2, |v| E::call("+", v))
        .node(1, |v| E::call("eval", v))
        .node(1, |v| E::call("exec", v))
        .node(1, |v| E::call("println", v))
        .node(1, |v| Do(v))
        .node(1, |v| E::call("err@try-none", v))
}

/// Functions, macros, calls, definitions and sequences only: larger programs.
fn functions() -> Gram {
    let s = E::sym;
    Gram::new(vec![s("x"), s("y"), Int(1)])
        .node(2, |v| E::apply(v[0].clone(), vec![v[1].clone()]))
        .node(1, |v| Lam("x".into(), b(v[0].clone()), BTreeMap::new()))
        .node(1, |v| Lam("y".into(), b(v[0].clone()), BTreeMap::new()))
        .node(1, |v| Mac("x".into(), b(v[0].clone())))
        .node(1, |v| Assign("y".into(), b(v[0].clone())))
        .node(3, |v| E::apply(v[0].clone(), v[1..].to_vec()))
        .node(2, Do)
}

const STARTS: [&str; 3] = [
    "",
    "let x = 7; let y = [1, 2]; let l = [3, 4]; let f = a -> x; let m = y ~> x; None",
    "let x = 'y; let f = a -> c -> [a, c]; let m = x ~> f x; let y = '(println x); let l = [f, [5]]; None",
];

/// Programs with a place for another.
const PLACES: &[&str] = &[
    "for x in [1, 2] {X}", "for x in (X) {x}", "for z in l {X}", "(for x in [5, 6] {X}) @ 1", "(x -> X) 3", "(x ~> X) 3", "(z -> X) (X)", "f (X)", "m (X)", "(X) 1", "(X) 1 2", "if (X) {1} else {2}", "if True {X}", "if False {1} else {X}", "if 0 {X} else if 1 {X} else {y}",
    "let x = X", "{let y = X; y}", "{let x = 5; X}", "{X; x}", "{X; X}", "[X, x]", "[x, X]", "{a = X}", "(X) + 1", "1 + (X)", "println (X)", "eval (X)", "eval '(X)", "exec '(X)", "exec (X)", "'(X)", "err@try (X) (e -> 7)", "err@try (X) (e ~> let x = 8)", "err@try (1 + None) (e -> X)",
    "(a -> b -> X) 1 2", "(a ~> b ~> X) 1 2", "(x -> y -> X) 1 2", "(x ~> y -> X) 1 2", "x -> X", "x ~> X", "y -> X", "(a -> b -> [a, b]) (X) 2", "(a -> b -> [a, b]) 2 (X)", "[X] @ 0", "{a = X} @ a", "{let f = x -> X; f 1}", "{let k = x ~> X; k 1}", "{let g = X; g 1}", "{let g = X; g 1 2}",
    "to 0 (X)", "(X) == x", "!(X)", "(X) && (println x)", "0 || (X)", "({let x = 9; y -> X}) 4",
];
const LEAVES: &[&str] = &["x", "let x = 2", "f 1", "1", "y", "[1, 2]", "let y = x", "f", "m", "a -> x + a", "println x", "1 + []", "'x", "None", "m 1", "x + 1"];

pub fn core(tier: Tier) -> Check {
    let n = if tier == Tier::Quick { 5 } else { 6 };
    let deep = if tier == Tier::Quick { 7 } else { 8 };
    let g = Rc::new(grammar().done(n));
    let functions = Rc::new(functions().done(deep));
    let pairs: Rc<RefCell<Vec<Pair>>> = Rc::new(RefCell::new(vec![]));
    let mut spaces = vec![];
    for (k, label) in [(0, "start"), (1, "start"), (2, "start"), (0, "functions"), (2, "functions")] {
        let g = if label == "start" { &g } else { &functions };
        let (g, g2, pairs, p2) = (g.clone(), g.clone(), pairs.clone(), pairs.clone());
        let fix = |e: E| -> E {
            // the last production of the grammar stands for catching an error
            fn go(e: E) -> E {
                let f = |x: Box<E>| Box::new(go(*x));
                let l = |v: Vec<E>| v.into_iter().map(go).collect::<Vec<_>>();
                match e {
                    Apply(h, a) if matches!(&*h, Sym(s) if s == "err@try-none") => {
                        E::apply(source("err@try"), vec![go(a[0].clone()), source("e -> e")])
                    }
                    Apply(h, a) => Apply(f(h), l(a)),
                    List(v) => List(l(v)),
                    Do(v) => Do(l(v)),
                    Map(m) => Map(m.into_iter().map(|(k, v)| (k, go(v))).collect()),
                    Group(x) => Group(f(x)),
                    Quote(x) => Quote(f(x)),
                    Assign(n, x) => Assign(n, f(x)),
                    Lam(n, x, c) => Lam(n, f(x), c),
                    Mac(n, x) => Mac(n, f(x)),
                    For(n, x, y) => For(n, f(x), f(y)),
                    If(x, y, z) => If(f(x), f(y), f(z)),
                    e => e,
                }
            }
            go(e)
        };
        spaces.push(
            Space::new(
                &format!("{label} {k}"),
                g.total(),
                move |i| fix(g2.get(i)).debug(),
                move |i, rec| {
                    let e = fix(g.get(i));
                    let mut p = pairs.borrow()[k].clone();
                    if step(&mut p, &e, rec, "evaluation", true) == Same::Yes {
                        rec.trace();
                        if same_env(&p, rec, "variables", &|| e.debug()) && i % 9973 == 0 {
                            rec.sample(|| e.debug());
                        }
                    }
                },
            )
            .init(move |scratch| {
                prepare(scratch);
                *p2.borrow_mut() = STARTS
                    .iter()
                    .map(|s| Pair::new(&["+", "eval", "exec", "println", "err", "@"]).with(s))
                    .collect();
            })
            .timeout(20.0),
        );
    }
    // every construct in every place of every construct
    let (n_places, n_leaves) = (PLACES.len() as u64, LEAVES.len() as u64);
    let nest = if tier == Tier::Quick { 2 } else { 4 };
    for k in [1usize, 2, 3] {
        // ... and, deepest, around a few of the expressions only
        let (lo, hi, leaves) = if k == 3 { (nest + 1, nest + 1, 3) } else { (1, nest, n_leaves) };
        if k == 3 && tier != Tier::Quick {
            continue;
        }
        let make = move |i: u64| {
            let leaf = LEAVES[(i % leaves) as usize];
            word(i / leaves, n_places, lo, hi).iter().rev().fold(leaf.to_string(), |t, p| PLACES[*p].replace('X', &t))
        };
        let (pairs, p2) = (pairs.clone(), pairs.clone());
        spaces.push(
            Space::new(&format!("nested {k}"), leaves * words(n_places, lo, hi), make, move |i, rec| {
                let e = source(&make(i));
                let mut p = pairs.borrow()[k.min(2)].clone();
                if step(&mut p, &e, rec, "evaluation", true) == Same::Yes {
                    rec.trace();
                    same_env(&p, rec, "variables", &|| e.debug());
                }
            })
            .init(move |scratch| {
                prepare(scratch);
                *p2.borrow_mut() = STARTS.iter().map(|s| Pair::new(&["+", "eval", "exec", "println", "err", "@", "to", "==", "!", "&&", "||"]).with(s)).collect();
            })
            .timeout(20.0),
        );
    }
    Check {
        id: "C05",
        rule: "every program of the grammar (variables, constants, quoting, grouping, lists, tables, definitions, functions and macros of one parameter, calls with one and two arguments, conditionals, loops, sequences, addition, printing, eval, exec, catching errors) up to the stated number of nodes, from three starting environments, is run by the reference evaluator and by the implementation: value or kind of error, output, and all variables afterwards must be the same".into(),
        bounds: format!("up to {n} syntax nodes from 3 starting environments; {n_places} constructs nested up to {nest} deep (one more around three of the expressions) around {n_leaves} expressions; up to {deep} nodes of functions, calls, definitions and sequences from 2"),
        assumptions: vec![
            "no external program is found in these runs".into(),
            "captured variables of functions are compared through what calling the functions does".into(),
            "programs whose meaning the model leaves open are run by the model only and counted in the notes".into(),
        ],
        spaces,
    }
}

fn statements() -> Vec<E> {
    [
        "let x = 1",
        "let f = y -> x + y",
        "f 1",
        "x",
        "let x = x + 1",
        "let m = y ~> let x = y",
        "m 2",
        "for x in [7, 8] {x}",
        "unbind x",
        "eval '(let x = 9)",
        "exec '(let x = 9)",
        "let g = (x -> y -> x * y) 3",
        "g 4",
        "let h = y -> { let x = y; let z = y; f y }",
        "h 5",
        "err@try (x + []) (e -> let x = 6)",
        "sys@set x (2 + 3)",
        "sys@defined? x",
        "fn@map f [1]",
        "fn@map m [1, 2]",
        "(x -> let x = 2) 1",
        "let f = y -> { let f = 1; x }",
        "let m = x ~> m2 x; let m2 = y ~> let z = y",
        "let g = x -> f x",
        "let x = [x]",
        "sys@unset f",
        "let k = (a -> (b -> (c -> a + b + x)))",
        "k 1 2 3",
        "let f = g",
        "let g = {let x = 3; y -> x}",
        "let n = x ~> { let y = x + 1; z ~> let w = y }",
        "n 1",
        "n 1 2",
        "(x ~> y ~> let z = x + y) 3 4",
        "(x ~> y -> let x = y) 5 6",
        "(y -> x ~> let z = x + y) 7 8",
        "fn@apply n [1, 2]",
        "(x ~> {let x = x + 1; x}) 1",
        "y",
        "let n = x ~> y ~> z -> x + y + z",
        "n 1 2 3",
    ]
    .iter()
    .map(|s| source(s))
    .collect()
}

/// Values to give to every function.
const GIVEN: &[&str] = &["1", "0", "2", "\"abc\"", "\"b\"", "[1, 2]", "{a = 1}", "y -> y", "y -> z -> y", "True", "1.5", "[[1, 2], [3, 4]]", "'(x + 1)", "None", "m2", "p ~> q ~> {let s2 = s2 + 1; q}", "r ~> {let s1 = s1 + 1; True}"];
const MACROS: &str = "let s0 = 0; let s1 = 0; let s2 = 0; let x = 5;
    let m0 = q ~> {let s0 = s0 + 1; q}; let m1 = q ~> {let s1 = s1 + 1; q}; let m2 = q ~> {let s2 = s2 + 1; q}; None";

/// Every function the model describes, with every tuple of values, where each of the arguments
/// in turn comes from a macro that leaves a mark.
fn marks(q: bool) -> Space {
    let pair: Rc<RefCell<Option<Pair>>> = Rc::new(RefCell::new(Option::None));
    let p2 = pair.clone();
    let names: Vec<&'static str> = vec![
        "+", "-", "*", "//", "%", "&&", "||", "!", "==", "!=", "<", ">=", "@", "str", "int", "len", "insert", "keys", "vals", "lines", "exec", "to",
    ];
    let mut heads: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    let initial = crate::spec::builtins::initial();
    let modules = ["list", "dict", "fn", "string", "math", "sys", "err"];
    for m in modules {
        if let Map(t) = &initial[m] {
            heads.extend(t.iter().filter(|(_, v)| !matches!(v, Flt(_) | Map(_))).map(|(k, _)| format!("{m}@{k}")))
        }
    }
    let mut all = names.clone();
    all.extend(modules);
    let n = GIVEN.len();
    let thin = if q { 3 } else { 1 };
    let mut v: Vec<(usize, Vec<usize>, usize)> = vec![];
    for h in 0..heads.len() {
        for a in 0..n {
            v.push((h, vec![a], 0));
            for b in 0..n {
                v.extend((0..2).map(|w| (h, vec![a, b], w)));
                // most functions refuse three
                for c in (0..n).step_by(thin) {
                    v.extend((0..3).map(|w| (h, vec![a, b, c], w)))
                }
            }
        }
    }
    let given: Vec<E> = GIVEN.iter().map(|s| source(s)).collect();
    let make = move |(h, args, w): &(usize, Vec<usize>, usize)| {
        let args = args.iter().enumerate().map(|(i, a)| match i == *w {
            true => E::call(&format!("m{i}"), vec![given[*a].clone()]),
            false => given[*a].clone(),
        });
        E::apply(E::sym(&heads[*h]), args.collect())
    };
    Space::list("macros in arguments", v, move |case, rec| {
        let e = make(case);
        let mut p = pair.borrow().as_ref().unwrap().clone();
        let Ok(value) = crate::spec::eval::M::new().eval(&e, &mut p.model.clone()) else {
            rec.note("calls that fail");
            return;
        };
        // how a function that comes out is written is left open
        let e = if matches!(value, Lam(..)) { Do(vec![e, None]) } else { e };
        if step(&mut p, &e, rec, "value", true) == Same::Yes {
            rec.trace();
            same_env(&p, rec, "variables", &|| e.debug());
        }
    })
    .init(move |scratch| {
        prepare(scratch);
        let mut p = Pair::new(&all).with(MACROS);
        let mut access = (*p.access).clone();
        // the members of the modules under names of their own, instead of the modules
        for m in modules {
            let Some(Map(t)) = p.model.remove(m) else { unreachable!() };
            for (k, v) in t {
                let x = E::call("@", vec![E::sym(m), E::sym(&k)]).to_impl().eval(&mut access).unwrap();
                p.model.insert(format!("{m}@{k}"), v);
                p.real.define(&format!("{m}@{k}"), x);
            }
            p.real.undefine(m);
        }
        *p2.borrow_mut() = Some(p);
    })
}

/// Calls of the rest of the library; each argument is evaluated where the call stands, once.
const REST: &[(&str, &[&str])] = &[
    ("console@title", &["\"t\""]), ("console@write", &["1", "1", "\"a\""]), ("console@cursor@move-to", &["1", "2"]), ("console@cursor@move-up", &["1"]),
    ("console@cursor@move-down", &["1"]), ("console@cursor@move-left", &["1"]), ("console@cursor@move-right", &["1"]),
    ("fmt@href", &["\"u\"", "\"t\""]), ("fmt@wrap", &["\"a b\"", "5"]), ("fmt@strip", &["\"a\""]),
    ("fmt@bold", &["\"t\""]), ("fmt@faint", &["\"t\""]), ("fmt@italics", &["\"t\""]), ("fmt@underline", &["\"t\""]), ("fmt@blink", &["\"t\""]), ("fmt@invert", &["\"t\""]), ("fmt@strike", &["\"t\""]),
    ("fmt@black", &["\"t\""]), ("fmt@red", &["\"t\""]), ("fmt@green", &["\"t\""]), ("fmt@yellow", &["\"t\""]), ("fmt@blue", &["\"t\""]), ("fmt@magenta", &["\"t\""]), ("fmt@cyan", &["\"t\""]), ("fmt@white", &["\"t\""]),
    ("fmt@dark@black", &["\"t\""]), ("fmt@dark@red", &["\"t\""]), ("fmt@dark@green", &["\"t\""]), ("fmt@dark@yellow", &["\"t\""]), ("fmt@dark@blue", &["\"t\""]), ("fmt@dark@magenta", &["\"t\""]), ("fmt@dark@cyan", &["\"t\""]), ("fmt@dark@white", &["\"t\""]),
    ("log@set-level", &["5"]), ("log@enabled?", &["3"]), ("log@error", &["\"a\"", "2"]), ("log@warn", &["\"a\"", "2"]), ("log@info", &["\"a\"", "2"]), ("log@debug", &["\"a\"", "2"]), ("log@trace", &["\"a\"", "2"]), ("log@echo", &["\"a\"", "2"]),
    ("widget@create", &["\"a\"", "\"b\"", "9", "3"]), ("widget@joinx", &["\"a\"", "\"b\"", "\"c\""]), ("widget@joiny", &["\"a\"", "\"b\"", "\"c\""]),
    ("rand@int", &["1", "9"]), ("rand@choose", &["[1, 2]"]), ("rand@shuffle", &["[1, 2]"]),
    ("time@sleep", &["0"]), ("time@sleep", &["0.5"]),
    ("parse@json", &["\"[1]\""]), ("parse@toml", &["\"a = 1\""]), ("parse@expr", &["\"1\""]),
    ("fs@tree", &["\"d\""]), ("fs@glob", &["\"*\""]), ("sys@include", &["\"i\""]), ("sys@import", &["\"i\""]), (">>", &["\"x\"", "\"w\""]), ("<<", &["\"f\""]),
    ("print", &["1", "2", "3"]), ("println", &["1", "2", "3"]), ("echo", &["1", "2", "3"]), ("debug", &["1", "2"]), ("report", &["1"]),
    ("os@cd", &["\"/\""]), ("cd", &["\"/\""]), ("sys@cd", &["\"/\""]),
    ("fs@exists?", &["\"f\""]), ("fs@read", &["\"f\""]), ("fs@write", &["\"w\"", "\"x\""]), ("fs@append", &["\"f\"", "\"x\""]), ("fs@head", &["\"f\"", "1"]), ("fs@tail", &["\"f\"", "1"]),
    ("fs@is-dir?", &["\"f\""]), ("fs@is-file?", &["\"f\""]), ("fs@canon", &["\"f\""]), ("fs@ls", &["\".\""]), ("fs@mkdir", &["\"n\""]), ("fs@rmdir", &["\"d\""]), ("fs@rm", &["\"f\""]), ("fs@cp", &["\"f\"", "\"g\""]), ("fs@mv", &["\"f\"", "\"h\""]),
];

fn marks_elsewhere() -> Space {
    let v: Vec<(usize, usize)> = (0..REST.len()).flat_map(|c| (0..REST[c].1.len()).map(move |a| (c, a))).collect();
    let base: Rc<RefCell<Option<(std::path::PathBuf, dune::Environment)>>> = Rc::new(RefCell::new(Option::None));
    let b2 = base.clone();
    let make = |&(c, w): &(usize, usize)| {
        let (f, args) = REST[c];
        format!("{f} {}", args.iter().enumerate().map(|(i, a)| if i == w { format!("(mark ({a}))") } else { format!("({a})") }).collect::<Vec<_>>().join(" "))
    };
    let known: Rc<RefCell<std::collections::BTreeSet<String>>> = Default::default();
    let k2 = known.clone();
    Space::list("macros in arguments elsewhere", v, move |case, rec| {
        if !known.borrow().contains(REST[case.0].0) {
            rec.note(&format!("no function of this name: {}", REST[case.0].0));
            return;
        }
        let (dir, env) = base.borrow().clone().unwrap();
        super::util::empty_dir(&dir);
        std::fs::write(dir.join("f"), "1\n2\n").unwrap();
        std::fs::create_dir(dir.join("d")).unwrap();
        std::fs::write(dir.join("i"), "1").unwrap();
        let text = make(case);
        let run = |text: &str| {
            let mut env = env.clone();
            let (r, _, _) = capture(|| guard(|| super::util::src(text).eval(&mut env)));
            let _ = std::env::set_current_dir(&dir);
            (r, env)
        };
        let (r, env) = run(&text);
        rec.step();
        rec.trace();
        rec.state(&case.0);
        match r {
            Err(p) => rec.fail("panic", format!("{text} {p}")),
            Ok(Err(e)) => rec.fail("call", format!("{text} fails: {e}")),
            Ok(Ok(_)) => match env.get("marks") {
                Some(dune::Expression::Integer(1)) => {}
                other => rec.fail("mark", format!("{text}: its argument counts to one, but then marks is {other:?}")),
            },
        }
    })
    .init(move |scratch| {
        prepare(scratch);
        let dir = scratch.join("work");
        std::fs::create_dir_all(&dir).unwrap();
        std::env::set_current_dir(&dir).unwrap();
        let mut env = super::util::full_env(dir.to_str().unwrap());
        *k2.borrow_mut() = super::util::builtins(&env).into_iter().map(|b| b.0).collect();
        super::util::src("{let marks = 0; let mark = q ~> {let marks = marks + 1; q}; log@set-level 5}").eval(&mut env).unwrap();
        *b2.borrow_mut() = Some((dir, env));
    })
}

pub fn scoping(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let all = statements();
    let chosen: Vec<E> = all[..if q { 22 } else { 24 }].to_vec();
    let mk = |name: &str, st: Vec<E>, depth: u32| {
        let k = st.len() as u64;
        let st = Rc::new(st);
        let pair: Rc<RefCell<Option<Pair>>> = Rc::new(RefCell::new(Option::None));
        let p2 = pair.clone();
        let (s1, s2) = (st.clone(), st.clone());
        let show = move |w: &[usize]| w.iter().map(|&i| s1[i].debug()).collect::<Vec<_>>().join(" ; ");
        let show2 = show.clone();
        Space::new(
            name,
            words(k, depth, depth),
            move |i| show(&word(i, k, depth, depth)),
            move |i, rec| {
                let w = word(i, k, depth, depth);
                let mut p = pair.borrow().as_ref().unwrap().clone();
                for (j, &s) in w.iter().enumerate() {
                    if step(&mut p, &s2[s], rec, "statement", false) != Same::Yes {
                        return;
                    }
                    if !same_env(&p, rec, "variables", &|| show2(&w[..=j])) {
                        return;
                    }
                    let small: Vec<_> = p.model.iter().filter(|(n, _)| n.len() <= 2 && n.chars().all(char::is_alphanumeric)).map(|(n, v)| (n, v.debug())).collect();
                    rec.state(&format!("{small:?}"));
                }
                rec.trace();
                if i % 7919 == 0 {
                    rec.sample(|| show2(&w));
                }
            },
        )
        .init(move |scratch| {
            prepare(scratch);
            *p2.borrow_mut() = Some(Pair::new(&["+", "*", "eval", "exec", "unbind", "err", "@", "sys", "fn"]));
        })
    };
    let (k, chosen_len) = (all.len(), chosen.len());
    let (d1, d2) = if q { (3, 4) } else { (4, 5) };
    let spaces = vec![mk("histories of all", all, d1), mk("longer histories", chosen, d2), marks(q), marks_elsewhere()];
    Check {
        id: "C06",
        rule: "every history of the stated length over statements that define, redefine, shadow, capture, remove and read variables (definitions, functions, macros, loops, eval, exec, handlers, closures over closures): after every statement its value or error and the complete environment must be those of the reference evaluator; and every function of the library is called with every tuple of up to three values, one of them through a macro that leaves a mark in the caller's variables".into(),
        bounds: format!("all histories of {d1} statements out of {k}, and of {d2} statements out of {chosen_len}; 17 values, three of them macros, for the arguments of the modelled functions, one call each of the others"),
        assumptions: vec!["captured variables are observed by calling the functions".into()],
        spaces,
    }
}
