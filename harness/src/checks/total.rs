//! builtins-total: no builtin function brings the interpreter down, whatever it is given.
use super::util::*;
use crate::engine::*;
use dune::{Environment, Expression as X};
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;

struct W {
    env: Option<Environment>,
    dir: PathBuf,
}

/// (name, value as an already evaluated expression or a quoted one)
fn pool() -> Vec<(&'static str, X)> {
    let texts = [
        "None", "True", "0", "1", "-1", "3", "9223372036854775807", "'(0 - 9223372036854775807 - 1)", "1.5", "-0.5",
        "'(1.0 // 0.0)", "'(0.0 // 0.0)", "'(-1.0 // 0.0)", "\"\"", "\"a\"", "\"é日x\"", "\"a b\\n\\nc\\n\"", "\"7\"", "\"0\"", "\"{a = 1}\"", "\"[\"", "[]", "[1, 2, 3]", "[\"a\", \"b\"]",
        "[[1, 2], [3]]", "[None]", "[0]", "{}", "{a = 1}", "{ab = {b = 2}, c = [1]}", "'a", "'(1 + \"\")", "x -> x", "x -> y -> x", "x -> \"é\"", "x -> 1 + None", "x ~> x", "+", "(len)", "\"sub/f\"", "100000",
    ];
    texts
        .into_iter()
        .map(|t| {
            let x = match src(t) {
                X::Quote(q) if t.starts_with("'(") => *q,
                x => x,
            };
            (t, x)
        })
        .collect()
}

const BYTES: &str = "(bytes)";

/// Not called: they end the process by design, wait for a key, or wait as long as they are told to.
fn skip(name: &str) -> bool {
    matches!(name, "exit" | "quit" | "os@exit" | "input") || name.starts_with("console@keyboard") || name.starts_with("console@mode")
}

pub fn space(q: bool) -> Vec<Space> {
    let mut env = full_env("/");
    let names: Vec<String> = builtins(&env).into_iter().map(|b| b.0).filter(|n| !skip(n)).collect();
    env.bindings.clear();
    let names = Rc::new(names);
    let mut p = pool();
    p.push((BYTES, X::Bytes(vec![0, 255, 65])));
    let pool = Rc::new(p);
    let n = pool.len() as u64;
    let w: Rc<RefCell<W>> = Rc::new(RefCell::new(W { env: None, dir: PathBuf::new() }));

    let call = {
        let w = w.clone();
        move |name: &str, args: Vec<(&'static str, X)>, rec: &mut Rec| {
            let mut w = w.borrow_mut();
            let env = w.env.as_mut().unwrap();
            // a range or list of a hundred thousand, repeated, is not a crash but only slow
            if args.iter().filter(|a| a.0 == "100000").count() > 1 && !name.contains("math") {
                return;
            }
            let f = src(name);
            let fs = name.starts_with("fs@") || name.contains("cd") || name.contains("include") || name.contains("import") || [">>", ">>>", "<<"].contains(&name);
            if fs {
                empty_dir(&w.dir);
                let _ = std::fs::create_dir(w.dir.join("sub"));
                let _ = std::fs::write(w.dir.join("sub/f"), "l1\nl2\n");
                let _ = std::fs::write(w.dir.join("a"), "x");
                let _ = std::fs::write(w.dir.join("b"), [255, 254]);
                let _ = std::env::set_current_dir(&w.dir);
            }
            let mut e2 = w.env.as_ref().unwrap().clone();
            let expr = X::Apply(Box::new(f), args.iter().map(|a| a.1.clone()).collect());
            rec.step();
            if name == "time@sleep" {
                // on a clock that does not wait
                crate::clock::install(0, 0, 0)
            }
            let r = guard(|| {
                let r = expr.eval(&mut e2);
                // what a shell does with the outcome
                match &r {
                    Ok(v) => {
                        let _ = (format!("{v:?}"), format!("{v}"));
                        format!("ok {}", kind(v))
                    }
                    Err(e) => {
                        let _ = (e.to_string(), e.code());
                        "error".to_string()
                    }
                }
            });
            crate::clock::remove();
            match r {
                Err(p) => rec.fail("panic", p),
                Ok(s) => {
                    rec.note(if s == "error" { "errors" } else { "values" });
                    if rec.state(&(name.to_string(), s.clone())) {
                        rec.sample(|| format!("{name} {:?} -> {s}", args.iter().map(|a| a.0).collect::<Vec<_>>()));
                    }
                }
            }
            if fs {
                let _ = std::env::set_current_dir(&w.dir);
            }
        }
    };
    let init = {
        let w = w.clone();
        move |scratch: &std::path::Path| {
            unprivileged(scratch);
            bare_process_env();
            limit_memory(8 << 30);
            std::env::set_current_dir(scratch).unwrap();
            vshim::install_lines(Some(Box::new(|_| "typed".into())));
            let mut w = w.borrow_mut();
            w.dir = scratch.into();
            w.env = Some(full_env(scratch.to_str().unwrap()));
        }
    };

    let mk = |label: &str, arity: u32, pick: Vec<usize>| {
        let (names, pool, call, init) = (names.clone(), pool.clone(), call.clone(), init.clone());
        let k = pick.len() as u64;
        let per = k.pow(arity);
        let decode = {
            let (names, pool, pick) = (names.clone(), pool.clone(), pick.clone());
            move |i: u64| -> (String, Vec<(&'static str, X)>) {
                let name = names[(i / per) as usize].clone();
                let args = digits(i % per, &vec![k; arity as usize]).into_iter().map(|d| pool[pick[d]].clone()).collect();
                (name, args)
            }
        };
        let d2 = decode.clone();
        Space::new(
            label,
            names.len() as u64 * per,
            move |i| {
                let (n, a) = d2(i);
                format!("{} {}", n, a.iter().map(|x| x.0).collect::<Vec<_>>().join(" ; "))
            },
            move |i, rec| {
                let (n, a) = decode(i);
                call(&n, a, rec)
            },
        )
        .init(init)
        .timeout(20.0)
        .budget(700.0)
    };
    let all: Vec<usize> = (0..n as usize).collect();
    let named = |v: &[&str]| -> Vec<usize> { v.iter().map(|t| pool.iter().position(|p| p.0 == *t).unwrap_or_else(|| panic!("{t}"))).collect() };
    let two = if q {
        all.iter().copied().filter(|&i| !matches!(pool[i].0, "1" | "1.5" | "True" | "\"7\"" | "[\"a\", \"b\"]" | "[0]" | "{}" | "x -> \"é\"" | "\"0\"" | "\"a\"" | "x -> y -> x" | "x ~> x" | "(len)" | "{ab = {b = 2}, c = [1]}")).collect()
    } else {
        all.clone()
    };
    let three = if q {
        named(&["None", "0", "-1", "3", "9223372036854775807", "\"\"", "\"é日x\"", "[]", "[1, 2, 3]", "{a = 1}", "x -> x", "'a"])
    } else {
        all.iter().copied().filter(|&i| !matches!(pool[i].0, "1" | "\"7\"" | "[\"a\", \"b\"]" | "100000" | "\"sub/f\"" | "x -> \"é\"" | "[None]" | "\"0\"")).collect()
    };
    let four = if q { named(&["0", "-1", "\"é日x\"", "[1, 2, 3]"]) } else { named(&["None", "0", "-1", "9223372036854775807", "1.5", "\"\"", "\"é日x\"", "[1, 2, 3]", "{a = 1}", "x -> x"]) };
    let five = named(if q { &["-1", "\"é日x\""] } else { &["0", "-1", "3", "\"\"", "\"é日x\""] });
    vec![
        mk("no arguments", 0, all.clone()),
        mk("one argument", 1, all.clone()),
        mk("two arguments", 2, two),
        mk("three arguments", 3, three),
        mk("four arguments", 4, four),
        mk("five arguments", 5, five),
    ]
}

pub fn kind(x: &X) -> &'static str {
    match x {
        X::None => "None",
        X::Integer(_) => "Integer",
        X::Float(_) => "Float",
        X::Boolean(_) => "Boolean",
        X::String(_) => "String",
        X::Bytes(_) => "Bytes",
        X::Symbol(_) => "Symbol",
        X::List(_) => "List",
        X::Map(_) => "Map",
        X::Group(_) => "Group",
        X::Quote(_) => "Quote",
        X::Lambda(..) => "Lambda",
        X::Macro(..) => "Macro",
        X::Builtin(_) => "Builtin",
        _ => "code",
    }
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    Check {
        id: "C04",
        rule: "every builtin function reachable from the initial environment is applied to every tuple of values of the pool (all value kinds, boundary integers, infinities, multi-byte and empty strings, nested and empty collections, functions, quoted code) up to the stated arity; the call and the rendering of its result or error must not end the process".into(),
        bounds: "pool of 41 values; arities 0 and 1 over the whole pool; arity 2 over the whole pool (quick: 27 values); arity 3 over 33 (quick: 12), arity 4 over 10 (quick: 4), arity 5 over 5 (quick: 2) values".into(),
        assumptions: vec![
            "functions that end the process by design or wait for a key are not called: exit, quit, os@exit, input, console@keyboard, console@mode".into(),
            "the file functions run as an unprivileged user inside a scratch directory".into(),
        ],
        spaces: space(q),
    }
}
