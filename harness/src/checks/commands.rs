//! C15-C17: the working directory, external programs and pipelines, with stand-in programs.
use super::proc::tool;
use super::util::*;
use crate::engine::*;
use crate::spec::builtins::{matches, source};
use crate::spec::expr::E::{self, *};
use dune::{Environment, Error};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;

const STUBS: &[&str] = &["show", "cwd", "envof", "gen", "big", "raw", "silent", "catin", "upcase", "countin", "first", "noread", "fail", "early", "sees", "watches"];

struct Ctx {
    root: PathBuf,
    env: Environment,
}

type Held = Rc<RefCell<Option<Ctx>>>;

/// A scratch directory with the programs in `bin`, and another one called `show` in `bin2`.
fn ctx() -> (Held, impl Fn(&Path)) {
    let held: Held = Default::default();
    let h = held.clone();
    (held, move |scratch: &Path| {
        let stub = tool(scratch, "stub", "box/bin/stub");
        for s in STUBS {
            let _ = std::os::unix::fs::symlink(&stub, scratch.join("box/bin").join(s));
        }
        std::fs::create_dir_all(scratch.join("box/bin2")).unwrap();
        let other = scratch.join("box/bin2/other");
        let _ = std::fs::copy(&stub, &other);
        let _ = std::fs::copy(&stub, scratch.join("box/bin2/onlyhere"));
        std::fs::write(scratch.join("box/plain"), "not a program").unwrap();
        std::fs::create_dir_all(scratch.join("box/work/d/e")).unwrap();
        std::fs::create_dir_all(scratch.join("box/work/bin")).unwrap();
        let _ = std::fs::copy(&stub, scratch.join("box/work/bin/show"));
        for p in ["box", "box/work", "box/work/d", "box/work/d/e"] {
            let c = std::ffi::CString::new(scratch.join(p).to_str().unwrap()).unwrap();
            unsafe { libc::chown(c.as_ptr(), 65534, 65534) };
        }
        unprivileged(scratch);
        bare_process_env();
        let root = std::fs::canonicalize(scratch.join("box")).unwrap();
        std::env::set_var("PATH", root.join("bin"));
        std::env::set_var("INHERITED", "from outside");
        let work = root.join("work");
        std::env::set_current_dir(&work).unwrap();
        let mut env = full_env(work.to_str().unwrap());
        env.bindings.remove("std");
        *h.borrow_mut() = Some(Ctx { root, env });
    })
}

fn kind(e: &Error) -> &'static str {
    match e {
        Error::ProgramNotFound(_) => "not found",
        Error::PermissionDenied(_) => "permission",
        Error::CommandFailed(..) => "failed",
        Error::CannotApply(..) => "apply",
        _ => "other",
    }
}

/// Value or kind of error, and everything printed.
fn run(e: &E, env: &mut Environment) -> Result<(Result<E, &'static str>, Vec<u8>), String> {
    let x = e.to_impl();
    let (r, out, _) = capture(|| guard(|| x.eval(env)));
    Ok((r?.map(|v| E::from_impl(&v)).map_err(|e| kind(&e)), out))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// The arguments that a value becomes.
fn words_of(e: &E, out: &mut Vec<Vec<u8>>) {
    match e {
        None => {}
        List(v) => v.iter().for_each(|x| words_of(x, out)),
        Bytes(b) => out.push(String::from_utf8_lossy(b).into_owned().into_bytes()),
        Str(s) | Sym(s) => out.push(s.clone().into_bytes()),
        e => out.push(e.display().unwrap().into_bytes()),
    }
}

fn shown(args: &[E], cwd: &Path) -> Vec<u8> {
    let mut w = vec![];
    args.iter().for_each(|a| words_of(a, &mut w));
    format!("{} cwd {}\n", w.iter().map(|a| format!("<{}>", hex(a))).collect::<String>(), hex(cwd.to_str().unwrap().as_bytes())).into_bytes()
}

/// An expression for this value as an argument.
fn literal(v: &E) -> E {
    match v {
        Sym(s) => Quote(Box::new(Sym(s.clone()))),
        List(v) => List(v.iter().map(literal).collect()),
        v => v.clone(),
    }
}

fn pool(q: bool) -> Vec<E> {
    let mut v = vec![
        E::str("plain"),
        E::str(""),
        E::str("two words"),
        E::str("é\n\"'$*\\"),
        E::str("-x"),
        Int(42),
        Int(-7),
        Flt(1.5),
        Bool(true),
        None,
        E::sym("symbol"),
        List(vec![]),
        List(vec![E::str("a b"), Int(1), None, List(vec![E::str("c"), E::str("")])]),
        Bytes(vec![b'h', b'i']),
    ];
    if !q {
        v.extend([Bytes(vec![0xff, b'a']), Flt(-0.0), Int(i64::MIN), Bool(false), List(vec![List(vec![List(vec![E::sym("deep")])])]), E::str("*"), E::str("~"), E::str("{a}"), E::str("1")]);
    }
    v
}

fn tuples(k: u64, n: u32, i: u64) -> Vec<usize> {
    word(i, k, 0, n)
}

fn out_text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(400).collect()
}

// ---------------------------------------------------------------------------- C16

/// The ways to run `show`.
const WAYS: &[&str] = &["symbol", "text", "quoted", "absolute", "relative", "alias", "text variable", "function", "macro", "list", "conditional", "loop", "block", "applied", "mapped", "evaluated", "grouped"];

fn way(w: usize, args: &[E], root: &Path) -> E {
    let lit: Vec<E> = args.iter().map(literal).collect();
    let call = |f: E| E::apply(f, lit.clone());
    let group = |e: E| Group(Box::new(e));
    match WAYS[w] {
        "symbol" => call(E::sym("show")),
        "text" => call(E::str("show")),
        "quoted" => call(Quote(Box::new(E::sym("show")))),
        "absolute" => call(E::str(root.join("bin/show").to_str().unwrap())),
        "relative" => call(E::str("./bin/show")),
        "alias" => Do(vec![Assign("p".into(), Box::new(Quote(Box::new(E::sym("show"))))), call(E::sym("p"))]),
        "text variable" => Do(vec![Assign("p".into(), Box::new(E::str("show"))), call(E::sym("p"))]),
        "function" => E::apply(group(source("f -> f")), vec![call(E::sym("show"))]),
        "macro" => E::apply(Mac("m".into(), Box::new(call(E::sym("show")))), vec![None]),
        "list" => E::call("@", vec![List(vec![call(E::sym("show"))]), Int(0)]),
        "conditional" => If(Box::new(Bool(true)), Box::new(call(E::sym("show"))), Box::new(None)),
        "loop" => E::call("@", vec![For("i".into(), Box::new(List(vec![Int(1)])), Box::new(call(E::sym("show")))), Int(0)]),
        "block" => Do(vec![call(E::sym("show")), None]),
        "applied" => E::apply(E::call("@", vec![E::sym("fn"), E::sym("apply")]), vec![Quote(Box::new(E::sym("show"))), List(lit.clone())]),
        "mapped" => E::call("@", vec![E::apply(E::call("@", vec![E::sym("fn"), E::sym("map")]), vec![Mac("m".into(), Box::new(call(E::sym("show")))), List(vec![Int(1)])]), Int(0)]),
        "evaluated" => E::call("eval", vec![Quote(Box::new(call(E::sym("show"))))]),
        "grouped" => E::apply(group(group(E::sym("show"))), lit.clone()),
        w => panic!("{w}"),
    }
}

pub fn commands(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let pool = Rc::new(pool(q));
    let k = pool.len() as u64;
    let n = if q { 2 } else { 3 };
    let per = words(k, 0, n);
    let (held, init) = ctx();
    let (p2, p3) = (pool.clone(), pool.clone());
    let arguments = Space::new(
        "arguments",
        WAYS.len() as u64 * per,
        move |i| format!("{}: {}", WAYS[(i / per) as usize], tuples(k, n, i % per).iter().map(|d| p2[*d].debug()).collect::<Vec<_>>().join(" ")),
        move |i, rec| {
            let w = (i / per) as usize;
            let args: Vec<E> = tuples(k, n, i % per).iter().map(|d| p3[*d].clone()).collect();
            let mut g = held.borrow_mut();
            let c = g.as_mut().unwrap();
            if WAYS[w] == "applied" && args.iter().any(|a| matches!(a, Sym(_))) {
                return;
            }
            let e = way(w, &args, &c.root);
            let mut env = c.env.clone();
            rec.step();
            let want = shown(&args, &c.root.join("work"));
            match run(&e, &mut env) {
                Err(p) => rec.fail("panic", p),
                Ok((r, out)) => {
                    if out != want {
                        rec.fail("arguments", format!("{}\nprints {}\nnot    {}\n{r:?}", e.debug(), out_text(&out), out_text(&want)))
                    } else if r != Ok(None) {
                        rec.fail("result", format!("{} gives {r:?}", e.debug()))
                    } else {
                        rec.trace()
                    }
                    rec.state(&out);
                }
            }
        },
    )
    .init(init);

    // many, long and deeply nested arguments
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for &n in &[3usize, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 4095, 4096, 4097, 20000] {
        for shape in 0..7 {
            for w in [0, 7, 8, 13, 15] {
                if !(shape == 4 && n > 40) && (n < 500 || w < 8) {
                    cases.push((n, shape, w));
                }
            }
        }
    }
    let (held, init2) = ctx();
    let shape_of = |n: usize, shape: usize| -> Vec<E> {
        let item = |k: usize| if k % 4 == 1 { Int(k as i64) } else { E::str(&format!("a {k}")) };
        match shape {
            0 => (0..n).map(item).collect(),
            1 => vec![List((0..n).map(item).collect())],
            2 => (0..n).map(|k| if k % 3 == 0 { None } else { List(vec![item(k), List(vec![]), item(k + 1)]) }).collect(),
            3 => vec![E::str("before"), E::str(&"é".repeat(n)), E::str("after")],
            4 => vec![(0..n).fold(item(0), |l, k| List(vec![item(k), l, item(k + 2)]))],
            5 => vec![E::str(&"ab\n".repeat(n / 3)), Bytes(vec![b'y'; n])],
            _ => vec![List((0..n).map(|k| List(vec![item(k); k % 3])).collect()), item(1)],
        }
    };
    let large = Space::list("many and long arguments", cases, move |&(n, shape, w), rec| {
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let args = shape_of(n, shape);
        let e = way(w, &args, &c.root);
        let mut env = c.env.clone();
        rec.step();
        let want = shown(&args, &c.root.join("work"));
        match run(&e, &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, out)) => {
                if out != want {
                    let at = out.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    rec.fail("arguments", format!("prints {} bytes and not {}; they differ from {at} on: {:?}; {r:?}", out.len(), want.len(), out_text(&out[at..])))
                } else if r != Ok(None) {
                    rec.fail("result", format!("gives {r:?}"))
                } else {
                    rec.trace()
                }
                rec.state(&out);
            }
        }
    })
    .init(init2);

    // variables become environment variables
    let mut values = vec![
        (E::str("text"), Some("text".to_string())),
        (E::str(""), Some(String::new())),
        (E::str("é \n="), Some("é \n=".into())),
        (Int(-5), Some("-5".into())),
        (Flt(2.5), Some("2.5".into())),
        (Bool(false), Some("False".into())),
        (None, Some("None".into())),
        (E::sym("sym"), Some("sym".into())),
        (E::str(&"x".repeat(1024)), Some("x".repeat(1024))),
        (E::str(&"x".repeat(1025)), Option::None),
        (E::str(&"x".repeat(400_000)), Option::None),
    ];
    values.push((Bytes(vec![1, 2]), Some("b[1, 2]".into())));
    let names = ["A", "lower", "under_score", "INHERITED", "HOME"];
    let mut cases: Vec<(usize, usize, usize, usize)> = vec![];
    for a in 0..names.len() {
        for v in 0..values.len() {
            for b in 0..names.len() {
                for u in 0..values.len() {
                    if a != b && (!q || u < 3 || v < 3) {
                        cases.push((a, v, b, u))
                    }
                }
            }
        }
    }
    let (held, init) = ctx();
    let environment = Space::list("environment", cases, move |&(a, v, b, u), rec| {
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let outside = |n: &str| if n == "INHERITED" { "=".to_string() + &hex(b"from outside") } else { "unset".into() };
        let show = |n: &str, t: &Option<String>| t.as_ref().map_or(outside(n), |t| format!("={}", hex(t.as_bytes())));
        let mut env = c.env.clone();
        let set = |n: &str, v: &E| Assign(n.into(), Box::new(literal(v)));
        let call = || E::apply(E::sym("envof"), vec![E::str(names[a]), E::str(names[b])]);
        // defined, called, one removed, called again
        let e = Do(vec![
            set(names[a], &values[v].0),
            set(names[b], &values[u].0),
            call(),
            E::apply(E::call("@", vec![E::sym("sys"), E::sym("unset")]), vec![E::sym(names[a])]),
            call(),
        ]);
        rec.steps(5);
        let second = show(names[b], &values[u].1);
        let want = format!("{}\n{second}\n{}\n{second}\n", show(names[a], &values[v].1), outside(names[a]));
        match run(&e, &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, out)) => {
                if out != want.as_bytes() || r != Ok(None) {
                    rec.fail("environment", format!("{} = {}, {} = {}\nprints {}\nnot    {}\n{r:?}", names[a], values[v].0.debug(), names[b], values[u].0.debug(), out_text(&out), out_text(want.as_bytes())))
                } else {
                    rec.trace()
                }
                rec.state(&out);
            }
        }
    })
    .init(init);

    // every history of a few variables, which programs see as they are at the moment
    const CHANGES: &[&str] = &[
        "let A = \"one\"", "let A = \"two\"", "let B = \"one\"", "let B = A + \"+\"", "sys@unset A", "sys@unset B", "envof \"A\" \"B\"",
        "wrap \"given\"", "for A in [\"x\", \"y\"] {envof \"A\" \"B\"}", "{let A = \"inner\"; envof \"A\" \"B\"}",
    ];
    let (held, init2) = ctx();
    let (n, m) = (CHANGES.len() as u64, if q { 3 } else { 5 });
    let changes = Space::new(
        "variables that change between runs",
        words(n, 1, m),
        move |i| format!("{:?}", word(i, n, 1, m).iter().map(|&d| CHANGES[d]).collect::<Vec<_>>()),
        move |i, rec| {
            let mut g = held.borrow_mut();
            let c = g.as_mut().unwrap();
            let mut env = c.env.clone();
            let ops = word(i, n, 1, m);
            let mut vars: [Option<String>; 2] = [Option::None, Option::None];
            let mut want = String::new();
            let mut text = String::from("let wrap = A -> {envof \"A\" \"C\"};\n");
            fn see(vars: [&Option<String>; 2]) -> String {
                vars.iter().map(|v| v.as_ref().map_or("unset\n".to_string(), |t| format!("={}\n", hex(t.as_bytes())))).collect()
            }
            for &d in &ops {
                // the second one needs A to be known: otherwise it is the name
                let a = vars[0].clone();
                let both = |a: &Option<String>, b: &Option<String>| see([a, b]);
                match d {
                    0 => vars[0] = Some("one".into()),
                    1 => vars[0] = Some("two".into()),
                    2 => vars[1] = Some("one".into()),
                    3 => match a {
                        Some(a) => vars[1] = Some(a + "+"),
                        Option::None => continue,
                    },
                    4 => vars[0] = Option::None,
                    5 => vars[1] = Option::None,
                    6 => want += &both(&vars[0], &vars[1]),
                    7 => want += &both(&Some("given".into()), &Option::None),
                    8 => {
                        want += &both(&Some("x".into()), &vars[1]);
                        vars[0] = Some("y".into());
                        want += &both(&vars[0], &vars[1]);
                    }
                    _ => {
                        vars[0] = Some("inner".into());
                        want += &both(&vars[0], &vars[1]);
                    }
                }
                text += CHANGES[d];
                text += ";\n";
            }
            text += "envof \"A\" \"B\"";
            want += &see([&vars[0], &vars[1]]);
            rec.steps(ops.len() as u64);
            match run(&source(&text), &mut env) {
                Err(p) => rec.fail("panic", p),
                Ok((r, out)) => {
                    if out != want.as_bytes() || r != Ok(None) {
                        rec.fail("environment", format!("{text}\nprints {}\nnot    {}\n{r:?}", out_text(&out), out_text(want.as_bytes())))
                    } else {
                        rec.trace()
                    }
                    rec.state(&out);
                }
            }
        },
    )
    .init(init2);

    // which program is run, and what is reported when it cannot be
    let cases: Vec<(&'static str, &'static str)> = vec![
        ("\"nosuch\" 1", "not found"),
        ("nosuch 1", "not found"),
        ("\"./nosuch\" 1", "not found"),
        ("\"\" 1", "not found"),
        ("\"/R/plain\" 1", "permission"),
        ("\"../plain\" 1", "permission"),
        ("\"/R/work/d\" 1", "permission"),
        ("\"../plain/x\" 1", "failed"),
        ("show NUL", "failed"),
        ("{let p = NUL; p 1}", "failed"),
        ("{let A = NUL; show 1}", "failed"),
        ("onlyhere 1", "not found"),
        ("{let PATH = \"/R/bin2\"; onlyhere 1}", "ok"),
        ("{let PATH = \"/R/bin2\"; show 1}", "not found"),
        ("{let PATH = \"/R/bin2\" + \":\" + \"/R/bin\"; onlyhere 1; gen ()}", "ok"),
        ("{let CWD = \"/R/nosuch\"; gen ()}", "not found"),
        ("fail 1", "ok"),
        ("5 1", "apply"),
        ("None 1", "apply"),
        ("[show] 1", "apply"),
        ("{a = 1} 1", "apply"),
        ("True 1", "apply"),
        ("1.5 1", "apply"),
        ("nosuch (nosuch2 1)", "not found"),
    ];
    let (held, init) = ctx();
    let errors = Space::list("errors", cases, move |&(text, want), rec| {
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let mut env = c.env.clone();
        // an argument is evaluated before the program is looked for
        let root = c.root.to_str().unwrap();
        let e = source(&text.replace("/R", root).replace("NUL", "\"a\0b\""));
        rec.step();
        match run(&e, &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, _)) => {
                let got = match &r {
                    Ok(_) => "ok",
                    Err(k) => k,
                };
                rec.state(&(text, got));
                if got != want {
                    rec.fail("error", format!("{text}: {r:?}, and not {want}"))
                } else {
                    rec.trace()
                }
            }
        }
    })
    .init(init);
    // what is printed by the shell and by programs, in order
    const PRINTS: &[(&str, &str)] = &[
        ("print \"a\"", "a"), ("println \"b\"", "b\n"), ("gen ()", "one\ntwo\n"), ("\"x\" | catin", "x"), ("gen | (s -> s + \"!\") | catin", "one\ntwo\n!"), ("echo \"e\"", "e\n"), ("console@cursor@save-position ()", "\x1b[s"), ("fail 1", ""), ("gen | catin", "one\ntwo\n"), ("f 1", "cone\ntwo\n"), ("for i in [1, 2] {print i; gen ()}", "1one\ntwo\n2one\ntwo\n"), ("nosuch 1", ""),
    ];
    let (held, init3) = ctx();
    let m = if q { 3 } else { 4 };
    let np = PRINTS.len() as u64;
    let order = Space::new(
        "order of output",
        words(np, 1, m),
        move |i| format!("{:?}", word(i, np, 1, m).iter().map(|&d| PRINTS[d].0).collect::<Vec<_>>()),
        move |i, rec| {
            let mut g = held.borrow_mut();
            let c = g.as_mut().unwrap();
            let mut env = c.env.clone();
            source("let f = a -> {print \"c\"; gen ()}").to_impl().eval(&mut env).unwrap();
            let parts: Vec<_> = word(i, np, 1, m).iter().map(|&d| PRINTS[d]).collect();
            let exprs: Vec<dune::Expression> = parts.iter().map(|p| source(p.0).to_impl()).collect();
            let want: String = parts.iter().map(|p| p.1).collect();
            let (r, out, _) = capture(|| {
                guard(|| {
                    for x in exprs {
                        let _ = x.eval(&mut env);
                    }
                })
            });
            rec.steps(parts.len() as u64);
            if let Err(p) = r {
                return rec.fail("panic", p);
            }
            let out = String::from_utf8_lossy(&out);
            if out != want {
                return rec.fail("order", format!("prints {out:?} and not {want:?}"));
            }
            rec.state(&want);
            rec.trace()
        },
    )
    .init(init3);
    Check {
        id: "C16",
        rule: "a stand-in program that reports exactly what it is given is run with every tuple of arguments in every way to run a program (as symbol, text, path, alias, in functions, macros, loops, ...), with every pair of variables of every kind defined and removed, and with names that are not programs: it gets exactly the arguments, directory and environment that the program text says, what the shell and programs print comes in the order of the program, and failures are reported as what they are".into(),
        bounds: format!("{} ways, tuples of 0-{n} of {k} arguments; up to 20000 arguments, of up to 20000 characters, nested up to 40 deep; all sequences of up to {m} of {np} things that print", WAYS.len()),
        assumptions: vec!["the operating system passes arguments on unchanged".into()],
        spaces: vec![arguments, large, environment, changes, errors, order],
    }
}

// ---------------------------------------------------------------------------- C17

#[derive(Clone, Copy, PartialEq)]
enum Stage {
    Command(&'static str),
    Expr(&'static str),
}

fn numbers() -> Vec<u8> {
    (0..40_000).flat_map(|i| format!("{i}\n").into_bytes()).collect()
}

fn program(name: &str, input: &[u8]) -> Vec<u8> {
    match name {
        "gen" => b"one\ntwo\n".to_vec(),
        "big" => numbers(),
        "raw" => vec![0xff, 0xfe, b'a', b'\n'],
        "silent" => vec![],
        "catin" | "fail" => input.to_vec(),
        "upcase" => input.to_ascii_uppercase(),
        "countin" => input.len().to_string().into_bytes(),
        "first" => input.iter().position(|b| *b == b'\n').map_or(input.to_vec(), |i| input[..=i].to_vec()),
        "noread" => b"unread".to_vec(),
        "early" => [numbers(), input.len().to_string().into_bytes()].concat(),
        n => panic!("{n}"),
    }
}

/// What the pipeline gives and prints; `Err` for an error.
fn pipeline(stages: &[Stage]) -> (Result<E, ()>, Vec<u8>) {
    pipeline_from(None, stages)
}

/// What it gives if its first stage is this text.
fn pipeline_of(text: &str, stages: &[Stage]) -> (Result<E, ()>, Vec<u8>) {
    pipeline_from(E::str(text), stages)
}

fn pipeline_from(first: E, stages: &[Stage]) -> (Result<E, ()>, Vec<u8>) {
    let mut out = vec![];
    let mut value = None;
    let mut buf: Vec<u8> = vec![];
    for (i, st) in stages.iter().enumerate() {
        if let (0, Str(s)) = (i, &first) {
            value = first.clone();
            buf = s.clone().into_bytes();
            continue;
        }
        let last = i + 1 == stages.len();
        match st {
            Stage::Command(n) => {
                let o = program(n, &buf);
                buf = o.clone();
                if last {
                    out.extend(o);
                    value = None;
                } else {
                    value = match String::from_utf8(o) {
                        Ok(s) => Str(s),
                        Err(e) => Bytes(e.into_bytes()),
                    };
                }
            }
            Stage::Expr(t) => {
                let r = match (*t, &value) {
                    ("\"text\"", _) if i == 0 => Some(E::str("text")),
                    ("42", _) if i == 0 => Some(Int(42)),
                    ("bytes", _) if i == 0 => Some(Bytes(vec![0xc3, 0x28, b'\n'])),
                    ("None", _) if i == 0 => Some(None),
                    ("(x -> x + \"!\")", Str(s)) => Some(Str(format!("{s}!"))),
                    ("(x -> x)", v) => Some(v.clone()),
                    ("len", Str(s)) => Some(Int(s.chars().count() as i64)),
                    ("(x ~> [x, 1])", v) => Some(List(vec![v.clone(), Int(1)])),
                    ("(x -> println \"seen\")", _) => {
                        out.extend(b"seen\n");
                        Some(None)
                    }
                    _ => Option::None,
                };
                match r {
                    Some(v) => value = v,
                    Option::None => return (Err(()), out),
                }
                buf = match &value {
                    Bytes(b) => b.clone(),
                    Str(s) => s.clone().into_bytes(),
                    // how a list is printed is not compared here
                    List(_) => b"\0list".to_vec(),
                    v => v.display().unwrap().into_bytes(),
                };
            }
        }
    }
    (Ok(value), out)
}

fn stage_expr(s: Stage) -> E {
    match s {
        Stage::Command("gen") => E::apply(E::sym("gen"), vec![None]),
        Stage::Command("big") => E::apply(E::str("big"), vec![None]),
        Stage::Command(n) => E::sym(n),
        Stage::Expr("bytes") => Bytes(vec![0xc3, 0x28, b'\n']),
        Stage::Expr(t) => source(t),
    }
}

pub fn pipes(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    use Stage::*;
    let firsts = vec![Command("gen"), Expr("\"text\""), Command("raw"), Command("big"), Command("silent"), Command("catin"), Expr("42"), Expr("bytes"), Expr("None")];
    let rest = vec![
        Command("catin"),
        Command("upcase"),
        Command("countin"),
        Command("first"),
        Command("noread"),
        Command("fail"),
        Command("early"),
        Command("silent"),
        Command("raw"),
        Expr("(x -> x + \"!\")"),
        Expr("(x -> x)"),
        Expr("len"),
        Expr("(x ~> [x, 1])"),
        Expr("(x -> println \"seen\")"),
    ];
    let deep = if q { 3 } else { 4 };
    let (f2, r2) = (firsts.clone(), rest.clone());
    let k = rest.len() as u64;
    // the deepest start with the first few only
    let (full, few) = (words(k, 1, deep - 1), if q { 2u64 } else { 4 }.min(firsts.len() as u64));
    let (shallow, last) = (firsts.len() as u64 * full, k.pow(deep));
    let size = shallow + few * last;
    let decode = Rc::new(move |i: u64| -> Vec<Stage> {
        let (first, rest) = if i < shallow { (i / full, word(i % full, k, 1, deep - 1)) } else { ((i - shallow) / last, word((i - shallow) % last, k, deep, deep)) };
        let mut v = vec![f2[first as usize]];
        v.extend(rest.into_iter().map(|d| r2[d]));
        v
    });
    let d2 = decode.clone();
    let name = |s: &Stage| match s {
        Command(n) => n.to_string(),
        Expr(t) => t.to_string(),
    };
    let (held, init) = ctx();
    let stages = Space::new(
        "stages",
        size,
        move |i| d2(i).iter().map(name).collect::<Vec<_>>().join(" | "),
        move |i, rec| {
            let stages = decode(i);
            let (want, out) = pipeline(&stages);
            // the text of a list does not reach a program that would show it
            if out.windows(5).any(|w| w == b"\0list" || w == b"\0LIST") || matches!(&want, Ok(v) if v.debug().contains("\\0list") || v.debug().contains("\\0LIST")) {
                return;
            }
            if stages.windows(2).any(|w| w[0] == Expr("(x ~> [x, 1])") && matches!(w[1], Command("countin" | "early"))) {
                return;
            }
            let lists = stages.iter().position(|s| *s == Expr("(x ~> [x, 1])"));
            if lists.is_some_and(|p| stages[p + 1..].iter().any(|s| matches!(s, Expr("len") | Command("countin" | "early" | "first")))) {
                return;
            }
            let e = E::call("|", stages.iter().map(|s| stage_expr(*s)).collect());
            let mut g = held.borrow_mut();
            let c = g.as_mut().unwrap();
            let mut env = c.env.clone();
            rec.steps(stages.len() as u64);
            match run(&e, &mut env) {
                Err(p) => rec.fail("panic", p),
                Ok((r, o)) => {
                    let same = match (&want, &r) {
                        (Ok(w), Ok(g)) => matches(w, g),
                        (Err(()), Err(_)) => true,
                        _ => false,
                    };
                    if !same {
                        rec.fail("result", format!("gives {}, not {}", format!("{r:?}").chars().take(200).collect::<String>(), format!("{want:?}").chars().take(200).collect::<String>()))
                    } else if o != out {
                        rec.fail("output", format!("prints {} bytes {:?}, not {} bytes {:?}", o.len(), out_text(&o), out.len(), out_text(&out)))
                    } else {
                        rec.trace()
                    }
                    rec.state(&(&o, format!("{r:?}")));
                }
            }
        },
    )
    .timeout(30.0)
    .init(init);

    // pipelines of many stages, and contents of every size
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for n in (1..24).chain([32, 40]) {
        for pattern in 0..8 {
            for size in [0, 1, 5] {
                cases.push((size, n, pattern));
            }
        }
    }
    for size in [1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131071, 131072, 131073, 1 << 20, (1 << 20) + 1, 5_000_000] {
        for n in [1, 2, 3] {
            for pattern in 0..8 {
                cases.push((size, n, pattern));
            }
        }
    }
    let (held, init) = ctx();
    let sizes = Space::list("long pipelines and contents", cases, move |&(size, n, pattern), rec| {
        const PATTERNS: [&[Stage]; 8] = [
            &[Command("catin")],
            &[Command("catin"), Expr("(x -> x + \"!\")")],
            &[Command("upcase"), Command("catin"), Expr("(x -> x)")],
            &[Expr("(x -> x + \"!\")")],
            &[Command("fail"), Expr("(x -> println \"seen\")"), Command("noread")],
            &[Command("noread"), Command("catin"), Expr("(x -> x)"), Command("countin")],
            &[Command("catin"), Command("first")],
            &[Expr("len"), Command("catin")],
        ];
        // the text is made by its own stage: what it is matters to no other
        let text: String = "line é x\n".chars().cycle().take(size).collect();
        let mut stages = vec![Command("silent")];
        stages.extend((0..n).map(|k| PATTERNS[pattern][k % PATTERNS[pattern].len()]));
        let (want, out) = pipeline_of(&text, &stages);
        let mut es: Vec<E> = stages.iter().map(|s| stage_expr(*s)).collect();
        es[0] = E::str(&text);
        let e = E::call("|", es);
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let mut env = c.env.clone();
        rec.steps(stages.len() as u64);
        match run(&e, &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, o)) => {
                let same = match (&want, &r) {
                    (Ok(w), Ok(g)) => matches(w, g),
                    (Err(()), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    rec.fail("result", format!("gives {}, not {}", format!("{r:?}").chars().take(200).collect::<String>(), format!("{want:?}").chars().take(200).collect::<String>()))
                } else if o != out {
                    rec.fail("output", format!("prints {} bytes {:?}, not {} bytes {:?}", o.len(), out_text(&o), out.len(), out_text(&out)))
                } else {
                    rec.trace()
                }
                rec.state(&(&o, format!("{r:?}")));
            }
        }
    })
    .timeout(60.0)
    .init(init);

    // every byte at the start, at the end and alone, and pairs of the telling ones
    let mut contents: Vec<Vec<u8>> = vec![vec![]];
    for b in 0..=255u8 {
        contents.extend([vec![b], vec![b'a', b], vec![b, b'a'], vec![b, b], vec![b'a', b, b'a', b'\n', b]]);
    }
    const TELLING: [u8; 12] = [0, b'\n', b'\r', b' ', b'a', 0x1a, 0x04, 0x1b, 0x80, 0xc3, 0xa9, 0xff];
    contents.extend((0..words(12, 2, 3 - q as u32)).map(|i| word(i, 12, 2, 3 - q as u32).into_iter().map(|d| TELLING[d]).collect()));
    let cases: Vec<(Vec<u8>, usize)> = contents.into_iter().flat_map(|c| (0..4).map(move |w| (c.clone(), w))).collect();
    let (held, init) = ctx();
    let bytes = Space::list("contents of every byte", cases, move |(content, w), rec| {
        let given = Bytes(content.clone());
        let text = match String::from_utf8(content.clone()) {
            Ok(s) => Str(s),
            Err(_) => given.clone(),
        };
        let pass = source("(x -> x)");
        let (stages, value, out) = match w {
            0 => (vec![given, E::sym("catin")], None, content.clone()),
            1 => (vec![given, E::sym("catin"), pass], text, vec![]),
            2 => (vec![given, E::sym("catin"), E::sym("catin"), pass, E::sym("catin")], None, content.clone()),
            _ => match &text {
                Str(_) => (vec![text.clone(), E::sym("catin"), E::sym("catin")], None, content.clone()),
                _ => return,
            },
        };
        let e = E::call("|", stages);
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let mut env = c.env.clone();
        rec.step();
        match run(&e, &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, o)) => {
                if !matches!(&r, Ok(v) if matches(&value, v)) || o != out {
                    rec.fail("contents", format!("{}\ngives {r:?} and prints {o:?}\nnot   {value:?} and {out:?}", e.debug()))
                } else {
                    rec.trace()
                }
                rec.state(&o);
            }
        }
    })
    .timeout(30.0)
    .init(init);

    // arguments of programs in every position of a pipeline
    let pool = Rc::new(pool(q));
    let pk = pool.len() as u64;
    let per = words(pk, 0, 2);
    let ways = 5u64;
    let (p2, p3) = (pool.clone(), pool.clone());
    let (held, init) = ctx();
    let arguments = Space::new(
        "arguments",
        ways * per,
        move |i| format!("position {}: {}", i / per, word(i % per, pk, 0, 2).iter().map(|d| p2[*d].debug()).collect::<Vec<_>>().join(" ")),
        move |i, rec| {
            let args: Vec<E> = word(i % per, pk, 0, 2).iter().map(|d| p3[*d].clone()).collect();
            let mut g = held.borrow_mut();
            let c = g.as_mut().unwrap();
            let lit: Vec<E> = args.iter().map(literal).collect();
            let f = match i / per {
                3 => E::str("show"),
                4 => Quote(Box::new(E::sym("show"))),
                _ => E::sym("show"),
            };
            let call = E::apply(f, if lit.is_empty() { vec![None] } else { lit });
            let stages = match i / per {
                0 => vec![call, E::sym("catin")],
                1 => vec![E::sym("gen"), Group(Box::new(call))],
                2 => vec![E::sym("gen"), call, E::sym("catin"), E::sym("catin")],
                _ => vec![E::sym("gen"), call],
            };
            let e = E::call("|", stages);
            let want = shown(&args, &c.root.join("work"));
            rec.step();
            let mut env = c.env.clone();
            match run(&e, &mut env) {
                Err(p) => rec.fail("panic", p),
                Ok((r, out)) => {
                    if out != want || r != Ok(None) {
                        rec.fail("arguments", format!("{}\nprints {}\nnot    {}\n{r:?}", e.debug(), out_text(&out), out_text(&want)))
                    } else {
                        rec.trace()
                    }
                    rec.state(&out);
                }
            }
        },
    )
    .init(init);

    let cases: Vec<(&'static str, Result<E, ()>, &'static str)> = vec![
        ("gen | nosuch", Err(()), ""),
        ("nosuch | catin", Err(()), ""),
        ("gen | nosuch | (x -> println \"seen\")", Err(()), ""),
        ("(println \"a\") | (x -> println \"b\") | (x -> println \"c\")", Ok(None), "a\nb\nc\n"),
        ("{let p = 'gen; p | catin}", Ok(None), "one\ntwo\n"),
        ("{let p = 'catin; gen | p}", Ok(None), "one\ntwo\n"),
        ("{let gen = \"shadow\"; gen | catin}", Ok(None), "shadow"),
        ("{let gen = 5; gen | catin}", Ok(None), "5"),
        ("{let f = x -> x + \"?\"; \"a\" | f | f | catin}", Ok(None), "a??"),
        ("{let f = x ~> y -> x + y; \"a\" | (f \"b\")}", Ok(E::str("ba")), ""),
        ("{let t = (gen | (x -> x)); t | upcase}", Ok(None), "ONE\nTWO\n"),
        ("(gen | upcase) | (x -> x)", Ok(None), "ONE\nTWO\n"),
        ("gen | (x -> x) | (x -> x | upcase)", Ok(None), "ONE\nTWO\n"),
        ("for i in [1, 2] {gen | upcase}", Ok(List(vec![None, None])), "ONE\nTWO\nONE\nTWO\n"),
        ("(gen | (x -> string@split \"\\n\" x)) @ 1", Ok(E::str("two")), ""),
        ("'gen | 'upcase", Ok(None), "ONE\nTWO\n"),
        ("{let A = \"seen by all\"; (envof A \"A\") | catin}", Ok(None), "unset\n=7365656e20627920616c6c\n"),
    ];
    let (held, init) = ctx();
    let programs = Space::list("programs", cases, move |(text, want, out), rec| {
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let mut env = c.env.clone();
        rec.step();
        match run(&source(text), &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, o)) => {
                let same = match (want, &r) {
                    (Ok(w), Ok(g)) => matches(w, g),
                    (Err(()), Err(_)) => true,
                    _ => false,
                };
                if !same || o != out.as_bytes() {
                    rec.fail("program", format!("{text}\ngives {r:?} and prints {:?}\nnot   {want:?} and {out:?}", out_text(&o)))
                } else {
                    rec.trace()
                }
                rec.state(&(text, &o));
            }
        }
    })
    .init(init);
    // what a program in a pipeline is given, however and wherever it is called
    let forms = ["P \"a\"", "P", "p \"a\"", "p", "\"P\" \"a\"", "'P \"a\"", "'P", "(P \"a\")", "(p)", "'p", "(P 1 [2, \"b\"])", "p 1 [2, \"b\"]"];
    let settings = [
        ("{A; let SEEN = \"v\"; C}", Some("v"), ""),
        ("{A; (SEEN -> C) \"v\"}", Some("v"), ""),
        ("{A; let SEEN = \"u\"; (x -> {let SEEN = \"v\"; C}) 1}", Some("v"), ""),
        ("{A; let SEEN = \"v\"; (x -> {let y = SEEN; C}) 1}", Some("v"), ""),
        ("{A; C}", Option::None, ""),
        ("{A; let SEEN = 5; C}", Some("5"), ""),
        ("{A; let SEEN = \"v\"; sys@unset \"SEEN\"; C}", Option::None, ""),
        ("{A; cd \"d\"; C}", Option::None, "/d"),
        ("{A; let SEEN = \"v\"; (x -> {cd \"d/e\"; let y = SEEN; C}) 1}", Some("v"), "/d/e"),
        ("{A; (x ~> {cd \"d\"; C}) 1}", Option::None, "/d"),
        ("{A; if True {let SEEN = \"v\"; C}}", Some("v"), ""),
    ];
    let radix = [forms.len() as u64, settings.len() as u64, 3];
    let (held, init) = ctx();
    let given = move |i: u64| {
        let d = digits(i, &radix);
        let name = if d[2] == 0 { "watches" } else { "sees" };
        let f = forms[d[0]].replace('P', name);
        let pipe = match d[2] {
            0 => format!("{f} | catin"),
            1 => format!("gen | {f} | catin"),
            _ => format!("gen | {f}"),
        };
        let a = format!("let p = '{name}");
        (settings[d[1]].0.replace('A', &a).replace('C', &format!("({pipe})")), d)
    };
    let surroundings = Space::new("surroundings", radix.iter().product(), move |i| given(i).0, move |i, rec| {
        let (text, d) = given(i);
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let cwd = format!("{}{}", c.root.join("work").to_str().unwrap(), settings[d[1]].2);
        let args = match forms[d[0]] {
            f if f.contains("[2") => format!("<{}><{}><{}>", hex(b"1"), hex(b"2"), hex(b"b")),
            f if f.contains("\"a\"") => format!("<{}>", hex(b"a")),
            _ => String::new(),
        };
        let seen = settings[d[1]].1.map_or("unset".into(), |v| hex(v.as_bytes()));
        let want = format!("{args} cwd {} {seen}\n{}", hex(cwd.as_bytes()), if d[2] == 0 { "" } else { "one\ntwo\n" });
        rec.step();
        let mut env = c.env.clone();
        match run(&source(&text), &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, out)) => {
                if out != want.as_bytes() || r.is_err() {
                    rec.fail("surroundings", format!("{text}; prints {:?} and not {want:?}: {r:?}", out_text(&out)))
                } else {
                    rec.trace()
                }
                rec.state(&out);
            }
        }
    })
    .init(init);
    Check {
        id: "C17",
        rule: "every pipeline of up to the bound of stages from a set of programs (that read all, some or nothing of their input, before or after they write, large, empty and binary output, and that fail) and expressions (values, functions, macros, builtins): each stage gets exactly what the one before it gave, all output of the last is shown, the result is the last stage's, and nothing hangs; programs in a pipeline get the same arguments as alone".into(),
        bounds: format!("{size} pipelines of 2-{} stages (the longest with some of the first stages); up to 40 stages and 5 MB in 8 patterns; tuples of up to 2 of {pk} arguments in {ways} positions", deep + 1),
        assumptions: vec!["how a list is printed is not compared here (C29)".into()],
        spaces: vec![stages, sizes, bytes, arguments, programs, surroundings],
    }
}

// ---------------------------------------------------------------------------- C15

/// Programs that move, or that look where they are.
struct Where {
    /// the directory of the caller's variables
    cwd: String,
    out: String,
    files: std::collections::BTreeMap<String, String>,
}

const DIRS: &[&str] = &["", "work", "work/d", "work/d/e"];
/// Outside of the box, which is not explored.
const ABOVE: &str = "/";
const ABOVE_LINE: &str = "/\n";

fn resolve(cwd: &str, p: &str) -> Option<String> {
    let mut parts: Vec<&str> = cwd.split('/').filter(|s| !s.is_empty()).collect();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if parts.pop().is_none() {
                    return Some(ABOVE.into());
                }
            }
            n => {
                parts.push(n);
                if parts == ["work", "s"] {
                    // a link
                    parts = vec!["work", "d", "e"];
                }
                if !DIRS.contains(&parts.join("/").as_str()) {
                    return Option::None;
                }
            }
        }
    }
    Some(parts.join("/"))
}

const MOVES: &[&str] = &[
    "cd \"d\"",
    "cd \"..\"",
    "cd \"e\"",
    "cd 'd",
    "os@cd \"d/e\"",
    "sys@cd \"d\"",
    "sys@cd \"..\"",
    "(x ~> cd x) \"d\"",
    "(x -> cd x) \"d\"",
    "fn@map (x ~> cd x) [\"d\", \"..\"]",
    "for x in [\"d\", \"e\"] {cd x}",
    "eval '(cd \"d\")",
    "exec '(cd \"d\")",
    "sys@include \"/R/in.dune\"",
    "sys@import \"/R/in.dune\"",
    "(a -> b -> cd b) 1 \"d\"",
    "if True {cd \"d\"}",
    "here",
    "(x -> here) ()",
    "(x -> y -> here) () ()",
    "(x -> fs@write \"f\" \"w\") (cd \"d\")",
    "(x -> y -> fs@write \"f\" \"w\") 1 (cd \"d\")",
    "fs@write \"f\" \"w\"",
    "\"r\" >> \"f\"",
    "cd \"s\"",
    "sys@cd \"s/..\"",
    // a link to a directory whose name is not text
    "cd \"odd\"",
    "sys@cd \"odd\"",
    // programs in pipelines, called and named in every way, and in functions that have moved
    "(x -> {cd x; here}) \"d\"",
    "here | catin",
    "cwd | catin",
    "{let p = 'cwd; p | catin}",
    "(x -> {cd x; here | catin}) \"d\"",
    "(x -> {cd x; cwd | catin}) \"d\"",
    "(x -> {cd x; let p = 'cwd; p | catin}) \"d\"",
    "(x -> {cd x; 'cwd | catin}) \"d\"",
    "(x -> {cd x; \"cwd\" () | catin}) \"d\"",
    "(x -> {cd x; \"r\" | cwd}) \"d\"",
    "(x -> y -> z -> here) 1 (cd \"d\") 2",
    "(x -> {cd x; (y -> here) 1}) \"d\"",
    // functions made where the shell began, which do something between their arguments
    "g1 1",
    "g1 1 2",
    "g1 1 (cd \"d\")",
    "g2 1 2 3",
    "g3 1 2",
    "(x -> {cd x; g1 1 2}) \"d\"",
];
const GIVEN: &[&str] = &["let g1 = x -> {fs@write \"f\" \"w\"; y -> here}", "let g2 = x -> y -> {fs@write \"f\" \"w\"; z -> here}", "let g3 = x ~> {fs@write \"f\" \"w\"; y -> here}"];
/// How many of them the longest histories are made of.
const FIRST: u64 = MOVES.len() as u64 - 18;

/// The effect of a statement; `false`: it is an error.
fn go(w: &mut Where, m: &str) -> bool {
    let mut cd = |p: &str| match resolve(&w.cwd, p) {
        Some(d) => {
            w.cwd = d;
            true
        }
        Option::None => false,
    };
    let write = |w: &mut Where, t: &str| {
        w.files.insert(w.cwd.clone(), t.into());
        true
    };
    match m {
        "cd \"d\"" | "cd 'd" | "sys@cd \"d\"" | "(x ~> cd x) \"d\"" | "exec '(cd \"d\")" | "if True {cd \"d\"}" => cd("d"),
        "cd \"..\"" | "sys@cd \"..\"" => cd(".."),
        "cd \"e\"" => cd("e"),
        "os@cd \"d/e\"" => cd("d/e"),
        "cd \"s\"" => cd("s"),
        "sys@cd \"s/..\"" => cd("s/.."),
        "cd \"odd\"" | "sys@cd \"odd\"" => false,
        "fn@map (x ~> cd x) [\"d\", \"..\"]" => cd("d") && cd(".."),
        "for x in [\"d\", \"e\"] {cd x}" => cd("d") && cd("e"),
        // what a function, or an evaluation in an environment of its own, does stays in it
        "(x -> cd x) \"d\"" | "(a -> b -> cd b) 1 \"d\"" | "eval '(cd \"d\")" => resolve(&w.cwd, "d").is_some(),
        // the file: cd ".."; here
        "sys@include \"/R/in.dune\"" => {
            if !cd("..") {
                return false;
            }
            w.out += &format!("{}\n", w.cwd);
            true
        }
        "sys@import \"/R/in.dune\"" => match resolve(&w.cwd, "..") {
            Some(d) => {
                w.out += &format!("{d}\n");
                true
            }
            Option::None => false,
        },
        "here" | "(x -> here) ()" | "(x -> y -> here) () ()" | "here | catin" | "cwd | catin" | "{let p = 'cwd; p | catin}" => {
            w.out += &format!("{}\n", w.cwd);
            true
        }
        "g1 1" => write(w, "w"),
        "g1 1 2" | "g2 1 2 3" | "g3 1 2" => {
            w.out += &format!("{}\n", w.cwd);
            write(w, "w")
        }
        // an argument is evaluated when the one before it has been taken
        "g1 1 (cd \"d\")" => {
            w.files.insert(w.cwd.clone(), "w".into());
            let ok = resolve(&w.cwd, "d").map(|d| w.cwd = d).is_some();
            if ok {
                w.out += &format!("{}\n", w.cwd);
            }
            ok
        }
        "(x -> {cd x; g1 1 2}) \"d\"" => match resolve(&w.cwd, "d") {
            Some(d) => {
                w.out += &format!("{d}\n");
                w.files.insert(d, "w".into());
                true
            }
            Option::None => false,
        },
        m if m.starts_with("(x -> {cd x;") => match resolve(&w.cwd, "d") {
            Some(d) => {
                w.out += &format!("{d}\n");
                true
            }
            Option::None => false,
        },
        "(x -> y -> z -> here) 1 (cd \"d\") 2" => {
            if !cd("d") {
                return false;
            }
            w.out += &format!("{}\n", w.cwd);
            true
        }
        // arguments are evaluated before the function runs
        "(x -> fs@write \"f\" \"w\") (cd \"d\")" | "(x -> y -> fs@write \"f\" \"w\") 1 (cd \"d\")" => cd("d") && write(w, "w"),
        "fs@write \"f\" \"w\"" => write(w, "w"),
        "\"r\" >> \"f\"" => write(w, "r"),
        m => panic!("{m}"),
    }
}

pub fn directories(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let k = MOVES.len() as u64;
    let n = if q { 3 } else { 4 };
    let shorter = words(k, 1, n - 1);
    let moves = move |i: u64| if i < shorter { word(i, k, 1, n - 1) } else { word(i - shorter, FIRST, n, n) };
    let (held, init) = ctx();
    let histories = Space::new(
        "histories",
        shorter + FIRST.pow(n),
        move |i| moves(i).iter().map(|d| MOVES[*d]).collect::<Vec<_>>().join("; "),
        move |i, rec| {
            let moves = moves(i);
            let mut g = held.borrow_mut();
            let c = g.as_mut().unwrap();
            let work = c.root.join("work");
            std::env::set_current_dir(&work).unwrap();
            for d in DIRS {
                let _ = std::fs::remove_file(c.root.join(d).join("f"));
            }
            let file = work.join("in.dune");
            if !file.exists() {
                std::fs::write(&file, "cd \"..\"; cwd ()").unwrap();
                use std::os::unix::{ffi::OsStrExt, fs::symlink};
                let odd = std::ffi::OsStr::from_bytes(b"odd\xff");
                std::fs::create_dir(work.join(odd)).unwrap();
                symlink(odd, work.join("odd")).unwrap();
                symlink("d/e", work.join("s")).unwrap();
            }
            let mut env = c.env.clone();
            for g in GIVEN {
                src(&g.replace("here", "cwd ()")).eval(&mut env).unwrap();
            }
            let mut w = Where { cwd: "work".into(), out: String::new(), files: Default::default() };
            let root = c.root.to_str().unwrap();
            for d in &moves {
                let text = MOVES[*d];
                let e = source(&text.replace("/R", work.to_str().unwrap()).replace("here", "cwd ()"));
                let (cwd, out) = (w.cwd.clone(), w.out.clone());
                w.out.clear();
                // where a failing statement leaves things between its steps is its own affair
                let ok = go(&mut w, text);
                if w.cwd == ABOVE || w.out.contains(ABOVE_LINE) {
                    return;
                }
                rec.step();
                let (r, got) = match run(&e, &mut env) {
                    Err(p) => return rec.fail("panic", p),
                    Ok(x) => x,
                };
                let path = |d: &str| if d.is_empty() { root.to_string() } else { format!("{root}/{d}") };
                let want: String = w.out.lines().map(|l| path(l) + "\n").collect();
                if r.is_ok() != ok {
                    return rec.fail("result", format!("{text} in {cwd:?}: {r:?}"));
                }
                if got != want.as_bytes() {
                    return rec.fail("program", format!("{text} in {cwd:?}: a program runs in {:?}, not {want:?}", out_text(&got)));
                }
                if env.get_cwd() != path(&w.cwd) {
                    return rec.fail("directory", format!("{text} in {cwd:?}: leaves the directory {}, not {}", env.get_cwd(), path(&w.cwd)));
                }
                for d in DIRS {
                    let f = std::fs::read_to_string(c.root.join(d).join("f")).ok();
                    if f.as_ref() != w.files.get(*d) {
                        return rec.fail("file", format!("{text} in {cwd:?}: the file in {d:?} has {f:?}, not {:?}", w.files.get(*d)));
                    }
                }
                w.out = out + &w.out;
                rec.state(&(&w.cwd, &w.files, &w.out));
            }
            // and a program, in a pipeline and alone, runs there
            let (r, got) = match run(&source("(cwd ()) | (x -> x)"), &mut env) {
                Err(p) => return rec.fail("panic", p),
                Ok(x) => x,
            };
            let path = if w.cwd.is_empty() { format!("{root}\n") } else { format!("{root}/{}\n", w.cwd) };
            if r != Ok(Str(path.clone())) {
                return rec.fail("pipeline", format!("a program in a pipeline runs in {r:?} {got:?}, not {path}"));
            }
            rec.trace();
        },
    )
    .init(init);
    // directories of every kind of name
    const NAMES: [&str; 34] = [
        "a", "a.", ".a", "a..", "...", "..a", "-", "--", "-r", "~", "~root", "$HOME", "*", "?", "[a]", "a b", " ", " a", "a ", "a\nb", "\n", "\t", "\\", "\"", "'", ";", "|", "&", "%s", "日本", "e\u{301}", "1",
        "1.5", "None",
    ];
    // (how it is said, whether the caller moves)
    const WAYS: [(&str, bool); 11] = [
        ("cd P", true),
        ("sys@cd P", true),
        ("os@cd P", true),
        ("cd (P + \"/\")", true),
        ("cd (\"./\" + P)", true),
        ("cd (CWD + \"/\" + P)", true),
        ("cd (P + \"/.\")", true),
        ("cd (P + \"/../\" + L)", true),
        ("{let go = p ~> cd p; go P}", true),
        ("(p -> {cd p; cwd ()}) P", false),
        ("for p in [P] {cd p}", true),
    ];
    let mut cases = vec![];
    for a in NAMES {
        for b in std::iter::once("").chain(NAMES) {
            for w in WAYS {
                cases.push((a, b, w))
            }
        }
    }
    let (held, init) = ctx();
    let named = Space::list("names", cases, move |&(a, b, (way, moves)), rec| {
        let mut g = held.borrow_mut();
        let c = g.as_mut().unwrap();
        let base = c.root.join("work/names");
        let _ = std::fs::remove_dir_all(&base);
        let path = if b.is_empty() { a.to_string() } else { format!("{a}/{b}") };
        std::fs::create_dir_all(base.join(&path)).unwrap();
        std::env::set_current_dir(&base).unwrap();
        let mut env = c.env.clone();
        env.set_cwd(base.to_str().unwrap());
        env.define("P", E::str(&path).to_impl());
        env.define("L", E::str(if b.is_empty() { a } else { b }).to_impl());
        let there = format!("{}/{path}", base.to_str().unwrap());
        let here = base.to_str().unwrap().to_string();
        let steps: Vec<(&str, &str, String)> = vec![
            (way, if moves { &there } else { &here }, if moves { String::new() } else { format!("{there}\n") }),
            ("cwd ()", if moves { &there } else { &here }, format!("{}\n", if moves { &there } else { &here })),
            ("fs@write \"f\" \"x\"", if moves { &there } else { &here }, String::new()),
            ("cd \"..\"", if moves { Path::new(&there).parent().unwrap().to_str().unwrap() } else { base.parent().unwrap().to_str().unwrap() }, String::new()),
        ];
        for (text, at, out) in steps {
            rec.step();
            match run(&source(text), &mut env) {
                Err(p) => return rec.fail("panic", format!("{text} with P = {path:?}: {p}")),
                Ok((r, o)) => {
                    if r.is_err() || o != out.as_bytes() || env.get_cwd() != at {
                        return rec.fail("name", format!("{text} with P = {path:?}: {r:?}, prints {:?}, not {out:?}, and leaves the directory {:?}, not {at:?}", out_text(&o), env.get_cwd()));
                    }
                }
            }
        }
        let f = base.join(if moves { &path } else { "" }).join("f");
        if std::fs::read(&f).ok().as_deref() != Some(b"x") {
            return rec.fail("file", format!("{way} with P = {path:?}: nothing is written to {}", f.display()));
        }
        rec.state(&(a, b, way));
        rec.trace();
    })
    .init(init);
    Check {
        id: "C15",
        rule: "every history of up to the bound of statements that change the directory (directly, in functions, macros, loops, evaluated code, included and imported files, arguments), write files by relative names, and run programs: the directory afterwards, the files and where programs run are those of the model, in which functions, imports and evaluations have a directory of their own".into(),
        bounds: format!("histories of 1-{} of {k} statements, of {n} of {FIRST}", n - 1),
        assumptions: vec![],
        spaces: vec![histories, named],
    }
}
