//! C18: errors are caught where, and as what, the program says.
use super::diff::*;
use super::util::*;
use crate::engine::*;
use crate::gram::Gram;
use crate::spec::builtins::{self, source};
use crate::spec::expr::E::{self, *};
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

fn b(e: E) -> Box<E> {
    Box::new(e)
}

/// Programs made of catching, failing, printing and assigning.
fn grammar() -> Gram {
    let try_ = |v: &[E], h: E| E::apply(source("err@try"), vec![v[0].clone(), h]);
    Gram::new(vec![
        E::sym("x"),
        source("1 + None"),
        source("nosuch 1"),
        Int(1),
        source("e @ code"),
        source("5 1"),
        source("for i in 5 {i}"),
        E::sym("e"),
    ])
    .node(2, move |v| try_(&v, Lam("e".into(), b(v[1].clone()), BTreeMap::new())))
    .node(2, move |v| try_(&v, Mac("e".into(), b(v[1].clone()))))
    .node(2, Do)
    .node(1, |v| E::call("println", v))
    .node(1, |v| Assign("x".into(), b(v[0].clone())))
    .node(2, move |v| try_(&v, v[1].clone()))
    .node(2, |v| E::apply(Lam("x".into(), b(v[0].clone()), BTreeMap::new()), vec![v[1].clone()]))
    .node(2, |v| For("x".into(), b(List(vec![Int(5), v[0].clone()])), b(v[1].clone())))
    .node(1, |v| List(vec![v[0].clone(), source("println 7")]))
}

/// program, its code by name, what the message must name. R stands for the scratch directory.
const SOURCES: &[(&str, &str, &[&str])] = &[
    ("5 1", "cannot-apply", &["5", "1"]),
    ("None 7 8", "cannot-apply", &["None", "7", "8"]),
    ("[1, 2] 3", "cannot-apply", &["[1, 2]", "3"]),
    ("{a = 1} \"b\"", "cannot-apply", &["a", "b"]),
    ("True (x + 1)", "cannot-apply", &["True"]),
    ("for i in 5 {i}", "for-non-list", &["5"]),
    ("for i in \"text\" {i}", "for-non-list", &["text"]),
    ("for i in {k = 9} {i}", "for-non-list", &["k", "9"]),
    ("{let f = a ~> f (a + 1) 2; f 1}", "recursion-depth", &[]),
    ("nosuch 1", "program-not-found", &["nosuch"]),
    ("\"no such\" 1 2", "program-not-found", &["no such"]),
    ("\"./nosuch\" 1", "program-not-found", &["nosuch"]),
    ("\"R/plain\" 1", "permission-denied", &["plain"]),
    ("\"R/noscript\" 4", "command-failed", &["noscript", "4"]),
    ("\"R/plain/below\" 4", "command-failed", &["below", "4"]),
    ("parse@expr \"1 +\"", "syntax-error", &["syntax error", "1 "]),
    ("parse@expr \"let x = (\"", "syntax-error", &["syntax error", " x = ("]),
    ("parse@expr \"a ` b\"", "syntax-error", &["syntax error", "`"]),
    ("1 + None", "custom-error", &["1", "None"]),
    ("1 // 0", "custom-error", &["1"]),
    ("len 5", "custom-error", &["5"]),
    ("int \"two\"", "custom-error", &["two"]),
    ("list@nth [1] 9", "custom-error", &[]),
    ("fs@read \"R/nosuch\"", "custom-error", &["nosuch"]),
    ("insert [] 4 5", "custom-error", &["4"]),
    ("err@try 1", "custom-error", &[]),
    ("parse@json \"{\"", "custom-error", &["{"]),
];

/// Where an error arises.
const PLACES: &[&str] = &[
    "X", "(X)", "{X}", "{println 1; X; println 2}", "{let y = 8; X}", "let x = X", "[1, X, println 3]", "{a = X}", "1 + (X)", "(X) + (println 4)", "if (X) {1} else {2}", "if True {X} else {2}", "for z in [1, 2] {println z; X}", "for z in (X) {z}", "(q -> X) 1", "(q ~> {let y = q; X}) 6",
    "(q -> q) (X)", "println (X)", "println 5 (X)", "(X) 1", "list@len (X)", "fn@map (q -> X) [1, 2]", "eval '(X)", "exec '({let y = 9; X})", "str (X)", "err@try (X) (e -> {println (e @ code); X})", "err@try 1 (e -> 2) + (X)", "(q -> r -> X) 1 2", "(X) == (X)", "!(X)", "True && (X)", "{X} @ 0",
];

/// What is done with an error.
const HANDLERS: &[&str] = &[
    "e -> e @ code", "e -> e @ message", "e -> e @ expression", "e -> keys e", "e ~> let x = e @ code", "e -> let x = 3", "e -> {println \"caught\"; 1 + None}", "e -> r -> 1", "5", "nosuch", "e -> err@try (nosuch2 1) (g -> [e @ code, g @ code])", "e -> len e", "println", "e -> e",
    "h", "{println 9; h}", "None",
];

type Outcome = (Result<E, (i64, String)>, String, Vec<(String, E)>);

fn run(x: &X, env: &mut Environment) -> Result<Outcome, String> {
    let (r, out, _) = capture(|| guard(|| x.eval(env)));
    let r = r?;
    let vars = env.bindings.iter().filter(|(_, v)| !matches!(v, X::Map(_))).map(|(k, v)| (k.clone(), E::from_impl(v))).collect();
    Ok((
        r.map(|v| E::from_impl(&v)).map_err(|e| (code(&e), e.to_string())),
        String::from_utf8_lossy(&out).into(),
        vars,
    ))
}

/// The documented code of each kind of error.
fn code(e: &Error) -> i64 {
    match e {
        Error::CannotApply(..) => 1,
        Error::SymbolNotDefined(..) => 2,
        Error::CommandFailed(..) => 3,
        Error::ForNonList(..) => 4,
        Error::RecursionDepth(..) => 5,
        Error::PermissionDenied(..) => 6,
        Error::ProgramNotFound(..) => 7,
        Error::SyntaxError(..) => 8,
        Error::CustomError(..) => 9,
    }
}

const CODES: &[(&str, i64)] = &[
    ("cannot-apply", 1), ("symbol-not-defined", 2), ("command-failed", 3), ("for-non-list", 4), ("recursion-depth", 5),
    ("permission-denied", 6), ("program-not-found", 7), ("syntax-error", 8), ("custom-error", 9),
];

fn place(p: &str, x: &str) -> String {
    p.replace('X', &format!("({x})"))
}

struct Ctx {
    env: Environment,
    root: String,
}

pub fn check(tier: Tier) -> Check {
    let quick = tier == Tier::Quick;
    let n = if quick { 6 } else { 7 };
    let g = Rc::new(grammar().done(n));
    let mut spaces = vec![];

    // all programs of trying, failing and handling against the reference evaluator
    let pair: Rc<RefCell<Option<Pair>>> = Rc::new(RefCell::new(Option::None));
    let (g1, g2, p1, p2) = (g.clone(), g.clone(), pair.clone(), pair.clone());
    spaces.push(
        Space::new("programs", g.total(), move |i| g2.get(i).debug(), move |i, rec| {
            let e = g1.get(i);
            let mut p = p1.borrow().as_ref().unwrap().clone();
            if step(&mut p, &e, rec, "evaluation", true) == Same::Yes {
                rec.trace();
                if same_env(&p, rec, "variables", &|| e.debug()) && i % 9973 == 0 {
                    rec.sample(|| e.debug())
                }
            }
        })
        .init(move |scratch| {
            prepare(scratch);
            *p2.borrow_mut() = Some(Pair::new(&["+", "err", "@", "println"]).with("let x = 7; None"));
        }),
    );

    // tries within tries, and after tries, of very many
    let around = ["X", "{println \"in\"; X; println \"after\"}", "(q -> q) (X)", "for i in [1, X, 2] {i}"];
    let handlers = ["e -> e @ code", "e -> {println (e @ code); 1 + None}", "e ~> {let x = x + 1; nosuch x}", "5", "e ~> for i in 5 {i}", "e -> {println \"kept\"; 9}"];
    let starts = ["nosuch 1", "7", "5 1"];
    let counts: Vec<usize> = if quick { vec![2, 3, 5, 8, 16, 30] } else { (2..=40).collect() };
    // which handlers (in turn), and what stands around each try
    let nh = handlers.len() as u64;
    let radix = [counts.len() as u64, starts.len() as u64, around.len() as u64, words(nh, 1, 3)];
    let tower = move |i: u64| {
        let d = digits(i, &radix);
        let turn = word(d[3] as u64, nh, 1, 3);
        let mut t = starts[d[1]].to_string();
        // the message about a handler that cannot be applied contains the message before it twice
        let n = if turn.contains(&3) { counts[d[0]].min(8) } else { counts[d[0]] };
        for k in 0..n {
            t = format!("err@try ({}) ({})", around[d[2]].replace('X', &format!("({t})")), handlers[turn[k % turn.len()]]);
        }
        t
    };
    let t2 = tower.clone();
    let pair: Rc<RefCell<Option<Pair>>> = Rc::new(RefCell::new(Option::None));
    let p2 = pair.clone();
    spaces.push(
        Space::new("towers", radix.iter().product(), move |i| format!("{:.200}", t2(i)), move |i, rec| {
            let t = tower(i);
            let mut p = pair.borrow().as_ref().unwrap().clone();
            let e = source(&t);
            if step(&mut p, &e, rec, "evaluation", true) == Same::Yes && same_env(&p, rec, "variables", &|| t.clone()) {
                rec.trace()
            }
        })
        .init(move |scratch| {
            prepare(scratch);
            *p2.borrow_mut() = Some(Pair::new(&["+", "err", "@", "println"]).with("let x = 7; None"));
        }),
    );
    let n_rows = if quick { 300 } else { 3000 };
    let pair: Rc<RefCell<Option<Pair>>> = Rc::new(RefCell::new(Option::None));
    let p2 = pair.clone();
    spaces.push(
        Space::new("rows", words(nh, 1, 3) * starts.len() as u64 * 3, |i| format!("case {i}"), move |i, rec| {
            let d = digits(i, &[words(nh, 1, 3), starts.len() as u64, 3]);
            let turn = word(d[0] as u64, nh, 1, 3);
            // each followed by others, each one guarded so that the row goes on
            let one = |k: usize| {
                let tried = if k % 2 == 0 { starts[d[1]] } else { "{let x = x + 1; 1 + None}" };
                format!("err@try (err@try ({tried}) ({})) (z -> {k})", handlers[turn[k % turn.len()]])
            };
            let t = match d[2] {
                0 => format!("{{{}}}", (0..n_rows / 10).map(one).collect::<Vec<_>>().join("; ")),
                1 => format!("[{}]", (0..n_rows / 10).map(one).collect::<Vec<_>>().join(", ")),
                _ => format!("for k in 0 to {n_rows} {{{}}}", one(0)),
            };
            let mut p = pair.borrow().as_ref().unwrap().clone();
            let e = source(&t);
            if step(&mut p, &e, rec, "evaluation", true) == Same::Yes && same_env(&p, rec, "variables", &|| t.clone()) {
                rec.trace()
            }
        })
        .init(move |scratch| {
            prepare(scratch);
            *p2.borrow_mut() = Some(Pair::new(&["+", "err", "@", "println", "to"]).with("let x = 7; None"));
        }),
    );

    // every error, wherever it arises, whatever is done with it
    let held: Rc<RefCell<Option<Ctx>>> = Rc::new(RefCell::new(Option::None));
    let init = {
        let held = held.clone();
        move |scratch: &std::path::Path| {
            prepare(scratch);
            use std::os::unix::fs::PermissionsExt;
            let root = std::fs::canonicalize(scratch).unwrap();
            for (n, mode, text) in [("plain", 0o644, "text"), ("noscript", 0o755, "\x01\x02\x03")] {
                let f = root.join(n);
                std::fs::write(&f, text).unwrap();
                std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode)).unwrap();
            }
            let mut env = full_env(root.to_str().unwrap());
            for t in ["let x = 7", "let h = e -> {println \"h\"; e @ code}"] {
                source(t).to_impl().eval(&mut env).unwrap();
            }
            *held.borrow_mut() = Some(Ctx { env, root: root.to_str().unwrap().into() });
        }
    };
    let h1 = held.clone();
    let sources = Space::list("reports", SOURCES.to_vec(), move |&(text, kind, parts), rec| {
        let g = h1.borrow();
        let c = g.as_ref().unwrap();
        let text = text.replace("R/", &format!("{}/", c.root));
        let e = source(&text);
        let x = e.to_impl();
        rec.steps(3);
        let want = CODES.iter().find(|c| c.0 == kind).unwrap().1;
        let mut env = c.env.clone();
        match run(&x, &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((Ok(v), ..)) => rec.fail("no error", format!("{text} gives {}", v.debug())),
            Ok((Err((code, message)), ..)) => {
                if code != want {
                    return rec.fail("kind", format!("{text}: {message:?} is error {code}, not {kind}"));
                }
                if let Some(p) = parts.iter().find(|p| !message.contains(&p.replace("R/", &c.root))) {
                    return rec.fail("message", format!("{text}: {message:?} does not name {p}"));
                }
                // the code's name, and the handler's view of it
                for (h, v) in [
                    (format!("e -> (e @ code) == (err@codes @ {})", source(kind).debug().replace(' ', "")), Bool(true)),
                    ("e -> e @ message".into(), E::str(&message)),
                    ("e -> e @ expression".into(), e.clone()),
                    ("e -> keys e".into(), List(vec![E::str("code"), E::str("expression"), E::str("message")])),
                ] {
                    let mut env = c.env.clone();
                    let t = E::apply(source("err@try"), vec![Group(b(e.clone())), source(&h)]);
                    let got = run(&t.to_impl(), &mut env);
                    let v = if h.ends_with("expression") { Group(b(v)) } else { v };
                    match got {
                        Ok((Ok(g), ..)) if g == v => rec.trace(),
                        Ok((r, ..)) => rec.fail("handler", format!("{} gives {r:?} and not {}", t.debug(), v.debug())),
                        Err(p) => rec.fail("panic", p),
                    }
                }
                rec.state(&(code, message));
            }
        }
    })
    .init(init.clone());
    spaces.push(sources);

    let (ns, np, nh) = (SOURCES.len(), PLACES.len(), HANDLERS.len());
    let deep = if quick { 1 } else { np };
    let text = move |i: u64, root: &str| {
        let d = digits(i, &[ns as u64, np as u64, nh as u64, deep as u64]);
        let x = place(PLACES[d[3]], &place(PLACES[d[1]], SOURCES[d[0]].0));
        (x.replace("R/", &format!("{root}/")), HANDLERS[d[2]])
    };
    let h1 = held.clone();
    spaces.push(
        Space::new("handlers", (ns * np * nh * deep) as u64, move |i| format!("{:?}", text(i, "R")), move |i, rec| {
            let g = h1.borrow();
            let c = g.as_ref().unwrap();
            let (tried, handler) = text(i, &c.root);
            let (tried, handler) = (source(&tried), source(handler));
            rec.steps(3);
            // by definition
            let mut env = c.env.clone();
            let (r, mut out, mut vars) = match run(&tried.to_impl(), &mut env) {
                Ok(o) => o,
                Err(p) => return rec.fail("panic", p),
            };
            let want = match r {
                Ok(v) => Ok(v),
                Err((code, message)) => {
                    let t = Map([
                        ("code".to_string(), Int(code)),
                        ("message".to_string(), Str(message)),
                        ("expression".to_string(), Quote(b(tried.clone()))),
                    ].into());
                    match run(&E::apply(handler.clone(), vec![t]).to_impl(), &mut env) {
                        Ok((r, o, v)) => {
                            out += &o;
                            vars = v;
                            r
                        }
                        Err(p) => return rec.fail("panic", p),
                    }
                }
            };
            let mut env = c.env.clone();
            let t = E::apply(source("err@try"), vec![tried, handler]);
            match run(&t.to_impl(), &mut env) {
                Ok((got, o, v)) => {
                    if got != want {
                        rec.fail("value", format!("{}\ngives {got:?}\nnot   {want:?}", t.debug()))
                    } else if o != out {
                        rec.fail("output", format!("{}\nprints {o:?}\nnot    {out:?}", t.debug()))
                    } else if v != vars {
                        rec.fail("variables", format!("{}\nleaves {v:?}\nnot    {vars:?}", t.debug()))
                    } else {
                        rec.trace()
                    }
                    rec.state(&(format!("{got:?}"), o));
                }
                Err(p) => rec.fail("panic", p),
            }
        })
        .init(init),
    );
    let codes = Space::list("codes", vec![()], |_, rec| {
        rec.step();
        let env = full_env("/");
        let want = Map(CODES.iter().map(|(n, c)| (n.to_string(), Int(*c))).collect());
        match env.get("err") {
            Some(X::Map(m)) if builtins::matches(&want, &E::from_impl(&m["codes"])) => rec.trace(),
            o => rec.fail("codes", format!("{o:?}")),
        }
    });
    spaces.push(codes);
    Check {
        id: "C18",
        rule: "all programs up to a size that try, fail, handle, print and assign behave as in the reference evaluator; every error source in every place with every handler behaves as running it, and then (if it failed) the handler on the table of its code, message and expression; every source's error has its documented code and a message that names what it is about".into(),
        bounds: format!("programs of up to {n} nodes; {ns} sources x {np} places{} x {nh} handlers", if quick { "" } else { " x places" }),
        assumptions: vec!["errors of the file system are those of an unprivileged user".into()],
        spaces,
    }
}
