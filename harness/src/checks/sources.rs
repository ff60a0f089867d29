//! C31 programs spread over files: what including and importing them does.
use super::diff::prepare;
use super::util::*;
use crate::engine::*;
use crate::spec::expr::E;
use dune::{Environment, Expression as X};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Statements of the included file. INNER stands for including or importing another file.
const LINES: &[&str] = &[
    "let x = 1", "let x = x + 1", "let f = y -> x + y", "let x = f 2", "println x", "x", "let m = y ~> { let x = y }", "m 7", "sys@unset 'x", "if x > 1 { let z = 1 } else { let z = 2 }", "for i in [3, 4] { let x = x + i }", "undefined", "# let x = 9\n", "let", "\"text\"", "INNER", "let w = INNER", "{ INNER; x }", "let q = 'x",
];

/// What the other file says.
const INNER: &[&str] = &["", "let x = 20", "x", "undefined", ")", "let f = y -> y * 3\nprintln \"inner\"\nf"];

/// Where a program includes it. HERE stands for that. (A function has the variables that it mentions.)
const TEMPLATES: &[&str] = &[
    "HERE",
    "let r = HERE",
    "{ HERE; println x }",
    "(x -> { let u = [x + 1, x - 1, x * 1, x > 1, x < 1, f, println, sys, err]; HERE }) 50",
    "(v ~> HERE) 60",
    "for i in [1, 2] { HERE }",
    "HERE; HERE",
    "[x, HERE, x]",
    "let g = v -> { let u = [x + 1, x - 1, x * 1, x > 1, x < 1, f, println, sys, err]; HERE; x }; let x = 70; let r = g 1",
    "let k = HERE; let x = x + 1; let r = k",
    "if x > 0 HERE else { 0 }",
    "let e = err@try (HERE) (e -> 99)",
];

const NAMES: &[&str] = &["@", "fs", "sys", "err", "println", "+", "-", "*", ">", "<"];

fn place(x: &X, name: &str, with: &X) -> X {
    let b = |x: &X| Box::new(place(x, name, with));
    let v = |v: &[X]| v.iter().map(|x| place(x, name, with)).collect::<Vec<_>>();
    match x {
        X::Symbol(s) if s == name => with.clone(),
        X::Group(e) => X::Group(b(e)),
        X::Quote(e) => X::Quote(b(e)),
        X::Assign(n, e) => X::Assign(n.clone(), b(e)),
        X::For(n, l, e) => X::For(n.clone(), b(l), b(e)),
        X::If(c, t, e) => X::If(b(c), b(t), b(e)),
        X::Apply(f, a) => X::Apply(b(f), v(a)),
        X::Lambda(n, e, env) => X::Lambda(n.clone(), b(e), env.clone()),
        X::Macro(n, e) => X::Macro(n.clone(), b(e)),
        X::List(l) => X::List(v(l)),
        X::Do(l) => X::Do(v(l)),
        other => other.clone(),
    }
}

/// The program a file is, run here, or with variables of its own. `None`: there is none.
fn instead(text: Option<&str>, import: bool) -> Option<X> {
    let program = dune::parse_script(text?).ok()?;
    Some(if import {
        X::Apply(Box::new(src("sys@eval")), vec![X::Quote(Box::new(program))])
    } else {
        program
    })
}

/// In place of a file that cannot be run: an error of the kind that gives.
fn broken() -> X {
    src("err@try 1")
}

/// Value or code of the error, the output, and the variables.
type Seen = (Result<E, i64>, String, BTreeMap<String, E>);

fn run(x: &X, env: &mut Environment) -> Result<Seen, String> {
    let (r, out, _) = capture(|| guard(|| x.eval(env)));
    let r = r?.map(|v| E::from_impl(&v)).map_err(|e| if let dune::Error::SyntaxError(..) = e { broken_code() } else { e.code() });
    let vars = env.bindings.iter().filter(|(k, _)| !NAMES.contains(&k.as_str()) && *k != "g").map(|(k, v)| (k.clone(), E::from_impl(v))).collect();
    Ok((r, String::from_utf8_lossy(&out).to_string(), vars))
}

fn show(s: &Seen) -> String {
    let v = s.2.iter().map(|(k, v)| format!("{k}={}", v.debug())).collect::<Vec<_>>().join(" ");
    format!("{:?} printing {:?} leaving {v}", s.0.as_ref().map(|v| v.debug()), s.1)
}

struct World {
    env: Environment,
    dir: PathBuf,
}

fn broken_code() -> i64 {
    dune::Error::CustomError(String::new()).code()
}

type Held = Rc<RefCell<Option<World>>>;

fn world() -> (Held, impl Fn(&Path) + Clone) {
    let h: Held = Rc::new(RefCell::new(None));
    let h2 = h.clone();
    (h, move |scratch: &Path| {
        prepare(scratch);
        let full = full_env("/dev");
        let mut env = Environment::new();
        for n in NAMES {
            env.define(n, full.get(n).unwrap())
        }
        let dir = std::fs::canonicalize(scratch).unwrap();
        env.set_cwd(dir.to_str().unwrap());
        *h2.borrow_mut() = Some(World { env, dir });
    })
}

fn compare(got: Result<Seen, String>, want: Result<Seen, String>, what: impl Fn() -> String, rec: &mut Rec) {
    match (got, want) {
        (Err(p), _) => rec.fail("panic", format!("{}: {p}", what())),
        // what the program itself does wrong is another property
        (_, Err(_)) => rec.note("the program itself panics"),
        (Ok(g), Ok(w)) if g == w => {
            rec.state(&show(&g));
            rec.trace();
        }
        (Ok(g), Ok(w)) => rec.fail("differs", format!("{}\nwant {}\ngot  {}", what(), show(&w), show(&g))),
    }
}

/// A program that includes a file that includes a file, against that program written in one.
fn nested(lines: u32) -> Space {
    let (h, init) = world();
    let (l, t, n) = (LINES.len() as u64, TEMPLATES.len() as u64, INNER.len() as u64);
    let w = words(l, 0, lines);
    let case = move |i: u64| {
        let d = digits(i, &[w, t, 4, n]);
        let lines: Vec<&str> = word(d[0] as u64, l, 0, lines).iter().map(|&d| LINES[d]).collect();
        (lines.join(";\n"), TEMPLATES[d[1]], d[2] & 1 == 1, d[2] & 2 == 2, INNER[d[3]])
    };
    let text = move |i: u64| {
        let c = case(i);
        format!("{:?} with {} of {:?}, where INNER {} {:?}", c.1, if c.2 { "import" } else { "include" }, c.0, if c.3 { "imports" } else { "includes" }, c.4)
    };
    Space::new("programs in files", w * t * 4 * n, text, move |i, rec| {
        let (outer, template, import, inner_import, inner) = case(i);
        let nests = outer.contains("INNER");
        if !nests && (inner_import || !inner.is_empty()) {
            // the same without the other file
            return;
        }
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        let word = |i: bool| if i { "import" } else { "include" };
        let write = |name: &str, text: &str| {
            let p = world.dir.join(name);
            std::fs::write(&p, text).unwrap();
        };
        write("a.ds", &outer.replace("INNER", &format!("(sys@{} \"b.ds\")", word(inner_import))));
        if nests {
            write("b.ds", inner)
        }
        let real = dune::parse_script(&template.replace("HERE", &format!("(sys@{} \"a.ds\")", word(import)))).unwrap();
        let inner = instead(Some(inner), inner_import).unwrap_or_else(broken);
        let outer = instead(Some(&outer), import).map(|x| place(&x, "INNER", &inner)).unwrap_or_else(broken);
        let model = place(&dune::parse_script(template).unwrap(), "HERE", &outer);
        let start = |env: &mut Environment| {
            env.define("x", X::Integer(10));
            let f = src("y -> y").eval(env).unwrap();
            env.define("f", f);
        };
        rec.steps(2);
        let mut a = world.env.clone();
        start(&mut a);
        let got = run(&real, &mut a);
        let mut b = world.env.clone();
        start(&mut b);
        let want = run(&model, &mut b);
        compare(got, want, || format!("{template:?}"), rec);
    })
    .init(init)
}

/// The files of a tree, by their names from its root.
fn tree(root: &Path) {
    let w = |n: &str, t: &[u8]| std::fs::write(root.join(n), t).unwrap();
    let link = |n: &str, to: &str| std::os::unix::fs::symlink(to, root.join(n)).unwrap();
    for d in ["d", "d/e", "a b", "empty"] {
        std::fs::create_dir(root.join(d)).unwrap()
    }
    for (k, n) in ["a.ds", "d/a.ds", "d/e/a.ds", "a b/c d.ds", "d/é.ds", "plain", "d/.hidden"].iter().enumerate() {
        w(n, format!("let x = {k}; println {n:?}; x * 10").as_bytes())
    }
    w("wrong.ds", b"let x = 5; )");
    w("bytes.ds", b"let x = 6 # \xff\xfe");
    w("nothing.ds", b"");
    w("secret.ds", b"let x = 7");
    link("link.ds", "d/a.ds");
    link("d/up.ds", "../a.ds");
    link("dirlink", "d/e");
    link("dangling.ds", "missing.ds");
    link("loop.ds", "loop.ds");
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(root.join("secret.ds"), std::fs::Permissions::from_mode(0)).unwrap();
}

const PATHS: &[&str] = &[
    "a.ds", "./a.ds", "d/a.ds", "d/./e/../a.ds", "d/../a.ds", "../a.ds", "e/a.ds", "a b/c d.ds", "d/é.ds", "plain", "d/.hidden", "link.ds", "d/up.ds", "up.ds", "dirlink/a.ds", "dirlink/../a.ds", "//", "", ".", "..", "d", "d/", "a.ds/", "a.ds/..", "missing.ds", "missing/../a.ds", "empty/../a.ds", "dangling.ds", "loop.ds", "secret.ds", "wrong.ds", "bytes.ds", "nothing.ds", "a", "A.DS", "~/a.ds", "$x", "a.ds ", "d//a.ds", "*.ds", "a.ds\n",
];
const CWDS: &[&str] = &["", "d", "d/e", "a b", "dirlink", "empty", "missing"];

fn paths() -> Space {
    let (h, init) = world();
    let init = move |scratch: &Path| {
        init(scratch);
        tree(scratch)
    };
    let (p, c) = (PATHS.len() as u64, CWDS.len() as u64);
    let case = move |i: u64| {
        let d = digits(i, &[p, c, 2, 3, 2]);
        (PATHS[d[0]], CWDS[d[1]], d[2] == 1, d[3], d[4] == 1)
    };
    Space::new("places of files", p * c * 2 * 3 * 2, move |i| format!("{:?} (name, directory, import?, how it is written, from the root?)", case(i)), move |i, rec| {
        let (name, cwd, import, how, absolute) = case(i);
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        let dir = world.dir.join(cwd);
        let cwd = dir.to_str().unwrap();
        let name = if absolute { format!("{}/{name}", world.dir.to_str().unwrap()) } else { name.to_string() };
        let mut env = world.env.clone();
        env.set_cwd(cwd);
        env.define("x", X::Integer(-1));
        env.define("p", X::String(name.clone()));
        let path = match how {
            0 => X::String(name.clone()),
            1 => X::Symbol("p".into()),
            _ => src("{ let x = x - 1; p }"),
        };
        let word = if import { "sys@import" } else { "sys@include" };
        let real = X::Do(vec![X::Apply(Box::new(src(word)), vec![path.clone()]), src("x")]);
        // what a program reads from that path is what the system says it is
        let text = std::fs::read_to_string(dir.join(&name)).ok();
        let program = instead(text.as_deref(), import).unwrap_or_else(broken);
        rec.note(if text.is_some() { "readable" } else { "not readable" });
        let model = X::Do(vec![path, program, src("x")]);
        let mut other = env.clone();
        rec.steps(2);
        let got = run(&real, &mut env);
        let want = run(&model, &mut other);
        compare(got, want, || format!("{word} {name:?}"), rec);
    })
    .init(init)
}

/// Directories entered and left, and the file `a.ds` of each run, step by step.
const MOVES: &[&str] = &["d", "..", "e", ".", "missing", "/"];
const RUNS: &[&str] = &["sys@include \"a.ds\"", "sys@import \"a.ds\"", "sys@include \"go.ds\"", "sys@import \"go.ds\""];

fn walks(n: u32) -> Space {
    let (h, init) = world();
    let init = move |scratch: &Path| {
        init(scratch);
        for (d, go) in [("", "d"), ("d", "e"), ("d/e", "..")] {
            std::fs::create_dir_all(scratch.join(d)).unwrap();
            std::fs::write(scratch.join(d).join("a.ds"), format!("let seen = x; let x = \"{d}\"; x")).unwrap();
            // enters a directory and runs what is there
            std::fs::write(scratch.join(d).join("go.ds"), format!("sys@cd \"{go}\"; sys@include \"a.ds\"; let went = sys@cwd ()")).unwrap();
        }
    };
    let k = (MOVES.len() + RUNS.len()) as u64;
    let walk = move |i: u64| {
        word(i, k, 1, n).into_iter().map(|d| if d < MOVES.len() { format!("sys@cd {:?}", MOVES[d]) } else { RUNS[d - MOVES.len()].to_string() }).collect::<Vec<_>>()
    };
    Space::new("walks", words(k, 1, n), move |i| walk(i).join("; "), move |i, rec| {
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        let root = world.dir.to_str().unwrap();
        let mut env = world.env.clone();
        env.define("x", X::String("start".into()));
        // where it is, below the root, and its variables
        struct S {
            at: PathBuf,
            x: String,
            seen: Option<String>,
            went: Option<String>,
        }
        let mut s = S { at: world.dir.clone(), x: "start".into(), seen: None, went: None };
        let sub = |at: &Path| at.strip_prefix(&world.dir).ok().map(|p| p.to_str().unwrap().to_string()).filter(|p| ["", "d", "d/e"].contains(&p.as_str()));
        for (n, op) in walk(i).iter().enumerate() {
            rec.step();
            // the model: Ok(value), or that it cannot be done
            let enter = |at: &Path, to: &str| -> Option<PathBuf> {
                let p = match to {
                    "/" => PathBuf::from("/"),
                    "." => at.to_path_buf(),
                    ".." => at.parent().unwrap_or(at).to_path_buf(),
                    to => at.join(to),
                };
                p.is_dir().then_some(p)
            };
            let before = (s.at.clone(), s.x.clone(), s.seen.clone(), s.went.clone());
            let import = op.contains("import");
            let visit = |s: &mut S| -> Result<String, ()> {
                let d = sub(&s.at).ok_or(())?;
                s.seen = Some(s.x.clone());
                s.x = d.clone();
                Ok(d)
            };
            let want: Result<String, ()> = if let Some(to) = op.strip_prefix("sys@cd ") {
                match enter(&s.at, to.trim_matches('"')) {
                    Some(p) => {
                        s.at = p;
                        Ok("None".into())
                    }
                    None => Err(()),
                }
            } else if op.contains("a.ds") {
                visit(&mut s).map(|v| format!("{v:?}"))
            } else {
                (|| {
                    let go = match sub(&s.at).ok_or(())?.as_str() {
                        "" => "d",
                        "d" => "e",
                        _ => "..",
                    };
                    s.at = enter(&s.at, go).ok_or(())?;
                    visit(&mut s)?;
                    s.went = Some(s.at.to_str().unwrap().into());
                    Ok("None".to_string())
                })()
            };
            if import {
                (s.at, s.x, s.seen, s.went) = before
            }
            let x = src(op);
            let got = match guard(|| x.eval(&mut env)) {
                Err(p) => return rec.fail("panic", format!("step {}: {p}", n + 1)),
                Ok(r) => r.map(|v| E::from_impl(&v).debug()).map_err(|_| ()),
            };
            if got != want {
                return rec.fail("step", format!("step {} gives {got:?} and not {want:?}", n + 1));
            }
            let var = |n: &str| env.get(n).map(|v| E::from_impl(&v).debug());
            let quoted = |s: &Option<String>| s.as_ref().map(|s| format!("{s:?}"));
            if env.get_cwd() != s.at.to_str().unwrap() || var("x") != quoted(&Some(s.x.clone())) || var("seen") != quoted(&s.seen) || var("went") != quoted(&s.went) {
                return rec.fail("left", format!("step {} leaves cwd {:?}, x {:?}, seen {:?}, went {:?} and not {:?}, {:?}, {:?}, {:?}", n + 1, env.get_cwd(), var("x"), var("seen"), var("went"), s.at, s.x, s.seen, s.went));
            }
            rec.state(&(s.at.to_str().unwrap().replace(root, ""), &s.x, &s.seen, &s.went));
        }
        rec.trace();
    })
    .init(init)
}

/// Texts a file can have, whole and in pieces.
const BYTES: &[&[u8]] = &[b"let x = 1", b";", b"\n", b"\r\n", b"\r", b" ", b"\t", b"# c", b"\"a\nb\"", b"x", "é".as_bytes(), b"\"\xc3\xa9\"", b"\xff", b"\0", b"\xef\xbb\xbf", b"#!/usr/bin/env dunesh", b"println x"];

fn contents(n: u32) -> Space {
    let (h, init) = world();
    let k = BYTES.len() as u64;
    let text = move |i: u64| word(i / 2, k, 0, n).iter().flat_map(|&d| BYTES[d].to_vec()).collect::<Vec<u8>>();
    Space::new("contents", 2 * words(k, 0, n), move |i| format!("{:?} {}", String::from_utf8_lossy(&text(i)), if i % 2 == 1 { "imported" } else { "included" }), move |i, rec| {
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        let t = text(i);
        let import = i % 2 == 1;
        std::fs::write(world.dir.join("a.ds"), &t).unwrap();
        let mut env = world.env.clone();
        env.define("x", X::Integer(3));
        let mut other = env.clone();
        let model = instead(String::from_utf8(t).ok().as_deref(), import).unwrap_or_else(broken);
        rec.steps(2);
        let got = run(&src(if import { "sys@import \"a.ds\"" } else { "sys@include \"a.ds\"" }), &mut env);
        let want = run(&model, &mut other);
        compare(got, want, || "the file".into(), rec);
    })
    .init(init)
}

/// Files that include each other without end: an error, and not the end of the shell.
fn circles() -> Space {
    let (h, init) = world();
    let mut cases = vec![];
    for n in 1..=3usize {
        for forms in 0..1 << n {
            for wrap in ["CALL", "{ CALL }", "if True { CALL } else { 0 }", "let y = CALL", "(v -> CALL) 1", "for i in [1] { CALL }", "err@try (CALL) (e -> 5)"] {
                cases.push((n, forms, wrap))
            }
        }
    }
    Space::list("circles", cases, move |&(n, forms, wrap), rec| {
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        for k in 0..n {
            let word = if forms >> k & 1 == 1 { "import" } else { "include" };
            let call = format!("(sys@{word} \"f{}.ds\")", (k + 1) % n);
            std::fs::write(world.dir.join(format!("f{k}.ds")), wrap.replace("CALL", &call)).unwrap();
        }
        let mut env = world.env.clone();
        rec.step();
        match guard(|| src("sys@include \"f0.ds\"").eval(&mut env)) {
            Err(p) => rec.fail("panic", p),
            Ok(Ok(v)) if wrap.contains("try") => {
                rec.state(&E::from_impl(&v).debug());
            }
            Ok(Ok(v)) => rec.fail("value", format!("{:?}", E::from_impl(&v).debug())),
            Ok(Err(dune::Error::RecursionDepth(..))) => rec.trace(),
            Ok(Err(e)) => rec.fail("error", format!("code {}", e.code())),
        }
        rec.state(&(n, forms, wrap));
    })
    .timeout(60.0)
    .init(init)
}

/// What the files can be rewritten to: of one length, so that only what they say tells them apart.
const VERSIONS: &[&str] = &["let x = x + 1; x  ", "let x = x * 2; x  ", "let y = x + 3; y  ", "let y = x + 3; y )"];
/// How they are run.
const CALLS: &[&str] = &[
    "sys@include \"a.ds\"",
    "sys@import \"a.ds\"",
    "sys@include \"d/../a.ds\"",
    "sys@include \"b.ds\"",
    "[sys@include \"a.ds\", sys@import \"a.ds\"]",
    "(n -> { let x = n + 0; sys@include \"a.ds\" }) 1",
];

/// Histories of files that are rewritten, removed and run: what is run is what the file is then.
fn changing(n: u32) -> Space {
    let (h, init) = world();
    let init = move |scratch: &Path| {
        init(scratch);
        std::fs::create_dir_all(scratch.join("d")).unwrap();
        std::fs::write(scratch.join("b.ds"), "let x = x + 10; sys@include \"a.ds\"").unwrap();
    };
    let v = VERSIONS.len();
    let k = (v + 3 + CALLS.len()) as u64;
    let steps = move |i: u64| -> Vec<String> {
        word(i, k, 1, n)
            .into_iter()
            .map(|d| match d {
                d if d < v => format!("a.ds is {:?}", VERSIONS[d]),
                d if d == v => "a.ds is removed".into(),
                d if d == v + 1 => "a.ds is replaced by a link to c.ds".into(),
                d if d == v + 2 => "c.ds is rewritten".into(),
                d => CALLS[d - v - 3].into(),
            })
            .collect()
    };
    Space::new("files that change", words(k, 1, n), move |i| steps(i).join("; "), move |i, rec| {
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        let (a, c) = (world.dir.join("a.ds"), world.dir.join("c.ds"));
        let _ = std::fs::remove_file(&a);
        std::fs::write(&c, "let x = x - 1; x  ").unwrap();
        let mut env = world.env.clone();
        env.define("x", X::Integer(5));
        let mut other = env.clone();
        for (at, d) in word(i, k, 1, n).into_iter().enumerate() {
            rec.step();
            if d < v + 3 {
                if d != v + 2 && a.symlink_metadata().is_ok() && (d >= v || a.is_symlink()) {
                    std::fs::remove_file(&a).unwrap()
                }
                match d {
                    d if d < v => std::fs::write(&a, VERSIONS[d]).unwrap(),
                    d if d == v => {}
                    d if d == v + 1 => std::os::unix::fs::symlink("c.ds", &a).unwrap(),
                    _ => std::fs::write(&c, "let x = x * 7; x  ").unwrap(),
                }
                continue;
            }
            let text = std::fs::read_to_string(&a).ok();
            let here = |import| instead(text.as_deref(), import).unwrap_or_else(broken);
            let model = match d - v - 3 {
                0 | 2 => here(false),
                1 => here(true),
                3 => X::Do(vec![src("let x = x + 10"), here(false)]),
                4 => X::List(vec![here(false), here(true)]),
                _ => X::Apply(Box::new(X::Group(Box::new(place(&src("n -> { let x = n + 0; HERE }"), "HERE", &here(false))))), vec![X::Integer(1)]),
            };
            let call = match d - v - 3 {
                5 => "(n -> { let x = n + 0; let u = [x + 1, x * 1, x - 1]; sys@include \"a.ds\" }) 1",
                c => CALLS[c],
            };
            let got = run(&src(call), &mut env);
            let want = run(&model, &mut other);
            let same = matches!((&got, &want), (Ok(g), Ok(w)) if g == w);
            compare(got, want, || format!("step {}", at + 1), rec);
            if !same {
                return;
            }
        }
    })
    .init(init)
}

/// The same histories as one program, that writes the files itself.
fn changing_itself(n: u32) -> Space {
    let (h, init) = world();
    let init = move |scratch: &Path| {
        init(scratch);
        std::fs::create_dir_all(scratch.join("d")).unwrap();
        std::fs::write(scratch.join("b.ds"), "let x = x + 10; sys@include \"a.ds\"").unwrap();
    };
    let v = VERSIONS.len();
    let k = (v + 1 + CALLS.len()) as u64;
    // the program, and the one with the files' texts in place
    let programs = move |i: u64| {
        let (mut real, mut model): (Vec<String>, Vec<X>) = (vec![], vec![]);
        let mut text: Option<&str> = None;
        for d in word(i, k, 1, n) {
            if d < v {
                text = Some(VERSIONS[d]);
                real.push(format!("fs@write \"a.ds\" {:?}", VERSIONS[d]));
                continue;
            }
            if d == v {
                real.push(if text.is_some() { "fs@rm \"a.ds\"" } else { "fs@write \"other\" \"\"" }.into());
                text = None;
                continue;
            }
            let here = |import| instead(text, import).unwrap_or_else(broken);
            let step = match d - v - 1 {
                0 | 2 => here(false),
                1 => here(true),
                3 => X::Do(vec![src("let x = x + 10"), here(false)]),
                4 => X::List(vec![here(false), here(true)]),
                _ => X::Apply(Box::new(X::Group(Box::new(place(&src("n -> { let x = n + 0; HERE }"), "HERE", &here(false))))), vec![X::Integer(1)]),
            };
            real.push(match d - v - 1 {
                5 => "println ((n -> { let x = n + 0; let u = [x + 1, x * 1, x - 1]; sys@include \"a.ds\" }) 1)".into(),
                c => format!("println ({})", CALLS[c]),
            });
            model.push(X::Apply(Box::new(X::Symbol("println".into())), vec![step]));
        }
        real.push("x".into());
        model.push(X::Symbol("x".into()));
        (real.join(";\n"), X::Do(model))
    };
    Space::new("files that a program changes", words(k, 1, n), move |i| programs(i).0, move |i, rec| {
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        let _ = std::fs::remove_file(world.dir.join("a.ds"));
        let mut env = world.env.clone();
        env.define("x", X::Integer(5));
        let mut other = env.clone();
        let (real, model) = programs(i);
        rec.steps(2);
        let got = run(&src(&real), &mut env);
        let want = run(&model, &mut other);
        compare(got, want, || "the program".into(), rec);
    })
    .init(init)
}

/// Long chains of files, the same file many times, and long files.
fn large(q: bool) -> Space {
    let (h, init) = world();
    let mut cases = vec![];
    for n in if q { vec![1, 2, 10, 20, 30] } else { (1..=40).collect() } {
        for how in 0..4 {
            cases.push(("chain", n, how))
        }
    }
    for n in [1, 2, 10, 99, 100, 101, 300, if q { 500 } else { 3000 }] {
        for how in 0..4 {
            cases.push(("again", n, how));
            cases.push(("long", n, how))
        }
    }
    Space::list("large", cases, move |&(kind, n, how), rec| {
        let h = h.borrow();
        let world = h.as_ref().unwrap();
        // which of them are imported
        let import = |k: usize| [false, true, k % 2 == 0, k % 2 == 1][how];
        let mut env = world.env.clone();
        env.define("x", X::Integer(1));
        rec.steps(n as u64);
        let word = |import| if import { "import" } else { "include" };
        let mut x = 1;
        let mut out = String::new();
        let (program, vars) = match kind {
            "chain" => {
                for k in 0..n {
                    std::fs::write(world.dir.join(format!("f{k}.ds")), format!("let x = x + {k};\nprintln x;\nlet w{k} = sys@{} \"f{}.ds\";\n[x] + w{k}\n", word(import(k + 1)), k + 1)).unwrap();
                }
                std::fs::write(world.dir.join(format!("f{n}.ds")), "[]").unwrap();
                (format!("sys@{} \"f0.ds\"", word(import(0))), n)
            }
            "again" => {
                std::fs::write(world.dir.join("f.ds"), "let x = x + 1; println x; [x]").unwrap();
                ((0..n).map(|k| format!("sys@{} \"f.ds\"", word(import(k)))).collect::<Vec<_>>().join(";\n"), 0)
            }
            _ => {
                std::fs::write(world.dir.join("f.ds"), (0..n).map(|k| format!("let x = x + {k}; println x;\n")).collect::<String>() + "[x]").unwrap();
                (format!("sys@{} \"f.ds\"", word(import(0))), 0)
            }
        };
        // what each sees, and what is left
        let mut left = 1;
        let mut value = vec![];
        match kind {
            "chain" => {
                let mut all = vec![];
                for k in 0..n {
                    x += k;
                    out += &format!("{x}\n");
                    all.push(x);
                }
                // a file's last line sees what the ones it includes have left
                let own = all.clone();
                for k in 0..n {
                    let mut end = k;
                    while end + 1 < n && !import(end + 1) {
                        end += 1
                    }
                    value.push(own[end]);
                }
                let mut end = 0;
                while end + 1 < n && !import(end + 1) {
                    end += 1
                }
                if !import(0) {
                    left = own[end]
                }
            }
            "again" => {
                let mut v = 0;
                for k in 0..n {
                    v = left + 1;
                    out += &format!("{v}\n");
                    if !import(k) {
                        left = v
                    }
                }
                value.push(v)
            }
            _ => {
                for k in 0..n {
                    x += k;
                    out += &format!("{x}\n");
                }
                value.push(x);
                if !import(0) {
                    left = x
                }
            }
        }
        let known = (0..vars).take_while(|&k| !import(k)).count();
        match run(&src(&program), &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, printed, vars)) => {
                let got = r.as_ref().map(|v| v.debug()).map_err(|e| *e);
                let x = vars.get("x").map(|v| v.debug());
                let w = vars.keys().filter(|k| k.starts_with('w')).count();
                if got != Ok(format!("{value:?}")) || printed != out || x != Some(left.to_string()) || w != known {
                    rec.fail("large", format!("{kind} of {n}: {:.300?}, x = {x:?}, {w} others known, {} printed, and not {:.300?}, {left}, {known}, {}", got, printed.len(), value, out.len()))
                } else {
                    rec.trace()
                }
                rec.state(&(kind, n, how));
            }
        }
    })
    .timeout(60.0)
    .init(init)
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let (a, b, c) = if q { (2, 5, 3) } else { (3, 6, 4) };
    Check {
        id: "C31",
        rule: "every program in files, run by the shell and compared with that program written in one; every place of a file; every walk of steps".into(),
        bounds: format!("files of up to {a} of {} statements, including or importing {} others, included or imported in {} ways; {} names from {} directories; walks of up to {b} of {} steps; contents of up to {c} of {} pieces; circles of up to 3 files; histories of up to {} changes to the files and runs of them; chains of up to 40 files, files of up to 3000 lines, and one run up to 3000 times", LINES.len(), INNER.len(), TEMPLATES.len(), PATHS.len(), CWDS.len(), MOVES.len() + RUNS.len(), BYTES.len(), if q { 4 } else { 5 }),
        assumptions: vec!["the program written in one file is evaluated as it should be (C02, C05)".into()],
        spaces: vec![nested(a), paths(), walks(b), contents(c), circles(), changing(if q { 4 } else { 5 }), changing_itself(if q { 4 } else { 6 }), large(q)],
    }
}
