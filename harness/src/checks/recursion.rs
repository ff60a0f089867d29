//! C07: runaway recursion is reported, and bounded recursion is not.
use super::diff::*;
use super::proc::*;
use super::util::*;
use crate::engine::*;
use crate::spec::builtins::source;
use crate::spec::expr::E;
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;

/// A place for the recursive call, and whether an error in it comes out.
const FORMS: &[(&str, bool)] = &[
    ("{c}", true),
    ("1 + ({c})", true),
    ("({c}) + 1", true),
    ("[{c}]", true),
    ("{a = {c}}", true),
    ("({c}) @ a", true),
    ("if True { {c} } else { 0 }", true),
    ("if ({c}) {1} else {0}", true),
    ("for i in [1] { {c} }", true),
    ("for i in ({c}) { i }", true),
    ("{ let y = {c}; y }", true),
    ("{ {c}; 0 }", true),
    ("println ({c})", true),
    ("(z ~> {c}) 1", true),
    ("({c}) 1", true),
    ("fn@map (z ~> {c}) [1]", true),
    ("fn@filter (z ~> {c}) [1]", true),
    ("fn@reduce (a -> z ~> {c}) 0 [1]", true),
    ("fn@apply (z ~> {c}) [1]", true),
    ("fn@? True ({c}) 0", true),
    ("fn@? ({c}) 1 0", true),
    ("exec '({c})", true),
    ("eval '({c})", true),
    ("err@try ({c}) (e -> 5)", false),
    ("err@try ({c}) (e -> 1 5)", false),
    ("len ({c})", true),
    ("str ({c})", true),
    ("({c}) == 1", true),
    ("1 == ({c})", true),
    ("True && ({c})", true),
    ("! ({c})", true),
    ("0 to ({c})", true),
    ("list@foldl (a -> z ~> {c}) 0 [1]", true),
    ("list@foldr (z -> a ~> {c}) 0 [1]", true),
    ("insert [] 0 ({c})", true),
    ("string@replace ({c}) \"a\" \"b\"", true),
    ("math@abs ({c})", true),
    ("(({c}) | ({c}))", true),
    ("fmt@bold ({c})", true),
    ("string@split ({c}) \"a\"", true),
];

fn form(i: usize, call: &str) -> String {
    FORMS[i].0.replace("{c}", call)
}

const NAMES: &[&str] = &["+", "-", "@", "==", "&&", "!", "to", ">", "println", "len", "str", "insert", "exec", "eval", "fn", "err", "list", "string", "math"];

/// Two functions that call each other through two forms.
fn program(style: usize, a: usize, b: usize) -> (String, &'static str) {
    match style {
        0 => (format!("let f = x ~> {}\nlet g = x ~> {}\n", form(a, "g x"), form(b, "f x")), "f 1"),
        // functions that are given each other
        _ => (
            format!("let f = p -> q -> x -> {}\nlet g = p -> q -> x -> {}\n", form(a, "q q p x"), form(b, "q q p x")),
            "f f g 1",
        ),
    }
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let n = FORMS.len() as u64;
    // in the quick tier each form with itself and with a few others
    let partners: Vec<usize> = if q { vec![0, 9] } else { (0..FORMS.len()).collect() };
    let mut pairs = vec![];
    for s in 0..2usize {
        for a in 0..FORMS.len() {
            pairs.push((s, a, a));
            for b in &partners {
                if *b != a {
                    pairs.push((s, a, *b))
                }
            }
        }
    }
    let exe: Rc<RefCell<PathBuf>> = Default::default();
    let dir: Rc<RefCell<PathBuf>> = Default::default();
    let init = {
        let (exe, dir) = (exe.clone(), dir.clone());
        move |scratch: &std::path::Path| {
            *exe.borrow_mut() = tool(scratch, "dunesh", "bin/dunesh");
            unprivileged(scratch);
            *dir.borrow_mut() = scratch.join("home");
            std::fs::create_dir_all(scratch.join("home")).unwrap();
            std::fs::write(scratch.join("home/.dune-prelude"), "").unwrap();
            std::fs::write(scratch.join("home/include.dune"), "sys@include \"include.dune\"").unwrap();
            std::fs::write(scratch.join("home/import.dune"), "sys@import \"import.dune\"").unwrap();
            std::fs::write(scratch.join("home/ping.dune"), "1 + (sys@include \"pong.dune\")").unwrap();
            std::fs::write(scratch.join("home/pong.dune"), "[sys@include \"ping.dune\"]").unwrap();
        }
    };
    let (e3, d3) = (exe.clone(), dir.clone());
    let run = move |setup: &str, call: &str, propagates: bool, rec: &mut Rec| {
        let text = format!("{setup}{call}\nerr@try ({call}) (e -> println (\"code\" + (str (e @ code))))\nprintln (\"ali\" + \"ve\")\n");
        let o = Run::new(&exe.borrow(), &dir.borrow()).stdin(&text).timeout(100.0).go();
        rec.steps(3);
        rec.state(&(o.code, o.signal, o.out.contains("code5"), o.err.lines().count()));
        let what = || format!("{text}--- stdout\n{}\n--- stderr\n{}", head(&o.out), head(&o.err));
        if let Some(c) = o.crash() {
            rec.fail("crash", format!("the shell {c}\n{}", what()))
        } else if o.code != Some(0) || !o.out.contains("alive") {
            rec.fail("not usable", format!("the shell does not run the next command\n{}", what()))
        } else if propagates && (o.err.is_empty() || !o.out.contains("code5")) {
            rec.fail("not reported", format!("the recursion is not reported as such\n{}", what()))
        } else {
            rec.trace();
            rec.sample(|| text.clone());
        }
    };
    let run = Rc::new(run);
    let r2 = run.clone();
    let files: Vec<(&'static str, &'static str)> = vec![
        ("", "sys@include \"include.dune\""),
        ("", "sys@import \"import.dune\""),
        ("", "sys@include \"ping.dune\""),
        ("let w = x -> x x\n", "w w"),
        ("let w = x ~> x x\n", "w w"),
        ("let w = x -> 1 + (x x)\n", "w w"),
        ("let y = f -> (x -> f (x x)) (x -> f (x x))\n", "y (g -> g 1)"),
        ("let w = x ~> exec x\nlet p = '(w p)\n", "w p"),
        ("let p = '(exec p)\n", "exec p"),
        ("let p = '(1 + (exec p))\n", "exec p"),
        ("let p = \"exec (parse p)\"; let parse = sys@parse\n", "exec (sys@parse p)"),
    ];
    let mut refused = vec![];
    for deep in ["1 +", "", "(q ~> q)"] {
        for again in ["f 0", "1 + (f 0)", "fn@map (q ~> f 0) [1]", "eval '(f 0)", "exec '(f 0)", "for q in [1, 2] {f q}", "if (f 0) {1}", "[1, f 0]", "{a = f 0}", "(q -> f q) 1", "str (f 0)", "sys@include \"include.dune\"", "sys@import \"import.dune\"", "5 (f 0)"] {
            refused.push((deep, if q { 9000usize } else { 30000 }, again))
        }
    }
    // counting down: a recursion that ends must give its value
    let down: Vec<(usize, usize)> = (0..FORMS.len()).flat_map(|a| (0..FORMS.len()).map(move |b| (a, b))).collect();
    let depth = if q { 6 } else { 12 };
    let modelled: Vec<usize> = (0..FORMS.len()).filter(|i| !FORMS[*i].0.contains('|') && !FORMS[*i].0.contains("fmt@") && !FORMS[*i].0.contains("1 5")).collect();
    let _ = down;
    let m2 = modelled.clone();
    let mk = modelled.len() as u64;
    let held: Rc<RefCell<Option<Pair>>> = Default::default();
    let h2 = held.clone();
    let decode = move |i: u64| {
        let d = digits(i, &[2, mk, mk, depth + 1]);
        (d[0], m2[d[1]], m2[d[2]], d[3])
    };
    let decode = Rc::new(decode);
    let d2 = decode.clone();
    let bounded = move |(s, a, b, n): (usize, usize, usize, usize)| -> (String, String) {
        if s == 0 {
            (
                format!(
                    "let f = x ~> if (x > 0) {{ {} }} else {{ 7 }}; let g = x ~> if (x > 0) {{ {} }} else {{ 8 }}; None",
                    form(a, "g (x - 1)"),
                    form(b, "f (x - 1)")
                ),
                format!("f {n}"),
            )
        } else {
            (
                format!(
                    "let f = p -> q -> x -> if (x > 0) {{ {} }} else {{ 7 }}; let g = p -> q -> x -> if (x > 0) {{ {} }} else {{ 8 }}; None",
                    form(a, "q q p (x - 1)"),
                    form(b, "q q p (x - 1)")
                ),
                format!("f f g {n}"),
            )
        }
    };
    Check {
        id: "C07",
        rule: "two functions that call each other without end through every pair of ways to make a call (operands, lists, tables, conditions, loops, blocks, and every builtin that evaluates or applies), as macros and as functions that are given each other, source files that include each other, and self-application, in the real shell: it reports that the recursion is too deep, and runs the next command; counting down in the same ways ends with the value of the reference model".into(),
        bounds: format!("{n} forms; {} pairs run without end; {} pairs with depth 0-{depth}", pairs.len(), mk * mk * 2),
        assumptions: vec![],
        spaces: vec![
            Space::list("endless", pairs, move |(s, a, b), rec| {
                let (setup, call) = program(*s, *a, *b);
                // an error that a form catches is not seen outside
                run(&setup, call, FORMS[*a].1 && FORMS[*b].1, rec)
            })
            .timeout(200.0)
            .init(init.clone()),
            Space::list("endless files and terms", files, move |(setup, call), rec| r2(setup, call, true, rec)).timeout(200.0).init(init.clone()),
            // refused very many times: what is refused does not count against what comes after
            Space::list("refused again and again", refused, move |(deep, times, again), rec| {
                let text = format!(
                    "let done = False; let f = x ~> ({deep} (err@try (f x) (e ~> if done {{0}} else {{let done = True; for i in 0 to {times} {{err@try ({again}) (z -> 0)}}; 5}})))\nlet down = x ~> if (x > 0) {{1 + (down (x - 1))}} else {{0}}\nprintln \"first\" (len [f 1]) (down 100)\nprintln (\"ali\" + \"ve\") (down 100)\n"
                );
                let o = Run::new(&e3.borrow(), &d3.borrow()).stdin(&text).timeout(150.0).go();
                rec.steps(*times as u64);
                rec.state(&(o.code, o.signal, again));
                if o.code != Some(0) || !o.out.contains("first 1 100") || !o.out.contains("alive 100") {
                    rec.fail("not usable", format!("{text}--- stdout\n{}\n--- stderr\n{}", head(&o.out), head(&o.err)))
                } else {
                    rec.trace()
                }
            })
            .timeout(200.0)
            .init(init),
            {
                // the same way again and again, to a hundred levels
                let levels: Vec<usize> = if q { vec![20, 40, 60, 80, 100] } else { (13..=100).collect() };
                let n = levels.len() as u64;
                let m3 = modelled.clone();
                let case = Rc::new(move |i: u64| {
                    let d = digits(i, &[2, mk, n]);
                    (d[0], m3[d[1]], m3[d[1]], levels[d[2]])
                });
                let (c2, b2, b3) = (case.clone(), bounded.clone(), bounded.clone());
                let held: Rc<RefCell<Option<Pair>>> = Default::default();
                let h2 = held.clone();
                Space::new(
                    "counting down from far",
                    2 * mk * n,
                    move |i| {
                        let (a, b) = b2(c2(i));
                        format!("{a}; {b}")
                    },
                    move |i, rec| {
                        let (setup, call) = b3(case(i));
                        let g = held.borrow();
                        let mut p = (*g.as_ref().unwrap()).clone();
                        if step(&mut p, &source(&setup), rec, "definition", false) != Same::Yes {
                            return;
                        }
                        if step(&mut p, &source(&call), rec, "value", true) == Same::Yes {
                            rec.trace()
                        }
                    },
                )
                .init(move |scratch| {
                    prepare(scratch);
                    *h2.borrow_mut() = Some(Pair::new(NAMES));
                })
            },
            {
                let b2 = bounded.clone();
                Space::new(
                    "counting down",
                    2 * mk * mk * (depth + 1) as u64,
                    move |i| {
                        let (a, b) = b2(d2(i));
                        format!("{a}; {b}")
                    },
                    move |i, rec| {
                        let (setup, call) = bounded(decode(i));
                        let g = held.borrow();
                        let mut p = (*g.as_ref().unwrap()).clone();
                        if step(&mut p, &source(&setup), rec, "definition", false) != Same::Yes {
                            return;
                        }
                        let e: E = source(&call);
                        if step(&mut p, &e, rec, "value", true) == Same::Yes {
                            rec.trace()
                        }
                    },
                )
                .init(move |scratch| {
                    prepare(scratch);
                    *h2.borrow_mut() = Some(Pair::new(NAMES));
                })
            },
        ],
    }
}

fn head(s: &str) -> String {
    s.chars().take(600).collect()
}
