//! C32 the prelude: what the shell's own scripts define.
use super::util::*;
use super::{proc, session};
use crate::clock;
use crate::engine::*;
use crate::spec::term::show;
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;

const DEFAULT: &str = include_str!("/repo/src/.default-dune-prelude");
const INTRO: &str = include_str!("/repo/src/.intro-dune-prelude");
const SCRIPTS: &[(&str, &str)] = &[("default", DEFAULT), ("intro", INTRO)];

const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];

fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

fn days(m: i64, y: i64) -> i64 {
    [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1]
}

/// The day of the week of the first of January of each year, from a Monday in the year 1. Sunday is 0.
fn first(m: i64, y: i64) -> i64 {
    let before = y - 1;
    let mut day = 1 + 365 * before + before / 4 - before / 100 + before / 400;
    for i in 1..m {
        day += days(i, y)
    }
    day % 7
}

/// Text without its styles.
fn plain(s: &str) -> Result<String, String> {
    show(s).map(|t| t.text())
}

/// A calendar of a month with a mark before a day.
fn calendar(text: &str, m: i64, d: i64, y: i64) -> Result<(), String> {
    let lines: Vec<Vec<char>> = text.lines().map(|l| l.chars().collect()).collect();
    let wrong = |e: String| Err(format!("{e}:\n{text}"));
    if lines.iter().any(|l| l.len() != lines[0].len()) {
        return wrong("not a rectangle".into());
    }
    let inner: Vec<String> = lines.iter().skip(1).take(lines.len() - 2).map(|l| l[1..l.len() - 1].iter().collect()).collect();
    if !lines[0].iter().collect::<String>().contains("Calendar") {
        return wrong("no title".into());
    }
    let head = format!("{} {d}, {y}", MONTHS[m as usize - 1]);
    if inner[0].trim() != head {
        return wrong(format!("{:?} and not {head:?}", inner[0].trim()));
    }
    let room = inner[0].chars().count() as i64 - head.len() as i64;
    let left = inner[0].chars().take_while(|c| *c == ' ').count() as i64;
    if (2 * left - room).abs() > 2 {
        return wrong("not in the middle".into());
    }
    let week = ["Su", "Mo", "Tu", "We", "Th", "Fr", "Sa"];
    if inner[1].split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>() != week {
        return wrong("the days of the week".into());
    }
    // where the columns end
    let ends: Vec<usize> = week.iter().map(|w| inner[1].find(w).unwrap() + 2).collect();
    let start = first(m, y);
    let rows = (start + days(m, y) + 6) / 7;
    for r in 0..(inner.len() as i64 - 2).max(rows) {
        let Some(row) = inner.get(2 + r as usize) else { return wrong("too few rows".into()) };
        let row: Vec<char> = row.chars().collect();
        let mut at = 0;
        for (c, end) in ends.iter().enumerate() {
            let day = 7 * r + c as i64 - start + 1;
            let want = if day < 1 || day > days(m, y) {
                String::new()
            } else if day == d {
                format!("*{}{day}", if day < 10 { if row[*end - 2] == '*' { "" } else { " " } } else { "" })
            } else {
                day.to_string()
            };
            let cell: String = row[at..*end].iter().collect();
            // the mark may stand right before the day or in its column's first place
            let got = cell.trim_start();
            if got != want {
                return wrong(format!("{got:?} and not {want:?} in row {r}, column {c}"));
            }
            at = *end;
        }
        if row[at..].iter().any(|c| *c != ' ') {
            return wrong(format!("something behind row {r}"));
        }
    }
    Ok(())
}

thread_local! {
    static WIDTH: RefCell<i64> = const { RefCell::new(80) };
}

/// What the shell defines, on a terminal of a width of our choice, where this script has been run.
fn environment(cwd: &str, script: Option<&str>) -> (Environment, String) {
    let mut env = session::defined(cwd);
    for module in ["console", "std"] {
        let Some(X::Map(mut t)) = env.get(module) else { panic!("no {module}") };
        let width = X::builtin("width", |_, _| Ok(X::Integer(WIDTH.with(|w| *w.borrow()))), "get the width of the console");
        if module == "console" {
            t.insert("width".into(), width);
        } else if let Some(X::Map(c)) = t.get_mut("console") {
            c.insert("width".into(), width);
        }
        env.define(module, X::Map(t));
    }
    let Some(script) = script else { return (env, String::new()) };
    let (r, out, err) = capture(|| match dune::parse_script(script) {
        Ok(x) => x.eval(&mut env).map_err(|e| e.to_string()),
        Err(e) => Err(format!("{e:?}")),
    });
    let mut said = String::from_utf8_lossy(&out).to_string();
    if let Err(e) = r {
        said += &format!("\nERROR {e}");
    }
    if !err.is_empty() {
        said += &format!("\nERROR {}", String::from_utf8_lossy(&err));
    }
    (env, said)
}

/// The part of the introduction that defines things.
fn definitions(script: usize) -> String {
    let t = SCRIPTS[script].1;
    if SCRIPTS[script].0 == "intro" {
        t.trim_end().trim_end_matches("intro ();").into()
    } else {
        t.into()
    }
}

#[derive(Default)]
struct Place {
    root: PathBuf,
    env: Vec<Environment>,
    /// what each script said
    said: Vec<String>,
    exe: PathBuf,
}
type Held = Rc<RefCell<Place>>;

fn worker(h: Held) -> impl Fn(&Path) {
    move |s: &Path| {
        let exe = proc::tool(s, "dunesh", "bin/dunesh");
        for n in ["curl", "ssh", "scp", "bat", "lsd", "cat", "ls"] {
            proc::tool(s, "stub", &format!("path/{n}"));
        }
        unprivileged(s);
        bare_process_env();
        limit_memory(8 << 30);
        let home = s.join("home");
        std::fs::create_dir_all(&home).unwrap();
        let home = home.canonicalize().unwrap();
        std::env::set_var("HOME", &home);
        std::env::set_var("PATH", s.join("path"));
        std::env::set_var("TZ", "UTC0");
        std::env::set_current_dir(&home).unwrap();
        let cwd = home.to_str().unwrap();
        let mut p = h.borrow_mut();
        (p.env, p.said) = (0..SCRIPTS.len()).map(|i| environment(cwd, Some(&definitions(i)))).unzip();
        p.env.push(environment(cwd, None).0);
        p.root = home;
        p.exe = exe;
    }
}

fn run(env: &mut Environment, text: &str) -> (Result<X, Error>, String) {
    let x = match dune::parse_script(text) {
        Ok(x) => x,
        Err(e) => panic!("{text:?}: {e:?}"),
    };
    let (r, out, err) = capture(|| x.eval(env));
    (r, format!("{}{}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&err)))
}

fn value(env: &mut Environment, text: &str) -> Result<X, String> {
    match guard(|| run(env, text)) {
        Ok((Ok(x), _)) => Ok(x),
        Ok((Err(e), _)) => Err(format!("{text}: {e}")),
        Err(p) => Err(format!("{text}: {p}")),
    }
}

fn text_of(env: &mut Environment, text: &str) -> Result<String, String> {
    match value(env, text)? {
        X::String(s) => Ok(s),
        other => Err(format!("{text} is {other:?}")),
    }
}

fn printed(env: &mut Environment, text: &str) -> Result<String, String> {
    match guard(|| run(env, text)) {
        Ok((Ok(_), out)) => Ok(out),
        Ok((Err(e), out)) => Err(format!("{text}: {e} after {out}")),
        Err(p) => Err(format!("{text}: {p}")),
    }
}

fn judge(rec: &mut Rec, kind: &str, r: Result<(), String>) {
    rec.trace();
    if let Err(e) = r {
        rec.fail(kind, e.chars().take(1500).collect::<String>())
    }
}

// ---------------------------------------------------------------------------- calendars

/// Every month of these years, with a day of it marked, or with each.
fn calendars(years: Vec<i64>, every_day: bool) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let n = (years.len() * 12 * SCRIPTS.len()) as u64;
    let years = Rc::new(years);
    let case = move |i: u64| {
        let (s, i) = (i as usize % SCRIPTS.len(), i / SCRIPTS.len() as u64);
        (s, years[i as usize / 12], i as i64 % 12 + 1)
    };
    let c2 = case.clone();
    let describe = move |i| {
        let (s, y, m) = c2(i);
        format!("{} prelude: {m} of {y}", SCRIPTS[s].0)
    };
    Space::new(if every_day { "days in calendars" } else { "calendars" }, n, describe, move |i, rec| {
        let h = h.borrow();
        let (s, y, m) = case(i);
        let all: Vec<i64> = if every_day { (0..=days(m, y)).collect() } else { vec![(y * 7 + m) % days(m, y) + 1] };
        for d in all {
            rec.step();
            let mut env = h.env[s].clone();
            let r = text_of(&mut env, &format!("make-calendar {m} {d} {y}"));
            rec.state(&r);
            judge(rec, "calendar", r.and_then(|t| calendar(&t, m, d, y)));
        }
    })
    .init(worker(h2))
}

/// Leap years, the lengths of months and the days of the week.
fn dates(years: std::ops::RangeInclusive<i64>) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let (from, n) = (*years.start(), (years.end() - years.start() + 1) as u64);
    let case = move |i: u64| (i as usize % SCRIPTS.len(), from + i as i64 / SCRIPTS.len() as i64);
    let describe = move |i| format!("{} prelude: {}", SCRIPTS[case(i).0].0, case(i).1);
    Space::new("dates", n * SCRIPTS.len() as u64, describe, move |i, rec| {
        let h = h.borrow();
        let (s, y) = case(i);
        let mut env = h.env[s].clone();
        let mut ask = |text: String, want: X| {
            rec.step();
            let r = value(&mut env, &text).and_then(|x| if format!("{x:?}") == format!("{want:?}") { Ok(()) } else { Err(format!("{text} is {x:?} and not {want:?}")) });
            judge(rec, "date", r)
        };
        ask(format!("is-leapyear {y}"), X::Boolean(leap(y)));
        for m in 1..=12 {
            ask(format!("days-in-month {m} {y}"), X::Integer(days(m, y)));
            for d in [1, 2, 15, days(m, y)] {
                // a number of either kind
                let text = format!("int (day-of-week {m} {d} {y})");
                ask(text, X::Integer((first(m, y) + d - 1) % 7));
            }
        }
        rec.state(&(leap(y), first(1, y)));
    })
    .init(worker(h2))
}

/// The screen that welcomes the user at a moment.
fn welcomes(moments: Vec<i64>) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let n = (moments.len() * SCRIPTS.len()) as u64;
    let moments = Rc::new(moments);
    let case = move |i: u64| (i as usize % SCRIPTS.len(), moments[i as usize / SCRIPTS.len()]);
    let c2 = case.clone();
    let describe = move |i| format!("{} prelude: {} seconds", SCRIPTS[c2(i).0].0, c2(i).1);
    Space::new("welcomes", n, describe, move |i, rec| {
        let h = h.borrow();
        let (s, at) = case(i);
        let (year, month, day) = super::times::date(at.div_euclid(86400));
        let hour = at.rem_euclid(86400) / 3600;
        let mut env = h.env[s].clone();
        clock::install(at, 0, 0);
        let text = printed(&mut env, "welcome ()");
        let cal = text_of(&mut env, "cal ()");
        let time = text_of(&mut env, "(time@now ())@time@str");
        let date = text_of(&mut env, "(time@now ())@date@str");
        clock::remove();
        rec.steps(4);
        let r = (|| {
            let text = plain(&text?)?;
            let (cal, time, date) = (cal?, time?, date?);
            calendar(&cal, month, day, year)?;
            let picture = match hour {
                0..=6 | 19..=23 => "🌃",
                7..=10 => "🌅",
                _ => "🌤️",
            };
            let wrong = |what: String| Err(format!("{what} is missing:\n{text}"));
            let words: Vec<&str> = text.lines().find(|l| l.contains("The time is")).unwrap_or("").split_whitespace().collect();
            let want = format!("The time is {time} {picture} on {date}");
            if words != want.split_whitespace().collect::<Vec<_>>() {
                return wrong(want);
            }
            // the calendar, with a cat at its side
            let lines: Vec<&str> = text.lines().collect();
            let Some(top) = lines.iter().position(|l| l.contains("Calendar")) else { return wrong("the calendar".into()) };
            let beside: Vec<(String, usize)> = lines[top..].iter().take(cal.lines().count()).map(|l| (l.chars().take(30).collect(), l.chars().count())).collect();
            if beside.iter().map(|l| &l.0[..]).ne(cal.lines()) {
                return wrong(format!("{cal}\n"));
            }
            if beside.iter().any(|l| l.1 != 50) || !lines[top].contains("Cat") {
                return wrong("a whole cat".into());
            }
            Ok(())
        })();
        rec.state(&(month, day, hour));
        judge(rec, "welcome", r);
    })
    .init(worker(h2))
}

// ---------------------------------------------------------------------------- the shrew

/// What the shrew is made to say.
fn sayings(deep: bool) -> Vec<String> {
    let words = ["a", "hello", "extraordinarily", "don't", "=)", "x"];
    let mut out: Vec<String> = vec!["".into(), "a-word-that-is-longer-than-the-title-of-the-box-and-has-no-end".into(), "one\ntwo".into(), "one\n\ntwo three".into(), "7".into()];
    for n in [1, 2, 3, 5, 8, 13, 21, 34] {
        for w in words {
            out.push(vec![w; n].join(" "));
        }
        out.push(words.iter().cycle().take(n).copied().collect::<Vec<_>>().join(" "));
        if deep {
            out.push((0..n).map(|i| "abcdefghijklmnopqrstuvwxyz".split_at(i * 7 % 26 + 1).0).collect::<Vec<_>>().join(" "));
            out.push((0..n).map(|i| words[i * i % 5]).collect::<Vec<_>>().join("\n"));
        }
    }
    out.sort();
    out.dedup();
    out
}

fn shrews(widths: Vec<i64>, deep: bool) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let texts = Rc::new(sayings(deep));
    let n = (texts.len() * widths.len() * 2 * SCRIPTS.len()) as u64;
    let case = move |i: u64| {
        let (s, i) = (i as usize % SCRIPTS.len(), i as usize / SCRIPTS.len());
        let (turned, i) = (i % 2, i / 2);
        (s, ["shrewsay", "turnedshrewsay"][turned], texts[i % texts.len()].clone(), widths[i / texts.len()])
    };
    let c2 = case.clone();
    let describe = move |i| {
        let (s, f, t, w) = c2(i);
        format!("{} prelude: {f} {t:?} on {w} columns", SCRIPTS[s].0)
    };
    Space::new("shrews", n, describe, move |i, rec| {
        let h = h.borrow();
        let (s, f, text, width) = case(i);
        WIDTH.with(|w| *w.borrow_mut() = width);
        let mut env = h.env[s].clone();
        rec.step();
        env.define("saying", X::String(text.clone()));
        let r = printed(&mut env, &format!("{f} saying")).and_then(|out| {
            let wrong = |e: &str| Err(format!("{e}:\n{out}"));
            let lines: Vec<&str> = out.lines().collect();
            let (Some(top), Some(bottom)) = (lines.iter().position(|l| l.contains('┌')), lines.iter().position(|l| l.contains('└'))) else { return wrong("no box") };
            let left = lines[top].chars().take_while(|c| *c == ' ').count();
            let part = |l: &str| l.chars().skip(left).collect::<String>();
            let sizes: Vec<usize> = lines[top..=bottom].iter().map(|l| l.chars().count()).collect();
            if sizes.iter().any(|s| *s != sizes[0]) || lines[top..=bottom].iter().any(|l| l.chars().take(left).any(|c| c != ' ')) {
                return wrong("no rectangle");
            }
            if !part(lines[top]).contains("Wild Dune Shrew") {
                return wrong("no title");
            }
            let inner: Vec<String> = lines[top + 1..bottom].iter().map(|l| part(l)).collect();
            if inner.iter().any(|l| !l.starts_with(' ') || !l.ends_with(' ')) {
                return wrong("no room at the sides");
            }
            let squeezed = |s: &str| s.split_whitespace().collect::<Vec<_>>().join("\x01");
            let longest = text.split_whitespace().map(|w| w.len() as i64).max().unwrap_or(0);
            let got = squeezed(&inner.join("\n"));
            let ok = if longest <= width { got == squeezed(&text) } else { got.replace('\x01', "") == squeezed(&text).replace('\x01', "") };
            if !ok {
                return wrong("not the text");
            }
            // a line from the box to the shrew
            let tail = &lines[bottom + 1..];
            if tail.len() < 8 || tail[..2].iter().any(|l| l.trim() != "╱") {
                return wrong("not from a shrew");
            }
            let feet = ["_,____ c--.", ".--p_____,_"][(f != "shrewsay") as usize];
            if !tail.iter().any(|l| l.trim() == feet) {
                return wrong("not that shrew");
            }
            Ok(())
        });
        rec.state(&r);
        WIDTH.with(|w| *w.borrow_mut() = 80);
        judge(rec, "shrew", r);
    })
    .init(worker(h2))
}

// ---------------------------------------------------------------------------- helpers

/// A program that the prelude makes possible, and what it comes to without it.
fn helpers() -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let mut same = |a: String, b: String| out.push((a, b));
    let values = ["1", "2.5", "\"\"", "\"é b\"", "True", "None", "[]", "[1, \"a\"]", "{a = 1}", "'sym", "-3"];
    for x in values {
        for y in values {
            same(format!("concat {x} {y}"), format!("(str {y}) + (str {x})"));
            same(format!("fn@map (concat {x}) [{y}, 1]"), format!("[(str {y}) + (str {x}), \"1\" + (str {x})]"));
            same(format!("join {x} [{y}, {x}, {y}]"), format!("(str {y}) + (str {x}) + (str {x}) + (str {x}) + (str {y})"));
        }
        same(format!("join {x} [\"only\"]"), "\"only\"".into());
        same(format!("str {x}"), format!("(join \"\" [{x}])"));
    }
    let tables = ["{a = 1, b = [2, 3], c = {a = 4}}", "[5, \"six\", [7]]", "\"text\"", "{}"];
    for t in tables {
        for k in ["a", "b", "c", "0", "1", "2", "3", "-1", "\"a\""] {
            same(format!("get {k} {t}"), format!("{t}@{k}"));
            same(format!("fn@map (get {k}) [{t}, {t}]"), format!("[{t}@{k}, {t}@{k}]"));
        }
    }
    for f in ["text", "program", "defines", "empty", "missing", "sub", "uses-own"] {
        same(format!("open {f}"), format!("fs@read {f}"));
        same(format!("let x = 1; use {f}; x"), format!("let x = 1; eval (parse@expr (fs@read {f})); x"));
        same(format!("let x = 1; use {f}"), format!("let x = 1; eval (parse@expr (fs@read {f}))"));
        same(format!("let x = 1; include {f}; x"), format!("let x = 1; exec (parse@expr (fs@read {f})); x"));
        same(format!("let x = 1; include {f}"), format!("let x = 1; exec (parse@expr (fs@read {f}))"));
    }
    for p in ["text", "sub", "sub/deep.txt", "sub/..", "./text", "missing", "\"sub/deep.txt\"", ".", "sub/./deep.txt"] {
        for d in [".", "sub"] {
            same(format!("sys@cd {d}; ~ {p}"), format!("sys@cd {d}; fs@canon (HOME + \"/\" + (str {p}))"));
        }
    }
    for g in [".txt", "t", "x", "text", "\"e \"", "zz", "e"] {
        for d in [".", "sub"] {
            same(format!("sys@cd {d}; $ {g}"), format!("sys@cd {d}; fn@filter (f -> (len (string@split {g} f)) == 2) (fs@ls .)"));
        }
    }
    out
}

fn help_pages() -> Vec<(&'static str, &'static str)> {
    macro_rules! page {
        ($n:expr) => {
            ($n, include_str!(concat!("/repo/src/binary/help/", $n, ".txt")))
        };
    }
    vec![page!("me"), page!("prelude"), page!("types"), page!("scripting"), page!("builtin"), page!("lib"), page!("syntax")]
}

fn fixture(root: &Path) {
    empty_dir(root);
    std::fs::create_dir(root.join("sub")).unwrap();
    for (n, t) in [("text", "\"words\""), ("program", "1 + 2"), ("defines", "let x = 5; let y = 6; y"), ("empty", ""), ("a.txt", ""), ("b.txt.txt", ""), ("sub/deep.txt", "7"), ("the end", ""), ("uses-own", "join \"-\" [x, x]")] {
        std::fs::write(root.join(n), t).unwrap();
    }
}

fn small() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let cases = Rc::new(helpers());
    let (c2, n) = (cases.clone(), cases.len());
    let describe = move |i: u64| format!("{} prelude: {}", SCRIPTS[i as usize / n].0, c2[i as usize % n].0);
    Space::new("helpers", (n * SCRIPTS.len()) as u64, describe, move |i, rec| {
        let h = h.borrow();
        let (s, (a, b)) = (i as usize / n, &cases[i as usize % n]);
        fixture(&h.root);
        // the introduction defines fewer
        let mut env = h.env[s].clone();
        let own = a.split_whitespace().any(|w| !env.is_defined(w) && ["concat", "(concat", "get", "(get", "use", "include", "open", "~", "$"].contains(&w) && !env.is_defined(w.trim_start_matches('(')));
        if own && SCRIPTS[s].0 == "intro" {
            rec.note("not in the introduction");
            return;
        }
        let mut without = h.env[SCRIPTS.len()].clone();
        let mut go = |env: &mut Environment, t: &str| {
            std::env::set_current_dir(&h.root).unwrap();
            let r = guard(|| run(env, t));
            std::env::set_current_dir(&h.root).unwrap();
            match r {
                Ok((Ok(x), out)) => format!("{x:?} and prints {out:?}"),
                Ok((Err(e), _)) => format!("the error {}", e.code()),
                Err(p) => p,
            }
        };
        let (got, want) = (go(&mut env, a), go(&mut without, b));
        rec.steps(2);
        rec.state(&got);
        rec.note(if want.starts_with("the error") { "errors" } else { "values" });
        let r = if got == want { Ok(()) } else { Err(format!("{a} is {got} and {b} is {want}")) };
        judge(rec, "helper", r);
    })
    .init(worker(h2))
}

/// Every topic of the help, and the help of every builtin, with and without the introduction.
fn helps() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let n = builtins(&full_env("/dev")).len();
    let pages = help_pages().len();
    Space::new("help", ((n + pages) * 3) as u64, move |i| format!("help {} in environment {}", i / 3, i % 3), move |i, rec| {
        let h = h.borrow();
        let mut env = h.env[i as usize % 3].clone();
        let i = i as usize / 3;
        rec.step();
        let (topic, want) = match help_pages().get(i) {
            Some((n, t)) => (n.to_string(), t.replace("{{", "{").replace("}}", "}")),
            _ => {
                let (n, b) = builtins(&full_env("/dev")).swap_remove(i - pages);
                match b {
                    X::Builtin(b) => (n, b.help),
                    _ => return,
                }
            }
        };
        // operators are no words, and some names mean something else now
        let first = topic.split('@').next().unwrap();
        if !topic.starts_with(char::is_alphabetic) || topic == "to" || i >= pages && format!("{:?}", env.get(first)) != format!("{:?}", full_env("/dev").get(first)) && ["exit", "quit", "help", "report"].contains(&first) {
            rec.note("no builtin of this name");
            return;
        }
        let r = printed(&mut env, &format!("help {topic}")).and_then(|out| {
            let ok = out.starts_with(&want) && !want.trim().is_empty() && (topic == "me" || out.trim_end() == want.trim_end());
            if ok { Ok(()) } else { Err(format!("help {topic} prints {out:?}\nand not {want:?}")) }
        });
        judge(rec, "help", r);
    })
    .init(worker(h2))
}

// ---------------------------------------------------------------------------- programs

/// What the stand-ins were asked for since the last time.
fn asked(home: &Path) -> String {
    let f = home.join("asked");
    let t = std::fs::read_to_string(&f).unwrap_or_default();
    let _ = std::fs::remove_file(f);
    t
}

fn call(name: &str, args: &[&str]) -> String {
    let hex = |a: &str| a.bytes().map(|b| format!("{b:02x}")).collect::<String>();
    format!("{name} {}\n", args.iter().map(|a| format!("<{}>", hex(a))).collect::<String>())
}

/// How a value is written, and what it is to a program.
const NAMES: &[(&str, &str)] = &[("host", "host"), ("\"example.org\"", "example.org"), ("\"two words\"", "two words"), ("\"\"", ""), ("127", "127"), ("\"é\"", "é"), ("\"a;b$c\"", "a;b$c"), ("'-x", "-x")];
const PATHS: &[(&str, &str)] = &[("file", "file"), ("\"a b/c\"", "a b/c"), ("./x", "./x"), ("7", "7"), ("\"~/y\"", "~/y")];

fn programs() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let mut cases: Vec<(String, String)> = vec![];
    for (a, at) in NAMES {
        for (u, user) in NAMES {
            let who = format!("{user}@{at}");
            cases.push((format!("ssh {a} {u}"), call("ssh", &["-X", &who])));
            for (f, from) in PATHS {
                for (t, to) in PATHS {
                    // what a stand-in for the copier is given to copy is the user's value
                    cases.push((format!("scp {a} {u} {f} {t}"), call("scp", &["-r", from, &format!("{who}:{to}")])));
                }
            }
        }
    }
    for bat in [false, true] {
        for lsd in [false, true] {
            for (f, file) in PATHS {
                cases.push((format!("cat {f}|{bat} {lsd}"), call(if bat { "bat" } else { "cat" }, &[file])));
                cases.push((format!("ls {f}|{bat} {lsd}"), call(if lsd { "lsd" } else { "ls" }, &[file])));
            }
        }
    }
    Space::list("programs", cases, move |(text, want), rec| {
        let h = h.borrow();
        empty_dir(&h.root);
        let mut env = h.env[0].clone();
        let mut line = text.as_str();
        if let Some((l, installed)) = text.split_once('|') {
            line = l;
            std::fs::create_dir_all(h.root.join(".cargo/bin")).unwrap();
            for (n, i) in ["bat", "lsd"].iter().zip(installed.split(' ')) {
                if i == "true" {
                    std::fs::write(h.root.join(".cargo/bin").join(n), "").unwrap()
                }
            }
            env = environment(h.root.to_str().unwrap(), Some(DEFAULT)).0;
        }
        asked(&h.root);
        rec.step();
        let r = printed(&mut env, line).and_then(|_| {
            let got = asked(&h.root);
            if got == *want { Ok(()) } else { Err(format!("{line} runs {got:?} and not {want:?}")) }
        });
        rec.state(want);
        judge(rec, "program", r);
    })
    .init(worker(h2))
}

/// What the service calls the weather, and the picture for it.
const SKIES: &[(&str, &str)] = &[
    ("light intensity drizzle", "LightShowers"),
    ("drizzle", "LightShowers"),
    ("heavy intensity drizzle rain", "LightShowers"),
    ("shower drizzle", "LightShowers"),
    ("shower rain", "LightShowers"),
    ("ragged shower rain", "LightShowers"),
    ("light rain", "LightRain"),
    ("moderate rain", "HeavyShowers"),
    ("heavy intensity shower rain", "HeavyShowers"),
    ("heavy intensity rain", "HeavyRain"),
    ("very heavy rain", "HeavyRain"),
    ("extreme rain", "HeavyRain"),
    ("freezing rain", "LightSleet"),
    ("light snow", "LightSnow"),
    ("Heavy snow", "HeavySnow"),
    ("Sleet", "LightSleet"),
    ("Light shower sleet", "LightSleetShowers"),
    ("Shower sleet", "HeavySnowShowers"),
    ("Light shower snow", "LightSnowShowers"),
    ("Light rain and snow", "LightSnowShowers"),
    ("Shower snow", "HeavySnowShowers"),
    ("thunderstorm", "ThunderyShowers"),
    ("thunderstorm with light rain", "ThunderyShowers"),
    ("thunderstorm with heavy drizzle", "ThunderyShowers"),
    ("heavy thunderstorm", "ThunderyHeavyRain"),
    ("thunderstorm with heavy rain", "ThunderyHeavyRain"),
    ("clear sky", "Sunny"),
    ("few clouds", "PartlyCloudy"),
    ("scattered clouds", "Cloudy"),
    ("broken clouds", "Cloudy"),
    ("overcast clouds", "VeryCloudy"),
    ("mist", "Fog"),
    ("Haze", "Fog"),
    ("fog", "Fog"),
    ("volcanic ash", "Fog"),
    ("tornado", "Fog"),
    ("something else", "Unknown"),
    ("", "Unknown"),
];

const REPORTS: &[(&str, &str, &str, &str, &str, &str)] = &[
    // town, now, high, low, humidity, pressure
    ("Knoxville", "71.5", "80.25", "60", "55", "1016"),
    ("Reykjavík", "-3", "0", "-11.5", "100", "987"),
    ("Oz", "0", "0", "0", "0", "0"),
];

fn weathers() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let mut cases: Vec<(usize, usize, &str, &str, bool)> = vec![];
    for (i, _) in SKIES.iter().enumerate() {
        for r in 0..REPORTS.len() {
            for units in ["imperial", "metric", "\"metric\"", "kelvin"] {
                for city in ["Knoxville", "\"New York\"", "37919"] {
                    for reply in [true, false] {
                        if (reply && units != "kelvin") || i == r {
                            cases.push((i, r, units, city, reply))
                        }
                    }
                }
            }
        }
    }
    Space::list("weather", cases, move |&(sky, report, units, city, reply), rec| {
        let h = h.borrow();
        empty_dir(&h.root);
        let mut env = h.env[0].clone();
        let (town, now, high, low, humidity, pressure) = REPORTS[report];
        let (description, picture) = SKIES[sky];
        if reply {
            let json = format!("{{\"weather\":[{{\"main\":\"Sky\",\"description\":\"{description}\"}}],\"main\":{{\"temp\":{now},\"temp_max\":{high},\"temp_min\":{low},\"humidity\":{humidity},\"pressure\":{pressure}}},\"name\":\"{town}\"}}");
            std::fs::write(h.root.join("reply"), json).unwrap();
        }
        asked(&h.root);
        clock::install(1_000_000_000, 0, 0);
        rec.steps(2);
        let r = printed(&mut env, "set-weather-api-key \"the-key\" Home").and_then(|_| printed(&mut env, &format!("echo (weather {units} {city})")));
        clock::remove();
        let known = units != "kelvin";
        let r = r.and_then(|text| {
            let text = plain(&text)?;
            let wrong = |e: &str| Err(format!("{e}:\n{text}"));
            let plain_units = units.trim_matches('"');
            let url = format!("http://api.openweathermap.org/data/2.5/weather?q={}&units={plain_units}&appid=the-key", city.trim_matches('"'));
            let (got, want) = (asked(&h.root), if known { call("curl", &["--silent", &url]) } else { String::new() });
            if got != want {
                return Err(format!("{got:?} is run and not {want:?}"));
            }
            let has = |s: &str| text.lines().any(|l| l.contains(s.trim_end()));
            if !reply || !known {
                let why = if known { "could not get weather data" } else { "must be either" };
                return if has(why) && !has("Temp now") { Ok(()) } else { wrong("not a word about what is wrong") };
            }
            let unit = if plain_units == "metric" { "C" } else { "F" };
            for (n, v, u) in [("Temp now", now, unit), ("high", high, unit), ("low", low, unit)] {
                if !has(&format!("{n}: {v}° {u}")) {
                    return wrong(n);
                }
            }
            if !has(&format!("Humidity: {humidity}%")) || !has(&format!("Pressure: {pressure} hPa")) {
                return wrong("humidity or pressure");
            }
            let squeezed: String = text.chars().filter(|c| c.is_alphanumeric()).collect();
            if !squeezed.contains(&format!("Weatherin{town}at")) || !squeezed.contains("DescriptionSky") {
                return wrong("where and what");
            }
            let X::Map(pictures) = env.get("WEATHER-ASCII").unwrap() else { return wrong("no pictures") };
            for line in pictures[picture].to_string().lines() {
                if !has(line) {
                    return wrong(&format!("{line:?} of {picture}"));
                }
            }
            Ok(())
        });
        rec.state(&(picture, report));
        judge(rec, "weather", r);
    })
    .init(worker(h2))
}

/// How the real shell starts and ends with its own scripts.
#[derive(Debug, Clone)]
struct Start {
    columns: u16,
    secrets: Option<&'static str>,
    /// the introduction runs, and what is answered
    intro: Option<&'static [&'static str]>,
    typed: &'static [&'static str],
}

fn starts() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let mut cases = vec![];
    let ends: &[&[&str]] = &[&["echo \"<\" (6 * 7) \">\""], &["quit", "echo \"< no >\""], &["q", "echo \"< no >\""], &["exit", "echo \"< no >\""], &["echo \"<\" mine \">\""], &["cal", "shrewsay \"a b\"", "about", "donate", "help me", "cat", "echo \"< end >\""]];
    for columns in [20, 40, 80, 132] {
        for typed in [&["quit 0", "echo \"< no >\""][..], &["exit 0", "echo \"< no >\""]] {
            cases.push(Start { columns, secrets: None, intro: Some(&["n", "n", ""]), typed });
        }
        for typed in ends {
            for secrets in [None, Some(""), Some("let mine = \"secret\";"), Some("let mine = \"x\"; let OTHER-KEY = 5")] {
                cases.push(Start { columns, secrets, intro: None, typed });
            }
            let answers: &[&[&str]] = &[&["n", "n", ""], &["n", "y", "", "", "", "", "", "", ""], &["y", "n", ""], &["y", "maybe", "", "", "", "", "", "", ""]];
            for a in answers {
                // a name alone ends the shell where it is a macro: in the default prelude
                if typed.len() == 2 {
                    continue;
                }
                cases.push(Start { columns, secrets: None, intro: Some(a), typed });
            }
        }
    }
    Space::list("starts", cases, move |c, rec| {
        let h = h.borrow();
        empty_dir(&h.root);
        if c.intro.is_none() {
            std::fs::write(h.root.join(".dune-prelude"), DEFAULT).unwrap();
        }
        if let Some(s) = c.secrets {
            std::fs::write(h.root.join(".dune-secrets"), s).unwrap();
        }
        let input: String = c.intro.unwrap_or(&[]).iter().chain(c.typed).map(|l| format!("{l}\n")).collect();
        let out = proc::Run::new(&h.exe, &h.root)
            .env("HOME", h.root.to_str().unwrap())
            .env("PATH", std::env::var_os("PATH").unwrap())
            .env("TZ", "UTC0")
            .screen(c.columns, 50)
            .stdin(&input)
            .go();
        rec.steps(1 + c.typed.len() as u64);
        let r = (|| {
            if let Some(e) = out.crash() {
                return Err(e);
            }
            let text = plain(&out.out.replace('\r', ""))?;
            let wrong = |e: &str| Err(format!("{e}:\n{text}\n{}", out.err));
            if !out.err.is_empty() {
                return wrong("an error");
            }
            let said: Vec<&str> = text.split('<').skip(1).filter_map(|t| t.split_once('>')).map(|t| t.0.trim()).filter(|t| ["42", "no", "secret", "x", "mine", "end"].contains(t)).collect();
            let want: &[&str] = match (c.typed[0], c.secrets) {
                (t, _) if t.contains("6 * 7") => &["42"],
                (t, Some(s)) if t.contains("mine") && s.contains("secret") => &["secret"],
                (t, Some(s)) if t.contains("mine") && s.contains("\"x\"") => &["x"],
                (t, _) if t.contains("mine") => &["mine"],
                ("cal", _) => &["end"],
                _ => &[],
            };
            if said != want {
                return wrong(&format!("{said:?} and not {want:?}"));
            }
            if out.code != Some(0) {
                return wrong(&format!("ends with {:?}", out.code));
            }
            if !text.contains("The time is") || !text.contains("Calendar") {
                return wrong("no welcome");
            }
            // whether the page where secrets are explained is shown
            let squeezed: String = text.split(|c: char| c.is_whitespace() || c == '│').collect();
            if c.intro.is_none() && squeezed.contains("secrets,tokens,") != c.secrets.is_none() {
                return wrong("secrets");
            }
            if let Some(a) = c.intro {
                let pages: &[&str] = if a[1] == "n" { &["first time", "your way around"] } else { &["first time", "get started", "About the Author", "background information", "prog arg1 arg2", "$ cd ..", "$ let x = 5", "$ help me", "Good luck"] };
                let mut rest = &squeezed[..];
                for p in pages {
                    let p = p.replace(' ', "");
                    match rest.find(&p) {
                        Some(i) => rest = &rest[i + p.len()..],
                        None => return wrong(&format!("{p} is not shown")),
                    }
                }
                let made = h.root.join(".dune-prelude");
                if made.exists() != (a[0] == "y") || a[0] == "y" && std::fs::read_to_string(made).ok().as_deref() != Some(DEFAULT) {
                    return wrong("the prelude that is made");
                }
            }
            Ok(())
        })();
        rec.state(&(c.columns, c.typed, c.secrets));
        judge(rec, "start", r);
    })
    .init(worker(h2))
    .timeout(90.0)
}

/// The introduction's report asks for a star once, and reports every value.
fn reports(n: u64) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    Space::new("reports", n, |i| format!("{i} values"), move |i, rec| {
        let h = h.borrow();
        let mut env = h.env[1].clone();
        let mut out = String::new();
        for k in 0..i {
            rec.step();
            match printed(&mut env, &format!("report {k}")) {
                Ok(t) => out += &t,
                Err(e) => return rec.fail("report", e),
            }
        }
        let values: Vec<String> = out.lines().filter(|l| !l.is_empty() && l.chars().all(|c| c.is_ascii_digit())).map(String::from).collect();
        let asks = out.matches("consider starring").count();
        let ok = values == (0..i).map(|k| k.to_string()).collect::<Vec<_>>() && asks <= 1 && (asks == 1) == (i > 50);
        rec.state(&(asks, i));
        judge(rec, "report", if ok { Ok(()) } else { Err(format!("{i} values: {asks} times asked; {values:?}")) });
    })
    .init(worker(h2))
}

/// The scripts themselves come to their end.
fn scripts() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let n = (SCRIPTS.len() * 200) as u64;
    Space::new("scripts", n, |i| format!("{} prelude on {} columns", SCRIPTS[i as usize % 2].0, i / 2 + 1), move |i, rec| {
        let h = h.borrow();
        empty_dir(&h.root);
        WIDTH.with(|w| *w.borrow_mut() = i as i64 / 2 + 1);
        let (env, said) = environment(h.root.to_str().unwrap(), Some(&definitions(i as usize % 2)));
        rec.step();
        rec.state(&env.bindings.len());
        let r = match said.find("ERROR") {
            Some(at) => Err(said[at..].to_string()),
            _ => Ok(()),
        };
        judge(rec, "script", r);
    })
    .init(worker(h2))
}

pub fn check(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    Check {
        id: "C32",
        rule: "the shell's two own scripts, evaluated by the shell itself: every calendar equals one laid out by a calendar written for this check, every welcome shows the moment of a scripted clock, every saying is whole in a rectangular box, every helper gives the value or error of the program it abbreviates, every page and builtin's help is printed, every program that is run and every question to the weather service is exactly as asked (stand-ins record them); and the real shell, started on terminals with either script, secrets and answers, says no error, shows its pages in order, reads the lines after and ends when asked".into(),
        bounds: format!("all months of {} years, all days of 28 years, {} years of dates, widths from 1 to 200 for the scripts, {} reports of the weather, 8 x 8 x 25 copies", if deep { 3000 } else { 429 }, if deep { 3000 } else { 411 }, SKIES.len() * REPORTS.len()),
        assumptions: vec!["what is random (which cat) is not looked at".into(), "the width of the terminal is given to the scripts, except where the real shell runs".into()],
        spaces: vec![
            calendars((1..=3000).step_by(if deep { 1 } else { 7 }).collect(), false),
            calendars((2000..=2027).collect(), true),
            dates(if deep { 1..=3000 } else { 1800..=2210 }),
            welcomes((0..if deep { 3000 } else { 400 }).map(|i| i * 86400 * 13 + i * 3600 % 86400 + i * 7).collect()),
            shrews(if deep { (10..=140).collect() } else { vec![10, 15, 16, 17, 18, 20, 29, 30, 31, 32, 40, 79, 80, 81, 132] }, deep),
            small(),
            helps(),
            scripts(),
            reports(if deep { 130 } else { 60 }),
            programs(),
            weathers(),
            starts(),
        ],
    }
}
