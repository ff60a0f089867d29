//! C34: what is typed at a terminal, or comes from elsewhere, is what programs and the
//! shell read.
use super::proc::{Run, Typist};
use super::session::{count, differ, home, shell_worker, words, Held, Shell};
use crate::engine::*;
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

// ---- texts that are read from a pipe ----

const BYTES: &[&[u8]] = &[b"a", b" ", b"\n", b"\r", "é".as_bytes(), b"\xff", b"(", b"\"", b"\\"];

/// What the next line is and how long it is: up to its end, which is a part of it.
fn next_line(left: &[u8]) -> &[u8] {
    match left.iter().position(|&b| b == b'\n') {
        Some(n) => &left[..n + 1],
        None => left,
    }
}

/// Programs that read lines from a pipe, in either way, until after its end.
fn piped(n: usize) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let total = count(n, BYTES.len());
    let case = move |i: u64| {
        let text: Vec<u8> = words(i / 4, n, BYTES.len()).iter().flat_map(|&d| BYTES[d].iter().copied()).collect();
        // which of the reads are by `input`
        (text, [0b0000u32, 0b1111, 0b0101, 0b1010][i as usize % 4])
    };
    Space::new("pipes", total * 4, move |i| format!("{:?}", case(i)), move |i, rec| {
        let (text, by_input) = case(i);
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let home = home(&p.root, "home", Some(""));
        let mut program = String::new();
        let mut want = vec![];
        let mut left = &text[..];
        let mut ends = false;
        for k in 0..4 {
            let input = by_input >> k & 1 == 1;
            let read = if input { "input \"\"" } else { "console@keyboard@read-line ()" };
            program += &format!("fs@write \"{k}\" (err@try ({read}) (e -> \"error \" + (str (e @ code))));\n");
            if ends {
                continue;
            }
            let line = next_line(left);
            left = &left[line.len()..];
            want.push(match std::str::from_utf8(line) {
                // the end of a line is no part of an answer
                Ok(l) if input => {
                    if l.is_empty() {
                        ends = true;
                        continue;
                    }
                    let l = l.strip_suffix('\n').map_or(l, |l| l.strip_suffix('\r').unwrap_or(l));
                    Some(l.to_string())
                }
                Ok(l) => Some(l.to_string()),
                // what `input` makes of such a line is open, but the rest is still there
                Err(_) if input => None,
                Err(_) => Some("error 9".into()),
            });
            if input && std::str::from_utf8(line).is_err() {
                // it reports this and reads on
                want.pop();
                let mut answer = None;
                loop {
                    let line = next_line(left);
                    left = &left[line.len()..];
                    match std::str::from_utf8(line) {
                        Ok("") => break,
                        Ok(l) => {
                            answer = Some(l.strip_suffix('\n').map_or(l, |l| l.strip_suffix('\r').unwrap_or(l)).to_string());
                            break;
                        }
                        Err(_) => {}
                    }
                }
                match answer {
                    Some(a) => want.push(Some(a)),
                    None => ends = true,
                }
            }
        }
        program += "fs@write \"end\" \"reached\"";
        std::fs::write(home.join("p.dune"), &program).unwrap();
        let mut r = Run::new(&p.exe, &home).args(&["p.dune"]);
        r.stdin = text.clone();
        let out = r.go();
        rec.steps(4);
        let what = || format!("a program that reads {:?} from a pipe ({})", String::from_utf8_lossy(&text), (0..4).map(|k| if by_input >> k & 1 == 1 { "input" } else { "line" }).collect::<Vec<_>>().join(", "));
        if let Some(c) = out.crash() {
            return rec.fail("crash", format!("{}: {c}", what()));
        }
        for (k, w) in want.iter().enumerate() {
            let got = std::fs::read_to_string(home.join(k.to_string())).ok();
            if w.is_some() && &got != w {
                return rec.fail("text", format!("{}: read {} gives {got:?} and not {w:?}", what(), k + 1));
            }
        }
        if home.join("end").exists() == ends {
            return rec.fail("end", format!("{}: {} with {:?}", what(), if ends { "goes on after the end of input" } else { "ends before its end" }, out.code));
        }
        rec.state(&(&want, ends));
        rec.trace();
    })
    .init(shell_worker("dunesh", h2))
    .timeout(90.0)
}

/// The files programs append to.
fn logs(home: &std::path::Path) {
    for f in ["ready", "reads", "got", "bad"] {
        std::fs::write(home.join(f), "").unwrap()
    }
}

// ---- keys ----

/// What terminals send for a key, and the value that it is.
fn keys() -> Vec<(Vec<u8>, String)> {
    let mut v: Vec<(Vec<u8>, String)> = vec![];
    let mut named = |sent: &[&str], name: &str| {
        for s in sent {
            v.push((s.as_bytes().to_vec(), format!("console@keyboard@keys@{name}")))
        }
    };
    named(&["\r"], "enter");
    named(&["\x7f"], "backspace");
    named(&["\x1b[3~"], "delete");
    named(&["\x1b[D", "\x1bOD"], "left");
    named(&["\x1b[C", "\x1bOC"], "right");
    named(&["\x1b[A", "\x1bOA"], "up");
    named(&["\x1b[B", "\x1bOB"], "down");
    named(&["\x1b[H", "\x1bOH", "\x1b[1~", "\x1b[7~"], "home");
    named(&["\x1b[F", "\x1bOF", "\x1b[4~", "\x1b[8~"], "end");
    named(&["\x1b[5~"], "page-up");
    named(&["\x1b[6~"], "page-down");
    named(&["\t"], "tab");
    named(&["\x1b"], "esc");
    named(&["\x1b[Z"], "back-tab");
    named(&["\x1bOP", "\x1b[11~"], "f1");
    named(&["\x1bOQ", "\x1b[12~"], "f2");
    named(&["\x1bOR", "\x1b[13~"], "f3");
    named(&["\x1bOS", "\x1b[14~"], "f4");
    for (f, n) in (5..).zip([15, 17, 18, 19, 20, 21, 23, 24]) {
        named(&[&format!("\x1b[{n}~")], &format!("f{f}"));
    }
    // this one has no name
    v.push((b"\x1b[2~".to_vec(), "\"\x1b[2~\"".into()));
    for c in (' '..='~').chain("éß→漢🐚¡\u{a0}ÿĀ".chars()) {
        let text = if c == '"' || c == '\\' { format!("\"\\{c}\"") } else { format!("\"{c}\"") };
        v.push((c.to_string().into_bytes(), text));
    }
    v
}

/// Every key, and keys after others, as they are read one after another.
fn pressed(q: bool) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let keys = keys();
    let mut cases: Vec<Vec<usize>> = vec![];
    // one of each kind in every order, and all one after another
    let kinds: Vec<usize> = (0..keys.len()).filter(|&k| keys[k].0.len() > 1 || [&b"\r"[..], b"\x1b", b"\x7f", b"\t", b"a", b"[", b"O", b"~", b"1"].contains(&&keys[k].0[..])).collect();
    let depth = if q { 2 } else { 3 };
    let few: Vec<usize> = kinds.iter().copied().step_by(if q { 1 } else { 2 }).collect();
    let mut pairs: Vec<usize> = vec![];
    for w in 0..(few.len() as u64).pow(depth) {
        let mut w = w;
        for _ in 0..depth {
            pairs.push(few[(w % few.len() as u64) as usize]);
            w /= few.len() as u64;
        }
    }
    cases.extend((0..keys.len()).map(|k| vec![k]));
    cases.push((0..keys.len()).collect());
    cases.push((0..keys.len()).rev().collect());
    cases.extend(pairs.chunks(24 * depth as usize).map(<[usize]>::to_vec));
    Space::list("keys", cases, move |case, rec| {
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let home = home(&p.root, "home", Some(""));
        let mut program = String::from("console@mode@raw ();\n");
        for &k in case {
            program += &format!("fs@append \"ready\" \".\"; let k = console@keyboard@read-key ();\nif k == {} {{fs@append \"got\" \"y\"}} else {{fs@append \"got\" \"n\"; fs@append \"bad\" ((str k) + \"\\n\")}};\n", keys[k].1);
        }
        program += "console@mode@cooked ();\nfs@append \"got\" \"!\"";
        std::fs::write(home.join("p.dune"), &program).unwrap();
        logs(&home);
        let mut t = Typist::new(&p.exe, &["p.dune"], &home);
        for (n, &k) in case.iter().enumerate() {
            rec.step();
            let what = || format!("{:?} typed after {:?}", String::from_utf8_lossy(&keys[k].0), case[..n].iter().rev().take(3).rev().map(|&k| String::from_utf8_lossy(&keys[k].0)).collect::<Vec<_>>());
            if !t.wait(|t| t.file("ready").len() > n && t.mode().0) {
                let e = t.end();
                return rec.fail("waits", format!("{}: is not waited for: {:?} {:?} {}", what(), e.crash(), e.code, &e.err));
            }
            t.keys(&keys[k].0);
            if !t.wait(|t| t.file("got").len() > n) {
                let e = t.end();
                return rec.fail("read", format!("{}: is not read: {:?} {:?} {}", what(), e.crash(), e.code, &e.err));
            }
            if !t.file("got").ends_with('y') && !t.file("got").ends_with("y!") {
                return rec.fail("key", format!("{}: is read as {:?}, which is not {}", what(), t.file("bad"), keys[k].1));
            }
        }
        t.wait(|t| t.file("got").ends_with('!'));
        let (raw, echo) = t.mode();
        if raw || !echo {
            return rec.fail("mode", "the terminal is not as it was".to_string());
        }
        let out = t.end();
        if out.code != Some(0) {
            return rec.fail("end", format!("after {} keys, ends with {:?}: {:?}", case.len(), out.code, out.err));
        }
        rec.state(case);
        rec.trace();
    })
    .init(shell_worker("dunesh", h2))
    .timeout(120.0)
}

// ---- lines at a prompt ----

thread_local! {
    static TYPED: RefCell<VecDeque<String>> = const { RefCell::new(VecDeque::new()) };
    static OVER: RefCell<bool> = const { RefCell::new(false) };
}

fn ask_stub(_: Vec<X>, _: &mut Environment) -> Result<X, Error> {
    match TYPED.with(|t| t.borrow_mut().pop_front()) {
        Some(l) => Ok(X::String(l)),
        None => {
            OVER.with(|o| *o.borrow_mut() = true);
            Err(Error::CustomError("end".into()))
        }
    }
}

fn line_stub(_: Vec<X>, _: &mut Environment) -> Result<X, Error> {
    Ok(X::String(TYPED.with(|t| t.borrow_mut().pop_front()).map_or(String::new(), |l| l + "\n")))
}

fn pass_stub(_: Vec<X>, _: &mut Environment) -> Result<X, Error> {
    match TYPED.with(|t| t.borrow_mut().pop_front()) {
        Some(l) => Ok(X::String(l)),
        None => Err(Error::CustomError("end".into())),
    }
}

const LOG: &str = "let log = x -> { fs@append \"got\" ((str x) + \"|\\n\"); None };";
const PRELUDE: &str = "let prompt = cwd -> { fs@append \"reads\" \"P\"; \"> \" };
let incomplete_prompt = cwd -> { fs@append \"reads\" \"P\"; \">> \" };
let ask = _ -> { fs@append \"reads\" \"P\"; input \"? \" };
let line = _ -> { fs@append \"reads\" \"L\"; console@keyboard@read-line () };
let pass = _ -> { fs@append \"reads\" \"W\"; console@keyboard@read-password () };
";

/// The same session in this process, which logs elsewhere.
fn model(home: &std::path::Path) -> Shell {
    let cwd = home.join("model");
    std::fs::create_dir_all(&cwd).unwrap();
    logs(&cwd);
    OVER.with(|o| *o.borrow_mut() = false);
    TYPED.with(|t| t.borrow_mut().clear());
    let mut m = Shell::new(cwd.to_str().unwrap());
    dune::parse_script(LOG).unwrap().eval(&mut m.env).unwrap();
    for (n, f) in [("ask", ask_stub as fn(Vec<X>, &mut Environment) -> Result<X, Error>), ("line", line_stub), ("pass", pass_stub)] {
        m.env.define(n, X::builtin("stub", f, ""));
    }
    m
}

const LINES: &[&str] = &["log (ask ())", "log (line ())", "log (pass ())", "let x = (ask ()) + (pass ()) + (line ())", "log x", "log (", "1)", "s3cret a\\\"(é", "", "  b "];

/// What the model logged.
fn logged(home: &std::path::Path) -> String {
    String::from_utf8_lossy(&std::fs::read(home.join("model/got")).unwrap_or_default()).into()
}

/// Wait until the shell reads, for the n-th time: how it does.
fn reading(t: &mut Typist, n: usize) -> Option<u8> {
    t.wait(|t| t.file("reads").len() > n);
    let how = *t.file("reads").as_bytes().get(n)?;
    let ready = t.wait(|t| match how {
        b'P' => t.mode().0,
        b'W' => t.mode() == (false, false),
        _ => t.mode() == (false, true),
    });
    ready.then_some(how)
}

/// Sessions at a terminal in which statements read what is typed after them.
fn asked(n: usize) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let lines = move |i: u64| words(i, n, LINES.len()).iter().map(|&d| LINES[d]).collect::<Vec<_>>();
    Space::new("questions", count(n, LINES.len()), move |i| format!("{:?}", lines(i)), move |i, rec| {
        let lines = lines(i);
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let home = home(&p.root, "home", Some(&format!("{LOG}{PRELUDE}")));
        let mut m = model(&home);
        TYPED.with(|t| t.borrow_mut().extend(lines.iter().map(|l| l.to_string())));
        while let Some(l) = TYPED.with(|t| t.borrow_mut().pop_front()) {
            m.line(&l);
        }
        let want = logged(&home);
        logs(&home);
        let mut t = Typist::new(&p.exe, &[], &home);
        let mut screen = String::new();
        let mut todo = lines.iter();
        let what = || format!("typing {lines:?} at a terminal");
        for k in 0.. {
            let Some(how) = reading(&mut t, k) else { break };
            rec.step();
            let Some(l) = todo.next() else {
                // nothing more is typed
                t.keys(b"\x04");
                if how == b'P' {
                    break;
                }
                continue;
            };
            match how {
                b'P' => t.keys(format!("{l}\r").as_bytes()),
                _ => {
                    t.keys(format!("{l}\n").as_bytes());
                    screen += if how == b'W' { "" } else { l };
                    screen += "\r\n";
                }
            }
        }
        t.wait(|_| false);
        // all of it, when it has come through
        let late = std::time::Instant::now();
        while t.screen() != screen && late.elapsed().as_secs_f64() < 3.0 {
            std::thread::sleep(std::time::Duration::from_millis(5))
        }
        let shown = t.screen();
        let got = t.file("got");
        let out = t.end();
        if let Some(c) = out.crash() {
            return rec.fail("crash", format!("{}: {c}", what()));
        }
        if got != want {
            return rec.fail("read", format!("{}: {}", what(), differ(&got, &want)));
        }
        if shown != screen {
            return rec.fail("shown", format!("{}: the terminal shows {}", what(), differ(&shown, &screen)));
        }
        if out.code != Some(0) || todo.next().is_some() {
            return rec.fail("end", format!("{}: ends with {:?}", what(), out.code));
        }
        rec.state(&(&got, &shown));
        rec.trace();
    })
    .init(shell_worker("dunesh", h2))
    .timeout(120.0)
}

// ---- keys at a prompt ----

/// Names of keys and what they send.
const KEYS: &[(&str, &[u8])] = &[
    ("log 1", b"log 1"), ("(", b"("), (" 2)", b" 2)"), ("enter", b"\r"), ("interrupt", b"\x03"), ("end of input", b"\x04"),
    ("erase", b"\x7f"), ("previous", b"\x10"), ("next", b"\x0e"), ("accept the hint", b"\x1b[C"),
];

/// A line that is being typed.
struct Line {
    text: String,
    /// the place in the history, and what was typed before it was left
    at: usize,
    own: String,
}

struct Editor {
    history: Vec<String>,
    line: Line,
    over: bool,
}

impl Editor {
    fn fresh(&mut self) {
        self.line = Line { text: String::new(), at: self.history.len(), own: String::new() }
    }
    fn remember(&mut self, t: &str) {
        if !t.is_empty() && !t.starts_with(char::is_whitespace) && self.history.last().map(|h| &h[..]) != Some(t) {
            self.history.push(t.into())
        }
    }
    /// Whether the shell reads again after this key.
    fn key(&mut self, k: usize, m: &mut Shell) -> bool {
        let l = &mut self.line;
        match KEYS[k].0 {
            "enter" | "interrupt" => {
                let text = if KEYS[k].0 == "enter" { std::mem::take(&mut l.text) } else { String::new() };
                let whole = m.lines.iter().cloned().chain([text.clone()]).collect::<Vec<_>>().join("\n");
                let complete = m.line(&text);
                if complete || !text.is_empty() {
                    self.remember(&whole)
                }
                self.fresh();
                return true;
            }
            "end of input" => self.over = l.text.is_empty(),
            "erase" => {
                l.text.pop();
            }
            "previous" => {
                if l.at > 0 {
                    if l.at == self.history.len() {
                        l.own = l.text.clone()
                    }
                    l.at -= 1;
                    l.text = self.history[l.at].clone()
                }
            }
            "next" => {
                if l.at < self.history.len() {
                    l.at += 1;
                    l.text = self.history.get(l.at).unwrap_or(&l.own).clone()
                }
            }
            "accept the hint" => {
                if l.text.is_empty() || self.history.is_empty() {
                    return false;
                }
                let upto = (l.at + 1).min(self.history.len());
                if let Some(e) = self.history[..upto].iter().rev().find(|e| e.starts_with(&l.text)) {
                    l.text = e.clone()
                }
            }
            text => l.text += text,
        }
        false
    }
}

/// Sequences of these of the keys.
pub fn typed(n: usize, of: &'static [usize]) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let keys = move |i: u64| words(i, n, of.len()).into_iter().map(|k| of[k]).collect::<Vec<_>>();
    Space::new("keys at a prompt", count(n, of.len()), move |i| format!("{:?}", keys(i).iter().map(|&k| KEYS[k].0).collect::<Vec<_>>()), move |i, rec| {
        let mut keys = keys(i);
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let home = home(&p.root, "home", Some(&format!("{LOG}{PRELUDE}")));
        let mut m = model(&home);
        logs(&home);
        let mut t = Typist::new(&p.exe, &[], &home);
        let what = |keys: &[usize]| format!("typing {:?} at a terminal", keys.iter().map(|&k| KEYS[k].0).collect::<Vec<_>>());
        let mut reads = 0;
        if reading(&mut t, reads).is_none() {
            let e = t.end();
            return rec.fail("start", format!("does not begin to read: {:?} {}", e.code, e.err));
        }
        // the line is entered, and then nothing more is typed
        keys.extend([3, 5]);
        let mut e = Editor { history: vec![], line: Line { text: String::new(), at: 0, own: String::new() }, over: false };
        for (n, &k) in keys.iter().enumerate() {
            rec.step();
            let again = e.key(k, &mut m);
            t.keys(KEYS[k].1);
            if e.over {
                break;
            }
            if again {
                reads += 1;
                if reading(&mut t, reads).is_none() {
                    let got = t.file("got");
                    let e = t.end();
                    return rec.fail("goes on", format!("{}: no line is read after that ({:?}, {:?}) {got:?} {}", what(&keys[..n + 1]), e.crash(), e.code, e.err));
                }
                let (got, want) = (t.file("got"), logged(&home));
                if got != want {
                    return rec.fail("runs", format!("{}: {}", what(&keys[..n + 1]), differ(&got, &want)));
                }
            }
        }
        let reads_made = t.file("reads").len();
        let history = home.join(".dune-history");
        let out = t.end();
        if out.hung || out.code != Some(0) {
            return rec.fail("end", format!("{}: ends with {:?} {:?}", what(&keys), out.code, out.crash()));
        }
        if reads_made != reads + 1 {
            return rec.fail("reads", format!("{}: {} lines are read and not {}", what(&keys), reads_made, reads + 1));
        }
        rec.state(&(logged(&home), std::fs::read(history).ok()));
        rec.trace();
    })
    .init(shell_worker("dunesh", h2))
    .timeout(120.0)
}

// ---- where there is no terminal ----

fn none() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let mut cases = vec![];
    for f in ["console@keyboard@read-key ()", "console@keyboard@read-password ()", "console@mode@raw ()", "console@mode@cooked ()"] {
        for how in ["file", "-x", "session", "import"] {
            cases.push((f, how))
        }
    }
    Space::list("no terminal", cases, move |&(f, how), rec| {
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let home = home(&p.root, "home", Some(""));
        let text = format!("fs@write \"got\" (err@try ({f}) (e -> e @ code))");
        let end = "fs@write \"end\" \"reached\"";
        let r = Run::new(&p.exe, &home);
        std::fs::write(home.join("p.dune"), format!("{text};\n{end}")).unwrap();
        let r = match how {
            "file" => r.args(&["p.dune"]),
            "-x" => r.args(&["-x", &format!("{text};{end}")]),
            "session" => r.stdin(&format!("{text}\n{end}\n")),
            _ => {
                std::fs::write(home.join("i.dune"), "sys@import \"p.dune\"").unwrap();
                r.args(&["i.dune"])
            }
        };
        // no terminal controls it
        let out = r.detached().go();
        rec.step();
        let what = format!("{f} in a {how} without a terminal");
        if let Some(c) = out.crash() {
            return rec.fail("crash", format!("{what}: {c}"));
        }
        if !home.join("end").exists() {
            return rec.fail("end", format!("{what}: what follows is not run ({:?} {})", out.code, out.err));
        }
        let got = std::fs::read_to_string(home.join("got")).unwrap_or_default();
        if got != "9" && !f.ends_with("cooked ()") {
            return rec.fail("error", format!("{what}: gives {got:?}"));
        }
        rec.state(&got);
        rec.trace();
    })
    .init(shell_worker("dunesh", h2))
    .timeout(90.0)
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let (a, b, c) = if q { (3, 3, 4) } else { (4, 4, 5) };
    Check {
        id: "C34",
        rule: "every text of a bounded length read from a pipe, by every mixture of the ways to read a line, until after its end; every key a terminal sends, and every sequence of a bounded length of them, read at a real terminal; every session of a bounded length at a real terminal in which statements read what is typed next; every sequence of keys at its prompt, against a model of the line that is edited and of the shell".into(),
        bounds: format!("texts of up to {a} of {} pieces; all keys and pairs of keys; sessions of up to {b} of {} lines; sequences of up to {c} of {} keys at a prompt", BYTES.len(), LINES.len(), KEYS.len()),
        assumptions: vec![
            "each key is typed when the one before has been taken; a terminal without bracketed paste".into(),
        ],
        spaces: vec![piped(a), pressed(q), asked(b), typed(c, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), none()],
    }
}
