//! C22 typing a line, C23 sessions, C25 starting, C27 interrupts.
use super::util::*;
use crate::engine::*;
use crate::spec::lex::{self, D, K};
use crate::spec::term::show;
use super::proc;
use dune::{Environment, Error, Expression as X};
use dunesh_lib::verif::Session;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;

fn plain_worker(scratch: &Path) {
    unprivileged(scratch);
    bare_process_env();
    limit_memory(8 << 30);
    let _ = std::env::set_current_dir(scratch);
}

// ---------------------------------------------------------------------------- C22

const ERROR: u32 = 256 + 9;

/// The colour of every byte of a line, as the kinds of its tokens say.
fn colours(line: &str) -> Vec<Option<u32>> {
    let mut out = vec![Option::None; line.len()];
    for t in lex::lex(line) {
        let s = &line[t.a..t.b];
        let c = match t.k {
            K::Bool | K::Kw => Some(95),
            K::Punct if ["@", "'", "=", "|", ">>", "<<", ">>>", "->", "~>"].contains(&s) => Some(96),
            K::Op => Some(256 + 220),
            K::Str => Some(256 + 208),
            K::Sym if ["echo", "exit", "clear", "cd", "rm"].contains(&s) => Some(94),
            K::Comment => Some(256 + 247),
            _ => Option::None,
        };
        let wrong: Vec<(usize, usize)> = match &t.d {
            D::Valid => vec![],
            D::Escapes(v) => v.clone(),
            D::Number(a, b) | D::Illegal(a, b) => vec![(*a, *b)],
        };
        for (i, o) in out[t.a..t.b].iter_mut().enumerate() {
            let i = t.a + i;
            *o = if wrong.iter().any(|w| w.0 <= i && i < w.1) { Some(ERROR) } else { c };
        }
    }
    out
}

fn highlighted(sess: &Session, line: &str, rec: &mut Rec) {
    let got = match guard(|| sess.highlight(line, line.len())) {
        Ok(g) => g,
        Err(p) => return rec.fail("panic", format!("highlighting {line:?}: {p}")),
    };
    let t = match show(&got) {
        Ok(t) => t,
        Err(e) => return rec.fail("highlight", format!("{line:?} is shown as {got:?}: {e}")),
    };
    rec.steps(line.chars().count() as u64);
    rec.trace();
    if t.text() != line {
        return rec.fail("highlight", format!("{line:?} is shown as {:?}", t.text()));
    }
    if t.style.colour.is_some() || !t.style.attrs.is_empty() {
        return rec.fail("highlight", format!("after {line:?} the style is {:?}", t.style));
    }
    let want = colours(line);
    let mut look = vec![];
    for ((at, ch), (_, style)) in line.char_indices().zip(&t.printed) {
        if ch.is_whitespace() && want[at].is_none() {
            continue;
        }
        if style.colour != want[at] || !style.attrs.is_empty() {
            return rec.fail("highlight", format!("in {line:?} the {ch:?} at {at} has {style:?} and not {:?}", want[at]));
        }
        look.push(want[at]);
    }
    look.dedup();
    rec.state(&look);
}

const CHARS: &[char] = &['a', 'N', '"', '\\', 'n', '0', '9', '.', '\'', '#', '\n', ' ', 'é', '@', '|', '>', '-', '=', '('];

const PIECES: &[&str] = &[
    "None", "True", "False", "let", "if", "else", "to", "echo", "rm", "exit", "cd", "clear", "x", "1", "-2", "1.5", "99999999999999999999", "\"a\"", "\"a\\q\"", "\"\\u{110000}b\\x\"", "'a\\q'", "# c", "\n", " ", "\t", "@", "->", "~>", "|", ">>", "==", "+", "(", "}", ",", ";", "é", "日", "\"open", "`", "\u{a0}",
];

fn colourful(n: usize, m: usize) -> Vec<Space> {
    let empty = || Session::new(&Environment::new(), &[]);
    let (a, b) = (Rc::new(RefCell::new(Option::None)), Rc::new(RefCell::new(Option::None)));
    let with = move |h: Rc<RefCell<Option<Session>>>| {
        move |s: &Path| {
            plain_worker(s);
            *h.borrow_mut() = Some(empty());
        }
    };
    let chars = move |i: u64| words(i, n, CHARS.len()).iter().map(|&d| CHARS[d]).collect::<String>();
    let pieces = move |i: u64| words(i, m, PIECES.len()).iter().map(|&d| PIECES[d]).collect::<String>();
    let (a2, b2) = (a.clone(), b.clone());
    vec![
        Space::new("texts", count(n, CHARS.len()), move |i| format!("{:?}", chars(i)), move |i, r| {
            highlighted(a2.borrow().as_ref().unwrap(), &chars(i), r)
        })
        .init(with(a)),
        Space::new("token sequences", count(m, PIECES.len()), move |i| format!("{:?}", pieces(i)), move |i, r| {
            highlighted(b2.borrow().as_ref().unwrap(), &pieces(i), r)
        })
        .init(with(b)),
    ]
}

/// Lines of very many tokens, alike but one.
fn long_lines(quick: bool) -> Space {
    let counts: Vec<usize> = if quick { vec![20, 100, 129, 256, 1000, 3001] } else { (10..=300).chain([1000, 3001, 10_000]).collect() };
    let mut cases = vec![];
    for a in 0..PIECES.len() {
        for b in 0..PIECES.len() {
            if a % 4 == b % 4 || !quick {
                cases.extend(counts.iter().map(|&n| (a, b, n)))
            }
        }
    }
    let h = Rc::new(RefCell::new(Option::None));
    let h2 = h.clone();
    Space::list("long lines", cases, move |&(a, b, n), rec| {
        let mut line = format!("{} ", PIECES[a]).repeat(n);
        line += PIECES[b];
        line += &format!(" {}", PIECES[a]).repeat(n % 50);
        highlighted(h2.borrow().as_ref().unwrap(), &line, rec)
    })
    .init(move |s| {
        plain_worker(s);
        *h.borrow_mut() = Some(Session::new(&Environment::new(), &[]));
    })
}

/// Hints after histories of very many entries.
fn long_histories() -> Space {
    let mut cases = vec![];
    for n in [3, 10, 50, 90] {
        for at in 0..n {
            cases.push((n, at))
        }
    }
    // one entry is different from the others, which are "old K"
    Space::list("long histories", cases, move |&(n, at): &(usize, usize), rec| {
        let entries: Vec<String> = (0..n).map(|i| if i == at { "ovo rare".into() } else { format!("old {} entry", i % 7) }).collect();
        let sess = Session::new(&Environment::new(), &entries.iter().map(|e| &e[..]).collect::<Vec<_>>());
        for line in ["o", "ov", "ovo rar", "old", "old 1", "old 6 e", "p", "old 7", "ovo rare"] {
            rec.step();
            let want = entries.iter().rev().find(|e| e.starts_with(line)).map_or("", |e| &e[line.len()..]);
            match guard(|| sess.hint(line, line.len())) {
                Err(p) => return rec.fail("panic", format!("a hint for {line:?}: {p}")),
                Ok(g) if g.clone().unwrap_or_default() != want => return rec.fail("hint", format!("for {line:?} after {n} entries with one different at {at} the hint is {g:?} and not {want:?}")),
                Ok(g) => {
                    rec.state(&(line, g));
                }
            }
        }
        rec.trace()
    })
    .init(plain_worker)
}

/// Completion where there are very many files.
fn many_files() -> Space {
    let root: Rc<RefCell<PathBuf>> = Rc::default();
    let root2 = root.clone();
    let mut cases = vec![];
    for n in [1usize, 99, 100, 101, 255, 256, 257, 1000] {
        for typed in ["", "f", "f1", "f10", "f99", "d", "d0/", "d0/f", "g"] {
            for cwd in [false, true] {
                cases.push((n, typed, cwd))
            }
        }
    }
    Space::list("many files", cases, move |&(n, typed, cwd), rec| {
        let dir = root.borrow().join(n.to_string());
        let mut env = Environment::new();
        let cwd = if cwd { dir.clone() } else { root.borrow().clone() };
        env.set_cwd(cwd.to_str().unwrap());
        let sess = Session::new(&env, &[]);
        let typed = if cwd == dir { typed.to_string() } else { format!("{n}/{typed}") };
        let line = format!("ls {typed}");
        rec.steps(n as u64);
        let got: BTreeSet<String> = match guard(|| sess.complete(&line, line.len())) {
            Ok(Some((start, pairs))) => pairs.iter().map(|p| format!("{}{}", &line[..start], p.1)).collect(),
            Ok(Option::None) => BTreeSet::new(),
            Err(p) => return rec.fail("panic", format!("completing {line:?}: {p}")),
        };
        let want: BTreeSet<String> = candidates(&cwd, &typed).into_iter().map(|c| format!("ls {c}")).collect();
        if got != want {
            return rec.fail("complete", format!("{line:?} beside {n} files: {} completions and not {}", got.len(), want.len()));
        }
        rec.state(&(n, got.len()));
        rec.trace()
    })
    .init(move |s| {
        plain_worker(s);
        let r = s.join("many");
        for n in [1usize, 99, 100, 101, 255, 256, 257, 1000] {
            let d = r.join(n.to_string());
            std::fs::create_dir_all(d.join("d0")).unwrap();
            for i in 0..n {
                std::fs::write(d.join(format!("f{i}")), "").unwrap();
                std::fs::write(d.join(format!("d0/f{i}")), "").unwrap();
            }
        }
        *root2.borrow_mut() = r;
    })
}

/// All words of at most `n` letters.
pub fn count(n: usize, letters: usize) -> u64 {
    (0..=n).map(|k| (letters as u64).pow(k as u32)).sum()
}

pub fn words(mut i: u64, n: usize, letters: usize) -> Vec<usize> {
    for k in 0..=n {
        let here = (letters as u64).pow(k as u32);
        if i < here {
            return (0..k).map(|d| (i / (letters as u64).pow(d as u32)) as usize % letters).collect();
        }
        i -= here
    }
    unreachable!()
}

const COMMANDS: &[&str] = &["exit 0", "ls ", "rm -ri ", "cp -r ", "head ", "tail ", "cd ", "clear"];
const ENTRIES: &[&str] = &["ls", "ls -a", "exit 1", "let x = 1", "éa", "é", " ls", "let x = 1\n+ 2", "cd a", "l", "x"];

/// The history an editor keeps: no entry twice in a row, none that begins with a space.
fn kept(h: &[&'static str]) -> Vec<&'static str> {
    let mut v: Vec<&str> = vec![];
    for e in h {
        if !e.starts_with(char::is_whitespace) && v.last() != Some(e) {
            v.push(e)
        }
    }
    v
}

fn hints(n: usize) -> Space {
    let lines: Vec<String> = {
        let mut s = BTreeSet::new();
        for w in COMMANDS.iter().chain(ENTRIES) {
            for (i, _) in w.char_indices().chain([(w.len(), ' ')]) {
                for tail in ["", "q", " "] {
                    for head in ["", " ", "q", "x; "] {
                        s.insert(format!("{head}{}{tail}", &w[..i]));
                    }
                }
            }
        }
        s.into_iter().collect()
    };
    let lines = Rc::new(lines);
    let history = move |i: u64| words(i, n, ENTRIES.len()).iter().map(|&d| ENTRIES[d]).collect::<Vec<_>>();
    Space::new("hints", count(n, ENTRIES.len()), move |i| format!("history {:?}", history(i)), move |i, rec| {
        let h = history(i);
        let sess = Session::new(&Environment::new(), &h);
        let past = kept(&h);
        for line in lines.iter() {
            for (pos, _) in line.char_indices().chain([(line.len(), ' ')]) {
                rec.step();
                let got = match guard(|| sess.hint(line, pos)) {
                    Ok(g) => g.unwrap_or_default(),
                    Err(p) => return rec.fail("panic", format!("a hint for {line:?} at {pos}: {p}")),
                };
                let whole = format!("{line}{got}");
                // of any use only where it can be taken: at the end
                if !got.is_empty() && pos == line.len() && !COMMANDS.contains(&&whole[..]) && !past.contains(&&whole[..]) {
                    return rec.fail("hint", format!("for {line:?} after {past:?} the hint is {got:?}"));
                }
                if pos < line.len() {
                    continue;
                }
                let command = COMMANDS.iter().find(|c| !line.trim().is_empty() && c.starts_with(&line[..]));
                let entry = past.iter().rev().find(|e| !line.is_empty() && e.starts_with(&line[..]));
                let want = match (command, entry) {
                    (Some(c), _) => c[line.len()..].to_string(),
                    (_, Some(e)) => e[line.len()..].to_string(),
                    _ => String::new(),
                };
                if got != want {
                    return rec.fail("hint", format!("for {line:?} after {past:?} the hint is {got:?} and not {want:?}"));
                }
                if rec.state(&(line, &got)) {
                    rec.sample(|| format!("{line:?} after {past:?}: {got:?}"))
                }
                rec.trace()
            }
        }
    })
    .init(plain_worker)
}

/// Files to complete; a directory ends with a slash.
const FILES: &[&str] = &[
    "alpha", "alps", "al/", "al/in", "al/inner", "sub/", "sub/file1", "sub/file2", "sub/deep/", "sub/deep/x", ".hid", "é1", "éa", "be ta/", "be ta/in ner", "be st", "x@y", "q\"uote", "data(1)", "zz", "dark/", "dark/seen",
];

const CWDS: &[&str] = &["", "sub", "be ta", "missing", "zz", "dark", "sub/deep"];

/// What stands before the word, and whether it is in quotes.
const BEFORE: &[(&str, bool)] = &[
    ("", false), ("ls ", false), ("echo (", false), ("x = ", false), ("cat a; ls ", false), ("[a ", false), ("é ", false), ("ls \"", true), ("cp \"a b\" \"", true), ("a | b ", false), ("{", false), ("head -n 3 ", false),
];

/// What is typed of the path. R stands for the directory all files are in.
const TYPED: &[&str] = &[
    "", "a", "al", "al/", "al/i", "alp", "alpha", "alphaa", "s", "sub/", "sub/f", "sub/file1", "sub/deep/", "sub/deep/x", "./", "./al", "../", "../al", "../sub/f", "f", "x", "i", ".", ".h", "é", "éa", "z", "zz", "zz/", "nope/", "R/", "R/al", "R/sub/f", "R/nope", "R/dark/", "dark/", "b", "be ", "be ta/", "be ta/in", "sub/../al", "al//i",
];

/// What follows the cursor.
const AFTER: &[&str] = &["", " b", ")", "\"", "phe"];

/// The paths the typed text can be continued to.
fn candidates(cwd: &Path, typed: &str) -> BTreeSet<String> {
    let (dir, name) = typed.rfind('/').map_or(("", typed), |i| typed.split_at(i + 1));
    let mut out = BTreeSet::new();
    // a directory that is not there has nothing in it, not even what is above it
    if cwd.is_dir() || dir.starts_with('/') {
        for e in std::fs::read_dir(cwd.join(dir)).into_iter().flatten().flatten() {
            let n = e.file_name().into_string().unwrap();
            if n.starts_with(name) {
                if let Ok(m) = std::fs::metadata(e.path()) {
                    out.insert(format!("{dir}{n}{}", if m.is_dir() { "/" } else { "" }));
                }
            }
        }
    }
    out
}

fn special(s: &str) -> bool {
    s.chars().any(|c| " \"\\'`@$><=;|&{(".contains(c))
}

fn completions() -> Space {
    let root: Rc<RefCell<PathBuf>> = Rc::default();
    let root2 = root.clone();
    let mut cases = vec![];
    for c in CWDS {
        for b in BEFORE {
            for t in TYPED {
                // outside of quotes a space would end the word
                if b.1 || !special(t) {
                    cases.push((*c, *b, *t))
                }
            }
        }
    }
    Space::list("completions", cases, move |&(cwd, (before, quoted), typed), rec| {
        let root = root.borrow();
        let cwd = if cwd.is_empty() { root.clone() } else { root.join(cwd) };
        let typed = typed.replace('R', root.to_str().unwrap());
        let mut env = Environment::new();
        // the shell has been somewhere else before
        env.set_cwd(root.join("sub").to_str().unwrap());
        let mut sess = Session::new(&env, &[]);
        if guard(|| sess.complete("f", 1)).map(|c| c.map(|c| c.1.len())) != Ok(Some(2)) {
            return rec.fail("complete", "the files of the first directory are not found");
        }
        env.set_cwd(cwd.to_str().unwrap());
        sess.update_env(&env);
        for after in AFTER {
            let (line, pos) = (format!("{before}{typed}{after}"), before.len() + typed.len());
            let (start, pairs) = match guard(|| sess.complete(&line, pos)) {
                Ok(Some(r)) => r,
                Ok(Option::None) => (pos, vec![]),
                Err(p) => return rec.fail("panic", format!("completing {line:?} at {pos} in {cwd:?}: {p}")),
            };
            if pairs.is_empty() {
                // nothing to replace
            } else if start > pos || !line.is_char_boundary(start) {
                return rec.fail("complete", format!("completing {line:?} at {pos} in {cwd:?} replaces from {start}"));
            }
            rec.step();
            let bare = |s: &str| {
                // outside and inside quotes, a backslash makes the next character an ordinary one
                let mut o = String::new();
                let mut it = s.chars();
                while let Some(c) = it.next() {
                    o.extend(if c == '\\' { it.next() } else { Some(c) })
                }
                o
            };
            let mut got = BTreeSet::new();
            for (shown, replacement) in &pairs {
                let result = format!("{}{replacement}{}", &line[..start], &line[pos..]);
                let Some(mid) = result.strip_prefix(before).and_then(|r| r.strip_suffix(after)) else {
                    return rec.fail("complete", format!("completing {line:?} at {pos} in {cwd:?} makes it {result:?}"));
                };
                let path = bare(mid);
                // what needs no care is written as it is
                if !special(&path) && mid != path {
                    return rec.fail("complete", format!("completing {line:?} at {pos} in {cwd:?} makes it {result:?}"));
                }
                if path.trim_end_matches('/').rsplit('/').next() != Some(&shown[..]) {
                    return rec.fail("complete", format!("completing {line:?} shows {shown:?} for {path:?}"));
                }
                got.insert(path);
            }
            let want = candidates(&cwd, &typed);
            if got != want {
                return rec.fail("complete", format!("{line:?} at {pos} in {cwd:?} is completed to {got:?} and not to {want:?}"));
            }
            rec.state(&(quoted, &got, &typed));
            rec.trace();
        }
    })
    .init(move |s| {
        plain_worker(s);
        let r = s.join("r");
        *root2.borrow_mut() = r.clone();
        let _ = std::fs::set_permissions(r.join("dark"), std::fs::Permissions::from_mode(0o755));
        for f in FILES {
            match f.strip_suffix('/') {
                Some(d) => std::fs::create_dir_all(r.join(d)).unwrap(),
                _ => {
                    let p = r.join(f);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p, "").unwrap()
                }
            }
        }
        // can be listed, but not entered
        std::fs::set_permissions(r.join("dark"), std::fs::Permissions::from_mode(0o444)).unwrap();
    })
}

pub fn typing(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let (n, m, h) = if q { (5, 4, 3) } else { (6, 5, 4) };
    let mut spaces = colourful(n, m);
    spaces.push(hints(h));
    spaces.push(completions());
    spaces.push(long_lines(tier == Tier::Quick));
    spaces.push(long_histories());
    spaces.push(many_files());
    Check {
        id: "C22",
        rule: "every text, history and directory, enumerated by index, on the real editor helper; highlighted lines are read by a terminal model and compared with the reference lexer".into(),
        bounds: format!("all texts of up to {n} of {} characters and up to {m} of {} tokens are highlighted; hints for all prefixes (and near misses) of commands and entries, at every cursor position, after all histories of up to {h} of {} entries; completions in {} directories x {} contexts x {} typed paths x {} texts after the cursor", CHARS.len(), PIECES.len(), ENTRIES.len(), CWDS.len(), BEFORE.len(), TYPED.len(), AFTER.len()),
        assumptions: vec![
            "colour of white space is not compared (it cannot be seen)".into(),
            "how a completed name is written when it contains a character with a meaning, outside quotes, is not compared".into(),
        ],
        spaces,
    }
}

// ---------------------------------------------------------------------------- C23

thread_local! {
    static EXIT: RefCell<Option<i64>> = const { RefCell::new(None) };
}

fn exit_stub(args: Vec<X>, env: &mut Environment) -> Result<X, Error> {
    let code = match args.first().map(|a| a.eval(env)).transpose()? {
        Some(X::Integer(n)) => n,
        _ => 0,
    };
    EXIT.with(|e| *e.borrow_mut() = Some(code));
    Err(Error::CustomError("exit".into()))
}

/// What a session is: the texts that are complete, evaluated one after another in one
/// environment, and what is done with each result.
pub struct Shell {
    pub env: Environment,
    pub lines: Vec<String>,
    pub out: String,
    pub err: String,
    /// texts that were complete
    complete: Vec<String>,
    /// texts that were tried
    tried: BTreeSet<String>,
    pub exit: Option<i64>,
}

/// The functions the shell defines itself.
const OWN: &[&str] = &[
    "let clear = _ ~> console@clear ()",
    "let pwd = _ ~> echo CWD",
    "let join = sep -> l -> { let sep = str sep; fn@reduce (x -> y -> x + sep + (str y)) (str l@0) (list@tail l) }",
    "let prompt = cwd -> fmt@bold ((fmt@dark@blue \"(dune) \") + (fmt@bold (fmt@dark@green cwd)) + (fmt@bold (fmt@dark@blue \"$ \")))",
    "let incomplete_prompt = cwd -> ((len cwd) + (len \"(dune) \")) * \" \" + (fmt@bold (fmt@dark@yellow \"> \"));",
];

/// What the shell defines before it runs anything.
pub fn defined(cwd: &str) -> Environment {
    let mut env = full_env(cwd);
    for d in OWN {
        dune::parse_script(d).unwrap().eval(&mut env).unwrap();
    }
    env
}

impl Shell {
    pub fn new(cwd: &str) -> Shell {
        let mut env = defined(cwd);
        for n in ["exit", "quit"] {
            env.define(n, X::builtin("exit", exit_stub, ""));
        }
        Shell { env, lines: vec![], out: String::new(), err: String::new(), complete: vec![], tried: BTreeSet::new(), exit: Option::None }
    }

    /// A line is typed. The outcome: was it, with those before, complete?
    pub fn line(&mut self, line: &str) -> bool {
        self.lines.push(line.into());
        let text = self.lines.join("\n");
        self.tried.insert(text.clone());
        match dune::parse_script(&text) {
            Ok(x) => {
                self.complete.push(text);
                self.lines.clear();
                self.run(x);
                true
            }
            Err(e) => {
                if line.is_empty() {
                    if let nom::Err::Error(e) | nom::Err::Failure(e) = e {
                        self.err += &format!("{}\n", Error::SyntaxError(text[..].into(), e));
                    }
                    self.lines.clear();
                }
                false
            }
        }
    }

    fn run(&mut self, x: X) {
        EXIT.with(|e| *e.borrow_mut() = Option::None);
        let env = &mut self.env;
        let report = |v: X, env: &mut Environment| {
            let _ = X::Apply(Box::new(X::Symbol("report".into())), vec![v]).eval(env);
        };
        let (problem, out, err) = capture(|| match x.eval(env) {
            Ok(X::None) => Ok(()),
            // a name alone is a program
            Ok(X::Symbol(n)) => X::Apply(Box::new(X::Symbol(n)), vec![]).eval(env).map(|_| ()),
            // a macro is given the directory
            Ok(m @ X::Macro(..)) => {
                report(X::Apply(Box::new(m), vec![env.get_cwd().into()]), env);
                Ok(())
            }
            Ok(v) => {
                report(X::Quote(Box::new(v)), env);
                Ok(())
            }
            Err(e) => Err(e),
        });
        self.out += &String::from_utf8_lossy(&out);
        self.err += &String::from_utf8_lossy(&err);
        self.exit = EXIT.with(|e| *e.borrow());
        match problem {
            Err(e) if self.exit.is_none() => self.err += &format!("{e}\n"),
            _ => {}
        }
    }

    /// The prompt for the next line.
    fn prompt(&mut self) -> String {
        let f = if self.lines.is_empty() { "prompt" } else { "incomplete_prompt" };
        let cwd = self.env.get_cwd();
        match X::Apply(Box::new(X::Symbol(f.into())), vec![cwd.clone().into()]).eval(&mut self.env) {
            Ok(v) => v.to_string(),
            Err(_) => format!("{cwd}$ "),
        }
    }
}

/// Something went other than it should in these lines.
fn history_of(file: &Path) -> Vec<String> {
    let s = std::fs::read_to_string(file).unwrap_or_default();
    s.lines()
        .skip_while(|l| *l == "#V2")
        .map(|l| {
            let mut o = String::new();
            let mut it = l.chars();
            while let Some(c) = it.next() {
                match c {
                    '\\' => match it.next() {
                        Some('n') => o.push('\n'),
                        Some(c) => o.push(c),
                        _ => o.push('\\'),
                    },
                    c => o.push(c),
                }
            }
            o
        })
        .collect()
}

const LINES: &[&str] = &[
    "let x = 1", "x", "let x = x + 1", "let f = a ->", "a * 2", "f 3", "(", ")", "[1,", "2]", "{", "}", "", " ", "# note", "1 +", "show", "show a \"b c\"", "nosuch", "1 + None", "let m = p ~> [p, x]", "m", "sys@cd \"sub\"", "sys@cwd ()", "'x", "if x == 1 {", "print \"no line end\"", "\"é\"", " 7", "exit 3", "let report = v -> println \"<\" v \">\"", "1 2 `", "println x; None", "let y =", "x = 5", "a -> println a", "let f = a -> println a", "f", "let g = f", "+", "fn@map", "'(println 2)", "'{println 1; println 2}", "{a = x, b = 'x}", "['(println 3), None]", "''x", "m2 ~> m2 -> m2", "True", "1.50", "let list = ['show, x]", "list@0", "let report = None", "''",
];

pub struct Place {
    pub root: PathBuf,
    pub exe: PathBuf,
}
pub type Held = Rc<RefCell<Option<Place>>>;

pub fn shell_worker(exe: &str, h: Held) -> impl Fn(&Path) {
    let exe = exe.to_string();
    move |s: &Path| {
        let exe = proc::tool(s, &exe, "bin/dunesh");
        proc::tool(s, "stub", "path/show");
        proc::tool(s, "stub", "path/wait");
        plain_worker(s);
        let root = s.join("box");
        std::fs::create_dir_all(root.join("sub")).unwrap();
        std::env::set_var("PATH", s.join("path"));
        std::env::set_var("HOME", &root);
        *h.borrow_mut() = Some(Place { root, exe });
    }
}

pub fn home(root: &Path, n: &str, prelude: Option<&str>) -> PathBuf {
    let home = root.join(n);
    if home.exists() {
        empty_dir(&home);
    }
    let _ = std::fs::create_dir_all(&home);
    if let Some(p) = prelude {
        std::fs::write(home.join(".dune-prelude"), p).unwrap();
    }
    home
}

/// Text that differs, shortened around the difference.
pub fn differ(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| s.chars().skip(n.saturating_sub(20)).take(120).collect::<String>();
    format!("...{:?} and not ...{:?}", cut(a), cut(b))
}

/// The real program reads these lines, in one process for each list.
fn session(p: &Place, runs: &[Vec<&str>], rec: &mut Rec) {
    session_after(p, 0, runs, rec)
}

/// What a session finds in place of its history.
const FOUND: &[&str] = &["nothing", "a directory", "a link to nowhere", "bytes that are not text", "no header", "an unfinished line", "only a header", "many lines", "an empty file", "a link to itself"];

fn find(file: &Path, found: usize) {
    use std::os::unix::fs::symlink;
    match found {
        0 => {}
        1 => std::fs::create_dir(file).unwrap(),
        2 => symlink("no/such/place", file).unwrap(),
        3 => std::fs::write(file, b"#V2\nlet a = 1\n\xff\xfe\n\0\n").unwrap(),
        4 => std::fs::write(file, "let a = 1\nb\n").unwrap(),
        5 => std::fs::write(file, "#V2\nlet a = 1\nlet b = (\\n1)\\").unwrap(),
        6 => std::fs::write(file, "#V2\n").unwrap(),
        7 => std::fs::write(file, format!("#V2\n{}", (0..3000).map(|i| format!("let v{i} = {i}\n")).collect::<String>())).unwrap(),
        8 => std::fs::write(file, "").unwrap(),
        _ => symlink(".dune-history", file).unwrap(),
    }
}

/// With something in the place of the history: the session goes on as it would.
fn session_after(p: &Place, found: usize, runs: &[Vec<&str>], rec: &mut Rec) {
    let home = home(&p.root, "home", Some(""));
    find(&home.join(".dune-history"), found);
    let cwd = p.root.to_str().unwrap();
    let mut past: Vec<String> = vec![];
    for lines in runs {
        let mut model = Shell::new(cwd);
        let mut input = String::new();
        for l in lines {
            input += l;
            input += "\n";
        }
        for l in lines {
            model.line(l);
            rec.step();
            if model.exit.is_some() {
                break;
            }
        }
        let out = proc::Run::new(&p.exe, &p.root)
            .env("HOME", home.to_str().unwrap())
            .env("PATH", p.root.join("../path").canonicalize().unwrap().to_str().unwrap())
            .stdin(&input)
            .go();
        if let Some(c) = out.crash() {
            return rec.fail("crash", format!("typing {lines:?}: {c}"));
        }
        if out.out != model.out {
            return rec.fail("output", format!("typing {lines:?} prints {}", differ(&out.out, &model.out)));
        }
        let mut err = out.err.clone();
        if found != 0 {
            // that the history is not kept may be said
            err = err.lines().filter(|l| !l.to_lowercase().contains("history")).map(|l| format!("{l}\n")).collect();
        }
        if err != model.err {
            return rec.fail("errors", format!("typing {lines:?} reports {}", differ(&err, &model.err)));
        }
        let code = model.exit.unwrap_or(0);
        if out.code != Some(code as i32) {
            return rec.fail("end", format!("after {lines:?} it ends with {:?} and not {code}", out.code));
        }
        if found != 0 {
            rec.state(&(&model.out, &model.err, code));
            rec.trace();
            continue;
        }
        // what was completed can be found again, in order; nothing else but what was typed can
        let file = history_of(&home.join(".dune-history"));
        let mut want = past.clone();
        want.extend(model.complete.iter().cloned());
        want.retain(|t| !t.is_empty() && !t.starts_with(char::is_whitespace));
        want.dedup();
        // of a long history, the latest part
        let mut it = file.iter();
        for w in &want[want.len().saturating_sub(90)..] {
            if !it.any(|f| f == w) {
                return rec.fail("history", format!("after {past:?} and typing {lines:?} the history is {file:?}: {w:?} is not found"));
            }
        }
        if let Some(x) = file.iter().find(|f| !model.tried.contains(*f) && !past.contains(f)) {
            return rec.fail("history", format!("after {past:?} and typing {lines:?} the history is {file:?}: {x:?} was never entered"));
        }
        past = file;
        rec.state(&(&model.out, &model.err, code));
        rec.trace();
    }
}

/// What the shell's own functions do.
const FUNCTIONS: &[(&str, &str)] = &[
    ("pwd ()", "@\n"), ("pwd", "@\n"), ("let d = 1\nsys@cd \"sub\"\npwd ()", "@/sub\n"), ("join \",\" [1, 2, 3]", "1,2,3\n"), ("join \"\" [\"a\"]", "a\n"), ("[\"x\", \"y\"] | join \" - \" ", "x - y\n"), ("join 0 [1, 2]", "102\n"), ("let join2 = join \"/\"\njoin2 [\"a\", \"b\"]", "a/b\n"), ("clear", "\u{1b}[2J\u{1b}[H"), ("clear ()", "\u{1b}[2J\u{1b}[H"),
];

/// Sessions of the interactive loop inside this process, with the prompts it shows.
const PROMPTS: &[&str] = &[
    "let prompt = c -> \"<\" + c + \">\"", "let prompt = 5", "let prompt = c -> nosuch c", "let prompt = c ~> [c, x]", "let incomplete_prompt = c -> \"...\"", "let incomplete_prompt = None", "let x = 1", "(", ")", "", "sys@cd \"sub\"", "sys@cd \"..\"", "1 + None", "let prompt = c -> {println \"side\"; \"p\"}", "let prompt = c ~> {let x = 7; \"q\"}", "x", "let CWD = \"/\"",
];

pub fn dfs<F>(budget: Option<usize>, f: F) -> Result<usize, String>
where
    F: Fn() + Send + Sync + 'static,
{
    use vshim::shuttle::{scheduler::DfsScheduler, Config, FailurePersistence, Runner};
    let mut config = Config::new();
    config.stack_size = 1 << 25;
    config.failure_persistence = FailurePersistence::None;
    config.silence_warnings = true;
    guard(move || Runner::new(DfsScheduler::new(budget, false), config).run(f))
}

fn prompts(n: usize) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let lines = move |i: u64| words(i, n, PROMPTS.len()).iter().map(|&d| PROMPTS[d]).collect::<Vec<_>>();
    Space::new("prompts", count(n, PROMPTS.len()), move |i| format!("{:?}", lines(i)), move |i, rec| {
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let home = home(&p.root, "home", Some(""));
        std::env::set_var("HOME", &home);
        let lines = lines(i);
        let cwd = p.root.to_str().unwrap();
        let mut model = Shell::new(cwd);
        let mut want = vec![];
        let (_, o, _) = capture(|| {
            // the model captures what is printed while it runs; the prompts print as well
            want.push(model.prompt());
        });
        let mut printed = String::from_utf8_lossy(&o).to_string();
        for l in &lines {
            rec.step();
            model.out.clear();
            model.line(l);
            printed += &model.out;
            let mut p = String::new();
            let (_, o, _) = capture(|| p = model.prompt());
            printed += &String::from_utf8_lossy(&o);
            want.push(p);
        }
        let got = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let (g2, typed) = (got.clone(), lines.clone());
        let start = Shell::new(cwd).env;
        let env = std::sync::Mutex::new(start);
        let (r, out, err) = capture(|| {
            dfs(Some(1), move || {
                let mut todo = typed.clone().into_iter();
                let g = g2.clone();
                vshim::install_lines(Some(Box::new(move |prompt| {
                    g.lock().unwrap().push(prompt.to_string());
                    match todo.next() {
                        Some(l) => l.to_string(),
                        _ => panic!("end of input"),
                    }
                })));
                let _ = dunesh_lib::verif::Repl::new(env.lock().unwrap().clone()).run();
            })
        });
        vshim::install_lines(Option::None);
        match r {
            Err(e) if e.contains("end of input") => {}
            r => return rec.fail("crash", format!("typing {lines:?}: {r:?}")),
        }
        // the end of this process's part, as the scheduler reports it
        let err = String::from_utf8_lossy(&err).split("Task failed, serializing").next().unwrap_or("").to_string();
        let got = got.lock().unwrap().clone();
        if got != want {
            return rec.fail("prompt", format!("typing {lines:?} shows the prompts {got:?} and not {want:?}"));
        }
        if String::from_utf8_lossy(&out) != printed {
            return rec.fail("output", format!("typing {lines:?} prints {}", differ(&String::from_utf8_lossy(&out), &printed)));
        }
        if err != model.err {
            return rec.fail("errors", format!("typing {lines:?} reports {}", differ(&err, &model.err)));
        }
        rec.state(&got);
        rec.trace();
    })
    .init(shell_worker("dunesh", h2))
}

/// Sessions of many and of long lines.
fn long_sessions(q: bool) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let mut counts = vec![10, 50, 99, 100, 101, 150, 300];
    if !q {
        counts.extend([1000, 3000])
    }
    let cases: Vec<(usize, usize)> = counts.iter().flat_map(|n| (0..10).map(move |k| (k, *n))).collect();
    Space::list("long sessions", cases, move |&(kind, n), rec| {
        let own = |v: Vec<&str>| v.into_iter().map(String::from).collect::<Vec<_>>();
        let runs: Vec<Vec<String>> = match kind {
            0 => vec![(0..n).flat_map(|i| [format!("let v{i} = {i}"), format!("v{i} + v{}", i / 2)]).collect()],
            1 => vec![(0..n).map(|i| if i % 3 == 0 { "1 + None".into() } else { format!("{i}") }).collect()],
            // one text of many lines
            2 => vec![std::iter::once("[".into()).chain((0..n).map(|i| format!("{i},"))).chain(own(vec!["7]", "1"])).collect()],
            // one long line
            3 => vec![vec![format!("let t = \"{}\"", "long text ".repeat(n * 10)), "len t".into(), format!("[{}]", vec!["1"; n].join(", "))]],
            4 => vec![(0..n).flat_map(|i| vec!["".to_string(); i % 3].into_iter().chain([format!("show {i}")])).take(2 * n).collect()],
            // many sessions
            5 => (0..n / 10).map(|r| (0..10).map(|i| format!("let r = {r}; r * {i}")).collect()).collect(),
            // a variable that goes on
            6 => vec![std::iter::once("let c = 0".to_string()).chain((0..n).map(|_| "let c = c + 1".into())).chain(["c".into()]).collect()],
            // texts over lines, each of which fails
            7 => vec![(0..n).flat_map(|i| own(vec!["("]).into_iter().chain([format!("None + {i}"), ")".into()])).collect()],
            8 => vec![(0..n).map(|i| format!("for i in 0 to {i} {{ let s = i }}; s")).collect()],
            _ => vec![(0..n).map(|i| if i % 2 == 0 { format!("let f{i} = x -> x + {i}") } else { format!("f{} {i}", i - 1) }).collect()],
        };
        let runs: Vec<Vec<&str>> = runs.iter().map(|r| r.iter().map(|l| &l[..]).collect()).collect();
        session(h.borrow().as_ref().unwrap(), &runs, rec)
    })
    .init(shell_worker("dunesh", h2))
    .timeout(240.0)
}

pub fn sessions(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let (n, m) = if q { (2, 3) } else { (3, 4) };
    let one: Held = Rc::default();
    let (one2, two, own) = (one.clone(), Held::default(), Held::default());
    let (two2, own2) = (two.clone(), own.clone());
    let lines = move |i: u64| words(i, n, LINES.len()).iter().map(|&d| LINES[d]).collect::<Vec<_>>();
    // texts over several lines
    const MULTI: &[&str] = &["(", ")", "{", "}", "1", "", "let a =", "# c (", "["];
    let depth = if q { 4 } else { 5 };
    let multi = move |i: u64| words(i, depth, MULTI.len()).iter().map(|&d| MULTI[d]).collect::<Vec<_>>();
    let three: Held = Rc::default();
    let three2 = three.clone();
    let four: Held = Rc::default();
    let four2 = four.clone();
    const PAST: &[&str] = &["let x = 1", "x", "(", ")", " 7", "1 + None", "\"a\\nb\""];
    let past = move |i: u64| {
        let k = count(2, PAST.len());
        [i % k, i / k].map(|i| words(i, 2, PAST.len()).iter().map(|&d| PAST[d]).collect::<Vec<_>>()).to_vec()
    };
    Check {
        id: "C23",
        rule: "every sequence of lines, enumerated by index: typed into a new process of the real program, and into the real interactive loop in this process for the prompts; compared with a model of a session in which complete texts are evaluated one after another".into(),
        bounds: format!("all sequences of up to {n} of {} lines, and of up to {depth} of {} lines that are parts of texts; all pairs of sessions of up to 2 of {} lines that share a history; all prompts during sequences of up to {m} of {} lines; {} uses of the shell's functions", LINES.len(), MULTI.len(), PAST.len(), PROMPTS.len(), FUNCTIONS.len()),
        assumptions: vec![
            "the program reads from a pipe: keys and line editing are not used".into(),
            "what a single complete text means is decided by the other properties: here it is evaluated by the library".into(),
        ],
        spaces: vec![
            Space::new("sessions", count(n, LINES.len()), move |i| format!("{:?}", lines(i)), move |i, r| {
                session(one.borrow().as_ref().unwrap(), &[lines(i)], r)
            })
            .init(shell_worker("dunesh", one2))
            .timeout(90.0),
            Space::new("texts over lines", count(depth, MULTI.len()), move |i| format!("{:?}", multi(i)), move |i, r| {
                session(two.borrow().as_ref().unwrap(), &[multi(i)], r)
            })
            .init(shell_worker("dunesh", two2))
            .timeout(90.0),
            Space::new("histories", count(2, PAST.len()).pow(2), move |i| format!("{:?}", past(i)), move |i, r| {
                session(three.borrow().as_ref().unwrap(), &past(i), r)
            })
            .init(shell_worker("dunesh", three2))
            .timeout(90.0),
            Space::new("strange histories", (FOUND.len() as u64 - 1) * count(2, PAST.len()), move |i| format!("{} and {:?}", FOUND[1 + (i % (FOUND.len() as u64 - 1)) as usize], words(i / (FOUND.len() as u64 - 1), 2, PAST.len()).iter().map(|&d| PAST[d]).collect::<Vec<_>>()), move |i, r| {
                let n = FOUND.len() as u64 - 1;
                let lines: Vec<&str> = words(i / n, 2, PAST.len()).iter().map(|&d| PAST[d]).collect();
                session_after(four.borrow().as_ref().unwrap(), 1 + (i % n) as usize, &[lines.clone(), lines], r)
            })
            .init(shell_worker("dunesh", four2))
            .timeout(90.0),
            long_sessions(q),
            prompts(m),
            Space::list("own functions", FUNCTIONS.to_vec(), move |&(text, want), rec| {
                let own = own.borrow();
                let p = own.as_ref().unwrap();
                let home = home(&p.root, "home", Some(""));
                let out = proc::Run::new(&p.exe, &p.root).env("HOME", home.to_str().unwrap()).stdin(&format!("{text}\n")).go();
                let want = want.replace('@', p.root.to_str().unwrap());
                rec.step();
                if let Some(c) = out.crash() {
                    return rec.fail("crash", format!("typing {text:?}: {c}"));
                }
                if out.out != want || !out.err.is_empty() || out.code != Some(0) {
                    return rec.fail("output", format!("typing {text:?} prints {:?} and not {want:?}, and reports {:?}", out.out, out.err));
                }
                rec.state(&out.out);
                rec.trace();
            })
            .init(shell_worker("dunesh", own2))
            .timeout(90.0),
        ],
    }
}

// ---------------------------------------------------------------------------- C25

const INTRO: &str = include_str!("/repo/src/.intro-dune-prelude");
const DEFAULT: &str = include_str!("/repo/src/.default-dune-prelude");

const SCRIPTS: &[(&str, &[u8])] = &[
    ("ok.ds", b"println \"file\" CWD; let fromfile = 5; 77"),
    ("fail.ds", b"println \"before\"; let fromfile = 6; nosuch 1; println \"after\""),
    ("bad.ds", b"println 1; 1 + ` ("),
    ("missing.ds", b""),
    ("exit.ds", b"println \"leaving\"; exit 4; println \"still here\""),
    ("empty.ds", b""),
    ("bytes.ds", b"println \"\xff\""),
    ("dir", b""),
    ("sub/lines.ds", b"# a script\nlet fromfile =\n  [1,\n  2]\nfn@map println fromfile\n"),
];

const EXECS: &[&[&str]] = &[
    &["1"], &["println", "7"], &["fromfile"], &["1 + None"], &["(("], &["[1,", "2]"], &["None"], &["\"text\""], &["exit 6"], &["'x"], &["let y = 9;", "y"], &["println", "1;", "nosuch", "2"], &[""], &["p ~> p"], &["show", "a"], &["'(println", "8)"],
];

const PRELUDES: &[(&str, &str)] = &[
    ("absent", ""), ("absent, read-only", ""), ("ok", "println \"prelude\"; let pre = 8; let y = \"mine\""), ("failing", "println \"p1\"; let pre = 3; 1 + None; println \"p2\""), ("no syntax", "println 1; )"), ("a directory", ""), ("ok, read-only", "let pre = 2"), ("failing, read-only", "1 + None"),
];

const ANSWERS: &[Option<&str>] = &[Some("y"), Some("Y"), Some(" y "), Some("n"), Some(""), Some("yes"), Option::None];

/// Typed after the answer.
const TYPED_THEN: &[&str] = &["fromfile", "pre", "donate", "println \"typed\""];

#[derive(Clone, Copy, Debug)]
struct Start {
    file: Option<&'static str>,
    exec: Option<&'static [&'static str]>,
    interactive: bool,
    prelude: usize,
    answer: usize,
}

fn starts(q: bool) -> Vec<Start> {
    let mut v = vec![];
    let files: Vec<Option<&str>> = [Option::None].into_iter().chain(SCRIPTS.iter().map(|s| Some(s.0))).collect();
    let execs: Vec<Option<&[&str]>> = [Option::None].into_iter().chain(EXECS.iter().map(|s| Some(*s))).collect();
    for file in &files {
        for exec in &execs {
            for interactive in [false, true] {
                let asks = interactive || (file.is_none() && exec.is_none());
                for prelude in 0..PRELUDES.len() {
                    for answer in 0..ANSWERS.len() {
                        // with both, and with little left to be seen: not everything is tried
                        let part = asks && (!q || exec.is_none() || (answer + prelude) % 4 == 0);
                        if part || answer == 0 && (prelude == 2 || asks || !q) {
                            v.push(Start { file: *file, exec: *exec, interactive, prelude, answer })
                        }
                    }
                }
            }
        }
    }
    v
}

/// Evaluate a text as the program's own: what it printed, and whether that failed.
fn whole(model: &mut Shell, text: &str) -> Result<X, Option<Error>> {
    let x = match dune::parse_script(text) {
        Ok(x) => x,
        Err(nom::Err::Error(e) | nom::Err::Failure(e)) => return Err(Some(Error::SyntaxError(text.into(), e))),
        Err(_) => return Err(Option::None),
    };
    EXIT.with(|e| *e.borrow_mut() = Option::None);
    let env = &mut model.env;
    let (r, out, err) = capture(|| x.eval(env));
    model.out += &String::from_utf8_lossy(&out);
    model.err += &String::from_utf8_lossy(&err);
    model.exit = EXIT.with(|e| *e.borrow());
    r.map_err(|e| if model.exit.is_some() { Option::None } else { Some(e) })
}

struct Begun {
    model: Shell,
    /// printed before and after what the introduction prints
    intro: Option<String>,
    written: bool,
    /// must be in the error output, in order
    errors: Vec<String>,
    error: bool,
}

fn begin(s: &Start, cwd: &str, home: &Path) -> Begun {
    let mut b = Begun { model: Shell::new(cwd), intro: Option::None, written: false, errors: vec![], error: false };
    let read_only = PRELUDES[s.prelude].0.contains("read-only");
    let file = home.join(".dune-prelude");
    let report = |r: Result<X, Option<Error>>, b: &mut Begun| -> Option<X> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                if let Some(e) = e {
                    b.error = true;
                    b.errors.push(e.to_string());
                }
                Option::None
            }
        }
    };
    if let Some(f) = s.file {
        match std::fs::read_to_string(Path::new(cwd).join(f)) {
            Ok(t) => {
                let r = whole(&mut b.model, &t);
                report(r, &mut b);
                if b.model.exit.is_some() {
                    return b;
                }
            }
            Err(_) => {
                b.error = true;
                b.errors.push("ailed to read".into())
            }
        }
        if !s.interactive && s.exec.is_none() {
            return b;
        }
    }
    if let Some(x) = s.exec {
        let r = whole(&mut b.model, &x.join(" "));
        if b.model.exit.is_some() {
            return b;
        }
        if let Some(v) = report(r, &mut b) {
            let env = &mut b.model.env;
            let (_, out, _) = capture(|| X::Apply(Box::new(X::Symbol("report".into())), vec![X::Quote(Box::new(v))]).eval(env).is_ok());
            b.model.out += &String::from_utf8_lossy(&out);
        }
        if !s.interactive {
            return b;
        }
    }
    // the prelude
    let mut typed: Vec<&str> = ANSWERS[s.answer].into_iter().collect();
    if ANSWERS[s.answer].is_some() {
        typed.extend(TYPED_THEN)
    }
    let mut typed = typed.into_iter();
    let (asks, absent) = if !file.exists() {
        (true, true)
    } else {
        let r = match std::fs::read_to_string(&file) {
            Ok(t) => whole(&mut b.model, &t),
            Err(_) => Err(Some(Error::CustomError(String::new()))),
        };
        (r.is_err(), false)
    };
    if asks {
        let Some(a) = typed.next() else { return b };
        let yes = a.trim().to_lowercase() == "y";
        if yes {
            b.written = !read_only && !file.is_dir();
            if !b.written && !(read_only && !absent) {
                b.error = true;
                b.errors.push("rror while writing prelude".into());
            }
            // a file that can be written needs no writable directory
            b.written |= read_only && !absent;
        }
        if yes || absent {
            let before = std::mem::take(&mut b.model.out);
            let _ = whole(&mut b.model, INTRO);
            b.model.out.clear();
            b.model.err.clear();
            b.intro = Some(before);
        }
    }
    for l in typed {
        let err = b.model.err.len();
        b.model.line(l);
        if b.model.err.len() > err {
            let e = b.model.err[err..].trim_end().to_string();
            b.errors.push(e);
            b.error = true;
        }
    }
    b
}

fn started(p: &Place, s: &Start, rec: &mut Rec) {
    let (kind, text) = PRELUDES[s.prelude];
    let _ = std::fs::set_permissions(p.root.join("home"), std::fs::Permissions::from_mode(0o755));
    let home = home(&p.root, "home", (!kind.starts_with("absent") && !kind.contains("directory")).then_some(text));
    if kind.contains("directory") {
        std::fs::create_dir(home.join(".dune-prelude")).unwrap();
    }
    let read_only = kind.contains("read-only");
    if read_only {
        std::fs::set_permissions(&home, std::fs::Permissions::from_mode(0o555)).unwrap();
    }
    let cwd = p.root.to_str().unwrap();
    std::env::set_var("HOME", &home);
    let b = begin(s, cwd, &home);
    let mut args: Vec<&str> = vec![];
    args.extend(s.file);
    if s.interactive {
        args.push("-i")
    }
    if let Some(x) = s.exec {
        args.push("-x");
        args.extend(x)
    }
    let input: String = match ANSWERS[s.answer] {
        Some(a) => std::iter::once(a).chain(TYPED_THEN.iter().copied()).map(|l| format!("{l}\n")).collect(),
        _ => String::new(),
    };
    let run = || {
        proc::Run::new(&p.exe, &p.root)
            .env("HOME", home.to_str().unwrap())
            .env("PATH", p.root.join("../path").canonicalize().unwrap().to_str().unwrap())
    };
    let out = run().args(&args).stdin(&input).go();
    let after = std::fs::read_to_string(home.join(".dune-prelude"));
    let _ = std::fs::set_permissions(&home, std::fs::Permissions::from_mode(0o755));
    let what = format!("dunesh {args:?} with a prelude that is {kind}, typing {input:?}");
    rec.step();
    if let Some(c) = out.crash() {
        return rec.fail("crash", format!("{what}: {c}"));
    }
    // output: what the introduction says is not looked at, and the question may be anywhere
    let want = &b.model.out;
    let ok = match &b.intro {
        Some(before) => out.out.starts_with(&before[..]) && out.out[before.len()..].ends_with(&want[..]) && out.out.len() > before.len() + want.len(),
        _ => out.out == *want,
    };
    if !ok {
        return rec.fail("output", format!("{what} prints {}", differ(&out.out, &format!("{}{want}", b.intro.clone().unwrap_or_default()))));
    }
    // errors: the ones to be reported, in order, and none if there are none
    let mut rest = &out.err[..];
    for e in &b.errors {
        match rest.find(&e[..]) {
            Some(i) => rest = &rest[i + e.len()..],
            _ => return rec.fail("errors", format!("{what} reports {:?}, where {e:?} is missing", out.err)),
        }
    }
    if b.errors.is_empty() && !read_only && b.intro.is_none() && !out.err.trim().is_empty() {
        return rec.fail("errors", format!("{what} reports {:?}", out.err));
    }
    if let Some(c) = b.model.exit {
        if out.code != Some(c as i32) {
            return rec.fail("end", format!("{what} ends with {:?} and not {c}", out.code));
        }
    } else if !b.error && out.code != Some(0) {
        return rec.fail("end", format!("{what} ends with {:?}", out.code));
    }
    // the prelude is written exactly if the user wants it
    let expect = if b.written {
        Some(DEFAULT)
    } else if kind.starts_with("absent") || kind.contains("directory") {
        Option::None
    } else {
        Some(text)
    };
    if after.as_deref().ok() != expect {
        return rec.fail("prelude", format!("after {what} the prelude is {:?}...", after.map(|a| a.chars().take(60).collect::<String>())));
    }
    // and works
    if b.written && s.file.is_none() && s.exec.is_none() {
        let out = run().screen(100, 40).stdin("println \"typed\"\nlet a = 1 + 1\na\n").go();
        if out.crash().is_some() || !out.err.is_empty() || !out.out.ends_with("typed\r\n2\r\n") || out.code != Some(0) {
            return rec.fail("prelude", format!("with the default prelude: {out:?}").chars().take(600).collect::<String>());
        }
    }
    rec.state(&(&b.model.out, &b.errors, b.written, b.model.exit, b.intro.is_some()));
    rec.trace();
}

/// Directories of every kind to start in and to have as one's own.
#[derive(Clone, Copy, Debug)]
struct Somewhere {
    home: usize,
    cwd: usize,
    prelude: bool,
    how: usize,
}

const HOMES: &[&str] = &["a name", "not text", "not set", "empty", "missing", "a file", "with spaces"];
const STARTS_IN: &[&str] = &["a name", "not text", "removed", "with spaces", "unreadable"];
const WAYS: &[&str] = &["text", "file", "typed", "text and typed", "help"];

fn somewhere(p: &Place, s: &Somewhere, rec: &mut Rec) {
    use std::ffi::{OsStr, OsString};
    use std::os::unix::ffi::OsStrExt;
    let base = p.root.join("places");
    let open = |d: &Path| {
        let _ = std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o755));
    };
    open(&base.join("unreadable"));
    let _ = std::env::set_current_dir(&p.root);
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir(&base).unwrap();
    let name = |k: &str| -> OsString {
        match k {
            "not text" => OsStr::from_bytes(b"b\xffd").into(),
            "with spaces" => " \u{e9}\u{4f60} \"'".into(),
            k => k.into(),
        }
    };
    let home: Option<OsString> = match HOMES[s.home] {
        "not set" => Option::None,
        "empty" => Some("".into()),
        k => {
            let d = base.join("h").join(name(k));
            std::fs::create_dir_all(d.parent().unwrap()).unwrap();
            match k {
                "missing" => {}
                "a file" => std::fs::write(&d, "x").unwrap(),
                _ => {
                    std::fs::create_dir(&d).unwrap();
                    if s.prelude {
                        std::fs::write(d.join(".dune-prelude"), "println \"prelude\"; let pre = 8").unwrap();
                    }
                }
            }
            Some(d.into())
        }
    };
    let has_prelude = s.prelude && matches!(HOMES[s.home], "a name" | "not text" | "with spaces");
    let d = base.join(name(STARTS_IN[s.cwd]));
    std::fs::create_dir(&d).unwrap();
    std::fs::write(base.join("s.ds"), "println \"file\"; let x = 1 + 2; println x").unwrap();
    if STARTS_IN[s.cwd] == "removed" || STARTS_IN[s.cwd] == "unreadable" {
        std::env::set_current_dir(&d).unwrap();
    }
    if STARTS_IN[s.cwd] == "removed" {
        std::fs::remove_dir(&d).unwrap();
    }
    if STARTS_IN[s.cwd] == "unreadable" {
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0)).unwrap();
    }
    let at = if STARTS_IN[s.cwd] == "removed" { Path::new("/proc/self/cwd").to_path_buf() } else { d.clone() };
    if STARTS_IN[s.cwd] == "unreadable" {
        // no one can go there
        open(&d);
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o111)).unwrap();
    }
    let file = base.join("s.ds");
    let file = file.to_str().unwrap();
    let (args, typed): (Vec<&str>, &str) = match WAYS[s.how] {
        "text" => (vec!["-x", "println \"text\" (1 + 1)"], ""),
        "file" => (vec![file], ""),
        "typed" => (vec![], "println \"typed\"\n1 + 1\n"),
        "text and typed" => (vec!["-i", "-x", "let t = 5"], "println \"typed\" t\n"),
        _ => (vec!["--help"], ""),
    };
    // with no prelude the first line answers the question
    let asks = typed != "" && !has_prelude;
    let input = if asks { format!("n\n{typed}") } else { typed.to_string() };
    let mut run = proc::Run::new(&p.exe, &at).args(&args).stdin(&input);
    match home {
        Some(h) => run = run.env("HOME", h),
        Option::None => run.env.retain(|(n, _)| n != "HOME"),
    }
    let out = run.go();
    open(&d);
    let what = format!("dunesh {args:?} in a directory {:?} with a home {:?}{}", STARTS_IN[s.cwd], HOMES[s.home], if has_prelude { ", a prelude" } else { "" });
    rec.step();
    if let Some(c) = out.crash() {
        return rec.fail("crash", format!("{what}: {c}"));
    }
    let want = match WAYS[s.how] {
        "text" => "text 2\n",
        "file" => "file\n3\n",
        "typed" => "typed\n2\n",
        "text and typed" => "typed 5\n",
        _ => "",
    };
    let ok = if WAYS[s.how] == "help" {
        out.out.contains("dune") && out.err.is_empty()
    } else if asks {
        out.out.ends_with(want)
    } else if typed != "" {
        out.out == format!("prelude\n{want}")
    } else {
        out.out == want
    };
    if !ok {
        return rec.fail("output", format!("{what} prints {:?} {:?}", out.out, out.err));
    }
    if !asks && (!out.err.is_empty() || out.code != Some(0)) {
        return rec.fail("errors", format!("{what} reports {:?} and ends with {:?}", out.err, out.code));
    }
    rec.state(&(s.home, s.cwd, has_prelude, s.how));
    rec.trace();
}

fn places() -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let mut v = vec![];
    for home in 0..HOMES.len() {
        for cwd in 0..STARTS_IN.len() {
            for prelude in [false, true] {
                for how in 0..WAYS.len() {
                    v.push(Somewhere { home, cwd, prelude, how })
                }
            }
        }
    }
    Space::list("places", v, move |s, rec| somewhere(h.borrow().as_ref().unwrap(), s, rec)).init(shell_worker("dunesh", h2)).timeout(90.0)
}

/// What the shell ends with, for every status, said in every way and place.
fn statuses(q: bool) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let mut v = vec![];
    let codes: Vec<i64> = (0..=255).collect();
    for (i, &c) in codes.iter().enumerate() {
        for how in 0..5 {
            for said in 0..5 {
                if !q || c < 6 || c > 250 || [63, 64, 127, 128, 129].contains(&c) || (i + how) % 5 == said {
                    v.push((c, how, said))
                }
            }
        }
    }
    Space::list("statuses", v, move |&(c, how, said), rec| {
        let p = h.borrow();
        let p = p.as_ref().unwrap();
        let home = p.root.join("status");
        let _ = std::fs::create_dir(&home);
        std::fs::write(home.join(".dune-prelude"), "let a = 1").unwrap();
        let leave = match said {
            0 => format!("exit {c}"),
            1 => format!("os@exit ({} + 1)", c - 1),
            2 => format!("let c = {c}; quit c"),
            3 => format!("(x -> {{ println \"in\"; exit x }}) {c}"),
            _ => format!("for i in [{c}, 3] {{ exit i }}"),
        };
        let text = format!("print \"before\"; {leave}; println \"after\"");
        std::fs::write(home.join("s.ds"), &text).unwrap();
        let (args, typed) = match how {
            0 => (vec!["-x".to_string(), text.clone()], String::new()),
            1 => (vec![home.join("s.ds").to_str().unwrap().to_string()], String::new()),
            2 => (vec![], format!("{text}\nprintln \"next\"\n")),
            3 => (vec!["-i".into(), "-x".into(), "let a = 2".into()], format!("1 +\n2\n{text}\n")),
            _ => (vec!["-x".into(), format!("eval '({{ {text} }})")], String::new()),
        };
        let out = proc::Run::new(&p.exe, &home).args(&args.iter().map(|a| &a[..]).collect::<Vec<_>>()).stdin(&typed).env("HOME", home.clone()).go();
        rec.step();
        let what = format!("dunesh {args:?} {typed:?}");
        // a panic has a status too
        if let Some(m) = out.crash().filter(|_| c != 101 || out.err.contains("panicked")) {
            return rec.fail("crash", format!("{what}: {m}"));
        }
        let want = format!("{}before{}", if how == 3 { "3\n" } else { "" }, if said == 3 { "in\n" } else { "" });
        if out.code != Some(c as i32) || out.out != want || !out.err.is_empty() {
            return rec.fail("status", format!("{what} ends with {:?} and prints {:?} {:?}, not {c} and {want:?}", out.code, out.out, out.err));
        }
        rec.trace();
        rec.state(&(c, how, said));
    })
    .init(shell_worker("dunesh", h2))
    .timeout(90.0)
}

pub fn starting(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let h: Held = Rc::default();
    let h2 = h.clone();
    let cases = starts(q);
    let init = shell_worker("dunesh", h2.clone());
    Check {
        id: "C25",
        rule: "the real program is started in every combination of file, text, prelude, answer and typed lines; compared with a model of the steps of starting, in which texts are evaluated by the library".into(),
        bounds: format!("{} combinations of {} files x {} texts x interactive or not x {} preludes x {} answers; and {} homes x {} directories x {} ways, with and without a prelude", cases.len(), SCRIPTS.len() + 1, EXECS.len() + 1, PRELUDES.len(), ANSWERS.len(), HOMES.len(), STARTS_IN.len(), WAYS.len()),
        assumptions: vec![
            "what the introduction prints is not compared (part of it is random)".into(),
            "the exit status after a reported error is not compared".into(),
        ],
        spaces: vec![places(), statuses(q), Space::list("starts", cases, move |s, rec| started(h.borrow().as_ref().unwrap(), s, rec))
            .init(move |s| {
                init(s);
                let h = h2.borrow();
                let root = &h.as_ref().unwrap().root;
                std::fs::create_dir_all(root.join("dir")).unwrap();
                for (n, t) in SCRIPTS {
                    if *n != "missing.ds" && *n != "dir" {
                        std::fs::write(root.join(n), t).unwrap();
                    }
                }
            })
            .timeout(90.0)],
    }
}

// ---------------------------------------------------------------------------- C27

const SHARED: &[&str] = &["println \"a\"", "let x = 1", "println x", "(", ")", "[2,", "3]", "", "1 + None"];

/// Every interleaving of the loops that interrupts start with the one that is running.
fn interleavings(n: usize, interrupts: usize) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let start = Rc::new(RefCell::new(Option::<Environment>::None));
    let start2 = start.clone();
    let init = shell_worker("dunesh", h2);
    let lines = move |i: u64| words(i, n, SHARED.len()).iter().map(|&d| SHARED[d]).collect::<Vec<_>>();
    Space::new(&format!("{interrupts} interrupts"), count(n, SHARED.len()), move |i| format!("{:?}", lines(i)), move |i, rec| {
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let limit = if interrupts > 1 { 120_000 } else { 5_000 };
        let home = home(&p.root, "home", Option::None);
        std::env::set_var("HOME", &home);
        let lines = lines(i);
        let mut model = Shell { env: start.borrow().as_ref().unwrap().clone(), lines: vec![], out: String::new(), err: String::new(), complete: vec![], tried: BTreeSet::new(), exit: Option::None };
        for l in &lines {
            model.line(l);
            // this prompt prints
            let (_, o, _) = capture(|| model.prompt());
            model.out += &String::from_utf8_lossy(&o);
        }
        let want = (model.out.clone(), model.err.clone());
        let env = start.borrow().as_ref().unwrap().clone();
        let env = std::sync::Mutex::new(env);
        let typed = lines.clone();
        // an execution ends when the line after the last is to be read: the process would exit
        let seen = std::sync::Arc::new(std::sync::Mutex::new((0u64, Option::<String>::None)));
        let s2 = seen.clone();
        vshim::interleave(true);
        let (r, _, _) = capture(|| {
            dfs(Some(limit), move || {
                // one is enough
                assert!(s2.lock().unwrap().1.is_none(), "found");
                let repl = dunesh_lib::verif::Repl::new(env.lock().unwrap().clone());
                let mut todo = typed.clone().into_iter();
                let (s3, want) = (s2.clone(), want.clone());
                captured();
                vshim::install_lines(Some(Box::new(move |_| {
                    if let Some(l) = todo.next() {
                        return l.to_string();
                    }
                    let mut s = s3.lock().unwrap();
                    s.0 += 1;
                    let (out, err) = captured();
                    let got = (String::from_utf8_lossy(&out).to_string(), String::from_utf8_lossy(&err).to_string());
                    if got != want && s.1.is_none() {
                        s.1 = Some(format!("prints {:?} and reports {:?}, not {:?} and {:?}", got.0, got.1, want.0, want.1))
                    }
                    drop(s);
                    std::panic::resume_unwind(Box::new("end of input"))
                })));
                let all: Vec<_> = (0..=interrupts)
                    .map(|_| {
                        let r = repl.clone();
                        vshim::shuttle::thread::spawn(move || {
                            // the end of input ends this loop, and those that wait for it
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.run().is_ok()));
                        })
                    })
                    .collect();
                for t in all {
                    let _ = t.join();
                }
            })
        });
        vshim::interleave(false);
        vshim::install_lines(Option::None);
        let (ends, bad) = seen.lock().unwrap().clone();
        if let Some(b) = bad {
            return rec.fail("interleaving", format!("typing {lines:?} with {interrupts} interrupts {b}"));
        }
        let executions = match r {
            Ok(n) => n as u64,
            Err(e) => return rec.fail("crash", format!("typing {lines:?} with {interrupts} interrupts: {e}")),
        };
        rec.steps(executions);
        rec.note(&format!("{executions} schedules"));
        if executions >= limit as u64 {
            rec.capped = true
        }
        if ends < executions {
            return rec.fail("lost", format!("typing {lines:?} with {interrupts} interrupts: not all input was read in {} of {executions} schedules", executions - ends));
        }
        rec.state(&(&model.out, &model.err, executions));
        rec.trace();
    })
    .init(move |s| {
        init(s);
        let mut env = Shell::new("/dev").env;
        // only what these lines need: every schedule begins with a copy
        env.bindings.retain(|k, _| ["println", "+", "report", "CWD"].contains(&&k[..]));
        for d in ["let prompt = c -> \">\"", "let incomplete_prompt = c -> {println \"more\"; \">>\"}"] {
            dune::parse_script(d).unwrap().eval(&mut env).unwrap();
        }
        *start2.borrow_mut() = Some(env)
    })
    .timeout(300.0)
    .budget(110.0)
}

const INTERRUPTED: &[&str] = &["println \"a\"", "(", ")", "let x = 1", "wait", "{let i = 0; for j in (0 to 3000) {let i = i + j}; i}", "\"text", ""];

/// The real program gets the signal an interrupt sends, between lines and while one is run.
fn signals(n: usize) -> Space {
    let h: Held = Rc::default();
    let h2 = h.clone();
    let total = count(n, INTERRUPTED.len());
    // bit k: interrupted after line k; the first line is there to know when it has started
    let case = move |i: u64| {
        let lines: Vec<&str> = words(i % total, n, INTERRUPTED.len()).iter().map(|&d| INTERRUPTED[d]).collect();
        (lines, i / total)
    };
    Space::new("signals", total << (n + 1), move |i| format!("{:?}", case(i)), move |i, rec| {
        let (lines, when) = case(i);
        if when >> (lines.len() + 1) != 0 {
            return;
        }
        // a program that waits must be interrupted for the rest to be read
        let h = h.borrow();
        let p = h.as_ref().unwrap();
        let home = home(&p.root, "home", Some(""));
        let cwd = p.root.to_str().unwrap();
        let mut model = Shell::new(cwd);
        let stub = "let wait = _ ~> println \"waiting\"";
        dune::parse_script(stub).unwrap().eval(&mut model.env).unwrap();
        let mut steps = vec![];
        let all: Vec<&str> = std::iter::once("println \"ready\"").chain(lines.iter().copied()).collect();
        for (k, l) in all.iter().enumerate() {
            let before = model.out.len();
            model.line(l);
            let waits = model.out[before..].matches("waiting").count() as u32;
            steps.push((format!("{l}\n"), model.out.len(), waits, when >> k & 1 == 1));
        }
        let out = interrupted(p, &home, &steps);
        rec.steps(steps.len() as u64);
        let what = format!("typing {all:?}, interrupted after {:?}", (0..all.len()).filter(|k| when >> k & 1 == 1).collect::<Vec<_>>());
        if let Some(c) = out.crash() {
            return rec.fail("crash", format!("{what}: {c}"));
        }
        if out.out != model.out {
            return rec.fail("output", format!("{what} prints {}", differ(&out.out, &model.out)));
        }
        if out.err != model.err {
            return rec.fail("errors", format!("{what} reports {}", differ(&out.err, &model.err)));
        }
        if out.code != Some(0) {
            return rec.fail("end", format!("{what} ends with {:?}", out.code));
        }
        rec.state(&(&out.out, &out.err));
        rec.trace();
    })
    .init(shell_worker("dunesh", h2))
    .timeout(120.0)
}

/// Type each line, wait until all has been printed that will be, and interrupt: programs that
/// wait once each, and the shell itself if it is to be.
fn interrupted(p: &Place, home: &Path, steps: &[(String, usize, u32, bool)]) -> proc::Out {
    use std::io::Write;
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    use std::process::{Command, Stdio};
    use std::time::{Duration, Instant};
    let (o, e) = (home.join("out"), home.join("err"));
    let mut c = Command::new(&p.exe)
        .current_dir(&p.root)
        .env_clear()
        .env("HOME", home)
        .env("PATH", p.root.join("../path").canonicalize().unwrap())
        .stdin(Stdio::piped())
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(std::fs::File::create(&e).unwrap())
        .process_group(0)
        .spawn()
        .unwrap();
    let mut input = c.stdin.take().unwrap();
    let start = Instant::now();
    let late = || start.elapsed() > Duration::from_secs(40);
    let pid = c.id() as i32;
    for (line, length, waits, interrupt) in steps {
        let _ = input.write_all(line.as_bytes());
        let _ = input.flush();
        if *waits > 0 {
            // each of them, when it has said that it waits
            let mut have = std::fs::metadata(&o).map_or(0, |m| m.len());
            for k in (0..*waits as u64).rev() {
                while have < *length as u64 - k * 8 && !late() {
                    std::thread::sleep(Duration::from_micros(300));
                    have = std::fs::metadata(&o).map_or(0, |m| m.len());
                }
                unsafe { libc::kill(-pid, libc::SIGINT) };
            }
        } else {
            while std::fs::metadata(&o).map_or(0, |m| m.len()) < *length as u64 && !late() && c.try_wait().unwrap().is_none() {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        std::thread::sleep(Duration::from_millis(1));
        if *interrupt {
            unsafe { libc::kill(-pid, libc::SIGINT) };
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    drop(input);
    let mut r = proc::Out::default();
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if late() {
            r.hung = true;
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            break c.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    unsafe { libc::kill(-pid, libc::SIGKILL) };
    r.code = st.code();
    r.signal = if r.hung { Option::None } else { st.signal() };
    r.out = String::from_utf8_lossy(&std::fs::read(&o).unwrap_or_default()).into();
    r.err = String::from_utf8_lossy(&std::fs::read(&e).unwrap_or_default()).into();
    r
}

pub fn interrupts(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let (a, b, s) = if q { (3, 1, 2) } else { (4, 2, 3) };
    Check {
        id: "C27",
        rule: "depth-first over every schedule (at each lock and each line that is read) of the real interactive loop and the loops that interrupts start, on every sequence of lines; and the signal itself sent to the real program at every subset of the moments between lines; and the key, at a terminal, among others".into(),
        bounds: format!("sequences of up to {a} of {} lines with one interrupt at any time, up to {b} with two; up to {s} of {} lines with signals after any subset of them, and to every program that waits; up to {} of 5 keys at a terminal", SHARED.len(), INTERRUPTED.len(), s + 3),
        assumptions: vec![
            "sequentially consistent locks; evaluating a text is one step of a schedule".into(),
        ],
        spaces: vec![interleavings(a, 1), interleavings(b, 2), signals(s), super::keyboard::typed(s + 3, &[0, 1, 2, 3, 4])],
    }
}
