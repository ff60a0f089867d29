//! C14: the file functions against a file system in memory, on every state that a few operations
//! reach, with every file and directory in turn made inaccessible, and with every
//! call of the system in turn made to fail.
use super::diff::short;
use super::util::*;
use crate::engine::*;
use crate::fault::{self, Kind};
use crate::spec::builtins::matches;
use crate::spec::expr::E::{self, *};
use crate::spec::files::*;
use dune::Environment;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// The root directory of the model; the real one is in the scratch directory.
pub const ROOT: &str = "/R";

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct St {
    pub fs: Fs,
    /// below the root
    pub cwd: String,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: &'static str,
    pub args: Vec<E>,
}

impl Op {
    pub fn show(&self) -> String {
        format!("{} {}", self.name, self.args.iter().map(|a| a.debug()).collect::<Vec<_>>().join(" "))
    }
    /// The program; `root` replaces the model's.
    pub fn expr(&self, root: &str) -> E {
        let f = match self.name.split_once('@') {
            Some((m, f)) if !m.is_empty() => E::call("@", vec![E::sym(m), E::sym(f)]),
            _ => E::sym(self.name),
        };
        E::apply(
            f,
            self.args
                .iter()
                .map(|a| match a {
                    Str(s) if s.starts_with(ROOT) => Str(format!("{root}{}", &s[ROOT.len()..])),
                    Sym(s) => Quote(Box::new(Sym(s.clone()))),
                    a => a.clone(),
                })
                .collect(),
        )
    }
}

/// The text of an argument that is a path or contents.
fn text(e: &E) -> String {
    match e {
        Str(s) | Sym(s) => s.clone(),
        e => e.display().unwrap(),
    }
}

fn bytes(e: &E) -> Vec<u8> {
    match e {
        Bytes(b) => b.clone(),
        e => text(e).into_bytes(),
    }
}

fn value(data: &[u8]) -> E {
    match String::from_utf8(data.to_vec()) {
        Ok(s) => Str(s),
        Err(e) => Bytes(e.into_bytes()),
    }
}

impl St {
    pub fn dir(&self) -> String {
        if self.cwd.is_empty() {
            ROOT.to_string()
        } else {
            format!("{ROOT}/{}", self.cwd)
        }
    }
    /// The whole path that an argument stands for.
    fn whole(&self, p: &str) -> PathBuf {
        Path::new(&self.dir()).join(p)
    }
    /// ... below the root.
    fn inner(&self, p: &str) -> Option<String> {
        let w = self.whole(p);
        let w = w.to_str().unwrap();
        let rest = w.strip_prefix(ROOT)?;
        Some(rest.strip_prefix('/').unwrap_or(rest).to_string())
    }
    fn file(&self, p: &str) -> Result<Vec<u8>, ()> {
        match self.fs.find(&self.inner(p).unwrap()) {
            At::Found(p) => match self.fs.get(&p) {
                Some(Node::File(d)) => Ok(d),
                _ => Err(()),
            },
            _ => Err(()),
        }
    }
    fn tree(&self, whole: &Path, at: Option<Place>, depth: Option<i64>) -> E {
        let t = |p: &Path| Str(p.to_str().unwrap().into());
        let mut m = BTreeMap::new();
        m.insert(".".to_string(), t(whole));
        m.insert("..".to_string(), t(whole.parent().unwrap_or(whole)));
        if depth.map_or(true, |d| d >= 1) {
            if let Some(at) = at.filter(|p| self.fs.is_dir(p)) {
                for n in self.fs.children(&at) {
                    let mut p = at.clone();
                    p.push(n.clone());
                    let w = whole.join(&n);
                    let v = if self.fs.is_dir(&p) { self.tree(&w, Some(p), depth.map(|d| d - 1)) } else { t(&w) };
                    m.insert(n, v);
                }
            }
        }
        Map(m)
    }
    /// What an operation gives (`Err` for an error), and what it leaves. `None`: left open.
    pub fn step(&self, op: &Op) -> Option<(Result<E, ()>, St)> {
        let mut next = self.clone();
        for a in &op.args {
            if let Str(s) = a {
                if self.inner(s).map_or(true, |i| self.fs.find(&i) == At::Outside) && !op.name.starts_with('>') {
                    return Option::None;
                }
            }
        }
        let a = |i: usize| text(&op.args[i]);
        let find = |i: usize| self.fs.find(&self.inner(&a(i)).unwrap());
        let found = |i: usize| match find(i) {
            At::Found(p) => Some(p),
            _ => Option::None,
        };
        let canon = |p: &Place| if p.is_empty() { ROOT.to_string() } else { format!("{ROOT}/{}", p.join("/")) };
        let done = |r: Result<(), ()>| r.map(|_| E::None);
        let r = match op.name {
            "fs@exists?" => Ok(Bool(found(0).is_some())),
            "fs@is-dir?" => Ok(Bool(found(0).is_some_and(|p| self.fs.is_dir(&p)))),
            "fs@is-file?" => Ok(Bool(found(0).is_some_and(|p| !self.fs.is_dir(&p)))),
            "fs@canon" => found(0).map(|p| Str(canon(&p))).ok_or(()),
            "fs@read" | "<<" => self.file(&a(0)).map(|d| value(&d)),
            "fs@head" | "fs@tail" => (|| {
                let Int(n) = op.args[1] else { return Err(()) };
                let s = String::from_utf8(self.file(&a(0))?).map_err(|_| ())?;
                let lines: Vec<&str> = s.lines().collect();
                let n = (n.max(0) as usize).min(lines.len());
                let part = if op.name == "fs@head" { &lines[..n] } else { &lines[lines.len() - n..] };
                Ok(Str(part.iter().map(|l| format!("{l}\n")).collect()))
            })(),
            "fs@ls" => match found(0) {
                Some(p) if self.fs.is_dir(&p) => Ok(List(self.fs.children(&p).into_iter().map(|n| Str(Path::new(&a(0)).join(n).to_str().unwrap().into())).collect())),
                Some(_) => Ok(List(vec![Str(self.whole(&a(0)).to_str().unwrap().into())])),
                _ => Err(()),
            },
            "fs@tree" => {
                let (depth, path) = match &op.args[0] {
                    Int(n) => (Some(*n), op.args.get(1).map(text)),
                    p => (Option::None, Some(text(p))),
                };
                let whole = path.as_ref().map_or(PathBuf::from(self.dir()), |p| self.whole(p));
                let at = match self.fs.find(&path.map_or(self.cwd.clone(), |p| self.inner(&p).unwrap())) {
                    At::Found(p) => Some(p),
                    _ => Option::None,
                };
                Ok(self.tree(&whole, at, depth))
            }
            // directories that are missing on the way to .
            "fs@mkdir" if a(0).ends_with('.') && found(0).is_none() => return Option::None,
            "fs@mkdir" => done(next.fs.make_dirs(&self.inner(&a(0)).unwrap())),
            "fs@rmdir" | "fs@rm" if a(0).split('/').any(|p| p == "." || p == "..") || a(0).is_empty() => return Option::None,
            "fs@rmdir" => match found(0) {
                Some(p) if self.fs.is_dir(&p) && self.fs.children(&p).is_empty() => {
                    next.fs.remove(&p);
                    Ok(E::None)
                }
                _ => Err(()),
            },
            "fs@rm" => match found(0) {
                Some(p) => {
                    next.fs.remove(&p);
                    Ok(E::None)
                }
                _ => Err(()),
            },
            "fs@mv" | "fs@cp" => (|| {
                let same = self.whole(&a(0)) == self.whole(&a(1));
                if same {
                    return Some(Ok(E::None));
                }
                let (src, dst) = (find(0), find(1));
                // what the system says of the directory that one is in is left open
                if [a(0), a(1)].iter().any(|p| p.is_empty() || p.ends_with('.') || p.ends_with('/')) {
                    return Option::None;
                }
                let At::Found(src) = src else { return Some(Err(())) };
                if matches!(dst, At::Found(_)) {
                    return Some(Err(()));
                }
                let is_dir = self.fs.is_dir(&src);
                if op.name == "fs@mv" || !is_dir {
                    let At::New(dst) = dst else { return Some(Err(())) };
                    if dst.starts_with(&src) {
                        return Some(Err(()));
                    }
                    let node = self.fs.get(&src).unwrap();
                    let below = self.fs.below(&src);
                    if op.name == "fs@mv" {
                        next.fs.remove(&src)
                    }
                    next.fs.nodes.insert(dst.clone(), node);
                    for (p, n) in below {
                        next.fs.nodes.insert([dst.clone(), p].concat(), n);
                    }
                    return Some(Ok(E::None));
                }
                // a directory: the directories on the way are created
                let inner = self.inner(&a(1)).unwrap();
                let mut made = self.fs.clone();
                // directories that are missing on the way to ..
                if inner.contains("..") && dst == At::Nowhere {
                    return Option::None;
                }
                if made.make_dirs(&inner).is_err() {
                    // what was created before that is left open
                    return if made == self.fs { Some(Err(())) } else { Option::None };
                }
                let At::Found(dst) = made.find(&inner) else { unreachable!() };
                if dst.starts_with(&src) {
                    return Some(Err(()));
                }
                for (p, n) in self.fs.below(&src) {
                    made.nodes.insert([dst.clone(), p].concat(), n);
                }
                next.fs = made;
                Some(Ok(E::None))
            })()?,
            "fs@write" => done(next.fs.write(&self.inner(&a(0)).unwrap(), &bytes(&op.args[1]))),
            ">>" => done(next.fs.write(&self.inner(&a(0)).unwrap(), &bytes(&op.args[1]))),
            "fs@append" | ">>>" => done(self.file(&a(0)).and_then(|d| next.fs.write(&self.inner(&a(0)).unwrap(), &[d, bytes(&op.args[1])].concat()))),
            "fs@glob" => {
                let pat = a(0);
                let parts: Vec<&str> = pat.trim_start_matches("./").split('/').collect();
                let base = if self.cwd.is_empty() { vec![] } else { self.cwd.split('/').map(String::from).collect::<Vec<_>>() };
                if !self.fs.is_dir(&base) {
                    return Option::None;
                }
                if pat.contains("[[") {
                    return Some((Err(()), next));
                }
                let mut v = vec![];
                for (p, _) in self.fs.below(&base) {
                    if p.len() > 0 && glob_path(&p, &parts) {
                        v.push(Str(p.join("/")))
                    }
                }
                Ok(List(v))
            }
            "cd" => match found(0) {
                Some(p) if self.fs.is_dir(&p) => {
                    next.cwd = p.join("/");
                    Ok(E::None)
                }
                _ => Err(()),
            },
            "sys@cd" => match found(0) {
                Some(p) if self.fs.is_dir(&p) => {
                    next.cwd = p.join("/");
                    Ok(E::None)
                }
                Some(_) => return Option::None,
                _ => Err(()),
            },
            n => panic!("{n}"),
        };
        if r.is_err() && op.name != "fs@mkdir" {
            next = self.clone();
        }
        Some((r, next))
    }
}

/// A path against a pattern; `**` is any directories.
fn glob_path(p: &[String], pat: &[&str]) -> bool {
    match pat.first() {
        Option::None => p.is_empty(),
        Some(&"**") => (0..=p.len()).any(|i| glob_path(&p[i..], &pat[1..])),
        Some(g) => !p.is_empty() && glob(&p[0], g) && glob_path(&p[1..], &pat[1..]),
    }
}

/// One component of a path against one of a pattern.
fn glob(name: &str, pat: &str) -> bool {
    let (n, p): (Vec<char>, Vec<char>) = (name.chars().collect(), pat.chars().collect());
    fn go(n: &[char], p: &[char]) -> bool {
        match p.first() {
            Option::None => n.is_empty(),
            Some('*') => (0..=n.len()).any(|i| go(&n[i..], &p[1..])),
            Some('?') => !n.is_empty() && go(&n[1..], &p[1..]),
            Some('[') => {
                let end = p.iter().position(|c| *c == ']').unwrap();
                !n.is_empty() && p[1..end].contains(&n[0]) && go(&n[1..], &p[end + 1..])
            }
            Some(c) => n.first() == Some(c) && go(&n[1..], &p[1..]),
        }
    }
    go(&n, &p)
}

pub fn s(t: &str) -> E {
    E::str(t)
}

fn ops(q: bool) -> Vec<Op> {
    let mut paths: Vec<E> = ["a", "b.txt", "d", "d/x", "d/e", "d/e/y", "d/new", "./a", "d/../a", "é b", "", ".", "..", "n/m", "n/m/k", "a/x", "/R/a", "/R/d", "d/", ".h", "d/x.y"].iter().map(|t| s(t)).collect();
    paths.extend([E::sym("a"), Int(5)]);
    let mut v = vec![];
    let mut add = |name: &'static str, args: Vec<E>| v.push(Op { name, args });
    for f in ["fs@exists?", "fs@is-dir?", "fs@is-file?", "fs@canon", "fs@read", "<<", "fs@ls", "fs@mkdir", "fs@rmdir", "fs@rm", "cd", "sys@cd"] {
        for p in &paths {
            add(f, vec![p.clone()])
        }
    }
    for p in &paths {
        if !matches!(p, Int(_)) {
            add("fs@tree", vec![p.clone()]);
        }
    }
    for n in [-1, 0, 1, 2, 3] {
        add("fs@tree", vec![Int(n)]);
        for p in ["d", "", "d/e", "a", "zz"] {
            add("fs@tree", vec![Int(n), s(p)]);
        }
        for f in ["fs@head", "fs@tail"] {
            for p in ["a", "b.txt", "d", "d/x", "zz"] {
                add(f, vec![s(p), Int(n)]);
            }
        }
    }
    add("fs@head", vec![s("a"), s("1")]);
    add("fs@tail", vec![s("a"), Int(i64::MAX)]);
    add("fs@tail", vec![s("a"), Int(i64::MIN)]);
    let contents = [s(""), s("one\ntwo\nthree"), s("é\r\nx\n\n"), Int(5), None, Bytes(vec![255, 0, 10]), Bytes(vec![]), Bool(true), Flt(1.5), E::sym("sym")];
    for f in ["fs@write", "fs@append"] {
        for p in &paths {
            for c in contents.iter().skip(1).take(if q { 1 } else { 2 }) {
                add(f, vec![p.clone(), c.clone()])
            }
        }
        for c in &contents {
            add(f, vec![s("a"), c.clone()])
        }
    }
    for f in [">>", ">>>"] {
        for p in ["a", "b.txt", "d", "d/x", "n/m"] {
            for c in [s("text"), Int(7), Bytes(vec![254])] {
                add(f, vec![s(p), c.clone()])
            }
        }
    }
    for f in ["fs@mv", "fs@cp"] {
        for p in &paths {
            for r in &paths {
                add(f, vec![p.clone(), r.clone()])
            }
        }
    }
    for p in ["**/*", "**/y", "d/**/y", "**/[xy]", "d/**/*", "**/zz", "*", "*/*", "d/*", "?", "[ab]", "*t", "b.*", ".h", "x*", "*/*/*", "d/x", "a", "é*", "[[x"] {
        add("fs@glob", vec![s(p)])
    }
    v
}

pub fn tree(items: &[(&str, Option<&[u8]>)]) -> Fs {
    let mut fs = Fs::default();
    for (p, d) in items {
        fs.nodes.insert(p.split('/').map(String::from).collect(), d.map_or(Node::Dir, |d| Node::File(d.to_vec())));
    }
    fs
}

/// Every state that up to `depth` operations reach.
fn reachable(starts: Vec<St>, ops: &[Op], depth: usize, cap: usize) -> Vec<St> {
    let mut seen: BTreeSet<St> = starts.iter().cloned().collect();
    let mut all = starts.clone();
    let mut layer = starts;
    for _ in 0..depth {
        let mut next = vec![];
        for st in &layer {
            for op in ops {
                if let Some((_, n)) = st.step(op) {
                    if n.fs.nodes.len() <= 14 && n.fs.nodes.keys().all(|k| k.len() <= 6) && seen.len() < cap && seen.insert(n.clone()) {
                        next.push(n)
                    }
                }
            }
        }
        all.extend(next.clone());
        layer = next;
    }
    all
}

pub struct Box_ {
    pub root: PathBuf,
    pub env: Environment,
    pub now: Option<Fs>,
}

/// Put the model's root for the real one in a result.
pub fn rename_root(e: E, root: &str) -> E {
    match e {
        Str(s) if Some(s.as_str()) == root.rfind('/').map(|i| &root[..i]) => E::str("/"),
        Str(s) => Str(s.replace(root, ROOT)),
        List(v) => List(v.into_iter().map(|x| rename_root(x, root)).collect()),
        Map(m) => Map(m.into_iter().map(|(k, x)| (k, rename_root(x, root))).collect()),
        e => e,
    }
}

fn sorted(e: E) -> E {
    match e {
        List(mut v) => {
            v.sort_by_key(|x| x.debug());
            List(v)
        }
        e => e,
    }
}

pub fn make_box(scratch: &Path) -> Box_ {
    unprivileged(scratch);
    bare_process_env();
    let root = scratch.join("box");
    std::fs::create_dir_all(&root).unwrap();
    let root = std::fs::canonicalize(&root).unwrap();
    std::env::set_current_dir(&root).unwrap();
    let mut full = full_env(root.to_str().unwrap());
    let mut env = Environment::new();
    for n in ["fs", "sys", "os", "cd", "<<", ">>", ">>>", "@", "CWD"] {
        env.define(n, full.get(n).unwrap());
    }
    let _ = full.get("x");
    full = Environment::new();
    drop(full);
    Box_ { root, env, now: Option::None }
}

impl Box_ {
    /// Make the real directory and variables those of `st`.
    pub fn set(&mut self, st: &St) {
        if self.now.as_ref() != Some(&st.fs) {
            std::env::set_current_dir("/").unwrap();
            empty_dir(&self.root);
            st.fs.build(&self.root);
            self.now = Some(st.fs.clone());
        }
        self.env.set_cwd(st.dir().replacen(ROOT, self.root.to_str().unwrap(), 1));
    }
    pub fn run(&mut self, e: &E) -> Result<Result<E, ()>, String> {
        let x = e.to_impl();
        let env = &mut self.env;
        let root = self.root.to_str().unwrap().to_string();
        guard(|| x.eval(env)).map(|r| r.map(|v| rename_root(E::from_impl(&v), &root)).map_err(|_| ()))
    }
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let ops = ops(q);
    let start = tree(&[("a", Some(b"one\ntwo\nthree\n")), ("d", Option::None), ("d/x", Some(b"x")), ("d/e", Option::None), ("d/e/y", Some(&[0xff, 0xfe]))]);
    let at = |fs: Fs, cwd: &str| St { fs, cwd: cwd.into() };
    let starts = vec![at(start.clone(), ""), at(start.clone(), "d"), at(Fs::default(), "")];
    // the operations that lead from state to state
    let moves: Vec<Op> = ops
        .iter()
        .filter(|o| {
            let on: &[&str] = match o.name {
                "fs@mv" | "fs@cp" => &["a", "b.txt", "d", "d/x", "d/new", "n/m", ".."],
                "fs@write" | "fs@mkdir" | "fs@rm" | "cd" => &["a", "b.txt", "d", "d/e", "d/new", "n/m", "..", ".h"],
                "fs@append" => &["a", "d/x"],
                _ => &[],
            };
            o.args.iter().enumerate().all(|(i, a)| matches!(a, Str(t) if on.contains(&t.as_str())) || (i > 0 && matches!(o.name, "fs@write" | "fs@append")))
        })
        .cloned()
        .collect();
    let states = Rc::new(reachable(starts, &moves, if q { 2 } else { 3 }, 100_000));
    let ops = Rc::new(ops);
    let k = ops.len() as u64;
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    let (st2, ops2) = (states.clone(), ops.clone());
    let (st3, ops3) = (states.clone(), ops.clone());
    let transitions = Space::new(
        "operations",
        states.len() as u64 * k,
        move |i| {
            let (st, op) = (&st2[(i / k) as usize], &ops2[(i % k) as usize]);
            format!("[{}] in {}: {}", st.fs.show(), st.dir(), op.show())
        },
        move |i, rec| {
            let (st, op) = (&st3[(i / k) as usize], &ops3[(i % k) as usize]);
            let Some((want, next)) = st.step(op) else {
                rec.note("left open");
                return;
            };
            let mut g = held.borrow_mut();
            let b = g.as_mut().unwrap();
            b.set(st);
            let root = b.root.to_str().unwrap().to_string();
            rec.step();
            let got = match b.run(&op.expr(&root)) {
                Err(p) => {
                    b.now = Option::None;
                    return rec.fail("panic", p);
                }
                Ok(g) => g,
            };
            b.now = Option::None;
            let unordered = matches!(op.name, "fs@ls" | "fs@glob");
            let (want, got) = if unordered { (want.map(sorted), got.map(sorted)) } else { (want, got) };
            let same = match (&want, &got) {
                (Ok(w), Ok(g)) => matches(w, g),
                (Err(()), Err(())) => true,
                _ => false,
            };
            let left = Fs::scan(&b.root);
            let what = || format!("[{}] in {}: {}", st.fs.show(), st.dir(), op.show());
            if !same {
                rec.fail("result", format!("{}\nwant {want:?}\ngot  {got:?}", what()));
            } else if left != next.fs {
                rec.fail("effect", format!("{}\nleaves {}\nnot    {}", what(), left.show(), next.fs.show()));
            } else if b.env.get_cwd() != next.dir().replacen(ROOT, &root, 1) {
                rec.fail("directory", format!("{}\nleaves the directory {}, not {}", what(), b.env.get_cwd(), next.dir()));
            } else {
                rec.trace();
                b.now = Some(left);
                if i % 40009 == 3 {
                    rec.sample(what)
                }
            }
            rec.state(&(&next, same));
        },
    )
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)));

    // every node of a tree made inaccessible
    let victims: Vec<String> = start.nodes.keys().map(|k| k.join("/")).collect();
    let n = victims.len() as u64;
    let faulty: Vec<Op> = ops.iter().filter(|o| !matches!(o.name, "fs@exists?" | "fs@is-dir?" | "fs@is-file?" | "fs@tree" | "fs@glob" | "cd" | "sys@cd")).cloned().collect();
    let faulty = Rc::new(faulty);
    let (f2, v2) = (faulty.clone(), victims.clone());
    let fk = faulty.len() as u64;
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    let modes = [0u32, 0o500];
    let faults = Space::new(
        "inaccessible",
        n * fk * 2,
        move |i| {
            let d = digits(i, &[fk, n, 2]);
            format!("{} with {} {}", f2[d[0]].show(), v2[d[1]], ["inaccessible", "read-only"][d[2]])
        },
        move |i, rec| {
            let d = digits(i, &[fk, n, 2]);
            let (op, victim) = (&faulty[d[0]], &victims[d[1]]);
            let st = St { fs: start.clone(), cwd: String::new() };
            let Some((want, next)) = st.step(op) else {
                rec.note("left open");
                return;
            };
            let mut g = held.borrow_mut();
            let b = g.as_mut().unwrap();
            b.now = Option::None;
            b.set(&st);
            use std::os::unix::fs::PermissionsExt;
            let v = b.root.join(victim);
            let set = |m: u32| std::fs::set_permissions(&v, std::fs::Permissions::from_mode(m));
            set(modes[d[2]]).unwrap();
            let root = b.root.to_str().unwrap().to_string();
            rec.step();
            let got = b.run(&op.expr(&root));
            // it may have been moved or copied, with its permissions
            fn restore(p: &Path, depth: usize) {
                let m = if p.is_dir() { 0o755 } else { 0o644 };
                if !p.is_symlink() {
                    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(m));
                }
                if depth < 12 {
                    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                        restore(&e.path(), depth + 1)
                    }
                }
            }
            restore(&b.root, 0);
            let left = Fs::scan(&b.root);
            b.now = Option::None;
            let what = || format!("{} with {victim} of mode {:o}", op.show(), modes[d[2]]);
            match got {
                Err(p) => rec.fail("panic", p),
                Ok(Err(())) => {
                    // what the operation is not about stays as it was
                    let touched: Vec<Place> = op
                        .args
                        .iter()
                        .filter_map(|a| match a {
                            Str(t) => match st.fs.find(&st.inner(t)?) {
                                At::Found(p) | At::New(p) => Some(p),
                                _ => Option::None,
                            },
                            _ => Option::None,
                        })
                        .collect();
                    // the source of a copy is not touched either
                    let touched: &[Place] = if op.name == "fs@cp" { &touched[touched.len().min(1)..] } else { &touched };
                    let gone: Vec<&Place> = st.fs.nodes.iter().filter(|(k, v)| !touched.iter().any(|t| k.starts_with(t)) && left.nodes.get(*k) != Some(v)).map(|(k, _)| k).collect();
                    let reads = matches!(op.name, "fs@read" | "<<" | "fs@ls" | "fs@head" | "fs@tail" | "fs@canon");
                    if !gone.is_empty() || (reads && left != st.fs) || (op.name == "fs@mv" && left != st.fs) {
                        rec.fail("damage", format!("{}: fails, and leaves {}", what(), left.show()))
                    } else {
                        rec.trace()
                    }
                }
                Ok(Ok(v)) => {
                    let (w, v) = match want {
                        Ok(w) if op.name == "fs@ls" => (Ok(sorted(w)), sorted(v)),
                        w => (w, v),
                    };
                    if !matches!(&w, Ok(w) if matches(w, &v)) {
                        rec.fail("result", format!("{}: gives {}, not {w:?}", what(), v.debug()))
                    } else if left != next.fs {
                        rec.fail("silent", format!("{}: is said to succeed, and leaves {}, not {}", what(), left.show(), next.fs.show()))
                    } else {
                        rec.trace()
                    }
                }
            }
            rec.state(&(d[1], &left));
        },
    )
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)));

    // every call of the system made to fail
    let broken: Vec<Op> = ops.iter().filter(|o| !matches!(o.name, "fs@exists?" | "fs@is-dir?" | "fs@is-file?" | "fs@tree" | "cd" | "sys@cd")).cloned().collect();
    let start = tree(&[("a", Some(b"one\ntwo\nthree\n")), ("d", Option::None), ("d/x", Some(b"x")), ("d/e", Option::None), ("d/e/y", Some(&[0xff, 0xfe]))]);
    let calls = failing(broken, start);

    Check {
        id: "C14",
        rule: "every operation of the vocabulary (all file functions and redirections, with paths of all kinds) on every directory tree and current directory that earlier operations reach, compared with a file system in memory: its result, the whole tree and the current directory afterwards; and every operation with every file and directory in turn made inaccessible or read-only, and with every call of the system in turn made to fail, alone, with all that follow it, or as on a full disk: what is said to succeed did all of it, what fails damages nothing else".into(),
        bounds: format!("{} states within {} operations of 3 starts, {} operations in each; {} faults", states.len(), if q { 2 } else { 3 }, k, n * 2),
        assumptions: vec!["the file system of the sandbox is trusted; removal of paths that end in . or .. and copies of names that end in a separator are left open".into()],
        spaces: vec![transitions, faults, calls, links(), linked_trees(q), strange_names(), names_not_text(q), deep_trees(), patterns(), contents(q), crowds(q)],
    }
}

/// Each call of the system, while an operation runs, fails; or it and all that follow; or there is no more room.
fn failing(ops: Vec<Op>, start: Fs) -> Space {
    const KINDS: [Kind; 3] = [Kind::Once, Kind::Forever, Kind::Full];
    let ops = Rc::new(ops);
    let (o2, n) = (ops.clone(), ops.len() as u64);
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    let describe = move |i| format!("{} where calls fail: {:?}", o2[(i % n) as usize].show(), KINDS[(i / n) as usize]);
    Space::new("failing calls", n * 3, describe, move |i, rec| {
        let (op, kind) = (&ops[(i % n) as usize], KINDS[(i / n) as usize]);
        let st = St { fs: start.clone(), cwd: String::new() };
        let Some((want, next)) = st.step(op) else {
            rec.note("left open");
            return;
        };
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        let named: Vec<Place> = op
            .args
            .iter()
            .filter_map(|a| match a {
                Str(t) => match st.fs.find(&st.inner(t)?) {
                    At::Found(p) | At::New(p) => Some(p),
                    // its parents are made
                    _ => Some(st.inner(t)?.split('/').map(String::from).collect()),
                },
                Sym(t) => Some(vec![t.clone()]),
                Int(n) => Some(vec![n.to_string()]),
                _ => Option::None,
            })
            .collect();
        // what may change: nothing by reading, not the source of a copy, nor what is written
        let may: &[Place] = match op.name {
            "fs@cp" => &named[named.len().min(1)..],
            "fs@write" | "fs@append" => &named[..named.len().min(1)],
            ">>" | ">>>" => &named[..],
            "fs@mkdir" | "fs@rmdir" | "fs@rm" => &named,
            _ => &[],
        };
        for at in 0..200 {
            b.now = Option::None;
            b.set(&st);
            let root = b.root.to_str().unwrap().to_string();
            let e = op.expr(&root).to_impl();
            let env = &mut b.env;
            rec.step();
            let got = guard(|| {
                fault::install(at, kind);
                let r = e.eval(env);
                let fired = fault::remove();
                (r, fired)
            });
            fault::remove();
            let left = Fs::scan(&b.root);
            let what = || format!("{} where call {at} fails ({kind:?})", op.show());
            let (got, (fired, _)) = match got {
                Ok(g) => g,
                Err(p) => return rec.fail("panic", format!("{}: {p}", what())),
            };
            if fired == 0 {
                if at == 0 {
                    rec.note("no calls");
                }
                break;
            }
            match got {
                Ok(v) => {
                    rec.note("done all the same");
                    let v = rename_root(E::from_impl(&v), &root);
                    let (w, v) = match want.clone() {
                        Ok(w) if matches!(op.name, "fs@ls" | "fs@glob") => (Ok(sorted(w)), sorted(v)),
                        w => (w, v),
                    };
                    // contents that could only be read at the second attempt are bytes
                    let same = matches!(&w, Ok(w) if matches(w, &v) || matches!((w, &v), (Str(_), Bytes(_))) && bytes(w) == bytes(&v));
                    if !same {
                        return rec.fail("result", format!("{}: gives {}, not {w:?}", what(), v.debug()));
                    }
                    if left != next.fs {
                        return rec.fail("silent", format!("{}: is said to succeed, and leaves {}, not {}", what(), left.show(), next.fs.show()));
                    }
                }
                Err(_) => {
                    rec.note("refused");
                    let is = |k: &Place| may.iter().any(|t| k.starts_with(t) || t.starts_with(k));
                    let lost = st.fs.nodes.iter().find(|(k, v)| {
                        let below = may.iter().any(|t| k.starts_with(t));
                        let now = left.nodes.get(*k);
                        match (now, v) {
                            (n, v) if n == Some(*v) => false,
                            // what was there before is still there
                            (Some(Node::File(n)), Node::File(v)) if matches!(op.name, "fs@append" | ">>>") => !(below && n.starts_with(v)),
                            _ if matches!(op.name, "fs@append" | ">>>" | "fs@cp" | "fs@mkdir") => true,
                            _ => !below,
                        }
                    });
                    let made = left.nodes.iter().find(|(k, _)| !st.fs.nodes.contains_key(*k) && !is(k));
                    // a move that is not done has done nothing
                    if let Some((k, _)) = lost {
                        return rec.fail("damage", format!("{}: fails, and changes {}: {}", what(), k.join("/"), left.show()));
                    }
                    if let Some((k, _)) = made {
                        return rec.fail("damage", format!("{}: fails, and makes {}: {}", what(), k.join("/"), left.show()));
                    }
                }
            }
            rec.trace();
            rec.state(&(op.name, &left));
        }
    })
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

/// Symbolic links: what is removed, moved or copied through them.
fn links() -> Space {
    // (operation, what is left of each of the targets, the links and new names)
    let targets = ["file", "dir", "missing", "out/dir"];
    let cases: Vec<(&'static str, &'static str)> = targets.iter().flat_map(|t| ["fs@rm", "fs@mv", "fs@cp", "fs@rmdir", "fs@exists?", "fs@is-dir?", "fs@is-file?", "fs@canon", "fs@write", "fs@append", "parent rm", "parent cp", "mv to", "cp to", "mv dir to", "cp dir to", "mkdir", "mv below", "fs@ls", "fs@read"].iter().map(move |o| (*t, *o))).collect();
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    Space::list("links", cases, move |(target, op), rec| {
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        let fs = tree(&[("file", Some(b"f")), ("dir", Option::None), ("dir/in", Some(b"i")), ("out", Option::None), ("out/dir", Option::None), ("out/dir/in", Some(b"o")), ("p", Option::None), ("p/own", Some(b"w"))]);
        b.now = Option::None;
        b.set(&St { fs: fs.clone(), cwd: String::new() });
        let root = b.root.clone();
        std::os::unix::fs::symlink(root.join(target), root.join("link")).unwrap();
        std::os::unix::fs::symlink(root.join(target), root.join("p/link")).unwrap();
        let mut call = |name: &str, args: &[&str]| {
            let f = name.split_once('@').unwrap();
            b.run(&E::apply(E::call("@", vec![E::sym(f.0), E::sym(f.1)]), args.iter().map(|a| s(a)).collect()))
        };
        rec.step();
        let exists = *target != "missing";
        let is_dir = target.ends_with("dir");
        let is_link = |p: &str| root.join(p).is_symlink();
        // the targets are as they were
        let whole = |except: &str| fs.nodes.iter().all(|(k, v)| k.join("/") == except || match v {
            Node::Dir => root.join(k.join("/")).is_dir(),
            Node::File(d) => std::fs::read(root.join(k.join("/"))).ok().as_ref() == Some(d),
        });
        let r = match *op {
            "parent rm" => call("fs@rm", &["p"]),
            "mv to" => call("fs@mv", &["p/own", "link"]),
            "cp to" => call("fs@cp", &["p/own", "link"]),
            "mv dir to" => call("fs@mv", &["p", "link"]),
            "cp dir to" => call("fs@cp", &["p", "link"]),
            "mkdir" => call("fs@mkdir", &["link/new"]),
            "mv below" => call("fs@mv", &["p/own", "link/new"]),
            "parent cp" => call("fs@cp", &["p", "q"]),
            "fs@mv" | "fs@cp" => call(op, &["link", "new"]),
            "fs@write" | "fs@append" => call(op, &["link", "text"]),
            _ => call(op, &["link"]),
        };
        let ok = match (*op, &r) {
            (_, Err(_)) => false,
            ("fs@rm", Ok(r)) => r.is_ok() && !is_link("link") && whole(""),
            ("parent rm", Ok(r)) => r.is_ok() && !root.join("p").exists() && ["file", "dir/in", "out/dir/in"].iter().all(|f| root.join(f).exists()),
            ("fs@mv", Ok(r)) => r.is_ok() && !is_link("link") && is_link("new") && whole(""),
            ("fs@rmdir", Ok(r)) => r.is_err() && is_link("link") && whole(""),
            ("fs@cp", Ok(Ok(_))) => exists && is_link("link") && whole("") && if is_dir { root.join("new/in").is_file() } else { std::fs::read(root.join("new")).unwrap() == b"f" },
            ("fs@cp", Ok(Err(_))) => !exists && whole(""),
            ("parent cp", Ok(Ok(_))) => exists && whole("") && root.join("q/own").is_file() && root.join("q/link").exists(),
            ("parent cp", Ok(Err(_))) => !exists && whole(""),
            // what is there is not replaced; where a link points to nothing is left open
            ("mv to" | "cp to" | "mv dir to" | "cp dir to", Ok(r)) => !exists || (r.is_err() && is_link("link") && whole("")),
            ("mkdir", Ok(r)) => !exists || (r.is_ok() == is_dir && whole("") && root.join(target).join("new").is_dir() == is_dir),
            ("mv below", Ok(r)) => r.is_ok() == is_dir && whole(if is_dir { "p/own" } else { "" }) && (!is_dir || std::fs::read(root.join(target).join("new")).unwrap() == b"w"),
            ("fs@ls", Ok(r)) => match r {
                Ok(List(v)) if is_dir => v.len() == 1 && text(&v[0]) == "link/in",
                Ok(List(v)) if exists => v.len() == 1,
                r => !exists && r.is_err(),
            },
            ("fs@read", Ok(r)) => if exists && !is_dir { *r == Ok(s("f")) } else { r.is_err() },
            ("fs@exists?", Ok(r)) => *r == Ok(Bool(exists)),
            ("fs@is-dir?", Ok(r)) => *r == Ok(Bool(is_dir)),
            ("fs@is-file?", Ok(r)) => *r == Ok(Bool(exists && !is_dir)),
            ("fs@canon", Ok(r)) => *r == if exists { Ok(s(&format!("{ROOT}/{target}"))) } else { Err(()) },
            ("fs@write", Ok(r)) => r.is_ok() == !is_dir && is_link("link") && whole(target) && (is_dir || std::fs::read(root.join(target)).unwrap() == b"text"),
            ("fs@append", Ok(r)) => r.is_ok() == (exists && !is_dir) && is_link("link") && whole(target) && (is_dir || !exists || std::fs::read(root.join(target)).unwrap() == b"ftext"),
            _ => false,
        };
        if !ok {
            rec.fail("link", format!("{op} of a link to {target} gives {r:?} and leaves {}", Fs::scan(&root).show()))
        } else {
            rec.trace()
        }
        rec.state(&(target, op, r.is_ok()));
    })
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

/// What a tree shows of a directory; links that lead back up are there, and not followed.
fn shown(at: &Path, depth: i64, above: &mut Vec<PathBuf>, got: &E) -> Result<(), String> {
    let Map(m) = got else { return Err(format!("{} is {}", at.display(), got.debug())) };
    let real = std::fs::canonicalize(at).unwrap();
    let mut names: BTreeSet<String> = [".", ".."].map(String::from).into();
    let back = above.iter().any(|a| a.starts_with(&real));
    above.push(real);
    if depth > 0 && !back {
        for e in std::fs::read_dir(at).unwrap() {
            let e = e.unwrap();
            let n = e.file_name().into_string().unwrap();
            let Some(v) = m.get(&n) else { return Err(format!("{} misses {n}", at.display())) };
            if e.path().is_dir() {
                shown(&e.path(), depth - 1, above, v)?
            } else if text(v) != e.path().to_str().unwrap() {
                return Err(format!("{} is {}", e.path().display(), v.debug()));
            }
            names.insert(n);
        }
    }
    above.pop();
    let has: BTreeSet<String> = m.keys().cloned().collect();
    if has != names || text(&m["."]) != at.to_str().unwrap() || text(&m[".."]) != at.parent().unwrap().to_str().unwrap() {
        return Err(format!("{} has {has:?}, not {names:?}; . is {} and .. is {}", at.display(), m["."].debug(), m[".."].debug()));
    }
    Ok(())
}

/// Trees of directories with links to each other.
fn linked_trees(q: bool) -> Space {
    let places = ["l", "d/l", "d/m", "d/e/l", "k/l"];
    let to = ["", "d", "d/e", "k", "f", "missing"];
    let one: Vec<(usize, usize)> = (0..places.len()).flat_map(|p| (0..to.len()).map(move |t| (p, t))).collect();
    let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for a in &one {
        sets.push(vec![*a]);
        for b in one.iter().filter(|b| b.0 > a.0) {
            sets.push(vec![*a, *b]);
            if !q {
                sets.extend(one.iter().filter(|c| c.0 > b.0).map(|c| vec![*a, *b, *c]));
            }
        }
    }
    let cases: Vec<(Vec<(usize, usize)>, &'static str, Option<i64>)> =
        sets.iter().flat_map(|l| ["", "d", "k"].iter().flat_map(move |p| [Option::None, Some(1), Some(3)].map(|n| (l.clone(), *p, n)))).collect();
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    Space::list("trees with links", cases, move |(links, path, depth), rec| {
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        let fs = tree(&[("f", Some(b"f")), ("d", Option::None), ("d/e", Option::None), ("d/g", Some(b"g")), ("k", Option::None)]);
        b.now = Option::None;
        b.set(&St { fs, cwd: String::new() });
        let root = b.root.clone();
        for (p, t) in links {
            std::os::unix::fs::symlink(root.join(to[*t]), root.join(places[*p])).unwrap();
        }
        let mut args: Vec<E> = depth.iter().map(|n| Int(*n)).collect();
        if !path.is_empty() {
            args.push(s(path))
        }
        if args.is_empty() {
            args.push(s("."))
        }
        rec.step();
        let e = E::apply(E::call("@", vec![E::sym("fs"), E::sym("tree")]), args).to_impl();
        let env = &mut b.env;
        let what = || format!("tree of {path:?} to {depth:?} with {:?}", links.iter().map(|(p, t)| format!("{} -> {:?}", places[*p], to[*t])).collect::<Vec<_>>());
        match guard(|| e.eval(env)) {
            Err(p) => rec.fail("panic", format!("{}: {p}", what())),
            Ok(Err(e)) => rec.fail("tree", format!("{}: {e}", what())),
            Ok(Ok(v)) => {
                let at = if path.is_empty() { root.clone() } else { root.join(path) };
                let mut v = E::from_impl(&v);
                // "." may be shown as it was given
                if let Map(m) = &mut v {
                    if args_dot(path, depth) && matches!(m.get("."), Some(d) if Path::new(&text(d)) == root) {
                        m.insert(".".into(), s(root.to_str().unwrap()));
                        m.insert("..".into(), s(root.parent().unwrap().to_str().unwrap()));
                    }
                }
                let v = if args_dot(path, depth) { undotted(v) } else { v };
                match shown(&at, depth.unwrap_or(99), &mut vec![], &v) {
                    Ok(()) => rec.trace(),
                    Err(e) => rec.fail("tree", format!("{}: {e}", what())),
                }
                rec.state(&v.debug());
            }
        }
    })
    .timeout(5.0)
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

/// Patterns for all directories, in directories that lead back to themselves.
fn patterns() -> Space {
    let cases: Vec<(usize, &'static str)> = vec![(0, "**/*"), (1, "**/*"), (0, "**/g"), (1, "**/g"), (2, "**/*")];
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    Space::list("patterns through links", cases, move |(links, pat), rec| {
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        let fs = tree(&[("f", Some(b"f")), ("d", Option::None), ("d/e", Option::None), ("d/g", Some(b"g"))]);
        b.now = Option::None;
        b.set(&St { fs: fs.clone(), cwd: String::new() });
        for n in 0..*links {
            std::os::unix::fs::symlink(b.root.join("d"), b.root.join(format!("d/l{n}"))).unwrap();
        }
        rec.step();
        let got = b.run(&E::apply(E::call("@", vec![E::sym("fs"), E::sym("glob")]), vec![s(pat)]));
        let names: Vec<String> = match &got {
            Ok(Ok(List(v))) => v.iter().map(text).collect(),
            _ => return rec.fail("glob", format!("{pat} with {links} links gives {got:?}")),
        };
        let parts: Vec<&str> = pat.split('/').collect();
        let missing = fs.nodes.keys().find(|k| glob_path(k, &parts) && !names.contains(&k.join("/")));
        if missing.is_some() || (*links == 0 && names.iter().any(|n| !b.root.join(n).exists())) {
            return rec.fail("glob", format!("{pat} with {links} links misses {missing:?} in {names:?}"));
        }
        rec.trace();
        rec.state(&(links, pat));
    })
    .timeout(4.0)
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

fn args_dot(path: &str, depth: &Option<i64>) -> bool {
    path.is_empty() && depth.is_none()
}

/// Paths without the `.` in the middle.
fn undotted(e: E) -> E {
    match e {
        Str(t) => Str(t.replace("/./", "/").strip_suffix("/.").map_or(t.replace("/./", "/"), String::from)),
        Map(m) => Map(m.into_iter().map(|(k, v)| (k, undotted(v))).collect()),
        e => e,
    }
}

/// Deep directories.
fn deep_trees() -> Space {
    let cases: Vec<(usize, i64)> = [1usize, 5, 9, 40].iter().flat_map(|d| (-1..=(*d as i64).min(12) + 2).chain([i64::MAX]).map(move |n| (*d, n))).collect();
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    Space::list("deep trees", cases, move |(deep, depth), rec| {
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        b.now = Option::None;
        b.set(&St { fs: Fs::default(), cwd: String::new() });
        let root = b.root.clone();
        let mut at = root.clone();
        for i in 0..*deep {
            at.push(format!("d{i}"));
            std::fs::create_dir(&at).unwrap();
            std::fs::write(at.join("f"), "x").unwrap();
        }
        rec.step();
        let e = E::apply(E::call("@", vec![E::sym("fs"), E::sym("tree")]), vec![Int(*depth)]).to_impl();
        let env = &mut b.env;
        match guard(|| e.eval(env)) {
            Ok(Ok(v)) => match shown(&root, *depth, &mut vec![], &E::from_impl(&v)) {
                Ok(()) => rec.trace(),
                Err(e) => rec.fail("tree", format!("tree to {depth} of {deep} directories: {e}")),
            },
            r => rec.fail("tree", format!("tree to {depth} of {deep} directories: {:?}", r.map(|r| r.map(|_| ())))),
        }
        rec.state(&(deep, depth));
        // what is copied and removed whole
        for (f, args) in [("cp", vec!["d0", "c"]), ("rm", vec!["d0"]), ("mv", vec!["c", "d0"])] {
            rec.step();
            let r = b.run(&E::apply(E::call("@", vec![E::sym("fs"), E::sym(f)]), args.iter().map(|a| s(a)).collect()));
            if r != Ok(Ok(E::None)) {
                return rec.fail("deep", format!("{f} of {deep} directories gives {r:?}"));
            }
            let mut at = root.join(if f == "cp" || f == "rm" { "c" } else { "d0" });
            for i in 1..*deep {
                at.push(format!("d{i}"));
            }
            if std::fs::read(at.join("f")).ok().as_deref() != Some(b"x") || (f == "rm" && root.join("d0").exists()) || (f == "mv" && root.join("c").exists()) {
                return rec.fail("deep", format!("{f} of {deep} directories leaves {}", Fs::scan(&root).show()));
            }
        }
    })
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

/// Names that mean something to patterns, shells or programs, of the file, its directory and the current one.
fn strange_names() -> Space {
    const NAMES: [&str; 17] = ["*", "?", "[a]", "[!a]", "]", "[", "-r", "--", "~", "$HOME", "a b", " a", "a\nb", "\\", "'\"", "a*b[c]?", "日本"];
    let cases: Vec<(&'static str, &'static str, bool)> = NAMES.iter().flat_map(|f| NAMES.iter().flat_map(move |d| [false, true].map(|c| (*f, *d, c)))).collect();
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    Space::list("strange names", cases, move |(file, dir, inside), rec| {
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        let fs = tree(&[("a", Some(b"a")), ("x", Option::None), ("x/a", Some(b"b"))]);
        b.now = Option::None;
        let whole = format!("{dir}/{file}");
        let path = if *inside { file.to_string() } else { whole.clone() };
        let key = |t: &str| t.split('/').map(String::from).collect::<Vec<_>>();
        let mut fs = fs;
        fs.nodes.insert(key(dir), Node::Dir);
        fs.nodes.insert(key(&format!("{dir}/a")), Node::File(b"own".to_vec()));
        let st = St { fs: fs.clone(), cwd: if *inside { dir.to_string() } else { String::new() } };
        b.set(&st);
        let root = b.root.clone();
        let call = |name: &str, args: Vec<E>| E::apply(E::call("@", vec![E::sym("fs"), E::sym(name)]), args);
        // (operation, its result, what becomes of the file)
        let there = Some(&b"text"[..]);
        let there2 = Some(&b"texttext"[..]);
        let steps: Vec<(E, Result<E, ()>, Option<&[u8]>)> = vec![
            (call("exists?", vec![s(&path)]), Ok(Bool(false)), Option::None),
            (call("read", vec![s(&path)]), Err(()), Option::None),
            (call("write", vec![s(&path), s("text")]), Ok(E::None), there),
            (call("read", vec![s(&path)]), Ok(s("text")), there),
            (E::call("<<", vec![s(&path)]), Ok(s("text")), there),
            (call("append", vec![s(&path), s("text")]), Ok(E::None), there2),
            (call("exists?", vec![s(&path)]), Ok(Bool(true)), there2),
            (call("canon", vec![s(&path)]), Ok(s(&format!("{ROOT}/{whole}"))), there2),
            (call("mv", vec![s(&path), s("../back")]), Ok(E::None), Option::None),
            (call("cp", vec![s("../back"), s(&path)]), Ok(E::None), there2),
            (call("rm", vec![s(&path)]), Ok(E::None), Option::None),
            (E::call(">>", vec![s(&path), s("text")]), Ok(E::None), there),
            (E::call(">>>", vec![s(&path), s("text")]), Ok(E::None), there2),
        ];
        for (e, want, left) in steps {
            // there is no place beside the box
            if !inside && e.debug().contains("../back") {
                continue;
            }
            rec.step();
            let got = match b.run(&e) {
                Ok(g) => g,
                Err(p) => return rec.fail("panic", format!("{}: {p}", e.debug())),
            };
            if got != want {
                return rec.fail("name", format!("{} in {}: gives {got:?}, not {want:?}", e.debug(), st.dir()));
            }
            let now = std::fs::read(root.join(&whole)).ok();
            let others = fs.nodes.iter().all(|(k, n)| match n {
                Node::Dir => root.join(k.join("/")).is_dir(),
                Node::File(d) => std::fs::read(root.join(k.join("/"))).ok().as_ref() == Some(d),
            });
            if now.as_deref() != left || !others {
                return rec.fail("name", format!("{} in {}: leaves {}", e.debug(), st.dir(), Fs::scan(&root).show()));
            }
        }
        // patterns are matched below the directory they are in, whatever its name
        if *inside {
            let names = |p: &str| -> Vec<E> {
                let mut v: Vec<E> = [*file, "a"].iter().filter(|n| glob(n, p)).map(|n| s(n)).collect();
                v.sort_by_key(|e| e.debug());
                v
            };
            for p in ["*", "?", "a*", "*]", "zz"] {
                rec.step();
                let got = b.run(&call("glob", vec![s(p)]));
                let want = List(names(p));
                if got.clone().map(|g| g.map(sorted)) != Ok(Ok(want.clone())) {
                    return rec.fail("glob", format!("glob {p:?} in {}: gives {got:?}, not {}", st.dir(), want.debug()));
                }
            }
            rec.step();
            let got = b.run(&call("ls", vec![s("")]));
            let mut want: Vec<E> = [*file, "a"].iter().map(|n| s(n)).collect();
            want.sort_by_key(|e| e.debug());
            if got.clone().map(|g| g.map(sorted)) != Ok(Ok(List(want))) {
                return rec.fail("ls", format!("ls in {}: gives {got:?}", st.dir()));
            }
        }
        rec.trace();
        rec.state(&(file, dir, inside));
    })
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

/// Directories with names that are not text: they are listed, copied, moved and removed like others.
fn names_not_text(q: bool) -> Space {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    const NAMES: [&[u8]; 5] = [b"\xff", b"a\xff\xfeb", b"ok", "\u{e9}\u{fffd}".as_bytes(), b"\xe2\x82"];
    // each is not there, a file, a directory with a file of a like name in it, a link to nowhere or a link to a file
    let kinds: u64 = if q { 4 } else { 5 };
    const WHERE: [(&str, &str); 4] = [("", "d"), ("", "./d/"), ("d", "."), ("e", "../d")];
    let radix = vec![kinds, kinds, kinds, kinds, kinds, WHERE.len() as u64];
    let r2 = radix.clone();
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    fn all(at: &Path, dir: &Path, into: &mut BTreeMap<Vec<u8>, Vec<u8>>) {
        let Ok(entries) = std::fs::read_dir(at) else { return };
        for e in entries.flatten() {
            let path = e.path();
            let name = path.strip_prefix(dir).unwrap().as_os_str().as_bytes().to_vec();
            let kind = e.file_type().unwrap();
            if kind.is_dir() {
                into.insert(name, b"directory".to_vec());
                all(&path, dir, into)
            } else if kind.is_symlink() {
                into.insert(name, [b"to ", std::fs::read_link(&path).unwrap().as_os_str().as_bytes()].concat());
            } else {
                into.insert(name, [b"file ".to_vec(), std::fs::read(&path).unwrap()].concat());
            }
        }
    }
    let within = |dir: PathBuf| {
        let mut m = BTreeMap::new();
        all(&dir, &dir, &mut m);
        m
    };
    Space::new("names that are not text", radix.iter().product(), move |i| format!("{:?} (name by name, and place)", digits(i, &r2)), move |i, rec| {
        let c = digits(i, &radix);
        let (cwd, path) = WHERE[c[5]];
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        b.now = Option::None;
        b.set(&St { fs: tree(&[("d", Option::None), ("e", Option::None)]), cwd: cwd.to_string() });
        let root = b.root.clone();
        let mut names: Vec<Vec<u8>> = vec![];
        for (n, kind) in NAMES.iter().zip(&c) {
            let at = root.join("d").join(OsStr::from_bytes(n));
            match kind {
                0 => continue,
                1 => std::fs::write(&at, n).unwrap(),
                2 => {
                    std::fs::create_dir(&at).unwrap();
                    std::fs::write(at.join(OsStr::from_bytes(&[n, &b"\xfe"[..]].concat())), b"inside").unwrap()
                }
                3 => std::os::unix::fs::symlink("nowhere", &at).unwrap(),
                _ => {
                    std::fs::write(root.join("t"), b"t").unwrap();
                    std::os::unix::fs::symlink("../t", &at).unwrap()
                }
            }
            names.push(n.to_vec());
        }
        // a link to nowhere cannot be copied, the rest can
        let copies = c[..5].iter().all(|k| *k != 3);
        let before = within(root.join("d"));
        let call = |name: &str, args: Vec<E>| E::apply(E::call("@", vec![E::sym("fs"), E::sym(name)]), args);
        let mut ask = |e: E| {
            rec.step();
            b.run(&e)
        };
        // every name is listed
        let got = ask(call("ls", vec![s(path)])).map(|g| g.map(sorted));
        let mut want: Vec<E> = names.iter().map(|n| s(&Path::new(path).join(OsStr::from_bytes(n)).to_string_lossy())).collect();
        want.sort_by_key(|e| e.debug());
        if got != Ok(Ok(List(want.clone()))) {
            return rec.fail("ls", format!("ls {path:?} in {cwd:?}: gives {got:?}, not {}", List(want).debug()));
        }
        // those that are text are in the tree and match patterns, whatever the others are
        let text: Vec<&str> = names.iter().filter_map(|n| std::str::from_utf8(n).ok()).collect();
        let tree = match ask(call("tree", vec![s(path)])) {
            Ok(Ok(Map(m))) => m,
            other => return rec.fail("tree", format!("tree of {path:?}: {other:?}")),
        };
        if let Some(n) = text.iter().find(|n| !tree.contains_key(**n)) {
            return rec.fail("tree", format!("tree of {path:?} in {cwd:?} is without {n:?}"));
        }
        let found = match ask(call("glob", vec![s(&format!("{path}/*"))])) {
            Ok(Ok(List(v))) => v.iter().map(|e| e.display().unwrap()).collect::<Vec<_>>(),
            other => return rec.fail("glob", format!("{path}/*: {other:?}")),
        };
        let dangling = |n: &str| c[NAMES.iter().position(|m| *m == n.as_bytes()).unwrap()] == 3;
        if let Some(n) = text.iter().find(|n| !dangling(n) && !found.iter().any(|f| f.rsplit('/').next() == Some(**n))) {
            return rec.fail("glob", format!("{path}/* in {cwd:?} gives {found:?}, without {n:?}"));
        }
        // the whole of it is copied, moved and removed
        if cwd == "d" {
            rec.trace();
            return;
        }
        let to = |t: &str| if cwd == "e" { format!("../{t}") } else { t.to_string() };
        let got = ask(call("cp", vec![s(path), s(&to("f"))]));
        let copied = within(root.join("f"));
        if copies && (got != Ok(Ok(E::None)) || copied.len() != before.len() || before.iter().any(|(n, what)| copied.get(n).map(|c| what.starts_with(b"to ") || c == what) != Some(true))) || within(root.join("d")) != before {
            return rec.fail("cp", format!("gives {got:?} and {copied:?} of {before:?}"));
        }
        let got = ask(call("mv", vec![s(path), s(&to("g"))]));
        if got != Ok(Ok(E::None)) || within(root.join("g")) != before || root.join("d").exists() {
            return rec.fail("mv", format!("gives {got:?} and {:?} of {before:?}", within(root.join("g"))));
        }
        let got = ask(call("rm", vec![s(&to("g"))]));
        if got != Ok(Ok(E::None)) || root.join("g").exists() || root.join("t").exists() != c[..5].contains(&4) {
            return rec.fail("rm", format!("gives {got:?} and leaves {:?}", within(root.clone())));
        }
        rec.trace();
        rec.state(&c);
    })
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

/// Contents of a kind and a size.
fn content(kind: usize, size: usize) -> Vec<u8> {
    let repeat = |before: usize, what: &str| -> Vec<u8> {
        let mut v = vec![b'a'; before.min(size)];
        while v.len() + what.len() <= size {
            v.extend(what.bytes());
        }
        v.resize(size, b'z');
        v
    };
    match kind {
        0 => repeat(0, "nine and \n"),
        1 => repeat(0, "w"),
        2 | 3 => repeat(kind - 2, "é"),
        4..=6 => repeat(kind - 4, "日"),
        7..=10 => repeat(kind - 7, "😀"),
        11 => repeat(0, "\n"),
        12 => repeat(0, "and\r\n"),
        13 => repeat(0, "\0"),
        14 => (0..size).map(|i| (i * 7 % 256) as u8).collect(),
        15 | 16 | 17 => {
            let mut v = repeat(0, "line\n");
            if let Some(b) = v.get_mut(match kind { 15 => 0, 16 => size / 2, _ => size.max(1) - 1 }) {
                *b = 0xff;
            }
            v
        }
        18 => repeat(0, "\u{feff}"),
        19 => {
            // a character that ends before it is whole
            let mut v = repeat(0, "line\n");
            if let Some(b) = v.last_mut() {
                *b = 0xc3;
            }
            v
        }
        20 => repeat(0, "\r"),
        _ => repeat(1, "\na"),
    }
}

/// What is read, copied, moved, written and appended, for contents of every kind and many sizes.
fn contents(q: bool) -> Space {
    let mut sizes: Vec<usize> = (0..=9).collect();
    for p in [100, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072] {
        sizes.extend([p - 1, p, p + 1, p + 2]);
    }
    sizes.push(1_000_003);
    if !q {
        sizes.extend([262144, 262145, 524288, 1 << 20, (1 << 20) + 1, 3_000_001]);
    }
    let cases: Vec<(usize, usize, u32)> = sizes.iter().flat_map(|n| (0..22).map(move |k| (k, *n, [0o644, 0o755, 0o600][(k + n) % 3]))).collect();
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    Space::list("contents", cases, move |&(kind, size, mode), rec| {
        use std::os::unix::fs::PermissionsExt;
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        b.now = Option::None;
        b.set(&St { fs: Fs::default(), cwd: String::new() });
        let root = b.root.clone();
        let data = content(kind, size);
        std::fs::write(root.join("f"), &data).unwrap();
        std::fs::set_permissions(root.join("f"), std::fs::Permissions::from_mode(mode)).unwrap();
        let call = |name: &str, args: Vec<E>| E::apply(E::call("@", vec![E::sym("fs"), E::sym(name)]), args);
        let what = format!("contents of kind {kind}, {size} bytes");
        let mut fine = true;
        let mut step = |e: E, want: Option<E>, files: &[(&str, &[u8])], rec: &mut Rec| -> bool {
            rec.step();
            let got = match b.run(&e) {
                Ok(g) => g.ok(),
                Err(p) => {
                    rec.fail("panic", format!("{what}: {}: {p}", short(&e)));
                    return false;
                }
            };
            if got != want {
                rec.fail("contents", format!("{what}: {} gives {}, not {}", short(&e), got.map_or("an error".into(), |g| short(&g)), want.map_or("an error".into(), |g| short(&g))));
                return false;
            }
            let there: BTreeSet<String> = std::fs::read_dir(&root).unwrap().map(|d| d.unwrap().file_name().into_string().unwrap()).collect();
            if there != files.iter().map(|f| f.0.to_string()).collect() || files.iter().any(|f| std::fs::read(root.join(f.0)).ok().as_deref() != Some(f.1)) {
                rec.fail("contents", format!("{what}: {} leaves {}", short(&e), there.iter().map(|n| format!("{n} of {} bytes ", std::fs::read(root.join(n)).map_or(0, |d| d.len()))).collect::<String>()));
                return false;
            }
            true
        };
        let read = value(&data);
        fine &= step(call("read", vec![s("f")]), Some(read.clone()), &[("f", &data)], rec);
        fine &= step(E::call("<<", vec![s("f")]), Some(read.clone()), &[("f", &data)], rec);
        // parts
        let lines: Option<Vec<&str>> = std::str::from_utf8(&data).ok().map(|t| t.lines().collect());
        let n = lines.as_ref().map_or(2, |l| l.len()) as i64;
        for k in [0, 1, 2, n / 2, n - 1, n, n + 1, 1 << 32, (1 << 32) + 1, 1 - (1 << 32), i64::MAX, i64::MIN, -1] {
            let m = k.clamp(0, n) as usize;
            for f in ["head", "tail"] {
                let want = lines.as_ref().map(|l| {
                    let part = if f == "head" { &l[..m] } else { &l[l.len() - m..] };
                    Str(part.iter().map(|l| format!("{l}\n")).collect())
                });
                fine &= step(call(f, vec![s("f"), Int(k)]), want, &[("f", &data)], rec);
            }
        }
        // copies and moves
        fine &= step(call("cp", vec![s("f"), s("g")]), Some(E::None), &[("f", &data), ("g", &data)], rec);
        fine &= step(call("mv", vec![s("g"), s("h")]), Some(E::None), &[("f", &data), ("h", &data)], rec);
        if fine && std::fs::metadata(root.join("h")).unwrap().permissions().mode() & 0o777 != mode {
            rec.fail("mode", format!("{what}: a file of mode {mode:o}, copied and moved, has not that mode"));
            fine = false;
        }
        // writing more, less and the same
        let mut more = data.clone();
        more.extend(b"end");
        fine &= step(call("append", vec![s("h"), s("end")]), Some(E::None), &[("f", &data), ("h", &more)], rec);
        let mut twice = more.clone();
        twice.extend(&data);
        fine &= step(E::call(">>>", vec![s("h"), read.clone()]), Some(E::None), &[("f", &data), ("h", &twice)], rec);
        fine &= step(call("write", vec![s("h"), read.clone()]), Some(E::None), &[("f", &data), ("h", &data)], rec);
        fine &= step(E::call(">>", vec![s("h"), s("x")]), Some(E::None), &[("f", &data), ("h", b"x")], rec);
        fine &= step(E::call(">>", vec![s("new"), read.clone()]), Some(E::None), &[("f", &data), ("h", b"x"), ("new", &data)], rec);
        fine &= step(call("rm", vec![s("f")]), Some(E::None), &[("h", b"x"), ("new", &data)], rec);
        if fine {
            rec.trace();
            rec.state(&(kind, size));
        }
    })
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}

/// Directories of many files.
fn crowds(q: bool) -> Space {
    let mut cases: Vec<(usize, bool)> = vec![];
    for n in (0..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500]).chain(if q { vec![] } else { vec![1000, 1024, 2000, 5000] }) {
        cases.extend([(n, false), (n, true)]);
    }
    let held: Rc<RefCell<Option<Box_>>> = Default::default();
    let h = held.clone();
    Space::list("crowds", cases, move |&(n, dirs), rec| {
        let mut g = held.borrow_mut();
        let b = g.as_mut().unwrap();
        b.now = Option::None;
        b.set(&St { fs: Fs::default(), cwd: String::new() });
        let root = b.root.clone();
        let mut names: Vec<String> = (0..n).map(|i| format!("{}{i}", ["f", ".h", "g"][i % 3])).collect();
        names.sort();
        std::fs::create_dir(root.join("d")).unwrap();
        for f in &names {
            if dirs {
                std::fs::create_dir(root.join("d").join(f)).unwrap();
                std::fs::write(root.join("d").join(f).join("in"), f).unwrap();
            } else {
                std::fs::write(root.join("d").join(f), f).unwrap();
            }
        }
        let call = |name: &str, args: Vec<E>| E::apply(E::call("@", vec![E::sym("fs"), E::sym(name)]), args);
        let listed = |of: &str, keep: &dyn Fn(&str) -> bool| List(names.iter().filter(|f| keep(f)).map(|f| s(&format!("{of}{f}"))).collect());
        let steps: Vec<(E, E, &[&str])> = vec![
            (call("ls", vec![s("d")]), listed("d/", &|_| true), &["d"]),
            (call("glob", vec![s("d/*")]), listed("d/", &|_| true), &["d"]),
            (call("glob", vec![s("d/f*")]), listed("d/", &|f| f.starts_with('f')), &["d"]),
            (call("glob", vec![s("d/?1")]), listed("d/", &|f| f.len() == 2 && f.ends_with('1')), &["d"]),
            (call("cp", vec![s("d"), s("e/f")]), E::None, &["d", "e/f"]),
            (call("mv", vec![s("d"), s("c")]), E::None, &["c", "e/f"]),
            (call("rm", vec![s("c")]), E::None, &["e/f"]),
            (call("ls", vec![s("e/f")]), listed("e/f/", &|_| true), &["e/f"]),
        ];
        for (e, want, whole) in steps {
            rec.step();
            let got = match b.run(&e) {
                Ok(g) => g.map(sorted),
                Err(p) => return rec.fail("panic", format!("{n} files: {}: {p}", e.debug())),
            };
            if got != Ok(sorted(want)) {
                return rec.fail("crowd", format!("{n} files: {} gives {}", e.debug(), got.map_or("an error".into(), |g| short(&g))));
            }
            for d in ["d", "c", "e/f"] {
                let there: Option<BTreeMap<String, Vec<u8>>> = std::fs::read_dir(root.join(d)).ok().map(|r| {
                    r.map(|x| x.unwrap().path())
                        .map(|p| (p.file_name().unwrap().to_str().unwrap().to_string(), std::fs::read(if dirs { p.join("in") } else { p }).unwrap_or_default()))
                        .collect()
                });
                let want = whole.contains(&d).then(|| names.iter().map(|f| (f.clone(), f.clone().into_bytes())).collect());
                if there != want {
                    return rec.fail("crowd", format!("{n} files: {} leaves {:?} files in {d}", e.debug(), there.map(|t| t.len())));
                }
            }
        }
        rec.trace();
        rec.state(&(n, dirs));
    })
    .init(move |scratch| *h.borrow_mut() = Some(make_box(scratch)))
}
