//! Reference evaluator: what a program means, as the documentation describes it.
//!
//! Values are `E`; an environment is a plain table. Every external program is unknown here:
//! running one is the error `NotFound`, after its arguments have been evaluated.
use super::builtins;
use super::expr::E::{self, *};
use std::collections::BTreeMap;

pub type Env = BTreeMap<String, E>;

#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    Apply,
    For,
    Depth,
    NotFound(String),
    Custom,
    Syntax,
    /// the model does not describe this program: it must not be compared
    Unmodelled(String),
}

impl Er {
    pub fn code(&self) -> i64 {
        match self {
            Er::Apply => 1,
            Er::For => 4,
            Er::Depth => 5,
            Er::NotFound(_) => 7,
            Er::Syntax => 8,
            Er::Custom => 9,
            Er::Unmodelled(_) => -1,
        }
    }
}

pub type R = Result<E, Er>;

#[derive(Default)]
pub struct M {
    /// everything printed
    pub out: String,
    pub steps: u64,
    pub budget: u64,
    /// calls of builtins in progress
    pub nest: usize,
}

pub const MAX_DEPTH: usize = 800;

impl M {
    pub fn new() -> M {
        M { out: String::new(), steps: 0, budget: 200_000, nest: 0 }
    }

    pub fn eval(&mut self, e: &E, env: &mut Env) -> R {
        self.ev(e.clone(), env, 0)
    }

    fn ev(&mut self, mut e: E, env: &mut Env, mut depth: usize) -> R {
        loop {
            self.steps += 1;
            if self.steps > self.budget {
                return Err(Er::Unmodelled("too long".into()));
            }
            if depth > MAX_DEPTH {
                return Err(Er::Depth);
            }
            let d = depth + 1;
            e = match e {
                None | Int(_) | Flt(_) | Bool(_) | Str(_) | Bytes(_) | Mac(..) | Builtin(_) => return Ok(e),
                // a quoted expression evaluates to the expression itself
                Quote(x) => return Ok(*x),
                Group(x) => return self.ev(*x, env, d),
                // an undefined variable stands for itself
                Sym(n) => return Ok(env.get(&n).cloned().unwrap_or(Sym(n))),
                Assign(n, x) => {
                    let v = self.ev(*x, env, d)?;
                    env.insert(n, v);
                    return Ok(None);
                }
                If(c, t, f) => {
                    let c = self.ev(*c, env, d)?;
                    return self.ev(if c.truthy() { *t } else { *f }, env, d);
                }
                // the loop variable stays in scope; the loop's value is the list of its bodies' values
                For(n, l, b) => match self.ev(*l, env, d)? {
                    List(items) => {
                        let mut out = vec![];
                        for i in items {
                            env.insert(n.clone(), i);
                            out.push(self.ev((*b).clone(), env, d)?);
                        }
                        return Ok(List(out));
                    }
                    _ => return Err(Er::For),
                },
                List(v) => return Ok(List(v.into_iter().map(|x| self.ev(x, env, d)).collect::<Result<_, _>>()?)),
                Map(m) => {
                    let mut out = BTreeMap::new();
                    for (k, v) in m {
                        out.insert(k, self.ev(v, env, d)?);
                    }
                    return Ok(Map(out));
                }
                Do(v) => {
                    let Some((last, first)) = v.split_last() else { return Ok(None) };
                    for x in first {
                        self.ev(x.clone(), env, d)?;
                    }
                    last.clone()
                }
                // a function remembers the variables its body uses, as they are now
                Lam(p, b, captured) => {
                    let mut c = captured.clone();
                    c.insert(p.clone(), None);
                    if let Some(cwd) = env.get("CWD") {
                        c.insert("CWD".into(), cwd.clone());
                    }
                    let mut used = vec![];
                    symbols(&b, &mut used);
                    for s in used {
                        if s != p && !captured.contains_key(&s) {
                            if let Some(v) = env.get(&s) {
                                c.insert(s, v.clone());
                            }
                        }
                    }
                    return Ok(Lam(p, b, c));
                }
                Apply(f, args) => match self.ev((*f).clone(), env, d)? {
                    Sym(name) | Str(name) => {
                        for a in args {
                            self.ev(a, env, d)?;
                        }
                        return Err(Er::NotFound(name));
                    }
                    Lam(p, b, captured) if !args.is_empty() => {
                        let mut c = captured;
                        if let Some(cwd) = env.get("CWD") {
                            c.insert("CWD".into(), cwd.clone());
                        }
                        let v = self.ev(args[0].clone(), env, d)?;
                        c.insert(p, v);
                        let r = self.ev(*b, &mut c, d)?;
                        if args.len() == 1 {
                            return Ok(r);
                        }
                        Apply(Box::new(r), args[1..].to_vec())
                    }
                    Mac(p, b) if !args.is_empty() => {
                        let v = self.ev(args[0].clone(), env, d)?;
                        env.insert(p, v);
                        if args.len() == 1 {
                            *b
                        } else {
                            let r = self.ev(*b, env, d)?;
                            Apply(Box::new(r), args[1..].to_vec())
                        }
                    }
                    Builtin(name) => return builtins::call(self, &name, &args, env),
                    _ => return Err(Er::Apply),
                },
            };
            depth += 1;
        }
    }
}

/// The variables that occur in an expression.
pub fn symbols(e: &E, out: &mut Vec<String>) {
    match e {
        Sym(s) => out.push(s.clone()),
        None | Int(_) | Flt(_) | Bool(_) | Str(_) | Bytes(_) | Builtin(_) => {}
        List(v) | Do(v) => v.iter().for_each(|x| symbols(x, out)),
        Map(m) => m.values().for_each(|x| symbols(x, out)),
        Group(x) | Quote(x) | Assign(_, x) | Mac(_, x) | Lam(_, x, _) => symbols(x, out),
        For(_, a, b) => {
            symbols(a, out);
            symbols(b, out)
        }
        If(a, b, c) => {
            symbols(a, out);
            symbols(b, out);
            symbols(c, out)
        }
        Apply(f, a) => {
            symbols(f, out);
            a.iter().for_each(|x| symbols(x, out))
        }
    }
}

/// `==` of the language: same structure, same contents.
pub fn equal(a: &E, b: &E) -> bool {
    match (a, b) {
        (Flt(x), Flt(y)) => x == y,
        (List(x), List(y)) | (Do(x), Do(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| equal(p, q)),
        (Map(x), Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && equal(p, q))
        }
        (Group(x), Group(y)) | (Quote(x), Quote(y)) => equal(x, y),
        (Assign(n, x), Assign(m, y)) | (Mac(n, x), Mac(m, y)) => n == m && equal(x, y),
        (Lam(n, x, c), Lam(m, y, d)) => {
            n == m
                && equal(x, y)
                && c.len() == d.len()
                && c.iter().zip(d).all(|((k, p), (l, q))| k == l && equal(p, q))
        }
        (Apply(f, x), Apply(g, y)) => equal(f, g) && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| equal(p, q)),
        (If(a, b, c), If(d, e, f)) => equal(a, d) && equal(b, e) && equal(c, f),
        (For(n, a, b), For(m, d, e)) => n == m && equal(a, d) && equal(b, e),
        _ => a == b,
    }
}

/// The order of two values of one ordered type; nothing else is ordered.
pub fn order(a: &E, b: &E) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::Equal;
    match (a, b) {
        (Int(x), Int(y)) => Some(x.cmp(y)),
        (Flt(x), Flt(y)) => x.partial_cmp(y),
        (Str(x), Str(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (Bytes(x), Bytes(y)) => Some(x.cmp(y)),
        (List(x), List(y)) => {
            for (p, q) in x.iter().zip(y) {
                match order(p, q)? {
                    Equal => {}
                    o => return Some(o),
                }
            }
            Some(x.len().cmp(&y.len()))
        }
        (Map(x), Map(y)) => {
            for ((k, p), (l, q)) in x.iter().zip(y) {
                match k.cmp(l) {
                    Equal => {}
                    o => return Some(o),
                }
                match order(p, q)? {
                    Equal => {}
                    o => return Some(o),
                }
            }
            Some(x.len().cmp(&y.len()))
        }
        _ => Option::None,
    }
}
