//! Running a program in the reference evaluator and in the implementation, and comparing.
use super::util::*;
use crate::engine::*;
use crate::spec::builtins::{self, initial, matches};
use crate::spec::eval::{Env, Er, M, R};
use crate::spec::expr::E;
use dune::{Environment, Error, Expression as X};
use std::collections::BTreeSet;
use std::path::Path;

pub struct Pair {
    pub model: Env,
    pub real: Environment,
    /// the whole initial environment
    pub access: std::rc::Rc<Environment>,
}

pub const CWD: &str = "/dev";

impl Pair {
    /// The initial environment, with only these names in it.
    pub fn new(names: &[&str]) -> Pair {
        let mut full = full_env(CWD);
        let all = initial();
        let mut model = Env::new();
        let mut real = Environment::new();
        for n in names {
            model.insert(n.to_string(), all.get(*n).unwrap_or_else(|| panic!("{n}")).clone());
            let mut x = full.get(n).unwrap_or_else(|| panic!("{n}"));
            // only the part of a module that the model describes
            if let (X::Map(t), E::Map(m)) = (&mut x, &all[*n]) {
                t.retain(|k, _| m.contains_key(k))
            }
            real.define(n, x);
        }
        model.insert("CWD".into(), E::str(CWD));
        real.set_cwd(CWD);
        for (n, x) in real.bindings.clone() {
            full.define(&n, x)
        }
        Pair { model, real, access: std::rc::Rc::new(full) }
    }
    /// Programs run beforehand; they must succeed.
    pub fn with(mut self, setup: &str) -> Pair {
        if !setup.is_empty() {
            let e = builtins::source(setup);
            M::new().eval(&e, &mut self.model).unwrap_or_else(|x| panic!("{setup}: {x:?}"));
            e.to_impl().eval(&mut self.real).unwrap_or_else(|x| panic!("{setup}: {x}"));
        }
        self
    }
}

impl Clone for Pair {
    fn clone(&self) -> Pair {
        Pair { model: self.model.clone(), real: self.real.clone(), access: self.access.clone() }
    }
}

pub fn prepare(scratch: &Path) {
    unprivileged(scratch);
    bare_process_env();
    limit_memory(8 << 30);
    let _ = std::env::set_current_dir(scratch);
}

pub fn error_kind(e: &Error) -> Er {
    match e {
        Error::CannotApply(..) => Er::Apply,
        Error::ForNonList(..) => Er::For,
        Error::RecursionDepth(..) => Er::Depth,
        Error::ProgramNotFound(n) => Er::NotFound(n.clone()),
        Error::SyntaxError(..) => Er::Syntax,
        Error::CustomError(..) => Er::Custom,
        other => Er::Unmodelled(format!("{other}")),
    }
}

pub fn short(e: &E) -> String {
    e.debug().chars().take(200).collect()
}

pub fn outcome(r: &R) -> String {
    match r {
        Ok(e) => format!("value {}", short(e)),
        Err(e) => format!("error {e:?}"),
    }
}

#[derive(PartialEq, Clone, Copy)]
pub enum Same {
    Yes,
    No,
    Unmodelled,
}

/// Run `e` in both; `kind` names the failure. The environments are left as the program left them.
pub fn step(p: &mut Pair, e: &E, rec: &mut Rec, kind: &str, prints: bool) -> Same {
    let mut m = M::new();
    let want = m.eval(e, &mut p.model);
    rec.steps(m.steps);
    if let Err(Er::Unmodelled(u)) = &want {
        rec.note(&format!("not modelled: {u}"));
        return Same::Unmodelled;
    }
    let x = e.to_impl();
    let real = &mut p.real;
    let (got, out) = if prints {
        let (r, out, _) = capture(|| guard(|| x.eval(real)));
        (r, Some(String::from_utf8_lossy(&out).to_string()))
    } else {
        (guard(|| x.eval(real)), None)
    };
    let got: Result<R, String> = got.map(|r| match r {
        Ok(v) => Ok(E::from_impl(&v)),
        Err(e) => Err(error_kind(&e)),
    });
    let bad = match (&want, &got) {
        (_, Err(p)) => Some(format!("panic: {p}")),
        (Ok(w), Ok(Ok(g))) if matches(w, g) => None,
        // the factorial of a float is an approximation
        (Ok(E::Flt(w)), Ok(Ok(E::Flt(g)))) if (w - g).abs() <= 1e-6 * w && short(e).starts_with("math@fact ") => None,
        (Err(w), Ok(Err(g))) if w == g => None,
        (_, Ok(g)) => Some(format!("got  {}", outcome(g))),
    };
    if let Some(b) = bad {
        rec.fail(kind, format!("program {}\nwant {}\n{b}", short(e), outcome(&want)));
        return Same::No;
    }
    if let Some(out) = out {
        if out != m.out {
            rec.fail(kind, format!("program {}\nprints {:?}\nnot    {:?}", short(e), out, m.out));
            return Same::No;
        }
    }
    rec.state(&(outcome(&want), &m.out));
    Same::Yes
}

/// The variables must have the same values, and the same ones must be defined.
pub fn same_env(p: &Pair, rec: &mut Rec, kind: &str, what: &dyn Fn() -> String) -> bool {
    let names: BTreeSet<&String> = p.model.keys().chain(p.real.bindings.keys()).collect();
    for n in names {
        let bad = match (p.model.get(n), p.real.bindings.get(n)) {
            (Some(a), Some(b)) => {
                let b = E::from_impl(b);
                if matches(a, &b) {
                    continue;
                }
                format!("{n} is {} and not {}", short(&b), short(a))
            }
            (Some(_), None) => format!("{n} is not defined"),
            (None, Some(_)) => format!("{n} is defined"),
            _ => continue,
        };
        rec.fail(kind, format!("after {}: {bad}", what()));
        return false;
    }
    true
}
