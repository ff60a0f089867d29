//! C33: environments as an embedding program uses them, in every history of operations
//! on two of them, against scopes in a list.
use super::util::*;
use crate::engine::*;
use crate::spec::expr::E;
use dune::{Environment, Expression as X};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// The scopes of an environment, the nearest first.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Scopes(Vec<BTreeMap<String, V>>);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum V {
    Int(i64),
    Text(&'static str),
    /// a table with the one entry `k`
    Module(i64),
    Builtin,
    /// a function that ignores what it is given and gives `x`, which it saw as this
    Gives(Option<Box<V>>),
}

impl Scopes {
    fn get(&self, n: &str) -> Option<&V> {
        self.0.iter().find_map(|s| s.get(n))
    }
    fn set(&mut self, n: &str, v: V) {
        self.0[0].insert(n.into(), v);
    }
    fn cwd(&self) -> &'static str {
        match self.get("CWD") {
            Some(V::Text(t)) => t,
            _ => "/",
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Define(usize, &'static str, i64),
    Undefine(usize, &'static str),
    Cwd(usize, &'static str),
    Define3(usize, &'static str),
    Parent(usize),
    Copy(usize),
    New(usize),
    Let(usize),
    Function(usize),
    Call(usize),
    Loop(usize),
}

/// On either environment; the first ones also on the other.
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for s in 0..2 {
        v.extend([
            Op::Define(s, "x", 1 + s as i64),
            Op::Undefine(s, "x"),
            Op::Cwd(s, ["/p", "/q"][s]),
            Op::Parent(s),
            Op::Copy(s),
            Op::Let(s),
            Op::Function(s),
            Op::Call(s),
        ]);
    }
    v.extend([Op::Define(0, "CWD", 3), Op::Undefine(1, "CWD"), Op::Define3(0, "x"), Op::New(0), Op::Loop(1), Op::Undefine(0, "f")]);
    v
}

fn two(env: &mut [Environment; 2], s: usize) -> (&mut Environment, &Environment) {
    let (a, b) = env.split_at_mut(1);
    if s == 0 {
        (&mut a[0], &b[0])
    } else {
        (&mut b[0], &a[0])
    }
}

fn shows(v: &V, x: &X) -> bool {
    match (v, x) {
        (V::Int(n), X::Integer(m)) => n == m,
        (V::Text(t), X::String(s)) => t == s,
        (V::Module(n), X::Map(m)) => m.len() == 1 && m.get("k") == Some(&X::Integer(*n)),
        (V::Builtin, X::Builtin(_)) => true,
        (V::Gives(_), X::Lambda(..)) => true,
        _ => false,
    }
}

thread_local! {
    static DEFINED: X = match full_env("/").get("sys") {
        Some(X::Map(m)) => m["defined?"].clone(),
        _ => panic!("no sys"),
    };
}

fn compare(env: &Environment, m: &Scopes) -> Result<(), String> {
    for n in ["x", "y", "f", "i", "CWD", "m", "nothing", ""] {
        let (want, got) = (m.get(n), env.get(n));
        let same = match (want, &got) {
            (Some(v), Some(x)) => shows(v, x),
            (None, None) => true,
            _ => false,
        };
        if !same || env.is_defined(n) != want.is_some() {
            return Err(format!("{n:?} is {:?}, defined {}, not {want:?}", got.map(|x| format!("{x:?}")), env.is_defined(n)));
        }
    }
    // a program in it sees the same
    for n in ["x", "f", "nothing"] {
        let mut e = env.clone();
        let asked = DEFINED.with(|d| X::Apply(Box::new(d.clone()), vec![X::Symbol(n.into())]).eval(&mut e));
        if asked != Ok(X::Boolean(m.get(n).is_some())) {
            return Err(format!("sys@defined? {n} is {asked:?}"));
        }
    }
    if env.get_cwd() != m.cwd() {
        return Err(format!("the directory is {:?}, not {:?}", env.get_cwd(), m.cwd()));
    }
    // its own scope alone
    let own = |b: &BTreeMap<String, X>| b.len() == m.0[0].len() && b.iter().all(|(k, x)| m.0[0].get(k).is_some_and(|v| shows(v, x)));
    if !own(&env.bindings) {
        return Err(format!("its own scope has {:?}, not {:?}", env.bindings.keys(), m.0[0]));
    }
    match X::from(env.clone()) {
        X::Map(b) if own(&b) => Ok(()),
        x => Err(format!("as a table it is {x:?}")),
    }
}

/// What a variable is after `let x = 7` or the like.
fn step(op: Op, env: &mut [Environment; 2], m: &mut [Scopes; 2]) -> Result<(), String> {
    let run = |env: &mut Environment, text: &str| -> Result<X, String> {
        let e = src(text);
        guard(|| e.eval(env)).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("{text}: {e:?}"))
    };
    match op {
        Op::Define(s, n, v) => {
            env[s].define(n, X::Integer(v));
            m[s].set(n, V::Int(v));
        }
        Op::Undefine(s, n) => {
            env[s].undefine(n);
            m[s].0[0].remove(n);
        }
        Op::Cwd(s, d) => {
            env[s].set_cwd(d);
            m[s].set("CWD", V::Text(d));
        }
        Op::Define3(s, n) => {
            env[s].define_module("m", BTreeMap::from([("k", X::Integer(5))]));
            m[s].set("m", V::Module(5));
            env[s].define_builtin(n, |_, _| Ok(X::None), "help");
            m[s].set(n, V::Builtin);
        }
        Op::Parent(s) => {
            let (a, b) = two(env, s);
            a.set_parent(b.clone());
            let above = m[1 - s].0.clone();
            m[s].0.truncate(1);
            m[s].0.extend(above);
        }
        Op::Copy(s) => {
            let (a, b) = two(env, s);
            *a = b.clone();
            m[s] = m[1 - s].clone();
        }
        Op::New(s) => {
            env[s] = Environment::new();
            m[s] = Scopes(vec![Default::default()]);
        }
        Op::Let(s) => {
            run(&mut env[s], "{let y = x; let x = 7}")?;
            let y = m[s].get("x").cloned();
            // a name without a meaning means itself
            match y {
                Some(v) => m[s].set("y", v),
                None => {
                    if env[s].get("y") != Some(X::Symbol("x".into())) {
                        return Err("y is not the name x".into());
                    }
                    env[s].undefine("y");
                    m[s].0[0].remove("y");
                }
            }
            m[s].set("x", V::Int(7));
        }
        Op::Function(s) => {
            run(&mut env[s], "let f = i -> x")?;
            let x = m[s].get("x").cloned().map(Box::new);
            m[s].set("f", V::Gives(x));
        }
        Op::Call(s) => {
            if let Some(V::Gives(x)) = m[s].get("f").cloned() {
                let got = run(&mut env[s], "f 1")?;
                let same = match &x {
                    Some(v) => shows(v, &got),
                    None => got == X::Symbol("x".into()),
                };
                if !same {
                    return Err(format!("f gives {got:?}, not {x:?}"));
                }
            } else if run(&mut env[s], "(i ~> {let y = i}) 9")? == X::None {
                m[s].set("i", V::Int(9));
                m[s].set("y", V::Int(9));
            }
        }
        Op::Loop(s) => {
            let got = run(&mut env[s], "for i in [1, 2] {i}")?;
            if E::from_impl(&got) != E::List(vec![E::Int(1), E::Int(2)]) {
                return Err(format!("the loop gives {got:?}"));
            }
            m[s].set("i", V::Int(2));
        }
    }
    Ok(())
}

pub fn check(tier: Tier) -> Check {
    let ops = Rc::new(ops());
    let k = ops.len() as u64;
    let depth = if tier == Tier::Quick { 4 } else { 5 };
    let held: Rc<RefCell<()>> = Default::default();
    let o2 = ops.clone();
    let histories = Space::new(
        "histories",
        words(k, 1, depth),
        move |i| format!("{:?}", word(i, k, 1, depth).iter().map(|&o| o2[o]).collect::<Vec<_>>()),
        move |i, rec| {
            let _ = &held;
            let mut env = [Environment::new(), Environment::default()];
            let mut m = [Scopes(vec![Default::default()]), Scopes(vec![Default::default()])];
            for &o in &word(i, k, 1, depth) {
                rec.step();
                let before = m.clone();
                if let Err(e) = step(ops[o], &mut env, &mut m) {
                    return rec.fail("evaluation", format!("{:?} in {before:?}: {e}", ops[o]));
                }
                for s in 0..2 {
                    if let Err(e) = compare(&env[s], &m[s]) {
                        return rec.fail("scope", format!("{:?} in {before:?}: in environment {s}, {e}", ops[o]));
                    }
                }
            }
            rec.state(&m);
            rec.trace();
        },
    );
    // chains of many scopes, each of which defines some of the names
    let cases: Vec<(usize, u64)> = (1..=if tier == Tier::Quick { 9 } else { 12 }).flat_map(|n| (0..1u64 << n).map(move |b| (n, b))).chain([(200, 1), (200, 0), (1000, 1)]).collect();
    let chains = Space::list("chains", cases, |&(n, own), rec| {
        let mut env = Environment::new();
        let mut m = Scopes(vec![]);
        // the farthest first
        for d in (0..n).rev() {
            let mut e = Environment::new();
            let mut s = BTreeMap::new();
            if d < 64 && own >> d & 1 == 1 {
                e.define("x", X::Integer(d as i64));
                s.insert("x".to_string(), V::Int(d as i64));
            }
            if d + 1 < n {
                e.set_parent(env)
            }
            m.0.insert(0, s);
            env = e;
        }
        rec.step();
        if let Err(e) = compare(&env, &m) {
            return rec.fail("chain", format!("{n} scopes of which {own:b} define x: {e}"));
        }
        env.define("x", X::Integer(-1));
        m.set("x", V::Int(-1));
        let r = compare(&env, &m);
        env.undefine("x");
        m.0[0].remove("x");
        if let Err(e) = r.and_then(|_| compare(&env, &m)) {
            return rec.fail("chain", format!("{n} scopes of which {own:b} define x, defined and undefined: {e}"));
        }
        rec.state(&(n, own));
        rec.trace();
    });
    Check {
        id: "C33",
        rule: "every history of operations on two environments (defining, removing, moving, copying, one as the parent of the other, assigning, loops, functions made in one and called in either): every name, the directory and the own scope of both are those of scopes in a list; every chain of scopes of which some define a name".into(),
        bounds: format!("histories of 1-{depth} of {k} operations on two environments; chains of up to {} scopes", if tier == Tier::Quick { 9 } else { 12 }),
        assumptions: vec![],
        spaces: vec![histories, chains],
    }
}
