//! The models' own expression type, and the conversions to and from the implementation's.
use dune::Expression as X;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum E {
    None,
    Int(i64),
    Flt(f64),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Sym(String),
    List(Vec<E>),
    Map(BTreeMap<String, E>),
    Group(Box<E>),
    Quote(Box<E>),
    Assign(String, Box<E>),
    For(String, Box<E>, Box<E>),
    If(Box<E>, Box<E>, Box<E>),
    Apply(Box<E>, Vec<E>),
    /// parameter, body, captured variables
    Lam(String, Box<E>, BTreeMap<String, E>),
    Mac(String, Box<E>),
    Do(Vec<E>),
    Builtin(String),
}
use E::*;

/// Equality of what a user can see: captured variables are not part of it.
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        match (self, o) {
            (None, None) => true,
            (Int(a), Int(b)) => a == b,
            (Flt(a), Flt(b)) => a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan()),
            (Bool(a), Bool(b)) => a == b,
            (Str(a), Str(b)) | (Sym(a), Sym(b)) | (Builtin(a), Builtin(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (List(a), List(b)) | (Do(a), Do(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Group(a), Group(b)) | (Quote(a), Quote(b)) => a == b,
            (Assign(n, a), Assign(m, b)) | (Mac(n, a), Mac(m, b)) => n == m && a == b,
            (Lam(n, a, _), Lam(m, b, _)) => n == m && a == b,
            (For(n, a, b), For(m, c, d)) => n == m && a == c && b == d,
            (If(a, b, c), If(d, e, f)) => a == d && b == e && c == f,
            (Apply(f, a), Apply(g, b)) => f == g && a == b,
            _ => false,
        }
    }
}

impl E {
    pub fn from_impl(x: &X) -> E {
        let f = |x: &X| Box::new(E::from_impl(x));
        let l = |v: &[X]| v.iter().map(E::from_impl).collect::<Vec<_>>();
        match x {
            X::None => None,
            X::Integer(i) => Int(*i),
            X::Float(x) => Flt(*x),
            X::Boolean(b) => Bool(*b),
            X::String(s) => Str(s.clone()),
            X::Bytes(b) => Bytes(b.clone()),
            X::Symbol(s) => Sym(s.clone()),
            X::List(v) => List(l(v)),
            X::Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), E::from_impl(v))).collect()),
            X::Group(e) => Group(f(e)),
            X::Quote(e) => Quote(f(e)),
            X::Assign(n, e) => Assign(n.clone(), f(e)),
            X::For(n, a, b) => For(n.clone(), f(a), f(b)),
            X::If(a, b, c) => If(f(a), f(b), f(c)),
            X::Apply(g, a) => Apply(f(g), l(a)),
            X::Lambda(p, b, _) => Lam(p.clone(), f(b), BTreeMap::new()),
            X::Macro(p, b) => Mac(p.clone(), f(b)),
            X::Do(v) => Do(l(v)),
            X::Builtin(b) => Builtin(b.name.clone()),
        }
    }

    /// Into the implementation's type. Builtins are looked up by the caller, not here.
    pub fn to_impl(&self) -> X {
        let f = |x: &E| Box::new(x.to_impl());
        let l = |v: &[E]| v.iter().map(E::to_impl).collect::<Vec<_>>();
        match self {
            None => X::None,
            Int(i) => X::Integer(*i),
            Flt(x) => X::Float(*x),
            Bool(b) => X::Boolean(*b),
            Str(s) => X::String(s.clone()),
            Bytes(b) => X::Bytes(b.clone()),
            Sym(s) => X::Symbol(s.clone()),
            List(v) => X::List(l(v)),
            Map(m) => X::Map(m.iter().map(|(k, v)| (k.clone(), v.to_impl())).collect()),
            Group(e) => X::Group(f(e)),
            Quote(e) => X::Quote(f(e)),
            Assign(n, e) => X::Assign(n.clone(), f(e)),
            For(n, a, b) => X::For(n.clone(), f(a), f(b)),
            If(a, b, c) => X::If(f(a), f(b), f(c)),
            Apply(g, a) => X::Apply(f(g), l(a)),
            Lam(p, b, _) => X::Lambda(p.clone(), f(b), dune::Environment::new()),
            Mac(p, b) => X::Macro(p.clone(), f(b)),
            Do(v) => X::Do(l(v)),
            Builtin(_) => panic!("builtins cannot be built from the model"),
        }
    }

    pub fn sym(s: &str) -> E {
        Sym(s.into())
    }
    pub fn str(s: &str) -> E {
        Str(s.into())
    }
    pub fn apply(f: E, a: Vec<E>) -> E {
        Apply(Box::new(f), a)
    }
    pub fn call(f: &str, a: Vec<E>) -> E {
        Apply(Box::new(E::sym(f)), a)
    }
    pub fn ints(v: impl IntoIterator<Item = i64>) -> E {
        List(v.into_iter().map(Int).collect())
    }
    pub fn map(v: &[(&str, E)]) -> E {
        Map(v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
    }

    /// Number of nodes.
    pub fn size(&self) -> u64 {
        1 + match self {
            List(v) | Do(v) => v.iter().map(E::size).sum(),
            Map(m) => m.values().map(E::size).sum(),
            Group(e) | Quote(e) | Assign(_, e) | Mac(_, e) | Lam(_, e, _) => e.size(),
            For(_, a, b) => a.size() + b.size(),
            If(a, b, c) => a.size() + b.size() + c.size(),
            Apply(f, a) => f.size() + a.iter().map(E::size).sum::<u64>(),
            _ => 0,
        }
    }

    /// The text of a value as `debug` prints it.
    pub fn debug(&self) -> String {
        let js = |v: &[E], s: &str| v.iter().map(E::debug).collect::<Vec<_>>().join(s);
        match self {
            None => "None".into(),
            Int(i) => i.to_string(),
            Flt(x) => x.to_string(),
            Bool(b) => if *b { "True" } else { "False" }.into(),
            Str(s) => format!("{:?}", s),
            Bytes(b) => format!("b{:?}", b),
            Sym(s) => s.clone(),
            List(v) => format!("[{}]", js(v, ", ")),
            Map(m) => format!(
                "{{{}}}",
                m.iter().map(|(k, v)| format!("{}: {}", k, v.debug())).collect::<Vec<_>>().join(", ")
            ),
            Group(e) => format!("({})", e.debug()),
            Quote(e) => format!("'{}", e.debug()),
            Assign(n, e) => format!("let {} = {}", n, e.debug()),
            For(n, a, b) => format!("for {} in {} {}", n, a.debug(), b.debug()),
            If(a, b, c) => format!("if {} {} else {}", a.debug(), b.debug(), c.debug()),
            Apply(f, a) => format!("{} {}", f.debug(), js(a, " ")),
            Lam(p, b, _) => format!("{} -> {}", p, b.debug()),
            Mac(p, b) => format!("{} ~> {}", p, b.debug()),
            Do(v) => format!("{{ {} }}", js(v, "; ")),
            Builtin(n) => format!("builtin@{}", n),
        }
    }

    /// The text of a value as it is printed; lists and tables (drawn as boxes) excluded.
    pub fn display(&self) -> Option<String> {
        Some(match self {
            Str(s) => s.clone(),
            List(_) | Map(_) => return Option::None,
            other => other.debug(),
        })
    }

    pub fn truthy(&self) -> bool {
        match self {
            Int(i) => *i != 0,
            Flt(x) => *x != 0.0,
            Bool(b) => *b,
            Str(s) => !s.is_empty(),
            Bytes(b) => !b.is_empty(),
            List(v) => !v.is_empty(),
            Map(m) => !m.is_empty(),
            Lam(..) | Mac(..) | Builtin(_) => true,
            _ => false,
        }
    }
}
