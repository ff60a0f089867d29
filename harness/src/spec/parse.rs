//! Reference parser: ordered choice with cuts, memoised, over the reference lexer's tokens.
use super::expr::E;
use super::lex::{lex, unescape, D, K};
use std::collections::{BTreeMap, HashMap};

/// `No`: this alternative does not apply. `Cut(i)`: the text is wrong at token `i`, no other
/// alternative may try.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    No,
    Cut(usize),
}

/// Why a text is not a program.
#[derive(Clone, Debug, PartialEq)]
pub enum Wrong {
    /// byte ranges of the malformed tokens
    Tokens(Vec<(usize, usize)>),
    /// two tokens that need whitespace in between
    Glued(usize, usize),
    /// the byte at which the text stops making sense
    At(usize),
}
use Stop::*;
type R<T = E> = Result<(T, usize), Stop>;

pub struct Parser {
    toks: Vec<(K, String)>,
    memo: HashMap<(u8, usize), R>,
    pub steps: u64,
}

/// The program a text denotes, or why it is none; and the number of rules tried.
pub fn parse(text: &str) -> (Result<E, Wrong>, u64) {
    let toks = lex(text);
    let bad: Vec<(usize, usize)> = toks
        .iter()
        .flat_map(|t| match &t.d {
            D::Valid => vec![],
            D::Escapes(v) => v.clone(),
            D::Number(a, b) | D::Illegal(a, b) => vec![(*a, *b)],
        })
        .collect();
    if !bad.is_empty() {
        return (Err(Wrong::Tokens(bad)), 0);
    }
    let wordy = |k: K| matches!(k, K::Sym | K::Kw | K::Op | K::Bool | K::Float | K::Int);
    for w in toks.windows(2) {
        if wordy(w[0].k) && wordy(w[1].k) && &text[w[0].a..w[0].b] != "@" && &text[w[1].a..w[1].b] != "@" {
            return (Err(Wrong::Glued(w[0].a, w[1].b)), 0);
        }
    }
    let toks: Vec<_> = toks.into_iter().filter(|t| !matches!(t.k, K::Ws | K::Comment)).collect();
    let at = |i: usize| Err(Wrong::At(toks.get(i).map_or(text.len(), |t| t.a)));
    let n = toks.len();
    let mut p = Parser {
        toks: toks.iter().map(|t| (t.k, text[t.a..t.b].to_string())).collect(),
        memo: HashMap::new(),
        steps: 0,
    };
    let r = match p.script(0) {
        Ok((v, i)) if i == n => Ok(E::Do(v)),
        Ok((_, i)) | Err(Cut(i)) => at(i),
        Err(No) => unreachable!(),
    };
    (r, p.steps)
}

impl Parser {
    fn is(&self, i: usize, t: &str) -> bool {
        self.toks.get(i).is_some_and(|x| x.1 == t)
    }
    fn kind(&self, i: usize, k: K) -> Option<&str> {
        self.toks.get(i).filter(|x| x.0 == k).map(|x| x.1.as_str())
    }
    /// `op1` or `op2` ... at i
    fn any(&self, i: usize, ops: &[&str]) -> Option<String> {
        ops.iter().find(|o| self.is(i, o)).map(|o| o.to_string())
    }
    fn name(&self, i: usize) -> Option<String> {
        self.kind(i, K::Sym).or(self.kind(i, K::Op)).map(|s| s.to_string())
    }
    /// Nothing can start with a closing or separating mark.
    fn starts(&self, i: usize) -> Result<(), Stop> {
        match self.toks.get(i) {
            Some((K::Punct, t)) if matches!(t.as_str(), ";" | "," | "=" | "]" | ")" | "}") => Err(No),
            _ => Ok(()),
        }
    }
    fn memo(&mut self, rule: u8, i: usize, f: fn(&mut Parser, usize) -> R) -> R {
        if let Some(r) = self.memo.get(&(rule, i)) {
            return r.clone();
        }
        self.steps += 1;
        let r = f(self, i);
        self.memo.insert((rule, i), r.clone());
        r
    }
    fn many(&mut self, mut i: usize, f: fn(&mut Parser, usize) -> R) -> Result<(Vec<E>, usize), Stop> {
        let mut v = vec![];
        loop {
            match f(self, i) {
                Ok((e, j)) => {
                    v.push(e);
                    i = j
                }
                Err(No) => return Ok((v, i)),
                Err(Cut(c)) => return Err(Cut(c)),
            }
        }
    }
    /// (op operand)*, folded to the left; every application is parenthesised
    fn left(&mut self, i: usize, ops: &[&str], f: fn(&mut Parser, usize) -> R) -> Result<(E, usize, bool), Stop> {
        let (mut head, mut i) = f(self, i)?;
        let mut any = false;
        while let Some(op) = self.any(i, ops) {
            match f(self, i + 1) {
                Ok((rhs, j)) => {
                    head = E::Group(Box::new(E::call(&op, vec![head, rhs])));
                    i = j;
                    any = true;
                }
                Err(No) => break,
                Err(Cut(c)) => return Err(Cut(c)),
            }
        }
        Ok((head, i, any))
    }

    fn script(&mut self, i: usize) -> R<Vec<E>> {
        let mut v = vec![];
        let mut i = i;
        loop {
            match self.expr(i) {
                Ok((e, j)) => {
                    let free = matches!(e, E::For(..) | E::If(..));
                    v.push(e);
                    if self.is(j, ";") {
                        i = j + 1
                    } else if free {
                        i = j
                    } else {
                        return Ok((v, j));
                    }
                }
                Err(No) => return Ok((v, i)),
                Err(Cut(c)) => return Err(Cut(c)),
            }
        }
    }

    fn expr(&mut self, i: usize) -> R {
        self.memo(0, i, |p, i| {
            p.starts(i)?;
            let (head, mut i) = p.seven(i)?;
            let mut args = vec![head];
            while let Some(op) = p.any(i, &["|", ">>>", ">>", "<<"]) {
                let (item, j) = match p.seven(i + 1) {
                    Ok(x) => x,
                    Err(No) => break,
                    Err(Cut(c)) => return Err(Cut(c)),
                };
                i = j;
                match op.as_str() {
                    "|" => args.push(item),
                    "<<" => {
                        let last = args.pop().unwrap();
                        args.push(E::call("<<", vec![item]));
                        args.push(last);
                    }
                    op => args.push(E::call(op, vec![item])),
                }
            }
            if args.len() == 1 {
                return Ok((args.pop().unwrap(), i));
            }
            Ok((E::Group(Box::new(E::call("|", args))), i))
        })
    }

    fn seven(&mut self, i: usize) -> R {
        self.memo(1, i, |p, i| {
            p.starts(i)?;
            for alt in [Parser::for_, Parser::if_, Parser::let_, Parser::callable, Parser::apply, Parser::op_alone, Parser::six] {
                match alt(p, i) {
                    Err(No) => {}
                    r => return r,
                }
            }
            Err(No)
        })
    }

    fn for_(&mut self, i: usize) -> R {
        if !self.is(i, "for") {
            return Err(No);
        }
        let var = self.kind(i + 1, K::Sym).ok_or(Cut(i + 1))?.to_string();
        if !self.is(i + 2, "in") {
            return Err(Cut(i + 2));
        }
        let (list, j) = self.range_or_sum(i + 3).map_err(|_| Cut(i + 3))?;
        let (body, j) = self.block(j).map_err(|_| Cut(j))?;
        Ok((E::For(var, Box::new(list), Box::new(body)), j))
    }

    fn range_or_sum(&mut self, i: usize) -> R {
        let (a, j) = self.four(i)?;
        if self.is(j, "to") {
            let (b, j) = self.four(j + 1).map_err(|_| Cut(j + 1))?;
            return Ok((E::call("to", vec![a, b]), j));
        }
        Ok((a, j))
    }

    fn if_(&mut self, i: usize) -> R {
        if !self.is(i, "if") {
            return Err(No);
        }
        let (c, j) = self.six(i + 1).map_err(|_| Cut(i + 1))?;
        let (t, j) = self.four(j).map_err(|_| Cut(j))?;
        let mut e = E::None;
        let mut end = j;
        if self.is(j, "else") {
            let r = match self.if_(j + 1) {
                Err(No) => self.four(j + 1),
                r => r,
            };
            match r {
                Ok((x, k)) => {
                    e = E::Group(Box::new(x));
                    end = k
                }
                Err(No) => {}
                Err(Cut(c)) => return Err(Cut(c)),
            }
        }
        Ok((E::If(Box::new(c), Box::new(t), Box::new(e)), end))
    }

    fn let_(&mut self, i: usize) -> R {
        if !self.is(i, "let") {
            return Err(No);
        }
        let n = self.name(i + 1).ok_or(Cut(i + 1))?;
        if !self.is(i + 2, "=") {
            return Err(Cut(i + 2));
        }
        let (e, j) = self.expr(i + 3)?;
        Ok((E::Assign(n, Box::new(e)), j))
    }

    fn callable(&mut self, i: usize) -> R {
        let Some(p) = self.kind(i, K::Sym).map(|s| s.to_string()) else { return Err(No) };
        let Some(arrow) = self.any(i + 1, &["->", "~>"]) else { return Err(No) };
        let (b, j) = self.expr(i + 2).map_err(|_| Cut(i + 2))?;
        Ok((if arrow == "->" { E::Lam(p, Box::new(b), BTreeMap::new()) } else { E::Mac(p, Box::new(b)) }, j))
    }

    fn apply(&mut self, i: usize) -> R {
        let (f, j) = match self.two(i) {
            Err(No) => match self.kind(i, K::Op) {
                Some(o) => (E::sym(o), i + 1),
                Option::None => return Err(No),
            },
            r => r?,
        };
        let (args, j) = self.many(j, Parser::five)?;
        if args.is_empty() {
            return Err(No);
        }
        Ok((E::apply(f, args), j))
    }

    fn op_alone(&mut self, i: usize) -> R {
        let Some(o) = self.kind(i, K::Op) else { return Err(No) };
        Ok((E::sym(o), i + 1))
    }

    fn six(&mut self, i: usize) -> R {
        self.memo(2, i, |p, i| {
            p.starts(i)?;
            let (e, j, _) = p.left(i, &["&&", "||"], Parser::five)?;
            Ok((e, j))
        })
    }

    fn five(&mut self, i: usize) -> R {
        self.memo(3, i, |p, i| {
            p.starts(i)?;
            // negation of a sum
            if p.is(i, "!") {
                let (e, j) = p.four(i + 1)?;
                return Ok((E::call("!", vec![e]), j));
            }
            let (head, j, any) = p.left(i, &["==", "!=", ">=", "<=", ">", "<"], Parser::four)?;
            if !any && p.is(j, "to") {
                let (b, j) = p.four(j + 1).map_err(|_| Cut(j + 1))?;
                return Ok((E::call("to", vec![head, b]), j));
            }
            Ok((head, j))
        })
    }

    fn four(&mut self, i: usize) -> R {
        self.memo(4, i, |p, i| {
            p.starts(i)?;
            let (e, j, _) = p.left(i, &["+", "-"], Parser::three)?;
            Ok((e, j))
        })
    }

    fn three(&mut self, i: usize) -> R {
        self.memo(5, i, |p, i| {
            p.starts(i)?;
            let (e, j, _) = p.left(i, &["*", "//", "%"], Parser::two)?;
            Ok((e, j))
        })
    }

    fn two(&mut self, i: usize) -> R {
        self.memo(6, i, |p, i| {
            p.starts(i)?;
            let (head, mut i) = p.one(i)?;
            let mut all = vec![head];
            while p.is(i, "@") {
                match p.one(i + 1) {
                    Ok((e, j)) => {
                        all.push(e);
                        i = j
                    }
                    Err(Cut(c)) => return Err(Cut(c)),
                    Err(No) => match p.kind(i + 1, K::Op) {
                        Some(o) => {
                            all.push(E::sym(o));
                            i += 2
                        }
                        Option::None => break,
                    },
                }
            }
            if all.len() == 1 {
                return Ok((all.pop().unwrap(), i));
            }
            Ok((E::call("@", all), i))
        })
    }

    fn block(&mut self, i: usize) -> R {
        if !self.is(i, "{") {
            return Err(No);
        }
        let (v, j) = self.script(i + 1)?;
        if !self.is(j, "}") {
            return Err(Cut(j));
        }
        Ok((E::Do(v), j + 1))
    }

    /// `,`-separated items; a separator that no item follows is left alone
    fn table(&mut self, i: usize) -> R {
        let mut m = BTreeMap::new();
        let mut n = 0;
        let mut i = i + 1;
        loop {
            let at = if n == 0 { i } else { i + 1 };
            if n > 0 && !self.is(i, ",") {
                break;
            }
            let (Some(k), true) = (self.name(at), self.is(at + 1, "=")) else { break };
            match self.expr(at + 2) {
                Ok((e, j)) => {
                    m.insert(k, e);
                    n += 1;
                    i = j
                }
                Err(No) => break,
                Err(Cut(c)) => return Err(Cut(c)),
            }
        }
        if self.is(i, "}") {
            Ok((E::Map(m), i + 1))
        } else {
            Err(if n == 0 { No } else { Cut(i) })
        }
    }

    fn one(&mut self, i: usize) -> R {
        self.memo(7, i, |p, i| {
            if p.is(i, "(") {
                match p.expr(i + 1) {
                    Ok((e, j)) => {
                        // the last parenthesis of a text may be left out
                        return if p.is(j, ")") {
                            Ok((E::Group(Box::new(e)), j + 1))
                        } else if j == p.toks.len() {
                            Ok((E::Group(Box::new(e)), j))
                        } else {
                            Err(Cut(j))
                        };
                    }
                    Err(Cut(c)) => return Err(Cut(c)),
                    Err(No) => {}
                }
            }
            if p.is(i, "'") {
                let (e, j) = p.two(i + 1)?;
                return Ok((E::Quote(Box::new(e)), j));
            }
            if p.is(i, "{") {
                return match p.table(i) {
                    Err(No) => p.block(i),
                    r => r,
                };
            }
            if p.is(i, "[") {
                let mut v = vec![];
                let mut j = i + 1;
                loop {
                    let at = if v.is_empty() { j } else { j + 1 };
                    if !v.is_empty() && !p.is(j, ",") {
                        break;
                    }
                    match p.expr(at) {
                        Ok((e, k)) => {
                            v.push(e);
                            j = k
                        }
                        Err(No) => break,
                        Err(Cut(c)) => return Err(Cut(c)),
                    }
                }
                return if p.is(j, "]") { Ok((E::List(v), j + 1)) } else { Err(Cut(j)) };
            }
            let Some((k, t)) = p.toks.get(i).cloned() else { return Err(No) };
            let e = match k {
                K::Bool => E::Bool(t == "True"),
                K::Float => E::Flt(t.parse().map_err(|_| Cut(i))?),
                K::Int => E::Int(t.parse().map_err(|_| Cut(i))?),
                K::Str => E::Str(unescape(&t)),
                K::Sym => E::Sym(t),
                _ if t == "None" => E::None,
                _ if t == "(" && p.is(i + 1, ")") => return Ok((E::None, i + 2)),
                _ => return Err(No),
            };
            Ok((e, i + 1))
        })
    }
}
