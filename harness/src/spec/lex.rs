//! Reference lexer: at every position, the first rule of a fixed list that applies.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Punct,
    Op,
    Kw,
    Str,
    Int,
    Float,
    Bool,
    Sym,
    Ws,
    Comment,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum D {
    Valid,
    Escapes(Vec<(usize, usize)>),
    Number(usize, usize),
    Illegal(usize, usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct T {
    pub k: K,
    pub a: usize,
    pub b: usize,
    pub d: D,
}

pub fn word_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || "_+-.~\\/?&<>$%#^:".contains(c)
}

const LONG_OPS: &[&str] = &["to", "==", "!=", ">=", "<=", "&&", "||", "//", "<<", ">>", ">>>"];
const PUNCT: &[&str] = &["(", ")", "[", "]", "{", "}", "'", ",", ";", "="];
const ARROWS: &[&str] = &["->", "~>"];
const KEYWORDS: &[&str] = &["None", "then", "else", "let", "for", "if", "in"];
const SHORT_OPS: &[&str] = &["<", ">", "+", "-", "*", "%", "|"];

pub fn lex(s: &str) -> Vec<T> {
    let mut out = vec![];
    let mut p = 0;
    while p < s.len() {
        let t = one(s, p);
        assert!(t.b > p);
        p = t.b;
        out.push(t);
    }
    out
}

fn one(s: &str, p: usize) -> T {
    let r = &s[p..];
    // a word that must end here: the next character may not continue a symbol
    let whole = |w: &&str| r.starts_with(*w) && !r[w.len()..].starts_with(word_char);
    let tok = |k: K, n: usize| T { k, a: p, b: p + n, d: D::Valid };
    let first = r.chars().next().unwrap();

    if let Some(w) = LONG_OPS.iter().find(|w| whole(w)) {
        return tok(K::Op, w.len());
    }
    if let Some(w) = PUNCT.iter().find(|w| r.starts_with(**w)) {
        return tok(K::Punct, w.len());
    }
    if let Some(w) = ARROWS.iter().find(|w| whole(w)) {
        return tok(K::Punct, w.len());
    }
    if let Some(w) = KEYWORDS.iter().find(|w| whole(w)) {
        return tok(K::Kw, w.len());
    }
    if let Some(w) = SHORT_OPS.iter().find(|w| whole(w)) {
        return tok(K::Op, w.len());
    }
    if first == '@' || first == '!' {
        return tok(K::Op, 1);
    }
    if let Some(w) = ["True", "False"].iter().find(|w| whole(w)) {
        return tok(K::Bool, w.len());
    }
    if first == '#' {
        let n = r.find(['\r', '\n']).unwrap_or(r.len());
        return tok(K::Comment, n);
    }
    if first == '"' {
        return string(s, p);
    }
    if let Some(t) = number(r, p) {
        return t;
    }
    let n: usize = r.chars().take_while(|c| word_char(*c)).map(|c| c.len_utf8()).sum();
    if n > 0 {
        return tok(K::Sym, n);
    }
    let n = r.chars().take_while(|c| c.is_ascii_whitespace()).count();
    if n > 0 {
        return tok(K::Ws, n);
    }
    let n = first.len_utf8();
    T { k: K::Sym, a: p, b: p + n, d: D::Illegal(p, p + n) }
}

fn number(r: &str, p: usize) -> Option<T> {
    let b = r.as_bytes();
    let mut i = 0;
    if b[0] == b'-' {
        i = 1
    }
    let digits = |mut i: usize| {
        let s = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1
        }
        i - s
    };
    if i >= b.len() || !b[i].is_ascii_digit() {
        return None;
    }
    // a leading zero stands alone
    i += if b[i] == b'0' { 1 } else { digits(i) };
    if i < b.len() && b[i] == b'.' {
        let n = digits(i + 1);
        let e = i + 1 + n;
        let d = if n == 0 { D::Number(p, p + e) } else { D::Valid };
        return Some(T { k: K::Float, a: p, b: p + e, d });
    }
    Some(T { k: K::Int, a: p, b: p + i, d: D::Valid })
}

/// A string runs to the next unescaped quote, or to the end of the text.
fn string(s: &str, p: usize) -> T {
    let mut bad = vec![];
    let mut i = p + 1;
    loop {
        let Some(c) = s[i..].chars().next() else { break };
        if c == '"' {
            i += 1;
            break;
        }
        if c != '\\' {
            i += c.len_utf8();
            continue;
        }
        let start = i;
        let Some(e) = s[i + 1..].chars().next() else {
            bad.push((start, s.len()));
            i = s.len();
            break;
        };
        if "\"\\bfnrt".contains(e) {
            i += 2;
            continue;
        }
        if e == 'u' && s[i + 2..].starts_with('{') {
            let hex: usize = s[i + 3..].chars().take(5).take_while(|c| c.is_ascii_hexdigit()).count();
            if hex > 0 {
                let (h0, h1) = (i + 3, i + 3 + hex);
                let code = u32::from_str_radix(&s[h0..h1], 16).unwrap();
                if char::from_u32(code).is_none() {
                    bad.push((h0, h1));
                    i = h1;
                } else if s[h1..].starts_with('}') {
                    i = h1 + 1;
                } else {
                    bad.push((start, h1));
                    i = h1;
                }
                continue;
            }
        }
        // not an escape: the backslash and the character behind it
        i += 1 + e.len_utf8();
        bad.push((start, i));
    }
    let d = if bad.is_empty() { D::Valid } else { D::Escapes(bad) };
    T { k: K::Str, a: p, b: i, d }
}

/// The contents of a valid string literal.
pub fn unescape(lit: &str) -> String {
    let mut out = String::new();
    let mut it = lit[1..].chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next().unwrap() {
                'b' => out.push('\u{8}'),
                'f' => out.push('\u{c}'),
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                'u' => {
                    it.next();
                    let mut code = 0;
                    for h in it.by_ref() {
                        if h == '}' {
                            break;
                        }
                        code = code * 16 + h.to_digit(16).unwrap();
                    }
                    out.push(char::from_u32(code).unwrap())
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    out
}
