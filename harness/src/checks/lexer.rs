//! lex-tiling: the tokens of any text tile it and carry the right classification.
use crate::engine::*;
use crate::spec::lex::{self, D, K};
use dune::{Diagnostic, TokenKind};

fn kind(k: TokenKind) -> K {
    match k {
        TokenKind::Punctuation => K::Punct,
        TokenKind::Operator => K::Op,
        TokenKind::Keyword => K::Kw,
        TokenKind::StringLiteral => K::Str,
        TokenKind::IntegerLiteral => K::Int,
        TokenKind::FloatLiteral => K::Float,
        TokenKind::BooleanLiteral => K::Bool,
        TokenKind::Symbol => K::Sym,
        TokenKind::Whitespace => K::Ws,
        TokenKind::Comment => K::Comment,
    }
}

pub fn one(text: &str, rec: &mut Rec) {
    let got = guard(|| dune::tokenize(text));
    let (toks, diags) = match got {
        Err(p) => {
            rec.fail("panic", format!("tokenize({text:?}) {p}"));
            return;
        }
        Ok(x) => x,
    };
    // tiling, on its own
    let mut at = 0;
    for t in &toks {
        if t.range.start() != at || t.range.end() <= at || !text.is_char_boundary(t.range.end().min(text.len())) {
            rec.fail("tiling", format!("tokens of {text:?}: {toks:?}"));
            return;
        }
        at = t.range.end();
    }
    if at != text.len() {
        rec.fail("tiling", format!("tokens of {text:?} end at {at}: {toks:?}"));
        return;
    }
    // classification
    let want = lex::lex(text);
    rec.steps(want.len() as u64);
    rec.trace();
    let got: Vec<lex::T> = toks
        .iter()
        .zip(diags.iter())
        .map(|(t, d)| lex::T {
            k: kind(t.kind),
            a: t.range.start(),
            b: t.range.end(),
            d: match d {
                Diagnostic::Valid => D::Valid,
                Diagnostic::InvalidStringEscapes(v) => D::Escapes(v.iter().map(|r| (r.start(), r.end())).collect()),
                Diagnostic::InvalidNumber(r) => D::Number(r.start(), r.end()),
                Diagnostic::IllegalChar(r) => D::Illegal(r.start(), r.end()),
                Diagnostic::NotTokenized(r) => D::Illegal(r.start(), r.end()),
            },
        })
        .collect();
    let shape: Vec<(K, u8)> = want
        .iter()
        .map(|t| {
            (
                t.k,
                match &t.d {
                    D::Valid => 0,
                    D::Escapes(_) => 1,
                    D::Number(..) => 2,
                    D::Illegal(..) => 3,
                },
            )
        })
        .collect();
    if rec.state(&shape) {
        rec.sample(|| format!("{text:?} -> {toks:?}"));
    }
    if got != want || toks.len() != diags.len() {
        rec.fail("tokens", format!("{text:?}\n got {got:?}\nwant {want:?}"));
    }
}

fn text_space(name: &str, letters: Vec<String>, lo: u32, hi: u32) -> Space {
    let k = letters.len() as u64;
    let l2 = letters.clone();
    let make = move |i: u64, l: &Vec<String>| -> String { word(i, k, lo, hi).iter().map(|&d| l[d].as_str()).collect() };
    let m2 = make.clone();
    Space::new(name, words(k, lo, hi), move |i| format!("{:?}", make(i, &l2)), move |i, r| one(&m2(i, &letters), r))
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let ascii: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    let mut printable: Vec<String> = (32u8..127).map(|b| (b as char).to_string()).collect();
    printable.extend(strs(&["\n", "\t", "é"]));
    let frag = strs(&[
        "to", "==", "!=", ">=", "<=", "&&", "||", "//", "<<", ">>", ">>>", "(", ")", "[", "]", "{", "}", "'", ",", ";",
        "=", "->", "~>", "None", "then", "else", "let", "for", "if", "in", "<", ">", "+", "-", "*", "%", "|", "@", "!",
        "True", "False", "x", "_", ".", "7", "0", "1.5", "\"", "\\", "\"s\"", "#", " ", "\n", "é", "日", "&", "/",
    ]);
    let num = strs(&["0", "1", "9", "-", ".", " ", "x", "e"]);
    let lit = strs(&["\"", "\\", "n", "u", "{", "}", "4", "D", "f", "d8", "é", " "]);
    let ops = strs(&["<", ">", "=", "!", "&", "|", "/", "-", "~", "+", " ", "a"]);
    let ws = strs(&[" ", "\t", "\n", "\r", "\x0c", "\x0b", "\u{a0}", "#", "a", "\"", "é", "𝄞", "\0"]);
    Check {
        id: "C01",
        rule: "every text of the stated spaces is tokenised by the real tokenizer and compared token by token (kind, byte range, diagnostic) with a reference lexer; the tiling is checked separately".into(),
        bounds: format!(
            "all {} ASCII texts of length <= {}; all words over 57 language fragments of length <= {}; all words over number ({}), literal ({}), operator ({}) and whitespace/comment/multi-byte ({}) alphabets up to the stated lengths",
            if q { "(printable)" } else { "(all 128)" }, 3, if q { 4 } else { 5 }, num.len(), lit.len(), ops.len(), ws.len()
        ),
        assumptions: vec!["the reference lexer in harness/src/spec/lex.rs states the language's lexical rules".into()],
        spaces: vec![
            if q { text_space("ascii", printable, 0, 3) } else { text_space("ascii", ascii, 0, 3) },
            text_space("fragments", frag, 1, if q { 4 } else { 5 }),
            text_space("numbers", num, 1, if q { 7 } else { 8 }),
            text_space("literals", lit.iter().cloned().collect(), 1, if q { 6 } else { 7 }),
            // inside a literal
            {
                let k = lit.len() as u64;
                let hi = if q { 6 } else { 7 };
                let l1 = lit.clone();
                let mk = move |i: u64| -> String { format!("a \"{}\" b", word(i, k, 0, hi).iter().map(|&d| l1[d].as_str()).collect::<String>()) };
                let mk2 = mk.clone();
                Space::new("in a literal", words(k, 0, hi), move |i| format!("{:?}", mk(i)), move |i, r| one(&mk2(i), r))
            },
            // \u{...} with every digit count and boundary code points
            {
                let mut v = vec![];
                for hex in ["", "0", "41", "1F6", "D7FF", "D800", "DFFF", "E000", "10FFF", "1F600", "FFFFF", "110000", "10FFFF", "g", "4g"] {
                    for open in ["{", "", "{{"] {
                        for close in ["}", "", "}}"] {
                            for tail in ["\"", "", "x\"", "é\" y"] {
                                v.push(format!("\"\\u{open}{hex}{close}{tail}"));
                            }
                        }
                    }
                }
                Space::list("unicode escapes", v, |t, r| one(t, r))
            },
            text_space("operators", ops, 1, if q { 6 } else { 7 }),
            text_space("whitespace and comments", ws, 1, if q { 5 } else { 6 }),
        ],
    }
}
