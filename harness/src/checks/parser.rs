//! parse-structure: the program a text denotes, or the place where it is wrong.
//! parse-total: any text is answered promptly with a program or with a report that can be shown.
use crate::engine::*;
use crate::spec::expr::E;
use crate::spec::parse::{parse, Wrong};
use dune::{Diagnostic, Error, SyntaxError};

type Got = Result<dune::Expression, SyntaxError>;

fn run(text: &str) -> Result<Got, String> {
    guard(|| match dune::parse_script(text) {
        Ok(x) => Ok(x),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(e),
        Err(nom::Err::Incomplete(_)) => Err(SyntaxError::InternalError),
    })
}

/// The byte ranges an error points to.
fn places(e: &SyntaxError) -> Vec<(usize, usize)> {
    match e {
        SyntaxError::Expected { input, .. } => vec![(input.start(), input.end())],
        SyntaxError::TokenizationErrors(v) => v
            .iter()
            .flat_map(|d| match d {
                Diagnostic::Valid => vec![],
                Diagnostic::InvalidStringEscapes(v) => v.iter().map(|r| (r.start(), r.end())).collect(),
                Diagnostic::InvalidNumber(r) | Diagnostic::IllegalChar(r) | Diagnostic::NotTokenized(r) => {
                    vec![(r.start(), r.end())]
                }
            })
            .collect(),
        SyntaxError::ExpectedChar { at, .. } => at.iter().map(|r| (r.start(), r.end())).collect(),
        SyntaxError::NomError { at, cause, .. } => {
            let mut v: Vec<_> = at.iter().map(|r| (r.start(), r.end())).collect();
            if let Some(c) = cause {
                v.extend(places(c))
            }
            v
        }
        SyntaxError::InternalError => vec![],
    }
}

pub fn strip_sgr(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            out.push(c)
        }
    }
    out
}

/// The report of a syntax error names the line of every place and shows its text.
fn report(text: &str, e: &SyntaxError, rec: &mut Rec) {
    let err = Error::SyntaxError(text.into(), e.clone());
    let shown = match guard(|| err.to_string()) {
        Ok(s) => s,
        Err(p) => {
            rec.fail("report panic", format!("reporting {e:?} of {text:?} {p}"));
            return;
        }
    };
    // only what was already escaped in the source is left after the colours are removed
    let plain = if text.contains('\x1b') { shown.clone() } else { strip_sgr(&shown) };
    let places = places(e);
    if places.is_empty() {
        rec.fail("report place", format!("the error of {text:?} points nowhere: {e:?}"));
    }
    for (a, b) in places {
        if b > text.len() || a > b || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
            rec.fail("report place", format!("the error of {text:?} points to {a}..{b}: {e:?}"));
            return;
        }
        let line_no = text[..a].matches('\n').count() + 1;
        let head = format!("{line_no:>5} | ");
        if !plain.lines().any(|l| l.starts_with(&head)) {
            rec.fail("report line number", format!("{text:?} is wrong at byte {a}, line {line_no}, but the report is\n{plain}"));
            continue;
        }
        // the text of that line, when it is short and printable
        let start = text[..a].rfind('\n').map_or(0, |i| i + 1);
        let line = text[start..].split('\n').next().unwrap();
        let marked = &text[a..b];
        if line.chars().count() <= 60 && line.chars().all(|c| c >= ' ') && !marked.contains(['\n', '\r']) {
            let want = format!("{head}{line}");
            if !plain.lines().any(|l| l == want) {
                rec.fail("report text", format!("{text:?} is wrong in line {line:?}, but the report is\n{plain}"));
            }
            // the offending piece stands out
            if !marked.is_empty() && !text.contains('\x1b') {
                let coloured = shown.lines().any(|l| {
                    l.contains(&head) && {
                        let l = &l[head.len()..];
                        l.strip_prefix(&text[start..a])
                            .is_some_and(|r| r.starts_with("\x1b[") && strip_sgr(r).starts_with(marked))
                    }
                });
                if !coloured {
                    rec.fail("report mark", format!("{text:?} is wrong at {marked:?}, but the report is\n{shown:?}"));
                }
            }
        }
    }
}

pub fn compare(text: &str, rec: &mut Rec) {
    let got = match run(text) {
        Ok(g) => g,
        Err(p) => {
            rec.fail("panic", format!("parse_script({text:?}) {p}"));
            return;
        }
    };
    let (want, steps) = parse(text);
    rec.steps(steps.max(1));
    rec.trace();
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            let g = E::from_impl(g);
            rec.state(&w.debug());
            rec.note("programs");
            rec.sample(|| format!("{text:?} -> {}", w.debug()));
            if g != *w {
                rec.fail("structure", format!("{text:?} parses to\n     {g:?}\nwant {w:?}"));
            }
        }
        (Err(e), Err(w)) => {
            rec.note("rejected");
            let at = places(e);
            let ok = match w {
                Wrong::Tokens(v) => at == *v,
                Wrong::Glued(a, b) => at == vec![(*a, *b)],
                Wrong::At(a) => at.first().map(|r| r.0) == Some(*a),
            };
            if !ok {
                rec.fail("error place", format!("{text:?} is wrong at {w:?}, but the error is {e:?}"));
            }
            report(text, e, rec);
        }
        (Ok(g), Err(w)) => rec.fail("accepted", format!("{text:?} is wrong at {w:?} but parses to {g:?}")),
        (Err(e), Ok(w)) => rec.fail("rejected", format!("{text:?} means {w:?} but is rejected: {e:?}")),
    }
}

fn word_space(name: &str, letters: &[&str], lo: u32, hi: u32, sep: &'static str) -> Space {
    let k = letters.len() as u64;
    let l: Vec<String> = letters.iter().map(|s| s.to_string()).collect();
    let make = move |i: u64| -> String { word(i, k, lo, hi).iter().map(|&d| l[d].as_str()).collect::<Vec<_>>().join(sep) };
    let m2 = make.clone();
    Space::new(name, words(k, lo, hi), move |i| format!("{:?}", make(i)), move |i, r| compare(&m2(i), r)).budget(600.0)
}

const ALL: &[&str] = &[
    "a", "1", "2.5", "\"s\"", "True", "None", "+", "-", "*", "//", "%", "==", "<", "&&", "||", "!", "to", "@", "|", "<<",
    ">>", ">>>", "(", ")", "[", "]", "{", "}", "'", ",", ";", "=", "->", "~>", "then", "else", "let", "for", "if", "in", "\n",
];

/// Expressions of every level of the grammar.
const PIECES: &[&str] = &[
    "a", "1", "-1", "\"s\"", "None", "()", "True", "+", "'a", "(a)", "[a, b]", "{a = b}", "{a; b}", "{}", "a@b", "a * b", "a % b // c", "a + b", "a - b * c", "a -1", "a < b", "a == b", "!a", "!a == b",
    "a && b", "a || b && c", "a to b", "a b", "a b + c", "a (b) c", "+ a b", "- a", "a -> b", "a ~> a b", "a | b", "a >> b", "b << a", "a >>> b", "if a b", "if a b else c", "if a {b} else if c {d} else {e}", "for a in b {c}", "for a in b to c {d}", "let a = b", "let a = b + c",
    "let a = b -> c", "a; b", "'(a b)", "a@'b", "'a@b", "a -b", "a - b", "x -> y -> x",
];
/// Every place where an expression may stand.
const PLACES: &[&str] = &[
    "X", "(X)", "X; Y", "X Y", "X\nY", "[X, Y]", "[X]", "{X}", "{X; Y}", "{X; Y;}", "{a = X}", "{a = X, b = Y}", "let a = X", "let + = X", "let a = X; Y", "a -> X", "a ~> X", "for a in X {Y}", "for a in X to Y {c}", "for a in X Y", "if X Y", "if X {c} else Y", "if a X else Y",
    "if a {X} else if Y {c}", "X@Y", "X @ a @ Y", "X * Y", "X // Y", "X % Y % c", "X + Y", "X - Y", "X == Y", "X < Y", "X >= Y != c", "!X", "! X + Y", "X && Y", "X || Y", "a && X || Y", "X to Y", "X to Y to c", "a X", "a X Y", "a X b Y", "X a Y", "+ X", "+ X Y", "X | Y", "X | a | Y", "X >> Y",
    "X << Y", "X >>> Y", "X >> a | Y", "'X", "'X Y", "X 'Y", "X # c\nY", "a (X) [Y]", "X -> Y", "X = Y", "(X) (Y)", "(X Y", "X Y)", "a | X Y | b",
];

pub fn structure(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let operators = ["a", "1", "+", "*", "-", "==", "<", "&&", "||", "!", "to", "@", "%"];
    let brackets = ["a", "(", ")", "[", "]", "{", "}", ",", ";", "=", "'"];
    let statements = ["let", "for", "in", "if", "else", "a", "{", "}", ";", "=", "1", "to"];
    let calls = ["a", "b", "|", ">>", "<<", ">>>", "->", "~>", "(", ")", "1", "\"s\"", "None"];
    let core = ["a", "1", "+", "(", ")", ";", "->", "@"];
    Check {
        id: "C02",
        rule: "every token sequence of the stated spaces is parsed by the real parser and by a reference parser (memoised ordered choice over a reference lexer); the syntax trees must be equal, or both must reject the text at the same place".into(),
        bounds: format!(
            "all sequences of length <= {} over {} tokens covering every token kind; all of length <= {} over operator (13), bracket (11), statement (12) and call/pipe (13) sub-alphabets; {} expressions in {} places, in pairs and nested; all of length <= {} over an 8-token core",
            if q { 4 } else { 5 }, ALL.len(), if q { 5 } else { 7 }, PIECES.len(), PLACES.len(), if q { 7 } else { 8 }
        ),
        assumptions: vec!["the reference grammar in harness/src/spec/parse.rs states the language".into()],
        spaces: vec![
            word_space("all tokens", ALL, 0, if q { 4 } else { 5 }, " "),
            word_space("operators", &operators, 1, 6, " "),
            word_space("brackets", &brackets, 1, if q { 6 } else { 7 }, ""),
            word_space("statements", &statements, 1, if q { 6 } else { 7 }, " "),
            word_space("calls and pipes", &calls, 1, if q { 5 } else { 6 }, " "),
            {
                let (n, m) = (PIECES.len() as u64, PLACES.len() as u64);
                let texts = move |i: u64| PLACES[(i % m) as usize].replace('X', PIECES[(i / m % n) as usize]).replace('Y', PIECES[(i / m / n) as usize]);
                Space::new("expressions in every place", n * n * m, move |i| format!("{:?}", texts(i)), move |i, r| compare(&texts(i), r)).budget(600.0)
            },
            {
                // ... and these in every place
                let (n, m) = (if q { 26 } else { PIECES.len() } as u64, PLACES.len() as u64);
                let step = if q { 2 } else { 1 };
                let texts = move |i: u64| {
                    let (x, p, o) = (PIECES[(i % n) as usize * step], PLACES[(i / n % m) as usize], PLACES[(i / n / m) as usize]);
                    o.replace('X', &p.replace('X', x).replace('Y', "b + c")).replace('Y', "d e")
                };
                Space::new("places in places", n * m * m, move |i| format!("{:?}", texts(i)), move |i, r| compare(&texts(i), r)).budget(600.0)
            },
            word_space("core", &core, 1, if q { 7 } else { 8 }, " "),
            // sequences of whole items: a key may come again, and anything may come anywhere
            word_space("entries", &["{", "}", "a = 1", "a = 2", "b = a", "+ = {a = 3}", "a", ",", ";", "a = 1, a = 2", "{b = 1, b = 2, c = b}"], 1, if q { 5 } else { 6 }, " "),
        ],
    }
}

/// Nested and long texts, with the time they may take.
fn nested(q: bool) -> Space {
    let wraps: &[(&str, &str, &str)] = &[
        ("(", "1", ")"),
        ("[", "1", "]"),
        ("{", "1", "}"),
        ("{a = ", "1", "}"),
        ("'", "a", ""),
        ("x -> ", "x", ""),
        ("x ~> ", "x", ""),
        ("let x = ", "1", ""),
        ("if 1 {", "2", "}"),
        ("if 1 2 else ", "3", ""),
        ("if (", "1", ") 2"),
        ("if {", "1", "} 2"),
        ("for i in l {", "1", "}"),
        ("for i in (", "l", ") {}"),
        ("f (", "1", ")"),
        ("f a [", "1", ", 2]"),
        ("!", "a", ""),
        ("! (", "a", ")"),
        ("1 + (", "1", ")"),
        ("(", "1", ") * 2"),
        ("a@(", "1", ")"),
        ("(", "a", ")@b"),
        ("a | (", "b", ")"),
        ("a >> (", "b", ")"),
        ("a << (", "b", ") << c"),
        ("1 to (", "2", ")"),
        ("1 == (", "2", ")"),
        ("a && (", "b", ") || c"),
        ("{ f (", "1", "); }"),
        ("[(", "1", "), 2]"),
        ("(x -> ", "x", ")"),
        ("{a = [", "1", "]}"),
        // separators only: long and flat
        ("1 + ", "1", ""),
        ("1; ", "1", ""),
        ("a ", "a", ""),
        ("a | ", "a", ""),
        ("1 == ", "1", ""),
        ("a@", "a", ""),
        ("\n", "1", ""),
        ("# x\n", "1", ""),
        ("\"", "", ""),
        ("\\", "", ""),
        ("é", "", ""),
        ("0", "", ""),
        ("-", "", ""),
        (".", "1", ""),
    ];
    let mut depths: Vec<usize> = (1..if q { 40 } else { 120 }).collect();
    depths.extend([100, 250, 400, 900, 999, 1000, 1001, 2000, 5000, 20000]);
    if !q {
        depths.extend([50000, 100000])
    }
    let mut v = vec![];
    for (w, _) in wraps.iter().enumerate() {
        for &d in &depths {
            for close in [0, 1, 2] {
                v.push((w, d, close));
            }
        }
    }
    let wraps: Vec<_> = wraps.to_vec();
    let w2 = wraps.clone();
    let name = move |&(w, d, close): &(usize, usize, i32)| -> String {
        let (a, m, b) = w2[w];
        format!("{a:?} x {d}, {m:?}, {b:?} x {}", match close { 0 => 0, 1 => d, _ => d - 1 })
    };
    let v = std::rc::Rc::new(v);
    let v2 = v.clone();
    Space::new(
        "nested and long",
        v.len() as u64,
        move |i| name(&v2[i as usize]),
        move |i, rec| {
            let (w, d, close) = v[i as usize];
            let (a, m, b) = wraps[w];
            let n = match close { 0 => 0, 1 => d, _ => d - 1 };
            let text = format!("{}{}{}", a.repeat(d), m, b.repeat(n));
            let t0 = std::time::Instant::now();
            let got = match run(&text) {
                Err(p) => {
                    rec.fail("panic", p);
                    return;
                }
                Ok(g) => g,
            };
            let ms = t0.elapsed().as_millis();
            rec.step();
            rec.state(&(w, d, got.is_ok()));
            rec.sample(|| format!("{a:?} x {d} ... parsed in {ms} ms: {}", if got.is_ok() { "a program" } else { "rejected" }));
            if ms > 10_000 {
                rec.fail("slow", format!("{} bytes took {ms} ms", text.len()));
            }
            if let Err(e) = &got {
                report(&text, e, rec);
            }
            // at moderate depth the answer itself is compared
            if d <= 250 {
                let (want, n) = parse(&text);
                rec.steps(n);
                rec.trace();
                match (got, want) {
                    (Ok(g), Ok(w)) => {
                        if E::from_impl(&g) != w {
                            rec.fail("structure", "the tree differs from the reference");
                        }
                    }
                    (Err(_), Err(_)) => {}
                    (g, w) => rec.fail("answer", format!("{} but the reference says {}", if g.is_ok() { "accepted" } else { "rejected" }, if w.is_ok() { "accept" } else { "reject" })),
                }
            }
        },
    )
    .timeout(30.0)
}

fn raw_space(name: &str, letters: Vec<String>, lo: u32, hi: u32, wrap: &'static [(&'static str, &'static str)]) -> Space {
    let k = letters.len() as u64;
    let n = words(k, lo, hi);
    let make = move |i: u64| -> String {
        let (a, b) = wrap[(i / n) as usize];
        let w: String = word(i % n, k, lo, hi).iter().map(|&d| letters[d].as_str()).collect();
        format!("{a}{w}{b}")
    };
    let m2 = make.clone();
    Space::new(name, n * wrap.len() as u64, move |i| format!("{:?}", make(i)), move |i, r| compare(&m2(i), r)).budget(600.0)
}

pub fn total(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let ascii: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    let s = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    Check {
        id: "C03",
        rule: "every text of the stated spaces is given to the real parser in a process of its own kind (a crash or a hang is attributed to the text); it must answer with a program or with an error whose report can be produced, names the line of the error and shows and marks its text; nested and long texts must be answered promptly".into(),
        bounds: format!(
            "all ASCII texts of length <= {}; all words over token fragments, literals, line structure and multi-byte alphabets up to the stated lengths; {} nesting/repetition families at depths 1..{} and up to {}",
            if q { 2 } else { 3 }, 46, if q { 40 } else { 120 }, if q { 20000 } else { 100000 }
        ),
        assumptions: vec!["'promptly' is taken as 10 seconds for inputs of at most a few hundred kilobytes".into()],
        spaces: vec![
            raw_space("ascii", ascii, 0, if q { 2 } else { 3 }, &[("", ""), ("let a = 1;\n", "\n b")]),
            raw_space(
                "fragments",
                s(&["a", "1", "\"", "\\", "(", ")", "[", "]", "{", "}", "\n", " ", ";", "=", "let ", "if ", "for ", " in ", "->", "@", "é", "1.", "\"s\n\"", "#", "!", ","]),
                1,
                if q { 4 } else { 5 },
                &[("", "")],
            ),
            raw_space("lines", s(&["\n", "\r\n", "a", " ", "=", ";", "(", "\"", "\"x\ny\"", "]"]), 1, if q { 5 } else { 7 }, &[("", ""), ("let x = 1;\n", "\n")]),
            raw_space("string escapes", s(&["\\", "\"", "\n", "é", "u{", "41", "}", "q", "n"]), 1, if q { 5 } else { 6 }, &[("\"", "\""), ("x\n\"", "")]),
            // long lines and long multi-line strings around the error
            {
                let mut v = vec![];
                for before in [0usize, 1, 10, 18, 26, 34, 42, 50, 70, 71, 72, 73, 100, 200] {
                    for inside in [0usize, 1, 9, 70, 71, 72, 73, 200] {
                        for lines in [0usize, 1, 2] {
                            for after in [0usize, 1, 5, 21, 72, 100] {
                                for unit in ["a", "é", "\t"] {
                                    for form in 0..4 {
                                        v.push((before, inside, lines, after, unit, form));
                                    }
                                }
                            }
                        }
                    }
                }
                Space::list("wide reports", v, |&(before, inside, lines, after, unit, form), rec| {
                    let pre = format!("\"{}\" ", unit.repeat(before));
                    let mid = format!("\"{}{}\"", format!("{}\n", unit.repeat(inside)).repeat(lines), unit.repeat(inside));
                    let post = format!(" \"{}\"", unit.repeat(after));
                    let text = match form {
                        0 => format!("{pre}; let {mid}{post}"),
                        1 => format!("\n\n{pre}) {mid}{post}"),
                        2 => format!("{pre} {}{post}", mid.replace('\n', "\n\\q")),
                        _ => format!("{pre}; let x {mid}{post}\n\n"),
                    };
                    compare(&text, rec)
                })
            },
            nested(q),
        ],
    }
}
