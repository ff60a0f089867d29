//! C19 widgets, C20 styles, C24 logs, C30 the console.
use super::diff::prepare;
use super::util::*;
use crate::engine::*;
use crate::spec::builtins::source;
use crate::spec::expr::E::{self, *};
use crate::spec::term::{show, Style, Term};
use dune::{Environment, Expression as X};
use std::cell::RefCell;
use std::rc::Rc;

type Held = Rc<RefCell<Option<Environment>>>;

fn held() -> (Held, impl Fn(&std::path::Path) + Clone) {
    let h: Held = Rc::new(RefCell::new(Option::None));
    let h2 = h.clone();
    (h, move |scratch: &std::path::Path| {
        prepare(scratch);
        *h2.borrow_mut() = Some(full_env("/dev"));
    })
}

/// The value and what was printed; `Err(None)` is a reported error.
fn run(e: &E, env: &mut Environment) -> Result<(Result<E, String>, String), String> {
    let x = e.to_impl();
    let (r, out, _) = capture(|| guard(|| x.eval(env)));
    Ok((r?.map(|v| E::from_impl(&v)).map_err(|e| e.to_string()), String::from_utf8_lossy(&out).into()))
}

fn fun(path: &str) -> E {
    // written out, so that names that are no identifiers work
    let mut p = path.split('@');
    let mut e = E::sym(p.next().unwrap());
    for k in p {
        e = E::call("@", vec![e, E::str(k)]);
    }
    e
}

fn call(f: &str, a: Vec<E>) -> E {
    E::apply(fun(f), a)
}

// ---------------------------------------------------------------------------- C19

/// A rectangle of characters.
type Grid = Vec<Vec<char>>;

fn grid(s: &str) -> Result<Grid, String> {
    let g: Grid = s.lines().map(|l| l.chars().collect()).collect();
    match g.iter().find(|l| l.len() != g[0].len()) {
        Some(l) => Err(format!("not a rectangle: a line of {} among lines of {}", l.len(), g[0].len())),
        _ => Ok(g),
    }
}

/// The words of a text, and the lines they must begin.
fn words_of(s: &str) -> Vec<Vec<String>> {
    s.split('\n').map(|l| l.split(' ').filter(|w| !w.is_empty()).map(String::from).collect()).collect()
}

/// `lines` are the lines of `text` filled to `width`. `cut`: lines may be missing at the end.
fn filled(text: &str, lines: &[String], width: usize, cut: bool) -> Result<(), String> {
    if let Some(l) = lines.iter().find(|l| l.trim_end().chars().count() > width) {
        return Err(format!("{l:?} is longer than {width}"));
    }
    let mut at = 0;
    for (n, (par, raw)) in words_of(text).iter().zip(text.split('\n')).enumerate() {
        if at == lines.len() && cut {
            return Ok(());
        }
        // what fits stays as it is
        if raw.chars().count() <= width {
            match lines.get(at).map_or("", |l| l.trim_end()) {
                l if l == raw.trim_end() => at += 1,
                l => return Err(format!("line {n} is {l:?} and not {raw:?}")),
            }
            continue;
        }
        let mut k = 0; // word
        let mut rest: Option<String> = Option::None; // of a word that was broken
        let mut first = true;
        while k < par.len() || first {
            if at >= lines.len() {
                if par.is_empty() {
                    break;
                }
                return if cut { Ok(()) } else { Err(format!("{:?} is missing", par.get(k))) };
            }
            first = false;
            for w in lines[at].split(' ').filter(|w| !w.is_empty()) {
                let Some(want) = rest.take().or_else(|| par.get(k).cloned()) else {
                    return Err(format!("{w:?} is too much"));
                };
                if want == w {
                    k += 1
                } else if want.starts_with(w) && par[k].chars().count() > width {
                    rest = Some(want[w.len()..].to_string())
                } else {
                    return Err(format!("{w:?} is not {want:?}"));
                }
            }
            at += 1;
        }
    }
    match lines[at.min(lines.len())..].iter().find(|l| !l.trim().is_empty()) {
        Some(l) => Err(format!("{l:?} is too much")),
        _ => Ok(()),
    }
}

/// What a widget must be. `Err`: it cannot be made.
fn widget(title: &str, text: &str, w: i64, h: i64, got: &Result<E, String>) -> Result<Option<Grid>, String> {
    let possible = w > 4 && h >= 3 && title.chars().count() as i64 <= w - 2;
    let s = match (possible, got) {
        (false, Err(_)) => return Ok(Option::None),
        (false, Ok(v)) => return Err(format!("is possible: {}", v.debug())),
        (true, Err(e)) => return Err(format!("is not possible: {e}")),
        (true, Ok(Str(s))) => s,
        (true, Ok(v)) => return Err(format!("is {}", v.debug())),
    };
    let g = grid(s).map_err(|e| format!("{e}\n{s}"))?;
    if g.len() as i64 != h || g[0].len() as i64 != w {
        return Err(format!("is {} x {}\n{s}", g[0].len(), g.len()));
    }
    let inner = (w - 2) as usize;
    let (top, bottom) = (&g[0], &g[g.len() - 1]);
    let rule = |c: &[char]| c.iter().all(|&c| c == '─');
    if (bottom[0], bottom[inner + 1]) != ('└', '┘') || !rule(&bottom[1..inner + 1]) {
        return Err(format!("has no bottom border\n{s}"));
    }
    // the title is in the middle of the top border
    let n = title.chars().count();
    let fits = [(inner - n) / 2, (inner - n + 1) / 2].iter().any(|&l| {
        top[1..1 + l].iter().all(|&c| c == '─') && top[1 + l..1 + l + n].iter().collect::<String>() == title && rule(&top[1 + l + n..inner + 1])
    });
    if (top[0], top[inner + 1]) != ('┌', '┐') || !fits {
        return Err(format!("has no title in the middle of its top border\n{s}"));
    }
    // the text in between, a blank before and after
    let body = &g[1..g.len() - 1];
    if body.iter().any(|l| l[0] != ' ' || l[inner + 1] != ' ') {
        return Err(format!("has text in its margin\n{s}"));
    }
    let mut lines: Vec<String> = body.iter().map(|l| l[1..inner + 1].iter().collect()).collect();
    let full = !lines.last().unwrap().trim().is_empty() || text.contains('\n') || text.starts_with(' ');
    while !full && lines.last().is_some_and(|l| l.trim().is_empty()) {
        lines.pop();
    }
    filled(text, &lines, inner, full).map_err(|e| format!("shows the wrong text: {e}\n{s}"))?;
    Ok(Some(g))
}

/// How long the words of a long text are.
const PATTERNS: &[&[usize]] = &[&[1], &[3], &[2, 7], &[11, 1, 4], &[30], &[1, 300, 2], &[5, 5, 5, 0], &[600]];

/// A text of `n` words.
fn patterned(p: usize, lines: bool, n: usize) -> String {
    let mut text = String::new();
    for i in 0..n {
        let n = PATTERNS[p][i % PATTERNS[p].len()];
        text.extend((0..n).map(|j| (b'a' + ((i + j) % 26) as u8) as char));
        text.push(if lines && i % 7 == 6 { '\n' } else { ' ' });
    }
    text.trim_end().into()
}

pub fn widgets(tier: Tier) -> Check {
    let quick = tier == Tier::Quick;
    let n = if quick { 8 } else { 10 };
    let mut spaces = vec![];

    let alphabet = ['a', ' ', '\n', 'é'];
    let size = words(4, 0, n);
    let sizes: Vec<(i64, i64)> = vec![(5, 3), (6, 4), (7, 5), (9, 3), (12, 6)];
    let text = move |i: u64| -> String { word(i, 4, 0, n).iter().map(|&c| alphabet[c]).collect() };
    let (h, init) = held();
    let s2 = sizes.clone();
    let ns = sizes.len() as u64;
    spaces.push(
        Space::new("texts", size * ns, move |i| format!("{:?} in {:?}", text(i / ns), s2[(i % ns) as usize]), move |i, rec| {
            let (w, hh) = sizes[(i % ns) as usize];
            let t = text(i / ns);
            let mut g = h.borrow_mut();
            let e = call("widget@create", vec![E::str("T"), E::str(&t), Int(w), Int(hh)]);
            rec.step();
            match run(&e, g.as_mut().unwrap()) {
                Err(p) => rec.fail("panic", p),
                Ok((r, _)) => match widget("T", &t, w, hh, &r) {
                    Ok(g) => {
                        rec.trace();
                        rec.state(&g);
                    }
                    Err(m) => rec.fail("widget", format!("{}\n{m}", e.debug())),
                },
            }
        })
        .init(init),
    );

    // titles and sizes
    let titles = ["", "T", "ab", "abc", "a title", "ü", "éé", "a much longer title"];
    let texts = ["", "word", "several words of different lengths in one text", "two\nlines", "averyveryverylongwordthatdoesnotfit", "a\n\nb\n", "1\n2\n3\n4\n5\n6"];
    let widths: Vec<i64> = (-1..=if quick { 24 } else { 48 }).chain([i64::MIN, i64::MAX, 65536]).collect();
    let heights: Vec<i64> = (-1..=if quick { 9 } else { 14 }).chain([i64::MIN, i64::MAX, 65536]).collect();
    let radix = [titles.len() as u64, texts.len() as u64, widths.len() as u64, heights.len() as u64];
    let (w2, h2) = (widths.clone(), heights.clone());
    let (h, init) = held();
    spaces.push(
        Space::new(
            "sizes",
            radix.iter().product(),
            move |i| {
                let d = digits(i, &radix);
                format!("{:?} {:?} {} {}", titles[d[0]], texts[d[1]], w2[d[2]], h2[d[3]])
            },
            move |i, rec| {
                let d = digits(i, &radix);
                let (w, hh) = (widths[d[2]], heights[d[3]]);
                if w == 65536 || hh == 65536 {
                    // whether that is too large is left open
                    return;
                }
                let mut g = h.borrow_mut();
                let e = call("widget@create", vec![E::str(titles[d[0]]), E::str(texts[d[1]]), Int(w), Int(hh)]);
                rec.step();
                if w == i64::MAX || hh == i64::MAX {
                    // larger than any terminal
                    match run(&e, g.as_mut().unwrap()) {
                        Err(p) => rec.fail("panic", p),
                        Ok((Ok(_), _)) => rec.fail("widget", format!("{} is possible", e.debug())),
                        _ => {}
                    }
                    return;
                }
                match run(&e, g.as_mut().unwrap()) {
                    Err(p) => rec.fail("panic", p),
                    Ok((r, _)) => match widget(titles[d[0]], texts[d[1]], w, hh, &r) {
                        Ok(g) => {
                            rec.trace();
                            rec.state(&g);
                        }
                        Err(m) => rec.fail("widget", format!("{}\n{m}", e.debug())),
                    },
                }
            },
        )
        .init(init),
    );

    // everything that can be built of widgets by joining them
    let leaves: Vec<(String, i64, i64)> = [("A", 5, 3), ("B", 5, 4), ("C", 6, 3), ("D", 7, 4), ("E", 11, 3), ("F", 12, 7)].iter().map(|(t, w, h)| (t.to_string(), *w, *h)).collect();
    #[derive(Clone, Debug)]
    enum T {
        Leaf(usize),
        X(Vec<T>),
        Y(Vec<T>),
    }
    // trees by number of leaves
    let most = if quick { 4 } else { 5 };
    let mut trees: Vec<Vec<T>> = vec![vec![], (0..leaves.len()).map(T::Leaf).collect()];
    for k in 2..=most {
        let mut v = vec![];
        for a in 1..k {
            for x in &trees[a] {
                for y in &trees[k - a] {
                    if k < 4 || (a == 1 || a == 2) {
                        v.push(T::X(vec![x.clone(), y.clone()]));
                        v.push(T::Y(vec![x.clone(), y.clone()]));
                    }
                }
            }
        }
        if k == 3 {
            let l = trees[1].clone();
            for x in &l {
                for y in &l {
                    for z in &l {
                        v.push(T::X(vec![x.clone(), y.clone(), z.clone()]));
                        v.push(T::Y(vec![x.clone(), y.clone(), z.clone()]));
                    }
                }
            }
        }
        if k == most && v.len() > 400_000 {
            // only those of which every part can be made
            v.retain(|t| matches!(t, T::X(_)))
        }
        trees.push(v);
    }
    fn term(t: &T, leaves: &[(String, i64, i64)]) -> E {
        match t {
            T::Leaf(i) => call("widget@create", vec![E::str(&leaves[*i].0), E::str("t"), Int(leaves[*i].1), Int(leaves[*i].2)]),
            T::X(v) => call("widget@joinx", v.iter().map(|x| term(x, leaves)).collect()),
            T::Y(v) => call("widget@joiny", v.iter().map(|x| term(x, leaves)).collect()),
        }
    }
    fn model(t: &T, drawn: &[Grid]) -> Option<Grid> {
        match t {
            T::Leaf(i) => Some(drawn[*i].clone()),
            T::X(v) => {
                let v: Vec<Grid> = v.iter().map(|x| model(x, drawn)).collect::<Option<_>>()?;
                if v.iter().any(|g| g.len() != v[0].len()) {
                    return Option::None;
                }
                Some((0..v[0].len()).map(|r| v.iter().flat_map(|g| g[r].clone()).collect()).collect())
            }
            T::Y(v) => {
                let v: Vec<Grid> = v.iter().map(|x| model(x, drawn)).collect::<Option<_>>()?;
                if v.iter().any(|g| g[0].len() != v[0][0].len()) {
                    return Option::None;
                }
                Some(v.concat())
            }
        }
    }
    let (h, init) = held();
    let drawn: Rc<RefCell<Vec<Grid>>> = Rc::new(RefCell::new(vec![]));
    let d2 = drawn.clone();
    let (h2, l2) = (h.clone(), leaves.clone());
    let all: Vec<T> = trees.concat();
    spaces.push(
        Space::list("joins", all, move |t, rec| {
            let mut g = h.borrow_mut();
            let d = drawn.borrow();
            let e = term(t, &leaves);
            rec.steps(3);
            let want = model(t, &d);
            match run(&e, g.as_mut().unwrap()) {
                Err(p) => rec.fail("panic", p),
                Ok((r, _)) => {
                    let got = match &r {
                        Ok(Str(s)) => match grid(s) {
                            Ok(g) => Some(g),
                            Err(m) => return rec.fail("join", format!("{}\n{m}\n{s}", e.debug())),
                        },
                        Ok(v) => return rec.fail("join", format!("{} is {}", e.debug(), v.debug())),
                        Err(_) => Option::None,
                    };
                    if got != want {
                        let t = |g: &Option<Grid>| g.as_ref().map_or("an error".into(), |g| g.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n"));
                        rec.fail("join", format!("{}\nis\n{}\nand not\n{}", e.debug(), t(&got), t(&want)))
                    } else {
                        rec.trace()
                    }
                    rec.state(&want);
                }
            }
        })
        .init(move |scratch| {
            init(scratch);
            let mut g = h2.borrow_mut();
            *d2.borrow_mut() = (0..l2.len())
                .map(|i| match run(&term(&T::Leaf(i), &l2), g.as_mut().unwrap()) {
                    Ok((Ok(Str(s)), _)) => grid(&s).unwrap_or_default(),
                    _ => vec![vec!['?']],
                })
                .collect()
        }),
    );
    // large ones: long texts, and rows and columns of many widgets
    let many: Vec<usize> = if quick { vec![5, 6, 7, 10, 21, 40, 79, 80, 132, 200, 255, 256, 257, 500] } else { (5..=300).chain([500, 1000, 2000]).collect() };
    let tall: Vec<usize> = vec![3, 4, 9, 24, 80, 255, 256, 300];
    let mut cases = vec![];
    for &w in &many {
        for &hh in &tall {
            for p in 0..PATTERNS.len() {
                for lines in [false, true] {
                    cases.push((w, hh, p, lines))
                }
            }
        }
    }
    let (h, init) = held();
    spaces.push(
        Space::list("large", cases, move |&(w, hh, p, lines), rec| {
            let text = patterned(p, lines, 150);
            let text = &text[..];
            let mut g = h.borrow_mut();
            let title = "t".repeat(w % 9);
            rec.step();
            match run(&call("widget@create", vec![E::str(&title), E::str(text), Int(w as i64), Int(hh as i64)]), g.as_mut().unwrap()) {
                Err(p) => rec.fail("panic", p),
                Ok((r, _)) => match widget(&title, text, w as i64, hh as i64, &r) {
                    Ok(g) => {
                        rec.trace();
                        rec.state(&g);
                    }
                    Err(m) => rec.fail("widget", format!("{w} x {hh}, pattern {p}, lines {lines}: {}", m.chars().take(600).collect::<String>())),
                },
            }
        })
        .init(init),
    );
    let counts: Vec<usize> = if quick { vec![2, 5, 10, 11, 30, 64, 100, 127, 128, 129, 256, 257] } else { (2..=130).chain([255, 256, 257, 500, 1000]).collect() };
    let mut cases = vec![];
    for &n in &counts {
        for x in [true, false] {
            // one of them is of another size
            let mut odd = vec![Option::None, Some(0), Some(n / 2), Some(n - 1)];
            odd.dedup();
            for o in odd {
                cases.push((n, x, o))
            }
        }
    }
    let (h, init) = held();
    spaces.push(
        Space::list("many", cases, move |&(n, x, odd), rec| {
            let mut g = h.borrow_mut();
            let (w, hh) = (8, 4);
            let leaf = |i: usize| {
                let k = (odd == Some(i)) as i64;
                call("widget@create", vec![E::str(&format!("{i}")), E::str(&format!("n{i}")), Int(w + k), Int(hh + k)])
            };
            let mut drawn = vec![];
            for i in 0..n {
                match run(&leaf(i), g.as_mut().unwrap()) {
                    Ok((Ok(Str(s)), _)) => drawn.push(s),
                    _ => return rec.fail("widget", format!("{} is not possible", leaf(i).debug())),
                }
            }
            rec.steps(n as u64);
            let e = call(if x { "widget@joinx" } else { "widget@joiny" }, drawn.iter().map(|d| E::str(d)).collect());
            let grids: Vec<Grid> = drawn.iter().map(|d| grid(d).unwrap_or_default()).collect();
            let want: Option<Grid> = odd.is_none().then(|| match x {
                true => (0..grids[0].len()).map(|r| grids.iter().flat_map(|g| g[r].clone()).collect()).collect(),
                _ => grids.concat(),
            });
            let got = match run(&e, g.as_mut().unwrap()) {
                Err(p) => return rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) => match grid(&s) {
                    Ok(g) => Some(g),
                    Err(m) => return rec.fail("join", format!("{n} widgets: {m}")),
                },
                Ok((Ok(v), _)) => return rec.fail("join", format!("{n} widgets joined are {}", v.debug().chars().take(200).collect::<String>())),
                Ok((Err(_), _)) => Option::None,
            };
            rec.state(&want);
            if got != want {
                let d = |g: &Option<Grid>| g.as_ref().map_or("an error".into(), |g| format!("{} x {}", g[0].len(), g.len()));
                return rec.fail("join", format!("{n} widgets joined {} (of another size: {odd:?}) are {} and not {}", if x { "in a row" } else { "in a column" }, d(&got), d(&want)));
            }
            rec.trace()
        })
        .init(init),
    );
    spaces.push(columns(quick));
    spaces.push(stacks(quick));
    Check {
        id: "C19",
        rule: "every widget over pools of titles, texts and sizes, and every text up to a length, is a rectangle of exactly the size asked for with borders, the title in the middle and the text's words in order (or is refused when it cannot be made), also where parts are styled or characters are two columns wide; every tree of joins equals the composition of its parts as grids of characters".into(),
        bounds: format!("texts up to {n} characters; joins of trees of up to {most} widgets; texts of 150 words in widgets of up to {} x 300; rows and columns of up to {} widgets", if quick { 500 } else { 2000 }, if quick { 257 } else { 1000 }),
        assumptions: vec!["how wide a character is: one column, two for ideographs; others are not used".into(), "the style of the blanks within styled text that is wrapped is left open".into()],
        spaces,
    }
}

/// As a terminal shows it: what is styled is not longer, and an ideograph takes two places.
fn shown(s: &str) -> Result<String, String> {
    let t = show(s)?;
    Ok(t.text().chars().flat_map(|c| if wide(c) { vec![c, PLACE] } else { vec![c] }).collect())
}

const PLACE: char = '\u{e000}';

fn wide(c: char) -> bool {
    ('\u{4e00}'..='\u{9fff}').contains(&c)
}

/// The parts that texts are made of.
const PARTS: &[&str] = &["ab", " ", "\x1b[1mbold\x1b[m\x1b[0m", "\x1b[91mr\x1b[m\x1b[0m", "\x1b[4mtwo words\x1b[m\x1b[0m", "日本", "\n", "é", "\x1b[3m\x1b[32m日\x1b[m\x1b[0m\x1b[m\x1b[0m", "alongerone"];

/// A widget with styled and wide text: its shape, and its text.
fn looks(title: &str, text: &str, w: i64, h: i64, got: &Result<E, String>) -> Result<String, String> {
    let (t, x) = (shown(title)?, shown(text)?);
    let made = match got {
        Ok(Str(s)) => Ok(Str(shown(s)?)),
        other => other.clone(),
    };
    if !text.contains(|c| wide(c)) {
        // the same as without styles
        widget(&t, &x, w, h, &made)?;
        return Ok(made.map_or(String::new(), |s| s.debug()));
    }
    // where lines end between ideographs is left open
    let Some(g) = widget(&t, "", w, h, &made.clone().map(|m| {
        let Str(s) = m else { return m };
        let n = s.lines().count();
        Str(s.lines().enumerate().map(|(i, l)| if i == 0 || i + 1 == n { l.to_string() } else { " ".repeat(l.chars().count()) }).collect::<Vec<_>>().join("\n"))
    }))? else {
        return Ok(String::new());
    };
    let Ok(Str(s)) = made else { return Err("no text".into()) };
    let body: Vec<&str> = s.lines().skip(1).take(g.len() - 2).collect();
    if let Some(l) = body.iter().find(|l| !l.starts_with(' ') || !l.ends_with(' ')) {
        return Err(format!("{l:?} has text in its margin\n{s}"));
    }
    let squeezed = |s: &str| s.split_whitespace().collect::<String>();
    let (is, want) = (squeezed(&body.concat()), squeezed(&x));
    let full = !body.last().unwrap().trim().is_empty() || text.contains('\n') || x.starts_with(' ');
    if is != want && !(full && want.starts_with(&is)) {
        return Err(format!("shows {is:?} and not {want:?}\n{s}"));
    }
    Ok(s)
}

fn columns(quick: bool) -> Space {
    let n = if quick { 4 } else { 5 };
    let texts = words(PARTS.len() as u64, 0, n);
    let titles = ["T", "", "\x1b[1mbold\x1b[m\x1b[0m", "日本", "\x1b[91m日\x1b[m\x1b[0m!"];
    let sizes: Vec<(i64, i64)> = vec![(5, 3), (6, 4), (8, 5), (9, 3), (13, 5), (20, 4), (31, 6)];
    let radix = [texts, titles.len() as u64, sizes.len() as u64];
    let s2 = sizes.clone();
    let text = move |i: usize| -> String { word(i as u64, PARTS.len() as u64, 0, n).iter().map(|&c| PARTS[c]).collect() };
    let (h, init) = held();
    Space::new(
        "columns",
        radix.iter().product(),
        move |i| {
            let d = digits(i, &radix);
            format!("{:?} {:?} {:?}", titles[d[1]], text(d[0]), s2[d[2]])
        },
        move |i, rec| {
            let d = digits(i, &radix);
            let (w, hh) = sizes[d[2]];
            let (title, t) = (titles[d[1]], text(d[0]));
            let mut g = h.borrow_mut();
            let e = call("widget@create", vec![E::str(title), E::str(&t), Int(w), Int(hh)]);
            rec.step();
            match run(&e, g.as_mut().unwrap()) {
                Err(p) => rec.fail("panic", p),
                Ok((r, _)) => match looks(title, &t, w, hh, &r) {
                    Ok(g) => {
                        rec.trace();
                        rec.state(&g);
                    }
                    Err(m) => rec.fail("widget", format!("{}\n{m}", e.debug())),
                },
            }
        },
    )
    .init(init)
}

/// Widgets of the same and of other widths, on top of and beside each other.
fn stacks(quick: bool) -> Space {
    let titles = ["T", "\x1b[1mbold\x1b[m\x1b[0m", "日本", "\x1b[91mx\x1b[m\x1b[0m日"];
    let texts = ["", "plain text", "\x1b[4mtwo words\x1b[m\x1b[0m", "日本日本日本", "a\x1b[1mb\x1b[m\x1b[0mc\n日"];
    let sizes: &'static [(i64, i64)] = if quick { &[(8, 3), (10, 4), (9, 4)] } else { &[(8, 3), (10, 4), (9, 4), (7, 4), (10, 3), (30, 8)] };
    let one = (titles.len() * texts.len() * sizes.len()) as u64;
    let leaf = move |i: usize| {
        let d = digits(i as u64, &[titles.len() as u64, texts.len() as u64, sizes.len() as u64]);
        (call("widget@create", vec![E::str(titles[d[0]]), E::str(texts[d[1]]), Int(sizes[d[2]].0), Int(sizes[d[2]].1)]), sizes[d[2]])
    };
    let case = move |i: u64| {
        let d = digits(i, &[2, one, one]);
        let ((a, x), (b, y)) = (leaf(d[1]), leaf(d[2]));
        (["widget@joinx", "widget@joiny"][d[0]], a, b, x, y)
    };
    let (h, init) = held();
    Space::new("styled joins", 2 * one * one, move |i| { let c = case(i); call(c.0, vec![c.1, c.2]).debug() }, move |i, rec| {
        let (f, a, b, x, y) = case(i);
        let mut g = h.borrow_mut();
        rec.steps(3);
        let mut make = |e: &E| match run(e, g.as_mut().unwrap()) {
            Ok((Ok(Str(s)), _)) => shown(&s).map(|s| s.lines().map(String::from).collect::<Vec<_>>()),
            Ok((r, _)) => Err(format!("{r:?}")),
            Err(p) => Err(p),
        };
        let e = call(f, vec![a.clone(), b.clone()]);
        let (p, q, both) = (make(&a), make(&b), make(&e));
        let fits = if f == "widget@joinx" { x.1 == y.1 } else { x.0 == y.0 };
        let r = match (p, q, both) {
            (Ok(p), Ok(q), Ok(both)) => {
                let want: Vec<String> = if f == "widget@joinx" { p.iter().zip(&q).map(|(a, b)| format!("{a}{b}")).collect() } else { [p, q].concat() };
                if !fits {
                    Err("does not fit, and is joined".to_string())
                } else if both != want {
                    Err(format!("is\n{}\nand not\n{}", both.join("\n"), want.join("\n")))
                } else {
                    rec.state(&both);
                    Ok(())
                }
            }
            (Ok(_), Ok(_), Err(e)) => if fits { Err(e) } else { Ok(()) },
            // the widget cannot be made
            (..) => Err("no widget".into()),
        };
        rec.trace();
        if let Err(m) = r {
            rec.fail("join", format!("{}: {m}", e.debug()))
        }
    })
    .init(init)
}

// ---------------------------------------------------------------------------- C20

const STYLES: &[(&str, u32)] = &[
    ("bold", 1), ("faint", 2), ("italics", 3), ("underline", 4), ("blink", 5), ("invert", 7), ("strike", 9),
    ("black", 90), ("red", 91), ("green", 92), ("yellow", 93), ("blue", 94), ("magenta", 95), ("cyan", 96), ("white", 97),
    ("dark@black", 30), ("dark@red", 31), ("dark@green", 32), ("dark@yellow", 33), ("dark@blue", 34), ("dark@magenta", 35), ("dark@cyan", 36), ("dark@white", 37),
];

fn with(mut s: Style, code: u32) -> Style {
    if code < 10 {
        s.attrs.insert(code);
    } else {
        s.colour = Some(code)
    }
    s
}

/// Styled text: the program for it, and how each character must look.
#[derive(Clone, Debug)]
enum F {
    Text(&'static str),
    Styled(usize, Box<F>),
    Link(&'static str, Box<F>),
    Cat(Box<F>, Box<F>),
}

impl F {
    fn term(&self) -> E {
        match self {
            F::Text(s) => E::str(s),
            F::Styled(i, f) => call(&format!("fmt@{}", STYLES[*i].0), vec![f.term()]),
            F::Link(u, f) => call("fmt@href", vec![E::str(u), f.term()]),
            F::Cat(a, b) => E::call("+", vec![a.term(), b.term()]),
        }
    }
    /// How it looks; `None` where an inner style has ended inside an outer one (left open).
    fn look(&self, s: &Style, out: &mut Vec<(char, Option<Style>)>) {
        match self {
            F::Text(t) => out.extend(t.chars().map(|c| (c, Some(s.clone())))),
            F::Styled(i, f) => f.look(&with(s.clone(), STYLES[*i].1), out),
            F::Link(u, f) => f.look(&Style { link: Some(u.to_string()), ..s.clone() }, out),
            F::Cat(a, b) => {
                a.look(s, out);
                let k = out.len();
                b.look(s, out);
                if a.styles() && *s != Style::default() {
                    out[k..].iter_mut().for_each(|c| c.1 = Option::None)
                }
            }
        }
    }
    fn styles(&self) -> bool {
        match self {
            F::Text(_) => false,
            F::Styled(..) | F::Link(..) => true,
            F::Cat(a, b) => a.styles() || b.styles(),
        }
    }
}

pub fn styles(tier: Tier) -> Check {
    let quick = tier == Tier::Quick;
    let mut spaces = vec![];
    // every style, alone and inside every other, next to other text
    let texts = ["ab", "", "é m\n", "[1m", "\t;m"];
    let urls = ["http://example.com/m?a=1", "u"];
    let leaf: Vec<F> = texts.iter().map(|t| F::Text(t)).collect();
    let wrap = |inner: &[F]| -> Vec<F> {
        let mut v = vec![];
        for f in inner {
            for i in 0..STYLES.len() {
                v.push(F::Styled(i, Box::new(f.clone())))
            }
            for u in urls {
                v.push(F::Link(u, Box::new(f.clone())))
            }
        }
        v
    };
    let one = wrap(&leaf);
    let two = wrap(&one);
    let three = if quick { wrap(&two[..two.len() / 5]) } else { wrap(&two) };
    let mut all = [leaf.clone(), one.clone(), two.clone(), three].concat();
    for a in leaf.iter().chain(&one).chain(two.iter().take(200)) {
        for b in leaf.iter().chain(&one) {
            all.push(F::Cat(Box::new(a.clone()), Box::new(b.clone())));
        }
    }
    for a in leaf.iter().chain(&one[..30]) {
        for b in leaf.iter().chain(&one[..30]) {
            for i in 0..STYLES.len() {
                all.push(F::Styled(i, Box::new(F::Cat(Box::new(a.clone()), Box::new(b.clone())))));
            }
        }
    }
    let (h, init) = held();
    spaces.push(
        Space::list("looks", all, move |f, rec| {
            let mut g = h.borrow_mut();
            let env = g.as_mut().unwrap();
            let e = f.term();
            let mut want = vec![];
            f.look(&Style::default(), &mut want);
            let plain: String = want.iter().map(|c| c.0).collect();
            rec.steps(2);
            match run(&e, env) {
                Err(p) => return rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) => {
                    let t = match show(&s) {
                        Ok(t) => t,
                        Err(m) => return rec.fail("sequence", format!("{} is {s:?}: {m}", e.debug())),
                    };
                    let same = t.printed.len() == want.len() && t.printed.iter().zip(&want).all(|((c, s), (d, w))| c == d && w.as_ref().map_or(true, |w| w == s));
                    if !same {
                        return rec.fail("look", format!("{} is {s:?}\nwhich looks {:?}\nand not {:?}", e.debug(), t.printed, want));
                    }
                    if t.style != Style::default() {
                        return rec.fail("reset", format!("{} is {s:?}: what follows looks {:?}", e.debug(), t.style));
                    }
                    rec.state(&s);
                }
                Ok((r, _)) => return rec.fail("value", format!("{} is {r:?}", e.debug())),
            }
            // without its styles it is the text
            match run(&call("fmt@strip", vec![e.clone()]), env) {
                Err(p) => rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) if s == plain => rec.trace(),
                Ok((r, _)) => rec.fail("strip", format!("without styles, {} is {r:?} and not {plain:?}", e.debug())),
            }
        })
        .init(init),
    );

    // every kind of value is styled as the text it is printed as
    let values = ["1", "1.5", "None", "True", "'x", "[1, \"a\"]", "{a = 1}", "x -> x", "len", "\"\"", "-3", "'(1 + 2)"];
    let mut cases = vec![];
    for (i, _) in STYLES.iter().enumerate() {
        for v in values {
            cases.push((i, v))
        }
    }
    let (h, init) = held();
    spaces.push(
        Space::list("values", cases, move |&(i, v), rec| {
            let mut g = h.borrow_mut();
            let env = g.as_mut().unwrap();
            let v = source(v);
            rec.steps(2);
            let plain = run(&E::call("str", vec![v.clone()]), env);
            let styled = run(&call(&format!("fmt@{}", STYLES[i].0), vec![v.clone()]), env);
            match (plain, styled) {
                (Ok((Ok(Str(p)), _)), Ok((Ok(Str(s)), _))) => match show(&s) {
                    Ok(t) if t.text() == p && t.style == Style::default() && t.printed.iter().all(|c| c.1 == with(Style::default(), STYLES[i].1)) => rec.trace(),
                    t => rec.fail("look", format!("{} of {} is {s:?}: {t:?}", STYLES[i].0, v.debug())),
                },
                (p, s) => rec.fail("value", format!("{p:?} {s:?}")),
            }
        })
        .init(init),
    );

    // every text of some length, in every style
    let signs = ['a', '\n', '\r', ' ', 'é', '日', '\\', '%', '"', '\t', '{', '\u{1F600}'];
    let k = signs.len() as u64;
    let length = if quick { 3 } else { 4 };
    let ways = STYLES.len() as u64 + 1;
    let text = move |i: u64| -> String { word(i, k, 0, length).iter().map(|&c| signs[c]).collect() };
    let (h, init) = held();
    spaces.push(
        Space::new("every text", words(k, 0, length) * ways, move |i| format!("{:?} in style {}", text(i / ways), i % ways), move |i, rec| {
            let mut g = h.borrow_mut();
            let env = g.as_mut().unwrap();
            let t = text(i / ways);
            let style = (i % ways) as usize;
            let (e, want) = match STYLES.get(style) {
                Some(s) => (call(&format!("fmt@{}", s.0), vec![E::str(&t)]), with(Style::default(), s.1)),
                Option::None => (call("fmt@href", vec![E::str("http://a.b/"), E::str(&t)]), Style { link: Some("http://a.b/".into()), ..Style::default() }),
            };
            rec.steps(2);
            match run(&e, env) {
                Err(p) => return rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) => match show(&s) {
                    Ok(v) if v.text() == t && v.style == Style::default() && v.printed.iter().all(|c| c.1 == want) => {
                        rec.state(&s);
                    }
                    v => return rec.fail("look", format!("{} is {s:?}: {v:?}", e.debug())),
                },
                Ok((r, _)) => return rec.fail("value", format!("{} is {r:?}", e.debug())),
            }
            match run(&call("fmt@strip", vec![e.clone()]), env) {
                Err(p) => rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) if s == t => rec.trace(),
                Ok((r, _)) => rec.fail("strip", format!("without styles, {} is {r:?} and not {t:?}", e.debug())),
            }
        })
        .init(init),
    );

    // text with any escape sequences in it
    let pieces = ["a", "m", "\x1b[1m", "\x1b[38;5;9m", "\x1b[m", "\x1b]8;;http://m.n/\x1b\\", "\x1b]8;;\x1b\\", "é", "[", "\n", "\x1b]2;title m\x07", "\x1b[2J", "\x1b[3;4H", "\x1b[?25l", "\x1b[2~", ";", "\\", "\t"];
    let plain = move |i: usize| if pieces[i].starts_with('\x1b') { "" } else { pieces[i] };
    let depth = if quick { 5 } else { 6 };
    let k = pieces.len() as u64;
    let (h, init) = held();
    spaces.push(
        Space::new("strip", words(k, 0, depth), move |i| format!("{:?}", word(i, k, 0, depth).iter().map(|&p| pieces[p]).collect::<String>()), move |i, rec| {
            let w = word(i, k, 0, depth);
            let text: String = w.iter().map(|&p| pieces[p]).collect();
            let want: String = w.iter().map(|&p| plain(p)).collect();
            let mut g = h.borrow_mut();
            rec.step();
            match run(&call("fmt@strip", vec![E::str(&text)]), g.as_mut().unwrap()) {
                Err(p) => rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) if s == want => {
                    rec.trace();
                    rec.state(&s);
                }
                Ok((r, _)) => rec.fail("strip", format!("{text:?} without styles is {r:?} and not {want:?}")),
            }
        })
        .init(init),
    );

    // filling
    let alphabet = ['a', ' ', '\n', 'é', 'b'];
    let n = if quick { 8 } else { 10 };
    let max = 6u64;
    let total = words(4, 0, n) * max;
    let text = move |i: u64| -> String { word(i, 4, 0, n).iter().map(|&c| alphabet[c]).collect() };
    let (h, init) = held();
    spaces.push(
        Space::new("wrap", total, move |i| format!("{:?} in {}", text(i / max), i % max + 1), move |i, rec| {
            let (t, w) = (text(i / max), (i % max + 1) as usize);
            let mut g = h.borrow_mut();
            rec.step();
            match run(&call("fmt@wrap", vec![E::str(&t), Int(w as i64)]), g.as_mut().unwrap()) {
                Err(p) => rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) => {
                    let lines: Vec<String> = s.split('\n').map(String::from).collect();
                    match filled(&t, &lines, w, false) {
                        Ok(()) => {
                            rec.trace();
                            rec.state(&s);
                        }
                        Err(m) => rec.fail("wrap", format!("{t:?} in {w} columns is {s:?}: {m}")),
                    }
                }
                Ok((r, _)) => rec.fail("wrap", format!("{t:?} in {w} columns is {r:?}")),
            }
        })
        .init(init),
    );
    // long texts, in few and in very many columns
    let many: Vec<usize> = if quick { vec![1, 2, 7, 20, 52, 79, 80, 100, 132, 200, 255, 256, 257, 1000, 46342, 70000] } else { (1..=300).chain([1000, 5000, 46342, 70000, 1 << 20]).collect() };
    let many_columns = *many.last().unwrap();
    let mut cases = vec![];
    for &w in &many {
        for p in 0..PATTERNS.len() {
            for lines in [false, true] {
                for n in [150, if w > 40000 { 30000 } else { 700 }] {
                    cases.push((w, p, lines, n))
                }
            }
        }
    }
    let (h, init) = held();
    spaces.push(
        Space::list("wrap large", cases, move |&(w, p, lines, n), rec| {
            let t = patterned(p, lines, n);
            let mut g = h.borrow_mut();
            rec.step();
            match run(&call("fmt@wrap", vec![E::str(&t), Int(w as i64)]), g.as_mut().unwrap()) {
                Err(p) => rec.fail("panic", p),
                Ok((Ok(Str(s)), _)) => {
                    let lines: Vec<String> = s.split('\n').map(String::from).collect();
                    match filled(&t, &lines, w, false) {
                        Ok(()) => {
                            rec.trace();
                            rec.state(&s);
                        }
                        Err(m) => rec.fail("wrap", format!("{n} words, pattern {p}, in {w} columns: {}", m.chars().take(600).collect::<String>())),
                    }
                }
                Ok((r, _)) => rec.fail("wrap", format!("{n} words, pattern {p}, in {w} columns is {:.200}", format!("{r:?}"))),
            }
        })
        .init(init),
    );
    Check {
        id: "C20",
        rule: "every style and link alone, inside each other and beside other text, is fed to a terminal model: each character must have exactly the styles around it, what follows must have none, and without its styles it must be the plain text; every sequence of texts and escape sequences is stripped to its texts; every text up to a length is filled into every width without losing, breaking or moving words".into(),
        bounds: format!("styles nested 3 deep; {depth} pieces; texts up to {n} characters in 1-{max} columns; texts of up to 30000 words in up to {} columns", many_columns),
        assumptions: vec!["a terminal that understands the standard (ECMA-48) sequences".into(), "how text looks after a style inside another has ended is left open".into()],
        spaces,
    }
}

// ---------------------------------------------------------------------------- C24

const LEVELS: &[(&str, i64, u32)] = &[("error", 1, 91), ("warn", 2, 93), ("info", 3, 92), ("debug", 4, 94), ("trace", 5, 95)];

#[derive(Clone, Debug)]
enum Op {
    Set(i64),
    SetBad,
    Disable,
    Get,
    Enabled(i64),
    Log(usize, usize),
    Echo(usize),
}

/// Arguments of a message, and the text of the message.
const MESSAGES: &[(&str, &str)] = &[("\"a\"", "a"), ("{println \"!\"; \"b\"} 5", "b 5"), ("(let seen = 1)", "None"), ("\"\" \"c d\" [1]", "")];

fn apply_source(f: &str, args: &str) -> E {
    match source(&format!("f {args}")) {
        Apply(_, a) => call(f, a),
        e => panic!("{}", e.debug()),
    }
}

pub fn logs(tier: Tier) -> Check {
    let mut ops: Vec<Op> = (-1..=6).map(Op::Set).collect();
    ops.extend([Op::SetBad, Op::Disable, Op::Get]);
    ops.extend([-1, 0, 1, 3, 5, 6].map(Op::Enabled));
    for l in 0..LEVELS.len() {
        for m in 0..3 {
            ops.push(Op::Log(l, m))
        }
    }
    ops.push(Op::Echo(1));
    let k = ops.len() as u64;
    let ops_n = k;
    let depth = if tier == Tier::Quick { 3 } else { 4 };
    let ops = Rc::new(ops);
    let o2 = ops.clone();
    let (h, init) = held();
    let histories = Space::new(
        "histories",
        words(k, 1, depth),
        move |i| word(i, k, 1, depth).iter().map(|&o| format!("{:?}", o2[o])).collect::<Vec<_>>().join(" "),
        move |i, rec| {
            let g = h.borrow();
            let mut env = g.as_ref().unwrap().clone();
            let _ = run(&call("log@set-level", vec![Int(0)]), &mut env);
            let (mut level, mut seen) = (0i64, false);
            for &o in &word(i, k, 1, depth) {
                let op = &ops[o];
                let unit = vec![];
                rec.step();
                let on = |l: i64| l <= 0 || level >= l;
                // the call, its value (None: an error), what it prints
                let (e, want, text): (E, Option<E>, String) = match op {
                    Op::Set(l) => (call("log@set-level", vec![Int(*l)]), Some(None), "".into()),
                    Op::SetBad => (call("log@set-level", vec![E::str("info")]), Option::None, "".into()),
                    Op::Disable => (E::apply(fun("log@disable"), unit), Some(None), "".into()),
                    Op::Get => (E::apply(fun("log@get-level"), unit), Some(Int(level)), "".into()),
                    Op::Enabled(l) => (call("log@enabled?", vec![Int(*l)]), Some(Bool(on(*l))), "".into()),
                    Op::Log(l, m) => {
                        let (name, n, _) = LEVELS[*l];
                        let text = if !on(n) {
                            "".into()
                        } else {
                            let t = format!("[{}] {}\n", name.to_uppercase(), MESSAGES[*m].1);
                            if *m == 1 { t.replacen("b 5", "!\nb 5", 1) } else { t }
                        };
                        (apply_source(&format!("log@{name}"), MESSAGES[*m].0), Some(None), text)
                    }
                    Op::Echo(m) => (apply_source("log@echo", MESSAGES[*m].0), Some(None), "!\nb 5\n".into()),
                };
                match run(&e, &mut env) {
                    Err(p) => return rec.fail("panic", p),
                    Ok((r, out)) => {
                        let t = match show(&out) {
                            Ok(t) => t,
                            Err(m) => return rec.fail("sequence", format!("{out:?}: {m}")),
                        };
                        // where the tag stands relative to what arguments print is left open
                        let untag = |s: &str| -> (String, usize) {
                            let mut s = s.to_string();
                            let mut n = 0;
                            for (l, ..) in LEVELS {
                                let tag = format!("[{}] ", l.to_uppercase());
                                n += s.matches(&tag).count();
                                s = s.replace(&tag, "");
                            }
                            (s, n)
                        };
                        if untag(&t.text()) != untag(&text) || (!text.contains('!') && t.text() != text) {
                            return rec.fail("message", format!("at level {level}, {} prints {out:?} and not {text:?}", e.debug()));
                        }
                        if r.clone().ok() != want {
                            return rec.fail("value", format!("at level {level}, {} is {r:?} and not {want:?}", e.debug()));
                        }
                        // only the tag is coloured, in the colour of the level
                        if let Op::Log(l, _) = op {
                            let c = LEVELS[*l].2;
                            let coloured: String = t.printed.iter().filter(|p| p.1.colour == Some(c)).map(|p| p.0).collect();
                            let tag = format!("[{}]", LEVELS[*l].0.to_uppercase());
                            let plain = t.printed.iter().filter(|p| p.1 == Style::default()).count();
                            if !text.is_empty() && (coloured != tag || plain + tag.len() != t.printed.len() || t.style != Style::default()) {
                                return rec.fail("colour", format!("{} prints {out:?}", e.debug()));
                            }
                        }
                    }
                }
                match op {
                    Op::Set(l) => level = *l,
                    Op::Disable => level = 0,
                    Op::Log(l, 2) if on(LEVELS[*l].1) => seen = true,
                    _ => {}
                }
                // arguments of messages that are not shown are not evaluated
                if env.is_defined("seen") != seen {
                    return rec.fail("evaluation", format!("at level {level}, after {}: evaluated: {}", e.debug(), !seen));
                }
                rec.state(&(level, seen, text));
            }
            rec.trace()
        },
    )
    .init(init);
    // messages of lines: every line has the tag
    let texts: Vec<String> = (0..words(3, 0, if tier == Tier::Quick { 6 } else { 8 })).map(|i| word(i, 3, 0, 8).iter().map(|&c| ['a', ' ', '\n'][c]).collect()).collect();
    let mut cases = vec![];
    for l in 0..LEVELS.len() {
        for t in &texts {
            cases.push((l, t.clone()))
        }
    }
    let (h, init) = held();
    let lines = Space::list("lines", cases, move |(l, t), rec| {
        let g = h.borrow();
        let mut env = g.as_ref().unwrap().clone();
        let _ = run(&call("log@set-level", vec![Int(5)]), &mut env);
        let tag = format!("[{}] ", LEVELS[*l].0.to_uppercase());
        // whether an empty line at the end is a line of its own, and ends, is left open
        let mut want: Vec<String> = t.split('\n').map(|x| format!("{tag}{x}")).collect();
        if t.ends_with('\n') {
            want.pop();
        }
        rec.step();
        match run(&call(&format!("log@{}", LEVELS[*l].0), vec![E::str(t)]), &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((Ok(None), out)) => {
                let shown = show(&out).map(|t| t.text()).unwrap_or_default();
                let got: Vec<String> = shown.strip_suffix('\n').unwrap_or(&shown).split('\n').map(String::from).collect();
                if got != want {
                    rec.fail("lines", format!("{t:?} is logged as {out:?}"))
                } else {
                    rec.trace()
                }
                rec.state(&out);
            }
            Ok((r, _)) => rec.fail("lines", format!("{r:?}")),
        }
    })
    .init(init);
    // messages of several parts: no line without its tag, and the parts in order
    const PARTS: &[&str] = &["a", "b\n", "c\nd", "", "\ne", "\n", "f\n\ng", "h i"];
    let k = PARTS.len() as u64;
    let n = if tier == Tier::Quick { 4 } else { 5 };
    let (h, init) = held();
    let pick = move |i: u64| (i as usize % LEVELS.len(), word(i / LEVELS.len() as u64, k, 0, n).iter().map(|&c| PARTS[c]).collect::<Vec<_>>());
    let parts = Space::new("parts", words(k, 0, n) * LEVELS.len() as u64, move |i| format!("{:?}", pick(i)), move |i, rec| {
        let (l, parts) = pick(i);
        let g = h.borrow();
        let mut env = g.as_ref().unwrap().clone();
        let _ = run(&call("log@set-level", vec![Int(5)]), &mut env);
        let tag = format!("[{}] ", LEVELS[l].0.to_uppercase());
        rec.step();
        let out = match run(&call(&format!("log@{}", LEVELS[l].0), parts.iter().map(|p| E::str(p)).collect()), &mut env) {
            Err(p) => return rec.fail("panic", p),
            Ok((Ok(None), out)) => out,
            Ok((r, _)) => return rec.fail("parts", format!("{r:?}")),
        };
        let shown = match show(&out) {
            Ok(t) => t.text(),
            Err(m) => return rec.fail("sequence", format!("{out:?}: {m}")),
        };
        let body = shown.strip_suffix('\n').unwrap_or(&shown);
        if !parts.is_empty() && body.split('\n').any(|x| !x.starts_with(&tag)) {
            return rec.fail("parts", format!("{parts:?} is logged as {out:?}: a line without its tag"));
        }
        // between parts there may be a space or a new line
        let letters = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        if letters(&shown.replace(&tag, "")) != letters(&parts.concat()) {
            return rec.fail("parts", format!("{parts:?} is logged as {out:?}: not its parts in order"));
        }
        rec.state(&out);
        rec.trace();
    })
    .init(init);
    // with no tag
    let (h, init) = held();
    let texts = move |i: u64| word(i, k, 1, n + 1).iter().map(|&c| PARTS[c]).collect::<Vec<_>>();
    let echoes = Space::new("echoes", words(k, 1, n + 1), move |i| format!("{:?}", texts(i)), move |i, rec| {
        let parts = texts(i);
        let g = h.borrow();
        let mut env = g.as_ref().unwrap().clone();
        let level = (i % 6) as i64;
        let _ = run(&call("log@set-level", vec![Int(level)]), &mut env);
        rec.step();
        match run(&call("log@echo", parts.iter().map(|p| E::str(p)).collect()), &mut env) {
            Err(p) => rec.fail("panic", p),
            Ok((r, out)) => {
                // and what a statement gives is shown as it is
                if let [p] = parts[..] {
                    match run(&call("report", vec![E::str(p)]), &mut env) {
                        Ok((Ok(None), out)) if out == format!("{p}\n") => {}
                        r => return rec.fail("report", format!("{p:?} is reported as {r:?}")),
                    }
                }
                if r != Ok(None) || out != parts.join(" ") + "\n" {
                    rec.fail("echo", format!("{parts:?} at level {level} is {out:?}, {r:?}"))
                } else {
                    rec.trace()
                }
                rec.state(&out);
            }
        }
    })
    .init(init);
    let codes = Space::list("levels", vec![()], |_, rec| {
        rec.step();
        let env = full_env("/");
        let Some(X::Map(m)) = env.get("log") else { return rec.fail("levels", "no log module") };
        let want = E::map(&[("none", Int(0)), ("error", Int(1)), ("warn", Int(2)), ("info", Int(3)), ("debug", Int(4)), ("trace", Int(5))]);
        if E::from_impl(&m["level"]) != want {
            rec.fail("levels", format!("{:?}", m["level"]))
        } else {
            rec.trace()
        }
    });
    Check {
        id: "C24",
        rule: "every history of setting, disabling and asking for the level, and of logging at each level with arguments that print and assign: a message is shown, and its arguments evaluated, exactly if its level is enabled then; every text up to a length has the level's tag, in its colour, on every line, and so has every message of several parts, which keeps their order".into(),
        bounds: format!("histories of up to {depth} operations out of {}; {n} parts out of {k}", ops_n),
        assumptions: vec![],
        spaces: vec![histories, lines, parts, echoes, codes],
    }
}

// ---------------------------------------------------------------------------- C30

type Effect = Box<dyn Fn(&mut Term)>;

fn console_ops() -> Vec<(E, Effect)> {
    let mut v: Vec<(E, Effect)> = vec![];
    let no = |f: &str| E::apply(fun(f), vec![None]);
    for (x, y) in [(1, 1), (3, 2), (20, 10), (2, 5)] {
        v.push((call("console@cursor@move-to", vec![Int(x), Int(y)]), Box::new(move |t| t.go(y, x))));
    }
    for n in [1i64, 3] {
        v.push((call("console@cursor@move-up", vec![Int(n)]), Box::new(move |t| t.go(t.cursor.0 - n, t.cursor.1))));
        v.push((call("console@cursor@move-down", vec![Int(n)]), Box::new(move |t| t.go(t.cursor.0 + n, t.cursor.1))));
        v.push((call("console@cursor@move-left", vec![Int(n)]), Box::new(move |t| t.go(t.cursor.0, t.cursor.1 - n))));
        v.push((call("console@cursor@move-right", vec![Int(n)]), Box::new(move |t| t.go(t.cursor.0, t.cursor.1 + n))));
    }
    v.push((no("console@cursor@save-position"), Box::new(|t| t.saved = t.cursor)));
    v.push((no("console@cursor@restore-position"), Box::new(|t| t.cursor = t.saved)));
    v.push((no("console@cursor@hide"), Box::new(|t| t.visible = false)));
    v.push((no("console@cursor@show"), Box::new(|t| t.visible = true)));
    v.push((no("console@mode@alternate"), Box::new(|t| t.alternate = true)));
    v.push((no("console@mode@normal"), Box::new(|t| t.alternate = false)));
    v.push((no("console@clear"), Box::new(|t| {
        t.clear();
        t.cursor = (1, 1)
    })));
    v.push((call("console@title", vec![E::str("my title")]), Box::new(|t| t.title = Some("my title".into()))));
    v.push((E::call("print", vec![E::str("xy")]), Box::new(|t| "xy".chars().for_each(|c| t.put(c)))));
    for (x, y, s) in [(2, 3, "ab"), (4, 1, "c\nd"), (1, 10, "é")] {
        v.push((
            call("console@write", vec![Int(x), Int(y), E::str(s)]),
            Box::new(move |t| {
                // each line below the one before, the cursor stays
                let at = t.cursor;
                for (k, l) in s.split('\n').enumerate() {
                    t.go(y + k as i64, x);
                    l.chars().for_each(|c| t.put(c));
                }
                t.cursor = at;
                // whether what was saved is kept is left open
                t.saved = at;
            }),
        ));
    }
    v
}

pub fn console(tier: Tier) -> Check {
    let depth = if tier == Tier::Quick { 4 } else { 5 };
    let k = console_ops().len() as u64;
    let ops = Rc::new(console_ops());
    let o2 = ops.clone();
    let (h, init) = held();
    let histories = Space::new(
        "histories",
        words(k, 1, depth),
        move |i| word(i, k, 1, depth).iter().map(|&o| o2[o].0.debug()).collect::<Vec<_>>().join("; "),
        move |i, rec| {
            let mut g = h.borrow_mut();
            let env = g.as_mut().unwrap();
            let w = word(i, k, 1, depth);
            let mut want = Term::new(20, 10);
            let mut real = Term::new(20, 10);
            let mut written = false;
            for &o in &w {
                let (e, effect) = &ops[o];
                let name = e.debug();
                if name.contains("restore") && written {
                    rec.note("restoring after writing elsewhere is left open");
                    return;
                }
                written = (written || name.contains("write")) && !name.contains("save-position");
                rec.step();
                match run(e, env) {
                    Err(p) => return rec.fail("panic", p),
                    Ok((Ok(None), out)) => {
                        if let Err(m) = real.feed(&out) {
                            return rec.fail("sequence", format!("{name} prints {out:?}: {m}"));
                        }
                        effect(&mut want);
                        if written {
                            want.saved = real.saved
                        }
                        if real != want {
                            return rec.fail("screen", format!("{}\nlast: {name} prints {out:?}\nis    {real:?}\nnot   {want:?}", w.iter().map(|&o| ops[o].0.debug()).collect::<Vec<_>>().join("; ")));
                        }
                    }
                    Ok((r, _)) => return rec.fail("value", format!("{name} is {r:?}")),
                }
                rec.state(&want);
            }
            rec.trace();
        },
    )
    .init(init);
    // writing anywhere any text
    let texts = ["", "a", "ab", "a\nb", "a\n\nb", "\na", "é\nü", "5"];
    let pos = [1i64, 2, 7, 10];
    let mut cases = vec![];
    for t in texts {
        for x in pos {
            for y in pos {
                for a in [(1, 1), (4, 6), (10, 20)] {
                    cases.push((t, x, y, a))
                }
            }
        }
    }
    let (h, init) = held();
    let writes = Space::list("writes", cases, move |&(s, x, y, at), rec| {
        let mut g = h.borrow_mut();
        let mut real = Term::new(40, 20);
        real.cursor = at;
        let mut want = real.clone();
        rec.step();
        match run(&call("console@write", vec![Int(x), Int(y), E::str(s)]), g.as_mut().unwrap()) {
            Err(p) => rec.fail("panic", p),
            Ok((Ok(None), out)) => {
                if let Err(m) = real.feed(&out) {
                    return rec.fail("sequence", format!("{out:?}: {m}"));
                }
                for (k, l) in s.split('\n').enumerate() {
                    want.go(y + k as i64, x);
                    l.chars().for_each(|c| want.put(c));
                }
                want.cursor = at;
                want.saved = real.saved;
                if real != want {
                    rec.fail("screen", format!("{s:?} at {x}, {y}: {real:?} and not {want:?}"))
                } else {
                    rec.trace()
                }
                rec.state(&out);
            }
            Ok((r, _)) => rec.fail("value", format!("{r:?}")),
        }
    })
    .init(init);
    // what is not a number is refused, and prints nothing
    let mut cases = vec![];
    for f in ["move-up", "move-down", "move-left", "move-right"] {
        for a in ["\"1\"", "None", "1.5", "[1]", "True"] {
            cases.push((format!("console@cursor@{f}"), a.to_string()))
        }
    }
    for a in ["\"1\" 2", "1 \"2\"", "None 1", "1 1.5"] {
        cases.push(("console@cursor@move-to".into(), a.into()));
        cases.push(("console@write".into(), format!("{a} \"t\"")));
    }
    let (h, init) = held();
    let refusals = Space::list("refusals", cases, move |(f, a), rec| {
        let mut g = h.borrow_mut();
        rec.step();
        match run(&apply_source(f, a), g.as_mut().unwrap()) {
            Err(p) => rec.fail("panic", p),
            Ok((Err(_), out)) if out.is_empty() => rec.trace(),
            Ok((r, out)) => rec.fail("refusal", format!("{f} {a} is {r:?} and prints {out:?}")),
        }
    })
    .init(init);
    Check {
        id: "C30",
        rule: "every history of console operations is fed to a terminal model and to a model of the screen: position, saved position, contents, title, visibility and mode must agree after every operation".into(),
        bounds: format!("histories of up to {depth} operations out of {k}, on a screen of 20 x 10"),
        assumptions: vec!["a terminal that understands the standard (ECMA-48, xterm) sequences".into(), "reading keys is decided by C34".into()],
        spaces: vec![histories, writes, refusals],
    }
}
