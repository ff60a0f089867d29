//! C29 how lists and tables look: every drawing is read back.
use super::proc::Run;
use super::util::*;
use crate::engine::*;
use crate::spec::builtins::source;
use crate::spec::expr::E::{self, *};
use dune::Expression as X;

/// Columns a text takes on a terminal.
fn columns(t: &str) -> usize {
    t.chars().map(|c| if ('\u{2e80}'..'\u{a000}').contains(&c) { 2 } else { 1 }).sum()
}

/// The character at each column; the second column of a wide one is empty.
fn cells(line: &str) -> Vec<Option<char>> {
    line.chars().flat_map(|c| if columns(&c.to_string()) == 2 { vec![Some(c), Option::None] } else { vec![Some(c)] }).collect()
}

fn squeezed(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Frame {
    wall: char,
    top: (char, char, char, char),
    middle: (char, char, char, char),
    bottom: (char, char, char, char),
}

const LIST: Frame = Frame { wall: '┃', top: ('┏', '━', '┳', '┓'), middle: ('┣', '━', '╋', '┫'), bottom: ('┗', '━', '┻', '┛') };
const TABLE: Frame = Frame { wall: '│', top: ('╒', '═', '╤', '╕'), middle: ('├', '─', '┼', '┤'), bottom: ('└', '─', '┴', '┘') };

/// The rows of a frame, each of cells of lines.
fn rows(f: &Frame, lines: &[String]) -> Result<Vec<Vec<Vec<String>>>, String> {
    let err = |w: &str| Err(format!("{w}:\n{}", lines.join("\n")));
    if lines.len() < 2 {
        return err("no frame");
    }
    let grid: Vec<Vec<Option<char>>> = lines.iter().map(|l| cells(l)).collect();
    if grid.iter().any(|l| l.len() != grid[0].len()) {
        return err("not a rectangle");
    }
    let w = grid[0].len();
    let stops: Vec<usize> = (0..w).filter(|&k| grid[0][k] == Some(f.top.2)).chain([w - 1]).collect();
    let border = |l: &[Option<char>], b: &(char, char, char, char)| {
        l.iter().enumerate().all(|(k, c)| {
            *c == Some(match k {
                0 => b.0,
                _ if k == w - 1 => b.3,
                _ if stops.contains(&k) => b.2,
                _ => b.1,
            })
        })
    };
    if !border(&grid[0], &f.top) || !border(&grid[lines.len() - 1], &f.bottom) {
        return err("not a frame");
    }
    let mut out = vec![];
    for part in grid[1..lines.len() - 1].split(|l| border(l, &f.middle)) {
        let mut row = vec![vec![]; stops.len()];
        for l in part {
            let mut from = 0;
            for (k, &stop) in stops.iter().enumerate() {
                if l[from] != Some(f.wall) || l[stop] != Some(f.wall) {
                    return err("a wall is missing");
                }
                let text: String = l[from + 1..stop].iter().flatten().collect();
                row[k].push(text);
                from = stop;
            }
        }
        // one blank on both sides
        for cell in &mut row {
            for l in cell.iter_mut() {
                if l.is_empty() {
                    continue;
                }
                if !l.starts_with(' ') || !l.ends_with(' ') {
                    return err("no room around a text");
                }
                *l = l[1..l.len().max(2) - 1].to_string();
            }
        }
        out.push(row);
    }
    Ok(out)
}

/// Do the lines of a cell show the value? `wide`: there was this much room.
fn shows(v: &E, lines: &[String], room: Option<usize>) -> Result<(), String> {
    let trimmed: Vec<String> = {
        let mut l: Vec<String> = lines.iter().map(|l| l.trim_end().to_string()).collect();
        while l.last().is_some_and(|l| l.is_empty()) {
            l.pop();
        }
        l
    };
    let text = squeezed(&trimmed.concat());
    let expect = |t: String| if text == squeezed(&t) { Ok(()) } else { Err(format!("{:?} and not {t:?}", trimmed.join("\n"))) };
    match v {
        List(l) => {
            let first = trimmed.first().and_then(|l| l.chars().next());
            if first == Some('[') {
                // only where the frame does not fit
                if let Some(room) = room {
                    let least: usize = 1 + l.iter().map(|e| drawn_len(e) + 3).sum::<usize>();
                    if least <= room && l.iter().all(|e| !matches!(e, List(_) | Map(_))) {
                        return Err(format!("not in a frame of {least} in {room} columns: {text}"));
                    }
                }
                return expect(v.debug());
            }
            if l.is_empty() && room.is_some_and(|r| r < 2) {
                // no room for even that
                return Ok(());
            }
            let r = rows(&LIST, &trimmed)?;
            if let Some(room) = room {
                if columns(&trimmed[0]) > room && !l.is_empty() {
                    return Err(format!("{} columns in the place of {room}:\n{}", columns(&trimmed[0]), trimmed.join("\n")));
                }
            }
            if r.len() != 1 || (r[0].len() != l.len() && !(l.is_empty() && r[0].len() == 1)) {
                return Err(format!("{} rows of {} and not 1 of {}", r.len(), r[0].len(), l.len()));
            }
            l.iter().zip(&r[0]).try_for_each(|(e, c)| shows(e, c, Option::None))
        }
        Map(m) => {
            let r = rows(&TABLE, &trimmed)?;
            if m.is_empty() {
                return if r.len() == 1 && r[0].iter().flatten().all(|l| l.trim().is_empty()) { Ok(()) } else { Err("not empty".into()) };
            }
            if r.len() != m.len() {
                return Err(format!("{} rows and not {}", r.len(), m.len()));
            }
            for ((k, v), row) in m.iter().zip(&r) {
                if row.len() < 2 || row[0].concat().trim() != k {
                    return Err(format!("the row of {:?} and not of {k:?}", row[0].concat().trim()));
                }
                let rest = squeezed(&row[2..].iter().flatten().flat_map(|l| l.chars()).collect::<String>());
                match v {
                    Builtin(name) => {
                        shows(v, &row[1], Option::None)?;
                        if rest.is_empty() {
                            return Err(format!("no help for {name}"));
                        }
                    }
                    _ if !rest.is_empty() => return Err(format!("besides {k:?}: {rest:?}")),
                    List(_) => shows(v, &row[1], room.map(|r| r.saturating_sub(k.len() + 3)))?,
                    Map(_) => shows(v, &row[1], room)?,
                    _ => shows(v, &row[1], Option::None)?,
                }
            }
            Ok(())
        }
        other => expect(other.debug()),
    }
}

/// What a member needs at most (in bytes, that are no fewer than columns).
fn drawn_len(e: &E) -> usize {
    e.debug().len()
}

fn judge(v: &E, drawing: &str, room: usize, rec: &mut Rec) {
    let lines: Vec<String> = drawing.lines().map(String::from).collect();
    if let Err(e) = shows(v, &lines, Some(room)) {
        let e: String = e.chars().take(1200).collect();
        return rec.fail("drawing", format!("{} in {room} columns: {e}", v.debug().chars().take(200).collect::<String>()));
    }
    rec.state(drawing);
    rec.trace();
    rec.note(match drawing.chars().next() {
        Some('[') => "lists in brackets",
        Some('┏') => "lists in frames",
        _ => "tables",
    });
}

fn draw(v: &X, room: usize) -> Result<String, String> {
    guard(|| format!("{v:room$}"))
}

const WIDTHS: &[usize] = &[0, 1, 2, 3, 5, 8, 10, 16, 20, 40, 80, 120, 121, 200, 1000];

fn atoms() -> Vec<E> {
    let mut v: Vec<E> = vec![
        None, Int(0), Int(-12345), Flt(1.5), Bool(true), E::str(""), E::str("a b"), E::str("日本 é"), E::str("x\ny\t\"q\""), E::sym("s"), Quote(Box::new(E::sym("q"))), List(vec![]), Map(Default::default()),
    ];
    v.push(E::str(&"word ".repeat(30)));
    v.push(E::str(&"long".repeat(50)));
    v.push(Lam("x".into(), Box::new(E::call("+", vec![E::sym("x"), Int(1)])), Default::default()));
    v
}

/// Values with these members, in lists and tables.
fn grow(members: &[E], len: usize) -> Vec<E> {
    let keys = ["k", "long key", "é日"];
    let mut out = vec![];
    for i in 0..words(members.len() as u64, 0, len as u32) {
        let m: Vec<E> = word(i, members.len() as u64, 0, len as u32).into_iter().map(|d| members[d].clone()).collect();
        out.push(Map(m.iter().zip(keys).map(|(e, k)| (k.to_string(), e.clone())).collect()));
        out.push(List(m));
    }
    out
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let mut spaces = vec![];
    // values within values
    let a = atoms();
    let ones = grow(&a, if q { 2 } else { 3 });
    let few: Vec<E> = grow(&[Int(7), E::str("a b"), E::str("日"), None], 2);
    let mut inner: Vec<E> = few.clone();
    inner.extend(a.iter().take(4).cloned());
    let mut values = ones;
    values.extend(grow(&inner, 2));
    values.extend(grow(&grow(&grow(&[Int(7), E::str("a b c d e f g h")], 1), 1), if q { 1 } else { 2 }));
    let (n, values) = (values.len() as u64, std::rc::Rc::new(values));
    let w = WIDTHS.len() as u64;
    let v2 = values.clone();
    spaces.push(
        Space::new("values in values", n * w, move |i| format!("{} in {} columns", v2[(i / w) as usize].debug(), WIDTHS[(i % w) as usize]), move |i, rec| {
            let (v, room) = (&values[(i / w) as usize], WIDTHS[(i % w) as usize]);
            rec.step();
            match draw(&v.to_impl(), room) {
                Err(p) => rec.fail("panic", p),
                Ok(t) => judge(v, &t, room, rec),
            }
        })
        .init(|s| super::diff::prepare(s)),
    );
    // lists of every length about as wide as the room
    let longest = if q { 45u64 } else { 130 };
    let case = move |i: u64| {
        let d = digits(i, &[longest, 9, 140, 3]);
        let member = match d[1] {
            0 => Int(5),
            1 => Int(-12),
            2 => E::str(""),
            3 => E::str("é"),
            4 => E::str("日本"),
            5 => E::str("a b c"),
            6 => E::ints([1, 2]),
            7 => E::map(&[("k", Int(1))]),
            _ => List(vec![]),
        };
        let l = List(vec![member; d[0]]);
        let v = match d[3] {
            0 => l,
            1 => E::map(&[("key", l)]),
            _ => E::map(&[("a", Int(1)), ("key", E::map(&[("b", l), ("c", E::str("c"))]))]),
        };
        (v, d[2] + 1)
    };
    spaces.push(
        Space::new("wide lists", longest * 9 * 140 * 3, move |i| { let (v, w) = case(i); format!("{} in {w} columns", v.debug()) }, move |i, rec| {
            let (v, room) = case(i);
            rec.step();
            match draw(&v.to_impl(), room) {
                Err(p) => rec.fail("panic", p),
                Ok(t) => judge(&v, &t, room, rec),
            }
        })
        .init(|s| super::diff::prepare(s)),
    );
    // what the shell prints, on terminals of several sizes and elsewhere
    let texts = [
        "[1, 2, 3]", "[]", "{}", "{a = 1, b = [1, 2], c = {d = \"e f\"}}", "[[1], {k = None}, \"日本\"]", "to 1 30", "[to 1 30]", "{l = to 1 30}", "{l = to 1 12, m = {n = to 1 10}}", "{a = \"word word word word word word word word word word word\"}", "[\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\", 1]",
    ];
    let mut cases: Vec<(String, Option<u16>)> = vec![];
    for t in texts {
        for w in [Option::None, Some(5), Some(20), Some(40), Some(78), Some(80), Some(120), Some(133), Some(300)] {
            cases.push((t.to_string(), w))
        }
    }
    
    let h: super::session::Held = Default::default();
    let h2 = h.clone();
    spaces.push(
        Space::list("printed", cases, move |(t, w), rec| {
            rec.step();
            let mut v = source(t);
            // the lists that are computed
            fn whole(e: &mut E) {
                match e {
                    Apply(f, a) => {
                        if let (Sym(s), [Int(x), Int(y)]) = (&**f, &a[..]) {
                            if s == "to" {
                                *e = E::ints(*x..*y)
                            }
                        }
                    }
                    Group(g) => {
                        whole(g);
                        *e = (**g).clone()
                    }
                    List(l) => l.iter_mut().for_each(whole),
                    Map(m) => m.values_mut().for_each(whole),
                    _ => {}
                }
            }
            whole(&mut v);
            let h = h.borrow();
            let place = h.as_ref().unwrap();
            std::fs::write(place.root.join("show.ds"), format!("println ({t})")).unwrap();
            let mut run = Run::new(&place.exe, &place.root).args(&["show.ds"]);
            if let Some(w) = w {
                run = run.screen(*w, 50)
            }
            let out = run.go();
            let text = out.out.replace("\r\n", "\n");
            judge(&v, &text, w.unwrap_or(120) as usize, rec);
        })
        .init(super::session::shell_worker("dunesh", h2)),
    );
    Check {
        id: "C29",
        rule: "every value over the pools in every width; each drawing is read back and must show the value, in a frame that is whole and, for a list, fits".into(),
        bounds: format!("{n} values in {w} widths; lists of up to {longest} members of nine kinds in each width up to 140, alone and in tables; {} values printed on terminals of eight sizes and elsewhere", texts.len()),
        assumptions: vec!["blanks and ends of lines within a cell are not compared, because long texts are wrapped".into()],
        spaces,
    }
}
