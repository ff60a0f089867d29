//! A terminal: what the text that a program writes looks like, and where.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Style {
    /// bold 1, faint 2, italics 3, underline 4, blink 5, invert 7, strike 9
    pub attrs: BTreeSet<u32>,
    pub colour: Option<u32>,
    pub link: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Term {
    pub width: i64,
    pub height: i64,
    /// (row, column), from 1
    pub cursor: (i64, i64),
    pub saved: (i64, i64),
    pub style: Style,
    pub cells: BTreeMap<(i64, i64), (char, Style)>,
    pub title: Option<String>,
    pub visible: bool,
    pub alternate: bool,
    /// everything printed, in order, with its style
    pub printed: Vec<(char, Style)>,
}

impl Term {
    pub fn new(width: i64, height: i64) -> Term {
        Term {
            width,
            height,
            cursor: (1, 1),
            saved: (1, 1),
            style: Style::default(),
            cells: BTreeMap::new(),
            title: None,
            visible: true,
            alternate: false,
            printed: vec![],
        }
    }

    pub fn go(&mut self, row: i64, col: i64) {
        self.cursor = (row.clamp(1, self.height), col.clamp(1, self.width));
    }

    pub fn put(&mut self, c: char) {
        self.printed.push((c, self.style.clone()));
        match c {
            '\n' => {
                let r = self.cursor.0 + 1;
                self.go(r, 1)
            }
            '\r' => self.cursor.1 = 1,
            _ => {
                self.cells.insert(self.cursor, (c, self.style.clone()));
                let (r, c) = self.cursor;
                self.go(r, c + 1)
            }
        }
    }

    pub fn clear(&mut self) {
        self.cells.clear()
    }

    /// What was printed, without how it looks.
    pub fn text(&self) -> String {
        self.printed.iter().map(|c| c.0).collect()
    }

    /// The terminal reads `s`. An error is a sequence that is not known here.
    pub fn feed(&mut self, s: &str) -> Result<(), String> {
        let v: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < v.len() {
            let c = v[i];
            i += 1;
            if c != '\x1b' {
                self.put(c);
                continue;
            }
            match v.get(i) {
                Some('[') => {
                    i += 1;
                    let start = i;
                    while i < v.len() && !('\x40'..='\x7e').contains(&v[i]) {
                        i += 1
                    }
                    let Some(&end) = v.get(i) else { return Err("unfinished sequence".into()) };
                    let par: String = v[start..i].iter().collect();
                    i += 1;
                    self.csi(&par, end)?
                }
                Some(']') => {
                    i += 1;
                    let start = i;
                    while i < v.len() && v[i] != '\x07' && v[i] != '\x1b' {
                        i += 1
                    }
                    let text: String = v[start..i].iter().collect();
                    if i >= v.len() {
                        return Err("unfinished text".into());
                    }
                    if v[i] == '\x07' {
                        i += 1
                    } else if v.get(i + 1) == Some(&'\\') {
                        i += 2
                    }
                    if let Some(t) = text.strip_prefix("2;").or(text.strip_prefix("0;")) {
                        self.title = Some(t.into())
                    } else if let Some(t) = text.strip_prefix("8;") {
                        let url = t.split_once(';').ok_or("link")?.1;
                        self.style.link = if url.is_empty() { None } else { Some(url.into()) }
                    } else {
                        return Err(format!("unknown text {text:?}"));
                    }
                }
                o => return Err(format!("unknown sequence {o:?}")),
            }
        }
        Ok(())
    }

    fn csi(&mut self, par: &str, end: char) -> Result<(), String> {
        let bad = || format!("unknown sequence {par:?} {end:?}");
        if let Some(p) = par.strip_prefix('?') {
            match (p, end) {
                ("25", 'l') => self.visible = false,
                ("25", 'h') => self.visible = true,
                ("1049", 'h') => self.alternate = true,
                ("1049", 'l') => self.alternate = false,
                _ => return Err(bad()),
            }
            return Ok(());
        }
        let n: Vec<i64> = par.split(';').map(|p| if p.is_empty() { Ok(0) } else { p.parse().map_err(|_| bad()) }).collect::<Result<_, _>>()?;
        let one = |k: usize| n.get(k).copied().unwrap_or(0).max(1);
        let (r, c) = self.cursor;
        match end {
            'm' => {
                if let [38, 5, x] = n[..] {
                    self.style.colour = Some(256 + x as u32);
                    return Ok(());
                }
                for x in n {
                    match x {
                        0 => {
                            self.style.attrs.clear();
                            self.style.colour = None
                        }
                        1..=5 | 7 | 9 => {
                            self.style.attrs.insert(x as u32);
                        }
                        30..=37 | 90..=97 => self.style.colour = Some(x as u32),
                        _ => return Err(bad()),
                    }
                }
            }
            'H' | 'f' => self.go(one(0), one(1)),
            'A' => self.go(r - one(0), c),
            'B' => self.go(r + one(0), c),
            'C' => self.go(r, c + one(0)),
            'D' => self.go(r, c - one(0)),
            's' => self.saved = self.cursor,
            'u' => self.cursor = self.saved,
            'J' if n == [2] => self.clear(),
            _ => return Err(bad()),
        }
        Ok(())
    }
}

/// The text as a terminal that has only one long line shows it.
pub fn show(s: &str) -> Result<Term, String> {
    let mut t = Term::new(1 << 20, 1 << 20);
    t.feed(s)?;
    Ok(t)
}
