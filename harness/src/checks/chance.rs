//! C26 chance: what can come out of `rand`, whatever numbers the generator draws.
use super::util::*;
use crate::engine::*;
use crate::spec::expr::E;
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vshim::rng;

/// Calls a builtin of `rand` while the generator draws the numbers of a script.
struct Roll {
    env: Environment,
    f: X,
}

impl Roll {
    fn new(env: &Environment, name: &str) -> Self {
        let mut env = env.clone();
        let f = src(&format!("rand@{name}")).eval(&mut env).unwrap();
        Roll { env, f }
    }
    fn call(&mut self, args: &[X], draws: Vec<u64>) -> Result<Result<X, Error>, String> {
        let x = X::Apply(Box::new(self.f.clone()), args.iter().map(|a| X::Quote(Box::new(a.clone()))).collect());
        rng::script(Some(draws));
        let env = &mut self.env;
        let r = guard(|| x.eval(env));
        r
    }
}

/// All tuples of `d` draws spread evenly over what a generator can draw, no two draws of a tuple alike.
fn grid(d: u32) -> (u64, impl Fn(u64) -> Vec<u64>) {
    let g: u64 = match d {
        0 | 1 => 5040,
        2 => 720,
        3 => 60,
        _ => 36,
    };
    let n = if d <= 4 { g.pow(d) } else { 1 << 20 };
    (n, move |i| {
        if d > 4 {
            return (0..d as u64).map(|j| rng::noise(i * 64 + j)).collect();
        }
        (0..d as u64)
            .map(|j| {
                let k = i / g.pow(j as u32) % g;
                let cell = u64::MAX / g;
                k * cell + cell / (d as u64 + 1) * (j + 1) + k
            })
            .collect()
    })
}

/// Every outcome there should be, as often as every other, within a part of how often that is. `outcome` numbers them; `None`: not one of them.
fn fair(rec: &mut Rec, roll: &mut Roll, args: &[X], outcomes: usize, within: f64, outcome: impl Fn(&X) -> Option<usize>) {
    // how many numbers does it draw?
    let d = (0..64)
        .map(|k| {
            let _ = roll.call(args, vec![rng::noise(1000 + k)]);
            rng::draws() as u32
        })
        .min()
        .unwrap();
    let drawn = d > 0;
    let (n, draws) = grid(if drawn { d } else { 5 });
    // a generator of its own: many throws instead
    let n = if drawn { n } else { 2000 * outcomes as u64 };
    let mut seen = vec![0u64; outcomes];
    for i in 0..n {
        rec.step();
        let s = draws(i);
        match roll.call(args, s.clone()) {
            Err(p) => return rec.fail("panic", format!("draws {s:?}: {p}")),
            Ok(Err(e)) => return rec.fail("refused", format!("draws {s:?}: {e}")),
            Ok(Ok(v)) => match outcome(&v) {
                Some(k) => seen[k] += 1,
                None => return rec.fail("impossible", format!("draws {s:?}: {:?}", E::from_impl(&v).debug())),
            },
        }
    }
    rec.state(&seen);
    let mean = n as f64 / outcomes as f64;
    for (k, &c) in seen.iter().enumerate() {
        if c == 0 {
            return rec.fail("never", format!("outcome {k} of {outcomes} never comes ({seen:?} of {n} draws)"));
        }
        if n >= 8 * outcomes as u64 && (c as f64 / mean - 1.0).abs() > within {
            return rec.fail("unfair", format!("outcome {k} of {outcomes} comes {c} times and not about {mean:.0} ({seen:?})"));
        }
    }
    rec.trace();
    rec.note(if drawn { "scripted" } else { "thrown" });
}

fn orders(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x);
            out.push(o)
        }
    }
    out
}

/// Members of every kind, told apart by their text.
const MEMBERS: &[&str] = &["1", "\"a\"", "[1, 2]", "{k = 1}", "None", "2.5", "True", "x -> x + 1"];

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let held: Rc<RefCell<Option<Environment>>> = Rc::new(RefCell::new(None));
    let with = |s: Space| {
        let h = held.clone();
        s.timeout(300.0).init(move |scratch| {
            unprivileged(scratch);
            bare_process_env();
            *h.borrow_mut() = Some(full_env("/dev"));
        })
    };
    let mut spaces = vec![];

    // int: l..h
    let widths = if q { 12 } else { 40 };
    let lows: Vec<i64> = vec![0, 1, -1, -5, 100, i64::MIN, i64::MIN + 1, i64::MAX - 45, i32::MAX as i64 - 3, u32::MAX as i64 - 3, i32::MIN as i64 - 2];
    const MANY: [i64; 20] = [31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 365, 500];
    let mut cases: Vec<(i64, i64)> = lows.iter().flat_map(|&l| (1..=widths).map(move |w| (l, w))).collect();
    cases.extend([0, 1, -1, -5, -100, i64::MIN].iter().flat_map(|&l| MANY.map(|w| (l, w))));
    let h = held.clone();
    spaces.push(with(Space::list("integers, each", cases, move |&(l, w), rec| {
        let mut roll = Roll::new(h.borrow().as_ref().unwrap(), "int");
        fair(rec, &mut roll, &[X::Integer(l), X::Integer(l + w)], w as usize, 0.25, |v| match v {
            X::Integer(x) if *x >= l && *x - l < w => Some((*x - l) as usize),
            _ => None,
        });
    })));

    // wide ranges: by sixteenths
    let ends: Vec<i64> = vec![i64::MIN, i64::MIN + 1, -(1 << 62), -(1 << 40), -(1 << 32) - 1, -1 << 31, -1000, -1, 0, 1, 1000, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 53) + 1, 1 << 62, i64::MAX - 1, i64::MAX];
    let mut cases = vec![];
    for &l in &ends {
        for &h in &ends {
            if (h as i128 - l as i128) >= 1000 {
                cases.push((l, h))
            }
        }
    }
    let h = held.clone();
    spaces.push(with(Space::list("integers, in parts", cases, move |&(l, r), rec| {
        let mut roll = Roll::new(h.borrow().as_ref().unwrap(), "int");
        let w = r as i128 - l as i128;
        fair(rec, &mut roll, &[X::Integer(l), X::Integer(r)], 16, 0.9, |v| match v {
            X::Integer(x) if *x >= l && *x < r => Some(((*x as i128 - l as i128) * 16 / w) as usize),
            _ => None,
        });
    })));

    // choose: every member of lists with and without equal members
    let longest = if q { 24 } else { 100 };
    let h = held.clone();
    spaces.push(with(Space::list("members, each", (1..=longest).chain(MANY.iter().map(|n| *n as usize)).collect::<Vec<usize>>(), move |&n, rec| {
        let mut roll = Roll::new(h.borrow().as_ref().unwrap(), "choose");
        let list = X::List((0..n as i64).map(X::Integer).collect());
        fair(rec, &mut roll, &[list], n, 0.25, |v| match v {
            X::Integer(x) if *x >= 0 && *x < n as i64 => Some(*x as usize),
            _ => None,
        });
    })));
    let m = MEMBERS.len() as u64;
    let len = if q { 3 } else { 4 };
    let h = held.clone();
    let list = move |i: u64| word(i, m, 1, len).iter().map(|&d| MEMBERS[d]).collect::<Vec<_>>();
    spaces.push(with(Space::new("members, as they are", words(m, 1, len), move |i| format!("{:?}", list(i)), move |i, rec| {
        let h = h.borrow();
        let env = h.as_ref().unwrap();
        let vals: Vec<X> = list(i).iter().map(|t| src(t).eval(&mut env.clone()).unwrap()).collect();
        let texts: Vec<String> = vals.iter().map(|v| E::from_impl(v).debug()).collect();
        for f in ["choose", "shuffle"] {
            let mut roll = Roll::new(env, f);
            for k in 0..60 {
                rec.step();
                let draws: Vec<u64> = vec![u64::MAX / 60 * k + 7, rng::noise(k), rng::noise(k + 100)];
                let ok = match roll.call(&[X::List(vals.clone())], draws) {
                    Err(p) => return rec.fail("panic", p),
                    Ok(Ok(X::List(v))) if f == "shuffle" => {
                        let mut a: Vec<String> = v.iter().map(|v| E::from_impl(v).debug()).collect();
                        let mut b = texts.clone();
                        rec.state(&a);
                        a.sort();
                        b.sort();
                        a == b
                    }
                    Ok(Ok(v)) => f == "choose" && texts.contains(&E::from_impl(&v).debug()),
                    Ok(Err(_)) => false,
                };
                if !ok {
                    return rec.fail("impossible", format!("{f} with draw {k}/60"));
                }
            }
        }
        rec.trace();
    })));

    // shuffle: every order
    let h = held.clone();
    let n = if q { 5 } else { 6 };
    spaces.push(with(Space::list("orders, each", (0..=n).collect::<Vec<usize>>(), move |&n, rec| {
        let mut roll = Roll::new(h.borrow().as_ref().unwrap(), "shuffle");
        let all: BTreeMap<Vec<i64>, usize> =
            orders(&(0..n).collect::<Vec<_>>()).into_iter().enumerate().map(|(k, o)| (o.into_iter().map(|x| x as i64).collect(), k)).collect();
        let list = X::List((0..n as i64).map(X::Integer).collect());
        fair(rec, &mut roll, &[list], all.len(), 0.25, |v| match v {
            X::List(v) => {
                let o: Option<Vec<i64>> = v.iter().map(|x| if let X::Integer(i) = x { Some(*i) } else { None }).collect();
                o.and_then(|o| all.get(&o).copied())
            }
            _ => None,
        });
    })));
    // long lists stay what they are, in another order
    let h = held.clone();
    spaces.push(with(Space::new("long lists", if q { 300 } else { 2000 }, |i| format!("{i} members"), move |i, rec| {
        let mut roll = Roll::new(h.borrow().as_ref().unwrap(), "shuffle");
        let list: Vec<X> = (0..i as i64).map(|k| X::Integer(k / 2)).collect();
        // every member can come to another place
        let mut moved = vec![false; i as usize];
        for k in 0..64 {
            rec.step();
            let draws = (0..4 * i + 4).map(|d| rng::noise(k * 100_000 + d)).collect();
            let each = X::List((0..i as i64).map(X::Integer).collect());
            if let Ok(Ok(X::List(v))) = roll.call(&[each], draws) {
                for (at, x) in v.iter().enumerate() {
                    if *x != X::Integer(at as i64) {
                        moved[at] = true
                    }
                }
            }
        }
        if i > 1 && moved.contains(&false) {
            return rec.fail("never", format!("of 64 orders, the member at {:?} is always in its place", moved.iter().position(|m| !m)));
        }
        for k in 0..16 {
            rec.step();
            match roll.call(&[X::List(list.clone())], vec![u64::MAX / 15 * k; 4 * i as usize + 4]) {
                Ok(Ok(X::List(v))) => {
                    let mut v: Vec<i64> = v.iter().map(|x| if let X::Integer(i) = x { *i } else { -1 }).collect();
                    rec.state(&v);
                    v.sort();
                    if v != (0..i as i64).map(|k| k / 2).collect::<Vec<_>>() {
                        return rec.fail("impossible", format!("draw {k}/15: members changed"));
                    }
                }
                r => return rec.fail("impossible", format!("draw {k}/15: {}", r.map(|r| r.map(|v| v.to_string()).map_err(|e| e.to_string())).map(|r| format!("{r:?}")).unwrap_or_else(|p| p))),
            }
        }
        rec.trace();
    })));

    // what there is no choice from, and what is not a range or a list
    const ODD: &[&str] = &["None", "1", "0", "-1", "5", "1.0", "True", "\"ab\"", "\"\"", "[]", "[1]", "[1, 2]", "{}", "{a = 1}", "x -> x", "9223372036854775807", "-9223372036854775807 - 1"];
    let n = ODD.len() as u64;
    let h = held.clone();
    let args = move |i: u64| word(i, n, 0, 3).iter().map(|&d| ODD[d]).collect::<Vec<_>>();
    spaces.push(with(Space::new("mistakes", words(n, 0, 3), move |i| format!("{:?}", args(i)), move |i, rec| {
        let h = h.borrow();
        let env = h.as_ref().unwrap();
        let vals: Vec<X> = args(i).iter().map(|t| src(t).eval(&mut env.clone()).unwrap()).collect();
        for f in ["int", "choose", "shuffle"] {
            rec.step();
            let good = match (f, &vals[..]) {
                ("int", [X::Integer(l), X::Integer(h)]) => l < h,
                ("choose", [X::List(l)]) => !l.is_empty(),
                ("shuffle", [X::List(_)]) => true,
                _ => false,
            };
            match Roll::new(env, f).call(&vals, vec![]) {
                Err(p) => return rec.fail("panic", format!("{f}: {p}")),
                Ok(Ok(v)) if !good => return rec.fail("accepted", format!("{f}: {:?}", E::from_impl(&v).debug())),
                Ok(Err(e)) if good => return rec.fail("refused", format!("{f}: {e}")),
                Ok(Err(Error::CustomError(_))) | Ok(Ok(_)) => {}
                Ok(Err(e)) => return rec.fail("error", format!("{f}: code {}: {e}", e.code())),
            }
        }
        rec.state(&args(i));
        rec.trace();
    })));

    Check {
        id: "C26",
        rule: "every tuple of draws on an even grid over what the generator can draw; every outcome must come, as often as every other, and no other".into(),
        bounds: format!("ranges of up to {widths} integers at 11 places (each value) and all ranges between 18 ends (by sixteenths); lists of up to {longest} members; all orders of up to {} members; all mixed lists of up to {len} members; all calls with up to three of 17 arguments", if q { 5 } else { 6 }),
        assumptions: vec!["rand 0.8's generator draws uniformly".into(), "where more than four numbers are drawn, 2^20 fixed tuples without a pattern stand for all".into()],
        spaces,
    }
}
