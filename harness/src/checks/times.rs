//! C28 time: the date and the time of day that the clock shows, and how long a program sleeps.
use super::diff::prepare;
use super::util::*;
use crate::clock;
use crate::engine::*;
use crate::spec::expr::E;
use dune::{Environment, Expression as X};
use std::cell::RefCell;
use std::rc::Rc;

/// Year, month and day of a day since 1970-01-01, in the calendar that has been reformed for ever.
pub fn date(mut day: i64) -> (i64, i64, i64) {
    let mut year = 1970;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    // 400 years are always as long
    year += 400 * day.div_euclid(146097);
    day = day.rem_euclid(146097);
    loop {
        let n = if leap(year) { 366 } else { 365 };
        if day < n {
            break;
        }
        day -= n;
        year += 1;
    }
    for (m, mut n) in [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31].into_iter().enumerate() {
        if m == 1 && leap(year) {
            n += 1
        }
        if day < n {
            return (year, m as i64 + 1, day + 1);
        }
        day -= n;
    }
    unreachable!()
}

/// Zones of one offset from UTC, in seconds, as the system names them.
const ZONES: &[(&str, i64)] = &[("UTC0", 0), ("AAA-1", 3600), ("AAA-5:30", 19800), ("AAA-5:45", 20700), ("AAA-14", 50400), ("AAA3:30", -12600), ("AAA8", -28800), ("AAA12", -43200), ("AAA0:00:30", -30)];

/// The second Sunday of March and the first of November, at two o'clock: what the rest is not.
const SUMMER: &str = "EST5EDT,M3.2.0,M11.1.0";

fn offset(zone: usize, at: i64) -> i64 {
    if zone < ZONES.len() {
        return ZONES[zone].1;
    }
    let year = date((at - 18000).div_euclid(86400)).0;
    // the first day of that month, and its sundays
    let start = |month: i64, nth: i64| {
        let mut day = (year - 1970) * 365 - 10;
        while date(day) != (year, month, 1) {
            day += 1
        }
        let first = day + (7 - (day + 4).rem_euclid(7)) % 7;
        (first + 7 * (nth - 1)) * 86400 + 2 * 3600
    };
    if at >= start(3, 2) + 5 * 3600 && at < start(11, 1) + 4 * 3600 {
        -4 * 3600
    } else {
        -5 * 3600
    }
}

fn zone(k: usize) -> &'static str {
    ZONES.get(k).map_or(SUMMER, |z| z.0)
}

/// What `time@now` gives at a moment.
fn moment(at: i64, zone: usize) -> E {
    let local = at + offset(zone, at);
    let (y, m, d) = date(local.div_euclid(86400));
    let minute = local.rem_euclid(86400) / 60;
    let (h, min) = (minute / 60, minute % 60);
    let twelve = if h % 12 == 0 { 12 } else { h % 12 };
    E::map(&[
        ("year", E::Int(y)),
        ("month", E::Int(m)),
        ("day", E::Int(d)),
        ("hour", E::Int(h)),
        ("time", E::map(&[("str", E::Str(format!("{twelve}:{min:02} {}", if h < 12 { "AM" } else { "PM" })))])),
        ("date", E::map(&[("str", E::Str(format!("{m:02}/{d:02}/{:02}", y.rem_euclid(100))))])),
    ])
}

struct Now {
    env: Environment,
    now: X,
    sleep: X,
    zone: usize,
}

impl Now {
    fn set(&mut self, zone_: usize) {
        if self.zone != zone_ {
            std::env::set_var("TZ", zone(zone_));
            extern "C" {
                fn tzset();
            }
            unsafe { tzset() };
            self.zone = zone_
        }
    }
}

type Held = Rc<RefCell<Option<Now>>>;

fn look(n: &mut Now, at: i64, nanos: i64, z: usize, step: i64, rec: &mut Rec) {
    n.set(z);
    rec.step();
    clock::install(at, nanos, step);
    let got = guard(|| X::Apply(Box::new(n.now.clone()), vec![]).eval(&mut n.env));
    let (looks, _) = clock::remove();
    let say = || format!("second {at}.{nanos:09} in {} with a clock that goes {step} s per look", zone(z));
    match got {
        Err(p) => rec.fail("panic", format!("{}: {p}", say())),
        Ok(Err(e)) => rec.fail("error", format!("{}: {e}", say())),
        Ok(Ok(v)) => {
            let v = E::from_impl(&v);
            if looks == 0 {
                return rec.fail("clock", format!("{}: the clock is not looked at", say()));
            }
            // one of the moments at which the clock was looked at
            if !(0..looks as i64).any(|k| same(&v, &moment(at + k * step, z))) {
                return rec.fail("moment", format!("{}: {} and not {}", say(), v.debug(), moment(at, z).debug()));
            }
            rec.state(&v.debug());
            rec.trace();
        }
    }
}

/// What is asked for is there; there may be more.
fn same(v: &E, want: &E) -> bool {
    match (v, want) {
        (E::Map(v), E::Map(w)) => w.iter().all(|(k, w)| v.get(k).is_some_and(|v| same(v, w))),
        _ => v == want,
    }
}

pub fn check(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let h: Held = Default::default();
    let with = |s: Space| {
        let h = h.clone();
        s.init(move |scratch| {
            prepare(scratch);
            let mut env = full_env("/dev");
            let now = src("time@now").eval(&mut env).unwrap();
            let sleep = src("time@sleep").eval(&mut env).unwrap();
            *h.borrow_mut() = Some(Now { env: Environment::new(), now, sleep, zone: usize::MAX });
        })
    };
    let zones = ZONES.len() as u64 + 1;
    let mut spaces = vec![];
    // every day until the year 2400, at its ends
    const TIMES: &[i64] = &[0, 59, 60, 3599, 3600, 43199, 43200, 46799, 46800, 86399];
    let t = TIMES.len() as u64;
    let days = if q { 48000 } else { 157060 };
    let h2 = h.clone();
    let per = if q { 3 } else { 1 };
    spaces.push(with(Space::new("days", days * t, move |i| format!("day {} second {}", i / t, TIMES[(i % t) as usize]), move |i, rec| {
        let mut n = h2.borrow_mut();
        let n = n.as_mut().unwrap();
        for z in 0..zones {
            if (i + z) % per == 0 || z == 0 {
                look(n, (i / t) as i64 * 86400 + TIMES[(i % t) as usize], 999_999_999, z as usize, 0, rec)
            }
        }
    })));
    // every second of some days
    let some: Vec<i64> = vec![0, 31 + 28, 11016, 19423, 19428, 19666, 19787, 20088];
    let h2 = h.clone();
    let (s2, step) = (some.clone(), if q { 7 } else { 1 });
    spaces.push(with(Space::new("seconds", some.len() as u64 * 86400 / step, move |i| format!("second {}", i * step), move |i, rec| {
        let mut n = h2.borrow_mut();
        let n = n.as_mut().unwrap();
        let (d, s) = (s2[(i * step / 86400) as usize], (i * step % 86400) as i64);
        for z in [0, 2, zones as usize - 1] {
            look(n, d * 86400 + s, 0, z, 0, rec)
        }
    })));
    // while time passes
    let h2 = h.clone();
    let ends: Vec<i64> = [3i64, 59, 365, 789, 10956, 11015, 19358, 19782, 20088, 22000].iter().map(|d| d * 86400).collect();
    let steps = [1i64, 59, 60, 3600, 43200, 86400, 86400 * 31, 86400 * 366];
    let cases: Vec<(i64, i64, i64)> = ends.iter().flat_map(|&e| steps.iter().flat_map(move |&s| [-86400, -3600, -60, -1, 0, 43199, 43200].into_iter().map(move |k| (e, s, k)))).collect();
    spaces.push(with(Space::list("while it is looked at", cases, move |&(e, s, k), rec| {
        let mut n = h2.borrow_mut();
        let n = n.as_mut().unwrap();
        for z in 0..zones as usize {
            look(n, e - offset(z, e) + k, 500_000_000, z, s, rec)
        }
    })));
    // sleeping
    let mut ms: Vec<E> = (0..3000).map(E::Int).collect();
    for k in [10_000i64, 86_400_000, 1 << 31, (1 << 31) + 1, 1 << 32, 1 << 53, i64::MAX / 1_000_001, i64::MAX] {
        ms.extend([E::Int(k), E::Int(k - 1), E::Int(-k)]);
    }
    ms.extend([-1, -2, -999, -1000, i64::MIN].map(E::Int));
    ms.extend([0.0, -0.0, 0.25, 0.5, 0.999, 1.0, 1.5, 2.75, 999.999, 1000.5, 1e6, 1e12, -0.5, -1.0, -1e300, f64::NAN, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::INFINITY, 1e300, 1e19, f64::MAX].map(E::Flt));
    ms.extend([E::None, E::str("5"), E::Bool(true), E::List(vec![E::Int(1)]), E::sym("x")]);
    let h2 = h.clone();
    spaces.push(with(Space::list("sleeping", ms, move |e, rec| {
        let mut n = h2.borrow_mut();
        let n = n.as_mut().unwrap();
        rec.step();
        clock::install(0, 0, 0);
        let x = X::Apply(Box::new(n.sleep.clone()), vec![X::Quote(Box::new(e.to_impl()))]);
        let got = guard(|| x.eval(&mut n.env));
        let (_, slept) = clock::remove();
        let (least, most) = match e {
            E::Int(k) => ((*k).max(0) as u128 * 1_000_000, (*k).max(0) as u128 * 1_000_000),
            E::Flt(x) if x.is_nan() || *x <= 0.0 => (0, 0),
            // longer than anyone can wait
            E::Flt(x) if *x > 1e18 => (1_000_000_000_000_000_000, u128::MAX),
            E::Flt(x) => (x.floor() as u128 * 1_000_000, (*x).ceil() as u128 * 1_000_000),
            _ => {
                match got {
                    Ok(Err(dune::Error::CustomError(_))) if slept == 0 => rec.trace(),
                    _ => rec.fail("accepted", format!("{} ns", slept)),
                }
                return;
            }
        };
        let negative = matches!(e, E::Int(k) if *k < 0) || matches!(e, E::Flt(x) if *x < 0.0 || x.is_nan());
        match got {
            Err(p) => return rec.fail("panic", p),
            Ok(Ok(X::None)) if slept >= least && slept <= most => {}
            Ok(Err(_)) if negative && slept == 0 => {}
            Ok(r) => return rec.fail("slept", format!("{slept} ns and not {least} to {most}, giving {:?}", r.map(|v| E::from_impl(&v).debug()).map_err(|e| e.to_string()))),
        }
        rec.state(&slept);
        rec.trace();
    })));
    Check {
        id: "C28",
        rule: "every moment on a scripted clock, against a calendar of its own; every length of sleep, against what the system was asked for".into(),
        bounds: format!("{days} days from 1970 at {t} times in {zones} zones; seconds of {} days; {} ways of the clock going on between looks; about 3050 lengths of sleep", some.len(), 560),
        assumptions: vec!["the system's zones are right (POSIX rules are given in TZ)".into(), "moments before 1970 are not explored".into()],
        spaces,
    }
}
