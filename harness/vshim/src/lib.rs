//! Seams the guarded hooks in /repo and the substituted `rand` crate call into.
//! Everything here is inert until a harness installs a script.

/// Synchronisation primitives of the interactive loop, under shuttle's control.
pub mod sync {
    pub use shuttle::sync::{Arc, Mutex};
}
pub use shuttle;

use std::cell::RefCell;

type LineSource = Box<dyn FnMut(&str) -> String>;

thread_local! {
    static LINES: RefCell<Option<LineSource>> = const { RefCell::new(None) };
    static RNG: RefCell<Option<(Vec<u64>, usize)>> = const { RefCell::new(None) };
}

/// Replace the terminal: every prompt is answered by `f`.
pub fn install_lines(f: Option<LineSource>) {
    LINES.with(|l| *l.borrow_mut() = f);
}

thread_local! {
    static YIELD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Let the scheduler run other loops while a line is being typed.
pub fn interleave(on: bool) {
    YIELD.with(|y| y.set(on))
}

/// Called by the hook in `readline`. `None`: no harness is listening, use the terminal.
pub fn next_line(prompt: &str) -> Option<String> {
    if YIELD.with(|y| y.get()) {
        shuttle::thread::yield_now()
    }
    let f = LINES.with(|l| l.borrow_mut().take());
    let mut f = f?;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(prompt)));
    LINES.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() {
            *l = Some(f)
        }
    });
    match r {
        Ok(s) => Some(s),
        Err(p) => std::panic::resume_unwind(p),
    }
}

pub mod rng {
    use super::RNG;
    /// Every draw takes the next number of the script (fixed noise once it has run out).
    pub fn script(values: Option<Vec<u64>>) {
        RNG.with(|r| *r.borrow_mut() = values.map(|v| (v, 0)));
    }
    /// How many draws were made since `script`.
    pub fn draws() -> usize {
        RNG.with(|r| r.borrow().as_ref().map(|x| x.1).unwrap_or(0))
    }
    /// Fixed numbers without a pattern (splitmix64).
    pub fn noise(n: u64) -> u64 {
        let mut z = (n + 1).wrapping_mul(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn next() -> Option<u64> {
        RNG.with(|r| {
            r.borrow_mut().as_mut().map(|(v, n)| {
                let x = v.get(*n).copied().unwrap_or_else(|| noise(v.iter().fold(*n as u64, |h, x| noise(h ^ x))));
                *n += 1;
                x
            })
        })
    }
}
