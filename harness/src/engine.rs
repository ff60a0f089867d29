//! Exhaustive exploration of finite, index-addressable spaces of executions of the real code.
//!
//! A `Space` is a bijection 0..size -> cases. Cases are run in forked workers so that a crash
//! (panic, abort, stack overflow, kill) or a hang of the code under test is attributed to the
//! exact case that caused it and the exploration goes on behind it.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case observed.
#[derive(Default)]
pub struct Rec {
    pub cases: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub fails: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub capped: bool,
}

impl Rec {
    /// A distinct state / outcome of this exploration.
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, x: &T) -> bool {
        let h = hash(x);
        if self.states.len() < 4_000_000 {
            self.states.insert(h)
        } else {
            self.capped = true;
            false
        }
    }
    pub fn step(&mut self) {
        self.transitions += 1
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n
    }
    /// A model execution compared with the implementation from beginning to end.
    pub fn trace(&mut self) {
        self.traces += 1
    }
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_insert(0) += 1
    }
    /// `kind` plus the case's description is the identity of the failure.
    pub fn fail(&mut self, kind: impl ToString, msg: impl ToString) {
        if self.fails.len() < 50 {
            self.fails.push((kind.to_string(), msg.to_string()))
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(s())
        }
    }
}

pub fn hash<T: std::hash::Hash + ?Sized>(x: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct Space {
    pub name: String,
    pub size: u64,
    pub timeout: f64,
    pub workers: usize,
    /// run inside every worker before its first case
    pub init: Box<dyn Fn(&Path)>,
    pub run: Box<dyn Fn(u64, &mut Rec)>,
    pub describe: Box<dyn Fn(u64) -> String>,
    /// seconds after which the exploration of this space stops (and is reported as capped)
    pub budget: f64,
}

impl Space {
    pub fn new(
        name: &str,
        size: u64,
        describe: impl Fn(u64) -> String + 'static,
        run: impl Fn(u64, &mut Rec) + 'static,
    ) -> Self {
        Space {
            name: name.into(),
            size,
            timeout: 20.0,
            workers: 8,
            init: Box::new(|_| {}),
            run: Box::new(run),
            describe: Box::new(describe),
            budget: 1e9,
        }
    }
    /// A space given by an explicit list of cases.
    pub fn list<T: std::fmt::Debug + 'static>(
        name: &str,
        items: Vec<T>,
        run: impl Fn(&T, &mut Rec) + 'static,
    ) -> Self {
        let items = std::rc::Rc::new(items);
        let i2 = items.clone();
        Space::new(
            name,
            items.len() as u64,
            move |i| format!("{:?}", i2[i as usize]),
            move |i, r| run(&items[i as usize], r),
        )
    }
    pub fn timeout(mut self, t: f64) -> Self {
        self.timeout = t;
        self
    }
    pub fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
    pub fn init(mut self, f: impl Fn(&Path) + 'static) -> Self {
        self.init = Box::new(f);
        self
    }
    pub fn budget(mut self, s: f64) -> Self {
        self.budget = s;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub spaces: Vec<Space>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub space: String,
    pub index: u64,
    pub desc: String,
    pub kind: String,
    pub msg: String,
}

impl Failure {
    pub fn sig(&self) -> String {
        format!("{}|{}|{}", self.space, self.desc, self.kind)
            .replace('\n', "\\n")
            .replace('\r', "\\r")
    }
}

const SLOTS: usize = 64;
#[repr(C)]
struct Slot {
    cur: AtomicU64,   // index+1 of the case being run, 0 when idle
    start: AtomicU64, // ms since epoch0
    lo: AtomicU64,
    hi: AtomicU64,
    done: AtomicU64,
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    /// cases that failed, and those of them that took long
    failed: AtomicU64,
    slow: AtomicU64,
    slots: [Slot; SLOTS],
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

thread_local! {
    static OUT: std::cell::RefCell<Option<fs::File>> = const { std::cell::RefCell::new(None) };
    static ERR: std::cell::RefCell<Option<fs::File>> = const { std::cell::RefCell::new(None) };
}

fn memfd() -> fs::File {
    unsafe {
        let fd = libc::memfd_create(c"out".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        fs::File::from_raw_fd(fd)
    }
}

/// Point fds 0, 1 and 2 of this worker away from the checker's own output.
fn redirect() {
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
        libc::dup2(null, 0);
        libc::close(null);
        let out = memfd();
        let err = memfd();
        libc::dup2(out.as_raw_fd(), 1);
        libc::dup2(err.as_raw_fd(), 2);
        OUT.with(|o| *o.borrow_mut() = Some(out));
        ERR.with(|o| *o.borrow_mut() = Some(err));
    }
}

fn reset_file(f: &mut fs::File) {
    f.set_len(0).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
}

fn slurp(f: &mut fs::File) -> Vec<u8> {
    let mut v = vec![];
    f.seek(SeekFrom::Start(0)).unwrap();
    f.read_to_end(&mut v).unwrap();
    reset_file(f);
    v
}

/// Run `f` and return what it (and any process it started) wrote to stdout and stderr.
pub fn capture<R>(f: impl FnOnce() -> R) -> (R, Vec<u8>, Vec<u8>) {
    let _ = std::io::stdout().flush();
    OUT.with(|o| reset_file(o.borrow_mut().as_mut().expect("worker")));
    ERR.with(|o| reset_file(o.borrow_mut().as_mut().expect("worker")));
    let r = f();
    let _ = std::io::stdout().flush();
    let out = OUT.with(|o| slurp(o.borrow_mut().as_mut().unwrap()));
    let err = ERR.with(|o| slurp(o.borrow_mut().as_mut().unwrap()));
    (r, out, err)
}

/// What was written since the last time, within `capture`.
pub fn captured() -> (Vec<u8>, Vec<u8>) {
    let _ = std::io::stdout().flush();
    (
        OUT.with(|o| slurp(o.borrow_mut().as_mut().unwrap())),
        ERR.with(|o| slurp(o.borrow_mut().as_mut().unwrap())),
    )
}

fn trim_output() {
    OUT.with(|o| {
        if let Some(f) = o.borrow_mut().as_mut() {
            if f.metadata().map(|m| m.len() > 1 << 20).unwrap_or(false) {
                reset_file(f)
            }
        }
    });
    ERR.with(|o| {
        if let Some(f) = o.borrow_mut().as_mut() {
            if f.metadata().map(|m| m.len() > 1 << 20).unwrap_or(false) {
                reset_file(f)
            }
        }
    });
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Run code under test; a panic becomes `Err(location and message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
    }));
}

fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

fn enc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// Runs in the child. Never returns.
fn worker(space: &Space, sh: &Shared, slot: usize, chunk: u64, dir: &Path, resume: Option<(u64, u64)>) -> ! {
    redirect();
    unsafe {
        libc::setsid();
        libc::signal(libc::SIGINT, libc::SIG_IGN);
    }
    install_panic_hook();
    let id = format!("{}-{}", slot, std::process::id());
    let mut failf = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("fail-{id}")))
        .unwrap();
    let mut sumf = fs::File::create(dir.join(format!("sum-{id}"))).unwrap();
    let scratch = dir.join(format!("w{slot}"));
    let _ = fs::create_dir_all(&scratch);
    (space.init)(&scratch);
    // a worker does not outlive the check (and becoming another user would undo this)
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut rec = Rec::default();
    let s = &sh.slots[slot];
    let mut go = |lo: u64, hi: u64, rec: &mut Rec| {
        s.lo.store(lo, SeqCst);
        s.hi.store(hi, SeqCst);
        for i in lo..hi {
            if sh.stop.load(SeqCst) != 0 {
                rec.capped = true;
                return;
            }
            s.start.store(now_ms(), SeqCst);
            s.cur.store(i + 1, SeqCst);
            let r = guard(|| (space.run)(i, rec));
            if let Err(p) = r {
                rec.fail("panic", p);
            }
            rec.cases += 1;
            // failures that take long each are not all waited for
            sh.failed.fetch_add(!rec.fails.is_empty() as u64, SeqCst);
            if !rec.fails.is_empty() && now_ms().saturating_sub(s.start.load(SeqCst)) > 15_000 && sh.slow.fetch_add(1, SeqCst) >= 2 {
                sh.stop.store(1, SeqCst);
            }
            s.cur.store(0, SeqCst);
            for (kind, msg) in rec.fails.drain(..) {
                let _ = writeln!(failf, "[{},{},{}]", i, enc(&kind), enc(&msg));
            }
            trim_output();
        }
    };
    if let Some((lo, hi)) = resume {
        go(lo, hi, &mut rec)
    }
    loop {
        let lo = sh.next.fetch_add(chunk, SeqCst);
        if lo >= space.size || sh.stop.load(SeqCst) != 0 {
            if lo < space.size {
                rec.capped = true
            }
            break;
        }
        go(lo, (lo + chunk).min(space.size), &mut rec);
    }
    let j = serde_json::json!({
        "cases": rec.cases, "transitions": rec.transitions, "traces": rec.traces,
        "samples": rec.samples, "notes": rec.notes, "capped": rec.capped,
    });
    let _ = writeln!(sumf, "{}", j);
    let mut bytes = Vec::with_capacity(rec.states.len() * 8);
    for h in &rec.states {
        bytes.extend_from_slice(&h.to_le_bytes())
    }
    let _ = fs::write(dir.join(format!("st-{id}")), bytes);
    s.done.store(1, SeqCst);
    unsafe { libc::_exit(0) }
}

fn patience(space: &Space) -> f64 {
    std::env::var("CHECK_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(space.timeout)
}

/// A space is given up after this many hangs.
fn max_hangs() -> usize {
    std::env::var("CHECK_HANGS").ok().and_then(|s| s.parse().ok()).unwrap_or(16)
}

#[derive(Default)]
pub struct SpaceResult {
    pub name: String,
    pub size: u64,
    pub cases: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: usize,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub fails: Vec<Failure>,
    pub capped: bool,
    pub wall: f64,
}

fn fork_worker(space: &Space, sh: &Shared, slot: usize, chunk: u64, dir: &Path, resume: Option<(u64, u64)>) -> i32 {
    let s = &sh.slots[slot];
    s.cur.store(0, SeqCst);
    s.done.store(0, SeqCst);
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            worker(space, sh, slot, chunk, dir, resume)
        }
        pid
    }
}

fn status_text(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        match sig {
            libc::SIGABRT => "process aborted (SIGABRT)".into(),
            libc::SIGSEGV => "process crashed (SIGSEGV)".into(),
            _ => format!("process killed by signal {sig}"),
        }
    } else {
        format!("process exited with status {}", libc::WEXITSTATUS(st))
    }
}

/// Explore `space` completely.
pub fn explore(space: &Space, tmp: &Path, max_fails: usize) -> SpaceResult {
    let t0 = Instant::now();
    let dir = tmp.join(space.name.replace(['/', ' '], "_"));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(&dir, fs::Permissions::from_mode(0o777)).unwrap();
    let sh = shared();
    let n = space.workers.min(SLOTS).min(space.size.max(1) as usize);
    let chunk = (space.size / (n as u64 * 64)).clamp(1, 4096);
    let mut res = SpaceResult { name: space.name.clone(), size: space.size, ..Default::default() };
    let mut pids: Vec<Option<i32>> = (0..n).map(|w| Some(fork_worker(space, sh, w, chunk, &dir, None))).collect();
    let mut crashes = vec![];
    loop {
        let mut alive = false;
        for w in 0..n {
            let Some(pid) = pids[w] else { continue };
            let s = &sh.slots[w];
            let mut st = 0;
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            let mut hung = false;
            if r == 0 {
                let cur = s.cur.load(SeqCst);
                if cur != 0 && now_ms().saturating_sub(s.start.load(SeqCst)) as f64 > patience(space) * 1000.0 {
                    unsafe {
                        libc::kill(-pid, libc::SIGKILL);
                        libc::kill(pid, libc::SIGKILL);
                        libc::waitpid(pid, &mut st, 0);
                    }
                    hung = true;
                } else {
                    alive = true;
                    continue;
                }
            }
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            pids[w] = None;
            if s.done.load(SeqCst) == 1 && !hung {
                continue;
            }
            // died in the middle of a case
            let cur = s.cur.load(SeqCst);
            if cur == 0 {
                // while preparing, before any case: every case fails
                crashes.push((0, "crash".to_string(), format!("before the first case: {}", status_text(st))));
                sh.stop.store(1, SeqCst);
                res.capped = true;
                continue;
            }
            let i = cur - 1;
            crashes.push((
                i,
                if hung { "hang".to_string() } else { "crash".to_string() },
                if hung { format!("no result within {} s", space.timeout) } else { status_text(st) },
            ));
            res.cases += 1;
            let hangs = crashes.iter().filter(|c| c.1 == "hang").count();
            if crashes.len() < max_fails && hangs < max_hangs().min((600.0 / patience(space)) as usize).max(2) {
                let hi = s.hi.load(SeqCst);
                pids[w] = Some(fork_worker(space, sh, w, chunk, &dir, Some((i + 1, hi))));
                alive = true;
            } else {
                sh.stop.store(1, SeqCst);
                res.capped = true;
            }
        }
        if !alive {
            break;
        }
        let limit = if sh.failed.load(SeqCst) > 0 { space.budget.min(ENOUGH) } else { space.budget };
        if t0.elapsed().as_secs_f64() > limit {
            sh.stop.store(1, SeqCst);
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 500 { 2 } else { 20 }));
    }
    for (i, kind, msg) in crashes {
        res.fails.push(Failure { space: space.name.clone(), index: i, desc: (space.describe)(i), kind, msg });
    }
    let mut states: HashSet<u64> = HashSet::new();
    for e in fs::read_dir(&dir).unwrap().flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        if name.starts_with("sum-") {
            let t = fs::read_to_string(e.path()).unwrap_or_default();
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) else { continue };
            res.cases += v["cases"].as_u64().unwrap();
            res.transitions += v["transitions"].as_u64().unwrap();
            res.traces += v["traces"].as_u64().unwrap();
            res.capped |= v["capped"].as_bool().unwrap();
            for s in v["samples"].as_array().unwrap() {
                res.samples.push(s.as_str().unwrap().to_string())
            }
            for (k, n) in v["notes"].as_object().unwrap() {
                *res.notes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
            }
        } else if name.starts_with("st-") {
            for c in fs::read(e.path()).unwrap().chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        } else if name.starts_with("fail-") {
            for l in fs::read_to_string(e.path()).unwrap().lines() {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                let i = v[0].as_u64().unwrap();
                res.fails.push(Failure {
                    space: space.name.clone(),
                    index: i,
                    desc: String::new(),
                    kind: v[1].as_str().unwrap().into(),
                    msg: v[2].as_str().unwrap().into(),
                });
            }
        }
    }
    res.fails.sort_by_key(|f| f.index);
    let n_fail = res.fails.len();
    if n_fail > 2000 {
        *res.notes.entry("failures not listed".into()).or_insert(0) += (n_fail - 2000) as u64;
        // the first of them, and some of all the others
        let step = (n_fail - 1000).div_ceil(1000);
        let mut n = 0;
        res.fails.retain(|_| {
            n += 1;
            n <= 1000 || (n - 1000) % step == 0
        });
    }
    for f in &mut res.fails {
        if f.desc.is_empty() {
            f.desc = (space.describe)(f.index)
        }
    }
    res.states = states.len();
    res.wall = t0.elapsed().as_secs_f64();
    clear(&dir);
    res
}

/// Remove a directory, and end what still runs from it: programs whose workers were ended.
fn clear(dir: &Path) {
    for e in fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Some(pid) = e.file_name().to_str().and_then(|n| n.parse::<i32>().ok()) else { continue };
        if fs::read_link(e.path().join("exe")).is_ok_and(|exe| exe.starts_with(dir)) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
    }
    let _ = fs::remove_dir_all(dir);
}

/// Does a case fail again, as it did, on its own?
fn alone(space: &Space, f: &Failure, tmp: &Path) -> bool {
    rerun(space, f.index, tmp).iter().any(|g| g.kind == f.kind)
}

/// Run one case again, in a fresh process; the failures it shows.
pub fn rerun(space: &Space, index: u64, tmp: &Path) -> Vec<Failure> {
    rerun_after(space, index, index, tmp)
}

/// Run one case again, after the cases from `first` on, in one fresh process; the failures it shows.
pub fn rerun_after(space: &Space, first: u64, index: u64, tmp: &Path) -> Vec<Failure> {
    let dir = tmp.join("rerun");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(&dir, fs::Permissions::from_mode(0o777)).unwrap();
    let sh = shared();
    sh.next.store(space.size, SeqCst);
    let pid = fork_worker(space, sh, 0, 1, &dir, Some((first, index + 1)));
    let t0 = Instant::now();
    let mut out = vec![];
    let mk = |kind: String, msg: String| Failure {
        space: space.name.clone(),
        index,
        desc: (space.describe)(index),
        kind,
        msg,
    };
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r != 0 {
            if sh.slots[0].done.load(SeqCst) != 1 {
                out.push(mk("crash".into(), status_text(st)));
            }
            break;
        }
        if t0.elapsed().as_secs_f64() > patience(space) + (index > first) as u64 as f64 * 30.0 {
            unsafe {
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            out.push(mk("hang".into(), format!("no result within {} s", space.timeout)));
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    unsafe { libc::kill(-pid, libc::SIGKILL) };
    for e in fs::read_dir(&dir).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("fail-") {
            for l in fs::read_to_string(e.path()).unwrap().lines() {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                if v[0].as_u64() != Some(index) {
                    continue;
                }
                out.push(mk(v[1].as_str().unwrap().into(), v[2].as_str().unwrap().into()));
            }
        }
    }
    clear(&dir);
    out
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

pub fn load_known(verif: &Path) -> Vec<Known> {
    let mut v = vec![];
    for l in fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let (prop, rest) = rest.split_once(' ').unwrap_or((rest, ""));
        let Some((sig, what)) = rest.split_once(" :: ") else { continue };
        v.push(Known {
            property: prop.into(),
            sig: sig.trim_start_matches("case=").into(),
            what: what.into(),
        });
    }
    v
}

/// When something has failed, no more is looked for after this many seconds.
const ENOUGH: f64 = 300.0;

pub fn run_check(check: Check, tier: Tier, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let tmp = PathBuf::from(format!("/tmp/dune-check-{}-{}", check.id, std::process::id()));
    let _ = fs::remove_dir_all(&tmp);
    fs::create_dir_all(&tmp).unwrap();
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(&tmp, fs::Permissions::from_mode(0o777)).unwrap();
    let known = load_known(verif);
    let outdir = verif.join("out").join(check.id);
    let _ = fs::remove_dir_all(&outdir);
    fs::create_dir_all(&outdir).unwrap();

    let mut results = vec![];
    let mut violations = 0usize;
    let mut printed = 0usize;
    let mut unreproduced = vec![];
    let mut known_hits: Vec<String> = vec![];
    for space in &check.spaces {
        if space.size == 0 {
            eprintln!("engine: empty space {}", space.name);
            return 3;
        }
        // development aid: only some of the spaces
        if std::env::var("CHECK_SUMMARY").is_ok() && std::env::var("CHECK_SPACE").is_ok_and(|s| !space.name.contains(&s)) {
            continue;
        }
        let mut r = explore(space, &tmp, 200);
        if std::env::var("CHECK_SUMMARY").is_ok() {
            // development aid: failures grouped by their message, nothing else
            let mut g: BTreeMap<String, (usize, String)> = BTreeMap::new();
            for f in &r.fails {
                let k = format!("{}: {}", f.kind, f.msg.lines().next().unwrap_or_default().chars().take(160).collect::<String>());
                let e = g.entry(k).or_insert((0, f.desc.clone()));
                e.0 += 1;
            }
            for (k, (n, d)) in g.into_iter().take(12) {
                println!("{n:>6} {k}\n         e.g. {}", d.chars().take(200).collect::<String>());
            }
            println!("== {} {} cases {:.1}s {:?}", r.name, r.cases, r.wall, r.notes);
            continue;
        }
        let mut confirmed: HashSet<u64> = HashSet::new();
        let mut tried = 0;
        let unlisted: Vec<&Failure> = r.fails.iter().filter(|f| !known.iter().any(|k| k.property == check.id && k.sig == f.sig())).collect();
        // where what cases leave behind makes others fail, those that fail on their own are looked
        // for among all of them, and otherwise one that fails after the same others each time
        let mut after: HashMap<u64, u64> = HashMap::new();
        let soon = |t: &Instant| t.elapsed().as_secs_f64() < 60.0;
        let since = Instant::now();
        if unlisted.len() > 3 && !unlisted.iter().take(10).any(|f| alone(space, f, &tmp)) {
            let step = unlisted.len().div_ceil(100);
            match unlisted.iter().skip(10).step_by(step).find(|f| soon(&since) && alone(space, f, &tmp)) {
                Some(f) => {
                    confirmed.insert(f.index);
                }
                None => {
                    let step = unlisted.len().div_ceil(8);
                    'search: for f in unlisted.iter().step_by(step) {
                        for back in [1, 8, 64, 512] {
                            let first = f.index.saturating_sub(back);
                            if soon(&since) && (0..2).all(|_| rerun_after(space, first, f.index, &tmp).iter().any(|g| g.kind == f.kind)) {
                                confirmed.insert(f.index);
                                after.insert(f.index, first);
                                break 'search;
                            }
                        }
                    }
                }
            }
            tried = 40;
        }
        for f in r.fails.iter() {
            if let Some(k) = known.iter().find(|k| k.property == check.id && k.sig == f.sig()) {
                let line = format!("KNOWN-FINDING: property={} {} [{}]", check.id, k.what, f.sig());
                if !known_hits.contains(&line) {
                    println!("{line}");
                    known_hits.push(line);
                }
                continue;
            }
            // a failure counts when the same case fails again on its own
            let late = !confirmed.is_empty() && t0.elapsed().as_secs_f64() > ENOUGH;
            if tried < 40 && !late && !confirmed.contains(&f.index) {
                tried += 1;
                let ok = (0..3).any(|n| (n == 0 || t0.elapsed().as_secs_f64() < 2.0 * ENOUGH) && rerun(space, f.index, &tmp).iter().any(|g| g.kind == f.kind));
                if ok {
                    confirmed.insert(f.index);
                } else {
                    unreproduced.push(format!("{} {}", f.sig(), f.msg));
                    continue;
                }
            } else if !confirmed.contains(&f.index) {
                if confirmed.is_empty() || tried == 40 && confirmed.len() == 1 {
                    unreproduced.push(format!("{} {}", f.sig(), f.msg));
                    continue;
                }
            }
            violations += 1;
            if printed < 10 {
                let path = outdir.join(format!("{:03}.json", printed));
                let j = serde_json::json!({
                    "property": check.id, "tier": format!("{:?}", tier).to_lowercase(), "space": f.space,
                    "index": f.index, "case": f.desc, "kind": f.kind, "message": f.msg, "signature": f.sig(), "after": after.get(&f.index),
                    "replay_with": format!("./run.sh {} --replay {}", check.id, path.display()),
                });
                fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
                println!("VIOLATION property={} replay={}", check.id, path.display());
                let m: String = f.msg.chars().take(600).collect();
                println!("  [{}] case {}: {}\n  {}", f.space, f.index, f.desc.chars().take(400).collect::<String>(), f.kind);
                println!("  {}", m.replace('\n', "\n  "));
                printed += 1;
            }
        }
        println!(
            "{}: {}/{} cases, {} states, {} transitions, {} traces, {} failures{} ({:.1}s)",
            r.name, r.cases, r.size, r.states, r.transitions, r.traces, r.fails.len(),
            if r.capped { ", CAPPED" } else { "" }, r.wall
        );
        r.samples.truncate(3);
        results.push(r);
        // (CHECK_STOP, a development aid: the first space that fails is enough)
        if violations > 400 || violations > 0 && t0.elapsed().as_secs_f64() > ENOUGH || violations > 0 && std::env::var("CHECK_STOP").is_ok() {
            break;
        }
    }
    for u in unreproduced.iter().take(20) {
        println!("NOTE: not reproduced on its own, not counted: {u}");
    }
    let _ = fs::remove_dir_all(&tmp);
    let exhaustive = results.iter().all(|r| !r.capped && r.cases == r.size) && results.len() == check.spaces.len();
    let sum = |f: &dyn Fn(&SpaceResult) -> u64| results.iter().map(f).sum::<u64>();
    let samples: Vec<String> = results.iter().flat_map(|r| r.samples.iter().map(|s| format!("[{}] {}", r.name, s))).collect();
    let ev = serde_json::json!({
        "property": check.id,
        "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": sum(&|r| r.states as u64),
            "transitions": sum(&|r| r.transitions),
            "traces_validated_against_impl": sum(&|r| r.traces),
            "evaluations": sum(&|r| r.cases),
            "rule": check.rule,
            "bounds": check.bounds,
            "samples": samples,
            "exhaustive": exhaustive,
            "spaces": results.iter().map(|r| serde_json::json!({
                "name": r.name, "size": r.size, "cases_run": r.cases, "states": r.states,
                "transitions": r.transitions, "traces": r.traces, "capped": r.capped,
                "failures": r.fails.len(), "notes": r.notes, "wall_s": r.wall,
            })).collect::<Vec<_>>(),
            "known_findings_seen": known_hits.len(),
            "not_reproduced": unreproduced.len(),
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(verif.join("evidence").join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if violations > 0 {
        println!("{}: {} violations", check.id, violations);
        1
    } else {
        println!("{}: held on everything explored ({:.1}s, exhaustive={})", check.id, t0.elapsed().as_secs_f64(), exhaustive);
        0
    }
}

pub fn replay(check: Check, file: &Path) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let tmp = PathBuf::from(format!("/tmp/dune-check-{}-{}", check.id, std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(&tmp, fs::Permissions::from_mode(0o777)).unwrap();
    let space = check.spaces.iter().find(|s| s.name == v["space"].as_str().unwrap()).expect("space");
    let i = v["index"].as_u64().unwrap();
    println!("replaying [{}] case {}: {}", space.name, i, (space.describe)(i));
    let f = rerun_after(space, v["after"].as_u64().unwrap_or(i), i, &tmp);
    let _ = fs::remove_dir_all(&tmp);
    for x in &f {
        println!("{}: {}", x.kind, x.msg)
    }
    if f.is_empty() {
        println!("no failure");
        0
    } else {
        println!("VIOLATION property={} replay={}", check.id, file.display());
        1
    }
}

/// Mixed-radix decoding: the digits of `i`, least significant first.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<usize> {
    radix
        .iter()
        .map(|&r| {
            let d = i % r;
            i /= r;
            d as usize
        })
        .collect()
}

/// Number of words over an alphabet of `k` letters with length in lo..=hi.
pub fn words(k: u64, lo: u32, hi: u32) -> u64 {
    (lo..=hi).map(|n| k.pow(n)).sum()
}

/// The i-th such word, shortest first.
pub fn word(mut i: u64, k: u64, lo: u32, hi: u32) -> Vec<usize> {
    for n in lo..=hi {
        let c = k.pow(n);
        if i < c {
            return digits(i, &vec![k; n as usize]);
        }
        i -= c;
    }
    unreachable!()
}
