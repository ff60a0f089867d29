//! Running the real binary, and stand-ins for external programs.
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Default)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub hung: bool,
    pub out: String,
    pub err: String,
}

impl Out {
    /// Why this is not an orderly end, if it is not.
    pub fn crash(&self) -> Option<String> {
        let tail: String = self.err.lines().rev().take(3).collect::<Vec<_>>().join(" / ").chars().take(300).collect();
        if self.hung {
            Some("does not end".into())
        } else if let Some(s) = self.signal {
            Some(format!("killed by signal {s}: {tail}"))
        } else if self.err.contains("panicked at") || self.code == Some(101) {
            Some(format!("panics: {tail}"))
        } else {
            None
        }
    }
}

/// Copy a binary built next to this one to where an unprivileged worker can run it.
/// To be called before giving up privileges.
pub fn tool(scratch: &Path, name: &str, dest: &str) -> PathBuf {
    let dir = scratch.join(dest).parent().unwrap().to_path_buf();
    std::fs::create_dir_all(&dir).unwrap();
    let from = std::env::current_exe().unwrap().parent().unwrap().join(name);
    let to = scratch.join(dest);
    let _ = std::fs::remove_file(&to);
    std::fs::copy(&from, &to).unwrap_or_else(|e| panic!("{from:?}: {e}"));
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap();
    to
}

pub struct Run<'a> {
    pub exe: &'a Path,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub cwd: PathBuf,
    pub env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    pub timeout: f64,
    /// standard output is a terminal of this many columns and rows
    pub screen: Option<(u16, u16)>,
    /// in a session of its own, which no terminal controls
    pub detached: bool,
}

/// A program that runs at a terminal, where keys are typed. What it prints goes to files:
/// the screen shows only what the terminal itself shows, the keys.
pub struct Typist {
    child: std::process::Child,
    master: std::fs::File,
    screen: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
    start: Instant,
    home: PathBuf,
}

impl Typist {
    /// `out` and `err` will be in its home, which is also where it runs.
    pub fn new(exe: &Path, args: &[&str], home: &Path) -> Typist {
        let (master, slave) = terminal(80, 24);
        let make = |n: &str| std::fs::File::create(home.join(n)).unwrap();
        let mut command = Command::new(exe);
        command
            .args(args)
            .current_dir(home)
            .env_clear()
            .env("HOME", home)
            .env("PATH", "/nonexistent")
            .env("TERM", "xterm")
            .stdin(Stdio::from(slave))
            .stdout(make("out"))
            .stderr(make("err"));
        unsafe {
            command.pre_exec(|| {
                let mut t: libc::termios = std::mem::zeroed();
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                libc::tcgetattr(0, &mut t);
                t.c_iflag |= libc::IUTF8;
                libc::tcsetattr(0, libc::TCSANOW, &t);
                Ok(())
            });
        }
        let child = command.spawn().unwrap_or_else(|e| panic!("{exe:?}: {e}"));
        drop(command);
        let screen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let (s2, mut m2) = (screen.clone(), master.try_clone().unwrap());
        std::thread::spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n) = m2.read(&mut b) {
                if n == 0 {
                    break;
                }
                s2.lock().unwrap().extend_from_slice(&b[..n])
            }
        });
        Typist { child, master, screen, start: Instant::now(), home: home.into() }
    }
    pub fn keys(&mut self, k: &[u8]) {
        let _ = self.master.write_all(k);
    }
    /// Whether this came true before the program ended, or it all took too long.
    pub fn wait(&mut self, mut f: impl FnMut(&Typist) -> bool) -> bool {
        let mut nap = 100;
        loop {
            if f(self) {
                return true;
            }
            if self.ended() || self.start.elapsed().as_secs_f64() > 40.0 {
                return f(self);
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 3 / 2).min(3000);
        }
    }
    pub fn ended(&mut self) -> bool {
        self.child.try_wait().unwrap().is_some()
    }
    /// Is each key passed on as it is typed; does the terminal show what is typed?
    pub fn mode(&self) -> (bool, bool) {
        use std::os::fd::AsRawFd;
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(self.master.as_raw_fd(), &mut t);
            (t.c_lflag & libc::ICANON == 0, t.c_lflag & libc::ECHO != 0)
        }
    }
    pub fn screen(&self) -> String {
        String::from_utf8_lossy(&self.screen.lock().unwrap()).into()
    }
    pub fn file(&self, n: &str) -> String {
        String::from_utf8_lossy(&std::fs::read(self.home.join(n)).unwrap_or_default()).into()
    }
    /// Wait for the end.
    pub fn end(mut self) -> Out {
        let mut r = Out::default();
        r.hung = !self.wait(|_| false) && !self.ended();
        unsafe {
            libc::kill(-(self.child.id() as i32), libc::SIGKILL);
        }
        let st = self.child.wait().unwrap();
        r.code = st.code();
        r.signal = if r.hung { None } else { st.signal() };
        r.out = self.file("out");
        r.err = self.file("err");
        r
    }
}

impl Drop for Typist {
    fn drop(&mut self) {
        unsafe {
            libc::kill(-(self.child.id() as i32), libc::SIGKILL);
        }
        let _ = self.child.wait();
    }
}

/// Both ends of a new terminal.
fn terminal(cols: u16, rows: u16) -> (std::fs::File, std::fs::File) {
    use std::os::fd::FromRawFd;
    let (mut m, mut s) = (0, 0);
    let size = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
    let n = std::ptr::null_mut();
    unsafe {
        assert_eq!(libc::openpty(&mut m, &mut s, n, std::ptr::null_mut(), &size as *const _ as *mut _), 0, "no terminal");
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s))
    }
}

impl<'a> Run<'a> {
    pub fn new(exe: &'a Path, cwd: &Path) -> Run<'a> {
        Run {
            exe,
            args: vec![],
            stdin: vec![],
            cwd: cwd.into(),
            env: vec![("HOME".into(), cwd.into()), ("PATH".into(), "/nonexistent".into())],
            timeout: 60.0,
            screen: None,
            detached: false,
        }
    }
    pub fn args(mut self, a: &[&str]) -> Self {
        self.args = a.iter().map(|s| s.to_string()).collect();
        self
    }
    pub fn stdin(mut self, s: &str) -> Self {
        self.stdin = s.as_bytes().to_vec();
        self
    }
    pub fn env(mut self, k: &str, v: impl Into<std::ffi::OsString>) -> Self {
        self.env.retain(|(n, _)| n != k);
        self.env.push((k.into(), v.into()));
        self
    }
    pub fn timeout(mut self, s: f64) -> Self {
        self.timeout = s;
        self
    }
    pub fn screen(mut self, cols: u16, rows: u16) -> Self {
        self.screen = Some((cols, rows));
        self
    }
    pub fn detached(mut self) -> Self {
        self.detached = true;
        self
    }
    pub fn go(self) -> Out {
        let screen = self.screen.map(|(c, r)| terminal(c, r));
        let (master, slave) = match screen {
            Some((m, s)) => (Some(m), Some(s)),
            None => (None, None),
        };
        let mut command = Command::new(self.exe);
        command
            .args(&self.args)
            .current_dir(&self.cwd)
            .env_clear()
            .envs(self.env)
            .stdin(Stdio::piped())
            .stdout(slave.map_or_else(Stdio::piped, Stdio::from))
            .stderr(Stdio::piped());
        if self.detached {
            unsafe {
                command.pre_exec(|| {
                    libc::setsid();
                    Ok(())
                });
            }
        } else {
            command.process_group(0);
        }
        let mut c = command.spawn().unwrap_or_else(|e| panic!("{:?}: {e}", self.exe));
        // the other end of a terminal is ours only while it is handed over
        drop(command);
        let mut si = c.stdin.take().unwrap();
        let data = self.stdin;
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&data);
        });
        fn reader(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
            std::thread::spawn(move || {
                let mut v = vec![];
                let mut b = [0; 1 << 16];
                while let Ok(n) = r.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    // what is too long is read but not kept
                    if v.len() < 1 << 24 {
                        v.extend_from_slice(&b[..n])
                    }
                }
                v
            })
        }
        let o = match master {
            Some(m) => reader(m),
            None => reader(c.stdout.take().unwrap()),
        };
        let e = reader(c.stderr.take().unwrap());
        let start = Instant::now();
        let mut r = Out::default();
        let mut nap = 200;
        let st = loop {
            if let Some(st) = c.try_wait().unwrap() {
                break st;
            }
            if start.elapsed().as_secs_f64() > self.timeout {
                r.hung = true;
                unsafe {
                    libc::kill(-(c.id() as i32), libc::SIGKILL);
                }
                break c.wait().unwrap();
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(5000);
        };
        // whatever it left behind must not outlive the case
        unsafe {
            libc::kill(-(c.id() as i32), libc::SIGKILL);
        }
        let _ = w.join();
        r.code = st.code();
        r.signal = if r.hung { None } else { st.signal() };
        r.out = String::from_utf8_lossy(&o.join().unwrap_or_default()).into();
        r.err = String::from_utf8_lossy(&e.join().unwrap_or_default()).into();
        r
    }
}
