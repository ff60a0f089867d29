//! Helpers shared by the checks.
use dune::{Environment, Expression as X};
use std::path::{Path, PathBuf};

/// Give up root for good: an unprivileged user that owns nothing but `scratch`.
pub fn unprivileged(scratch: &Path) {
    let uid = 65534u32;
    let c = std::ffi::CString::new(scratch.to_str().unwrap()).unwrap();
    unsafe {
        if libc::geteuid() != 0 {
            return;
        }
        assert_eq!(libc::chown(c.as_ptr(), uid, uid), 0);
        assert_eq!(libc::setgroups(0, std::ptr::null()), 0);
        assert_eq!(libc::setresgid(uid, uid, uid), 0);
        assert_eq!(libc::setresuid(uid, uid, uid), 0);
    }
}

/// An environment for commands: nothing is found, nothing is inherited.
pub fn bare_process_env() {
    for (k, _) in std::env::vars_os().collect::<Vec<_>>() {
        if k != "PATH" {
            std::env::remove_var(k)
        }
    }
    std::env::set_var("PATH", "/nonexistent");
}

pub fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

/// The environment a program starts with.
pub fn full_env(cwd: &str) -> Environment {
    let mut env = Environment::new();
    dunesh_lib::verif::init(&mut env);
    env.set_cwd(cwd);
    env
}

/// Remove everything inside `dir`, which must be a scratch directory of ours.
pub fn empty_dir(dir: &Path) {
    let s = dir.to_string_lossy();
    assert!(s.starts_with("/tmp/dune-check-"), "not a scratch directory: {s}");
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
            empty_dir(&p);
            let _ = std::fs::remove_dir(&p);
        } else {
            let _ = std::fs::remove_file(&p);
        }
    }
}

/// All builtins reachable from an environment, with the path a user writes: `list@map`.
pub fn builtins(env: &Environment) -> Vec<(String, X)> {
    fn go(path: &str, x: &X, out: &mut Vec<(String, X)>) {
        match x {
            X::Builtin(_) | X::Lambda(..) | X::Macro(..) => out.push((path.into(), x.clone())),
            X::Map(m) => {
                for (k, v) in m {
                    go(&if path.is_empty() { k.clone() } else { format!("{path}@{k}") }, v, out)
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    for (k, v) in &env.bindings {
        if k != "std" {
            go(k, v, &mut out)
        }
    }
    out
}

pub fn src(text: &str) -> X {
    match dune::parse_script(text) {
        Ok(X::Do(v)) if v.len() == 1 => v.into_iter().next().unwrap(),
        Ok(x) => x,
        Err(e) => panic!("{text:?}: {e:?}"),
    }
}

pub fn path(p: &Path, s: &str) -> PathBuf {
    p.join(s)
}
