//! check <ID> --tier quick|thorough [--replay FILE]
mod checks;
mod clock;
mod fault;
mod engine;
mod gram;
mod spec;

use std::path::PathBuf;

/// Deep (but bounded) inputs recurse deeply in the code under test and in the models.
fn big_stack() {
    use std::os::unix::process::CommandExt;
    if std::env::var("DUNE_CHECK_STACK").is_ok() {
        return;
    }
    unsafe {
        let want: libc::rlim_t = 1 << 30;
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_STACK, &mut l);
        l.rlim_cur = if l.rlim_max == libc::RLIM_INFINITY { want } else { want.min(l.rlim_max) };
        libc::setrlimit(libc::RLIMIT_STACK, &l);
        // no core files
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    let e = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args_os().skip(1))
        .env("DUNE_CHECK_STACK", "1")
        .exec();
    panic!("exec: {e}");
}

fn main() {
    big_stack();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = None;
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => engine::Tier::Thorough,
        _ => engine::Tier::Quick,
    };
    let mut replay = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { engine::Tier::Thorough } else { engine::Tier::Quick };
            }
            "--replay" => {
                i += 1;
                replay = Some(PathBuf::from(&args[i]));
            }
            x => id = Some(x.to_string()),
        }
        i += 1;
    }
    let verif = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into());
    let id = id.expect("check id");
    if let Some(f) = &replay {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        if v["tier"].as_str() == Some("thorough") {
            tier = engine::Tier::Thorough
        }
    }
    let Some(check) = checks::get(&id, tier) else {
        eprintln!("no such check: {id}");
        std::process::exit(2)
    };
    std::process::exit(match replay {
        Some(f) => engine::replay(check, &f),
        None => engine::run_check(check, tier, &verif),
    })
}
