//! Stand-in for external programs: what it does depends on the name it is run by.
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn main() {
    let mut args = std::env::args_os();
    let me = args.next().unwrap().into_string().unwrap();
    let args: Vec<Vec<u8>> = args.map(|a| a.into_vec()).collect();
    let name = me.rsplit('/').next().unwrap();
    let mut out = std::io::stdout().lock();
    let input = || {
        let mut v = vec![];
        std::io::stdin().read_to_end(&mut v).unwrap();
        v
    };
    let text: Vec<u8> = match name {
        // arguments and working directory, exactly
        "show" => {
            let cwd = std::env::current_dir().map(|d| hex(d.as_os_str().as_bytes())).unwrap_or_default();
            format!("{} cwd {}\n", args.iter().map(|a| format!("<{}>", hex(a))).collect::<String>(), cwd).into_bytes()
        }
        // keeps what it is asked for, and replies
        "curl" | "ssh" | "scp" | "bat" | "lsd" | "cat" | "ls" => {
            let home = std::path::PathBuf::from(std::env::var_os("HOME").unwrap());
            let asked = format!("{name} {}\n", args.iter().map(|a| format!("<{}>", hex(a))).collect::<String>());
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(home.join("asked")).unwrap();
            f.write_all(asked.as_bytes()).unwrap();
            std::fs::read(home.join("reply")).unwrap_or_default()
        }
        "other" => b"other\n".to_vec(),
        "cwd" => [std::env::current_dir().unwrap().as_os_str().as_bytes(), b"\n"].concat(),
        // the values of the variables that are named
        "envof" => args
            .iter()
            .flat_map(|a| match std::env::var_os(std::ffi::OsStr::from_bytes(a)) {
                Some(v) => format!("={}\n", hex(v.as_bytes())).into_bytes(),
                None => b"unset\n".to_vec(),
            })
            .collect(),
        // its arguments, where it runs, a variable, and what comes in
        "sees" | "watches" => {
            let cwd = std::env::current_dir().map(|d| hex(d.as_os_str().as_bytes())).unwrap_or_default();
            let seen = std::env::var_os("SEEN").map_or("unset".into(), |v| hex(v.as_bytes()));
            let mut v = format!("{} cwd {cwd} {seen}\n", args.iter().map(|a| format!("<{}>", hex(a))).collect::<String>()).into_bytes();
            if name == "sees" {
                v.extend(input())
            }
            v
        }
        "gen" => b"one\ntwo\n".to_vec(),
        "big" => (0..40_000).flat_map(|i| format!("{i}\n").into_bytes()).collect(),
        "raw" => vec![0xff, 0xfe, b'a', b'\n'],
        "silent" => vec![],
        "catin" => input(),
        "upcase" => input().to_ascii_uppercase(),
        "countin" => format!("{}", input().len()).into_bytes(),
        "first" => {
            let mut v = vec![];
            let mut b = [0];
            while std::io::stdin().read(&mut b).unwrap() == 1 {
                v.push(b[0]);
                if b[0] == b'\n' {
                    break;
                }
            }
            v
        }
        // until a signal ends it
        "wait" => {
            out.write_all(b"waiting\n").unwrap();
            out.flush().unwrap();
            std::thread::sleep(std::time::Duration::from_secs(20));
            b"not interrupted\n".to_vec()
        }
        "noread" => b"unread".to_vec(),
        "fail" => {
            let v = input();
            out.write_all(&v).unwrap();
            out.flush().unwrap();
            std::process::exit(3)
        }
        // all of its output before it reads anything, and it reads all
        "early" => {
            let v: Vec<u8> = (0..40_000).flat_map(|i| format!("{i}\n").into_bytes()).collect();
            out.write_all(&v).unwrap();
            out.flush().unwrap();
            format!("{}", input().len()).into_bytes()
        }
        n => format!("unknown stub {n}\n").into_bytes(),
    };
    let _ = out.write_all(&text);
    let _ = out.flush();
}
