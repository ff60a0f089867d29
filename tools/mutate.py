#!/usr/bin/env python3
"""Mutate /repo's sources one place at a time in a scratch copy and run the checks that should notice.

    mutate.py LANE LANES [FILE...]   results are appended to /tmp/mut<LANE>/results.txt

A development aid: what survives is either a change without effect or a gap in a check.
"""
import os, re, subprocess, sys, json, hashlib
lane, lanes = int(sys.argv[1]), int(sys.argv[2])
only = sys.argv[3:]
W = f"/tmp/mut{lane}"
MAP = {
 "src/tokenizer.rs": "C01 C02 C03", "src/tokens.rs": "C01 C03", "src/parser.rs": "C02 C03",
 "src/expr.rs": "C05 C08 C29 C06 C16 C10 C07 C18 C13 C15 C12 C17", "src/env.rs": "C05 C06 C15 C23", "src/error.rs": "C18 C03 C23",
 "src/bin.rs": "C22 C20 C23 C25 C27", "src/binary/init/console_module.rs": "C30 C04", "src/binary/init/dict_module.rs": "C10 C04",
 "src/binary/init/err_module.rs": "C18", "src/binary/init/fmt_module.rs": "C20 C04", "src/binary/init/fn_module.rs": "C12 C07 C04",
 "src/binary/init/fs_module.rs": "C14 C15 C04", "src/binary/init/list_module.rs": "C09 C12 C04", "src/binary/init/log_module.rs": "C24 C04",
 "src/binary/init/math_module.rs": "C13 C04", "src/binary/init/mod.rs": "C05 C09 C10 C11 C12 C06 C16 C18 C30 C04",
 "src/binary/init/operator_module.rs": "C08 C17 C14 C16 C04", "src/binary/init/os_module.rs": "C15 C25 C04", "src/binary/init/parse_module.rs": "C21 C04",
 "src/binary/init/rand_module.rs": "C26 C04", "src/binary/init/string_module.rs": "C11 C20 C04",
 "src/binary/init/sys_module.rs": "C31 C06 C15 C21 C04", "src/binary/init/time_module.rs": "C28", "src/binary/init/widget_module.rs": "C19 C04",
}
RULES = [
 (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"([ (])!([a-z(])", r"\1\2"), (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1) if len(m.group(1)) < 15 else m.group(0)),
 (r"args\[0\]", "args[1]"), (r"args\[1\]", "args[0]"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.iter\(\)", ".iter().rev()"),
 (r"\.into_iter\(\)", ".into_iter().rev()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"),
 (r"checked_mul", "checked_add"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
 (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.skip\((.*?)\)", ""), (r"\.take\((.*?)\)", ""), (r"\.rev\(\)", ""), (r"\.find\(", ".rfind("), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"),
 (r"trim_start", "trim_end"), (r"trim_end", "trim_start"), (r"\.trim\(\)", ""), (r"to_uppercase", "to_lowercase"), (r"to_lowercase", "to_uppercase"), (r"saturating_sub\(", "saturating_add("),
 (r"\.floor\(\)", ".ceil()"), (r"\.ceil\(\)", ".floor()"), (r"\.\.=", ".."), (r"\.eval\(env\)", ".eval(&mut env.clone())"), (r"\(env\)", "(&mut env.clone())"),
 (r"\.clone\(\)\.eval\(env\)\?", ".clone()"), (r"&mut new_env", "env"), (r"Ok\(Expression::None\)", "Ok(Expression::Boolean(true))"), (r"\.insert\(", ".remove("), (r"unwrap_or\(0\)", "unwrap_or(1)"),
 (r"\.chars\(\)\.count\(\)", ".len()"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.sin\(", ".cos("), (r"\.ln\(", ".log2("), (r"continue;", "break;"), (r"break;", "continue;"),
 (r"\bNone =>", "None if false =>"), (r"Expression::Symbol\(([a-z]+)\) \| ", ""), (r" \| Expression::Symbol\(([a-z]+)\)", ""), (r"\.sort\(\)", ".reverse()"), (r"\.dedup\(\)", ".len()"),
]
STMT = re.compile(r"^\s+[a-z_.]+[\w.:!()?]*\(.*\)\??;\s*$")

def mutants(f, text):
    out = []
    lines = text.split("\n")
    depth_test = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("///") or not s or "const " in s and "str" in s:
            continue
        if "mod tests" in l:
            break
        for pat, rep in RULES:
            for m in re.finditer(pat, l):
                new = l[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + l[m.end():]
                # not within a text
                if l[:m.start()].count('"') % 2 == 1 or new == l:
                    continue
                out.append((n, new, f"{pat} -> {rep if isinstance(rep, str) else '+1'}"))
        if STMT.match(l) and "return" not in l and "let " not in l:
            out.append((n, "", "statement removed"))
        m = re.match(r"^(\s+)return (.*);\s*$", l)
        if m:
            out.append((n, "", "return removed"))
        # texts
        for m in re.finditer(r'"([^"\\{}]{1,12})"', l):
            if "builtin(" not in l and "from(" not in l and "Custom" not in l and "len(" not in l:
                out.append((n, l[:m.start(1)] + m.group(1) + "x" + l[m.end(1):], "text changed"))
    return [(f, n, new, lines[n], why) for n, new, why in out]

def sh(c, t=None, **k):
    try:
        return subprocess.run(c, shell=True, text=True, capture_output=True, timeout=t, **k)
    except subprocess.TimeoutExpired as e:
        subprocess.run(f"pkill -9 -f {W}/target/debug/check", shell=True)
        class R: returncode = 124; stdout = ""; stderr = "timeout"
        return R

if not os.path.exists(W):
    os.makedirs(W)
    sh(f"cp -a /verif/target {W}/target; rm -rf {W}/target/debug/incremental")
sh(f"rm -rf {W}/repo {W}/harness; git clone -q /repo {W}/repo; cp -a /verif/harness {W}/harness; cp /verif/KNOWN_FINDINGS.txt {W}/")
sh(f"grep -rl '/repo' {W}/harness --include=*.rs --include=*.toml | xargs sed -i 's#/repo#{W}/repo#g'")
all_ = []
for f in (only or MAP):
    t = open(f"{W}/repo/{f}").read()
    all_ += mutants(f, t)
# spread evenly, the same in every run
all_.sort(key=lambda m: hashlib.md5(f"{m[0]}{m[1]}{m[2]}".encode()).hexdigest())
done = set()
res = f"{W}/results.txt"
if os.path.exists(res):
    done = {tuple(json.loads(l)["key"]) for l in open(res)}
env = dict(os.environ, CARGO_TARGET_DIR=f"{W}/target", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_DIR=W, CHECK_STOP="1", DUNE_BIN="")
print(len(all_), "mutants")
for k, (f, n, new, old, why) in enumerate(all_):
    if k % lanes != lane:
        continue
    key = (f, n, new.strip())
    if key in done:
        continue
    done.add(key)
    p = f"{W}/repo/{f}"
    text = open(p).read()
    lines = text.split("\n")
    lines[n] = new
    open(p, "w").write("\n".join(lines))
    b = sh("cargo build --offline -q -p dunesh_bin -p dune-model-check", 600, cwd=f"{W}/harness", env=env)
    r = "SURVIVED"
    if b.returncode:
        r = "no build"
    else:
        for c in MAP[f].split():
            x = sh(f"{W}/target/debug/check {c} --tier quick", 400, env=env, cwd=W)
            if x.returncode != 0:
                r = f"{c} ({x.returncode})"
                break
    open(p, "w").write(text)
    with open(res, "a") as o:
        o.write(json.dumps(dict(key=key, old=old.strip(), why=why, result=r)) + "\n")
