#!/usr/bin/env python3
"""Make, confirm and keep planted bugs (tools/seeds.py) as seeded/<id>/.

    seed.py ID...     confirm these in a scratch copy of /repo and write seeded/ID
    seed.py           all that are not there yet
"""
import os, shutil, subprocess, sys, json
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TARGET_DIR=W + "/target", CARGO_HOME="/root/.cargo", RUSTUP_TOOLCHAIN="stable", HOME="/root")
BASE = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).strip()


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def build():
    sh(f"touch {W}/src/*.rs {W}/src/binary/*.rs {W}/src/binary/init/*.rs")
    return sh("cargo test --workspace --all-features --no-fail-fast --offline 2>&1; cargo build --offline 2>&1 | grep -E '^error' -A9; true", cwd=W, env=ENV)


def demo(d):
    r = sh(f"timeout 300 bash {d}/demo.sh", cwd=W)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def baseline_ok(log):
    b = json.load(open("/opt/vp/BASELINE.json"))
    names = b if isinstance(b, list) else (b.get("passed") or b.get("stable") or b.get("tests"))
    ok = {l.split()[1] for l in log.splitlines() if l.startswith("test ") and l.endswith("... ok")}
    return [n for n in names if not any(n.endswith(o) or o.endswith(n.split("::", 1)[-1]) for o in ok)]


def main():
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(f"{V}/seeded/{i}/patch.diff")]
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
    clean_bin = None
    for i in ids:
        s = SEEDS[i]
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
        ok = True
        for f, old, new in s["edits"]:
            p = f"{W}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT", f, t.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", cwd=W).stdout
        # some removed line is one of the original repository
        mine = True
        for f, old, new in s["edits"]:
            bl = sh(f"git blame -s --root -l HEAD -- {f}", cwd=W).stdout.splitlines()
            rem = [l[1:] for l in sh(f"git diff -U0 -- {f}", cwd=W).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            if any(l.split(") ", 1)[-1] == r or l.endswith(") " + r) for r in rem for l in bl if l.startswith(BASE[:39]) or l.startswith("^" + BASE[:38])):
                mine = False
        if mine:
            print(i, "NOT-ORIGINAL-LINES"); continue
        d = f"/tmp/seeddemo/{i}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(s["demo"])
        for n, t in s.get("extra", {}).items():
            open(f"{d}/{n}", "w").write(t)
        b = build()
        miss = baseline_ok(b.stdout)
        if miss or "error[" in b.stdout or "could not compile" in b.stdout:
            print(i, "TESTS/BUILD", miss, b.stdout[-1500:] if "could not compile" in b.stdout else ""); continue
        rc, out = demo(d)
        if rc == 0:
            print(i, "DEMO PASSES WITH PATCH"); continue
        # unchanged tree: /repo's own build
        r = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
        if r.returncode != 0:
            print(i, "DEMO FAILS UNCHANGED", (r.stdout + r.stderr)[-1500:]); continue
        t = f"{V}/seeded/{i}"
        os.makedirs(t, exist_ok=True)
        shutil.copy(d + "/demo.sh", t + "/demo.sh")
        for n in s.get("extra", {}):
            shutil.copy(f"{d}/{n}", f"{t}/{n}")
        open(t + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(t + "/meta.json", "w"), indent=1)
        print(i, "KEPT", "|", out.strip().replace("\n", " / ")[-160:])


main()
