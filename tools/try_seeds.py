#!/usr/bin/env python3
"""Run the check of each planted bug's property against it, in a scratch copy: try_seeds.py [ID...]

The checks' own run is by run.sh against /repo; this is for working on both at the same time.
"""
import json, os, subprocess, sys, time
W = "/tmp/seedlane"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, t=None, **k):
    try:
        return subprocess.run(c, shell=True, text=True, capture_output=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -9 -f {W}/target/debug/check", shell=True)
        class R: returncode = 124; stdout = ""; stderr = "timeout"
        return R


if not os.path.exists(W):
    os.makedirs(W)
    sh(f"cp -a {V}/target {W}/target; rm -rf {W}/target/debug/incremental")
sh(f"rm -rf {W}/repo {W}/harness; git clone -q /repo {W}/repo; cp -a {V}/harness {W}/harness; cp {V}/KNOWN_FINDINGS.txt {W}/")
sh(f"grep -rl '/repo' {W}/harness --include=*.rs --include=*.toml | xargs sed -i 's#/repo#{W}/repo#g'")
env = dict(os.environ, CARGO_TARGET_DIR=f"{W}/target", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_DIR=W, DUNE_BIN="")
env.pop("CHECK_SUMMARY", None)
for id in sys.argv[1:] or sorted(os.listdir(f"{V}/seeded")):
    p = json.load(open(f"{V}/seeded/{id}/meta.json"))["property"]
    if sh(f"git apply {V}/seeded/{id}/patch.diff", cwd=f"{W}/repo").returncode:
        print(id, p, "DOES-NOT-APPLY", flush=True)
        continue
    t = time.time()
    b = sh("cargo build --offline -q -p dunesh_bin -p dune-model-check", 900, cwd=f"{W}/harness", env=env)
    if b.returncode:
        print(id, p, "BUILD", b.stderr[-300:], flush=True)
    else:
        x = sh(f"{W}/target/debug/check {p} --tier quick", 900, env=env, cwd=W)
        v = [l for l in x.stdout.splitlines() if l.startswith(f"VIOLATION property={p} ")]
        first = [l for l in x.stdout.splitlines() if l.startswith("  [")][:1]
        print(id, p, "caught" if x.returncode == 1 and v else f"MISSED({x.returncode})", f"{time.time() - t:.0f}s", (first or [""])[0][:160], flush=True)
    sh("git checkout -q -- .", cwd=f"{W}/repo")
