#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and DESIGN.md from props.py and design_*.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props
HOOK = "8eeee1a"
P, NA = sorted(props.P, key=lambda p: p["id"]), props.NA
with open(f"{root}/properties.jsonl", "w") as f:
    for p in P + [n for n in NA if "statement" in n]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "dune_verif", "enable": "harness/.cargo/config.toml and harness/dunesh build /repo's src/bin.rs with --cfg dune_verif", "source_commits": props.HOOKS if hasattr(props, "HOOKS") else [HOOK]},
    "checks": [{
        "property": p["id"], "quick_cmd": f"./run.sh {p['id']} --tier quick", "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
        "technique": p.get("technique") or "bounded exhaustive model checking: explicit-state reference model, every trace replayed against the implementation",
        "level": "model_checking", "level_note": p["note"],
    } for p in P],
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
}
json.dump(manifest, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
out = open(f"{here}/design_head.md").read()
out += "\n## The properties and how each is decided\n"
for p in P:
    out += f"\n### {p['id']}: {p['title']}\n\n{p['statement']}\n\n**Decided by.** {p['design']}\n\n**Why the tests cannot.** {p['why']}\n\n**Assurance.** {p['note']}\n"
if NA:
    out += "\n## Not decided with model checking\n\n" + "".join(f"- {n['id']} ({n.get('title','')}): {n['reason']}\n" for n in NA)
out += "\n" + open(f"{here}/design_tail.md").read()
rows = []
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
out += "\n| check | planted change | it needs | and breaks |\n|---|---|---|---|\n"
for r in sorted(rows):
    out += "| " + " | ".join(x.replace("|", "\\|") for x in r) + " |\n"
open(f"{root}/DESIGN.md", "w").write(out)
