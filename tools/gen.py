#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
lines = []
if True:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        for a in d["anchors"].get("files", []):
            assert os.path.isfile(os.path.join("/repo", a)), a
        lines.append(json.dumps(d) + "\n")
open(os.path.join(root, "properties.jsonl"), "w").writelines(lines)
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "symbolic execution of the Go SSA of the real keepers, assertions decided by an SMT solver (z3), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": p["note"] + " Trusted: the symbolic interpreter of Go SSA, its models of big integers, proto encoding, bech32 and events, the in-memory store and bank of harness/env, and z3.",
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "hooks": {"guard": "none", "enable": "No hooks in /repo: the harnesses are laid over the tree with a go build overlay."},
    "notes": "Bounds, environment and findings: DESIGN.md. Known findings: known_findings.json.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# ---- DESIGN.md -----------------------------------------------------------------
import glob, re
docs = {}
for f in sorted(glob.glob(os.path.join(root, "harness/h*/c*.go"))):
    s = open(f).read()
    for mm in re.finditer(r"((?://[^\n]*\n)+)func ((C\d\d)\w*)\(\) *\{", s):
        t = " ".join(x[2:].strip() for x in mm.group(1).splitlines())
        docs.setdefault(mm.group(3), []).append((mm.group(2), t.split(":", 1)[-1].strip()))
finds = json.load(open(os.path.join(root, "known_findings.json")))["findings"]
seeds = {}
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((f.split("/")[-2], d))
from costs import COST, MISSED
out = open(os.path.join(here, "design_head.md")).read()
fl = "\n".join(f"* **{f['id']}** ({f['property']}, {f['commit']}): {f['what'].split(' ', 3)[3] if f['what'].startswith('fixed:') else f['what']}" + ("" if f["status"] == "fixed" else " — OPEN") for f in finds)
out = out.replace("FINDINGS", fl)
for p in PROPS:
    i = p["id"]
    out += f"\n### {i}. {p['title']}\n\n{p['statement']}\n\n"
    out += f"*Decided over*: {p['quantifier']['text']}. {p['note']}\n\n"
    out += f"*Beyond tests*: {p['why_tests_cant']}\n\n"
    out += "*Encoded*: " + "; ".join(f"{a['name']} (`{a['where']}`)" for a in p["anchors"]["mechanism"]) + ".\n\n"
    out += "*Observed*: " + "; ".join(p["anchors"]["observe_at"]) + f". *Cost*: {COST.get(i, '≤ 25 s')}.\n\n"
    for n, t in docs.get(i, []):
        out += f"- `{n}` — {t}\n"
    fs = [f["id"] for f in finds if f["property"] == i]
    if fs:
        out += "\n*Found*: " + ", ".join(fs) + ".\n"
    if i in seeds:
        out += "\n*Planted*: " + ", ".join(n for n, _ in seeds[i]) + ".\n"
out += open(os.path.join(here, "design_tail.md")).read().replace("SEEDS", "\n".join(
    f"| {n} | {p} | {d['needs']} | {d['what_it_breaks']} | {MISSED.get(n, 'caught by ' + p)} |"
    for p in sorted(seeds) for n, d in seeds[p]))
open(os.path.join(root, "DESIGN.md"), "w").write(out)
