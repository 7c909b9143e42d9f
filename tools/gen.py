#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"observe_at": observe} if observe else {})}, note=note, na=na))
exec(open(V + "/tools/properties.py").read())
TECH = "contract-based deductive verification: verification conditions generated from the LLVM IR of the real sources against contracts in proofs/, discharged by z3/cvc5"
json.dump({"version": 1, "setup_cmd": "python3-vt engine/setup.py",
  "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick ./check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % p["id"], "technique": TECH, "level": "proof", "level_note": p["note"]} for p in P if not p["na"]],
  "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
  "notes": "see DESIGN.md"}, open(V + "/MANIFEST.json", "w"), indent=1)
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
# DESIGN.md
import importlib.util, sys
sys.path[:0] = [V + "/engine", V + "/props"]
def load(i):
    f = V + "/props/%s.py" % i; m = {}
    for n in ("FUNCTIONS", "TRUSTED", "ASSUMPTIONS"): m[n] = []
    if os.path.exists(f):
        sp = importlib.util.spec_from_file_location(i, f); o = importlib.util.module_from_spec(sp); sp.loader.exec_module(o)
        for n in m: m[n] = getattr(o, n, [])
    return m
def props():
    for p in P:
        if p["na"]: continue
        m = load(p["id"]); yield "**%s - %s.** %s\n- decided by: %s" % (p["id"], p["title"], p["statement"], p["note"].split(" Trusted: clang")[0])
        yield "- over: %s; tests: %s" % (p["quantifier"]["text"], p["why_tests_cant"])
        for n, t in (("FUNCTIONS", "under contract"), ("TRUSTED", "trusted"), ("ASSUMPTIONS", "assumed")):
            if m[n]: yield "- %s: %s" % (t, "; ".join(m[n]))
        yield ""
def seeded():
    yield "| id | property | needs | detection |\n|---|---|---|---|"
    for d in sorted(os.listdir(V + "/seeded")):
        j = json.load(open(V + "/seeded/%s/meta.json" % d)); yield "| %s | %s | %s | %s |" % (d, j["property"], j["needs"], DET.get(d, "violation with failing input"))
DET = {"G03-shift64": "violation (no-failing-input-found)", "P02-count16": "violation (no-failing-input-found)", "P08-mask-hoist": "violation (no-failing-input-found)"}
s = open(V + "/tools/design.md").read()
for k, v in (("PROPS", props()), ("FIXED", ["- `%s` %s: %s" % (x.split()[2], x.split()[1], " ".join(x.split()[3:])) for x in json.load(open(V + "/known_findings.json"))["fixed"]]), ("SEEDED", seeded()), ("NA", ["- **%s** (%s): %s" % (p["id"], p["title"], p["na"]) for p in P if p["na"]])): s = s.replace("@@%s@@" % k, "\n".join(v))
open(V + "/DESIGN.md", "w").write(s)
