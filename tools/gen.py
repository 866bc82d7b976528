#!/usr/bin/python3
"""writes properties.jsonl and MANIFEST.json from tools/meta.py and harness/props.py"""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, "harness")]
from meta import META
from props import PROPS
assert set(PROPS) == set(META), set(PROPS) ^ set(META)
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in META.values():
        assert len(p["title"]) <= 80, p["id"]
        assert len(re.findall(r"[.!?](?=\s|$)", p["statement"])) <= 3, (p["id"], "sentences")
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks = []
for pid, p in META.items():
    q = PROPS[pid]
    mods = sorted({m["module"] for m in q.get("mc", ())} | {q["trace"][0]})
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} --tier quick",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "TLA+ specification checked with TLC; conformance by trace validation of the real code (" + ", ".join(mods) + ")",
        "level": "model_checking",
        "level_note": p["_note"] + " Trusted: TLC, the drivers' recording of inputs and results."})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
           "notes": "TLA+ with TLC. check.py runs the model, generates behaviours, drives the code in /repo and validates the records. See DESIGN.md."},
          open(f"{ROOT}/MANIFEST.json", "w"), indent=1)


# ------------------------------------------------------------------ generated parts of DESIGN.md
def part(name, text):
    global D
    a, b = f"<!-- {name}:start -->", f"<!-- {name}:end -->"
    i, j = D.index(a) + len(a), D.index(b)
    D = D[:i] + "\n" + text.rstrip() + "\n" + D[j:]


D = open(f"{ROOT}/DESIGN.md").read()
out = []
for pid, p in META.items():
    q = PROPS[pid]
    mods = ", ".join(f"`{m['module']}` ({m['cfg'] if isinstance(m['cfg'], str) else m['cfg']['quick'] + ' / ' + m['cfg']['thorough']})" for m in q.get("mc", ()))
    gen = ", ".join(f"`{m['cfg']}`" for m in q.get("gen", ()))
    drv, _, fn = q["driver"].partition(":")
    out.append(f"""### {pid} {p['title']}
- Specified/judged: {p['_note']}
- Model: {mods}. {'Behaviours replayed from: ' + gen + '. ' if gen else ''}Driver: `harness/drv_{drv}.py`{' (' + fn + ')' if fn else ''}; trace specification: `{q['trace'][0]}` ({q['trace'][2]}).
- Over: {p['quantifier']['text']}.
- Beyond the tests: {p['why_tests_cant']}
""")
part("properties", "\n".join(out))
K = json.load(open(f"{ROOT}/known_findings.json"))
part("findings", "\n".join(f"- **{f['id']}** ({f['property']}; cases `{f['key']}`): {f['what']}." for f in K["findings"]) +
     f"\n\nRepaired ({len(K['fixed'])}):\n\n" + "\n".join("- " + re.sub("^fixed: property=", "", x) for x in K["fixed"]))
rows = ["| seed | property | needs | breaks | quick check |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('result', '')} |")
part("seeds", "\n".join(rows))
open(f"{ROOT}/DESIGN.md", "w").write(D)
