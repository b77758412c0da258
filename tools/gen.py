#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS, NA

rows, checks = [], []
for p in PROPS + NA:
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    assert len(p["title"]) <= 80, p["id"]
for p in PROPS:
    assert os.path.exists(os.path.join(V, "sa/props", p["id"].lower() + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "other", "level_note": p["note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in sorted(rows, key=lambda r: r["id"]):
        f.write(json.dumps(r) + "\n")
man = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks read the compiler's MIR of the unmodified tree", "source_commits": []},
       "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
       "notes": "All checks share one MIR dump of /repo's current tree (built on demand, cached by content hash under /verif/.cache). See DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(rows), "properties,", len(checks), "checks")

# DESIGN.md: section 1 is written by hand, section 2 comes from the table and the rules' own explanations, the rest from design_tail.md
import glob, re
sys.path.insert(0, os.path.join(V, "sa"))
head = open(os.path.join(V, "DESIGN.md")).read().split("\n## 2. ")[0].rstrip() + "\n"
out = [head, "\n## 2. The properties, and how each is decided\n"]
for p in sorted(PROPS, key=lambda p: p["id"]):
    src = open(os.path.join(V, "sa/props", p["id"].lower() + ".py")).read()
    m = re.search(r"EXPLAIN = \((.*?)\)\n\n?[A-Z\n#d]", src, re.S) or re.search(r"EXPLAIN = (\".*?\")\n", src, re.S)
    ex = "".join(eval("[" + ",".join(re.findall(r'"(?:[^"\\\\]|\\\\.)*"', m.group(1))) + "]"))
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided by:* {p['tech']}. {ex}\n\n*Quantified* {p['q']}. *Beyond the tests:* {p['why']}\n\n"
               f"*Anchors:* {', '.join(p['files'])}\n")
out.append("### Not applicable to static analysis here\n")
for p in NA:
    out.append(f"* **{p['id']} {p['title']}** - {p['reason']}")
rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught_by', d['property'])} |")
tail = open(os.path.join(HERE, "design_tail.md")).read().replace("SEEDTABLE", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
