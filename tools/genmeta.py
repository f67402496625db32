#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from one table (committed output; run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTERP = "Whole-program abstract interpretation of the package's syntax trees (msa/): no repository code is imported or run."
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, claimed=True, design=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]},
                  _technique=technique, _note=note, _claimed=claimed, _design=design))


def na(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "meta_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 9)'", "checks": [], "not_applicable": NA}
for p in P:
    if p["_claimed"]:
        man["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                              "technique": p["_technique"], "level": "other", "level_note": p["_note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

fixed = [l.split("fixed: ", 1)[1] for l in open(os.path.join(HERE, "known_findings.txt")).read().splitlines() if l.startswith("fixed:")]
sr = os.path.join(HERE, "tools", "seed_results.json")
seeds = json.load(open(sr)) if os.path.exists(sr) else {}
rows = ["| change | property | caught by | what it breaks (needs) |", "|---|---|---|---|"]
for k, v in sorted(seeds.items()):
    rows.append(f"| {k} | {v['property']} | {', '.join(v['caught']) or 'missed'} | {v['breaks']} ({v['needs']}) |")
props = []
for p in P:
    props.append(f"### {p['id']} {p['title']}" + ("" if p["_claimed"] else " (not claimed)") + f"\n\n{p['statement']}\n\n*Decided by:* {p['_technique']}. {p['_design']}\n\n*Limits:* {p['_note']}.\n")
d = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
d = d.replace("@@PROPS@@", "\n".join(props)).replace("@@NA@@", "\n".join(f"- {x['property']}: {x['reason']}" for x in NA) or "none")
d = d.replace("@@FIXED@@", "\n".join("- " + x for x in fixed)).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(d)
