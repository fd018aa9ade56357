#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/specs.py (run after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def line(pid, s):
    assert len(s["title"]) <= 80, (pid, len(s["title"]))
    import re
    n = len([x for x in re.split(r"(?<=[.!?])\s+(?=[A-Z])", s["statement"]) if x]); assert n <= 3, (pid, n)
    a = dict(files=s["files"], mechanism=[dict(name=n, where=w) for n, w in s["mech"]])
    if s.get("state"): a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in s["state"]]
    if s.get("observe"): a["observe_at"] = list(s["observe"])
    a["hook_needed"] = s.get("hook")
    for f in s["files"]: assert os.path.exists("/repo/" + f), (pid, f)
    return dict(id=pid, title=s["title"], statement=s["statement"], quantifier=dict(over=s["over"], text=s["quant"]),
                why_tests_cant=s["tests"], anchors=a)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, s in SPECS.items(): f.write(json.dumps(line(pid, s), ensure_ascii=False) + "\n")
    for s, why in NOT_APPLICABLE: f.write(json.dumps(line(s["id"], s), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p, quick_cmd="python3 tools/run_check.py %s quick" % p,
                      thorough_cmd="python3 tools/run_check.py %s thorough" % p,
                      technique=s["technique"], level=s["level"], level_note=s["level_note"]) for p, s in SPECS.items()],
         not_applicable=[dict(property=s["id"], reason=why) for s, why in NOT_APPLICABLE],
         notes="No hooks in /repo: harnesses link the unmodified sources (destructive or nondeterministic calls are interposed at link time). "
               "Known findings and fixed defects: known/findings.json. How each property is decided: DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(SPECS), "properties")

p = os.path.join(V, "DESIGN.md"); d = open(p).read(); mark = "<!-- generated by tools/gen.py from tools/specs.py -->\n"
d = d[:d.index(mark) + len(mark)]
m1 = "<!-- seeds -->\n"; sd = os.path.join(V, "seeded"); t = "\n| planted bug | property | needs | breaks |\n|---|---|---|---|\n"
if os.path.isdir(sd) and m1 in d:
    for x in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, x, "meta.json"))); t += "| %s | %s%s | %s | %s |\n" % (x, m["property"], "".join(" +" + a for a in m.get("also", [])), m["needs"], m["what_it_breaks"])
    d = d[:d.index(m1) + len(m1)] + t + d[d.index("\n## Properties\n"):]
for pid, s in SPECS.items():
    d += "\n### %s - %s\n\n%s\n\n* quantified over: %s\n* deciding method: %s; %s\n* why tests cannot settle it: %s\n* code: %s\n" % (
        pid, s["title"], s["statement"], s["quant"], s["technique"], s["level_note"], s["tests"], ", ".join(s["files"]))
    for h in s["harnesses"]:
        d += "* harness `%s` (%s build): quick = %s; thorough = %s\n" % (", ".join("harness/" + x for x in h["src"]), h["build"]["mode"], h["bound"]["quick"], h["bound"]["thorough"])
    for a in s["assumptions"]: d += "* assumption: %s\n" % a
for s, why in NOT_APPLICABLE: d += "\n### %s - %s (not applicable)\n\n%s\n\n%s\n" % (s["id"], s["title"], s["statement"], why)
open(p, "w").write(d)
