#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source of truth)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, COST
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE or not p.get("technique"):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["level_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "All checks are bounded-exhaustive explorations of the real parser through its public API (crate mc, path dependency on /repo); no hooks in /repo are needed. See DESIGN.md.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
# DESIGN.md: design.in.md with the property sections and the planted bugs filled in
sec = []
for p in PROPS:
    sec.append("### %s. %s\n\n%s\n\n* How: %s.\n* Bounds and cost: %s%s\n* Anchors: %s.\n" % (
        p["id"], p["title"], p["statement"], p["technique"], p["level_note"], COST.get(p["id"], ""),
        "; ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"])))
res = {}
rf = os.path.join(here, "caught.txt")
if os.path.exists(rf):
    for l in open(rf):
        f = l.split()
        if len(f) >= 3:
            res.setdefault(f[0], []).append((f[1], f[2]))
rows = []
sd = os.path.join(root, "seeded")
for b in sorted(os.listdir(sd)):
    mf = os.path.join(sd, b, "meta.json")
    if os.path.exists(mf):
        mj = json.load(open(mf))
        c = ", ".join("%s %s" % (a, "catches it" if r == "exit=1" else "MISSES it") for a, r in res.get(b, [])) or "not run"
        rows.append("* `%s` (%s): %s. Needs: %s. Result: %s." % (b, mj["property"], mj["what_it_breaks"], mj["needs"], c))
t = open(os.path.join(here, "design.in.md")).read()
t = t.replace("%PROPS%", "\n".join(sec)).replace("%BUGS%", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
