#!/usr/bin/env python3
"""Single source of the property list, the manifest and the per-check configuration.
   python3 meta.py   rewrites properties.jsonl, MANIFEST.json and checks/config.json"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
D = "discrete_src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level, technique, note, rule, quick, thorough, state=None, observe=None, cross=False, bounds="", assumptions=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level=level, technique=technique, note=note, rule=rule,
                  quick=quick, thorough=thorough, state=state, observe=observe, cross=cross, bounds=bounds, assumptions=assumptions or []))
NA = []
exec(open(os.path.join(H, "meta_props.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        if p["state"]: d["anchors"]["state"] = p["state"]
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API, the documented build flags and a custom allocator only", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": NA}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: {"level": p["level"], "variants": {"quick": p["quick"], "thorough": p["thorough"]}, "rule": p["rule"], "bounds": p["bounds"], "cross": p["cross"], "assumptions": p["assumptions"]} for p in P}, open(os.path.join(H, "checks", "config.json"), "w"), indent=1)
# ---- the property part of DESIGN.md
exec(open(os.path.join(H, "meta_design.py")).read())
A, B = "<!-- properties: written by meta.py -->", "<!-- end of properties -->"
dp = os.path.join(H, "DESIGN.md"); d = open(dp).read()
if A in d:
    o = ""
    for p in sorted(P, key=lambda x: x["id"]):
        orc, scen = ORACLE[p["id"]]
        o += "\n### %s %s\n*Decided by* %s (level: %s). *Oracle:* %s. *Scenarios:* %s. *Bounds:* %s. *Builds:* quick %s; thorough %s. *Cost:* quick about %d s on 8 cores. *Beyond tests:* %s *Limits:* %s%s\n" % (p["id"], p["title"], p["technique"], p["level"], orc, scen, p["bounds"], ", ".join(p["quick"]), ", ".join(p["thorough"]), COST[p["id"]], p["why"], p["note"], (" Assumptions: " + "; ".join(p["assumptions"]) + ".") if p["assumptions"] else "")
    d = d[:d.index(A) + len(A)] + "\n" + o + "\n" + d[d.index(B):]
    open(dp, "w").write(d)
