#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json (regenerates both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook or None
    P.append(d)

exec(open(os.path.join(V, "lib", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")

man = dict(version=1, setup_cmd="python3 lib/run.py setup",
           hooks=dict(guard="CPPTRACE_VERIF_UNUSED", enable="no hooks: the checks build /repo/src as it is", source_commits=[]),
           checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
           notes="One runner (lib/run.py) drives every check; harnesses live in harness/, built from /repo's working tree with lib/vbuild.py.")
claimed = [p["id"] for p in P if p["id"] not in NOT_APPLICABLE]
for id in claimed:
    if id not in CHECKS: continue
    c = CHECKS[id]
    man["checks"].append(dict(property=id, quick_cmd=f"python3 lib/run.py check {id} quick",
        thorough_cmd=f"python3 lib/run.py check {id} thorough", technique=c["technique"],
        level=c.get("level", "exploration"), level_note=c["note"], evidence_file=f"evidence/{id}.json"))
for id in claimed:
    if id not in CHECKS:
        man["not_applicable"].append(dict(property=id, reason="check not built yet"))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties", len(man["checks"]), "checks")
