#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, claimed=True):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=observe, state=state, claimed=claimed))

sys.path.insert(0, os.path.join(HERE, "tools"))
import props
props.define(prop)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": props.NOT_APPLICABLE,
     "notes": "Runtime monitoring only: the real library runs in worker processes under generated workloads; independent oracles and process-level monitors judge each execution. No hooks in /repo are needed."}
for p in P:
    if not p["claimed"]:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h%x09%s"], capture_output=True, text=True).stdout.splitlines()
fixed, seen = [], set()
for l in reversed(log):
    h, sub = l.split("\t", 1)
    if not sub.startswith("fix:"): continue
    if sub not in props.FIXED: print("UNLISTED FIX", h, sub); continue
    seen.add(sub)
    v = props.FIXED[sub]
    pid, what = (v, sub[5:]) if isinstance(v, str) else v
    fixed.append("fixed: property=%s %s %s" % (pid, h, what))
for s in props.FIXED:
    if s not in seen: print("NO SUCH COMMIT", s)
json.dump({"findings": [dict(property=a, case=b, what=c, where=d) for a, b, c, d in props.FINDINGS], "fixed": fixed},
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)

import design
out = [design.HEAD, "## Properties and checks\n"]
for p in P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("*Over:* %s. *Why tests cannot settle it:* %s\n" % (p["text"].rstrip("."), p["why"]))
    out.append("*Decided by:* %s. %s\n" % (p["technique"], p["note"]))
    out.append(design.DETAIL.get(p["id"], "") + "\n")
    if p["id"] not in design.DETAIL: print("NO DESIGN DETAIL", p["id"])
if props.NOT_APPLICABLE:
    out.append("### Not applicable\n")
    for n in props.NOT_APPLICABLE: out.append("* %s: %s" % (n["property"], n["reason"]))
out.append("\n## Repaired defects\n")
out += ["* " + f[len("fixed: property="):] for f in fixed]
out.append("\n## Known findings\n")
out += ["* %s `%s`: %s (%s)" % (a, b, c, d) for a, b, c, d in props.FINDINGS] or ["None: every defect confirmed so far was repaired."]
out.append("\n## Planted bugs\n\nEach was written from the property text and the code, confirmed (builds, passes the 330 tests, demonstration fails only with it) and then run against the check of its property in the quick tier. `first missed` marks those that led to a stronger check.\n\n| change | property | what it needs to manifest | result |\n|---|---|---|---|")
sd = os.path.join(HERE, "seeded")
for n in sorted(os.listdir(sd)):
    mf = os.path.join(sd, n, "meta.json")
    if os.path.exists(mf):
        m = json.load(open(mf))
        out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " "), design.RESULT.get(n, "caught")))
out.append("\n" + design.TAIL)
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
