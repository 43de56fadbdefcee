#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from propdefs.py and props.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import propdefs, props
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in sorted(propdefs.D.items()):
        o = {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for pid, p in sorted(propdefs.D.items()):
    if pid in props.PROPS and props.PROPS[pid]["jobs"]:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "technique": "symbolic execution of the LLVM IR compiled from /repo, every branch and assertion decided by Z3/byte-domain solving" + p.get("tech", ""),
                       "level": "model_checking",
                       "level_note": p.get("note", "Bounded: holds for every value of the symbolic inputs within the sizes listed in the evidence; counterexamples are replayed on an ASan build before being reported. Trusts clang, the executor and Z3.")})
    else:
        na.append({"property": pid, "reason": p.get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks share one symbolic executor (engine/), which executes clang's IR of /repo's current sources; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
