#!/usr/bin/env python3
# Assembles DESIGN.md.
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
import props, propdefs
notes = {}
for l in open(here + "/design/props.md"):
    if l[:1] != "#" and ":" in l: k, v = l.split(":", 1); notes[k] = v.strip()
out = [open(here + "/design/head.md").read(), "## The properties\n\n"]
def b(p): return ", ".join("%s=%s" % kv for kv in p.items()) or "fixed in the harness"
for pid, d in sorted(propdefs.D.items()):
    out.append("### %s: %s\n\n%s\n\n*How it is decided.* %s\n\n*Why tests cannot.* %s\n\n" % (pid, d["title"], d["statement"], notes.get(pid, ""), d["why"]))
    js = props.PROPS.get(pid, {}).get("jobs", [])
    if not js: out.append("Not applicable: %s\n\n" % d.get("na", "")); continue
    out.append("| harness entry | quick bounds | thorough bounds |\n|---|---|---|\n")
    for j in js:
        q = j.get("params", {}); t = dict(q, **j.get("thorough", {}))
        out.append("| `%s` %s | %s | %s |\n" % (j["harness"], j["name"], "(thorough only)" if j.get("thorough_only") else b(q), b(t) if t != q else "same"))
    out.append("\n")
out.append(open(here + "/design/tail.md").read())
out.append("\n## Genuine defects found and repaired\n\n")
for l in open(V + "/known-findings.txt"):
    if l.startswith("fixed:"):
        _, p, h, w = l.split(None, 3); out.append("- %s `%s` %s" % (p[9:], h, w))
    elif l.strip() and l[0] != "#": out.append("- (recorded, not repaired) " + l)
out.append("\n## Seeded bugs\n\nEach is caught by the check of its own property unless noted.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    out.append("| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
open(V + "/DESIGN.md", "w").write("".join(out))
