"""Assemble DESIGN.md from its parts, known_findings.json and the planted bugs."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = lambda f: open(os.path.join(R, "tools", f)).read().rstrip() + "\n\n"
k = json.load(open(os.path.join(R, "known_findings.json")))
o = T("design_head.md").replace("@FIXES@", str(len(k["fixed"]))) + T("design_props.md")
o += "## Findings\n\nEach was a violation reported by a check on the tree as given, reproduced against the real code.\n\n"
o += "Repaired (one `fix:` commit each; the check reports it again on the commit before):\n\n"
for x in sorted(k["fixed"], key=lambda x: x.split("=")[1]):
    p, h, w = x[len("fixed: property="):].split(" ", 2)
    o += f"* {p} `{h}` {w}\n"
o += "\nRecorded, not repaired (`known_findings.json`, reported as KNOWN-FINDING):\n\n"
for x in k["findings"]:
    o += f"* {x['property']} `{x['key']}`: {x['what']}\n"
o += "\n" + T("design_bugs.md")
o += "| planted bug | property | caught by | what it does |\n|---|---|---|---|\n"
caught = json.load(open(os.path.join(R, "tools", "caught.json")))
for m in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    i = m.split("/")[-2]
    d = json.load(open(m))
    o += f"| {i} | {d['property']} | {', '.join(caught.get(i, ['?']))} | {' '.join(d['what_it_breaks'].split())} |\n"
o += "\n" + T("design_limits.md")
open(os.path.join(R, "DESIGN.md"), "w").write(o.rstrip() + "\n")
