#!/usr/bin/env python3
"""Rewrites the generated tables at the end of DESIGN.md (planted bugs, fixes, findings)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(os.path.join(here, "DESIGN.md")).read()
mark = "<!-- generated below: tools/gen_design.py -->"
d = d.split(mark)[0] + mark + "\n\n"
also = {}
d += "## Planted bugs and the checks that catch them\n\n"
d += "Each was confirmed with tools/plant.py (applies, builds, stable tests pass, demo passes without and fails with it); the quick check of the\nnamed property catches it (tools/trial.sh).\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    c = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    d += f"| {i} | {m['property']}{(' ' + also[i]) if i in also else ''} | {c(m['what_it_breaks'])} | {c(m['needs'])} |\n"
kf = json.load(open(os.path.join(here, "known_findings.json")))
d += "\n## Genuine defects repaired (fix: commits in /repo)\n\n"
for k in kf:
    if "fixed" in k:
        d += "* " + k["fixed"][len("fixed: "):] + "\n"
d += "\n## Open findings\n\n"
for k in kf:
    if "fixed" not in k:
        d += f"* {k['property']} ({k['task']}): {k['what']}\n"
open(os.path.join(here, "DESIGN.md"), "w").write(d)
