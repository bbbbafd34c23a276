"""Writes DESIGN.md: docs/design_head.md and tables made from known_findings.json and seeded/."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(V, "docs", "design_head.md")).read()]
kf = json.load(open(os.path.join(V, "known_findings.json")))
fixed = [f.split(" ", 3) for f in kf["fixed"]]
out.append(f"""
## 5. Defects found

The checks (and writing the specification) found {len(fixed)} genuine defects. Each was reproduced against the code,
and repaired by a small `fix:` commit with which all 456 tests still pass; the check of the property passes on the
repaired tree and reports the violation if it returns. {len(kf['findings'])} are recorded without a repair.
False alarms met on the way were corrected in the specification or the generators; what they taught is section 4.

| Property | Commit | What failed |
|-|-|-|
""" + "\n".join("| {} | {} | {} |".format(f[1].split("=")[1], f[2], f[3].replace("|", "\\|")) for f in sorted(fixed, key=lambda f: f[1])) + "\n")
bugs = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    bugs.append((os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
out.append(f"""
## 6. Planted bugs

{len(bugs)} changes in `seeded/` (made by `tools/bugs.py`, confirmed by `tools/plant.py confirm`: applies, builds, passes the
tests, demonstration passes without and fails with it). Each was written from its property's text; where one was missed
at first the specification or a generator was extended (for example: cuts of the stream at every byte, lines of threads as
steps, more members than one, letter case of quoted values, integers next to limits). Every one is now caught by the quick
check of the property it names (`tools/plant.py catch`).

| Bug | Caught by | Needs |
|-|-|-|
""" + "\n".join(f"| {a} | {b} | {c} |" for a, b, c in bugs) + "\n")
out.append(open(os.path.join(V, "docs", "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
print(len(fixed), "fixes", len(bugs), "bugs")
