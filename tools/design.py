#!/usr/bin/env python3
"""Appends the tables of defects and planted bugs to DESIGN.md."""
import glob
import json
import os
MARK = "<!-- generated by tools/design.py -->"
p = "/verif/DESIGN.md"
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n"
s += "## Defects found and repaired\n\nEach by one `fix:` commit in /repo, all of them shown against the real code first.\n\n| property | commit | what failed |\n|---|---|---|\n"
for f in json.load(open("/verif/known_findings.json"))["findings"]:
    if f["kind"] != "fixed":
        continue
    s += "| %s | %s | %s |\n" % (f["property"], f["commit"], f["what"].replace("|", "\\|"))
s += "\n## Known findings\n\nDefects that are recorded, not repaired (see the text above for why).\n\n| property | what fails |\n|---|---|\n"
for f in json.load(open("/verif/known_findings.json"))["findings"]:
    if f["kind"] == "known":
        s += "| %s | %s |\n" % (f["property"], f["what"].replace("|", "\\|"))
s += "\n## Planted bugs\n\nEach is caught by the quick check of its property (tools/runseeded.py), unless noted.\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n"
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    s += "| %s%s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), "" if d.get("caught", True) else " (missed)", d["property"], d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"))
open(p, "w").write(s)
