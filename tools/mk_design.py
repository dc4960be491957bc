#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, notes.py, known_findings.txt and seeded/."""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH, NA, NOTE, ORACLE, MISSED = {}, {}, {}, {}, {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
o = [open(os.path.join(here, "tools", "design_head.md")).read().rstrip(), "", "## Per property",
     "Each line: the oracle; what is generated; why the tests do not reach it; what each check counts as non-trivial is in its evidence file.", ""]
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    o.append("* **%s %s.** Oracle: %s. Generated: %s. Not reachable by the tests: %s" % (p["id"], p["title"], ORACLE.get(p["id"], TECH.get(p["id"], "reference model")), p["quantifier"]["text"], p["why_tests_cant"]))
o += ["", "No property is listed under not_applicable: each is a statement about inputs or histories that can be generated and judged by running the code.",
      "", "## Seeded changes", "", "| change | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    o.append("| %s | %s%s | %s |" % (i, m["property"], " (quick)" if i not in MISSED else " (missed: %s)" % MISSED[i], m["needs"]))
o += ["", "## Repaired defects", "", "Each is a `fix:` commit in /repo; the check of the property fails without it.", ""]
n = 0
for l in open(os.path.join(here, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        o.append("* %s `%s`: %s" % m.groups()); n += 1
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o) + "\n")
print(n, "repairs")
