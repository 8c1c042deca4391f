"""Writes DESIGN.md from properties.jsonl, design_body.py, seeded/*/meta.json,
KNOWN_FINDINGS.txt and tools/mutation_notes.md."""
import collections
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from design_body import D  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
out.append("\n## Per property\n")
fixed = collections.Counter(
    re.findall(r"^fixed: property=(C\d+)",
               open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")).read(), re.M))
for p in props:
  pid = p["id"]
  mon, oracle, bounds = D[pid]
  out.append("### %s %s\n" % (pid, p["title"]))
  out.append("- **Monitored.** %s" % mon)
  out.append("- **Oracle.** %s" % oracle)
  out.append("- **Bounds.** %s" % bounds)
  if fixed[pid]:
    out.append("- **Defects found and repaired with it:** %d (see "
               "KNOWN_FINDINGS.txt)." % fixed[pid])
  out.append("")
out.append("\n## Planted bugs\n")
out.append("Each was written from the property's text and the code, confirmed "
           "to pass the stable tests, and kept whether or not the check saw "
           "it at first. The quick check of the named property catches every "
           "one listed unless the last column says otherwise.\n")
out.append("| id | property | what it breaks | needs | caught by |")
out.append("|---|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
  m = json.load(open(f))
  out.append("| %s | %s | %s | %s | %s |" % (
      os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"],
      m["needs"], m.get("caught_by", m["property"] + " quick")))
out.append("")
notes = os.path.join(ROOT, "tools", "design_tail.md")
res = os.path.join(ROOT, "tools", "mutation_results.md")
out.append(open(notes).read().replace("MUTATION_RESULTS",
                                      open(res).read().strip()))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
