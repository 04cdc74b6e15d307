"""Writes DESIGN.md from tools/DESIGN.in.md, tools/measured.txt (final lines
of the quick checks), the registry and the seeds (tools/caught.txt)."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv import registry  # noqa: E402

t = open(HERE + "/tools/DESIGN.in.md").read()
rows = []
m = {l[:3]: l.strip() for l in open(HERE + "/tools/measured.txt")}
for pid in sorted(registry.PROPS):
    P = registry.PROPS[pid]
    x = re.search(r": (\d+) obligations.*bounded: (\d+) eval.* ([\d.]+)s$",
                  m[pid])
    b = ", ".join(sorted({b["fn"] for b in P.get("bounded", ())})) or "none"
    rows.append("| %s (%s) | %s | %s | %s s | %s |" % (
        pid, P["level"], ", ".join(sorted({n for _, n in P["contracts"]})),
        x[1], x[3], b + (" (%s)" % x[2] if b != "none" else "")))
notes = {}
for l in open(HERE + "/tools/caught.txt"):
    a, _, c = l.strip().partition(" ")
    if a:
        notes[a] = c
s = ["| planted bug | needs | result |", "|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    s.append("| %s | %s | %s |" % (i, d["needs"].replace("|", "\\|"),
                                   notes.get(i, "?")))
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@",
                                                    "\n".join(s))
open(HERE + "/DESIGN.md", "w").write(t)
