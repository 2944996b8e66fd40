#!/usr/bin/env python3
"""tools/mkpatch.py ID PROP FILE OLD NEW NEEDS BREAKS : writes seeded/ID/patch.diff and meta.json (FILE/OLD/NEW may be repeated as JSON list in FILE)."""
import sys, json, os, difflib
i, prop, f, old, new, needs, breaks = sys.argv[1:8]
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", i); os.makedirs(d, exist_ok=True)
ed = json.loads(f) if f.startswith("[") else [[f, old, new]]
out = ""; files = {}
for p, o, n in ed:
    s = files.setdefault(p, [open("/repo/" + p).read()] * 2)
    assert s[1].count(o) >= 1, ("no match", o)
    assert s[1].count(o) == 1, ("ambiguous", o)
    files[p] = [s[0], s[1].replace(o, n)]
for p, (a, b) in files.items():
    out += "".join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), "a/" + p, "b/" + p))
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
