#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ALSO = {
    "c06-proxy-drop-all": ["C04"],
    "c06-receiver-closed-capacity": ["C05"],
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    rows.append(f"| {i} | {m['needs']} | {', '.join([m['property']] + ALSO.get(i, []))} |")
p = root + "/DESIGN.md"
s = open(p).read()
head = s[: s.index("SEEDTABLE")] if "SEEDTABLE" in s else s[: s.index("| planted bug |")]
open(p, "w").write(head + "\n".join(rows) + "\n")
