"""Adds rows for planted bugs that are missing in DESIGN.md's table."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a = s.index("| `c01-len")
b = s.index("\n\n", a)
rows = {re.match(r"\| `([^`]+)`", l).group(1): l for l in s[a:b].split("\n")}
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.setdefault(i, f"| `{i}` | {m['property']} | {m['needs']} |")
rows = [rows[k] for k in sorted(rows) if k.startswith("c") and os.path.isdir(os.path.join(root, "seeded", k))]
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])
