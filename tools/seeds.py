"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (run: python3 tools/seeds.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {', '.join(m.get('caught_by', [m['property']])) or 'nothing yet'} | {m.get('note', '')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p, encoding="utf-8").read()
s = re.sub(r"(\|----\|----------\|-----------\|-\|\n)(?:[@|].*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w", encoding="utf-8").write(s)
