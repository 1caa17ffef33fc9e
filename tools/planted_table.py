"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    cell = lambda s: " ".join(s.split()).replace("|", "\\|")
    rows.append(f"| {d} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} |")
text = ("<!-- planted -->\n| change | caught by the check of | what it breaks | needs |\n|---|---|---|---|\n"
        + "\n".join(rows) + "\n<!-- /planted -->")
p = f"{ROOT}/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda _: text, t, flags=re.S)
open(p, "w").write(t)
