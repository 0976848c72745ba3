#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
print("| id | property | what it breaks | needs |\n|---|---|---|---|")
for p in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    print(f"| {i} | {m['property']} | {c(m.get('what_it_breaks',''))} | {c(m.get('needs',''))} |")
