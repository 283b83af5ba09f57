#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (the last column is kept)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
head = "| bug | caught by | needs | at first |\n|---|---|---|---|\n"
start = text.index(head) + len(head)
end = text.index("\n\n", start) + 1
notes = {row.split("|")[1].strip(): row.split("|")[4].strip() for row in text[start:end].splitlines() if row.startswith("|")}
rows = ""
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows += f"| {d} | {m['property']} | {m['needs']} | {notes.get(d, '')} |\n"
open(path, "w").write(text[:start] + rows + text[end:])
