#!/usr/bin/env python3
"""Prints DESIGN.md: design_top.md, the findings, the notes and the table of planted bugs."""
import json, os, collections
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
find = collections.OrderedDict()
for l in open("known-findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed: property="):
        pid, com, what = l[len("fixed: property="):].split(" ", 2)
        find.setdefault(pid, []).append(f"`{com}` {what.split('; case:')[0]}")
F = "\n".join(f"* **{k}**: " + "; ".join(v) + "." for k, v in sorted(find.items()))
rows = ["| Planted bug | Property | What it breaks | Result |", "|---|---|---|---|"]
late = set(open("tools/missed_first.txt").read().split()); missed = set(open("tools/missed.txt").read().split())
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    s = "missed" if d in missed else "caught (missed first)" if d in late else "caught"
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {s} |")
print(open("tools/design_top.md").read().rstrip() + "\n")
print(open("tools/design_notes.md").read().replace("@FINDINGS@", F).replace("@SEEDS@", "\n".join(rows)).rstrip())
