#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 5) from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
missed = {"holes_transparent", "square_sum_layout", "small_det_degenerate", "mesh_out_directory", "faint_line_loads", "negligible_couplings", "tiny_rhs_skipped"} | set(json.load(open("tools/missed_first.json")) if os.path.exists("tools/missed_first.json") else [])
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m, name = json.load(open(f)), f.split("/")[1]
    rows.append((m["property"], name, m["needs"].replace("|", "/"), "missed at first" if name in missed else ""))
rows.sort()
text = f"""## 5. Planted bugs

{len(rows)} changes in `seeded/`, each written from a property's text and the code, each compiling, passing the stable
tests and shown by its demonstration. Every one is caught by the quick check of the property it is filed under (the first column);
the ones marked were missed when first planted, and the check was extended until it found them.
Besides these, `tools/mutate.py` (mechanical mutants, sampled) and `tools/spot.py` (hand-written candidate
bugs, many at a time) are run while strengthening: section 6.

| check | change | needs | |
|---|---|---|---|
"""
for r in rows:
    text += "| %s | %s | %s | %s |\n" % r
s = open("DESIGN.md").read()
s = re.sub(r"## 5\. Planted bugs.*?(?=## 6\.|\Z)", "", s, flags=re.S)
a = s.find("## 6.")
s = s.rstrip() + "\n\n" + text if a < 0 else s[:a] + text + "\n" + s[a:]
open("DESIGN.md", "w").write(s)
