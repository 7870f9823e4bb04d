#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = [(json.load(open(f)), os.path.basename(os.path.dirname(f))) for f in glob.glob(root + "/seeded/*/meta.json")]
print("| bug | check | what it breaks | needs |\n|---|---|---|---|")
for meta, name in sorted(rows, key=lambda r: (r[0]["property"], r[1])):
    print(f"| `{name}` | {meta['property']} | {meta['what_it_breaks']} | {meta['needs']} |")
