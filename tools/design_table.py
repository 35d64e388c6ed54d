#!/usr/bin/env python3
"""Prints the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
print('| planted change | property | needs | caught by |')
print('|---|---|---|---|')
caught = json.load(open(os.path.join(here, 'tools', 'caught.json')))
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    print(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
