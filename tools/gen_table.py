#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (developer tool)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '## 8. Table of planted bugs\n'
s = open(root + '/DESIGN.md').read().split(M)[0].rstrip() + '\n\n' + M
s += '\nEach is caught by the quick check of the property its name begins with.\n\n| planted | what it breaks | needs |\n|---|---|---|\n'
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    s += f"| {f.split('/')[-2]} | {m['what_it_breaks']} | {m['needs']} |\n"
open(root + '/DESIGN.md', 'w').write(s)
