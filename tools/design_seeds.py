#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| change | breaks | needs | reported by |\n|---|---|---|---|')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); c = lambda s: ' '.join(str(s).split()).replace('|', '/')
    print('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), c(d['what_it_breaks']), c(d['needs']), d.get('caught_by', d['property'])))
