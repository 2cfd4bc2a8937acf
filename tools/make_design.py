#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text and a table of the planted bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def main():
    text = open(os.path.join(HERE, 'design_head.md')).read()
    rows = ['| bug | property | needs | at first |', '|---|---|---|---|']
    missed = json.load(open(os.path.join(HERE, 'missed.json')))
    for d in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        name = os.path.basename(d)
        rows.append('| %s: %s | %s | %s | %s |' % (name, m['what_it_breaks'], m['property'], m['needs'], missed.get(name, 'caught')))
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write(text.rstrip() + '\n\n' + '\n'.join(rows) + '\n\nAll of them are caught by the check of their property now.\n')


if __name__ == '__main__':
    main()
