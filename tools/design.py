#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from the evidence of the last runs and from seeded/."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
title = {d['id']: d['title'] for d in map(json.loads, open(f'{HERE}/properties.jsonl'))}


def fill(s, tag, lines):
    return re.sub(f'<!-- {tag} -->.*<!-- /{tag} -->', lambda m: f'<!-- {tag} -->\n' + '\n'.join(lines) +
                  f'\n<!-- /{tag} -->', s, flags=re.S)


rows = ['| property | title | obligations | bounded runs | s | proved contracts | bounded-only contracts |',
        '|---|---|---|---|---|---|---|']
for p in sorted(title):
    f = f'{HERE}/evidence/{p}.json'
    if not os.path.exists(f):
        continue
    d = json.load(open(f))
    c = d['coverage']
    k = lambda v: ', '.join(x['name'] for x in c['contracts'] if x['verdict'] == v) or '-'
    rows.append(f'| {p} | {title[p]} | {c["discharged"]}/{c["obligations"]} | {c["evaluations"]} | '
                f'{d["wall_s"]:.0f} | {k("proved")} | {k("bounded only")} |')
bugs = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
    d = json.load(open(f))
    one = lambda t: ' '.join(str(t).split()).replace('|', '/')
    bugs.append(f'| {os.path.basename(os.path.dirname(f))} | {d["property"]} | '
                f'{one(d["what_it_breaks"])} | {one(d["needs"])} | {one(d.get("caught_by", ""))} |')
s = open(f'{HERE}/DESIGN.md').read()
s = fill(fill(s, 'table', rows), 'catch', bugs)
open(f'{HERE}/DESIGN.md', 'w').write(s)
