#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q sa >/dev/null 2>&1 || true',
    'checks': [
        {
            'property': p['id'],
            'quick_cmd': f'python3 check.py {p["id"]}',
            'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["id"]}',
            'technique': p['technique'],
            'level': 'other',
            'level_note': p['level_note'],
        } for p in PROPS if p['id'] not in NOT_APPLICABLE
    ],
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
    'notes': NOTES,
}
with open(os.path.join(here, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')

# the generated sections of DESIGN.md
path = os.path.join(here, 'DESIGN.md')
with open(path, encoding='utf-8') as fh:
    doc = fh.read()


def section(doc, name, text):
    a, b = f'<!-- {name} -->', f'<!-- /{name} -->'
    i, j = doc.index(a) + len(a), doc.index(b)
    return doc[:i] + '\n' + text + '\n' + doc[j:]


titles = {p['id']: p['title'] for p in PROPS}
na = '\n'.join(f'**{k}** {titles.get(k, "")}: {v}\n' for k, v in sorted(NOT_APPLICABLE.items()))
rows = ['| planted bug | property | what it breaks | needs |', '|---|---|---|---|']
sd = os.path.join(here, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    with open(os.path.join(sd, d, 'meta.json'), encoding='utf-8') as fh:
        x = json.load(fh)
    rows.append(f"| {d} | {x['property']} | {x['what_it_breaks']} | {x['needs']} |")
doc = section(section(doc, 'na', na), 'seeds', '\n'.join(rows))
with open(path, 'w', encoding='utf-8') as fh:
    fh.write(doc)
