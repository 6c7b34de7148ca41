#!/usr/bin/env python3
''' Rewrite tools/SEEDED.md from seeded/*/meta.json and what plant.py recorded (development only). '''
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
rec = {}
for l in open('/tmp/w/planted.jsonl'):
    r = json.loads(l)
    if r.get('checks'): rec.setdefault(r['id'], []).append(r['checks'])
rows = []
for d in sorted(glob.glob(top + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d)
    runs = rec.get(i, [])
    last = {}
    for c in runs: last.update(c)
    first = runs[0] if runs else {}
    own = m['property']
    caught = [p for p, v in sorted(last.items()) if v[0] == 1]
    note = ''
    if own in first and first[own][0] != 1 and own in caught: note = ' (missed at first; the check was strengthened)'
    elif own not in caught: note = ' (MISSED)'
    rows.append(f"| {i} | {own} | {', '.join(caught) or '-'}{note} | {m['needs']} |")
open(here + '/SEEDED.md', 'w').write('| change | property | caught by | what it needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
print(len(rows), 'rows;', sum('MISSED' in r for r in rows), 'missed')
