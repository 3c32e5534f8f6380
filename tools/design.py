#!/usr/bin/env python3
"""Renders DESIGN.md from tools/DESIGN.tmpl.md, seeded/*/meta.json, tools/caught.json, MANIFEST.json and the templates."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(f'{H}/MANIFEST.json'))
props = {j['id']: j for j in map(json.loads, open(f'{H}/properties.jsonl'))}
caught = json.load(open(f'{H}/tools/caught.json')) if os.path.exists(f'{H}/tools/caught.json') else {}
status = f"### 2b. Status\nClaimed: {', '.join(c['property'] for c in man['checks'])}.\n"
if man['not_applicable']: status += 'Not (yet) claimed: ' + ', '.join(n['property'] for n in man['not_applicable']) + ' (section 5).\n'
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(f'{H}/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    f = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append(f"| {i} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {caught.get(i, m['property'] + ' (failing input)')} |")
na = '\n'.join(f"- **{n['property']}** {props[n['property']]['title']}: {n['reason']}" for n in man['not_applicable']) or 'None.'
fns = []
for s in sorted(glob.glob(f'{H}/specs/*.vrs')):
    names = re.findall(r'^//@fn (?:src/)?(\S+?)::(.+?)(?: as \S+)?(?: -> \w+)?(?: external)?$', open(s).read(), re.M)
    if not names: continue
    by = {}
    for f, n in names: by.setdefault(f, []).append(n)
    fns.append(f"- `{os.path.basename(s)[:-4]}` ({len(names)}): " + '; '.join(f'{f}: ' + ', '.join(ns) for f, ns in by.items()))
t = open(f'{H}/tools/DESIGN.tmpl.md').read()
for k, v in (('STATUS', status), ('BUGS', '\n'.join(rows)), ('NA', na), ('FNS', '\n'.join(fns))): t = t.replace(f'@@{k}@@', v)
open(f'{H}/DESIGN.md', 'w').write(t)
