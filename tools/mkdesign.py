"""Rewrites the generated part of DESIGN.md (per property: functions under contract, bounded, trusted) from contracts/ and properties.jsonl."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
A, B = '<!-- generated: tools/mkdesign.py -->', '<!-- end of generated part -->'
out = []
na = {x['property'] if 'property' in x else x['id']: x['reason'] for x in json.load(open(os.path.join(HERE, 'MANIFEST.json'))).get('not_applicable', [])}
seeds = {}
sd = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    seeds.setdefault(m['property'], []).append(d)
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not applicable: %s\n' % na[i])
        continue
    try:
        m = importlib.import_module('contracts.' + i.lower())
    except ModuleNotFoundError:
        m = None
    if m is None:
        out.append('Bounded only: the real code is run on generated inputs against an oracle written from the statement (`falsify/`). No contract within reach yet; level `exploration`.\n')
    else:
        names = []
        for c in m.CONTRACTS:
            if c.qual not in names:
                names.append(c.qual)
        out.append('* under contract (%d): %s' % (len(names), ', '.join('`%s`' % n for n in names)))
        ab = getattr(m, 'ABOUT', {})
        if ab.get('level_note'):
            out.append('* what is proved: ' + ab['level_note'])
        if ab.get('bounded'):
            out.append('* bounded stand-in only: ' + ', '.join('`%s`' % x for x in ab['bounded']))
        if ab.get('trusted'):
            out.append('* assumed: ' + '; '.join(ab['trusted']))
    if seeds.get(i):
        out.append('* planted changes: ' + ', '.join('`%s`' % x for x in seeds[i]))
    out.append('')
f = os.path.join(HERE, 'DESIGN.md')
t = open(f).read()
if A not in t:
    t += '\n' + A + '\n' + B + '\n'
t = t[:t.index(A) + len(A)] + '\n\n' + '\n'.join(out) + '\n' + t[t.index(B):]
open(f, 'w').write(t)
