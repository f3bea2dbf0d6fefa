"""Rewrites the findings list and the table of planted bugs in DESIGN.md between their markers."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(V + '/known_findings.json'))['findings']
by = {}
for f in d:
    by.setdefault(f['property'], []).append(f)
fl = [f"{sum(f['status']=='fixed' for f in d)} entries repaired, {sum(f['status']!='fixed' for f in d)} known.", '']
for p in sorted(by):
    for f in by[p]:
        c = f.get('commit', '')
        s = f'fixed {c}' if f['status'] == 'fixed' else '**known**'
        fl.append(f"* {p} ({s}): {f['what']}")
sl = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    e = lambda s: s.replace('|', '/').replace('\n', ' ')
    sl.append(f"| {i} | {m['property']} | {e(m['needs'])} | {m['property']} |")
p = V + '/DESIGN.md'
t = open(p).read()
for k, l in (('findings', fl), ('seeds', sl)):
    t = re.sub(f'<!-- {k} -->.*?<!-- /{k} -->', lambda _: f'<!-- {k} -->\n' + '\n'.join(l) + f'\n<!-- /{k} -->', t, flags=re.S)
open(p, 'w').write(t)
