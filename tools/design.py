"""DESIGN.md from tools/design.md.in, tools/missed.txt and tools/seedresults.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(f'{V}/tools/seedresults.json'))
rows = ['| bug | property | needs | caught |', '|---|---|---|---|']
for i, r in sorted(res.items(), key=lambda t: (t[1]['property'], t[0])):
    p = f'{V}/seeded/{i}/meta.json'
    if not os.path.exists(p): continue
    m = json.load(open(p))
    rows.append(f"| {i} | {r['property']} | {m['needs']} | {'yes' if r['caught'] else 'NO'}{' (also ' + ', '.join(r['also']) + ')' if r.get('also') else ''} |")
missed = [l.strip() for l in open(f'{V}/tools/missed.txt') if l.strip()]
t = open(f'{V}/tools/design.md.in').read()
open(f'{V}/DESIGN.md', 'w').write(t.replace('@MISSED@', '\n'.join('* ' + l for l in missed)).replace('@TABLE@', '\n'.join(rows)))
