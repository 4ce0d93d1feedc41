"""fills the tables of DESIGN.md from DESIGN.in.md, levels.py, evidence and seeded (python3 tools/mkdesign.py)"""
import json, glob, sys, os
sys.path.insert(0, '/verif')
import levels
t = open('/verif/DESIGN.in.md').read()
rows = []
for p in sorted(levels.PROPS):
    i = levels.PROPS[p]
    f = '/verif/evidence/%s.json' % p
    e = json.load(open(f))['coverage'] if os.path.exists(f) else {}
    n = len(e.get('functions_under_contract', []))
    rows.append('| %s | %s | %s | %s |' % (p, 'contracts: %s obligations%s' % (e.get('obligations'), '' if i['level'] == 'proof' else ', rest bounded') if i['proof'] else 'bounded stand-in', '%d functions' % n if i['proof'] else '-', '; '.join(i.get('bounded', [])) or ('-' if i['proof'] else 'all: ' + i['rule'])))
seeds = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f))
    seeds.append('* **%s** (%s): %s; needs %s.' % (f.split('/')[-2], d['property'], d['what_it_breaks'], d['needs']))
open('/verif/DESIGN.md', 'w').write(t.replace('@TABLE@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(seeds)).replace('@MORE@', open('/verif/DESIGN.more.md').read().strip() if os.path.exists('/verif/DESIGN.more.md') else ''))
