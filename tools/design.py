"""Writes DESIGN.md from tools/DESIGN.tmpl.md, properties.jsonl, the checks' BOUNDS and seeded/results.json."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
manifest = {c['property']: c for c in json.load(open(HERE + '/MANIFEST.json'))['checks']}
out = []
for line in open(HERE + '/properties.jsonl'):
    p = json.loads(line)
    ident = p['id']
    tree = ast.parse(open('%s/mc/checks/%s.py' % (HERE, ident.lower())).read())
    consts = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ('BOUNDS', 'ASSUMPTIONS'):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    out.append('### %s %s\n' % (ident, p['title']))
    out.append(p['statement'] + '\n')
    check = manifest[ident]
    out.append('* **Decided by**: %s.' % check['technique'])
    try:
        ev = json.load(open('%s/evidence/%s.json' % (HERE, ident)))
        cov = ev['coverage']
        if ev['tier'] == 'quick':
            import math
            out.append('* **Cost** (quick, 8 cores): about %d s; about %.1g states, %.1g transitions.' % (
                max(1, round(ev['wall_s'])), cov['states'], cov['transitions']))
    except OSError:
        pass
    for tier in ('quick', 'thorough'):
        out.append('* **Bounds, %s**: %s.' % (tier, '; '.join('*%s*: %s' % kv for kv in consts['BOUNDS'][tier].items())))
    if consts.get('ASSUMPTIONS'):
        out.append('* **Assumes**: %s.' % '; '.join(consts['ASSUMPTIONS']))
    out.append('* **Why tests cannot**: %s' % p['why_tests_cant'])
    out.append('')
try:
    results = json.load(open(HERE + '/seeded/results.json'))
except OSError:
    results = {}
seeded = []
if results:
    seeded.append('`seeded/<id>/` holds each change; "alarms" lists every check that reported a violation (quick tier).\n')
    seeded.append('| change | property | needs | alarms |\n|---|---|---|---|')
    for name in sorted(n for n in results if os.path.exists('%s/seeded/%s/meta.json' % (HERE, n))):
        meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, name)))
        seeded.append('| %s | %s | %s | %s |' % (name, meta['property'], meta['needs'].replace('|', '/'),
                                                 ' '.join(results[name]) or '**none**'))
text = open(HERE + '/tools/DESIGN.tmpl.md').read()
text = text.replace('\nTABLE\n', '\n' + '\n'.join(out).rstrip() + '\n').replace('\nSEEDED\n', '\n' + '\n'.join(seeded) + '\n')
open(HERE + '/DESIGN.md', 'w').write(text)
