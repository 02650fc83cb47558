"""Writes DESIGN.md from design_head.md, the law registry and design_tail.md."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V+'/vendor', '/repo']
import json
from pbt import core
core.load_laws()
props = [json.loads(l) for l in open(V+'/properties.jsonl')]
man = {c['property']: c for c in json.load(open(V+'/MANIFEST.json'))['checks']}
out = [open(V+'/tools/design_head.md').read().rstrip(), '', '## Properties and how they are decided', '']
for p in props:
    i = p['id']
    out += [f'### {i} {p["title"]}', '', p['statement'], '',
            f'*Quantifier:* {p["quantifier"]["text"]}. *Why tests cannot:* {p["why_tests_cant"]}', '',
            f'*Decided by* {man[i]["technique"]}. {man[i]["level_note"]}', '']
    for l in core.LAWS[i]:
        out.append(f'- `{l.name}` ({core.QUICK_SCALE*l.quick} cases quick, {max(l.thorough, core.QUICK_SCALE*l.quick)} thorough): {" ".join(l.fn.__doc__.split())} Non-trivial: {l.rule}.')
    out.append('')
out.append(open(V+'/tools/design_tail.md').read().rstrip())
out += ['', '## Planted bugs and the checks that catch them', '',
        'Each lies in `seeded/<id>/`; the check of its property catches each of them (quick tier, seed 1).', '',
        '| bug | property | what it breaks |', '|---|---|---|']
for d in sorted(os.listdir(V+'/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    out.append(f'| {d} | {m["property"]} | {" ".join(m["what_it_breaks"].split())} |')
open(V+'/DESIGN.md', 'w').write('\n'.join(out)+'\n')
