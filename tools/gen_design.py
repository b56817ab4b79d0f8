#!/usr/bin/env python3
"""Writes DESIGN.md from the properties, the check definitions and the notes below (kept in one place so they stay in step)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
M = json.load(open(os.path.join(R, 'MANIFEST.json')))
D = json.load(open(os.path.join(R, 'tools', 'design_notes.json')))
CH = {}
class _C(dict): pass
ns = {}
def c(pid, level, bins, technique, rule, bounds, *a, **k): CH[pid] = dict(level=level, bins=bins, technique=technique, rule=rule, bounds=bounds, a=a)
def parts(src, n): return [dict(src=src)] * n
exec(open(os.path.join(R, 'tools', 'checks_def.py')).read(), dict(c=c, parts=parts))
o = [open(os.path.join(R, 'tools', 'design_head.md')).read().rstrip(), '']
o.append('## 4. The properties, one by one\n')
for p in P:
    i = p['id']; n = D['properties'].get(i, {})
    o.append('### %s %s\n' % (i, p['title']))
    o.append('*Statement.* ' + p['statement'] + '\n')
    if i not in CH: o.append('Not claimed.\n'); continue
    k = CH[i]
    o.append('- **Decided by:** ' + k['technique'] + ' (`harness/%s`).' % k['bins'][0]['src'] if len({b['src'] for b in k['bins']}) == 1 else '- **Decided by:** ' + k['technique'] + ' (' + ', '.join('`harness/%s`' % s for s in sorted({b['src'] for b in k['bins']})) + ').')
    o.append('- **Enumerated:** quick - ' + k['bounds']['quick'] + '. Thorough adds - ' + k['bounds']['thorough'] + '.')
    o.append('- **Counting:** ' + k['rule'] + '.')
    for key, lab in (('oracle', 'Oracle'), ('why', 'Beyond the tests'), ('cost', 'Cost'), ('note', 'Notes')):
        if n.get(key): o.append('- **%s:** %s' % (lab, n[key]))
    o.append('')
o.append(open(os.path.join(R, 'tools', 'design_tail.md')).read().rstrip())
o.append('\n## 7. Planted bugs\n\nIn `seeded/`, each confirmed to build, to pass the 4909 stable tests and to be shown by its `demo.sh`.\n\n| bug | property | what it needs | caught by |\n|---|---|---|---|')
sd = os.path.join(R, 'seeded')
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    o.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), D['caught'].get(s, '?')))
o.append('')
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
