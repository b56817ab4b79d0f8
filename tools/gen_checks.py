#!/usr/bin/env python3
"""Source of /verif/checks.json and /verif/MANIFEST.json (run to regenerate both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHK = {}
def parts(src, n, **kw):
    base = src[:-4]
    return [dict(name=f'{base}_{i}', src=src, flags=[f'-DPART={i}'], **kw) for i in (range(1, n + 1) if isinstance(n, int) else n)]
def one(src, **kw): return [dict(name=src[:-4], src=src, **kw)]
def c(id, level, bins, technique, rule, bounds, note, assumptions=(), **kw):
    CHK[id] = dict(level=level, bins=bins, technique=technique, rule=rule, bounds=bounds, level_note=note, assumptions=list(assumptions), **kw)
exec(open(os.path.join(ROOT, 'tools', 'checks_def.py')).read())
cfg = dict(cxx='g++', flags=["-std=c++20", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
           properties={k: {x: y for x, y in v.items() if x not in ('technique', 'level_note')} for k, v in sorted(CHK.items())})
json.dump(cfg, open(os.path.join(ROOT, 'checks.json'), 'w'), indent=1)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
man = dict(version=1, setup_cmd='bash tools/setup.sh',
  checks=[dict(property=k, quick_cmd=f'python3 tools/check.py {k} --tier quick', thorough_cmd=f'python3 tools/check.py {k} --tier thorough',
               technique=v['technique'], level=v['level'], level_note=v['level_note']) for k, v in sorted(CHK.items())],
  not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in props if p['id'] not in CHK],
  notes='All checks rebuild their harnesses from /repo/include on every run; see DESIGN.md.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(CHK), 'claimed;', len(man['not_applicable']), 'not')
