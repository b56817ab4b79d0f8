#!/usr/bin/env python3
"""Driver: build the harness binaries of one property against /repo's current tree, explore, report.

usage: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--keep-going]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself could not run.
"""
import argparse, array, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
CFG = json.load(open(os.path.join(ROOT, 'checks.json')))
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))

CXX = CFG['cxx']
BASE = CFG['flags'] + ['-I' + INC, '-I' + os.path.join(ROOT, 'harness')]
CACHE = os.environ.get('VERIF_CACHE')  # development only: reuse binaries keyed by content

def tree_hash():
    h = hashlib.sha256()
    for base in (INC, os.path.join(ROOT, 'harness')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if base != INC and not f.endswith('.hpp'): continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def compile_one(job):
    src, extra, out, th = job
    cmd = [CXX] + BASE + extra + ['-o', out, os.path.join(ROOT, 'harness', src)]
    key = None
    if CACHE:
        key = hashlib.sha256((th + ' '.join(cmd[:-3]) + open(os.path.join(ROOT, 'harness', src)).read()).encode()).hexdigest()
        c = os.path.join(CACHE, key)
        if os.path.exists(c):
            shutil.copy2(c, out); return (src, 0, '', 0.0)
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if key and r.returncode == 0:
        os.makedirs(CACHE, exist_ok=True); shutil.copy2(out, os.path.join(CACHE, key))
    return (src, r.returncode, r.stdout, time.time() - t)

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=1:handle_abort=1'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'

def run_shard(job):
    binp, shard, n, tier, work, hang = job
    out = os.path.join(work, f'{os.path.basename(binp)}.{shard}.json')
    st = out + '.status'; log = out + '.log'
    with open(log, 'w') as lf:
        try:
            r = subprocess.run([binp, '--shard', str(shard), '--nshards', str(n), '--tier', tier, '--out', out,
                                '--status', st, '--hang', str(hang)], stdout=lf, stderr=subprocess.STDOUT, env=ENV,
                               timeout=14400 if tier == 'thorough' else 880)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1000
    return (binp, shard, rc, out, st, log)

def read_status(p):
    try:
        b = open(p, 'rb').read()
        cn = int.from_bytes(b[0:8], 'little'); inc = int.from_bytes(b[8:12], 'little')
        hang = int.from_bytes(b[12:16], 'little'); suite = b[16:128].split(b'\0')[0].decode()
        return cn, inc, hang, suite
    except Exception:
        return None

def known(prop):
    """known-findings.txt lines: 'finding: property=<id> match=<regex> :: <what fails>' (fixed: lines suppress nothing)."""
    res = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(.+?) :: (.*)', l.strip())
            if m and m.group(1) == prop: res.append((re.compile(m.group(2)), m.group(3)))
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--only')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    cfg = CFG['properties'][prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        return go(a, prop, tier, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def go(a, prop, tier, cfg, work, t0):
    bins = cfg['bins']
    if a.only: bins = [b for b in bins if b['name'] == a.only]
    rep = json.load(open(a.replay)) if a.replay else None
    if rep: bins = [b for b in bins if b['name'] == rep['bin']]
    # thrown exceptions leak the fake stack frames of the use-after-return detector until it crawls
    if cfg.get('throws'): ENV['ASAN_OPTIONS'] = ENV['ASAN_OPTIONS'].replace('use_after_return=1', 'use_after_return=0')
    th = tree_hash() if CACHE else ''
    jobs = [(b['src'], [b.get('opt', '-O0') if tier == 'quick' else b.get('topt', '-O1')] + b.get('flags', []), os.path.join(work, b['name']), th) for b in bins]
    with ThreadPoolExecutor(JOBS) as ex: comp = list(ex.map(compile_one, jobs))
    bad = [c for c in comp if c[1] != 0]
    if bad:
        for c in bad: sys.stdout.write(f'harness {c[0]} does not compile against the current tree:\n{c[2][:2500]}\n')
        return 2
    tc = time.time()
    print(f'[{prop}] built {len(bins)} harness binaries in {tc - t0:.1f}s: ' + ', '.join(f'{c[0]} {c[3]:.0f}s' for c in comp))
    if rep:
        b = bins[0]
        r = subprocess.run([os.path.join(work, b['name']), '--tier', rep['tier'], '--suite', rep['suite'], '--case', str(rep['case'])], env=ENV)
        print('replay exit', r.returncode)
        return 1 if r.returncode else 0
    hang = cfg.get('hang', 40)
    sjobs = []
    for b in bins:
        n = b.get('shards', 8 if tier == 'quick' else 16)
        for i in range(n): sjobs.append((os.path.join(work, b['name']), i, n, tier, work, hang))
    # interleave so that long binaries start first
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(run_shard, sjobs))
    tot = {}; suites = {}; counters = {}; samples = []; viol = []; states = set(); outcomes = set(); dk = 0; errs = []
    for binp, shard, rc, out, st, log in res:
        name = os.path.basename(binp)
        text = open(log, errors='replace').read()
        if rc in (0, 1) and os.path.exists(out):
            j = json.load(open(out))
            for k, v in j['total'].items(): tot[k] = tot.get(k, 0) + v
            for s, d in j['suites'].items():
                x = suites.setdefault(name + '/' + s, {})
                for k, v in d.items(): x[k] = x.get(k, 0) + v
            for k, v in j['counters'].items(): counters[k] = counters.get(k, 0) + v
            dk += j['distinct_keys']
            if len(samples) < 12: samples += [s for s in j['samples'] if s not in samples][:2]
            for v in j['violations']:
                m = re.match(r'suite=(\S+) case=(\d+) (.*)', v, re.S)
                viol.append(dict(bin=name, suite=m.group(1), case=int(m.group(2)), what=m.group(3)))
            for kind, acc in (('.states', states), ('.outcomes', outcomes)):
                arr = array.array('Q')
                p = out + kind
                with open(p, 'rb') as f: arr.frombytes(f.read())
                if len(acc) < 12000000: acc.update(arr)
        else:
            s = read_status(st)
            if rc == -1000: errs.append(f'{name} shard {shard} exceeded the wall-clock limit'); continue
            if s is None or not s[1]:
                errs.append(f'{name} shard {shard} died (rc={rc}) outside any case:\n' + text[-1500:]); continue
            # attribute to the case, and describe it by replaying it
            d = subprocess.run([binp, '--tier', tier, '--suite', s[3], '--case', str(s[0]), '--hang', '15'], env=ENV, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
            m = re.search(r'CASE suite=\S+ case=\d+ (.*)', d.stdout)
            kind = 'does not terminate (CPU budget of one case exhausted)' if s[2] else f'crash rc={rc}'
            summ = re.search(r'(SUMMARY: .*|runtime error: .*|.*Assertion.*failed.*)', d.stdout + text)
            viol.append(dict(bin=name, suite=s[3], case=s[0], what=f'{m.group(1) if m else "?"} :: {kind} {summ.group(1) if summ else ""}', log=(d.stdout + '\n----\n' + text)[-6000:]))
    wall = time.time() - t0
    kn = known(prop); real = []; seen_known = {}
    for v in viol:
        for rx, desc in kn:
            if rx.search(f"bin={v['bin']} suite={v['suite']} " + v['what']): seen_known[desc] = seen_known.get(desc, 0) + 1; break
        else: real.append(v)
    for desc, n in seen_known.items(): print(f'KNOWN-FINDING: property={prop} {desc} (hit {n}x)')
    level = cfg['level']
    cov = dict(evaluations=tot.get('evaluations', 0), distinct_nontrivial=dk, checks=tot.get('checks', 0), rule=cfg['rule'], samples=samples,
               states=len(states), transitions=tot.get('transitions', 0), traces_validated_against_impl=tot.get('traces', 0),
               distinct_outcomes=len(outcomes), exhaustive=not errs and not real,
               bounds=cfg.get('bounds', {}).get(tier, cfg.get('bounds', '')), suites=suites, counters=counters)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov,
              assumptions=cfg.get('assumptions', []), wall_s=round(wall, 1), violations=len(real))
    if not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f"[{prop}] tier={tier} cases={cov['evaluations']} nontrivial={dk} states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} checks={cov['checks']} wall={wall:.1f}s (build {tc - t0:.1f}s)")
    if real:
        rd = os.path.join(ROOT, 'replays'); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(real[:25]):
            p = os.path.join(rd, f'{prop}-{v["bin"]}-{v["suite"]}-{v["case"]}.json')
            json.dump(dict(property=prop, tier=tier, **v), open(p, 'w'), indent=1)
            if i < 6: print(f"  {v['bin']}/{v['suite']}#{v['case']}: {(v['what'] if len(v['what']) < 700 else v['what'][:250] + ' ... ' + v['what'][-400:])}")
            if i == 0: first = p
        print(f'VIOLATION property={prop} replay={first}')
        return 1
    if errs:
        for e in errs: print('ERROR', e)
        return 2
    if not cov['evaluations']:
        print('ERROR nothing explored'); return 2
    return 0

if __name__ == '__main__': sys.exit(main())
