#!/usr/bin/env python3
"""Plant bugs: make them from a spec, confirm them, run the checks on them.

  plant.py make SPEC.py [ID...]   write seeded/<id>/ from the spec's BUGS list
  plant.py verify ID...           tests + demo in scratch copies (parallel)
  plant.py check ID... [--all]    run the bug's property's check (or all checks)

No check uses this tool or reads seeded/; it works on scratch copies of /repo only.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$(mktemp -d) PYTHONPATH="$PWD"
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
timeout 250 /opt/venv/bin/python "$HERE/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def scratch(name):
    d = tempfile.mkdtemp(prefix=f'plant_{name}_', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    return d

def make(spec, ids):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    for b in ns['BUGS']:
        if ids and b['id'] not in ids: continue
        d = scratch('make'); r = d + '/repo'
        ok = True
        for f, old, new in b['edits']:
            p = f'{r}/{f}'; s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT does not match once:', f, s.count(old), repr(old[:80])); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if ok:
            diff = sh(['git', 'diff'], cwd=r).stdout
            o = f"{SEED}/{b['id']}"; os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.sh', 'w').write(DEMO_SH); os.chmod(o + '/demo.sh', 0o755)
            open(o + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(o + '/meta.json', 'w'), indent=1)
            print('made', b['id'])
        shutil.rmtree(d)

def verify(i):
    s = f'{SEED}/{i}'; d = scratch(i); r = d + '/repo'; res = {}
    try:
        side = tempfile.mkdtemp(dir=d); shutil.copy(s + '/demo.sh', side)
        for f in os.listdir(s):
            if not f.endswith(('.diff', '.json')): shutil.copy(f'{s}/{f}', side)
        p = sh(['bash', side + '/demo.sh'], cwd=r); res['clean_demo'] = p.returncode
        if p.returncode: res['out'] = p.stdout[-600:]
        a = sh(['git', 'apply', s + '/patch.diff'], cwd=r)
        if a.returncode: return i, {'apply': a.stdout}
        p = sh(['bash', side + '/demo.sh'], cwd=r); res['bug_demo'] = p.returncode
        res['msg'] = p.stdout.strip().splitlines()[-1:] 
        t = open('/opt/vp/test.sh').read().replace('/repo', r).replace('-n 8', '-n 4')
        t = t.replace('PYTHONPATH=/opt/vp/plugins', f'PYTHONPATH=/opt/vp/plugins:{r}').replace('timeout 120 "$PY"', f'PYTHONPATH={r} timeout 120 "$PY"')
        open(d + '/t.sh', 'w').write(t)
        sh(['bash', d + '/t.sh', d + '/o.json'])
        o = json.load(open(d + '/o.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = sorted(set(st) - set(o['passed'])); res['missing'] = (len(miss), miss[:4])
        res['OK'] = res['clean_demo'] == 0 and res['bug_demo'] not in (0,) and not miss
    finally:
        shutil.rmtree(d)
    return i, res

def check(i, allc):
    s = f'{SEED}/{i}'; prop = json.load(open(s + '/meta.json'))['property']
    d = scratch(i); r = d + '/repo'
    try:
        assert sh(['git', 'apply', s + '/patch.diff'], cwd=r).returncode == 0
        props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')] if allc else [prop]
        out = []
        for c in props:
            p = sh([ROOT + '/check', c], cwd=ROOT, env={**os.environ, 'VK_REPO': r, 'VERIF_TIER': 'quick', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VK_EVIDENCE': d + '/ev'})
            vio = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append(f'{c}:{p.returncode}' + ('!' if vio else ''))
        own = [x for x in out if x.startswith(prop)][0]
        print(i, prop, 'CAUGHT' if own.endswith(':1!') else 'MISSED', ' '.join(x for x in out if not x.endswith(':0')), flush=True)
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make': make(args[0], args[1:])
    elif cmd == 'verify':
        with ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(verify, args): print(i, 'OK' if r.get('OK') else 'NOT-OK', r, flush=True)
    elif cmd == 'check':
        allc = '--all' in args
        ids = [a for a in args if a != '--all'] or sorted(os.listdir(SEED))
        for i in ids: check(i, allc)
