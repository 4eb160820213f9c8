#!/usr/bin/env python3
"""Validates planted bugs (development only): builds, passes the tests, demo, and which checks catch it.

bugtest.py [--no-tests] [--checks own|all|Cxx,Cyy|none] [--twice] ID...
"""
import json, os, subprocess, sys, tempfile, time, re

args = sys.argv[1:]
opts = {'tests': True, 'checks': 'own'}
ids = []
while args:
    a = args.pop(0)
    if a == '--no-tests': opts['tests'] = False
    elif a == '--checks': opts['checks'] = args.pop(0)
    else: ids.append(a)
if not ids:
    ids = sorted(os.listdir('/verif/seeded'))
man = json.load(open('/verif/MANIFEST.json'))
checks = {c['property_id'] if 'property_id' in c else c.get('property', c.get('id')): c for c in man['checks']}
base = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, timeout=1200, cwd='/repo', env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -9, 'timeout'

def clean():
    sh('git checkout -- .'); 
    assert sh('git status --porcelain')[1].strip() == '', 'dirty'

stable = set(base.get('passed') or base.get('stable') or base.get('pass') or [])
clean()
for i in ids:
    d = f'/verif/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    line = [i, prop]
    try:
        rc, out = sh(f'git apply {d}/patch.diff')
        if rc: print(i, 'PATCH FAILS', out); continue
        if opts['tests']:
            rc, out = sh('bash /opt/vp/build.sh')
            line.append('build ' + ('ok' if rc == 0 else 'FAILS'))
            if rc:
                print('\n'.join(l for l in out.splitlines() if l.startswith('error'))[:600]); print(' | '.join(line)); continue
            o = tempfile.mktemp()
            rc, out = sh(f'bash /opt/vp/test.sh {o}')
            r = json.load(open(o)); os.unlink(o)
            passed = set(r.get('passed') or r.get('pass') or [])
            lost = stable - passed
            line.append('tests ' + ('ok' if not lost else 'LOST ' + ','.join(sorted(lost))))
            rc, out = sh(f'bash {d}/demo.sh', 300)
            line.append(f'demo {rc}' + ('' if rc else ' NOT SHOWN'))
            if rc == 0: print(out[-500:])
            if 'error[' in out: line.append('DEMO DOES NOT COMPILE')
        which = {'own': [prop], 'all': sorted(checks), 'none': []}.get(opts['checks'], opts['checks'].split(','))
        for c in which:
            t = time.time()
            cmd = checks[c]['quick_cmd'] if 'quick_cmd' in checks[c] else checks[c]['quick']
            if isinstance(cmd, dict): cmd = cmd['cmd']
            rc, out = sh(cmd, 900, '/verif', {'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            ok = rc == 1 and any(f'property={c} ' in l for l in v)
            if ok or c == prop or rc not in (0, 1):
                line.append(f'{c}:{"CAUGHT" if ok else "MISSED" if rc == 0 else "rc%d" % rc} {time.time()-t:.0f}s')
            if c == prop and not ok: print(out[-700:])
    finally:
        clean()
    if opts['tests']:
        rc, out = sh(f'bash {d}/demo.sh', 300)
        line.append(f'clean demo {rc}' + (' BROKEN' if rc else ''))
        if rc: print(out[-500:])
    print(' | '.join(line), flush=True)
