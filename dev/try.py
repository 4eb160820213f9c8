#!/usr/bin/env python3
"""try.py FILE.py [ID...]: which checks catch untested edits (development only; under iso.sh).
FILE.py: TRY = [(id, 'C01,C02', [(file, old, new), ...]), ...]; reports build and tests as well."""
import json, subprocess, sys, time
spec = {}
exec(open(sys.argv[1]).read(), spec)
for id, props, edits in spec['TRY']:
    if sys.argv[2:] and id not in sys.argv[2:]:
        continue
    ok = True
    for f, old, new in edits:
        s = open('/repo/' + f).read()
        if s.count(old) != 1:
            print(id, '|', f, s.count(old), 'occurrences of', repr(old[:60])); ok = False; break
        open('/repo/' + f, 'w').write(s.replace(old, new))
    if ok:
        r = subprocess.run('bash /opt/vp/build.sh', shell=True, capture_output=True, text=True)
        b = 'build ok' if r.returncode == 0 else 'BUILD FAILS ' + r.stderr[-600:]
        subprocess.run('bash /opt/vp/test.sh /tmp/try.json', shell=True, capture_output=True, text=True)
        base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/try.json'))
        t = str(got)[:0]
        names = base.get('stable', base.get('passed', base)) if isinstance(base, dict) else base
        passed = set(got.get('passed', []))
        miss = [n for n in names if n not in passed]
        print(id, '|', b, '| tests', 'ok' if not miss else 'FAIL %s' % miss[:3], end='', flush=True)
        for p in props.split(','):
            t0 = time.time()
            r = subprocess.run(['python3', 'check.py', p, '--tier', 'quick'], capture_output=True, text=True, cwd='/verif')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(' | %s: %s %.0fs' % (p, 'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'NO ANSWER ' + r.stdout[-300:], time.time() - t0), end='', flush=True)
        print(flush=True)
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
