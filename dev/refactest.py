"""Behaviour-preserving edits must leave every check quiet (development only; run under iso.sh).

usage: dev/iso.sh r1 python3 dev/refactest.py dev/refactor/r1-position.diff [C01 ...]
"""
import json, subprocess, sys, time

import os
diff, only = os.path.abspath(sys.argv[1]), sys.argv[2:]
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
r = sh(f"git -C /repo apply {diff}")
print("apply", r.returncode, r.stderr[:200], flush=True)
if r.returncode:
    sys.exit(1)
r = sh("bash /opt/vp/build.sh")
print("build", r.returncode, r.stderr[-500:] if r.returncode else "", flush=True)
r = sh("bash /opt/vp/test.sh /tmp/t_%s.json" % diff.split("/")[-1])
print("test", r.returncode, flush=True)
for c in json.load(open("/verif/MANIFEST.json"))["checks"]:
    pid = c["property_id"] if "property_id" in c else c["property"]
    if only and pid not in only:
        continue
    t = time.time()
    cmd = c["quick"] if "quick" in c else c["quick_cmd"]
    r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick " + (cmd if isinstance(cmd, str) else " ".join(cmd)))
    print(pid, "quiet" if r.returncode == 0 and "VIOLATION" not in r.stdout else f"ALARM rc={r.returncode}", f"{time.time()-t:.0f}s", flush=True)
    if r.returncode:
        print(r.stdout[-3000:], r.stderr[-1500:], flush=True)
