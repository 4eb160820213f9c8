"""Puts the list of planted bugs into DESIGN.md (development only)."""
import glob, json, os, sys
from collections import defaultdict
t = open(sys.argv[1]).read()
d = defaultdict(list)
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
rows = "| property | planted bugs |\n|---|---|\n" + "\n".join("| %s | %s |" % (k, ", ".join(d[k])) for k in sorted(d))
open("/verif/DESIGN.md", "w").write(t.replace("@TABLE@", rows))
