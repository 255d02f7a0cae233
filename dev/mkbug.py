#!/usr/bin/env python3
"""dev/mkbug.py ID PROPERTY FILE --- reads from stdin a python spec: OLD, NEW (or EDITS [(file, old, new)]), DEMO, NEEDS, BREAKS. Writes /verif/seeded/ID."""
import os, shutil, subprocess, sys, json, tempfile
spec = {}
exec(sys.stdin.read(), spec)
d = (os.environ.get("SEEDDIR") or "/verif/seeded") + "/" + spec["ID"]
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
w = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
for f, old, new in spec["EDITS"]:
    p = w + "/r/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    first, last = s[:s.index(old)].count("\n") + 1, s[:s.index(old) + len(old)].rstrip("\n").count("\n") + 1
    blame = subprocess.check_output(["git", "blame", "-s", "-L", "%d,%d" % (first, last), f], cwd=w + "/r").decode()
    if any(not l.startswith("^") for l in blame.splitlines()):
        print("NOT ALL ORIGINAL:\n" + blame)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "diff"], cwd=w + "/r")
open(d + "/patch.diff", "wb").write(diff)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom demo_lib import *\n" + spec["DEMO"].lstrip("\n"))
shutil.copy("/verif/dev/demo_lib.py", d)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
print(diff.decode())
