"""mutants.py SPEC.py [id...]: run the owning check on edits in a scratch copy.

SPEC.py defines MUT = {id: (property, [(file, old, new)], why)}.
"""
import os
import runpy
import shutil
import subprocess
import sys
import time

S = runpy.run_path(sys.argv[1])["MUT"]
WT = "/tmp/mutwt_" + os.path.basename(sys.argv[1])[:-3]
ids = sys.argv[2:] or list(S)
shutil.rmtree(WT, ignore_errors=True)
subprocess.run("cp -a %s " % os.environ.get("SRC", "/repo") + WT, shell=True, check=True)
for i in ids:
    prop, edits, why = S[i]
    subprocess.run("git checkout -q -- .", cwd=WT, shell=True, check=True)
    bad = None
    for f, old, new in edits:
        p = os.path.join(WT, f)
        t = open(p).read()
        if t.count(old) != 1:
            bad = "edit matches %d times in %s" % (t.count(old), f)
            break
        open(p, "w").write(t.replace(old, new))
    if bad:
        print(i, prop, "BAD", bad, flush=True)
        continue
    t0 = time.time()
    r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", prop],
                       env=dict(os.environ, VERIF_REPO=WT),
                       capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "message" in l]
    print(i, prop, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode,
          "%.0fs" % (time.time() - t0), r.stdout.replace("\n", " | ")[:160], flush=True)
shutil.rmtree(WT, ignore_errors=True)
