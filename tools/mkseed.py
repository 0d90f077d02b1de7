"""mkseed.py SPEC.py [id...]: build planted bugs from a spec module.

SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old,
new)], demo=python source)}.  Each is applied to a scratch copy of /repo,
confirmed (demo passes before, fails after, unit tests pass) and written to
/verif/seeded/<id>/.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

DEMO_SH = '''#!/bin/bash
# exits 0 if the behaviour holds in the tree at the current directory
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export PYTHONPATH="$PWD" PATH_TO_POSYDON="$PWD/"
export PATH_TO_POSYDON_DATA="$PWD/posydon/unit_tests/_data/" MESA_DIR="$PWD/"
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
R="$PWD"
cd "$S" && timeout 250 /opt/venv/bin/python "$D/demo.py" "$R" >"$S/log" 2>&1
rc=$?
tail -5 "$S/log"
exit $rc
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True, **k)


def one(sid, s, tests=True):
    wt = "/tmp/seedwt-" + sid
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a /repo " + wt, "/")
    try:
        out = "/tmp/seedout-" + sid
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % out, wt)
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, "edit matches %d times in %s" % (t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        d = sh("git diff", wt).stdout
        open(out + "/patch.diff", "w").write(d)
        r1 = sh("bash %s/demo.sh" % out, wt)
        msg = "clean rc=%d patched rc=%d" % (r0.returncode, r1.returncode)
        if r0.returncode != 0:
            return sid, msg + " CLEAN DEMO FAILS " + r0.stdout[-800:]
        if r1.returncode == 0:
            return sid, msg + " DEMO DOES NOT FAIL " + r1.stdout[-800:]
        if tests:
            t = sh(". /opt/vp/env.sh; cd %s; export PATH_TO_POSYDON=%s/; $PY -m pytest -q -x -o addopts= "
                   "-p no:cacheprovider --basetemp=/tmp/seedpt-%s --timeout=300"
                   " --disable-warnings posydon/unit_tests" % (wt, wt, sid), wt)
            shutil.rmtree("/tmp/seedpt-" + sid, ignore_errors=True)
            last = t.stdout.strip().splitlines()[-1:]
            msg += " tests: %s" % last
            if t.returncode != 0:
                return sid, msg + " TESTS FAIL " + t.stdout[-1500:]
        dst = "/verif/seeded/" + sid
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return sid, "KEPT " + msg + " | " + r1.stdout.strip()[-150:]
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree("/tmp/seedout-" + sid, ignore_errors=True)


def main():
    S = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or list(S)
    tests = "--notests" not in sys.argv
    with ThreadPoolExecutor(4) as ex:
        for sid, m in ex.map(lambda i: one(i, S[i], tests), ids):
            print(sid, m, flush=True)


main()
