"""Explicit enumeration engine shared by every check.

A check module (``/verif/checks/<id>.py``) provides

``LEVEL``       evidence level (model_checking, fault_enumeration, exploration)
``RULE``        how the cases are generated and what makes one non trivial
``ASSUMPTIONS`` list of strings
``cases(tier)`` generator of JSON serialisable case descriptors, simplest first
``execute(case, R)``  drives the *real* code for one case and compares with the
                reference model through ``R.check`` / ``R.eq`` ...

The engine enumerates all the cases (never a sample), runs them in forked
workers, turns every mismatch, unexpected exception, dead worker or hang into
a violation with a replay file, and writes the measured evidence.
"""
import contextlib
import hashlib
import importlib
import io
import json
import math
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class Abort(Exception):
    """Raised to stop the current case after a recorded violation."""


def canon(x):
    """Canonical, hashable, order independent text of a state."""
    import numpy as np
    if isinstance(x, dict):
        return "{" + ",".join(sorted(canon(k) + ":" + canon(v)
                                     for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(canon(v) for v in x)) + ">"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v) for v in x) + "]"
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return "nan"
        return "%.9g" % float(x)
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    return str(x)


class Recorder:
    """What one worker observed."""

    def __init__(self, scratch):
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.fails = []          # of the current case
        self.scratch_root = scratch
        self.case = None
        self._n = 0
        self.last = None

    # -- bookkeeping --------------------------------------------------------
    def step(self, n=1):
        """Count `n` operations performed on the real code."""
        self.transitions += n

    def state(self, *key):
        """Record a state reached by the real code."""
        h = hashlib.blake2b(canon(key).encode(), digest_size=8).digest()
        self.states.add(h)

    def outcome(self, *key):
        """Record the observable outcome of the trace."""
        c = canon(key)
        self.last = c
        h = hashlib.blake2b(c.encode(), digest_size=8).digest()
        self.outcomes.add(h)
        self.states.add(h)

    @contextlib.contextmanager
    def tmp(self):
        """A fresh scratch directory, removed afterwards."""
        self._n += 1
        d = os.path.join(self.scratch_root, "w%d_%d" % (os.getpid(), self._n))
        os.makedirs(d)
        old = os.getcwd()
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)

    # -- oracles ------------------------------------------------------------
    def fail(self, msg, key=None):
        self.fails.append({"msg": str(msg)[:2000], "key": key})

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return bool(cond)

    def must(self, cond, msg, key=None):
        if not self.check(cond, msg, key):
            raise Abort()

    def eq(self, got, want, msg, key=None):
        if not same(got, want):
            self.fail("%s: got %r, want %r" % (msg, got, want), key)
            return False
        return True

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, key=None):
        import numpy as np
        try:
            ok = np.allclose(np.asarray(got, dtype=float),
                             np.asarray(want, dtype=float), rtol=rtol,
                             atol=atol, equal_nan=True) \
                and np.shape(got) == np.shape(want)
        except Exception:
            ok = False
        if not ok:
            self.fail("%s: got %r, want %r" % (msg, got, want), key)
        return ok

    @contextlib.contextmanager
    def raises(self, exc, msg, key=None):
        """The block has to raise `exc` (a class or tuple of classes)."""
        try:
            yield
        except exc:
            return
        except Abort:
            raise
        except Exception as e:
            self.fail("%s: raised %r instead" % (msg, e), key)
            return
        self.fail("%s: nothing was raised" % msg, key)


def same(a, b):
    """Deep equality with nan == nan and numpy scalars compared by value."""
    import numpy as np
    if isinstance(a, (float, np.floating)) and isinstance(b, (float,
                                                              np.floating)):
        return (a == b) or (a != a and b != b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = np.asarray(a)
        b = np.asarray(b)
        return a.shape == b.shape and same(a.tolist(), b.tolist())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try:
        return bool(a == b)
    except Exception:
        return False


# --------------------------------------------------------------------------
def _run_case(mod, case, R):
    R.fails = []
    R.case = case
    R.last = None
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            mod.execute(case, R)
        R.traces += 1
    except Abort:
        pass
    except (KeyboardInterrupt, SystemExit) as e:
        R.fail("unexpected %r" % e)
    except BaseException:
        R.fail("unexpected exception: " + traceback.format_exc(limit=-12),
               key=getattr(mod, "exc_key", lambda c, t: None)(
                   case, traceback.format_exc()))
    return R.fails


def _worker(mod, cases, order, nxt, cur, start, wid, outdir, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    R = Recorder(outdir)
    vio = open(os.path.join(outdir, "vio_%d.jsonl" % wid), "w")
    done = 0
    redo_ok = 0
    if hasattr(mod, "worker_init"):
        mod.worker_init(R)
    block = max(1, min(64, len(order) // 64))
    while True:
        with nxt.get_lock():
            lo = nxt.value
            nxt.value = lo + block
        if lo >= len(order):
            break
        for k in order[lo:lo + block]:
            if deadline and time.time() > deadline:
                break
            cur[wid] = k
            start[wid] = time.time()
            fails = list(_run_case(mod, cases[k], R))
            done += 1
            for f in fails:
                vio.write(json.dumps({"case": k, **f}) + "\n")
            vio.flush()
            if not fails and R.last is not None and k % 97 == 0:
                # replay the same trace: every source of nondeterminism owned
                first = R.last
                save = (R.transitions, R.traces)
                fails = list(_run_case(mod, cases[k], R))
                R.transitions, R.traces = save
                if fails or R.last != first:
                    vio.write(json.dumps({
                        "case": k, "msg": "replaying the same trace gave a "
                        "different outcome: %s / %s %s" %
                        (first[:300], str(R.last)[:300], fails[:1]),
                        "key": None}) + "\n")
                    vio.flush()
                redo_ok += 1
        else:
            continue
        break
    cur[wid] = -1
    with open(os.path.join(outdir, "res_%d.pkl" % wid), "wb") as f:
        pickle.dump((R.transitions, R.traces, R.states, R.outcomes, done,
                     redo_ok), f)
    vio.close()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [x for x in data.get("known", []) if x["property"] == pid]


def run(pid, tier, seed, jobs=8, hang_s=240, only=None, replay=None):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    root = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return _run(pid, tier, seed, jobs, hang_s, root, t0, replay)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(pid, tier, seed, jobs, hang_s, root, t0, replay):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    os.chdir(root)
    try:
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            mod = importlib.import_module("checks." + pid)
            if replay is not None:
                cases = [json.load(open(os.path.join("/verif", replay)))["case"]]
            else:
                cases = list(mod.cases(tier))
    except BaseException:
        tb = traceback.format_exc()
        path = os.path.join(EVID, "replay", pid + "-0.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "case": None, "msg": tb}, f, indent=1)
        sys.stderr.write(tb)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        _evidence(pid, tier, seed, "exploration", {
            "evaluations": 0, "distinct_nontrivial": 0, "rule":
            "the code could not be loaded", "samples": [tb[-500:]]}, t0, 1, [])
        return 1
    hang_s = getattr(mod, "HANG_S", hang_s)
    # VERIF_SEED only permutes the order of exploration: the space is
    # enumerated completely whatever the seed.
    order = list(range(len(cases)))
    import random
    random.Random(seed).shuffle(order)
    jobs = max(1, min(jobs, getattr(mod, "JOBS", jobs), len(cases)))
    ctx = mp.get_context("fork")
    nxt = ctx.Value("q", 0)
    cur = ctx.Array("q", [-1] * jobs, lock=False)
    start = ctx.Array("d", [0.0] * jobs, lock=False)
    budget = getattr(mod, "BUDGET_S", None)
    deadline = (t0 + budget[tier]) if budget else 0
    if hasattr(mod, "setup"):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            mod.setup(root)
    procs = [ctx.Process(target=_worker, args=(mod, cases, order, nxt, cur,
                                               start, i, root, deadline))
             for i in range(jobs)]
    for p in procs:
        p.start()
    extra = []
    while any(p.is_alive() for p in procs):
        time.sleep(0.05)
        now = time.time()
        for i, p in enumerate(procs):
            if cur[i] >= 0 and p.is_alive() and now - start[i] > hang_s:
                extra.append({"case": int(cur[i]), "key": None,
                              "msg": "no termination within %d s" % hang_s})
                for q in procs:
                    if q.is_alive():
                        q.kill()
                break
    for i, p in enumerate(procs):
        p.join()
        if p.exitcode != 0 and not extra:
            extra.append({"case": int(cur[i]), "key": None,
                          "msg": "worker ended with code %s" % p.exitcode})
    trans = traces = done = redo = 0
    states, outcomes = set(), set()
    fails = list(extra)
    for i in range(jobs):
        p = os.path.join(root, "res_%d.pkl" % i)
        if os.path.exists(p):
            with open(p, "rb") as f:
                a, b, s, o, d, rd = pickle.load(f)
            trans += a
            traces += b
            states |= s
            outcomes |= o
            done += d
            redo += rd
        p = os.path.join(root, "vio_%d.jsonl" % i)
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    try:
                        fails.append(json.loads(line))
                    except ValueError:
                        pass
    fails.sort(key=lambda f: f["case"])
    known = load_known(pid) if replay is None else []
    kn_hit, new = {}, []
    for f in fails:
        for k in known:
            if f["key"] is not None and f["key"] == k["key"]:
                kn_hit.setdefault(k["key"], k)
                break
        else:
            new.append(f)
    for k in kn_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # an exhaustive statement about whole-space facts
    if hasattr(mod, "final") and not new and done == len(cases) \
            and replay is None:
        msg = mod.final(len(states), len(outcomes), trans)
        if msg:
            new.append({"case": -1, "msg": msg, "key": None})
    cov = {
        "states": len(states), "transitions": trans,
        "traces_validated_against_impl": traces,
        "evaluations": done, "distinct_nontrivial": len(outcomes),
        "rule": mod.RULE, "exhaustive": done == len(cases),
        "cases_enumerated": len(cases), "cases_completed": done,
        "traces_replayed_for_determinism": redo,
        "samples": [cases[i] for i in sorted(
            {0, len(cases) // 2, len(cases) - 1})] if cases else [],
    }
    if hasattr(mod, "bounds"):
        cov["bounds"] = mod.bounds(tier)
    if replay is None:
        _evidence(pid, tier, seed, mod.LEVEL, cov, t0, len(new),
                  list(getattr(mod, "ASSUMPTIONS", [])))
    if new:
        f = new[0]
        path = os.path.join(EVID, "replay", "%s-%s.json" % (pid, f["case"]))
        if replay is None:
            with open(path, "w") as fh:
                json.dump({"property": pid, "msg": f["msg"], "key": f["key"],
                           "case": cases[f["case"]] if f["case"] >= 0
                           else None,
                           "how": "python3 /verif/run.py %s --replay %s" %
                           (pid, path)}, fh, indent=1)
        else:
            path = replay
        seen = set()
        for g in new:
            m = g["msg"][:1500]
            if m[:60] in seen:
                continue
            seen.add(m[:60])
            print("  case %s: %s" % (json.dumps(cases[g["case"]])[:600]
                                     if g["case"] >= 0 else "-", m))
            if len(seen) > 6:
                break
        print("  (%d failing observations)" % len(new))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d distinct=%d "
          "exhaustive=%s %.1fs" % (pid, len(states), trans, traces,
                                   len(outcomes), done == len(cases),
                                   time.time() - t0))
    return 0


def _evidence(pid, tier, seed, level, cov, t0, nviol, assumptions):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed,
                   "level": level, "coverage": cov,
                   "wall_s": round(time.time() - t0, 2),
                   "violations": nviol, "assumptions": assumptions}, f,
                  indent=1, default=str)
