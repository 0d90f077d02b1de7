"""C06: no saved binary is lost at any crash point or I/O failure.

Every storage operation (open, append, read, close, remove, rename) of a
dump / combine / merge history is a fault point.  At each of them, one at a
time, the operation fails with an I/O error, or the process dies before or
after it (with the files open for writing torn).
"""
import os
import shutil

LEVEL = "fault_enumeration"
RULE = ("every storage operation of each scenario x {I/O error, death before "
        "with torn open files, death after}; a case is non-trivial if the "
        "fault point was reached; distinct by the surviving content of all "
        "files")
ASSUMPTIONS = ["a file is durable once closed; files open for writing when "
               "the process dies are lost (truncated)",
               "one fault per history"]
SCEN = [
    {'name': 'serial', 'n': 3, 'dump': 1, 'bd': True},
    {'name': 'serial_nobd', 'n': 3, 'dump': 2, 'bd': False},
    {'name': 'jobs', 'n': 3, 'dump': 1, 'bd': True, 'size': 2},
    {'name': 'merge', 'n': 4, 'dump': 1, 'bd': True, 'size': 2},
    {'name': 'merge3', 'n': 3, 'dump': 5, 'bd': True, 'size': 3},
    {'name': 'save', 'n': 2, 'dump': 1, 'bd': True},
]


class Death(BaseException):
    pass


class Faulty:
    """Counts the storage operations and breaks the k-th one."""

    def __init__(self, k=None, mode=None):
        self.k, self.mode, self.n = k, mode, 0
        self.hit = False
        self.depth = 0
        self.open_w = {}
        self.torn = set()
        self.active = False
        self.ops = []

    def op(self, name, fn):
        if not self.active or self.depth:
            return fn()
        i = self.n
        self.n += 1
        self.ops.append(name)
        if i == self.k:
            self.hit = True
            if self.mode == 'error':
                raise OSError(28, "No space left on device (injected)")
            self.torn = set(self.open_w.values())
            if self.mode == 'before':
                raise Death()
        self.depth += 1
        try:
            r = fn()
        finally:
            self.depth -= 1
        if i == self.k and self.mode == 'after':
            raise Death()
        return r


def install(F):
    """Put the counting layer under pandas and os; returns an undo."""
    import pandas as pd
    H = pd.HDFStore
    saved = []

    def wrap(obj, attr, label):
        orig = getattr(obj, attr)

        def w(*a, **k):
            return F.op(label, lambda: orig(*a, **k))
        saved.append((obj, attr, orig))
        setattr(obj, attr, w)
    for a in ('append', 'put', 'select'):
        wrap(H, a, a)
    o_open, o_close = H.open, H.close

    def w_open(self, mode='a', **k):
        try:
            r = F.op('open_' + str(mode), lambda: o_open(self, mode, **k))
        except Death:
            if mode != 'r' and F.mode == 'after':
                F.torn.add(str(self._path))
            raise
        if F.active and mode != 'r':
            F.open_w[id(self)] = str(self._path)
        return r

    def w_close(self):
        if self.is_open and F.active and not F.depth:
            try:
                r = F.op('close', lambda: o_close(self))
            except BaseException:
                if self.is_open:
                    o_close(self)
                if F.mode == 'after':
                    F.torn.discard(str(self._path))
                F.open_w.pop(id(self), None)
                raise
        else:
            r = o_close(self)
        F.open_w.pop(id(self), None)
        return r
    H.open, H.close = w_open, w_close
    saved += [(H, 'open', o_open), (H, 'close', o_close)]
    for a in ('remove', 'unlink', 'rename', 'replace', 'rmdir'):
        wrap(os, a, a)

    def undo():
        for o, a, f in reversed(saved):
            setattr(o, a, f)
    return undo


def pops(P, sc, d):
    tmpd = os.path.join(d, "1e+00_Zsun_batches")
    size = sc.get('size', 0)
    out = []
    for rank in range(max(1, size)):
        kw = dict(temp_directory=tmpd, dump_rate=sc['dump'])
        if size:
            kw.update(JOB_ID=99, RANK=rank, size=size, entropy=None)
        out.append(P.make_pop({1: 'boom'}, sc['n'], **kw))
    return out, tmpd


def scenario(sc, d, F, P, Runner):
    """Runs the history; the layer is active in the part under test."""
    ps, tmpd = pops(P, sc, d)
    if sc['name'].startswith(('merge', 'save')):
        for p in ps:
            p.evolve(optimize_ram=True, breakdown_to_df=sc['bd'])
        F.active = True
        if sc['name'] == 'save':
            ps[-1].save(os.path.join(d, 'final.h5'))
        else:
            r = object.__new__(Runner)
            r.verbose = False
            r.merge_parallel_runs(ps[-1])
    else:
        F.active = True
        for p in ps:
            p.evolve(optimize_ram=True, breakdown_to_df=sc['bd'])
    F.active = False


def contents(root):
    """index -> the intact files holding its history and oneline rows."""
    import pandas as pd
    res = {}
    for base, _, files in os.walk(root):
        for f in sorted(files):
            p = os.path.join(base, f)
            try:
                h = set(int(i) for i in pd.read_hdf(p, 'history').index)
                o = set(int(i) for i in pd.read_hdf(p, 'oneline').index)
            except Exception:
                continue
            for i in h & o:
                res.setdefault(i, []).append(os.path.relpath(p, root))
    return res


def cases(tier):
    import tempfile

    from mc import popstub as P
    from posydon.popsyn.synthetic_population import PopulationRunner
    for si, sc in enumerate(SCEN):
        F = Faulty()
        d = tempfile.mkdtemp()
        old = os.getcwd()
        os.chdir(d)
        undo = install(F)
        try:
            scenario(sc, d, F, P, PopulationRunner)
        finally:
            F.active = False
            undo()
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)
        for k in range(F.n):
            for mode in ('error', 'before', 'after'):
                yield {'scen': si, 'k': k, 'mode': mode, 'op': F.ops[k]}


def execute(case, R):
    import tables

    from mc import popstub as P
    from posydon.popsyn.synthetic_population import PopulationRunner
    sc = SCEN[case['scen']]
    F = Faulty(case['k'], case['mode'])
    with R.tmp() as d:
        undo = install(F)
        durable = set()
        exc = None
        # record what had been completely saved when the fault strikes
        orig_op = F.op

        def op(name, fn):
            if F.active and not F.depth and F.n == F.k:
                F.active = False
                durable.update(contents(d))
                F.active = True
            return orig_op(name, fn)
        F.op = op
        try:
            try:
                scenario(sc, d, F, P, PopulationRunner)
            except Death:
                exc = 'death'
                F.active = False
                tables.file._open_files.close_all()
                for p in F.torn:
                    p = os.path.join(d, p)
                    if os.path.exists(p):
                        with open(p, 'r+b') as f:
                            f.truncate(os.path.getsize(p) // 2)
            except Exception as e:
                exc = type(e).__name__
        finally:
            F.active = False
            undo()
            tables.file._open_files.close_all()
        R.step(F.n)
        R.check(F.hit, "fault point %d not reached (%s, %r)" % (case["k"], exc, F.ops))
        left = contents(d)
        lost = sorted(durable - set(left))
        R.check(not lost, lambda: "binaries %r had been saved but are in no "
                "file after %s at operation %d (%s); the call ended with %s"
                % (lost, case['mode'], case['k'], case['op'], exc))
        if exc is None:
            # reported as successful: everything must be there
            miss = sorted(set(range(sc['n'])) - set(left))
            R.check(not miss, lambda: "run ended normally but binaries %r are"
                    " in no file (%s at operation %d, %s)" %
                    (miss, case['mode'], case['k'], case['op']))
        R.state(sc['name'], case['op'], case['mode'], exc)
        R.outcome(sc['name'], left, exc, case['k'])
