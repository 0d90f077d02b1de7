"""C31: joining grid files."""
import hashlib
import itertools
import os

from mc import mesadir as M

LEVEL = "model_checking"
RULE = ("every ordered selection of up to three grids of a library of "
        "overlapping grids, with and without start at RLO and post-processed "
        "columns; every split of an initial-overflow boundary over two "
        "grids; every inconsistent property; distinct by joined content")
ASSUMPTIONS = ["the input grids are made by PSyGrid.create (C30) from small "
               "MESA directories"]
HANG_S = 600

CLEAN = [(1, 10., '0', 'A', 'A'), (2, 20., '0', 'A', 'A'), (5, 30., '1', 'A',
         'A'), (6, 40., '1', 'B', 'A'), (9, 50., '0', 'C', 'B')]
LATE = [(1, 10., '0', 'A', 'A'), (2, 20., '0', 'A', 'A'), (3, 30., '0', 'B',
        'A'), (4, 44., '2', 'B', 'B')]
NEVER = [(1, 10., '0', 'A', 'A'), (2, 25., '0', 'A', 'A'), (3, 30., '0', 'B',
         'A')]
ALL = ('bh', 'h1', 'h2', 'p1', 'p2', 'grid')
VAR = [dict(rows=CLEAN, files=ALL), dict(rows=LATE, files=ALL,
                                         flag='min_timestep_limit'),
       dict(rows=NEVER, files=ALL), dict(rows=CLEAN, files=('bh', 'h1', 'p1')),
       dict(rows=LATE[1:], files=('bh', 'h1', 'h2'), flag='other')]
PAR = {'a': (20., 9., 7.), 'b': (20., 9., 8.), 'c': (31., 9., 7.),
       'd': (20., 3., 7.), 'e': (12., 9., 70.)}
LIB = ['a0 b0 c0', 'c1 d0', 'a2 d3', 'b1 e0 a4', 'e2 c2', 'b3 c4', 'a0 e4']
CONSISTENT = {"binary": False, "eep": "x", "start_at_RLO": True,
              "stop_before_carbon_depletion": True, "initial_RLO_fix": True,
              "He_core_fix": False, "accept_missing_profile": True,
              "history_DS_error": 0.1, "history_DS_exclude": ["age"],
              "profile_DS_error": 0.2, "profile_DS_exclude": ["mass"],
              "profile_DS_interval": -0.5}
TABLES = ('binary_history', 'history1', 'history2', 'final_profile1',
          'final_profile2')


def bounds(tier):
    return {"grids": len(LIB), "joined": 3 if tier == 'quick' else 4,
            "runs": 5, "variants": len(VAR)}


def cases(tier):
    n = bounds(tier)['joined']
    for start, pp, fix in ((False, False, False), (False, True, False),
                           (True, False, True), (True, True, True),
                           (True, True, False)):
        for i in range(len(LIB)):
            yield {'kind': 'seq', 'first': i, 'start': start, 'pp': pp,
                   'fix': fix, 'n': n}
    for known in (19, 20, 23):
        for split in (0, 7, 12, known):
            for dup in (None, 'longer', 'shorter'):
                yield {'kind': 'rlo', 'known': known, 'split': split,
                       'dup': dup}
    for k in CONSISTENT:
        yield {'kind': 'bad', 'prop': k}
    for comp in (None, 'gzip', 'gzip9', 'gzip0', 'lzf', 'GZIP4', ''):
        yield {'kind': 'opt', 'comp': comp}
    yield {'kind': 'opt', 'comp': 'gzip', 'family': True}
    yield {'kind': 'refuse'}


def run(s, idx=0):
    m1, m2, P = PAR[s[0]]
    return dict(VAR[int(s[1])], m1=m1, m2=m2, P=P, z=0.0142, idx=idx)


def grid(d, i, runs, pp=False, **kw):
    import numpy as np
    from posydon.grids.psygrid import PSyGrid
    root = os.path.join(str(d), 'mesa%s' % i)
    for r in runs:
        M.write(root, r)
    out = os.path.join(str(d), 'grid%s.h5' % i)
    g = PSyGrid()
    g.create(root, out, warn='suppress', overwrite=True, **kw)
    if pp:
        n = len(g.MESA_dirs)
        for c in ('mt_history', 'S1_CO_type', 'S2_MODEL_SN_type', 'S1_state',
                  'culmulative_mt_class'):
            g.add_column(c, np.array(['%s%s_%d' % (c[:4], i, k)
                                      for k in range(n)]))
        g.add_column('num', np.arange(n) * 1.5)
    g.close()
    return out


def key(d):
    """Initial values in the name of a directory."""
    d = d.decode() if isinstance(d, bytes) else str(d)
    w = os.path.basename(d).split('_')
    return tuple(w[w.index(k) + 1] for k in ('m1', 'm2', 'z', 'days'))


def same(R, a, b, tag):
    """Equal structured values, missing values included."""
    import numpy as np
    R.must(a.dtype.names == b.dtype.names, "%s: columns %s instead of %s" % (
        tag, a.dtype.names, b.dtype.names))
    for c in a.dtype.names or ():
        x, y = np.atleast_1d(a[c]), np.atleast_1d(b[c])
        R.must(x.shape == y.shape, "%s: %s rows instead of %s" % (
            tag, x.shape, y.shape))
        if x.dtype.kind in 'US' or y.dtype.kind in 'US':
            ok = [str(v) for v in x] == [str(v) for v in y]
        else:
            ok = bool(np.array_equal(x, y, equal_nan=True))
        R.check(ok, lambda: "%s: %s is %s instead of %s" % (tag, c, x, y))


def digest(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def expect(grids):
    """Run to be taken for each set of initial values."""
    keep = {}
    for g in grids:
        for i, d in enumerate(g.MESA_dirs):
            if str(g.final_values[i]['termination_flag_1']) == \
                    'ignored_no_RLO':
                keep.pop(key(d), None)
            else:
                keep[key(d)] = (g, i)
    return keep


def compare(R, out, paths, tag, flags=None):
    from posydon.grids.psygrid import PSyGrid
    gs = [PSyGrid(p) for p in paths]
    keep = expect(gs)
    new = PSyGrid(out)
    lazy = PSyGrid()
    lazy.load(out, lazy=True)
    names = [key(d) for d in new.MESA_dirs]
    R.must(sorted(names) == sorted(keep), "%s: runs %s instead of %s" % (
        tag, sorted(names), sorted(keep)))
    R.eq(len(new), len(names), tag + ": number of runs")
    for j, k in enumerate(names):
        g, i = keep[k]
        t = "%s, run %s" % (tag, k)
        R.check(new.MESA_dirs[j] == g.MESA_dirs[i], t + ": directory")
        same(R, new.initial_values[j], g.initial_values[i], t + ", initial")
        want = g.final_values[i].copy()
        for c, v in (flags or {}).get(k, {}).items():
            want[c] = v
        same(R, new.final_values[j], want, t + ", final")
        same(R, lazy.final_values[j], want, t + ", final (lazy)")
        for c in TABLES:
            a, b = new[j][c], g[i][c]
            R.must((a is None) == (b is None), t + ": " + c)
            if a is not None:
                same(R, a, b, t + ", " + c)
        R.state(k, str(want['termination_flag_1']), len(names))
    R.outcome(tuple(sorted((k, str(new.final_values[j][
        'termination_flag_1'])) for j, k in enumerate(names))))
    conf = dict(new.config.items())
    for g in gs:
        g.close()
    new.close()
    lazy.close()
    return conf


def run_seq(case, R, d):
    from posydon.grids.psygrid import join_grids
    lib = [grid(d, i, [run(s, i) for s in w.split()], case['pp'],
                start_at_RLO=case['start'], initial_RLO_fix=case['fix'])
           for i, w in enumerate(LIB)]
    sums = [digest(p) for p in lib]
    for n in range(1, case['n'] + 1):
        for rest in itertools.permutations(range(len(LIB)), n - 1):
            if n == 4 and (case['pp'] or rest[0] > 3):
                continue
            seq = (case['first'],) + rest
            if case['first'] in rest:
                continue
            if case['pp'] and n == 3 and sum(seq) % 3:
                continue
            paths = [lib[i] for i in seq]
            out = os.path.join(str(d), 'joined.h5')
            join_grids(paths, out, verbose=False, compression='lzf')
            R.step()
            compare(R, out, paths, "join of %s" % (seq,))
            if n == 3 and sum(seq) % 4 == 0 and not case['start']:
                # joined grids can be joined
                o2 = os.path.join(str(d), 'joined2.h5')
                o3 = os.path.join(str(d), 'joined3.h5')
                join_grids(paths[:2], o2, verbose=False)
                join_grids([o2, paths[2]], o3, verbose=False)
                compare(R, o3, paths, "join of (%s, %s), %s" % seq)
    R.check([digest(p) for p in lib] == sums, "an input grid changed")


def run_rlo(case, R, d):
    """Boundary of initial overflow over all grids."""
    from posydon.grids.psygrid import join_grids
    n, split = case['known'], case['split']
    rows = CLEAN[:3]
    flag = 'Terminate because of overflowing initial model'
    known = [dict(m1=10.0 + 2 * i, m2=5.0 + (i % 3), P=1.0 + 0.25 * i,
                  z=0.0142, rows=rows, files=ALL, flag=flag, idx=0)
             for i in range(n)]
    extra = []
    if case['dup']:
        # a known system with another period in the other grid
        r = dict(known[4])
        r['P'] *= 1.4 if case['dup'] == 'longer' else 0.6
        extra = [r]
    # targets at a distance from the known systems, on both sides
    targets = []
    for i in (0, 4, 7, n - 1):
        for f in (0.5, 0.97, 1.02, 1.45):
            targets.append(dict(m1=known[i]['m1'] + 0.4, m2=known[i]['m2'] -
                                0.1, P=known[i]['P'] * f, z=0.0142,
                                rows=CLEAN, files=ALL, idx=0))
    a = grid(d, 0, known[:split] + (extra if split <= 4 else []) +
             targets[::2] + [dict(run('b0'), m1=77.)], initial_RLO_fix=True)
    b = grid(d, 1, known[split:] + ([] if split <= 4 else extra) +
             targets[1::2] + [dict(run('b0'), m1=79.)], initial_RLO_fix=True)
    for order in ((a, b), (b, a)):
        out = os.path.join(str(d), 'joined.h5')
        join_grids(list(order), out, verbose=False)
        R.step()
        best = {}
        for r in known + extra:
            k = (r['m1'], r['m2'])
            best[k] = max(best.get(k, 0.0), r['P'])
        flags = {}
        for r in known + extra + targets + [dict(run('b0'), m1=77.),
                                            dict(run('b0'), m1=79.)]:
            near = min(best, key=lambda k: (r['m1'] - k[0]) ** 2 +
                       (r['m2'] - k[1]) ** 2)
            if r.get('flag') == flag or len(best) < 20:
                continue
            if r['P'] < best[near]:
                flags[key(M.name(r))] = {
                    'termination_flag_1': 'forced_initial_RLO',
                    'termination_flag_2': 'forced_initial_RLO',
                    'interpolation_class': 'initial_MT',
                    'termination_flag_3': 'H-rich_Core_H_burning',
                    'termination_flag_4': 'H-rich_Core_H_burning'}
        compare(R, out, order, "boundary", flags)


def change(path, **kw):
    import ast
    import json
    import h5py
    with h5py.File(path, 'a') as f:
        c = ast.literal_eval(ast.literal_eval(f.attrs['config']))
        c.update(kw)
        f.attrs['config'] = json.dumps(str(c))


def run_bad(case, R, d):
    from posydon.grids.psygrid import join_grids
    g = [grid(d, i, [run(s, i) for s in LIB[i].split()]) for i in (0, 1, 3)]
    out = os.path.join(str(d), 'old.h5')
    with open(out, 'w') as f:
        f.write('something else')
    for i in range(3):
        import shutil
        for j in range(3):
            shutil.copy(g[j], g[j] + '.x')
        change(g[i] + '.x', **{case['prop']: CONSISTENT[case['prop']]})
        with R.raises(ValueError, "grid %d has another %s" % (
                i, case['prop'])):
            join_grids([p + '.x' for p in g], out, verbose=False)
        R.step()
        with open(out) as f:
            R.check(f.read() == 'something else', "a refused join changed "
                    "the existing file")
    R.outcome(case['prop'])


def run_opt(case, R, d):
    import h5py
    from posydon.grids.psygrid import join_grids
    g = [grid(d, i, [run(s, i) for s in LIB[i].split()]) for i in (0, 1)]
    out = os.path.join(str(d), 'out%d.h5' if case.get('family') else
                       'out.h5')
    for desc in ('joined', 'it\'s "quoted"\nand long'):
        join_grids(g, out, compression=case['comp'], description=desc,
                   verbose=False)
        R.step()
        conf = compare(R, out, g, "compression %s" % case['comp'])
        R.eq(conf['description'], desc, "description")
        R.eq(conf['compression'], case['comp'], "compression")
        for k, v in CONSISTENT.items():
            R.check(k in conf and conf[k] != v, "property " + k)
        if not case.get('family'):
            with h5py.File(out) as f:
                c = (case['comp'] or '').lower()
                R.eq(f['/grid/final_values'].compression,
                     'lzf' if c == 'lzf' else 'gzip' if c else None,
                     "compression of " + repr(case['comp']))


def run_refuse(case, R, d):
    import shutil
    from posydon.grids.psygrid import PSyGrid, join_grids
    g = [grid(d, i, [run(s, i) for s in LIB[i].split()]) for i in (0, 1)]
    out = os.path.join(str(d), 'out.h5')
    for comp in ('gzip10', 'gzipx', 'bz2'):
        with R.raises(ValueError, "compression " + comp):
            join_grids(g, out, compression=comp, verbose=False)
        R.step()
    # other columns of the final values
    shutil.copy(g[1], g[1] + 'x')
    p = PSyGrid(g[1] + 'x')
    p.add_column('new', [1.0] * len(p.MESA_dirs))
    p.close()
    for pair in ((g[0], g[1] + 'x'), (g[1] + 'x', g[0])):
        with R.raises(TypeError, "other columns"):
            join_grids(list(pair), out, verbose=False)
    # columns of another kind
    shutil.copy(g[1], g[1] + 'y')
    p = PSyGrid(g[1] + 'y')
    p.add_column('new', [1] * len(p.MESA_dirs))
    p.close()
    with R.raises(TypeError, "columns of another type"):
        join_grids([g[1] + 'x', g[1] + 'y'], out, verbose=False)
    R.check(not os.path.exists(out), "a refused join left a file")
    R.outcome('refused')


def execute(case, R):
    with R.tmp() as d:
        globals()['run_' + case['kind']](case, R, d)
