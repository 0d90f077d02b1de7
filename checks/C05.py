"""C05: a population run delivers every binary exactly once, whatever fails."""
import itertools

LEVEL = "model_checking"
RULE = ("every (population size, dump rate, RAM mode, table breakdown, "
        "per-binary outcome pattern, memory-pressure pattern, job-array "
        "split) within the bounds, run through the real population code on "
        "disk; distinct by the complete content of the resulting files")
ASSUMPTIONS = ["evolution steps are scripted; sampling, evolution loop, "
               "dumping, combining and merging are the real code",
               "memory pressure is answered by a scripted stand-in"]
OUT = ['ok', 'boom', 'posydonerr', 'flow', 'late', 'ragged', 'nullv', 'failed',
       'warn']
HANG_S = 300


def bounds(tier):
    return {"max_binaries": 4 if tier == "quick" else 5,
            "outcomes": len(OUT)}


def cases(tier):
    quick = tier == "quick"
    nmax = bounds(tier)["max_binaries"]
    base = {'plan': [], 'n': 1, 'dump': None, 'bd': True, 'ram': True,
            'mem': None, 'size': 0, 'bf': 1.0, 'sel': True}
    # every size x dump rate x mode, all binaries fine
    for n in range(1, nmax + 1):
        for dump in [None] + list(range(1, n + 2)):
            for bd in (True, False):
                yield dict(base, n=n, dump=dump, bd=bd)
        for bd in (True, False):
            yield dict(base, n=n, ram=False, bd=bd)
    # every outcome pattern
    n = 3
    for plan in itertools.product(OUT, repeat=2 if quick else 3):
        plan = list(plan) + ['ok'] * (3 - len(plan))
        for dump in ((1,) if quick else (1, 2)):
            yield dict(base, n=n, plan=plan, dump=dump, bd=True)
    for plan in itertools.product(OUT, repeat=1 if quick else 2):
        plan = ['ok'] + list(plan) + ['ok']
        for bd in (True, False):
            for ram in (True, False):
                yield dict(base, n=len(plan), plan=plan, dump=1, bd=bd,
                           ram=ram)
    # every memory pressure pattern
    for mem in itertools.product((0, 1), repeat=3 if quick else 4):
        for bd in (True, False):
            yield dict(base, n=len(mem), mem=list(mem), bd=bd,
                       plan=['boom'] + ['ok'] * (len(mem) - 1))
    # initially single stars mixed in
    for bf in (0.0, 0.5):
        for dump in (1, 2):
            for bd in (True, False):
                yield dict(base, n=4, bf=bf, dump=dump, bd=bd,
                           plan=['ok', 'boom', 'ok', 'late'])
    # job arrays, all splits, merged afterwards
    for n in range(1, nmax + 1):
        for size in range(1, min(n, 3) + 1):
            for dump in (1, 2):
                yield dict(base, n=n, size=size, dump=dump,
                           plan=['ok', 'boom', 'ok', 'flow', 'ok'][:n])
            if not quick:
                yield dict(base, n=n, size=size, dump=1, bd=False, bf=0.5,
                           plan=['late', 'ok', 'boom', 'ok', 'ok'][:n])
    # all default output columns
    yield dict(base, n=2, sel=False, dump=1, plan=['ok', 'boom'])
    yield dict(base, n=2, sel=False, dump=1, bd=False, plan=['ragged', 'ok'])
    for what in OUT:
        yield dict(base, n=2, sel=False, dump=1, plan=[what, 'ok'])
    if not quick:
        for plan in itertools.product(OUT, repeat=2):
            yield dict(base, n=2, sel=False, dump=1, plan=list(plan))


def ref_rows(b, what):
    """Reference history (state, event, time, S1 mass, S2 mass, period)."""
    st, m1, m2, P = b
    z = lambda x: None if x != x else x
    r = [(st, 'ZAMS', 0.0, m1, m2, z(P))]
    m1b, Pb = m1 * 0.9, (P * 1.5 if P == P else None)
    if what in ('boom', 'posydonerr', 'nullv'):
        return r + [('ERR', 'FAILED', 10.0, m1b, m2, Pb)]
    if what == 'failed':
        return r + [(st, 'FAILED', 10.0, m1b, m2, Pb)]
    if what == 'flow':
        return r + [('contact', 'oRLO1', 10.0, m1b, m2, Pb),
                    ('ERR', 'FAILED', 10.0, m1b, m2, Pb)]
    r.append(('detached', 'maxtime', 10.0, m1b, m2, Pb))
    if what == 'late':
        return r + [('ERR', 'FAILED', 10.0, m1b, m2, Pb)]
    return r + [('detached', 'END', 15.0, m1b, 1.25, Pb)]


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= 1e-7 * max(1.0, abs(b))


def verify(R, case, hist, one, mass, inits, ids):
    from mc import popstub as P
    plan = case['plan'] + ['ok'] * case['n']
    H, O = P.frame_dict(hist), P.frame_dict(one)
    R.eq(sorted(O['__index__']), sorted(ids), "systems in the oneline table")
    R.eq(sorted(set(H['__index__'])), sorted(ids),
         "systems in the history table")
    tot_s = tot_b = 0.0
    for i in ids:
        rows = [k for k, j in enumerate(H['__index__']) if j == i]
        R.check(rows == list(range(rows[0], rows[0] + len(rows)))
                if rows else False, "rows of binary %d not contiguous" % i)
        what = plan[i]
        if what != 'ragged':
            want = ref_rows(inits[i], what)
            got = [tuple(H[c][k] for c in ('state', 'event', 'time',
                                           'S1_mass', 'S2_mass',
                                           'orbital_period')) for k in rows]
            ok = len(got) == len(want) and all(
                close(x, y) for g, w in zip(got, want) for x, y in zip(g, w))
            R.check(ok, lambda: "history of binary %d (%s): %r want %r" %
                    (i, what, got, want))
        k = [k for k, j in enumerate(O['__index__']) if j == i]
        if len(k) == 1:
            k = k[0]
            if what != 'failed':
                R.eq(int(O['FAILED'][k]), int(what in (
                    'boom', 'posydonerr', 'flow', 'late', 'ragged', 'nullv')),
                    "FAILED flag of binary %d (%s)" % (i, what))
            R.eq(int(O['WARNING'][k]), int(what == 'warn'),
                 "WARNING flag of binary %d (%s)" % (i, what))
            R.check(close(O['metallicity'][k], 1.0), "metallicity column")
            if what != 'ragged':
                want = ref_rows(inits[i], what)
                for suf, w in (('_i', want[0]), ('_f', want[-1])):
                    got = tuple(O[c + suf][k] for c in (
                        'state', 'event', 'time', 'S1_mass', 'S2_mass',
                        'orbital_period'))
                    R.check(all(close(x, y) for x, y in zip(got, w)),
                            lambda: "oneline%s of binary %d: %r want %r" %
                            (suf, i, got, w))
        st, m1, m2, _ = inits[i]
        if st == 'initially_single_star':
            tot_s += m1
        else:
            tot_b += m1 + m2
    if mass is not None:
        R.check(len(mass) == 1, "one metadata row per metallicity")
        m = mass.iloc[0]
        R.close(m['simulated_mass_single'], tot_s, "mass in singles",
                rtol=1e-7)
        R.close(m['simulated_mass_binaries'], tot_b, "mass in binaries",
                rtol=1e-7)
        R.close(m['simulated_mass'], tot_s + tot_b, "total mass", rtol=1e-7)
        R.eq(int(m['number_of_systems']), len(ids), "number of systems")
    return H, O


def initials(pop, ids):
    out = {}
    for i in ids:
        b = pop.manager.generate(index=i, **pop.kwargs)
        out[i] = (b.state, b.star_1.mass, b.star_2.mass, b.orbital_period)
    return out


def execute(case, R):
    import os

    import numpy as np
    import pandas as pd

    import posydon.popsyn.binarypopulation as BP
    from mc import popstub as P
    from posydon.popsyn.synthetic_population import PopulationRunner
    n = case['n']
    plan = dict(enumerate(case['plan']))
    kw = dict(binary_fraction_const=case['bf'], select=case['sel'])
    if case['dump'] is not None:
        kw['dump_rate'] = case['dump']
    real = BP.psutil.Process
    if case['mem'] is not None:
        kw['ram_per_cpu'] = 1.0
        answers = list(case['mem'])

        class Proc:
            def memory_info(self):
                a = answers.pop(0) if answers else 0
                return type('M', (), {'rss': a * 2 * 1024 ** 3})()
        BP.psutil.Process = Proc
    try:
        with R.tmp() as d:
            tmpd = os.path.join(d, "1e+00_Zsun_batches")
            if case['size'] == 0:
                ids = list(range(n))
                inits = initials(P.make_pop({}, n, **kw), ids)
                log = []
                pop = P.make_pop(plan, n, temp_directory=tmpd, log=log, **kw)
                pop.evolve(optimize_ram=case['ram'],
                           breakdown_to_df=case['bd'])
                R.step(n)
                R.eq([x for x, e in log if e == 'ZAMS'], ids,
                     "each binary evolved once, in order")
                if case['ram'] or case['bd']:
                    f = os.path.join(tmpd, "evolution.combined.h5")
                    R.must(os.path.exists(f), "combined file missing")
                    R.eq(sorted(os.listdir(tmpd)), ["evolution.combined.h5"],
                         "files left in the batch directory")
                    hist = pd.read_hdf(f, 'history')
                    one = pd.read_hdf(f, 'oneline')
                    mass = pd.read_hdf(f, 'mass_per_metallicity')
                    H, O = verify(R, case, hist, one, mass, inits, ids)
                    if case['ram']:
                        R.eq(len(pop.manager.binaries), 0,
                             "binaries kept in memory")
                        R.eq(len(pop.manager.history_dfs), 0,
                             "tables kept in memory")
                        pop.save(os.path.join(d, "final.h5"))
                        R.step()
                        h2 = P.frame_dict(pd.read_hdf(
                            os.path.join(d, "final.h5"), 'history'))
                        R.check(h2 == H, "saving changed the history")
                else:
                    H, O = verify(R, case, pop.to_df(), with_met(
                        pop.to_oneline_df()), None, inits, ids)
                    f = os.path.join(d, "final.h5")
                    pop.save(f, mode='w')
                    R.step()
                    verify(R, case, pd.read_hdf(f, 'history'),
                           pd.read_hdf(f, 'oneline'),
                           pd.read_hdf(f, 'mass_per_metallicity'), inits, ids)
                R.outcome(H, O, sorted(os.listdir(d)))
            else:
                size = case['size']
                inits, seen, last = {}, [], None
                for rank in range(size):
                    ja = dict(JOB_ID=777, RANK=rank, size=size, entropy=None)
                    mine = [int(i) for i in
                            np.array_split(np.arange(n), size)[rank]]
                    inits.update(initials(P.make_pop({}, n, **ja, **kw), mine))
                    log = []
                    pop = P.make_pop(plan, n, temp_directory=tmpd, log=log,
                                     **ja, **kw)
                    pop.evolve(optimize_ram=True, breakdown_to_df=case['bd'])
                    R.step(len(mine))
                    ran = [x for x, e in log if e == 'ZAMS']
                    seen += ran
                    f = os.path.join(tmpd, "evolution.combined.%d.h5" % rank)
                    R.must(os.path.exists(f), "file of rank %d missing" % rank)
                    verify(R, case, pd.read_hdf(f, 'history'),
                           pd.read_hdf(f, 'oneline'),
                           pd.read_hdf(f, 'mass_per_metallicity'), inits, ran)
                R.eq(sorted(seen), list(range(n)),
                     "every binary evolved by exactly one job")
                runner = object.__new__(PopulationRunner)
                runner.verbose = False
                runner.merge_parallel_runs(pop)
                R.step()
                f = os.path.join(d, "1e+00_Zsun_population.h5")
                R.must(os.path.exists(f), "merged file missing")
                R.check(not os.path.exists(tmpd), "batch directory left")
                H, O = verify(R, case, pd.read_hdf(f, 'history'),
                              pd.read_hdf(f, 'oneline'),
                              pd.read_hdf(f, 'mass_per_metallicity'), inits,
                              list(range(n)))
                R.outcome(sorted(map(str, zip(H['__index__'], H['event']))),
                          sorted(O['__index__']), size)
    finally:
        BP.psutil.Process = real


def with_met(one):
    one = one.copy()
    one['metallicity'] = 1.0
    return one
