"""C29: reducing MESA tables (scrubbing, cutting, downsampling)."""
import itertools

LEVEL = "model_checking"
RULE = ("all short tables of model numbers and ages, alone and against each "
        "other; all sequences of mass-transfer and depletion states of the "
        "rows; all short tracks over small value sets with every tolerance "
        "and interval; distinct by kept rows")
ASSUMPTIONS = ["the error of a removed row is the 2-norm over the columns, "
               "each scaled to its range in the table",
               "ages after the start of mass transfer may keep a remainder "
               "below one per cent where double precision needs it"]


def bounds(tier):
    q = tier == "quick"
    return {"scrub_rows": 5 if q else 6, "pair_rows": 3, "rlo_rows": 4 if q
            else 5, "depletion_rows": 3, "track_rows": 6 if q else 7,
            "track_columns": 2, "track_values": 3}


def cases(tier):
    b = bounds(tier)
    for n in range(0, b['scrub_rows'] + 1):
        firsts = range(4) if n else [None]
        for f in firsts:
            yield {'kind': 'scrub', 'n': n, 'first': f}
    for n1 in range(1, 4):
        for n2 in range(1, 4):
            for ms in itertools.product(range(1, 4), repeat=n1):
                yield {'kind': 'pair', 'm': list(ms), 'n2': n2}
    for n in range(1, b['rlo_rows'] + 1):
        for s in itertools.product(range(4), repeat=min(n, 2)):
            yield {'kind': 'rlo', 'n': n, 'pre': list(s)}
    for n in range(1, 4):
        for s in itertools.product(range(4), repeat=n):
            yield {'kind': 'depl', 's1': list(s)}
    for n in range(2, b['track_rows'] + 1):
        for x in itertools.product(range(3), repeat=min(n, 3)):
            yield {'kind': 'track', 'n': n, 'pre': list(x)}
    for n in range(3, 6):
        for x in itertools.product(range(3), repeat=n):
            yield {'kind': 'hist', 'x': list(x)}
    for big in (1e3, 1e7, 1e10, 3e12):
        for dt in (1.0, 1e-3, 1e-6, 1e-9):
            yield {'kind': 'prec', 'big': big, 'dt': dt}


def rec(**cols):
    import numpy as np
    names = list(cols)
    n = len(cols[names[0]])
    a = np.zeros(n, dtype=[(c, 'f8') for c in names])
    for c in names:
        a[c] = cols[c]
    return a


def scrubbed(m, t):
    """Rows that survive: those older and earlier than every kept later row."""
    keep = []
    for i in range(len(m) - 1, -1, -1):
        if all(m[i] < m[j] and t[i] < t[j] for j in keep):
            keep.append(i)
    return keep[::-1]


def run_scrub(case, R):
    import numpy as np
    from posydon.grids.scrubbing import scrub
    n = case['n']
    if n == 0:
        t = rec(row=[])
        got = scrub([t, None], [np.array([], int), None],
                    [np.array([]), None])
        R.check(len(got[0]) == 0 and got[1] is None, "empty table")
        R.outcome('empty')
        return
    for ms in itertools.product(range(4), repeat=n - 1):
        ms = (case['first'],) + ms
        for ts in itertools.product(range(3), repeat=n):
            t = rec(row=range(n), val=[10.0 * k for k in range(n)])
            got = scrub([t], [np.array(ms)], [np.array(ts, float)])[0]
            R.step()
            want = scrubbed(ms, ts)
            rows = [int(r) for r in got['row']]
            R.check(rows == want, lambda: "models %s, ages %s: kept rows %s "
                    "instead of %s" % (ms, ts, rows, want))
            R.check([float(v) for v in got['val']] == [10. * r for r in rows],
                    "values of the kept rows")
            R.outcome(tuple(rows))


def run_pair(case, R):
    import numpy as np
    from posydon.grids.scrubbing import scrub
    m1 = case['m']
    n2 = case['n2']
    for m2 in itertools.product(range(1, 4), repeat=n2):
        for missing in (None, 0, 1, 'model', 'age'):
            t1 = [float(i) for i in range(len(m1))]
            t2 = [float(i) for i in range(n2)]
            A, B = rec(row=range(len(m1))), rec(row=range(n2))
            C = rec(row=range(4))
            tb = [A, B, C]
            mo = [np.array(m1), np.array(m2), np.array([1, 2, 3, 4])]
            ag = [np.array(t1), np.array(t2), np.array([0., 1., 2., 3.])]
            if missing in (0, 1):
                tb[missing] = None
            elif missing == 'model':
                mo[1] = None
            elif missing == 'age':
                ag[1] = None
            got = scrub(tb, mo, ag)
            R.step()
            kept = []
            for k in range(3):
                if tb[k] is None or mo[k] is None or ag[k] is None:
                    kept.append(None)
                else:
                    kept.append(scrubbed(mo[k], ag[k]))
            common = None
            for k in range(3):
                if kept[k] is not None:
                    s = {int(mo[k][r]) for r in kept[k]}
                    common = s if common is None else common & s
            for k in range(3):
                if kept[k] is None:
                    R.check(got[k] is None, "missing table returned")
                    continue
                want = [r for r in kept[k] if int(mo[k][r]) in common]
                rows = [int(r) for r in got[k]['row']]
                R.check(rows == want, lambda: "table %d of models %s, %s "
                        "(%s): rows %s instead of %s" % (
                            k, m1, m2, missing, rows, want))
            L = {len(g) for g in got if g is not None}
            R.check(len(L) == 1, "tables of different length: %s" % L)
            R.outcome(tuple(sorted(common)), missing)


STATES = [(-0.5, -0.5, -50.0), (0.1, -0.5, -50.0), (-0.5, 0.0, -50.0),
          (-0.5, -0.5, -10.0)]


def run_rlo(case, R):
    from posydon.grids.scrubbing import keep_after_RLO
    n, pre = case['n'], case['pre']
    for rest in itertools.product(range(4), repeat=n - len(pre)):
        s = tuple(pre) + rest
        for cols in ('both', '1', '2'):
            for st in ((True, True), (True, False), (False, True), (None,
                                                                    True)):
                age = [1000.0 + 7.0 * k for k in range(n)]
                c = {'row': range(n), 'age': age, 'lg_mtransfer_rate':
                     [STATES[x][2] for x in s]}
                if cols in ('both', '1'):
                    c['rl_relative_overflow_1'] = [STATES[x][0] for x in s]
                if cols in ('both', '2'):
                    c['rl_relative_overflow_2'] = [STATES[x][1] for x in s]
                bh = rec(**c)
                hs = []
                for k, with_age in enumerate(st):
                    if with_age is None:
                        hs.append(None)
                    elif with_age:
                        hs.append(rec(row=range(n), star_age=[
                            a + 0.5 * k for a in age]))
                    else:
                        hs.append(rec(row=range(n)))
                on = [i for i, x in enumerate(s) if x == 3 or (
                    x == 1 and cols != '2') or (x == 2 and cols != '1')]
                got = keep_after_RLO(bh, *hs)
                R.step()
                tag = "rows %s with overflow of %s" % (s, cols)
                if not on:
                    R.check(got is None, tag + ": start without mass transfer")
                    R.outcome('none', n)
                    continue
                R.must(got is not None, tag + ": no start")
                b, h1, h2 = got
                f = on[0]
                for tab, old in ((b, bh), (h1, hs[0]), (h2, hs[1])):
                    if old is None:
                        R.check(tab is None, tag + ": table appeared")
                        continue
                    R.check([int(r) for r in tab['row']] == list(range(f, n)),
                            tag + ": rows %s" % (tab['row'],))
                R.check([float(a) for a in b['age']] == [7.0 * k for k in
                                                         range(n - f)],
                        tag + ": ages %s" % (b['age'],))
                for k, h in enumerate((h1, h2)):
                    if h is not None and 'star_age' in h.dtype.names:
                        R.check([float(a) for a in h['star_age']] == [
                            7.0 * i + 0.5 * k for i in range(n - f)],
                            tag + ": star ages %s" % (h['star_age'],))
                R.outcome(n, f)
    x = rec(age=[1.], rl_relative_overflow_1=[1.])
    with R.raises(ValueError, "start without transfer rates"):
        keep_after_RLO(x, None, None)
    x = rec(age=[1.], lg_mtransfer_rate=[1.])
    with R.raises(ValueError, "start without overflow"):
        keep_after_RLO(x, None, None)
    R.check(keep_after_RLO(None, 1, 2) == (None, 1, 2), "no binary history")


def run_prec(case, R):
    """Ages that differ by less than the precision of the shifted ages."""
    import math
    from posydon.grids.scrubbing import keep_after_RLO
    big, dt = case['big'], case['dt']
    for n in (2, 3, 5):
        for shape in ('even', 'first', 'last'):
            age = [big]
            for k in range(1, n):
                d = dt if shape == 'even' or (shape == 'first' and k == 1) \
                    or (shape == 'last' and k == n - 1) else big * 0.5
                a = age[-1] + d
                if a <= age[-1]:
                    a = math.nextafter(age[-1], math.inf)
                age.append(a)
            bh = rec(age=age, lg_mtransfer_rate=[-50.] + [-3.] * (n - 1),
                     rl_relative_overflow_1=[-1.] * n,
                     rl_relative_overflow_2=[-1.] * n)
            h = rec(star_age=age)
            b, h1, h2 = keep_after_RLO(bh, h, None)
            R.step()
            a = [float(v) for v in b['age']]
            R.check(len(a) == n - 1, "rows")
            R.check(all(x < y for x, y in zip(a, a[1:])),
                    "ages not increasing: %s" % a)
            R.check(0 <= a[0] <= 0.01 * big, "first age %s" % a[0])
            for x, y in zip(a, age[1:]):
                R.close(x - a[0], y - age[1], "age differences", 1e-9,
                        4e-16 * age[-1])
            R.check([float(v) for v in h1['star_age']] == a,
                    "star ages %s and ages %s" % (h1['star_age'], a))
            R.outcome(big, dt, n, shape)


DEPL = [(0.5, 0.3), (0.005, 0.3), (0.5, 0.05), (0.005, 0.05)]


def cut(f, n):
    """Rows kept up to the first depleted row; it is the last kept one if
    there is a later one."""
    return f + 1 if n > f + 1 else f


def run_depl(case, R):
    from posydon.grids.scrubbing import keep_till_central_abundance_He_C
    s1 = case['s1']
    n = len(s1)
    for s2 in itertools.product(range(4), repeat=n):
        for ages in ('all', 'none1', 'none2', 'stars', 'bin'):
            bh = {'row': range(n)}
            if ages != 'stars':
                bh['age'] = [float(k) for k in range(n)]
            bh = rec(**bh)
            h = []
            for k, s in enumerate((s1, s2)):
                c = {'row': range(n), 'center_he4': [DEPL[x][0] for x in s],
                     'center_c12': [DEPL[x][1] for x in s]}
                if ages in ('all', 'stars') or ages == 'none%d' % (2 - k):
                    c['star_age'] = [float(i) for i in range(n)]
                h.append(rec(**c))
            b, h1, h2, tf = keep_till_central_abundance_He_C(bh, h[0], h[1])
            R.step()
            f = []
            for s in (s1, s2):
                f.append(s.index(3) if s[-1] == 3 else None)
            tag = "abundances %s and %s (ages %s)" % (s1, s2, ages)
            if f == [None, None]:
                m, want = n, ''
            elif f[1] is None or (f[0] is not None and f[0] <= f[1]):
                m = cut(f[0], n)
                want = 'Primary got stopped before central carbon depletion'
            else:
                m = cut(f[1], n)
                want = 'Secondary got stopped before central carbon depletion'
            for t in (b, h1, h2):
                R.check([int(r) for r in t['row']] == list(range(m)),
                        tag + ": rows %s instead of the first %d" % (
                            t['row'], m))
            R.eq(tf, want, tag + ": flag")
            R.outcome(m, want, n)
    for drop in range(3):
        t = [bh, h[0], h[1]]
        t[drop] = None
        g = keep_till_central_abundance_He_C(*t)
        R.check(all(x is y for x, y in zip(g, t)) and g[3] == '',
                "cut with a missing table")


TOL = [0.0, 0.1, 0.3, 0.5, 0.75, 1.2]
STEP = [None, 1.5, 2.5, -0.4]


def err(t, X, i, a, b):
    w = (t[i] - t[a]) / (t[b] - t[a])
    return sum((X[i][c] - (X[a][c] + w * (X[b][c] - X[a][c]))) ** 2
               for c in range(len(X[0]))) ** 0.5


def scaled(cols):
    out = []
    for c in cols:
        lo, hi = min(c), max(c)
        out.append([(v - lo) / (hi - lo) if hi > lo else 0.0 for v in c])
    return [list(r) for r in zip(*out)]


def judge(R, tag, t, X, keep, tol, step, amb=1e-9, tight=True):
    n = len(t)
    R.check(keep[0] and keep[-1], tag + ": ends removed")
    ks = [i for i in range(n) if keep[i]]
    lim = None if step is None else step if step > 0 else -step * (
        t[-1] - t[0])
    for a, b in zip(ks, ks[1:]):
        for i in range(a + 1, b):
            R.check(err(t, X, i, a, b) <= tol + amb, lambda: tag + ": row %d "
                    "of %s removed, error %g" % (i, X, err(t, X, i, a, b)))
        if lim is not None and b > a + 1:
            R.check(t[b] - t[a] <= lim * (1 + 1e-12),
                    tag + ": gap of %g" % (t[b] - t[a]))
    # rows that nothing needs are removed: between no two other kept rows is
    # the row off the line or the gap too long
    if tight:
        for k in ks[1:-1]:
            R.check(any(err(t, X, k, a, b) > tol - amb or (
                lim is not None and t[b] - t[a] > lim * (1 - 1e-12))
                for a in ks if a < k for b in ks if b > k),
                tag + ": row %d of %s kept without need" % (k, X))
    if tight and step is None and all(err(t, X, i, 0, n - 1) <= tol - amb
                            for i in range(1, n - 1)):
        R.check(len(ks) == 2, tag + ": %s kept of %s" % (ks, X))


def run_track(case, R):
    import math
    import numpy as np
    from posydon.grids.downsampling import TrackDownsampler
    n, pre = case['n'], case['pre']
    ts = [[float(k) for k in range(n)], [float(k * k) for k in range(n)]]
    for rest in itertools.product(range(3), repeat=n - len(pre)):
        x = tuple(pre) + rest
        second = [tuple(reversed(x)), tuple((v * v + k) % 3 for k, v in
                                            enumerate(x)), None]
        for t in ts:
            for y in second:
                cols = [x] if y is None else [x, y]
                X = scaled(cols)
                for tol in TOL:
                    for st in STEP:
                        if st is not None and tol not in (0.1, 0.75):
                            continue
                        dep = np.array(cols, dtype=float).T
                        d = TrackDownsampler(t, dep)
                        tt, XX = d.downsample(max_err=tol, max_interval=st)
                        R.step()
                        keep = [bool(k) for k in d.keep]
                        tag = "track %s at %s, tolerance %g, interval %s" % (
                            cols, t, tol, st)
                        R.check([float(v) for v in tt] == [
                            v for v, k in zip(t, keep) if k], tag + ": times")
                        for r, w in zip(XX, dep[d.keep]):
                            R.check(np.allclose(r, w, atol=1e-12), lambda:
                                    tag + ": values %s, %s" % (r, w))
                        judge(R, tag, t, X, keep, tol, st)
                        R.outcome(tuple(keep), tol, st)
        # whole numbers and missing values
        d = TrackDownsampler(ts[0], np.array([[int(v) * 5] for v in x]))
        d.find_downsample(0.1)
        judge(R, "track of whole numbers %s" % (x,), ts[0], scaled([x]),
              [bool(k) for k in d.keep], 0.1, None)
        if n > 2:
            y = [float(v) for v in x]
            y[n // 2] = math.nan
            z = [float(v) for v in reversed(x)]
            d = TrackDownsampler(ts[0], np.array([z, y]).T)
            d.find_downsample(0.1)
            judge(R, "track with a missing value %s" % (x,), ts[0],
                  scaled([z]), [bool(k) for k in d.keep], 0.1, None,
                  tight=False)
            if len(set(y) - {y[n // 2]}) < 2:
                continue         # without range: no error by removing rows
            ks = [i for i in range(n) if d.keep[i]]
            for a, b in zip(ks, ks[1:]):
                for i in range(a + 1, b):
                    R.check(i != n // 2, "missing value replaced")
                    R.check(n // 2 not in (a, b), "value %d of %s lost next to "
                            "a missing one" % (i, y))


def run_hist(case, R):
    import numpy as np
    from posydon.grids.psygrid import downsample_history, downsample_profile
    x = case['x']
    n = len(x)
    t = [float(k + k // 2) for k in range(n)]
    y = [(v + k) % 3 for k, v in enumerate(x)]
    junk = [(7 * k) % 5 for k in range(n)]
    for tol in (None, 0.0, 0.3, 0.75):
        for present in ('all', 'no1', 'no2', 'none', 'single'):
            bh = rec(row=range(n), age=t, model_number=junk, a=x)
            h1 = rec(row=range(n), star_age=t, b=y)
            h2 = rec(row=range(n), c=list(reversed(x)), star_age=t)
            par = {'history_DS_error': tol, 'history_DS_exclude':
                   ['row', 'age', 'star_age', 'model_number'],
                   'binary': present != 'single'}
            cols = {'all': [x, y, x[::-1]], 'no1': [x, x[::-1]], 'no2': [x, y],
                    'none': [x], 'single': [y]}[present]
            tabs = [None if present == 'single' else bh,
                    None if present in ('no1', 'none') else h1,
                    h2 if present in ('all', 'no1') else None]
            got = downsample_history(*tabs, par)
            R.step()
            tag = "histories %s (%s), tolerance %s" % (x, present, tol)
            rows = None
            for g, o in zip(got, tabs):
                if o is None:
                    R.check(g is None, tag + ": table appeared")
                    continue
                r = [int(v) for v in g['row']]
                R.check(rows is None or rows == r, tag + ": tables keep "
                        "different rows %s, %s" % (rows, r))
                rows = r
                for c in o.dtype.names:
                    R.check(np.array_equal(g[c], o[c][r]), tag + ": column "
                            + c)
            if tol is None:
                R.check(rows == list(range(n)), tag + ": rows removed")
            else:
                judge(R, tag, t, scaled(cols), [i in rows for i in range(n)],
                      tol, None)
            R.outcome(tuple(rows), tol)
        for iv in (None, 1.5, -0.3):
            mass = t[::-1]
            p = rec(row=range(n), mass=mass, a=x, star_mass=junk, b=y)
            par = {'profile_DS_error': tol, 'profile_DS_interval': iv,
                   'profile_DS_exclude': ['row', 'mass', 'star_mass']}
            g = downsample_profile(p, par)
            R.step()
            rows = [int(v) for v in g['row']]
            for c in p.dtype.names:
                R.check(np.array_equal(g[c], p[c][rows]), "profile column "
                        + c)
            tag = "profile %s, tolerance %s, interval %s" % (x, tol, iv)
            if tol is None:
                R.check(rows == list(range(n)), tag + ": rows removed")
            else:
                judge(R, tag, t, scaled([x[::-1], y[::-1]]),
                      [n - 1 - i in rows for i in range(n)], tol, iv)
    R.check(downsample_profile(None, par) is None, "missing profile")
    bad = rec(row=range(n + 1), b=[0.0] * (n + 1))
    with R.raises(IndexError, "histories of different length"):
        downsample_history(rec(age=t, a=x), bad, None, {
            'history_DS_error': 0.1, 'history_DS_exclude': [], 'binary': True})


def execute(case, R):
    globals()['run_' + case['kind']](case, R)
