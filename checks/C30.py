"""C30: a grid file holds what the MESA runs contain."""
import itertools
import math
import os

from mc import mesadir as M

LEVEL = "model_checking"
RULE = ("every subset of the files of a run, every pattern of repeated rows, "
        "every combination of the grid options, on real run directories; "
        "distinct by stored content")
ASSUMPTIONS = ["reference: the rows written by the check, reduced by its own "
               "rules", "values at helium depletion are checked on tables "
               "without repeated rows only"]
HANG_S = 600

# (model, age, rlo, state 1, state 2)
CLEAN = [(1, 10., '0', 'A', 'A'), (2, 20., '0', 'A', 'A'), (5, 30., '1', 'A',
         'A'), (6, 40., '1', 'B', 'A'), (9, 50., '0', 'C', 'B')]
PATTERNS = {
    'clean': CLEAN,
    'one': CLEAN[:1],
    'late': [(1, 10., '0', 'A', 'A'), (2, 20., '0', 'A', 'A'), (3, 30., '0',
             'B', 'A'), (4, 44., '2', 'B', 'B')],
    'never': [(1, 10., '0', 'A', 'A'), (2, 25., '0', 'A', 'A'), (3, 30., '0',
              'B', 'A')],
    'back': [(1, 10., '0', 'A', 'A'), (2, 20., '0', 'A', 'A'), (3, 30., '1',
             'A', 'A'), (2, 21., '0', 'A', 'A'), (3, 31., '1', 'B', 'A'),
             (4, 40., '0', 'S', 'A')],
    'restart': [(1, 10., '1', 'A', 'A'), (2, 20., '1', 'A', 'A'), (1, 10.,
                '0', 'A', 'A'), (2, 22., '0', 'A', 'A')],
    'reset': [(7, 70., '0', 'A', 'A'), (8, 80., '0', 'A', 'A'), (1, 1., '0',
              'B', 'A')],
    'stall': [(1, 10., '0', 'A', 'A'), (2, 10., '0', 'A', 'A'), (3, 10., '0',
              'A', 'A'), (4, 40., '1', 'A', 'A')],
    'deplete': [(1, 10., '0', 'A', 'A'), (2, 20., '0', 'C', 'A'), (3, 30.,
                '0', 'D', 'A'), (4, 40., '0', 'D', 'A')],
    'deplete2': [(1, 10., '0', 'A', 'A'), (2, 20., '1', 'C', 'D'), (3, 30.,
                 '0', 'D', 'D'), (4, 40., '0', 'D', 'D')],
    'deplete3': [(1, 10., '0', 'A', 'A'), (2, 20., '0', 'C', 'A'), (3, 30.,
                 '0', 'D', 'A')],
}
SKIPS = [{}, {'bh': [1]}, {'h1': [1]}, {'h2': [0]}, {'bh': [1], 'h1': [2]},
         {'h1': [0], 'h2': [1]}]
COLS = ['minimum', 'all', 'list', 'tuple']
EXTRA = ('surface_h1', 'center_h1', 'center_he4', 'center_c12', 'log_LH',
         'log_LHe', 'log_Lnuc', 'co_core_mass', 'he_core_mass',
         'avg_c_in_c_core')


def bounds(tier):
    return {"file_subsets": 64, "row_patterns": len(PATTERNS), "row_gaps":
            len(SKIPS), "option_combinations": 8 * 4 * 4}


def cases(tier):
    fs = ('bh', 'h1', 'h2', 'p1', 'p2', 'grid')
    for sub in itertools.product((0, 1), repeat=6):
        f = [x for x, y in zip(fs, sub) if y]
        for single in (False, True):
            if single and 'bh' in f:
                continue
            for gz in (False, True):
                yield {'kind': 'files', 'files': f, 'single': single,
                       'gz': gz}
    for p in PATTERNS:
        for k in range(len(SKIPS)):
            for start in (False, True):
                for m1 in (20.0, 120.0):
                    yield {'kind': 'rows', 'p': p, 'skip': k, 'start': start,
                           'm1': m1, 'stop': m1 == 120.0}
        for ds in (None, 0.05, 0.6):
            for single in (False, True):
                yield {'kind': 'ds', 'p': p, 'ds': ds, 'single': single}
    for c in COLS:
        for comp in ('gzip9', 'gzip', 'lzf', None):
            for fix in (True, False):
                for slim in (False, True):
                    yield {'kind': 'opt', 'cols': c, 'comp': comp, 'fix': fix,
                           'slim': slim}
    for order in itertools.permutations(range(3)):
        yield {'kind': 'rerun', 'order': list(order)}
    for P in (0.5, 1.5, 2.5, 5.0):
        for f in (['bh', 'h1', 'h2', 'grid'], ['h1', 'grid'], ['grid'],
                  ['bh', 'h1', 'h2'], []):
            for start in (False, True):
                yield {'kind': 'rlofix', 'P': P, 'files': f, 'start': start,
                       'known': 20}
        yield {'kind': 'rlofix', 'P': P, 'files': ['bh', 'h1', 'h2', 'grid'],
               'start': False, 'known': 19}
    for lazy in (False, True):
        yield {'kind': 'view', 'lazy': lazy}


# --- reference -------------------------------------------------------------
def scrubbed(rows, age):
    keep = []
    for i in range(len(rows) - 1, -1, -1):
        if all(rows[i]['model_number'] < rows[j]['model_number'] and
               rows[i][age] < rows[j][age] for j in keep):
            keep.append(i)
    return [dict(rows[i]) for i in keep[::-1]]


def reduced(run, single=False, start=False, stop=False, fix=True):
    """Tables which should be stored, or the reason to leave out the run;
    and the replaced termination flag."""
    fl = run['files']
    t = M.tables(run)
    tab = {k: [dict(r) for r in t[k]] if k in fl else None
           for k in ('bh', 'h1', 'h2')}
    if single:
        tab['bh'] = tab['h2'] = None
        if tab['h1'] is None:
            return 'ignored_no_history1', None, ''
    elif tab['bh'] is None:
        return 'ignored_no_binary_history', None, ''
    if fix:
        for s in ('h1', 'h2'):
            for r in tab[s] or []:
                for q in ('mass', 'radius'):
                    r['he_core_' + q] = max(r['he_core_' + q],
                                            r['co_core_' + q])
    for k, a in (('bh', 'age'), ('h1', 'star_age'), ('h2', 'star_age')):
        if tab[k] is not None:
            tab[k] = scrubbed(tab[k], a)
    com = None
    for k in tab:
        if tab[k] is not None:
            s = {r['model_number'] for r in tab[k]}
            com = s if com is None else com & s
    for k in tab:
        if tab[k] is not None:
            tab[k] = [r for r in tab[k] if r['model_number'] in com]
    if not com:
        return 'ignored_scrubbed_history', None, ''
    tf = ''
    if stop and not single and None not in tab.values() and \
            tab['bh'][0]['star_1_mass'] >= 100:
        f = []
        for s in ('h1', 'h2'):
            d = [r['center_he4'] < 0.01 and r['center_c12'] < 0.1
                 for r in tab[s]]
            f.append(d.index(True) if d[-1] else None)
        if f != [None, None]:
            w = 0 if f[1] is None or (f[0] is not None and f[0] <= f[1]) \
                else 1
            tf = ('Primary', 'Secondary')[w] + \
                ' got stopped before central carbon depletion'
            n = f[w] + 1 if len(com) > f[w] + 1 else f[w]
            for k in tab:
                tab[k] = tab[k][:n]
    if start and not single:
        on = [i for i, r in enumerate(tab['bh']) if r[
            'rl_relative_overflow_1'] >= 0 or r['rl_relative_overflow_2'] >= 0
            or r['lg_mtransfer_rate'] >= -10]
        if not on:
            return 'ignored_no_RLO', None, ''
        a0 = tab['bh'][on[0]]['age']
        for k, a in (('bh', 'age'), ('h1', 'star_age'), ('h2', 'star_age')):
            if tab[k] is not None:
                tab[k] = tab[k][on[0]:]
                for r in tab[k]:
                    r[a] -= a0
    return None, tab, tf


def mtflag(run, tab, start, flag):
    if flag in ('min_timestep_limit',):
        return 'None'
    if flag == 'Terminate because of overflowing initial model':
        return 'initial_RLOF'
    seq = []
    for i, r in enumerate(tab['bh']):
        o = 1 if r['rl_relative_overflow_1'] > 0 else 2 if \
            r['rl_relative_overflow_2'] > 0 else 0
        if o and i == 0 and not start:
            return 'initial_RLOF'
        if o:
            h = tab['h%d' % o]
            if h is None:
                return None
            st = h[i]
            c = 'A' if st['center_h1'] > 0.01 else 'B' if st[
                'center_he4'] > 0.01 else 'C'
            if st['surface_h1'] < 0.01:
                c = 'BB'
            seq.append('%s%d' % (c, o))
    if not seq:
        return 'no_RLOF'
    out = [seq[0]]
    for s in seq[1:]:
        if s != out[-1]:
            out.append(s)
    return 'case_' + '/'.join(out)


def near(R, got, want, tag):
    got = float(got)
    ok = (got != got and want != want) or abs(got - want) <= 1e-12 * max(
        1.0, abs(want))
    R.check(ok, lambda: "%s: %r instead of %r" % (tag, got, want))


def table(R, got, rows, cols, tag):
    if rows is None:
        R.check(got is None, tag + " stored")
        return
    R.must(got is not None, tag + " missing")
    R.check(list(got.dtype.names) == list(cols) if cols is not None else
            set(got.dtype.names) >= set(rows[0]), tag + ": columns %s" %
            (got.dtype.names,))
    R.must(len(got) == len(rows), tag + ": %d rows instead of %d" % (
        len(got), len(rows)))
    for c in got.dtype.names:
        for i, r in enumerate(rows):
            near(R, got[c][i], r[c], "%s, %s of row %d" % (tag, c, i))


def columns(cols, single=False):
    """(config values, expected columns) of the tables."""
    star = (['model_number', 'star_age', 'star_mass'] if single else
            []) + M.STAR
    allstar = ['model_number', 'star_age', 'star_mass'] + M.STAR + ['extra_s']
    if cols == 'minimum':
        return {}, {'bh': M.BH, 'h1': star, 'h2': M.STAR, 'p': M.PROF}
    names = ['binary_history_saved_columns', 'star1_history_saved_columns',
             'star2_history_saved_columns', 'star1_profile_saved_columns',
             'star2_profile_saved_columns']
    if cols == 'all':
        return dict.fromkeys(names, 'all'), {
            'bh': M.BH + ['extra_b'], 'h1': allstar, 'h2': allstar,
            'p': M.PROF + ['extra_p']}
    add = [['extra_b'], ['extra_s'], ['extra_s'], ['extra_p'], ['extra_p']]
    if cols == 'list':
        return dict(zip(names, add)), {
            'bh': M.BH + ['extra_b'], 'h1': star + ['extra_s'],
            'h2': M.STAR + ['extra_s'], 'p': M.PROF + ['extra_p']}
    need = (['age', 'star_1_mass', 'star_2_mass', 'period_days',
             'rl_relative_overflow_1', 'rl_relative_overflow_2',
             'lg_mtransfer_rate', 'extra_b'],
            list(EXTRA) + ['extra_s'], list(EXTRA), ['mass', 'extra_p'],
            ['mass', 'extra_p'])
    return dict(zip(names, map(tuple, need))), {
        'bh': need[0], 'h1': need[1], 'h2': need[2], 'p': need[3]}


def make(R, runs, single=False, path=None, **kw):
    from posydon.grids.psygrid import PSyGrid
    root = path or os.path.join(fresh(R), 'mesa')
    for r in runs:
        r.setdefault('files', ('bh', 'h1', 'h2', 'p1', 'p2', 'grid'))
        M.write(root, r, single)
    slim = kw.pop('slim', False)
    g = PSyGrid()
    out = os.path.join(os.path.dirname(root), 'out', 'grid.h5')
    g.create(root, out, slim=slim, warn="suppress", binary=not single,
             overwrite=True, **kw)
    g.close()
    return PSyGrid(out), out


def dirs(g):
    out = []
    for d in g.MESA_dirs:
        out.append(os.path.basename(d.decode() if isinstance(d, bytes)
                                    else d))
    return out


def verify(R, g, runs, single=False, start=False, stop=False, cols='minimum',
           fix=True, slim=False, noprof=False, keep_norlo=False):
    """The grid contains exactly what the runs provide."""
    _, want = columns(cols, single)
    names = dirs(g)
    R.check(len(set(names)) == len(names), "a run is stored twice")
    expected = {}
    for r in runs:
        why, tab, tf = reduced(r, single, start, stop, fix)
        if single and why is None and 'p1' not in r['files'] and not noprof:
            why = 'ignored_no_final_profile'
        if why is None:
            expected[M.name(r, single)] = (r, tab, tf)
    R.must(set(names) == set(expected), "runs %s instead of %s" % (
        sorted(names), sorted(expected)))
    R.eq(len(g), 0 if slim else len(names), "number of runs")
    R.eq(len(g.initial_values), len(names), "initial values")
    for i, n in enumerate(names):
        run, tab, tf = expected[n]
        iv, fv = g.initial_values[i], g.final_values[i]
        tag = "run " + n
        if not slim:
            v = g[i]
            table(R, v.binary_history, tab['bh'], want['bh'],
                  tag + ", binary history")
            table(R, v.history1, tab['h1'], want['h1'], tag + ", history 1")
            table(R, v.history2, tab['h2'], want['h2'], tag + ", history 2")
            for s in (1, 2):
                table(R, v['final_profile%d' % s], M.profile(s) if 'p%d' % s
                      in run['files'] else None, want['p'], tag +
                      ", profile %d" % s)
        # initial values
        hdr = {}
        if not start:
            if single:
                hdr = {'S1_star_mass': run['m1'] + 0.003}
            else:
                m1, m2, P = run['m1'] + 0.001, run['m2'] + 0.002, \
                    run['P'] * 1.001
                a = (6.67428e-8 * (m1 + m2) * 1.9892e33 * (P * 86400) ** 2 /
                     (4 * math.pi ** 2)) ** (1 / 3.) / 6.9598e10
                hdr = {'star_1_mass': m1, 'star_2_mass': m2, 'period_days': P,
                       'binary_separation': a}
        src = 1 if tab['h1'] else 2 if tab['h2'] else None
        Z = run['z']
        Y = 0.25 + 0.01 * src if src else float('nan')
        near(R, iv['Z'], Z if src else float('%.4e' % Z), tag + ": Z")
        near(R, iv['Y'], Y, tag + ": Y")
        near(R, iv['X'], 1 - Z - Y, tag + ": X")
        for pre, k in (('', 'bh'), ('S1_', 'h1'), ('S2_', 'h2')):
            for c in want[k]:
                if single and k != 'h1':
                    R.check(k == 'h2' or pre + c not in iv.dtype.names,
                            "binary column %s" % c)
                    continue
                if pre + c not in iv.dtype.names:
                    R.check(all(k not in r['files'] for r in runs), tag +
                            ": no initial value of " + pre + c)
                    continue
                first = tab[k][0][c] if tab[k] else float('nan')
                last = tab[k][-1][c] if tab[k] else float('nan')
                if pre + c == 'binary_separation' and not start:
                    R.close(float(iv[c]), hdr[c], tag + ": separation", 2e-3)
                else:
                    near(R, iv[pre + c], hdr.get(pre + c, first),
                         tag + ": initial " + pre + c)
                near(R, fv[pre + c], last, tag + ": final " + pre + c)
        # flags
        flag = tf or run.get('flag', 'max_age')
        R.eq(str(fv['termination_flag_1']), flag, tag + ": flag 1")
        st = {}
        for s, k in ((1, 'h1'), (2, 'h2')):
            if tab[k] is None:
                m = None if single else tab['bh'][-1]['star_%d_mass' % s]
                st[s] = None if m is None else 'WD' if m <= 1.37 else \
                    'NS' if m < 2.5 else 'BH'
            else:
                x = tab[k][-1]
                st[s] = [v[0] for v in M.COMP.values() if all(
                    x[q] == y for q, y in zip(M.KEYS, v[1:]))][0]
        if single:
            R.eq(str(fv['termination_flag_3']), st[1], tag + ": flag 3")
            R.check('termination_flag_2' not in fv.dtype.names and
                    'interpolation_class' not in fv.dtype.names,
                    "binary flags in a grid of single stars")
        else:
            R.eq(str(fv['termination_flag_3']), st[1], tag + ": flag 3")
            R.eq(str(fv['termination_flag_4']), st[2], tag + ": flag 4")
            f2 = mtflag(run, tab, start, flag)
            if f2 is not None:
                R.eq(str(fv['termination_flag_2']), f2, tag + ": flag 2")
                cl = 'initial_MT' if f2 == 'initial_RLOF' else \
                    'not_converged' if flag == 'min_timestep_limit' else \
                    'no_MT' if f2 == 'no_RLOF' else 'stable_reverse_MT' if \
                    '1' in f2 and '2' in f2 else 'stable_MT'
                R.eq(str(fv['interpolation_class']), cl, tag + ": class")
        R.outcome(n, len(tab['h1'] or tab['bh']), str(fv[
            'termination_flag_1']))
        # at helium depletion
        ages = [r[1] for r in run['rows']]
        if ages == sorted(set(ages)) and not run.get('skip'):
            full = M.tables(run)
            for s, k in ((1, 'h1'), (2, 'h2')):
                if single and s == 2:
                    continue
                x = [r for r in full[k] if r['center_he4'] < 0.01 and
                     r['center_c12'] > 0.01] if k in run['files'] else []
                for q in ('avg_c_in_c_core', 'co_core_mass'):
                    c = 'S%d_%s_at_He_depletion' % (s, q)
                    if c in fv.dtype.names:
                        near(R, fv[c], x[0][q] if x else float('nan'),
                             tag + ": " + c)


def ref(idx=0, **kw):
    d = {'m1': 20.0, 'm2': 9.0, 'P': 7.0, 'z': 0.0142, 'rows': CLEAN,
         'files': ('bh', 'h1', 'h2', 'p1', 'p2', 'grid')}
    d.update(kw)
    return d


def run_files(case, R):
    runs = [ref(files=tuple(case['files']), gz=case['gz']),
            ref(m1=31.0, P=2.0)]
    if case['single']:
        runs[1]['files'] = ('h1', 'p1')
    for miss in ((False, True) if case['single'] else (False,)):
        kw = {'accept_missing_profile': miss} if case['single'] else {}
        g, _ = make(R, runs, case['single'], **kw)
        R.step()
        verify(R, g, runs, case['single'], noprof=miss)


def run_rows(case, R):
    skip = SKIPS[case['skip']]
    rows = PATTERNS[case['p']]
    runs = [ref(m1=case['m1'], rows=rows, skip=skip),
            ref(m1=case['m1'] + 5, P=2.5, m2=3.0, files=('bh', 'h1', 'p1'),
                rows=rows, skip=skip, flag='min_timestep_limit'),
            ref(P=99.0)]
    if case['stop'] and any(reduced(r, stop=True)[1] is not None and
                            not reduced(r, stop=True)[1]['bh']
                            for r in runs):
        R.outcome('depleted from the start')    # no such MESA run
        return
    g, _ = make(R, runs, start_at_RLO=case['start'],
                stop_before_carbon_depletion=case['stop'])
    R.step()
    verify(R, g, runs, start=case['start'], stop=case['stop'])
    if not case['start'] and not case['stop']:
        for r in runs:
            r['files'] = ('h1', 'p1')
        g, _ = make(R, runs, True, path=fresh(R) + '/single')
        verify(R, g, runs, True)


def run_ds(case, R):
    """Downsampling of whole grids: ends kept, removed rows predictable."""
    single = case['single']
    rows = PATTERNS[case['p']]
    runs = [ref(rows=rows)]
    if single:
        runs[0]['files'] = ('h1', 'p1')
    kw = {}
    if case['ds'] is not None:
        kw = {'history_DS_error': case['ds'], 'profile_DS_error': case['ds']}
    g, _ = make(R, runs, single, **kw)
    _, tab, _ = reduced(runs[0], single)
    v = g[0]
    R.step()
    kept = None
    dep, ind = [], None
    for k, name in (('bh', 'binary_history'), ('h1', 'history1'),
                    ('h2', 'history2')):
        if tab[k] is None:
            R.check(v[name] is None, "table " + name)
            continue
        a = v[name]
        full = tab[k]
        pos = []
        for row in a:
            m = [i for i, r in enumerate(full) if all(
                abs(float(row[c]) - r[c]) < 1e-9 for c in a.dtype.names)]
            R.must(len(m) == 1, "row not found")
            pos.append(m[0])
        R.check(pos == sorted(set(pos)), "order of rows")
        R.check(kept is None or kept == pos, "tables keep different rows")
        kept = pos
        ind = [r['age' if k == 'bh' else 'star_age'] for r in full] if \
            ind is None else ind
        dep += [[r[c] for r in full] for c in a.dtype.names if c not in (
            'model_number', 'age', 'star_age')]
    n = len(ind)
    if case['ds'] is None:
        R.check(kept == list(range(n)), "rows removed without downsampling")
    R.check(kept[0] == 0 and kept[-1] == n - 1, "ends removed")
    sc = []
    for c in dep:
        lo, hi = min(c), max(c)
        sc.append([(x - lo) / (hi - lo) if hi > lo else 0. for x in c])
    for a, b in zip(kept, kept[1:]):
        for i in range(a + 1, b):
            w = (ind[i] - ind[a]) / (ind[b] - ind[a])
            e = sum((c[i] - c[a] - w * (c[b] - c[a])) ** 2 for c in sc) ** .5
            R.check(e <= case['ds'] + 1e-9, "row %d removed with error %g" %
                    (i, e))
    near(R, g.final_values[0]['S1_log_R'], tab['h1'][-1]['log_R'], "final")
    R.outcome(tuple(kept), case['ds'])


def run_opt(case, R):
    runs = [ref(), ref(m1=15.0, rows=PATTERNS['back']),
            ref(m1=11.0, rows=PATTERNS['never'], files=('bh', 'h1', 'p1'))]
    kw, _ = columns(case['cols'])
    kw['compression'] = case['comp']
    g, out = make(R, runs, He_core_fix=case['fix'], slim=case['slim'],
                  description='some text', **kw)
    R.step()
    verify(R, g, runs, cols=case['cols'], fix=case['fix'], slim=case['slim'])
    R.eq(g.config['description'], 'some text', "description")
    R.eq(g.config['He_core_fix'], case['fix'], "option")
    for k, v in kw.items():
        R.eq(g.config[k], v, "option " + k)
    # the same file, opened lazily
    from posydon.grids.psygrid import PSyGrid
    h = PSyGrid()
    h.load(out, lazy=True)
    verify(R, h, runs, cols=case['cols'], fix=case['fix'], slim=case['slim'])
    R.check(g.__eq__(h, verbose=False), "grids from one file differ")
    for k in ('compression', 'history_DS_error'):
        R.eq(h.config[k], g.config[k], "option " + k)
    with R.raises(KeyError, "unknown option accepted"):
        PSyGrid().create(os.path.dirname(out), out, nosuchoption=1,
                         overwrite=True)
    with R.raises(FileExistsError, "grid file overwritten"):
        PSyGrid().create(os.path.dirname(out), out)


def run_rerun(case, R):
    """Runs with the same parameters: the last folder of the list counts."""
    from posydon.grids.psygrid import PSyGrid
    base = fresh(R)
    alt = [ref(rows=CLEAN[:3], idx=0), ref(rows=CLEAN, idx=4),
           ref(rows=PATTERNS['late'], idx=9)]
    for k, r in enumerate(alt):
        M.write(base + '/g%d' % k, r)
        M.write(base + '/g%d' % k, ref(m1=33.0 + k))
    g = PSyGrid()
    g.create([base + '/g%d' % k for k in case['order']], base + '/x.h5',
             warn='suppress')
    R.step()
    win = alt[case['order'][-1]]
    runs = [win] + [ref(m1=33.0 + k) for k in range(3)]
    verify(R, g, runs)
    with R.raises(ValueError, "grid without runs"):
        PSyGrid().create(base + '/none', base + '/y.h5')


def run_rlofix(case, R):
    """Runs below the known boundary of initial overflow belong to it."""
    known = []
    for k in range(case['known']):
        known.append(ref(m1=10.0 + k, m2=5.0, P=1.0 if k else 2.0, rows=[
            (1, 1., '1', 'A', 'A')], flag='Terminate because of overflowing '
            'initial model', files=('bh', 'h1', 'h2', 'grid')))
    x = ref(m1=10.1, m2=5.2, P=case['P'], rows=PATTERNS['late'],
            files=tuple(case['files']))
    y = ref(m1=26.0, m2=4.0, P=1.5, rows=PATTERNS['late'])
    z = ref(m1=26.0, m2=4.0, P=0.9, rows=PATTERNS['never'])
    runs = known + [x, y, z]
    g, _ = make(R, runs, initial_RLO_fix=True, start_at_RLO=case['start'])
    R.step()
    names = dirs(g)
    R.check(len(set(names)) == len(names), "a run is stored twice")
    fixes = case['known'] >= 20
    for r in runs:
        why, tab, _ = reduced(r, start=case['start'])
        n = M.name(r)
        tag = "run with m1=%g, m2=%g, P=%g (%s)" % (r['m1'], r['m2'], r['P'],
                                                   r['files'])
        if r in known:
            forced, want = False, True
        else:
            lim = 2.002 if r is x else 1.001
            # boundary of the nearest known system; unknown without the grid
            # point and binary history
            ok = 'grid' in r['files'] or (why is None)
            forced = fixes and ok and r['P'] < lim
            want = why is None or forced or why == 'ignored_no_RLO'
        R.must((n in names) == want, tag + ": stored %s" % (n in names))
        if not want:
            continue
        i = names.index(n)
        fv, iv = g.final_values[i], g.initial_values[i]
        f1 = str(fv['termination_flag_1'])
        if forced:
            R.eq((f1, str(fv['termination_flag_2']),
                  str(fv['interpolation_class'])), (
                'forced_initial_RLO', 'forced_initial_RLO', 'initial_MT'),
                tag + ": flags")
            if 'grid' in r['files']:
                for c, q in (('star_1_mass', 'm1'), ('star_2_mass', 'm2'),
                             ('period_days', 'P')):
                    near(R, iv[c], r[q], tag + ": " + c)
            R.eq(str(fv['termination_flag_3']), 'H-rich_Core_H_burning',
                 tag + ": flag 3")
        elif why is None:
            R.eq(f1, r.get('flag', 'max_age'), tag + ": flag 1")
        else:
            R.eq(f1, why, tag + ": flag 1")
        if why is None:
            table(R, g[i].binary_history, tab['bh'], M.BH, tag)
        else:
            R.check(g[i].binary_history is None, tag + ": data")
        R.outcome(f1, case['P'], why)


def run_view(case, R):
    """Access to a stored grid."""
    import numpy as np
    from posydon.grids.psygrid import PSyGrid
    runs = [ref(), ref(m1=15.0, rows=PATTERNS['back']), ref(m1=11.0)]
    g, out = make(R, runs)
    g.close()
    for rounds in range(3):
        g = PSyGrid()
        g.load(out, lazy=case['lazy'])
        seen = [r.index for r in g]
        R.check(seen == [0, 1, 2], "iteration: %s" % seen)
        pairs = [(r.index, s.index) for r in g for s in g]
        R.check(pairs == list(itertools.product(range(3), repeat=2)),
                "nested iteration: %s" % pairs)
        for k, ok in ((0, True), (2, True), (3, False), (-1, False)):
            R.eq(k in g, ok, "run %d in the grid" % k)
            if not ok:
                with R.raises(IndexError, "run %d" % k):
                    g[k]
        for c in ('binary_history', 'history1', 'final_profile2'):
            R.check(np.array_equal(getattr(g[1], c), g[1][c]), c)
        with R.raises(KeyError, "unknown table"):
            g[0]['nothing']
        df = g.get_pandas_initial_final()
        R.eq(len(df), 3, "data frame")
        R.check(df['final_S1_log_R'].tolist() == [float(x['S1_log_R'])
                for x in (g.final_values[i] for i in range(3))], "final")
        R.check(df['initial_period_days'].tolist() == [
            float(g.initial_values[i]['period_days']) for i in range(3)],
            "initial")
        # a new column, and a replaced one
        before = {c: [str(g.final_values[i][c]) for i in range(3)]
                  for c in g.final_values.dtype.names}
        g.add_column('new', [1.0 + rounds, 2.0, 3.0])
        g.add_column('S1_new_state', np.array(['a', 'bb', 'ccc']))
        g.add_column('new2', np.array([1, 2, 3]))
        with R.raises(Exception, "column replaced"):
            g.add_column('new', [0., 0., 0.], overwrite=False)
        with R.raises(ValueError, "column of wrong length"):
            g.add_column('short', [0., 0.])
        R.step()
        for obj in (g, PSyGrid(out)):
            R.check([float(obj.final_values[i]['new']) for i in range(3)] ==
                    [1.0 + rounds, 2.0, 3.0], "new column")
            R.check([str(obj.final_values[i]['S1_new_state'])
                     for i in range(3)] == ['a', 'bb', 'ccc'], "new text")
            for c in before:
                if c not in ('new', 'new2', 'S1_new_state'):
                    R.check([str(obj.final_values[i][c]) for i in range(3)]
                            == before[c], "column %s changed: %s" % (
                                c, before[c]))
            R.check(float(obj.initial_values[1]['period_days']) > 0,
                    "initial values after a new column")
            R.check(len(obj[2].history1) > 0, "tables after a new column")
            obj.close()
        h, k = PSyGrid(out), PSyGrid(out)
        R.check(h.__eq__(k, verbose=False), "equality")
        h.close()
        k.close()
        R.outcome(rounds)
    # grids with other content are not equal
    base = fresh(R)
    for k, other in enumerate((
            [ref(), ref(m1=15.0, rows=PATTERNS['back'])],
            [ref(), ref(m1=15.0), ref(m1=11.0)],
            [ref(flag='other'), ref(m1=15.0, rows=PATTERNS['back']),
             ref(m1=11.0)],
            [ref(files=('bh', 'h1', 'h2', 'p1')), ref(m1=15.0, rows=PATTERNS[
                'back']), ref(m1=11.0)],
            [ref(), ref(m1=15.0, rows=PATTERNS['back']), ref(m1=11.0)],
            # a row less in the middle
            [ref(skip={'bh': [1]}), ref(m1=15.0, rows=PATTERNS['back']),
             ref(m1=11.0)])):
        for r in other + runs:
            r['idx'] = 0
        # one run per folder keeps the order of the runs
        gs = []
        for n, rs in enumerate((runs, other)):
            for i, r in enumerate(rs):
                M.write(base + '/e%d/%d/%d' % (k, n, i), r)
            o = base + '/e%d/%d.h5' % (k, n)
            q = PSyGrid()
            q.create([base + '/e%d/%d/%d' % (k, n, i) for i in
                      range(len(rs))], o, warn='suppress')
            gs.append(q)
        R.eq(gs[0].__eq__(gs[1], verbose=False), k == 4,
             "equality of grid %d" % k)
    # a grid with missing values equals itself
    nan = float('nan')
    q = [ref(nan=True), ref(m1=15.0)]
    g, out = make(R, q)
    R.check(g[dirs(g).index(M.name(q[0]))].history1['log_R'][1] != 0 and any(
        x != x for r in g for x in r.history1['log_R']), "no missing value")
    h = PSyGrid(out)
    R.check(g.__eq__(h, verbose=False), "grid with missing values differs "
            "from itself")


def fresh(R):
    ROOT[1] += 1
    d = os.path.join(ROOT[0], 'dir%d' % ROOT[1])
    os.makedirs(d)
    return d


ROOT = [None, 0]


def execute(case, R):
    with R.tmp() as d:
        ROOT[:] = [str(d), 0]
        globals()['run_' + case['kind']](case, R)
