"""C17: binaries and their tables (history, one-line, files)."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every combination of history length, index, kinds of stars, missing "
        "values, table selection, dropped columns and form of the table; "
        "every ragged shape of a failed binary; every subset of binaries "
        "read back from a file; distinct by shape of the table")
ASSUMPTIONS = ["a missing value (None) is stored as nan",
               "the profiles of the stars are not part of the tables"]

FORMS = ['frame', 'series', 'file']
STARS = ['MS', 'BH', 'massless_remnant', 'uneven']
MISS = ['none', 'odd', 'all']
SELS = ['all', 'only', 'ignore', 'nostars', 'extra']
DROPS = ['', 'separation', 'orbital_period', 'eccentricity', 'time',
         'V_sys_y', 'S1_spin', 'S2_state', 'event']


def bounds(tier):
    q = tier == 'quick'
    return {'rows': 3 if q else 5, 'indices': 3 if q else 4, 'ragged': 2 if q
            else 3, 'file_binaries': 3 if q else 4}


def cases(tier):
    b = bounds(tier)
    for n in range(1, b['rows'] + 1):
        for ix in range(b['indices']):
            for k1, k2 in itertools.product(STARS, repeat=2):
                if tier == 'quick' and (ix > 0 or n == 2) and k1 != k2:
                    continue
                for miss in MISS:
                    yield {'kind': 'table', 'n': n, 'ix': ix, 'k1': k1,
                           'k2': k2, 'miss': miss}
    for k1, k2 in (('MS', 'BH'), ('uneven', 'MS')):
        yield {'kind': 'table', 'n': 60, 'ix': 0, 'k1': k1, 'k2': k2,
               'miss': 'odd'}
    for k1, k2 in itertools.product(STARS, repeat=2):
        yield {'kind': 'null', 'k1': k1, 'k2': k2}
    for m in range(16):
        yield {'kind': 'kicks', 'm': m}
    for n in (1, 2):
        for d in itertools.product(range(b['ragged'] + 1), repeat=3):
            yield {'kind': 'ragged', 'n': n, 'd': list(d)}
    for m in range(1, b['file_binaries'] + 1):
        for lens in itertools.product((1, 2, 3), repeat=m):
            yield {'kind': 'file', 'lens': list(lens)}


INDEX = [0, 7, None, 123456789]


def _nan(v):
    if v is None or str(v) in ('<NA>', 'NaN', 'nan'):
        return True
    return isinstance(v, float) and v != v


def same(a, b):
    """Equality of two stored values, with None, NaN and NA the same."""
    if _is_vec(a) or _is_vec(b):
        if not (_is_vec(a) and _is_vec(b)) or len(a) != len(b):
            # a vector nobody knows may have been stored as one nan
            va = list(a) if _is_vec(a) else [a]
            vb = list(b) if _is_vec(b) else [b]
            return all(_nan(x) for x in va) and all(_nan(x) for x in vb)
        return all(same(x, y) for x, y in zip(a, b))
    if _nan(a) or _nan(b):
        return bool(_nan(a) and _nan(b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return math.isclose(float(a), float(b), rel_tol=1e-12)


def _is_vec(v):
    return isinstance(v, (list, tuple)) or getattr(v, 'ndim', 0) == 1


def make(n, index, k1='MS', k2='MS', miss='none', scal=True):
    import numpy as np
    from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
    from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
    from posydon.popsyn.io import STARPROPERTIES_DTYPES
    stars = [SingleStar(mass=10.0, state='H-rich_Core_H_burning',
                        metallicity=0.1),
             SingleStar(mass=8.0, state='H-rich_Core_H_burning',
                        metallicity=0.1)]
    b = BinaryStar(stars[0], stars[1], index=index, time=0.0,
                   state='detached', event='ZAMS', orbital_period=10.0,
                   eccentricity=0.1)

    def gone(j, i):
        return miss == 'all' or (miss == 'odd' and (i + j) % 2)

    for i in range(n):
        for j, p in enumerate(BINARYPROPERTIES):
            if p in ('state', 'event', 'mass_transfer_case'):
                v = '%s_%d' % (p[:4], i)
            elif p == 'V_sys':
                v = np.array([1.0 + i, -2.0 * i, 0.5 * i * i])
                if i == 2:
                    v = list(v)
            elif p == 'nearest_neighbour_distance':
                v = ['NaN'] * 3 if i == 1 else [0.1 * (i + 1), 0.25, i / 7.0]
            elif p == 'time':
                v = 1e5 * i
            elif p in ('separation', 'orbital_period', 'eccentricity'):
                v = {'s': 50.0, 'o': 10.0, 'e': 0.05}[p[0]] * (1 + 0.1 * i)
            else:
                v = None if gone(j, i) else j + 0.125 * i
            setattr(b, p, v)
        for s, star, kind in ((1, b.star_1, k1), (2, b.star_2, k2)):
            for j, p in enumerate(STARPROPERTIES):
                if p == 'state':
                    v = {'MS': 'H-rich_Core_H_burning', 'BH': 'BH',
                         'massless_remnant': 'massless_remnant',
                         'uneven': ('H-rich_Core_H_burning', 'BH')[i % 2]}[
                             kind]
                elif p == 'mass':
                    v = (None if kind == 'massless_remnant' else
                         10.0 - s - (0.5 if n < 9 else 0.05) * i)
                elif p == 'metallicity':
                    v = 0.1
                elif p == 'profile':
                    v = None
                else:
                    v = (None if gone(j, i) or (kind != 'MS' and j % 3 == 0)
                         else 100 * s + j + 0.0625 * i)
                setattr(star, p, v)
        if i == 0:
            for o, props in ((b, BINARYPROPERTIES), (b.star_1,
                             STARPROPERTIES), (b.star_2, STARPROPERTIES)):
                for p in props:
                    setattr(o, p + '_history', [getattr(o, p)])
        else:
            b.append_state()
    b.step_names = ['step_%d' % i for i in range(n)]
    b.step_times = [1.0 + i for i in range(n)]
    b.some_info = ['info_%d' % i for i in range(n)]
    if scal:
        b.mt_history_HMS_HMS = 'Stable from star 1'
        b.interp_class_HMS_HMS = 'stable_MT'
        b.star_1.natal_kick_velocity = 123.5
        b.star_1.SN_type = 'CCSN'
        b.star_1.f_fb = 0.25
        b.star_2.natal_kick_velocity = None
        b.star_2.SN_type = None
        b.star_2.f_fb = None
    return b


SC = ['natal_kick_velocity', 'SN_type', 'f_fb']
BSC = ['mt_history_HMS_HMS', 'interp_class_HMS_HMS', 'no_such_attribute']
EXTRA = {'step_names': 'string', 'step_times': 'float64',
         'some_info': 'string'}


def histories(b):
    from posydon.binary_evol.binarystar import BINARYPROPERTIES
    from posydon.binary_evol.singlestar import STARPROPERTIES
    out = {}
    for p in BINARYPROPERTIES:
        out[p] = list(getattr(b, p + '_history'))
    for k, s in (('S1_', b.star_1), ('S2_', b.star_2)):
        for p in STARPROPERTIES:
            if p != 'profile':
                out[k + p] = list(getattr(s, p + '_history'))
    return out


def current(b):
    from posydon.binary_evol.binarystar import BINARYPROPERTIES
    from posydon.binary_evol.singlestar import STARPROPERTIES
    out = {p: getattr(b, p) for p in BINARYPROPERTIES}
    for k, s in (('S1_', b.star_1), ('S2_', b.star_2)):
        for p in STARPROPERTIES:
            if p != 'profile':
                out[k + p] = getattr(s, p)
    return out


VEC = {'V_sys': 'V_sys', 'nearest_neighbour_distance': 'NN_dist'}


def expected_table(h):
    """The columns of the table, from the histories."""
    out = {}
    for p, vals in h.items():
        if p in VEC:
            for c, x in enumerate('xyz'):
                out[VEC[p] + '_' + x] = [v[c] if _is_vec(v) else None
                                         for v in vals]
        else:
            out[p] = vals
    return out


def diff_cols(df, want):
    if set(df.columns) != set(want):
        return 'columns: missing %s, unexpected %s' % (
            sorted(set(want) - set(df.columns))[:4],
            sorted(set(df.columns) - set(want))[:4])
    for c, vals in want.items():
        got = list(df[c])
        if len(got) != len(vals):
            return '%s has %d rows instead of %d' % (c, len(got), len(vals))
        for i, (g, w) in enumerate(zip(got, vals)):
            if not same(g, w):
                return '%s row %d is %r instead of %r' % (c, i, g, w)
    return None


def diff_dict(got, want):
    for c, w in want.items():
        g = got[c]
        if isinstance(w, list) and not (c in VEC and not _is_vec(w[0])):
            if len(g) != len(w):
                return '%s has %d entries instead of %d' % (c, len(g), len(w))
            for i, (x, y) in enumerate(zip(g, w)):
                if not same(x, y):
                    return '%s[%d] is %r instead of %r' % (c, i, x, y)
        elif not same(g, w):
            return '%s is %r instead of %r' % (c, g, w)
    return None


def separation(P, m1, m2):
    G, Ms, Rs = 6.67428e-8, 1.9892e33, 6.9598e10
    return (G * (m1 + m2) * Ms * (P * 86400.0) ** 2 /
            (4 * math.pi ** 2)) ** (1 / 3.) / Rs


def lengths_ok(b, n):
    return [p for p, v in histories(b).items() if len(v) != n]


def table(case, R):
    import copy

    import numpy as np
    import pandas as pd
    from posydon.binary_evol.binarystar import BinaryStar
    n, index = case['n'], INDEX[case['ix']]
    for miss in [case['miss']]:
        tag = '%d rows, index %r, %s+%s, missing %s' % (
            n, index, case['k1'], case['k2'], miss)
        b = make(n, index, case['k1'], case['k2'], miss)
        before = copy.deepcopy((histories(b), current(b)))
        h = histories(b)
        want = expected_table(h)
        for sel in SELS:
            kw, cols = {}, dict(want)
            if sel == 'only':
                kw = {'only_select_columns': ['state', 'time', 'V_sys'],
                      'S1_kwargs': {'only_select_columns': ['mass',
                                                            'state']},
                      'S2_kwargs': {'only_select_columns': ['log_R']}}
                cols = {c: v for c, v in want.items() if c in (
                    'state', 'time', 'V_sys_x', 'V_sys_y', 'V_sys_z',
                    'S1_mass', 'S1_state', 'S2_log_R')}
            elif sel == 'ignore':
                kw = {'ignore_columns': ['event', 'V_sys_history'],
                      'S1_kwargs': {'ignore_columns': ['spin_history']},
                      'S2_kwargs': {'ignore_columns': ['mass']}}
                cols = {c: v for c, v in want.items() if c not in (
                    'event', 'V_sys_x', 'V_sys_y', 'V_sys_z', 'S1_spin',
                    'S2_mass')}
            elif sel == 'nostars':
                kw = {'include_S1': case['ix'] == 0, 'include_S2': False}
                cols = {c: v for c, v in want.items()
                        if c[:3] not in ('S1_', 'S2_') or
                        (c[:3] == 'S1_' and case['ix'] == 0)}
            elif sel == 'extra':
                kw = {'extra_columns': EXTRA}
                cols.update({k: list(getattr(b, k)) for k in EXTRA})
            df = b.to_df(**kw)
            R.step(len(df.columns))
            R.state(sel, miss, n, len(df.columns), case['k1'])
            d = diff_cols(df, cols)
            R.check(d is None, '%s, table "%s": %s' % (tag, sel, d))
            R.check(list(df.index) == [index] * n or (
                index is None and len(df) == n),
                '%s, table "%s": index is %r' % (tag, sel, list(df.index)))
            R.check(df.index.name == 'binary_index', tag + ': index name')
            for c in df.columns:
                vals = cols.get(c, [])
                if any(isinstance(v, str) and v != 'NaN' for v in vals):
                    continue
                R.check(df[c].dtype == np.float64,
                        '%s: type of column %s is %s' % (tag, c, df[c].dtype))
            # one line
            for fl in (0, 1, 2, 3) if sel == 'all' else (0,):
                bb = copy.deepcopy(b)
                if fl & 1:
                    bb.traceback = 'x'
                if fl & 2:
                    bb.warnings = True
                k2 = dict(kw)
                k2['S1_kwargs'] = dict(kw.get('S1_kwargs', {}),
                                       scalar_names=SC)
                k2['S2_kwargs'] = dict(kw.get('S2_kwargs', {}),
                                       scalar_names=SC)
                if sel == 'nostars':
                    # one of the stars must have no arguments to be left out
                    k2 = dict(kw)
                ol = bb.to_oneline_df(scalar_names=BSC, **k2)
                R.step()
                w = {}
                for c, v in cols.items():
                    w[c + '_i'], w[c + '_f'] = [v[0]], [v[-1]]
                if sel != 'nostars':
                    for s, o in (('S1_', b.star_1), ('S2_', b.star_2)):
                        for p in SC:
                            w[s + p] = [getattr(o, p)]
                for p in BSC[:2]:
                    w[p] = [getattr(b, p)]
                w['FAILED'], w['WARNING'] = [fl & 1], [fl >> 1]
                d = diff_cols(ol, w)
                R.check(d is None, '%s, one line "%s": %s' % (tag, sel, d))
                R.check(index is None or list(ol.index) == [index],
                        '%s: one-line index %r' % (tag, list(ol.index)))
                if sel in ('all', 'extra'):
                    back_line(bb, ol, sel, fl, index, R, tag)
                else:
                    break
            d = diff_dict(histories(b), before[0]) or \
                diff_dict(current(b), before[1])
            R.check(d is None, '%s: making a table changed the binary: %s' %
                    (tag, d))
            # and back
            if sel not in ('all', 'extra'):
                continue
            for drop in DROPS:
                part = df.drop(columns=drop) if drop else df
                for form in ('frame', 'series'):
                    if form == 'series' and n > 1:
                        continue
                    for ov in (None, 0, 5) if drop == '' else (None,):
                        src = part.iloc[0] if form == 'series' else part
                        args = {} if ov is None else {'index': ov}
                        if sel == 'extra':
                            args['extra_columns'] = EXTRA
                        b2 = BinaryStar.from_df(src, **args)
                        R.step()
                        back(b, b2, h, n, drop, sel, ov,
                             index if form == 'frame' else None, R,
                             '%s, %s without "%s" (%s), index=%r' % (
                                 tag, form, drop, sel, ov))
                        if drop == '' and ov is None and form == 'frame':
                            again = b2.to_df(**kw)
                            d = diff_cols(again, cols)
                            R.check(d is None, '%s: second table: %s' % (tag,
                                                                         d))
                            for i in range(0, n, 1 if n < 9 else 13):
                                b3, b4 = copy.deepcopy(b2), copy.deepcopy(b)
                                b3.restore(i)
                                b4.restore(i)
                                d = diff_dict(current(b3), current(b4)) or \
                                    diff_dict(histories(b3), histories(b4))
                                R.check(d is None, '%s: restored to %d: %s' %
                                        (tag, i, d))


def back(b, b2, h, n, drop, sel, ov, index, R, tag):
    from posydon.utils.common_functions import orbital_period_from_separation
    want = dict(h)
    if drop == 'separation':
        want['separation'] = [
            separation(P, m1, m2) if not (_nan(m1) or _nan(m2)) else None
            for P, m1, m2 in zip(h['orbital_period'], h['S1_mass'],
                                 h['S2_mass'])]
    elif drop == 'orbital_period':
        want['orbital_period'] = [
            None if _nan(m1) or _nan(m2) else
            orbital_period_from_separation(a, m1, m2) for a, m1, m2 in
            zip(h['separation'], h['S1_mass'], h['S2_mass'])]
    elif drop == 'eccentricity':
        want['eccentricity'] = [0.0] * n
    elif drop == 'V_sys_y':
        del want['V_sys']
    elif drop:
        del want[drop]
    got = histories(b2)
    for p in ('separation', 'orbital_period'):
        if p == drop:
            for g, w in zip(got[p], want[p]):
                R.check(_nan(g) and _nan(w) or (not _nan(g) and not _nan(w)
                        and abs(g / w - 1) < 1e-6),
                        '%s: %s is %r, not %r' % (tag, p, g, w))
            want.pop(p)
    d = diff_dict(got, want)
    R.check(d is None, '%s: %s' % (tag, d))
    d = diff_dict(current(b2), {p: v[-1] for p, v in want.items()})
    R.check(d is None, '%s: current value of %s' % (tag, d))
    bad = lengths_ok(b2, n)
    R.check(not bad, '%s: histories of other length: %s' % (tag, bad[:3]))
    want_ix = index if ov is None else ov
    R.check(b2.index == want_ix or (index is None and ov is None),
            '%s: index is %r' % (tag, b2.index))
    if sel == 'extra':
        for k in EXTRA:
            R.check(list(getattr(b2, k)) == list(getattr(b, k)),
                    '%s: extra column %s is %r' % (tag, k, getattr(b2, k)))


def back_line(b, ol, sel, fl, index, R, tag):
    from posydon.binary_evol.binarystar import BinaryStar
    kw = {'extra_columns': EXTRA} if sel == 'extra' else {}
    for form in ('frame', 'series'):
        src = ol if form == 'frame' else ol.iloc[0]
        b2 = BinaryStar.from_oneline_df(src, **kw)
        R.step()
        w = {p: v[0] for p, v in histories(b).items()}
        t = '%s, from one line (%s)' % (tag, form)
        d = diff_dict(histories(b2), {p: [v] for p, v in w.items()})
        R.check(d is None, '%s: %s' % (t, d))
        if fl & 1:
            w['event'] = 'FAILED'
        d = diff_dict(current(b2), w)
        R.check(d is None, '%s: current value of %s' % (t, d))
        for s, o in (('star_1', b.star_1), ('star_2', b.star_2)):
            for p in SC:
                R.check(same(getattr(getattr(b2, s), p), getattr(o, p)),
                        '%s: %s of %s is %r' % (t, p, s,
                                                getattr(getattr(b2, s), p)))
        for p in BSC[:2]:
            R.check(same(getattr(b2, p), getattr(b, p)),
                    '%s: %s is %r instead of %r' % (t, p, getattr(b2, p),
                                                    getattr(b, p)))
        if form == 'frame' and index is not None:
            R.check(b2.index == index, '%s: index %r' % (t, b2.index))
        if sel == 'extra':
            for k in EXTRA:
                R.check(list(getattr(b2, k)) == getattr(b, k)[:1],
                        '%s: extra %s is %r' % (t, k, getattr(b2, k)))


def ragged(case, R):
    """A binary that died while its rows were being recorded."""
    import copy

    import pandas as pd
    from posydon.binary_evol.binarystar import BINARYPROPERTIES
    from posydon.binary_evol.singlestar import STARPROPERTIES
    n, d = case['n'], case['d']
    for part in ('whole', 'some', 'last'):
        b = make(n, 4)
        for k, (o, props) in enumerate(((b, BINARYPROPERTIES),
                                        (b.star_1, STARPROPERTIES),
                                        (b.star_2, STARPROPERTIES))):
            for j, p in enumerate(props):
                if part == 'some' and j % 2 or \
                        part == 'last' and j < len(props) - 2:
                    continue
                hist = getattr(o, p + '_history')
                hist.extend([hist[-1]] * d[k])
        before = copy.deepcopy(histories(b))
        tag = '%d rows, then %s more of the binary and stars (%s)' % (n, d,
                                                                     part)
        df = b.to_df()
        ol = b.to_oneline_df()
        R.step(2)
        rows = n + max(d)
        R.state('ragged', part, rows, tuple(d))
        R.check(len(df) == rows, '%s: %d rows in the table' % (tag, len(df)))
        R.check(list(df.index) == [4] * len(df),
                '%s: index %r' % (tag, list(df.index)))
        want = {c: v + [None] * (rows - len(v))
                for c, v in expected_table(before).items()}
        dd = diff_cols(df, want)
        R.check(dd is None, '%s: %s' % (tag, dd))
        dd = diff_dict(histories(b), before)
        R.check(dd is None, '%s: the table changed the binary: %s' % (tag,
                                                                      dd))
        R.check(list(ol.index) == [4], tag + ': one-line index')
        # it can be stored next to others, before and after
        other = make(2, 9).to_df()
        for order in ((df, other), (other, df)):
            with R.tmp() as tmp:
                fn = tmp + '/t.h5'
                size = {'state': 20, 'event': 20, 'mass_transfer_case': 20,
                        'S1_state': 31, 'S2_state': 31}
                with pd.HDFStore(fn, 'w') as st:
                    st.append('history', pd.concat(order), min_itemsize=size)
                with pd.HDFStore(fn, 'r') as st:
                    h = st.select('history', where='index==4')
                    R.step()
                    R.check(len(h) == rows, '%s: %d of %d rows can be read '
                            'back from a file' % (tag, len(h), rows))


def null(case, R):
    """Missing values replaced by a value of the user."""
    for n in (1, 3):
        for miss in MISS:
            for null_value in (-99.0, 0.0):
                b = make(n, 3, case['k1'], case['k2'], miss)
                df = b.to_df(null_value=null_value)
                R.step()
                want = {c: [null_value if v is None else v for v in vals]
                        for c, vals in expected_table(histories(b)).items()}
                d = diff_cols(df, want)
                R.check(d is None, '%d rows, %s+%s, missing %s as %r: %s' % (
                    n, case['k1'], case['k2'], miss, null_value, d))
                R.state('null', case['k1'], case['k2'], n, miss)


KICK = ['natal_kick_velocity', 'natal_kick_azimuthal_angle',
        'natal_kick_polar_angle', 'natal_kick_mean_anomaly']


def kicks(case, R):
    """Tables in the format of older versions."""
    from posydon.binary_evol.binarystar import BinaryStar
    m = case['m']
    for stars in ((1,), (2,), (1, 2)):
        for form in ('frame', 'series'):
            b = make(2, 5)
            ol = b.to_oneline_df()
            vals = {}
            for s in stars:
                for i in range(4):
                    v = None if m >> i & 1 else 10.0 * s + i + 0.5
                    vals[s, i] = v
                    ol['S%d_natal_kick_array_%d' % (s, i)] = (
                        float('nan') if v is None else v)
            src = ol if form == 'frame' else ol.iloc[0]
            b2 = BinaryStar.from_oneline_df(src)
            R.step()
            R.state('kicks', stars, form, m)
            for (s, i), v in vals.items():
                g = getattr(b2.star_1 if s == 1 else b2.star_2, KICK[i])
                g = g[0] if _is_vec(g) else g
                R.check(same(g, v), 'old table (%s), kicks %r: %s of star %d '
                        'is %r' % (form, vals, KICK[i], s, g))


def file_(case, R):
    import copy

    from mc.popstub import make_pop
    lens = case['lens']
    m = len(lens)
    kw = dict(extra_columns=EXTRA, scalar_names=BSC[:2],
              S1_kwargs={'scalar_names': SC}, S2_kwargs={'scalar_names': SC})
    if case['lens'][0] == 2:
        kw.pop('scalar_names')
        kw['S1_kwargs'] = kw['S2_kwargs'] = {}
    ids = [0, 3, 7, 11][:m]
    bins = []
    for i, n in zip(ids, lens):
        b = make(n, i, 'MS', STARS[i % 4], MISS[i % 3])
        b.time_history = [t + 10.0 * i for t in b.time_history]
        b.time = b.time_history[-1]
        bins.append(b)
    if m > 1:
        bins[1].traceback = 'died'
    with R.tmp() as tmp:
        pop = make_pop({}, m, select=False, **kw)
        for b in bins:
            pop.manager.append(b)
        fn = tmp + '/pop.h5'
        pop.manager.save(fn, mode='w', **pop.kwargs)
        for r in range(1, m + 1):
            for sub in itertools.combinations(range(m), r):
                for restore in (False, True):
                    from posydon.popsyn.binarypopulation import \
                        PopulationManager
                    man = PopulationManager(file_name=fn, **pop.kwargs)
                    sel = [ids[i] for i in sub]
                    got = man.from_hdf(sel if len(sel) > 1 else sel[0],
                                       restore=restore)
                    R.step()
                    R.state('file', m, r, restore)
                    t = 'binaries %r of %r, restore=%r' % (sel, ids, restore)
                    if not R.check([b.index for b in got] == sel,
                                   '%s: got %r' % (t, [b.index for b in
                                                       got])):
                        continue
                    R.check([b.index for b in man.binaries] == sel,
                            t + ': binaries held by the manager')
                    for i, g in zip(sub, got):
                        b = copy.deepcopy(bins[i])
                        if restore:
                            b.restore(0)
                        d = diff_dict(histories(g), histories(b))
                        R.check(d is None, '%s: binary %d: %s' % (t, ids[i],
                                                                  d))
                        w = current(b)
                        if hasattr(b, 'traceback') and not restore:
                            w['event'] = 'FAILED'
                        d = diff_dict(current(g), w)
                        R.check(d is None, '%s: binary %d: current %s' % (
                            t, ids[i], d))
                        if 'scalar_names' in kw:
                            for p in BSC[:2]:
                                R.check(same(getattr(g, p), getattr(b, p)),
                                        '%s: %s is %r' % (t, p,
                                                          getattr(g, p)))
                            for s in ('star_1', 'star_2'):
                                for p in SC:
                                    x = getattr(getattr(g, s), p)
                                    R.check(same(x, getattr(getattr(b, s),
                                                            p)),
                                            '%s: %s of %s is %r' % (t, p, s,
                                                                    x))
                        if not restore:
                            for k in EXTRA:
                                R.check(list(getattr(g, k)) ==
                                        list(getattr(bins[i], k)),
                                        '%s: extra column %s: %r' % (
                                            t, k, getattr(g, k)))


def execute(case, R):
    import warnings
    warnings.simplefilter('ignore')
    {'table': table, 'ragged': ragged, 'file': file_, 'null': null,
     'kicks': kicks}[case['kind']](case, R)
