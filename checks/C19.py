"""C19: transient selection, GRB energies and detectability."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every ordered combination of systems (star that collapses first, "
        "remnant kinds, rows in between, disk masses) through the selection "
        "functions; every binary of a mass/spin/redshift grid through the "
        "detectability; every disk mass x efficiency x beaming x threshold "
        "through the GRB energies; distinct by result")
ASSUMPTIONS = ["reference: the rows of each system on its own",
               "detection grid: a small grid written by the check in the "
               "layout of the data release",
               "a star with a radiated disk mass becomes a black hole in a "
               "supernova step exactly once"]

# kind: list of (S1, S2, binary, event, step), disk masses
MS, HE, CO = 'H-rich_Core_H_burning', 'stripped_He_Core_He_burning', 'BH'
KINDS = {
    # star 1 collapses first, then star 2, merges
    'bbh12': ([(MS, MS, 'detached', 'ZAMS', 'initial_cond'),
               (HE, MS, 'detached', 'CC1', 'step_HMS_HMS'),
               ('BH', MS, 'detached', None, 'step_SN'),
               ('BH', HE, 'detached', 'CC2', 'step_detached'),
               ('BH', 'BH', 'detached', None, 'step_SN'),
               ('BH', 'BH', 'contact', 'CO_contact', 'step_dco'),
               ('BH', 'BH', 'contact', 'END', 'step_end')], 0.4, 0.0),
    'bbh21': ([(MS, MS, 'detached', 'ZAMS', 'initial_cond'),
               (MS, HE, 'detached', 'CC2', 'step_HMS_HMS'),
               (MS, 'BH', 'detached', None, 'step_SN'),
               (HE, 'BH', 'RLO1', 'oRLO1', 'step_detached'),
               (HE, 'BH', 'detached', 'redirect_from_CO_HeMS', 'step_CO_HeMS'),
               (HE, 'BH', 'detached', 'CC1', 'step_detached'),
               ('BH', 'BH', 'detached', None, 'step_SN'),
               ('BH', 'BH', 'detached', 'maxtime', 'step_dco'),
               ('BH', 'BH', 'detached', 'END', 'step_end')], 0.1, 0.2),
    'both': ([(MS, MS, 'detached', 'ZAMS', 'initial_cond'),
              (HE, MS, 'detached', 'CC1', 'step_HMS_HMS'),
              ('BH', MS, 'detached', None, 'step_SN'),
              ('BH', HE, 'detached', 'CC2', 'step_detached'),
              ('BH', 'BH', 'detached', None, 'step_SN'),
              ('BH', 'BH', 'detached', 'END', 'step_end')], 0.3, 0.7),
    # no black hole at the second position
    'ns': ([(MS, MS, 'detached', 'ZAMS', 'initial_cond'),
            (HE, MS, 'detached', 'CC1', 'step_HMS_HMS'),
            ('BH', MS, 'detached', None, 'step_SN'),
            ('BH', HE, 'detached', 'CC2', 'step_detached'),
            ('BH', 'NS', 'detached', None, 'step_SN'),
            ('BH', 'NS', 'contact', 'END', 'step_end')], 0.25, 0.0),
    # disrupted, no disk
    'dis': ([(MS, MS, 'detached', 'ZAMS', 'initial_cond'),
             (HE, MS, 'detached', 'CC1', 'step_HMS_HMS'),
             ('BH', MS, 'disrupted', None, 'step_SN'),
             ('BH', HE, 'disrupted', 'CC2', 'step_disrupted'),
             ('BH', 'BH', 'disrupted', None, 'step_SN'),
             ('BH', 'BH', 'disrupted', 'END', 'step_end')], 0.0, 0.05),
    # a neutron star that grows to a black hole by accretion
    'aic': ([(MS, MS, 'detached', 'ZAMS', 'initial_cond'),
             (HE, MS, 'detached', 'CC1', 'step_HMS_HMS'),
             ('NS', MS, 'detached', None, 'step_SN'),
             ('BH', MS, 'RLO2', 'oRLO2', 'step_CO_HMS_RLO'),
             ('BH', HE, 'detached', 'CC2', 'step_detached'),
             ('BH', 'BH', 'detached', None, 'step_SN'),
             ('BH', 'BH', 'detached', 'END', 'step_end')], 0.0, 0.6),
    'none': ([(MS, MS, 'detached', 'ZAMS', 'initial_cond'),
              (MS, MS, 'merged', 'END', 'step_end')], None, None),
}
INDEX = [[0, 1, 2], [7, 3, 12]]


def bounds(tier):
    return {"systems": 3, "kinds": len(KINDS), "index_orders": 2,
            "masses": 5, "spins": 3, "tilts": 4, "redshifts": 5,
            "quick": "all pairs, every second triple" if tier == "quick"
            else "all"}


def cases(tier):
    n = 0
    for r in (1, 2, 3):
        for ks in itertools.product(sorted(KINDS), repeat=r):
            for ix in range(2):
                n += 1
                if tier == "quick" and r == 3 and n % 2:
                    continue
                yield {'kind': 'sel', 'kinds': list(ks), 'ix': ix}
    for a in (0.0, 0.5, 1.0, None):
        for b in (0.0, 0.3, None):
            yield {'kind': 'spin', 'a': a, 'b': b}
    for q in (False, True):
        for ce in (False, True):
            for sens in ('O3actual_H1L1V1', 'design_H1L1V1'):
                for cols in (1, 3):
                    yield {'kind': 'pdet', 'q': q, 'ce': ce, 'sens': sens,
                           'cols': cols}
    for e in (0.0, 0.01, 0.5, 1.0):
        for bm in (0.05, 1.0, 'Pescalli+15', 'Goldstein+15'):
            for lim in (0., 1e51, 1e60):
                for pat in itertools.product((0.0, 0.02, None), repeat=2):
                    yield {'kind': 'grb', 'eff': e, 'beam': bm, 'lim': lim,
                           'disk': list(pat)}


def row(ix, kind, j):
    s1, s2, st, ev, step = KINDS[kind][0][j]
    b = 1.0 + 0.37 * ix + 0.011 * sorted(KINDS).index(kind)
    return {'S1_state': s1, 'S2_state': s2, 'state': st, 'event': ev,
            'step_names': step, 'time': 1e6 * (b + 3 * j),
            'S1_mass': 20 * b + 40.0 / (j + 1), 'S2_mass':
            35 * b - 0.4 * j, 'S1_spin': 0.01 * j * b, 'S2_spin':
            0.5 - 0.02 * j * b, 'orbital_period': 3.0 * b + j,
            'eccentricity': 0.05 * j + 0.001 * b}


def one(ix, kind):
    d1, d2 = KINDS[kind][1:]
    nan = float('nan')
    return {'metallicity': 0.1 + 0.01 * ix,
            'S1_m_disk_radiated': nan if d1 is None else d1,
            'S2_m_disk_radiated': nan if d2 is None else d2,
            'S1_spin_orbit_tilt_second_SN': 0.1 + 0.2 * ix if ix != 7 else nan,
            'S2_spin_orbit_tilt_second_SN': 2.0 - 0.1 * ix, 'other': 5.0 + ix}


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a is None or b is None:
        return (a is None or a != a) and (b is None or b != b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-12 + 1e-10 * abs(b)


def run_sel(case, R):
    import pandas as pd
    import posydon.popsyn.transient_select_funcs as T
    ids = INDEX[case['ix']][:len(case['kinds'])]
    sys_ = list(zip(ids, case['kinds']))
    h = pd.DataFrame([row(i, k, j) for i, k in sys_
                      for j in range(len(KINDS[k][0]))],
                     index=[i for i, k in sys_ for _ in KINDS[k][0]])
    o = pd.DataFrame([one(i, k) for i, k in sys_], index=ids)
    f = pd.DataFrame({'channel': ['ZAMS_oRLO1_CC1_x_CC2_END' if k[-2:] != '21'
                                  else 'ZAMS_CC2_y_CC1_END' for k in
                                  case['kinds']], 'debug': 'no'}, index=ids)
    for chan in (False, True):
        for S in ('S1', 'S2'):
            got = T.GRB_selection(h.copy(), o.copy(),
                                  f.copy() if chan else None, S1_S2=S)
            R.step()
            want = {}
            for i, k in sys_:
                n = 1 if S == 'S1' else 2
                if not (KINDS[k][n] or 0) > 0:
                    continue
                rows = [row(i, k, j) for j in range(len(KINDS[k][0]))]
                j = [j for j in range(1, len(rows)) if
                     rows[j][S + '_state'] == 'BH' and
                     rows[j - 1][S + '_state'] != 'BH'][0]
                w = {}
                for c in ('orbital_period', 'eccentricity', 'S1_spin',
                          'S2_spin', S + '_mass'):
                    w[c + '_preSN'] = rows[j - 1][c]
                    w[c + '_postSN'] = rows[j][c]
                w['S%d_mass' % (3 - n)] = rows[j]['S%d_mass' % (3 - n)]
                w['time'] = rows[j]['time'] * 1e-6
                w['metallicity'] = one(i, k)['metallicity']
                w[S + '_m_disk_radiated'] = KINDS[k][n]
                w['other'] = 5.0 + i
                if chan:
                    w['channel'] = f.loc[i, 'channel'].split(
                        '_CC%d' % n)[0] + '_CC%d' % n
                want[i] = w
            R.check(sorted(got.index) == sorted(want),
                    "GRB events of systems %s: %s instead of %s" % (
                        sys_, list(got.index), sorted(want)))
            for i in want:
                for c, v in want[i].items():
                    ok = c in got.columns and same(got.loc[i, c], v)
                    R.check(ok, "GRB of %s of system %d (%s): %s is %s "
                            "instead of %s" % (S, i, dict(sys_)[i], c,
                                               got.loc[i, c] if c in
                                               got.columns else 'missing', v))
            R.outcome('grb', S, len(want), str(got.to_dict()))
        got = T.BBH_selection_function(h.copy(), o.copy(),
                                       f.copy() if chan else None)
        R.step()
        R.check(sorted(got.index) == sorted(ids), "BBH table has systems %s"
                % list(got.index))
        for i, k in sys_:
            rows = [row(i, k, j) for j in range(len(KINDS[k][0]))]
            sel = [r for r in rows if r['S1_state'] == r['S2_state'] == 'BH'
                   and r['step_names'] == 'step_SN'
                   and r['state'] == 'detached']
            w = {'time': rows[-1]['time'] * 1e-6,
                 'metallicity': one(i, k)['metallicity'],
                 'S1_spin_orbit_tilt_at_merger': one(i, k)[
                     'S1_spin_orbit_tilt_second_SN'],
                 'S2_spin_orbit_tilt_at_merger': one(i, k)[
                     'S2_spin_orbit_tilt_second_SN']}
            nan = float('nan')
            r = sel[0] if sel else None
            for c in ('S1_state', 'S2_state', 'S1_mass', 'S2_mass', 'S1_spin',
                      'S2_spin', 'orbital_period', 'eccentricity'):
                w[c] = r[c] if r else nan
            w['t_inspiral'] = w['time'] - r['time'] * 1e-6 if r else nan
            if r:
                a, b = r['S1_mass'], r['S2_mass']
                t1 = w['S1_spin_orbit_tilt_at_merger']
                t1 = 0.0 if t1 != t1 else t1
                w['chirp_mass'] = (a * b) ** 0.6 / (a + b) ** 0.2
                w['mass_ratio'] = min(a, b) / max(a, b)
                w['chi_eff'] = (a * r['S1_spin'] * math.cos(t1) + b *
                                r['S2_spin'] * math.cos(
                                    w['S2_spin_orbit_tilt_at_merger'])) / (
                                        a + b)
            if chan:
                w['channel'] = f.loc[i, 'channel']
            for c, v in w.items():
                g = got.loc[i, c] if c in got.columns else 'missing'
                R.check(same(g, v), "BBH %d (%s): %s is %s instead of %s" % (
                    i, k, c, g, v))
        R.outcome('bbh', str(got.to_dict()))


def run_spin(case, R):
    import numpy as np
    import pandas as pd
    import posydon.popsyn.transient_select_funcs as T
    nan = float('nan')
    a = nan if case['a'] is None else case['a']
    b = nan if case['b'] is None else case['b']
    G = list(itertools.product((5.0, 20.0, 60.0), (5.0, 30.0),
                               (0.0, 1.0, math.pi / 2, 3.0, nan),
                               (0.0, 2.0, math.pi, nan)))
    m1, m2, t1, t2 = (np.array(x) for x in zip(*G))
    z = lambda x: 0.0 if x != x else x
    for wrap in (np.array, pd.Series):
        got = T.chi_eff(wrap(m1), wrap(m2), wrap([a] * len(G)),
                        wrap([b] * len(G)), wrap(t1), wrap(t2))
        q = T.mass_ratio(wrap(m1), wrap(m2))
        c = T.m_chirp(wrap(m1), wrap(m2))
        R.step(3)
        for k, (x, y, u, v) in enumerate(G):
            w = (x * z(a) * math.cos(z(u)) + y * z(b) * math.cos(z(v))) / (
                x + y)
            R.close(got[k], w, "effective spin of masses %g, %g, spins %s, %s,"
                    " tilts %s, %s" % (x, y, a, b, u, v), 1e-10, 1e-12)
            R.check(-1 <= got[k] <= 1, "effective spin beyond one")
            R.close(q[k], min(x, y) / max(x, y), "mass ratio of %g, %g" % (
                x, y), 1e-12)
            R.close(c[k], (x * y) ** 0.6 / (x + y) ** 0.2,
                    "chirp mass of %g, %g" % (x, y), 1e-12)
            R.outcome('s', round(w, 9))
    if a == a and b == b:
        for x, y, u, v in G:
            if u != u or v != v or y > x:
                continue
            q = y / x
            # a tilt may come with either sign
            for u1, v1 in ((u, v), (-u, v), (u, -v), (-u, -v)):
                w = max(abs(a * math.sin(u1)), abs(
                    q * (4 * q + 3) / (4 + 3 * q) * b * math.sin(v1)))
                R.close(T.effective_precession(u1, v1, a, b, x, y), w,
                        "effective precession of tilts %g, %g" % (u1, v1),
                        1e-9, 1e-12)
                R.step()


def pgrid(sens):
    import pandas as pd
    k = 0.9 if sens == 'O3actual_H1L1V1' else 1.0
    rows = []
    for m in (5.0, 20.0, 80.0):
        for q in (0.2, 0.6, 1.0):
            for z in (0.01, 0.1, 1.0):
                for c in (-0.9, 0.0, 0.9):
                    p = k * (m / 80) ** 0.5 * (0.5 + 0.5 * q) * (
                        0.9 + 0.1 * c) / (1 + 5 * z)
                    rows.append((m, q, z, c, p))
    return pd.DataFrame(rows, columns=['m1', 'q', 'z', 'chieff', 'pdet'])


def knn(grid, m, q, z, c):
    """Distance-weighted mean of the 10 nearest grid points."""
    def norm(v, col, log=False):
        g = [float(x) for x in grid[col]]
        lo, hi = min(g), max(g)
        if log:
            v, lo, hi = math.log10(v), math.log10(lo), math.log10(hi)
        return (v - lo) / (hi - lo)
    ds = []
    for r in grid.itertuples():
        d = math.sqrt((norm(m, 'm1', 1) - norm(r.m1, 'm1', 1)) ** 2 +
                      (norm(q, 'q') - norm(r.q, 'q')) ** 2 +
                      (norm(z, 'z', 1) - norm(r.z, 'z', 1)) ** 2 +
                      (norm(c, 'chieff') - norm(r.chieff, 'chieff')) ** 2)
        ds.append((d, r.pdet))
    ds.sort()
    if ds[9][0] * (1 + 1e-9) >= ds[10][0] and ds[9][1] != ds[10][1]:
        return None                    # tie at the border
    near = ds[:10]
    if near[0][0] < 1e-12:
        return near[0][1]
    w = [1 / d for d, _ in near]
    return sum(a * p for a, (_, p) in zip(w, near)) / sum(w)


def run_pdet(case, R):
    import numpy as np
    import pandas as pd
    import posydon.popsyn.transient_select_funcs as T
    nan = float('nan')
    G = list(itertools.product((6.1, 20.0, 71.0), (5.3, 20.0, 40.0),
                               (0.0, 0.7), (0.3, 1.1, 2.6)))
    zs = [0.013, 0.1, 0.77, nan]
    with R.tmp():
        for s in ('O3actual_H1L1V1', 'design_H1L1V1'):
            pgrid(s).to_hdf('g.h5', key=s)
        old = T.PATH_TO_PDET_GRID
        T.PATH_TO_PDET_GRID = 'g.h5'
        try:
            ix = [7 * k % 61 for k in range(len(G))]
            t = pd.DataFrame(G, columns=['S1_mass', 'S2_mass', 'S1_spin',
                                         'S1_spin_orbit_tilt_at_merger'],
                             index=ix)
            t['S2_spin'] = [0.1 + 0.01 * k for k in range(len(G))]
            t['S2_spin_orbit_tilt_at_merger'] = 0.2
            if case['q']:
                t['q'] = [min(a, b) / max(a, b) for a, b, _, _ in G]
            ce = [(a * s * math.cos(u) + b * (0.1 + 0.01 * k) * math.cos(0.2))
                  / (a + b) for k, (a, b, s, u) in enumerate(G)]
            if case['ce']:
                t['chi_eff'] = ce
            n = case['cols']
            Z = pd.DataFrame([[zs[(k + j) % 4] for j in range(n)]
                              for k in range(len(G))], index=ix)
            W = pd.DataFrame([[1.0 + 0.1 * k + j for j in range(n)]
                              for k in range(len(G))], index=ix)
            Z0, W0 = Z.copy(), W.copy()
            got = T.DCO_detectability(case['sens'], t, Z, W)
            R.step()
            R.check(W.equals(W0) and Z.equals(Z0),
                    "the given weights or redshifts were changed")
            R.check(list(got.index) == ix, "index of the detectable weights")
            grid = pgrid(case['sens'])
            for k, (a, b, s, u) in enumerate(G):
                for j in range(n):
                    g = got.iloc[k, j]
                    z = Z0.iloc[k, j]
                    if z != z:
                        continue
                    p = knn(grid, max(a, b), min(a, b) / max(a, b), z, ce[k])
                    if p is None:
                        continue
                    R.close(g, p * W0.iloc[k, j], "detectable weight of masses"
                            " %g, %g at z=%g" % (a, b, z), 1e-6, 1e-12)
                    R.outcome('p', round(p, 6))
            with R.raises(ValueError, "unknown sensitivity accepted"):
                T.DCO_detectability('nothing', t, Z, W)
        finally:
            T.PATH_TO_PDET_GRID = old


def run_grb(case, R):
    import numpy as np
    import pandas as pd
    from posydon.popsyn.GRB import get_GRB_properties
    nan = float('nan')
    d1, d2 = [nan if x is None else x for x in case['disk']]
    df = pd.DataFrame({'S1_m_disk_radiated': [d1, d2, 0.5],
                       'S2_m_disk_radiated': [d2, d1, 0.0]}, index=[3, 1, 9])
    raw = df.copy()
    np.random.seed(5)
    got = get_GRB_properties(df, case['eff'], case['beam'], case['lim'])
    R.step()
    Mc2 = 1.988409870698051e33 * 2.99792458e10 ** 2
    for i in (1, 2):
        for ix in raw.index:
            m = raw.loc[ix, 'S%d_m_disk_radiated' % i]
            r = got.loc[ix]
            if not m > 0:
                R.check(not r['GRB%d' % i], "GRB without a disk")
                R.check(r['S%d_E_GRB' % i] == 0 and r['S%d_E_GRB_iso' % i] ==
                        0 and r['S%d_L_GRB_iso' % i] == 0,
                        "energy without a disk")
                R.check(r['S%d_eta' % i] != r['S%d_eta' % i],
                        "efficiency without a disk")
                continue
            E = case['eff'] * m * Mc2
            R.close(r['S%d_E_GRB' % i], E, "GRB energy", 1e-3)
            f = r['S%d_f_beaming' % i]
            if isinstance(case['beam'], float):
                R.close(f, case['beam'], "beaming", 1e-12)
            elif case['beam'] == 'Pescalli+15':
                eta = case['eff']
                w = 7e46 / (eta * E / 25.) if E > 0 else 1.0
                R.close(f, w, "beaming of Pescalli+15", 1e-3)
            else:
                R.check(0 < f <= 2, "beaming factor %s" % f)
            R.close(r['S%d_E_GRB_iso' % i], E / f, "isotropic energy", 1e-3)
            R.close(r['S%d_L_GRB_iso' % i], E / f / 25, "luminosity", 1e-3)
            R.eq(bool(r['GRB%d' % i]), bool(r['S%d_E_GRB_iso' % i] >=
                                            case['lim']), "GRB flag")
    R.outcome('g', str(got.to_dict()))


def execute(case, R):
    {'sel': run_sel, 'spin': run_spin, 'pdet': run_pdet,
     'grb': run_grb}[case['kind']](case, R)
