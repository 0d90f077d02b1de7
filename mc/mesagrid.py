"""Synthetic PSyGrid files with closed-form binary tracks."""
import json
import os
import zlib

import numpy as np

SH = {  # surface_h1, center_h1, center_he4, center_c12, log_LH, log_LHe, Lnuc
    'H-rich_Core_H_burning': (.7, .6, .38, .001, 3., -20., 3.),
    'H-rich_non_burning': (.7, .6, .38, .001, -20., -20., -19.),
    'H-rich_Shell_H_burning': (.7, .0, .98, .002, 4., -20., 4.),
    'H-rich_Core_He_burning': (.6, .0, .5, .2, 4., 4., 4.3),
    'H-rich_Core_He_depleted': (.6, .0, .0, .4, 4., 4., 4.3),
    'H-rich_Core_C_depleted': (.6, .0, .0, .0, 4., 4., 4.3),
    'stripped_He_Core_He_burning': (.001, .0, .6, .2, -20., 4., 4.),
    'stripped_He_Core_He_depleted': (.001, .0, .0, .4, -20., 4., 4.),
    'stripped_He_Core_C_depleted': (.001, .0, .0, .0, -20., 4., 4.),
    'stripped_He_non_burning': (.001, .0, .98, .01, -20., -20., -19.),
}
A, N, B, HE, D, C = list(SH)[:6]
X, XD, XC, XN = list(SH)[6:]
# rows: (star 1, star 2, overflow 1, overflow 2, log rate); class of the run
RUNS = {
    'single': ([(A, A), (A, A), (A, A), (B, A), (HE, A), (D, A), (C, A)],
               'no_MT'),
    'stableB': ([(A, A), (A, A), (B, A, .02, -.4, -4.), (B, A, .05, -.3, -3.),
                 (HE, A, .01, -.3, -6.), (HE, A), (C, A)], 'stable_MT'),
    'CE1': ([(A, A), (A, A, -.1, -.7), (B, A), (B, A, .1, -.2, -2.),
             (B, A, .3, -.1, -1.)], 'unstable_MT'),
    'CE1rate': ([(A, A), (A, A, -.1, -.7), (HE, A, -.01, -.2, -2.)],
                'unstable_MT'),
    'double1': ([(A, A), (A, A), (HE, B, .1, -.1, -3.),
                 (HE, B, .4, .2, -1.)], 'unstable_MT'),
    'double2': ([(A, A), (A, A), (HE, B, -.1, .1, -3.),
                 (HE, B, .2, .4, -1.)], 'unstable_MT'),
    'contactCE1': ([(A, A), (A, A), (B, A, .1, -.1, -3.),
                    (B, A, .4, .2, -1.)], 'unstable_MT'),
    'contact': ([(A, A), (A, A, .1, .05, -5.), (A, A, .2, .1, -5.),
                 (A, A, .3, .2, -5.)], 'stable_MT'),
    'CE2': ([(A, A), (A, B), (A, B, -.3, .1, -2.), (A, B, -.2, .3, -1.)],
            'unstable_MT'),
    'CC2': ([(A, A), (A, A), (A, B), (A, HE), (B, D), (B, C)], 'no_MT'),
    'stableA2': ([(A, A), (A, A), (A, A, -.3, .01, -6.),
                  (A, A, -.3, .02, -7.)], 'stable_MT'),
    'dwarf': ([(A, A), (B, A), (B, A), (B, A, -.8, -.9, -99., 12.)], 'no_MT'),
    'dwarf2': ([(A, A), (B, A), (B, A), (B, B, -.8, -.9, -99., 3., 11.)],
               'no_MT'),
    'inert': ([(A, A), (N, A, .01, -.5, -7.), (N, A, .02, -.5, -7.)],
              'stable_MT'),
    'initial': (None, 'initial_MT'),
    'initial1': ([(A, A, .5, .1, -1.)], 'initial_MT'),
    'initialN': ([(A, A, .5, .1, -1.), (A, A, .6, .1, -1.)], 'initial_MT'),
    'failed': ([(A, A), (A, A), (A, A)], 'not_converged'),
}
# helium donors with a compact star 2
HE_RUNS = {
    'X': ([(X, X), (X, X), (X, X), (XD, X), (XC, X)], 'no_MT'),
    'XBA': ([(X, X), (X, X, .02, -.9, -5.), (X, X, .03, -.9, -4.),
             (XD, X), (XC, X)], 'stable_MT'),
    'XBB': ([(X, X), (X, X), (XD, X, .02, -.9, -5.), (XD, X, .1, -.9, -3.)],
            'stable_MT'),
    'XCE': ([(X, X), (X, X), (X, X, .02, -.9, -3.), (X, X, .2, -.9, -1.)],
            'unstable_MT'),
    'XN': ([(X, X), (XN, X, .02, -.9, -7.), (XN, X, .02, -.9, -7.)],
           'stable_MT'),
    'initial': (None, 'initial_MT'),
    'initial1': ([(X, X, .5, -.9, -1.)], 'initial_MT'),
    'failed': ([(X, X), (X, X), (X, X)], 'not_converged'),
}
SNKEYS = ['CO_type', 'SN_type', 'f_fb', 'mass', 'spin', 'm_disk_accreted',
          'm_disk_radiated', 'M4', 'mu4', 'h1_mass_ej', 'he4_mass_ej']
POST = ['avg_c_in_c_core_at_He_depletion', 'co_core_mass_at_He_depletion',
        'm_core_CE_1cent', 'm_core_CE_10cent', 'm_core_CE_30cent',
        'm_core_CE_pure_He_star_10cent', 'r_core_CE_1cent',
        'r_core_CE_10cent', 'r_core_CE_30cent',
        'r_core_CE_pure_He_star_10cent']


def val(name, run, row):
    """Closed-form value of a column without special meaning."""
    h = zlib.crc32(("%s/%s" % (name, run)).encode())
    return (0.3 + (h % 9973) / 2500.) * (1 + 0.07 * row * (1 + (h % 7))
                                         + 0.011 * row * row)


def tables(run):
    """binary history, history1, history2 of a run as dicts of lists."""
    from posydon.grids.psygrid import (DEFAULT_BINARY_HISTORY_COLS,
                                       DEFAULT_STAR_HISTORY_COLS)
    rows, name = run['rows'], run['name']
    bh = {c: [] for c in DEFAULT_BINARY_HISTORY_COLS}
    hs = [{c: [] for c in DEFAULT_STAR_HISTORY_COLS} for _ in (0, 1)]
    for j, r in enumerate(rows):
        s1, s2 = r[:2]
        o1, o2 = r[2:4] if len(r) > 3 else (-.6, -.8)
        rate = r[4] if len(r) > 4 else -99.
        gam = [r[5] if len(r) > 5 else 1., r[6] if len(r) > 6 else 1.]
        m1 = run['m1'] * (1 - 0.03 * j)
        m2 = run['m2'] * (1 + (0.002 if run['co'] else 0.01) * j)
        v = {'model_number': float(3 * j + 1), 'age': run['T'] * (
             0.0 if j == 0 else (j / (len(rows) - 1.)) ** 0.7),
             'star_1_mass': m1, 'star_2_mass': m2,
             'rl_relative_overflow_1': o1, 'rl_relative_overflow_2': o2,
             'lg_mtransfer_rate': rate,
             'period_days': run['p'] * (1 + 0.05 * j),
             'lg_mstar_dot_1': -5. - 0.1 * j,
             'lg_mstar_dot_2': (-9.5 + 1.5 * j if run['co'] else -6. + .1 * j),
             'lg_wind_mdot_1': -31. + 0.01 * j if run['co'] else -7. - .1 * j,
             'lg_wind_mdot_2': -8. - 0.05 * j,
             'lg_system_mdot_1': -9. - .2 * j,
             'lg_system_mdot_2': -9.5 - .3 * j}
        for c in bh:
            bh[c].append(v[c] if c in v else 10 * val(c, name, j))
        for k, s in ((0, s1), (1, s2)):
            w = dict(zip(('surface_h1', 'center_h1', 'center_he4',
                          'center_c12', 'log_LH', 'log_LHe', 'log_Lnuc'),
                         SH[s]))
            w['center_gamma'] = gam[k]
            w['log_R'] = 0.4 + 0.1 * j + 0.01 * k
            w['log_L'] = 3.0 + 0.2 * j + 0.1 * k
            for c in hs[k]:
                hs[k][c].append(w[c] if c in w else val('S%d_%s' % (k + 1, c),
                                                        name, j))
    return bh, hs[0], hs[1]


def rec(d):
    n = len(next(iter(d.values())))
    a = np.empty(n, dtype=[(c, 'f8') for c in d])
    for c in d:
        a[c] = d[c]
    return a


def profile(run, k):
    return rec({'mass': [3. + k, 2., 1.], 'radius': [5. + k, 1., .1],
                'logRho': [-8., -3. - k, 2.]})


def write(path, runs):
    """runs: dicts name, m1, m2, p, T, rows, cls, co."""
    import h5py
    from posydon.grids.psygrid import GRIDPROPERTIES
    from posydon.grids.SN_MODELS import SN_MODELS
    ini, fin, sn = [], [], {m: [] for m in SN_MODELS}
    full = dict(runs[0], rows=[(A, A), (A, A)])
    cb, c1, c2 = [list(t) for t in tables(full)]
    co = runs[0]['co']
    cols = cb + ['S1_' + c for c in c1] + ([] if co else
                                           ['S2_' + c for c in c2])
    with h5py.File(path, 'w') as f:
        for i, run in enumerate(runs):
            g = f.create_group('/grid/run%d' % i)
            vi = {'star_1_mass': run['m1'], 'star_2_mass': run['m2'],
                  'period_days': run['p'], 'Z': 0.0142}
            vf = {}
            if run['rows'] is not None:
                bh, h1, h2 = tables(run)
                g.create_dataset('binary_history', data=rec(bh))
                g.create_dataset('history1', data=rec(h1))
                g.create_dataset('final_profile1', data=profile(run, 0))
                vf.update({c: bh[c][-1] for c in bh})
                vf.update({'S1_' + c: h1[c][-1] for c in h1})
                if not co:
                    g.create_dataset('history2', data=rec(h2))
                    g.create_dataset('final_profile2', data=profile(run, 1))
                    vf.update({'S2_' + c: h2[c][-1] for c in h2})
            if run.get('nan'):
                vi['period_days'] = float('nan')
            ini.append(vi)
            fin.append(vf)
            for n, m in enumerate(SN_MODELS):
                sn[m].append([sn_value(run, k, q, n) for k in (1, 2)
                              for q in SNKEYS])
        a = np.zeros(len(runs), dtype=[(c, 'f8') for c in (
            'star_1_mass', 'star_2_mass', 'period_days', 'Z')])
        names = cols + ['S%d_%s' % (k, q) for k in (1, 2) for q in POST]
        b = np.zeros(len(runs), dtype=[(c, 'f8') for c in names]
                     + [(c, 'S70') for c in (
                         'termination_flag_1', 'termination_flag_2',
                         'termination_flag_3', 'termination_flag_4',
                         'interpolation_class', 'mt_history')])
        for i, run in enumerate(runs):
            for c in a.dtype.names:
                a[c][i] = ini[i][c]
            for c in cols:
                b[c][i] = fin[i].get(c, np.nan)
            for k in (1, 2):
                for q in POST:
                    b['S%d_%s' % (k, q)][i] = post(run, k, q)
            b['interpolation_class'][i] = run['cls']
            b['termination_flag_2'][i] = 'mt-%d' % i
            b['mt_history'][i] = 'hist-%d' % i
        f.create_dataset('/grid/initial_values', data=a)
        f.create_dataset('/grid/final_values', data=b)
        for m in sn:
            t = np.zeros(len(runs), dtype=[
                ('S%d_%s' % (k, q), 'S70' if 'type' in q else 'f8')
                for k in (1, 2) for q in SNKEYS])
            for i, v in enumerate(sn[m]):
                t[i] = tuple(v)
            f.create_dataset('/grid/SN_MODELS/' + m, data=t)
        f.create_dataset('relative_file_paths', data=np.array(
            ['run%d' % i for i in range(len(runs))],
            dtype=h5py.string_dtype()))
        cfg = dict(GRIDPROPERTIES)
        f.attrs['config'] = json.dumps(str(cfg))


def post(run, k, q):
    return val('post%d%s' % (k, q), run['name'], 1)


def sn_value(run, k, q, n):
    if q == 'CO_type':
        return ['None', 'BH', 'NS'][(n + k + len(run['name'])) % 3]
    if q == 'SN_type':
        return ['CCSN', 'ECSN', 'PPISN'][(n + 2 * k) % 3]
    return val('sn%d%s%d' % (k, q, n), run['name'], 2)
