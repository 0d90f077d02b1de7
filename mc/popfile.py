"""Small population files in the layout the package writes."""
import itertools

import numpy as np
import pandas as pd

# name: (events of the history, HMS-HMS class, mass transfer history, single)
KINDS = {
    'rlo': (['ZAMS', 'oRLO1', None, 'CC1', 'END'], 'stable_MT',
            'Stable RLOF during MS', False),
    'contact': (['ZAMS', 'oRLO1', 'END'], 'stable_MT',
                'Stable contact phase', False),
    'reverse': (['ZAMS', None, 'CC1', 'redirect_from_CO_HMS_RLO', 'CC2',
                 'END'], 'stable_reverse_MT',
                'Stable reverse mass-transfer phase', False),
    'ce': (['ZAMS', 'oCE1', 'CC1', 'CO_contact', 'END'], 'unstable_MT',
           'Unstable MT', False),
    'nomt': (['ZAMS', 'redirect_from_ZAMS', 'CC1', 'CC2', 'CO_contact',
              'END'], 'no_MT', None, False),
    'initmt': (['ZAMS', 'END'], 'initial_MT', None, False),
    'single': (['ZAMS', 'CC1', 'END'], None, None, True),
    'heredir': (['ZAMS', 'redirect_from_CO_HeMS_RLO',
                 'redirect_from_CO_HeMS', 'END'], 'no_MT', None, False),
    'long': (['ZAMS'] + ['redirect_from_CO_HMS_RLO', 'CC1'] * 6 + ['END'],
             'stable_MT', 'Stable RLOF during MS', False),
    'one': (['ZAMS'], 'no_MT', None, False),
}
CLASS = {'initial_MT': 'initial_MT', 'stable_MT': 'oRLO1',
         'stable_reverse_MT': 'oRLO1-reverse', 'no_MT': 'None',
         'unstable_MT': 'oCE1/oDoubleCE1'}


def channel_model(kind, mt_history=True):
    """Channel of a system, told from its own rows alone."""
    events, cls, mt, _ = KINDS[kind]
    ev = [e for e in events if e is not None]
    c = CLASS.get(cls)
    if c in ('oRLO1', 'oRLO1-reverse'):
        ev = [ev[0] + "_" + c] + ev[1:]
    debug = "_".join(ev)
    ch = debug
    for cut in ('_redirect_from_ZAMS', '_redirect_from_CO_HMS_RLO',
                '_redirect_from_CO_HeMS_RLO', '_redirect_from_CO_HeMS',
                '_CO_contact'):
        ch = ch.replace(cut, '')
    if mt_history and mt == 'Stable contact phase':
        ch = ch.replace('oRLO1', 'oRLO1-contact')
    return debug[:100], ch[:100]


def frames(systems, mets=None, met_col=True):
    """systems: list of (index, kind) in file order."""
    from posydon.popsyn.binarypopulation import (HISTORY_MIN_ITEMSIZE,
                                                 ONELINE_MIN_ITEMSIZE)
    h, o = [], []
    for k, (ix, kind) in enumerate(systems):
        events, cls, mt, single = KINDS[kind]
        m1 = 10.0 + 1.5 * ix
        for j, e in enumerate(events):
            h.append((ix, e, 'detached' if j else 'initial',
                      100.0 * ix + j, m1 - j, 5.0 + 0.01 * ix,
                      'BH' if j > 2 else 'H-rich_Core_H_burning',
                      'step_%d' % j))
        met = 1.0 if mets is None else mets[ix % len(mets)]
        o.append((ix, 'initially_single_star' if single else 'detached',
                  'disrupted' if ix % 2 else 'detached', m1,
                  0.0 if single else m1 * (0.3 + 0.05 * (ix % 7)),
                  np.nan if single else 2.0 + 3.0 * ix,
                  np.nan if single else 0.0, float(len(events)), cls, mt, met,
                  'oneline%d' % ix))
    h = pd.DataFrame(h, columns=['binary_index', 'event', 'state', 'time',
                                 'S1_mass', 'S2_mass', 'S1_state',
                                 'step_names']).set_index('binary_index')
    o = pd.DataFrame(o, columns=['binary_index', 'state_i', 'state_f',
                                 'S1_mass_i', 'S2_mass_i', 'orbital_period_i',
                                 'eccentricity_i', 'time_f',
                                 'interp_class_HMS_HMS', 'mt_history_HMS_HMS',
                                 'metallicity', 'S1_state_f']
                     ).set_index('binary_index')
    if not met_col:
        o = o.drop(columns='metallicity')
    hm = {k: v for k, v in HISTORY_MIN_ITEMSIZE.items() if k in h.columns}
    om = {k: v for k, v in ONELINE_MIN_ITEMSIZE.items() if k in o.columns}
    return h, o, hm, om


INI = dict(metallicity=1.0, number_of_binaries=5,
           binary_fraction_scheme='const', binary_fraction_const=0.7,
           star_formation='burst', max_simulation_time=13.8e9,
           primary_mass_scheme='Kroupa2001', primary_mass_min=7.0,
           primary_mass_max=150.0, secondary_mass_scheme='flat_mass_ratio',
           secondary_mass_min=0.35, secondary_mass_max=150.0,
           orbital_scheme='period',
           orbital_period_scheme='Sana+12_period_extended',
           orbital_period_min=0.35, orbital_period_max=6e3,
           eccentricity_scheme='zero')


def write(path, systems, mets=None, met_col=True, masses=None):
    h, o, hm, om = frames(systems, mets, met_col)
    with pd.HDFStore(path, mode='w') as st:
        st.append('history', h, data_columns=True, min_itemsize=hm)
        st.append('oneline', o, data_columns=True, min_itemsize=om)
        st.put('ini_parameters', pd.DataFrame({k: [v] for k, v in
                                               INI.items()}))
        ms = [1.0] if mets is None else sorted(set(mets))
        rows = []
        for k, m in enumerate(ms):
            n = len(o) if mets is None else sum(
                1 for ix, _ in systems if mets[ix % len(mets)] == m)
            rows.append((1000.0 * (k + 1), 400.0 * (k + 1), 600.0 * (k + 1),
                         n))
        t = pd.DataFrame(rows, index=ms, columns=[
            'simulated_mass', 'simulated_mass_single',
            'simulated_mass_binaries', 'number_of_systems'])
        t.index.name = 'metallicity'
        st.append('mass_per_metallicity', t)
    return h, o, t


def same(a, b):
    """Equal tables (values, index, columns, order); NaN and None alike."""
    if list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
        return False
    for c in a.columns:
        for x, y in zip(a[c].tolist(), b[c].tolist()):
            if not (x == y or (pd.isna(x) and pd.isna(y))):
                return False
    return True


def subsets(xs):
    xs = list(xs)
    return itertools.chain.from_iterable(
        itertools.combinations(xs, r) for r in range(len(xs) + 1))
