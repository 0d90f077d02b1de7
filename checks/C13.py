"""C13: each transient carries the weight of its own system."""
import itertools

LEVEL = "model_checking"
RULE = ("every file order x metallicity assignment x transient table (0-2 "
        "events per system) x requested population; distinct by weights")
ASSUMPTIONS = ["the weight of a single system is the one of "
               "norm_pop.calculate_model_weights (decided by C15)"]

POPS = [None, dict(primary_mass_min=1.0, primary_mass_max=100.0,
                   binary_fraction_const=0.4),
        dict(q_min=0.1, q_max=0.97)]
METS = [None, [1.0, 0.01], [0.2, 0.2, 1.0]]


def bounds(tier):
    return {"systems": 4, "file_orders": 24 if tier == "thorough" else 12,
            "event_tables": 81 if tier == "thorough" else 8}


def cases(tier):
    orders = list(itertools.permutations(range(4)))
    tables = list(itertools.product((0, 1, 2), repeat=4))
    if tier == "quick":
        orders, tables = orders[::2], tables[2::10]
    for k, od in enumerate(orders):
        for j, tb in enumerate(tables):
            m = (k + j) % len(METS)
            yield {'order': list(od), 'table': list(tb), 'mets': m,
                   'flip': (k + j) % 4 == 1}


def execute(case, R):
    import numpy as np
    import pandas as pd
    from mc import popfile as F
    from posydon.popsyn import norm_pop
    from posydon.popsyn.synthetic_population import (Population,
                                                     TransientPopulation)
    ids = [0, 1, 5, 8]
    kinds = ['rlo', 'single', 'ce', 'nomt']
    lay = [(ids[k], kinds[k]) for k in case['order']]
    mets = METS[case['mets']]
    with R.tmp():
        h, o, t = F.write('p.h5', lay, mets=mets)
        if case['flip']:
            # some binaries are stored with the heavier star second
            with pd.HDFStore('p.h5') as st:
                o = st['oneline']
                a = o.loc[5, 'S1_mass_i']
                o.loc[5, 'S1_mass_i'] = o.loc[5, 'S2_mass_i']
                o.loc[5, 'S2_mass_i'] = a
                del st['oneline']
                st.append('oneline', o, data_columns=True, min_itemsize={
                    'state_i': 30})
        P = Population('p.h5', chunksize=3)
        P.calculate_formation_channels(mt_history=True)
        nev = dict(zip(ids, case['table']))

        def func(hc, oc, fc):
            out = [(i, float(10 * i + j), oc.loc[i, 'metallicity'],
                    fc.loc[i, 'channel']) for i in oc.index
                   for j in range(nev[i])]
            return pd.DataFrame(out, columns=['ix', 'time', 'metallicity',
                                              'channel']).set_index('ix')
        T = P.create_transient_population(func, 'T')
        events = [i for i, _ in lay for _ in range(nev[i])]
        if not events:
            R.check(T is None, "no events")
            return
        R.must(list(T.population.index) == events, "transient rows")
        tabs = {}
        for n, over in enumerate(POPS):
            pop_par = None if over is None else dict(F.INI, **over)
            w = T.calculate_model_weights('w%d' % n,
                                          population_parameters=pop_par)
            R.step()
            req = pop_par
            if req is None:
                req = dict(F.INI, primary_mass_min=0.01, primary_mass_max=200,
                           secondary_mass_min=0.01 * 0.05,
                           secondary_mass_max=200)
            want = []
            for i in events:
                row = o.loc[[i]].copy()
                m1, m2 = row['S1_mass_i'].iloc[0], row['S2_mass_i'].iloc[0]
                if m2 > m1:
                    row['S1_mass_i'], row['S2_mass_i'] = m2, m1
                M = float(t.loc[row['metallicity'].iloc[0],
                                'simulated_mass'])
                want.append(float(np.ravel(norm_pop.calculate_model_weights(
                    row, M, dict(F.INI), dict(req)))[0]))
            for tab, how in ((w, 'returned'),
                             (T.model_weights('w%d' % n), 'stored')):
                R.check(list(tab.index) == events and list(tab.columns) ==
                        ['w%d' % n], "%s table" % how)
                got = [float(x) for x in tab['w%d' % n]]
                R.check(np.allclose(got, want, rtol=1e-9, atol=0,
                                    equal_nan=True), lambda: "order %r: %s "
                        "weights of systems %r are %r, want %r" %
                        (lay, how, events, got, want))
            tabs[n] = want
            par = T.model_weight_parameters('w%d' % n)
            if pop_par is not None:
                R.check(all(par[k] == v for k, v in pop_par.items()),
                        "stored parameters")
            chan = {i: F.channel_model(k)[1] for i, k in lay}
            met = {i: float(o.loc[i, 'metallicity']) for i in ids}
            for split in (False, True):
                e = T.efficiency('w%d' % n, channels=split)
                for z in t.index:
                    tot = sum(x for x, i in zip(want, events) if met[i] == z)
                    R.close(float(e.loc[z, 'total']), tot,
                            "efficiency at %g" % z, rtol=1e-9, atol=1e-99)
                    if split:
                        for c in set(chan[i] for i in events):
                            tot = sum(x for x, i in zip(want, events)
                                      if met[i] == z and chan[i] == c)
                            R.close(float(e.loc[z, c]), tot, "efficiency of "
                                    "%s at %g" % (c, z), rtol=1e-9,
                                    atol=1e-300)
        # both sets stay side by side; recomputing replaces only one
        allw = TransientPopulation('p.h5', 'T').model_weights()
        R.check(sorted(allw.columns) == ['w0', 'w1', 'w2'] and np.allclose(
            allw['w0'], tabs[0]) and np.allclose(allw['w1'], tabs[1]) and
            np.allclose(allw['w2'], tabs[2]),
            lambda: "all weights %r" % allw.to_dict())
        T.calculate_model_weights('w0', population_parameters=dict(
            F.INI, **POPS[1]))
        R.check(np.allclose(T.model_weights('w0')['w0'], tabs[1]) and
                np.allclose(T.model_weights('w1')['w1'], tabs[1]),
                "weights after recomputing one set")
        R.check(T.model_weight_parameters('w0')['primary_mass_min'] == 1.0,
                "parameters after recomputing")
        R.outcome(lay, case['mets'], tabs[0], tabs[1], tabs[2])


def worker_init(R):
    import posydon.popsyn.synthetic_population
    from posydon.popsyn import norm_pop
    if hasattr(norm_pop, 'get_mean_mass'):
        # a slow pure integral of the settings: remembered per worker
        real, memo = norm_pop.get_mean_mass, {}

        def cached(params):
            key = repr(sorted((k, str(v)) for k, v in params.items()))
            if key not in memo:
                memo[key] = real(params)
            return memo[key]
        norm_pop.get_mean_mass = cached
