"""C14: cosmic weights and rate densities of every event."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every transient table (events per system) x chunk size x metallicity "
        "set x time bin, and every sequence of up to 3 weight calculations "
        "with different star formation models; distinct by weights")
ASSUMPTIONS = ["reference: astropy Planck15 ages and distances, closed-form "
               "star formation histories; redshifts of events come from a "
               "spline (tolerance 2e-3); shell volumes neglect radiation "
               "(tolerance 1e-2)",
               "the redshift spline is built once per worker"]

SFHS = {
    'MF': dict(SFR='Madau+Fragos17', sigma=0.5),
    'MD': dict(SFR='Madau+Dickinson14', sigma=0.3, normalise=False),
    'Nj': dict(SFR='Neijssel+19', sigma='Neijssel+19', Z_max=0.03),
    'dt': dict(SFR='Madau+Fragos17', sigma=0.5, delta_t=2000),
}
CS = {'Madau+Fragos17': (0.01, 2.6, 3.2, 6.2),
      'Madau+Dickinson14': (0.015, 2.7, 2.9, 5.6),
      'Neijssel+19': (0.01, 2.77, 2.9, 4.7)}
DELAYS = [0.0, 3.0, 130.0, 4000.0, 9000.0, 13790.0, 20000.0]


def bounds(tier):
    return {"systems": 4, "events_per_system": "0..3",
            "chunk_sizes": [1, 2, 3, 5, 100000],
            "bin_widths_Myr": [250, 900, 1000, 2000] + (
                [100, 700] if tier == "thorough" else []),
            "calculations_in_sequence": 2 if tier == "quick" else 3}


def cases(tier):
    tables = [[1, 1, 1, 1], [0, 2, 3, 1], [3, 3, 3, 3], [0, 0, 1, 0],
              [2, 0, 0, 3]]
    for t in tables:
        for ch in (1, 2, 3, 5, 100000):
            for mets in ([1.0], [1.0, 0.01], [0.2, 0.1, 1.0]):
                for dt in (1000, 2000):
                    if tier == "quick" and dt == 2000 and len(mets) == 2:
                        continue
                    yield {'kind': 'w', 'table': t, 'chunk': ch,
                           'mets': mets, 'model': 'MF', 'dt': dt}
    for dt in bounds(tier)["bin_widths_Myr"] + [3000, 6000]:
        yield {'kind': 'bins', 'dt': dt}
    seqs = list(itertools.product(sorted(SFHS), repeat=2))
    if tier == "thorough":
        seqs += list(itertools.product(sorted(SFHS), repeat=3))
    for s in seqs:
        yield {'kind': 'seq', 'seq': list(s)}
    for dz in (None, 0.3, [-3.0, -1.5]):
        yield {'kind': 'dlogz', 'dlogZ': dz}


def sfr(z, edges, model):
    """Star formation rate density per metallicity bin at redshift z."""
    Zsun = 0.0142
    a, b, c, d = CS[model['SFR']]
    tot = a * (1 + z) ** b / (1 + ((1 + z) / c) ** d)
    sg = {'Neijssel+19': 0.39, 'Bavera+20': 0.5}.get(model['sigma'],
                                                     model['sigma'])
    if model['SFR'] == 'Neijssel+19':
        mu = math.log(0.035 * 10 ** (-0.23 * z)) - sg ** 2 / 2
        cdf = lambda Z: 0.5 * (1 + math.erf((math.log(Z) - mu) / sg /
                                            math.sqrt(2)))
    else:
        mu = (0.153 - 0.074 * z ** 1.34 + math.log10(Zsun) -
              sg ** 2 * math.log(10) / 2)
        cdf = lambda Z: 0.5 * (1 + math.erf((math.log10(Z) - mu) / sg /
                                            math.sqrt(2)))
    e = list(edges)
    if model.get('Z_max') is not None and model['Z_max'] > e[-1]:
        e[-1] = model['Z_max']
    f = []
    for lo, hi in zip(e[:-1], e[1:]):
        if model.get('Z_max') is not None:
            hi = min(hi, model['Z_max'])
        f.append(max(0.0, cdf(hi) - cdf(lo)) if hi > lo else 0.0)
    if model.get('normalise', True):
        f = [x / sum(f) for x in f]
    return [tot * x for x in f]


def edges_of(mets, dlogZ=None):
    m = sorted(math.log10(x * 0.0142) for x in mets)
    if len(m) == 1:
        if dlogZ is None:
            return [1e-9, 1.0]
        if isinstance(dlogZ, list):
            return [10 ** x for x in dlogZ]
        return [10 ** (m[0] - dlogZ / 2), 10 ** (m[0] + dlogZ / 2)]
    mid = [(a + b) / 2 for a, b in zip(m[:-1], m[1:])]
    return [10 ** x for x in [m[0] - (m[1] - m[0]) / 2] + mid +
            [m[-1] + (m[-1] - m[-2]) / 2]]


_cosmo = {}


def birth_times(dt):
    from astropy.cosmology import Planck15 as C
    t0 = C.age(0).value
    n = int(t0 * 1e3 / dt)
    return [t0 - (k + 0.5) * dt * 1e-3 for k in range(n + 1)]


def setup_pop(F, R, lay, mets, nev, chunk):
    import pandas as pd
    from posydon.popsyn.synthetic_population import (Population,
                                                     TransientPopulation)
    h, o, t = F.write('p.h5', lay, mets=None if mets == [1.0] else mets)
    P = Population('p.h5', chunksize=3)
    P.calculate_formation_channels(mt_history=True)

    def func(hc, oc, fc):
        out = [(i, DELAYS[(3 * i + 2 * j) % len(DELAYS)],
                oc.loc[i, 'metallicity'],
                # long names, some the beginning of others
                'ZAMS_oRLO1_CC1_oRLO2_CC2_' + fc.loc[i, 'channel'] +
                ('', '_END', '_END_2')[j % 3])
               for i in oc.index for j in range(nev[i])]
        return pd.DataFrame(out, columns=['ix', 'time', 'metallicity',
                                          'channel']).set_index('ix')
    P.create_transient_population(func, 'T')
    T = TransientPopulation('p.h5', 'T', chunksize=chunk)
    # distinguishable weights, written as calculate_model_weights does
    ev = T.population
    w = pd.DataFrame({'w': [1e-5 * (k + 1) for k in range(len(ev))]},
                     index=ev.index)
    with pd.HDFStore('p.h5', mode='a') as st:
        st.put('transients/T/weights/w', w)
    return T, ev, w


def check_weights(R, rates, T, ev, w, mets, model, what, dlogZ=None,
                  dens=True):
    import numpy as np
    from astropy import constants as const
    from astropy.cosmology import Planck15 as C
    dt = model.get('delta_t', 100)
    tb = birth_times(dt)
    if tb[-1] <= 0:
        tb[-1] = None
    t0 = C.age(1e-8).value * 0.9999999
    z_birth = rates.z_birth
    R.must(len(z_birth) == len(tb), "%s: %d birth bins, want %d" %
           (what, len(z_birth), len(tb)))
    for k, t in enumerate(tb):
        if t is not None:
            R.close(float(z_birth['t'].iloc[k]), t, "birth time", rtol=1e-5)
            R.close(float(C.age(z_birth['z'].iloc[k]).value), t,
                    "birth redshift", rtol=1e-5)
    edges = edges_of(mets, dlogZ)
    R.check(np.allclose(rates.edges_metallicity_bins, edges, rtol=1e-9),
            lambda: "metallicity edges %r, want %r" %
            (rates.edges_metallicity_bins, edges))
    S = [sfr(float(z), edges, model) for z in z_birth['z']]
    W, Z = rates.weights, rates.z_events
    R.must(len(W) == len(Z) == len(ev), "%s: weights of %d events, redshifts "
           "of %d, there are %d" % (what, len(W), len(Z), len(ev)))
    R.check(list(W.index) == list(ev.index) == list(Z.index), "%s: events "
            "%r" % (what, list(W.index)))
    c = const.c.to("Mpc/yr").value
    Wv, Zv = W.to_numpy(), Z.to_numpy()
    sm = sorted(mets)
    wv = w.iloc[:, 0].tolist()
    for r in range(len(ev)):
        m = float(ev['metallicity'].iloc[r])
        j = sm.index(m)
        for k, t in enumerate(tb):
            t = float(z_birth['t'].iloc[k])
            te = t + float(ev['time'].iloc[r]) * 1e-3
            if te > t0:
                R.check(math.isnan(Zv[r, k]) and not Wv[r, k] > 0, lambda:
                        "%s: event %d bin %d is in the future but has "
                        "redshift %g weight %g" % (what, r, k, Zv[r, k],
                                                   Wv[r, k]))
                continue
            if te < 0.05:
                continue       # end of the redshift spline
            R.close(float(C.age(Zv[r, k]).value), te, "%s: time of event %d "
                    "bin %d" % (what, r, k), rtol=2e-3)
            D = C.comoving_distance(Zv[r, k]).value
            want = (4 * math.pi * c * D ** 2 * dt * 1e6 * S[k][j] * wv[r])
            # differences of a cumulative function: rounding in the tails
            R.close(float(Wv[r, k]), want, "%s: weight of event %d bin %d" %
                    (what, r, k), rtol=1e-6, atol=1e-12 * 4 * math.pi * c *
                    D ** 2 * dt * 1e6 * wv[r])
    R.step(len(ev) * len(tb))
    if not dens:
        return W, Z
    # rate densities: events are counted once in their redshift shell
    ze = rates.edges_redshift_bins
    R.check(ze[0] == 0 and all(ze[1:] > ze[:-1]), "redshift edges %r" % ze)
    for k in range(1, len(ze) - 1):
        R.close(float(C.age(ze[k]).value), C.age(0).value - k * dt * 1e-3,
                "redshift edge", rtol=1e-4)
    vol = []
    for a, b in zip(ze[:-1], ze[1:]):
        x = np.linspace(a, b, 801)
        y = C.differential_comoving_volume(x).to("Gpc3/sr").value / (1 + x)
        y = 4 * math.pi * y
        hh = (b - a) / 800
        vol.append(hh / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() +
                             2 * y[2:-1:2].sum()))
    for split in (True, False):
        d = rates.calculate_intrinsic_rate_density(channels=split)
        st = rates.intrinsic_rate_density
        R.check(np.allclose(d.to_numpy(float), st.to_numpy(float),
                            equal_nan=True) and list(d.columns) ==
                list(st.columns), "stored densities")
        chans = sorted(set(ev['channel']))
        R.check(sorted(d.columns) == sorted(['total'] + chans * split),
                lambda: "channels %r" % list(d.columns))
        for k, (a, b) in enumerate(zip(ze[:-1], ze[1:])):
            inb = (Zv > a) & (Zv <= b)
            R.close(float(d['total'].iloc[k]), float(Wv[inb].sum()) / vol[k],
                    "%s: rate density of shell %d" % (what, k), rtol=1e-2,
                    atol=1e-30)
            for ch in chans * split:
                m = inb & (ev['channel'].to_numpy() == ch)[:, None]
                R.close(float(d[ch].iloc[k]), float(Wv[m].sum()) / vol[k],
                        "%s: density of %s in shell %d" % (what, ch, k),
                        rtol=1e-2, atol=1e-30)
    return W, Z


def execute(case, R):
    import numpy as np
    from mc import popfile as F
    from posydon.popsyn import rate_calculation as rc
    from posydon.popsyn.synthetic_population import Rates
    lay = [(4, 'ce'), (1, 'single'), (2, 'rlo'), (7, 'contact')]
    if case['kind'] == 'bins':
        from astropy.cosmology import Planck15 as C
        dt = case['dt']
        e, c = rc.get_redshift_bin_edges(dt), rc.get_redshift_bin_centers(dt)
        R.step(len(e))
        R.check(len(e) == len(c) + 1, "one centre per bin")
        R.check(e[0] == 0 and all(np.diff(e) > 0), "edges increase")
        R.check(all((c > e[:-1]) & ((c < e[1:]) | (e[1:] == e[-1]))),
                lambda: "width %g: centres outside their bins: %r" % (dt, c))
        for k, t in enumerate(birth_times(dt)):
            if t > 0:
                R.close(float(C.age(c[k]).value), t, "centre", rtol=1e-4)
        R.outcome(dt, [float(x) for x in c])
        return
    with R.tmp():
        if case['kind'] == 'w':
            nev = dict(zip([i for i, _ in lay], case['table']))
            T, ev, w = setup_pop(F, R, lay, case['mets'], nev, case['chunk'])
            model = dict(SFHS[case['model']], delta_t=case['dt'])
            rates = T.calculate_cosmic_weights('S', 'w', MODEL_in=dict(model))
            W, Z = check_weights(R, rates, T, ev, w, case['mets'], model,
                                 "table %r chunk %d" % (case['table'],
                                                        case['chunk']))
            # observable populations, chunk by chunk
            rt = Rates('p.h5', 'T', 'S', chunksize=case['chunk'])

            def obs(tc, zc, wc):
                R.check(list(tc.index) == list(zc.index) == list(wc.index),
                        lambda: "chunk mixes events: %r %r %r" %
                        (list(tc.index), list(zc.index), list(wc.index)))
                return wc * (tc['time'].to_numpy()[:, None] + 1.0)
            for rep in range(2):
                rt.calculate_observable_population(obs, 'O')
                o = rt.observable_population('O')
                want = W.to_numpy() * (ev['time'].to_numpy()[:, None] + 1.0)
                R.check(list(o.index) == list(ev.index) and np.allclose(
                    o.to_numpy(), want, equal_nan=True), lambda:
                    "observable population has %d rows of %d events" %
                    (len(o), len(ev)))
            R.check(rt.observable_population_names == ['O'], "names")
            for a in range(len(ev)):
                s = rt.select_rate_slice('weights', start=a, stop=a + 2)
                R.check(np.allclose(s.to_numpy(), W.to_numpy()[a:a + 2],
                                    equal_nan=True), "slice of the weights")
            R.outcome(case['table'], case['mets'], case['dt'],
                      float(np.nansum(W.to_numpy())))
            return
        T, ev, w = setup_pop(F, R, lay, [1.0] if case['kind'] == 'dlogz' else
                             [1.0, 0.01], {4: 1, 1: 2, 2: 0, 7: 1}, 2)
        if case['kind'] == 'dlogz':
            model = dict(SFHS['MF'], delta_t=2000, dlogZ=case['dlogZ'],
                         normalise=False)
            rates = T.calculate_cosmic_weights('S', 'w', MODEL_in=dict(model))
            check_weights(R, rates, T, ev, w, [1.0], model, 'dlogZ %r' %
                          case['dlogZ'], dlogZ=case['dlogZ'], dens=False)
            R.outcome(case['dlogZ'])
            return
        default = dict(rc.DEFAULT_SFH_MODEL)
        done = {}
        # the last model once more, in place of the first
        for n, name in enumerate(case['seq'] + case['seq'][-1:]):
            model = dict(SFHS[name])
            # the default bin width is 100 Myr: only with the last of a
            # sequence, it is slow
            model.setdefault('delta_t', 1000)
            given = dict(model)
            key = 'S%d' % (n % 2)
            rates = T.calculate_cosmic_weights(key, 'w', MODEL_in=given)
            R.check(given == model, "the given model was changed")
            R.check(rc.DEFAULT_SFH_MODEL == default, lambda: "after %s the "
                    "default model is %r" % (name, rc.DEFAULT_SFH_MODEL))
            if rc.DEFAULT_SFH_MODEL != default:
                rc.DEFAULT_SFH_MODEL.clear()
                rc.DEFAULT_SFH_MODEL.update(default)
            for k, v in default.items():
                if k not in model:
                    R.check(rates.MODEL.get(k) == v, lambda: "%r: %s is %r" %
                            (case['seq'][:n + 1], k, rates.MODEL.get(k)))
            done[key] = model
            for k, m in done.items():      # earlier results stay
                check_weights(R, Rates('p.h5', 'T', k), T, ev, w,
                              [1.0, 0.01], m, "%r %s" %
                              (case['seq'][:n + 1], k), dens=False)
        R.outcome(case['seq'])
        with R.raises(ValueError, "unknown model weights"):
            T.calculate_cosmic_weights('S', 'nope', MODEL_in=dict(SFHS['MF']))


def worker_init(R):
    import posydon.popsyn.synthetic_population as s
    if hasattr(s, 'redshift_from_cosmic_time_interpolator'):
        real, memo = s.redshift_from_cosmic_time_interpolator, []

        def cached():
            if not memo:
                memo.append(real())
            return memo[0]
        s.redshift_from_cosmic_time_interpolator = cached
