"""C16: star formation is split over metallicity bins without loss."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every star formation model x set of bin edges x lower and upper "
        "metallicity limit (inside, on and outside the edges) x "
        "normalisation x redshift; every formation-time scenario x enumerated "
        "variates; distinct by values")
ASSUMPTIONS = ["tabulated models are read from small data files written by "
               "the check in the layout of the data release",
               "metallicity limits overlap the bins"]

EDGES = [[1e-9, 1.0], [1e-4, 1e-2], [1e-4, 1e-3, 1e-2],
         [2e-5, 3e-4, 2e-3, 0.0142, 0.04]]
LIMITS = [None, 1e-9, 1e-5, 1e-4, 5e-4, 1e-3, 2e-3, 7e-3, 1e-2, 0.04, 0.3, 1.0]
ZS = [0.0, 0.05, 0.5, 1.0, 1.7, 3.0, 6.0, 9.5]
CS = {'Madau+Fragos17': (0.01, 2.6, 3.2, 6.2),
      'Madau+Dickinson14': (0.015, 2.7, 2.9, 5.6),
      'Neijssel+19': (0.01, 2.77, 2.9, 4.7),
      'Fujimoto+24': (0.010, 2.8, 3.3, 6.6)}
SOLAR = {'Asplund09': (0.0134, 8.69), 'AndersGrevesse89': (0.017, 8.83),
         'GrevesseSauval98': (0.0201, 8.93), 'Villante14': (0.019, 8.85)}
MODELS = []
for m in CS:
    for sg in ('Bavera+20', 'Neijssel+19', 0.2, 1):
        MODELS.append(dict(SFR=m, sigma=sg))
MODELS.append(dict(SFR='IllustrisTNG'))
for sc in SOLAR:
    MODELS.append(dict(SFR='Chruslinska+21', sub_model='sub',
                       Z_solar_scaling=sc))
for sub in ('min', 'max'):
    MODELS.append(dict(SFR='Zavala+21', sub_model=sub, sigma=0.5))

# the data of the tabulated models
TNG_Z = [10 ** (-9 + 0.25 * k) for k in range(36)]
TNG_z = [0.0, 0.4, 1.0, 2.0, 5.0, 8.0, 20.0]


def tng_M(i):
    if i == 5:
        return [0.0] * len(TNG_Z)      # no star formation at this redshift
    return [math.exp(-0.5 * ((math.log10(Z) + 2 + 0.2 * i) / 0.6) ** 2)
            for Z in TNG_Z]


TNG_S = [0.015, 0.03, 0.06, 0.09, 0.05, 0.0, 0.001]
CHR_z = [9.9, 6.2, 3.1, 1.5, 0.6, 0.01]      # high to low
CHR_dt = [10., 200., 300., 400., 500., 600.]


def chr_M(i):
    return [1e6 * (1 + i) * math.exp(-0.5 * ((5.3 + 4.4 * k / 199 - 8.2 +
                                              0.1 * i) / 0.4) ** 2)
            for k in range(200)]


ZAV = [(0.0, 0.01, 0.02), (1.0, 0.05, 0.08), (3.0, 0.09, 0.13),
       (7.0, 0.01, 0.02), (12.0, 0.001, 0.002)]


def bounds(tier):
    return {"models": len(MODELS), "edge_sets": len(EDGES), "limits":
            len(LIMITS), "redshifts": len(ZS), "limit_pairs": "all"}


def cases(tier):
    for i in range(len(MODELS)):
        for j in range(len(EDGES)):
            for norm in (False, True):
                yield {'kind': 'sfh', 'm': i, 'e': j, 'norm': norm,
                       'thin': 1}
    for sc in ('burst', 'constant', 'custom_linear', 'custom_log10',
               'custom_linear_histogram', 'custom_log10_histogram'):
        for n in (1, 2, 5):
            yield {'kind': 'times', 'sc': sc, 'n': n}
    yield {'kind': 'bad'}


def lin(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for a, b, c, d in zip(xs[:-1], xs[1:], ys[:-1], ys[1:]):
        if a <= x <= b:
            return c + (d - c) * (x - a) / (b - a)


def table_cdf(Z, M):
    tot, c, cum = sum(M), 0.0, []
    for m in M:
        c += m
        cum.append(c / tot)
    xs = [math.log10(x) for x in Z] + [0.0]
    cum.append(1.0)
    return lambda x: lin(math.log10(x), xs, cum)


def reference(model, z):
    """(rate density, cumulative metallicity distribution or None)."""
    s = model['SFR']
    if s == 'IllustrisTNG':
        i = max(k for k, r in enumerate(TNG_z) if r <= z)
        M = tng_M(i)
        return lin(z, TNG_z, TNG_S), (table_cdf(TNG_Z, M) if sum(M) else
                                      None)
    if s == 'Chruslinska+21':
        z0, f0 = SOLAR[model['Z_solar_scaling']]
        foh = [5.3 + 4.4 * k / 199 for k in range(200)]
        Z = [10 ** (math.log10(z0) + f - f0) for f in foh]
        ok = [k for k, r in enumerate(CHR_z) if r <= z]
        i = ok[0] if ok else len(CHR_z) - 1
        tot = [sum(chr_M(k)) / (1e6 * CHR_dt[k]) for k in range(len(CHR_z))]
        # the data table is divided and multiplied by the bin width
        return lin(z, CHR_z[::-1], tot[::-1]), table_cdf(Z, chr_M(i))
    sg = {'Neijssel+19': 0.39, 'Bavera+20': 0.5}.get(model['sigma'],
                                                     model['sigma'])
    if s == 'Zavala+21':
        k = 1 if model['sub_model'] == 'min' else 2
        tot = lin(z, [r[0] for r in ZAV], [r[k] for r in ZAV])
    else:
        a, b, c, d = CS[s]
        tot = a * (1 + z) ** b / (1 + ((1 + z) / c) ** d)
    if s == 'Neijssel+19':
        mu = math.log(0.035 * 10 ** (-0.23 * z)) - sg ** 2 / 2
        return tot, lambda Z: 0.5 * math.erfc(-(math.log(Z) - mu) / sg /
                                              math.sqrt(2))
    mu = (0.153 - 0.074 * z ** 1.34 + math.log10(0.0142) -
          sg ** 2 * math.log(10) / 2)
    return tot, lambda Z: 0.5 * math.erfc(-(math.log10(Z) - mu) / sg /
                                          math.sqrt(2))


def fractions(cdf, edges, zmin, zmax, norm):
    if cdf is None:
        return [0.0] * (len(edges) - 1)
    e = list(edges)
    if zmin is not None:
        e[0] = min(e[0], zmin)
    if zmax is not None:
        e[-1] = max(e[-1], zmax)
    f = []
    for lo, hi in zip(e[:-1], e[1:]):
        lo = lo if zmin is None else max(lo, zmin)
        hi = hi if zmax is None else min(hi, zmax)
        f.append(cdf(hi) - cdf(lo) if hi > lo else 0.0)
    if norm:
        s = sum(f)
        if s < 1e-9:
            return None
        f = [x / s for x in f]
    return f


def write_data(root):
    import os
    import numpy as np
    os.makedirs('SFR/Chruslinska+21')
    # the TNG file runs from high to low redshift
    np.savez('SFR/IllustrisTNG.npz', SFR=np.array(TNG_S[::-1]),
             redshifts=np.array(TNG_z[::-1]), mets=np.array(TNG_Z),
             M=np.array([tng_M(i) for i in range(len(TNG_z))][::-1]))
    np.savetxt('SFR/Chruslinska+21/Time_redshift_deltaT.dat', np.array(
        [[1.0, z, d] for z, d in zip(CHR_z, CHR_dt)]))
    np.savetxt('SFR/Chruslinska+21/sub.dat', np.array(
        [chr_M(i) for i in range(len(CHR_z))]))
    with open('SFR/Zavala+21.txt', 'w') as f:
        f.write("# redshift min max\n")
        for r in ZAV:
            f.write("%r %r %r\n" % r)


def execute(case, R):
    import os
    import numpy as np
    from mc.rng import ScriptedRNG
    from posydon.popsyn import star_formation_history as S
    if case['kind'] == 'bad':
        for bad in (dict(Z_max=2.0), dict(Z_max=-1.0), dict(Z_min=-0.1),
                    dict(Z_min=1.5), dict(Z_min=0.02, Z_max=0.01),
                    dict(Z_min=0.02, Z_max=0.02)):
            with R.raises(ValueError, "limits %r" % bad):
                S.get_SFH_model(dict(SFR='Madau+Fragos17', sigma=0.5, **bad))
        for bad in (dict(SFR='nope'), dict(SFR='Madau+Fragos17'),
                    dict(SFR='Zavala+21', sigma=0.5)):
            with R.raises(ValueError, "model %r" % bad):
                S.get_SFH_model(bad)
        for sg in ('nope', [1]):
            with R.raises(ValueError, "sigma %r" % sg):
                S.SFR_per_met_at_z(np.array([0.]), np.array([1e-4, 1e-2]),
                                   dict(SFR='Madau+Fragos17', sigma=sg))
        for e in ([1e-2, 1e-4], [1e-4, 1e-4, 1e-2], [1e-4, 1e-2, 1e-3]):
            with R.raises(ValueError, "edges %r" % e):
                S.SFR_per_met_at_z(np.array([0.]), np.array(e),
                                   dict(SFR='Madau+Fragos17', sigma=0.5))
        with R.raises(ValueError, "unknown scenario"):
            S.get_formation_times(2, star_formation='nope')
        return
    with R.tmp() as d:
        if case['kind'] == 'times':
            return times(case, R, S, np, ScriptedRNG)
        S.PATH_TO_POSYDON_DATA = os.getcwd()
        write_data(d)
        model = MODELS[case['m']]
        edges = EDGES[case['e']]
        refs = [reference(model, z) for z in ZS]
        k = 0
        for zmin, zmax in itertools.product(LIMITS, repeat=2):
            if zmin is not None and zmax is not None and zmin >= zmax:
                continue
            if zmin is not None and zmin >= edges[-1]:
                continue
            if zmax is not None and zmax <= edges[0]:
                continue
            k += 1
            if (k + case['m'] + case['norm']) % case['thin']:
                continue
            par = dict(model, normalise=case['norm'], Z_min=zmin, Z_max=zmax)
            got = S.SFR_per_met_at_z(np.array(ZS), np.array(edges), dict(par))
            R.step(len(ZS))
            R.must(got.shape == (len(ZS), len(edges) - 1), "shape %r" %
                   (got.shape,))
            for i, z in enumerate(ZS):
                tot, cdf = refs[i]
                f = fractions(cdf, edges, zmin, zmax, case['norm'])
                if f is None:
                    continue
                tol = 1e-7 if case['norm'] else 1e-9
                for b in range(len(f)):
                    R.check(abs(got[i, b] - tot * f[b]) <= tol * tot + 1e-300
                            and got[i, b] >= -1e-12 * tot,
                            lambda: "%r edges %r z=%g: bin %d has %g, want %g"
                            % (par, edges, z, b, got[i, b], tot * f[b]))
            if k % 5 == 0:
                one = S.SFR_per_met_at_z(np.array([ZS[3]]), np.array(edges),
                                         dict(par))
                R.check(np.allclose(one[0], got[3], rtol=1e-12, atol=0,
                                    equal_nan=True), "%r: depends on "
                        "the other redshifts" % par)
            R.outcome(case['m'], case['e'], zmin, zmax,
                      ["%.9g" % x for x in got[2]])


def times(case, R, S, np, ScriptedRNG):
    n, sc = case['n'], case['sc']
    T = 9e9
    for grid in itertools.product((0.0, 0.3, 0.7, 0.999999), repeat=2):
        rng = ScriptedRNG(list(grid))
        kw = dict(RNG=rng, max_simulation_time=T)
        if sc == 'burst':
            for bt in (None, 0.0, 5e8):
                k2 = dict(kw) if bt is None else dict(kw, burst_time=bt)
                t = S.get_formation_times(n, star_formation=sc, **k2)
                R.check(list(t) == [bt or 0.0] * n, "burst at %r: %r" %
                        (bt, t))
                R.step()
        elif sc == 'constant':
            for lo, hi in ((None, None), (1e8, None), (1e8, 5e8),
                           (None, 3e8)):
                k2 = dict(kw, RNG=ScriptedRNG(list(grid)))
                if lo is not None:
                    k2['min_time'] = lo
                if hi is not None:
                    k2['max_time'] = hi
                t = S.get_formation_times(n, star_formation=sc, **k2)
                a, b = lo or 0.0, hi or T
                R.step()
                R.check(len(t) == n and all((t >= a) & (t <= b)), "range")
                for u, x in zip(grid, t):
                    R.close(float(x), a + u * (b - a), "constant", rtol=1e-9,
                            atol=1.0)
        else:
            log = 'log10' in sc
            xs = [6.0, 7.0, 8.0, 9.0] if log else [1e8, 3e8, 6e8, 1e9]
            if 'histogram' in sc:
                with open('ages.csv', 'w') as f:
                    f.write("# ages\n%s\n\n%s\n" % (
                        ",".join(map(repr, xs)), "1,0,3"))
            else:
                np.savetxt('ages.csv', np.array([xs, [1, 0.1, 3, 2]]).T)
            for T1 in (None, 4e9):
                k2 = dict(kw, RNG=ScriptedRNG(list(grid)))
                if T1 is not None:
                    k2['max_time'] = T1
                t = S.get_formation_times(n, star_formation=sc,
                                          custom_ages_file='ages.csv', **k2)
                R.step()
                R.check(np.shape(t) == (n,), lambda: "%s: %d binaries get %r "
                        "formation times" % (sc, n, np.shape(t)))
                age = (T1 or T) - np.atleast_1d(t)
                x = np.log10(age) if log else age
                e = 1e-6 * (xs[-1] - xs[0])
                R.check(all((x >= xs[0] - e) & (x <= xs[-1] + e)), "%s: ages %r "
                        "outside the file" % (sc, x))
                if 'histogram' in sc:
                    R.check(not any((x > xs[1] + e) & (x < xs[2] - e)),
                            "%s: ages %r in an empty bin" % (sc, x))
                    # the first variate chooses the bin
                    if n == 1:
                        want = 0 if grid[0] < 0.25 else 2
                        R.check(xs[want] - e <= x[0] <= xs[want + 1] + e,
                                "%s: variate %g gives age %r" % (sc, grid[0], x))
                R.outcome(sc, n, [float(v) for v in x])


def worker_init(R):
    import posydon.popsyn.star_formation_history
