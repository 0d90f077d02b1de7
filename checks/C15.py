"""C15: densities are normalised, match their samplers, and drive the weights."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every distribution x parameter set x evaluation grid point; every "
        "sampler x enumerated variate; every pair of simulated/requested "
        "population x every system of the table; distinct by values")
ASSUMPTIONS = ["closed-form densities are the reference; numerical tolerance "
               "1e-5 for densities, 5e-3 for tabulated inverse samplers",
               "the rejection sampler is judged on a fixed set of generator "
               "seeds (4000 draws each)"]

DISTS = []
for a, b in ((0.0, 1.0), (0.05, 1.0), (0.2, 0.5)):
    DISTS.append(('FlatMassRatio', dict(q_min=a, q_max=b)))
for al in (-2.0, -1.0, -0.5, 0.0, 1.0, 2.5):
    for a, b in ((0.05, 1.0), (0.3, 0.4)):
        DISTS.append(('PowerLawMassRatio', dict(alpha=al, q_min=a, q_max=b)))
for a, b in ((0.35, 3162.0), (1.0, 10.0), (3.0, 100.0), (0.75, 6e3)):
    DISTS.append(('Sana12Period', dict(p_min=a, p_max=b)))
for sl in (-0.55, 0.0, 0.4):
    for a, b in ((1.4, 3e6), (0.5, 20.0)):
        DISTS.append(('PowerLawPeriod', dict(slope=sl, p_min=a, p_max=b)))
for a, b in ((5.0, 1e5), (1.0, 3.0)):
    DISTS.append(('LogUniform', dict(min=a, max=b)))
for a, b in ((0.0, 1.0), (0.1, 0.6)):
    DISTS.append(('ThermalEccentricity', dict(e_min=a, e_max=b)))
    DISTS.append(('UniformEccentricity', dict(e_min=a, e_max=b)))
for mu, sg in ((0.85, 0.37), (3.0, 1.5)):
    DISTS.append(('LogNormalSeparation', dict(mean=mu, sigma=sg, min=5.0,
                                              max=1e5)))
for a, b in ((7.0, 120.0), (0.5, 150.0), (20.0, 21.0)):
    DISTS.append(('Salpeter', dict(m_min=a, m_max=b)))
    DISTS.append(('Kroupa1993', dict(m_min=a, m_max=b)))
    DISTS.append(('Kroupa2001', dict(m_min=a, m_max=b)))
    DISTS.append(('Chabrier2003', dict(m_min=a, m_max=b)))
DISTS.append(('Salpeter', dict(alpha=1.7, m_min=1.0, m_max=50.0)))
DISTS.append(('Kroupa2001', dict(m_min=0.01, m_max=200.0)))
DISTS.append(('Kroupa2001', dict(m_min=0.03, m_max=0.4)))
DISTS.append(('Chabrier2003', dict(m_min=0.01, m_max=200.0)))


def shape(name, kw):
    """(unnormalised density in the integration variable, lo, hi, variable)."""
    log = lambda x: math.log10(x)
    if name == 'FlatMassRatio':
        return (lambda x: 1.0), kw['q_min'], kw['q_max'], 'lin'
    if name == 'PowerLawMassRatio':
        return (lambda x: x ** kw['alpha']), kw['q_min'], kw['q_max'], 'lin'
    if name == 'Sana12low':
        return (lambda p: 1.0), kw['p_min'], kw['p_max'], 'log'
    if name == 'Sana12high':
        return ((lambda p: max(log(p), 0.15) ** -0.55), kw['p_min'],
                kw['p_max'], 'log')
    if name == 'PowerLawPeriod':
        return (lambda p: p ** kw['slope']), kw['p_min'], kw['p_max'], 'log'
    if name == 'LogUniform':
        return (lambda x: 1.0 / x), kw['min'], kw['max'], 'lin'
    if name == 'ThermalEccentricity':
        return (lambda e: e), kw['e_min'], kw['e_max'], 'lin'
    if name == 'UniformEccentricity':
        return (lambda e: 1.0), kw['e_min'], kw['e_max'], 'lin'
    if name == 'LogNormalSeparation':
        return ((lambda a: math.exp(-0.5 * ((log(a) - kw['mean']) /
                                            kw['sigma']) ** 2) / a),
                kw['min'], kw['max'], 'lin')
    al = kw.get('alpha')
    if name == 'Salpeter':
        return (lambda m: m ** -(al or 2.35)), kw['m_min'], kw['m_max'], 'lin'
    if name == 'Kroupa1993':
        return (lambda m: m ** -(al or 2.7)), kw['m_min'], kw['m_max'], 'lin'
    if name == 'Kroupa2001':
        def k(m):
            if m < 0.08:
                return m ** -0.3
            c1 = 0.08 ** (-0.3 + 1.3)
            if m < 0.5:
                return c1 * m ** -1.3
            return c1 * 0.5 ** (-1.3 + 2.3) * m ** -2.3
        return k, kw['m_min'], kw['m_max'], 'lin'
    if name == 'Chabrier2003':
        def ln(m):
            return math.exp(-(log(m) - log(0.22)) ** 2 /
                            (2 * 0.57 ** 2)) / m
        return ((lambda m: ln(m) if m < 1 else ln(1.0) * m ** -2.3),
                kw['m_min'], kw['m_max'], 'lin')


_memo = {}


def reference(name, kw, n=20000):
    """Normalised density and CDF on a fine grid (integration variable u)."""
    key = (name, tuple(sorted(kw.items())))
    if key in _memo:
        return _memo[key]
    import numpy as np
    f, lo, hi, var = shape(name, kw)
    # a grid in log space for wide ranges, linear otherwise
    if lo > 0 and hi / lo > 3:
        x = np.logspace(math.log10(lo), math.log10(hi), n + 1)
    else:
        x = np.linspace(lo, hi, n + 1)
    x[0], x[-1] = lo, hi
    y = np.array([f(v) for v in x])
    u = np.log10(x) if var == 'log' else x
    # Simpson on each cell through its midpoint
    mid = 0.5 * (u[1:] + u[:-1])
    ym = np.array([f(10 ** v if var == 'log' else v) for v in mid])
    cell = (u[1:] - u[:-1]) / 6 * (y[1:] + y[:-1] + 4 * ym)
    cum = np.concatenate([[0], np.cumsum(cell)])
    _memo[key] = (lambda v: f(v) / cum[-1],
                  lambda v: np.interp(np.log10(v) if var == 'log' else v, u,
                                      cum / cum[-1]), lo, hi)
    return _memo[key]


# ---------------------------------------------------------------- populations
BASE = dict(primary_mass_scheme='Kroupa2001', primary_mass_min=7.0,
            primary_mass_max=120.0, secondary_mass_scheme='flat_mass_ratio',
            secondary_mass_min=0.35, secondary_mass_max=120.0,
            binary_fraction_scheme='const', binary_fraction_const=0.7,
            orbital_scheme='period',
            orbital_period_scheme='Sana+12_period_extended',
            orbital_period_min=0.35, orbital_period_max=3162.0)
POPS = [
    BASE,
    dict(BASE, primary_mass_scheme='Salpeter', binary_fraction_const=0.5),
    dict(BASE, primary_mass_scheme='Kroupa1993', primary_mass_min=10.0,
         primary_mass_max=80.0),
    dict(BASE, primary_mass_scheme='Chabrier2003', primary_mass_min=0.5,
         primary_mass_max=150.0, secondary_mass_min=0.1),
    dict(BASE, secondary_mass_max=30.0, secondary_mass_min=1.0),
    dict(BASE, q_min=0.1, q_max=0.9),
    dict(BASE, secondary_mass_scheme='power_law_mass_ratio',
         mass_ratio_slope=-0.5, q_min=0.05, q_max=1.0),
    dict(BASE, secondary_mass_scheme='power_law_mass_ratio',
         mass_ratio_slope=0.7, q_min=0.2, q_max=0.8),
    dict(BASE, orbital_period_scheme='power_law', power_law_slope=-0.3,
         orbital_period_min=1.0, orbital_period_max=1e3),
    dict(BASE, orbital_scheme='separation',
         orbital_separation_scheme='log_uniform', orbital_separation_min=10.0,
         orbital_separation_max=1e4),
    dict(BASE, binary_fraction_const=1.0),
    dict(BASE, binary_fraction_const=0.0),
]
SYSTEMS = [(m1, q, P) for m1 in (7.0, 8.0, 14.0, 15.0, 15.5, 40.0, 120.0)
           for q in (0.04, 0.1, 0.5, 0.95, 1.0) for P in (0.5, 1.2, 30., 2e3)]
SYSTEMS += [(m1, None, None) for m1 in (7.0, 9.0, 15.0, 79.0, 119.0)]


def bounds(tier):
    return {"variates": 129 if tier == "quick" else 1025,
            "eval_points": 61 if tier == "quick" else 401,
            "seeds": 3 if tier == "quick" else 12,
            "population_pairs": len(POPS) ** 2}


def cases(tier):
    b = bounds(tier)
    for i in range(len(DISTS)):
        yield {'kind': 'dist', 'i': i, 'n': b["variates"],
               'g': b["eval_points"], 'seeds': b["seeds"]}
    for i in range(len(POPS)):
        yield {'kind': 'mean', 'i': i}
    for i, j in itertools.product(range(len(POPS)), repeat=2):
        yield {'kind': 'weights', 'i': i, 'j': j}


def exc_key(case, tb):
    return None


def ref_q(kw, q, m1):
    if kw['secondary_mass_scheme'] == 'power_law_mass_ratio':
        f, _, lo, hi = reference('PowerLawMassRatio', dict(
            alpha=kw['mass_ratio_slope'], q_min=kw['q_min'],
            q_max=kw['q_max']))
        return f(q) if lo < q <= hi else 0.0
    if 'q_min' in kw:
        lo, hi = kw['q_min'], kw['q_max']
    else:
        lo = kw['secondary_mass_min'] / m1
        hi = min(kw['secondary_mass_max'] / m1, 1.0)
    return 1 / (hi - lo) if lo < q <= hi else 0.0


def ref_P(kw, P, m1, q):
    if kw['orbital_scheme'] == 'separation':
        G, Ms, Rs = 6.67430e-8, 1.98841e33, 6.957e10
        a = (G * m1 * (1 + q) * Ms * (P * 86400) ** 2 /
             (4 * math.pi ** 2)) ** (1 / 3.) / Rs
        lo, hi = kw['orbital_separation_min'], kw['orbital_separation_max']
        if min(abs(a / lo - 1), abs(a / hi - 1)) < 1e-2:
            return None
        return (2 / 3. / math.log10(hi / lo)) if lo < a < hi else 0.0
    lo, hi = kw['orbital_period_min'], kw['orbital_period_max']
    if not lo <= P <= hi:
        return 0.0
    if kw['orbital_period_scheme'] == 'power_law':
        return reference('PowerLawPeriod', dict(
            slope=kw['power_law_slope'], p_min=lo, p_max=hi))[0](P)
    return reference('Sana12high' if m1 > 15 else 'Sana12low',
                     dict(p_min=lo, p_max=hi))[0](P)


def ref_imf(kw, m):
    lo, hi = kw['primary_mass_min'], kw['primary_mass_max']
    f = reference(kw['primary_mass_scheme'], dict(m_min=lo, m_max=hi))[0]
    return f(m) if lo <= m <= hi else 0.0


def ref_pdf(kw, m1, q, P):
    fb = kw['binary_fraction_const']
    if q is None:
        return (1 - fb) * ref_imf(kw, m1)
    p = ref_P(kw, P, m1, q)
    return None if p is None else fb * ref_imf(kw, m1) * ref_q(kw, q, m1) * p


_mm = {}


def ref_mean(i):
    if i in _mm:
        return _mm[i]
    import numpy as np
    kw = POPS[i]
    lo, hi = kw['primary_mass_min'], kw['primary_mass_max']
    m = np.logspace(math.log10(lo), math.log10(hi), 4001)
    m[0], m[-1] = lo, hi
    y = []
    for x in m:
        if kw['secondary_mass_scheme'] == 'power_law_mass_ratio':
            a, ql, qh = (kw['mass_ratio_slope'], kw['q_min'], kw['q_max'])
            mq = ((qh ** (a + 2) - ql ** (a + 2)) / (a + 2)) / \
                ((qh ** (a + 1) - ql ** (a + 1)) / (a + 1))
        elif 'q_min' in kw:
            mq = 0.5 * (kw['q_min'] + kw['q_max'])
        else:
            mq = 0.5 * (kw['secondary_mass_min'] / x +
                        min(kw['secondary_mass_max'] / x, 1.0))
        y.append(ref_imf(kw, x) * x * (1 + kw['binary_fraction_const'] * mq))
    y = np.array(y)
    _mm[i] = float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(m)))
    return _mm[i]


def execute(case, R):
    import numpy as np

    from mc.rng import ScriptedRNG
    if case['kind'] == 'dist':
        from posydon.popsyn import IMFs, distributions
        name, kw = DISTS[case['i']]
        cls = getattr(distributions, name, None) or getattr(IMFs, name)
        d = cls(**kw)
        variants = [(name, {})]
        if name == 'Sana12Period':
            variants = [('Sana12low', dict(m1=14.0)), ('Sana12low',
                        dict(m1=15.0)), ('Sana12high', dict(m1=15.01)),
                        ('Sana12high', dict(m1=60.0))]
        for ref, arg in variants:
            f, cdf, lo, hi = reference(ref, kw)
            if lo > 0:
                x = np.logspace(math.log10(lo), math.log10(hi), case['g'])
                # the ends themselves are lost to rounding in log10/power
                x[0], x[-1] = lo * (1 + 1e-9), hi * (1 - 1e-9)
                out = [lo * 0.5, lo * 0.999, hi * 1.001, hi * 3]
            else:
                x = np.linspace(lo, hi, case['g'])
                out = [-0.1, hi + 1e-6, hi * 2]
            if name in ('FlatMassRatio', 'PowerLawMassRatio'):
                x = x[1:]
                out.append(lo)
            extra = [arg['m1']] if 'm1' in arg else []
            got = d.pdf(x, *extra)
            R.step(len(x))
            want = np.array([f(v) for v in x])
            # at the breaks of piecewise densities both sides are fine
            bad = ~np.isclose(got, want, rtol=2e-4 if name == 'Kroupa2001'
                              else 1e-5, atol=1e-12)
            if bad.any():
                k = int(np.argmax(bad))
                known = name == 'LogUniform' and np.allclose(
                    got, want * math.log(10), rtol=1e-9)
                R.fail("%s%r pdf(%g) = %g, normalised density is %g" %
                       (name, kw, x[k], got[k], want[k]),
                       key='LogUniform.pdf' if known else None)
            got0 = d.pdf(np.array(out), *extra)
            R.check(bool(np.all(got0 == 0)), lambda: "%s%r density %r outside"
                    " the range at %r" % (name, kw, got0, out))
            one = d.pdf(np.array([x[3]]), *extra)
            R.check(bool(np.allclose(one, got[3], rtol=1e-12)),
                    "density depends on the other points")
            # sampler against the CDF
            if ref == 'Sana12high':
                for s in range(case['seeds']):
                    n = 4000
                    v = d.rvs(size=n, rng=np.random.default_rng(s),
                              m1=np.full(n, arg['m1']))
                    R.step(n)
                    c = np.sort(cdf(v))
                    ks = np.max(np.abs(c - (np.arange(n) + 0.5) / n))
                    R.check(ks < 0.04, lambda: "%s%r m1=%g: sampled "
                            "distribution off by %g" % (name, kw, arg['m1'],
                                                        ks))
                continue
            n = case['n']
            u = [(k + 0.5) / n for k in range(n)]
            a = dict(size=n, rng=ScriptedRNG(u))
            if extra:
                a['m1'] = np.full(n, extra[0])
            v = d.rvs(**a)
            R.step(n)
            R.check(len(v) == n, "number of samples")
            c = np.sort(cdf(v))
            tab = name in ('Kroupa2001', 'Chabrier2003', 'PowerLawMassRatio',
                           'PowerLawPeriod')
            if tab and (kw.get('m_min', 1) < 0.4):
                continue       # tabulated in linear mass: see DESIGN.md
            tol = 5e-3 if tab else 1e-4
            err = np.max(np.abs(c - np.array(u)))
            if kw.get('alpha') == 0.0:
                err = 0.0      # flat bins are filled with a second variate
            R.check(err < tol, lambda: "%s%r: quantiles off by %g" %
                    (name, kw, err))
            R.check(bool(np.all((v >= lo * (1 - 1e-12)) &
                                (v <= hi * (1 + 1e-12)))), "sample outside")
            R.outcome(name, sorted(kw.items()), ref)
        return
    from posydon.popsyn import norm_pop as N
    if case['kind'] == 'mean':
        got = N.get_mean_mass(dict(POPS[case['i']]))
        R.step()
        R.close(got, ref_mean(case['i']), "mean mass of population %d" %
                case['i'], rtol=2e-3)
        R.outcome('mean', case['i'], got)
        return
    import pandas as pd
    sim, req = POPS[case['i']], POPS[case['j']]
    rows = []
    for m1, q, P in SYSTEMS:
        rows.append(('initially_single_star' if q is None else 'detached', m1,
                     np.nan if q is None else m1 * q,
                     np.nan if P is None else P))
    df = pd.DataFrame(rows, columns=['state_i', 'S1_mass_i', 'S2_mass_i',
                                     'orbital_period_i'])
    df.index = [7 * k + 3 for k in range(len(df))]
    M = 12345.0
    fs, fr = sim['binary_fraction_const'], req['binary_fraction_const']
    if (fs == 1 and fr == 0) or (fs == 0 and fr == 1):
        with R.raises(ValueError, "impossible request"):
            N.calculate_model_weights(df, M, dict(sim), dict(req))
        return
    w = np.asarray(N.calculate_model_weights(df, M, dict(sim), dict(req)))
    R.step(len(rows))
    fac = ref_mean(case['i']) / ref_mean(case['j']) / M
    for k, (m1, q, P) in enumerate(SYSTEMS):
        a, b = ref_pdf(sim, m1, q, P), ref_pdf(req, m1, q, P)
        if a is None or b is None:
            continue
        want = 0.0 if a == 0 else b / a * fac
        R.check(abs(w[k] - want) <= 6e-3 * want + 1e-15, lambda: "system %r: "
                "weight %g, want %g" % (SYSTEMS[k], w[k], want))
    R.outcome('w', case['i'], case['j'], [float(x) for x in w])


def worker_init(R):
    import posydon.popsyn.norm_pop
