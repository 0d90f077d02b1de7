"""C32: interpolated final values honour the grid and the physics."""
import contextlib
import io
import itertools
import math

LEVEL = "model_checking"
RULE = ("every scaling x table of values; every constraint x combination of "
        "values (missing ones included) x stars present; every sequence of "
        "requested key sets; every grid (sampling, discarded runs, missing "
        "values) x interpolation method x classification x scaling, queried "
        "at every training run, between all neighbouring runs and outside; "
        "distinct by result")
ASSUMPTIONS = ["every class of a grid spans all three input dimensions",
               "training runs have distinct initial conditions",
               "a scaled column is not constant and lies in the domain of its "
               "scaling"]

NAN = float('nan')
COLS = [[1., 2.], [2., 1., 5.], [0.5, 1e3, 7., 7.], [-3., -1., -20.],
        [-1., 0., 2.], [0., 1.], [1e-8, 1e8], [10., 10.5, 9.75, 30., 1e4],
        [-1e6, 1e6, 3., 0.25]]
METHODS = ['min_max', 'log_min_max', 'neg_log_min_max', 'max_abs',
           'log_max_abs', 'standarize', 'log_standarize',
           'neg_log_standarize', 'log', 'none']
LIMITS = [(-1., 1.), (0., 1.), (2., 7.)]

ALLKEYS = ['log_Teff', 'log_L', 'log_R', 'log_LH', 'log_LHe', 'log_LZ',
           'log_Lnuc', 'he_core_mass', 'co_core_mass', 'he_core_radius',
           'co_core_radius', 'm_core_CE_1cent', 'm_core_CE_10cent',
           'm_core_CE_30cent', 'm_core_CE_pure_He_star_10cent',
           'r_core_CE_1cent', 'r_core_CE_10cent', 'r_core_CE_30cent',
           'r_core_CE_pure_He_star_10cent', 'mass_conv_reg_fortides',
           'thickness_conv_reg_fortides', 'radius_conv_reg_fortides',
           'direct_mass', 'Fryer+12-rapid_mass', 'Fryer+12-delayed_mass',
           'Sukhbold+16-engineN20_mass', 'Patton&Sukhbold20-engineN20_mass',
           'total_mass_h1', 'total_mass_he4'] + [
    p + '_' + e for p in ('center', 'surface')
    for e in ('h1', 'he4', 'c12', 'n14', 'o16', 'other')]
BINKEYS = ['binary_separation', 'period_days', 'star_1_mass', 'star_2_mass',
           'lg_system_mdot_1', 'lg_system_mdot_2', 'lg_mtransfer_rate',
           'xfer_fraction']
CHAINS = [['star_{}_mass', 'S{}_he_core_mass', 'S{}_co_core_mass'],
          ['S{}_log_R', 'S{}_he_core_radius', 'S{}_co_core_radius'],
          ['star_{}_mass', 'S{}_m_core_CE_1cent'],
          ['star_{}_mass', 'S{}_m_core_CE_10cent'],
          ['star_{}_mass', 'S{}_m_core_CE_30cent'],
          ['star_{}_mass', 'S{}_m_core_CE_pure_He_star_10cent'],
          ['S{}_log_R', 'S{}_r_core_CE_1cent'],
          ['S{}_log_R', 'S{}_r_core_CE_10cent'],
          ['S{}_log_R', 'S{}_r_core_CE_30cent'],
          ['S{}_log_R', 'S{}_r_core_CE_pure_He_star_10cent'],
          ['star_{}_mass', 'S{}_mass_conv_reg_fortides'],
          ['star_{}_mass', 'S{}_direct_mass'],
          ['star_{}_mass', 'S{}_Fryer+12-rapid_mass'],
          ['star_{}_mass', 'S{}_Fryer+12-delayed_mass'],
          ['star_{}_mass', 'S{}_Sukhbold+16-engineN20_mass'],
          ['star_{}_mass', 'S{}_Patton&Sukhbold20-engineN20_mass'],
          ['lg_mtransfer_rate', 'lg_system_mdot_{}'],
          ['star_{}_mass', 'S{}_total_mass_h1'],
          ['star_{}_mass', 'S{}_total_mass_he4']]
SUMS = ['center', 'surface']


def bounds(tier):
    q = tier == 'quick'
    return {'key_sequences': 3, 'grids': 16 if q else 48,
            'configurations': 9, 'chain_values': 6 if q else 8,
            'thickness_values': 9 if q else 14}


# --- cases -------------------------------------------------------------------
MENU = ['all', 'nothing', 'one-chain', 'half-a', 'half-b', 'star1']


def gridmenu(tier):
    out = []
    for q in (0, 1):
        for drop in (0, 1, 2, 3):
            for nan in (0, 1, 2):
                for flip in (0, 1):
                    out.append([q, drop, nan, flip])
    return out[::3] if tier == 'quick' else out


CFGS = [('classes', 'kNN', 'auto'), ('classes', '1NN', 'auto'),
        ('classes', '1NN', 'lin'), ('classes', 'kNN', 'log'),
        ('mixed', 'kNN', 'lin'), ('linear', '1NN', 'lin'),
        ('linear', 'kNN', 'auto'), ('1NN', '1NN', 'auto'),
        ('1NN', 'kNN', 'lin')]


def cases(tier):
    for g in gridmenu(tier):
        for c in range(len(CFGS)):
            yield {'kind': 'train', 'g': g, 'cfg': c}
    for m in METHODS:
        yield {'kind': 'scale', 'm': m}
    for i in range(len(CHAINS)):
        yield {'kind': 'chain', 'i': i, 'n': bounds(tier)['chain_values']}
    yield {'kind': 'laws'}
    for r in range(5):
        yield {'kind': 'thick', 'r': r, 'n': bounds(tier)['thickness_values']}
    for s in SUMS:
        for h in range(4):
            yield {'kind': 'sum', 's': s, 'h': h}
    for n in (1, 2, 3):
        for seq in itertools.product(MENU, repeat=n):
            yield {'kind': 'seq', 'seq': list(seq)}
    for order in (0, 1):
        for g in gridmenu(tier)[:2 if tier == 'quick' else 4]:
            yield {'kind': 'multi', 'order': order, 'g': g}


# --- scaling -----------------------------------------------------------------
def scale(case, R):
    import numpy as np

    from posydon.interpolation.data_scaling import DataScaler
    m = case['m']
    for col in COLS:
        if 'log' in m:
            s = -1 if m.startswith('neg') else 1
            if min(s * v for v in col) <= 0:
                continue
        x = np.array(col)
        if m == 'log_max_abs' and np.all(x == 1):
            continue
        for lo, hi in LIMITS:
            sc = DataScaler()
            x0 = x.copy()
            sc.fit(x, method=m, lower=lo, upper=hi)
            t = sc.transform(x)
            R.step(2)
            tag = "%s of %s into %s" % (m, col, (lo, hi))
            R.check(np.array_equal(x, x0), tag + ": data changed")
            tol = 1e-9 if 'log' in m else 1e-12 * float(np.abs(x).max())
            R.close(list(sc.inv_transform(t)), col, tag + ": way back",
                    rtol=1e-9, atol=tol)
            t2 = DataScaler().fit_and_transform(x, method=m, lower=lo,
                                                upper=hi)
            R.check(np.allclose(t, t2, rtol=1e-12, atol=1e-12),
                    tag + ": fit_and_transform")
            if 'min_max' in m:
                R.close([float(t.min()), float(t.max())], [lo, hi],
                        tag + ": range", rtol=1e-9, atol=1e-9)
            elif 'max_abs' in m:
                R.close(float(np.abs(t).max()), 1., tag + ": largest",
                        rtol=1e-9)
            elif 'standarize' in m:
                R.close([float(t.mean()), float(t.std())], [0., 1.],
                        tag + ": mean and deviation", rtol=1e-7, atol=1e-7)
            elif m == 'none':
                R.check(np.array_equal(t, x), tag + ": changed")
            # order is kept (reversed for the logarithm of -x)
            o = np.argsort(x, kind='stable')
            d = np.diff(t[o])
            R.check(bool(np.all(d <= 1e-12)) if m.startswith('neg')
                    else bool(np.all(d >= -1e-12)), tag + ": order")
            # other values go both ways as well
            y = np.array(col[:1] * 2) * 1.25
            R.close(list(sc.inv_transform(sc.transform(y))), list(y),
                    tag + ": way back of %s" % y, rtol=1e-9, atol=tol)
            R.outcome(m, round(float(t[0]), 9))
    for f in ('transform', 'inv_transform'):
        with R.raises(AssertionError, "%s before fit" % f):
            getattr(DataScaler(), f)(np.array([1., 2.]))
    with R.raises(ValueError, "unknown scaling"):
        DataScaler().fit(np.array([1., 2.]), method='what')


# --- constraints -------------------------------------------------------------
def values(stars=(1, 2)):
    """Final values which obey all constraints."""
    from posydon.utils.common_functions import (orbital_separation_from_period,
                                                stefan_boltzmann_law)
    v = {}
    for s in stars:
        M, lR, lL = 20. - 8 * s, 1.0 + 0.2 * s, 4.0
        x = {'log_L': lL, 'log_R': lR,
             'log_Teff': math.log10(stefan_boltzmann_law(10**lL, 10**lR)),
             'log_LH': 2., 'log_LHe': 3., 'log_LZ': 1.5,
             'log_Lnuc': math.log10(10**2. + 10**3. + 10**1.5),
             'he_core_mass': 0.3 * M, 'co_core_mass': 0.2 * M,
             'he_core_radius': 1., 'co_core_radius': 0.5,
             'mass_conv_reg_fortides': 0.1 * M,
             'thickness_conv_reg_fortides': 0.2 * 10**lR,
             'radius_conv_reg_fortides': 0.6 * 10**lR,
             'total_mass_h1': 0.5 * M, 'total_mass_he4': 0.4 * M}
        for k in ALLKEYS:
            if k.startswith('m_core_CE'):
                x[k] = 0.35 * M
            elif k.startswith('r_core_CE'):
                x[k] = 2.
            elif k.endswith('_mass') and ('+' in k or '&' in k
                                          or k == 'direct_mass'):
                x[k] = 0.9 * M
            elif k.startswith(('center', 'surface')):
                x[k] = {'h1': .5, 'he4': .25, 'c12': .125, 'n14': .0625,
                        'o16': .03125, 'other': .03125}[k.split('_')[1]]
        for k in ALLKEYS:
            v['S%d_%s' % (s, k)] = x[k]
        v['star_%d_mass' % s] = M
        v['lg_system_mdot_%d' % s] = -7.
    v.setdefault('star_2_mass', 4.)
    v.update({'period_days': 50., 'lg_mtransfer_rate': -6.})
    v['binary_separation'] = orbital_separation_from_period(
        50., v['star_1_mass'], v['star_2_mass'])
    if 2 in stars:
        v['xfer_fraction'] = 1 - 10.**-1
    return v


def near(a, b, rtol=1e-9):
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= rtol * max(abs(a), abs(b), 1e-30) + 1e-12


def sanitized(R, v, tag):
    from posydon.interpolation.constraints import (
        find_constraints_to_apply, sanitize_interpolated_quantities)
    cons = find_constraints_to_apply(list(v))
    before = dict(v)
    out = sanitize_interpolated_quantities(v, cons)
    R.step()
    R.check(all(near(v[k], before[k]) for k in before) and len(v) == len(
        before), tag + ": the given values are changed")
    R.eq(list(out), list(v), tag + ": keys")
    again = sanitize_interpolated_quantities(out, cons)
    bad = [k for k in out if not near(out[k], again[k], 1e-7)]
    R.check(not bad, tag + ": applying the constraints again changes %s"
            % [(k, out[k], again[k]) for k in bad])
    return out


def laws_hold(R, out, stars, tag):
    """The laws between the values of a sanitized dictionary."""
    from posydon.utils.common_functions import (orbital_separation_from_period,
                                                stefan_boltzmann_law)
    fin = math.isfinite
    for s in stars:
        g = lambda k: out['S%d_%s' % (s, k)]
        L, Rr = g('log_L'), g('log_R')
        T = (math.log10(stefan_boltzmann_law(10**L, 10**Rr))
             if fin(L) and fin(Rr) else NAN)
        R.check(near(g('log_Teff'), T), tag + ": Teff of star %d is %r, not "
                "%r" % (s, g('log_Teff'), T))
        x = [g('log_LH'), g('log_LHe'), g('log_LZ')]
        N = math.log10(sum(10**y for y in x)) if all(map(fin, x)) else NAN
        R.check(near(g('log_Lnuc'), N), tag + ": nuclear luminosity of star "
                "%d is %r, not %r" % (s, g('log_Lnuc'), N))
        for ch in CHAINS:
            x = [out[k.format(s)] for k in ch]
            if '_log_R' in ch[0]:
                x[0] = 10**x[0] if fin(x[0]) else x[0]
            for k, a, b in zip(ch[1:], x, x[1:]):
                if fin(a) and fin(b):
                    R.check(b <= a * (1 + 1e-12) if a > 0 else
                            b <= a + 1e-12,
                            tag + ": %s=%r exceeds %r" % (k.format(s), b, a))
        t, r = (g('thickness_conv_reg_fortides'),
                g('radius_conv_reg_fortides'))
        if fin(t) and fin(r) and fin(Rr):
            e = 1e-7 * 10**Rr
            R.check(t > 0 and r >= 0.5 * t - e and r + 0.5 * t <= 10**Rr + e,
                    tag + ": convective region of thickness %r at %r in a "
                    "star of %r" % (t, r, 10**Rr))
        for c in SUMS:
            x = [out['S%d_%s_%s' % (s, c, e)] for e in
                 ('h1', 'he4', 'c12', 'n14', 'o16', 'other')]
            if all(map(fin, x)):
                R.close(sum(x), 1.0, tag + ": sum of the %s abundances of "
                        "star %d" % (c, s), rtol=1e-8)
    x = [out[k] for k in ('period_days', 'star_1_mass', 'star_2_mass')]
    a = (orbital_separation_from_period(*x) if all(map(fin, x)) else NAN)
    R.check(near(out['binary_separation'], a), tag + ": separation %r, not %r"
            % (out['binary_separation'], a))
    if 2 in stars:
        m2, mt = out['lg_system_mdot_2'], out['lg_mtransfer_rate']
        if not (fin(m2) and fin(mt)):
            f = NAN
        elif m2 < -98 or mt < -98:
            f = 1.0
        else:
            f = 1 - 10**(m2 - mt)
        R.check(near(out['xfer_fraction'], f), tag + ": transferred fraction "
                "%r, not %r" % (out['xfer_fraction'], f))


def untouched(R, v, out, but, tag):
    bad = [k for k in v if k not in but and not near(v[k], out[k])]
    R.check(not bad, tag + ": %s changed" % [(k, v[k], out[k]) for k in bad])


def chain(case, R):
    ch = CHAINS[case['i']]
    lg = ch[0] == 'lg_mtransfer_rate'
    rad = '_log_R' in ch[0]
    vals = ([-99., -7., -6., -5.5, -3., NAN, -98.5, -4.] if lg else
            [0.5, 3., 6., 11.9, 12.5, NAN, 0., 40.])[:case['n']]
    tops = ([-6., -4., -99., NAN] if lg else
            [0.3, 1.0, 1.3, NAN] if rad else [2., 12., 30., NAN])
    for stars in ((1, 2), (1,)):
        base = values(stars)
        for s in stars:
            for top in tops:
                for sub in itertools.product(vals, repeat=len(ch) - 1):
                    v = dict(base)
                    v[ch[0].format(s)] = top
                    for k, x in zip(ch[1:], sub):
                        v[k.format(s)] = x
                    tag = "%s = %s" % ([k.format(s) for k in ch],
                                       (top,) + sub)
                    out = sanitized(R, v, tag)
                    laws_hold(R, out, stars, tag)
                    R.check(near(out[ch[0].format(s)], top),
                            tag + ": the largest one changed")
                    # what is in order stays
                    x = [10**top if rad else top] + list(sub)
                    if all(map(math.isfinite, x)) and all(
                            a >= b for a, b in zip(x, x[1:])):
                        for k, y in zip(ch[1:], sub):
                            R.check(near(out[k.format(s)], y),
                                    tag + ": %s changed" % k)
                    if all(map(math.isfinite, x)):
                        for j, (k, y) in enumerate(zip(ch[1:], sub)):
                            want = min(x[:j + 2])
                            R.check(near(out[k.format(s)], want),
                                    tag + ": %s is %r, not %r" % (
                                        k, out[k.format(s)], want))
                    o = 3 - s
                    untouched(R, v, out, [k for k in v if
                                          ('S%d_' % o) not in k[:3]], tag)
                    R.outcome('chain', case['i'], s, len(stars),
                              tuple(repr(out[k.format(s)]) for k in ch))


def laws(case, R):
    for stars in ((1, 2), (1,)):
        base = values(stars)
        for s in stars:
            for L, r in itertools.product((-1., 0., 3., 5.5, NAN),
                                          (0.6, 1.0, 2.5, NAN)):
                for T in (0., 3.7, NAN):
                    v = dict(base)
                    v['S%d_log_L' % s], v['S%d_log_R' % s] = L, r
                    v['S%d_log_Teff' % s] = T
                    tag = "star %d L=%s R=%s Teff=%s" % (s, L, r, T)
                    laws_hold(R, sanitized(R, v, tag), stars, tag)
            for x in itertools.product((-99., 0., 4., NAN), repeat=3):
                v = dict(base)
                for k, y in zip(('LH', 'LHe', 'LZ'), x):
                    v['S%d_log_%s' % (s, k)] = y
                tag = "star %d luminosities %s" % (s, x)
                laws_hold(R, sanitized(R, v, tag), stars, tag)
        for x in itertools.product((0.5, 10., 4000., NAN),
                                   (1.2, 12., 60., NAN), (0.4, 12., NAN)):
            v = dict(base)
            v['period_days'], v['star_1_mass'], v['star_2_mass'] = x
            tag = "orbit %s" % (x,)
            laws_hold(R, sanitized(R, v, tag), stars, tag)
            R.outcome('orbit', x)
        for m2, mt in itertools.product((-99., -98., -7., -5., -2., NAN),
                                        repeat=2):
            for xf in (0., 0.3, NAN):
                v = dict(base)
                v.update({'lg_mtransfer_rate': mt})
                if 2 in stars:
                    v['lg_system_mdot_2'] = m2
                    v['xfer_fraction'] = xf
                v['lg_system_mdot_1'] = m2
                tag = "mass transfer %s of %s" % (m2, mt)
                laws_hold(R, sanitized(R, v, tag), stars, tag)
        out = sanitized(R, base, "lawful values")
        untouched(R, base, out, (), "lawful values")


def thick(case, R):
    import numpy as np
    Rs = (0.3, 1., 3., 12., 600.)[case['r']]
    fr = [0., 1 / 3, 0.5, 1., 1.5, 0.2, 2 / 3, -0.1, NAN, 0.05, 0.9, 1e-6,
          0.25, 2.][:case['n']]
    for stars in ((1, 2), (1,)):
        for s in stars:
            for t, r in itertools.product(fr, fr):
                v = values(stars)
                lR = math.log10(Rs)
                v['S%d_log_R' % s] = np.float64(lR)
                kt = 'S%d_thickness_conv_reg_fortides' % s
                kr = 'S%d_radius_conv_reg_fortides' % s
                RR = 10**lR
                v[kt], v[kr] = np.float64(t * RR), np.float64(r * RR)
                if t == 1 / 3:
                    v[kt] = np.float64(10**np.float64(lR) / 3)
                tag = "convective region %g at %g of R=%g" % (t, r, Rs)
                # a thin or missing region that is moved to the origin is
                # not claimed to stay
                try:
                    out = sanitized_once(R, v, tag)
                except AssertionError:
                    R.fail(tag + ": no valid region found")
                    continue
                if math.isnan(t) or math.isnan(r):
                    R.check(near(out[kt], v[kt]) and near(out[kr], v[kr]),
                            tag + ": changed")
                else:
                    e = 1e-7 * RR
                    a, b = out[kt], out[kr]
                    R.check(a > 0 and b >= a / 2 - e and b + a / 2 <= RR + e,
                            tag + ": became %g at %g" % (a / RR, b / RR))
                    if t > 1e-9 and r >= t / 2 + 1e-9 and (
                            r + t / 2 <= 1 - 1e-9):
                        R.check(near(a, t * RR) and near(b, r * RR),
                                tag + ": changed")
                R.outcome('thick', case['r'], s, t, r)


def sanitized_once(R, v, tag):
    from posydon.interpolation.constraints import (
        find_constraints_to_apply, sanitize_interpolated_quantities)
    R.step()
    return sanitize_interpolated_quantities(
        v, find_constraints_to_apply(list(v)))


def sums(case, R):
    els = ('h1', 'he4', 'c12', 'n14', 'o16', 'other')
    stars = (1, 2) if case['h'] % 2 else (1,)
    s = stars[-1]
    vals = (0., 0.2, 0.7) if case['h'] < 2 else (0.05, 1 / 6, NAN)
    base = values(stars)
    for x in itertools.product(vals, repeat=6):
        if sum(0 if math.isnan(y) else y for y in x) == 0:
            continue
        v = dict(base)
        keys = ['S%d_%s_%s' % (s, case['s'], e) for e in els]
        v.update(zip(keys, x))
        tag = "%s abundances %s" % (case['s'], x)
        out = sanitized(R, v, tag)
        got = [out[k] for k in keys]
        if any(map(math.isnan, x)):
            R.check(all(near(a, b) for a, b in zip(got, x)),
                    tag + ": changed")
        else:
            R.close(got, [y / sum(x) for y in x], tag, rtol=1e-8, atol=2e-9)
        untouched(R, v, out, keys, tag)
        R.outcome('sum', case['s'], s, x)


# --- sequences of key sets ---------------------------------------------------
def keyset(name):
    v = values()
    if name == 'all':
        return list(v)
    if name == 'nothing':
        return ['star_1_mass', 'star_2_mass']
    if name == 'one-chain':
        return ['star_1_mass', 'star_2_mass', 'S1_log_R', 'S2_log_R'] + [
            k.format(s) for s in (1, 2) for k in CHAINS[0][1:]]
    if name == 'star1':
        return [k for k in v if not k.startswith('S2_')]
    odd = [k for i, k in enumerate(ALLKEYS) if i % 2 == (name == 'half-a')]
    odd += ['log_R'] if 'log_R' not in odd else []
    return ['S%d_%s' % (s, k) for s in (1, 2) for k in odd] + [
        k for k in BINKEYS if name == 'half-a' or k != 'binary_separation']


def wild():
    """Values which break every constraint."""
    v = values()
    for i, k in enumerate(list(v)):
        if k.startswith('star_'):
            continue
        v[k] = v[k] * (1.7 + 0.01 * i) + 0.013 * i
    for s in (1, 2):
        v['S%d_log_R' % s] = 0.2 * s
        v['lg_system_mdot_%d' % s] = -3.
        for k in ALLKEYS:
            if k.startswith(('m_core', 'r_core')) or k.endswith('_mass'):
                v['S%d_%s' % (s, k)] = 77. + len(k)
    v['lg_mtransfer_rate'] = -6.
    return v


def expected(name):
    """What the constraints make of the wild values, set by set."""
    keys = keyset(name)
    v = {k: x for k, x in wild().items() if k in keys}
    stars = [1, 2] if 'S1_log_R' in v and 'S2_log_R' in v else [1]
    w = dict(v)
    for s in (1, 2):
        for ch in CHAINS:
            if s not in stars and not ch[0].startswith('lg_'):
                continue
            if not all(k.format(1) in v for k in ch):
                continue
            x = [w[k.format(s)] for k in ch]
            if '_log_R' in ch[0]:
                x[0] = 10**x[0]
            for j, k in enumerate(ch[1:]):
                w[k.format(s)] = min(x[:j + 2])
    return w


def seq(case, R):
    from posydon.interpolation.constraints import (
        find_constraints_to_apply, sanitize_interpolated_quantities)
    cons = [find_constraints_to_apply(keyset(n)) for n in case['seq']]
    R.step(len(cons))
    for n, c in zip(case['seq'], cons):
        v = {k: x for k, x in wild().items() if k in keyset(n)}
        got = sanitize_interpolated_quantities(dict(v), c)
        want = expected(n)
        tag = "constraints for %s within the requests %s" % (n, case['seq'])
        R.eq(sorted(got), sorted(v), tag + ": keys")
        for ch in CHAINS:
            for s in (1, 2):
                for k in ch[1:]:
                    k = k.format(s)
                    if k in want:
                        R.check(near(got[k], want[k]), tag +
                                ": %s is %r, not %r" % (k, got[k], want[k]))
        R.outcome('seq', n, tuple(round(x, 6) for x in got.values()))
    R.state('seq', tuple(case['seq']))


# --- training ----------------------------------------------------------------
M1 = [8., 11., 15., 21.]
PS = [2., 6., 20., 60., 200., 600., 2000.]
CLS = ['initial_MT', 'stable_MT', 'stable_MT', 'unstable_MT', 'unstable_MT',
       'no_MT', 'no_MT']
QS = [0.35, 0.6, 0.9]
M2 = [1.3, 3., 7.]
OUT = ['star_1_mass', 'star_2_mass', 'period_days', 'S1_he_core_mass',
       'S1_log_R', 'lg_mtransfer_rate', 'S1_const', 'S1_neg']
SN = 'SN_MODEL_v2_01'


class Grid:
    pass


def lin(row, a, b, c, d):
    return a * row[0] + b * row[1] + c * row[2] + d


def makegrid(g, form):
    """A grid whose final values are (log-)linear in the initial ones."""
    import numpy as np
    q, drop, nan, flip = g
    rows = []
    for i, m1 in enumerate(M1):
        for j in range(3):
            for k, p in enumerate(PS):
                # not regular: Delaunay simplices have to be unique
                e = [1 + 0.004 * ((u * i + v * j + w * k) % 11) for u, v, w in
                     ((2, 5, 7), (3, 7, 4), (5, 4, 9))]
                mm = m1 * e[0]
                rows.append([mm, QS[j] * mm * e[1] if q else M2[j] * e[1],
                             p * e[2], CLS[k], (i, j, k)])
        if q:
            rows.append([m1, m1, 60., 'unstable_MT', (i, 3, 3)])
    if flip:
        rows = rows[::-1]
    n = len(rows)
    f8 = 'f8'
    iv = np.zeros(n, dtype=[('star_1_mass', f8), ('star_2_mass', f8),
                            ('period_days', f8)])
    names = OUT + ['S1_allnan']
    fv = np.zeros(n, dtype=[(k, f8) for k in names] + [
        ('model_number', f8), ('interpolation_class', 'U30'),
        ('S1_state', 'U30'), ('S2_state', 'U30')])
    sn = np.zeros(n, dtype=[('S1_mass', f8), ('S1_spin', f8),
                            ('S1_CO_type', 'U10'), ('S1_SN_type', 'U10')])
    for i, (m1, m2, p, cl, (a, b, c)) in enumerate(rows):
        x2 = m2 / m1 if q else m2
        x = [m1, x2, p]
        if form == 'log':
            P = lambda A, B, C, D: (m1**A) * (x2**B) * (p**C) * D
            y = [P(.9, .1, .01, .8), P(.3, .8, 0., 1.1), P(-.2, .1, .9, 2.),
                 P(.7, .05, .01, .2), P(.4, .1, .1, .5), P(.2, .2, .2, 1.),
                 5.0, -P(.2, .1, .3, 1.)]
        else:
            y = [lin(x, .8, .01, 1e-4, .1), lin(x, .2, .5, 1e-4, .3),
                 lin(x, 1., 2., 1.3, 5.), lin(x, .2, .001, 1e-5, .2),
                 lin(x, .03, .01, 1e-4, 1.), lin(x, .1, .1, 1e-3, -8.),
                 5.0, lin(x, -.2, -.1, -1e-3, -1.)]
        iv[i] = (m1, m2, p)
        if drop == 3 and c in (2, 4) and (a + b) % 4 == 1:
            iv[i]['period_days' if a % 2 else 'star_2_mass'] = NAN
        elif drop and c in (2, 4) and (a + b) % 4 == 1:
            cl = ('not_converged' if drop == 1 else 'ignored_no_RLO' if a % 2
                  else 'ignored_no_binary_history')
        if nan and (a + 2 * b + c) % 7 == 3:
            y[3] = NAN
        if nan == 2 and c == 5:
            y[5] = NAN
        fv[i] = tuple(y) + (NAN, float(i), cl, 'st%d' % (c // 3),
                            'None' if b else 'other')
        sn[i] = (m1 * .4, .1 * a, 'BH' if a > 1 else 'NS', 'CCSN')
    gr = Grid()
    gr.initial_values, gr.final_values = iv, fv
    gr.SN_MODELS = {SN: sn}
    return gr


class Star:
    pass


def binary(m1, m2, p):
    b = Star()
    b.star_1, b.star_2 = Star(), Star()
    b.star_1.mass, b.star_2.mass, b.orbital_period = m1, m2, p
    return b


CN = ['no_MT', 'stable_MT', 'unstable_MT']


def params(cfg, classes=CN, out=OUT, cky=None):
    meth, cm, sc = cfg
    kw = {'class_method': cm, 'out_keys': list(out)}
    if meth == 'classes':
        kw.update(interp_method=['linear'] * len(classes),
                  interp_classes=list(classes))
    elif meth == 'mixed':
        kw.update(interp_method=['linear', '1NN', 'linear'][:len(classes)],
                  interp_classes=list(classes))
    else:
        kw.update(interp_method=meth)
    if sc == 'lin':
        kw.update(in_scaling=['min_max'] * 3,
                  out_scaling=['min_max'] * len(out))
    elif sc == 'log':
        kw.update(in_scaling=['log_min_max'] * 3,
                  out_scaling=['log_min_max'] * len(out))
    if sc != 'auto':
        for i, k in enumerate(out):
            if k == 'S1_const':
                kw['out_scaling'][i] = 'none'
            elif k == 'S1_neg' and sc == 'log':
                kw['out_scaling'][i] = 'neg_log_min_max'
    if cky:
        kw.update(c_keys=[cky], c_key=cky)
    return kw


def quiet():
    import warnings
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    st.enter_context(contextlib.redirect_stderr(io.StringIO()))
    st.enter_context(warnings.catch_warnings())
    warnings.simplefilter('ignore')
    return st


def train(case, R):
    import numpy as np

    from posydon.interpolation.IF_interpolation import (BaseIFInterpolator,
                                                        IFInterpolator)
    meth, cm, sc = cfg = CFGS[case['cfg']]
    form = 'log' if sc == 'log' else 'lin'
    q, drop, nan, flip = case['g']
    gr = makegrid(case['g'], form)
    fv0, iv0 = gr.final_values.copy(), gr.initial_values.copy()
    what = "grid %s %s" % (case['g'], cfg)
    with quiet(), R.tmp() as d:
        ip = IFInterpolator(grid=gr, interpolators=[params(cfg)])
        ip.train()
        R.step()
        R.check(gr.initial_values.tobytes() == iv0.tobytes()
                and gr.final_values.tobytes() == fv0.tobytes(),
                what + ": training changes the grid")
        fv, iv = fv0, iv0
        cls = [str(c) for c in fv['interpolation_class']]
        val = np.array([[float(fv[k][i]) for k in OUT]
                        for i in range(len(fv))])
        used = [i for i in range(len(fv)) if cls[i] in CN and not (
            q and iv['star_1_mass'][i] == iv['star_2_mass'][i]) and not any(
                math.isnan(iv[k][i]) for k in iv.dtype.names)]
        known = used + [i for i in range(len(fv)) if cls[i] == 'initial_MT']
        X = np.array([[iv[k][i] for k in ('star_1_mass', 'star_2_mass',
                                          'period_days')]
                      for i in range(len(fv))])
        # --- the queries: runs, between runs of a class, outside
        pos = {tuple(X[i]): i for i in known}
        queries = [('run', i, tuple(X[i])) for i in known]
        grp = {}
        for i in used:
            grp.setdefault(cls[i], []).append(i)
        for c, ii in grp.items():
            for n, (i, j) in enumerate(itertools.combinations(ii, 2)):
                if n % 23:
                    continue
                # weighted mean in the scaled space, inside of the hull
                f, b_ = ((math.log, math.exp) if form == 'log' else
                         (float, float))
                m = []
                for dim in range(3):
                    Z = [f(X[r][1] / X[r][0] if q and dim == 1 else X[r][dim])
                         for r in ii]
                    zi, zj = (f(X[r][1] / X[r][0] if q and dim == 1
                                else X[r][dim]) for r in (i, j))
                    m.append(b_(.45 * zi + .35 * zj + .2 * sum(Z) / len(Z)))
                if q:
                    m[1] *= m[0]
                queries.append(('mid', c, tuple(m)))
        for p in ((30., 10., 300.), (5., 1.1, 40.), (30., 20., 5000.),
                  (12., 11.8, 3000.), (22., 9., 1.5), (21., 20.5, 30.),
                  (7., 6., 8.), (30., 2., 9.), (26., 3., 90.), (40., 5., 12.),
                  (7.5, 7., 1e4), (16., 1.1, 100.), (10., 1., 12.),
                  (19., 18., 4.)):
            queries.append(('out', None, p))
        Q = np.array([x for _, _, x in queries])
        mat = ip.test_interpolator(Q)
        kl = ip.test_classifiers(Q)
        R.step(len(Q))
        R.eq(mat.shape, (len(Q), len(OUT)), what + ": shape of the result")
        base = ip.interpolators[0]
        inq = bool(q)
        R.eq(bool(ip.interp_in_q), inq, what + ": sampled in q")
        lo = {c: np.nanmin(val[ii], axis=0) for c, ii in grp.items()}
        hi = {c: np.nanmax(val[ii], axis=0) for c, ii in grp.items()}
        glo, ghi = (np.nanmin(val[used], axis=0), np.nanmax(val[used], axis=0))
        byclass = meth in ('classes', 'mixed')

        for n, (kd, idx, x) in enumerate(queries):
            tag = what + ": %s %s %s" % (kd, idx, ['%g' % a for a in x])
            got = [float(a) for a in mat[n]]
            c = str(kl['interpolation_class'][n])
            R.check(c in CN + ['initial_MT'], tag + ": class %s" % c)
            if kd == 'run':
                for key in ('interpolation_class', 'S1_state', 'S2_state'):
                    R.eq(str(kl[key][n]), str(fv[key][idx]),
                         tag + ": %s" % key)
                R.eq(str(kl['S1_%s_CO_type' % SN][n]),
                     str(gr.SN_MODELS[SN]['S1_CO_type'][idx]),
                     tag + ": CO type")
                if cls[idx] == 'initial_MT':
                    if byclass:
                        R.check(all(map(math.isnan, got)), tag +
                                ": values %s of a run with mass transfer "
                                "from the start" % got)
                    continue
                for k, a, b, col in zip(OUT, got, val[idx], val[used].T):
                    if not math.isnan(b):
                        R.close(a, float(b), tag + ": " + k, rtol=1e-7,
                                atol=1e-9)
                    elif meth == '1NN':
                        R.check(math.isnan(a), tag + ": missing %s is %r"
                                % (k, a))
                    else:
                        R.check(bool(np.any(np.isclose(col, a, rtol=1e-7))),
                                tag + ": missing %s is %r" % (k, a))
                continue
            if byclass and c == 'initial_MT':
                R.check(all(map(math.isnan, got)), tag + ": %s" % got)
                continue
            l, h = (lo[c], hi[c]) if byclass else (glo, ghi)
            for j, k in enumerate(OUT):
                if nan and k in ('S1_he_core_mass', 'lg_mtransfer_rate'):
                    l_, h_ = glo[j], ghi[j]
                    if meth == '1NN':
                        continue
                else:
                    l_, h_ = l[j], h[j]
                s_ = 1e-7 * max(abs(l_), abs(h_), 1e-9)
                R.check(l_ - s_ <= got[j] <= h_ + s_, tag + ": %s = %r "
                        "outside of [%r, %r] of the runs" % (k, got[j], l_,
                                                             h_))
            linear = (meth in ('classes', 'linear') or
                      (meth == 'mixed' and c != 'stable_MT'))
            if kd == 'mid' and linear and sc != 'auto' and (
                    c == idx or meth == 'linear'):
                # linear in the scaled space: exact inside of the hull
                one = truth(x, q, form)
                for j, k in enumerate(OUT):
                    if nan and k in ('S1_he_core_mass', 'lg_mtransfer_rate'):
                        continue
                    R.close(got[j], one[j], tag + ": %s inside" % k,
                            rtol=1e-7, atol=1e-9)
            if (kd == 'out' or not linear) and not nan:
                # nearest run (of the class) in the scaled space
                pool = [i for i in used if not byclass or cls[i] == c]
                rows_ = [i for i in pool if np.allclose(
                    val[i], got, rtol=1e-7, atol=1e-9)]
                forms = {'lin': [(0, 0, 0)], 'log': [(1, 1, 1)]}.get(
                    sc, list(itertools.product((0, 1), repeat=3)))
                ref = pool if byclass and sc == 'auto' else known
                if not rows_ and linear and any(
                        inside(x, pool, X, q, f_) for f_ in forms):
                    continue
                if R.check(bool(rows_), tag + ": the values %s belong to no "
                           "run" % got):
                    R.check(any(nearest(x, rows_, pool, ref, X, q, f_)
                                for f_ in forms),
                            tag + ": not the nearest run")
            R.outcome(tuple(case['g']), case['cfg'], kd, c)
        # --- one by one, in other orders, as integers, from a binary
        for n in range(0, len(queries), 9):
            x = queries[n][2]
            one = ip.test_interpolator(Q[n:n + 1])[0]
            R.check(np.allclose(one, mat[n], rtol=1e-9, atol=1e-12,
                                equal_nan=True), what + ": %s alone gives "
                    "%s, among others %s" % (x, one, mat[n]))
            y, k = ip.evaluate(binary(*x))
            tag = what + ": evaluation of %s" % (x,)
            got = np.array([y[o] for o in OUT], dtype=float)
            init = str(kl['interpolation_class'][n]) == 'initial_MT'
            if not (init and cm != '1NN'):
                R.check(np.allclose(got, mat[n], rtol=1e-9, atol=1e-12,
                                    equal_nan=True),
                        tag + " gives %s, not %s" % (got, mat[n]))
            else:
                R.check(bool(np.all(np.isnan(got))), tag + ": %s" % got)
            R.check(math.isnan(y['S1_allnan']), tag + ": a column without "
                    "values is %r" % y['S1_allnan'])
            for key in k:
                if k[key] is not None:
                    R.eq(str(k[key]), str(kl[key][n]), tag + ": " + key)
        rev = ip.test_interpolator(Q[::-1])
        R.check(np.allclose(rev[::-1], mat, rtol=1e-9, atol=1e-12,
                            equal_nan=True), what + ": order of the queries")
        I = np.array([[15, 6, 20], [11, 3, 600], [21, 7, 6]])
        R.check(np.allclose(ip.test_interpolator(I), ip.test_interpolator(
            I.astype(float)), equal_nan=True), what + ": integers")
        a, _ = ip.evaluate(binary(15, 6, 20))
        b, _ = ip.evaluate(binary(15., 6., 20.))
        R.check(all(near(float(a[k]), float(b[k])) for k in b),
                what + ": binary with integers")
        # --- saving and loading, training again
        ip.save(d + '/i.pkl')
        other = IFInterpolator()
        other.load(d + '/i.pkl')
        R.check(np.allclose(other.test_interpolator(Q), mat, rtol=1e-9,
                            atol=1e-12, equal_nan=True), what + ": loaded")
        base.save(d + '/b.pkl')
        x0 = Q[0].copy()
        if q:
            x0[1] /= x0[0]
        one = BaseIFInterpolator(filename=d + '/b.pkl')
        R.check(np.allclose(one.evaluate_mat(x0)[0],
                            base.evaluate_mat(x0)[0], rtol=1e-9, atol=1e-12,
                            equal_nan=True),
                what + ": base interpolator loaded")
        if case['cfg'] in (2, 5, 7):
            ip.train()
            again = ip.test_interpolator(Q)
            R.check(again.shape == mat.shape and np.allclose(
                again, mat, equal_nan=True), what + ": trained again")


def scaled(rows, q, form):
    import numpy as np
    y = np.array(rows, dtype=float)
    if q:
        y[:, 1] = y[:, 1] / y[:, 0]
    for k in range(3):
        if form[k]:
            y[:, k] = np.log10(y[:, k])
    return y


def inside(x, pool, X, q, form):
    from scipy.spatial import Delaunay
    S = scaled([X[i] for i in pool], q, form)
    mn, mx = S.min(0), S.max(0)
    u = (scaled([x], q, form) - mn) / (mx - mn)
    t = Delaunay((S - mn) / (mx - mn))
    return bool(t.find_simplex(u, tol=1e-6)[0] >= 0)


def nearest(x, rows, pool, ref, X, q, form):
    """Whether one of the rows is the nearest one of the pool."""
    S = scaled([X[i] for i in ref], q, form)
    mn, mx = S.min(0), S.max(0)
    P = (scaled([X[i] for i in pool], q, form) - mn) / (mx - mn)
    u = (scaled([x], q, form) - mn) / (mx - mn)
    D = dict(zip(pool, ((P - u)**2).sum(axis=1)))
    return bool(min(D[i] for i in rows) <= min(D.values()) * (1 + 1e-6)
                + 1e-12)


def truth(x, q, form):
    m1, m2, p = x
    x2 = m2 / m1 if q else m2
    if form == 'log':
        P = lambda A, B, C, D: (m1**A) * (x2**B) * (p**C) * D
        return [P(.9, .1, .01, .8), P(.3, .8, 0., 1.1), P(-.2, .1, .9, 2.),
                P(.7, .05, .01, .2), P(.4, .1, .1, .5), P(.2, .2, .2, 1.),
                5.0, -P(.2, .1, .3, 1.)]
    y = [m1, x2, p]
    return [lin(y, .8, .01, 1e-4, .1), lin(y, .2, .5, 1e-4, .3),
            lin(y, 1., 2., 1.3, 5.), lin(y, .2, .001, 1e-5, .2),
            lin(y, .03, .01, 1e-4, 1.), lin(y, .1, .1, 1e-3, -8.),
            5.0, lin(y, -.2, -.1, -1e-3, -1.)]


def multi(case, R):
    """Two interpolators with their own classes in one object."""
    import numpy as np

    from posydon.interpolation.IF_interpolation import IFInterpolator
    gr = makegrid(case['g'], 'lin')
    a = params(('classes', '1NN', 'lin'), out=OUT)
    a['c_keys'] = ['interpolation_class']
    ky = 'S1_%s_CO_type' % SN
    so = ['S1_%s_mass' % SN, 'S1_%s_spin' % SN]
    b = params(('classes', '1NN', 'lin'), classes=['BH', 'NS'], out=so,
               cky=ky)
    b['out_scaling'] = ['min_max', 'min_max']
    ps = [a, b] if not case['order'] else [b, a]
    fv, iv = gr.final_values, gr.initial_values
    what = "two interpolators %s" % (case,)
    with quiet():
        alone = {}
        for n, p in (('a', a), ('b', b)):
            m = IFInterpolator(grid=gr, interpolators=[dict(p)])
            m.train()
            alone[n] = m
        ip = IFInterpolator(grid=gr, interpolators=[dict(p) for p in ps])
        ip.train()
        for i in range(len(fv)):
            c = str(fv['interpolation_class'][i])
            x = tuple(float(iv[k][i]) for k in (
                'star_1_mass', 'star_2_mass', 'period_days'))
            if c not in CN or x[0] == x[1] or any(map(math.isnan, x)):
                continue
            tag = what + ": run %s" % (x,)
            y, k = ip.evaluate(binary(*x))
            R.step()
            R.eq(str(k['interpolation_class']), c, tag + ": class")
            R.eq(str(k[ky]), str(gr.SN_MODELS[SN]['S1_CO_type'][i]), tag)
            R.close(float(y[so[0]]), float(gr.SN_MODELS[SN]['S1_mass'][i]),
                    tag + ": remnant mass", rtol=1e-7)
            ya, _ = alone['a'].evaluate(binary(*x))
            yb, _ = alone['b'].evaluate(binary(*x))
            for o in OUT:
                R.check(near(float(y[o]), float(ya[o])), tag + ": " + o)
            for o in so:
                R.check(near(float(y[o]), float(yb[o])), tag + ": " + o)
            row = ip.test_interpolator(np.array([x]))[0]
            cols = (OUT + so) if not case['order'] else (so + OUT)
            R.eq(len(row), len(cols), tag + ": columns")
            for o, v in zip(cols, row):
                R.check(near(float(v), float(y[o])), tag + ": column " + o)
            R.outcome('multi', case['order'], c)
        with R.raises(ValueError, what + ": keys in both"):
            IFInterpolator(grid=gr, interpolators=[a, dict(
                b, out_keys=so + OUT[:1])])
        with R.raises(ValueError, what + ": methods and classes differ"):
            m = IFInterpolator(grid=gr, interpolators=[dict(
                a, interp_method=['linear'])])
            m.train()


RUN = {'scale': scale, 'chain': chain, 'laws': laws, 'thick': thick,
       'sum': sums, 'seq': seq, 'train': train, 'multi': multi}


def execute(case, R):
    RUN[case['kind']](case, R)
