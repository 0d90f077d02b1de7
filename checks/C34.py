"""C34: the collapse of a stellar profile conserves mass."""
import contextlib
import io
import itertools
import math

LEVEL = "model_checking"
RULE = ("every profile (mass x size x structure x resolution x rotation law x "
        "composition) x every collapsing mass x central mass x neutrino loss; "
        "every supernova mechanism applied to stars with those profiles; "
        "every spin of the black hole on a grid; distinct by result")
ASSUMPTIONS = ["a profile lists cells from the surface to the centre, the "
               "density of a cell being its mean density",
               "the rotation is prograde and below break-up"]

G, C = 6.67428e-8, 2.99792458e10
MS, RS = 1.9892e33, 6.9598e10
TOT = [2.6, 4.0, 9.0, 30.0]
SIZE = [0.3, 3.0, 800.0]
LAWS = ['none', 'slow', 'solid', 'fast', 'shells', 'core', 'envelope', 'step']
RES = [12, 40, 150]
STRUCT = ['flat', 'steep']
COMP = ['he', 'layers', 'mixed']


def bounds(tier):
    q = tier == 'quick'
    return {'masses': len(TOT), 'sizes': len(SIZE), 'laws': len(LAWS),
            'resolutions': len(RES) - q, 'structures': 2, 'compositions': 3,
            'spins': 400}


def setup(root):
    from checks import C20
    C20.setup(root)


def worker_init(R):
    from checks import C20
    C20.worker_init(R)


def cases(tier):
    b = bounds(tier)
    for m, s, law, st, n in itertools.product(
            TOT, SIZE, LAWS, STRUCT, RES[:b['resolutions']]):
        yield {'kind': 'collapse', 'm': m, 's': s, 'law': law, 'st': st,
               'n': n}
    for m, st, co, n in itertools.product(TOT, STRUCT, COMP, RES):
        yield {'kind': 'ejecta', 'm': m, 'st': st, 'co': co, 'n': n}
    yield {'kind': 'isco'}
    for k in range(8):
        yield {'kind': 'broken', 'k': k}
    for mech in ('Fryer+12-rapid', 'Fryer+12-delayed', 'direct',
                 'direct_he_core', 'Sukhbold+16-engine'):
        for law in LAWS:
            for keep in (False, True):
                yield {'kind': 'step', 'mech': mech, 'law': law,
                       'keep': keep}
    for law in LAWS:
        yield {'kind': 'fine', 'law': law}


# --- profiles ----------------------------------------------------------------
def cells(m, size, st, n):
    """Enclosed mass and radius of the outer faces, from the centre."""
    M, Rr = [], []
    for i in range(1, n + 1):
        x = i / n
        # cells of unequal mass
        y = x + 0.3 * math.sin(2 * math.pi * x) / (2 * math.pi)
        M.append(m * y)
        Rr.append(size * (y ** (1 / 3.) if st == 'flat' else
                          0.1 * y ** (1 / 3.) + 0.9 * y ** 5))
    return M, Rr


def spin(law, M, Rr, i):
    """Angular frequency of a cell below break-up."""
    crit = math.sqrt(G * M[i] * MS / (Rr[i] * RS) ** 3)
    surf = math.sqrt(G * M[-1] * MS / (Rr[-1] * RS) ** 3)
    x = (i + 1) / len(M)
    return {'none': 0.0, 'slow': 1e-6 * surf, 'solid': 0.1 * surf,
            'fast': 0.95 * surf, 'shells': 0.3 * crit,
            'core': (0.8 if x < 0.3 else 1e-5) * crit,
            'envelope': (0.8 if x > 0.6 else 1e-5) * crit,
            'step': (0.5 if (i // 3) % 2 else 0.01) * crit}[law]


def element(co, x):
    """Hydrogen and helium fractions at a relative mass."""
    if co == 'he':
        return 0.0, 0.98
    if co == 'layers':
        return (0.7, 0.28) if x > 0.6 else (0.0, 0.98) if x > 0.3 else \
            (0.0, 0.0)
    return 0.6 * x * x, 0.4 * (1 - x * x) + 0.2 * x


def profile(m, size, st, n, law, co='layers', drop=()):
    import numpy as np
    M, Rr = cells(m, size, st, n)
    cols = ['mass', 'radius', 'logRho', 'omega', 'x_mass_fraction_H',
            'y_mass_fraction_He', 'he4', 'he3']
    cols = [c for c in cols if c not in drop]
    p = np.zeros(n, dtype=[(c, 'f8') for c in cols])
    for i in range(n):
        r0 = Rr[i - 1] * RS if i else 0.0
        m0 = M[i - 1] if i else 0.0
        x = M[i] / m
        h, he = element(co, x)
        val = {'mass': M[i], 'radius': Rr[i], 'logRho': math.log10(
            (M[i] - m0) * MS / (4 / 3. * math.pi * ((Rr[i] * RS) ** 3
                                                   - r0 ** 3))),
            'omega': spin(law, M, Rr, i), 'x_mass_fraction_H': h,
            'y_mass_fraction_He': he, 'he4': he, 'he3': 0.0}
        for c in cols:
            p[c][n - 1 - i] = val[c]
    return p


class Star:
    def __init__(self, p):
        self.profile = p


# --- reference ---------------------------------------------------------------
def isco(a):
    """Radius, specific angular momentum, energy at the ISCO (prograde)."""
    lo, hi = 1.0, 6.0
    f = lambda r: r * r - 6 * r + 8 * a * math.sqrt(r) - 3 * a * a
    for _ in range(200):
        mid = (lo + hi) / 2
        if f(mid) < 0:
            lo = mid
        else:
            hi = mid
    r = (lo + hi) / 2
    j = 2 / (3 * math.sqrt(3)) * (1 + 2 * math.sqrt(3 * r - 2))
    return r, j, math.sqrt(1 - 2 / (3 * r))


def reference(p, cut, central, nu):
    from scipy.integrate import simpson
    M = [float(x) * MS for x in p['mass'][::-1]]
    r = [float(x) * RS for x in p['radius'][::-1]]
    rho = [10 ** float(x) for x in p['logRho'][::-1]]
    om = [float(x) for x in p['omega'][::-1]]
    last = len(M) - 1
    for i, x in enumerate(M):
        if x / MS > cut:
            last = i
            break
    k = min(range(last + 1), key=lambda i: abs(M[i] - central * MS))
    mb = M[k] - nu * MS
    J = 8 * math.pi / 3 * mb / M[k] * float(simpson(
        [rho[i] * om[i] * r[i] ** 4 for i in range(k + 1)], x=r[:k + 1]))
    a = J * C / (G * mb * mb)
    if a > 0.99:
        a = 0.99
        J = a * G * mb * mb / C
    acc = rad = jet = 0.0
    for i in range(k + 1, last + 1):
        _, j, e = isco(a)
        j *= G * mb / C
        dm = M[i] - M[i - 1]
        mom = 4 * math.pi * rho[i] * om[i] * (r[i] ** 5 - r[i - 1] ** 5) / 5
        js = om[i] * r[i] ** 2
        if js < j:
            mb += dm
            J += mom * 2 / 3
            disk = 0.0
        else:
            s2 = j / js
            c = math.sqrt(1 - s2)
            disk = c * dm
            mb += (1 - c) * dm + e * disk
            J += mom * (2 / 3 - c + c ** 3 / 3) + j * disk
            acc += e * disk
            rad += (1 - e) * disk
        a = J * C / (G * mb * mb)
        if a > 1:
            return None
        jet += disk * C * C * a * a
    return {'M': mb / MS, 'a': a, 'acc': acc / MS, 'rad': rad / MS,
            'jet': jet, 'gone': M[last] / MS, 'shells': last - k,
            'lower': M[last - 1] / MS if last else 0.0}


def quiet():
    import warnings
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    st.enter_context(contextlib.redirect_stderr(io.StringIO()))
    st.enter_context(warnings.catch_warnings())
    warnings.simplefilter('ignore')
    return st


KEYS = ['M_BH_total', 'a_BH_total', 'm_disk_accreted', 'm_disk_radiated',
        'BZ_jet_power_total']


def judge(R, d, ref, cut, total, nu, tag):
    for k, w in zip(KEYS, ('M', 'a', 'acc', 'rad', 'jet')):
        R.close(float(d[k]), ref[w], tag + ": " + k, rtol=1e-7,
                atol=1e-9 if k[0] != 'B' else 1e30)
    M, a, acc, rad = (float(d[k]) for k in KEYS[:4])
    R.check(0 <= a <= 1, tag + ": spin %r" % a)
    R.check(acc >= 0 and rad >= 0, tag + ": disk %r, %r" % (acc, rad))
    R.close(M + rad + nu, ref['gone'], tag + ": mass of the remnant, "
            "radiation and neutrinos against the collapsed profile",
            rtol=1e-9)
    R.check(ref['lower'] - 1e-9 <= min(cut, total) <= ref['gone'] + 1e-9,
            tag + ": collapsed mass %r for a cut of %r" % (ref['gone'], cut))
    if acc > 1e-9:
        R.check(0.0571 < rad / (rad + acc) < 0.4227, tag +
                ": radiated fraction %r" % (rad / (rad + acc)))


def collapse(case, R):
    import numpy as np

    from posydon.binary_evol.SN.profile_collapse import do_core_collapse_BH
    m, n = case['m'], case['n']
    p = profile(m, case['s'], case['st'], n, case['law'])
    p0 = p.tobytes()
    M = p['mass'][::-1]
    cuts = [2 * m, m, float(M[-2]), 0.5 * float(M[-1] + M[-2]),
            0.97 * m, 0.75 * m]
    for cut in cuts:
        for central in (2.51, 2.6, 3.0, float(M[n // 2])):
            for nu in (0.0, 0.1, 0.5):
                if cut < central and cut != cuts[-1]:
                    continue
                ref = reference(p, cut, central, nu)
                tag = "profile %s, cut %g, centre %g, neutrinos %g" % (
                    {k: v for k, v in case.items() if k != 'kind'}, cut,
                    central, nu)
                if ref is None:
                    continue
                res = []
                for verbose in (False, True):
                    with quiet():
                        res.append(do_core_collapse_BH(
                            Star(p), cut, mass_central_BH=central,
                            neutrino_mass_loss=nu, verbose=verbose))
                    R.step()
                d = res[0]
                R.check(all(float(res[1][k]) == float(d[k]) or
                            math.isnan(d[k]) for k in KEYS),
                        tag + ": verbose differs")
                R.check(p.tobytes() == p0, tag + ": the profile changed")
                judge(R, d, ref, cut, m, nu, tag)
                if case['law'] == 'none':
                    R.check(d['a_BH_total'] == 0 and
                            d['m_disk_radiated'] == 0, tag + ": %s" % d)
                R.outcome(round(ref['M'], 6), round(ref['a'], 6))
                R.state(case['law'], ref['shells'], ref['acc'] > 0)
    # losses out of range
    for nu in (-0.1, 0.6):
        with R.raises(ValueError, "neutrino loss %g" % nu), quiet():
            do_core_collapse_BH(Star(p), m, neutrino_mass_loss=nu)
    with quiet():
        d = do_core_collapse_BH(Star(p), m, neutrino_mass_loss=0.6,
                                max_neutrino_mass_loss=0.7)
    R.step()


def isco_(case, R):
    from posydon.binary_evol.SN.profile_collapse import (
        BZ_jet_power, compute_isco_properties)
    n = bounds('quick')['spins']
    prev = None
    for i in range(n):
        a = 0.9999 * i / (n - 1)
        for m in (2.5, 10.0, 80.0):
            got = compute_isco_properties(a, m * MS)
            r, j, e = isco(a)
            R.step()
            want = (r * G * m * MS / C ** 2, j * G * m * MS / C, e)
            for x, w, t in zip(got, want, ('radius', 'momentum', 'energy')):
                R.close(float(x), w, "ISCO %s for a=%g, M=%g" % (t, a, m),
                        rtol=1e-5)
            R.outcome(i, m)
    for md, ep, ea in itertools.product((0.0, 1.0, 2e33), (0.0, 0.5, 1.0),
                                        (0.0, 0.3, 1.0)):
        R.close(float(BZ_jet_power(md, ep, ea)), md * ep * ea * C * C,
                "jet of %s" % ((md, ep, ea),), rtol=1e-12)


def ejecta(case, R):
    from posydon.binary_evol.SN.profile_collapse import \
        get_ejecta_element_mass_at_collapse as ej
    m, n = case['m'], case['n']
    p = profile(m, 3.0, case['st'], n, 'solid', case['co'])
    M = [float(x) for x in p['mass'][::-1]]
    X = [[float(x) for x in p[c][::-1]] for c in (
        'x_mass_fraction_H', 'y_mass_fraction_He')]
    cuts = sorted({0.0, 0.3 * m, 0.6 * m, 0.61 * m, m, 1.5 * m} | set(M) | {
        0.5 * (a + b) for a, b in zip(M, M[1:])} | {
        a + 0.999 * (b - a) for a, b in zip(M, M[1:])})
    prev = None
    for cut in cuts:
        got = None
        for verbose in (False, True):
            with quiet():
                g = ej(Star(p), cut, verbose)
            R.step()
            R.check(got is None or tuple(got) == tuple(g),
                    "cut %g of %s: verbose differs" % (cut, case))
            got = g
        tag = "ejecta above %g of %s" % (cut, case)
        for x, g in zip(X, got):
            lo = hi = 0.0
            for i in range(n):
                m0 = M[i - 1] if i else 0.0
                if m0 > cut:
                    lo += (M[i] - m0) * x[i]
                if M[i] > cut:
                    hi += (M[i] - max(m0, cut)) * x[i]
            R.check(lo - 1e-9 <= g <= hi + 1e-9, tag + ": %r, not within "
                    "[%r, %r]" % (g, lo, hi))
        R.check(sum(got) <= max(0.0, m - cut) + 1e-9, tag + ": more than "
                "the mass above")
        R.check(prev is None or all(a <= b + 1e-12 for a, b in zip(got, prev)),
                tag + ": more than above a lower mass")
        prev = got
        R.outcome(round(got[0], 9), round(got[1], 9))


def broken(case, R):
    from posydon.binary_evol.SN.profile_collapse import (
        do_core_collapse_BH, get_ejecta_element_mass_at_collapse)
    k = case['k']
    full = ['mass', 'radius', 'logRho', 'omega']
    el = ['x_mass_fraction_H', 'y_mass_fraction_He']
    stars = []
    if k < 4:
        stars.append((Star(profile(9., 3., 'flat', 20, 'fast',
                                   drop=[full[k]])), k == 0))
    elif k < 6:
        stars.append((Star(profile(9., 3., 'flat', 20, 'fast',
                                   drop=[el[k - 4]])), True))
    elif k == 6:
        stars.append((Star(None), True))
    else:
        s = Star(None)
        del s.profile
        stars.append((s, True))
    for s, noel in stars:
        for central, nu in itertools.product((2.51, 3.0, 5.0), (0.0, 0.4)):
            with quiet():
                d = do_core_collapse_BH(s, 9.0, mass_central_BH=central,
                                        neutrino_mass_loss=nu)
            R.step()
            tag = "profile %d, centre %g, neutrinos %g" % (k, central, nu)
            if k in (4, 5):
                R.check(d['M_BH_total'] > 5, tag + ": %s" % d)
                continue
            R.close(float(d['M_BH_total']), central - nu, tag + ": mass",
                    rtol=1e-9)
            R.check(all(math.isnan(d[x]) for x in KEYS[1:]), tag + ": %s" % d)
        with quiet():
            g = get_ejecta_element_mass_at_collapse(s, 3.0, True)
        R.check((tuple(g) == (0.0, 0.0)) == noel, "profile %d: ejecta %s" % (
            k, g))
        R.outcome(k, noel)


def fine(case, R):
    """Many cells: the integral over the profile."""
    from posydon.binary_evol.SN.profile_collapse import do_core_collapse_BH
    law = case['law']
    if law == 'step':
        return
    for m, st in itertools.product((9.0, 30.0), STRUCT):
        last = None
        for n in (1500, 3000):
            p = profile(m, 1.0, st, n, law)
            with quiet():
                d = do_core_collapse_BH(Star(p), m, neutrino_mass_loss=0.2,
                                        mass_central_BH=2.7)
            R.step()
            tag = "%s %s %g, %d cells" % (law, st, m, n)
            mom = tot = 0.0
            r = [0.0] + [float(x) * RS for x in p['radius'][::-1]]
            for i in range(n):
                mom += (8 * math.pi / 3 * 10 ** float(p['logRho'][n - 1 - i])
                        * float(p['omega'][n - 1 - i])
                        * (r[i + 1] ** 5 - r[i] ** 5) / 5)
            a = float(d['a_BH_total'])
            if d['m_disk_radiated'] == 0 and a < 0.9:
                want = mom * C / (G * (m * MS - 0.2 * MS) ** 2)
                R.close(a, want, tag + ": spin", rtol=0.05, atol=1e-9)
            if last is not None:
                R.close(a, last, tag + ": converged", rtol=0.03, atol=1e-6)
            last = a
            R.outcome(law, st, m, n)


def step(case, R):
    import numpy as np

    from checks import C20
    from posydon.binary_evol.SN.step_SN import StepSN
    mech, law, keep = case['mech'], case['law'], case['keep']
    for nsmax, numax in itertools.product((2.0, 2.5), (0.0, 0.5)):
        with quiet():
            st = StepSN(mechanism=mech, engine=C20.ENGINE.get(mech, ''),
                        ECSN='Tauris+15', PISN=None, max_NS_mass=nsmax,
                        max_neutrino_mass_loss=numax,
                        conserve_hydrogen_envelope=keep,
                        use_interp_values=False, use_profiles=True,
                        use_core_masses=True, kick=False)
        for co, hex_, env, n in itertools.product(
                (1.4, 2.0, 3.2, 5.0, 6.5, 9.0, 12.0), (0.4, 4.0),
                (0.0, 10.0), (12, 40)):
            he = co + hex_
            m = he + env
            ty, bar, _ = C20.remnant(mech, 'Tauris+15', None, keep, m, he, co,
                                     0.1, None)
            if bar is C20.AMB or ty in ('error', C20.AMB) or bar is None:
                continue
            which = 1 if n == 12 else 2
            s = C20.star(m, he, co, 'stripped_He_Core_C_depleted'
                         if env == 0 else 'H-rich_Core_C_depleted')
            p = profile(m, 3.0, 'steep', n, law)
            s.profile = p.copy()
            b = C20.binary(s, which)
            grav = 20 / 3. * (math.sqrt(1 + 0.3 * bar) - 1)
            nu = min(bar - grav, numax)
            grav = bar - nu
            tag = "%s, envelope %s, rotation %s, limits %g, %g: star %g, %g, " \
                "%g (%d cells)" % (mech, keep, law, nsmax, numax, m, he, co,
                                   n)
            if ty == 'WD':
                continue
            amb = abs(grav - nsmax) < 1e-9
            if amb:
                continue
            ref = None
            if grav >= nsmax:
                ref = reference(p, bar, nsmax + nu, nu)
                if ref is None:
                    continue
            with quiet():
                st(b)
            R.step()
            t = C20.pick(b, which)
            if ref is None:
                R.eq(str(t.state), 'NS', tag + ": remnant")
                R.close(float(t.mass), grav, tag + ": mass", rtol=1e-9)
                R.check(t.spin == 0 and t.m_disk_accreted == 0
                        and t.m_disk_radiated == 0, tag + ": spin, disk")
            else:
                R.eq(str(t.state), 'BH', tag + ": remnant")
                judge(R, {'M_BH_total': t.mass, 'a_BH_total': t.spin,
                          'm_disk_accreted': t.m_disk_accreted,
                          'm_disk_radiated': t.m_disk_radiated,
                          'BZ_jet_power_total': ref['jet']}, ref, bar, m, nu,
                      tag)
                R.check(t.mass <= m + 1e-9, tag + ": heavier than the star")
            lo = hi = 0.0
            M = [float(x) for x in p['mass'][::-1]]
            X = [float(x) for x in p['x_mass_fraction_H'][::-1]]
            for i in range(n):
                m0 = M[i - 1] if i else 0.0
                if m0 > t.mass:
                    lo += (M[i] - m0) * X[i]
                if M[i] > t.mass:
                    hi += (M[i] - max(m0, t.mass)) * X[i]
            R.check(lo - 1e-9 <= t.h1_mass_ej <= hi + 1e-9, tag +
                    ": ejected hydrogen %r, not within [%r, %r]" % (
                        t.h1_mass_ej, lo, hi))
            R.check(t.h1_mass_ej + t.he4_mass_ej <= m - t.mass + 1e-9,
                    tag + ": ejected more than there is")
            R.outcome(str(t.state), round(float(t.mass), 6),
                      round(float(t.spin), 6))


RUN = {'collapse': collapse, 'isco': isco_, 'ejecta': ejecta,
       'broken': broken, 'step': step, 'fine': fine}


def execute(case, R):
    RUN[case['kind']](case, R)
