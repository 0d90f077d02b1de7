"""C21: orbits after a supernova."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every combination of a grid of masses, eccentricity, mean anomaly, "
        "kick speed and direction, exploding star and binary state through "
        "the real supernova step; every kick prescription and normalisation "
        "for fixed seeds; distinct by resulting orbit")
ASSUMPTIONS = ["reference: Newtonian two-body mechanics from state vectors",
               "for eccentric orbits the angle between radius and velocity "
               "is known to 5 digits of its sine only (the step rounds it)",
               "the azimuth of the kick is counted from the orbital angular "
               "momentum towards velocity x angular momentum"]

G, MSUN, RSUN = 6.67428e-8, 1.9892e33, 6.9598e10
STARS = [(6.0, 5.0, 3.0, 5.0), (12.0, 12.0, 9.0, 30.0), (25.0, 20.0, 14.0,
         1.4), (2.6, 2.6, 1.6, 12.0)]
ECC = [0.0, 0.01, 0.2, 0.7, 0.95]
ANOM = [0.0, 0.3, 0.9, 2.0, math.pi, 4.4, 6.0]
VK = [0.0, 30.0, 80.0, 200.0, 450.0, 900.0]
TH = [0.0, 0.8, math.pi / 2, 2.6, math.pi]
PH = [0.0, 1.1, math.pi / 2, 3.6, 5.5]
SEP = [15.0, 400.0]


def bounds(tier):
    return {"stars": len(STARS), "ecc": len(ECC), "anomalies": len(ANOM),
            "speeds": len(VK), "polar": len(TH), "azimuth": len(PH),
            "separations": 2}


def cases(tier):
    for i, s in enumerate(STARS):
        for e in ECC:
            for a in ANOM:
                for sep in SEP:
                    for v in VK:
                        yield {'kind': 'kick', 'star': i, 'e': e, 'M': a,
                               'sep': sep, 'v': v}
    for i in range(len(STARS)):
        for st in ('disrupted', 'initially_single_star', 'merged'):
            yield {'kind': 'single', 'star': i, 'state': st}
    for pr in ('maxwellian', 'log_normal', 'asym_ej', 'linear'):
        for nm in ('one_minus_fallback', 'one_over_mass', 'zero', 'one',
                   'NS_one_minus_fallback_BH_one'):
            yield {'kind': 'draw', 'pr': pr, 'norm': nm}
    for t1, t2 in itertools.product((0.0, 0.4, -1.0, 2.5), repeat=2):
        yield {'kind': 'tilt', 't1': t1, 't2': t2}
    for first in (1, 2):
        for tw in itertools.product((0.0, 0.5, 2.2), repeat=2):
            yield {'kind': 'two', 'first': first, 't': list(tw)}
    for st in ('WD', 'PISN'):
        for s in ('detached', 'disrupted', 'merged', 'RLO2',
                  'initially_single_star'):
            for kick in (True, False):
                yield {'kind': 'nokick', 'what': st, 'state': s,
                       'kick': kick}


def star(i, **kw):
    from posydon.binary_evol.singlestar import SingleStar
    m, he, co, _ = STARS[i]
    d = dict(mass=m, he_core_mass=he, co_core_mass=co, metallicity=1.0,
             state='stripped_He_Core_C_depleted' if m == he else
             'H-rich_Core_C_depleted', log_total_angular_momentum=49.0,
             center_he4=0.0, center_h1=0.0, center_c12=0.0,
             surface_h1=0.0 if m == he else 0.6, log_LH=-20., log_LHe=-20.,
             log_Lnuc=-5.0)
    d.update(kw)
    return SingleStar(**d)


def comp(m, state='H-rich_Core_H_burning', **kw):
    from posydon.binary_evol.singlestar import SingleStar
    d = dict(mass=m, state=state)
    if state == 'H-rich_Core_H_burning':
        d.update(center_h1=0.5, center_he4=0.48, center_c12=0.001,
                 surface_h1=0.7, log_LH=3.0, log_LHe=-20.0, log_Lnuc=3.0)
    d.update(kw)
    return SingleStar(**d)


def binary(s, o, which, **kw):
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.simulationproperties import SimulationProperties
    a, b = (s, o) if which == 1 else (o, s)
    d = dict(state='detached', event='CC%d' % which, time=1.5e7,
             separation=100.0, orbital_period=20.0, eccentricity=0.0,
             V_sys=[0., 0., 0.], properties=SimulationProperties())
    d.update(kw)
    return BinaryStar(star_1=a, star_2=b, **d)


def step(**kw):
    from posydon.binary_evol.SN.step_SN import StepSN
    d = dict(mechanism='Fryer+12-rapid', PISN=None, use_interp_values=False,
             use_profiles=False, use_core_masses=True)
    d.update(kw)
    return StepSN(**d)


def pick(b, w):
    return b.star_1 if w == 1 else b.star_2


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def after(mpre, mpost, mc, sep, e, M, vk, th, ph):
    """Orbit after the explosion (cgs inside): dict or None if unbound."""
    A = sep * RSUN
    lo, hi = 0.0, 2 * math.pi
    for _ in range(200):
        E = 0.5 * (lo + hi)
        if E - e * math.sin(E) < M:
            lo = E
        else:
            hi = E
    r = A * (1 - e * math.cos(E))
    Mt, Mp = (mpre + mc) * MSUN, (mpost + mc) * MSUN
    # position of the exploding star relative to its companion: along x
    n = math.sqrt(G * Mt / A ** 3)
    vr = n * A * e * math.sin(E) / (1 - e * math.cos(E))
    vt = n * A * math.sqrt(1 - e * e) / (1 - e * math.cos(E))
    v0 = [vr, vt, 0.0]
    V = math.hypot(vr, vt)
    vh = [vr / V, vt / V, 0.0]
    nh = [vh[1], -vh[0], 0.0]
    k = [vk * 1e5 * (math.cos(th) * vh[i] + math.sin(th) * (
        math.cos(ph) * (i == 2) + math.sin(ph) * nh[i])) for i in range(3)]
    v1 = [a + b for a, b in zip(v0, k)]
    en = 0.5 * dot(v1, v1) - G * Mp / r
    L = cross([r, 0, 0], v1)
    out = {'en': en / (G * Mp / r), 'V': V, 'E': E}
    vs = [(mpost * MSUN * v1[i] / Mp - mpre * MSUN * v0[i] / Mt) / 1e5
          for i in range(3)]
    a = -G * Mp / (2 * en) if en else float('inf')
    x = dot(L, L) / (G * Mp * a) if en < 0 else 0.0
    out.update(a=a / RSUN, e=math.sqrt(max(0.0, 1 - x)), v=vs,
               L=L[2] / math.sqrt(dot(L, L)) if dot(L, L) else 1.0,
               sgn=k[2], ta=math.atan2(math.sqrt(1 - e * e) * math.sin(E),
                                       math.cos(E) - e))
    return out


def run_kick(case, R):
    i = case['star']
    mpre, _, _, mc = STARS[i]
    S = step(kick=True)
    exact = case['e'] == 0.0
    for th in TH:
        for ph in PH:
            if (case['v'] == 0 or th in (0.0, math.pi)) and ph != PH[1]:
                continue
            res = []
            for which in (1, 2):
                o = comp(mc) if mc > 2 else comp(mc, 'NS')
                s = star(i, natal_kick_array=[case['v'], ph, th, case['M']])
                b = binary(s, o, which, separation=case['sep'],
                           eccentricity=case['e'])
                if ph in (PH[1], PH[2]):
                    # the stars have a past with other masses
                    up = ph == PH[1]
                    for t, f in ((b.star_1, 1.7 if up else 0.4), (
                            b.star_2, 0.4 if up else 1.7)):
                        for k, h in vars(t).items():
                            if k.endswith('_history') and type(h) is list:
                                h.insert(0, h[0])
                        t.mass_history[0] *= f
                    for k, h in vars(b).items():
                        if k.endswith('_history') and type(h) is list:
                            h.insert(0, h[0])
                    b.separation_history[0] *= 3
                S(b)
                R.step()
                s = pick(b, which)
                R.eq(pick(b, 3 - which).mass, mc, "companion mass")
                R.eq(b.time, 1.5e7, "time after the supernova")
                R.check(b.event is None, "event after the supernova")
                R.eq(s.natal_kick_velocity, case['v'], "kick speed")
                w = after(mpre, s.mass, mc, case['sep'], case['e'],
                          case['M'], case['v'], th, ph)
                tag = "kick of %g km/s (%.2f, %.2f) at e=%g, M=%.2f to star " \
                    "%d of %g with %g Msun" % (case['v'], th, ph, case['e'],
                                               case['M'], which, mpre, mc)
                tol = 1e-6 if exact else 1e-4
                if abs(w['en']) > 1e-3:
                    R.eq(b.state, 'detached' if w['en'] < 0 else 'disrupted',
                         tag + ": state")
                if b.state == 'disrupted':
                    for q in ('separation', 'orbital_period', 'eccentricity',
                              'inspiral_time'):
                        v = getattr(b, q)
                        R.check(v is None or v != v if q == 'inspiral_time'
                                else v != v, tag + ": %s is %s" % (q, v))
                    R.check(s.spin_orbit_tilt_first_SN !=
                            s.spin_orbit_tilt_first_SN, tag + ": tilt")
                    res.append('dis')
                    R.outcome('dis', w['en'] > 0)
                    continue
                if w['en'] > -1e-3:
                    continue
                R.close(b.separation, w['a'], tag + ": separation", 1e-6)
                # eccentricity enters as its square
                R.close(1 - b.eccentricity ** 2, 1 - w['e'] ** 2,
                        tag + ": 1 - e^2", 1e-6 if exact else 2e-2, 2e-6 if
                        exact else 1e-2)
                P = 2 * math.pi * math.sqrt((w['a'] * RSUN) ** 3 / (
                    G * MSUN * (s.mass + mc))) / 86400
                R.close(b.orbital_period, P, tag + ": period", 2e-3)
                for c in range(3):
                    R.close(b.V_sys[c], w['v'][c], tag + ": system velocity",
                            1e-3, 1e-6 * w['V'] / 1e5 + 1e-3 if exact else
                            6e-3 * w['V'] / 1e5 + 6e-3 * case['v'])
                for t in (b.star_1, b.star_2):
                    g = t.spin_orbit_tilt_first_SN
                    R.close(math.cos(g), w['L'], tag + ": tilt", 1e-5 if
                            exact else 1e-2, 1e-6 if exact else 2e-2)
                    if abs(w['sgn']) > 1 and abs(w['L']) < 1 - 1e-6:
                        R.check((g < 0) == (w['sgn'] < 0), tag +
                                ": direction of the tilt")
                R.close(math.cos(b.true_anomaly_first_SN), math.cos(w['ta']),
                        tag + ": true anomaly", 1e-6, 1e-6)
                co2 = pick(b, 3 - which).state in ('NS', 'BH', 'WD')
                if co2 and b.eccentricity < 1e-7:
                    m1, m2 = s.mass * MSUN, mc * MSUN
                    beta = 64 / 5 * G ** 3 * m1 * m2 * (m1 + m2) / (
                        2.99792458e10 ** 5)
                    R.close(b.inspiral_time, (b.separation * RSUN) ** 4 / (
                        4 * beta) / 3.15576e7, tag + ": inspiral", 2e-3)
                res.append((round(b.separation, 6), round(b.eccentricity, 6),
                            [round(x, 4) for x in b.V_sys]))
                R.outcome(*res[-1])
            R.check(len(res) < 2 or res[0] == res[1],
                    "the orbit depends on the position of the exploding star: "
                    "%s" % (res,))


def run_single(case, R):
    """There is no orbit to change."""
    for which in (1, 2):
        for v in (0.0, 500.0):
            s = star(case['star'], natal_kick_array=[v, 1.0, 1.0, 1.0])
            nan = float('nan')
            b = binary(s, comp(5.0), which, state=case['state'],
                       separation=nan, orbital_period=nan, eccentricity=nan)
            step(kick=True)(b)
            R.step()
            R.eq(b.state, case['state'], "state of a %s system after a "
                 "supernova" % case['state'])
            R.check(b.separation != b.separation and b.orbital_period !=
                    b.orbital_period, "orbit of a %s system" % case['state'])
            R.check(pick(b, which).state in ('NS', 'BH'), "no remnant")
            R.outcome(case['state'], pick(b, which).state)


def run_nokick(case, R):
    """White dwarfs get no kick; without a remnant there is no binary; and
    kicks can be switched off."""
    single = case['state'] in ('disrupted', 'merged', 'initially_single_star')
    for which in (1, 2):
        for m2 in (4.0, 20.0):
            from posydon.binary_evol.singlestar import SingleStar
            if case['what'] == 'WD':
                s = SingleStar(mass=2.0, he_core_mass=0.9, co_core_mass=0.8,
                               state='H-rich_non_burning', center_he4=0.0,
                               center_h1=0.0, center_c12=0.3)
                k = {}
            else:
                s = SingleStar(mass=95.0, he_core_mass=90.0, co_core_mass=80.0,
                               state='H-rich_Core_C_depleted', center_he4=0.0,
                               center_h1=0.0, center_c12=0.0,
                               log_total_angular_momentum=50.)
                k = {'PISN': 'Marchant+19'}
            nan = float('nan')
            b = binary(s, comp(m2), which, state=case['state'],
                       separation=nan if single else 70.0, orbital_period=nan
                       if single else 10.0, eccentricity=nan if single else
                       0.1)
            step(kick=case['kick'], **k)(b)
            R.step()
            s = pick(b, which)
            tag = "%s as star %d in a %s system with kicks %s" % (
                case['what'], which, case['state'], case['kick'])
            R.check(b.event is None, tag + ": event %s" % b.event)
            if single:
                R.eq(b.state, case['state'], tag + ": state")
                R.check(b.separation != b.separation, tag + ": separation")
            elif case['what'] == 'WD':
                R.eq(b.state, 'detached', tag + ": state")
                R.close(b.separation, 70.0 * (2.0 + m2) / (s.mass + m2),
                        tag + ": separation", 1e-9)
                R.close(b.eccentricity, 0.1, tag + ": eccentricity", 1e-12)
                P = 2 * math.pi * math.sqrt((b.separation * RSUN) ** 3 / (
                    G * MSUN * (s.mass + m2))) / 86400
                R.close(b.orbital_period, P, tag + ": period", 2e-3)
                R.eq(b.time, 1.5e7, tag + ": time")
            else:
                R.eq(b.state, 'disrupted', tag + ": state")
                R.check(b.separation != b.separation and b.eccentricity !=
                        b.eccentricity, tag + ": orbit")
                R.eq(s.state, 'massless_remnant', tag + ": remnant")
            R.outcome(case['what'], case['state'], which, b.state)


def run_draw(case, R):
    import numpy as np
    kinds = {'ECSN': (9.0, 1.8, 1.4), 'NS': (9.0, 3.0, 2.0),
             'BH': (12.0, 10.0, 7.5), 'lowBH': (9.0, 5.0, 3.4)}
    from posydon.binary_evol.singlestar import SingleStar
    for what, (m, he, co) in kinds.items():
        for seed in (1, 2, 3):
            ref = {}
            for which in (1, 2):
                for f, norm in ((1.0, 'one'), (1.0, case['norm']),
                                (2.0, case['norm']), (None, case['norm'])):
                    if case['pr'] == 'log_normal':
                        val = {'mean': 200.0 * (f or 1.0), 'sigma': 0.5}
                    else:
                        val = {'mean': None, 'sigma': 100.0 * (f or 1.0)}
                    kw = {}
                    for n in ('CCSN_NS', 'CCSN_BH', 'ECSN'):
                        on = n == {'ECSN': 'ECSN', 'NS': 'CCSN_NS',
                                   'BH': 'CCSN_BH', 'lowBH': 'CCSN_BH'}[what]
                        kw['sigma_kick_' + n] = val['sigma'] if on else 7777.
                        kw['mean_kick_' + n] = val['mean'] if on else 7777.
                        if f is None and on:
                            kw['sigma_kick_' + n] = None
                    S = step(kick_prescription=case['pr'],
                             kick_normalisation=norm,
                             RNG=np.random.default_rng(seed), max_NS_mass=1.4
                             if what == 'lowBH' else 2.5, **kw)
                    s = SingleStar(mass=m, he_core_mass=he, co_core_mass=co,
                                   state='H-rich_Core_C_depleted',
                                   log_total_angular_momentum=49.0,
                                   center_he4=0., center_h1=0., center_c12=0.)
                    b = binary(s, comp(15.0), which, separation=3000.0)
                    S(b)
                    R.step()
                    s = pick(b, which)
                    v = s.natal_kick_velocity
                    ref[which, f, norm] = v
                    tag = "%s kick of %s, normalised %s" % (case['pr'], what,
                                                            norm)
                    R.check(v >= 0, tag + ": %s km/s" % v)
                    fb = baryonic(co, he)
                    fac = {'one': 1.0, 'zero': 0.0, 'one_minus_fallback':
                           1 - fb, 'one_over_mass': 1.4 / s.mass if 'BH' in
                           what else 1.0, 'NS_one_minus_fallback_BH_one':
                           1.0 if 'BH' in what else 1 - fb}[norm]
                    R.eq(s.state, 'BH' if 'BH' in what else 'NS', "remnant")
                    if f is None:
                        R.eq(v, 0.0, tag + " without dispersion")
                        continue
                    base = ref[which, 1.0, 'one']
                    lin = f if case['pr'] in ('maxwellian', 'log_normal') \
                        else 1.0
                    R.close(v, base * fac * lin, tag, 1e-9, 1e-12)
                    if case['pr'] == 'linear':
                        R.close(base, 115 * (co - s.mass) / s.mass + 15,
                                tag, 1e-9)
                    if case['pr'] == 'asym_ej':
                        rb = ((3 * s.mass / 20 + 1) ** 2 - 1) / 0.3
                        R.close(base, 211 * 0.1 * 0.1 * abs(m - rb) / 0.1 /
                                (s.mass / 1.5), tag, 1e-9)
                    if case['pr'] == 'maxwellian':
                        z = np.random.default_rng(seed)
                        import scipy.stats as st
                        R.close(base, 100 * st.maxwell.rvs(random_state=z),
                                tag, 1e-9)
                    R.check(0 <= s.natal_kick_azimuthal_angle <= 2 * math.pi
                            and 0 <= s.natal_kick_polar_angle <= math.pi and
                            0 <= s.natal_kick_mean_anomaly <= 2 * math.pi,
                            tag + ": angles")
                    # the recorded kick reproduces the orbit
                    s2 = SingleStar(mass=m, he_core_mass=he, co_core_mass=co,
                                    state='H-rich_Core_C_depleted',
                                    log_total_angular_momentum=49.0,
                                    center_he4=0., center_h1=0.,
                                    center_c12=0., natal_kick_array=[
                                        v, s.natal_kick_azimuthal_angle,
                                        s.natal_kick_polar_angle,
                                        s.natal_kick_mean_anomaly])
                    b2 = binary(s2, comp(15.0), which, separation=3000.0)
                    S(b2)
                    R.eq(b2.state, b.state, tag + ": state with the recorded "
                         "kick")
                    if b.state == 'detached':
                        R.close(b2.separation, b.separation, tag + ": orbit "
                                "with the recorded kick", 1e-9)
                        R.close(b2.eccentricity, b.eccentricity, tag, 1e-6,
                                1e-8)
                    R.outcome(what, norm, round(v, 6))
            for k, v in ref.items():
                R.close(v, ref[(1,) + k[1:]], "kick of star 1 and 2", 1e-12)


def baryonic(co, he):
    if co <= 1.43:
        return 0.0
    if co < 2.5:
        return 0.2 / (he - 1.1)
    if co < 6:
        return (0.286 * co - 0.514) / (he - 1.1)
    a = 0.25 - 1.275 / (he - 1.1)
    return a * co + 1 - 11 * a


def run_tilt(case, R):
    S = step()
    t1, t2 = case['t1'], case['t2']
    for a1, a2 in itertools.product((-2.0, 0.0, 0.7, 3.0, 6.0), repeat=2):
        got = S.get_combined_tilt(t1, t2, a1, a2)
        R.step()
        c = math.cos(t1) * math.cos(t2) - math.sin(t1) * math.sin(
            t2) * math.cos(a2 - a1)
        R.close(math.cos(got), max(-1, min(1, c)), "combined tilt of %g and "
                "%g at %g and %g" % (t1, t2, a1, a2), 1e-9, 1e-9)
        R.outcome(round(c, 9))


def run_two(case, R):
    """Two supernovae in one binary, in both orders."""
    t1, t2 = case['t']
    w1 = case['first']
    S = step(kick=True)
    A = star(1, natal_kick_array=[60.0, 0.3, t1, 0.0])
    B = star(1, natal_kick_array=[80.0, 2.9, t2, 0.0])
    b = binary(A, B, w1, separation=60.0)
    S(b)
    R.step()
    f = pick(b, w1).spin_orbit_tilt_first_SN
    R.eq(b.state, 'detached', "state after the first supernova")
    # the companion has reached core collapse too
    R.eq(b.event, 'CC%d' % (3 - w1), "companion at core collapse")
    e, a, M1 = b.eccentricity, b.separation, pick(b, w1).mass
    b.append_state()
    b.star_1.append_state() if len(b.star_1.mass_history) < 2 else None
    b.star_2.append_state() if len(b.star_2.mass_history) < 2 else None
    m2 = pick(b, 3 - w1).mass
    S(b)
    R.step()
    w = after(m2, pick(b, 3 - w1).mass, M1, a, e, 0.0, 80.0, t2, 2.9)
    if w['en'] > -1e-3:
        R.check(b.state == 'disrupted' or w['en'] < 1e-3, "second supernova")
        return
    R.eq(b.state, 'detached', "state after the second supernova")
    R.close(b.separation, w['a'], "separation after two supernovae", 1e-5)
    R.check(b.inspiral_time > 0, "inspiral time")
    new, old = pick(b, 3 - w1), pick(b, w1)
    t = new.spin_orbit_tilt_second_SN
    R.close(math.cos(t), w['L'], "tilt of the second exploding star", 2e-2,
            2e-2)
    d = b.true_anomaly_second_SN - b.true_anomaly_first_SN
    c = math.cos(f) * math.cos(t) - math.sin(f) * math.sin(t) * math.cos(d)
    R.close(math.cos(old.spin_orbit_tilt_second_SN), c,
            "tilt of the first exploding star after two supernovae", 1e-6,
            1e-6)
    R.eq(new.spin_orbit_tilt_first_SN, f, "tilt by the first supernova")
    R.outcome(w1, round(b.separation, 6), round(t, 6))


def execute(case, R):
    globals()['run_' + case['kind']](case, R)
