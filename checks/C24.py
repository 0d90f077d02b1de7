"""C24: inspiral of double compact objects."""
import itertools
import math
import types

LEVEL = "model_checking"
RULE = ("every pair of compact objects, separation, eccentricity, start time, "
        "time limit and history spacing through the real step; distinct by "
        "pair, regime and outcome")
ASSUMPTIONS = ["reference: Peters 1964 a(e) relation in closed form and the "
               "merger time by quadrature",
               "contact at the sum of the radii (Schwarzschild radius, "
               "12.5 km, Hansen et al. 2004 for white dwarfs)",
               "single-star grids are closed-form tables (unused by compact "
               "objects)"]

G, MS, RS, C, YR = 6.67428e-8, 1.9892e33, 6.9598e10, 2.99792458e10, 3.1558149984e7
OBJ = {'BH5': ('BH', 5.0), 'BH60': ('BH', 60.0), 'NS': ('NS', 1.4),
       'NS2': ('NS', 2.05), 'WD': ('WD', 0.6), 'WD2': ('WD', 1.05)}
NAMES = list(OBJ)
SEPS = ['inside', 'touching', 1.3, 30.0, 0.05, 0.6, 3.0, 20.0, 4e3, 1e6]
ECC = [0.0, 1e-5, 0.2, 0.7, 0.95, 0.9995]
TIMES = [0.0, 1.1e7, 9.3e9]


def bounds(tier):
    return {"objects": len(OBJ), "pairs": len(OBJ) ** 2,
            "separations": len(SEPS), "eccentricities": len(ECC),
            "start_times": len(TIMES), "limits": 3, "histories": 4}


def cases(tier):
    for a, b in itertools.product(NAMES, NAMES):
        for s in SEPS:
            if tier == 'quick' and b in ('NS2', 'WD2') and a != b:
                continue
            yield {'o': [a, b], 's': s, 'full': tier != 'quick'}


def radius(k, m):
    if k == 'BH':
        return 2 * G * m * MS / C**2 / RS
    if k == 'NS':
        return 12.5e5 / RS
    return 2.9e8 * m ** (-1 / 3.) / RS


def shape(e):
    """a(e)/c0 of Peters (5.11)."""
    return e ** (12 / 19.) / (1 - e * e) * (1 + 121 / 304. * e * e) ** (870 / 2299.)


_I = {}


def integral(e):
    """int_0^e x^(29/19) (1+121/304 x^2)^(1181/2299) / (1-x^2)^1.5 dx."""
    from scipy.integrate import quad
    if e not in _I:
        # x = 1-u^2 near one removes nothing singular for e<1; split
        f = lambda x: (x ** (29 / 19.) * (1 + 121 / 304. * x * x)
                       ** (1181 / 2299.) / (1 - x * x) ** 1.5)
        cut = [0.0] + [c for c in (0.1, 0.5, 0.9, 0.99) if c < e] + [e]
        _I[e] = sum(quad(f, x, y, epsabs=0, epsrel=1e-12, limit=200)[0]
                    for x, y in zip(cut[:-1], cut[1:]))
    return _I[e]


def lifetime(a, e, beta):
    """Time (yr) to a point-mass merger from a (Rsun), e."""
    a = a * RS
    if e < 1e-9:
        return a ** 4 / (4 * beta) / YR
    return 12 / 19. * (a / shape(e)) ** 4 / beta * integral(e) / YR


def ecc_at(a, a0, e0):
    """Eccentricity when the separation has shrunk to a."""
    from scipy.optimize import brentq
    if e0 < 1e-9 or a >= a0:
        return e0
    y = math.log(a / a0) + math.log(shape(e0))
    return math.exp(brentq(lambda l: math.log(shape(math.exp(l))) - y,
                           -200.0, math.log(e0), xtol=1e-15, rtol=1e-14))


def execute(case, R):
    import numpy as np
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.DT.double_CO import DoubleCO
    from posydon.binary_evol.singlestar import SingleStar
    from mc import tracks
    tm = tracks.matcher()
    (k1, m1), (k2, m2) = OBJ[case['o'][0]], OBJ[case['o'][1]]
    rc = radius(k1, m1) + radius(k2, m2)
    a0 = {'inside': 0.4 * rc, 'touching': rc}.get(case['s'])
    if a0 is None:
        a0 = case['s'] * rc if case['s'] in (1.3, 30.0) else case['s']
        if a0 <= rc:
            return
    contact0 = case['s'] in ('inside', 'touching')
    beta = 64 / 5. * G**3 * m1 * m2 * (m1 + m2) * MS**3 / C**5
    M = (m1 + m2) * MS
    P0 = 2 * math.pi * math.sqrt((a0 * RS)**3 / (G * M)) / 86400.
    for e0, t0 in itertools.product(ECC, TIMES):
        ec = e0 if contact0 else ecc_at(rc, a0, e0)
        T = 0.0 if contact0 else (lifetime(a0, e0, beta)
                                  - lifetime(rc, ec, beta))
        limits = [1.38e10]
        if t0 + 0.37 * T > t0 and not contact0:
            limits.append(t0 + 0.37 * T)
        if t0:
            limits.append(0.8 * t0)
        for tmax in limits:
            merges = T <= tmax - t0
            span = min(T, tmax - t0)
            kws = [{}, {'n_o_steps_history': 4}]
            if span > 0 and (case['full'] or t0 < 1e9):
                kws += [{'dt': span / 3.3}, {'dt': span * 2.0}]
            if tmax < t0:
                kws = kws[:1]
            for kw in kws:
                b = BinaryStar(
                    star_1=SingleStar(mass=m1, state=k1, spin=0.2,
                                      metallicity=1.0),
                    star_2=SingleStar(mass=m2, state=k2, spin=0.6,
                                      metallicity=1.0),
                    time=t0, separation=a0, orbital_period=P0,
                    eccentricity=e0, state='detached', event=None,
                    V_sys=[1.0, -2.0, 3.0])
                # the binary has a past in another orbit
                for h in vars(b.star_1), vars(b.star_2), vars(b):
                    for k, v in h.items():
                        if k.endswith('_history') and type(v) is list:
                            v.insert(0, v[0])
                b.V_sys_history[0] = [9.0, 9.0, 9.0]
                b.separation_history[0] = 5 * a0
                b.eccentricity_history[0] = 0.33
                b.time_history[0] = 0.25 * t0
                b.properties = types.SimpleNamespace(
                    all_step_names=['step_dco'], flow={},
                    max_simulation_time=tmax)
                what = "%s+%s a=%.4g (contact %.3g) e=%s t=%g limit %r %s" % (
                    case['o'][0], case['o'][1], a0, rc, e0, t0, tmax, kw)
                step = DoubleCO(track_matcher=tm, **kw)
                R.step()
                if tmax < t0:
                    with R.raises(ValueError, what + ": start after the limit"):
                        step(b)
                    continue
                n0 = len(b.time_history)
                step(b)
                judge(R, b, what, kw, n0, m1, m2, k1, k2, a0, e0, t0, rc, ec,
                      T, tmax, merges, beta, contact0)
                R.state(case['o'][0], case['o'][1], case['s'], e0, t0,
                        merges, len(kw))
                R.outcome(merges, contact0, k1, k2)


def judge(R, b, what, kw, n0, m1, m2, k1, k2, a0, e0, t0, rc, ec, T, tmax,
          merges, beta, contact0):
    M = (m1 + m2) * MS
    ulp = math.ulp(max(t0, tmax if not merges else t0 + T))
    if merges:
        R.eq((b.state, b.event), ('contact', 'CO_contact'), what + ": outcome")
        R.eq(b.eccentricity, 0.0, what + ": circular at contact")
        R.close(b.separation, rc if not contact0 else a0,
                what + ": separation at contact", rtol=1e-5)
        R.check(abs(b.time - t0 - T) <= (1e-6 * T + 2 * ulp
                                         + 1e-12 * lifetime(a0, 0.0, beta)),
                what + ": contact at t0 + %r, expected %r" % (b.time - t0, T))
    else:
        R.eq((b.state, b.event), ('detached', 'maxtime'), what + ": outcome")
        R.eq(b.time, tmax, what + ": time")
        orbit(R, what, b.separation, b.eccentricity, tmax - t0, a0, e0, beta,
              T, ulp)
    R.check(b.time >= t0, what + ": time decreases")
    P = 2 * math.pi * math.sqrt((b.separation * RS)**3 / (G * M)) / 86400.
    R.close(b.orbital_period, P, what + ": period", rtol=1e-3)
    R.eq(list(b.V_sys), [1.0, -2.0, 3.0], what + ": velocity")
    for st, k, m, s in ((b.star_1, k1, m1, 0.2), (b.star_2, k2, m2, 0.6)):
        R.eq((st.state, st.mass, st.spin), (k, m, s), what + ": objects")
    b.append_state()
    new = b.time_history[n0:]
    end = b.time
    if 'dt' in kw:
        n = max(0, math.ceil((end - t0) / kw['dt'] - 1e-9) - 1)
        exp = [t0 + kw['dt'] * (j + 1) for j in range(n)] + [end]
    elif kw:
        exp = [t0 + (end - t0) * (j + 1) / 4. for j in range(4)]
    else:
        exp = [end]
    R.check(len(new) == len(exp) and all(
        abs(x - y) <= 1e-9 * (end - t0) + 2 * ulp for x, y in zip(new, exp)),
        what + ": history times %s, expected %s" % (new, exp))
    for q in ('separation', 'eccentricity', 'event', 'V_sys', 'state',
              'orbital_period'):
        R.eq(len(getattr(b, q + '_history')), len(b.time_history),
             what + ": rows of " + q)
    for j in range(len(new) - 1):
        row = n0 + j
        a, e = b.separation_history[row], b.eccentricity_history[row]
        if not contact0:
            orbit(R, what + " row %d" % j, a, e, new[j] - t0, a0, e0, beta,
                  T, ulp)
        R.close(b.orbital_period_history[row],
                2 * math.pi * math.sqrt((a * RS)**3 / (G * M)) / 86400.,
                what + ": period row", rtol=1e-3)
        R.eq((b.star_1.state_history[row], b.star_2.state_history[row],
              b.star_1.mass_history[row], b.star_2.mass_history[row]),
             (k1, k2, m1, m2), what + ": object rows")
        R.eq(list(b.V_sys_history[row]), [1.0, -2.0, 3.0], what + ": V row")


def orbit(R, what, a, e, dt, a0, e0, beta, T, ulp):
    """(a, e) lies on the Peters track at the time dt."""
    e = max(e, 0.0)
    R.check(a <= a0 * (1 + 1e-12), what + ": orbit grows to %r" % a)
    R.close(e, ecc_at(a, a0, e0), what + ": eccentricity along the track",
            rtol=1e-5, atol=1e-12)
    left = lifetime(a, e if e0 > 1e-9 else 0.0, beta)
    full = lifetime(a0, e0, beta)
    R.check(abs((full - left) - dt) <= 1e-6 * full + 3 * ulp,
            what + ": separation %r belongs to %r yr, not %r"
            % (a, full - left, dt))
