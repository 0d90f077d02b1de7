"""C23: detached evolution."""
import copy
import itertools
import math
import types

LEVEL = "model_checking"
RULE = ("every pair of stars, orbit, option set, stopping condition and "
        "history spacing through the real step and track matcher; distinct "
        "by pair, event and outcome")
ASSUMPTIONS = ["reference: own cgs formulas of Hut 1981, Junker & Schaefer "
               "1992, the braking papers and wind loss, integrated with "
               "tight tolerances along the same closed-form tracks",
               "the HDF5 single-star grids are replaced by closed-form "
               "tables; the step integrates with rtol 1e-3, so end points "
               "are compared to 2 per cent (6 with winds alone) and conditions at the end point "
               "exactly",
               "matching itself (which track) is scripted here"]

G, MS, RS, C, YR = 6.67428e-8, 1.9892e33, 6.9598e10, 2.99792458e10, 3.1558149984e7
AU = 214.95 * RS
DAY = 86400.0
MODES = ['RVJ83', 'M15', 'G18', 'CARB']
H, HE = 'H-rich_Core_H_burning', 'stripped_He_Core_He_burning'
PAIRS = [('H', 'H'), ('H', 'He'), ('He', 'H'), ('He', 'He'), ('H', 'BH'),
         ('NS', 'H'), ('He', 'BH'), ('WD', 'He'), ('BH', 'He'), ('H', 'WD')]
MASS = {'H': (12.0, 7.0), 'He': (5.0, 3.1), 'BH': (9.0, 9.0),
        'NS': (1.4, 1.4), 'WD': (0.9, 0.9)}
OPTS = {'none': dict(do_wind_loss=False, do_tides=False,
                     do_gravitational_radiation=False,
                     do_magnetic_braking=False,
                     do_stellar_evolution_and_spin_from_winds=False),
        'winds': dict(do_tides=False, do_gravitational_radiation=False,
                      do_magnetic_braking=False,
                      do_stellar_evolution_and_spin_from_winds=False),
        'all': {}}


def bounds(tier):
    return {"pairs": len(PAIRS), "orders": 2,
            "periods": 4, "eccentricities": 3, "option_sets": 3,
            "end": ["free", "max_time"], "history": ["none", "dt", "n"],
            "rate_grid": {"stars": 8, "separations": 3, "ecc": 4, "spins": 3,
                          "braking": 4}}


def cases(tier):
    full = tier != 'quick'
    for i in range(len(STARS)):
        for e in ECC:
            yield {'kind': 'rates', 'i': i, 'e': e}
    yield {'kind': 'badmode'}
    for p in PAIRS:
        for P in (4.0, 60.0, 1500.0, 1e6):
            for e in ((0.0, 0.3, 0.7) if full else (0.0, 0.3)):
                for o in OPTS:
                    if not full and e and (o == 'winds' or P in (4.0, 1500.)):
                        continue
                    yield {'kind': 'step', 'p': p, 'P': P, 'e': e, 'o': o,
                           'full': full}
    for cls in ('IsolatedStep', 'DisruptedStep', 'InitiallySingleStep'):
        for k in ('H', 'He'):
            for other in ('massless_remnant', 'NS', 'BH'):
                for w in (1, 2):
                    yield {'kind': 'single', 'cls': cls, 'k': k, 'o': other,
                           'w': w}


# --- reference physics (cgs) --------------------------------------------
def hut(m, R, w, I, kT, M2, a, e, n):
    """da/dt, de/dt (cgs) and dw/dt of the tide raised in m by M2."""
    q = M2 / m
    f1 = 1 + 15.5 * e**2 + 255/8 * e**4 + 185/16 * e**6 + 25/64 * e**8
    f2 = 1 + 7.5 * e**2 + 45/8 * e**4 + 5/16 * e**6
    f3 = 1 + 3.75 * e**2 + 15/8 * e**4 + 5/64 * e**6
    f4 = 1 + 1.5 * e**2 + e**4 / 8
    f5 = 1 + 3 * e**2 + 3/8 * e**4
    x = 1 - e * e
    s = x ** 1.5 * w / n
    da = -6 * kT * q * (1 + q) * (R / a)**8 * a / x**7.5 * (f1 - f2 * s)
    de = -27 * kT * q * (1 + q) * (R / a)**8 * e / x**6.5 * (f3 - 11/18 * f4 * s)
    dw = 3 * kT * q * q * m * R**2 / I * (R / a)**6 * n / x**6 * (f2 - f5 * s)
    return da, de, dw


def kt(s, M2, a):
    """Tidal strength (1/s): larger of convective and radiative damping."""
    m, R, w = s['mass'] * MS, s['R'] * RS, s['omega'] / YR
    M2 = M2 * MS
    n_au = math.sqrt((s['mass'] + M2 / MS) / (a / AU)**3) * 2 * math.pi / YR
    k = [0.0]
    me, dr, rm = (s['mass_conv_reg_fortides'], s['thickness_conv_reg_fortides'],
                  s['radius_conv_reg_fortides'])
    if me and dr and rm and not any(map(math.isnan, (me, dr, rm))):
        tau = 0.431 * (me * dr * rm / (3 * s['L'])) ** (1 / 3.) * YR
        pt = abs(2 * math.pi / (n_au - w)) if n_au != w else math.inf
        k.append(2 / 21. * min(1., (pt / (2 * tau))**2) / tau
                 * me / s['mass'])
    rc = s['conv_mx1_top_r'] - s['conv_mx1_bot_r']
    if rc > s['R'] or rc <= 0 or s['conv_mx1_bot_r'] / s['R'] > 0.1:
        E2 = 1.592e-9 * s['mass'] ** 2.84
    elif s['surface_h1'] > 0.4:
        E2 = 10**-0.42 * (rc / s['R'])**7.5
    else:
        E2 = 10**-0.93 * (rc / s['R'])**6.7
    k.append(math.sqrt(G * m * R**2 / a**5) * (1 + M2 / m)**(5/6.) * E2)
    return max(k)


def brake(mode, s):
    """Spin-down of one star (rad/s^2)."""
    m, R, I = s['mass'] * MS, s['R'] * RS, s['inertia'] * MS * RS**2
    w, tau = s['omega'] / YR, s['conv_env_turnover_time_l_b'] * YR
    md = s['mdot'] * MS / YR
    f = min(1., max(0., (1.5 - s['mass']) / 0.2))
    if R == 0 or f == 0 or w == 0:
        return 0.0
    if mode == 'RVJ83':
        t = 3.8e-30 * m * R**4 * w**3
    elif mode == 'M15':
        ws, ts = 2.6e-6, 12.9 / 365.25 * YR
        g = math.sqrt(1 + (w / math.sqrt(G * m / R**3) / 0.072)**2)
        T0 = 1.4e30 * s['R']**3.1 * math.sqrt(s['mass']) * g**-0.44
        Ro = 2 * math.pi / w / tau
        t = (T0 * (2 / 0.14)**2.6 * w / ws if Ro < 0.14 else
             T0 * (tau / ts)**2.6 * (w / ws)**3.6)
    elif mode == 'G18':
        Ro = 2 * math.pi / w / tau
        t = 3e41 * w**3 * tau * 4.05 * math.exp(-1.4 * (0.03 / Ro + 0.5 * Ro + 1))
    else:
        if md == 0:
            return 0.0
        B = (w / 3e-6) * (tau / 2.8e6)
        v2 = 2 * G * m / R + 2 * w * w * R * R / 0.07**2
        ra = R * (R**4 * B**4 / (md * md * v2)) ** (1 / 3.)
        t = 2 / 3. * w * abs(md) * ra**2
    return -t * f / I


def rates(opt, mode, a, e, s1, s2):
    """(da, de, dw2, dw1) in Rsun/yr, 1/yr, rad/yr^2 for primary s1."""
    a_, da, de, dw = a * RS, 0.0, 0.0, [0.0, 0.0]
    M = (s1['mass'] + s2['mass']) * MS
    n = 2 * math.pi * math.sqrt((s1['mass'] + s2['mass']) / (a_ / AU)**3) / YR
    pairs = ((s2, s1, 0), (s1, s2, 1))
    if opt.get('do_tides', True):
        for s, o, i in pairs:
            if s['R'] > 0:
                x, y, z = hut(s['mass'], s['R'] * RS, s['omega'] / YR,
                              s['inertia'] * RS**2, kt(s, o['mass'], a_),
                              o['mass'], a_, e, n)
                da, de = da + x, de + y
                dw[i] += z
    if opt.get('do_gravitational_radiation', True):
        v = s1['mass'] * s2['mass'] / (s1['mass'] + s2['mass'])**2
        u = G * M / (a_ * C * C)
        x = 1 - e * e
        da -= 2 * C / 15 * v / x**4.5 * u**3 * (
            (96 + 292 * e**2 + 37 * e**4) * x - u / 28 * (
                14008 + 4704 * v + (80124 + 21560 * v) * e**2
                + (17325 + 10458 * v) * e**4 - (5501 - 1036 * v) * e**6 / 2))
        de -= v * C**3 / (15 * G * M) * u**4 * e / x**3.5 * (
            (304 + 121 * e**2) * x - u / 56 * (
                8 * (16705 + 4676 * v) + 12 * (9082 + 2807 * v) * e**2
                - (25211 - 3388 * v) * e**4))
    if opt.get('do_magnetic_braking', True):
        for s, o, i in pairs:
            dw[i] += brake(mode, s)
    if opt.get('do_wind_loss', True):
        da -= a_ * (s1['mdot'] + s2['mdot']) / (s1['mass'] + s2['mass']) / YR
    if opt.get('do_stellar_evolution_and_spin_from_winds', True):
        for s, o, i in pairs:
            dw[i] += (2 / 3. * s['R']**2 * s['omega'] * s['mdot'] / s['inertia']
                      + min(-s['omega'] * s['Idot'] / s['inertia'], 100.)) / YR**2
    return [da * YR / RS, de * YR, dw[0] * YR**2, dw[1] * YR**2]


STARS = [  # mass, R, inertia, mdot, Idot, L, m/dr/r of zone, core top/bot, Xs, tau
    (0.9, 0.85, 0.05, -3e-14, 1e-12, 0.6, (0.05, 0.2, 0.75), (0.0, 0.0), 0.7, 0.06),
    (1.35, 1.4, 0.1, -1e-13, -1e-11, 3.0, (0.01, 0.1, 1.3), (0.1, 0.0), 0.7, 0.02),
    (1.45, 30.0, 30., -1e-8, 1e-6, 400., (0.8, 20., 15.), (20., 10.), 0.7, 0.3),
    (1.45, 1.2, 0.09, 0.0, 0.0, 3.0, (0.0, 0.1, 1.3), (0.3, 0.05), 0.7, 0.0004),
    (8.0, 4.0, 9.0, -1e-9, 1e-7, 3000., (float('nan'),) * 3, (0.9, 0.0), 0.7, 0.01),
    (30.0, 9.0, 150., -1e-6, -1e-3, 2e5, (1.0, 0.0, 8.0), (3.0, 0.0), 0.3, 0.01),
    (6.0, 0.8, 0.2, -1e-7, -40.0, 5e4, (0.2, 0.1, 0.5), (0.25, 0.1), 0.0, 0.01),
    (1.4, 0.0, 9.0, 0.0, 0.0, 3000., (0.2, 0.1, 0.5), (0.9, 0.0), 0.7, 0.01)]
ECC = [0.0, 0.2, 0.6, 0.9]


def star_dict(i, w):
    m, R, I, md, Id, L, z, c, x, tau = STARS[i]
    return {'mass': m, 'R': R, 'inertia': I, 'mdot': md, 'Idot': Id, 'L': L,
            'mass_conv_reg_fortides': z[0], 'thickness_conv_reg_fortides': z[1],
            'radius_conv_reg_fortides': z[2], 'conv_mx1_top_r': c[0],
            'conv_mx1_bot_r': c[1], 'surface_h1': x,
            'conv_env_turnover_time_l_b': tau, 'omega': w}


class Track:
    """Stands for the interpolator of a star with constant properties."""
    offset = 0.0

    def __init__(self, d):
        self.d = d
        self.keys = [k for k in d if k != 'omega']

    def __call__(self, t):
        import numpy as np
        return {k: np.float64(v) for k, v in self.d.items()}


def do_rates(case, R):
    import numpy as np
    from posydon.binary_evol.DT.step_detached import detached_evolution
    e = case['e']
    names = ['do_wind_loss', 'do_tides', 'do_gravitational_radiation',
             'do_magnetic_braking', 'do_stellar_evolution_and_spin_from_winds']
    combos = [tuple(k == j for k in range(5)) for j in range(5)]
    combos += [(True,) * 5, (False,) * 5]
    for j, k in enumerate(range(len(STARS))):
        for a in (15.0, 80.0, 2000.0):
            for w1, w2 in ((3.0, 40.0), (1500.0, 7000.0), (0.5, 400.)):
                p1, p2 = star_dict(case['i'], w1), star_dict(k, w2)
                if p1['R'] == 0 and p2['R'] == 0:
                    continue
                for c in combos:
                    opt = dict(zip(names, c))
                    for mode in (MODES if c[3] else MODES[:1]):
                        evo = detached_evolution(magnetic_braking_mode=mode,
                                                 **opt)
                        P = types.SimpleNamespace(interp1d=Track(p1))
                        S = types.SimpleNamespace(interp1d=Track(p2))
                        evo.set_stars(P, S)
                        with np.errstate(all='ignore'):
                            got = evo(0.0, [a, e, w2, w1])
                        want = rates(opt, mode, a, e, p1, p2)
                        if p1['R'] == 0:
                            got[3] = want[3] = 0.0   # spin of a point mass
                        if p2['R'] == 0:
                            got[2] = want[2] = 0.0
                        R.step()
                        for q in range(4):
                            R.close(got[q], want[q], "rate %d of %s %s at a=%s "
                                    "e=%s spins %s %s, stars %d %d" % (
                                        q, c, mode, a, e, w1, w2, case['i'], k),
                                    rtol=2e-3, atol=1e-300)
                        # tides alone conserve the angular momentum
                        if c == combos[1] and p1['R'] and p2['R']:
                            J = p1['mass'] * p2['mass'] * math.sqrt(
                                G * MS * a * RS * (1 - e * e)
                                / (p1['mass'] + p2['mass'])) * YR / RS**2
                            dJ = J * (got[0] / (2 * a)
                                      - e * got[1] / (1 - e * e))
                            sp = p2['inertia'] * got[2] + p1['inertia'] * got[3]
                            size = (abs(J * got[0] / 2 / a)
                                    + abs(J * e * got[1] / (1 - e * e))
                                    + abs(p2['inertia'] * got[2])
                                    + abs(p1['inertia'] * got[3]))
                            R.check(abs(dJ + sp) <= 2e-3 * size,
                                    "tides change the total angular momentum: "
                                    "orbit %g spins %g" % (dJ, sp))
        R.state('rates', case['i'], k)
    R.outcome('rates', case['i'], e)


# --- whole steps ----------------------------------------------------------
_PC = {}


def pch(kind, m0):
    """Interpolated reference track: function of age -> dict, end age."""
    from scipy.interpolate import PchipInterpolator
    from mc import tracks
    import numpy as np
    key = (kind, m0)
    if key not in _PC:
        t = tracks.reference_track(kind, m0)
        d = dict(t)
        d['inertia'] = t['inertia'] / (MS * RS**2)
        d['conv_env_turnover_time_l_b'] = t['conv_env_turnover_time_l_b'] / YR
        d['R'], d['L'] = 10.0 ** t['log_R'], 10.0 ** t['log_L']
        names = [k for k in d if k != 'age']
        f = PchipInterpolator(t['age'], np.array([d[k] for k in names]).T)
        g = PchipInterpolator(t['age'], d['inertia']).derivative()

        def at(x, f=f, g=g, names=names):
            r = dict(zip(names, f(x)))
            r['Idot'] = float(g(x))
            for k in ('mass_conv_reg_fortides', 'thickness_conv_reg_fortides',
                      'radius_conv_reg_fortides'):
                r[k] = max(r[k], 0.0)
            return r
        _PC[key] = (at, t['age'][-1])
    return _PC[key]


def roche(m1, m2, a):
    q = (m1 / m2) ** (1 / 3.)
    return a * 0.49 * q * q / (0.6 * q * q + math.log(1 + q))


class Ref:
    """Reference evolution of a pair of tracks."""

    def __init__(self, ks, m0, t0, time, comp_mass, opt):
        self.ks, self.opt, self.time = ks, opt, time
        self.m = comp_mass
        self.off = [time - x for x in t0]
        self.tr = [pch(k, m) if k in ('H', 'He') else None
                   for k, m in zip(ks, m0)]

    def star(self, i, t, w):
        if self.tr[i] is None:
            d = self.star(1 - i, t, w)
            d.update(mass=self.m[i], R=0.0, mdot=0.0, Idot=0.0)
            return d
        d = self.tr[i][0](t - self.off[i])
        d['omega'] = w
        return d

    def end(self, i):
        return math.inf if self.tr[i] is None else self.tr[i][1] + self.off[i]

    def evolve(self, a, e, w, tmax):
        from scipy.integrate import solve_ivp

        def rhs(t, y):
            s = [self.star(0, t, max(y[2], 0.)), self.star(1, t, max(y[3], 0.))]
            ee = max(y[1], 0.)
            ee = 0.0 if ee < 1e-3 else ee
            r = rates(self.opt, 'RVJ83', max(y[0], 1e-9), ee, s[1], s[0])
            return r          # (da, de, dw of star 0, dw of star 1)

        def ov(i):
            def f(t, y):
                s = [self.star(0, t, 0.), self.star(1, t, 0.)]
                rl = roche(s[i]['mass'], s[1 - i]['mass'], y[0] * (1 - y[1]))
                return s[i]['R'] - 0.95 * rl
            f.terminal, f.direction = True, 1
            return f
        evs = [ov(0), ov(1)]
        if self.tr[0] is not None and evs[0](self.time, [a, e]) >= 0:
            return ('initial', self.time, a, e, None)
        if self.tr[1] is not None and evs[1](self.time, [a, e]) >= 0:
            return ('initial', self.time, a, e, None)
        T = min(self.end(0), self.end(1), tmax)
        r = solve_ivp(rhs, (self.time, T), [a, e, w[0], w[1]], method='Radau',
                      events=evs, rtol=1e-6, atol=1e-9, dense_output=True)
        assert r.status >= 0, r.message
        for i in (0, 1):
            if len(r.t_events[i]) and self.tr[i] is not None:
                y = r.y_events[i][0]
                return ('RLO%d' % (i + 1), r.t_events[i][0], y[0], y[1], r)
        k = ('maxtime' if T == tmax else
             'CC1' if T == self.end(0) else 'CC2')
        return (k, T, r.y[0][-1], r.y[1][-1], r)


def make_star(k, m, log_R=None):
    import numpy as np
    from mc import tracks
    from posydon.binary_evol.singlestar import SingleStar
    if k in ('H', 'He'):
        t = tracks.reference_track(k, m)
        w = 2e-6 if k == 'H' else 5e-5
        I = t['inertia'][0]
        wc = math.sqrt(G * m * MS / (10 ** t['log_R'][0] * RS) ** 3)
        return SingleStar(mass=m, state=H if k == 'H' else HE, metallicity=1.0,
                          log_R=t['log_R'][0], surf_avg_omega=w,
                          surf_avg_omega_div_omega_crit=w / wc,
                          total_moment_of_inertia=I,
                          log_total_angular_momentum=np.log10(I * w))
    if k == 'massless_remnant':
        return SingleStar(mass=0.0, state=k, metallicity=1.0)
    return SingleStar(mass=m, state=k, metallicity=1.0, spin=0.3,
                      log_R=-4.0 if k != 'WD' else -2.0)


def props(tmax, rlo=True):
    names = ['step_detached'] + (['step_HMS_HMS_RLO'] if rlo else [])
    return types.SimpleNamespace(all_step_names=names, flow={},
                                 max_simulation_time=tmax)


class Plan:
    """Scripted answer of the matching for the stars of one binary."""

    def __init__(self, tm, b, m0, t0):
        self.tm, self.b, self.m0, self.t0 = tm, b, m0, t0

    def __enter__(self):
        def answer(star):
            i = 0 if star is self.b.star_1 else 1
            return self.m0[i], self.t0[i]
        self.tm.match_to_single_star = answer

    def __exit__(self, *a):
        del self.tm.match_to_single_star


SKIP = {'state', 'metallicity', 'profile', 'surf_avg_omega', 'spin',
        'surf_avg_omega_div_omega_crit', 'log_total_angular_momentum',
        'total_moment_of_inertia', 'lg_mdot', 'lg_wind_mdot',
        'lg_system_mdot', 'he_core_radius', 'surface_c12'}


def star_state(d):
    rich = 'H-rich' if d['surface_h1'] > 0.01 else (
        'accreted_He' if round(d['surface_h1'], 10) < round(d['center_h1'], 10)
        else 'stripped_He')
    h = d['log_LH'] > -10 and d['log_LH'] - d['log_Lnuc'] > -2
    he = d['log_LHe'] > -10 and d['log_LHe'] - d['log_Lnuc'] > -2
    if d['center_h1'] > 0.01:
        return rich + ('_Core_H_burning' if h else '_non_burning')
    if d['center_he4'] > 0.01:
        return rich + ('_Core_He_burning' if he else '_Shell_H_burning' if h
                       else '_non_burning')
    return rich + ('_Core_He_depleted' if d['center_c12'] > 0.01
                   else '_Core_C_depleted')


def check_star(R, get, d, what, w=None):
    """The recorded values of a star are those of its track."""
    from posydon.binary_evol.singlestar import STARPROPERTIES
    for k in STARPROPERTIES:
        if k in d and k not in SKIP:
            R.close(get(k), d[k], "%s: %s" % (what, k), rtol=1e-9, atol=1e-12)
    md = math.log10(abs(d['mdot'])) if d['mdot'] else -99.
    R.close(get('lg_wind_mdot'), md, what + ": wind loss", rtol=1e-9)
    R.close(get('total_moment_of_inertia'), d['inertia'] * MS * RS**2,
            what + ": moment of inertia", rtol=1e-9)
    w = get('surf_avg_omega')
    R.check(w >= 0, what + ": negative spin")
    I = d['inertia'] * MS * RS**2
    wc = math.sqrt(G * d['mass'] * MS / (d['R'] * RS)**3)
    R.close(get('surf_avg_omega_div_omega_crit'), w / wc, what + ": w/wc",
            rtol=1e-6)
    R.close(get('log_total_angular_momentum'),
            math.log10(I * w) if w > 0 else -99., what + ": J", rtol=1e-6)
    R.close(get('spin'), C * I * w / (G * (d['mass'] * MS)**2),
            what + ": spin", rtol=1e-5)
    R.eq(get('state'), star_state(d), what + ": state")


def build(case, w):
    """(kinds, masses, matched m0, matched t0, time) of the pair."""
    ks = list(case['p'])
    m = [MASS[ks[0]][0], MASS[ks[1]][1]]
    if w:
        ks, m = ks[::-1], m[::-1]
    return ks, m


def execute(case, R):
    return {'rates': do_rates, 'step': do_step, 'single': do_single,
            'badmode': do_badmode}[case['kind']](case, R)


def do_badmode(case, R):
    import warnings
    from posydon.binary_evol.DT.step_detached import detached_evolution
    for mode in ('', 'rvj83', None):
        p1, p2 = star_dict(0, 3.0), star_dict(1, 40.0)
        P = types.SimpleNamespace(interp1d=Track(p1))
        S = types.SimpleNamespace(interp1d=Track(p2))
        evo = detached_evolution(magnetic_braking_mode=mode)
        ref = detached_evolution(do_magnetic_braking=False)
        evo.set_stars(P, S)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            got = evo(0.0, [80.0, 0.2, 40.0, 3.0])
        ref.set_stars(P, S)
        want = ref(0.0, [80.0, 0.2, 40.0, 3.0])
        R.eq([float(x) for x in got], [float(x) for x in want],
             "unsupported braking mode %r" % (mode,))
        R.step()
        R.outcome('badmode', str(mode))


def do_step(case, R):
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.DT.step_detached import detached_step
    from mc import tracks
    tm = tracks.matcher()
    opt = OPTS[case['o']]
    full = case.get('full')
    variants = []
    both = all(k in ('H', 'He') for k in case['p'])
    for swap in (False, True):
        ks, m = build(case, swap)
        # at birth, and later in life with scripted matches
        variants.append((ks, m, m, [0.0, 0.0], 0.0, 'ZAMS'))
        if case['o'] != 'winds':
            m0 = [x * 1.03 for x in m]
            ends = [tracks.lifetime(k, x) if k in ('H', 'He') else 1e9
                    for k, x in zip(ks, m0)]
            t0 = [0.45 * min(ends), 0.3 * min(ends)]
            variants.append((ks, m, m0, t0, 3.7e6, None))
    for ks, m, m0, t0, time, ev in variants:
        base = None
        a0 = (G * sum(m) * MS * (case['P'] * DAY)**2 / (4 * math.pi**2)) \
            ** (1 / 3.) / RS
        stars = [make_star(k, x) for k, x in zip(ks, m)]
        w0 = [(s.surf_avg_omega or 0.0) * YR for s in stars]
        co = [k not in ('H', 'He') for k in ks]
        w0 = [w0[1 - i] if co[i] else w0[i] for i in (0, 1)]
        for late in (False, True):
            tmax = 1.38e10 if not late else time + 0.35 * min(
                tracks.lifetime(k, x) for k, x, c in zip(ks, m0, co) if not c)
            ref = Ref(ks, m0, t0, time, m, opt)
            want = ref.evolve(a0, case['e'], w0, tmax)
            runs = [({}, True)]
            if want[0] != 'initial' and not late and (ev or full):
                span = want[1] - time
                runs += [({'n_o_steps_history': 3}, True),
                         ({'dt': span / 2.6}, True), ({'dt': span * 1.7}, True),
                         ({'dt': span / 2.6, 'n_o_steps_history': 7,
                           'RLO_orbit_at_orbit_with_same_am': True}, True)]
                if want[0].startswith('RLO') and both:
                    runs.append(({}, False))
            elif want[0] != 'initial' and late and not full:
                runs = [({'dt': (want[1] - time) / 2.6}, True)]
            for kw, rlo in runs:
                b = BinaryStar(star_1=copy.deepcopy(stars[0]),
                               star_2=copy.deepcopy(stars[1]), time=time,
                               separation=a0, orbital_period=case['P'],
                               eccentricity=case['e'], state='detached',
                               event=ev, V_sys=[1.0, 2.0, 3.0])
                b.properties = props(tmax, rlo)
                with Plan(tm, b, m0, t0):
                    one_run(R, case, b, ref, want, kw, rlo, tm, opt, ks, m0,
                            t0, time, tmax, a0, co, both)


def one_run(R, case, b, ref, want, kw, rlo, tm, opt, ks, m0, t0, time, tmax,
            a0, co, both):
    from posydon.binary_evol.DT.step_detached import detached_step
    from posydon.utils.posydonerror import ClassificationError, FlowError
    what = "%s P=%s e=%s %s t0=%s until %.3g %s" % (
        '+'.join(ks), case['P'], case['e'], case['o'], t0, tmax, kw)
    step = detached_step(track_matcher=tm, **opt, **kw)
    n0 = len(b.time_history)
    kind = want[0]
    # with winds alone the adaptive steps get long (rtol 1e-3 per step)
    tol = 0.06 if case['o'] == 'winds' else 0.02
    R.step()
    err = None
    try:
        step(b)
    except (FlowError, ClassificationError) as ex:
        err = ex
    if kind == 'initial':
        R.check(err is None, what + ": error", None)
        R.eq(b.state, 'initial_RLOF', what + ": overflow at the start")
        R.outcome('initial', tuple(ks))
        return
    if err is not None:
        R.check(kind.startswith('RLO') and not rlo and both,
                what + ": unexpected error %r" % err)
        R.eq(b.event, 'FAILED', what + ": event of an unsupported transfer")
        h = [b.star_1.state.startswith(('H-rich', 'accreted')),
             b.star_2.state.startswith(('H-rich', 'accreted'))]
        R.check(any(h), what + ": He stars may exchange mass")
        R.eq(isinstance(err, ClassificationError), all(h),
             what + ": kind of the error")
        return
    t = b.time
    span = want[1] - time
    R.check(abs(t - want[1]) <= tol * span + 1e-6,
            what + ": ends at %r, expected %r by %s" % (t, want[1], kind))
    s = [ref.star(i, t, 0.0) for i in (0, 1)]
    dead = [x.state for x in (b.star_1, b.star_2)]
    if kind.startswith('RLO'):
        if not rlo:
            h = [x.startswith(('H-rich', 'accreted')) for x in dead]
            R.check(not any(h), what + ": unsupported transfer accepted")
        R.eq((b.state, b.event), (kind, 'o' + kind), what + ": overflow")
        R.eq(b.eccentricity, 0, what + ": circularised")
        e = max(want[3], 0.0)
        f = (1 - e * e) if kw.get('RLO_orbit_at_orbit_with_same_am') else 1 - e
        R.close(b.separation, want[2] * f, what + ": separation", rtol=tol)
        i = int(kind[-1]) - 1
        if not kw.get('RLO_orbit_at_orbit_with_same_am'):
            rl = roche(s[i]['mass'], s[1 - i]['mass'], b.separation)
            R.close(s[i]['R'] / rl, 0.95, what + ": filling at the end",
                    rtol=2e-3)
    else:
        R.eq(b.state, 'detached', what + ": state")
        R.eq(b.event, kind, what + ": event")
        R.close(b.separation, want[2], what + ": separation", rtol=tol)
        R.close(b.eccentricity, max(want[3], 0.), what + ": eccentricity",
                rtol=0.02, atol=3e-3)
        for i in (0, 1):
            if not co[i]:
                rl = roche(s[i]['mass'], s[1 - i]['mass'],
                           b.separation * (1 - b.eccentricity))
                R.check(s[i]['R'] < 0.96 * rl, what + ": overflow missed")
    P = 2 * math.pi * math.sqrt((b.separation * RS)**3
                                / (G * (s[0]['mass'] + s[1]['mass']) * MS)) / DAY
    R.close(b.orbital_period, P, what + ": period", rtol=1e-3)
    if kind.startswith('CC'):
        R.close(t, ref.end(int(kind[-1]) - 1), what + ": end of life",
                rtol=1e-9)
    if kind == 'maxtime':
        R.eq(t, tmax, what + ": time limit")
    if case['o'] == 'none':
        R.check(kind.startswith('RLO') or abs(b.separation / a0 - 1) < 1e-9,
                what + ": orbit changed without any process")
    if case['o'] == 'winds' and not kind.startswith('RLO'):
        s0 = [ref.star(i, time, 0.0) for i in (0, 1)]
        R.close(b.separation * (s[0]['mass'] + s[1]['mass']),
                a0 * (s0[0]['mass'] + s0[1]['mass']),
                what + ": a M is constant", rtol=0.06)
    # stars
    for i, st in enumerate((b.star_1, b.star_2)):
        if co[i]:
            R.eq(st.state, ks[i], what + ": compact object keeps its state")
            R.eq(st.mass, ref.m[i], what + ": compact object keeps its mass")
            R.eq(st.spin, 0.3, what + ": compact object keeps its spin")
            if case['e'] == 0:
                wind_accretion(R, st, s[1 - i], ref.m[i], b.separation,
                               ks[i], what)
        else:
            check_star(R, lambda k: getattr(st, k), s[i],
                       what + " star %d" % (i + 1))
            spin_ref = want[4].sol(min(t, want[1]))[2 + i] / YR
            R.close(st.surf_avg_omega, max(spin_ref, 0.),
                    what + ": spin of star %d" % (i + 1), rtol=0.05,
                    atol=2e-2 * 2e-6)
    # what core collapse needs
    for i, st in enumerate((b.star_1, b.star_2)):
        if kind == 'CC%d' % (i + 1):
            from mc import tracks
            ms = tracks.H_MASSES if ks[i] == 'H' else tracks.HE_MASSES
            lo = max(x for x in ms if x <= m0[i])
            hi = min(x for x in ms if x >= m0[i])
            for k in ('m_core_CE_1cent', 'co_core_mass_at_He_depletion'):
                v = [tracks.final(ks[i], x)['S1_' + k] for x in (lo, hi)]
                x = v[0] if lo == hi else v[0] + (m0[i] - lo) / (hi - lo) * (
                    v[1] - v[0])
                R.close(getattr(st, k), x, what + ": " + k, rtol=1e-9)
            R.check(st.profile is not None and 'omega' in st.profile.dtype.names
                    and bool((st.profile['omega'] == st.surf_avg_omega).all()),
                    what + ": profile for the collapse")
    # history rows
    b.append_state()
    new = b.time_history[n0:]
    if 'dt' in kw:
        exp = []
        x = time + kw['dt']
        while x < t * (1 - 1e-14):
            exp.append(x)
            x = time + kw['dt'] * (len(exp) + 1)
        exp.append(t)
    elif kw.get('n_o_steps_history'):
        exp = [time + (t - time) * (j + 1) / 3. for j in range(3)]
    else:
        exp = [t]
    R.check(len(new) == len(exp) and all(
        abs(x - y) <= 1e-9 * max(abs(y), 1) for x, y in zip(new, exp)),
        what + ": history times %s, expected %s" % (new, exp))
    if len(new) != len(exp):
        return
    for q in ('separation', 'eccentricity', 'event', 'V_sys',
              'rl_relative_overflow_1'):
        R.eq(len(getattr(b, q + '_history')), len(b.time_history),
             what + ": rows of " + q)
    last = time
    for j, x in enumerate(new[:-1]):
        row = n0 + j
        R.check(x > last, what + ": times do not increase")
        last = x
        if x > want[1]:
            R.fail(what + ": history row after the end")
            continue
        y = want[4].sol(x)
        R.close(b.separation_history[row], y[0], what + ": separation row",
                rtol=tol)
        R.close(b.eccentricity_history[row], max(y[1], 0.),
                what + ": eccentricity row", rtol=0.02, atol=3e-3)
        sr = [ref.star(i, x, 0.0) for i in (0, 1)]
        for i, st in enumerate((b.star_1, b.star_2)):
            if co[i]:
                R.eq(st.state_history[row], ks[i], what + ": state row of CO")
                R.eq(st.mass_history[row], ref.m[i], what + ": mass row of CO")
                if case['e'] == 0:
                    wind_accretion(R, types.SimpleNamespace(
                        lg_mdot=st.lg_mdot_history[row], mass=ref.m[i]),
                        sr[1 - i], ref.m[i], b.separation_history[row], ks[i],
                        what + " row %d" % j)
            else:
                check_star(R, lambda k: getattr(st, k + '_history')[row],
                           sr[i], what + " row %d star %d" % (j, i + 1))
                rl = roche(sr[i]['mass'], sr[1 - i]['mass'],
                           b.separation_history[row]
                           * (1 - b.eccentricity_history[row]))
                R.close(getattr(b, 'rl_relative_overflow_%d_history'
                                % (i + 1))[row], sr[i]['R'] / rl - 1,
                        what + ": overflow row", rtol=1e-6, atol=1e-6)
    R.state(tuple(ks), case['P'], case['e'], case['o'], kind, str(kw))
    R.outcome(kind, tuple(ks), dead[0], dead[1])


def wind_accretion(R, st, d, macc, a, kind, what):
    """Bondi-Hoyle accretion from the wind on a circular orbit."""
    md = abs(d['mdot'])
    if md == 0:
        R.check(st.lg_mdot <= -98.9, what + ": accretion without a wind")
        return
    R_, L, m = d['R'], d['L'], d['mass']
    sig = 5.670400e-5
    Teff = (L * 3.8418e33 / (4 * math.pi * (R_ * RS)**2 * sig)) ** 0.25
    if min(abs(Teff / x - 1) for x in (1e4, 21000.)) < 1e-3:
        return
    f = 2.65 if Teff >= 21000 else 1.0 if Teff <= 1e4 else 1.4
    vw = math.sqrt(2 * G * m * MS / (R_ * RS)) * f
    lg = math.log10(md)
    if d['surface_h1'] < 0.4 and Teff > 1e4:
        sl = (3.7 - 3.25) / 2.75 if lg >= -5.25 else -0.25
        vw = 10 ** (sl * (lg + 5.25) + 3.25) * 1e5
    v = math.sqrt(G * (m + macc) * MS / (a * RS))
    acc = 1.5 * (G * macc * MS)**2 / (2 * (v * v + vw * vw)**1.5 * vw
                                      * (a * RS)**2) * md
    disk = 2 / 3. * (1 / 3. / (1 + m / macc))**2 * (v / C)**-2 * (
        1 + (vw / v)**2)**-4
    if abs(disk - 1) < 1e-2:
        return
    if disk <= 1:
        R.check(st.lg_mdot <= -98.9, what + ": accretion %r without a disk"
                % st.lg_mdot)
        return
    if kind == 'WD':
        # recorded finding: the Eddington limit of white dwarfs takes the
        # mass in g for the mass in Msun
        x = min(d['surface_h1'], 1.0)
        rad = 2.9e8 * (macc * MS) ** (-1 / 3.)
        lim = math.log10(4 * math.pi * C * rad / (0.2 * (1 + x)) / MS * YR)
        if abs(st.lg_mdot - lim) < 0.01:
            R.fail("wind accretion of white dwarfs is limited to 1e%.1f "
                   "Msun/yr" % lim, key="eddington-limit-WD")
            return
    R.check(st.lg_mdot <= math.log10(acc) + 0.01,
            what + ": accretes %r, captured %r" % (st.lg_mdot, math.log10(acc)))
    if acc < 1e-10:      # far below any Eddington limit used
        R.close(st.lg_mdot, math.log10(acc), what + ": wind accretion",
                rtol=2e-3)


def do_single(case, R):
    import importlib
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.utils.posydonerror import FlowError
    from mc import tracks
    mod = {'IsolatedStep': 'step_isolated', 'DisruptedStep': 'step_disrupted',
           'InitiallySingleStep': 'step_initially_single'}[case['cls']]
    cls = getattr(importlib.import_module(
        'posydon.binary_evol.DT.' + mod), case['cls'])
    tm = tracks.matcher()
    k, w = case['k'], case['w'] - 1
    m = MASS[k][0]
    life = tracks.reference_track(k, m)['age'][-1]
    for state in ('initially_single_star', 'merged', 'disrupted', 'detached',
                  'RLO1'):
        for tmax in (1.38e10, 0.3 * life, None):
            stars = [make_star(k, m), make_star(case['o'], 1.4 if case['o'] == 'NS'
                                                 else 9.0)]
            if w:
                stars = stars[::-1]
            time = 0.0 if tmax else 2e6
            b = BinaryStar(star_1=stars[0], star_2=stars[1], time=time,
                           separation=math.nan, orbital_period=math.nan,
                           eccentricity=math.nan, state=state,
                           event=None if time else 'ZAMS', V_sys=[0., 0., 0.])
            tx = tmax or 1.38e10
            b.properties = props(tx)
            t0 = 0.25 * life if time else 0.0
            what = "%s %s star %d with %s, %s until %s" % (
                case['cls'], k, w + 1, case['o'], state, tx)
            R.step()
            step = cls(track_matcher=tm)
            bad = state in ('detached', 'RLO1') or (
                case['cls'] == 'InitiallySingleStep'
                and state != 'initially_single_star')
            with Plan(tm, b, [m, m], [t0, t0]):
                if bad:
                    with R.raises((FlowError, AttributeError), what):
                        step(b)
                    continue
                step(b)
            end = time + life - t0
            ev = 'CC%d' % (w + 1) if end < tx else 'maxtime'
            R.eq(b.event, ev, what + ": event")
            R.eq(b.state, state, what + ": state")
            R.close(b.time, min(end, tx), what + ": time", rtol=1e-9)
            for q in ('separation', 'orbital_period', 'eccentricity'):
                x = getattr(b, q)
                R.check(x != x, what + ": %s = %r of a single star" % (q, x))
            st, ot = (b.star_1, b.star_2)[::-1 if w else 1]
            d = pch(k, m)[0](min(end, tx) - time + t0)
            check_star(R, lambda q: getattr(st, q), d, what)
            R.eq(ot.state, case['o'], what + ": companion keeps its state")
            R.state(case['cls'], k, case['o'], state, ev)
            R.outcome(ev, state)
