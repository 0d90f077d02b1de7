"""C22: common envelope."""
import copy
import itertools
import math

LEVEL = "model_checking"
RULE = ("every combination of donor state, companion, event, separation and "
        "prescription option through the real step; distinct by outcome")
ASSUMPTIONS = ["reference: energy balance of the alpha-lambda prescription, "
               "Kepler's law and Eggleton's Roche lobe in closed form",
               "a stub answers for the track matcher; its call is checked",
               "stellar profiles are small synthetic tables",
               "the two Kepler conversions of the code differ by 1.5e-4 in "
               "their constants (pinned by unit tests): orbits to 4e-4, and "
               "outcomes within 3e-4 of Roche-lobe filling are not judged"]

G, MSUN, RSUN, DAY = 6.67428e-8, 1.9892e33, 6.9598e10, 86400.0
GIANT_H = ['H-rich_Shell_H_burning', 'H-rich_Core_He_burning',
           'H-rich_Core_He_depleted', 'H-rich_Core_C_depleted',
           'H-rich_non_burning', 'accreted_He_non_burning']
GIANT_HE = ['stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted',
            'stripped_He_non_burning']
MERGE = ['H-rich_Core_H_burning', 'stripped_He_Core_He_burning',
         'accreted_He_Core_He_burning']
BAD = ['H-rich_Shell_He_burning', 'WD', 'NS', 'BH',
       'accreted_He_Core_H_burning', 'massless_remnant']
COMP = ['NS', 'BH', 'WD', 'MS', 'bigMS', 'hugeMS', 'bigHe']
LAM = ['default_lambda', 'lambda_from_grid_final_values',
       'lambda_from_profile_gravitational',
       'lambda_from_profile_gravitational_plus_internal',
       'lambda_from_profile_gravitational_plus_internal_minus_recombination']
AFTER = ['one_phase_variable_core_definition', 'two_phases_stableMT',
         'two_phases_windloss']
KEEP = ["surface_h1", "surface_he4", "log_LH", "log_LHe", "he_core_mass",
        "he_core_radius", "co_core_mass", "co_core_radius", "center_h1",
        "center_he4", "center_c12", "center_o16", "center_n14",
        "metallicity", "log_LZ", "log_Lnuc", "c12_c12", "center_gamma",
        "avg_c_in_c_core"]
PERIODS = [3.0, 60.0, 400.0, 2500.0, 20000.0]
ALPHAS = [0.05, 0.5, 1.0, 4.0]


def bounds(tier):
    return {"donor_states": 12, "companions": len(COMP), "events": 4,
            "periods": len(PERIODS), "alphas": len(ALPHAS),
            "lambda_options": 5, "with_profile": 2, "after": 3}


def cases(tier):
    for ev in (1, 2):
        for st in GIANT_H + GIANT_HE:
            for c in COMP:
                yield {'kind': 'single', 'w': ev, 'st': st, 'c': c,
                       'full': tier != 'quick'}
            for c in GIANT_H[1:] + GIANT_HE:
                yield {'kind': 'double', 'w': ev, 'st': st, 'c': c,
                       'full': tier != 'quick'}
        for st in MERGE + GIANT_H[:1] + BAD:
            for c in ('NS', 'MS'):
                for d in (False, True):
                    yield {'kind': 'refuse', 'w': ev, 'st': st, 'c': c,
                           'double': d}
    yield {'kind': 'misuse'}


def centre(st):
    """central abundances and luminosities consistent with the state"""
    d = dict(center_h1=0.0, center_he4=0.0, center_c12=0.0, log_LH=-20.,
             log_LHe=-20., log_Lnuc=4.0)
    if 'accreted_He' in st:
        d.update(center_h1=0.005)
    if 'Core_H_b' in st:
        d.update(center_h1=0.5, center_he4=0.48, log_LH=4.0)
    elif 'Shell_H' in st:
        d.update(center_he4=0.98, log_LH=4.0)
    elif 'Core_He_b' in st:
        d.update(center_he4=0.5, center_c12=0.2, log_LHe=4.0, log_LH=3.9)
    elif 'He_depleted' in st:
        d.update(center_c12=0.3)
    elif 'non_burning' in st:
        d.update(center_he4=0.98)
    return d


def giant(st, second=False):
    from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
    d = {k: 0.123 + 0.001 * i for i, k in enumerate(STARPROPERTIES)}
    d.update(centre(st))
    he = 'stripped' in st or 'Core_He_burning' in st and 'accr' in st
    d.update(state=st, profile=None, metallicity=0.45,
             surface_h1=0.0 if he else 0.66, surface_he4=0.32)
    if he:
        d.update(mass=4.5, log_R=1.3, he_core_mass=4.5, he_core_radius=20.0,
                 co_core_mass=2.2, co_core_radius=0.08)
    else:
        d.update(mass=14.0, log_R=2.7, he_core_mass=5.0, he_core_radius=0.7,
                 co_core_mass=2.5, co_core_radius=0.2)
    if second:
        for k in ('mass', 'he_core_mass', 'co_core_mass'):
            d[k] *= 0.93
        for k in ('he_core_radius', 'co_core_radius'):
            d[k] *= 5.0
        d['log_R'] -= 0.2
    s = SingleStar(**d)
    if second:
        s.metallicity = None
    f = 0.9 if second else 1.0
    for k, (lam, mc, rc) in {
            'CE_1cent': (0.21, 5.1, 0.75), 'CE_10cent': (0.26, 5.5, 0.9),
            'CE_30cent': (0.35, 6.0, 1.3),
            'CE_pure_He_star_10cent': (0.6, 2.1, 0.09)}.items():
        if second:
            lam, mc, rc = lam * 1.3, mc * f, rc * 1.7
        setattr(s, 'lambda_' + k, lam)
        setattr(s, 'm_core_' + k, mc)
        setattr(s, 'r_core_' + k, rc)
    return s


def companion(c):
    from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
    d = {k: 0.321 + 0.001 * i for i, k in enumerate(STARPROPERTIES)}
    st, m, r = {'NS': ('NS', 1.4, 2e-5), 'BH': ('BH', 9.0, 4e-5),
                'WD': ('WD', 0.9, 0.01),
                'MS': ('H-rich_Core_H_burning', 2.0, 1.6),
                'bigMS': ('H-rich_Core_H_burning', 9.0, 12.0),
                'hugeMS': ('H-rich_Core_H_burning', 9.0, 80.0),
                'bigHe': ('stripped_He_Core_He_burning', 3.0, 30.0)}[c]
    d.update(centre(st))
    d.update(state=st, mass=m, log_R=math.log10(r), profile=None,
             surface_h1=0.0 if 'strip' in st else 0.7, metallicity=0.45)
    return SingleStar(**d)


N_SH = 14


def profile(star, dm):
    """A crude star of N_SH shells from the surface inwards."""
    import numpy as np
    names = ['mass', 'radius', 'energy', 'x_mass_fraction_H',
             'y_mass_fraction_He', 'z_mass_fraction_metals',
             'neutral_fraction_H', 'neutral_fraction_He', 'avg_charge_He']
    if dm:
        names.append('dm')
    p = np.zeros(N_SH, dtype=[(n, float) for n in names])
    u = np.arange(N_SH) / (N_SH - 1.0)
    M, Rr = star.mass, 10 ** star.log_R
    p['mass'] = M * (1 - 0.97 * u)
    p['radius'] = Rr * 10 ** (-3.2 * u)
    he = 'stripped' in star.state
    ramp = np.clip((0.75 - u) / 0.45, 0.0, 1.0)
    if he:
        p['y_mass_fraction_He'] = 0.97 * ramp
    else:
        p['x_mass_fraction_H'] = 0.68 * ramp
        p['y_mass_fraction_He'] = np.where(u > 0.9, 0.3, 0.98
                                           - p['x_mass_fraction_H'])
    p['z_mass_fraction_metals'] = 1 - p['x_mass_fraction_H'] \
        - p['y_mass_fraction_He']
    p['energy'] = 0.35 * G * p['mass'] * MSUN / (p['radius'] * RSUN)
    p['neutral_fraction_H'] = np.clip(1.05 - 4 * u, 0, None)
    p['neutral_fraction_He'] = np.clip(1.02 - 3 * u, 0, None)
    p['avg_charge_He'] = np.clip(4 * u - 0.3, -0.1, 2.0)
    if dm:
        p['dm'] = np.append(-np.diff(p['mass']), p['mass'][-1]) * MSUN * 1.01
    return p


def shells(p, opt):
    m, r = list(p['mass']), list(p['radius'])
    n = len(m)
    if 'dm' in p.dtype.names:
        dm = [x / MSUN for x in p['dm']]
    else:
        dm = [m[i] - m[i + 1] for i in range(n - 1)] + [m[-1]]
    u = [0.0] * n
    if 'internal' in opt:
        for i in range(n):
            X, Y = p['x_mass_fraction_H'][i], p['y_mass_fraction_He'][i]
            e = p['energy'][i]
            h2 = 35999.582894 * 6.62606957e-27 * 2.99792458e10 / (
                2 * 1.00782503207) * X * 6.02214129e23
            e = e - h2
            if 'minus' in opt:
                fH = min(1.0, p['neutral_fraction_H'][i])
                f1 = min(1.0, p['neutral_fraction_He'][i])
                q = max(0.0, p['avg_charge_He'][i])
                f2 = 2.0 - 2 * f1 - q
                f3 = 1 - f1 - f2
                e -= 6.02214129e23 * 1.602176565e-12 * (
                    54.417765 * f3 * Y / 4.002603254131 + 24.587388
                    * (f2 + f3) * Y / 4.002603254131
                    + 13.598434 * (1 - fH) * X / 1.00782503207)
            u[i] = e
    return m, r, dm, u


def cells(m, r, dm, u, ath):
    return [(-G * m[i] * MSUN / (r[i] * RSUN) + ath * u[i]) * dm[i] * MSUN
            for i in range(len(m))]


def envelope(star, opt, xdef, ath):
    """(binding energy, core mass, core radius) of a profile"""
    p = star.profile
    m, r, dm, u = shells(p, opt)
    he = 'stripped' in star.state
    el = p['y_mass_fraction_He' if he else 'x_mass_fraction_H']
    frac = 0.1 if he else xdef
    k = 0
    while el[k] > frac:
        k += 1
    w = (frac - el[k - 1]) / (el[k] - el[k - 1])
    c = cells(m, r, dm, u, ath)
    return (sum(c[:k - 1]) + w * c[k - 1], m[k - 1] + w * (m[k] - m[k - 1]),
            r[k - 1] + w * (r[k] - r[k - 1]))


def ejected(star, E, mc, rc):
    m, r, dm, u = shells(star.profile, LAM[4])
    tot, i = 0.0, 0
    last = 0
    for i, c in enumerate(cells(m, r, dm, u, 1.0)):
        if abs(tot) >= E:
            break
        tot += c
        last = i
    if m[last] < mc or r[last] < rc:
        out = m[0] - mc
    else:
        out = m[0] - m[last]
    env = star.mass - mc
    return env - 0.01 if out > env else out


def sep_of(P, m):
    return (G * m * MSUN * (P * DAY) ** 2 / (4 * math.pi ** 2)) ** (1 / 3.) \
        / RSUN


def per_of(a, m):
    return math.sqrt(4 * math.pi ** 2 * (a * RSUN) ** 3 / (G * m * MSUN)) \
        / DAY


def rl(m1, m2):
    q = m1 / m2
    return 0.49 * q ** (2 / 3.) / (0.6 * q ** (2 / 3.) + math.log(
        1 + q ** (1 / 3.)))


class Border(Exception):
    pass


def overflow(m1, r1, m2, r2, a, tol):
    out = False
    for x in (r1 - a * rl(m1, m2), r2 - a * rl(m2, m1)):
        if abs(x - tol) < 3e-4 * a:
            raise Border
        out |= x >= tol
    return out


def kind(st):
    return 'CO' if st in GIANT_HE else 'He'


def core(star, o):
    """binding energy of the envelope, core mass and radius of a giant"""
    k = kind(star.state)
    opt = o['lam']
    suffix = 'CE_pure_He_star_10cent' if k == 'CO' else \
        'CE_%dcent' % round(100 * o['xdef'])
    if opt == LAM[1]:
        lam = getattr(star, 'lambda_' + suffix)
        mc = getattr(star, 'm_core_' + suffix)
        rc = getattr(star, 'r_core_' + suffix)
    elif opt == LAM[0] or star.profile is None:
        lam = o['lam0']
        mc, rc = (star.co_core_mass, star.co_core_radius) if k == 'CO' \
            else (star.he_core_mass, star.he_core_radius)
    else:
        return envelope(star, opt, o['xdef'], o['ath'])
    if math.isnan(lam):
        return 0.0, mc, rc
    return (-G * star.mass * (star.mass - mc) * MSUN ** 2 / (
        lam * 10 ** star.log_R * RSUN), mc, rc)


def reference(d, c, double, P, o, matched):
    """Expected outcome."""
    eb, m1, r1 = core(d, o)
    if double:
        e2, m2, r2 = core(c, o)
        eb += e2
    else:
        m2, r2 = c.mass, 10 ** c.log_R
    a0 = sep_of(P, d.mass + c.mass)
    E0 = -G * d.mass * c.mass * MSUN ** 2 / (2 * a0 * RSUN)
    a = -G * m1 * m2 * MSUN ** 2 / (2 * (E0 + eb / o['alpha'])) / RSUN
    tol = 0.001
    out = {'match': False}
    if not double and c.state not in ('NS', 'BH', 'WD'):
        x1, x2 = r1 - a * rl(m1, m2), r2 - a * rl(m2, m1)
        if min(abs(x1 - tol), abs(x2 - tol)) < 1e-9 * max(1, a):
            raise Border
        if x1 < tol and x2 > tol:
            out['match'] = True
            if matched is not None:
                r2 = matched
    m1f, r1f, m2f, r2f = m1, r1, m2, r2
    if o['after'] != AFTER[0]:
        def final(s, m):
            if kind(s.state) == 'CO':
                return min(m, s.co_core_mass), s.co_core_radius
            return min(m, s.he_core_mass), s.he_core_radius
        m1f, r1f = final(d, m1)
        if double:
            m2f, r2f = final(c, m2)
    merge = overflow(m1, r1f, m2, r2f, a, tol)
    if not merge and o['after'] != AFTER[0]:
        Pp = per_of(a, m1 + m2)
        if o['after'] == AFTER[1] and not double:
            Pp *= (m1f / m1) ** -3.0 * math.exp(3 * (m1f - m1) / m2) * (
                (m1 + m2) / (m1f + m2)) ** 2
        else:
            Pp *= ((m1 + m2) / (m1f + m2f)) ** 2
        a = sep_of(Pp, m1f + m2f)
        merge = overflow(m1f, r1f, m2f, r2f, a, tol)
    out.update(merge=merge, a=a, P=per_of(a, m1f + m2f))
    out['stars'] = [(m1f, r1f), (m2f, r2f)]
    if merge:
        out['lost'] = [0.0, 0.0]
        if o['loss'] and d.profile is not None and (
                not double or c.profile is not None):
            ar = max(r1 / rl(m1, m2), r2 / rl(m2, m1))
            E = o['alpha'] * (E0 + G * m1 * m2 * MSUN ** 2 / (
                2 * ar * RSUN))
            if double:
                w = (d.mass - m1) / (d.mass - m1 + c.mass - m2)
                out['lost'] = [ejected(d, w * E, m1, r1),
                               ejected(c, (1 - w) * E, m2, r2)]
            else:
                out['lost'] = [ejected(d, E, m1, r1), 0.0]
    return out


def state_after(star, o, which):
    """surface composition and state of a stripped star"""
    xs = 0.0 if which == 'CO' else (
        o['xdef'] if o['after'] == AFTER[0] else 0.01)
    d = centre(star.state)
    rich = 'H-rich' if xs > 0.01 else (
        'accreted_He' if xs < d['center_h1'] else 'stripped_He')
    if d['center_he4'] == 0:
        b = 'Core_C_depleted' if d['center_c12'] == 0 else 'Core_He_depleted'
    elif which == 'He' and d['log_LHe'] > 0:
        b = 'Core_He_burning'
    else:
        b = 'non_burning'
    return xs, rich + '_' + b


class Matcher:
    def __init__(self, radius):
        self.radius, self.calls = radius, []

    def do_matching(self, binary, step_name=None, match_primary=True,
                    match_secondary=True, **kw):
        self.calls.append((match_primary, match_secondary))
        for s in (binary.star_1, binary.star_2):
            s.interp1d = None
            if self.radius is not None:
                s.interp1d = lambda t: {'R': self.radius * (
                    1.0 if t == 1.2e7 else 1e9)}
        return None, None, False


def make(d, c, w, ev, P):
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.simulationproperties import SimulationProperties
    a, b = (d, c) if w == 1 else (c, d)
    return BinaryStar(star_1=a, star_2=b, state='RLO%d' % w, event=ev,
                      time=1.2e7, orbital_period=P, separation=-1.0,
                      eccentricity=0.3, V_sys=[1.0, 2.0, 3.0],
                      mass_transfer_case='case_B1',
                      lg_mtransfer_rate=-3.0, rl_relative_overflow_1=0.1,
                      nearest_neighbour_distance=0.7,
                      properties=SimulationProperties())


def props(s):
    from posydon.binary_evol.singlestar import STARPROPERTIES
    return {k: getattr(s, k) for k in STARPROPERTIES}


def same(a, b):
    if a is b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a is None and b is None or (
        type(a) is type(b) and not hasattr(a, 'dtype') and a == b)


def one(R, d0, c0, w, double, P, o, matched, tag):
    from posydon.binary_evol.CE.step_CEE import StepCEE
    ev = ('oDoubleCE%d' if double else 'oCE%d') % w
    try:
        ref = reference(d0, c0, double, P, o, matched)
    except Border:
        return
    b = make(d0, c0, w, ev, P)
    tm = Matcher(matched)
    kw = dict(common_envelope_efficiency=o['alpha'],
              common_envelope_lambda_default=o['lam0'],
              common_envelope_option_for_lambda=o['lam'],
              common_envelope_alpha_thermal=o['ath'],
              core_definition_H_fraction=o['xdef'],
              common_envelope_option_after_succ_CEE=o['after'],
              mass_loss_during_CEE_merged=o['loss'],
              common_envelope_option_for_HG_star=o.get('hg', 'optimistic'),
              track_matcher=tm)
    StepCEE(**kw)(b)
    d, c = (b.star_1, b.star_2) if w == 1 else (b.star_2, b.star_1)
    R.step()
    R.outcome(b.state, str(b.event), d.state, ref['match'])
    what = "%s P=%s %s" % (tag, P, sorted(o.items()))
    R.eq(tm.calls, [(False, True)] if ref['match'] else [],
         "%s: matching of the companion" % what)
    if ref['merge']:
        R.eq((b.state, b.event), ('merged', 'oMerging%d' % w),
             "%s: result" % what)
        for s, s0, lost, k in ((d, d0, ref['lost'][0], kind(d0.state)),
                               (c, c0, ref['lost'][1],
                                kind(c0.state) if double else '')):
            R.close(s.mass, s0.mass - lost, "%s: mass of a merged star (lost "
                    "%s of %s)" % (what, lost, s0.mass), 1e-9, 0)
            R.check(s.log_R != s.log_R, "%s: radius in merger" % what)
            R.eq(s.state, s0.state, "%s: state in merger" % what)
            if k == 'CO':
                R.close(s.he_core_mass, s.mass, "%s: He core of a merging He "
                        "star" % what, 1e-12, 0)
            else:
                R.check(same(s.he_core_mass, s0.he_core_mass),
                        "%s: He core in merger" % what)
        return
    want = 'CC%d' % w if d0.state == GIANT_HE[0] else None
    R.eq((b.state, b.event), ('detached', want), "%s: result" % what)
    R.close(b.separation, ref['a'], "%s: separation" % what,
            1e-6 if o['after'] == AFTER[0] else 3e-4, 0)
    R.close(b.orbital_period, ref['P'], "%s: period" % what, 4e-4, 0)
    R.eq((b.eccentricity, b.time, b.V_sys, b.mass_transfer_case),
         (0.0, 1.2e7, [1.0, 2.0, 3.0], 'case_B1'), "%s: orbit" % what)
    R.check(b.lg_mtransfer_rate != b.lg_mtransfer_rate
            and b.rl_relative_overflow_1 != b.rl_relative_overflow_1,
            "%s: stale mass transfer" % what)
    for s, s0, (m, r), strip in ((d, d0, ref['stars'][0], True),
                                 (c, c0, ref['stars'][1], double)):
        if not strip:
            new, old = props(s), props(s0)
            bad = [k for k in old if not same(new[k], old[k])]
            R.eq(bad, [], "%s: changed properties of the companion" % what)
            continue
        k = kind(s0.state)
        R.close(s.mass, m, "%s: mass of the stripped star" % what, 1e-9, 0)
        R.close(s.log_R, math.log10(r), "%s: radius" % what, 0, 1e-9)
        xs, st = state_after(s0, o, k)
        R.eq(s.state, st, "%s: state of the stripped star" % what)
        R.close(s.surface_h1, xs, "%s: surface H" % what, 0, 1e-12)
        Z = 0.0142 * (1.0 if s0.metallicity is None else s0.metallicity)
        R.close(s.surface_he4, 0.1 if k == 'CO' else 1 - xs - Z,
                "%s: surface He" % what, 0, 1e-12)
        R.close(s.he_core_mass, m, "%s: He core" % what, 1e-9, 0)
        R.close(s.he_core_radius, r, "%s: He core radius" % what, 1e-9, 0)
        if k == 'CO':
            R.close(s.co_core_mass, m, "%s: CO core" % what, 1e-9, 0)
            R.close(s.co_core_radius, r, "%s: CO core radius" % what, 1e-9,
                    0)
        keep = [x for x in KEEP if not (
            x in ('surface_h1', 'surface_he4', 'he_core_mass',
                  'he_core_radius', 'log_LH')
            or k == 'CO' and x in ('co_core_mass', 'co_core_radius',
                                   'log_LHe'))]
        bad = [x for x in keep if not same(getattr(s, x), getattr(s0, x))]
        R.eq(bad, [], "%s: properties that should be kept" % what)
        new = props(s)
        stale = [x for x in new if x not in KEEP + ['mass', 'log_R', 'state']
                 and not (isinstance(new[x], float) and new[x] != new[x])]
        R.eq(stale, [], "%s: stale properties of the stripped star" % what)


def options(tier):
    for lam, xdef, aft in itertools.product(LAM, (0.01, 0.1, 0.3), AFTER):
        for al in ALPHAS:
            yield dict(lam=lam, xdef=xdef, after=aft, alpha=al, lam0=0.4,
                       ath=1.0, loss=False)
    for aft, al in itertools.product(AFTER, ALPHAS):
        yield dict(lam=LAM[1], xdef=0.3, after=aft, alpha=al, lam0=0.5,
                   ath=1.0, loss=True)
        yield dict(lam=LAM[3], xdef=0.1, after=aft, alpha=al, lam0=0.5,
                   ath=0.4, loss=True)
        yield dict(lam=LAM[0], xdef=0.1, after=aft, alpha=al, lam0=1.5,
                   ath=1.0, loss=False, hg='pessimistic')


def quiet():
    import warnings

    warnings.simplefilter('ignore')


def execute(case, R):
    quiet()
    from posydon.binary_evol.CE.step_CEE import StepCEE
    k = case['kind']
    tag = '%s donor %s companion %s %s' % (k, case.get('st'), case.get('c'),
                                           case.get('w'))
    if k in ('single', 'double'):
        double = k == 'double'
        for prof in (0, 1, 2):
            d = giant(case['st'])
            c = giant(case['c'], True) if double else companion(case['c'])
            if prof:
                if 'accreted' in case['st'] or double and 'accreted' in \
                        case['c']:
                    continue
                d.profile = profile(d, prof == 2)
                if double:
                    c.profile = profile(c, prof == 2)
            for o in options(None):
                if not case['full'] and o['alpha'] not in (
                        (0.5, 4.0) if double else (0.05, 1.0, 4.0)):
                    continue
                if prof and o['lam'] in LAM[:2] and not o['loss']:
                    continue
                if not prof and o['lam'] in LAM[3:] and not o['loss']:
                    continue
                if o.get('hg') and case['st'] == GIANT_H[0]:
                    continue
                for P in PERIODS if case['full'] or not double \
                        else PERIODS[1::2]:
                    for r in ((None, 0.5) if k == 'single' and
                              'big' in case['c'] or
                              case['c'] == 'hugeMS' else (2.0,)):
                        one(R, d, c, case['w'], double, P, o, r, tag)
        # a lambda that is not defined costs no energy
        if not double:
            d, c = giant(case['st']), companion(case['c'])
            for x in ('CE_1cent', 'CE_10cent', 'CE_30cent',
                      'CE_pure_He_star_10cent'):
                setattr(d, 'lambda_' + x, float('nan'))
            for aft, P in itertools.product(AFTER, PERIODS):
                one(R, d, c, case['w'], False, P, dict(
                    lam=LAM[1], xdef=0.3, after=aft, alpha=1.0, lam0=0.5,
                    ath=1.0, loss=False), 2.0, tag)
    elif k == 'refuse':
        w, st = case['w'], case['st']
        ev = ('oDoubleCE%d' if case['double'] else 'oCE%d') % w
        for hg in ('optimistic', 'pessimistic'):
            for lam in LAM:
                d, c = giant(st), companion(case['c'])
                b = make(d, c, w, ev, 400.0)
                s = StepCEE(common_envelope_option_for_HG_star=hg,
                            common_envelope_option_for_lambda=lam)
                R.step()
                if st in MERGE or st == GIANT_H[0] and hg == 'pessimistic':
                    s(b)
                    R.eq((b.state, b.event), ('merged', 'oMerging%d' % w),
                         "%s %s: unevolved donors merge" % (tag, hg))
                    R.eq((b.star_1.mass, b.star_2.mass),
                         (d.mass, c.mass) if w == 1 else (c.mass, d.mass),
                         "%s: masses" % tag)
                    R.outcome('merged')
                elif st in BAD:
                    with R.raises(ValueError, "%s: donor accepted" % tag):
                        s(b)
                    R.outcome('refused')
    else:
        d, c = giant(GIANT_H[1]), companion('NS')
        for ev in ('oRLO1', None, 'CC1', 'oMerging1', 'oCE', 'oCE3'):
            R.step()
            with R.raises(ValueError, "event %s accepted" % ev):
                StepCEE()(make(d, c, 1, ev, 400.0))
        for kw in (dict(core_definition_H_fraction=0.2),
                   dict(common_envelope_option_after_succ_CEE='x'),
                   dict(prescription='gamma')):
            R.step()
            with R.raises(ValueError, "%s accepted" % kw):
                StepCEE(**kw)(make(d, c, 1, 'oCE1', 400.0))
        with R.raises(ValueError, "He core definition"):
            StepCEE(core_definition_He_fraction=0.2)(
                make(giant(GIANT_HE[0]), c, 1, 'oCE1', 400.0))
        with R.raises(ValueError, "unknown option"):
            StepCEE(nonsense=1)
        d.profile = profile(d, False)
        with R.raises(ValueError, "unknown lambda option"):
            StepCEE(common_envelope_option_for_lambda='x')(
                make(d, c, 1, 'oCE1', 400.0))
        R.outcome('misuse')
