"""C20: the remnant of a core collapse."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every mechanism x electron-capture, pair-instability and envelope "
        "option x star on a grid of core, helium core and total masses with "
        "all thresholds, collapsing as star 1 and as star 2; every stored "
        "interpolated outcome against every star; distinct by remnant")
ASSUMPTIONS = ["reference: closed-form prescriptions of the cited papers",
               "tabulated engines read small tables written by the check in "
               "the layout of the data release; their reference is a "
               "nearest-neighbour search and linear interpolation",
               "metallicity at least 1e-4 solar; stars below 1.4 Msun, which "
               "the fallback formulas do not cover, may leave up to 1.4"]

CO = [0.0, 0.3, 1.2, 1.37, 1.4, 1.43, 1.45, 2.0, 2.5, 3.0, 3.5, 5.0, 6.0, 6.5,
      7.0, 9.0, 10.0, 11.0, 11.5, 20.0, 34.0, 38.0, 39.0, 45.0, 60.0, 90.0,
      114.0, 120.0]
HEX = [0.0, 0.4, 2.0, 12.0]          # helium on top of the CO core
HX = [0.0, 5.0]                      # hydrogen envelope
ECSN = ['Tauris+15', 'Podsiadlowski+04', None]
PISN = [None, 'Marchant+19', ('Hendriks+23', 0.0, -20.0),
        ('Hendriks+23', -5.0, 10.0), ('Hendriks+23', 0.0, 0.0), 30.0]
MECHS = ['Fryer+12-rapid', 'Fryer+12-delayed', 'direct', 'direct_he_core',
         'Sukhbold+16-engine', 'Patton&Sukhbold20-engine', 'Couch+20-engine',
         'Maltsev+25-engine']
ENGINE = {'Sukhbold+16-engine': 'N20', 'Patton&Sukhbold20-engine': 'N20',
          'Couch+20-engine': '1.0', 'Maltsev+25-engine': 'M16'}
NSMAX = [2.0, 2.5]
NU = [0.0, 0.1, 0.5, None]
ZS = [0.1, 1.0, 1e-4]
STATES = ['stripped_He_Core_C_depleted', 'H-rich_Core_C_depleted',
          'H-rich_Core_He_depleted', 'stripped_He_Core_He_depleted',
          'stripped_He_non_burning', 'H-rich_non_burning',
          'H-rich_Shell_H_burning', 'accreted_He_Shell_H_burning',
          'accreted_He_non_burning']
NOTCC = ['H-rich_Core_H_burning', 'stripped_He_Core_He_burning', 'BH', 'NS',
         'WD', 'massless_remnant']

# small tables of the tabulated engines
SUKH = [(1.5, 13, 1.30, 0), (2.5, 13, 1.45, 0), (4.0, 13, 1.6, 0),
        (5.0, 14, 4.9, 0), (5.6, 14, 2.0, 1.0), (6.0, 13, 1.75, 0),
        (8.0, 14, 7.5, 0), (20.0, 14, 18.0, 0)]
COUCH = {'9.0': 0.3, '12.0': 0.8, '15.0': 0.0, '20.0': 0.9, '40.0': 0.0}
COUCHC = [(9.0, 1.6), (12.0, 3.0), (15.0, 4.5), (20.0, 6.0), (40.0, 14.0)]
PM = [2.5, 4.0, 6.0, 8.0, 9.5]
PX = [0.05, 0.2, 0.35]


def ptab(name, x, m):
    return {'mu4': 0.05 + 0.02 * m - 0.1 * x, 'M4': 1.4 + 0.08 * m,
            'Xi': 0.02 + 0.06 * m + 0.1 * x, 'sc': 0.8 + 0.05 * m - 0.2 * x}[
                name]


def bounds(tier):
    return {"core_masses": len(CO), "helium_shells": len(HEX),
            "envelopes": len(HX), "mechanisms": len(MECHS), "ecsn": 3,
            "pisn": len(PISN), "ns_limits": 2, "neutrino_limits": 4}


def setup(root):
    import json
    import os
    d = os.path.join(root, 'tables')
    os.makedirs(d)
    with open(d + '/results_N20_table.csv', 'w') as f:
        f.write('He_c_mass,stellar_state,Rem_mass,fallback_mass\n')
        for r in SUKH:
            f.write('%g,%d,%g,%g\n' % r)
    json.dump({'1.0': {k: {'Eexp': v} for k, v in COUCH.items()}},
              open(d + '/explDatsSTIR2.json', 'w'))
    with open(d + '/Sukhbold_Mzams_He_c_core.csv', 'w') as f:
        f.write('Mzams,He_c_mass\n')
        for r in COUCHC:
            f.write('%g,%g\n' % r)
    for n in ('mu4', 'M4', 'Xi', 'sc'):
        with open(d + '/Kepler_%s_table.dat' % n, 'w') as f:
            f.write('# header\n' * 0 + 'a\n' * 6)
            f.write('X ' + ' '.join('%g' % m for m in PM) + '\n')
            for x in PX:
                f.write('%g ' % x + ' '.join(
                    repr(ptab(n, x, m)) for m in PM) + '\n')


def worker_init(R):
    import os
    import posydon.binary_evol.SN.step_SN as S
    d = os.path.join(R.scratch_root, 'tables') + '/'
    S.path_to_Sukhbold_datasets = d
    S.path_to_Patton_datasets = d
    S.path_to_Couch_datasets = d


def cases(tier):
    for mech in MECHS:
        for ec in ECSN:
            for p in PISN:
                for keep in (False, True):
                    for n in range(4):
                        if tier == "quick" and mech in ENGINE and n != (
                                ECSN.index(ec) + PISN.index(p)) % 4:
                            continue
                        yield {'kind': 'star', 'mech': mech, 'ecsn': ec,
                               'pisn': p, 'keep': keep, 'part': n}
    for st in STATES:
        yield {'kind': 'state', 'state': st}
    for st in NOTCC:
        yield {'kind': 'notcc', 'state': st}
    for ty in ('WD', 'ECSN', 'CCSN', 'PPISN', 'PISN'):
        for cs in ('WD', 'NS', 'BH', 'massless_remnant', 'PISN'):
            yield {'kind': 'interp', 'type': ty, 'state': cs}
    for k in range(6):
        yield {'kind': 'spin', 'k': k}
    for f in (True, False):
        yield {'kind': 'match', 'f': f}


def star(mass, he, co, state, logJ=50.0, Z=0.1):
    from posydon.binary_evol.singlestar import SingleStar
    return SingleStar(mass=mass, he_core_mass=he, co_core_mass=co, state=state,
                      log_total_angular_momentum=logJ, metallicity=Z,
                      center_he4=0.0, center_h1=0.0, center_c12=0.0,
                      avg_c_in_c_core_at_He_depletion=0.21,
                      co_core_mass_at_He_depletion=co)


def binary(s, which, state='detached', other=None):
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.simulationproperties import SimulationProperties
    from posydon.binary_evol.singlestar import SingleStar
    o = other or SingleStar(mass=8.0, state='H-rich_Core_H_burning',
                            lg_mdot=-5.0, lg_system_mdot=-6.0, log_R=0.7,
                            center_h1=0.5, center_he4=0.48, he_core_mass=0.0,
                            surface_h1=0.7, log_LH=3.0, log_LHe=-20.0,
                            log_Lnuc=3.0, center_c12=0.001)
    a, b = (s, o) if which == 1 else (o, s)
    return BinaryStar(star_1=a, star_2=b, state=state, event='CC%d' % which,
                      time=1e7, separation=100.0, orbital_period=20.0,
                      eccentricity=0.0, properties=SimulationProperties())


def pick(b, which):
    return b.star_1 if which == 1 else b.star_2


def near(vals, x):
    ds = sorted((abs(v - x), k) for k, v in enumerate(vals))
    if len(ds) > 1 and abs(ds[0][0] - ds[1][0]) < 1e-9:
        return None
    return ds[0][1]


def lin(xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            t = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
            return ys[i - 1] + t * (ys[i] - ys[i - 1])
    return ys[-1]


def knn(name, x, m):
    pts = sorted((math.hypot(x - a, m - b), ptab(name, a, b)) for a in PX
                 for b in PM)
    if pts[0][0] < 1e-12:
        return pts[0][1]
    if abs(pts[4][0] - pts[5][0]) < 1e-9:
        return None
    w = [1 / d for d, _ in pts[:5]]
    return sum(a * v for a, (_, v) in zip(w, pts)) / sum(w)


AMB = object()           # the reference leaves the outcome open


def baryonic(mech, ecsn, keep, mass, he, co, u=None):
    """(type, baryonic mass, fallback) before pair instability."""
    if ecsn == 'Podsiadlowski+04':
        low, ec = he < 1.4, he <= 2.5
    else:
        low, ec = co < 1.37, ecsn is not None and co <= 1.43
    if low:
        if co > 0:
            return 'WD', co, 1.0
        if he > 0:
            return 'WD', he, 1.0
        if mass < 0.5:
            return 'WD', mass, 1.0
        return 'error', None, None
    col = mass if keep else he
    if mech == 'direct':
        return ('ECSN' if ec else 'CCSN'), col, 1.0
    if mech == 'direct_he_core':
        return ('ECSN' if ec else 'CCSN'), he, 1.0
    if ec:
        return 'ECSN', (1.38 if ecsn == 'Podsiadlowski+04' else co), 0.0
    if mech == 'Fryer+12-rapid':
        p = 1.1
        if co < 2.5:
            f = 0.2 / (col - p)
        elif co < 6:
            f = (0.286 * co - 0.514) / (col - p)
        elif co < 7:
            f = 1.0
        elif co < 11:
            a = 0.25 - 1.275 / (col - p)
            f = a * co + 1 - 11 * a
        else:
            f = 1.0
        return 'CCSN', p + f * (col - p), f
    if mech == 'Fryer+12-delayed':
        p = 1.2 if co < 3.5 else 1.3 if co < 6 else 1.4 if co < 11 else 1.6
        if co < 2.5:
            f = 0.2 / (col - p)
        elif co < 3.5:
            f = (0.5 * co - 1.05) / (col - p)
        elif co < 11:
            a = 0.133 - 0.093 / (col - p)
            f = a * co + 1 - 11 * a
        else:
            f = 1.0
        return 'CCSN', p + f * (col - p), f
    if mech == 'Sukhbold+16-engine':
        use = [r for r in SUKH if r[1] == 13 or r[3] == 0]
        k = near([r[0] for r in use], he)
        if k is None:
            return 'CCSN', AMB, AMB
        if use[k][1] == 13:
            ns = [r for r in use if r[1] == 13]
            return 'CCSN', lin([r[0] for r in ns], [r[2] for r in ns], he), 0.
        bh = [r for r in use if r[1] == 14]
        m = col if col > bh[-1][0] else lin(
            [r[0] for r in bh], [r[2] for r in bh], col)
        return 'CCSN', m, 1.0
    if mech == 'Couch+20-engine':
        hs = [h for _, h in COUCHC]
        k = near(hs, he)
        if k is None:
            return 'CCSN', AMB, AMB
        if COUCH['%.1f' % COUCHC[k][0]] == 0.0:
            return 'CCSN', col, 1.0
        return 'CCSN', 1.4, 0.0
    # mass and carbon abundance at helium depletion
    x = 0.21
    if co <= 2.5:
        return 'CCSN', 1.25, 0.0
    if co >= 10:
        return 'CCSN', col, 1.0
    M4, mu4, Xi, sc = (knn(n, x, co) for n in ('M4', 'mu4', 'Xi', 'sc'))
    if None in (M4, mu4, Xi, sc):
        return 'CCSN', AMB, AMB
    if mech == 'Patton&Sukhbold20-engine':
        if 0.194 * mu4 * M4 + 0.0580 < mu4:
            return 'CCSN', col, 1.0
        return 'CCSN', M4, 0.0
    # Maltsev+25
    fail = Xi > 0.544 or sc > 1.169
    succ = Xi < 0.314 or sc < 0.988
    mm = mu4 * M4
    if fail == succ:
        if mm > 0.421:
            ok = False
        elif mm < 0.247:
            ok = True
        else:
            ok = not (0.005 + 0.420 * mm - mu4 > 0)
    else:
        ok = succ
    if not ok:
        return 'CCSN', col, 1.0
    if Xi <= 0.04 or (Xi < 1.75 * mm - 0.044 and Xi <= 0.4) or M4 / co > 0.6 \
            or u > 0.15:
        return 'CCSN', M4, 0.0
    return 'CCSN', col, 0.99


def pulse(pisn, co, Z):
    _, shift, extra = pisn
    if 38 + shift <= co <= 114 + shift:
        d = co - shift - 34.8
        return (0.0006 * math.log10(Z * 0.0142) + 0.0054) * d ** 3 \
            - 0.0013 * d ** 2 + extra
    return 0.0


def remnant(mech, ecsn, pisn, keep, mass, he, co, Z, u, keepppi=False):
    """(type, baryonic mass or None for no remnant)."""
    ty, m, f = baryonic(mech, ecsn, keep, mass, he, co, u)
    if ty in ('WD', 'error') or m is AMB:
        return ty, m, f
    top = mass if keep else he
    if pisn is None:
        return ty, m, f
    if pisn == 'Marchant+19':
        if 61.10 < he < 124.12:
            return 'PISN', None, f
        if 31.99 <= he <= 61.10:
            c = [-6.29429263e5, 1.15957797e5, -9.28332577e3, 4.21856189e2,
                 -1.19019565e1, 2.13499267e-1, -2.37814255e-3, 1.50408118e-5,
                 -4.13587235e-8]
            top = sum(k * he ** i for i, k in enumerate(c))
    elif isinstance(pisn, (list, tuple)):
        _, shift, extra = pisn
        dm = pulse(pisn, co, Z)
        if dm > 0:
            left = (mass if keepppi else he) - dm
            if left < 0:
                return 'PISN', None, f
            t2, m2, _ = baryonic(mech, ecsn, keep, left, min(he, left),
                                 min(co, left), u)
            if t2 in ('error',):
                return AMB, AMB, AMB
            if m2 is AMB:
                return AMB, AMB, AMB
            if t2 != 'WD' and m2 > left:
                m2 = left
            if m2 < 10:
                return 'PISN', None, f
            top = m2
    elif he > pisn:
        top = pisn
    else:
        return ty, m, f
    if m > top:
        return 'PPISN', top, f
    return ty, m, f


def make(case, **kw):
    from posydon.binary_evol.SN.step_SN import StepSN
    a = dict(mechanism=case['mech'], engine=ENGINE.get(case['mech'], ''),
             ECSN=case['ecsn'], conserve_hydrogen_envelope=case['keep'],
             use_interp_values=False, use_profiles=False, use_core_masses=True,
             kick=False)
    p = case['pisn']
    if isinstance(p, (list, tuple)):
        a.update(PISN=p[0], PISN_CO_shift=p[1], PPI_extra_mass_loss=p[2])
    else:
        a['PISN'] = p
    a.update(kw)
    return StepSN(**a)


class U:
    """A generator whose uniform variates are all the same."""

    def __init__(self, u):
        self.u = u

    def uniform(self, a=0.0, b=1.0, size=None):
        return a + (b - a) * self.u


def run_star(case, R):
    nsmax = NSMAX[case['part'] % 2]
    nu = NU[case['part']]
    step = make(case, max_NS_mass=nsmax, max_neutrino_mass_loss=nu,
                RNG=U(0.5), conserve_hydrogen_PPI=case['part'] > 1)
    stars = [(co, co + dhe, co + dhe + dh) for co, dhe, dh in
             itertools.product(CO, HEX, HX)]
    if case['pisn'] == 30.0:
        stars += [(co, he, mass) for co, he in ((12., 20.), (20., 29.), (
            25., 31.)) for mass in (29., 31., 60.) if mass >= he]
    if isinstance(case['pisn'], (list, tuple)):
        # pulses that leave little
        for co in (40.0, 55.0, 70.0, 80.0, 100.0):
            for j, left in enumerate((-1.0, 9.5, 10.5, 10.9, 11.5, 20.0)):
                Z = ZS[(len(stars)) % 3]
                he = pulse(case['pisn'], co, Z) + left
                stars.append((co, he, he + 4.0 * (j % 2)) if he > co else (
                    co, co, co))
    for i, (co, he, mass) in enumerate(stars):
        if mass == 0:
            continue
        u = (0.1, 0.9)[i % 2]
        step.RNG = U(u)
        Z = ZS[i % 3]
        which = 1 + (i + case['part']) % 2
        for w in ((1, 2) if i % 7 == 0 else (which,)):
            one_star(case, R, step, mass, he, co, Z, u, w, nsmax, nu)


def one_star(case, R, step, mass, he, co, Z, u, which, nsmax, nu):
    from posydon.utils.posydonerror import ModelError
    st = 'stripped_He_Core_C_depleted' if he == mass else \
        'H-rich_Core_C_depleted'
    s = star(mass, he, co, st, Z=Z)
    b = binary(s, which)
    s = pick(b, which)
    o = pick(b, 3 - which)
    ty, m, f = remnant(case['mech'], case['ecsn'], case['pisn'], case['keep'],
                       mass, he, co, Z, u, keepppi=case['part'] > 1)
    tag = "%s star of %g Msun (He core %g, CO core %g)" % (
        case['mech'], mass, he, co)
    R.step()
    try:
        step(b)
    except ModelError:
        R.check(ty == 'error', tag + " could not be collapsed")
        return
    R.must(ty != 'error', tag + " without core collapsed")
    R.check(b.event is None, tag + ": event %s" % b.event)
    s = pick(b, which)
    R.eq(o.mass, 8.0, tag + ": mass of the companion")
    R.eq(o.state, 'H-rich_Core_H_burning', tag + ": state of the companion")
    # general limits
    R.check(s.state in ('WD', 'NS', 'BH', 'massless_remnant'),
            tag + " became " + str(s.state))
    R.check(s.mass <= max(mass, 1.4) * (1 + 1e-12), tag + " left more mass: %s" %
            s.mass)
    if ty is AMB or m is AMB:
        return
    R.eq(s.SN_type, ty, tag + ": type")
    if ty == 'PISN':
        R.eq(s.state, 'massless_remnant', tag + ": state after PISN")
        R.eq(s.mass, 0.0, tag + ": mass after PISN")
        R.eq(b.state, 'disrupted', tag + ": binary after PISN")
        R.outcome('pisn')
        return
    if ty == 'WD':
        R.eq(s.state, 'WD', tag + ": state")
        R.close(s.mass, m, tag + ": mass", 1e-9)
        R.eq(s.spin, 0.0, tag + ": spin")
        grav = m
    else:
        lim = 0.0 if nu is None else nu
        g = 20. / 3 * (math.sqrt(1 + 0.3 * m) - 1)
        grav = max(g, m - lim)
        R.close(s.mass, grav, tag + ": remnant mass", 1e-9)
        R.check(m - s.mass <= lim + 1e-9, tag + " lost %g in neutrinos" %
                (m - s.mass))
        if abs(grav - nsmax) > 1e-9:
            R.eq(s.state, 'BH' if grav >= nsmax else 'NS', tag + ": state")
        if s.state == 'NS':
            R.eq(s.spin, 0.0, tag + ": spin")
        else:
            R.check(0 <= s.spin <= 1, tag + ": spin %s" % s.spin)
        R.close(s.metallicity, Z, tag + ": metallicity")
    rad = {'WD': 2.9e8 * s.mass ** (-1 / 3.) / 6.957e10,
           'NS': 12.5e5 / 6.957e10,
           'BH': 2 * 6.67428e-8 * s.mass * 1.9892e33 / 2.99792458e10 ** 2 /
           6.957e10}[s.state]
    R.must(s.log_R is not None, tag + ": no radius")
    R.close(10 ** s.log_R, rad, tag + ": radius", 3e-3)
    R.close(step.compute_m_rembar(star(mass, he, co, st, Z=Z), None)[1],
            f, tag + ": fallback", 1e-9) if ty in ('CCSN', 'ECSN') else None
    # without a kick the orbit follows the mass lost by this star
    R.close(b.separation, 100.0 * (mass + 8.0) / (grav + 8.0),
            tag + " as star %d: separation" % which, 1e-6)
    R.eq(b.state, 'detached', tag + ": binary state")
    R.outcome(s.state, ty, round(s.mass, 6))


def run_state(case, R):
    for co, dhe in ((0.8, 0.1), (1.4, 0.2), (2.0, 0.5), (5.0, 2.0),
                    (15.0, 3.0)):
        for which in (1, 2):
            c = {'mech': 'Fryer+12-delayed', 'ecsn': 'Tauris+15', 'pisn':
                 None, 'keep': False, 'part': 2}
            step = make(c)
            s = star(co + dhe + 1.0, co + dhe, co, case['state'])
            b = binary(s, which)
            s = pick(b, which)
            step(b)
            R.step()
            R.check(s.state in ('WD', 'NS', 'BH'), "%s star became %s" % (
                case['state'], s.state))
            R.outcome(case['state'], s.state, round(s.mass, 6))
            # options that cannot decide the collapse
            step = make(c, use_core_masses=False)
            s = star(co + dhe + 1.0, co + dhe, co, case['state'])
            b = binary(s, which)
            s = pick(b, which)
            from posydon.utils.posydonerror import ModelError
            if co >= 1.37:
                with R.raises(ModelError, "collapse without any method"):
                    step(b)
                R.eq(b.event, 'FAILED', "event of a failed collapse")
                step = make(c, use_core_masses=False, allow_spin_None=True)
                s = star(co + dhe + 1.0, co + dhe, co, case['state'])
                b = binary(s, which)
                s = pick(b, which)
                step(b)
                R.check(s.spin is None and s.state in ('NS', 'BH'),
                        "collapse without spin")
    c = {'mech': 'direct', 'ecsn': None, 'pisn': None, 'keep': False}
    for ev in ('CC3', None, 'END', 'ZAMS'):
        b = binary(star(5., 4., 3., case['state']), 1)
        b.event = ev
        with R.raises(ValueError, "supernova step for event %s" % ev):
            make(c)(b)


def run_notcc(case, R):
    from posydon.utils.posydonerror import ModelError
    for mech in ('Fryer+12-rapid', 'Fryer+12-delayed', 'direct'):
        for which in (1, 2):
            c = {'mech': mech, 'ecsn': None, 'pisn': None, 'keep': False}
            s = star(5., 4., 3., case['state'])
            b = binary(s, which)
            s = pick(b, which)
            with R.raises(ModelError, "%s star collapsed" % case['state']):
                make(c)(b)
            R.step()
            R.eq((b.state, b.event), ('ERR', 'FAILED'), "binary after a "
                 "collapse that is not possible")


def run_interp(case, R):
    from posydon.grids.SN_MODELS import SN_MODELS, get_SN_MODEL_NAME
    from posydon.binary_evol.SN.step_SN import StepSN
    for co, he in ((0.9, 1.1), (1.4, 1.8), (3.0, 4.0), (12.0, 14.0),
                   (42.0, 47.0), (80.0, 90.0)):
        for m in (7.7, 1.3, float('nan')):
            for which in (1, 2):
                step = StepSN(kick=False)
                name = get_SN_MODEL_NAME(vars(step))
                R.must(name is not None, "default model not known")
                st = 'stripped_He_Core_C_depleted'
                s = star(he + 1.0, he, co, st)
                own = 'WD' if co < 1.37 else 'ECSN' if co <= 1.43 else 'CCSN'
                setattr(s, name, {
                    'state': case['state'], 'SN_type': case['type'],
                    'mass': m, 'spin': 0.33, 'f_fb': 0.5,
                    'm_disk_accreted': 0.1, 'm_disk_radiated': 0.2,
                    'h1_mass_ej': 0.0, 'he4_mass_ej': 0.5})
                b = binary(s, which)
                s = pick(b, which)
                step(b)
                R.step()
                given = own if case['type'] == 'ECSN' else case['type']
                fits = {'WD': ('WD',), 'NS': ('ECSN', 'CCSN'),
                        'BH': ('CCSN', 'PPISN'), 'massless_remnant':
                        ('PISN',), 'PISN': ('PISN',)}[case['state']]
                use = own != 'ECSN' and own == given and given in fits and \
                    m == m
                tag = "star with CO core %g and interpolated %s %s of %s" % (
                    co, case['type'], case['state'], m)
                if use:
                    R.eq(s.state, case['state'] if case['state'] not in (
                        'NS', 'BH') else 'BH' if m >= 2.5 else 'NS',
                        tag + ": state")
                    R.close(s.mass, m, tag + ": mass")
                    R.close(s.spin, 0.33, tag + ": spin")
                    R.close(s.m_disk_radiated, 0.2, tag + ": disk")
                    R.eq(s.SN_type, own, tag + ": type")
                else:
                    ref = StepSN(kick=False, use_interp_values=False)
                    s2 = star(he + 1.0, he, co, st)
                    b2 = binary(s2, which)
                    ref(b2)
                    s2 = pick(b2, which)
                    R.eq(s.state, s2.state, tag + ": state")
                    R.close(s.mass, s2.mass, tag + ": mass")
                    R.eq(s.SN_type, s2.SN_type, tag + ": type")
                R.outcome(use, s.state, round(s.mass, 6))


def run_spin(case, R):
    logJ = [40.0, 49.0, 50.0, 50.7, 51.5, 54.0][case['k']]
    G, c, Mo = 6.67428e-8, 2.99792458e10, 1.9892e33
    for co, he in ((8.0, 10.0), (15.0, 18.0), (5.0, 30.0)):
        for which in (1, 2):
            cc = {'mech': 'direct', 'ecsn': None, 'pisn': None, 'keep': False}
            s = star(he + 3, he, co, 'H-rich_Core_C_depleted', logJ=logJ)
            b = binary(s, which)
            make(cc)(b)
            s = pick(b, which)
            R.step()
            want = min(1.0, 10 ** logJ * c / (G * (s.mass * Mo) ** 2))
            R.close(s.spin, want, "spin of a black hole of %g Msun from log J "
                    "%g" % (s.mass, logJ), 3e-3)
            R.outcome(round(s.spin, 6))


def run_match(case, R):
    """Every predefined model is found from its own parameters."""
    from posydon.grids import SN_MODELS as M
    seen = {}
    for name, d in M.SN_MODELS.items():
        full = dict(M.DEFAULT_SN_MODEL)
        full.update(d)
        key = tuple((k, v) for k, v in sorted(full.items(), key=str)
                    if 'use_' not in k and k != 'ECSN')
        seen.setdefault(key, []).append(name)
    for key, names in seen.items():
        full = dict(M.DEFAULT_SN_MODEL)
        full.update(M.SN_MODELS[names[0]])
        if case['f']:
            got = M.get_SN_MODEL_NAME(full)
            R.check(got in names, "model %s is found as %s" % (names, got))
            R.step()
            continue
        for k, v in full.items():
            if 'use_' in k or k == 'ECSN':
                continue
            other = dict(full)
            other[k] = (not v) if isinstance(v, bool) else (
                v + 0.125 if isinstance(v, float) else 'other')
            got = M.get_SN_MODEL_NAME(other)
            R.step()
            want = tuple((a, b) for a, b in sorted(other.items(), key=str)
                         if 'use_' not in a and a != 'ECSN')
            R.check((got in seen[want]) if want in seen else got is None,
                    "model %s with another %s is taken for %s" % (
                        names, k, got))
            R.outcome(names[0], k, got)


def execute(case, R):
    globals()['run_' + case['kind']](case, R)
