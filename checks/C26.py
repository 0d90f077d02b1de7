"""C26: the MESA-grid steps."""
import copy
import itertools
import math
import os
import types

LEVEL = "model_checking"
RULE = ("every step class, grid run, offset, star order, recording option, "
        "start time and time limit through the real step on a PSyGrid file; "
        "every combination of states, events, masses, period and "
        "eccentricity for the dispatch; distinct by class, run, option and "
        "outcome")
ASSUMPTIONS = ["the histories of a run have equal length, as PSyGrid writes "
               "them",
               "MESA tracks are closed-form tables in a real PSyGrid HDF5 "
               "file",
               "for initial-final interpolation the trained interpolator is "
               "replaced by a table of final values",
               "wind accretion is checked by C23: donors of compact objects "
               "have negligible winds here"]

G, MS, RS, CL, YR = 6.67428e-8, 1.9892e33, 6.9598e10, 2.99792458e10, 3.1558149984e7
CLASSES = ['MS_MS_step', 'HMS_HMS_RLO_step', 'CO_HMS_RLO_step',
           'CO_HeMS_RLO_step', 'CO_HeMS_step']
M1S, QS, PS = (8.0, 16.0, 30.0), (0.3, 0.6, 0.9), (3.0, 30.0, 300.0)
COS = (0.8, 1.45, 10.0)
CO_RUNS = ['single', 'stableB', 'CE1', 'CE1rate', 'dwarf', 'inert', 'initial',
           'initial1', 'failed']
OFFSETS = [(1.0, 1.0, 1.0), (1.02, 0.97, 1.05), (0.98, 1.03, 0.93)]
CUTS = [None, 'row', 'end', 0.004, 0.3, 0.62, 0.97]
TYPES = {'HMS_HMS': 0}


def bounds(tier):
    return {"classes": len(CLASSES), "runs": 27, "offsets": len(OFFSETS),
            "orders": 2, "recording": 4, "limits": len(CUTS),
            "start_times": 2}


def cases(tier):
    full = tier != 'quick'
    for c in CLASSES:
        for i in range(27):
            yield {'kind': 'nn', 'c': c, 'i': i, 'full': full}
            yield {'kind': 'if', 'c': c, 'i': i, 'full': full}
        for a in range(8):
            yield {'kind': 'dispatch', 'c': c, 'a': a}
    for j in range(4):
        yield {'kind': 'flip', 'j': j}


def co_class(c):
    return c.startswith('CO')


def runs_of(c):
    from mc import mesagrid as mg
    if c in ('CO_HeMS_step', 'CO_HeMS_RLO_step'):
        src, names = mg.HE_RUNS, list(mg.HE_RUNS)
    elif c == 'CO_HMS_RLO_step':
        src, names = mg.RUNS, CO_RUNS
    else:
        src, names = mg.RUNS, list(mg.RUNS)
    out = []
    pts = list(itertools.product(M1S, COS if co_class(c) else QS, PS))
    for n, (m1, x, p) in enumerate(pts):
        s = names[(5 * n) % len(names)] if len(names) % 5 else names[n % len(names)]
        rows, cls = src[s]
        out.append({'name': '%s-%d-%s' % (c, n, s), 'm1': m1,
                    'm2': x if co_class(c) else m1 * x, 'p': p,
                    'T': 1e7 * (1 + 0.1 * n), 'rows': rows, 'cls': cls,
                    'co': co_class(c), 'x': x})
    # a failed run without initial values never matches
    out.append(dict(out[0], name=c + '-nan', nan=True, cls='no_MT'))
    return out


_S = {}


def setup(root):
    from mc import mesagrid as mg
    for c in CLASSES:
        d = os.path.join(root, c)
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(os.path.join(d, '1e+00_Zsun.h5')):
            mg.write(os.path.join(d, '1e+00_Zsun.h5'), runs_of(c))


def step_of(R, c, **kw):
    """A real step object on the grid file of the class."""
    import posydon.binary_evol.MESA.step_mesa as sm
    key = (c, tuple(sorted(kw.items())))
    if key not in _S:
        d = os.path.join(R.scratch_root, c)
        cls = getattr(sm, c)
        old = sm.MesaGridStep.load_Interp
        sm.MesaGridStep.load_Interp = lambda self, filename: setattr(
            self, '_Interp', Table())
        try:
            _S[key] = cls(metallicity=1.0, grid_path=d, **kw)
        finally:
            sm.MesaGridStep.load_Interp = old
    return _S[key]


class Table:
    """Stands for a trained initial-final interpolator."""

    def evaluate(self, binary):
        self.seen = (binary.star_1.mass, binary.star_2.mass,
                     binary.orbital_period)
        return self.values, self.classes


# --- specification -----------------------------------------------------------
def star_state(v):
    """Documented classification of a star from its table row."""
    if v['surface_h1'] > 0.01:
        rich = 'H-rich'
    elif round(v['surface_h1'], 10) < round(v['center_h1'], 10):
        rich = 'accreted_He'
    else:
        rich = 'stripped_He'
    def burns(x):
        return v[x] > -10 and v[x] - v['log_Lnuc'] > math.log10(0.03)
    if v['center_h1'] > 0.01:
        b = 'Core_H_burning' if burns('log_LH') else 'non_burning'
    elif v['center_he4'] > 0.01:
        b = ('Core_He_burning' if burns('log_LHe') else
             'Shell_H_burning' if burns('log_LH') else 'non_burning')
    else:
        b = 'Core_He_depleted' if v['center_c12'] > 0.01 else 'Core_C_depleted'
    return rich + '_' + b


def mt_case(o, rate, state, leads):
    if o <= 0 and (rate <= -10 or not leads):
        return None
    if 'non_burning' in state:
        return 'nonburning'
    if 'H-rich' in state:
        return 'A' if 'Core_H_b' in state else \
            'B' if ('Core_He_b' in state or 'Shell_H' in state) else 'C'
    if 'stripped' in state:
        return 'BA' if 'Core_He_b' in state else 'BB'
    return '?'


def outcome(b, s1, s2, g1, g2, cls):
    """(state, event, mass transfer case) of a row."""
    o1, o2 = b['rl_relative_overflow_1'], b['rl_relative_overflow_2']
    rate = b['lg_mtransfer_rate']
    c1 = mt_case(o1, rate, s1, o1 >= o2)
    c2 = mt_case(o2, rate, s2, o2 > o1)
    unstable = cls == 'unstable_MT'
    if '?' in (c1, c2):
        st, ev, mt = 'undefined', None, 'None'
    elif c1 and c2:
        st, ev, mt = 'contact', None, 'None'
        if unstable:
            k = 1 if o1 >= o2 else 2
            comp = s2 if k == 1 else s1
            dbl = comp not in ('H-rich_Core_H_burning', 'WD', 'NS', 'BH',
                               'stripped_He_Core_He_burning')
            return st, ('oDoubleCE%d' if dbl else 'oCE%d') % k, mt
    elif c1 or c2:
        k, c = (1, c1) if c1 else (2, c2)
        st, ev, mt = 'RLO%d' % k, None, 'case_%s%d' % (c, k)
        if unstable:
            return st, 'oCE%d' % k, mt
    else:
        st, ev, mt = 'detached', None, 'None'
    def over(s, g):
        return 'Core_C_dep' in s or 'Core_He_dep' in s or (
            g is not None and g >= 10)
    if over(s1, g1):
        ev = 'CC1'
    elif over(s2, g2):
        ev = 'CC2'
    return st, ev, mt


def co_kind(m, old):
    return 'WD' if old == 'WD' else 'WD' if m < 1.1 else 'NS' if m <= 2.5 else 'BH'


def co_radius(k, m):
    if k == 'BH':
        return 2 * G * m * MS / CL**2 / RS
    return 12.5e5 / RS if k == 'NS' else 2.9e8 * m ** (-1 / 3.) / RS


def eddington(k, m, x):
    """Msun/yr."""
    eta = (1 - math.sqrt(1 - 1 / 9.)) if k == 'BH' else (
        G * m * MS / (co_radius(k, m) * RS * CL**2))
    return 4 * math.pi * G * m * MS / (0.2 * (1 + x) * eta * CL) / (MS / YR)


def spun(a, m0, m):
    """Thorne (1974) spin-up by accretion."""
    z1 = 1 + (1 - a*a)**(1/3.) * ((1 + a)**(1/3.) + (1 - a)**(1/3.))
    z2 = math.sqrt(3*a*a + z1*z1)
    r = 3 + z2 - math.sqrt((3 - z1)*(3 + z1 + 2*z2))
    if m / m0 > math.sqrt(r):
        return 1.0
    return math.sqrt(r) / 3 * m0 / m * (4 - math.sqrt(3 * r * m0**2 / m**2 - 2))


SAME = ('log_R log_L he_core_mass he_core_radius c_core_mass c_core_radius '
        'o_core_mass o_core_radius co_core_mass co_core_radius center_h1 '
        'center_he4 center_c12 center_n14 center_o16 surface_h1 surface_he4 '
        'surface_c12 surface_n14 surface_o16 log_LH log_LHe log_LZ log_Lnuc '
        'c12_c12 center_gamma surf_avg_omega surf_avg_omega_div_omega_crit '
        'total_moment_of_inertia log_total_angular_momentum '
        'conv_env_top_mass conv_env_bot_mass conv_env_top_radius '
        'conv_env_bot_radius conv_env_turnover_time_g '
        'conv_env_turnover_time_l_b conv_env_turnover_time_l_t '
        'envelope_binding_energy mass_conv_reg_fortides '
        'thickness_conv_reg_fortides radius_conv_reg_fortides '
        'lambda_CE_1cent lambda_CE_10cent lambda_CE_30cent '
        'lambda_CE_pure_He_star_10cent total_mass_h1 '
        'total_mass_he4').split()
BSAME = ('rl_relative_overflow_1 rl_relative_overflow_2 lg_mtransfer_rate '
         'trap_radius acc_radius t_sync_rad_1 t_sync_conv_1 t_sync_rad_2 '
         't_sync_conv_2').split()


def expected_rows(run, t0, old2=None, spin2=None, first_mass=None):
    """Numbers of all track rows, in the order of the grid."""
    from mc import mesagrid as mg
    bh, h1, h2 = mg.tables(run)
    rows = []
    for j in range(len(bh['age'])):
        b = {q: bh[q][j] for q in BSAME}
        b.update(time=t0 + bh['age'][j], separation=bh['binary_separation'][j],
                 orbital_period=bh['period_days'][j])
        ss = []
        for k, h in ((1, h1), (2, h2)):
            s = {'mass': bh['star_%d_mass' % k][j],
                 'lg_wind_mdot': bh['lg_wind_mdot_%d' % k][j],
                 'lg_system_mdot': bh['lg_system_mdot_%d' % k][j]}
            if k == 2 and run['co']:
                kind = co_kind(s['mass'], old2)
                s['log_R'] = math.log10(co_radius(kind, s['mass']))
                s['spin'] = spun(spin2, first_mass or bh['star_2_mass'][0],
                                 s['mass'])
                if kind != 'WD':
                    s['lg_mdot'] = min(bh['lg_mstar_dot_2'][j], math.log10(
                        eddington(kind, s['mass'], h1['surface_h1'][j])))
            else:
                s.update({q: h[q][j] for q in SAME})
                s['spin'] = h['spin_parameter'][j]
                s['lg_mdot'] = bh['lg_mstar_dot_%d' % k][j]
            ss.append(s)
        rows.append((b, ss))
    return rows


def label(run, row, cls, old2):
    """Adds the discrete quantities to a row."""
    b, (s1, s2) = row
    st1 = star_state(s1)
    st2 = co_kind(s2['mass'], old2) if run['co'] else star_state(s2)
    g1 = s1['center_gamma']
    g2 = None if run['co'] else s2['center_gamma']
    return st1, st2, outcome(b, st1, st2, g1, g2, cls)


def mix(r0, r1, f):
    def m(a, b):
        return {q: a[q] + f * (b[q] - a[q]) for q in a}
    return m(r0[0], r1[0]), [m(x, y) for x, y in zip(r0[1], r1[1])]


def nearest(c, m1, m2, p):
    q = c in ('MS_MS_step', 'HMS_HMS_RLO_step')
    best = []
    for i, r in enumerate(runs_of(c)):
        if r['cls'] == 'not_converged' or r.get('nan'):
            continue
        y = (r['m2'] / r['m1'] - m2 / m1) if q else math.log10(r['m2'] / m2)
        d = math.sqrt(math.log10(r['m1'] / m1)**2 + y * y
                      + math.log10(r['p'] / p)**2)
        best.append((d, i))
    best.sort()
    if best[1][0] - best[0][0] < 1e-9:
        return None
    return best[0][1]


def fill(star, n):
    """Distinct values for the properties a compact object keeps."""
    from posydon.binary_evol.singlestar import STARPROPERTIES
    for j, q in enumerate(STARPROPERTIES):
        if q not in ('state', 'mass', 'metallicity', 'spin', 'profile'):
            v = 0.01 * (j + 1) + n
            setattr(star, q, v)
            setattr(star, q + '_history', [v])


def make(c, m1, m2, p, t0, flip, tmax):
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.singlestar import SingleStar
    if c == 'MS_MS_step':
        ev, st, s1 = 'ZAMS', 'detached', 'H-rich_Core_H_burning'
    elif c == 'HMS_HMS_RLO_step':
        ev, st, s1 = 'oRLO1', 'RLO1', 'H-rich_Core_H_burning'
    elif c == 'CO_HMS_RLO_step':
        ev, st, s1 = 'oRLO1', 'RLO1', 'H-rich_Core_H_burning'
    elif c == 'CO_HeMS_RLO_step':
        ev, st, s1 = 'oRLO1', 'RLO1', 'stripped_He_Core_He_burning'
    else:
        ev, st, s1 = None, 'detached', 'stripped_He_Core_He_burning'
    a = SingleStar(mass=m1, state=s1, metallicity=1.0)
    if co_class(c):
        k = co_kind(m2, None)
        b = SingleStar(mass=m2, state=k, metallicity=1.0, spin=0.25)
    else:
        b = SingleStar(mass=m2, state=s1, metallicity=1.0)
    st_, ev_ = st, ev
    if flip:
        st_ = {'RLO1': 'RLO2'}.get(st, st)
        ev_ = {'oRLO1': 'oRLO2'}.get(ev, ev)
    bi = BinaryStar(star_1=b if flip else a, star_2=a if flip else b,
                    time=t0, orbital_period=p, eccentricity=0.0,
                    separation=(p / 365.25) ** (2 / 3.) * (m1 + m2) ** (1/3.)
                    * 214.95, state=st_, event=ev_, V_sys=[1.0, 2.0, -3.0])
    bi.properties = types.SimpleNamespace(max_simulation_time=tmax)
    if co_class(c):
        fill(bi.star_1 if flip else bi.star_2, 3.0)
    return bi


def swap(s):
    if isinstance(s, str) and s and s != 'maxtime' and s[-1] in '12':
        return s[:-1] + ('2' if s[-1] == '1' else '1')
    return s


def eq_num(R, got, want, what, rtol=1e-9):
    try:
        ok = (got is not None and abs(float(got) - want)
              <= rtol * max(abs(want), 1e-12))
    except (TypeError, ValueError):
        ok = False
    R.check(ok, what + ": %r, expected %r" % (got, want))


PAIRS = ['rl_relative_overflow_', 't_sync_rad_', 't_sync_conv_']


def judge_row(R, what, run, bget, sget, row, st1, st2, trip, flip, old2,
              oldco=None, rtol=1e-9):
    """Numbers and labels of one row: bget(name), sget(k, name)."""
    b, ss = row
    for q, v in b.items():
        g = q
        if flip:
            for x in PAIRS:
                if q.startswith(x):
                    g = swap(q)
        eq_num(R, bget(g), v, what + ": " + q, rtol)
    for k in (1, 2):
        kk = (3 - k) if flip else k
        for q, v in ss[k - 1].items():
            eq_num(R, sget(kk, q), v, what + ": %s of star %d" % (q, kk), rtol)
        R.eq(sget(kk, 'metallicity'), 1.0, what + ": metallicity")
        R.eq(sget(kk, 'state'), (st1, st2)[k - 1],
             what + ": state of star %d" % kk)
        if k == 2 and run['co'] and oldco is not None:
            for q, v in oldco.items():
                if q not in ss[1] and q != 'lg_mdot':
                    R.eq(sget(kk, q), v, what + ": %s of the compact object" % q)
    if trip is not None:
        st, ev, mt = trip
        if flip:
            st, ev, mt = swap(st), swap(ev), swap(mt)
        R.eq((bget('state'), bget('event'), bget('mass_transfer_case')),
             (st, ev, mt), what + ": outcome")
    R.eq(bget('eccentricity'), 0.0, what + ": eccentricity")
    R.eq(list(bget('V_sys')), [1.0, 2.0, -3.0], what + ": velocity")


def co_keep(bi, flip):
    from posydon.binary_evol.singlestar import STARPROPERTIES
    s = bi.star_1 if flip else bi.star_2
    return {q: getattr(s, q) for q in STARPROPERTIES
            if q not in ('state', 'mass', 'metallicity', 'spin', 'profile',
                         'log_R', 'lg_mdot', 'lg_wind_mdot', 'lg_system_mdot',
                         'avg_c_in_c_core')}


def execute(case, R):
    import numpy as np
    np.random.seed(0)
    return {'nn': do_nn, 'if': do_if, 'dispatch': do_dispatch,
            'flip': do_flip}[case['kind']](case, R)


def limits(run, t0, cuts):
    if run['rows'] is None or len(run['rows']) < 2:
        return [1.38e10]
    out = []
    n = len(run['rows'])
    for c in cuts:
        if c is None:
            out.append(1.38e10)
        elif c == 'row':
            out.append(t0 + run['T'] * (1 / (n - 1.)) ** 0.7)
        elif c == 'end':
            out.append(t0 + run['T'])
        else:
            out.append(t0 + c * run['T'])
    return out


def rectangular(R, bi, what):
    from posydon.binary_evol.binarystar import BINARYPROPERTIES
    from posydon.binary_evol.singlestar import STARPROPERTIES
    n = len(bi.time_history)
    for q in BINARYPROPERTIES:
        R.check(len(getattr(bi, q + '_history')) == n,
                what + ": %d rows of %s, %d times"
                % (len(getattr(bi, q + '_history')), q, n))
    for k, s in ((1, bi.star_1), (2, bi.star_2)):
        for q in STARPROPERTIES:
            R.check(len(getattr(s, q + '_history')) == n,
                    what + ": %d rows of star %d's %s, %d times"
                    % (len(getattr(s, q + '_history')), k, q, n))
    return n


def untouched(bi, flip):
    s1, s2 = bi.star_1, bi.star_2
    return (bi.time, bi.orbital_period, bi.separation, bi.eccentricity,
            list(bi.V_sys), s1.mass, s2.mass, s1.state, s2.state,
            len(bi.time_history))


def do_nn(case, R):
    c = case['c']
    base = runs_of(c)[case['i']]
    gt = {'MS_MS_step': 'HMS_HMS', 'HMS_HMS_RLO_step': 'HMS_HMS_RLO'}.get(
        c, c[:-5])
    offs = OFFSETS if case['full'] else OFFSETS[:2] if case['i'] % 2 else OFFSETS[::2]
    for n, off in enumerate(offs):
        lo, hi = (min(M1S), max(M1S)), (min(PS), max(PS))
        m1 = min(max(base['m1'] * off[0], lo[0]), lo[1])
        p = min(max(base['p'] * off[2], hi[0]), hi[1])
        if co_class(c):
            m2 = min(max(base['m2'] * off[1], min(COS)), max(COS))
        else:
            m2 = m1 * min(max(base['x'] * off[1], min(QS)), max(QS))
        i = nearest(c, m1, m2, p)
        if i is None:
            continue
        run = runs_of(c)[i]
        for flip in ((0,) if c == 'HMS_HMS_RLO_step' else (0, 1)):
            for t0, track, save in itertools.product(
                    (0.0, 4e6), (0, 1), (1, 0)):
                if not case['full'] and (
                        (c != 'HMS_HMS_RLO_step' and (t0 > 0) != bool(flip))
                        or (n and track != save)):
                    continue
                for stop in ('stop_at_max_time', 'stop_at_end'):
                    for tmax in limits(run, t0, CUTS if stop[-1] == 'e'
                                       else [None, 0.3]):
                        one_nn(R, c, gt, run, i, m1, m2, p, flip, t0, track,
                               save, stop, tmax)


def one_nn(R, c, gt, run, i, m1, m2, p, flip, t0, track, save, stop, tmax):
    step = step_of(R, c, interpolation_method='nearest_neighbour',
                   track_interpolation=bool(track),
                   save_initial_conditions=bool(save), stop_method=stop)
    bi = make(c, m1, m2, p, t0, flip, tmax)
    what = "%s %s m=%.4g+%.4g p=%.4g t=%g %s track=%d save=%d %s limit %.6g" % (
        c, run['name'], m1, m2, p, t0, 'flipped' if flip else 'ordered',
        track, save, stop, tmax)
    old2 = (bi.star_1 if flip else bi.star_2).state
    keep = co_keep(bi, flip) if run['co'] else None
    before = untouched(bi, flip)
    ev0 = bi.event
    R.step()
    step(bi)
    if run['cls'] == 'initial_MT':
        R.eq(bi.state, 'initial_RLOF', what + ": initial mass transfer")
        R.eq(untouched(bi, flip), before, what + ": properties kept")
        R.check(bi.event in (None, ev0), what + ": event %r" % bi.event)
        R.outcome(c, 'initial')
        R.state(c, i, flip, t0 > 0, track, save, stop)
        return
    rows = expected_rows(run, t0, old2, 0.25)
    cut = stop == 'stop_at_max_time' and rows[-1][0]['time'] > tmax
    labels = [label(run, r, None, old2) for r in rows]
    if cut:
        j = max(n for n, r in enumerate(rows) if r[0]['time'] <= tmax)
        f = (tmax - rows[j][0]['time']) / (rows[j + 1][0]['time']
                                           - rows[j][0]['time'])
        final = mix(rows[j], rows[j + 1], f)
        final[0]['time'] = tmax
        st1, st2, trip = label(run, final, None, old2)
        trip = (trip[0], 'maxtime', trip[2])
        kept = rows[:j + 1]
    else:
        final = rows[-1]
        st1, st2, trip = label(run, final, run['cls'], old2)
        kept = rows[:-1]
        if final[0]['time'] > tmax:
            trip = (trip[0], 'MaxTime_exceeded', trip[2])
        elif final[0]['time'] == tmax:
            trip = (trip[0], 'maxtime', trip[2])
    judge_row(R, what, run, lambda q: getattr(bi, q),
              lambda k, q: getattr(getattr(bi, 'star_%d' % k), q),
              final, st1, st2, trip, flip, old2, keep, rtol=1e-8)
    # recorded rows
    n = rectangular(R, bi, what)
    exp = ([0] if save else []) + (list(range(len(kept))) if track else [])
    R.eq(n - 1, len(exp), what + ": recorded rows")
    for a, j in enumerate(exp):
        s1, s2, trip = label(run, rows[j], None, old2)
        if a == 0 and save:
            trip = (trip[0], None, trip[2])
        judge_row(R, what + " row %d" % a, run,
                  lambda q: getattr(bi, q + '_history')[1 + a],
                  lambda k, q: getattr(getattr(bi, 'star_%d' % k),
                                       q + '_history')[1 + a],
                  rows[j], s1, s2, trip, flip, old2, keep)
    nn = bi.nearest_neighbour_distance
    for x, v in zip(nn, (m1 - run['m1'], m2 - run['m2'], p - run['p'])):
        R.check(abs(x - v) < 1e-9, what + ": distance to the run %s" % list(nn))
    R.eq((getattr(bi, 'interp_class_' + gt), getattr(bi, 'mt_history_' + gt),
          getattr(bi, 'cumulative_mt_case_' + gt)),
         (run['cls'], 'hist-%d' % i, 'mt-%d' % i), what + ": flags of the run")
    judge_post(R, what, run, bi, flip, cut)
    R.state(c, i, flip, t0 > 0, track, save, stop, tmax < 1e10)
    R.outcome(c, run['cls'], cut, trip[1])


def judge_post(R, what, run, bi, flip, cut):
    import numpy as np
    from mc import mesagrid as mg
    from posydon.grids.SN_MODELS import SN_MODELS
    for k in (1, 2):
        if k == 2 and run['co']:
            continue
        s = getattr(bi, 'star_%d' % (3 - k if flip else k))
        for q in mg.POST:
            eq_num(R, getattr(s, q), mg.post(run, k, q), what + ": " + q)
        if not cut:
            R.check(s.profile is not None and np.array_equal(
                s.profile['logRho'], mg.profile(run, k - 1)['logRho']),
                what + ": final profile of star %d" % k)
        if run['cls'] == 'unstable_MT':
            continue
        for n, m in enumerate(SN_MODELS):
            got = getattr(s, m)
            t = mg.sn_value(run, k, 'CO_type', n)
            if t == 'None':
                R.check(got is None, what + ": no remnant in %s" % m)
                continue
            want = {('state' if q == 'CO_type' else q):
                    mg.sn_value(run, k, q, n) for q in mg.SNKEYS}
            R.check(got is not None and set(got) == set(want) and all(
                got[q] == want[q] for q in want),
                what + ": remnant of star %d in %s: %s" % (k, m, got))
        if k == 1 and run['co']:
            o = getattr(bi, 'star_%d' % (1 if flip else 2))
            R.check(all(getattr(o, m) is None for m in SN_MODELS),
                    what + ": remnant of a compact object")


# --- initial-final interpolation ---------------------------------------------
def table(run, T):
    """Final values and classes a trained interpolator would return."""
    from mc import mesagrid as mg
    from posydon.grids.SN_MODELS import SN_MODELS
    cls = {'interpolation_class': run['cls'], 'mt_history': 'mt-x'}
    for k in (1, 2):
        for n, m in enumerate(SN_MODELS):
            for q in ('CO_type', 'SN_type'):
                cls['S%d_%s_%s' % (k, m, q)] = mg.sn_value(run, k, q, n)
    if run['rows'] is None or run['cls'] == 'initial_MT':
        bh, h1, h2 = mg.tables(dict(run, rows=[(mg.A, mg.A)] * 2))
        nan = float('nan')
        fv = {q: nan for q in bh}
        fv.update({'S1_' + q: nan for q in h1})
        fv.update({'S2_' + q: nan for q in h2})
        return fv, cls
    bh, h1, h2 = mg.tables(run)
    fv = {q: bh[q][-1] for q in bh}
    fv.update({'S1_' + q: h1[q][-1] for q in h1})
    if not run['co']:
        fv.update({'S2_' + q: h2[q][-1] for q in h2})
    fv['age'] = T
    for k in (1, 2):
        for q in mg.POST:
            fv['S%d_%s' % (k, q)] = mg.post(run, k, q)
        for n, m in enumerate(SN_MODELS):
            for q in mg.SNKEYS[2:]:
                fv['S%d_%s_%s' % (k, m, q)] = mg.sn_value(run, k, q, n)
    return fv, cls


def do_if(case, R):
    """Every predicted run combined with every regime of the limit; beyond it
    the nearest run decides."""
    from mc import mesagrid as mg
    c = case['c']
    rs = runs_of(c)
    run = rs[case['i']]
    if run['cls'] == 'not_converged':
        return
    gt = {'MS_MS_step': 'HMS_HMS', 'HMS_HMS_RLO_step': 'HMS_HMS_RLO'}.get(
        c, c[:-5])
    for flip, t0, meth, stop in itertools.product(
            ((0,) if c == 'HMS_HMS_RLO_step' else (0, 1)), (0.0, 4e6),
            ('linear_kNN', 'linear3c_kNN', '1NN_1NN'),
            ('stop_at_max_time', 'stop_at_end')):
        if meth != 'linear3c_kNN' and (flip or t0 or stop != 'stop_at_max_time'):
            continue
        step = step_of(R, c, interpolation_method=meth, stop_method=stop)
        for where in sorted({case['i'], 0, 1, 2, 3, 13} if case['full']
                            else {case['i'], 1, 13}):
            near = rs[where]
            m1, m2, p = near['m1'] * 0.999, near['m2'] * 0.999, near['p'] * 1.001
            m1 = min(max(m1, min(M1S)), max(M1S))
            p = min(max(p, min(PS)), max(PS))
            if co_class(c):
                m2 = min(max(m2, min(COS)), max(COS))
            else:
                m2 = m1 * near['x']
            ni = nearest(c, m1, m2, p)
            if ni is None:
                continue
            nrun = rs[ni]
            for T, tmax in ((3.3e6, 1.38e10), (3.3e6, t0 + 3.3e6),
                            (9e8, t0 + 0.4 * nrun['T']),
                            (9e8, t0 + 1.7 * nrun['T'])):
                fv, cls = table(run, T)
                if co_class(c) and run['cls'] != 'initial_MT':
                    # accreted on the mass of the binary
                    fv['star_2_mass'] = m2 * 1.01
                bi = make(c, m1, m2, p, t0, flip, tmax)
                step._Interp.values, step._Interp.classes = fv, cls
                old2 = (bi.star_1 if flip else bi.star_2).state
                keep = co_keep(bi, flip) if run['co'] else None
                before = untouched(bi, flip)
                what = "%s %s->%s m=%.4g+%.4g near %s %s %s t=%g T=%g limit %.6g %s" % (
                    c, meth, run['name'], m1, m2, nrun['name'], stop,
                    'flipped' if flip else 'ordered', t0, T, tmax, old2)
                R.step()
                step(bi)
                R.check(all(abs(x - y) < 1e-12 for x, y in zip(
                    step._Interp.seen, (m1, m2, p))),
                    what + ": interpolated at %s" % (step._Interp.seen,))
                R.state(c, case['i'], where, flip, t0 > 0, meth, stop, T > 1e8)
                if run['cls'] == 'initial_MT':
                    R.eq(bi.state, 'initial_RLOF', what + ": initial RLO")
                    R.eq(untouched(bi, flip), before, what + ": kept")
                    continue
                past = t0 + T > tmax and stop == 'stop_at_max_time'
                if past and nrun['cls'] == 'initial_MT':
                    R.eq(bi.state, 'initial_RLOF', what + ": initial RLO of the nearest run")
                    R.eq(untouched(bi, flip), before, what + ": kept")
                    continue
                if past:
                    rows = expected_rows(nrun, t0, old2, 0.25)
                    if rows[-1][0]['time'] > tmax:
                        j = max(n for n, r in enumerate(rows)
                                if r[0]['time'] <= tmax)
                        f = ((tmax - rows[j][0]['time'])
                             / (rows[j + 1][0]['time'] - rows[j][0]['time']))
                        final = mix(rows[j], rows[j + 1], f)
                        final[0]['time'] = tmax
                        s1, s2, tr = label(nrun, final, None, old2)
                        tr = (tr[0], 'maxtime', tr[2])
                    else:
                        final = rows[-1]
                        s1, s2, tr = label(nrun, final, nrun['cls'], old2)
                    use, nrow = nrun, 1
                else:
                    final = expected_rows(run, t0, old2, 0.25)[-1]
                    if run['co']:
                        s = final[1][1]
                        m = s['mass'] = fv['star_2_mass']
                        k = co_kind(m, old2)
                        s['log_R'] = math.log10(co_radius(k, m))
                        s['spin'] = spun(0.25, m2, m)
                        s.pop('lg_mdot', None)
                        if k != 'WD':
                            s['lg_mdot'] = min(fv['lg_mstar_dot_2'], math.log10(
                                eddington(k, m, fv['S1_surface_h1'])))
                    final[0]['time'] = t0 + T
                    s1, s2, tr = label(run, final, run['cls'], old2)
                    if t0 + T > tmax:
                        tr = (tr[0], 'MaxTime_exceeded', tr[2])
                    elif t0 + T == tmax:
                        tr = (tr[0], 'maxtime', tr[2])
                    use, nrow = run, 0
                judge_row(R, what, use, lambda q: getattr(bi, q),
                          lambda k, q: getattr(getattr(bi, 'star_%d' % k), q),
                          final, s1, s2, tr, flip, old2, keep, rtol=1e-8)
                R.eq(rectangular(R, bi, what) - 1, nrow, what + ": rows")
                if not past:
                    R.eq((getattr(bi, 'interp_class_' + gt),
                          getattr(bi, 'mt_history_' + gt)),
                         (run['cls'], 'mt-x'), what + ": flags")
                    judge_if_post(R, what, run, bi, flip)
                R.outcome(c, run['cls'], past, tr[1])


def judge_if_post(R, what, run, bi, flip):
    from mc import mesagrid as mg
    from posydon.grids.SN_MODELS import SN_MODELS
    for k in (1, 2):
        s = getattr(bi, 'star_%d' % (3 - k if flip else k))
        if k == 2 and run['co']:
            continue
        R.check(s.profile is None, what + ": a profile without a track")
        for q in mg.POST:
            if run['cls'] == 'unstable_MT' and 'at_He' in q:
                R.check(getattr(s, q) is None, what + ": " + q)
            else:
                eq_num(R, getattr(s, q), mg.post(run, k, q), what + ": " + q)
        if run['cls'] == 'unstable_MT':
            continue
        for n, m in enumerate(SN_MODELS):
            got = getattr(s, m)
            if mg.sn_value(run, k, 'CO_type', n) == 'None':
                R.check(got is None, what + ": no remnant in " + m)
                continue
            want = {('state' if q == 'CO_type' else q):
                    mg.sn_value(run, k, q, n) for q in mg.SNKEYS}
            R.check(got == want, what + ": remnant in %s: %s" % (m, got))


# --- dispatch ----------------------------------------------------------------
HST = ['H-rich_Core_H_burning', 'H-rich_Shell_H_burning',
       'H-rich_Core_He_burning', 'H-rich_Core_He_depleted',
       'H-rich_Core_C_burning', 'accreted_He_Core_H_burning',
       'H-rich_Core_C_depleted', 'H-rich_non_burning',
       'accreted_He_non_burning']
HES = ['accreted_He_Core_He_burning', 'stripped_He_Core_He_burning',
       'stripped_He_Shell_He_burning', 'stripped_He_Core_He_depleted',
       'stripped_He_Core_C_depleted', 'stripped_He_non_burning',
       'H-rich_non_burning', 'accreted_He_non_burning']
ALLST = sorted(set(HST + HES)) + ['WD', 'NS', 'BH', 'massless_remnant']


def dispatch_spec(c, s1, s2, ev, m1, m2, p, e):
    """'evolve', ('event', x), 'redirect', GridError or FlowError."""
    mlo, mhi, plo, phi = min(M1S), max(M1S), min(PS), max(PS)
    CO = ('WD', 'NS', 'BH')
    if c == 'MS_MS_step':
        ms = 'H-rich_Core_H_burning'
        if s1 == ms and s2 == ms and ev == 'ZAMS':
            if not plo <= p <= phi:
                return ('event', 'redirect_from_ZAMS')
            for a, b in ((m1, m2), (m2, m1)):
                if mlo <= a <= mhi and max(0.05, 0.5 / a) <= b / a <= 1.0:
                    return 'evolve'
            return 'GridError'
        if s1 == 'H-rich_Core_C_depleted':
            return ('event', 'CC1')
        if s2 == 'H-rich_Core_C_depleted':
            return ('event', 'CC2')
        return 'FlowError'
    if c == 'HMS_HMS_RLO_step':
        if s1 not in HST or s2 not in HST or ev not in ('oRLO1', 'oRLO2'):
            return 'FlowError'
        k = int(ev[-1])
        if (s1, s2)[k - 1] == 'H-rich_Core_C_depleted':
            return ('event', 'CC%d' % k)
        lo2 = min(M1S) * min(QS)
        q = m2 / m1
        ok = (mlo <= m1 <= mhi
              and max(min(QS), lo2 / m1) <= q <= max(QS) + 1e-12)
        if plo <= p <= phi:
            if not ok:
                return 'GridError'
            return 'evolve' if e == 0 else 'redirect'
        return 'redirect'
    sts = HST if c == 'CO_HMS_RLO_step' else HES
    want = (None, None) if c == 'CO_HeMS_step' else ('oRLO1', 'oRLO2')
    if s2 in CO and s1 in sts and ev == want[0]:
        k, d, o = 1, m1, m2
    elif s1 in CO and s2 in sts and ev == want[1]:
        k, d, o = 2, m2, m1
    else:
        return 'FlowError'
    dep = ('H-rich' if c == 'CO_HMS_RLO_step' else 'stripped_He') + '_Core_C_depleted'
    if (s1, s2)[k - 1] == dep:
        return ('event', 'CC%d' % k)
    if plo <= p <= phi:
        if not (mlo <= d <= mhi and min(COS) <= o <= max(COS)):
            return 'GridError'
        return 'evolve' if e == 0 else 'redirect'
    return 'redirect'


def do_dispatch(case, R):
    import posydon.binary_evol.MESA.step_mesa as sm
    from posydon.utils.posydonerror import FlowError, GridError
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.singlestar import SingleStar
    c = case['c']
    step = step_of(R, c, interpolation_method='nearest_neighbour')
    called = []
    events = [None, 'ZAMS', 'oRLO1', 'oRLO2', 'CC1', 'oCE1', 'maxtime']
    masses = [0.4, 0.51, 0.8, 2.0, 5.0, 8.0, 10.0, 12.0, 27.0, 30.0, 31.0,
              200.0]
    periods = [0.5, 3.0, 40.0, 300.0, 5000.0]
    grid = []
    for s1, s2, ev in itertools.product(ALLST, ALLST, events):
        grid.append((s1, s2, ev, 10.0, 5.0, 40.0, 0.0))
    pairs = {'MS_MS_step': [('H-rich_Core_H_burning',) * 2],
             'HMS_HMS_RLO_step': [('H-rich_Core_H_burning',
                                   'H-rich_Core_He_burning')],
             'CO_HMS_RLO_step': [('H-rich_Core_H_burning', 'BH'),
                                 ('WD', 'H-rich_Shell_H_burning')]}.get(
        c, [('stripped_He_Core_He_burning', 'NS'),
            ('BH', 'stripped_He_non_burning')])
    for (s1, s2), m1, m2, p, e in itertools.product(
            pairs, masses, masses, periods, (0.0, 0.3)):
        ev = {'MS_MS_step': ['ZAMS'], 'CO_HeMS_step': [None],
              'HMS_HMS_RLO_step': ['oRLO1', 'oRLO2']}.get(
            c, ['oRLO1'] if s2 in ('BH', 'NS', 'WD') else ['oRLO2'])
        for x in ev:
            grid.append((s1, s2, x, m1, m2, p, e))
    orig = sm.MesaGridStep.__call__
    sm.MesaGridStep.__call__ = lambda self, binary: called.append(
        self.flip_stars_before_step)
    try:
        for s1, s2, ev, m1, m2, p, e in grid[case['a']::8]:
            want = dispatch_spec(c, s1, s2, ev, m1, m2, p, e)
            b = BinaryStar(star_1=SingleStar(mass=m1, state='H-rich_Core_H_burning'),
                           star_2=SingleStar(mass=m2, state='H-rich_Core_H_burning'),
                           time=0.0, orbital_period=p, eccentricity=e,
                           separation=100.0, state='RLO1', event=ev)
            b.star_1.state, b.star_2.state = s1, s2
            del called[:]
            what = "%s %s %s event %s m=%g+%g p=%g e=%g" % (
                c, s1, s2, ev, m1, m2, p, e)
            R.step()
            try:
                step(b)
                err = None
            except (FlowError, GridError) as x:
                err = type(x).__name__
            if want == 'evolve':
                R.check(err is None and len(called) == 1,
                        what + ": not evolved (%s, event %s)" % (err, b.event))
                if called:
                    fl = ((c == 'MS_MS_step' and m2 > m1)
                          or (co_class(c) and s1 in ('WD', 'NS', 'BH')))
                    R.eq(bool(called[0]), fl, what + ": order of the stars")
            elif want in ('GridError', 'FlowError'):
                R.check(err == want and not called,
                        what + ": %s, expected %s" % (err or b.event, want))
                if err:
                    R.eq((b.state, b.event), ('ERR', 'FAILED'),
                         what + ": failed binary")
            else:
                R.check(err is None and not called,
                        what + ": %s, expected %s" % (err or 'evolved', want))
                if want == 'redirect':
                    R.eq((b.state, b.event), ('detached',
                         'redirect_from_' + c[:-5]), what + ": redirect")
                else:
                    R.eq(b.event, want[1], what + ": event")
            R.outcome(c, str(want))
        R.state(c, case['a'])
    finally:
        sm.MesaGridStep.__call__ = orig


def do_flip(case, R):
    """Exchanging the stars exchanges everything numbered by star."""
    from posydon.utils.common_functions import flip_stars
    states = ['detached', 'RLO1', 'RLO2', 'contact', 'initial_RLOF', None]
    events = [None, 'ZAMS', 'oRLO1', 'oRLO2', 'oCE1', 'oCE2', 'oDoubleCE1',
              'oDoubleCE2', 'CC1', 'CC2', 'maxtime', 'redirect_from_ZAMS']
    cases_ = ['None', 'case_A1', 'case_A2', 'case_BB1', 'case_nonburning2',
              'case_B2', 'case_C1']
    for s, e, m, h in itertools.product(states, events, cases_,
                                        (0, 1, 2, 3)):
        if (states.index(s) + cases_.index(m)) % 4 != case['j']:
            continue
        b = make('MS_MS_step', 10., 5., 20., 0., 0, 1e10)
        for q in ('rl_relative_overflow_', 't_sync_rad_', 't_sync_conv_'):
            for k in (1, 2):
                setattr(b, q + str(k), 10. * k + len(q))
                setattr(b, q + str(k) + '_history', [k + 0.5])
        b.state, b.event, b.mass_transfer_case = s, e, m
        # h further rows of earlier steps
        for j in range(h):
            b.append_state()
            b.event, b.state = events[(events.index(e) + j + 1) % len(events)], s
        b.event = e
        o = copy.deepcopy(b)
        flip_stars(b)
        R.step()
        what = "flip of %s %s %s after %d rows" % (s, e, m, h)
        R.eq((b.star_1.mass, b.star_2.mass), (5., 10.), what + ": stars")
        R.eq((b.state, b.event, b.mass_transfer_case),
             (swap(s) if s in ('RLO1', 'RLO2') else s, swap(e), swap(m)), what)
        R.eq(b.event_history, [swap(x) for x in o.event_history],
             what + ": event history")
        R.eq(b.state_history, [swap(x) if x in ('RLO1', 'RLO2') else x
                               for x in o.state_history],
             what + ": state history")
        R.eq(b.mass_transfer_case_history,
             [swap(x) for x in o.mass_transfer_case_history],
             what + ": case history")
        for q in ('rl_relative_overflow_', 't_sync_rad_', 't_sync_conv_'):
            for k in ('1', '2'):
                for x in ('', '_history'):
                    R.eq(getattr(b, q + k + x), getattr(o, q + swap(k) + x),
                         what + ": " + q)
        flip_stars(b)
        R.eq((b.state, b.event, b.mass_transfer_case, b.star_1.mass),
             (o.state, o.event, o.mass_transfer_case, 10.), what + ": twice")
        R.state(s, e, m, h)
        R.outcome(s, swap(s))
