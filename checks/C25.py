"""C25: matching of stars to single-star tracks."""
import itertools
import math
import types

LEVEL = "model_checking"
RULE = ("every track and age, perturbation, companion and option through the "
        "real matcher on closed-form grids, and every pair of stellar states; "
        "distinct by star, companion and outcome")
ASSUMPTIONS = ["the HDF5 single-star grids are replaced by closed-form "
               "tables",
               "distance of a match: own scaling of the documented matching "
               "quantities to (0, 1) over the grid"]

YR, MS, RS, G = 3.1558149984e7, 1.9892e33, 6.9598e10, 6.67428e-8
TOL, HARD = 1e-2, 1e-1
# documented quantities: name, logarithmic
LISTS = {'HMS': [('mass', 1), ('center_h1', 0), ('log_R', 0),
                 ('he_core_mass', 0)],
         'postMS': [('mass', 1), ('center_he4', 0), ('log_R', 0),
                    ('he_core_mass', 0)],
         'He': [('he_core_mass', 0), ('center_he4', 0), ('log_R', 0)],
         'postHe': [('he_core_mass', 0), ('log_R', 0)]}
ALT = {'HMS': [('mass', 1), ('center_h1', 0), ('he_core_mass', 0)],
       'postMS': [('mass', 1), ('center_h1', 0), ('he_core_mass', 0)],
       'He': LISTS['He'], 'postHe': LISTS['postHe']}
HS = [1.4, 4.0, 7.3, 12.0, 19.0, 30.0]
HES = [1.0, 3.1, 6.0, 11.0]
# fractions of the lifetime: grid points and between them
AGES = [1 - (1 - i / 59.) ** 2 for i in (0, 4, 19, 40, 52)] + [0.55, 0.985]
SHIFTS = [{}, {'log_R': 0.05}, {'mass': 1.02, 'he_core_mass': 1.01},
          {'log_R': 2.5}, {'mass': 60.0}, {'log_R': 'nan'},
          {'center_h1': 0.9, 'center_he4': 0.93}]


def bounds(tier):
    return {"H_tracks": len(HS), "He_tracks": len(HES), "ages": len(AGES),
            "perturbations": len(SHIFTS), "companions": 4, "positions": 2,
            "state_pairs": 400}


def cases(tier):
    full = tier != 'quick'
    for k, ms in (('H', HS), ('He', HES)):
        for m in ms:
            for x in (AGES if not full else AGES + [0.12, 0.3, 0.7, 0.82, 0.9, 0.95]):
                yield {'kind': 'match', 'k': k, 'm': m, 'x': x, 'full': full}
    from posydon.binary_evol.flow_chart import STAR_STATES_ALL
    for s in STAR_STATES_ALL:
        yield {'kind': 'roles', 's': s}
    yield {'kind': 'roles', 's': 'undefined'}
    for k in ('H', 'He'):
        for j in range(32):
            yield {'kind': 'spin', 'k': k, 'j': j}
    for n in range(4):
        yield {'kind': 'grid', 'n': n}
    for x in (0.81, 0.86, 0.93):
        for w in (0, 1):
            for m in (8.0, 12.0, 16.0, 24.0, 39.0):
                yield {'kind': 'switch', 'm': m, 'x': x, 'w': w}


def execute(case, R):
    return {'match': do_match, 'roles': do_roles, 'spin': do_spin,
            'grid': do_grid, 'switch': do_switch}[case['kind']](case, R)


# --- stars on tracks --------------------------------------------------------
def at(kind, m, t):
    """All values of a track at the age t (linear between its points)."""
    import numpy as np
    from mc import tracks
    tr = tracks.reference_track(kind, m)
    d = {k: float(np.interp(t, tr['age'], v)) for k, v in tr.items()}
    return d, tr


def make(kind, m, x, shift=(), spin=2e-6):
    from posydon.binary_evol.singlestar import SingleStar
    from checks.C23 import star_state
    from mc import tracks
    T = tracks.reference_track(kind, m)['age'][-1]
    d, tr = at(kind, m, x * T)
    d['state'] = star_state(d)
    for k, v in dict(shift).items():
        if v == 'nan':
            d[k] = math.nan
        elif k == 'log_R':
            d[k] += v
        elif k.startswith('center'):
            d[k] *= v
        else:
            d[k] *= v if v < 10 else v / 2.
    I = d['inertia']
    keep = ('mass', 'log_R', 'he_core_mass', 'center_h1', 'center_he4',
            'center_c12', 'surface_h1', 'surface_he4', 'log_L', 'co_core_mass',
            'log_LH', 'log_LHe', 'log_Lnuc', 'log_LZ')
    wc = math.sqrt(G * d['mass'] * MS / (10 ** d['log_R'] * RS)**3)
    s = SingleStar(state=d['state'], metallicity=1.0, surf_avg_omega=spin,
                   surf_avg_omega_div_omega_crit=spin / wc,
                   total_moment_of_inertia=I,
                   log_total_angular_momentum=math.log10(I * spin),
                   **{k: d[k] for k in keep})
    return s, d, x * T


_RANGE = {}


def ranges(kind):
    from mc import tracks
    if kind not in _RANGE:
        ms = tracks.H_MASSES if kind == 'H' else tracks.HE_MASSES
        tabs = [tracks.table(kind, m) for m in ms]
        _RANGE[kind] = {}
        for k in ('mass', 'center_h1', 'log_R', 'he_core_mass', 'center_he4'):
            lo = min(t[k].min() for t in tabs)
            hi = max(t[k].max() for t in tabs)
            _RANGE[kind][k] = (lo, hi)
    return _RANGE[kind]


def dist(lst, kind, track, star):
    """Scaled squared distance of a point of a track from the star."""
    r = ranges(kind)
    tot = 0.0
    for name, log in lst:
        lo, hi = r[name]
        u, v = track[name], star[name]
        if math.isnan(v):
            return math.inf
        if log:
            lo, hi, u, v = map(math.log10, (lo, hi, u, v))
        if hi == lo:
            u, v = u - lo, v - lo
        else:
            u, v = (u - lo) / (hi - lo), (v - lo) / (hi - lo)
        if name == 'center_he4':
            if v == 0:
                if u != v:
                    return math.inf
                continue
            u, v = u / v, 1.0
        tot += (u - v) ** 2
    return tot


def which(state):
    if 'Core_H_burning' in state:
        return 'HMS'
    if 'stripped_He' not in state:
        return 'postMS'
    return 'He' if 'Core_He_burning' in state else 'postHe'


def quantities(kind, d):
    """First list of matching quantities that is defined for the star."""
    kl = which(d['state'])
    if ('center_he4', 0) in LISTS[kl] and \
            d['center_he4'] == ranges(kind)['center_he4'][0]:
        return ALT[kl]     # relative to zero
    return LISTS[kl]


def binary(s1, s2, time=2.5e6, event=None, state='detached'):
    from posydon.binary_evol.binarystar import BinaryStar
    b = BinaryStar(star_1=s1, star_2=s2, time=time, separation=5e4,
                   orbital_period=3e5, eccentricity=0.1, state=state,
                   event=event, V_sys=[0., 0., 0.])
    b.step_names = []
    b.properties = types.SimpleNamespace(all_step_names=['step_detached'],
                                         flow={}, max_simulation_time=1.38e10)
    return b


def companion(c):
    from posydon.binary_evol.singlestar import SingleStar
    if c == 'massless_remnant':
        return SingleStar(mass=0.0, state=c, metallicity=1.0)
    if c in ('BH', 'WD'):
        return SingleStar(mass=9.0 if c == 'BH' else 0.8, state=c, spin=0.4,
                          metallicity=1.0)
    return make('H', 2.0, 0.4)[0]


def do_match(case, R):
    import copy
    from posydon.utils.posydonerror import MatchingError, NumericalError
    from mc import tracks
    k, m, x = case['k'], case['m'], case['x']
    base = {}
    for shift in SHIFTS:
        if 'center_h1' in shift and k == 'He':
            shift = {'center_he4': 0.93}
        sk = repr(sorted(shift.items()))
        for method, rec in (('minimize', False), ('minimize', True),
                            ('root', False)):
            if method == 'root' and shift:
                continue
            for c, w in itertools.product(('BH', 'massless_remnant', 'H'),
                                          (0, 1)):
                if shift and (c == 'massless_remnant' or (w and c == 'BH')):
                    continue
                if (rec or method == 'root') and c == 'massless_remnant':
                    continue
                if not case['full'] and c == 'H' and (w or rec) and shift:
                    continue
                s, d, t = make(k, m, x, shift)
                tm = tracks.matcher(record_matching=rec,
                                    matching_method=method)
                o = companion(c)
                b = binary(*((o, s) if w else (s, o)))
                st = b.star_2 if w else b.star_1
                ot = b.star_1 if w else b.star_2
                what = "%s %s at %s %s with %s (star %d) %s%s" % (
                    k, m, x, shift, c, w + 1, method, ' rec' if rec else '')
                n0 = len(b.time_history)
                R.step()
                try:
                    tm.do_matching(b, 'step_x')
                except (MatchingError, NumericalError) as ex:
                    judge_failure(R, what, b, ex, k, d, m, x, shift, method)
                    R.outcome('failed', k, method)
                    R.state(k, m, x, sk, 'failed')
                    continue
                judge(R, what, b, st, ot, k, d, m, x, t, shift, method, c, w,
                      rec, n0, base)
                R.state(k, m, x, sk, method, c, w)
                R.outcome('matched', k, st.state, method)


def nearest(kind, star, lst):
    """Best of the grid points."""
    import numpy as np
    from mc import tracks
    ms = tracks.H_MASSES if kind == 'H' else tracks.HE_MASSES
    best = math.inf
    for mm in ms:
        t = tracks.table(kind, mm)
        for i in range(len(t['age'])):
            v = dist(lst, kind, {n: t[n][i] for n, _ in lst}, star)
            best = min(best, v)
    return best


def regular(k, m, x, shift):
    """(Almost) on a track of the grid, at or between its first 40 points."""
    return (m in ((1.4, 4.0, 12.0) if k == 'H' else (1.0, 6.0))
            and x in AGES[:4] + [0.55] and shift in SHIFTS[:3])


def judge_failure(R, what, b, ex, k, d, m, x, shift, method):
    from posydon.utils.posydonerror import MatchingError
    if method == 'root':
        # the root search may fail but not at a point of the grid
        R.check(not regular(k, m, x, {}), what + ": no root although the star "
                "lies on a track of the grid: %r" % ex)
        R.eq(b.event, 'FAILED', what + ": event")
        return
    # the search may end without success between the tracks
    R.check(not regular(k, m, x, shift), what + ": not matched although the "
            "star lies on a track of the grid: %r" % ex)
    if isinstance(ex, MatchingError):
        R.eq(b.event, 'FAILED', what + ": event of a failed match")


def judge(R, what, b, st, ot, k, d, m, x, t, shift, method, c, w, rec, n0, base):
    it = st.interp1d
    kind = 'H' if st.htrack else 'He'
    lo, hi = (0.8, 40.0) if kind == 'H' else (0.5, 20.0)
    R.check(lo <= it.m0 <= hi, what + ": matched outside the grid")
    v, tr = at(kind, it.m0, it.t0)
    R.check(0 <= it.t0 <= tr['age'][-1] * (1 + 1e-9),
            what + ": age %r beyond the track" % it.t0)
    kl = which(d['state'])
    if method == 'minimize':
        lst = quantities(k, d)
        D = dist(lst, kind, v, d)
        A = dist(ALT[kl], kind, v, d)
        R.check(min(D, A) <= HARD * (1 + 1e-6),
                what + ": matched to m0=%r t0=%r at distance %.4g" % (
                    it.m0, it.t0, min(D, A)))
        if regular(k, m, x, shift):
            R.eq(kind, k, what + ": grid of the match")
            R.check(D <= TOL, what + ": distance %.4g, a grid point has %.4g"
                    % (D, nearest(k, d, lst)))
        key = repr(sorted(shift.items()))
        if key in base and (rec or c != 'massless_remnant'):
            R.close([it.m0, it.t0], base[key], what + ": match depends on the "
                    "companion or its position", rtol=1e-12)
        base.setdefault(key, [float(it.m0), float(it.t0)])
    else:
        q = 'center_h1' if kl == 'HMS' else 'he_core_mass'
        R.close([v[q], v['mass']], [d[q], d['mass']], what + ": root",
                rtol=0, atol=0.1)
    # rotation: the angular momentum stays with the star
    w0 = 2e-6
    R.close(st.omega0, w0 * YR, what + ": initial rotation", rtol=1e-9)
    R.close(st.surf_avg_omega, w0, what + ": rotation", rtol=1e-9)
    R.close(st.log_total_angular_momentum, math.log10(w0 * d['inertia']),
            what + ": angular momentum", rtol=1e-9)
    # properties of the matched track
    for q in ('mass', 'log_R', 'log_L', 'center_h1', 'center_he4',
              'he_core_mass', 'surface_h1', 'co_core_mass'):
        if c != 'massless_remnant' or True:
            R.close(getattr(st, q), v[q], what + ": matched " + q, rtol=1e-7,
                    atol=1e-9)
    # the interpolator of the star follows the track
    y = it(it.t0 + (it.offset or 0.0)) if hasattr(it, 'offset') else it(it.t0)
    R.close(float(y['mass']), v['mass'], what + ": interpolator", rtol=2e-3)
    R.close(it.t_max, tr['age'][-1], what + ": end of the track", rtol=1e-9)
    R.eq(it.max_time, 1.38e10, what + ": time limit")
    # companion
    if c in ('BH', 'WD'):
        R.eq((ot.state, ot.mass, ot.spin),
             (c, 9.0 if c == 'BH' else 0.8, 0.4), what + ": companion")
        z = ot.interp1d(ot.interp1d.t0)
        R.eq((float(z['mass']), float(z['R']), float(z['mdot']),
              float(z['Idot'])), (ot.mass, 0.0, 0.0, 0.0),
             what + ": point mass")
        R.close(ot.interp1d.t_max - ot.interp1d.t0, it.t_max - it.t0,
                what + ": a compact object outlives the star", rtol=1e-9)
    # record
    if rec:
        ev = 'Match12' if c == 'H' else 'Match%d' % (w + 1)
        R.eq(b.event, ev, what + ": event")
        R.eq(len(b.time_history), n0 + 1, what + ": rows")
        R.eq(b.event_history[-1], ev, what + ": event row")
        R.eq(b.step_names[-1], 'step_x', what + ": step name")
        R.eq(st.mass_history[-1], st.mass, what + ": mass row")
    else:
        R.eq(len(b.time_history), n0, what + ": rows without recording")
        R.eq(b.event, None, what + ": event without recording")
    R.eq((b.time, b.separation, b.eccentricity, b.state),
         (2.5e6, 5e4, 0.1, 'detached'), what + ": the orbit stays")


# --- roles -------------------------------------------------------------------
def do_roles(case, R):
    from posydon.binary_evol.flow_chart import STAR_STATES_ALL
    from posydon.binary_evol.singlestar import SingleStar
    from posydon.utils.posydonerror import POSYDONError
    from mc import tracks
    tm = tracks.matcher()
    a = case['s']
    he = ('stripped_He', 'accreted_He_Core_He_burning')
    CO = ('BH', 'NS', 'WD')

    def star(s):
        m = {'BH': 9.0, 'NS': 1.4, 'WD': 0.8, 'massless_remnant': 0.0}.get(s, 5.)
        return SingleStar(mass=m, state=s, metallicity=1.0)

    for x in STAR_STATES_ALL + ['undefined']:
        b = binary(star(a), star(x))
        s = [a, x]
        what = "roles of %s + %s" % (a, x)
        R.step()
        if 'undefined' in s:
            with R.raises((ValueError, POSYDONError), what):
                tm.determine_star_states(b)
            continue
        gone = [q == 'massless_remnant' for q in s]
        if all(gone):
            with R.raises(POSYDONError, what):
                tm.determine_star_states(b)
            continue
        P, S, only = tm.determine_star_states(b)
        co = [q in CO for q in s]
        h = [not q.startswith(he[0]) and q != he[1] and not c and not g
             for q, c, g in zip(s, co, gone)]
        if any(gone):
            p = gone.index(True)
        elif co[0] != co[1]:
            p = co.index(True)
        elif h[0] != h[1] and not any(co):
            p = h.index(False)
        else:
            p = 0
        R.check(P is (b.star_1, b.star_2)[p] and S is (b.star_1, b.star_2)[1 - p],
                what + ": primary should be star %d" % (p + 1))
        R.eq(bool(only), any(gone) and co[1 - p], what + ": only a CO left")
        R.eq(bool(S.co), co[1 - p], what + ": secondary is compact")
        R.eq(bool(P.co), co[p] or gone[p], what + ": primary is compact")
        if not co[1 - p]:
            R.eq(bool(S.htrack), h[1 - p], what + ": grid of the secondary")
            R.eq(bool(P.htrack), h[1 - p] if P.co else h[p],
                 what + ": grid of the primary")
        R.state('roles', a, x)
        R.outcome('roles', p, tuple(co), tuple(h))


# --- rotation ----------------------------------------------------------------
def do_spin(case, R):
    from mc import tracks
    tm = tracks.matcher()
    k, j = case['k'], case['j']
    known = [bool(j >> q & 1) for q in range(5)]  # J, I, w, w/wc, log_R
    for w in (0, 1):
        s, d, t = make(k, 6.0 if k == 'He' else 12.0, 0.12, spin=3e-6)
        J, I, om, rat = (s.log_total_angular_momentum + 0.3,
                         s.total_moment_of_inertia, 3e-6,
                         s.surf_avg_omega_div_omega_crit * 1.5)
        for miss, comp in ((None, 'BH'), (math.nan, 'BH'), (None, 2.0),
                           (math.nan, 20.0)):
            if comp != 'BH' and not known[2]:
                continue
            oth = (companion('BH') if comp == 'BH' else
                   make('H', comp, 0.4, spin=1e-6)[0])
            st0 = make(k, 6.0 if k == 'He' else 12.0, 0.12, spin=3e-6)[0]
            st0.log_total_angular_momentum = J if known[0] else miss
            st0.total_moment_of_inertia = I if known[1] else miss
            st0.surf_avg_omega = om if known[2] else miss
            st0.surf_avg_omega_div_omega_crit = rat if known[3] else miss
            if not known[4]:
                st0.log_R = miss
            b = binary(*((oth, st0) if w else (st0, oth)), event='ZAMS')
            st = b.star_2 if w else b.star_1
            what = ("rotation of %s star %d next to %s, known %s, missing as "
                    "%r" % (k, w + 1, comp, known, miss))
            R.step()
            tm.do_matching(b, 'step_x')
            if known[0] and known[1]:
                want = 10 ** J / I
            elif known[2]:
                want = om
            elif known[3]:
                lr = (d['log_R'] if known[4] else
                      at(k, st.interp1d.m0, 0.0)[0]['log_R'])
                mm = d['mass'] if known[4] else st.interp1d.m0
                want = rat * math.sqrt(G * mm * MS / (10 ** lr * RS)**3)
            else:
                want = 0.0
            R.close(st.omega0, want * YR, what + ": initial rotation",
                    rtol=1e-6)
            if known[2]:
                # the star itself rotates like that from here on
                R.close(st.surf_avg_omega, want, what + ": rotation",
                        rtol=1e-6)
                if known[3]:
                    R.close(st.surf_avg_omega_div_omega_crit,
                            rat * want / om, what + ": critical ratio",
                            rtol=1e-6)
                if known[1]:
                    R.close(st.log_total_angular_momentum,
                            math.log10(want * I),
                            what + ": angular momentum", rtol=1e-6)
            if comp != 'BH':
                o = b.star_1 if w else b.star_2
                R.close([o.omega0, o.surf_avg_omega * YR], [1e-6 * YR] * 2,
                        what + ": rotation of the other star", rtol=1e-6)
            R.outcome('spin', tuple(known))
            R.state('spin', k, j, w, str(miss), comp)


# --- tracks between masses -----------------------------------------------------
def do_grid(case, R):
    """Interpolation between tracks of different length with pre-ZAMS rows."""
    import numpy as np
    from mc import tracks
    n = case['n']
    g = tracks.make_grid('H')
    ms = tracks.H_MASSES
    pre = [(n * (i + 1)) % 4 for i in range(len(ms))]    # rows before ZAMS
    tabs = []
    for i, mm in enumerate(ms):
        t = tracks.table('H', mm)
        # drop last rows and prepend contraction rows
        cut = (i * n) % 3
        keep = {k: v[:len(v) - cut] if cut else v for k, v in t.items()}
        for k in keep:
            keep[k] = np.concatenate([np.repeat(keep[k][:1], pre[i]), keep[k]])
        if pre[i]:
            keep['age'] = keep['age'] + 1e5 * pre[i]
            keep['age'][:pre[i]] = 1e5 * np.arange(pre[i])
            keep['log_LH'] = keep['log_LH'].copy()
            keep['log_LH'][:pre[i]] = keep['log_L'][:pre[i]] - 1.0
        tabs.append(keep)
    fin = []
    for i, mm in enumerate(ms):
        f = tracks.final('H', mm)
        if n and i % (n + 1) == 0:
            f = {k: math.nan for k in f}
        fin.append(f)
    g.grid_data = dict(zip(ms, tabs))
    g.grid_final_values = dict(zip(ms, fin))
    prof = [tracks.profile('H', mm, 12 + (i * n) % 5) for i, mm in enumerate(ms)]
    g.grid = [tracks._Run(p) for p in prof]
    g.grid_profile = {mm: {k: p[k] for k in tracks.PROFILE}
                      for mm, p in zip(ms, prof)}
    for M in (0.8, 0.9, 1.4, 3.0, 8.0, 10.5, 15.9, 16.0, 39.0, 40.0):
        i = max(q for q in range(len(ms)) if ms[q] <= M)
        j = i if ms[i] == M else i + 1
        f = 0.0 if i == j else (M - ms[i]) / (ms[j] - ms[i])
        L = min(len(tabs[i]['age']), len(tabs[j]['age']))
        mix = {k: (1 - f) * tabs[i][k][:L] + f * tabs[j][k][:L]
               for k in tabs[i]}
        z = [q for q in range(L)
             if math.log10(0.99) + mix['log_L'][q] <= mix['log_LH'][q]]
        z = z[0] if z else 0
        for k in ('age', 'mass', 'log_R', 'center_h1', 'he_core_mass', 'mdot'):
            R.step()
            want = mix[k][z:]
            if k == 'age':
                want = want - want[0]
            got = g.get(k, M)
            R.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-9,
                                                          atol=1e-12),
                    "track %s of %s: %s rows, expected %s" % (
                        k, M, len(got), len(want)))
            R.check(np.all(np.diff(g.get('age', M)) >= 0),
                    "ages of %s decrease" % M)
        for k in tracks.FINAL[:3]:
            R.step()
            got = g.get_final_values(k, M)
            ii, jj = i, j
            if i == j:
                want = fin[i][k]
            else:
                while ii > 0 and math.isnan(fin[ii][k]):
                    ii -= 1
                while jj < len(ms) - 1 and math.isnan(fin[jj][k]):
                    jj += 1
                u, v = fin[ii][k], fin[jj][k]
                want = u + (M - ms[ii]) / (ms[jj] - ms[ii]) * (v - u)
            R.close(got, want, "final %s of %s" % (k, M), rtol=1e-9)
        for k in ('radius', 'logRho', 'mass'):
            R.step()
            got, old = g.get_profile(k, M)
            lo, hi = prof[i], prof[j]
            if i == j:
                want = lo[k]
            else:
                cl, ch = lo['mass'] / lo['mass'][0], hi['mass'] / hi['mass'][0]
                grid = ch if cl[-1] < ch[-1] else cl
                u = np.interp(grid, cl[::-1], lo[k][::-1])
                v = np.interp(grid, ch[::-1], hi[k][::-1])
                want = (1 - f) * u + f * v
            R.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-9),
                    "profile %s of %s" % (k, M))
        R.state('grid', n, M)
    for M in (0.79, 40.1, 1e3):
        R.step()
        with R.raises(ValueError, "track of %s outside the grid" % M):
            g.get('mass', M)
    R.outcome('grid', n)


def do_switch(case, R):
    """A He star found only in the H-rich grid, next to a compact object."""
    from posydon.binary_evol.DT.step_detached import detached_step
    from posydon.utils.posydonerror import MatchingError
    from mc import tracks
    s, d, t = make('H', case['m'], case['x'])
    s.state = 'stripped_He_Core_He_burning'
    tm = tracks.matcher()
    for c in ('BH', 'WD', 'massless_remnant'):
        o = companion(c)
        import copy
        s1 = copy.deepcopy(s)
        b = binary(*((o, s1) if case['w'] else (s1, o)))
        if c == 'massless_remnant':
            b.state = 'disrupted'
        st = b.star_2 if case['w'] else b.star_1
        what = "He star at m0=%s x=%s of the H grid with %s" % (
            case['m'], case['x'], c)
        R.step()
        from posydon.binary_evol.DT.step_disrupted import DisruptedStep
        cls = DisruptedStep if c == 'massless_remnant' else detached_step
        step = cls(track_matcher=tm)
        t_life = None
        try:
            step(b)
        except MatchingError as ex:
            R.fail(what + ": not matched: %r" % ex)
            continue
        R.eq(bool(st.htrack), True, what + ": grid")
        it = st.interp1d
        R.close(it.m0, case['m'], what + ": initial mass", rtol=0.04)
        end = 2.5e6 + it.t_max - it.t0
        R.eq(b.event, 'CC%d' % (case['w'] + 1), what + ": event")
        R.close(b.time, end, what + ": lives to the end of its track",
                rtol=1e-9)
        R.state('switch', case['m'], case['x'], c, case['w'])
        R.outcome('switch', c, case['w'])
