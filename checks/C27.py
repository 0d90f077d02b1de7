"""C27: mergers and isolated evolution."""
import itertools
import math

LEVEL = "model_checking"
RULE = ("every pair of star states x presence of CO cores x merger event x "
        "mass set x loss fraction through the real merger step; every binary "
        "state through the isolated steps; distinct by merger product")
ASSUMPTIONS = ["the evolution after the merger (C21, C23) is replaced by a "
               "recorder at the detached step's entry",
               "combinations of core masses which the code itself reports as "
               "unexpected are only judged on masses and bookkeeping"]

HMS = ['H-rich_Core_H_burning']
POSTMS = ['H-rich_Core_He_burning', 'H-rich_Shell_H_burning',
          'H-rich_Core_He_depleted', 'H-rich_Shell_He_burning',
          'H-rich_Core_C_burning', 'H-rich_Core_C_depleted',
          'H-rich_non_burning', 'accreted_He_Core_H_burning',
          'accreted_He_Shell_H_burning', 'accreted_He_non_burning']
HEMS = ['stripped_He_Core_He_burning']
POSTHE = ['stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted',
          'stripped_He_non_burning', 'accreted_He_Core_He_burning']
# states which also count as He-rich
BOTH = ['H-rich_non_burning', 'accreted_He_non_burning']
STARS = HMS + POSTMS + HEMS + POSTHE
CO = ['WD', 'NS', 'BH']
CENTER = ['center_h1', 'center_he4', 'center_c12', 'center_n14', 'center_o16']
SURFACE = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14',
           'surface_o16']
MASSES = ['mass', 'he_core_mass', 'c_core_mass', 'o_core_mass',
          'co_core_mass']
# total, He core, CO core of the first and the second star
SETS = [((30.0, 11.0, 7.0), (18.0, 6.5, 3.25)),
        ((9.0, 4.0, 1.75), (24.0, 8.5, 5.0))]
ROTS = [(0.4, 0.1), (0.7, 0.25), (0.0, 0.0)]
BSTATES = ['initially_single_star', 'merged', 'disrupted', 'detached', 'RLO1',
           'RLO2', 'contact', 'initial_RLOF', 'maxtime', 'failed', 'undefined']


def bounds(tier):
    return {"state_pairs": len(STARS) * (len(STARS) + 3), "core_choices": 4,
            "events": 4, "mass_sets": len(SETS)}


def cases(tier):
    for s1 in STARS:
        for s2 in STARS + CO:
            for rot in (ROTS if tier == 'thorough' else
                        [ROTS[(len(s1) + len(s2)) % 3]]):
                yield {'kind': 'merge', 's1': s1, 's2': s2, 'rot': list(rot)}
    for b in BSTATES:
        yield {'kind': 'isolated', 'b': b}
    for s1 in STARS + CO:
        yield {'kind': 'refuse', 's1': s1}


def kindof(s):
    return ('HMS' if s in HMS else 'POSTMS' if s in POSTMS else 'HEMS'
            if s in HEMS else 'POSTHE' if s in POSTHE else s)


def props(which, state, core, mset):
    """Distinct values for every property of a star."""
    from posydon.binary_evol.singlestar import STARPROPERTIES
    k = 0.0 if which == 1 else 0.017
    v = {}
    for n, name in enumerate(STARPROPERTIES):
        v[name] = 0.5 + 0.01 * n + k
    m, he, co = mset[which - 1]
    v.update(state=state, mass=m, metallicity=0.45, profile=None)
    if state in CO:
        v.update(mass={'WD': 0.9, 'NS': 1.4, 'BH': 12.0}[state],
                 he_core_mass=0.0, c_core_mass=0.0, o_core_mass=0.0,
                 co_core_mass={'WD': 0.9}.get(state))
        v.update(center_h1=0.0, center_he4=0.0, center_c12=0.4,
                 center_n14=0.01, center_o16=0.55, center_gamma=3.0,
                 avg_c_in_c_core=0.41)
        return v
    ms = state in HMS
    v.update(he_core_mass=0.0 if ms else (m if state in HEMS + POSTHE
                                          else he),
             co_core_mass=co if core else 0.0,
             c_core_mass=0.9 * co if core else 0.0,
             o_core_mass=0.7 * co if core else 0.0)
    a = which == 1
    if ms:
        c = (0.31, 0.66, 0.003, 0.004, 0.005) if a else (
            0.61, 0.37, 0.0031, 0.0042, 0.0053)
    elif 'C_depleted' in state:
        c = (0.0, 0.0, 0.0, 0.01, 0.9) if a else (0.0, 0.0, 0.0, 0.02, 0.8)
    elif core:
        c = (0.0, 0.0, 0.35, 0.01, 0.6) if a else (0.0, 0.0, 0.25, 0.02, 0.7)
    else:
        c = (0.0, 0.9, 0.05, 0.011, 0.02) if a else (0.0, 0.6, 0.3, 0.02,
                                                     0.05)
    v.update(zip(CENTER, c))
    if state.startswith('H-rich'):
        s = (0.71, 0.27, 0.002, 0.001, 0.003) if a else (
            0.55, 0.43, 0.0021, 0.0011, 0.0032)
    else:
        s = (0.0, 0.97, 0.004, 0.002, 0.001) if a else (
            0.005, 0.95, 0.006, 0.0024, 0.0016)
    v.update(zip(SURFACE, s))
    return v


def avg(v1, v2, n, w1, w2):
    return (v1[n] * w1 + v2[n] * w2) / (w1 + w2)


def model(v1, v2, loss):
    """(product, judged centers?) or None (refused) or 'CO'."""
    k1, k2 = kindof(v1['state']), kindof(v2['state'])
    if k2 in ('NS', 'BH'):
        return 'CO', True
    env = lambda v: v['mass'] - v['he_core_mass']
    henv = lambda v: v['he_core_mass'] - v['co_core_mass']
    # which star is the base of the product
    base, other = v1, v2
    if ((k1 == 'HMS' and k2 == 'POSTMS') or
            (k1 in ('HEMS', 'POSTHE') and k2 == 'POSTMS')):
        base, other = v2, v1
    p = dict(base)
    wipe = ['log_', 'lg_', 'surf_', 'conv_', 'lambda', 'profile']
    for n in p:
        if any(w in n for w in wipe) or n in ('c12_c12', 'spin',
                                              'total_moment_of_inertia'):
            p[n] = math.nan
    pair = {k1, k2}
    judged = True
    if pair == {'HMS'}:
        for n in CENTER + SURFACE:
            p[n] = avg(v1, v2, n, v1['mass'], v2['mass'])
        p['mass'] = (v1['mass'] + v2['mass']) * (1 - loss)
        for n in ('center_gamma', 'avg_c_in_c_core',
                  'envelope_binding_energy'):
            p[n] = math.nan
        return p, True
    if pair == {'HMS', 'POSTMS'}:
        for n in SURFACE:
            p[n] = avg(base, other, n, env(base), other['mass'])
        p['mass'] = v1['mass'] + v2['mass']
        # the burning of the core goes on
        p['log_LHe'], p['log_LZ'] = base['log_LHe'], base['log_LZ']
        return p, True
    if k2 == 'WD':
        if v1['co_core_mass'] == 0:
            for n in CENTER + ['avg_c_in_c_core', 'center_gamma']:
                p[n] = v2[n]
        else:
            for n in CENTER + ['avg_c_in_c_core']:
                p[n] = avg(v1, v2, n, v1['co_core_mass'], v2['co_core_mass'])
            p['center_gamma'] = math.nan
        for n in MASSES:
            p[n] = v1[n] + v2['mass']
        return p, True
    if 'HMS' in pair:
        return None, True
    # two evolved stars: cores merge
    c1, c2 = v1['co_core_mass'] > 0, v2['co_core_mass'] > 0
    if c1 == c2:
        w = 'co_core_mass' if c1 else 'he_core_mass'
        for n in CENTER + ['avg_c_in_c_core']:
            p[n] = avg(v1, v2, n, v1[w], v2[w])
        p['center_gamma'] = math.nan
    else:
        src = v1 if c1 else v2
        for n in CENTER + ['avg_c_in_c_core', 'center_gamma']:
            p[n] = src[n]
    if 'HEMS' in pair and 'POSTMS' in pair:
        # a He main-sequence star with a CO core is unexpected
        judged = not (c1 if k1 == 'HEMS' else c2)
    for n in MASSES:
        p[n] = v1[n] + v2[n]
    if pair == {'POSTMS'}:
        for n in SURFACE:
            p[n] = avg(v1, v2, n, env(v1), env(v2))
    elif 'POSTMS' not in pair:
        h1, h2 = henv(v1), henv(v2)
        for n in SURFACE:
            p[n] = avg(v1, v2, n, h1, h2) if h1 + h2 else math.nan
    return p, judged


def state_of(p):
    if p['surface_h1'] != p['surface_h1']:
        return 'undetermined_evolutionary_state'
    rich = ('H-rich' if p['surface_h1'] > 0.01 else 'accreted_He'
            if p['surface_h1'] < p['center_h1'] else 'stripped_He')
    if p['center_h1'] > 0.01 or p['center_he4'] > 0.01:
        return rich + '_non_burning'
    return rich + ('_Core_He_depleted' if p['center_c12'] > 0.01
                   else '_Core_C_depleted')


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if a is None or b is None:
            return (a is None or a != a) and (b is None or b != b)
        return a == b
    return (a != a and b != b) or math.isclose(a, b, rel_tol=1e-12,
                                               abs_tol=1e-14)


def build(v1, v2, state, event):
    from posydon.binary_evol.binarystar import BinaryStar
    from posydon.binary_evol.singlestar import SingleStar
    b = BinaryStar(star_1=SingleStar(**v1), star_2=SingleStar(**v2),
                   state=state, event=event, time=5e6, orbital_period=3.0,
                   separation=20.0, eccentricity=0.1)
    for s, v in ((b.star_1, v1), (b.star_2, v2)):
        for n, x in v.items():
            setattr(s, n, x)
    b.append_state()
    return b


def stub():
    """The merger step, with a recorder in place of the detached evolution."""
    from posydon.binary_evol.DT import step_detached as D
    seen = []

    def init(self, *a, **k):
        self.verbose = bool(k.get('verbose', False))

    def call(self, binary):
        seen.append((binary.state, binary.event, binary.orbital_period,
                     binary.eccentricity, binary.separation))
    D.detached_step.__init__ = init
    D.detached_step.__call__ = call
    return seen


def run_merge(case, R):
    from posydon.binary_evol.DT.step_merged import MergedStep
    from posydon.binary_evol.singlestar import STARPROPERTIES
    from posydon.utils.posydonerror import ModelError
    seen = stub()
    s1, s2 = case['s1'], case['s2']
    rot, loss = case['rot']
    herich = lambda s: s in HEMS + POSTHE + BOTH
    for mset, c1, c2, ev in itertools.product(
            SETS, (False, True), (False, True),
            ('oMerging1', 'oMerging2', 'oRLO1', 'oRLO2')):
        rlo = ev.startswith('oRLO')
        if rlo and not (herich(s1) and herich(s2)):
            continue
        v1, v2 = props(1, s1, c1, mset), props(2, s2, c2, mset)
        first = ev.endswith('1')
        state = 'merged' if not rlo else 'RLO1' if first else 'RLO2'
        b = build(v1, v2, state, ev) if first else build(v2, v1, state, ev)
        step = MergedStep(merger_critical_rot=rot, rel_mass_lost_HMS_HMS=loss)
        hist = [{n: list(getattr(s, n + '_history')) for n in STARPROPERTIES}
                for s in (b.star_1, b.star_2)]
        del seen[:]
        want, judged = model(v1, v2, loss)
        R.step()
        what = "%s onto %s (CO cores %s %s, %s)" % (s2, s1, c1, c2, ev)
        if want is None:
            with R.raises(ModelError, what + " accepted"):
                step(b)
            R.outcome('refused', s1, s2)
            continue
        step(b)
        R.eq(b.state, 'merged', what + ": binary state")
        R.eq(b.event, ev, what + ": event")
        R.check(len(seen) == 1 and seen[0][0] == 'merged' and
                seen[0][2] == 1e99 and seen[0][3] == 0.0, lambda:
                what + ": evolved on as %r" % (seen,))
        for n in ('orbital_period', 'eccentricity', 'separation'):
            x = getattr(b, n)
            R.check(x != x, what + ": %s left over" % n)
        prod, rest = (b.star_1, b.star_2) if first else (b.star_2, b.star_1)
        if want == 'CO':
            # the compact object stays and the star is gone
            prod, rest = rest, prod
            want = dict(v2)
        else:
            want['surf_avg_omega_div_omega_crit'] = rot
            if not (kindof(s1) == kindof(s2) == 'HMS'):
                want['state'] = state_of(want)
        for n in STARPROPERTIES:
            if not judged and n in CENTER + ['avg_c_in_c_core',
                                             'center_gamma', 'state']:
                continue
            R.check(same(getattr(prod, n), want[n]), lambda: "%s: %s of the "
                    "product is %r, want %r" % (what, n, getattr(prod, n),
                                                want[n]))
            x = getattr(rest, n)
            R.check(x == {'state': 'massless_remnant', 'mass': 0.0}[n]
                    if n in ('state', 'mass') else x != x, lambda:
                    "%s: %s of the remnant is %r" % (what, n, x))
        for k, s in enumerate((b.star_1, b.star_2)):
            for n in STARPROPERTIES:
                h = getattr(s, n + '_history')
                R.check(len(h) == len(hist[k][n]) and all(
                    same(x, y) for x, y in zip(h, hist[k][n])), lambda:
                    "%s: the recorded %s of star %d became %r, was %r" % (
                        what, n, k + 1, h, hist[k][n]))
        R.outcome(s1, s2, c1, c2, round(prod.mass, 6), prod.state,
                  str(prod.center_he4)[:8], str(prod.surface_h1)[:8])


def run_refuse(case, R):
    """Anything but a merger or a He+He overflow is refused."""
    from posydon.binary_evol.DT.step_merged import MergedStep
    seen = stub()
    s1 = case['s1']
    herich = lambda s: s in HEMS + POSTHE + BOTH
    for s2 in STARS + CO:
        for state, ev in (('merged', 'oRLO1'), ('merged', 'CC1'),
                          ('merged', None), ('merged', 'oCE2'),
                          ('RLO1', 'oMerging1'), ('detached', None),
                          ('contact', 'oDoubleCE1'), ('RLO2', 'CC2'),
                          ('RLO1', 'oRLO1'), ('RLO2', 'oRLO2')):
            if ev and ev.startswith('oRLO') and state != 'merged' and herich(
                    s1) and herich(s2):
                continue
            b = build(props(1, s1, True, SETS[0]), props(2, s2, True, SETS[0]),
                      state, ev)
            del seen[:]
            R.step()
            with R.raises(ValueError, "%s/%s with %s, %s merged" % (
                    state, ev, s1, s2)):
                MergedStep()(b)
            R.check(not seen, "evolved on after being refused")
            R.outcome('r', s1, s2, state, ev)


def run_isolated(case, R):
    from posydon.binary_evol.DT.step_disrupted import DisruptedStep
    from posydon.binary_evol.DT.step_initially_single import \
        InitiallySingleStep
    from posydon.binary_evol.DT.step_isolated import IsolatedStep
    from posydon.binary_evol.singlestar import (STARPROPERTIES,
                                                properties_massless_remnant)
    from posydon.utils.posydonerror import FlowError
    seen = stub()
    bs = case['b']
    for cls, s1, comp, ev, flip in itertools.product(
            (IsolatedStep, DisruptedStep, InitiallySingleStep),
            STARS, ['massless_remnant'] + CO, (None, 'ZAMS', 'oMerging1'),
            (False, True)):
        v1 = props(1, s1, True, SETS[0])
        v2 = (properties_massless_remnant() if comp == 'massless_remnant'
              else props(2, comp, True, SETS[0]))
        a, b = (v2, v1) if flip else (v1, v2)
        bn = build(a, b, bs, ev)
        del seen[:]
        R.step()
        ok = (bs == 'initially_single_star' if cls is InitiallySingleStep
              else bs in ('initially_single_star', 'merged', 'disrupted'))
        if not ok:
            with R.raises((FlowError, AttributeError), "%s of a %s binary" % (
                    cls.__name__, bs)):
                cls()(bn)
            R.check(not seen, "evolved on after being refused")
            continue
        cls()(bn)
        R.check(len(seen) == 1, "evolved %d times" % len(seen))
        st, e, P, ecc, sep = seen[0]
        R.check(st == bs and e == ev and P == 1e99 and ecc == 0 and
                sep > 1e50, "isolated star given as %r" % (seen,))
        for n in ('orbital_period', 'eccentricity', 'separation'):
            x = getattr(bn, n)
            R.check(x != x, "%s left over" % n)
        for s, v in ((bn.star_1, a), (bn.star_2, b)):
            R.check(all(same(getattr(s, n), v[n]) for n in STARPROPERTIES),
                    "an isolated step changed a star before evolving it")
        R.check(bn.state == bs and bn.event == ev and bn.time == 5e6,
                "binary changed")
        R.outcome('i', cls.__name__, s1, comp, bs)


def execute(case, R):
    {'merge': run_merge, 'refuse': run_refuse,
     'isolated': run_isolated}[case['kind']](case, R)
