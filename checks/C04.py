"""C04: the flow chart dispatches every total state as specified."""
import itertools

LEVEL = "model_checking"
RULE = ("the complete product of 20x20 star states x 8 binary states x 22 "
        "events (plus END/FAILED and unknown labels), each dispatched through "
        "the real engine on the real flow chart, against an independently "
        "written decision procedure; plus every sequence of chart "
        "constructions with overrides up to the bound; distinct = "
        "(total state, step) pairs")
ASSUMPTIONS = ["the decision procedure in checks/C04.py states the documented "
               "flow of POSYDON v2"]

CO = ['WD', 'NS', 'BH']
ML = 'massless_remnant'
H_RICH = ['H-rich_Core_H_burning', 'H-rich_Core_He_burning',
          'H-rich_Shell_H_burning', 'H-rich_Core_He_depleted',
          'H-rich_Shell_He_burning', 'H-rich_Core_C_burning',
          'H-rich_Core_C_depleted', 'H-rich_non_burning',
          'accreted_He_Core_H_burning', 'accreted_He_Shell_H_burning',
          'accreted_He_non_burning']
STRIPPED = ['accreted_He_Core_He_burning', 'stripped_He_Core_He_burning',
            'stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted',
            'stripped_He_non_burning']
NORMAL = H_RICH + STRIPPED
STATES = CO + [ML] + NORMAL
HE_RICH = STRIPPED + ['H-rich_non_burning', 'accreted_He_non_burning']
BSTATES = ['initially_single_star', 'detached', 'RLO1', 'RLO2', 'contact',
           'disrupted', 'merged', 'initial_RLOF']
EVENTS = [None, 'CC1', 'CC2', 'ZAMS', 'oRLO1', 'oRLO2', 'oCE1', 'oCE2',
          'oDoubleCE1', 'oDoubleCE2', 'CO_contact', 'redirect_from_ZAMS',
          'redirect_from_CO_HMS_RLO', 'redirect_from_CO_HeMS',
          'redirect_from_CO_HeMS_RLO', 'MaxTime_exceeded', 'maxtime',
          'oMerging1', 'oMerging2', 'Match1', 'Match2', 'Match12']
COLLAPSING = ['H-rich_Core_C_depleted', 'H-rich_Core_He_depleted',
              'stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted',
              'stripped_He_non_burning', 'H-rich_non_burning',
              'H-rich_Shell_H_burning', 'accreted_He_Shell_H_burning',
              'accreted_He_non_burning']
ZAMS = 'H-rich_Core_H_burning'
STEPS = ['step_HMS_HMS', 'step_CO_HeMS', 'step_CO_HMS_RLO',
         'step_CO_HeMS_RLO', 'step_detached', 'step_disrupted', 'step_merged',
         'step_initially_single', 'step_dco', 'step_SN', 'step_CE',
         'step_end', 'step_HMS_HMS_RLO']


def evolvable(s):
    return s in NORMAL and 'C_depleted' not in s


def he_grid(s):
    return s in HE_RICH and evolvable(s)


def spec(s1, s2, b, e):
    """Which step a total state is sent to (None: no step is defined)."""
    co1, co2 = s1 in CO, s2 in CO
    n1, n2 = s1 in NORMAL, s2 in NORMAL
    alive = sum((n1, n2))
    # nothing left that evolves
    if s1 == ML and s2 == ML:
        return 'step_end'
    if (co1 and s2 == ML) or (co2 and s1 == ML):
        return 'step_end'
    if e in ('maxtime', 'MaxTime_exceeded', 'CO_contact'):
        return 'step_end'
    if b == 'initial_RLOF':
        return 'step_end'
    if b == 'merged' and e in ('oMerging1', 'oMerging2'):
        return 'step_merged'
    if b == 'disrupted' and co1 and co2:
        return 'step_end'
    if e == 'CC1':
        return 'step_SN' if s1 in COLLAPSING else None
    if e == 'CC2':
        return 'step_SN' if s2 in COLLAPSING else None
    if b == 'disrupted':
        return 'step_disrupted'
    if b == 'initially_single_star':
        return 'step_initially_single' if e == 'ZAMS' else None
    if b == 'detached':
        if e == 'ZAMS':
            return 'step_HMS_HMS' if s1 == s2 == ZAMS else None
        if e == 'redirect_from_ZAMS':
            return 'step_detached' if s1 == s2 == ZAMS else None
        if e is None:
            if co1 and co2:
                return 'step_dco'
            if alive == 2:
                return 'step_detached'
            if alive == 1 and (co1 or co2):
                star = s1 if n1 else s2
                if he_grid(star):
                    return 'step_CO_HeMS'
                return 'step_detached' if star in H_RICH else None
            return None
        if isinstance(e, str) and e.startswith('redirect_from_CO') \
                and alive == 1 and (co1 or co2):
            star = s1 if n1 else s2
            ok = H_RICH if e == 'redirect_from_CO_HMS_RLO' else HE_RICH
            return 'step_detached' if star in ok else None
        return None
    if (b, e) in (('RLO1', 'oRLO1'), ('RLO2', 'oRLO2')):
        donor, acc = (s1, s2) if b == 'RLO1' else (s2, s1)
        if acc in CO and evolvable(donor):
            return 'step_CO_HeMS_RLO' if he_grid(donor) else \
                'step_CO_HMS_RLO'
        if donor in HE_RICH and acc in HE_RICH:
            return 'step_merged'
        return None
    if (b, e) in (('RLO1', 'oCE1'), ('RLO1', 'oDoubleCE1')):
        return 'step_CE' if n1 else None
    if (b, e) in (('RLO2', 'oCE2'), ('RLO2', 'oDoubleCE2')):
        return 'step_CE' if n2 else None
    if b == 'contact' and e in ('oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2'):
        return 'step_CE' if alive else None
    return None


UNDEFINED = {(c, ZAMS, b, 'CC2') for c in CO for b in ('disrupted',
                                                       'detached')}


def spec_ecc(s1, s2, b, e):
    """The flow for initially eccentric binaries."""
    base = spec(s1, s2, b, e)
    if b == 'detached' and e == 'ZAMS' and base is not None:
        return 'step_detached' if (s1, s2) == (ZAMS, ZAMS) or base else base
    if (b, e) in (('RLO1', 'oRLO1'), ('RLO2', 'oRLO2')) \
            and evolvable(s1) and evolvable(s2):
        return 'step_HMS_HMS_RLO'
    return base


def bounds(tier):
    return {"total_states": len(STATES) ** 2 * len(BSTATES) * len(EVENTS),
            "override_sequence_length": 2 if tier == "quick" else 3}


CHANGES = [None, {}, {('NS', 'NS', 'detached', None): 'step_end'},
           {('BH', 'BH', 'detached', None): 'step_end',
            (ZAMS, ZAMS, 'detached', 'ZAMS'): 'step_detached'},
           {('NS', 'BH', 'disrupted', 'CC1'): 'step_mine'},
           {(ZAMS, 'NS', 'RLO1', 'oRLO1'): 'step_merged'}]


def cases(tier):
    for s1 in STATES:
        for s2 in STATES:
            yield {'kind': 'dispatch', 's1': s1, 's2': s2}
    n = bounds(tier)["override_sequence_length"]
    ops = list(itertools.product(('std', 'ecc'), range(len(CHANGES)),
                                 ('default', 'own')))
    for k in range(1, n + 1):
        for seq in itertools.product(ops, repeat=k):
            yield {'kind': 'override', 'seq': seq}


_eng = {}


def engine():
    if not _eng:
        from mc import engine as E
        from posydon.binary_evol import flow_chart as F

        class Rec:
            DEFAULT_KWARGS = {}

            def __init__(self, name):
                self.name = name

            def __call__(self, binary):
                _eng['called'].append(self.name)
        for kind in ('std', 'ecc'):
            S = E.Script([])
            prop = E.make_properties(S, hooks=[])
            f = F.flow_chart if kind == 'std' else \
                F.initial_eccentricity_flow_chart
            prop.flow = f()
            for n in STEPS:
                setattr(prop, n, Rec(n))
            _eng[kind] = E.make_binary(prop)
            _eng[kind + '_init'] = None
    return _eng


def execute(case, R):
    from mc import engine as E
    from posydon.binary_evol import flow_chart as F
    from posydon.utils.posydonerror import FlowError
    if case['kind'] == 'dispatch':
        eng = engine()
        s1, s2 = case['s1'], case['s2']
        out = []
        for kind, sp in (('std', spec), ('ecc', spec_ecc)):
            b = eng[kind]
            chart = b.properties.flow
            for bs in BSTATES:
                for e in EVENTS:
                    tot = (s1, s2, bs, e)
                    want = sp(*tot)
                    exc = None
                    if tot in UNDEFINED:
                        want, exc = None, 'FlowError'
                    elif want is None:
                        exc = 'ValueError'
                    b.restore(0)
                    E.set_total(b, tot)
                    eng['called'] = []
                    try:
                        b.run_step()
                        gexc = None
                    except FlowError:
                        gexc = 'FlowError'
                    except ValueError:
                        gexc = 'ValueError'
                    got = eng['called'][0] if eng['called'] else None
                    R.step()
                    R.state(kind, tot, got)
                    if got != want or gexc != exc or len(eng['called']) > 1:
                        R.fail("%s flow: %r goes to %s (%s), want %s (%s)" %
                               (kind, tot, got, gexc, want, exc))
                    # exchange of the two stars
                    sw = (s2, s1, SWAP.get(bs, bs), SWAP.get(e, e))
                    if tot not in UNDEFINED and sw not in UNDEFINED:
                        R.check(chart.get(tot) == chart.get(sw),
                                "%s flow is not symmetric: %r -> %s, %r -> %s"
                                % (kind, tot, chart.get(tot), sw,
                                   chart.get(sw)))
                    out.append((bs, e, got, gexc))
        R.outcome(s1, s2, out)
        return
    # sequences of chart constructions with overrides
    ref_std = {t: spec(*t) for t in itertools.product(STATES, STATES, BSTATES,
                                                      EVENTS)
               if spec(*t) is not None}
    ref_ecc = None
    for kind, ci, base in case['seq']:
        ch = CHANGES[ci]
        ch0 = None if ch is None else dict(ch)
        f = F.flow_chart if kind == 'std' else \
            F.initial_eccentricity_flow_chart
        if base == 'own':
            own = {('NS', 'NS', 'detached', None): 'step_dco',
                   ('BH', 'NS', 'detached', None): 'step_dco',
                   (ZAMS, ZAMS, 'detached', 'ZAMS'): 'step_HMS_HMS'}
            start = dict(own)
            got = f(FLOW_CHART=own, CHANGE_FLOW_CHART=ch)
        else:
            start = dict(ref_std)
            got = f(CHANGE_FLOW_CHART=ch)
        R.step()
        want = dict(start)
        for k, v in (ch0 or {}).items():
            if k in want:
                want[k] = v
        if kind == 'ecc':
            for k in want:
                if k[2] == 'detached' and k[3] == 'ZAMS':
                    want[k] = 'step_detached'
            for a in STATES:
                for c in STATES:
                    if evolvable(a) and evolvable(c):
                        want[(a, c, 'RLO1', 'oRLO1')] = 'step_HMS_HMS_RLO'
                        want[(a, c, 'RLO2', 'oRLO2')] = 'step_HMS_HMS_RLO'
        # entries for labels outside the specified vocabulary do not matter
        bad = [(k, got.get(k), want.get(k)) for k in set(got) | set(want)
               if got.get(k) != want.get(k) and got.get(k) != want.get(k)]
        R.check(not bad, lambda: "chart %s: %d entries differ, e.g. %r" %
                ((kind, ci, base), len(bad), bad[:3]))
        R.check(ch is None or ch == ch0, "the override table was modified")
        again = F.flow_chart()
        bad = [k for k in ref_std if again.get(k) != ref_std[k]]
        R.check(not bad, lambda: "the default chart changed after %s: %r" %
                ((kind, ci, base), bad[:3]))
        R.state(kind, ci, base, len(got))
        # a user modifying the chart obtained must not leak either
        got[('NS', 'NS', 'detached', None)] = 'step_broken'
        again = F.flow_chart()
        R.check(again[('NS', 'NS', 'detached', None)] == 'step_dco',
                "charts share storage with the default")
    R.outcome(case['seq'])


SWAP = {'RLO1': 'RLO2', 'RLO2': 'RLO1', 'CC1': 'CC2', 'CC2': 'CC1',
        'oRLO1': 'oRLO2', 'oRLO2': 'oRLO1', 'oCE1': 'oCE2', 'oCE2': 'oCE1',
        'oDoubleCE1': 'oDoubleCE2', 'oDoubleCE2': 'oDoubleCE1',
        'oMerging1': 'oMerging2', 'oMerging2': 'oMerging1',
        'Match1': 'Match2', 'Match2': 'Match1'}
