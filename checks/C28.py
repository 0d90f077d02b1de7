"""C28: classification of stars, mass transfer and runs."""
import gzip
import itertools
import math

LEVEL = "model_checking"
RULE = ("every combination of abundances and luminosities on both sides of "
        "and at every threshold; every sequence of mass-transfer cases, of "
        "history rows and of log lines up to the length bound; distinct by "
        "classification")
ASSUMPTIONS = ["reference: the documented thresholds and rules, written "
               "independently", "stars and binaries are bare value carriers "
               "for the state functions"]
HANG_S = 600

NAN = math.nan
SURF = [0.0, 0.009, 0.01, 0.0100001, 0.3, 0.7]
CH = [0.0, 0.005, 0.01, 0.0100001, 0.3, 0.72]
CHE = [0.0, 0.01, 0.0100001, 0.9]
CC = [0.0, 0.01, 0.0100001, 0.4]
# log_LH, log_LHe, log_Lnuc
LUM = [(3.0, -20.0, 3.0), (-20.0, 3.0, 3.0), (3.0, 2.9, 3.25),
       (-20.0, -20.0, -20.0), (-10.0, -10.0, -9.7), (-9.99, -9.99, -9.7),
       (1.4, 3.0, 3.01), (1.5, 3.0, 3.01), (3.0, 1.4, 3.01),
       (3.0, 1.5, 3.01), (-11.0, -9.9, -9.9), (-9.9, -11.0, -9.9),
       (NAN, NAN, NAN), (NAN, 3.0, 3.0)]
RICH = ['H-rich', 'accreted_He', 'stripped_He']
BURN = ['Core_H_burning', 'Core_He_burning', 'Shell_H_burning',
        'Core_He_depleted', 'Core_C_depleted', 'non_burning']
STATES = [r + '_' + b for r in RICH for b in BURN] + [
    'WD', 'NS', 'BH', 'massless_remnant', 'undetermined_evolutionary_state']
MT = [0, 1, 2, 3, 4, 5, 8, 9, 11, 12, 13, 14, 15, 18]
NAMES = {1: 'A', 2: 'B', 3: 'C', 4: 'BA', 5: 'BB', 6: 'BC', 8: 'nonburning'}
STABLE = ['Primary has depleted central carbon',
          'Secondary has depleted central carbon',
          'Primary got stopped before central carbon depletion',
          'Secondary enters pulsational pair-instability regime',
          'envelope_mass_limit', 'gamma_center_limit', 'max_age']
UNSTABLE = ['overflow from L2 (D_L2) distance for q(=Macc/Mdon)>1, donor is '
            'star 1', 'Reached maximum mass transfer rate: 1d-1',
            'Terminate due to L2 overflow during case A',
            'Both stars fill their Roche Lobe and t_kh > t_acc',
            'Both stars fill their Roche Lobe and at least one of them is '
            'off MS']
INITIAL = ['forced_initial_RLO',
           'Terminate because of overflowing initial model']
ERROR = ['logQ_min_limit', 'min_timestep_limit', 'reach cluster timelimit']
LINES = ['termination code: max_age\n', 'termination code: '
         'min_timestep_limit\n', 'Terminate: Primary has depleted central '
         'carbon\n', 'stopping: min_timestep_limit  Reached TPAGB  \n',
         'Reached TPAGB\n', '  termination code: indented\n',
         'step 12 min_timestep_limit\n', 'Terminate: min_timestep_limit and '
         'Reached TPAGB\n', 'termination code:   gamma_center_limit   \n']
# rows of a run: overflow of the stars, rate, donor composition of the stars
ROWS = list(itertools.product((-0.5, 0.0, 0.2), (-0.4, 0.0, 0.1),
                              (-99.0, -10.0, -3.0), ('A', 'B')))
COMP = {'A': (0.7, 0.5, 0.4, 0.0, 4.0, -9.0, 4.0),       # core H burning
        'B': (0.7, 0.0, 0.9, 0.01, 3.0, 4.0, 4.1),       # core He burning
        'C': (0.7, 0.0, 0.0, 0.4, 3.0, 4.0, 4.1),        # core He depleted
        'S': (0.0, 0.0, 0.9, 0.01, -9.0, 4.0, 4.1),      # stripped
        'U': (0.001, 0.5, 0.4, 0.0, 4.0, -9.0, 4.0)}     # accreted He


def bounds(tier):
    t = tier == 'thorough'
    return {"star_models": len(SURF) * len(CH) * len(CHE) * len(CC) *
            len(LUM), "case_sequences": "length <= %d over %d cases" % (
                5 if t else 4, len(MT)),
            "run_rows": "length <= %d over %d rows" % (3 if t else 2,
                                                       len(ROWS)),
            "log_lines": "length <= %d over %d lines" % (4 if t else 3,
                                                         len(LINES))}


def cases(tier):
    t = tier == 'thorough'
    for s in SURF + [None, NAN]:
        for c in CH:
            yield {'kind': 'star', 's': s if s == s else 'nan', 'c': c}
    yield {'kind': 'co'}
    for a in MT:
        for b in MT:
            yield {'kind': 'cum', 'pre': [a, b], 'len': 3 if t else 2}
    for n in range(0, 4 if t else 3):
        for pre in itertools.product(range(len(LINES)), repeat=min(n, 1)):
            yield {'kind': 'log', 'pre': list(pre), 'n': n + (1 if t or n
                                                              else 0)}
    for k in range(len(ROWS)):
        yield {'kind': 'run', 'row': k, 'n': 1}
        yield {'kind': 'run', 'row': k, 'n': 2}
        yield {'kind': 'run', 'row': k, 'n': 3}
        if t:
            yield {'kind': 'run', 'row': k, 'n': 4}
    for s1 in STATES:
        yield {'kind': 'binary', 's1': s1}
    yield {'kind': 'class'}


# --- reference -------------------------------------------------------------
def ref_star(s, h, he, c, lh, lhe, ln):
    if s is None or s != s:
        return 'undetermined_evolutionary_state'
    rich = ('H-rich' if s > 0.01 else 'accreted_He' if s < h - 1e-11
            else 'stripped_He')

    def burns(l):
        return l > -10.0 and l - ln > math.log10(0.03)
    if h > 0.01:
        b = 'Core_H_burning' if burns(lh) else 'non_burning'
    elif he > 0.01:
        b = ('Core_He_burning' if burns(lhe) else 'Shell_H_burning'
             if burns(lh) else 'non_burning')
    else:
        b = 'Core_He_depleted' if c > 0.01 else 'Core_C_depleted'
    return rich + '_' + b


def ref_case(rl, rate, state, dom):
    if rl is None or rate is None:
        return 0
    if rl <= 0 and (rate <= -10 or not dom):
        return 0
    if 'non_burning' in state:
        return 8
    if state.startswith('H-rich_'):
        b = state[7:]
        return {'Core_H_burning': 1, 'Core_He_burning': 2,
                'Shell_H_burning': 2, 'Core_He_depleted': 3,
                'Core_C_depleted': 3}.get(b, 9)
    if state.startswith('stripped_He_'):
        b = state[12:]
        return {'Core_He_burning': 4, 'Core_He_depleted': 5,
                'Core_C_depleted': 5}.get(b, 9)
    return 9


def ref_string(seq):
    """Summary of a sequence of cases: ?, then the changes."""
    out = '?' if 9 in seq or not seq else ''
    if not seq:
        return '?'
    kept = [x for x in seq if x not in (0, 9)]
    if not kept:
        return out + ('no_RLO' if 0 in seq else '')
    ch = [x for i, x in enumerate(kept) if i == 0 or kept[i - 1] != x]
    return out + 'case_' + '/'.join(
        (NAMES[x] + '1') if x < 10 else (NAMES[x - 10] + '2') for x in ch)


def ref_shift(seq):
    """A donor cannot go back to an earlier case."""
    lo, out = {0: 0, 1: 0}, []
    for x in seq:
        d, c = divmod(x, 10)
        if c == 9:
            out.append(x)
            continue
        lo[d] = max(lo[d], c)
        out.append(10 * d + lo[d])
    return out


def ref_log(lines):
    code = ''
    for l in reversed(lines):
        head = [h for h in ('termination code: ', 'Terminate: ')
                if l.startswith(h)]
        if head:
            txt = l[len(head[0]):].strip()
            if 'min_timestep_limit' not in l:
                return txt
            code = txt
        elif 'min_timestep_limit' in l and 'Reached TPAGB' in l:
            return 'Reached TPAGB'
    return code or 'reach cluster timelimit'


# --- drivers ---------------------------------------------------------------
class V:
    pass


def star(vals, mass=5.0):
    s = V()
    s.mass = mass
    for n, v in zip(('surface_h1', 'center_h1', 'center_he4', 'center_c12',
                     'log_LH', 'log_LHe', 'log_Lnuc'), vals):
        setattr(s, n, v)
    return s


def run_star(case, R):
    import numpy as np
    import posydon.utils.common_functions as cf
    from posydon.grids.termination_flags import check_state_from_history
    s = NAN if case['s'] == 'nan' else case['s']
    h = case['c']
    rows, want = [], []
    for he, c, l in itertools.product(CHE, CC, LUM):
        v = (s, h, he, c) + l
        w = ref_star(*v)
        got = cf.infer_star_state(star_mass=5.0, surface_h1=s, center_h1=h,
                                  center_he4=he, center_c12=c, log_LH=l[0],
                                  log_LHe=l[1], log_Lnuc=l[2])
        R.step()
        R.eq(got, w, "state of a star with surface_h1, center_h1, center_he4,"
             " center_c12, log_LH, log_LHe, log_Lnuc %r" % (v,))
        R.eq(cf.check_state_of_star(star(v)), w, "state of the star %r" % (v,))
        rows.append(v)
        want.append(w)
        R.outcome(w)
    if s is None:
        return
    st = V()
    names = ('surface_h1', 'center_h1', 'center_he4', 'center_c12', 'log_LH',
             'log_LHe', 'log_Lnuc')
    for k, n in enumerate(names):
        setattr(st, n + '_history', [r[k] for r in rows])
        setattr(st, n, -7.0)
    st.mass_history = [5.0] * len(rows)
    st.mass = 5.0
    for n in (1, 2, 7, len(rows)):
        R.eq(cf.check_state_of_star_history_array(st, N=n), want[-n:],
             "states of the last %d rows" % n)
    arr = np.array(rows, dtype=[(n, float) for n in names])
    for k in range(0, len(rows), 5):
        R.eq(check_state_from_history(arr, None, k), want[k],
             "state of row %d of a run" % k)
    R.eq(check_state_from_history(arr, None), want[-1], "final state")
    first = [k for k, w in enumerate(want) if 'Core_He_depleted' in w]
    R.eq(cf.get_i_He_depl(arr), first[0] if first else -1,
         "row of He depletion")
    for k in range(0, len(rows), 11):
        sub = [j for j in first if j >= k]
        R.eq(cf.get_i_He_depl(arr[k:]), sub[0] - k if sub else -1,
             "row of He depletion")


def run_co(case, R):
    import numpy as np
    import posydon.utils.common_functions as cf
    from posydon.grids.termination_flags import check_state_from_history
    Ms = [None, NAN, -1.0, 0.0, 0.5, 1.0999, 1.1, 1.3, 1.46, 1.4601, 1.5,
          2.5, 2.5001, 30.0]
    for m in Ms:
        for comp in itertools.product((None, NAN, 0.0, 0.3), repeat=4):
            some = any(x is not None and x == x and x > 0 for x in comp)
            if m is None or m != m or m <= 0:
                w = 'massless_remnant'
            elif m < 1.1 or (some and m <= 1.46):
                w = 'WD'
            else:
                w = 'NS' if m <= 2.5 else 'BH'
            R.step()
            R.eq(cf.infer_star_state(star_mass=m, surface_h1=comp[0],
                                     center_h1=comp[1], center_he4=comp[2],
                                     center_c12=comp[3], star_CO=True), w,
                 "compact object of %s, abundances %r" % (m, comp))
            R.outcome('co', w)
    for m in Ms[1:]:
        w = ('massless_remnant' if not m > 0 else 'WD' if m < 1.1 else 'NS'
             if m <= 2.5 else 'BH')
        for prev in ('WD', 'NS', 'BH', 'H-rich_Core_C_depleted'):
            for cur in ('WD', 'NS', None):
                s = V()
                s.mass, s.state, s.state_history = m, cur, [prev]
                s.mass_history = [9.0, m]
                x = 'WD' if 'WD' in (prev, cur) else w
                for i in (None, 1):
                    R.eq(cf.check_state_of_star(s, i=i, star_CO=True), x,
                         "compact object of %s after %s" % (m, prev))
        R.eq(check_state_from_history(None, np.array([5.0, m])), w,
             "compact object in a run")
        R.eq(check_state_from_history(None, np.array([m, 5.0]), 0), w,
             "compact object in a run")


def run_cum(case, R):
    import numpy as np
    import posydon.utils.common_functions as cf
    pre = case['pre']
    seqs = [pre[:1], pre] if pre[0] == pre[1] or True else []
    for n in range(1, case['len'] + 1):
        seqs += [pre + list(x) for x in itertools.product(MT, repeat=n)]
    for q in seqs:
        keep = list(q)
        R.step()
        R.eq(cf.cumulative_mass_transfer_flag(q), ref_string(keep),
             "summary of the cases %r" % keep)
        R.eq(cf.cumulative_mass_transfer_flag(q, shift_cases=True),
             ref_string(ref_shift(keep)), "shifted summary of %r" % keep)
        R.check(q == keep, "cases changed")
        R.outcome(ref_string(ref_shift(keep)))
    R.eq(cf.cumulative_mass_transfer_flag([]), '?', "no cases")


def run_log(case, R):
    from posydon.grids.termination_flags import get_flag_from_MESA_output
    pre = case['pre']
    R.eq(get_flag_from_MESA_output(None), 'reach cluster timelimit', "no log")
    R.eq(get_flag_from_MESA_output('/nonexistent/log'),
         'reach cluster timelimit', "no log")
    with R.tmp():
        for n in range(0, case['n'] + 1 - len(pre)):
            for x in itertools.product(range(len(LINES)), repeat=n):
                lines = [LINES[k] for k in tuple(x) + tuple(pre)]
                text = 'header\n' + ''.join(lines)
                if len(lines) % 2:
                    with open('log', 'w') as f:
                        f.write(text)
                    p = 'log'
                else:
                    with gzip.open('log.gz', 'wt') as f:
                        f.write(text)
                    p = 'log.gz'
                R.step()
                R.eq(get_flag_from_MESA_output(p), ref_log(lines),
                     "end of a run with the log %r" % lines)
                R.outcome('log', ref_log(lines))


def run_run(case, R):
    import numpy as np
    from posydon.grids.termination_flags import (get_flags_from_MESA_run,
                                                 infer_interpolation_class)
    names = ('surface_h1', 'center_h1', 'center_he4', 'center_c12', 'log_LH',
             'log_LHe', 'log_Lnuc')
    evo = {'A': 'AU', 'B': 'BS'}       # star 1 and 2 of a row
    late = {'A': 'BC', 'B': 'CB'}
    for rest in itertools.product(range(len(ROWS)), repeat=case['n'] - 1):
        ks = [case['row']] + list(rest)
        rows = [ROWS[k] for k in ks]
        comp1 = [(evo if i == 0 else late)[r[3]][0] for i, r in
                 enumerate(rows)]
        comp2 = [(evo if i == 0 else late)[r[3]][1] for i, r in
                 enumerate(rows)]
        bh = np.array([(r[0], r[1], r[2], 20.0 - i, 1.4 + 0.6 * i)
                       for i, r in enumerate(rows)], dtype=[
            (n, float) for n in ('rl_relative_overflow_1',
                                 'rl_relative_overflow_2',
                                 'lg_mtransfer_rate', 'star_1_mass',
                                 'star_2_mass')])
        h1 = np.array([COMP[c] for c in comp1], dtype=[(n, float)
                                                       for n in names])
        h2 = np.array([COMP[c] for c in comp2], dtype=[(n, float)
                                                       for n in names])
        two = (ks[-1] % 3 != 0)        # a star or a compact companion
        for tf1, atRLO in itertools.product(
                (STABLE[0], UNSTABLE[1], INITIAL[0], ERROR[1], 'other')[
                    ::1 if len(ks) < 4 else 4], (False, True)):
            R.step()
            got = get_flags_from_MESA_run(None, bh, h1, h2 if two else None,
                                          start_at_RLO=atRLO, newTF1=tf1)
            st1 = [ref_star(*COMP[c]) for c in comp1]
            if two:
                st2 = [ref_star(*COMP[c]) for c in comp2]
            else:
                st2 = ['NS' if 1.4 + 0.6 * i <= 2.5 else 'BH'
                       for i in range(len(rows))]
            tf2 = ref_tf2(rows, st1, st2, tf1, atRLO)
            what = "a run of %r (%s, start at RLO %s)" % (rows, tf1, atRLO)
            R.eq(tuple(got), (tf1, tf2, st1[-1], st2[-1]), "flags of " + what)
            R.eq(infer_interpolation_class(tf1, tf2), ref_class(tf1, tf2),
                 "class of " + what)
            R.outcome(tf1, tf2, two)


def ref_tf2(rows, st1, st2, tf1, atRLO):
    if tf1 in ERROR:
        return 'None'
    if tf1 in INITIAL:
        return 'initial_RLOF'
    if any(r[0] > 0 and r[1] > 0 for r in rows):
        return 'contact_during_MS'
    seq, und = [], False
    for i, r in enumerate(rows):
        d = 1 if r[0] >= r[1] else 2
        over = r[0] if d == 1 else r[1]
        if not (over > 0 or r[2] > -10):
            continue
        if i == 0 and not atRLO:
            return 'initial_RLOF'
        c = ref_case(over, r[2], (st1 if d == 1 else st2)[i], True)
        seq.append(c if d == 1 else c + 10)
    if not seq:
        return 'no_RLOF'
    seq = ref_shift(seq)
    if 19 in seq:
        # an undetermined case of star 2 is named as such
        out = '?' if 9 in seq else ''
        kept = [x for x in seq if x not in (0, 9)]
        ch = [x for i, x in enumerate(kept) if i == 0 or kept[i - 1] != x]
        nm = dict(NAMES)
        nm[9] = 'undetermined_MT'
        return out + 'case_' + '/'.join(
            (nm[x] + '1') if x < 10 else (nm[x - 10] + '2') for x in ch)
    return ref_string(seq)


def ref_class(tf1, tf2):
    if tf1 in INITIAL or tf2 == 'initial_RLOF':
        return 'initial_MT'
    if tf1 in ERROR:
        return 'not_converged'
    if tf2 == 'no_RLOF':
        return 'no_MT'
    if tf1 in STABLE:
        return ('stable_reverse_MT' if 'case' in tf2 and '1' in tf2 and
                '2' in tf2 else 'stable_MT')
    return 'unstable_MT' if tf1 in UNSTABLE else 'unknown'


def run_class(case, R):
    from posydon.grids.termination_flags import infer_interpolation_class
    tf2s = ['None', 'initial_RLOF', 'no_RLOF', 'contact_during_MS',
            'L2_RLOF', 'case_A1', 'case_A2', 'case_A1/B1', 'case_A1/B2',
            'case_A2/B1', '?case_A1/A2', '?', '?no_RLO', 'case_BB1/nonburning2']
    for t1 in STABLE + UNSTABLE + INITIAL + ERROR + ['', 'Reached TPAGB']:
        for t2 in tf2s:
            R.step()
            R.eq(infer_interpolation_class(t1, t2), ref_class(t1, t2),
                 "class of %s, %s" % (t1, t2))
            R.outcome('class', t1, t2)


def run_binary(case, R):
    import posydon.utils.common_functions as cf
    s1 = case['s1']
    calm = ["H-rich_Core_H_burning", "stripped_He_Core_He_burning", "WD",
            "NS", "BH"]
    OV = (None, -0.3, 0.0, 0.1, 0.4)
    for s2, o1, o2, rate, g1, g2 in itertools.product(
            STATES, OV, OV, (None, -99.0, -10.0, -4.0), (None, 9.9, 10.0),
            (None, 12.0)):
        dom = (o1 >= o2 if o1 is not None and o2 is not None else o2 is None)
        m1, m2 = ref_case(o1, rate, s1, dom), ref_case(o2, rate, s2, not dom)
        on1, on2 = m1 not in (0, 9), m2 not in (0, 9)
        b = V()
        b.star_1, b.star_2 = V(), V()
        b.lg_mtransfer_rate = rate
        b.rl_relative_overflow_1, b.rl_relative_overflow_2 = o1, o2
        b.star_1.state, b.star_2.state = s1, s2
        b.star_1.center_gamma, b.star_2.center_gamma = g1, g2
        for cls in (None, 'stable_MT', 'unstable_MT'):
            cc = None
            if ('C_depleted' in s1 or 'He_depleted' in s1 or
                    (g1 is not None and g1 >= 10)):
                cc = 'CC1'
            elif ('C_depleted' in s2 or 'He_depleted' in s2 or
                  (g2 is not None and g2 >= 10)):
                cc = 'CC2'
            if on1 and on2:
                w = ['contact', cc, 'None']
                if cls == 'unstable_MT':
                    d = 1 if o1 >= o2 else 2
                    other = s2 if d == 1 else s1
                    w[1] = 'o%sCE%d' % ('' if other in calm else 'Double', d)
            elif on1 or on2:
                d, m = (1, m1) if on1 else (2, m2)
                w = ['RLO%d' % d, cc, 'case_%s%d' % (NAMES[m], d)]
                if cls == 'unstable_MT':
                    w[1] = 'oCE%d' % d
            elif m1 == 0 and m2 == 0:
                w = ['detached', cc, 'None']
            else:
                w = ['undefined', cc, 'None']
            R.step()
            got = cf.get_binary_state_and_event_and_mt_case(b, cls)
            R.eq(list(got), w, "state of %s + %s, overflows %s %s, rate %s, "
                 "gamma %s %s, class %s" % (s1, s2, o1, o2, rate, g1, g2, cls))
        for cls, w in (('not_converged', [None, None, 'None']),
                       ('initial_MT', ['initial_RLOF', None, 'None'])):
            R.eq(list(cf.get_binary_state_and_event_and_mt_case(b, cls)), w,
                 "state of a %s run" % cls)
        R.outcome('b', s1, s2, on1, on2)
    # rows of a history are judged by their own values
    b = V()
    b.star_1, b.star_2 = V(), V()
    b.star_1.state = b.star_2.state = 'BH'
    b.star_1.center_gamma = b.star_2.center_gamma = 99.0
    b.lg_mtransfer_rate = -1.0
    b.rl_relative_overflow_1 = b.rl_relative_overflow_2 = 0.5
    combos = list(itertools.product(STATES, (-0.3, 0.1), (-0.2, 0.4),
                                    (-99.0, -4.0)))
    b.star_1.state_history = [s1] * len(combos)
    b.star_2.state_history = [c[0] for c in combos]
    b.star_1.center_gamma_history = []
    b.star_2.center_gamma_history = [None] * len(combos)
    b.rl_relative_overflow_1_history = [c[1] for c in combos]
    b.rl_relative_overflow_2_history = [c[2] for c in combos]
    b.lg_mtransfer_rate_history = [c[3] for c in combos]
    st, ev, mt = cf.get_binary_state_and_event_and_mt_case_array(
        b, N=len(combos))
    for k, (s2, o1, o2, rate) in enumerate(combos):
        c = V()
        c.star_1, c.star_2 = V(), V()
        c.star_1.state, c.star_2.state = s1, s2
        c.star_1.center_gamma = c.star_2.center_gamma = None
        c.lg_mtransfer_rate = rate
        c.rl_relative_overflow_1, c.rl_relative_overflow_2 = o1, o2
        w = cf.get_binary_state_and_event_and_mt_case(c)
        R.eq([st[k], ev[k], mt[k]], list(w), "state of row %d of a history" %
             k)
        w = cf.get_binary_state_and_event_and_mt_case(c, 'unstable_MT')
        R.eq(list(cf.get_binary_state_and_event_and_mt_case(
            b, 'unstable_MT', i=k)), list(w), "unstable row %d" % k)


def execute(case, R):
    {'star': run_star, 'co': run_co, 'cum': run_cum, 'log': run_log,
     'run': run_run, 'binary': run_binary,
     'class': run_class}[case['kind']](case, R)
