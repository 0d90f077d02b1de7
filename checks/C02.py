"""C02: histories stay rectangular and every row is a faithful snapshot."""
LEVEL = "model_checking"
RULE = ("every sequence of scripted step answers (next state, redirect, "
        "failure, number of rows the step records itself) up to the depth "
        "bound x redirect verbosity x hook sets; distinct by the recorded "
        "event/state/hook-column history")
ASSUMPTIONS = ["scripted steps assign fresh values to every property"]

MENU = ['B', 'C', 'RD', 'RD2', ('B', 1), ('C', 2), ('RD', 1)]
LAST = ['END', 'FAILED', ('END', 2), 'RAISE', ('RAISE', 1), 'TIMEOUT',
        'UNMAPPED', 'UNDEF']
HOOKS = [[], ['names'], ['times'], ['names', 'times', 'cols']]


def bounds(tier):
    return {"depth": 4 if tier == "quick" else 5}


def cases(tier):
    def rec(prefix, d):
        for s in LAST:
            yield prefix + [s]
        if len(prefix) + 1 < d:
            for m in MENU:
                yield from rec(prefix + [m], d)
    for seq in rec([], bounds(tier)["depth"]):
        for verbose in (False, True):
            for h in range(len(HOOKS)):
                yield {'seq': seq, 'verbose': verbose, 'hooks': h}


def execute(case, R):
    import pandas as pd

    from mc import core
    from mc import engine as E
    seq = [tuple(c) if isinstance(c, list) else c for c in case['seq']]
    hooks = HOOKS[case['hooks']]
    S = E.Script(seq)
    prop = E.make_properties(S, hooks=hooks)
    b = E.make_binary(prop, history_verbose=case['verbose'])
    b.time = 0.0
    init = E.snapshot(b)
    exc = None
    try:
        b.evolve()
    except Exception as e:
        exc = type(e).__name__
    R.step(S.pos)
    # reference rows
    rows, names = [init], ['initial_cond']
    extra = list(S.extra_rows)
    snaps = list(S.snaps)
    total = E.A
    aligned_until = None
    for k, c in enumerate(seq[:S.pos]):
        c, nx = c if isinstance(c, tuple) else (c, 0)
        name = E.FLOW[total]
        new = [s for (p, s) in extra if p == k + 1]
        rows += new
        if c in ('RAISE', 'TIMEOUT'):
            aligned_until = len(rows) - len(new)
            break
        total = E.TARGETS[c]
        if case['verbose'] or not (total[3] and 'redirect' in total[3]):
            rows.append(snaps[k])
            names.append(name)
            names += [None] * (len(rows) - len(names))
    n = len(rows)
    cols = [(p, getattr(b, p + '_history'), 0) for p in E.BINARYPROPERTIES]
    for i, st in ((1, b.star_1), (2, b.star_2)):
        cols += [(p, getattr(st, p + '_history'), i) for p in E.STARPROPERTIES]
    for p, h, i in cols:
        if len(h) != n:
            R.fail("history of %s (%d) has %d rows, want %d" %
                   (p, i, len(h), n))
            continue
        for k in range(n):
            if not core.same(h[k], rows[k][i][p]):
                R.fail("row %d of %s (%d): %r, want %r" %
                       (k, p, i, h[k], rows[k][i][p]))
                break
    if exc is None:
        # current values are the last recorded row, unless the last step was
        # an unrecorded redirect
        if case['verbose'] or not (b.event and 'redirect' in b.event):
            R.check(core.same(E.snapshot(b), rows[-1]),
                    "current values differ from the last row")
        if 'names' in hooks:
            R.eq(len(b.step_names), n, "rows of the step name column")
            R.eq(list(b.step_names)[:len(names)], names, "step name column")
        if 'times' in hooks:
            R.eq(len(b.step_times), n, "rows of the step time column")
        if 'cols' in hooks:
            R.eq(list(b.my_bin_col), [-1] + list(range(1, n)), "user column")
            R.eq(list(b.star_2.my_star_col), [-1] + list(range(1, n)),
                 "user star column")
        if len(seq) > 3:
            _done(R, b, case, names, rows, exc)
            return
        df = b.to_df(extra_columns={'step_names': 'string'}
                     if 'names' in hooks else {})
        R.eq(len(df), n, "rows of the history table")
        for p in ('state', 'time', 'orbital_period', 'lg_mtransfer_rate'):
            w = [r[0][p] for r in rows]
            g = list(df[p])
            R.check(all((a is None and (x != x or x is None)) or
                        core.same(a, x) or str(a) == str(x) or
                        (a is not None and not isinstance(a, str) and
                         abs(float(a) - float(x)) < 1e-9)
                        for a, x in zip(w, g)),
                    "table column %s: %r want %r" % (p, g, w))
        for i, pre in ((1, 'S1_'), (2, 'S2_')):
            for p in ('mass', 'he_core_mass', 'log_L'):
                w = [r[i][p] for r in rows]
                g = list(df[pre + p])
                R.check(all(core.same(float('nan') if a is None else float(a),
                                      float(x)) for a, x in zip(w, g)),
                        "table column %s%s: %r want %r" % (pre, p, g, w))
        if 'names' in hooks:
            g = [None if (pd.isna(x) or x in ('None', 'nan', ''))
                 else x for x in df['step_names']]
            R.eq(g, names, "step names in the table")
    _done(R, b, case, names, rows, exc)


def _done(R, b, case, names, rows, exc):
    R.state(names, [r[0]['event'] for r in rows])
    R.outcome(list(map(str, b.event_history)), list(b.state_history), exc,
              [str(x) for x in getattr(b, 'step_names', [])], case['verbose'],
              case['hooks'])
