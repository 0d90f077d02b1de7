"""C03: restoring a binary to any recorded row and evolving again."""
LEVEL = "model_checking"
RULE = ("every evolution trace of scripted answers up to the depth bound x "
        "every history row to restore to x (restore, reset, reset with other "
        "properties, restore twice) x every answer for the continued "
        "evolution; distinct by final histories")
ASSUMPTIONS = ["scripted steps; hook columns of the built-in hooks"]

MENU = ['B', 'C', 'RD', ('B', 1), ('C', 2)]
LAST = ['END', 'FAILED', ('END', 1), 'RAISE', 'UNMAPPED']
AGAIN = [['END'], ['C', 'END'], [('B', 1), 'RD', 'FAILED']]
HOOKS = [[], ['names', 'times', 'cols']]


def bounds(tier):
    return {"depth": 3 if tier == "quick" else 4}


def cases(tier):
    def rec(prefix, d):
        for s in LAST:
            yield prefix + [s]
        if len(prefix) + 1 < d:
            for m in MENU:
                yield from rec(prefix + [m], d)
    for h in range(len(HOOKS)):          # never evolved binaries
        for how in ('restore', 'reset', 'reset_prop'):
            yield {'seq': [], 'hooks': h, 'verbose': False, 'how': how}
    for seq in rec([], bounds(tier)["depth"]):
        for verbose in (False, True):
            for h in range(len(HOOKS)):
                for how in ('restore', 'twice', 'reset', 'reset_prop'):
                    yield {'seq': seq, 'verbose': verbose, 'hooks': h,
                           'how': how}


def tup(seq):
    return [tuple(c) if isinstance(c, list) else c for c in seq]


def hist(b, E):
    out = {}
    for p in E.BINARYPROPERTIES:
        out['b', p] = list(getattr(b, p + '_history'))
    for i, st in ((1, b.star_1), (2, b.star_2)):
        for p in E.STARPROPERTIES:
            out[i, p] = list(getattr(st, p + '_history'))
        if hasattr(st, 'my_star_col'):
            out[i, 'my'] = list(st.my_star_col)
    for c in ('step_names', 'my_bin_col'):
        if hasattr(b, c):
            out['b', c] = list(getattr(b, c))
    if hasattr(b, 'step_times'):
        out['b', 'n_times'] = [0] * len(b.step_times)
    return out


def run(b):
    try:
        b.evolve()
    except Exception as e:
        return type(e).__name__
    return None


def execute(case, R):
    from mc import core
    from mc import engine as E
    hooks = HOOKS[case['hooks']]

    def fresh():
        S = E.Script(tup(case['seq']))
        prop = E.make_properties(S, hooks=hooks)
        b = E.make_binary(prop, history_verbose=case['verbose'])
        if case['seq']:
            run(b)
            R.step(S.pos)
        return b, S
    b, _ = fresh()
    nrows = len(b.state_history)
    targets = range(nrows) if case['how'] in ('restore', 'twice') else [0]
    outs = []
    for i in targets:
        for ai, again in enumerate(AGAIN):
            b, S = fresh()
            before = hist(b, E)
            if case['how'] == 'twice':
                b.restore(nrows - 1)
                b.restore(i)
            elif case['how'] == 'restore':
                b.restore(i) if i or ai else b.restore()
            elif case['how'] == 'reset':
                b.reset()
            else:
                S2 = E.Script([])
                prop2 = E.make_properties(S2, hooks=hooks)
                prop2.max_simulation_time = 12345.0
                b.reset(properties=prop2)
                R.check(b.properties.max_simulation_time == 12345.0
                        and b.properties.flow == E.FLOW,
                        "reset did not adopt the given properties")
                S = S2
            R.step()
            after = hist(b, E)
            for k, v in before.items():
                if not core.same(after.get(k), v[:i + 1]):
                    R.fail("history %s after restore(%d): %r want %r" %
                           (k, i, after.get(k), v[:i + 1]))
                    break
            cur = E.snapshot(b)
            want = [{p: before['b', p][i] for p in E.BINARYPROPERTIES}] + [
                {p: before[s, p][i] for p in E.STARPROPERTIES}
                for s in (1, 2)]
            R.check(core.same(cur, want), "current values after restore(%d) "
                    "are not row %d" % (i, i))
            R.state(b.get_total_state(), len(b.state_history), ai)
            # continue: must behave as a binary that only ever got to row i
            total = b.get_total_state()
            if total not in E.FLOW:
                continue
            S.choices = tup(again)
            S.pos = 0
            S.snaps, S.extra_rows, S.log = [], [], []
            exc = run(b)
            R.step(S.pos)
            full = hist(b, E)
            n = len(full['b', 'state'])
            for k, v in full.items():
                R.check(len(v) == n, "ragged %s after re-evolution" % (k,))
                R.check(core.same(v[:i + 1], before.get(k, v)[:i + 1]),
                        "history %s rewritten before row %d" % (k, i))
            # against a reference binary built directly in that state
            Sr = E.Script(tup(again))
            pr = E.make_properties(Sr, hooks=hooks)
            br = E.make_binary(pr, total, history_verbose=case['verbose'])
            for p in E.BINARYPROPERTIES:
                setattr(br, p, before['b', p][i])
                setattr(br, p + '_history', [before['b', p][i]])
            for s, st in ((1, br.star_1), (2, br.star_2)):
                for p in E.STARPROPERTIES:
                    setattr(st, p, before[s, p][i])
                    setattr(st, p + '_history', [before[s, p][i]])
            excr = run(br)
            R.eq(exc, excr, "exception on re-evolution")
            ref = hist(br, E)
            for k, v in ref.items():
                if k[1] in ('my', 'my_bin_col', 'n_times'):
                    continue
                w = v[1:]
                g = full[k][i + 1:]
                if not core.same(g, w):
                    R.fail("re-evolution after restore(%d), column %s: %r "
                           "want %r" % (i, k, g, w))
                    break
            outs.append((i, ai, exc, [str(e) for e in full['b', 'event']]))
    R.outcome(outs, case['how'], case['hooks'])
