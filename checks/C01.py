"""C01: dispatch, termination and failure signalling of the evolution loop.

Exhaustive exploration of every sequence of step answers up to a depth, on
the real BinaryStar.evolve(), against a reference interpreter of the loop.
"""
import signal

LEVEL = "model_checking"
RULE = ("every sequence of scripted step answers (13 next total states, "
        "exception, time-limit signal, nearly exhausted timer) up to the depth "
        "bound x every loop configuration (step limit, user end events/states, "
        "redirect verbosity, hook sets, start state/time); a trace is "
        "non-trivial and distinct by its complete call log, exception class "
        "and recorded event history")
ASSUMPTIONS = ["steps are scripted stand-ins; the loop, hooks and history code "
               "are the real ones",
               "time limit expiry is delivered by raising SIGALRM in the step"]

GO = ['A', 'B', 'C', 'RD', 'RD2', 'SLOWA']
STOP = ['END', 'FAILED', 'UNMAPPED', 'UNDEF', 'UNDEF2', 'DEADNAME', 'RAISE',
        'TIMEOUT']
USER = ['UEE', 'UES']      # end only if configured, otherwise go on


def bounds(tier):
    return {"depth": 4 if tier == "quick" else 5, "configs": len(CONFIGS)}


CONFIGS = []
for limit in ('default', None, 0, 1, 2):
    CONFIGS.append({'limit': limit})
for limit in ('default', 1):
    CONFIGS.append({'limit': limit, 'end_events': ['CO_contact']})
    CONFIGS.append({'limit': limit, 'end_states': ['merged']})
CONFIGS += [{'limit': 'default', 'end_events': ['CO_contact', 'oRLO1'],
             'end_states': ['merged', 'RLO1']},
            {'limit': 'default', 'verbose': True},
            {'limit': 2, 'verbose': True},
            {'limit': 'default', 'hooks': ['log', 'funcs', 'log2']},
            {'limit': 'default', 'hooks': ['funcs', 'log2', 'log'],
             'verbose': True},
            {'limit': 'default', 'limit_kwarg': 2},
            ]


def seqs(depth):
    """Complete answer sequences: the last one stops or the horizon is hit."""
    def rec(prefix):
        for s in STOP:
            yield prefix + [s]
        if len(prefix) + 1 < depth:
            for g in GO + USER:
                yield from rec(prefix + [g])
        else:
            for g in USER:
                yield prefix + [g, 'END']
    yield from rec([])


def cases(tier):
    depth = bounds(tier)["depth"]
    for n in range(1, depth + 1):
        pass
    for seq in seqs(depth):
        for ci in range(len(CONFIGS)):
            yield {'seq': seq, 'cfg': ci, 'start': 'A', 'dt': 0}
    # other starting points: already final, undefined, unmapped, late birth
    for start in ['A', 'B', 'RD', 'END', 'FAILED', 'UNMAPPED', 'UNDEF',
                  'DEADNAME', 'UEE', 'UES']:
        for dt in (-1, 0, 1):
            for ci in range(len(CONFIGS)):
                for seq in (['END'], ['B', 'END'], ['RD', 'RAISE']):
                    yield {'seq': seq, 'cfg': ci, 'start': start, 'dt': dt}
    # long runs against the step limit: exactly at, one below, one above
    for lim in (3, 10, 100, None):
        for n in sorted({(lim or 130) - 1, lim or 130, (lim or 130) + 1}):
            yield {'seq': ['B'] * (n - 1) + ['END'], 'start': 'A', 'dt': 0,
                   'cfg': {'limit': lim if lim != 100 else 'default'}}


def reference(case, cfg, tmax):
    """The reference interpreter of the evolution loop."""
    from mc import engine as E
    log, events = [], []
    hooks = cfg.get('hooks', ['log'])
    idents = []
    for h in hooks:
        idents += {'log': ['h1'], 'log2': ['h2'], 'funcs': []}[h]
    if 'funcs' in hooks:
        idents.append('f')          # the extra functions come last
    total = E.TARGETS[case['start']]
    rows = 1
    events.append(total[3])
    lim = cfg['limit']
    lim = 100 if lim == 'default' else lim
    if 'limit_kwarg' in cfg:
        lim = cfg['limit_kwarg']
    verbose = cfg.get('verbose', False)

    def hk(what, name=None):
        for i in idents:
            log.append((what, i, name, total, rows))
    hk('pre_evolve')
    if case['dt'] > 0:
        return log, events, 'ValueError', total, 0
    n = 0
    seq = list(case['seq'])
    while True:
        if total[3] in ('END', 'FAILED') \
                or total[3] in cfg.get('end_events', []) \
                or total[2] in cfg.get('end_states', []):
            hk('post_evolve')
            return log, events, None, total, n
        if total in (E.UNDEF, E.UNDEF2):
            return log, events, 'FlowError', total, n
        if total not in E.FLOW or E.FLOW[total] == 'step_not_there':
            return log, events, 'ValueError', total, n
        name = E.FLOW[total]
        hk('pre_step', name)
        log.append(('step', name, total, rows))
        c = seq.pop(0)
        if c == 'RAISE':
            return log, events, 'StepBoom', total, n + 1
        if c == 'TIMEOUT':
            return log, events, 'RuntimeError', total, n + 1
        total = E.TARGETS['A' if c == 'SLOWA' else c]
        if not (total[3] and 'redirect' in total[3]) or verbose:
            rows += 1
            events.append(total[3])
            hk('post_step', name)
        n += 1
        if lim is not None and n > lim:
            return log, events, 'RuntimeError', total, n


def execute(case, R):
    from mc import engine as E
    from posydon.utils.constants import age_of_universe
    from posydon.utils.posydonerror import FlowError
    cfg = case['cfg']
    if isinstance(cfg, int):
        cfg = CONFIGS[cfg]
    S = E.Script(case['seq'])
    kw = {}
    if 'limit_kwarg' in cfg:
        kw['max_n_steps_per_binary'] = cfg['limit_kwarg']
    if 'end_events' in cfg:
        kw['end_events'] = cfg['end_events']
    prop = E.make_properties(S, hooks=cfg.get('hooks', ['log']), **kw)
    if cfg['limit'] != 'default':
        prop.max_n_steps_per_binary = cfg['limit']
    if 'end_states' in cfg:
        prop.end_states = cfg['end_states']
    tmax = 1000.0
    prop.max_simulation_time = tmax
    total = E.TARGETS[case['start']]
    b = E.make_binary(prop, total, time=tmax + case['dt'],
                      history_verbose=cfg.get('verbose', False))
    # the starting state can be a compact object: keep what was asked for
    E.set_total(b, total)
    want_log, want_events, want_exc, want_total, n = reference(case, cfg, tmax)
    signal.alarm(0)
    got_exc = None
    try:
        b.evolve()
    except BaseException as e:
        got_exc = e
    left = signal.alarm(0)
    R.step(max(1, len(S.timers)))
    name = None if got_exc is None else type(got_exc).__name__
    R.eq(name, want_exc, "exception raised by evolve (%r)" % (got_exc,))
    if want_exc == 'FlowError':
        R.check(isinstance(got_exc, FlowError), "flow error class")
    R.eq(left, 0, "pending time-limit alarm after evolve returned")
    R.eq(S.log, want_log, "order of hook and step calls")
    R.eq(list(b.event_history), want_events, "recorded events")
    if want_exc not in ('StepBoom',) and not (
            want_exc == 'RuntimeError' and 'TIMEOUT' in case['seq'][:n]):
        R.eq(b.get_total_state(), want_total, "total state left behind")
    if S.timers:
        R.check(min(S.timers) > 3.5, "a step ran without the full time "
                "allotment: %r" % (S.timers,))
        R.check(max(S.timers) - min(S.timers) < 2.0,
                "unequal time allotments %r" % (S.timers,))
    for k in range(len(want_log)):
        R.state(want_log[k], cfg.get('limit'))
    R.outcome(S.log, name, list(b.event_history))
