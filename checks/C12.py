"""C12: channels and transients do not depend on chunks or file order."""
import itertools

LEVEL = "model_checking"
RULE = ("every file order x chunk size x mixture of evolution channels, "
        "channels and transient table computed on the real file; distinct by "
        "resulting table")
ASSUMPTIONS = ["reference: the channel of a system is built from its own rows "
               "alone, the transient table is the function applied to the "
               "whole tables at once"]

MIX = [['rlo', 'ce', 'single', 'contact'], ['one', 'long', 'nomt', 'initmt'],
       ['single', 'single', 'reverse', 'heredir']]


def bounds(tier):
    return {"systems": 4, "chunk_sizes": "1..5", "index_orders": 24 if
            tier == "thorough" else 8, "ordered_kind_tuples": 2 if
            tier == "quick" else 3}


def cases(tier):
    from mc.popfile import KINDS
    orders = list(itertools.permutations(range(4)))
    if tier == "quick":
        orders = orders[1::3]
    for i in range(len(MIX)):
        for k, od in enumerate(orders):
            for ch in (1, 2, 3, 4, 5):
                yield {'kind': 'order', 'mix': i, 'order': list(od),
                       'chunk': ch, 'gap': (k + ch) % 2 == 1}
    for r in range(1, bounds(tier)["ordered_kind_tuples"] + 1):
        for ks in itertools.product(sorted(KINDS), repeat=r):
            for ch in range(1, r + 1):
                for mt in (False, True):
                    if r > 1 and mt != (ch == 2):
                        continue
                    yield {'kind': 'kinds', 'kinds': list(ks), 'chunk': ch,
                           'mt': mt}


def execute(case, R):
    import pandas as pd
    from mc import popfile as F
    from posydon.popsyn.synthetic_population import (Population,
                                                     TransientPopulation)
    if case['kind'] == 'order':
        ids = [0, 1, 2, 3] if not case['gap'] else [3, 4, 8, 20]
        lay = [(ids[k], MIX[case['mix']][k]) for k in case['order']]
        mts = [True]
    else:
        lay = list(enumerate(case['kinds']))
        mts = [case['mt']]
    ch = case['chunk']
    with R.tmp():
        h, o, _ = F.write('p.h5', lay)
        P = Population('p.h5', chunksize=ch)
        for mt in mts + (mts if case['kind'] == 'order' else []):
            P.calculate_formation_channels(mt_history=mt)   # also repeated
            R.step()
            fc = P.formation_channels
            R.check(list(fc.index) == [i for i, _ in lay] or
                    sorted(fc.index) == sorted(i for i, _ in lay),
                    lambda: "systems with a channel: %r of %r" %
                    (list(fc.index), lay))
            for i, k in lay:
                got = [tuple(x) for x in fc.loc[[i], ['channel_debug',
                                                      'channel']].values]
                R.check(got == [F.channel_model(k, mt)], lambda: "layout %r "
                        "chunk %d: channel of system %d is %r, want %r" %
                        (lay, ch, i, got, F.channel_model(k, mt)))
        kinds = dict(lay)
        mt = mts[-1]
        # fresh object on the file with channels
        P = Population('p.h5', chunksize=ch)
        seen = []

        def func(hc, oc, fc):
            """Two transients for odd number of rows, none for 'one'."""
            ids = list(oc.index)
            R.check(sorted(set(hc.index)) == sorted(ids) ==
                    sorted(fc.index), lambda: "a chunk mixes systems: "
                    "history %r, one-line %r, channels %r" %
                    (sorted(set(hc.index)), ids, list(fc.index)))
            out = []
            for i in ids:
                seen.append(i)
                n = int((hc.index == i).sum())
                R.check(n == len(F.KINDS[kinds[i]][0]), lambda: "system %d "
                        "has %d history rows in its chunk" % (i, n))
                for j in range(0 if kinds[i] == 'one' else 1 + n % 2):
                    t = hc.loc[[i], 'time'].iloc[-1 - j]
                    out.append((i, t, oc.loc[i, 'metallicity'],
                                oc.loc[i, 'S1_mass_i'],
                                fc.loc[i, 'channel'] if i in fc.index else
                                None, 'ev%d' % j))
            return pd.DataFrame(out, columns=['ix', 'time', 'metallicity',
                                              'S1_mass_i', 'channel',
                                              'event']).set_index('ix')

        def model():
            out = []
            for i, k in lay:
                n = len(F.KINDS[k][0])
                for j in range(0 if k == 'one' else 1 + n % 2):
                    out.append((i, 100.0 * i + n - 1 - j, 1.0,
                                10.0 + 1.5 * i, F.channel_model(k, mt)[1],
                                'ev%d' % j))
            return out
        variants = [dict(), dict(hist_cols=['time', 'event'],
                                 oneline_cols=['metallicity', 'S1_mass_i'])]
        want = model()
        order = case['kind'] == 'order'
        for kw in (variants + variants[:1] if order else variants[ch % 2:][:1]):
            del seen[:]
            T = P.create_transient_population(func, 'TT', **kw)
            R.step()
            R.check(sorted(seen) == sorted(i for i, _ in lay), lambda:
                    "systems passed to the function: %r" % seen)
            if not want:
                R.check(T is None, "no transients, but a population")
                continue
            R.must(T is not None, "transients were lost")
            got = [(int(i),) + tuple(r) for i, r in
                   zip(T.population.index, T.population.values.tolist())]
            R.check(sorted(got) == sorted(want), lambda: "layout %r chunk %d"
                    ": transients %r, want %r" % (lay, ch, got, want))
            T2 = TransientPopulation('p.h5', 'TT', chunksize=ch)
            for a in range(len(want) + 1 if order else 0):
                s = T2.select(start=a, stop=a + 2, columns=['time'])
                R.check(s['time'].tolist() == [g[1] for g in got[a:a + 2]],
                        "rows %d.. of the transients" % a)
        R.outcome(lay, ch, [F.channel_model(k, mt) for _, k in lay])
        # a second transient does not touch the first
        if want and case['kind'] == 'order':
            P.create_transient_population(
                lambda hc, oc, fc: pd.DataFrame(
                    {'time': 1.0, 'metallicity': 1.0}, index=oc.index), 'T2')
            n2 = len(TransientPopulation('p.h5', 'T2').population)
            R.check(n2 == len(lay), "second transient population")
            R.check(len(TransientPopulation('p.h5', 'TT').population) ==
                    len(want), "first transient population changed")
        R.check(F.same(P.history[:], h.iloc[:]) and F.same(P.oneline[:], o),
                "the tables of the population changed")
        if case['kind'] != 'order':
            return
        for bad, cols in (('time', ['metallicity']), ('metallicity',
                                                      ['time'])):
            with R.raises(ValueError, "transients without %s" % bad):
                P.create_transient_population(
                    lambda hc, oc, fc: pd.DataFrame(
                        {c: 1.0 for c in cols}, index=oc.index), 'bad')
        with R.raises(ValueError, "history columns without time"):
            P.create_transient_population(func, 'bad', hist_cols=['event'])


def worker_init(R):
    import posydon.popsyn.synthetic_population
