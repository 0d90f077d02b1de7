"""C10: reading a population file returns exactly the requested rows."""
import itertools

LEVEL = "model_checking"
RULE = ("every table layout x chunk size x key (index, index list, slice, row "
        "mask, column set, head/tail, condition); distinct by key and result")
ASSUMPTIONS = ["reference: the same table held in memory and filtered row by "
               "row", "slices address system indices (as written in the "
               "methods), not row numbers"]

LAYOUTS = [
    [(0, 'initmt'), (1, 'one'), (2, 'single')],
    [(2, 'initmt'), (0, 'single'), (1, 'initmt')],
    [(3, 'initmt'), (4, 'one'), (11, 'initmt')],
    [(7, 'one'), (3, 'contact'), (5, 'initmt'), (4, 'one')],
    [(0, 'one')],
]


def bounds(tier):
    return {"layouts": len(LAYOUTS), "max_rows": 7,
            "chunk_sizes": "1..rows+1" if tier == "thorough" else
            "1,3,rows-1,100000"}


def nrows(lay):
    from mc.popfile import KINDS
    return sum(len(KINDS[k][0]) for _, k in lay)


def cases(tier):
    for i, lay in enumerate(LAYOUTS):
        n = nrows(lay)
        cs = list(range(1, n + 2)) + [100000]
        if tier == "quick":
            cs = sorted({1, 3, max(n - 1, 1), 100000})
        for c in cs:
            for table in ('history', 'oneline'):
                for part in ('keys', 'masks', 'rest'):
                    yield {'lay': i, 'chunk': c, 'table': table, 'part': part}


def execute(case, R):
    import numpy as np
    import pandas as pd
    from mc import popfile as F
    from posydon.popsyn.synthetic_population import (History, Oneline,
                                                     Population)
    lay = LAYOUTS[case['lay']]
    table = case['table']
    with R.tmp() as d:
        h, o, _ = F.write('pop.h5', lay)
        ref = h if table == 'history' else o
        cls = History if table == 'history' else Oneline
        T = cls('pop.h5', chunksize=case['chunk'])
        n = len(ref)

        def expect(got, want, what):
            R.step()
            if len(want) == 0 and len(got) == 0:
                R.outcome(what, 'empty')
                return
            R.check(F.same(got, want), lambda: "%s of %r chunk %d: %s gives "
                    "rows %r, want %r" % (table, lay, case['chunk'], what,
                                          list(got.index), list(want.index)))
            R.outcome(table, case['lay'], what, list(want.index))
        ids = [ix for ix, _ in lay]
        where = lambda ks: ref[[ix in ks for ix in ref.index]]
        if case['part'] == 'keys':
            R.check(len(T) == n, "length")
            R.check(T.number_of_systems == len(ids), "number of systems")
            R.check(sorted(T.indices.tolist()) == sorted(ids), "indices")
            R.check(list(T.columns) == list(ref.columns), "columns")
            if table == 'history':
                ln = {int(k): int(v) for k, v in
                      zip(T.lengths.index, T.lengths.iloc[:, 0])}
                R.check(ln == {i: len(F.KINDS[k][0]) for i, k in lay},
                        lambda: "history lengths %r" % ln)
                T2 = cls('pop.h5', chunksize=case['chunk'])
                R.check(T2.lengths.iloc[:, 0].to_dict() == ln and
                        T2.indices.tolist() == T.indices.tolist(),
                        "history lengths change when read back")
            top = max(ids) + 2
            for k in range(top):
                expect(T[k], where([k]), 'index %d' % k)
            pool = sorted(set(ids) | {1, top})
            for s in F.subsets(pool):
                if s:
                    expect(T[list(s)], where(s), 'list %r' % (s,))
                    expect(T[np.array(s)], where(s), 'array %r' % (s,))
                    expect(T[list(s)[::-1]], where(s), 'reversed %r' % (s,))
                else:
                    R.check(len(T[[]]) == 0, "empty list")
                    R.check(len(T[np.array([], dtype=int)]) == 0,
                            "empty array")
            for a in [None] + list(range(top + 1)):
                for b in [None] + list(range(top + 2)):
                    lo = 0 if a is None else a
                    hi = top + 5 if b is None else b
                    expect(T[a:b], where(range(lo, hi)), 'slice %r:%r' %
                           (a, b))
        elif case['part'] == 'masks':
            for bits in itertools.product((False, True), repeat=n):
                m = np.array(bits)
                expect(T[m], ref[m], 'mask %s' % ''.join(
                    '01'[b] for b in bits))
                if sum(bits) in (1, n // 2):
                    df = pd.DataFrame({'m': m}, index=ref.index)
                    expect(T[df], ref[m], 'frame mask %s' % ''.join(
                        '01'[b] for b in bits))
        else:
            cols = list(ref.columns)
            for c in cols:
                expect(T[c], ref[[c]], 'column ' + c)
            for a, b in itertools.permutations(cols[-4:], 2):
                expect(T[[a, b]], ref[[a, b]], 'columns %s %s' % (a, b))
            for bad in ('nope', ['nope'], [cols[0], 'nope'], 1.5, (1, 2),
                        [1, 'a']):
                with R.raises(ValueError, "key %r" % (bad,)):
                    T[bad]
            for k in range(n + 3):
                expect(T.head(k), ref.iloc[:k], 'head %d' % k)
                if k:
                    expect(T.tail(k), ref.iloc[max(0, n - k):], 'tail %d' % k)
            for a, b in itertools.product([None] + list(range(n + 1)),
                                          repeat=2):
                if a is not None and b is not None and a > b:
                    continue
                for col in (None, cols[:2]):
                    w = ref.iloc[a:b]
                    expect(T.select(start=a, stop=b, columns=col),
                           w if col is None else w[col],
                           'rows %r:%r %r' % (a, b, col))
            for k in ids:
                expect(T.select(where='index == %d' % k, columns=cols[1:2]),
                       where([k])[cols[1:2]], 'where %d' % k)
                expect(T.select(where='index > %d' % k),
                       ref[ref.index > k], 'where > %d' % k)
            sc = 'event' if table == 'history' else 'state_f'
            for v in sorted({x for x in ref[sc] if x is not None}):
                expect(T.select(where="%s == '%s'" % (sc, v)),
                       ref[ref[sc] == v], 'where %s' % v)
            P = Population('pop.h5', chunksize=case['chunk'])
            R.check(P.number_of_systems == len(ids) == len(P), "systems")
            R.check(sorted(P.indices.tolist()) == sorted(ids), "indices")


def worker_init(R):
    import posydon.popsyn.synthetic_population
