"""C11: exporting a selection writes exactly the selected systems."""
import itertools

LEVEL = "model_checking"
RULE = ("every ordered selection x chunk sizes x layout, and every sequence of "
        "up to 3 exports (new, overwrite, append) from up to 2 populations; "
        "distinct by resulting file content")
ASSUMPTIONS = ["reference: list of source systems in the order of export; "
               "the simulated mass of every export is added (the file does "
               "not record where systems came from)"]

LAYOUTS = {
    'sorted': [(0, 'rlo'), (1, 'single'), (2, 'ce'), (3, 'contact')],
    'mixed': [(5, 'ce'), (2, 'one'), (9, 'reverse'), (3, 'single')],
    'small': [(4, 'nomt')],
    'sparse': [(11, 'rlo'), (0, 'contact'), (1, 'one')],
}
SECOND = [(0, 'initmt'), (1, 'heredir'), (7, 'rlo')]


def bounds(tier):
    return {"selection_length": 3 if tier == "quick" else 4,
            "chunk_sizes": [1, 2, 100], "exports_in_sequence": 2 if
            tier == "quick" else 3}


def cases(tier):
    b = bounds(tier)
    for name, lay in LAYOUTS.items():
        if name == 'sparse':
            continue
        ids = [i for i, _ in lay]
        for r in range(1, b["selection_length"] + 1):
            for sel in itertools.permutations(ids, r):
                for ch, hc in ((1, 1), (2, 1), (1, 2), (100, 2), (100, 100)):
                    if tier == "quick" and r == 3 and (ch, hc) in (
                            (1, 1), (100, 100)):
                        continue
                    yield {'kind': 'sel', 'lay': name, 'sel': list(sel),
                           'chunk': ch, 'hchunk': hc}
    # histories of exports: source, selection, mode
    ops = []
    full = tier != "quick"
    for src, sels in (('A', [[2], [3, 0]] + [[0, 1, 2, 3]] * full),
                      ('B', [[7]] * full + [[7, 1]])):
        for sel in sels:
            for mode in ('append', 'overwrite', 'new'):
                ops.append([src, sel, mode])
    n = b["exports_in_sequence"]
    for mets in ('same', 'two', 'multi', 'nocol'):
        for chan in (False, True):
            if not full and chan != (mets in ('same', 'multi')):
                continue
            for L in range(1, n + 1):
                for seq in itertools.product(ops, repeat=L):
                    # keep what differs from shorter histories
                    if L == 3 and (seq[0][2] != 'new' or seq[1][2] == 'new'):
                        continue
                    if L == 2 and seq[0][2] == 'overwrite':
                        continue
                    yield {'kind': 'seq', 'mets': mets, 'chan': chan,
                           'seq': list(seq)}
                    # onto a population whose indices are in any order
                    if ((L == 1 or full) and mets != 'nocol'
                            and seq[0][2] != 'overwrite'):
                        for start in ('mixed', 'small', 'sparse'):
                            yield {'kind': 'seq', 'mets': mets, 'chan': chan,
                                   'seq': list(seq), 'start': start}


def content(path):
    """{index: (oneline row, history rows, channel, length)} of a file."""
    import pandas as pd
    with pd.HDFStore(path, mode='r') as st:
        o, h = st['oneline'], st['history']
        ch = (st['formation_channels'] if '/formation_channels' in st.keys()
              else None)
        ln = st['history_lengths']
        mass = st['mass_per_metallicity']
        ini = st['ini_parameters']
    return o, h, ch, ln, mass, ini


def clean(x):
    import pandas as pd
    return None if pd.isna(x) else x


def compare(R, path, want, masses, chan, what):
    """want: list of (new index, oneline dict, history rows, channel)."""
    o, h, ch, ln, mass, ini = content(path)
    R.step()
    want = sorted(want, key=lambda w: w[0])
    R.check(sorted(o.index) == [w[0] for w in want], lambda: "%s: one-line "
            "systems %r, want %r" % (what, list(o.index),
                                     [w[0] for w in want]))
    R.check(sorted(set(h.index)) == [w[0] for w in want], lambda: "%s: "
            "history systems %r" % (what, sorted(set(h.index))))
    R.check(sorted(ln.index) == [w[0] for w in want], lambda: "%s: length "
            "table of systems %r" % (what, list(ln.index)))
    for ix, orow, hrows, channel in want:
        if ix not in o.index or ix not in h.index or ix not in ln.index:
            continue
        got = {c: clean(v) for c, v in o.loc[[ix]].iloc[0].items()}
        R.check(got == orow, lambda: "%s: one-line row of system %d: %r, "
                "want %r" % (what, ix, got, orow))
        gh = [tuple(clean(v) for v in r) for r in h.loc[[ix]].values.tolist()]
        R.check(gh == hrows, lambda: "%s: history of system %d: %r, want %r"
                % (what, ix, gh, hrows))
        R.check(int(ln.loc[ix].iloc[0]) == len(hrows), lambda: "%s: history "
                "length of system %d" % (what, ix))
        if chan:
            got = tuple(ch.loc[ix, ['channel_debug', 'channel']])
            R.check(got == channel, lambda: "%s: channel of system %d: %r, "
                    "want %r" % (what, ix, got, channel))
    if chan:
        R.check(sorted(ch.index) == [w[0] for w in want], "%s: systems with "
                "channel %r" % (what, list(ch.index)))
    # the tables list the systems in the same order
    dd = lambda xs: list(dict.fromkeys(xs))
    R.check(dd(h.index) == list(o.index) == list(ln.index), lambda: "%s: "
            "tables in different order: %r %r %r" % (what, dd(h.index),
                                                     list(o.index),
                                                     list(ln.index)))
    got = {float(m): tuple(float(x) for x in r) for m, r in
           zip(mass.index, mass.values.tolist())}
    R.check(got == masses, lambda: "%s: masses %r, want %r" %
            (what, got, masses))
    R.outcome(what, [w[0] for w in want], sorted(masses.items()))


def rows(h, o, ix, met):
    orow = {c: clean(v) for c, v in o.loc[ix].items()}
    if 'metallicity' not in orow:
        orow['metallicity'] = met
    hrows = [tuple(clean(v) for v in r) for r in h.loc[[ix]].values.tolist()]
    return orow, hrows


def execute(case, R):
    import os
    import shutil
    from mc import popfile as F
    from posydon.popsyn.synthetic_population import Population
    from posydon.utils.constants import Zsun
    with R.tmp() as d:
        if case['kind'] == 'sel':
            lay = LAYOUTS[case['lay']]
            h, o, t = F.write('a.h5', lay)
            P = Population('a.h5', chunksize=case['chunk'])
            P.export_selection(case['sel'], 'out.h5',
                               history_chunksize=case['hchunk'])
            want = []
            for j, ix in enumerate(case['sel']):
                want.append((j,) + rows(h, o, ix, 1.0) + (None,))
            compare(R, 'out.h5', want, {1.0: (1000., 400., 600.,
                                              len(case['sel']))}, False,
                    "selection %r" % case['sel'])
            # the result is a usable population
            Q = Population('out.h5', chunksize=case['chunk'])
            Q.calculate_formation_channels(mt_history=True)
            kinds = dict(lay)
            for j, ix in enumerate(case['sel']):
                got = tuple(Q.formation_channels.loc[
                    j, ['channel_debug', 'channel']])
                R.check(got == F.channel_model(kinds[ix]), lambda: "channel "
                        "of exported system %d: %r" % (j, got))
            return
        mets = case['mets']
        spec = {'A': (LAYOUTS['sorted'], None), 'B': (SECOND, None)}
        if mets == 'two':
            spec['B'] = (SECOND, [0.1])
        if mets == 'multi':
            spec = {'A': (LAYOUTS['sorted'], [1.0, 0.01]),
                    'B': (SECOND, [0.1, 1.0])}
        pops, src = {}, {}
        for k, (lay, m) in spec.items():
            h, o, t = F.write(k + '.h5', lay, mets=m,
                              met_col=mets != 'nocol')
            pops[k] = Population(k + '.h5', chunksize=2)
            if case['chan']:
                pops[k].calculate_formation_channels(mt_history=True)
            src[k] = (dict(lay), h, o, t, os.path.getsize(k + '.h5'))
        model, masses, exists = [], {}, False
        if 'start' in case:
            lay = LAYOUTS[case['start']]
            h, o, t = F.write('out.h5', lay, mets=spec['A'][1],
                              met_col=mets != 'nocol')
            T = Population('out.h5')
            if case['chan']:
                T.calculate_formation_channels(mt_history=True)
            masses = {float(m): tuple(r) for m, r in
                      zip(t.index, t.values.tolist())}
            model = [(ix,) + rows(h, o, ix, 1.0) + (F.channel_model(k),)
                     for ix, k in lay]
            exists = True
        for s, sel, mode in case['seq']:
            kinds, h, o, t, _ = src[s]
            kw = {'append': dict(append=True), 'overwrite':
                  dict(overwrite=True), 'new': {}}[mode]
            if mode == 'new' and exists:
                with R.raises(FileExistsError, "existing file"):
                    pops[s].export_selection(sel, 'out.h5', **kw)
                compare(R, 'out.h5', model, masses, case['chan'],
                        "after a refused export")
                continue
            if mode != 'append':
                model, masses = [], {}
            pops[s].export_selection(sel, 'out.h5', history_chunksize=1, **kw)
            off = 1 + max((w[0] for w in model), default=-1)
            for j, ix in enumerate(sel):
                model.append((off + j,) + rows(h, o, ix, float(t.index[0])) +
                             (F.channel_model(kinds[ix]),))
            for m, r in zip(t.index, t.values.tolist()):
                n = sum(1 for w in model[-len(sel):]
                        if w[1]['metallicity'] == m)
                old = masses.get(float(m), (0, 0, 0, 0))
                masses[float(m)] = tuple(a + b for a, b in zip(
                    old, (r[0], r[1], r[2], n)))
            exists = True
            compare(R, 'out.h5', model, masses, case['chan'],
                    "%s" % (case['seq'],))
        # the exported populations themselves are as before
        for k, (kinds, h, o, t, size) in src.items():
            R.check(F.same(pops[k].mass_per_metallicity, t), lambda:
                    "exporting changed the masses of population %s: %r" %
                    (k, pops[k].mass_per_metallicity.to_dict()))
            R.check(F.same(pops[k].history[:], h) and
                    F.same(pops[k].oneline[:], o), "source tables changed")
            R.check(os.path.getsize(k + '.h5') == size, "source changed")
        Q = Population('out.h5')
        R.check(sorted(Q.solar_metallicities) == sorted(masses),
                "metallicities of the exported population")


def worker_init(R):
    import posydon.popsyn.synthetic_population
