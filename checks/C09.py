"""C09: populations read from a file use exactly the rows of the file."""
import itertools

LEVEL = "model_checking"
RULE = ("every column naming, column subset, file length, start index and "
        "request size within the bounds; distinct by file and request")
ASSUMPTIONS = []
NAMES = {
    'm1': ['s1_mass', 'primary_mass', 'mass_1', 'm_1', 'm1'],
    'm2': ['s2_mass', 'secondary_mass', 'mass_2', 'm_2', 'm2'],
    'P': ['orbital_period', 'period', 'p_orb', 'porb', 'p'],
    'a': ['orbital_separation', 'separation', 'semi-major_axis',
          'semi_major_axis', 'a'],
    'e': ['eccentricity', 'ecc', 'e'],
    'w1': ['s1_natal_kick_velocity', 's1_natal_kick_array_0', 'w_1', 'w1'],
    'w2': ['s2_natal_kick_velocity', 's2_natal_kick_array_0', 'w_2', 'w2'],
    'f1': ['s1_natal_kick_azimuthal_angle', 's1_natal_kick_array_1', 'phi_1',
           'phi1'],
    'f2': ['s2_natal_kick_azimuthal_angle', 's2_natal_kick_array_1', 'phi_2',
           'phi2'],
    't1': ['s1_natal_kick_polar_angle', 's1_natal_kick_array_2', 'theta_1',
           'theta1'],
    't2': ['s2_natal_kick_polar_angle', 's2_natal_kick_array_2', 'theta_2',
           'theta2'],
    'M1': ['s1_natal_kick_mean_anomaly', 's1_natal_kick_array_3',
           'mean_anomaly_1', 'mean_anomaly1'],
    'M2': ['s2_natal_kick_mean_anomaly', 's2_natal_kick_array_3',
           'mean_anomaly_2', 'mean_anomaly2'],
}
Q = list(NAMES)
KICK = ['w1', 'f1', 't1', 'M1', 'w2', 'f2', 't2', 'M2']


def bounds(tier):
    return {"max_rows": 3 if tier == "quick" else 5,
            "max_index": 7 if tier == "quick" else 12, "max_request": 3}


def cases(tier):
    b = bounds(tier)
    for sch in ('separation', 'period'):
        # all names of each quantity, in three spellings
        for q in Q:
            for nm in NAMES[q]:
                for sp in (0, 1, 2):
                    yield {'kind': 'names', 'sch': sch, 'q': q, 'nm': nm,
                           'sp': sp}
        # all pairs of synonyms of one quantity in the same file
        for q in Q:
            for i, j in itertools.permutations(range(len(NAMES[q])), 2):
                yield {'kind': 'both', 'sch': sch, 'q': q, 'i': i, 'j': j}
        for n in range(0, b["max_rows"] + 1):
            yield {'kind': 'rows', 'sch': sch, 'n': n, 'tier': tier}
        for r in range(0, len(Q) + 1):
            if r in (0, 1, 2, len(Q) - 1, len(Q)):
                for miss in itertools.combinations(Q, r):
                    yield {'kind': 'missing', 'sch': sch, 'miss': list(miss)}


def value(q, i):
    base = {'m1': 30.0, 'm2': 10.0, 'P': 5.0, 'a': 50.0, 'e': 0.125,
            'w1': 100., 'w2': 200., 'f1': 1., 'f2': 2., 't1': 0.25, 't2': 0.75,
            'M1': 3., 'M2': 4.}[q]
    return base * (1 + 0.125 * i)


def write(path, cols, n):
    """cols: list of (header, quantity, offset)."""
    with open(path, 'w') as f:
        f.write(",".join(c[0] for c in cols) + "\n")
        for i in range(n):
            f.write(",".join(repr(value(c[1], i + c[2])) for c in cols) + "\n")


def spell(nm, sp):
    return [nm, nm.upper(), nm.title()][sp]


def execute(case, R):
    import numpy as np

    from posydon.popsyn.binarypopulation import BinaryGenerator
    from posydon.popsyn.sample_from_file import (get_kick_samples_from_file,
                                                 get_samples_from_file)
    sch = case['sch']
    orb = 'a' if sch == 'separation' else 'P'
    n = case.get('n', 3)
    miss = set(case.get('miss', []))
    cols = []
    for q in Q:
        if q in miss:
            continue
        if case['kind'] == 'names' and q == case['q']:
            cols.append((spell(case['nm'], case['sp']), q, 0))
        elif case['kind'] == 'both' and q == case['q']:
            # the first name of the documented order wins
            lo = min(case['i'], case['j'])
            for k in (case['i'], case['j']):
                cols.append((NAMES[q][k], q, 0 if k == lo else 40))
        else:
            cols.append((NAMES[q][0], q, 0))
    cols = cols[3:] + cols[:3]
    if not cols:
        cols = [('unrelated', 'm1', 0)]
    with R.tmp() as d:
        path = d + '/s.csv'
        write(path, cols, n)
        kw = dict(read_samples_from_file=path, orbital_scheme=sch,
                  RNG=np.random.default_rng(3))
        if n == 0:
            with R.raises(ValueError, "file without rows"):
                get_samples_from_file(number_of_binaries=1, **kw)
            with R.raises(ValueError, "file without rows (kicks)"):
                get_kick_samples_from_file(number_of_binaries=1, **kw)
            R.step(2)
            return
        if case['kind'] == 'rows':
            b = bounds(case['tier'])
            req = [(i, k) for i in range(b["max_index"] + 1)
                   for k in range(1, b["max_request"] + 1)]
        else:
            req = [(0, 3), (2, 2)]
        for i, k in req:
            rows = [(i + j) % n for j in range(k)]
            o, e, m1, m2 = get_samples_from_file(number_of_binaries=k,
                                                 index=i, **kw)
            k1, k2 = get_kick_samples_from_file(number_of_binaries=k, index=i,
                                                **kw)
            R.step(2)
            for q, got in ((orb, o), ('e', e), ('m1', m1), ('m2', m2)):
                if q in miss:
                    R.check(len(got) == k and np.all(np.isfinite(got)),
                            "drawn %s" % q)
                    continue
                R.eq([float(x) for x in got], [value(q, r) for r in rows],
                     "%s for index %d, %d requested, %d rows" % (q, i, k, n))
            if 'm2' in miss and not ('m1' in miss):
                R.check(bool(np.all(m2 <= m1)), "drawn m2 exceeds m1")
            for qs, got in ((KICK[:4], k1), (KICK[4:], k2)):
                R.eq(list(np.shape(got)), [k, 4], "shape of the kicks")
                for c, q in enumerate(qs):
                    want = [None if q in miss else value(q, r) for r in rows]
                    R.eq([x if x is None else float(x) for x in got[:, c]],
                         want, "%s of rows %r" % (q, rows))
            # the same rows reach the binary
            g = BinaryGenerator(sampler=get_samples_from_file, **kw)
            kk = {x: v for x, v in kw.items() if x != 'RNG'}
            bin_ = g.draw_initial_binary(index=i, **kk)
            R.step()
            s1, s2 = bin_.star_1, bin_.star_2
            got = {'m1': s1.mass, 'm2': s2.mass, 'e': bin_.eccentricity,
                   orb: bin_.separation if orb == 'a' else
                   bin_.orbital_period,
                   'w1': s1.natal_kick_velocity,
                   'f1': s1.natal_kick_azimuthal_angle,
                   't1': s1.natal_kick_polar_angle,
                   'M1': s1.natal_kick_mean_anomaly,
                   'w2': s2.natal_kick_velocity,
                   'f2': s2.natal_kick_azimuthal_angle,
                   't2': s2.natal_kick_polar_angle,
                   'M2': s2.natal_kick_mean_anomaly}
            R.eq(int(bin_.index), i, "index of the binary")
            for q, v in got.items():
                if q in miss:
                    if q in KICK:
                        R.check(v is None, "%s should be unset" % q)
                else:
                    R.eq(float(v), value(q, i % n), "%s of binary %d" % (q, i))
            R.outcome(case['kind'], sch, i, k, n, sorted(miss),
                      case.get('q'), case.get('nm'), case.get('i'),
                      case.get('j'), case.get('sp'))


def worker_init(R):
    import posydon.popsyn.binarypopulation
