"""C08: drawn binaries lie in the requested ranges, for every random number.

The random number generator is replaced by one whose uniform variates are
enumerated, so every branch and every extreme of the samplers is driven.
"""
import itertools

LEVEL = "model_checking"
RULE = ("every setting x every assignment of the variate grid to the first "
        "variates of the draw; distinct by the drawn values")
ASSUMPTIONS = ["variates beyond the enumerated prefix come from a fixed "
               "low-discrepancy sequence",
               "rejection sampling accepts values up to the bound itself"]
NEAR1 = 1.0 - 2.0 ** -53
GRID = [0.0, 0.3, 0.8, NEAR1]
M1 = ['Salpeter', 'Kroupa1993', 'Kroupa2001']
RANGES = [(7.0, 120.0, 0.35, 120.0), (14.9, 15.1, 1.0, 10.0),
          (2.0, 200.0, 1.9, 50.0)]
ORB = [('separation', 'log_uniform', 5.0, 1e5), ('separation', 'log_normal', 10., 1e3),
       ('period', 'Sana+12_period_extended', 0.35, 3162.0),
       ('period', 'Sana+12_period_extended', 3.0, 10.0)]
FB = [('const', 1.0), ('const', 0.0), ('const', 0.6),
      ('Moe+17-massdependent', None)]


def bounds(tier):
    return {"variate_grid": len(GRID), "binaries_per_draw": 2,
            "prefix": 5 if tier == "quick" else 6}


def cases(tier):
    L = bounds(tier)["prefix"]
    combos = []
    for i, (m, r, o, f) in enumerate(itertools.product(
            range(3), range(3), range(4), range(4))):
        combos.append((m, r, o, ('thermal', 'uniform', 'zero')[i % 3], f,
                       ('flat_mass_ratio', 'q=1')[(i // 3) % 5 == 4]))
    for c in combos:
        m, r, o, e, f, q = c
        yield {'m': m, 'r': r, 'o': o, 'e': e, 'f': f, 'q': q, 'L': L,
               'thin': tier == "quick"}


def moe(m):
    return (0.94 if m > 16 else 0.84 if m > 9 else 0.76 if m > 5
            else 0.59 if m > 2 else 0.4)


def execute(case, R):
    import numpy as np

    from mc.rng import ScriptedRNG
    from posydon.popsyn.binarypopulation import BinaryGenerator
    from posydon.popsyn.independent_sample import generate_independent_samples
    m1a, m1b, m2a, m2b = RANGES[case['r']]
    osch, sub, oa, ob = ORB[case['o']]
    kw = dict(primary_mass_scheme=M1[case['m']], primary_mass_min=m1a,
              primary_mass_max=m1b, secondary_mass_min=m2a,
              secondary_mass_max=m2b, secondary_mass_scheme=case['q'],
              eccentricity_scheme=case['e'], orbital_scheme=osch,
              binary_fraction_scheme=FB[case['f']][0],
              binary_fraction_const=FB[case['f']][1])
    if osch == 'separation':
        kw.update(orbital_separation_scheme=sub, orbital_separation_min=oa,
                  orbital_separation_max=ob, log_orbital_separation_mean=1.5,
                  log_orbital_separation_sigma=0.8)
    else:
        kw.update(orbital_period_scheme=sub, orbital_period_min=oa,
                  orbital_period_max=ob)
    eps = 1e-9
    rej = case['o'] >= 2
    # the rejection sampler draws 50000 variates per call: shorter prefixes
    L = case['L'] - (2 if rej and case['thin'] else 1 if rej or case['thin']
                     else 0)

    def inside(x, a, b, what):
        R.check(bool(np.all((x >= a * (1 - eps)) & (x <= b * (1 + eps)))),
                lambda: "%s %r outside [%g, %g]" % (what, x, a, b))

    def verify(orb, ecc, m1, m2, n):
        R.check(len(orb) == len(ecc) == len(m1) == len(m2) == n,
                "number of samples")
        R.check(bool(np.all(np.isfinite(m1))), lambda: "m1 = %r" % (m1,))
        inside(m1, m1a, m1b, "primary mass")
        single = np.isnan(m2)
        R.check(bool(np.all(np.isnan(orb) == single))
                and bool(np.all(np.isnan(ecc) == single)),
                "a single star has an orbit or a binary has none")
        if FB[case['f']] == ('const', 1.0):
            R.check(not single.any(), "single star although all are binaries")
        inside(ecc[~single], 0.0, 1.0, "eccentricity")
        inside(orb[~single], oa, ob, "orbit")
        b = ~single
        if case['q'] == 'q=1':
            R.check(bool(np.all(m2[b] == m1[b])), "mass ratio differs from 1")
        else:
            R.check(bool(np.all(m2[b] >= m2a * (1 - eps)))
                    and bool(np.all(m2[b] <= m2b * (1 + eps)))
                    and bool(np.all(m2[b] <= m1[b] * (1 + eps))),
                    lambda: "secondary mass %r of %r outside [%g, min(m1, %g)]"
                    % (m2, m1, m2a, m2b))
        return single

    for n in (1, 2):
        for sc in itertools.product(GRID, repeat=L if n == 1 else L - 1):
            rng = ScriptedRNG(sc)
            out = generate_independent_samples(number_of_binaries=n, RNG=rng,
                                               **kw)
            verify(*out, n)
            R.step()
            R.outcome([x.tolist() for x in out])
    # the fraction of binaries: with all variates at u, a star is single
    # exactly if u exceeds the binary fraction of its mass
    if not rej:
        for u in [k / 40. + 1e-3 for k in range(40)]:
            out = generate_independent_samples(
                number_of_binaries=2, RNG=ScriptedRNG([u] * 60), **kw)
            for m, s2 in zip(out[2], np.isnan(out[3])):
                f = moe(m) if FB[case['f']][1] is None else FB[case['f']][1]
                R.check(bool(s2) == (u > f), lambda: "u=%g m1=%g fraction=%g:"
                        " single is %r" % (u, m, f, s2))
            R.step()
    # through the generator: units, states, numbering and the binary fraction
    for sc in itertools.product(GRID, repeat=3):
        rng = ScriptedRNG(sc)
        g = BinaryGenerator(RNG=rng, **kw)
        out = g.draw_initial_samples(number_of_binaries=3, **kw)
        m1, m2 = out['S1_mass'], out['S2_mass']
        orb = out['separation' if osch == 'separation' else 'orbital_period']
        single = verify(orb, out['eccentricity'], m1, m2, 3)
        R.eq(list(out['binary_index']), [0, 1, 2], "indices")
        R.eq(list(out['is_binary']), list(~single), "is_binary")
        a, P = out['separation'][~single], out['orbital_period'][~single]
        ref = (6.67430e-8 * (m1 + m2)[~single] * 1.98841e33 *
               (P * 86400.) ** 2 / (4 * np.pi ** 2)) ** (1 / 3.) / 6.957e10
        R.check(bool(np.all(abs(a / ref - 1) < 2e-3)),
                lambda: "separation %r does not match the period (%r)" %
                (a, ref))
        b = g.draw_initial_binary(**kw)
        R.eq(int(b.index), 3, "index of the next binary")
        s = b.state == 'initially_single_star'
        R.check(s or b.state == 'detached', "initial state %r" % b.state)
        R.eq((b.event, b.star_1.state, b.star_2.state),
             ('ZAMS', 'H-rich_Core_H_burning', 'massless_remnant' if s else
              'H-rich_Core_H_burning'), "initial labels")
        R.check((b.star_2.mass == 0 or b.star_2.mass != b.star_2.mass)
                if s else b.star_2.mass > 0,
                lambda: "secondary mass %r" % b.star_2.mass)
        R.step(2)
        R.state(case['o'], case['f'], tuple(single), s)


def worker_init(R):
    import posydon.popsyn.binarypopulation
