"""C07: the initial population is a function of seed, settings and layout."""
import itertools

LEVEL = "model_checking"
RULE = ("every (seed, metallicity, layout, settings, population size) within "
        "the bounds; each population is built and drawn several times with "
        "interleaved other draws; distinct by the drawn population")
ASSUMPTIONS = ["an MPI communicator is replaced by an object answering rank "
               "and size"]
SCH = [dict(orbital_scheme='separation', eccentricity_scheme='thermal'),
       dict(orbital_scheme='period', eccentricity_scheme='zero',
            primary_mass_scheme='Kroupa2001'),
       dict(orbital_scheme='period', eccentricity_scheme='uniform',
            binary_fraction_const=0.5, star_formation='constant',
            primary_mass_min=14.0),
       dict(orbital_scheme='separation', orbital_separation_scheme='log_normal',
            log_orbital_separation_mean=2.0, log_orbital_separation_sigma=1.0,
            binary_fraction_scheme='Moe+17-massdependent',
            primary_mass_scheme='Kroupa1993', secondary_mass_scheme='q=1')]


def bounds(tier):
    return {"max_draws": 4 if tier == "quick" else 8,
            "max_size": 3 if tier == "quick" else 5, "settings": len(SCH)}


def layouts(tier):
    m = bounds(tier)["max_size"]
    yield ('serial', 1, 0)
    for kind in ('job', 'mpi'):
        for size in range(1, m + 1):
            for rank in range(size):
                yield (kind, size, rank)


def cases(tier):
    seeds = (0, 42) if tier == "quick" else (0, 1, 42, 10**9)
    for s, seed, lay, zi in itertools.product(range(len(SCH)), seeds,
                                              layouts(tier), (0, 1)):
        yield {'kind': 'same', 'sch': s, 'seed': seed, 'lay': lay, 'zi': zi,
               'tier': tier}
    for s, seed in itertools.product(range(len(SCH)), seeds):
        yield {'kind': 'streams', 'sch': s, 'seed': seed, 'tier': tier}


def make(case, lay=None, zi=None, seed=None, log=None):
    from mc import popstub as P
    kind, size, rank = lay or case['lay']
    zi = case['zi'] if zi is None else zi
    seed = case['seed'] if seed is None else seed
    zs = [1.0, 0.1]
    kw = dict(SCH[case['sch']], metallicities=zs, metallicity=zs[zi])
    if kind == 'job':
        kw.update(JOB_ID=1000 + seed, RANK=rank, size=size, entropy=None)
    else:
        kw['entropy'] = seed
        if kind == 'mpi':
            class Comm:
                def Get_rank(self):
                    return rank

                def Get_size(self):
                    return size
            kw['comm'] = Comm()
    return P.make_pop({}, 6, log=log, **kw)


def key(b, idx=True):
    v = (b.state, b.event, b.time, b.separation, b.orbital_period,
         b.eccentricity, b.star_1.mass, b.star_2.mass, b.star_1.state,
         b.star_2.state, b.star_1.metallicity, b.star_2.metallicity)
    v = tuple(None if isinstance(x, float) and x != x else x for x in v)
    return ((int(b.index),) if idx else ()) + v


def draw(pop, n, start=0):
    return [key(pop.manager.generate(index=start + i, **pop.kwargs))
            for i in range(n)]


def execute(case, R):
    import numpy as np
    nd = bounds(case['tier'])["max_draws"]
    if case['kind'] == 'streams':
        # all processes and metallicities that are meant to be independent
        for kind in ('job', 'mpi'):
            seen = {}
            for lay in layouts(case['tier']):
                if lay[0] != kind or lay[1] != bounds(case['tier'])["max_size"]:
                    continue
                for zi in (0, 1):
                    d = draw(make(case, lay, zi), 2)
                    R.step(2)
                    for i, b in enumerate(d):
                        k = b[7]
                        R.check(k not in seen, lambda: "%s: process/metallicity"
                                " %r draws the binary of %r" %
                                (kind, (lay, zi, i), seen.get(k)))
                        seen[k] = (lay, zi, i)
                        R.outcome(kind, lay, zi, b)
        a = draw(make(case, ('serial', 1, 0), 0), 2)
        b = draw(make(case, ('serial', 1, 0), 0, seed=case['seed'] + 1), 2)
        R.check(a[0][7] != b[0][7], "different seeds draw the same binaries")
        return
    np.random.seed(1)
    p1 = make(case)
    want = draw(p1, nd)
    R.step(nd)
    R.outcome(case['lay'], case['zi'], want)
    # a second instance, with unrelated random numbers drawn meanwhile
    np.random.seed(2)
    p2 = make(case)
    other = make(dict(case, seed=case['seed'] + 5))
    got = []
    for i in range(nd):
        np.random.uniform(size=3)
        other.manager.generate(index=i, **other.kwargs)
        got.append(draw(p2, 1, i)[0])
    R.step(2 * nd)
    R.eq(got, want, "second run with the same seed")
    R.eq(p2.entropy, p1.entropy, "stored entropy")
    # every metallicity index/kind keeps the requested metallicity
    z = [1.0, 0.1][case['zi']]
    R.check(all(b[11] == z for b in want), "metallicity of the drawn stars")
    # replaying the generator of the same process
    g = p2.manager.binary_generator
    state = repr(g.RNG.bit_generator.state)
    kw = {k: v for k, v in p2.kwargs.items() if k not in ('RNG', 'index')}
    for n in range(1, nd + 1):
        b = g.get_binary_by_iter(n=n, **kw)
        R.step(n)
        R.eq(key(b, False), want[n - 1][1:], "binary of draw %d" % n)
    R.eq(repr(g.RNG.bit_generator.state), state,
         "looking up a drawn binary changes the later draws")
    g.reset_rng()
    again = [key(g.draw_initial_binary(**kw)) for _ in range(nd)]
    R.eq(again, want, "draws after resetting the generator")
    R.step(nd)
    # the evolution uses the generator of the population
    seen = []

    from mc import popstub as P

    class Step(P.Stub):
        DEFAULT_KWARGS = {'RNG': None}

        def __init__(self, RNG=None, **k):
            P.Stub.__init__(self)
            self.RNG = RNG

        def __call__(self, binary):
            seen.append((int(binary.index), self.RNG.uniform()))
            P.Stub.__call__(self, binary)
    runs = []
    for _ in range(2):
        seen.clear()
        p = make(case)
        for n in P.NAMES:
            p.population_properties.kwargs[n] = (Step, {})
        with R.tmp() as d:
            p.kwargs['temp_directory'] = d
            p.evolve(optimize_ram=False, breakdown_to_df=False)
        runs.append((list(seen), [key(b) for b in p.manager.binaries]))
        R.step(len(seen))
    R.eq(runs[1], runs[0], "evolution of a second run with the same seed")
    R.check(len(set(u for _, u in runs[0][0])) == len(runs[0][0]),
            "random numbers repeat between steps")
