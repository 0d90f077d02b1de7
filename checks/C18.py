"""C18: the configuration of a run reaches its steps and hooks."""
import itertools
import json
import math

LEVEL = "model_checking"
RULE = ("every stack of up to two inifiles over small sets of sections and "
        "values; every numbering and form of the hooks; every sequence of "
        "loading calls over steps, metallicities and options; every rank of "
        "every job array; every order of saving and loading configurations; "
        "distinct by resulting configuration")
ASSUMPTIONS = ["the tracks behind a matcher are replaced by an object that "
               "records the file it was opened for",
               "an inifile gives the values as python literals"]

STEPS = ['step_HMS_HMS', 'step_CO_HeMS', 'step_CO_HMS_RLO',
         'step_CO_HeMS_RLO', 'step_detached', 'step_disrupted', 'step_merged',
         'step_initially_single', 'step_dco', 'step_SN', 'step_CE',
         'step_end']
VALUES = ['1', '-2.5e-3', 'None', 'True', "'a, b'", '[1, None, "x"]',
          "{'k': (1, 2)}", "'%d'"]
MODULE = '''
class Base:
    DEFAULT_KWARGS = {}
    def __init__(self, **kw):
        self.kw = kw
class WithZ(Base):
    DEFAULT_KWARGS = {'metallicity': None, 'a': 0}
class WithMatcher(Base):
    DEFAULT_KWARGS = {'metallicity': None, 'track_matcher': None, 'a': 0}
class WithRNG(Base):
    DEFAULT_KWARGS = {'RNG': None}
class Picky:
    DEFAULT_KWARGS = {'a': 1}
    def __init__(self, a=1):
        self.kw = {'a': a}
def flow(**kw):
    return {'flow': kw}
class HookA(Base):
    pass
class HookB(Base):
    pass
'''


def bounds(tier):
    q = tier == 'quick'
    return {'files': 2, 'hooks': 3, 'loads': 3 if q else 4,
            'ranks': 4 if q else 6, 'config_ops': 3 if q else 4}


def cases(tier):
    b = bounds(tier)
    for n in (1, 2):
        for v in range(len(VALUES)):
            for o in range(4):
                yield {'kind': 'ini', 'n': n, 'v': v, 'over': o}
    for r in range(0, b['hooks'] + 1):
        for nums in itertools.permutations((1, 2, 4, 11)[:3 if tier ==
                                           'quick' else 4], r):
            for forms in itertools.product(range(6), repeat=r):
                if r == 3 and tier == 'quick' and sum(forms) % 5:
                    continue
                yield {'kind': 'hooks', 'nums': list(nums),
                       'forms': list(forms)}
    ops = ([['all', z] for z in (None, 1.0, 0.1)] +
           [['one', s, z] for s in ('step_detached', 'step_CE')
            for z in (None, 0.1)] + [['opt', 0.1], ['ini', 1.0]])
    for cfg in range(4):
        for k in range(1, b['loads'] + 1):
            for seq in itertools.product(range(len(ops)), repeat=k - 1):
                # the last calls of all the histories of one prefix at once
                yield {'kind': 'load', 'cfg': cfg,
                       'seq': [ops[i] for i in seq], 'ops': ops}
    for size in range(1, b['ranks'] + 1):
        yield {'kind': 'pop', 'size': size}
    for k in range(1, b['config_ops'] + 1):
        for first in range(6):
            yield {'kind': 'cfg', 'k': k, 'first': first}
    yield {'kind': 'missing'}


# ---- inifiles ---------------------------------------------------------------
def write(name, sections):
    with open(name, 'w') as f:
        for s, opts in sections:
            f.write('[%s]\n' % s)
            for k, v in opts:
                f.write('  %s = %s\n    # explained\n' % (k, v))
            f.write('\n')
    return name


def ini(case, R):
    import ast
    import sys

    from posydon.popsyn.io import simprop_kwargs_from_ini
    from posydon.binary_evol.simulationproperties import SimulationProperties
    with R.tmp() as d:
        with open('c18mod.py', 'w') as f:
            f.write(MODULE)
        sys.path.insert(0, d)
        sys.modules.pop('c18mod', None)
        try:
            val = VALUES[case['v']].replace('%', '%%')
            lit = ast.literal_eval(VALUES[case['v']])
            over = case['over']
            A = [('flow', [('import', "['c18mod', 'flow']"),
                           ('absolute_import', 'None'), ('Aa', val),
                           ('aA', '2')]),
                 ('step_SN', [('import', "['c18mod', 'Base']"), ('x', '1'),
                              ('y', val)]),
                 ('step_CE', [('import', "['nowhere', 'Nothing']"),
                              ('absolute_import', "['%s/c18mod.py', 'WithZ']"
                               % d), ('a', val)]),
                 ('grid_paths', [('HMS_HMS_path', "'%s/my_grid'" % d),
                                 ('CO_HeMS_path', 'None')]),
                 ('BinaryPopulation_options', [('metallicity', '[1.0]')])]
            want = {'flow': ('flow', {'Aa': lit, 'aA': 2}),
                    'step_SN': ('Base', {'x': 1, 'y': lit}),
                    'step_CE': ('WithZ', {'a': lit})}
            paths = {'HMS_HMS_path': d + '/my_grid', 'CO_HeMS_path': None}
            files = [write('a.ini', A)]
            if case['n'] == 2:
                B = [('step_SN', [('y', '77')] if over & 1 else [('z', '3')]),
                     ('step_dco', [('import', "['c18mod', 'Base']")])]
                if over & 2:
                    B.append(('grid_paths', [('CO_HeMS_path', "'rel'")]))
                    paths['CO_HeMS_path'] = 'rel'
                files.append(write('b.ini', B))
                want['step_SN'][1].update({'y': 77} if over & 1 else {'z': 3})
                want['step_dco'] = ('Base', {})
            src = files[0] if case['n'] == 1 else files
            got = simprop_kwargs_from_ini(src)
            R.step()
            R.state('ini', case['n'], case['v'], over)
            tag = 'inifiles with %s (%d)' % (val, over)
            R.check(set(got) == set(want) | set(paths),
                    '%s: entries %r' % (tag, sorted(got)))
            for s, (name, kw) in want.items():
                R.check(got[s][0].__name__ == name and got[s][1] == kw,
                        '%s: %s is %r' % (tag, s, got[s]))
            for p, v in paths.items():
                R.check(got[p] == v, '%s: %s is %r' % (tag, p, got[p]))
            for s in want:
                one = simprop_kwargs_from_ini(src, only=s)
                R.step()
                R.check(list(one) == [s] and one[s][1] == want[s][1],
                        '%s: only %s gives %r' % (tag, s, one))
            import os
            sim = SimulationProperties.from_ini(src)
            from posydon.config import PATH_TO_POSYDON_DATA
            R.step()
            R.check(sim.HMS_HMS_path == os.path.realpath(d) + '/my_grid' or
                    sim.HMS_HMS_path == d + '/my_grid',
                    '%s: path %r' % (tag, sim.HMS_HMS_path))
            w = (os.path.abspath('rel') if paths['CO_HeMS_path'] else
                 os.path.join(PATH_TO_POSYDON_DATA, 'CO-HeMS'))
            R.check(sim.CO_HeMS_path == w, '%s: path %r instead of %r' % (
                tag, sim.CO_HeMS_path, w))
            R.check(sim.single_HeMS_path == os.path.join(
                PATH_TO_POSYDON_DATA, 'single_HeMS'),
                '%s: path %r' % (tag, sim.single_HeMS_path))
            R.check(not sim.steps_loaded, tag + ': already loaded')
            sim = SimulationProperties.from_ini(
                src, step_SN=(got['step_SN'][0], {'mine': 1}),
                metallicity=0.2, load_steps=True)
            R.check(sim.step_SN.kw == {'mine': 1}, tag + ': override')
            R.check(sim.step_CE.kw['metallicity'] == 0.2 and
                    sim.step_CE.kw['a'] == lit, '%s: loaded %r' % (
                        tag, sim.step_CE.kw))
            R.check(sim.flow == {'flow': {'Aa': lit, 'aA': 2}},
                    tag + ': flow %r' % (sim.flow,))
        finally:
            sys.path.remove(d)
            sys.modules.pop('c18mod', None)


# ---- hooks ------------------------------------------------------------------
FORMS = [  # absolute import given (None: no line), kwargs given, class
    (None, None, 'HookA'), ('None', None, 'HookB'), ('None', "{'v': %d}",
                                                     'HookA'),
    (None, "{'v': %d}", 'HookB'), ('user', None, 'HookB'),
    ('user', "{'v': %d}", 'HookA')]


def hooks(case, R):
    import sys

    from posydon.binary_evol.simulationproperties import SimulationProperties
    from posydon.popsyn.io import simprop_kwargs_from_ini
    with R.tmp() as d:
        with open('c18mod.py', 'w') as f:
            f.write(MODULE)
        with open('mine.py', 'w') as f:
            f.write(MODULE + "\nHookA.mine = HookB.mine = True\n")
        sys.path.insert(0, d)
        sys.modules.pop('c18mod', None)
        try:
            opts, want = [], {}
            for num, form in zip(case['nums'], case['forms']):
                ab, kw, cls = FORMS[form]
                opts.append(('import_%d' % num, "['c18mod', '%s']" % cls))
                name = cls
                if ab == 'user':
                    name = 'HookB' if cls == 'HookA' else 'HookA'
                    opts.append(('absolute_import_%d' % num,
                                 "['%s/mine.py', '%s']" % (d, name)))
                elif ab:
                    opts.append(('absolute_import_%d' % num, ab))
                if kw:
                    opts.append(('kwargs_%d' % num, kw % num))
                want[num] = (name, ab == 'user', {'v': num} if kw else {})
            write('h.ini', [('extra_hooks', opts)])
            got = simprop_kwargs_from_ini('h.ini')['extra_hooks']
            R.step()
            R.state('hooks', tuple(case['nums']), tuple(case['forms']))
            tag = 'hooks %r' % opts
            w = [want[n] for n in sorted(want)]
            g = [(c.__name__, getattr(c, 'mine', False), k) for c, k in got]
            R.check(g == w, '%s: got %r instead of %r' % (tag, g, w))
            sim = SimulationProperties(extra_hooks=got)
            g = [(type(h).__name__, h.kw) for h in
                 sim.all_hooks_classes[1:]]
            R.check(g == [(a, c) for a, _, c in w], '%s: objects %r' % (tag,
                                                                        g))
        finally:
            sys.path.remove(d)
            sys.modules.pop('c18mod', None)


# ---- loading the steps --------------------------------------------------------
class FakeGrid:
    def __init__(self, path):
        self.path = path
        self.open = True
        self.grid_mass = [1.0]

    def close(self):
        self.open = False


def fake_matcher():
    from posydon.binary_evol.track_match import TrackMatcher

    class FakeMatcher(TrackMatcher):
        def __init__(self, **kw):
            self.kwargs = kw
            for k, v in kw.items():
                setattr(self, k, v)
    return FakeMatcher


CFG = [
    {},
    {'step_CO_HeMS': {'metallicity': 0.01}},
    {'step_detached': {'matching_method': 'root', 'matching_tolerance': 0.5,
                       'a': 5}, 'step_CE': {'metallicity': 0.1}},
    {s: {'metallicity': 0.2} for s in STEPS[:8]},
]


def load(case, R):
    import copy
    import types

    import numpy as np
    import posydon.binary_evol.simulationproperties as SP
    ns = {}
    exec(MODULE, ns)
    kinds = {s: 'WithZ' for s in STEPS[:4]}
    kinds.update({s: 'WithMatcher' for s in STEPS[4:8]})
    kinds.update({'step_dco': 'WithZ', 'step_SN': 'WithRNG',
                  'step_CE': 'WithMatcher', 'step_end': 'Base'})
    old = SP.GRIDInterpolator, SP.TrackMatcher
    SP.GRIDInterpolator, SP.TrackMatcher = FakeGrid, fake_matcher()
    try:
        for last in case['ops']:
            user = {s: dict(CFG[case['cfg']].get(s, {})) for s in STEPS}
            kw = {s: (ns[kinds[s]], user[s]) for s in STEPS}
            missing = ()
            if case['cfg'] == 3:
                missing = ('step_merged', 'step_end')
                for s in missing:
                    del kw[s]
            kw['flow'] = (ns['flow'], {'q': 1})
            sim = SP.SimulationProperties(**kw)
            model = {}                 # step -> metallicity, matcher options
            mopts = {}
            seq = case['seq'] + [last]
            with R.tmp() as d:
                for n, op in enumerate(seq):
                    rng = np.random.default_rng(n)
                    tag = 'configuration %d, calls %r' % (case['cfg'],
                                                          seq[:n + 1])
                    R.step()
                    if op[0] == 'all':
                        sim.load_steps(metallicity=op[1], RNG=rng)
                        z = op[1]
                        for s in STEPS:
                            if s in missing:
                                continue
                            if op[1] is None:
                                z = user[s].get('metallicity', z)
                            set_model(model, mopts, s, user[s], z, rng, kinds)
                    elif op[0] == 'one':
                        sim.load_a_step(op[1], kw[op[1]], metallicity=op[2],
                                        RNG=rng)
                        set_model(model, mopts, op[1], user[op[1]], op[2],
                                  rng, kinds)
                    elif op[0] == 'opt':
                        # the same step with one more option
                        s = 'step_detached'
                        extra = dict(user[s], matching_tolerance=0.125, a=9)
                        sim.load_a_step(s, (ns[kinds[s]], dict(extra)),
                                        metallicity=op[1], RNG=rng)
                        set_model(model, mopts, s, extra, op[1], rng, kinds)
                    else:
                        s = 'step_CE'
                        with open('c18mod.py', 'w') as f:
                            f.write(MODULE)
                        write('s.ini', [
                            ('step_SN', [('import', "['os', 'x']")]),
                            (s, [('import', "['x', 'y']"),
                                 ('absolute_import',
                                  "['%s/c18mod.py', 'WithMatcher']" % d),
                                 ('matching_method', "'root'"), ('a', '3')])])
                        sim.load_a_step(s, metallicity=op[1], RNG=rng,
                                        from_ini='s.ini')
                        set_model(model, mopts, s, {
                            'matching_method': 'root', 'a': 3}, op[1], rng,
                            kinds)
                    compare(sim, model, mopts, user, case, R, tag, kinds,
                            missing)
            R.state('load', case['cfg'], tuple(map(tuple, seq)))
            sim.close()
            R.check(not any(g.open for t in (sim.grids_Hrich,
                                             sim.grids_strippedHe)
                            for g in t.values()), tag + ': grid left open')
    finally:
        SP.GRIDInterpolator, SP.TrackMatcher = old


MKEYS = ('matching_method', 'matching_tolerance')


def set_model(model, mopts, s, given, z, rng, kinds):
    kind = kinds[s]
    z = given.get('metallicity', z)
    if z is None:
        z = 1.0
    opts = {k: v for k, v in given.items() if k in MKEYS}
    if kind == 'WithMatcher':
        prev = mopts.get(s)
        # an existing matcher of that metallicity keeps what is not given
        mopts[s] = (z, dict(prev[1], **opts) if prev and prev[0] == z else
                    opts)
    model[s] = (z if kind in ('WithZ', 'WithMatcher') else
                given.get('metallicity'),
                {k: v for k, v in given.items()
                 if k not in MKEYS or kind != 'WithMatcher'},
                rng if kind == 'WithRNG' else None)


def compare(sim, model, mopts, user, case, R, tag, kinds, missing):
    import os

    from posydon.binary_evol.track_match import TrackMatcher
    zs = {1.0: '1e+00', 0.1: '1e-01', 0.01: '1e-02', 0.2: '2e-01'}
    for s in STEPS:
        step = getattr(sim, s, None)
        if s not in model:
            R.check(step is None, '%s: %s is there' % (tag, s))
            continue
        z, given, rng = model[s]
        kw = dict(step.kw)
        R.check(kw.get('metallicity') == z, '%s: metallicity of %s is %r '
                'instead of %r' % (tag, s, kw.get('metallicity'), z))
        for k, v in given.items():
            R.check(k == 'metallicity' or kw.get(k) == v,
                    '%s: option %s of %s is %r instead of %r' % (
                        tag, k, s, kw.get(k), v))
        if rng is not None:
            R.check(kw.get('RNG') is rng, '%s: random numbers of %s' % (tag,
                                                                       s))
        if s in STEPS[:4]:
            R.check(kw.get('grid_path') == getattr(sim, s[5:] + '_path'),
                    '%s: grid of %s is %r' % (tag, s, kw.get('grid_path')))
        if kinds[s] == 'WithMatcher':
            m = kw.get('track_matcher')
            R.must(m is not None, '%s: %s has no matcher' % (tag, s))
            for k in MKEYS:
                w = mopts[s][1].get(k, TrackMatcher.DEFAULT_KWARGS[k])
                R.check(getattr(m, k) == w, '%s: %s of %s is %r instead of %r'
                        % (tag, k, s, getattr(m, k), w))
                R.check(k not in kw, '%s: %s given to %s' % (tag, k, s))
            for g, p in ((m.grid_Hrich, sim.single_HMS_path),
                         (m.grid_strippedHe, sim.single_HeMS_path)):
                R.check(g.path == os.path.join(p, zs[z] + '_Zsun.h5'),
                        '%s: %s matches to %s' % (tag, s, g.path))
                R.check(g.open, '%s: grid of %s is closed' % (tag, s))
    # the options given by the user are still the ones given
    for s in STEPS:
        R.check(user[s] == CFG[case['cfg']].get(s, {}),
                '%s: the options of %s became %r' % (tag, s, user[s]))
    # what is kept in memory: one matcher per step, shared grids
    want = sorted((mopts[s][0], s) for s in mopts)
    R.check(sorted(sim.track_matchers) == want, '%s: matchers %r instead of '
            '%r' % (tag, sorted(sim.track_matchers), want))
    for t in (sim.grids_Hrich, sim.grids_strippedHe):
        R.check(set(t) == {z for z, _ in want}, '%s: grids %r' % (
            tag, sorted(t)))
    full = all(s in model for s in STEPS if s not in missing)
    if full:
        R.check(sim.steps_loaded is True or not hasattr(sim, 'flow') or
                isinstance(sim.flow, tuple), tag + ': not marked as loaded')
        if isinstance(sim.flow, dict):
            R.check(sim.flow == {'flow': {'q': 1}}, tag + ': flow')


# ---- populations --------------------------------------------------------------
ENVS = ['SLURM_ARRAY_JOB_ID', 'SLURM_ARRAY_TASK_ID', 'SLURM_ARRAY_TASK_MIN',
        'SLURM_ARRAY_TASK_COUNT']


def pop(case, R):
    import os

    from posydon.popsyn.io import binarypop_kwargs_from_ini
    size = case['size']
    saved = {k: os.environ.pop(k, None) for k in ENVS}
    try:
        with R.tmp():
            for inc in itertools.product((True, False), repeat=2):
                for mpi in (False, True):
                    P = [('BinaryPopulation_options', [
                        ('use_MPI', repr(mpi)), ('metallicity', '[1.0, .1]'),
                        ('number_of_binaries', '10'),
                        ('temp_directory', "'batches'")]),
                        ('BinaryStar_output', [
                            ('extra_columns', "{'step_names': 'string'}"),
                            ('scalar_names', "['x']")]),
                        ('SingleStar_1_output', [
                            ('include_S1', repr(inc[0])),
                            ('only_select_columns', "['mass', 'state']")]),
                        ('SingleStar_2_output', [
                            ('include_S2', repr(inc[1])),
                            ('only_select_columns', "['log_R']")])]
                    write('p.ini', P)
                    for low in (0, 1, 5):
                        for rank in range(size):
                            os.environ.update({
                                ENVS[0]: '4242', ENVS[1]: str(low + rank),
                                ENVS[2]: str(low), ENVS[3]: str(size)})
                            tag = 'task %d of %d from %d, %r' % (
                                rank, size, low, inc)
                            R.step()
                            R.state('pop', size, rank, low, inc, mpi)
                            if mpi:
                                with R.raises(ValueError, 'MPI in a job '
                                              'array'):
                                    binarypop_kwargs_from_ini('p.ini')
                                continue
                            k = binarypop_kwargs_from_ini('p.ini')
                            R.check((int(k['JOB_ID']), int(k['RANK']),
                                     int(k['size'])) == (4242, rank, size),
                                    '%s: %r' % (tag, k))
                            check_pop(k, inc, R, tag)
                    for e in ENVS:
                        os.environ.pop(e, None)
                    if not mpi:
                        k = binarypop_kwargs_from_ini('p.ini')
                        R.check(k['RANK'] is None and k['size'] is None and
                                'JOB_ID' not in k, 'no array: %r' % k)
                        check_pop(k, inc, R, 'no array')
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def check_pop(k, inc, R, tag):
    R.check(k['comm'] is None and k['metallicity'] == [1.0, 0.1] and
            k['number_of_binaries'] == 10 and k['temp_directory'] ==
            'batches' and k['scalar_names'] == ['x'] and
            k['extra_columns'] == {'step_names': 'string'},
            '%s: %r' % (tag, k))
    for s, i, cols in (('S1', inc[0], ['mass', 'state']),
                       ('S2', inc[1], ['log_R'])):
        R.check(k['include_' + s] is i, '%s: include_%s' % (tag, s))
        R.check(k.get(s + '_kwargs') == ({'only_select_columns': cols} if i
                                         else None),
                '%s: %s_kwargs %r' % (tag, s, k.get(s + '_kwargs')))


# ---- stored configurations ------------------------------------------------------
def cfg(case, R):
    import os

    import numpy as np
    from posydon.utils.configfile import ConfigFile
    vals = [1, 2.5, 'text', None, True, [1, [2, 'x']], {'a': {'b': 1.5}},
            np.array([1.5, 2.0]), np.array([[1, 2], [3, 4]]), float('inf'),
            'é', '']

    def plain(v):
        return v.tolist() if isinstance(v, np.ndarray) else v
    ops = ['set', 'save', 'load', 'update', 'del', 'copy']
    for seq in itertools.product(range(len(ops)), repeat=case['k'] - 1):
        seq = [case['first']] + list(seq)
        with R.tmp():
            c = ConfigFile('c.json')
            model, disk, n = {}, None, 0
            for i, o in enumerate(seq):
                tag = 'configuration after %r' % [ops[x] for x in seq[:i + 1]]
                R.step()
                op = ops[o]
                if op == 'set':
                    for j in range(len(vals)):
                        c['k%d' % j] = vals[(j + n) % len(vals)]
                        model['k%d' % j] = vals[(j + n) % len(vals)]
                    n += 1
                elif op == 'save':
                    if disk is not None:
                        with R.raises(PermissionError, tag +
                                      ': overwritten'):
                            c.save(overwrite=False)
                    c.save()
                    disk = {k: plain(v) for k, v in model.items()}
                elif op == 'load':
                    if disk is None:
                        with R.raises(FileNotFoundError, tag + ': no file'):
                            c.load()
                        continue
                    if set(disk) & set(model):
                        with R.raises(PermissionError, tag + ': updated'):
                            c.load()
                        same(dict(c.items()), model, plain, R, tag)
                    c.load(can_update=True)
                    model.update(disk)
                elif op == 'update':
                    c.update({'u': n, 'k0': -1})
                    model.update({'u': n, 'k0': -1})
                elif op == 'del':
                    for k in list(model)[::2]:
                        del c[k]
                        del model[k]
                else:
                    e = c.deepcopy()
                    e['k0'] = 'changed'
                    if isinstance(model.get('k5'), list):
                        e['k5'].append(3)
                    same(dict(c.items()), model, plain, R, tag)
                    c = c.deepcopy()
                same(dict(c.items()), model, plain, R, tag)
                R.check(len(c) == len(model) and list(c) == list(model) and
                        set(c.keys()) == set(model), tag + ': keys')
                for k in model:
                    R.check(k in c and c[k] is getattr(c, k), tag)
            R.state('cfg', tuple(seq))
            if disk is not None:
                same(dict(ConfigFile('c.json').items()), disk, plain, R,
                     tag + ', read again')


def same(got, want, plain, R, tag):
    g = {k: plain(v) for k, v in got.items()}
    w = {k: plain(v) for k, v in want.items()}
    R.check(g == w, '%s: %r instead of %r' % (tag, g, w))


def missing(case, R):
    from posydon.popsyn.io import parse_inifile, simprop_kwargs_from_ini
    with R.tmp():
        write('a.ini', [('step_SN', [('x', '1')])])
        for bad in ('no.ini', ['a.ini', 'no.ini'], ['no.ini']):
            with R.raises(FileNotFoundError, 'missing file in %r' % (bad,)):
                simprop_kwargs_from_ini(bad)
            R.step()
        for bad in (None, 3, {'a': 1}):
            with R.raises(ValueError, 'path %r' % (bad,)):
                parse_inifile(bad)


def execute(case, R):
    import contextlib
    import io
    import warnings
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()):
        {'ini': ini, 'hooks': hooks, 'load': load, 'pop': pop, 'cfg': cfg,
         'missing': missing}[case['kind']](case, R)
