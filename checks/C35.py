"""C35: post-processing of grids gives each run its own remnants."""
import contextlib
import io
import itertools
import math

LEVEL = "model_checking"
RULE = ("every termination flag x every interpolation class x every pair of "
        "final states and central gammas x star 2 compact or not; every "
        "supernova model x remnant mass x metallicity x profile or not, "
        "binary and single grids; every mass-transfer history; every index "
        "range; every way to write the result back; distinct by result")
ASSUMPTIONS = ["the supernova step (C20, C34) and the common-envelope "
               "parameters of a profile are those of the library: this "
               "property decides which star, values and model they get",
               "grids hold the default columns of POSYDON",
               "models written back have the names of the library"]
ZS = 0.0142
PRIM = ['Primary has depleted central carbon',
        'Primary got stopped before central carbon depletion',
        'Primary enters pair-instability regime',
        'Primary enters pulsational pair-instability regime']
TF1 = PRIM + [t.replace('Primary', 'Secondary') for t in PRIM] + [
    'gamma_center_limit', 'max_age', 'envelope_mass_limit',
    'min_timestep_limit', 'offcenter neon ignition for primary',
    'Reached TPAGB']
IC = ['no_MT', 'stable_MT', 'stable_reverse_MT', 'unstable_MT', 'initial_MT',
      'not_converged']
TF2 = ['no_RLOF', 'contact_during_MS', 'case_A1', 'case_A2', 'case_B1',
       'case_B2', 'case_C1', 'case_C2', 'case_BA1', 'case_BB2', '?case_B1',
       'case_A1/B1', 'case_A2/B2', 'case_A1/B1/C1', 'case_B1/C1',
       'case_B1/BB1', 'case_BA1/BB1', 'case_C1/BB1', 'case_A1/BA1',
       'case_A1/B2', 'case_B1/A2', 'case_A1/B1/A2', 'case_C1/BB1/B2',
       'case_A1/B1/BB1', 'case_B2/C2/BA2', 'L2_RLOF',
       'case_nonburning1']
STATES = ['H-rich_Core_C_depleted', 'stripped_He_Core_C_depleted',
          'H-rich_Core_He_depleted', 'stripped_He_Core_He_depleted',
          'H-rich_Core_He_burning', 'H-rich_Shell_H_burning',
          'H-rich_Core_H_burning', 'H-rich_non_burning',
          'stripped_He_non_burning', 'stripped_He_Core_He_burning']
CC = {'H-rich_Core_C_depleted', 'H-rich_Core_He_depleted',
      'stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted',
      'stripped_He_non_burning', 'H-rich_non_burning',
      'H-rich_Shell_H_burning'}
# final mass: core fractions
MASS = {1.2: (.9, .8), 2.6: (.7, .56), 9.0: (.35, .2), 20.0: (.35, .25),
        32.0: (.5, .4), 90.0: (.6, .5), 160.0: (.6, .5), 400.0: (.6, .5)}
Q = ['CO_type', 'SN_type', 'f_fb', 'mass', 'spin', 'm_disk_accreted',
     'm_disk_radiated', 'CO_interpolation_class', 'M4', 'mu4', 'h1_mass_ej',
     'he4_mass_ej']
CE = ['%s_%scent' % (a, v) for a in ('lambda_CE', 'm_core_CE', 'r_core_CE')
      for v in (1, 10, 30, 'pure_He_star_10')]
FEW = ['SN_MODEL_v2_01', 'SN_MODEL_v2_14']


def bounds(tier):
    q = tier == 'quick'
    return {'flags': len(TF1), 'classes': len(IC), 'histories': len(TF2),
            'states': len(STATES), 'masses': len(MASS),
            'models': 6 if q else 28, 'metallicities': 2 if q else 4,
            'runs': 4 if q else 6}


def setup(root):
    import os
    import shutil

    from checks import C20
    C20.setup(root)
    for e in ('S19.8', 'W15', 'W18', 'W20'):
        shutil.copy(os.path.join(root, 'tables/results_N20_table.csv'),
                    os.path.join(root, 'tables/results_%s_table.csv' % e))


def worker_init(R):
    from checks import C20
    C20.worker_init(R)


def cases(tier):
    b = bounds(tier)
    for t, co in itertools.product(TF1, (False, True)):
        for cls in IC:
            yield {'kind': 'flags', 't': t, 'co': co, 'cls': cls}
    zs = [1.42e-2, 1.42e-6, 6.39e-3, 1.42e-4][:b['metallicities']]
    for m, z, he, single in itertools.product(MASS, zs, (False, True),
                                              (False, True)):
        for prof in (True, False):
            for part in range(28 // b['models'] if tier != 'quick' else 2):
                yield {'kind': 'models', 'm': m, 'z': z, 'he': he,
                       'single': single, 'prof': prof, 'part': part,
                       'n': b['models']}
    for st, single in itertools.product(STATES, (False, True)):
        yield {'kind': 'state', 'st': st, 'single': single}
    for cls, co in itertools.product(IC, (False, True)):
        yield {'kind': 'tf2', 'cls': cls, 'co': co}
    for single in (False, True):
        yield {'kind': 'index', 'single': single, 'n': b['runs']}
        for k in range(5):
            yield {'kind': 'custom', 'single': single, 'k': k}
        for lazy in (True, False):
            for how in ('plain', 'again', 'other', 'fewer', 'wrong',
                        'empty'):
                yield {'kind': 'add', 'single': single, 'how': how,
                       'lazy': lazy, 'n': b['runs']}
    yield {'kind': 'names'}


class Draw:
    """A generator whose draws are chosen by the exploration."""
    u = 0.3

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * Draw.u

    def random(self, size=None):
        return Draw.u


def quiet():
    import warnings
    from unittest import mock
    st = contextlib.ExitStack()
    st.enter_context(mock.patch('numpy.random.default_rng',
                                lambda *a, **k: Draw()))
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    st.enter_context(contextlib.redirect_stderr(io.StringIO()))
    st.enter_context(warnings.catch_warnings())
    warnings.simplefilter('ignore')
    return st


# --- grids -------------------------------------------------------------------
def tables(run):
    """Histories of a run with the masses of its cores."""
    from mc import mesagrid
    n = len(run['rows'])
    spec = dict(run, m1=run['f1'] / (1 - 0.03 * (n - 1)),
                m2=run['f2'] / (1 + (0.002 if run['co'] else .01) * (n - 1)),
                p=run.get('p', 30.), T=1e7)
    bh, h1, h2 = mesagrid.tables(spec)
    for k, h, m, name in ((1, h1, run['f1'], 0), (2, h2, run['f2'], 1)):
        fr = min(MASS, key=lambda x: abs(x - m))
        fhe, fco = MASS[fr]
        if 'stripped' in run['rows'][-1][k - 1]:
            fhe = 1.0
        for j in range(n):
            x = (j + 1) / n
            h['he_core_mass'][j] = fhe * m * x
            h['co_core_mass'][j] = fco * m * x
            h['log_total_angular_momentum'][j] = 50. + 0.1 * k
            h['log_R'][j] = 1. + 0.02 * j
            h['avg_c_in_c_core'][j] = 0.25 - 0.01 * j + 0.002 * k
            left = 1 - h['surface_h1'][j]
            for c, f in (('he4', .9), ('c12', .02), ('n14', .03),
                         ('o16', .01)):
                h['surface_' + c][j] = f * left
            left = max(0., 1 - h['center_h1'][j] - h['center_he4'][j]
                       - h['center_c12'][j])
            h['center_n14'][j] = .1 * left
            h['center_o16'][j] = .6 * left
    return bh, h1, h2


def prof(m, st, law='solid'):
    import numpy as np

    from checks import C34
    p = C34.profile(m, 10., 'steep', 24, law,
                    'layers' if 'H-rich' in st else 'he')
    cols = {c: p[c] for c in ('radius', 'mass', 'logRho', 'omega',
                              'x_mass_fraction_H', 'y_mass_fraction_He')}
    n = len(p)
    cols['energy'] = 1e15 * (1 + np.arange(n) / n)
    cols['z_mass_fraction_metals'] = (1 - cols['x_mass_fraction_H']
                                      - cols['y_mass_fraction_He'])
    cols['neutral_fraction_H'] = np.full(n, 0.01)
    cols['neutral_fraction_He'] = np.full(n, 0.02)
    cols['avg_charge_He'] = np.full(n, 1.9)
    a = np.zeros(n, dtype=[(c, 'f8') for c in cols])
    for c in cols:
        a[c] = cols[c]
    return a


def write(path, runs, single=False, stored=False):
    import json

    import h5py
    import numpy as np

    from mc.mesagrid import rec
    from posydon.grids.psygrid import GRIDPROPERTIES
    co = runs[0]['co']
    flags = ['termination_flag_%d' % i for i in (1, 2, 3, 4)]
    if single:
        flags = flags[:1]
    else:
        flags.append('interpolation_class')
    fin, cols = [], []
    with h5py.File(path, 'w') as f:
        for i, run in enumerate(runs):
            bh, h1, h2 = tables(run)
            g = f.create_group('/grid/run%d' % i)
            v = {}
            if single:
                h1 = dict({'model_number': bh['model_number'],
                           'star_age': bh['age'],
                           'star_mass': bh['star_1_mass']}, **h1)
            else:
                g.create_dataset('binary_history', data=rec(bh))
                v.update({c: x[-1] for c, x in bh.items()})
            for k, h in ((1, h1), (2, h2)):
                if k == 2 and (single or co):
                    continue
                g.create_dataset('history%d' % k, data=rec(h))
                v.update({'S%d_%s' % (k, c): x[-1] for c, x in h.items()})
                if run['prof']:
                    g.create_dataset('final_profile%d' % k, data=prof(
                        run['f%d' % k], run['rows'][-1][k - 1]))
                if stored:
                    v['S%d_avg_c_in_c_core_at_He_depletion' % k] = .2 + .01 * i
                    v['S%d_co_core_mass_at_He_depletion' % k] = 3. + i + k
            cols = list(v)
            v.update({'termination_flag_1': run['TF1'],
                      'termination_flag_2': run['TF2'],
                      'termination_flag_3': 'x', 'termination_flag_4': 'y',
                      'interpolation_class': run['IC']})
            fin.append(v)
        a = np.zeros(len(runs), dtype=[(c, 'f8') for c in (
            'star_1_mass', 'star_2_mass', 'period_days', 'Z')])
        b = np.zeros(len(runs), dtype=[(c, 'f8') for c in cols]
                     + [(c, 'S70') for c in flags])
        for i, v in enumerate(fin):
            a[i] = (runs[i]['f1'], runs[i]['f2'], 30., runs[i]['z'])
            for c in cols + flags:
                b[c][i] = v[c]
        f.create_dataset('/grid/initial_values', data=a)
        f.create_dataset('/grid/final_values', data=b)
        f.create_dataset('relative_file_paths', data=np.array(
            ['dir/run_%s_%d' % (r['name'], i) for i, r in enumerate(runs)],
            dtype=h5py.string_dtype()))
        f.attrs['config'] = json.dumps(str(dict(GRIDPROPERTIES)))


def run_(s1, s2, tf1='max_age', ic='no_MT', tf2='no_RLOF', f1=20., f2=9.,
         g1=1., g2=1., co=False, z=ZS, prof=True, name='r'):
    pre = {'H': 'H-rich_Core_H_burning', 's': 'stripped_He_Core_He_burning'}
    dep = {'H': 'H-rich_Core_He_depleted',
           's': 'stripped_He_Core_He_depleted'}
    late = [s for s in (s1, s2) if 'C_depleted' in s]
    rows = [(pre[s1[0]], pre[s2[0]])]
    if late:
        rows.append(tuple(dep[s[0]] if 'C_depleted' in s else pre[s[0]]
                          for s in (s1, s2)))
        rows.append(rows[-1])
    rows.append((s1, s2, -.5, -.6, -99., g1, g2))
    return {'name': name, 'rows': rows, 'TF1': tf1, 'IC': ic, 'TF2': tf2,
            'f1': f1, 'f2': f2, 'co': co, 'z': z, 'prof': prof}


# --- reference ---------------------------------------------------------------
def ref_star(run, k, stored=None):
    """The star of a run at its end, built from the tables."""
    import numpy as np

    from posydon.binary_evol.singlestar import SingleStar
    bh, h1, h2 = tables(run)
    h = (h1, h2)[k - 1]
    st = [r[k - 1] for r in run['rows']]
    kw = {c: h[c][-1] for c in h if hasattr(SingleStar(), c)}
    s = SingleStar(**kw)
    s.mass = bh['star_%d_mass' % k][-1]
    s.state = st[-1]
    s.spin = h['spin_parameter'][-1]
    s.metallicity = run['z'] / 0.0142
    s.metallicity_history = [s.metallicity]
    s.profile = prof(run['f%d' % k], st[-1]) if run['prof'] else None
    c = m = None
    for lab in ('H-rich_Core_He_depleted', 'stripped_He_Core_He_depleted'):
        if lab in st:
            j = st.index(lab)
            c, m = h['avg_c_in_c_core'][j], h['co_core_mass'][j]
            break
    if stored is not None:
        c, m = .2 + .01 * stored, 3. + stored + k
    s.avg_c_in_c_core_at_He_depletion = c
    s.co_core_mass_at_He_depletion = m
    return s, h


def none(x):
    return x is None or (isinstance(x, float) and math.isnan(x)) or \
        str(x) in ('None', 'nan')


def same(a, b):
    if none(a) or none(b):
        return none(a) and none(b)
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return math.isclose(float(a), float(b), rel_tol=1e-8, abs_tol=1e-10)


def collapse(star, par):
    """Remnant of a star, None if the collapse fails."""
    import copy

    from posydon.binary_evol.SN.step_SN import StepSN
    par = dict(par, allow_spin_None=True)
    s = copy.copy(star)
    sn = StepSN(**par)
    try:
        sn.collapse_star(s)
    except Exception:
        return None
    out = {'CO_type': s.state, 'CO_interpolation_class': s.state}
    for q in Q:
        if q not in out:
            out[q] = getattr(s, q)
    if not isinstance(out['CO_type'], str) or not isinstance(
            out['SN_type'], str) or any(
            not isinstance(out[q], float) for q in (
                'f_fb', 'mass', 'm_disk_accreted', 'm_disk_radiated')):
        return None
    return out


def model(name, models=None):
    """The default model with the changes of the named one."""
    from posydon.grids.SN_MODELS import DEFAULT_SN_MODEL, SN_MODELS
    return dict(DEFAULT_SN_MODEL, **(models or SN_MODELS)[name])


def dying(run, co2, single=False):
    """Which star goes through core collapse."""
    if single:
        return 1
    if run['IC'] not in ('no_MT', 'stable_MT', 'stable_reverse_MT'):
        return 0
    if co2 or run['TF1'] in PRIM:
        return 1
    if run['TF1'] in TF1[4:8]:
        return 2
    if run['TF1'] == 'gamma_center_limit':
        last = run['rows'][-1]
        return 1 if last[5] >= 10 else 2 if last[6] >= 10 else 0
    return 0


LAST = {'A': 'MS', 'B': 'postMS', 'C': 'postMS', 'BA': 'stripped He star',
        'BB': 'stripped He star'}


def history(ic, tf2):
    """Description of the mass transfer."""
    if ic == 'initial_MT':
        return 'Initial RLOF'
    if ic == 'not_converged':
        return 'Not converged'
    if ic == 'no_MT':
        return 'no RLOF'
    if ic == 'stable_reverse_MT':
        return 'Stable reverse mass-transfer phase'
    stab = ic == 'stable_MT'
    word = 'Stable' if stab else 'Unstable'
    if tf2 == 'no_RLOF':
        return 'unknown'
    if tf2 == 'L2_RLOF':
        return 'unknown' if stab else 'Unstable RLOF during stripped He star'
    if tf2 == 'contact_during_MS':
        return word + ' contact phase'
    seq = tf2.lstrip('?').replace('case_', '').split('/')
    if {'1', '2'} <= {c[-1] for c in seq}:
        return word + ' reverse mass-transfer phase'
    pre = 'Last stable RLOF ' if stab else 'Unstable RLOF '
    if 'nonburning' in tf2:
        return pre + 'while non burning'
    return pre + 'during ' + LAST[seq[-1][:-1]]


def expected(run, co2, names, single=False, stored=None, models=None):
    """Columns of a run."""
    exp = {}
    if not single:
        exp['mt_history'] = history(run['IC'], run['TF2'])
    d = dying(run, co2, single)
    for k in ((1,) if single else (1, 2)):
        star, h = ref_star(run, k, stored)
        s = 'S%d_' % k
        if (k == 2 and co2) or run['IC'] in ('initial_MT', 'not_converged'):
            st = None
            if run['IC'] not in ('initial_MT', 'not_converged'):
                st = 'WD' if star.mass < 1.1 else 'NS' \
                    if star.mass < 2.5 else 'BH'
            exp[s + 'state'] = st
            for q in CE + ['avg_c_in_c_core_at_He_depletion',
                           'co_core_mass_at_He_depletion', 'surface_other',
                           'center_other']:
                exp[s + q] = None
        else:
            exp[s + 'state'] = star.state
            for q in ('avg_c_in_c_core_at_He_depletion',
                      'co_core_mass_at_He_depletion'):
                exp[s + q] = getattr(star, q)
            for pos in ('surface', 'center'):
                exp[s + pos + '_other'] = 1 - sum(
                    h['%s_%s' % (pos, c)][-1] for c in (
                        'h1', 'he4', 'c12', 'n14', 'o16'))
            from posydon.utils.common_functions import \
                CEE_parameters_from_core_abundance_thresholds as cee
            with contextlib.suppress(Exception):
                cee(star)
            for q in CE:
                exp[s + q] = getattr(star, q)
        for n in names:
            res = None
            if d == k and star.state in CC:
                res = collapse(star, model(n, models))
            if res and not single and res['CO_type'] == 'BH' and \
                    'case' in run['TF2'] and '1' in run['TF2'] \
                    and '2' in run['TF2']:
                res['CO_interpolation_class'] = 'BH_reverse_MT'
            for q in Q:
                exp['%s%s_%s' % (s, n, q)] = res[q] if res else None
    return exp


def compare(R, got, i, exp, tag, exact=True):
    if exact:
        R.check(set(got) == set(exp), tag + ": columns %s" % sorted(
            set(got) ^ set(exp))[:6])
    for c in exp:
        R.check(same(got[c][i], exp[c]), "%s: %s is %r, expected %r" % (
            tag, c, got[c][i], exp[c]))


def process(path, names=None, models=None, lazy=True, **kw):
    from posydon.grids.post_processing import post_process_grid
    from posydon.grids.psygrid import PSyGrid
    from posydon.grids.SN_MODELS import SN_MODELS
    if models is None:
        models = {n: SN_MODELS[n] for n in names}
    g = PSyGrid(verbose=False)
    with quiet():
        g.load(path, lazy=lazy)
        try:
            dirs, ex = post_process_grid(g, SN_MODELS=models, **kw)
            dirs = [d.decode() if isinstance(d, bytes) else str(d)
                    for d in dirs]
        finally:
            g.close()
    return dirs, ex


def check_grid(R, runs, tag, names=FEW, single=False, stored=False,
               models=None, **kw):
    with R.tmp() as d:
        p = d + '/g.h5'
        write(p, runs, single, stored)
        for verbose in (False, True) if len(runs) == 1 else (False,):
            dirs, ex = process(p, names, models, single_star=single,
                               verbose=verbose, **kw)
            R.step(len(runs))
            R.eq(dirs, ['dir/run_%s_%d' % (r['name'], i)
                        for i, r in enumerate(runs)], tag + ": directories")
            for i, r in enumerate(runs):
                with quiet():
                    e = expected(r, kw.get('star_2_CO', True), names, single,
                                 i if stored else None, models)
                compare(R, ex, i, e, "%s, run %d (%s)" % (tag, i, r['name']))
                for k in (1,) if single else (1, 2):
                    R.outcome(*[str(e['S%d_%s_%s' % (k, n, q)]) for n in names
                                for q in ('CO_type', 'SN_type')],
                              round(r['f1'], 3), r['z'])
                R.state(r['IC'], r['TF1'], r['TF2'], dying(
                    r, kw.get('star_2_CO', True), single))
    return ex


# --- cases -------------------------------------------------------------------
ENDS = [('H-rich_Core_C_depleted', 'H-rich_Core_H_burning', 1., 1.),
        ('H-rich_Core_H_burning', 'stripped_He_Core_C_depleted', 1., 1.),
        ('stripped_He_Core_C_depleted', 'H-rich_Core_C_depleted', 12., 14.),
        ('H-rich_Shell_H_burning', 'H-rich_Core_H_burning', 12., 1.),
        ('H-rich_Core_H_burning', 'H-rich_Shell_H_burning', 9.99, 10.0),
        ('H-rich_Shell_H_burning', 'H-rich_Shell_H_burning', 10.0, 10.0),
        ('H-rich_Core_He_burning', 'H-rich_Core_He_burning', 3., 11.)]


def flags(case, R):
    runs = []
    for i, (a, b, g1, g2) in enumerate(ENDS):
        tf2 = 'no_RLOF' if case['cls'] == 'no_MT' else (
            'case_A1/B2' if case['cls'] == 'stable_reverse_MT' else
            ['case_A1', 'case_B1/A2', 'case_B1'][i % 3])
        runs.append(run_(a, b, case['t'], case['cls'], tf2,
                         f1=[20., 90., 32.][i % 3],
                         f2=[1.3, 1.4, 9.][i % 3] if case['co']
                         else [9., 32., 20.][i % 3],
                         g1=g1, g2=g2, co=case['co'], name='e%d' % i))
    tag = "TF1=%r, class %s, compact %s" % (case['t'], case['cls'],
                                            case['co'])
    check_grid(R, runs, tag, star_2_CO=case['co'])


def models(case, R):
    from posydon.grids.SN_MODELS import SN_MODELS
    allm = list(SN_MODELS)
    names = [m for i, m in enumerate(allm)
             if i % (28 // case['n']) == (case['part'] if case['n'] == 28
             else (case['part'] + int(case['m'])) % (28 // case['n']))]
    st = ('stripped_He' if case['he'] else 'H-rich') + '_Core_C_depleted'
    out = None
    for which in (1,) if case['single'] else (1, 2):
        for stored in (False, True):
            Draw.u = 0.02 if stored else 0.9
            o = 'H-rich_Core_H_burning'
            r = run_(st if which == 1 else o, st if which == 2 else o,
                     PRIM[0] if which == 1 else TF1[4],
                     f1=case['m'] if which == 1 else 15.,
                     f2=case['m'] if which == 2 else 15.,
                     z=case['z'], prof=case['prof'],
                     name='m%d' % which)
            check_grid(R, [r], "models of %s" % {
                k: v for k, v in case.items() if k != 'kind'}, names,
                case['single'], stored, star_2_CO=False)


def state(case, R):
    runs = []
    for m in (2.6, 20., 90.):
        for pr in (True, False):
            runs.append(run_(case['st'], case['st'], PRIM[0],
                             f1=m, f2=0.9 * m, prof=pr, name='s%g' % m))
    check_grid(R, runs, "state %s" % case['st'], single=case['single'],
               star_2_CO=False)
    if not case['single']:
        for m2 in (0.7, 1.2, 1.4, 2.4, 2.6, 30.):
            check_grid(R, [run_(case['st'], STATES[6], PRIM[0], f1=20., f2=m2,
                                co=True, name='c%g' % m2)],
                       "state %s with %g" % (case['st'], m2), star_2_CO=True)


def tf2(case, R):
    st = 'stripped_He_Core_C_depleted'
    runs = [run_(st, STATES[6], PRIM[0], case['cls'], t, f1=f,
                 f2=1.4 if case['co'] else 9., co=case['co'], name='t%d' % i)
            for i, t in enumerate(TF2) for f in (9., 32.)]
    check_grid(R, runs, "histories of class %s" % case['cls'],
               names=FEW[:1], star_2_CO=case['co'])


def some(n, single):
    return [run_(STATES[i % 4], STATES[(i + 4) % 10], PRIM[i % 4],
                 IC[i % 4] if not single else 'no_MT', TF2[i],
                 f1=[20., 32., 9., 90., 2.6, 160.][i], f2=5. + i,
                 name='i%d' % i) for i in range(n)]


def index(case, R):
    n = case['n']
    with R.tmp() as d:
        p = d + '/g.h5'
        write(p, some(n, case['single']), case['single'])
        kw = dict(single_star=case['single'], star_2_CO=False)
        dirs, full = process(p, FEW, **kw)
        todo = [(i, i, i + 1) for i in range(n)] + [
            ([a, b], a, b) for a in range(n) for b in range(a, n + 1)]
        for ind, a, b in todo:
            for lazy in (True, False):
                dd, ex = process(p, FEW, index=ind, lazy=lazy, **kw)
                R.step()
                tag = "index %s, lazy %s" % (ind, lazy)
                R.eq(dd, dirs[a:b], tag + ": directories")
                R.eq(set(ex), set(full), tag + ": columns")
                for c in full:
                    R.check(len(ex[c]) == b - a and all(
                        same(x, y) for x, y in zip(ex[c], full[c][a:b])),
                        tag + ": %s is %r, expected %r" % (
                            c, ex[c], full[c][a:b]))
                R.outcome(a, b)
        for ind, err in (([0], ValueError), ([0, 1, 2], ValueError),
                         (1.5, TypeError), ('0', TypeError)):
            with R.raises(err, "index %r" % (ind,)):
                process(p, FEW, index=ind, **kw)
        # order of the runs
        runs = some(n, case['single'])
        for order in itertools.islice(itertools.permutations(range(n)), 24):
            q = d + '/o.h5'
            write(q, [runs[i] for i in order], case['single'])
            _, ex = process(q, FEW[:1], **kw)
            R.step()
            for c in ex:
                R.check(all(same(x, full[c][i]) for x, i in zip(
                    ex[c], order)), "order %s: %s" % (order, c))


CUSTOM = [{'SN_MODEL_a': {'mechanism': 'direct', 'use_interp_values': False,
                          'use_core_masses': False}},
          {'SN_MODEL_v2_01': {'mechanism': 'direct',
                              'use_interp_values': False,
                              'use_core_masses': False}},
          {'SN_MODEL_b': {'mechanism': 'Fryer+12-delayed', 'max_NS_mass': 2.0,
                          'use_interp_values': False,
                          'use_core_masses': False},
           'SN_MODEL_c': {'mechanism': 'Fryer+12-rapid', 'max_NS_mass': 3.0,
                          'use_interp_values': False,
                          'use_core_masses': False}},
          {'SN_MODEL_d': {'mechanism': 'direct_he_core', 'PISN': None,
                          'use_interp_values': False,
                          'use_core_masses': False}},
          {'SN_MODEL_e': {'PPI_extra_mass_loss': 0.0, 'use_interp_values':
                          False, 'use_core_masses': False},
           'SN_MODEL_v2_02': {'mechanism': 'Fryer+12-delayed', 'engine': '',
                              'PISN': 'Hendriks+23', 'PISN_CO_shift': 5.0,
                              'PPI_extra_mass_loss': -20.0,
                              'ECSN': 'Tauris+15',
                              'conserve_hydrogen_envelope': False,
                              'conserve_hydrogen_PPI': False,
                              'use_profiles': True,
                              'approx_at_he_depletion': False,
                              'use_interp_values': False,
                              'use_core_masses': False}}]


def custom(case, R):
    mod = CUSTOM[case['k']]
    runs = [run_(STATES[i % 4], STATES[6], PRIM[0], f1=m, f2=5.,
                 name='u%d' % i) for i, m in enumerate(MASS) if m > 2]
    check_grid(R, runs, "models %s" % list(mod), list(mod), case['single'],
               models=mod, star_2_CO=False)


def snap(path):
    """Everything in a file."""
    import h5py
    out = {}

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            out[name] = repr(o[()].tolist()), str(o.dtype.names)
    with h5py.File(path, 'r') as f:
        f.visititems(visit)
    return out


def add(case, R):
    import h5py

    from posydon.grids.post_processing import (add_post_processed_quantities,
                                               post_process_grid)
    from posydon.grids.psygrid import PSyGrid
    from posydon.grids.SN_MODELS import SN_MODELS
    how, single, n = case['how'], case['single'], case['n']
    tag = "write back (%s)" % how

    def one(p, names, change=None, cols=None):
        g = PSyGrid(verbose=False)
        with quiet():
            g.load(p, lazy=case['lazy'])
            try:
                dirs, ex = post_process_grid(
                    g, SN_MODELS={m: SN_MODELS[m] for m in names},
                    single_star=single, star_2_CO=False)
                if cols is not None:
                    ex = {c: ex[c] for c in cols}
                keep = {c: list(v) for c, v in ex.items()}
                if change:
                    dirs = change(list(dirs))
                add_post_processed_quantities(g, dirs, ex)
            finally:
                g.close()
        R.step()
        return keep

    def read(p, names, ex, before, lazy):
        g = PSyGrid(verbose=False)
        with quiet():
            g.load(p, lazy=lazy)
        fv = g.final_values
        extra = [c for c in ex if 'SN_MODEL' not in c]
        old = [c for c in before if c not in extra]
        R.eq(sorted(fv.dtype.names), sorted(old + extra), tag + ": columns")
        for c in old:
            R.check(all(same(x, y) for x, y in zip(fv[c], before[c])),
                    "%s: %s became %r" % (tag, c, list(fv[c])))
        for c in extra:
            R.check(len(fv[c]) == n and all(
                same(x, y) for x, y in zip(fv[c], ex[c])),
                "%s: %s is %r, expected %r" % (tag, c, list(fv[c]), ex[c]))
        R.eq(sorted(g.SN_MODELS), sorted(names), tag + ": models")
        for m in names:
            ds = g.SN_MODELS[m]
            for k in (1,) if single else (1, 2):
                for q in Q:
                    c = 'S%d_%s_%s' % (k, m, q)
                    x = ds['S%d_%s' % (k, q)]
                    R.check(len(x) == n and all(
                        same(u, v) for u, v in zip(x, ex[c])),
                        "%s: %s is %r, expected %r" % (
                            tag, c, list(x), ex[c]))
                    for i in range(n):
                        v = g.get_SN_run_data(i, m)['S%d_%s' % (k, q)]
                        R.check(same(v, ex[c][i]), "%s: %s of run %d is %r" %
                                (tag, c, i, v))
        for i in range(n):
            R.check(len(g[i].history1) > 0, tag + ": run %d is lost" % i)
        g.close()
        with h5py.File(p, 'r') as f:
            for m in names:
                at = f['/grid/SN_MODELS/' + m].attrs
                for a, v in model(m).items():
                    R.check(a in at and str(at[a]) == str(v),
                            "%s: parameter %s of %s" % (tag, a, m))
    with R.tmp() as d:
        p = d + '/g.h5'
        runs = some(n, single)
        write(p, runs, single)
        with h5py.File(p, 'r') as f:
            fv = f['/grid/final_values'][()]
        before = {c: [x.decode() if isinstance(x, bytes) else float(x)
                      for x in fv[c]] for c in fv.dtype.names}
        raw = {k: v for k, v in snap(p).items() if 'final_values' not in k}
        names = FEW
        if how == 'wrong':
            for ch in (lambda x: x[::-1], lambda x: x[:-1],
                       lambda x: x[1:] + x[:1], lambda x: x + x[:1],
                       lambda x: ['other'] + list(x[1:])):
                s0 = snap(p)
                try:
                    one(p, FEW[:1], ch)
                    R.fail(tag + ": values of other runs are accepted")
                except ValueError:
                    pass
                R.check(snap(p) == s0, tag + ": the file changed")
            return
        if how == 'empty':
            s0 = snap(p)
            one(p, FEW[:1], cols=[])
            R.check(snap(p) == s0, tag + ": the file changed")
            return
        ex = one(p, names)
        if how == 'again':
            ex = one(p, names)
        elif how == 'other':
            names = ['SN_MODEL_v2_05', 'SN_MODEL_v2_01', 'SN_MODEL_v2_20']
            ex = one(p, names)
        elif how == 'fewer':
            names = FEW[:1]
            ex = one(p, names)
        for lazy in (True, False):
            read(p, names, ex, before, lazy)
        now = snap(p)
        for k, v in raw.items():
            R.check(now.get(k) == v, "%s: %s changed" % (tag, k))
        R.outcome(how, single, len(now))


def names(case, R):
    """Models are found by their parameters."""
    from posydon.grids.SN_MODELS import (DEFAULT_SN_MODEL, SN_MODELS,
                                         get_SN_MODEL, get_SN_MODEL_NAME)
    d0, s0 = dict(DEFAULT_SN_MODEL), {k: dict(v) for k, v in
                                      SN_MODELS.items()}

    def key(m):
        return tuple((k, m[k]) for k in sorted(DEFAULT_SN_MODEL)
                     if 'use_' not in k and k != 'ECSN')
    full = {n: dict(DEFAULT_SN_MODEL, **SN_MODELS[n]) for n in SN_MODELS}
    for n in SN_MODELS:
        R.eq(get_SN_MODEL(n), full[n], "model %s" % n)
        got = get_SN_MODEL_NAME(get_SN_MODEL(n))
        R.step()
        R.check(got in full and key(full[got]) == key(full[n]),
                "name of %s: %s" % (n, got))
        for p in DEFAULT_SN_MODEL:
            v = full[n][p]
            alts = [None, 'other', 0.123, not v if isinstance(v, bool) else 1]
            for alt in alts + [m[p] for m in full.values()]:
                m = dict(full[n], **{p: alt})
                want = [x for x in full if key(full[x]) == key(m)]
                for verbose in (False, True):
                    with quiet():
                        got = get_SN_MODEL_NAME(m, verbose=verbose)
                    R.step()
                    R.check(got in want if want else got is None,
                            "name of %s with %s=%r: %r, expected %r" % (
                                n, p, alt, got, want))
                m['additional'] = 1
                with quiet():
                    R.eq(get_SN_MODEL_NAME(m), got, "additional parameter")
            m = dict(full[n])
            del m[p]
            got = get_SN_MODEL_NAME(m)
            free = 'use_' in p or p == 'ECSN'
            R.check((got is not None) == free, "name of %s without %s: %r" % (
                n, p, got))
        R.outcome(n)
        m = get_SN_MODEL(n)
        m['mechanism'] = 'changed'
    R.eq(get_SN_MODEL('no such model'), d0, "unknown model")
    R.check(DEFAULT_SN_MODEL == d0 and SN_MODELS == s0, "the models changed")


def execute(case, R):
    Draw.u = 0.3
    globals()[case['kind']](case, R)
