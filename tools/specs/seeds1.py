BS = "posydon/binary_evol/binarystar.py"
SS = "posydon/binary_evol/singlestar.py"
BP = "posydon/popsyn/binarypopulation.py"
COMMON = '''
import sys, os
import numpy as np
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
MS = 'H-rich_Core_H_burning'
class Step:
    DEFAULT_KWARGS = {}
    def __init__(self, fn=None, **kw):
        self.fn = fn
    def __call__(self, binary):
        self.fn(binary)
def props(fn, states, **kw):
    names = ['step_HMS_HMS','step_CO_HeMS','step_CO_HMS_RLO','step_CO_HeMS_RLO',
             'step_detached','step_disrupted','step_merged','step_initially_single',
             'step_dco','step_SN','step_CE','step_end']
    flow = {(MS, MS, 'detached', e): 'step_detached' for e in states}
    p = SimulationProperties(flow=(lambda: flow, {}), **{n: (Step, {'fn': fn}) for n in names}, **kw)
    p.load_steps()
    return p
def binary(p, **kw):
    return BinaryStar(star_1=SingleStar(mass=10., state=MS), star_2=SingleStar(mass=5., state=MS),
                      state='detached', event='ZAMS', time=0., orbital_period=10., separation=50.,
                      eccentricity=0., properties=p, **kw)
'''
POP = '''
import sys, os
import numpy as np, pandas as pd
from posydon.popsyn.binarypopulation import BinaryPopulation
from posydon.binary_evol.simulationproperties import SimulationProperties
MS = 'H-rich_Core_H_burning'
class Step:
    DEFAULT_KWARGS = {}
    def __init__(self, bad=(), **kw):
        self.bad = bad
    def __call__(self, binary):
        if binary.index in self.bad:
            raise RuntimeError("boom")
        binary.time += 1.0
        binary.event = 'END'
def pop(n, bad=(), **kw):
    names = ['step_HMS_HMS','step_CO_HeMS','step_CO_HMS_RLO','step_CO_HeMS_RLO',
             'step_detached','step_disrupted','step_merged','step_initially_single',
             'step_dco','step_SN','step_CE','step_end']
    flow = {(MS, s2, b, 'ZAMS'): 'step_HMS_HMS' for s2 in (MS, 'massless_remnant')
            for b in ('detached', 'initially_single_star')}
    p = SimulationProperties(flow=(lambda: flow, {}), **{s: (Step, {'bad': bad}) for s in names})
    a = dict(number_of_binaries=n, entropy=42, metallicity=1.0, metallicities=[1.0],
             star_formation='burst', population_properties=p,
             only_select_columns=['state','event','time'],
             S1_kwargs={'only_select_columns':['state','mass']},
             S2_kwargs={'only_select_columns':['state','mass']}, include_S1=True, include_S2=True)
    a.update(kw)
    return BinaryPopulation(**a)
'''
SEEDS = {
 "c01-alarm-once": dict(property="C01",
  needs="an evolution of several steps that together exceed the time allotment of a single step",
  breaks="the time allotment is shared by all steps instead of being granted to every step",
  edits=[(BS, "        max_n_steps = self.properties.max_n_steps_per_binary\n        n_steps = 0\n",
              "        max_n_steps = self.properties.max_n_steps_per_binary\n        n_steps = 0\n        signal.alarm(MAXIMUM_STEP_TIME)\n"),
         (BS, "                signal.alarm(MAXIMUM_STEP_TIME)\n                self.run_step()\n",
              "                self.run_step()\n")],
  demo=COMMON + '''
import time
import posydon.binary_evol.binarystar as M
M.MAXIMUM_STEP_TIME = 2
k = [0]
def fn(b):
    k[0] += 1
    t = time.time()
    while time.time() - t < 1.2:
        pass
    b.event = 'END' if k[0] == 3 else 'maxtime'
b = binary(props(fn, ['ZAMS', 'maxtime']))
b.evolve()
assert b.event == 'END' and k[0] == 3
'''),
 "c02-redirect-verbose": dict(property="C02",
  needs="history_verbose on, a redirect event, and the star histories being compared with the binary's",
  breaks="star histories miss the rows of redirect events when the verbose history records them for the binary",
  edits=[(BS, "        # Append to the individual star history lists\n        self.star_1.append_state()\n        self.star_2.append_state()\n",
   "        # Append to the individual star history lists\n        for star in (self.star_1, self.star_2):\n            if self.event is None or not self.event.startswith('redirect') \\\n                    or star.state != star.state_history[-1]:\n                star.append_state()\n")],
  demo=COMMON + '''
k = [0]
def fn(b):
    k[0] += 1
    b.time += 1
    b.event = ['redirect_from_ZAMS', 'END'][k[0] - 1]
b = binary(props(fn, ['ZAMS', 'redirect_from_ZAMS']), history_verbose=True)
b.evolve()
n = len(b.time_history)
assert n == 3, n
assert len(b.star_1.mass_history) == n, (n, len(b.star_1.mass_history))
assert len(b.star_2.state_history) == n
'''),
 "c03-restore-last": dict(property="C03",
  needs="restoring to a negative row index or to a row whose value was changed in place",
  breaks="the star's current values after restoring to a row other than the first come from the row before it for properties that are None there",
  edits=[(SS, "            setattr(self, p, getattr(self, '{}_history'.format(p))[i])\n\n            ## delete",
   "            history = getattr(self, '{}_history'.format(p))\n            value = history[i]\n            if value is None:\n                # fall back to the last known value\n                value = next((v for v in history[i::-1] if v is not None), None)\n            setattr(self, p, value)\n\n            ## delete")],
  demo=COMMON + '''
k = [0]
def fn(b):
    k[0] += 1
    b.time += 1
    b.star_1.he_core_mass = 2.0 if k[0] == 1 else None
    b.event = ['maxtime', 'oRLO1', 'END'][k[0] - 1]
b = binary(props(fn, ['ZAMS', 'maxtime', 'oRLO1']))
b.evolve()
b.restore(2)
assert b.star_1.he_core_mass is None, b.star_1.he_core_mass
assert len(b.time_history) == 3
'''),
 "c04-shared-override": dict(property="C04",
  needs="building a chart with overrides and afterwards a default chart in the same process",
  breaks="overrides of one flow chart leak into the default chart",
  edits=[("posydon/binary_evol/flow_chart.py", "FLOW_CHART.copy()", "FLOW_CHART")],
  demo='''
from posydon.binary_evol import flow_chart as F
MS = 'H-rich_Core_H_burning'
k = (MS, MS, 'detached', 'ZAMS')
a = dict(F.flow_chart())
F.flow_chart(CHANGE_FLOW_CHART={k: 'step_end'})
b = dict(F.flow_chart())
assert a == b, 'override leaked'
'''),
 "c05-dump-leftover": dict(property="C05",
  needs="a dump rate leaving exactly one binary after the last dump, without table breakdown",
  breaks="a single binary left over after the last dump is never written",
  edits=[(BP, "        if ((len(self.manager.binaries) != 0\n                or len(self.manager.history_dfs) != 0)\n",
   "        if ((len(self.manager.binaries) > 1\n                or len(self.manager.history_dfs) != 0)\n")],
  demo=POP + '''
p = pop(4, dump_rate=2, temp_directory=os.path.join(os.getcwd(), 'b'))
p.evolve(optimize_ram=True, breakdown_to_df=False)
h = pd.read_hdf('b/evolution.combined.h5', 'oneline')
assert sorted(h.index) == [0, 1, 2, 3], sorted(h.index)
'''),
 "c05-failed-flag": dict(property="C05",
  needs="a failing binary that is followed by a dump of a batch whose last binary is fine",
  breaks="a binary that fails in a POSYDON error is dropped from the manager instead of being reported as failed",
  edits=[(BP, "                except POSYDONError as posydon_error:\n                    set_binary_to_failed(binary)\n                    binary.traceback = traceback.format_exc()\n",
   "                except POSYDONError as posydon_error:\n                    binary.event = 'FAILED'\n                    binary.traceback = traceback.format_exc()\n")],
  demo=POP + '''
from posydon.utils.posydonerror import FlowError
def call(self, binary):
    if binary.index == 1:
        raise FlowError('x')
    binary.time += 1.0
    binary.event = 'END'
Step.__call__ = call
p = pop(3, dump_rate=1, temp_directory=os.path.join(os.getcwd(), 'b'))
p.evolve(optimize_ram=True, breakdown_to_df=True)
h = pd.read_hdf('b/evolution.combined.h5', 'history')
r = h.loc[[1]]
assert list(r['event']) == ['ZAMS', 'FAILED'], list(r['event'])
assert list(r['state'])[-1] == 'ERR', list(r['state'])
'''),
 "c06-remove-early": dict(property="C06",
  needs="a failure while the metadata of the combined file is being written",
  breaks="temporary files are removed before the combined file is complete",
  edits=[(BP, "            # store population metadata\n            tmp_df = pd.DataFrame()\n            for c in saved_ini_parameters:\n                if c == 'posydon_version':\n                    tmp_df[c] = [posydon.__version__]\n                else:\n                    tmp_df[c] = [self.kwargs[c]]\n            store.append('ini_parameters', tmp_df)\n\n            tmp_df = pd.DataFrame(\n                index=[self.metallicity],\n                data={'simulated_mass': simulated_mass,\n                      'simulated_mass_single': simulated_mass_single,\n                      'simulated_mass_binaries': simulated_mass_binaries,\n                      'number_of_systems': number_of_systems})\n            tmp_df.index.name = 'metallicity'\n            store.append('mass_per_metallicity', tmp_df)\n\n        # only remove the files once they've been written to the new file\n        for f in combined_files:\n            os.remove(f)\n",
   "            # the binaries are in the new file\n            for f in combined_files:\n                os.remove(f)\n\n            # store population metadata\n            tmp_df = pd.DataFrame()\n            for c in saved_ini_parameters:\n                if c == 'posydon_version':\n                    tmp_df[c] = [posydon.__version__]\n                else:\n                    tmp_df[c] = [self.kwargs[c]]\n            store.append('ini_parameters', tmp_df)\n\n            tmp_df = pd.DataFrame(\n                index=[self.metallicity],\n                data={'simulated_mass': simulated_mass,\n                      'simulated_mass_single': simulated_mass_single,\n                      'simulated_mass_binaries': simulated_mass_binaries,\n                      'number_of_systems': number_of_systems})\n            tmp_df.index.name = 'metallicity'\n            store.append('mass_per_metallicity', tmp_df)\n")],
  demo=POP + '''
p = pop(3, dump_rate=1, temp_directory=os.path.join(os.getcwd(), 'b'))
orig = pd.HDFStore.append
def append(self, key, *a, **k):
    if key == 'mass_per_metallicity' and 'combined' in self._path:
        os._exit_pending = True
        raise KeyboardInterrupt
    return orig(self, key, *a, **k)
pd.HDFStore.append = append
try:
    p.evolve(optimize_ram=True, breakdown_to_df=True)
except KeyboardInterrupt:
    pass
# the combined file was being written when the process died: it is torn
found = set()
for f in os.listdir('b'):
    if 'combined' not in f:
        found |= set(pd.read_hdf('b/' + f, 'oneline').index)
assert found == {0, 1, 2}, found
'''),
 "c07-mpi-same": dict(property="C07",
  needs="two metallicities run in an MPI layout with the same entropy",
  breaks="all metallicities of an MPI run draw the same binaries",
  edits=[(BP, "            met_shift = self.metallicities.index(self.metallicity)\n            seq = np.random.SeedSequence(entropy=self.entropy + met_shift)\n            seed_seq",
   "            met_shift = self.metallicities.index(self.metallicities[0])\n            seq = np.random.SeedSequence(entropy=self.entropy + met_shift)\n            seed_seq")],
  demo=POP + '''
class C:
    def Get_rank(self): return 1
    def Get_size(self): return 2
m = []
for z in (1.0, 0.1):
    p = pop(2, comm=C(), metallicity=z, metallicities=[1.0, 0.1])
    m.append(p.manager.generate(index=0, **p.kwargs).star_1.mass)
assert m[0] != m[1], m
'''),
 "c08-sana-edge": dict(property="C08",
  needs="a primary exactly around the mass break together with a random number at the end of its range",
  breaks="periods of low-mass primaries can exceed the configured maximum",
  edits=[("posydon/popsyn/distributions.py", "            periods[low_mass_mask] = 10**rng.uniform(\n                np.log10(self.p_min),\n                np.log10(self.p_max),\n                size=n_low\n            )\n",
   "            periods[low_mass_mask] = 10**rng.uniform(\n                np.log10(self.p_min),\n                np.log10(max(self.p_max, 10**1.5)),\n                size=n_low\n            )\n")],
  demo='''
import numpy as np
from posydon.popsyn.independent_sample import generate_independent_samples
o, e, m1, m2 = generate_independent_samples('period', number_of_binaries=2000,
    primary_mass_min=7, primary_mass_max=14, orbital_period_min=1.0, orbital_period_max=8.0,
    RNG=np.random.default_rng(1))
assert o.max() <= 8.0, o.max()
'''),
 "c09-kick-wrap": dict(property="C09",
  needs="an index beyond the number of rows of a file with an odd number of rows, and different kicks per row",
  breaks="the kicks no longer belong to the row of the masses once the file is repeated",
  edits=[("posydon/popsyn/sample_from_file.py", "        while len(kick_1_set)<index+number_of_binaries:\n            kick_1_set = np.append(kick_1_set, kick_1_set, axis=0)\n            kick_2_set = np.append(kick_2_set, kick_2_set, axis=0)\n",
   "        while len(kick_1_set)<index+number_of_binaries:\n            kick_1_set = np.append(kick_1_set, kick_1_set, axis=0)\n            kick_2_set = np.append(kick_2_set, kick_2_set[::-1], axis=0)\n")],
  demo='''
from posydon.popsyn.sample_from_file import get_kick_samples_from_file
open('s.csv', 'w').write("m1,m2,w1,w2\\n10,5,1,11\\n20,6,2,12\\n30,7,3,13\\n")
k1, k2 = get_kick_samples_from_file(read_samples_from_file='s.csv', number_of_binaries=1, index=3)
assert k1[0][0] == 1 and k2[0][0] == 11, (k1, k2)
'''),
}
