BS = "posydon/binary_evol/binarystar.py"
PC = "posydon/binary_evol/SN/profile_collapse.py"
SEEDS = {
 "c17-long-history": dict(property="C17",
  needs="a binary with a history of more than 51 steps",
  breaks="the final values of the one-line table are those of the 51st step",
  edits=[(BS, "            initial_final_data = output_df.values[[0, -1], :]  # first/last row",
              "            initial_final_data = output_df.values[[0, min(len(output_df) - 1, 50)], :]  # first/last row")],
  demo='''
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
for n in (2, 10, 80):
    b = BinaryStar(star_1=SingleStar(mass=20., state='H-rich_Core_H_burning'),
                   star_2=SingleStar(mass=10., state='H-rich_Core_H_burning'),
                   time=0., orbital_period=10., separation=50., eccentricity=0., state='detached', event='ZAMS', index=3)
    for i in range(n):
        b.time = 1e5 * (i + 1)
        b.star_1.mass = 20. - 0.1 * i
        b.append_state()
    d = b.to_oneline_df(history=True, only_select_columns=None)
    assert float(d['time_f'].iloc[0]) == 1e5 * n, (n, d['time_f'])
    assert abs(float(d['S1_mass_f'].iloc[0]) - b.star_1.mass) < 1e-12
'''),
 "c34-radiated": dict(property="C34",
  needs="a rotating profile which forms a disk around a black hole of changing spin",
  breaks="the radiated mass uses the efficiency of the next cell",
  edits=[(PC, "    m_disk_radiated = sum(np.array(dm_disk_array)*np.array(radiation_eff_array))/Mo",
              "    m_disk_radiated = sum(np.array(dm_disk_array)[:-1]*np.array(radiation_eff_array)[1:])/Mo")],
  demo='''
import numpy as np
from posydon.binary_evol.SN.profile_collapse import do_core_collapse_BH
from posydon.utils import constants as const
class S: pass
n, m, size = 60, 12., 2.
y = np.arange(1, n + 1) / n
M = m * y
R = size * (0.1 * y ** (1/3.) + 0.9 * y ** 5)
G, MS, RS = 6.67428e-8, 1.9892e33, 6.9598e10
dM = np.diff(np.concatenate([[0], M])) * MS
V = 4/3. * np.pi * np.diff(np.concatenate([[0], R * RS]) ** 3)
p = np.zeros(n, dtype=[(c, 'f8') for c in ('mass', 'radius', 'logRho', 'omega', 'x_mass_fraction_H', 'y_mass_fraction_He')])
p['mass'], p['radius'], p['logRho'] = M[::-1], R[::-1], np.log10(dM / V)[::-1]
p['omega'] = (0.4 * np.sqrt(G * M * MS / (R * RS) ** 3))[::-1]
s = S(); s.profile = p
d = do_core_collapse_BH(s, m, mass_central_BH=2.51, neutrino_mass_loss=0.1)
assert d['m_disk_radiated'] > 0, d
tot = d['M_BH_total'] + d['m_disk_radiated'] + 0.1
assert abs(tot - m) < 1e-6, (tot, m, d)
'''),
 "c35-order": dict(property="C35",
  needs="post-processed values in another order than the runs of the grid",
  breaks="values are written to other runs than those they were computed for",
  edits=[("posydon/grids/post_processing.py", "if not np.all(np.array(grid.MESA_dirs)\n                  == np.array(MESA_dirs_EXTRA_COLUMNS)):", "if not np.all(np.isin(np.array(MESA_dirs_EXTRA_COLUMNS),\n                          np.array(grid.MESA_dirs))):")],
  demo='''
import json
import h5py
import numpy as np
from posydon.grids.psygrid import PSyGrid, GRIDPROPERTIES
from posydon.grids.post_processing import add_post_processed_quantities
with h5py.File('g.h5', 'w') as f:
    for i in range(3):
        f.create_group('/grid/run%d' % i)
    f.create_dataset('/grid/initial_values', data=np.zeros(3, dtype=[('star_1_mass', 'f8'), ('Z', 'f8')]))
    f.create_dataset('/grid/final_values', data=np.zeros(3, dtype=[('star_1_mass', 'f8'), ('termination_flag_1', 'S70')]))
    f.create_dataset('relative_file_paths', data=np.array(['a', 'b', 'c'], dtype=h5py.string_dtype()))
    f.attrs['config'] = json.dumps(str(dict(GRIDPROPERTIES)))
def add(order):
    g = PSyGrid(verbose=False)
    g.load('g.h5')
    d = [g.MESA_dirs[i] for i in order]
    try:
        add_post_processed_quantities(g, d, {'S1_surface_other': [10. * i for i in order]})
    finally:
        g.close()
for order in ([2, 1, 0], [1, 2, 0], [0, 2, 1]):
    try:
        add(order)
    except ValueError:
        continue
    raise AssertionError(order)
add([0, 1, 2])
g = PSyGrid(verbose=False)
g.load('g.h5')
assert list(g.final_values['S1_surface_other']) == [0., 10., 20.]
'''),
 "c33-many-jobs": dict(property="C33",
  needs="a job array of more than a hundred jobs with a missing one",
  breaks="missing batches are hidden by batches with the same last two digits",
  edits=[("posydon/CLI/popsyn/check.py", "            found_indices.add(int(idx_str))", "            found_indices.add(int(idx_str[-2:]))")],
  demo='''
import os
from posydon.CLI.popsyn.check import find_missing_batch_indices as f
for n, gone in ((3, {1}), (12, {1, 10}), (130, {5, 105, 17})):
    d = 'b%d' % n
    os.makedirs(d)
    for i in range(n):
        if i not in gone:
            open('%s/evolution.combined.%d.h5' % (d, i), 'w').close()
    assert set(f(d, n)) == gone, (n, f(d, n))
'''),
}
