SN = "posydon/binary_evol/SN/step_SN.py"
SF = "posydon/popsyn/star_formation_history.py"
TI = "posydon/binary_evol/DT/tides/default_tides.py"
MB = "posydon/binary_evol/DT/magnetic_braking/prescriptions.py"
SM = "posydon/binary_evol/DT/step_merged.py"
TF = "posydon/grids/termination_flags.py"
DS = "posydon/grids/downsampling.py"
PG = "posydon/grids/psygrid.py"
CE = "posydon/binary_evol/CE/step_CEE.py"
SEEDS = {
 "c16-max-time": dict(property="C16",
  needs="ages from a file, and a maximum time other than the maximum simulation time",
  breaks="formation times from a file of ages are counted from the maximum simulation time",
  edits=[(SF, "            current_binary_ages = 10.0**current_binary_ages\n        return max_time - current_binary_ages\n\n    if scenario in [\"custom_linear_histogram\"",
              "            current_binary_ages = 10.0**current_binary_ages\n        return max_time_default - current_binary_ages\n\n    if scenario in [\"custom_linear_histogram\"")],
  demo='''
import numpy as np
from posydon.popsyn.star_formation_history import get_formation_times
np.savetxt('ages.txt', np.array([[1e6, 2e6, 3e6], [1., 1., 1.]]).T)
t = get_formation_times(5, star_formation='custom_linear', custom_ages_file='ages.txt',
                        max_time=1e9, max_simulation_time=9e9, RNG=np.random.default_rng(1))
assert ((t >= 1e9 - 3e6) & (t <= 1e9)).all(), t
'''),
 "c20-hendriks-core": dict(property="C20",
  needs="the Hendriks+23 prescription with mass loss reaching below the CO core mass",
  breaks="the CO core keeps its mass although the pulsations leave less mass",
  edits=[(SN, "                        if PISN_star.co_core_mass > m_PISN:\n                            PISN_star.co_core_mass = m_PISN\n", "")],
  demo='''
import numpy as np
from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.singlestar import SingleStar
S = StepSN(mechanism='Fryer+12-rapid', PISN='Hendriks+23', PISN_CO_shift=0.0, PPI_extra_mass_loss=45.0,
           use_interp_values=False, use_profiles=False, use_core_masses=True, conserve_hydrogen_PPI=False)
seen = []
orig = S.compute_m_rembar
def rec(star, m):
    seen.append((star.mass, star.he_core_mass, star.co_core_mass))
    return orig(star, m)
S.compute_m_rembar = rec
for co in (39.0, 41.0):
    s = SingleStar(mass=60., he_core_mass=50.0, co_core_mass=co, metallicity=1.0, state='H-rich_Core_C_depleted')
    S.PISN_prescription(s)
assert seen
for m, he, c in seen:
    assert he <= m + 1e-9 and c <= m + 1e-9, seen
'''),
 "c21-tilt-sign": dict(property="C21",
  needs="a kick with a component against the orbital angular momentum in a circular orbit",
  breaks="the sign of the tilt is lost for circular orbits",
  edits=[(SN, "            if Vkz < 0: tilt *= -1", "            if Vkz < 0 and epre > 0: tilt *= -1")],
  demo='''
import math
import numpy as np
from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties
def run(e, ph):
    s = SingleStar(mass=14., he_core_mass=14., co_core_mass=11.0, metallicity=1.0, state='stripped_He_Core_C_depleted',
                   log_total_angular_momentum=49.0, center_he4=0.0, center_h1=0.0, center_c12=0.0, surface_h1=0.0,
                   log_LH=-20., log_LHe=-20., log_Lnuc=-5.0, natal_kick_array=[120.0, ph, 1.2, 2.0])
    o = SingleStar(mass=20., state='H-rich_Core_H_burning', center_h1=0.5, center_he4=0.48, center_c12=0.001,
                   surface_h1=0.7, log_LH=3.0, log_LHe=-20.0, log_Lnuc=3.0)
    b = BinaryStar(star_1=s, star_2=o, state='detached', event='CC1', time=1.5e7, separation=100., orbital_period=20.,
                   eccentricity=e, V_sys=[0., 0., 0.], properties=SimulationProperties())
    StepSN(mechanism='Fryer+12-rapid', PISN=None, use_interp_values=False, use_profiles=False,
           use_core_masses=True, kick=True)(b)
    assert b.state == 'detached', b.state
    return b.star_1.spin_orbit_tilt_first_SN
for e in (0.0, 0.2):
    up, down = run(e, 0.3), run(e, math.pi - 0.3)
    assert up > 0 and down < 0, (e, up, down)
'''),
 "c23-tide-core": dict(property="C23",
  needs="two stars with different convective regions, one near the centre and one not",
  breaks="whether the primary has a convective core is decided with the other star's region",
  edits=[(TI, "    if (R_conv_pri > R1 or R_conv_pri <= 0.0\n            or rbot_env1 / R1 > 0.1):",
              "    if (R_conv_pri > R1 or R_conv_pri <= 0.0\n            or rbot_env2 / R2 > 0.1):")],
  demo='''
import types
from posydon.binary_evol.DT.tides.default_tides import default_tides
def star(core):
    return types.SimpleNamespace(latest=dict(mass=10., R=5., omega=900., mass_conv_reg_fortides=0.0,
        thickness_conv_reg_fortides=0.0, radius_conv_reg_fortides=0.0, conv_mx1_top_r=1.0 if core else 4.9,
        conv_mx1_bot_r=0.0 if core else 4.0, surface_h1=0.7, L=1e4, inertia=10.0))
def rates(c1, c2):
    return default_tides(40.0, 0.2, star(c1), star(c2))
# exchanging two otherwise equal stars exchanges the changes of their spins
a, b = rates(True, False), rates(False, True)
assert abs(a[2] - b[3]) <= 1e-9 * abs(b[3]) + 1e-300, (a, b)
assert abs(a[3] - b[2]) <= 1e-9 * abs(b[2]) + 1e-300, (a, b)
assert abs(a[0] - b[0]) <= 1e-9 * abs(a[0]), (a, b)
'''),
 "c23-m15-turnover": dict(property="C23",
  needs="two unsaturated stars of which the companion has the longer convective turnover time",
  breaks="unsaturated magnetic braking (M15) of the primary uses the longer turnover time of both stars",
  edits=[(MB, "            T0_pri * ((tau_conv_1/tau_conv_sol)**2.6)", "            T0_pri * ((max(tau_conv_1, tau_conv_2)/tau_conv_sol)**2.6)")],
  demo='''
import types
from posydon.binary_evol.DT.magnetic_braking.prescriptions import M15_braking
def star(tau):
    return types.SimpleNamespace(latest=dict(mass=1.0, R=1.0, omega=100., inertia=0.07, conv_env_turnover_time_l_b=tau))
a = M15_braking(star(0.02), star(0.03))
b = M15_braking(star(0.03), star(0.02))
assert abs(a[0] - b[1]) <= 1e-12 * abs(a[0]) and abs(a[1] - b[0]) <= 1e-12 * abs(a[1]), (a, b)
'''),
 "c27-core-companion": dict(property="C27",
  needs="the merger of two evolved stars of which only the engulfed one has a CO core",
  breaks="the carbon content of the core of the merger product is the one of the other star",
  edits=[(SM, "                elif (comp.co_core_mass > 0 and star_base.co_core_mass == 0):\n\n                    for abundance_name in parameters_to_mix:\n                        setattr(merged_star, abundance_name, getattr(comp, abundance_name))\n\n                    setattr(merged_star, \"center_gamma\", comp.center_gamma)\n\n                # both stars have CO cores\n                elif (star_base.co_core_mass > 0 and comp.co_core_mass > 0):\n\n                    #TODO",
              "                elif (comp.co_core_mass > 0 and star_base.co_core_mass == 0):\n\n                    for abundance_name in parameters_to_mix[:-1]:\n                        setattr(merged_star, abundance_name, getattr(comp, abundance_name))\n\n                    setattr(merged_star, \"center_gamma\", comp.center_gamma)\n\n                # both stars have CO cores\n                elif (star_base.co_core_mass > 0 and comp.co_core_mass > 0):\n\n                    #TODO")],
  demo='''
from posydon.binary_evol.DT.step_merged import MergedStep
from posydon.binary_evol.singlestar import SingleStar
def star(m, he, co, c):
    return SingleStar(mass=m, he_core_mass=he, co_core_mass=co, c_core_mass=co, o_core_mass=0.0, avg_c_in_c_core=c,
        state='H-rich_Core_He_burning', metallicity=1.0, center_h1=0.0, center_he4=0.5, center_c12=0.2, center_n14=0.,
        center_o16=0.2, surface_h1=0.7, surface_he4=0.28, surface_c12=0.001, surface_n14=0.001, surface_o16=0.001,
        log_LH=2., log_LHe=3., log_Lnuc=3.1, log_LZ=0.0, center_gamma=1.0, surf_avg_omega_div_omega_crit=0.1)
S = MergedStep.__new__(MergedStep)
S.verbose = False
S.rel_mass_lost_HMS_HMS = 0.1
S.merger_critical_rot = 0.4
for co1, co2, want in ((0.0, 2.0, 0.31), (2.0, 0.0, 0.12)):
    m, r = S.merged_star_properties(star(20., 6., co1, 0.12), star(15., 5., co2, 0.31))
    assert abs(m.mass - 35.0) < 1e-9
    assert abs(m.avg_c_in_c_core - want) < 1e-9, (co1, co2, m.avg_c_in_c_core)
'''),
 "c28-start-rlo2": dict(property="C28",
  needs="a run starting at mass transfer from the secondary",
  breaks="runs which start at the overflow of star 2 on purpose are reported as initial overflow",
  edits=[(TF, "        star_history = history2\n        star_mass = binary_history[\"star_2_mass\"]\n        where_rlof = where_rlof_2\n        rel_overflow = rel2\n        indices_with_rlo = np.arange(len(where_rlof))[where_rlof]\n        if not start_at_RLO and indices_with_rlo[0] == 0:",
              "        star_history = history2\n        star_mass = binary_history[\"star_2_mass\"]\n        where_rlof = where_rlof_2\n        rel_overflow = rel2\n        indices_with_rlo = np.arange(len(where_rlof))[where_rlof]\n        if (not start_at_RLO or len(where_rlof) > 2) and indices_with_rlo[0] == 0:")],
  demo='''
import numpy as np
from posydon.grids.termination_flags import get_mass_transfer_flag
n = 4
bh = np.zeros(n, dtype=[(c, float) for c in ('rl_relative_overflow_1', 'rl_relative_overflow_2', 'lg_mtransfer_rate', 'star_1_mass', 'star_2_mass')])
bh['rl_relative_overflow_1'] = -0.5
bh['rl_relative_overflow_2'] = [0.1, 0.1, -0.2, -0.2]
bh['lg_mtransfer_rate'] = [-3, -3, -50, -50]
bh['star_1_mass'] = 10.; bh['star_2_mass'] = 8.
h = np.zeros(n, dtype=[(c, float) for c in ('surface_h1', 'center_h1', 'center_he4', 'center_c12', 'log_LH', 'log_LHe', 'log_Lnuc')])
h['surface_h1'] = 0.7; h['center_h1'] = 0.5; h['center_he4'] = 0.4; h['log_LH'] = 4; h['log_LHe'] = -9; h['log_Lnuc'] = 4
f = get_mass_transfer_flag(bh, h, h, start_at_RLO=True, mesa_flag='max_age')
assert f == 'case_A2', f
f = get_mass_transfer_flag(bh, h, h, start_at_RLO=False, mesa_flag='max_age')
assert f == 'initial_RLOF', f
'''),
 "c29-interval-half": dict(property="C29",
  needs="a profile downsampled with a maximum interval whose right half is smooth",
  breaks="the maximum interval is only respected on one side of the rows kept",
  edits=[(DS, "                DS(k, j, tolerance, max_interval=max_interval)", "                DS(k, j, tolerance, max_interval=max_interval if k - i <= j - k else None)")],
  demo='''
import numpy as np
from posydon.grids.downsampling import TrackDownsampler
for n in range(4, 40):
    for bump in range(1, n - 1):
        x = np.zeros((n, 1)); x[bump] = 1.0
        d = TrackDownsampler(np.arange(n, dtype=float), x)
        d.find_downsample(0.1, max_interval=3.0)
        k = np.where(d.keep)[0]
        assert np.all(np.diff(k) <= 3), (n, bump, k)
'''),
 "c31-noRLO-kept": dict(property="C31",
  needs="joining grids starting at overflow, where a rerun shows that a run never transfers mass",
  breaks="an older run stays in the joined grid although the rerun has no mass transfer",
  edits=[(PG, "                if params_from_path in initial_params:\n                    del initial_params[params_from_path]\n                n_ignored_noRLO += 1",
              "                if initial_params.get(params_from_path, (None,))[0] == grid_index:\n                    del initial_params[params_from_path]\n                n_ignored_noRLO += 1")],
  demo='''
import sys, os
import numpy as np
from posydon.grids.psygrid import PSyGrid, join_grids
import posydon.grids.psygrid as P
class Run:
    def __init__(s, fv): s.final_values = fv
class G(PSyGrid):
    pass
import h5py, json
from posydon.grids.psygrid import GRIDPROPERTIES
def grid(path, runs):
    conf = dict(GRIDPROPERTIES); conf['start_at_RLO'] = True; conf['initial_RLO_fix'] = False
    with h5py.File(path, 'w') as f:
        f.attrs['config'] = json.dumps(str(conf))
        dirs = ['m1_%s_m2_1.0_initial_z_1.0_initial_period_in_days_2.0_grid_index_0' % m for m, _ in runs]
        f.create_dataset('relative_file_paths', data=np.array(dirs, dtype=h5py.string_dtype()))
        iv = np.array([(float(m), 1., 2.) for m, _ in runs], dtype=[(c, float) for c in ('star_1_mass', 'star_2_mass', 'period_days')])
        f.create_dataset('/grid/initial_values', data=iv)
        fv = np.array([(t.encode(),) for _, t in runs], dtype=[('termination_flag_1', 'S70')])
        f.create_dataset('/grid/final_values', data=fv)
        for i in range(len(runs)):
            f.create_group('/grid/run%d/' % i)
grid('a.h5', [('10.0', 'max_age'), ('20.0', 'max_age')])
grid('b.h5', [('10.0', 'ignored_no_RLO')])
join_grids(['a.h5', 'b.h5'], 'o.h5', verbose=False)
g = PSyGrid('o.h5')
assert list(g.initial_values['star_1_mass']) == [20.0], g.initial_values
'''),
}
