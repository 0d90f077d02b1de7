"""Small MESA run directories."""
import gzip
import os

BH = ["model_number", "age", "star_1_mass", "star_2_mass", "period_days",
      "binary_separation", "lg_system_mdot_1", "lg_system_mdot_2",
      "lg_wind_mdot_1", "lg_wind_mdot_2", "lg_mstar_dot_1", "lg_mstar_dot_2",
      "lg_mtransfer_rate", "xfer_fraction", "rl_relative_overflow_1",
      "rl_relative_overflow_2", "trap_radius", "acc_radius", "t_sync_rad_1",
      "t_sync_conv_1", "t_sync_rad_2", "t_sync_conv_2"]
STAR = ["he_core_mass", "c_core_mass", "o_core_mass", "he_core_radius",
        "c_core_radius", "o_core_radius", "center_h1", "center_he4",
        "center_c12", "center_n14", "center_o16", "surface_h1", "surface_he4",
        "surface_c12", "surface_n14", "surface_o16", "c12_c12",
        "center_gamma", "avg_c_in_c_core", "surf_avg_omega",
        "surf_avg_omega_div_omega_crit", "log_LH", "log_LHe", "log_LZ",
        "log_Lnuc", "log_Teff", "log_L", "log_R", "log_center_T",
        "log_center_Rho", "total_moment_of_inertia", "spin_parameter",
        "log_total_angular_momentum", "conv_env_top_mass",
        "conv_env_bot_mass", "conv_env_top_radius", "conv_env_bot_radius",
        "conv_env_turnover_time_g", "conv_env_turnover_time_l_b",
        "conv_env_turnover_time_l_t", "envelope_binding_energy",
        "mass_conv_reg_fortides", "thickness_conv_reg_fortides",
        "radius_conv_reg_fortides", "lambda_CE_1cent", "lambda_CE_10cent",
        "lambda_CE_30cent", "co_core_mass", "co_core_radius",
        "lambda_CE_pure_He_star_10cent", "log_L_div_Ledd", "total_mass_h1",
        "total_mass_he4"]
PROF = ["radius", "mass", "logRho", "omega", "energy", "x_mass_fraction_H",
        "y_mass_fraction_He", "z_mass_fraction_metals", "neutral_fraction_H",
        "neutral_fraction_He", "avg_charge_He"]
# surface_h1, center_h1, center_he4, center_c12, log_LH, log_LHe, log_Lnuc
COMP = {'A': ('H-rich_Core_H_burning', 0.7, 0.5, 0.4, 0.0, 4.0, -9.0, 4.0),
        'B': ('H-rich_Core_He_burning', 0.7, 0.0, 0.9, 0.01, 3.0, 4.0, 4.1),
        'C': ('H-rich_Core_He_depleted', 0.7, 0., 0.004, 0.4, 3.0, 4.0, 4.1),
        'D': ('H-rich_Core_He_depleted', 0.7, 0., 0.004, 0.05, 3., 4., 4.1),
        'S': ('stripped_He_Core_He_burning', 0.0, 0.0, 0.9, 0.01, -9.0, 4.0,
              4.1)}
KEYS = ["surface_h1", "center_h1", "center_he4", "center_c12", "log_LH",
        "log_LHe", "log_Lnuc"]


def text(header, cols, rows):
    n = max(len(header), len(cols))
    idx = ' '.join(str(i + 1) for i in range(n)) + '\n'
    out = [idx, ' '.join(header) + '\n',
           ' '.join('%.17g' % v for v in header.values()) + '\n', '\n', idx,
           ' '.join(cols) + '\n']
    for r in rows:
        out.append(' '.join('%.17g' % r[c] for c in cols) + '\n')
    return ''.join(out)


def put(path, txt, gz):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if gz:
        with gzip.open(path + '.gz', 'wt') as f:
            f.write(txt)
    else:
        with open(path, 'w') as f:
            f.write(txt)


def brow(run, k, model, age, rlo, m1, m2):
    """Row of a binary history; k makes every written row different."""
    r = {c: 100.0 * i + k + 0.125 for i, c in enumerate(BH)}
    ov = {'0': (-0.5, -0.4, -50.), '1': (0.1, -0.4, -3.), '2': (-0.5, 0.2,
                                                                -3.)}[rlo]
    r.update(model_number=model, age=age, star_1_mass=m1, star_2_mass=m2,
             period_days=run['P'] * (1 + 0.01 * k), rl_relative_overflow_1=ov[
                 0], rl_relative_overflow_2=ov[1], lg_mtransfer_rate=ov[2],
             extra_b=0.5 + k)
    return r


def srow(k, model, age, comp, star, mass):
    r = {c: 1000.0 * star + 10.0 * i + k + 0.25 for i, c in enumerate(STAR)}
    r.update(zip(KEYS, COMP[comp][1:]))
    r.update(model_number=model, star_age=age, star_mass=mass,
             he_core_mass=3.0 + 0.1 * k, co_core_mass=2.0 + (k % 3),
             he_core_radius=0.5, co_core_radius=0.4 + 0.2 * (k % 2),
             extra_s=7.5 + k)
    return r


def name(run, single=False):
    if single:
        return 'initial_mass_%.4f_initial_z_%.4e_grid_index_%d' % (
            run['m1'], run['z'], run.get('idx', 0))
    return 'm1_%.4f_m2_%.4f_initial_z_%.4e_initial_period_in_days_%.4e_' \
        'grid_index_%d' % (run['m1'], run['m2'], run['z'], run['P'],
                           run.get('idx', 0))


def tables(run):
    """Rows as written to the files: bh, h1, h2.  run['rows'] = list of
    (model, age, rlo, comp1, comp2)."""
    out = {'bh': [], 'h1': [], 'h2': []}
    for k, (model, age, rlo, c1, c2) in enumerate(run['rows']):
        m1, m2 = run['m1'] * (1 - 0.01 * k), run['m2'] * (1 - 0.003 * k)
        skip = run.get('skip', {})
        if k not in skip.get('bh', ()):
            out['bh'].append(brow(run, k, model, age, rlo, m1, m2))
        if k not in skip.get('h1', ()):
            out['h1'].append(srow(k, model, age, c1, 1, m1))
        if k not in skip.get('h2', ()):
            out['h2'].append(srow(k, model, age, c2, 2, m2))
    if run.get('nan'):
        out['h1'][1]['log_R'] = float('nan')
    return out


def profile(star, n=4):
    return [dict({c: 10.0 * i + 3 * k * k + star for i, c in enumerate(PROF)},
                 mass=float(n - k) * star, extra_p=0.25 * k)
            for k in range(n)]


def write(root, run, single=False):
    """Write a run; run['files'] subset of {bh,h1,h2,p1,p2,grid}."""
    d = os.path.join(root, run.get('sub', ''), name(run, single))
    gz = run.get('gz', False)
    fl = run.get('files', ('bh', 'h1', 'h2', 'p1', 'p2', 'grid'))
    t = tables(run)
    os.makedirs(d, exist_ok=True)
    out = 'some output\ntermination code: %s\nDATE: 1\n' % run.get(
        'flag', 'max_age')
    put(os.path.join(d, 'out_star1_formation_step0.txt' if single else
                     'out.txt'), out, gz)
    if 'bh' in fl:
        put(d + '/binary_history.data', text(
            {'version_number': 1., 'initial_don_mass': run['m1'] + 0.001,
             'initial_acc_mass': run['m2'] + 0.002, 'initial_period_days':
             run['P'] * 1.001}, BH + ['extra_b'], t['bh']), gz)
    for s in (1, 2):
        if 'h%d' % s in fl:
            put(d + '/LOGS%d/history.data' % s, text(
                {'version_number': 1., 'initial_m': run['m%d' % s] + 0.003,
                 'initial_Z': run['z'], 'initial_Y': 0.25 + 0.01 * s},
                ['model_number', 'star_age', 'star_mass'] + STAR +
                ['extra_s'], t['h%d' % s]), gz)
        if 'p%d' % s in fl:
            put(d + '/LOGS%d/final_profile.data' % s, text(
                {'version_number': 1.}, PROF + ['extra_p'], profile(s)), gz)
    if 'grid' in fl:
        put(d + '/inlist_grid_points',
            '&binary_controls\n\tm1 = %.16gd0\n\tm2 = %.16gd0\n'
            '\tinitial_period_in_days = %.16gd0\n/\n'
            '&star_controls\n\tinitial_z = %.16gd0\n\tZbase = 1d-2\n/\n' % (
                run['m1'], run['m2'], run['P'], run['z']), gz)
    return d
