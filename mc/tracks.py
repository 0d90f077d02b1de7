"""Single-star grids of closed-form tracks.

The real GRIDInterpolator code runs on them; only the HDF5 file it would
read is replaced by tables computed here.
"""
import numpy as np

MSOL, RSOL, SECYER = 1.9892e33, 6.9598e10, 3.1558149984e7
NPTS = 60
_X = 1.0 - (1.0 - np.linspace(0.0, 1.0, NPTS)) ** 2.0

H_MASSES = [0.8, 1.0, 1.4, 2.0, 4.0, 8.0, 12.0, 16.0, 24.0, 40.0]
HE_MASSES = [0.5, 1.0, 2.0, 4.0, 6.0, 9.0, 14.0, 20.0]
FINAL = ['S1_avg_c_in_c_core_at_He_depletion',
         'S1_co_core_mass_at_He_depletion', 'S1_m_core_CE_1cent',
         'S1_m_core_CE_10cent', 'S1_m_core_CE_30cent',
         'S1_m_core_CE_pure_He_star_10cent', 'S1_r_core_CE_1cent',
         'S1_r_core_CE_10cent', 'S1_r_core_CE_30cent',
         'S1_r_core_CE_pure_He_star_10cent']
PROFILE = ['radius', 'mass', 'logRho', 'omega', 'energy',
           'x_mass_fraction_H', 'y_mass_fraction_He',
           'z_mass_fraction_metals', 'neutral_fraction_H',
           'neutral_fraction_He', 'avg_charge_He']


def lifetime(kind, M):
    return (1.0e10 * M ** -2.5 + 2.0e6) if kind == 'H' else \
        (5.0e8 * M ** -2.2 + 3.0e5)


def table(kind, M):
    """All columns of a track of initial mass M."""
    x = _X
    T = lifetime(kind, M)
    d = {'age': x * T}
    loss = (0.02 + 0.004 * M) if kind == 'H' else 0.01 * M ** 0.5
    d['mass'] = M * (1.0 - loss * x ** 3)
    d['mdot'] = -M * loss * 3.0 * x ** 2 / T
    if kind == 'H':
        d['log_R'] = 0.6 * np.log10(M) + 0.35 * x + 1.8 * x ** 8
        d['log_L'] = 3.2 * np.log10(M) + 0.5 * x + 0.3 * x ** 6
        d['center_h1'] = np.clip(0.7 * (1.0 - x / 0.8), 0.0, None)
        d['center_he4'] = np.where(x < 0.8, 0.98 - d['center_h1'],
                                   np.clip(0.98 * (0.97 - x) / 0.17, 0, None))
        d['surface_h1'] = 0.7 + 0.0 * x
        d['he_core_mass'] = np.where(x < 0.8, 0.0,
                                     M * 0.25 * (1 + 0.5 * (x - 0.8)))
        d['log_LH'] = d['log_L'] - np.where(x < 0.8, 0.0, 0.1)
        d['log_LHe'] = np.where(x < 0.85, -9.0, d['log_L'] - 0.6)
    else:
        d['log_R'] = 0.5 * np.log10(M) - 0.4 + 0.2 * x + 1.4 * x ** 8
        d['log_L'] = 2.5 * np.log10(M) + 2.2 + 0.3 * x
        d['center_h1'] = 0.0 * x
        d['center_he4'] = np.clip(0.98 * (0.9 - x) / 0.9, 0.0, None)
        d['surface_h1'] = 0.0 * x
        d['he_core_mass'] = d['mass'].copy()
        d['log_LH'] = -9.0 + 0.0 * x
        d['log_LHe'] = d['log_L'] + 0.0
    d['center_c12'] = 0.5 * (0.98 - d['center_h1'] - d['center_he4'])
    d['center_o16'] = d['center_c12'] + 0.001
    d['center_n14'] = 0.01 + 0.0 * x
    d['surface_he4'] = 0.98 - d['surface_h1']
    d['surface_he3'] = 1e-5 + 0.0 * x
    for k, v in (('c12', 1e-3), ('n14', 2e-3), ('o16', 3e-3)):
        d['surface_' + k] = v * (1.0 + x)
    d['log_LZ'] = d['log_L'] - 4.0
    d['log_Lnuc'] = d['log_L'] + 0.01
    d['log_Teff'] = 3.762 + 0.25 * d['log_L'] - 0.5 * d['log_R']
    R = 10.0 ** d['log_R']
    d['inertia'] = 0.08 * d['mass'] * R ** 2 / (1 + 0.01 * R) * MSOL * RSOL ** 2
    d['co_core_mass'] = np.where(d['center_c12'] > 0.2,
                                 0.6 * d['he_core_mass'], 0.0)
    d['c_core_mass'] = d['co_core_mass'] * 1.0
    d['o_core_mass'] = d['co_core_mass'] * 0.5
    d['he_core_radius'] = 0.2 + 0.1 * x
    for k in ('c', 'o', 'co'):
        d[k + '_core_radius'] = {'c': 0.05, 'o': 0.04, 'co': 0.06}[k] * (1 + x)
    d['c12_c12'] = -20.0 + 5.0 * x
    d['center_gamma'] = 0.1 + 0.3 * x
    d['avg_c_in_c_core'] = 0.3 + 0.05 * x
    d['conv_mx1_top_r'] = 0.2 * R ** 0.5
    d['conv_mx1_bot_r'] = 0.0 * x
    d['mass_conv_reg_fortides'] = 0.1 * d['mass'] * x
    d['thickness_conv_reg_fortides'] = 0.3 * R * x
    d['radius_conv_reg_fortides'] = 0.8 * R * x
    d['conv_env_top_mass'] = d['mass'] * 1.0
    d['conv_env_bot_mass'] = 0.9 * d['mass']
    d['conv_env_top_radius'] = R * 1.0
    d['conv_env_bot_radius'] = 0.7 * R
    d['conv_env_turnover_time_g'] = 1.0e6 * (1 + x)
    d['conv_env_turnover_time_l_b'] = 2.0e6 * (1 + x)
    d['conv_env_turnover_time_l_t'] = 3.0e6 * (1 + x)
    d['envelope_binding_energy'] = -1e48 * (1 + x)
    for i, k in enumerate(('1cent', '10cent', '30cent', 'pure_He_star_10cent')):
        d['lambda_CE_' + k] = (0.5 + 0.1 * i) * (1 + x)
    d['spin_parameter'] = 0.0 * x
    d['log_total_angular_momentum'] = 0.0 * x
    d['surf_avg_omega'] = 0.0 * x
    d['surf_avg_omega_div_omega_crit'] = 0.0 * x
    d['total_mass_h1'] = d['mass'] * d['surface_h1']
    d['total_mass_he4'] = d['mass'] * d['surface_he4']
    return {k: np.array(v, dtype=float) for k, v in d.items()}


def final(kind, M):
    return {k: (0.1 + 0.01 * i) * M + (0.0 if kind == 'H' else 0.3)
            for i, k in enumerate(FINAL)}


def profile(kind, M, n=12):
    y = np.linspace(1.0, 1e-3, n)
    t = table(kind, M)
    p = np.zeros(n, dtype=[(k, 'f8') for k in PROFILE])
    p['mass'] = y * t['mass'][-1]
    p['radius'] = y ** 2 * 10.0 ** t['log_R'][-1]
    p['logRho'] = 2.0 - 8.0 * y
    p['energy'] = 1e15 * (1.1 - y)
    p['x_mass_fraction_H'] = 0.7 * y if kind == 'H' else 0.0
    p['y_mass_fraction_He'] = 0.98 - p['x_mass_fraction_H']
    p['z_mass_fraction_metals'] = 0.02
    p['neutral_fraction_H'] = 0.1 * y
    p['neutral_fraction_He'] = 0.05 * y
    p['avg_charge_He'] = 2.0 - y
    return p


class _Run:
    def __init__(self, p):
        self.final_profile1 = p


def make_grid(kind, masses=None):
    """A real GRIDInterpolator holding the tables above."""
    from posydon.interpolation.interpolation import GRIDInterpolator
    masses = masses or (H_MASSES if kind == 'H' else HE_MASSES)
    g = GRIDInterpolator.__new__(GRIDInterpolator)
    g.path, g.verbose = None, False
    g.grid = [_Run(profile(kind, m)) for m in masses]
    g.grid_mass = np.array(masses, dtype=float)
    g.grid_data = {m: table(kind, m) for m in masses}
    g.grid_age = np.array([g.grid_data[m]['age'][-1] for m in masses])
    g.grid_final_values = {m: final(kind, m) for m in masses}
    g.grid_profile = {m: {k: profile(kind, m)[k] for k in PROFILE}
                      for m in masses}
    g.keys = tuple(g.grid_data[masses[0]])
    g.final_keys = tuple(FINAL)
    g.profile_keys = tuple(PROFILE)
    return g


_MATCHER = {}


def matcher(**kw):
    """A real TrackMatcher on the closed-form grids (cached per options)."""
    from posydon.binary_evol.track_match import TrackMatcher
    key = repr(sorted(kw.items()))
    if key not in _MATCHER:
        _MATCHER[key] = TrackMatcher(grid_Hrich=make_grid('H'),
                                     grid_strippedHe=make_grid('He'),
                                     metallicity=1.0, **kw)
    return _MATCHER[key]


def reference_track(kind, M):
    """Independent interpolation between tracks: linear in mass, pointwise."""
    ms = H_MASSES if kind == 'H' else HE_MASSES
    if M in ms:
        return table(kind, M)
    lo = max(m for m in ms if m < M)
    hi = min(m for m in ms if m > M)
    w = (M - lo) / (hi - lo)
    a, b = table(kind, lo), table(kind, hi)
    return {k: a[k] + w * (b[k] - a[k]) for k in a}
