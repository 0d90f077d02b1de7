CE = "posydon/binary_evol/CE/step_CEE.py"
DT = "posydon/binary_evol/DT/step_detached.py"
TI = "posydon/binary_evol/DT/tides/default_tides.py"
MB = "posydon/binary_evol/DT/magnetic_braking/prescriptions.py"
WI = "posydon/binary_evol/DT/winds/default_winds.py"
CF = "posydon/utils/common_functions.py"
MUT = {
"22a": ("C22", [(CE, "                orbital_period_f, Mdon_i=mc2_i, Mdon_f=mc2_f,\n                Macc_i=mc1_f, alpha=1.0, beta=0.0)", "                orbital_period_f, Mdon_i=mc2_i, Mdon_f=mc2_f,\n                Macc_i=mc1_i, alpha=1.0, beta=0.0)")], "double CE windloss second"),
"22b": ("C22", [(CE, "        if binary.event in [\"oCE2\", \"oDoubleCE2\"]:", "        if binary.event in [\"oCE2\"]:")], "double CE2 merger event"),
"22c": ("C22", [(CE, "            if donor == binary.star_1:\n                binary.event = 'CC1'", "            if donor is binary.star_1 or not double_CE:\n                binary.event = 'CC1'")], "CC2 lost"),
"22d": ("C22", [(CE, "        separation_for_inner_RLO2 = rc2_i / cf.roche_lobe_radius(mc2_i, mc1_i, a_orb=1)", "        separation_for_inner_RLO2 = rc2_i / cf.roche_lobe_radius(mc1_i, mc2_i, a_orb=1)")], "RL order"),
"22e": ("C22", [(CE, "            weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)", "            weight = m1_i / (m1_i + m2_i)")], "weight"),
"22f": ("C22", [(CE, "        if comp_type == 'CO_core':\n            comp_star.he_core_mass = m2_i - Mejected_comp", "        if comp_type == 'CO_core':\n            comp_star.he_core_mass = m2_i")], "he core of the merged comp"),
"22g": ("C22", [(CE, "                    star.surface_he4 = 1 - star.surface_h1 - star.metallicity * Zsun", "                    star.surface_he4 = 1 - star.surface_h1 - Zsun")], "metallicity"),
"22h": ("C22", [(CE, "        if (double_CE and pd.notna(lambda2_CE)):", "        if (double_CE and pd.notna(lambda1_CE)):")], "lambda2 NaN"),
"22i": ("C22", [(CE, "        if mc1_f > mc1_i:\n            mc1_f = mc1_i\n", "        if mc1_f > mc1_i:\n")], "core growing"),
"22j": ("C22", [(CE, "            if key in [\"time\", \"V_sys\", \"mass_transfer_case\",\n                       \"nearest_neighbour_distance\"]:\n                continue\n\n            # the rest become np.nan\n            setattr(binary, key, np.nan)", "            if key in [\"time\", \"mass_transfer_case\",\n                       \"nearest_neighbour_distance\"]:\n                continue\n\n            # the rest become np.nan\n            setattr(binary, key, np.nan)")], "V_sys lost"),
"23a": ("C23", [(TI, "    if (R_conv_pri > R1 or R_conv_pri <= 0.0\n            or rbot_env1 / R1 > 0.1):", "    if (R_conv_pri > R1 or R_conv_pri <= 0.0\n            or rbot_env2 / R2 > 0.1):")], "core test of other star"),
"23b": ("C23", [(TI, "        * (1 + q2) ** (5.0 / 6)\n        * E22", "        * (1 + q1) ** (5.0 / 6)\n        * E22")], "q"),
"23c": ("C23", [(MB, "    if (Rossby_number_pri < 0.14):", "    if (Rossby_number_sec < 0.14):")] , "BAD if matches 2"),
"23d": ("C23", [(DT, "                        binary.separation *= (1 - self.res.y[1][-1]**2)\n                        binary.orbital_period *= (1 - self.res.y[1][-1]**2) ** 1.5", "                        binary.separation *= (1 - binary.eccentricity_history[-1]**2)\n                        binary.orbital_period *= (1 - binary.eccentricity_history[-1]**2) ** 1.5")], "RLO orbit with initial ecc"),
"23e": ("C23", [(DT, "                    elif self.res.t_events[1]:\n                        if secondary == binary.star_1:\n                            binary.state = \"RLO2\"\n                            binary.event = \"oRLO2\"", "                    elif self.res.t_events[1]:\n                        if secondary == binary.star_1:\n                            binary.state = \"RLO2\"\n                            binary.event = \"oRLO1\"")], "event of primary RLO"),
"23f": ("C23", [(DT, "        RL_diff = result_primary[\"R\"] - 0.95*RL\n        return RL_diff", "        RL_diff = result_primary[\"R\"] - 1.05*RL\n        return RL_diff")], "RLO factor"),
"23g": ("C23", [(DT, "                    if secondary == s:\n                        history = self.evo.ev_rel_rlo1(t, [interp1d[\"sep\"], interp1d[\"ecc\"]])\n\n                    elif secondary == s_alt:\n                        history = self.evo.ev_rel_rlo2(t, [interp1d[\"sep\"], interp1d[\"ecc\"]])", "                    if secondary == s_alt:\n                        history = self.evo.ev_rel_rlo1(t, [interp1d[\"sep\"], interp1d[\"ecc\"]])\n\n                    elif secondary == s:\n                        history = self.evo.ev_rel_rlo2(t, [interp1d[\"sep\"], interp1d[\"ecc\"]])")], "rl overflow swapped"),
"23h": ("C23", [(DT, "                    if binary.properties.max_simulation_time - binary.time < 0.0:\n                        binary.event = \"MaxTime_exceeded\"", "                    if binary.properties.max_simulation_time - binary.time <= 0.0:\n                        binary.event = \"MaxTime_exceeded\"")], "maxtime event"),
"23i": ("C23", [(WI, "        [-omega1 * Idot_1 / MOI_1, 100]", "        [-omega1 * Idot_1 / MOI_1, 1e-3]")], "cap"),
"23j": ("C23", [(DT, "        if self.e > 0 and self.e < 10.0 ** (-3):", "        if self.e > 0 and self.e < 10.0 ** (-1):")], "small ecc dropped"),
"23k": ("C23", [(DT, "                primary.lg_mdot_history[len(primary.lg_mdot_history) - len(t) + 1:] = np.log10(mdot_acc[:-1])", "                primary.lg_mdot_history[len(primary.lg_mdot_history) - len(t) + 1:] = np.log10(mdot_acc[1:])")], "shifted accretion history"),
"23l": ("C23", [(DT, "            t = np.arange(binary.time, self.res.t[-1], self.dt)[1:]", "            t = np.arange(0, self.res.t[-1] - binary.time, self.dt)[1:]")], "history relative"),
"23m": ("C23", [(MB, "            T0_pri * ((tau_conv_1/tau_conv_sol)**2.6)", "            T0_pri * ((tau_conv_2/tau_conv_sol)**2.6)")], "tau"),
}
