P = "posydon/popsyn/"
DI, IM, NP, SF, TS, GR, SE = [P + x for x in ("distributions.py", "IMFs.py", "norm_pop.py", "star_formation_history.py", "transient_select_funcs.py", "GRB.py", "selection_effects.py")]
DC = "posydon/binary_evol/DT/double_CO.py"
TM = "posydon/binary_evol/track_match.py"
ME = "posydon/binary_evol/MESA/step_mesa.py"
MUT = {
"15a": ("C15", [(NP, "            maximum = np.min(\n                [kwargs['secondary_mass_max'] / m1, np.ones(len(m1))],\n                axis=0)\n\n            # Use", "            maximum = np.ones(len(m1))\n\n            # Use")], "q upper limit"),
"15b": ("C15", [(NP, "            q_max=kwargs.get('q_max', 1.0),\n        )", "            q_max=1.0,\n        )")], "q_max ignored power law"),
"16a": ("C16", [(SF, "                fSFR[last_bin_index + 1:] = 0.0\n\n        if self.Z_min", "                fSFR[last_bin_index + 2:] = 0.0\n\n        if self.Z_min")], "bin above limit kept"),
"16b": ("C16", [(SF, "            if first_bin_index == last_bin_index:", "            if first_bin_index == last_bin_index and first_bin_index > 0:")], "same first bin"),
"16c": ("C16", [(SF, "        if \"log10\" in scenario:\n            current_binary_ages = 10.0**current_binary_ages\n        return max_time - current_binary_ages\n\n    if scenario in [\"custom_linear_histogram\"", "        if \"log10\" in scenario:\n            current_binary_ages = 10.0**current_binary_ages\n        return max_time_default - current_binary_ages\n\n    if scenario in [\"custom_linear_histogram\"")], "max_time ignored"),
"19a": ("C19", [(TS, "            GRB_df_synthetic['channel'] = formation_channels_chunk['channel'].str.split('_CC2').str[0].apply(lambda x: x+'_CC2')", "            GRB_df_synthetic['channel'] = formation_channels_chunk['channel'].str.split('_CC2').str[-1].apply(lambda x: x+'_CC2')")], "channel"),
"19b": ("C19", [(TS, "    pre_mask = S_mask.shift(-1, fill_value=False)", "    pre_mask = S_mask.shift(-2, fill_value=False)")], "two rows before"),
"19c": ("C19", [(TS, "        data_slice['m1'] = transient_pop_chunk[['S1_mass', 'S2_mass']].max(axis=1)", "        data_slice['m1'] = transient_pop_chunk['S1_mass']")], "m1"),
"19d": ("C19", [(TS, "        data_slice['chieff'] = transient_pop_chunk['chi_eff']\n", "        data_slice['chieff'] = np.abs(transient_pop_chunk['chi_eff'])\n")], "abs chi"),
"24a": ("C24", [(DC, "        s_contact = max(-np.log(alpha_contact), 0.0)", "        s_contact = max(-np.log(alpha_contact), 1e-3)")], "touching objects shrink"),
"24b": ("C24", [(DC, "            elif t == self.t_end or tau >= tau_hi:\n                s_star = self.s_hi", "            elif t >= self.t_end * (1 - 1e-6) or tau >= tau_hi:\n                s_star = self.s_hi")], "history near the end"),
"24c": ("C24", [(DC, "            binary.eccentricity = self.res.y[1][-1]\n            binary.state = \"detached\"", "            binary.eccentricity = self.res.y[1][0]\n            binary.state = \"detached\"")], "ecc start"),
"24d": ("C24", [(DC, "        if e2 >= 1.0:", "        if e2 >= 0.98:")], "high ecc frozen"),
"24e": ("C24", [(DC, "        binary.V_sys = binary.V_sys_history[-1]\n\n        if", "        binary.V_sys = binary.V_sys_history[0]\n\n        if")], "V_sys first"),
"24f": ("C24", [(DC, "        r2_km = (CO_radius(secondary.mass, secondary.state)", "        r2_km = (CO_radius(secondary.mass, primary.state)")], "radius by state of other"),
"25a": ("C25", [(TM, "        if (pd.notna(log_total_J) and pd.notna(total_MOI)):\n\n            if self", "        if (pd.notna(log_total_J) and pd.notna(total_MOI) and pd.isna(omega)):\n\n            if self")], "order of rotation"),
"25b": ("C25", [(TM, "        elif binary.non_existent_companion == 2:\n            primary = s_arr[1]\n            primary.co = True\n            primary.htrack = s_htrack[0]\n\n            secondary = s_arr[0]\n            secondary.htrack = s_htrack[0]", "        elif binary.non_existent_companion == 2:\n            primary = s_arr[1]\n            primary.co = True\n            primary.htrack = s_htrack[0]\n\n            secondary = s_arr[0]\n            secondary.htrack = True")], "stripped single to H grid"),
"25c": ("C25", [(TM, "        outside_high = match_m0 > self.grid.grid_mass.max()", "        outside_high = match_m0 > 1.2 * self.grid.grid_mass.max()")], "above grid"),
"25d": ("C25", [(TM, "                if primary.matched:\n                    setattr(primary, \"surf_avg_omega_div_omega_crit\", new_ratio)\n                    setattr(primary, \"surf_avg_omega\", new_omega)", "                if primary.matched:\n                    setattr(primary, \"surf_avg_omega_div_omega_crit\", new_ratio)\n                    setattr(primary, \"surf_avg_omega\", old_omega)")], "primary omega old"),
"25e": ("C25", [(TM, "        exceeds_tol", "        exceeds_tol")], "BAD"),
"25f": ("C25", [(TM, "                    denominator = (10.0 ** (star.log_R) * const.rsol) ** 3\n", "                    denominator = (10.0 ** (star.log_R) * const.rsol) ** 2\n")], "crit"),
"26a": ("C26", [(ME, "                        spin = cf.spin_stable_mass_transfer(current, prev_mass[k], fv[key_p])", "                        spin = cf.spin_stable_mass_transfer(current, prev_mass[0], fv[key_p])")], "prev mass star 1"),
"26b": ("C26", [(ME, "            for key in key_post_processed:\n                setattr(star, key, cb.final_values['S%d_%s' % (k+1, key)])", "            for key in key_post_processed:\n                if not stars_CO[k]:\n                    setattr(star, key, cb.final_values['S%d_%s' % (1, key)])")], "S1 for both"),
"26c": ("C26", [(ME, "        if pd.isna(max_MESA_sim_time):\n            if self.flip_stars_before_step:\n                flip_stars(binary)", "        if pd.isna(max_MESA_sim_time):")], "flip left"),
"26d": ("C26", [(ME, "                if self.save_initial_conditions:\n                    self.flush_entries += 1\n\n            else:", "                if not self.save_initial_conditions:\n                    self.flush_entries += 1\n\n            else:")], "?"),
"26e": ("C26", [(ME, "                    elif key == 'metallicity':\n                        v_key = getattr(star, 'metallicity')\n                        setattr(star, key, v_key)\n                        if self.save_initial_conditions:\n                            getattr(star, key_h).append(v_key)\n                        if track_interpolation:\n                            getattr(star, key_h).extend([v_key]*length_hist)\n                    elif key == 'profile':", "                    elif key == 'metallicity':\n                        v_key = getattr(star, 'metallicity')\n                        setattr(star, key, 1.0)\n                        if self.save_initial_conditions:\n                            getattr(star, key_h).append(v_key)\n                        if track_interpolation:\n                            getattr(star, key_h).extend([v_key]*length_hist)\n                    elif key == 'profile':")], "met"),
"26f": ("C26", [(ME, "            if 10**tmp_lg_mdot > mdot_edd:\n                tmp_lg_mdot = np.log10(mdot_edd)\n            accretor.lg_mdot = tmp_lg_mdot", "            accretor.lg_mdot = tmp_lg_mdot")], "no eddington"),
"26g": ("C26", [(ME, "        if interpolation_class != 'initial_MT':\n            setattr(self.binary.star_1, 'state', S1_state_inferred)", "        if interpolation_class != 'initial_MT' and interpolation_class != 'unstable_MT':\n            setattr(self.binary.star_1, 'state', S1_state_inferred)")], "IF state of star 1 for unstable"),
"26h": ("C26", [(ME, "        elif binary.time == binary.properties.max_simulation_time:\n            binary.event = 'maxtime'\n\n        if self.verbose:\n            print(f\"End", "        elif binary.time == binary.properties.max_simulation_time and binary.event is None:\n            binary.event = 'maxtime'\n\n        if self.verbose:\n            print(f\"End")], "event at maxtime"),
}
