SM = "posydon/binary_evol/DT/step_merged.py"
SI = "posydon/binary_evol/DT/step_isolated.py"
CF = "posydon/utils/common_functions.py"
TF = "posydon/grids/termination_flags.py"
SC = "posydon/grids/scrubbing.py"
DS = "posydon/grids/downsampling.py"
PG = "posydon/grids/psygrid.py"
IO = "posydon/grids/io.py"
MUT = {
"27a": ("C27", [(SM, "                merged_star.mass = (star_base.mass + comp.mass) * (1.-self.rel_mass_lost_HMS_HMS)", "                merged_star.mass = star_base.mass + comp.mass * (1.-self.rel_mass_lost_HMS_HMS)")], "loss"),
"27b": ("C27", [(SM, "                elif (comp.co_core_mass > 0 and star_base.co_core_mass == 0):\n\n                    for abundance_name in parameters_to_mix:\n                        setattr(merged_star, abundance_name, getattr(comp, abundance_name))\n\n                    setattr(merged_star, \"center_gamma\", comp.center_gamma)\n\n                # both stars have CO cores\n                elif (star_base.co_core_mass > 0 and comp.co_core_mass > 0):\n\n                    #TODO", "                elif (comp.co_core_mass > 0 and star_base.co_core_mass == 0):\n\n                    for abundance_name in parameters_to_mix[:-1]:\n                        setattr(merged_star, abundance_name, getattr(comp, abundance_name))\n\n                    setattr(merged_star, \"center_gamma\", comp.center_gamma)\n\n                # both stars have CO cores\n                elif (star_base.co_core_mass > 0 and comp.co_core_mass > 0):\n\n                    #TODO")], "avg_c"),
"27c": ("C27", [(SM, "                                                                                mass_weight1=\"mass\",\n                                                                                mass_weight2=\"H-rich_envelope_mass\",))", "                                                                                mass_weight1=\"H-rich_envelope_mass\",\n                                                                                mass_weight2=\"mass\",))")], "weights of MS + postMS"),
"27d": ("C27", [(SI, "        binary.separation = np.nan\n", "        pass\n")], "separation kept"),
"27e": ("C27", [(SM, "                binary.star_2, binary.star_1 = merged_star_properties(binary.star_2, binary.star_1)\n            else:\n                raise ValueError(\"step_merged initiated for", "                binary.star_1, binary.star_2 = merged_star_properties(binary.star_2, binary.star_1)\n            else:\n                raise ValueError(\"step_merged initiated for")], "slot"),
"28a": ("C28", [(TF, "    where_rl_rel_1_dominates = rel1 >= rel2", "    where_rl_rel_1_dominates = rel1 > rel2")], "tie"),
"28b": ("C28", [(TF, "        MT[where_rlof] = [t+10 for t in mass_transfer_cases] # shift by 10", "        MT[where_rlof] = [t+10 if t < 8 else t for t in mass_transfer_cases] # shift by 10")], "undetermined of star 2"),
"28c": ("C28", [(TF, "        if not start_at_RLO and indices_with_rlo[0] == 0:\n            return \"initial_RLOF\"\n        mass_transfer_cases = []\n        for index in indices_with_rlo:\n            star_state = check_state_from_history(\n                history=star_history, mass=star_mass, model_index=index)\n            mt_case = infer_mass_transfer_case(\n                rl_relative_overflow=rel_overflow[index],\n                lg_mtransfer_rate=rate[index], donor_state=star_state)\n            mass_transfer_cases.append(mt_case)\n        MT[where_rlof] = [t+10", "        if indices_with_rlo[0] == 0:\n            return \"initial_RLOF\"\n        mass_transfer_cases = []\n        for index in indices_with_rlo:\n            star_state = check_state_from_history(\n                history=star_history, mass=star_mass, model_index=index)\n            mt_case = infer_mass_transfer_case(\n                rl_relative_overflow=rel_overflow[index],\n                lg_mtransfer_rate=rate[index], donor_state=star_state)\n            mass_transfer_cases.append(mt_case)\n        MT[where_rlof] = [t+10")], "start at RLO of star 2"),
"29a": ("C29", [(SC, "                if t_i < last_t and m_i < last_m:\n                    userow[i] = True", "                if t_i <= last_t and m_i < last_m:\n                    userow[i] = True")], "equal ages"),
"29b": ("C29", [(SC, "    new_h2 = None if h2 is None else h2[first_index:]\n\n    age", "    new_h2 = None if h2 is None else h2[first_index:].copy()\n\n    age")], "equivalent"),
"29c": ("C29", [(SC, "            if age_He_depletion1>age_He_depletion2:", "            if age_He_depletion1>=age_He_depletion2:")], "tie of depletion"),
"29d": ("C29", [(DS, "                    keep_it = interval > abs(max_interval * (t[0] - t[-1]))", "                    keep_it = interval > abs(max_interval * (t[i] - t[-1]))")], "relative interval"),
"29e": ("C29", [(DS, "            X_err = np.linalg.norm(X_intermediate - X_intepolated, axis=1)", "            X_err = np.max(np.abs(X_intermediate - X_intepolated), axis=1)")], "norm"),
"29f": ("C29", [(DS, "                DS(k, j, tolerance, max_interval=max_interval)", "                DS(k, j, tolerance)")], "interval only left"),
"29g": ("C29", [(SC, "        new_h2[\"star_age\"] -= age_to_remove", "        new_h2[\"star_age\"] -= new_h2[\"star_age\"][0]")], "age of star 2"),
}
