PIO = "posydon/popsyn/io.py"
SP = "posydon/binary_evol/simulationproperties.py"
BS = "posydon/binary_evol/binarystar.py"
SS = "posydon/binary_evol/singlestar.py"
IF = "posydon/interpolation/IF_interpolation.py"
MUT = {
"17a": ("C17", [(SS, "                    col.extend([np.nan] * abs(max_col_length - len(col)))", "                    col[:0] = [np.nan] * abs(max_col_length - len(col))")], "padding in front"),
"17b": ("C17", [(BS, "            initial_final_data = output_df.values[[0, -1], :]  # first/last row", "            initial_final_data = output_df.values[[0, min(len(output_df) - 1, 50)], :]  # first/last row")], "long histories"),
"17c": ("C17", [(BS, "            period = orbital_period_from_separation(\n                            np.array(binary.separation_history),\n                            np.array(binary.star_1.mass_history),\n                            np.array(binary.star_2.mass_history),)\n            setattr(binary, 'orbital_period_history', list(period))\n            setattr(binary, 'orbital_period', list(period)[-1])\n\n        # set the binary, star1, star2 parameters to last history value in df\n        for params, pointer in zip(\n                [star1_params,  star2_params,  binary_params],\n                [binary.star_1, binary.star_2, binary]):\n            for key, val in params.items():\n                setattr(", "            period = orbital_period_from_separation(\n                            np.array(binary.separation_history),\n                            np.array(binary.star_1.mass_history),\n                            np.array(binary.star_1.mass_history),)\n            setattr(binary, 'orbital_period_history', list(period))\n            setattr(binary, 'orbital_period', list(period)[-1])\n\n        # set the binary, star1, star2 parameters to last history value in df\n        for params, pointer in zip(\n                [star1_params,  star2_params,  binary_params],\n                [binary.star_1, binary.star_2, binary]):\n            for key, val in params.items():\n                setattr(")], "mass of companion"),
"17d": ("C17", [(BS, "        bin_data[where_none] = kwargs.get('null_value', np.nan)", "        bin_data[where_none] = np.nan")], "null value of binary"),
"17e": ("C17", [(BS, "            if name.endswith('_f'):\n                continue    # ignore final values", "            if name.endswith('_f') and name != 'S2_state_f':\n                continue    # ignore final values")], "final"),
"17f": ("C17", [(BS, "        if hasattr(self, 'warnings'):", "        if hasattr(self, 'warnings') and not hasattr(self, 'traceback'):")], "WARNING of failed"),
"17g": ("C17", [(BS, "            star2_params['natal_kick_polar_angle'] = natal_kick_values[2]", "            star2_params['natal_kick_polar_angle'] = natal_kick_values[1]")], "old kicks"),
"17h": ("C17", [(BS, "                prefix='S2_', null_value=kwargs.get('null_value', np.nan),\n                **kwargs.get('S2_kwargs', {})))", "                prefix='S2_', null_value=kwargs.get('null_value', np.nan),\n                **kwargs.get('S1_kwargs', {})))")], "columns of star 2"),
"18a": ("C18", [(SP, "            metallicity = step_kwargs.get('metallicity', metallicity)\n", "            metallicity = step_kwargs.get('metallicity') or metallicity or step_kwargs.get('metallicity')\n")], "equivalent unless 0"),
"18b": ("C18", [(SP, "                         \"step_CO_HeMS\": self.CO_HeMS_path,", "                         \"step_CO_HeMS\": self.CO_HeMS_RLO_path,")], "grid"),
"18c": ("C18", [(SP, "        sim_kwargs = {**sim_kwargs, **override_sim_kwargs}", "        sim_kwargs = {**override_sim_kwargs, **sim_kwargs}")], "override"),
"18d": ("C18", [(PIO, "                    pop_kwargs['RANK'] = np.int64(os.environ['SLURM_ARRAY_TASK_ID'])-min_rank", "                    pop_kwargs['RANK'] = np.int64(os.environ['SLURM_ARRAY_TASK_ID'])")], "rank"),
"18e": ("C18", [(PIO, "            pop_kwargs['include_S2'] = S2_kwargs.pop('include_S2')\n            if pop_kwargs['include_S2']:\n                pop_kwargs['S2_kwargs'] = S2_kwargs", "            pop_kwargs['include_S2'] = S2_kwargs.pop('include_S2')\n            if pop_kwargs['include_S2']:\n                pop_kwargs['S2_kwargs'] = pop_kwargs.get('S1_kwargs', S2_kwargs)")], "star 2"),
"32a": ("C32", [(IF, "            X[:, i_m2] = X[:, i_m2] / X[:, i_m1]", "            X[:, i_m2] = np.minimum(X[:, i_m2] / X[:, i_m1], 0.95)")], "q clipped"),
"32b": ("C32", [(IF, "                if(iv[1] == 1):\n                    valid[i] = -1", "                if(iv[1] >= 0.9):\n                    valid[i] = -1")], "q cut"),
"32c": ("C32", [(IF, "            ynum[ycat[self.c_key] == 'initial_MT', :] = np.nan", "            ynum[ycat['interpolation_class'] == 'initial_MT', :] = np.nan")], "c_key"),
"32d": ("C32", [(IF, "        Xn = self.X_scaler.normalize(Xt)\n\n        return self.classifiers[key].predict(Xn)", "        Xn = self.X_scaler.normalize(Xt) if len(Xt) > 1 else Xt\n\n        return self.classifiers[key].predict(Xn)")], "single query"),
"32e": ("C32", [(IF, "            Ypred[wnan, :] = self.interpolator[1].predict(Xt[wnan, :])", "            Ypred[wnan, :] = self.interpolator[1].predict(Xt[wnan, :][:1])")], "out of hull of several"),
"32f": ("C32", [(IF, "        for flag in ['not_converged', 'ignored_no_RLO',\n                     'ignored_no_binary_history']:", "        for flag in ['not_converged', 'ignored_no_RLO']:")], "ignored kept"),
}
