P = 'posydon/grids/post_processing.py'
MUT = {
 '35a': ('C35', [('posydon/binary_evol/binarystar.py', 'run.initial_values["Z"] / Zsun', 'run.initial_values["Z"]')], 'absolute Z (binary)'),
 '35b': ('C35', [('posydon/binary_evol/singlestar.py', 'run.initial_values["Z"] / Zsun', 'run.initial_values["Z"]')], 'absolute Z (single)'),
 '35c': ('C35', [(P, '                        SN_MODEL.update(SN_MODELS[SN_MODEL_NAME])\n', '')], 'custom models ignored'),
 '35d': ('C35', [(P, 'binary.star_1.center_gamma >= 10.', 'binary.star_1.center_gamma > 10.')], 'gamma edge'),
 '35e': ('C35', [(P, "            if interpolation_class in ['no_MT', 'stable_MT',\n                                       'stable_reverse_MT']:", "            if interpolation_class in ['no_MT', 'stable_MT']:")], 'reverse MT gets no remnants'),
 '35f': ('C35', [(P, "if getattr(star_copy, 'state') == 'BH' and 'case' in TF2 and '1' in TF2 and '2' in TF2:", "if 'case' in TF2 and '1' in TF2 and '2' in TF2:")], 'NS reverse'),
 '35g': ('C35', [(P, 'MESA_dirs = grid.MESA_dirs[index[0]:index[1]]', 'MESA_dirs = grid.MESA_dirs[index[0]:]')], 'dirs of a range'),
 '35h': ('C35', [(P, "                    if ((star.avg_c_in_c_core_at_He_depletion is None) or\n                        (star.co_core_mass_at_He_depletion is None)):\n                        calculate", "                    if True:\n                        calculate")], 'stored He-depletion values overwritten'),
 '35i': ('C35', [(P, '                        star_copy = copy.copy(star)\n                        try:', '                        star_copy = star\n                        try:')], 'models share the star (binary)'),
 '35j': ('C35', [(P, '                    star_copy = copy.copy(star)\n                    try:', '                    star_copy = star\n                    try:')], 'models share the star (single)'),
 '35k': ('C35', [(P, '                           - star.center_n14 - star.center_o16)', '                           - star.center_n14 - star.surface_o16)')], 'center other'),
 '35l': ('C35', [(P, "if not np.all(np.array(grid.MESA_dirs)\n                  == np.array(MESA_dirs_EXTRA_COLUMNS)):", "if not np.all(np.sort(np.array(grid.MESA_dirs))\n                  == np.sort(np.array(MESA_dirs_EXTRA_COLUMNS))):")], 'order not checked'),
 '35m': ('C35', [(P, "    if 'SN_MODELS' in hdf5_file['grid']:\n        del hdf5_file['grid/SN_MODELS']\n\n    SN_MODELS_group = hdf5_file['grid'].create_group('SN_MODELS')", "    SN_MODELS_group = hdf5_file['grid'].require_group('SN_MODELS')"), (P, "        SN_MODELS_group.create_dataset(SN_MODEL_NAME, data", "        if SN_MODEL_NAME in SN_MODELS_group:\n            del SN_MODELS_group[SN_MODEL_NAME]\n        SN_MODELS_group.create_dataset(SN_MODEL_NAME, data")], 'old models stay'),
 '35n': ('C35', [(P, "if (star_2_CO or (TF1 in TF1_POOL_STABLE and", "if ((TF1 in TF1_POOL_STABLE and")], 'CO companions need a primary flag'),
 '35o': ('C35', [(P, "if not stars_CO[j] and IC in ['no_MT', 'stable_MT', 'unstable_MT',\n                                          'stable_reverse_MT']:", "if not stars_CO[j] and IC in ['no_MT', 'stable_MT',\n                                          'stable_reverse_MT']:")], 'unstable runs without values'),
 '35p': ('C35', [('posydon/grids/SN_MODELS.py', '            if "use_" in key or key=="ECSN":', '            if "use_" in key or key=="ECSN" or "PPI" in key:')], 'PPI parameters not compared'),
 '35q': ('C35', [('posydon/utils/common_functions.py', '            i_He_depl = np.argmax(np.array(star.state_history)\n                                  == "stripped_He_Core_He_depleted")', '            i_He_depl = len(star.state_history) - 1 - np.argmax(np.array(star.state_history)[::-1]\n                                  == "stripped_He_Core_He_depleted")')], 'last instead of first He depletion'),
 '35r': ('C35', [('posydon/visualization/combine_TF.py', "                # record last case\n                if 'nonburning' in MTcases[-1]:\n                    TF12[i] += 'n'\n                else:\n                    TF12[i] += MTcases[-1][:-1]\n        elif IC[i] == 'unstable_MT'", "                # record last case\n                if 'nonburning' in MTcases[-1]:\n                    TF12[i] += 'n'\n                else:\n                    TF12[i] += MTcases[1][:-1]\n        elif IC[i] == 'unstable_MT'")], 'second instead of last case'),
 '35s': ('C35', [(P, "        for key, value in get_SN_MODEL(SN_MODEL_NAME).items():", "        for key, value in SN_MODELS[SN_MODEL_NAME].items():")], 'only changed parameters recorded'),
}
