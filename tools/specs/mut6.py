CK = "posydon/CLI/popsyn/check.py"
IO = "posydon/CLI/io.py"
SU = "posydon/CLI/popsyn/setup.py"
BP = "posydon/popsyn/binarypopulation.py"
PIO = "posydon/popsyn/io.py"
SP = "posydon/binary_evol/simulationproperties.py"
BS = "posydon/binary_evol/binarystar.py"
SS = "posydon/binary_evol/singlestar.py"
IF = "posydon/interpolation/IF_interpolation.py"
CO = "posydon/interpolation/constraints.py"
MUT = {
"33a": ("C33", [(IO, "        export SLURM_ARRAY_TASK_COUNT={job_array_length}\n", "        export SLURM_ARRAY_TASK_COUNT={len(missing_indices)}\n")], "size of rescue"),
"33b": ("C33", [(IO, "        export SLURM_ARRAY_TASK_MIN=0\n", "")], "rank of rescue"),
"33c": ("C33", [(CK, "            idx_str = file_name.split('.')[-2]\n            found_indices.add(int(idx_str))", "            idx_str = file_name.split('.')[-2]\n            found_indices.add(int(idx_str[-1]))")], "only visible for more than ten jobs"),
"33d": ("C33", [(IO, "                    \"--dependency=afterok:${resubmit} \"\n                    \"--kill", "                    \"--dependency=afterok:${merge} \"\n                    \"--kill")], "dependency"),
"33e": ("C33", [(IO, "    if args.exclude is not None:\n        exclude = args.exclude\n", "")], "exclude option"),
"33f": ("C33", [(IO, "                max_concurrent_jobs = int(array_range.split('%')[1])\n", "")], "max jobs lost"),
"33g": ("C33", [(IO, "key=lambda x: int(x.split(\".h5\")[0].split(\".\")[-1])", "key=lambda x: int(x.split(\".h5\")[0].split(\".\")[-1][0])")], "sorting only"),
"33h": ("C33", [(CK, "            if num_binaries != expected_count:", "            if num_binaries < expected_count:")], "too many binaries pass"),
"33i": ("C33", [(SU, "    if synpop_params['number_of_binaries'] / args.job_array < 1:", "    if synpop_params['number_of_binaries'] / args.job_array < 0.5:")], "jobs without work"),
"33j": ("C33", [(CK, "        if not os.path.exists(merged_file):", "        if not os.path.exists(merged_file) and not status_dict:")], "only first missing"),
"33k": ("C33", [(IO, "            ini_kw[\"temp_directory\"] = str_met + \"_Zsun_\" + ini_kw[\"temp_directory\"]\n            synpop", "            ini_kw[\"temp_directory\"] = ini_kw[\"temp_directory\"]\n            synpop")], "merge dir"),
"33l": ("C33", [(CK, "    if expected_batch_count is not None and actual_count < expected_batch_count:", "    if expected_batch_count is not None and actual_count < expected_batch_count - 1:")], "one missing"),
"33m": ("C33", [(IO, "            file.write(\"merge=$(sbatch --parsable --dependency=afterok:${array} \"", "            file.write(\"merge=$(sbatch --parsable --dependency=afterany:${array} \"")], "afterany"),
}
