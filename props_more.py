prop("C05", "A population run delivers every binary exactly once, whatever fails",
     "Running a population puts every binary into the result exactly once, "
     "with its complete history, its one-line summary and the correct "
     "failure and warning flags. This holds for any mixture of binaries "
     "that succeed, fail in a step, fail in the flow or fail while being "
     "tabulated, for any dump rate, memory mode and memory pressure, and "
     "for any split into parallel jobs that are merged afterwards. The "
     "stored simulated masses and number of systems match the content.",
     ["histories", "configurations"],
     "all outcome patterns, dump rates, memory patterns and job splits within the bounds",
     "the save and combine code is excluded from the unit tests; losses need a particular failure at a particular position",
     [PS + "binarypopulation.py", PS + "synthetic_population.py"],
     [("run loop", PS + "binarypopulation.py BinaryPopulation._safe_evolve"),
      ("tables", PS + "binarypopulation.py PopulationManager"),
      ("combining", PS + "binarypopulation.py combine_saved_files; synthetic_population.py PopulationRunner.merge_parallel_runs")],
     "exhaustive enumeration of run scenarios on the real code and real files vs a reference history",
     "model_checking",
     "Complete for populations of up to 4 (quick) or 5 (thorough) binaries; evolution steps are scripted stand-ins.")

prop("C06", "No saved binary is lost at any crash point or I/O failure",
     "If writing, reading, combining, merging or removing the files of a "
     "population fails, or the process dies at any such operation, every "
     "binary that had been completely written is still in an intact file "
     "afterwards. A run or merge that ends without an error has delivered "
     "every binary.",
     ["crash_points", "fault_sequences"],
     "every storage operation of a dump/combine/merge history, failing or being the last",
     "tests never interrupt a run; a loss needs a fault at a particular operation",
     [PS + "binarypopulation.py", PS + "synthetic_population.py"],
     [("combining", PS + "binarypopulation.py combine_saved_files"),
      ("saving", PS + "binarypopulation.py PopulationManager.save"),
      ("merging", PS + "synthetic_population.py PopulationRunner.merge_parallel_runs")],
     "enumeration of every fault point of the real storage operations",
     "fault_enumeration",
     "Every storage operation of six histories x three fault kinds, one fault per history.")

prop("C07", "The same seed and settings always draw the same population",
     "The initial binaries and the random numbers used in the evolution are "
     "a function of the seed, settings, metallicity and process layout "
     "only, so a rerun reproduces them exactly. Parallel processes, and "
     "metallicities in parallel runs, draw different binaries. Resetting "
     "the generator or looking up the n-th binary reproduces the draws of "
     "that process without disturbing later draws.",
     ["configurations", "histories"],
     "all seeds, layouts, ranks, metallicities and settings within the bounds, interleaved with other draws",
     "unit tests draw from one generator; the parallel layouts and the replay of draws are not run",
     [PS + "binarypopulation.py", PS + "independent_sample.py", PS + "distributions.py"],
     [("seed sequences", PS + "binarypopulation.py BinaryPopulation.__init__"),
      ("generator", PS + "binarypopulation.py BinaryGenerator")],
     "exhaustive enumeration of seeds, layouts and draw interleavings on the real generator",
     "model_checking",
     "Complete for the listed seeds, up to 3 (quick) or 5 processes, 4 settings and 2 metallicities.")

prop("C08", "Every drawn binary respects the requested ranges and binary fraction",
     "Whatever random numbers come up, every drawn binary has masses, mass "
     "ratio, orbit and eccentricity inside the configured ranges, with the "
     "secondary not heavier than the primary and with period and separation "
     "consistent. A star is single exactly with the configured binary "
     "fraction for its mass; it then has no companion mass, period or "
     "eccentricity but keeps its own mass.",
     ["inputs", "configurations"],
     "all assignments of a variate grid (with the extremes) to the variates of a draw, in all settings",
     "unit tests look at a few random draws; extremes of the random numbers never come up",
     [PS + "independent_sample.py", PS + "distributions.py", PS + "IMFs.py", PS + "binarypopulation.py"],
     [("samplers", PS + "independent_sample.py generate_*"),
      ("distributions", PS + "distributions.py, IMFs.py rvs"),
      ("generator", PS + "binarypopulation.py BinaryGenerator")],
     "exhaustive enumeration of scripted random variates through the real samplers",
     "model_checking",
     "Complete over a 4-point variate grid including both ends for the first 3-5 variates; later variates follow a fixed sequence.")

prop("C09", "Binaries read from a file are exactly the rows of the file",
     "With a sample file, binary i gets masses, orbit, eccentricity and all "
     "kick components of both stars from row i modulo the number of rows, "
     "for every documented column name in any letter case. Missing "
     "quantities are drawn, missing kicks stay unset, and a file without "
     "rows is an error.",
     ["inputs", "configurations"],
     "all column names and spellings, column subsets, file lengths, indices and request sizes within the bounds",
     "unit tests read a few files; wrong wrap-around or swapped columns need particular lengths and names",
     [PS + "sample_from_file.py", PS + "binarypopulation.py"],
     [("reading", PS + "sample_from_file.py"),
      ("assignment", PS + "binarypopulation.py BinaryGenerator.draw_initial_binary")],
     "exhaustive enumeration of files and requests on the real reader vs a row model",
     "model_checking",
     "Complete for files of up to 3 (quick) or 5 rows, indices to 7 or 12.")


prop("C15", "Densities are normalised, match the samplers and give the model weights",
     "Every mass, mass-ratio, period and eccentricity distribution is zero "
     "outside its range, integrates to one inside it and is the density of "
     "what its sampler draws. The mean stellar mass and the weight per unit "
     "mass of every system are those of the simulated and requested "
     "populations: ratio of their densities times ratio of their mean "
     "masses over the simulated mass. A system the simulation could not "
     "draw gets weight zero.",
     ["inputs", "configurations"],
     "all distributions, parameters, variates, pairs of populations and systems within the bounds",
     "unit tests compare a few values; a wrong branch or norm shows for particular ranges and masses",
     [PS + "distributions.py", PS + "IMFs.py", PS + "norm_pop.py"],
     [("densities and samplers", PS + "distributions.py, IMFs.py"),
      ("weights", PS + "norm_pop.py")],
     "exhaustive evaluation on parameter and variate grids vs an independent closed-form model",
     "model_checking",
     "48 distribution settings, 11 x 11 population pairs, 145 systems each; the rejection sampler only for fixed seeds.")

prop("C10", "Reading a population file returns exactly the requested rows",
     "Selecting systems, rows, columns or rows matching a condition from the "
     "history or one-line table of a population file returns exactly the "
     "rows and columns a filter over the whole table would return, in file "
     "order. This holds for any index, index list, slice, boolean mask, "
     "column set, head, tail or condition, for any order and gaps of the "
     "system indices and for any chunk size. A selection without a match "
     "is an empty table.",
     ["inputs", "configurations"],
     "all file layouts, chunk sizes and selection keys within the bounds",
     "unit tests use one small file with the default chunk size; chunk boundaries and unordered indices are not reached",
     [PS + "synthetic_population.py"],
     [("history access", PS + "synthetic_population.py History"),
      ("one-line access", PS + "synthetic_population.py Oneline"),
      ("population access", PS + "synthetic_population.py Population, PopulationIO")],
     "exhaustive enumeration of selection keys and chunk sizes on real files vs an in-memory filter",
     "model_checking",
     "Complete for 5 layouts of up to 7 rows, all slices, all row masks, chunk sizes up to the table length.")

prop("C11", "Exporting a selection writes exactly the selected systems",
     "Exporting a selection of systems to a new, overwritten or appended "
     "file stores exactly those systems: one-line rows, complete histories, "
     "channels, metallicities and history lengths, with new unique indices "
     "common to all tables. The simulated masses and counts per metallicity "
     "of the file follow from the exported populations. The source file and "
     "the population object are left unchanged.",
     ["histories", "inputs"],
     "all ordered selections, chunk sizes and sequences of exports within the bounds",
     "unit tests export once; index shifts and wrong totals need appended exports or unordered selections",
     [PS + "synthetic_population.py"],
     [("export", PS + "synthetic_population.py Population.export_selection")],
     "exhaustive enumeration of selections and export histories on real files vs a list model",
     "model_checking",
     "Complete for 3 layouts of up to 4 systems, sequences of up to 2 (quick) or 3 exports of two populations.")

prop("C12", "Formation channels and transients do not depend on chunks or order",
     "The formation channel of a system, with or without mass-transfer "
     "history, is determined by the rows of that system alone. A transient "
     "population has exactly the events the selection function finds for "
     "the systems of the file, each with the index and metallicity of its "
     "own system. Neither depends on the chunk size, on the order of the "
     "systems in the file, on gaps in the indices or on being repeated.",
     ["inputs", "configurations", "histories"],
     "all file orders, chunk sizes and mixtures of channels within the bounds",
     "unit tests use one order and one chunk; a mix-up needs chunk borders between particular systems",
     [PS + "synthetic_population.py"],
     [("channels", PS + "synthetic_population.py Population.calculate_formation_channels"),
      ("transients", PS + "synthetic_population.py Population.create_transient_population"),
      ("lengths", PS + "synthetic_population.py History.lengths")],
     "exhaustive enumeration of file orders, chunks and channel mixtures vs a per-system reference",
     "model_checking",
     "Complete for 4 systems, chunk sizes 1-5, all ordered pairs (quick) or triples of 10 evolution kinds.")

prop("C13", "Each transient carries the weight of its own system",
     "Model weights of a transient population give every event of a system "
     "the weight of that system, under any identifier, file order, number "
     "of events per system and mixture of metallicities. The efficiency per "
     "metallicity, in total and per channel, is the sum of the weights of "
     "the events of that metallicity and channel.",
     ["inputs", "configurations"],
     "all file orders, event tables and requested populations within the bounds",
     "unit tests have one event per system in file order; misalignment needs repeated or unordered systems",
     [PS + "synthetic_population.py", PS + "norm_pop.py"],
     [("weights", PS + "synthetic_population.py TransientPopulation.calculate_model_weights"),
      ("efficiency", PS + "synthetic_population.py TransientPopulation.efficiency")],
     "exhaustive enumeration of file orders and event tables on real files vs per-system weights",
     "model_checking",
     "Complete for 4 systems with 0-2 events each; half of the orders and a ninth of the event tables in the quick tier.")

prop("C14", "Cosmic weights and rate densities follow the star formation history",
     "For every formation redshift bin and event, the cosmic weight is the "
     "model weight times the star formation rate of its metallicity bin at "
     "that redshift times the cosmological volume factor, and it is zero "
     "when the event falls in the future. The intrinsic rate density is the "
     "sum of the weights of the events in each redshift bin divided by its "
     "volume and time. This holds for any chunk size, number of events per "
     "system, bin width and order of calculations with different models.",
     ["inputs", "configurations", "histories"],
     "all event tables, chunks, bin widths, metallicity sets and sequences of models within the bounds",
     "unit tests replace the cosmology by stubs; errors show for particular delays, chunks or a second model",
     [PS + "synthetic_population.py", PS + "rate_calculation.py", PS + "star_formation_history.py"],
     [("weights", PS + "synthetic_population.py TransientPopulation.calculate_cosmic_weights"),
      ("rates", PS + "synthetic_population.py Rates"),
      ("cosmology", PS + "rate_calculation.py")],
     "exhaustive enumeration of event tables and calculation sequences vs an independent cosmology",
     "model_checking",
     "Complete for 4 systems with 0-3 events, 7 delay times, 4 models; redshifts within 2e-3, volumes within 1e-2.")

prop("C16", "Star formation is split over metallicity bins without loss",
     "For every star formation model, metallicity limits and bins, the "
     "fraction of star formation per bin and redshift is non-negative, adds "
     "up to one when normalised and otherwise is the part of the model's "
     "metallicity distribution inside the bin and limits. The rate density "
     "is that of the model at each redshift. Formation times drawn for a "
     "population lie in the requested burst or period, one per binary.",
     ["inputs", "configurations"],
     "all models, bin edges, limits, redshifts, star formation scenarios and variates within the bounds",
     "unit tests check single values; limits inside or outside the bins are special branches",
     [PS + "star_formation_history.py", PS + "independent_sample.py"],
     [("models", PS + "star_formation_history.py"),
      ("formation times", PS + "star_formation_history.py get_formation_times")],
     "exhaustive evaluation over models, bins, limits and redshifts vs closed forms and a table model",
     "model_checking",
     "Complete over 23 model settings, 4 edge sets, 12 x 12 limits, 8 redshifts; tabulated models on small synthetic tables.")

prop("C19", "Transient selection describes each event by its own system's rows",
     "The GRB selection finds exactly the systems whose chosen star radiated "
     "disk mass and takes its values from the rows just before and after "
     "that star's collapse; the BBH selection takes the row of the second "
     "collapse and the last row of the same system. Effective spin, mass "
     "ratio, chirp mass and GRB energies follow their definitions. The "
     "detectable weight of an event is its weight times the detection "
     "probability of its primary mass, mass ratio, spin and redshift, "
     "whichever star is heavier.",
     ["inputs", "configurations"],
     "all ordered combinations of evolution kinds and all binaries of the grids within the bounds",
     "unit tests select from one system; row shifts cross system borders only for particular neighbours",
     [PS + "transient_select_funcs.py", PS + "selection_effects.py", PS + "GRB.py"],
     [("selection", PS + "transient_select_funcs.py GRB_selection, BBH_selection_function"),
      ("detectability", PS + "transient_select_funcs.py DCO_detectability; selection_effects.py KNNmodel"),
      ("GRB energies", PS + "GRB.py get_GRB_properties")],
     "exhaustive enumeration of system sequences and parameter grids vs per-system references",
     "model_checking",
     "Complete for sequences of up to 2 (quick) or 3 systems of 7 kinds; detection grid of 81 points written by the check.")

BE = "posydon/binary_evol/"
GR = "posydon/grids/"
prop("C20", "Core collapse leaves the remnant its prescription demands",
     "For every collapse mechanism and option, a star at core collapse "
     "becomes a white dwarf, neutron star, black hole or nothing as its core "
     "masses, the electron-capture, pair-instability and maximum neutron-star "
     "mass settings demand, whichever star of the binary it is. Remnant mass, "
     "fallback, neutrino loss, spin and radius follow the prescription and "
     "the companion keeps its mass. Interpolated outcomes are used only if "
     "they agree with the star; a star that cannot collapse is an error.",
     ["inputs", "configurations"],
     "all mechanisms, options and stars of a mass grid with every threshold",
     "the supernova step has no unit tests; wrong branches show at particular core masses and options",
     [BE + "SN/step_SN.py", "posydon/grids/SN_MODELS.py"],
     [("collapse", BE + "SN/step_SN.py StepSN.collapse_star, compute_m_rembar"),
      ("pair instability", BE + "SN/step_SN.py StepSN.PISN_prescription"),
      ("engines", BE + "SN/step_SN.py Sukhbold16_corecollapse, Couch20_corecollapse, Patton20_corecollapse, Maltsev25_corecollapse")],
     "exhaustive enumeration of prescriptions and stars on the real step vs closed-form references",
     "model_checking",
     "28 x 4 x 2 stars x 8 mechanisms x 36 option sets; tabulated engines on small synthetic tables; collapse of profiles is not covered.")

prop("C21", "A supernova changes the orbit as two-body mechanics demands",
     "After an explosion with any kick at any orbital phase, the binary is "
     "disrupted exactly if its energy is positive; otherwise separation, "
     "eccentricity, period, system velocity and spin-orbit tilts follow from "
     "momentum and energy, no matter which star explodes. White dwarfs get "
     "no kick, a star without remnant ends the binary, and stars without a "
     "companion keep their state. Drawn kicks follow the chosen distribution "
     "and normalisation and the recorded kick reproduces the orbit.",
     ["inputs", "configurations", "histories"],
     "all masses, eccentricities, phases, kick speeds and directions of the grids for both stars",
     "the supernova step has no unit tests; sign and branch errors show only for particular phases and directions",
     [BE + "SN/step_SN.py"],
     [("kick", BE + "SN/step_SN.py StepSN.orbital_kick"),
      ("draws", BE + "SN/step_SN.py StepSN.generate_kick")],
     "exhaustive enumeration of kicks on the real step vs state-vector mechanics",
     "model_checking",
     "4 stars x 5 eccentricities x 7 phases x 6 speeds x 25 directions x 2 stars; eccentric orbits to 1e-2, circular to 1e-6.")

prop("C22", "A common envelope ends as its energy balance demands",
     "For every donor and companion state, core definition, lambda option and "
     "efficiency, the binary survives exactly if the orbit left by the energy "
     "balance holds both stars within their Roche lobes. A survivor has the "
     "separation of the balance, its giants become the stripped cores of the "
     "chosen core definition with the mass of that core and the companion is "
     "unchanged; a merger reports the event of the star that merges and "
     "loses no more mass than the released energy unbinds. Donors without a "
     "core always merge; compact donors are an error.",
     ["inputs", "configurations"],
     "all donor states, companions, separations and prescription options of the grids",
     "the common-envelope step has no unit tests; wrong branches show for particular donors and options",
     [BE + "CE/step_CEE.py", "posydon/utils/common_functions.py"],
     [("energy balance", BE + "CE/step_CEE.py StepCEE.CEE_simple_alpha_prescription"),
      ("core definition", BE + "CE/step_CEE.py StepCEE.calculate_lambda_CE"),
      ("mergers", "posydon/utils/common_functions.py calculate_Mejected_for_integrated_binding_energy")],
     "exhaustive enumeration of envelopes on the real step vs closed-form energy balance",
     "model_checking",
     "9 donor states x 7 companions or 8 giants x 5 periods x 4 efficiencies x all options; profiles are small synthetic tables.")

prop("C23", "Detached binaries follow tides, winds, braking and waves",
     "A detached binary on given stellar tracks changes its orbit and spins "
     "at the rates of the enabled processes (Hut tides, gravitational waves, "
     "the chosen magnetic braking, wind loss, spin from evolution) and of no "
     "others, and stops at the first of Roche-lobe overflow, the end of a "
     "star's track or the maximum time, with the state and event of that "
     "star. The final stars and all intermediate history rows, at the "
     "requested times, lie on their tracks; compact objects keep their "
     "identity. Single, merged and disrupted stars evolve without an orbit.",
     ["inputs", "configurations", "histories"],
     "all pairs, orbits, process options, stopping conditions and history spacings of the grids",
     "the detached step has no unit tests; wrong rates or missed events show for particular stars and options",
     [BE + "DT/step_detached.py", BE + "DT/step_isolated.py",
      BE + "DT/step_disrupted.py", BE + "DT/step_initially_single.py",
      BE + "track_match.py", "posydon/utils/common_functions.py"],
     [("rates", BE + "DT/step_detached.py detached_evolution"),
      ("events and history", BE + "DT/step_detached.py detached_step"),
      ("wind accretion", "posydon/utils/common_functions.py bondi_hoyle")],
     "exhaustive enumeration of pairs, orbits and options on the real step vs an independent ODE reference",
     "model_checking",
     "End points to 2 per cent (solver rtol 1e-3), rates to 2e-3; single-star grids are closed-form tables; the matched track is scripted.")

prop("C24", "Double compact objects inspiral by gravitational waves",
     "Two compact objects spiral in as Peters (1964): the orbit follows the "
     "a(e) relation, they merge when their surfaces touch after the "
     "gravitational-wave time, at once if they touch already, and otherwise "
     "stop at the maximum time on the orbit of that time. The merged binary "
     "reports contact and the merger event, an unmerged one stays detached "
     "with the maximum-time event; masses, states and spins do not change, "
     "and the history rows lie on the inspiral at the requested times.",
     ["inputs", "configurations", "histories"],
     "all pairs of objects, separations, eccentricities, start times, limits and history spacings of the grids",
     "the inspiral step has no unit tests; wrong times or lost mergers show at extreme orbits",
     [BE + "DT/double_CO.py", BE + "DT/step_detached.py"],
     [("rates", BE + "DT/double_CO.py DoubleCO"),
      ("end points and history", BE + "DT/double_CO.py DoubleCO.__call__")],
     "exhaustive enumeration of compact pairs and orbits on the real step vs closed-form inspiral",
     "model_checking",
     "36 pairs x 10 separations x 6 eccentricities x 3 start times x limits x history spacings.")

prop("C25", "Stars are matched to the single-star track they lie on",
     "A star on a single-star track is matched to that track at its age; a "
     "perturbed star to a track within the accepted distance in the "
     "documented quantities, or the match is reported as failed, never "
     "silently wrong. Every pair of stellar states is given roles: the star "
     "that is evolved, its companion, and which are compact or single; the "
     "grid (H-rich or stripped) follows the star and its matched companion "
     "ages with it. Spins of matched stars come from the known rotation "
     "properties in the documented order.",
     ["inputs", "configurations"],
     "all tracks, ages, perturbations, companions, rotation property subsets and state pairs of the grids",
     "track matching has no unit tests; a wrong branch matches particular stars to a wrong grid or age",
     [BE + "track_match.py", "posydon/interpolation/interpolation.py"],
     [("matching", BE + "track_match.py TrackMatcher.match_through_minimize"),
      ("roles", BE + "track_match.py TrackMatcher.determine_star_states"),
      ("spins", BE + "track_match.py TrackMatcher.calc_omega"),
      ("track interpolation", "posydon/interpolation/interpolation.py GRIDInterpolator")],
     "exhaustive enumeration of tracks, ages, perturbations and state pairs on the real matcher vs closed-form tracks",
     "model_checking",
     "Single-star grids are closed-form tables; optimizer failures off the tracks are accepted if reported.")

prop("C26", "Grid steps put the binary on its MESA track",
     "A binary inside the ranges of a binary grid ends with the properties "
     "of the nearest (or interpolated) run of that grid, in its own star "
     "order, with star states, binary state, event and mass-transfer case "
     "of the final row, the run's flags and its core-collapse predictions. "
     "The recorded history is the run's, as far as the options ask for it, "
     "with all columns of equal length; a track crossing the maximum time "
     "is cut there. Runs with initial overflow leave the binary untouched; "
     "binaries outside the ranges are redirected or fail, never evolved. "
     "Exchanging the stars exchanges everything numbered by star.",
     ["inputs", "configurations", "histories"],
     "all grid classes, runs, offsets, star orders, recording options, start times and time limits",
     "the grid steps have no unit tests; wrong rows, stars or events show for particular runs and options",
     [BE + "MESA/step_mesa.py", "posydon/interpolation/interpolation.py",
      "posydon/utils/common_functions.py"],
     [("rows", BE + "MESA/step_mesa.py update_properties_NN"),
      ("interpolated end", BE + "MESA/step_mesa.py initial_final_interpolation"),
      ("cut", BE + "MESA/step_mesa.py stop_at_condition"),
      ("dispatch", BE + "MESA/step_mesa.py MS_MS_step, CO_HMS_RLO_step, CO_HeMS_RLO_step, CO_HeMS_step, HMS_HMS_RLO_step"),
      ("exchange", "posydon/utils/common_functions.py flip_stars")],
     "exhaustive enumeration of runs, options and limits on the real steps over a real PSyGrid file vs the table rows",
     "model_checking",
     "Tracks are closed-form; the trained interpolator is replaced by a table of final values (its own training is not part of this property).")

prop("C27", "Mergers and isolated evolution conserve mass and bookkeeping",
     "A merger leaves one star, in the slot of the surviving component, with "
     "the documented mass (sum of the masses minus the configured relative "
     "loss of the envelopes), core masses, mass-weighted central and surface "
     "composition and summed luminosities, for every pair of stellar states "
     "and core contents; the companion becomes a massless remnant, recorded "
     "histories stay with their star, the state is classified again and the "
     "binary continues as 'merged'. Merging with a compact object destroys "
     "the star into it; inputs without a rule are refused with an error. The "
     "isolated steps erase the orbit of disrupted, merged or initially single "
     "systems and send them to the single-star evolution; other binary states "
     "are refused.",
     ["inputs", "configurations"],
     "all pairs of star states, core contents, merger events, mass sets, loss fractions and binary states",
     "the merger steps have no unit tests; each pair of types is its own branch of the product rules",
     [BE + "DT/step_merged.py", BE + "DT/step_isolated.py",
      BE + "DT/step_disrupted.py", BE + "DT/step_initially_single.py"],
     [("products", BE + "DT/step_merged.py MergedStep.merged_star_properties"),
      ("roles", BE + "DT/step_merged.py MergedStep.__call__"),
      ("orbit", BE + "DT/step_isolated.py IsolatedStep.__call__")],
     "exhaustive enumeration of merging pairs on the real steps vs an independent product table",
     "model_checking",
     "The detached evolution after the merger is recorded at its entry; combinations of core masses the code reports as unexpected are judged on masses and bookkeeping only.")

prop("C28", "Stars, mass transfer and MESA runs are classified by their values",
     "The state of a star follows the documented thresholds on surface and "
     "central abundances and burning luminosities (compact objects by their "
     "mass and state), the mass-transfer case the donor's state, and the "
     "cumulative flags of a track list the cases in order, without repeats "
     "and with the right star; undetermined rows do not hide later ones. The "
     "four termination flags of a MESA run, its interpolation class, and the "
     "binary state and event follow from its logs and final rows; looking at "
     "past rows gives what those rows held.",
     ["inputs", "histories"],
     "all sides of all thresholds, all sequences of cases, rows and log lines up to the bound",
     "classification feeds every step and grid; unit tests sample single values, thresholds and sequences hide in between",
     ["posydon/utils/common_functions.py", "posydon/grids/termination_flags.py",
      "posydon/grids/MODELS.py"],
     [("star states", "posydon/utils/common_functions.py check_state_of_star, infer_star_state"),
      ("binary state and event", "posydon/utils/common_functions.py get_binary_state_and_event_and_mt_case"),
      ("cumulative flags", "posydon/utils/common_functions.py cumulative_mass_transfer_flag"),
      ("run flags", "posydon/grids/termination_flags.py")],
     "exhaustive enumeration of value classes and row/log sequences on the real classifiers vs an independent rule table",
     "model_checking",
     "Rows <= 4 and log lines <= 4 per sequence.")

prop("C29", "Reducing MESA tables keeps the evolution",
     "Scrubbing leaves, for any table of model numbers and ages, exactly the "
     "rows not superseded by a restart, strictly increasing in both, and only "
     "models present in all tables of the run. Cutting at the start of mass "
     "transfer drops exactly the rows before it and shifts the ages; "
     "stopping before carbon depletion cuts all tables at the same row. "
     "Downsampling keeps first and last row, keeps values unchanged, and "
     "every removed row is recovered by linear interpolation within the "
     "requested tolerance and interval limits, for any column type and with "
     "missing values.",
     ["inputs", "histories"],
     "all tables, sequences of row states and short tracks over small value sets with every tolerance",
     "a lost or superseded row only shows for particular restart or value patterns",
     ["posydon/grids/scrubbing.py", "posydon/grids/psygrid.py",
      "posydon/grids/downsampling.py"],
     [("scrubbing", "posydon/grids/scrubbing.py scrub, keep_after_RLO, keep_till_central_abundance_He_C"),
      ("downsampling", "posydon/grids/downsampling.py TrackDownsampler"),
      ("use in grids", "posydon/grids/psygrid.py downsample_history, downsample_profile")],
     "exhaustive enumeration of short tables on the real reduction code vs first-principles row sets and error bounds",
     "model_checking",
     "Scrub tables <= 5 rows (6 thorough), tracks <= 6 rows (7 thorough), 2 columns, 3 values.")

prop("C30", "A grid file holds what the MESA runs contain",
     "Creating a PSyGrid from MESA output stores every run with the files it "
     "needs and reports the others as ignored; the stored histories, "
     "profiles, initial and final values, termination flags and directories "
     "are the run's own after the configured reductions, in the requested "
     "columns, for every subset of files, compression and slim option. "
     "Reruns replace runs by their order, the initial-overflow fix flags "
     "exactly the runs below the known boundary. Reading lazily or fully, "
     "indexing, adding or replacing columns and reloading give the same "
     "content; grids compare equal exactly when their content is.",
     ["inputs", "configurations", "histories"],
     "all file subsets, restart patterns, column choices, compressions, boundary cases and read modes",
     "unit tests use few fixed runs; wrong rows or lost runs depend on missing files and options",
     ["posydon/grids/psygrid.py", "posydon/grids/io.py"],
     [("creation", "posydon/grids/psygrid.py PSyGrid.create"),
      ("reading", "posydon/grids/psygrid.py PSyGrid.load, PSyRunView"),
      ("run files", "posydon/grids/io.py GridReader, RunReader")],
     "exhaustive enumeration of run directories and options through real PSyGrid files vs the rows written",
     "model_checking",
     "Runs of <= 6 rows; values at He depletion are judged on tables without repeated rows.")

prop("C31", "A joined grid holds the latest run of every initial condition",
     "Joining grid files gives one grid with, for every set of initial "
     "values in any input, exactly the run of the last grid which has it, "
     "with its tables, initial and final values, directory and flags "
     "unchanged; a later run without mass transfer removes the earlier one. "
     "Joining in one go or in steps gives the same. With the initial-overflow "
     "fix exactly the runs below the boundary known from all inputs are "
     "flagged. Grids which differ in a property or in their columns are "
     "refused before anything is written; the inputs never change.",
     ["inputs", "configurations", "histories"],
     "all ordered selections of overlapping grids, splits of the boundary, inconsistent properties and compressions",
     "which run wins depends on order and flags over several files; unit tests join few fixed grids",
     ["posydon/grids/psygrid.py", "posydon/grids/termination_flags.py",
      "posydon/grids/io.py"],
     [("join", "posydon/grids/psygrid.py join_grids"),
      ("boundary", "posydon/grids/termination_flags.py get_detected_initial_RLO, get_nearest_known_initial_RLO"),
      ("initial conditions", "posydon/grids/io.py initial_values_from_dirname")],
     "exhaustive enumeration of sequences of real grid files through join_grids vs the last-run-wins map",
     "model_checking",
     "7 overlapping grids, sequences of <= 3 (4 thorough).")

prop("C17", "A binary survives the way through its tables and files",
     "The history table of a binary has one row per recorded state under its "
     "index, with the recorded values of every selected property (nan where "
     "unknown, vectors by component), also if its histories have different "
     "lengths because it failed; the one-line table has the first and last "
     "row, the scalars and the failure flags. Making tables never changes the "
     "binary. A binary rebuilt from the table, the one-line table or the "
     "population file has the same index, histories, current values and "
     "scalars, and can be restored to any of its states.",
     ["inputs", "histories", "configurations"],
     "history lengths, kinds of stars, missing values, ragged failures, column selections, dropped columns, sets of stored binaries",
     "round trips depend on combinations of missing values, names and shapes; there are no unit tests of these classes",
     [BE + "binarystar.py", BE + "singlestar.py", PS + "io.py",
      PS + "binarypopulation.py"],
     [("tables", BE + "binarystar.py BinaryStar.to_df, to_oneline_df; singlestar.py SingleStar.to_df"),
      ("back", BE + "binarystar.py BinaryStar.from_df, from_oneline_df"),
      ("types", PS + "io.py clean_binary_history_df, clean_binary_oneline_df"),
      ("files", PS + "binarypopulation.py PopulationManager.from_hdf")],
     "exhaustive enumeration of histories, selections and forms through the real conversions vs the recorded values",
     "model_checking",
     "<= 3 rows (5 thorough), 4 kinds of stars each, 9 dropped columns, ragged by <= 2 (3) rows, <= 3 (4) stored binaries.")

prop("C18", "The configuration of a run reaches its steps and hooks",
     "Inifiles give, section by section, the named class (user files before "
     "builtin ones) with exactly the given literals, later files replacing "
     "earlier ones; all numbered hooks are used in the order of their "
     "numbers. Loading steps, in any sequence, gives each step its own "
     "options, the metallicity given for it or else the requested one, the "
     "grid of its name, and a matcher with the options and tracks of that "
     "metallicity; it never changes the given options, and keeps one matcher "
     "per step. Job array tasks get ranks from zero. Stored configurations "
     "read back as saved and are never replaced without permission.",
     ["configurations", "histories", "inputs"],
     "stacks of inifiles, numberings and forms of hooks, sequences of loading calls, job arrays, sequences of configuration operations",
     "loading depends on the history of earlier loads and on combinations of optional entries",
     [PS + "io.py", BE + "simulationproperties.py",
      "posydon/utils/configfile.py"],
     [("inifiles", PS + "io.py simprop_kwargs_from_ini, binarypop_kwargs_from_ini"),
      ("steps", BE + "simulationproperties.py SimulationProperties.load_steps, load_a_step, check_step"),
      ("stored", "posydon/utils/configfile.py ConfigFile")],
     "exhaustive enumeration of configuration files and of sequences of loading calls on the real classes vs a model of the options",
     "model_checking",
     "2 files, 3 hooks, <= 3 (4 thorough) loads of 9 kinds over 4 configurations, <= 4 (6) ranks, 3 (4) operations.")

prop("C32", "Interpolated final values honour the grid and the physics",
     "A trained initial-final interpolator returns at every training run its "
     "class, its final values and compact object; between the runs of a class "
     "it is linear in the scaled values and never leaves their range; outside "
     "it takes the nearest run; runs which do not converge are not used and "
     "initial overflow has no values. The answer does not depend on the other "
     "queries, other interpolators, saving, loading or training again. "
     "Scaling is undone exactly. The returned values obey the physical laws, "
     "orders and sums of the constraints for the requested keys, whatever was "
     "requested before; lawful values stay.",
     ["inputs", "configurations", "histories"],
     "grids, methods, classifiers, scalings, queries, value combinations and sequences of requested keys",
     "no unit test trains an interpolator; constraints interact over values, missing data and earlier requests",
     ["posydon/interpolation/IF_interpolation.py",
      "posydon/interpolation/constraints.py",
      "posydon/interpolation/data_scaling.py",
      "posydon/utils/gridutils.py"],
     [("interpolators", "posydon/interpolation/IF_interpolation.py IFInterpolator, BaseIFInterpolator, LinInterpolator, NNInterpolator, MC_Interpolator, KNNClassifier"),
      ("scaling", "posydon/interpolation/IF_interpolation.py Scaler, MatrixScaler; data_scaling.py DataScaler"),
      ("constraints", "posydon/interpolation/constraints.py find_constraints_to_apply, sanitize_interpolated_quantities")],
     "exhaustive enumeration of grids, methods, queries, value combinations and request sequences on the real code vs exact (log-)linear truth and the stated laws",
     "model_checking",
     "12 (36 thorough) grids x 9 configurations x ~120 queries; 6-8 values per constrained quantity; 258 sequences of 3 key sets of 6.")

prop("C33", "Check and rescue complete a cluster run, whatever jobs die",
     "A population run set up for a job array can be completed after any set "
     "of its tasks and merges died: check submits exactly the missing ranks, "
     "with the size of the original array and the options given now or at "
     "the set-up, and a merge of every missing population that waits for its "
     "tasks; nothing is evolved or merged twice, nothing is submitted against "
     "the answer of the user, all from any directory. A job killed at any "
     "point leaves no file that passes for a complete one. The completed run "
     "has each requested binary exactly once and passes the check; an "
     "incomplete one never does.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "subsets of died tasks and merges over several rounds, points at which the scripts are killed, answers, directories, options",
     "unit tests mock every stage; completing a run is a protocol over many submissions",
     ["posydon/CLI/popsyn/check.py", "posydon/CLI/popsyn/setup.py",
      "posydon/CLI/io.py", PS + "binarypopulation.py"],
     [("set-up", "posydon/CLI/popsyn/setup.py setup_popsyn_function; posydon/CLI/io.py create_slurm_array, create_slurm_merge, create_run_script_text, create_merge_script_text"),
      ("check", "posydon/CLI/popsyn/check.py check_popsyn_function, check_batch, handle_batches_complete"),
      ("rescue", "posydon/CLI/io.py create_batch_rescue_script, create_slurm_rescue, create_bash_submit_rescue_script")],
     "exhaustive exploration of died tasks and crash points: generated scripts are executed by a shell against a stand-in of SLURM, the real jobs are killed in child processes; the submitted jobs are compared with a model of the missing work",
     "model_checking",
     "<= 3 (4 thorough) tasks x 2 metallicities, all subsets, <= 3 rounds of failures; 82 runs of the real scripts (thorough 140) killed at every write.")

prop("C34", "The collapse of a stellar profile conserves mass and bounds the spin",
     "Collapsing a profile yields a black hole whose mass, with the mass "
     "radiated by the disk and lost to neutrinos, is the mass of the profile "
     "up to the cut. Its spin lies between 0 and 1 and is that of the "
     "cells' angular momentum, material above the one of the innermost "
     "stable orbit passing through a disk that radiates the binding energy; "
     "without rotation there is neither spin nor disk. Ejected hydrogen and "
     "helium are those of the cells above the remnant. The supernova step "
     "stores exactly these values for black holes, the gravitational mass "
     "for neutron stars. Profiles lacking columns give the central mass and "
     "unknown spin. The profile is never changed.",
     ["inputs", "configurations"],
     "profiles (mass, size, structure, resolution, rotation, composition), cuts, central masses, neutrino losses, mechanisms",
     "no unit test collapses a profile; the outcome depends on a recursion over all cells",
     [BE + "SN/profile_collapse.py", BE + "SN/step_SN.py"],
     [("collapse", BE + "SN/profile_collapse.py do_core_collapse_BH, get_initial_BH_properties, compute_isco_properties"),
      ("ejecta", BE + "SN/profile_collapse.py get_ejecta_element_mass_at_collapse"),
      ("step", BE + "SN/step_SN.py StepSN.collapse_star (use_profiles)")],
     "exhaustive enumeration of profiles and collapse options on the real code vs an independent recursion (ISCO by bisection) and conservation laws",
     "model_checking",
     "4 masses x 3 sizes x 8 rotation laws x 2 structures x 2 (3 thorough) resolutions x 6 cuts x 4 centres x 3 losses; 5 mechanisms; 400 spins.")

prop("C35", "Post-processing a grid gives each run its own remnants and values",
     "Post-processing a grid collapses, for every supernova model asked for, "
     "exactly the star which the termination flag names (the star with a "
     "central gamma of 10 or more for gamma_center_limit, star 1 if star 2 is "
     "a compact object), if the run is stable and the star can collapse; all "
     "other remnants are empty. Each remnant is the one of that model's "
     "parameters for the final values, profile and metallicity of that run, "
     "whatever the other models, runs, their order or the index range. "
     "States, values at He depletion, envelope parameters, abundances and the "
     "mass-transfer history are those of the run. Writing back keeps all "
     "other data, replaces earlier results, records the parameters of the "
     "models and is refused, without a change, for other runs.",
     ["inputs", "configurations", "histories"],
     "flags, classes, states, core masses, metallicities, supernova models, index ranges, orders, sequences of post-processing and writing",
     "unit tests mock the supernova step or use one run; mixing up stars, models or runs needs combinations",
     [GR + "post_processing.py", GR + "SN_MODELS.py", BE + "binarystar.py", BE + "singlestar.py"],
     [("process", GR + "post_processing.py post_process_grid; " + BE + "binarystar.py from_run; " + BE + "singlestar.py from_run"),
      ("models", GR + "SN_MODELS.py get_SN_MODEL, get_SN_MODEL_NAME"),
      ("write", GR + "post_processing.py add_post_processed_quantities; " + GR + "psygrid.py _reload_hdf5_file, load")],
     "exhaustive enumeration of runs, models, index ranges and write sequences on the real code vs stars built from the tables independently",
     "model_checking",
     "14 flags x 6 classes x 7 pairs of ends x compact or not; 28 models in rotation (all at thorough) x 8 masses x 2 (4) metallicities; 27 mass-transfer histories; all ranges and orders of 4 (6) runs.")
