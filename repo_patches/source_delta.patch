From c3a72a70d1cdde837fecdee32071bfe6c9d36ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:55 +0000
Subject: [PATCH 001/107] fix: honour max_n_steps_per_binary passed to
 SimulationProperties

Any keyword with 'step' in its name was taken for an evolution step and never
set, so a configured step limit was silently ignored.
---
 posydon/binary_evol/simulationproperties.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index c06675e..a3b8809 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -196,10 +196,12 @@ class SimulationProperties:
         # Set functions for evolution
         self.all_step_names = []  ## list of strings of all evolutionary steps
         for key, val in self.kwargs.items():
-            if "step" not in key:   # skip loading steps
-                setattr(self, key, val)
-            elif "step" in key:
+            # skip loading steps (given as tuples), but do set plain options
+            # with "step" in their name, e.g. `max_n_steps_per_binary`
+            if "step" in key and isinstance(val, tuple):
                 self.all_step_names.append(key)
+            else:
+                setattr(self, key, val)
         self.steps_loaded = False
 
         self.preload_imports()
-- 
2.43.0


From f8c424c5e80cef913269e02c5a2801cd17f0b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:21 +0000
Subject: [PATCH 002/107] fix: BinaryStar.reset adopts the given simulation
 properties

The properties were passed as the flow of a new default object, leaving the
binary unable to evolve.
---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..d01e776 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -395,7 +395,7 @@ class BinaryStar:
         """
         # If provided, update the simulation properties class
         if properties is not None:
-            self.properties = SimulationProperties(properties)
+            self.properties = properties
 
         # Use the restore function to move the binary back to its initial state
         self.restore(i=0)
-- 
2.43.0


From d422c27665937c06b289563e02000a09b6d9a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:21 +0000
Subject: [PATCH 003/107] fix: restoring a binary that was not evolved with a
 hook

restore() and reset() raised AttributeError for the columns which a hook only
creates once the evolution starts.
---
 posydon/binary_evol/binarystar.py | 4 +++-
 posydon/binary_evol/singlestar.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d01e776..8e55782 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -378,7 +378,9 @@ class BinaryStar:
                 extra_columns = getattr(hook, 'extra_binary_col_names')
 
                 for col in extra_columns:
-                    setattr(self, col, getattr(self, col)[0:i+1])
+                    # not present if never evolved with this hook
+                    if hasattr(self, col):
+                        setattr(self, col, getattr(self, col)[0:i+1])
 
         for star in (self.star_1, self.star_2):
             star.restore(i, hooks=self.properties.all_hooks_classes)
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 9c84997..1f8250d 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -415,7 +415,9 @@ class SingleStar:
                 extra_columns = getattr(hook, 'extra_star_col_names')
 
                 for col in extra_columns:
-                    setattr(self, col, getattr(self, col)[0:i+1])
+                    # not present if never evolved with this hook
+                    if hasattr(self, col):
+                        setattr(self, col, getattr(self, col)[0:i+1])
 
 
     def to_df(self, **kwargs):
-- 
2.43.0


From ae3dfb83af871bbde89625f1b95600984dfd2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:26 +0000
Subject: [PATCH 004/107] fix: common envelope in contact binaries does not
 depend on star order

A contact binary of a compact object and a star with an envelope had a next
step only if the compact object was star 1.
---
 posydon/binary_evol/flow_chart.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/posydon/binary_evol/flow_chart.py b/posydon/binary_evol/flow_chart.py
index bb859d0..bf96fd0 100644
--- a/posydon/binary_evol/flow_chart.py
+++ b/posydon/binary_evol/flow_chart.py
@@ -274,6 +274,11 @@ for s1 in STAR_STATES_NORMALSTAR:
         POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oCE2')] = 'step_CE'
         POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oDoubleCE1')] = 'step_CE'
         POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oDoubleCE2')] = 'step_CE'
+        # either star may be the one with an envelope
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oCE1')] = 'step_CE'
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oCE2')] = 'step_CE'
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oDoubleCE1')] = 'step_CE'
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oDoubleCE2')] = 'step_CE'
 
 
 for b in BINARY_STATES_CC:
-- 
2.43.0


From 55163499d8bd9afab7f599355464f16756ff5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:04 +0000
Subject: [PATCH 005/107] fix: a binary failing while its history is written no
 longer stops the run

Without a valid systemic velocity in the last rows the history table could not
be built, which aborted the dump of the whole population.
---
 posydon/binary_evol/binarystar.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 8e55782..76fa1b2 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -555,9 +555,13 @@ class BinaryStar:
             V_sys_y = np.zeros(len(bin_df))
             V_sys_z = np.zeros(len(bin_df))
             for i in range(len(bin_df)):
-                V_sys_x[i] = bin_df.iloc[i]['V_sys'][0]
-                V_sys_y[i] = bin_df.iloc[i]['V_sys'][1]
-                V_sys_z[i] = bin_df.iloc[i]['V_sys'][2]
+                V_sys = bin_df.iloc[i]['V_sys']
+                # there may be no valid entry, if the binary failed
+                if np.ndim(V_sys) == 0:
+                    V_sys = [np.nan] * 3
+                V_sys_x[i] = V_sys[0]
+                V_sys_y[i] = V_sys[1]
+                V_sys_z[i] = V_sys[2]
 
             bin_df['V_sys_x'] = copy.deepcopy(V_sys_x)
             bin_df['V_sys_y'] = copy.deepcopy(V_sys_y)
@@ -572,9 +576,13 @@ class BinaryStar:
             NN_dist_y = np.zeros(len(bin_df))
             NN_dist_z = np.zeros(len(bin_df))
             for i in range(len(bin_df)):
-                NN_dist_x[i] = bin_df.iloc[i]['nearest_neighbour_distance'][0]
-                NN_dist_y[i] = bin_df.iloc[i]['nearest_neighbour_distance'][1]
-                NN_dist_z[i] = bin_df.iloc[i]['nearest_neighbour_distance'][2]
+                NN_dist = bin_df.iloc[i]['nearest_neighbour_distance']
+                # there may be no valid entry, if the binary failed
+                if np.ndim(NN_dist) == 0:
+                    NN_dist = [np.nan] * 3
+                NN_dist_x[i] = NN_dist[0]
+                NN_dist_y[i] = NN_dist[1]
+                NN_dist_z[i] = NN_dist[2]
 
             bin_df['NN_dist_x'] = copy.deepcopy(NN_dist_x)
             bin_df['NN_dist_y'] = copy.deepcopy(NN_dist_y)
-- 
2.43.0


From 79a002624e400b4f207781f0c6a85108f5f6e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:55 +0000
Subject: [PATCH 006/107] fix: temporary files which were not combined are no
 longer deleted

---
 posydon/popsyn/binarypopulation.py | 47 ++++++++++++++++--------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e3a4600..b201d09 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -557,37 +557,40 @@ class BinaryPopulation:
             simulated_mass_binaries = 0.0
             number_of_systems=0
 
+            combined_files = []
             for f in file_names:
-                # strings itemsize set by first append max value,
-                # which may not be largest string
+                # a file which can't be read is left out and kept on disk
                 try:
                     history = pd.read_hdf(f, key='history')
-                    store.append('history', history,
-                                 min_itemsize=history_min_itemsize)
-
                     oneline = pd.read_hdf(f, key='oneline')
+                except Exception:
+                    print(traceback.format_exc(), flush=True)
+                    continue
 
-                    # split weight between single and binary stars
-                    init_step_mask = ~history.index.duplicated(keep="first")  # indices that are NOT duplicates of the first
-                    singles_mask = history["state"] == "initially_single_star"
-                    filtered_data_single = history[init_step_mask & singles_mask]
-                    filtered_data_binaries = history[init_step_mask & ~singles_mask]
+                # strings itemsize set by first append max value,
+                # which may not be largest string
+                store.append('history', history,
+                             min_itemsize=history_min_itemsize)
 
-                    simulated_mass_binaries += np.nansum(filtered_data_binaries[["S1_mass", "S2_mass"]].to_numpy())
-                    simulated_mass_single += np.nansum(filtered_data_single[["S1_mass"]].to_numpy())
-                    simulated_mass = simulated_mass_single + simulated_mass_binaries
+                # split weight between single and binary stars
+                init_step_mask = ~history.index.duplicated(keep="first")  # indices that are NOT duplicates of the first
+                singles_mask = history["state"] == "initially_single_star"
+                filtered_data_single = history[init_step_mask & singles_mask]
+                filtered_data_binaries = history[init_step_mask & ~singles_mask]
 
-                    if 'metallicity' not in oneline.columns:
-                        met_df = pd.DataFrame(data={'metallicity': [self.metallicity] * len(oneline)}, index=oneline.index)
-                        oneline = pd.concat([oneline, met_df], axis=1)
+                simulated_mass_binaries += np.nansum(filtered_data_binaries[["S1_mass", "S2_mass"]].to_numpy())
+                simulated_mass_single += np.nansum(filtered_data_single[["S1_mass"]].to_numpy())
+                simulated_mass = simulated_mass_single + simulated_mass_binaries
 
-                    number_of_systems += len(oneline)
+                if 'metallicity' not in oneline.columns:
+                    met_df = pd.DataFrame(data={'metallicity': [self.metallicity] * len(oneline)}, index=oneline.index)
+                    oneline = pd.concat([oneline, met_df], axis=1)
 
-                    store.append('oneline', oneline,
-                                 min_itemsize=oneline_min_itemsize)
+                number_of_systems += len(oneline)
 
-                except Exception:
-                    print(traceback.format_exc(), flush=True)
+                store.append('oneline', oneline,
+                             min_itemsize=oneline_min_itemsize)
+                combined_files.append(f)
 
             # store population metadata
             tmp_df = pd.DataFrame()
@@ -608,7 +611,7 @@ class BinaryPopulation:
             store.append('mass_per_metallicity', tmp_df)
 
         # only remove the files once they've been written to the new file
-        for f in file_names:
+        for f in combined_files:
             os.remove(f)
 
     def close(self):
-- 
2.43.0


From 615d2ea70568a2873e060281c3335d07b73c0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:55 +0000
Subject: [PATCH 007/107] fix: a failure while saving binaries is reported and
 not swallowed

---
 posydon/popsyn/binarypopulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index b201d09..650b904 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -944,7 +944,9 @@ class PopulationManager:
                              min_itemsize=oneline_min_itemsize)
 
             except Exception:
+                # do not continue as if the binaries were saved
                 print(traceback.format_exc(), flush=True)
+                raise
 
             # store population metadata
             tmp_df = pd.DataFrame()
-- 
2.43.0


From 0c25020bc4de19b5613a08025fac73c96281e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 008/107] fix: the original RNG of a parallel run is that of
 its own process

---
 posydon/popsyn/binarypopulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 650b904..2f90a46 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -1000,6 +1000,8 @@ class BinaryGenerator:
             assert isinstance(RNG, np.random.Generator)
             self.RNG = RNG
             self.entropy = self.RNG.bit_generator._seed_seq.entropy
+        # distinguishes the generators of parallel runs with the same entropy
+        self._spawn_key = self.RNG.bit_generator._seed_seq.spawn_key
 
         self.kwargs = kwargs.copy()
         self.sampler = sampler
@@ -1013,7 +1015,8 @@ class BinaryGenerator:
 
     def get_original_rng(self):
         """Return the random-number generator."""
-        seq = np.random.SeedSequence(entropy=self.entropy)
+        seq = np.random.SeedSequence(entropy=self.entropy,
+                                     spawn_key=self._spawn_key)
         RNG = np.random.default_rng(seed=seq)
         return RNG
 
-- 
2.43.0


From 3a7680a504198e4eed95e9bd9aa8c20e15cab780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 009/107] fix: get_binary_by_iter returns the binary of the
 n-th draw

---
 posydon/popsyn/binarypopulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 2f90a46..5255ceb 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -1024,9 +1024,8 @@ class BinaryGenerator:
         """Get the nth binary as if n calls were made to draw_intial_binary."""
         RNG = self.get_original_rng()
         original_num_gen = self._num_gen
-        if n != 0:  # draw n-1 samples with new original RNG
-            self.sampler(
-                number_of_binaries=int(n-1), RNG=RNG, **kwargs)
+        for _ in range(int(n)-1):  # draw n-1 binaries with new original RNG
+            self.draw_initial_binary(RNG=RNG, **kwargs)
         binary = self.draw_initial_binary(index=n, RNG=RNG, **kwargs)
         self._num_gen = original_num_gen
         return binary
-- 
2.43.0


From 3a86d22b1643f6d083b77cb0f333cfa316fd624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:05 +0000
Subject: [PATCH 010/107] fix: single stars keep their mass when sampling with
 q=1

---
 posydon/popsyn/independent_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..21f36e1 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,7 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        secondary_masses = np.array(primary_masses)
 
     return secondary_masses
 
-- 
2.43.0


From d4e879c134b0a11d60692efec6fd17e40a09ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:05 +0000
Subject: [PATCH 011/107] fix: period PDF of log-uniform separations

---
 posydon/popsyn/norm_pop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 915a95a..6326875 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -205,9 +205,9 @@ def get_period_pdf(kwargs):
             # PDF(P) = PDF(a) * |da/dP|
             # da/dP = (2/3) * (a/P)
             # PDF(P) = (2/3) * log_uniform(log_a)
-            period_pdf = lambda P, m1, q: separation_log_uniform.pdf(
-                orbital_separation_from_period(P, m1, q*m1)
-            ) * 2./3.
+            def period_pdf(P, m1, q):
+                a = orbital_separation_from_period(P, m1, q*m1)
+                return separation_log_uniform.pdf(a) * a * 2./3.
         else:
             raise ValueError("Orbital separation scheme not recognized")
     else:
-- 
2.43.0


From 5f074efaf6ec497711e5accf0028b418c017bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:06 +0000
Subject: [PATCH 012/107] fix: mean mass covers the mass ratio range of every
 primary

---
 posydon/popsyn/norm_pop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 6326875..839ebbf 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -305,6 +305,12 @@ def get_mean_mass(params):
     if q_min > q_max:
         raise ValueError("q_min must be less than q_max")
 
+    if (params['secondary_mass_scheme'] == 'flat_mass_ratio'
+        and ('q_min' not in params and 'q_max' not in params)):
+        # the mass ratio range depends on the primary mass
+        q_min = lambda m: np.max([params['secondary_mass_min']/m, 0])
+        q_max = lambda m: np.min([params['secondary_mass_max']/m, 1])
+
     # binary integration
     I_bin = dblquad(lambda q, m: (m + m * q) * PDF(m, q, P=0, binary=True),
                     m1_min, m1_max,
-- 
2.43.0


From 8d27d7e5ea69f359c496832154ac8494aa7250be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 013/107] fix: a sample file without rows is reported and does
 not hang

---
 posydon/popsyn/sample_from_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/sample_from_file.py b/posydon/popsyn/sample_from_file.py
index f186096..7b82997 100644
--- a/posydon/popsyn/sample_from_file.py
+++ b/posydon/popsyn/sample_from_file.py
@@ -104,6 +104,8 @@ def get_samples_from_file(orbital_scheme='', **kwargs):
 
     # Get number of data frame entries
     set_n = len(df)
+    if set_n == 0:
+        raise ValueError(f'{filename} contains no samples!')
 
     # Get eccentricities
     key = infer_key(available_keys=df.keys(), allowed_keys=ECCENTRICITY_NAMES)
@@ -214,6 +216,8 @@ def get_kick_samples_from_file(**kwargs):
 
     # Get number of data frame entries
     set_n = len(df)
+    if set_n == 0:
+        raise ValueError(f'{filename} contains no samples!')
 
     ## Get primary kick
     # Velocity
-- 
2.43.0


From 3b4b0ccb448b95a65e70af19ca86bc2523514131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:49 +0000
Subject: [PATCH 014/107] fix: a selection without any match returns an empty
 table

---
 posydon/popsyn/synthetic_population.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..3081839 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -285,6 +285,9 @@ class DFInterface:
             out = []
             for chunk in iterator:
                 out.append(chunk)
+            if len(out) == 0:
+                # nothing matches: an empty table with the requested columns
+                return store.select(key, start=0, stop=0, columns=columns)
             out = pd.concat(out, axis=0)
         return out
 
-- 
2.43.0


From 59263beea86cee998cdadbbac35c2801d4d148c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:49 +0000
Subject: [PATCH 015/107] fix: boolean masks select the rows of every chunk of
 the history

---
 posydon/popsyn/synthetic_population.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 3081839..b65d56c 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -481,11 +481,16 @@ class History(DFInterface):
                 return pd.DataFrame()
             # We cannot use self.select because we're using a boolean mask across the entire table
             # This can be optimized by only selecting indices that are True instead of the entire table
+            if isinstance(key, pd.DataFrame):
+                # a mask made from a column selects rows
+                key = key.to_numpy().flatten()
             with pd.HDFStore(self.filename, mode="r") as store:
                 iterator = store.select("history", chunksize=self.chunksize)
                 out = []
-                for i, chunk in enumerate(iterator):
-                    out.append(chunk[key[i : i + self.chunksize]])
+                start = 0
+                for chunk in iterator:
+                    out.append(chunk[key[start : start + len(chunk)]])
+                    start += len(chunk)
                 return pd.concat(out, axis=0)
 
         # single column
-- 
2.43.0


From 685882406c65f34fd0673041f8ac68c583ffffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:49 +0000
Subject: [PATCH 016/107] fix: open-ended slices of a population reach its last
 system

---
 posydon/popsyn/synthetic_population.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index b65d56c..9a233e9 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -449,10 +449,10 @@ class History(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                stop = np.max(self.indices, initial=-1) + 1
             else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
+                stop = key.stop
+            indices = list(range(pre, stop))
             return self.select(where=f'index in {indices}')
 
         # single index
@@ -699,10 +699,10 @@ class Oneline(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                stop = np.max(self.indices, initial=-1) + 1
             else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
+                stop = key.stop
+            indices = list(range(pre, stop))
             return self.select(where=f'index in {indices}')
 
         elif isinstance(key, int):
-- 
2.43.0


From 0c53ec7704e3cd737d5606d94085f6d478d0972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:14 +0000
Subject: [PATCH 017/107] fix: an empty selection of systems returns an empty
 table

---
 posydon/popsyn/synthetic_population.py | 29 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9a233e9..d2803c3 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -291,6 +291,23 @@ class DFInterface:
             out = pd.concat(out, axis=0)
         return out
 
+    def _select_indices(self, indices):
+        '''Select the rows of the given systems (possibly none).
+
+        Parameters
+        ----------
+        indices : list of int
+            The indices of the systems to select.
+
+        Returns
+        -------
+        pandas.DataFrame
+            The selected data as a DataFrame.
+        '''
+        if len(indices) == 0:
+            return self.select(start=0, stop=0)
+        return self.select(where=f"index in {indices}")
+
     def get_repr(self, key):
         '''Return a string representation of the key table.
 
@@ -453,7 +470,7 @@ class History(DFInterface):
             else:
                 stop = key.stop
             indices = list(range(pre, stop))
-            return self.select(where=f'index in {indices}')
+            return self._select_indices(indices)
 
         # single index
         elif isinstance(key, int):
@@ -703,23 +720,23 @@ class Oneline(DFInterface):
             else:
                 stop = key.stop
             indices = list(range(pre, stop))
-            return self.select(where=f'index in {indices}')
+            return self._select_indices(indices)
 
         elif isinstance(key, int):
             return self.select(where=f"index == {key}")
         elif isinstance(key, list) and all(isinstance(x, int) for x in key):
-            return self.select(where=f"index in {key}")
+            return self._select_indices(key)
         elif isinstance(key, np.ndarray) and (key.dtype == int):
             indices = key.tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_indices(indices)
         elif isinstance(key, list) and all(isinstance(x, float) for x in key):
             raise ValueError("elements in list are not integers! Try casting to int.")
         elif isinstance(key, pd.DataFrame) and all(key.dtypes == bool):
             indices = self.indices[key.to_numpy().flatten()].tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_indices(indices)
         elif isinstance(key, np.ndarray) and key.dtype == bool:
             indices = self.indices[key].tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_indices(indices)
         elif isinstance(key, str):
             if key in self.columns:
                 return self.select(columns=[key])
-- 
2.43.0


From 377ed7b200cc28f4b202432728694b10e6e992c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 018/107] fix: formation channels of populations with only
 single stars in a chunk

---
 posydon/popsyn/synthetic_population.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index d2803c3..63b3e39 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1517,13 +1517,10 @@ class Population(PopulationIO):
             )
             events = self.history.select(start=previous, stop=end, columns=["event"])
 
-            mask = pd.notna(interp_class_HMS_HMS["interp_class_HMS_HMS"].values)
-            interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = (
-                interp_class_HMS_HMS[mask]
-                .apply(lambda x: HMS_HMS_event_dict[x["interp_class_HMS_HMS"]], axis=1)
-                .values
-            )
-            del mask
+            interp_class_HMS_HMS["interp_class_HMS_HMS"] = [
+                HMS_HMS_event_dict[x] if pd.notna(x) else x
+                for x in interp_class_HMS_HMS["interp_class_HMS_HMS"]
+            ]
 
             previous = end
             # combine based on the index, this allows for an easier apply later
-- 
2.43.0


From 19bad8d5462bee09ade847876aeb083a9424c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 019/107] fix: history lengths follow the order of the systems
 in the file

---
 posydon/popsyn/synthetic_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 63b3e39..3f9afb0 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -402,8 +402,9 @@ class History(DFInterface):
                         "history_lengths not found in population file. Calculating history lengths..."
                     )
                 history_events = store.select_column("history", "index")
+                # keep the order of the file, the tables are read in chunks
                 tmp_df = pd.DataFrame(
-                    history_events.groupby(history_events).count(),
+                    history_events.groupby(history_events, sort=False).count(),
                 )
                 tmp_df.rename(columns={"index": "length"}, inplace=True)
                 self.lengths = tmp_df
-- 
2.43.0


From 966fdf559be1cee0fbdfc8d8b47c8e66cd8b7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 020/107] fix: exported tables list the systems in the same
 order

---
 posydon/popsyn/synthetic_population.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 3f9afb0..5538ba0 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1327,7 +1327,9 @@ class Population(PopulationIO):
                 disable=not self.verbose,
             ):
 
+                # all tables list the systems in the order of the selection
                 tmp_df = self.oneline[selection[i : i + self.chunksize]]
+                tmp_df = tmp_df.loc[selection[i : i + self.chunksize]]
                 if "metallicity" in tmp_df.columns:
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
@@ -1351,6 +1353,7 @@ class Population(PopulationIO):
                 disable=not self.verbose,
             ):
                 tmp_df = self.history[selection[i : i + history_chunksize]]
+                tmp_df = tmp_df.loc[selection[i : i + history_chunksize]]
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "history",
-- 
2.43.0


From 12a6e2629d0bab6619bd512c61d4a3e4ca546c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 021/107] fix: exported systems get their metallicity in solar
 units

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 5538ba0..a0709db 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1333,7 +1333,7 @@ class Population(PopulationIO):
                 if "metallicity" in tmp_df.columns:
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
-                    tmp_df["metallicity"] = self.metallicities[0]
+                    tmp_df["metallicity"] = self.solar_metallicities[0]
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
-- 
2.43.0


From 84c9186b370fecc0e2b40a2e1f1059bd22697451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 022/107] fix: exporting counts systems per metallicity and
 keeps the population

---
 posydon/popsyn/synthetic_population.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index a0709db..2b6ceb4 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1321,6 +1321,7 @@ class Population(PopulationIO):
                 print("Writing selected systems to population file...")
 
             # write oneline of selected systems
+            selected_metallicities = np.array([])
             for i in tqdm(
                 range(0, len(selection), self.chunksize),
                 total=len(selection) // self.chunksize,
@@ -1334,6 +1335,8 @@ class Population(PopulationIO):
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
                     tmp_df["metallicity"] = self.solar_metallicities[0]
+                selected_metallicities = np.append(
+                    selected_metallicities, tmp_df["metallicity"])
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
@@ -1398,16 +1401,21 @@ class Population(PopulationIO):
                 )
 
             # write mass_per_metallicity
-            if "/mass_per_metallicity" in store.keys():
-                self_mass = self.mass_per_metallicity
+            self_mass = self.mass_per_metallicity.copy()
+            if len(self_mass) > 1:
+                # count the selected systems of each metallicity
+                self_mass["number_of_systems"] = [
+                    np.sum(selected_metallicities == Z) for Z in self_mass.index
+                ]
+            else:
                 self_mass["number_of_systems"] = len(selection)
+
+            if "/mass_per_metallicity" in store.keys():
                 tmp_df = pd.concat([store["mass_per_metallicity"], self_mass])
                 mass_per_metallicity = tmp_df.groupby(tmp_df.index).sum()
                 store.put("mass_per_metallicity", mass_per_metallicity)
 
             else:
-                self_mass = self.mass_per_metallicity
-                self_mass["number_of_systems"] = len(selection)
                 store.put("mass_per_metallicity", self_mass)
 
         # write ini parameters
-- 
2.43.0


From dcc9c3228a1b7dcd9724b557a84c641646b79dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:19 +0000
Subject: [PATCH 023/107] fix: model weights belong to the systems they were
 calculated for

---
 posydon/popsyn/synthetic_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 2b6ceb4..66ce92c 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2000,7 +2000,8 @@ class TransientPopulation(Population):
                                                     M_sim=M_sim,
                                                     simulation_parameters=simulation_parameters,
                                                     population_parameters=population_parameters)
-            weight_mapping = dict(zip(met_indices, calculated_weights))
+            # the order of the systems is the one in the oneline table
+            weight_mapping = dict(zip(pop_data.index, calculated_weights))
             model_weights[model_weights_identifier] = (
                 model_weights.index.to_series().map(weight_mapping).fillna(model_weights[model_weights_identifier]))
 
-- 
2.43.0


From e56d4de4d516dee87bd5947e722a2c716d5826d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:19 +0000
Subject: [PATCH 024/107] fix: a star formation model does not change the
 default model

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 66ce92c..bf841c3 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2117,10 +2117,10 @@ class TransientPopulation(Population):
         # Set model to DEFAULT or provided MODEL parameters
         # Allows for partial model specification
         if MODEL_in is None:
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
         else:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From 1053d53a018b74d970caad0b2d51a81cf20557b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:57 +0000
Subject: [PATCH 025/107] fix: cosmic weights cover all events of a transient
 population

---
 posydon/popsyn/synthetic_population.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index bf841c3..ad2e748 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2159,7 +2159,8 @@ class TransientPopulation(Population):
             )
 
         get_redshift_from_cosmic_time = redshift_from_cosmic_time_interpolator()
-        indices = self.indices
+        with pd.HDFStore(self.filename, mode="r") as store:
+            nr_of_events = store.get_storer("transients/" + self.transient_name).nrows
 
         met_edges = rates.edges_metallicity_bins
         # sample the SFH for only the events that are within the Hubble time
@@ -2181,7 +2182,7 @@ class TransientPopulation(Population):
         deltaT = rates.MODEL["delta_t"] * 10**6  # yr
 
         for i in tqdm(
-            range(0, len(indices), self.chunksize),
+            range(0, nr_of_events, self.chunksize),
             desc="event loop",
             disable=not self.verbose,
         ):
@@ -2703,9 +2704,11 @@ class Rates(TransientPopulation):
                 ]
 
         # loop over the transient population and calculate the new weights, while writing to the file
+        with pd.HDFStore(self.filename, mode="r") as store:
+            nr_of_events = store.get_storer("transients/" + self.transient_name).nrows
         for i in tqdm(
-            range(0, len(self), self.chunksize),
-            total=len(self) // self.chunksize,
+            range(0, nr_of_events, self.chunksize),
+            total=nr_of_events // self.chunksize,
             disable=not self.verbose,
         ):
             transient_pop_chunk = self.select(start=i, stop=i + self.chunksize)
-- 
2.43.0


From 08ea7a211f6aef0bf3b6ad15705977c2db624c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:54 +0000
Subject: [PATCH 026/107] fix: redshift bins for widths that do not divide the
 cosmic age

---
 posydon/popsyn/rate_calculation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/rate_calculation.py b/posydon/popsyn/rate_calculation.py
index de98212..e891e19 100644
--- a/posydon/popsyn/rate_calculation.py
+++ b/posydon/popsyn/rate_calculation.py
@@ -198,7 +198,11 @@ def get_redshift_bin_centers(delta_t):
     t_birth = []
     n_redshift_bin_centers = int(cosmology.age(0).to("Myr").value / delta_t)
     for i in range(n_redshift_bin_centers + 1):
-        t_birth.append(t_birth_bin[i] - delta_t * 1e-3 / 2.0)  # Gyr
+        t_center = t_birth_bin[i] - delta_t * 1e-3 / 2.0  # Gyr
+        if t_center <= 0.0:
+            # the earliest bin is not complete: use the part after z=100
+            t_center = (t_birth_bin[i] + cosmology.age(100.0).value) / 2.0
+        t_birth.append(t_center)  # Gyr
         t_birth_bin.append(t_birth_bin[i] - delta_t * 1e-3)  # Gyr
     t_birth = np.array(t_birth)
     # compute the redshift
-- 
2.43.0


From 02eafe90fb36fd84920ce3638637f32dd3269d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:04 +0000
Subject: [PATCH 027/107] fix: formation times from a histogram are drawn for
 every binary

---
 posydon/popsyn/star_formation_history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index b962ff6..ac91a2e 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -1110,7 +1110,8 @@ def get_formation_times(N_binaries, star_formation="constant", **kwargs): # prag
     if scenario in ["custom_linear_histogram", "custom_log10_histogram"]:
         custom_ages_file = kwargs.get("custom_ages_file")
         x, y = read_histogram_from_file(custom_ages_file)
-        current_binary_ages = histogram_sampler(x, y, rng=RNG)
+        current_binary_ages = np.atleast_1d(
+            histogram_sampler(x, y, size=N_binaries, rng=RNG))
         if "log10" in scenario:
             current_binary_ages = 10.0**current_binary_ages
         return max_time - current_binary_ages
-- 
2.43.0


From f4e0afac50874a27fc8fb0a56d699e219efdfe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:29 +0000
Subject: [PATCH 028/107] fix: detection probabilities use the more massive
 component

---
 posydon/popsyn/transient_select_funcs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index c3169e5..cad1d2a 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -301,7 +301,11 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
                                                       sensitivity_key=sensitivity)
 
     data_slice = pd.DataFrame()
-    data_slice['m1'] = transient_pop_chunk['S1_mass']
+    if 'S2_mass' in transient_pop_chunk.columns:
+        # the grid is given for the mass of the more massive component
+        data_slice['m1'] = transient_pop_chunk[['S1_mass', 'S2_mass']].max(axis=1)
+    else:
+        data_slice['m1'] = transient_pop_chunk['S1_mass']
 
     if 'q' in transient_pop_chunk.columns:
         data_slice['q'] = transient_pop_chunk['q']
-- 
2.43.0


From f62e4f6050157059fd74928f3177743cb00bb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:29 +0000
Subject: [PATCH 029/107] fix: detectability leaves the intrinsic weights
 unchanged

---
 posydon/popsyn/transient_select_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index cad1d2a..2099db9 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -323,7 +323,7 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
                                         transient_pop_chunk['S1_spin_orbit_tilt_at_merger'],
                                         transient_pop_chunk['S2_spin_orbit_tilt_at_merger'])
 
-    detectable_weights = z_weights_chunk.to_numpy()
+    detectable_weights = z_weights_chunk.to_numpy(copy=True)
     for i in tqdm(range(z_events_chunk.shape[1]), total=z_events_chunk.shape[1], disable= not verbose):
         data_slice['z'] = z_events_chunk.iloc[:,i]
         mask = pd.notna(data_slice['z']).to_numpy()
-- 
2.43.0


From 56187679f8e8df457f1f9eac3cdd3c69750a4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:54 +0000
Subject: [PATCH 030/107] fix: beaming factors of bursts without energy

---
 posydon/popsyn/GRB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/GRB.py b/posydon/popsyn/GRB.py
index dd0b3ab..8d6c33d 100644
--- a/posydon/popsyn/GRB.py
+++ b/posydon/popsyn/GRB.py
@@ -80,7 +80,7 @@ def get_GRB_properties(df, GRB_efficiency, GRB_beaming, E_GRB_iso_min=0.):
                 t=25.
                 C = (7e46)**xi
                 fb = np.ones(len(E))
-                fb[E>0.] = (C*(eta*E[E>0.]/t)**(-xi))**(1./(1-xi))
+                fb[E>0.] = (C*(eta[E>0.]*E[E>0.]/t)**(-xi))**(1./(1-xi))
                 return fb
             E = df.loc[sel,f'S{i}_E_GRB']
             eta = df.loc[sel,f'S{i}_eta']
-- 
2.43.0


From 6dc49570ef6c36a342ab6e1b1a8c6bc58440ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:12 +0000
Subject: [PATCH 031/107] fix: delayed explosions of stars with a CO core of
 exactly 11 Msun

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index a003984..fbdbd23 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1366,7 +1366,7 @@ class StepSN(object):
                 b = -11.0 * a + 1.0
                 f_fb = a * m_core + b
                 m_fb = f_fb * (m_collapsing - m_proto)
-            elif m_core > 11.0:
+            elif m_core >= 11.0:
                 f_fb = 1.0
                 m_fb = f_fb * (m_collapsing - m_proto)
             m_rembar = m_proto + m_fb
-- 
2.43.0


From 995aed8c00e767f87e61cfe6083d28a3ae7edefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:12 +0000
Subject: [PATCH 032/107] fix: the documented mechanism direct_he_core
 collapses the He core

---
 posydon/binary_evol/SN/step_SN.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index fbdbd23..9a980b8 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1378,6 +1378,12 @@ class StepSN(object):
             f_fb = 1.0
             state = None
 
+        # direct collapse of the He core only
+        elif self.mechanism == self.direct_collapse_hecore:
+            m_rembar = m_He_core
+            f_fb = 1.0
+            state = None
+
         # Collapse prescription from the results of
         # Sukhbold, T., Ertl, T., Woosley, S. E., Brown, J. M., & Janka, H. T. (2016). 821(1), 38.
         elif self.mechanism == self.Sukhbold16_engines:
-- 
2.43.0


From 7e4244f85e35741d0d60fdbbf8ffbf67f49bcebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:12 +0000
Subject: [PATCH 033/107] fix: white dwarfs keep the radius set in the
 supernova step

---
 posydon/binary_evol/SN/step_SN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 9a980b8..7619a6e 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -700,7 +700,6 @@ class StepSN(object):
                     star.mass = m_rembar
                     star.state = "WD"
                     star.spin = 0.
-                    star.log_R = np.log10(CO_radius(star.mass, star.state))
                     for key in STARPROPERTIES:
                         if key in ["he_core_mass"]:
                             setattr(star, key, star.mass)
@@ -715,6 +714,7 @@ class StepSN(object):
                                          "center_c12", "center_n14",
                                          "center_o16"]:
                             setattr(star, key, None)
+                    star.log_R = np.log10(CO_radius(star.mass, star.state))
                     return
 
                 # check if the star was disrupted by the PISN
@@ -836,7 +836,6 @@ class StepSN(object):
                     star.mass = m_rembar
                     star.state = "WD"
                     star.spin = 0.
-                    star.log_R = np.log10(CO_radius(star.mass, star.state))
                     for key in STARPROPERTIES:
                         if key in ["he_core_mass"]:
                             setattr(star, key, star.mass)
@@ -851,6 +850,7 @@ class StepSN(object):
                                          "center_c12", "center_n14",
                                          "center_o16"]:
                             setattr(star, key, None)
+                    star.log_R = np.log10(CO_radius(star.mass, star.state))
                     return
 
                 # check if the star was disrupted by the PISN
-- 
2.43.0


From 71186d02865493458e82d8fb571a2206ce31a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:12 +0000
Subject: [PATCH 034/107] fix: supernovae without kicks follow the collapsing
 star

---
 posydon/binary_evol/SN/step_SN.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 7619a6e..b7bbc2d 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -487,16 +487,29 @@ class StepSN(object):
         else:
             # no kick, but still need to unset the event after CC
             # and update orbital period/separation
+            if binary.event == "CC1":
+                collapsed, companion = binary.star_1, binary.star_2
+            else:
+                collapsed, companion = binary.star_2, binary.star_1
             binary.event = None
-            new_separation = separation_evol_wind_loss(
-                    binary.star_1.mass, binary.star_1.mass_history[-1],
-                    binary.star_2.mass, binary.separation)
-            new_orbital_period = orbital_period_from_separation(
+            if collapsed.state == "massless_remnant":
+                if binary.state not in ["disrupted", "merged",
+                                        "initially_single_star"]:
+                    binary.state = "disrupted"
+                binary.separation = np.nan
+                binary.orbital_period = np.nan
+                binary.eccentricity = np.nan
+            elif binary.state not in ["disrupted", "merged",
+                                      "initially_single_star"]:
+                new_separation = separation_evol_wind_loss(
+                    collapsed.mass, collapsed.mass_history[-1],
+                    companion.mass, binary.separation)
+                new_orbital_period = orbital_period_from_separation(
                     new_separation, binary.star_1.mass, binary.star_2.mass)
 
-            binary.separation = new_separation
-            binary.orbital_period = new_orbital_period
-            binary.state = "detached"
+                binary.separation = new_separation
+                binary.orbital_period = new_orbital_period
+                binary.state = "detached"
 
         # Checks if the binary is not disrupted to compute the
         # inspiral time due to gravitational wave emission
-- 
2.43.0


From e9fefa7ba4f31b8f31146d986f8e2c1c19b27a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 035/107] fix: remnants are neutron stars up to the chosen
 maximum mass

---
 posydon/binary_evol/SN/step_SN.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index b7bbc2d..b424114 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -440,6 +440,11 @@ class StepSN(object):
         star.lg_mdot = None
         star.lg_system_mdot = None
 
+    def _set_remnant_state(self, star):
+        """Distinguish NSs and BHs by the maximum NS mass of this step."""
+        if star.state in ["NS", "BH"]:
+            star.state = "BH" if star.mass >= self.max_NS_mass else "NS"
+
     def __call__(self, binary):
         """Perform the supernova step on a binary object.
 
@@ -467,6 +472,7 @@ class StepSN(object):
 
             self._reset_other_star_properties(star=binary.star_2)
             binary.update_star_states()
+            self._set_remnant_state(star=binary.star_1)
 
         elif binary.event == "CC2":
             # collapse star
@@ -477,6 +483,7 @@ class StepSN(object):
 
             self._reset_other_star_properties(star=binary.star_1)
             binary.update_star_states()
+            self._set_remnant_state(star=binary.star_2)
         else:
             raise ValueError("Something went wrong: "
                              "invalid call of supernova step!")
-- 
2.43.0


From 527862a7bd0298f66166930bbbac372e12f7d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:10 +0000
Subject: [PATCH 036/107] fix: a numeric PISN limit accepts stars without a He
 core

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index b424114..b54997e 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1117,7 +1117,7 @@ class StepSN(object):
             elif is_number(self.PISN) and m_He_core > self.PISN:
                 m_PISN = self.PISN
 
-            elif is_number(self.PISN) and 0.0 < m_He_core <= self.PISN:
+            elif is_number(self.PISN) and 0.0 <= m_He_core <= self.PISN:
                 m_PISN = None
 
             else:
-- 
2.43.0


From 76bd0b84ce8d65e958ce39eff912b859d8cf643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:34 +0000
Subject: [PATCH 037/107] fix: a double common envelope uses the core radius of
 each star

---
 posydon/binary_evol/CE/step_CEE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index dcbcd7f..036dc5f 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -435,10 +435,10 @@ class StepCEE(object):
         else:
             if comp_type == 'He_core':
                 mc2_f = comp_star.he_core_mass
-                rc2_f = donor.he_core_radius
+                rc2_f = comp_star.he_core_radius
             elif comp_type == 'CO_core':
                 mc2_f = comp_star.co_core_mass
-                rc2_f = donor.co_core_radius
+                rc2_f = comp_star.co_core_radius
             elif comp_type == 'not_giant_companion':
                 mc2_f = comp_star.mass
                 rc2_f = 10.**(comp_star.log_R)
-- 
2.43.0


From dcf261aff3d10bcdf96c0a70ecb90e056d0b5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:34 +0000
Subject: [PATCH 038/107] fix: mass loss of mergers in a single common envelope

---
 posydon/binary_evol/CE/step_CEE.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 036dc5f..1436ebd 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1288,11 +1288,16 @@ class StepCEE(object):
                       const.Msun/(2. * separation_before_merger)
         E_orb_released_to_inner_RLOF = alpha_CE * (E_orb_initial - E_orb_final)
 
+        M_envelope_donor = m1_i - mc1_i
+        M_envelope_companion = m2_i - mc2_i
+
         # We assume "lambda_from_profile_gravitational_plus_internal_minus_recombination"
         if not double_CE:
             Mejected_donor = \
                 calculate_Mejected_for_integrated_binding_energy(donor.profile,
                     E_orb_released_to_inner_RLOF, mc1_i, rc1_i, m1_i, radius1)
+            # the companion does not contribute to the common envelope
+            Mejected_comp = 0.0
 
         else: # in double_CE
 
@@ -1300,8 +1305,6 @@ class StepCEE(object):
             # ejection of each (common) envelope is the same as the ratio of
             # the initial envelope masses:
 
-            M_envelope_donor = m1_i  - mc1_i
-            M_envelope_companion = m2_i - mc2_i
             weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)
 
             Eorb_for_partial_ej_donor = E_orb_released_to_inner_RLOF * weight
-- 
2.43.0


From 28d9e45610525e22e2aaa9d67d5b352f2c597205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 039/107] fix: no energy released in a common envelope ejects
 no mass

---
 posydon/utils/common_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d3e0a29..530263e 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -2847,7 +2847,8 @@ def calculate_Mejected_for_integrated_binding_energy(profile, Ebind_threshold,
         U_energy = U_energy + specific_internal_energy[i]*donor_dm[i]*const.Msun
         Ebind_so_far = Grav_energy + factor_internal_energy * U_energy
         i=i+1
-    ind_threshold = i-1
+    # without any energy to spend nothing is ejected
+    ind_threshold = max(i-1, 0)
 
     if donor_mass[ind_threshold]< mc1_i or  donor_radius[ind_threshold]<rc1_i:
         Pwarn("partial mass ejected is greater than the envelope mass", "EvolutionWarning")
-- 
2.43.0


From ff019f7cdbd9075b7429bb3fc1c4879ccb6f5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:58 +0000
Subject: [PATCH 040/107] fix: orbital decay by gravitational waves follows
 Junker & Schafer 1992

---
 .../binary_evol/DT/gravitational_radiation/default_gravrad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
index 2008332..9c6b0f9 100644
--- a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
+++ b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
@@ -51,8 +51,8 @@ def default_gravrad(a, e, primary, secondary, verbose = False):
         * ((96 + 292 * e ** 2 + 37 * e ** 4) * (1 - e ** 2)
         - (1 / 28 * const.standard_cgrav * (m1 + m2) * const.msol
         / (a * const.rsol * const.clight ** 2))
-        * ((14008 + 4707 * v)+(80124 + 21560 * v) * e ** 2
-        + (17325 + 10458) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
+        * ((14008 + 4704 * v)+(80124 + 21560 * v) * e ** 2
+        + (17325 + 10458 * v) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
         ) * const.secyer / const.rsol
     # eq. (35) of Junker et al. 1992, 254, 146
 
-- 
2.43.0


From c35eb50f7601729584ec1e4691fe55b46da63b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:58 +0000
Subject: [PATCH 041/107] fix: saturated M15 magnetic braking of the primary

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index ae1aa05..fac311a 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -183,7 +183,7 @@ def M15_braking(primary, secondary, verbose = False):
 
     if (Rossby_number_pri < 0.14):
         dOmega_mb_pri = (
-            T0_pri * (chi**2.6) * (omega1 / 2.6e-6) / MOI_1
+            T0_pri * (chi**2.6) * (omega1 / omega_sol) / MOI_1
             * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
         )
     else:
-- 
2.43.0


From 087ab820aa2185a03ae78059636590308608d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:58 +0000
Subject: [PATCH 042/107] fix: CARB magnetic braking of the primary depends on
 its own mass

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index fac311a..0900d8d 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -372,7 +372,7 @@ def CARB_braking(primary, secondary, verbose = False):
 
     dOmega_mb_pri = (
         (2./3.) * omega1 * mdot_1 * R_alfven_pri**2 / MOI_1
-        * np.clip((1.5 - m2) / (1.5 - 1.3), 0, 1)
+        * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
     )
 
     return -abs(dOmega_mb_sec), -abs(dOmega_mb_pri)
-- 
2.43.0


From 2611ab6c62eb3794ebd3e094ed457da5fa618042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:15 +0000
Subject: [PATCH 043/107] fix: units of the CARB magnetic braking

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index 0900d8d..d1b5fff 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -349,7 +349,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_sec = (
             R2**4 * rot_ratio_sec**4 * tau_ratio_sec**4
             / (mdot_2**2 * v_mod2_sec)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_sec = 0.0
 
@@ -357,7 +357,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_pri = (
             R1**4 * rot_ratio_pri**4 * tau_ratio_pri**4
             / (mdot_1**2 * v_mod2_pri)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_pri = 0.0
 
-- 
2.43.0


From eca2aa6534bcadb9d4fc3fa8e4c196b561146504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:15 +0000
Subject: [PATCH 044/107] fix: an unsupported magnetic braking mode warns and
 is skipped

---
 posydon/binary_evol/DT/step_detached.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 73907fd..af6a335 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -1383,7 +1383,7 @@ class detached_evolution:
 
         else:
             Pwarn("WARNING: Magnetic braking is not being calculated in the "
-                "detached step. The given magnetic_braking_mode string ",
+                "detached step. The given magnetic_braking_mode string "
                 f"'{self.magnetic_braking_mode}' does not match the available "
                 "built-in cases. To enable magnetic braking, please set "
                 "magnetc_braking_mode to one of the following strings: "
@@ -1391,6 +1391,7 @@ class detached_evolution:
                 "'G18' for Garraffo et al. 2018"
                 "'M15' for Matt et al. 2015"
                 "'CARB' for Van & Ivanova 2019", "UnsupportedModelWarning")
+            dOmega_mb_sec, dOmega_mb_pri = 0.0, 0.0
 
         #if self.verbose:
         #    print("magnetic_braking_mode = ", self.magnetic_braking_mode)
-- 
2.43.0


From c40f54ea0c90d36f619bcfd484ff19ae31bee99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:15 +0000
Subject: [PATCH 045/107] fix: detached steps with dt end at the end of the
 evolution

---
 posydon/binary_evol/DT/step_detached.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index af6a335..4b3a00e 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -552,9 +552,9 @@ class detached_step:
         """
 
         if self.dt is not None and self.dt > 0:
-            t = np.arange(binary.time, self.res.t[-1] + self.dt/2.0, self.dt)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            # the last entry is always the end of the evolution
+            t = np.arange(binary.time, self.res.t[-1], self.dt)[1:]
+            t = np.hstack([t, self.res.t[-1]])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
             t_step = (self.res.t[-1] - binary.time) / self.n_o_steps_history
-- 
2.43.0


From 704328da8b031c2a6c533e52697c8fc268a81859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:15 +0000
Subject: [PATCH 046/107] fix: no duplicated history entries of detached steps
 with dt

---
 posydon/binary_evol/DT/step_detached.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 4b3a00e..6159ff2 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -727,7 +727,7 @@ class detached_step:
                 # such that history has more than one entry.
                 # Otherwise, this is updated later in BinaryStar.run_step()
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
     def update_co_stars(self, t, primary, secondary):
 
@@ -771,7 +771,7 @@ class detached_step:
                 current = history[-1]
                 setattr(obj, key, current)
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
 class detached_evolution:
     """
-- 
2.43.0


From cf7f7d817771f5303a7e75622c01e906f6b39ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:31 +0000
Subject: [PATCH 047/107] fix: wind velocities in wind accretion follow the
 donor at each time

---
 posydon/utils/common_functions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 530263e..d7a2e0f 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -606,13 +606,9 @@ def bondi_hoyle(binary, accretor, donor, idx=-1, wind_disk_criteria=True,
 
     # Kudritzki, R.-P., & Puls, J. 2000, ARA&A, 38, 613
     elif scheme == 'Kudritzki+2000':
-        for i in range(len(m)):
-            if Teff[i] >= 21000:
-                f_m = 2.65
-            elif Teff[i] <= 10000:
-                f_m = 1.0
-            else:
-                f_m = 1.4
+        f_m = np.full_like(Teff, 1.4)
+        f_m[Teff >= 21000] = 2.65
+        f_m[Teff <= 10000] = 1.0
 
     v_esc = np.sqrt(2 * G * m * Msun / (radius * Rsun))     # m/s
     v_wind = v_esc * f_m                                    # m/s
-- 
2.43.0


From ecfb1f0850ae44c573473c9098dde125c52a6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:42 +0000
Subject: [PATCH 048/107] fix: detached steps record the requested number of
 history entries

---
 posydon/binary_evol/DT/step_detached.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 6159ff2..10358df 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -557,10 +557,8 @@ class detached_step:
             t = np.hstack([t, self.res.t[-1]])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
-            t_step = (self.res.t[-1] - binary.time) / self.n_o_steps_history
-            t = np.arange(binary.time, self.res.t[-1] + t_step / 2.0, t_step)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.linspace(binary.time, self.res.t[-1],
+                            self.n_o_steps_history + 1)[1:]
         else:  # self.dt is None and self.n_o_steps_history is None
             t = np.array([self.res.t[-1]])
 
-- 
2.43.0


From f3a5e55dd43d8617cc0d0e71ba01ea2b92e2cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:53 +0000
Subject: [PATCH 049/107] fix: Roche-lobe overflow is not stepped over in
 detached evolution

---
 posydon/binary_evol/DT/step_detached.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 10358df..0ac8bdf 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -497,12 +497,18 @@ class detached_step:
             of the stars evolution through the detached step.
 
         """
+        # Do not step far beyond the end of the tracks: the stellar properties
+        # are undefined there and the solver would miss Roche-lobe overflow.
+        t_end = min(self.max_time,
+                    (1.0 + 1.0e-9) * (primary.t_max + primary.t_offset),
+                    (1.0 + 1.0e-9) * (secondary.t_max + secondary.t_offset))
+
         try:
             res = solve_ivp(self.evo,
                             events=[self.evo.ev_rlo1, self.evo.ev_rlo2,
                                     self.evo.ev_max_time1, self.evo.ev_max_time2],
                             method="Radau",
-                            t_span=(binary.time, self.max_time),
+                            t_span=(binary.time, t_end),
                             y0=[binary.separation, binary.eccentricity,
                                 secondary.omega0, primary.omega0],
                             dense_output=True)
@@ -513,7 +519,7 @@ class detached_step:
                             events=[self.evo.ev_rlo1, self.evo.ev_rlo2,
                                     self.evo.ev_max_time1, self.evo.ev_max_time2],
                             method="RK45",
-                            t_span=(binary.time, self.max_time),
+                            t_span=(binary.time, t_end),
                             y0=[binary.separation, binary.eccentricity,
                                 secondary.omega0, primary.omega0],
                             dense_output=True)
-- 
2.43.0


From 3e868cd09b3823a31b1da4c2f750e1c3a2345c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:16 +0000
Subject: [PATCH 050/107] fix: compact objects within contact merge at once

The orbit was integrated backwards in time up to the contact separation.
---
 posydon/binary_evol/DT/double_CO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/double_CO.py b/posydon/binary_evol/DT/double_CO.py
index 780635e..88c256b 100644
--- a/posydon/binary_evol/DT/double_CO.py
+++ b/posydon/binary_evol/DT/double_CO.py
@@ -192,7 +192,8 @@ class DoubleCO(detached_step):
         # dimensionless max-time limit
         tau_max = (self.max_time - t0_phys) / t_scale
 
-        s_contact = -np.log(alpha_contact)
+        # objects which start within the contact separation touch at once
+        s_contact = max(-np.log(alpha_contact), 0.0)
 
         # --- max-time event: tau reaches tau_max before contact ---------------
         @_event(True, +1)
-- 
2.43.0


From 226c0bff9cf3b84b0e08f15c29cdfa52827b52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:16 +0000
Subject: [PATCH 051/107] fix: inspiral times of very eccentric compact objects

The absolute tolerance exceeded the dimensionless inspiral time.
---
 posydon/binary_evol/DT/double_CO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/double_CO.py b/posydon/binary_evol/DT/double_CO.py
index 88c256b..30fd2df 100644
--- a/posydon/binary_evol/DT/double_CO.py
+++ b/posydon/binary_evol/DT/double_CO.py
@@ -214,7 +214,9 @@ class DoubleCO(detached_step):
                             y0=[l0, 0.0,
                                 secondary.omega0, primary.omega0],
                             rtol=1e-10,
-                            atol=1e-10,
+                            # tau is of the order of (1 - e0^2)^3.5
+                            atol=[1e-10, 1e-10 * (1.0 - e0**2)**3.5,
+                                  1e-10, 1e-10],
                             dense_output=True)
         except Exception as exc:
             set_binary_to_failed(binary)
-- 
2.43.0


From 12c48412886e288663fe31ba9ad6e359f71d4511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:16 +0000
Subject: [PATCH 052/107] fix: inspirals end at their end time

The resolution of the physical time made the last time of short inspirals
fall outside of the integration range (ValueError), and wide orbits had
history entries up to another time than the maximum one.
---
 posydon/binary_evol/DT/double_CO.py | 50 +++++++++++++----------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/posydon/binary_evol/DT/double_CO.py b/posydon/binary_evol/DT/double_CO.py
index 30fd2df..947b3a0 100644
--- a/posydon/binary_evol/DT/double_CO.py
+++ b/posydon/binary_evol/DT/double_CO.py
@@ -53,15 +53,18 @@ class _SBrentqDenseOutput:
         Lower bound of s integration range.
     s_hi : float
         Upper bound of s integration range.
+    t_end : float
+        Physical time at integration end [yr].
     """
 
-    def __init__(self, sol, a0_Rsun, t_scale, t0_phys, s_lo, s_hi):
+    def __init__(self, sol, a0_Rsun, t_scale, t0_phys, s_lo, s_hi, t_end):
         self.sol = sol
         self.a0_Rsun = a0_Rsun
         self.t_scale = t_scale
         self.t0_phys = t0_phys
         self.s_lo = float(s_lo)
         self.s_hi = float(s_hi)
+        self.t_end = float(t_end)
 
     def __call__(self, t_phys):
         t_phys = np.atleast_1d(np.asarray(t_phys, dtype=float))
@@ -73,32 +76,22 @@ class _SBrentqDenseOutput:
         tau_lo = self.sol(self.s_lo)[1]
         tau_hi = self.sol(self.s_hi)[1]
 
-        # An absolute tolerance for floating-point comparisons
-        # based on machine floating-point precision, scaled
-        # to |tau_hi|, |tau_lo|, or 1.0, whichever is largest.
-        # (At least 1.0 scale so the tolerance does not become
-        #  unreasonably small.)
-        tau_scale = max(1.0, abs(tau_lo), abs(tau_hi))
-        # Treat endpoint residuals smaller than eps as zero to guard
-        # against floating-point roundoff near the integration endpoints.
-        tol = 1e4
-        eps = tol * np.finfo(float).eps * tau_scale
+        # Physical times only resolve tau to the spacing of floating-point
+        # numbers. Times within this resolution of the integration range
+        # belong to its end points.
+        eps = 2.0 * np.spacing(max(abs(self.t0_phys), abs(self.t_end)))
 
-        for i, tau in enumerate(tau_target):
+        for i, (t, tau) in enumerate(zip(t_phys, tau_target)):
 
-            # function values at integration boundaries
-            fa = tau_lo - tau
-            fb = tau_hi - tau
-
-            # check lower endpoint
-            if abs(fa) <= eps:
-                s_star = self.s_lo
+            if t < self.t0_phys - eps or t > self.t_end + eps:
+                raise ValueError(f"Requested time t={t:.17e} outside interval "
+                                 f"[{self.t0_phys:.17e}, {self.t_end:.17e}].")
             # check upper endpoint
-            elif abs(fb) <= eps:
+            elif t == self.t_end or tau >= tau_hi:
                 s_star = self.s_hi
-            elif fa * fb > 0:
-                raise ValueError(f"Requested tau={tau:.17e} outside interval "
-                                 f"[{tau_lo:.17e}, {tau_hi:.17e}].")
+            # check lower endpoint
+            elif tau <= tau_lo:
+                s_star = self.s_lo
             # else root find for a solution
             else:
                 s_star = brentq(
@@ -232,10 +225,6 @@ class DoubleCO(detached_step):
         ecc_vals = np.exp(l_vals)
         tau_vals = res.y[1].copy()
 
-        # Wrap dense output to convert from ln-space back to physical variables
-        res.sol = _SBrentqDenseOutput(res.sol, a0_Rsun, t_scale, t0_phys,
-                                      s_vals[0], s_vals[-1])
-
         # Map solver status to the convention expected by __call__:
         #   status  0 -> reached s_contact -> contact  -> report as 1
         #   status  1 -> maxtime event     -> no merge -> report as 0
@@ -252,6 +241,13 @@ class DoubleCO(detached_step):
         res.y[1] = ecc_vals                                        # ecc
 
         res.t = tau_vals * t_scale + t0_phys                       # tau -> yr
+        if res.status == 0:
+            # s does not resolve the limit of hardly shrinking orbits
+            res.t[-1] = self.max_time
+
+        # Wrap dense output to convert from ln-space back to physical variables
+        res.sol = _SBrentqDenseOutput(res.sol, a0_Rsun, t_scale, t0_phys,
+                                      s_vals[0], s_vals[-1], res.t[-1])
 
         # Convert events from s-space to physical units
         for i in range(len(res.t_events)):
-- 
2.43.0


From 25ef57f6c6e0ea0a874d763e0c5bcb039954f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:51 +0000
Subject: [PATCH 053/107] fix: compact objects follow the grid of their matched
 companion

A He star matched to the H-rich grid left its compact companion with a track
of the He-rich grid, which ends before the age of the match: the binary
evolved backwards in time.
---
 posydon/binary_evol/track_match.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/binary_evol/track_match.py b/posydon/binary_evol/track_match.py
index 9f47e91..cfa5708 100644
--- a/posydon/binary_evol/track_match.py
+++ b/posydon/binary_evol/track_match.py
@@ -1962,6 +1962,8 @@ class TrackMatcher:
             if self.primary_not_normal:
                 # copy the secondary star except mass which is of the primary,
                 # and radius, mdot, Idot = 0
+                # (the match may have moved the secondary to the other grid)
+                primary.htrack = secondary.htrack
                 self.get_star_match_data(binary, primary,
                                         copy_prev_m0 = m0,
                                         copy_prev_t0 = t0)
-- 
2.43.0


From e13097e7f0d7e29d720904c111ab959e8d19db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:51 +0000
Subject: [PATCH 054/107] fix: matching stars with only some rotation
 properties

Stars with a rotation rate but without (None) critical ratio or moment of
inertia raised a TypeError.
---
 posydon/binary_evol/track_match.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/track_match.py b/posydon/binary_evol/track_match.py
index cfa5708..bdd66eb 100644
--- a/posydon/binary_evol/track_match.py
+++ b/posydon/binary_evol/track_match.py
@@ -1776,9 +1776,12 @@ class TrackMatcher:
             new_omega = omega0_sec / const.secyer # rad/s
             old_ratio = secondary.surf_avg_omega_div_omega_crit
             old_omega = surf_avg_omega
-            old_omega_c = old_omega / old_ratio
+            old_omega_c = (old_omega / old_ratio
+                           if pd.notna(old_ratio) else np.nan)
             new_ratio = new_omega / old_omega_c
-            new_lgJ = np.log10(new_omega * secondary.total_moment_of_inertia)
+            moment_of_inertia = secondary.total_moment_of_inertia
+            new_lgJ = (np.log10(new_omega * moment_of_inertia)
+                       if pd.notna(moment_of_inertia) else np.nan)
             old_lgJ = secondary.log_total_angular_momentum
             if secondary.matched:
                 setattr(secondary, "surf_avg_omega_div_omega_crit", new_ratio)
@@ -1802,9 +1805,12 @@ class TrackMatcher:
                 new_omega = omega0_pri / const.secyer # rad/s
                 old_ratio = primary.surf_avg_omega_div_omega_crit
                 old_omega = surf_avg_omega
-                old_omega_c = old_omega / old_ratio
+                old_omega_c = (old_omega / old_ratio
+                               if pd.notna(old_ratio) else np.nan)
                 new_ratio = new_omega / old_omega_c
-                new_lgJ = np.log10(new_omega * primary.total_moment_of_inertia)
+                moment_of_inertia = primary.total_moment_of_inertia
+                new_lgJ = (np.log10(new_omega * moment_of_inertia)
+                           if pd.notna(moment_of_inertia) else np.nan)
                 old_lgJ = primary.log_total_angular_momentum
                 if primary.matched:
                     setattr(primary, "surf_avg_omega_div_omega_crit", new_ratio)
-- 
2.43.0


From 81a99457a996577b5b06222bb3d3e9336d8c2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:17 +0000
Subject: [PATCH 055/107] fix: mass bounds of matches to the other single-star
 grid

Matching a He star to the H-rich grid (or vice versa) used the mass range of
the grid of its own kind and failed for initial masses beyond it.
---
 posydon/binary_evol/track_match.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/posydon/binary_evol/track_match.py b/posydon/binary_evol/track_match.py
index bdd66eb..0b4c493 100644
--- a/posydon/binary_evol/track_match.py
+++ b/posydon/binary_evol/track_match.py
@@ -1217,6 +1217,11 @@ class TrackMatcher:
             # have approriate matching list, now get necessary attr properties
             attr_names, rescl_facs, bnds, sclrs = get_attr_props(new_htrack,
                                                                  match_list)
+            if match_type == "evolved_alt":
+                # the mass bounds have to be those of the other grid
+                grid = self.grid_Hrich if new_htrack else self.grid_strippedHe
+                bnds = [[np.min(grid.grid_mass), np.max(grid.grid_mass)],
+                        bnds[1]]
             attr_vals = get_attr_values(attr_names)
 
             match_attrs = (attr_names, attr_vals, new_htrack, match_ok)
-- 
2.43.0


From f51808d1b106d23ac5ede6a0fa2dc2fabc43a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:57 +0000
Subject: [PATCH 056/107] fix: the root matching fails without a root

SciPy reports success once the solver does not move any further, so stars
were matched to tracks which differ by several solar masses.
---
 posydon/binary_evol/track_match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/track_match.py b/posydon/binary_evol/track_match.py
index 0b4c493..dec3aa5 100644
--- a/posydon/binary_evol/track_match.py
+++ b/posydon/binary_evol/track_match.py
@@ -895,7 +895,9 @@ class TrackMatcher:
                         )
 
         # if optimizer failed for some reason set solution as NaN
-        if not sol.success or sol.x[1] < 0:
+        # (success only means that the solver does not move any further)
+        solved = np.all(np.abs(sol.fun) <= self.matching_tolerance_hard)
+        if not sol.success or not solved or sol.x[1] < 0:
             match_vals = np.array([np.nan, np.nan])
         else:
             match_vals = sol.x
-- 
2.43.0


From 6e08418a2ed24a8071d6f0f1fabe3ff66690cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 057/107] fix: bounds of Powell matching with SciPy 1.10 and
 later

The version was compared as a number (1.14 < 1.5), so the bounds were ignored
and the search left the grid.
---
 posydon/binary_evol/track_match.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/track_match.py b/posydon/binary_evol/track_match.py
index dec3aa5..2d482ce 100644
--- a/posydon/binary_evol/track_match.py
+++ b/posydon/binary_evol/track_match.py
@@ -58,7 +58,7 @@ str_fmts = ["{:>14}", "{:>9}","{:>9}",
 row_str = " ".join(str_fmts)
 DIVIDER_STR = "_"*len(row_str.format(*[""]*len(str_fmts)))
 # MAJOR.MINOR version of imported scipy package
-SCIPY_VER = float('.'.join(scipy.__version__.split('.')[:2]))
+SCIPY_VER = tuple(int(v) for v in scipy.__version__.split('.')[:2])
 
 class TrackMatcher:
     """
@@ -1342,10 +1342,10 @@ class TrackMatcher:
                 return failed_sol, new_htrack, match_ok
 
             # Powell's method does not work with bound in SciPy version < 1.5.x
-            if method == 'Powell' and SCIPY_VER < 1.5:
+            if method == 'Powell' and SCIPY_VER < (1, 5):
                 if self.verbose_matching:
                     print(f"Ignoring bounds because method = {method} "
-                          f"does not accept them in SciPy v{SCIPY_VER}.x.")
+                          f"does not accept them in SciPy v{SCIPY_VER[0]}.{SCIPY_VER[1]}.x.")
                 bounds = None
 
             # Run minimization method
-- 
2.43.0


From d00cca9733263b7ab83e5aabe1c2b984f4111ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:32 +0000
Subject: [PATCH 058/107] fix: double common envelopes and mass-transfer cases
 when the stars are flipped

---
 posydon/utils/common_functions.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d7a2e0f..e2a6ef6 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1417,6 +1417,10 @@ def flip_stars(binary):
         setattr(binary, 'event', 'oCE2')
     elif event == 'oCE2':
         setattr(binary, 'event', 'oCE1')
+    if event == 'oDoubleCE1':
+        setattr(binary, 'event', 'oDoubleCE2')
+    elif event == 'oDoubleCE2':
+        setattr(binary, 'event', 'oDoubleCE1')
     if event == 'CC1':
         setattr(binary, 'event', 'CC2')
     elif event == 'CC2':
@@ -1442,8 +1446,27 @@ def flip_stars(binary):
     cond_oCE1 = event_history == 'oCE2'
     event_history[cond_oCE2] = 'oCE2'
     event_history[cond_oCE1] = 'oCE1'
+    cond_oDoubleCE2 = event_history == 'oDoubleCE1'
+    cond_oDoubleCE1 = event_history == 'oDoubleCE2'
+    event_history[cond_oDoubleCE2] = 'oDoubleCE2'
+    event_history[cond_oDoubleCE1] = 'oDoubleCE1'
     setattr(binary, 'event_history', event_history.tolist())
 
+    # the mass-transfer case ends with the index of the donor
+    def flip_case(case):
+        if isinstance(case, str) and case.startswith('case_'):
+            if case.endswith('1'):
+                return case[:-1] + '2'
+            if case.endswith('2'):
+                return case[:-1] + '1'
+        return case
+
+    setattr(binary, 'mass_transfer_case',
+            flip_case(getattr(binary, 'mass_transfer_case')))
+    setattr(binary, 'mass_transfer_case_history',
+            [flip_case(case) for case
+             in getattr(binary, 'mass_transfer_case_history')])
+
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
 
         value1 = getattr(binary, i+'1')
-- 
2.43.0


From 5a9fd4e8ec79c2e673dd0659d01867b60b949166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:32 +0000
Subject: [PATCH 059/107] fix: MESA tracks ending exactly at the maximum time

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index bfaec1b..eccef31 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -398,7 +398,7 @@ class MesaGridStep:
             self.step(binary, interp_method=self.interpolation_method)
 
         if (self.stop_method == 'stop_at_max_time'
-                and binary.time >= binary.properties.max_simulation_time):
+                and binary.time > binary.properties.max_simulation_time):
 
             # self.flush_history = True # needed???
 
-- 
2.43.0


From c0df79755ad054ee579e03cae7c5c6747421f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:32 +0000
Subject: [PATCH 060/107] fix: nearest-neighbour MESA step without recording
 the history

---
 posydon/binary_evol/MESA/step_mesa.py | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index eccef31..0bc95d9 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -509,23 +509,22 @@ class MesaGridStep:
         if binary.state == 'initial_RLOF':
             return
 
-        if track_interpolation or self.save_initial_conditions:
-            len_binary_hist = len(getattr(binary, "time_history"))
-            length_binary_hist = len(cb_bh['age']) - 1
-            length_star_hist = len(cb_hs[0]['center_he4']) - 1
-            length_hist = min(length_binary_hist, length_star_hist)
-            empty_h = [None] * length_hist
-            MESA_history_bug_fix = False
-            if length_binary_hist != length_star_hist:
-                MESA_history_bug_fix = True
-                Pwarn(
-                    'The MESA star_history and binary_history do not match: '
-                    'lenght %i != %i. This will cause errors, e.g. '
-                    'get_binary_state_and_event_and_mt_case take '
-                    'star.mdot_history - star.lg_wind_mdot. To '
-                    'avoid the code breaking, we append np.nan '
-                    'to the missing values.' %
-                    (length_binary_hist, length_star_hist), "ReplaceValueWarning")
+        len_binary_hist = len(getattr(binary, "time_history"))
+        length_binary_hist = len(cb_bh['age']) - 1
+        length_star_hist = len(cb_hs[0]['center_he4']) - 1
+        length_hist = min(length_binary_hist, length_star_hist)
+        empty_h = [None] * length_hist
+        MESA_history_bug_fix = False
+        if length_binary_hist != length_star_hist:
+            MESA_history_bug_fix = True
+            Pwarn(
+                'The MESA star_history and binary_history do not match: '
+                'lenght %i != %i. This will cause errors, e.g. '
+                'get_binary_state_and_event_and_mt_case take '
+                'star.mdot_history - star.lg_wind_mdot. To '
+                'avoid the code breaking, we append np.nan '
+                'to the missing values.' %
+                (length_binary_hist, length_star_hist), "ReplaceValueWarning")
 
         # update properties
         for key in BINARYPROPERTIES:
-- 
2.43.0


From 8e5ca9341f32081cedc2bfbe49c3cbc6c9f0c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:32 +0000
Subject: [PATCH 061/107] fix: Eddington limit in the recorded accretion
 history of MESA tracks

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 0bc95d9..89bd2b4 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -841,7 +841,7 @@ class MesaGridStep:
                                         RNG=self.RNG,
                                         scheme='Kudritzki+2000')
                          for i in range(-length_hist-1, -1)]
-                tmp_edd = [cf.eddington_limit(binary, idx=i)[0]
+                tmp_edd = [np.log10(cf.eddington_limit(binary, idx=i)[0])
                            for i in range(-length_hist-1, -1)]
                 history_of_attribute = np.log10(10**cb_bh[key_bh][:-1] + tmp_h)
                 history_of_attribute = [
-- 
2.43.0


From 2f5dd323157f8dce733d96bb054c20361ca80d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:33 +0000
Subject: [PATCH 062/107] fix: padding of star histories shorter than the
 binary history

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 89bd2b4..08de133 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -720,7 +720,7 @@ class MesaGridStep:
                             getattr(star, key_h))
                         if missing_values_star > 0:
                             getattr(star, key_h).extend(
-                                [np.nan]*missing_values)
+                                [np.nan]*missing_values_star)
 
         # convert these flags to default POSYDON star states
         setattr(stars[0], 'state',
-- 
2.43.0


From 4a9a837608dbb55862661f24b340c78a35fa6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:33 +0000
Subject: [PATCH 063/107] fix: nearest neighbour without a track after
 initial-final interpolation

---
 posydon/binary_evol/MESA/step_mesa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 08de133..93b363a 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -493,7 +493,8 @@ class MesaGridStep:
         cb_hs = [cb.history1, cb.history2]
         cb_fps = [cb.final_profile1, cb.final_profile2]
 
-        if (cb_bh['age'].size <= 1 or cb_bh['star_1_mass'].size <= 1):
+        if (cb_bh is None
+                or cb_bh['age'].size <= 1 or cb_bh['star_1_mass'].size <= 1):
             setattr(binary, "state", "initial_RLOF")
             return
 
-- 
2.43.0


From 0a380b95f8c8b0302ca322354b3fe72d142da332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:33 +0000
Subject: [PATCH 064/107] fix: initial-final interpolation with stop_at_end

---
 posydon/binary_evol/MESA/step_mesa.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 93b363a..69785cb 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -235,11 +235,9 @@ class MesaGridStep:
         z_str = convert_metallicity_to_string(self.metallicity)
         self.grid_name = os.path.join(self.grid_path, f"{z_str}_Zsun.h5")
 
-        # we load NN any time stop_at_max_time requested - regardless
-        # of interp method
-        if (self.stop_method == 'stop_at_max_time'
-                or self.interpolation_method == 'nearest_neighbour'):
-            self.load_psyTrackInterp()
+        # we always load NN - regardless of interp method: it is needed if
+        # stop_at_max_time is requested and to get the grid boundaries
+        self.load_psyTrackInterp()
 
         self.grid_name = self.grid_name.replace('_%d', '')
 
-- 
2.43.0


From 92454a857af9ce4947926ab71f3e4711c47511ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:10 +0000
Subject: [PATCH 065/107] fix: states of a MESA track interrupted at the
 maximum time

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 69785cb..6a8a4b3 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1240,6 +1240,10 @@ class MesaGridStep:
                 # detele last N entries from history
                 setattr(binary, key_history,
                         getattr(binary, key_history)[:self.flush_entries])
+
+        # the flushed history has no states and interpolated properties may
+        # belong to another state than the one at index i
+        if self.flush_history or interpolate:
             # Check star and binary state, event, MT case
             setattr(
                 self.binary.star_1, 'state',
-- 
2.43.0


From 662d77078c49023a019514f44dfbb7a7b0732688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:10 +0000
Subject: [PATCH 066/107] fix: radius of massive white dwarfs in MESA steps

---
 posydon/binary_evol/MESA/step_mesa.py | 29 +++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 6a8a4b3..dbc6ce3 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -158,6 +158,27 @@ def _collect_sn_model_values(sn_row, star_idx):
     }
 
 
+def infer_CO_state(star, mass):
+    """Infer the state of a compact object after accretion.
+
+    Parameters
+    ----------
+    star : SingleStar
+        The compact object before the accretion; a white dwarf remains one.
+    mass : float
+        Mass of the compact object after the accretion in Msun.
+
+    Returns
+    -------
+    str
+        One of 'WD', 'NS' and 'BH'.
+
+    """
+    if star.state == 'WD':
+        return 'WD'
+    return infer_star_state(star_mass=mass, star_CO=True)
+
+
 class MesaGridStep:
     """Superclass for steps using the POSYDON grids."""
 
@@ -668,12 +689,12 @@ class MesaGridStep:
                     elif key == 'log_R':
                         key_p = 'star_%d_mass' % (k+1)
                         mass = cb_bh[key_p][-1]
-                        st = infer_star_state(star_mass=mass, star_CO=True)
+                        st = infer_CO_state(star, mass)
                         setattr(star, key, np.log10(CO_radius(mass, st)))
                         if self.save_initial_conditions:
                             mass_history = np.array(cb_bh[key_p])
                             state_history = np.array([
-                                infer_star_state(star_mass=x, star_CO=True)
+                                infer_CO_state(star, x)
                                 for x in mass_history])
                             history_of_attribute = np.log10([
                                 CO_radius(mass_history[i], state_history[i])
@@ -683,7 +704,7 @@ class MesaGridStep:
                         if track_interpolation:
                             mass_history = np.array(cb_bh[key_p])
                             state_history = np.array([
-                                infer_star_state(star_mass=x, star_CO=True)
+                                infer_CO_state(star, x)
                                 for x in mass_history])
                             history_of_attribute = np.log10([
                                 CO_radius(mass_history[i], state_history[i])
@@ -936,7 +957,7 @@ class MesaGridStep:
 
                     elif key == 'log_R':
                         mass = fv['star_%d_mass' % (k+1)]
-                        st = infer_star_state(star_mass=mass, star_CO=True)
+                        st = infer_CO_state(star, mass)
                         setattr(star, key, np.log10(CO_radius(mass, st)))
                     elif key == 'metallicity':
                         current = getattr(star, key)
-- 
2.43.0


From c8e6d702b5a91942f2cdd18afd3d0f8bde7dc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:10 +0000
Subject: [PATCH 067/107] fix: minimum companion mass of a binary with flipped
 masses

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index dbc6ce3..11be144 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1353,7 +1353,7 @@ class MS_MS_step(MesaGridStep):
               state_2 == 'H-rich_Core_H_burning' and
               event == 'ZAMS' and
               self.m1_min <= m2 <= self.m1_max and
-              np.max([self.q_min, 0.5/m1]) <= 1./mass_ratio <= self.q_max and
+              np.max([self.q_min, 0.5/m2]) <= 1./mass_ratio <= self.q_max and
               self.p_min <= p <= self.p_max):
             self.flip_stars_before_step = True
             super().__call__(self.binary)
-- 
2.43.0


From 8dc700fc0f366b132813de353c148dde861c9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:10 +0000
Subject: [PATCH 068/107] fix: redirect of CO-HeMS RLO binaries outside of the
 mass range

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 11be144..9923b88 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1620,14 +1620,14 @@ class CO_HeMS_RLO_step(MesaGridStep):
         # period inside the grid, but m1 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                self.p_min <= p <= self.p_max and
-               m1 < self.m2_min or m1 > self.m2_max)):
+               (m1 < self.m2_min or m1 > self.m2_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
                                 ' while the period is inside the grid.')
         # period inside the grid, but m2 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                 self.p_min <= p <= self.p_max and
-                m2 < self.m1_min or m2 > self.m1_max)):
+                (m2 < self.m1_min or m2 > self.m1_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
                                 ' while the period is inside the grid.')
-- 
2.43.0


From ff3a1c648ef62b9ea87c640362e40cbabb45b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:10 +0000
Subject: [PATCH 069/107] fix: mass range of flipped binaries in the CO-HeMS
 step

---
 posydon/binary_evol/MESA/step_mesa.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 9923b88..a71e1d0 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1717,17 +1717,37 @@ class CO_HeMS_step(MesaGridStep):
             super().__call__(binary)
 
         # period inside the grid, but m1 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m1 < self.m1_min or m1 > self.m1_max):
+        elif ((not self.flip_stars_before_step and
+               self.p_min <= p <= self.p_max and
+               (m1 < self.m1_min or m1 > self.m1_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m1}) is outside the grid,'
                              ' while the period is inside the grid.')
 
         # period inside the grid, but m2 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m2 < self.m2_min or m2 > self.m2_max):
+        elif ((not self.flip_stars_before_step and
+               self.p_min <= p <= self.p_max and
+               (m2 < self.m2_min or m2 > self.m2_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m2}) is outside the grid,'
                              ' while the period is inside the grid.')
 
+        # period inside the grid, but m1 outside the grid (flipped stars)
+        elif ((self.flip_stars_before_step and
+               self.p_min <= p <= self.p_max and
+               (m2 < self.m1_min or m2 > self.m1_max))):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
+        # period inside the grid, but m2 outside the grid (flipped stars)
+        elif ((self.flip_stars_before_step and
+               self.p_min <= p <= self.p_max and
+               (m1 < self.m2_min or m1 > self.m2_max))):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
         else:
             self.binary.state = 'detached'
             self.binary.event = 'redirect_from_CO_HeMS'
-- 
2.43.0


From 9e7033203b4fcde1272909f34ff3f2feccdaeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:10 +0000
Subject: [PATCH 070/107] fix: boundaries of a HMS-HMS RLO grid with failed
 runs

---
 posydon/binary_evol/MESA/step_mesa.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index a71e1d0..c1a4159 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1773,17 +1773,12 @@ class HMS_HMS_RLO_step(MesaGridStep):
         # special stuff for my step goes here
         # If nothing to do, no init necessary
 
-        # load grid boundaries
+        # load grid boundaries of the mass ratio, ignored/failed runs may have
+        # undefined initial values
         m1_initial_values = self._psyTrackInterp.grid.initial_values['star_1_mass']
         m2_initial_values = self._psyTrackInterp.grid.initial_values['star_2_mass']
-        self.m1_min = np.min(m1_initial_values)
-        self.m1_max = np.max(m1_initial_values)
-        self.m2_min = np.min(m2_initial_values)
-        self.m2_max = np.max(m2_initial_values)
-        self.p_min = np.min(self._psyTrackInterp.grid.initial_values['period_days'])
-        self.p_max = np.max(self._psyTrackInterp.grid.initial_values['period_days'])
-        self.q_min = np.min(m2_initial_values/m1_initial_values)
-        self.q_max = np.max(m2_initial_values/m1_initial_values)
+        self.q_min = np.nanmin(m2_initial_values/m1_initial_values)
+        self.q_max = np.nanmax(m2_initial_values/m1_initial_values)
         self.minimum_star_mass = self.m2_min # 0.5 (M_sun)
 
     def __call__(self, binary):
-- 
2.43.0


From 7912d6ed8ce8727071a3a69953e3f08bd6b18007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:58 +0000
Subject: [PATCH 071/107] fix: accretion rate of a compact object which changes
 its type on a MESA track

---
 posydon/binary_evol/MESA/step_mesa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index c1a4159..b7c2bbd 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -802,9 +802,14 @@ class MesaGridStep:
 
             else:
                 # the history is going to be flushed in self.stop
-                # append None for a faster computation
-                state1_hist = empty_h
-                state2_hist = empty_h
+                # append None for a faster computation, but the accretion rate
+                # depends on the state of a compact object
+                state1_hist = cf.check_state_of_star_history_array(
+                    stars[0], N=length_hist,
+                    star_CO=True) if stars_CO[0] else empty_h
+                state2_hist = cf.check_state_of_star_history_array(
+                    stars[1], N=length_hist,
+                    star_CO=True) if stars_CO[1] else empty_h
                 self.flush_entries = len_binary_hist
 
                 # this is to prevent the flushin of the initial value which is
-- 
2.43.0


From 1ef8c2992017380991dbefaccc204f0e8911ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 072/107] fix: effective precession of secondaries with
 negative tilt

---
 posydon/popsyn/transient_select_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index 2099db9..07dff82 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -193,7 +193,7 @@ def effective_precession(theta_1, theta_2, a1, a2, m1, m2):
     """
     q = m2/m1
     a_1_perp = np.abs(a1 * np.sin(theta_1))
-    a_2_perp = q * ((4*q + 3)/(4+3*q)) * a2 * np.sin(theta_2)
+    a_2_perp = np.abs(q * ((4*q + 3)/(4+3*q)) * a2 * np.sin(theta_2))
     chi_p = np.maximum(a_1_perp, a_2_perp)
     return chi_p
 
-- 
2.43.0


From fe446f44b643ec224888c402c313d84deb55740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:18 +0000
Subject: [PATCH 073/107] fix: surface mixing of merging He stars uses the
 masses before the merger

---
 posydon/binary_evol/DT/step_merged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 55e697d..c06e344 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -642,11 +642,6 @@ class MergedStep(IsolatedStep):
                 else:
                     Pwarn("Unexpected combination of CO core masses during merging", "EvolutionWarning")
 
-                # add total and core masses
-                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
-                    current = getattr(star_base, key) + getattr(comp, key)
-                    setattr(merged_star, key,current)
-
                 # weigheted mixing on the surface abundances based on the He-rich envelopes of the two stars
                 additional_parameter_to_mix = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
                 for abundance_name in additional_parameter_to_mix:
@@ -656,6 +651,11 @@ class MergedStep(IsolatedStep):
                                                                                 mass_weight1="He-rich_envelope_mass",
                                                                                 mass_weight2="He-rich_envelope_mass"))
 
+                # add total and core masses
+                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
+                    current = getattr(star_base, key) + getattr(comp, key)
+                    setattr(merged_star, key,current)
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
-- 
2.43.0


From 3b45016376ab4e478966418ceb48297241de054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:18 +0000
Subject: [PATCH 074/107] fix: merger of an evolved and a main-sequence star
 keeps the core luminosities

---
 posydon/binary_evol/DT/step_merged.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index c06e344..8aa96d6 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -288,12 +288,15 @@ class MergedStep(IsolatedStep):
                 # adding the mass changes the envelope mass only.
                 merged_star.mass = star_base.mass + comp.mass
 
+                # Keep burning luminosities of the core
+                log_LHe, log_LZ = star_base.log_LHe, star_base.log_LZ
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = star_base.log_LHe
-                merged_star.log_LZ = star_base.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)  # TODO for sure this needs testing!
 
                 massless_remnant = convert_star_to_massless_remnant(comp)
@@ -315,12 +318,15 @@ class MergedStep(IsolatedStep):
                 # The change of masses occurs after the calculation of weighted averages
                 merged_star.mass = star_base.mass + comp.mass
 
+                # Keep burning luminosities of the core
+                log_LHe, log_LZ = comp.log_LHe, comp.log_LZ
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = comp.log_LHe
-                merged_star.log_LZ = comp.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)
 
                 massless_remnant = convert_star_to_massless_remnant(star_base)
-- 
2.43.0


From f172e7ea677227c1516baac703ae0771544b608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:35 +0000
Subject: [PATCH 075/107] fix: a merger does not exchange the recorded
 histories of the two stars

---
 posydon/binary_evol/DT/step_merged.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 8aa96d6..e206ec5 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -74,6 +74,8 @@ class MergedStep(IsolatedStep):
                   f"star_2.surface_he4 = {binary.star_2.surface_he4}\n"
                   f"_____________\n")
 
+        star_1, star_2 = binary.star_1, binary.star_2
+
         if binary.state == "merged":
             if binary.event == 'oMerging1':
                 binary.star_1, binary.star_2 = merged_star_properties(binary.star_1, binary.star_2)
@@ -94,6 +96,14 @@ class MergedStep(IsolatedStep):
         else:
             raise ValueError("step_merged initiated but binary is not in valid merging state!")
 
+        # If a more evolved companion took the place of the engulfing star,
+        # the rows recorded before the merger stay with the star they belong to
+        if binary.star_1 is star_2:
+            for key in STARPROPERTIES:
+                history_1 = getattr(star_1, key + '_history')
+                setattr(star_1, key + '_history', getattr(star_2, key + '_history'))
+                setattr(star_2, key + '_history', history_1)
+
         #binary.event = None
 
         if self.verbose:
-- 
2.43.0


From b97d362cf6362cd3719fedf31613660f4152ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:11 +0000
Subject: [PATCH 076/107] fix: an undetermined mass transfer does not hide the
 later cases

---
 posydon/utils/common_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index e2a6ef6..0fe96a5 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1746,7 +1746,7 @@ def cumulative_mass_transfer_flag(MT_cases, shift_cases=False):
                     corrected_MT_cases.append(case_1_min)
                 else:
                     corrected_MT_cases.append(MT)
-                if (MT>case_1_min): # update earliest possible MT case
+                if (case_1_min<MT<case_1_max): # update earliest possible MT case
                     case_1_min = MT
             elif (MT<=case_2_max):
                 # star 2 is donor
@@ -1754,7 +1754,7 @@ def cumulative_mass_transfer_flag(MT_cases, shift_cases=False):
                     corrected_MT_cases.append(case_2_min)
                 else:
                     corrected_MT_cases.append(MT)
-                if (MT>case_2_min): # update earliest possible MT case
+                if (case_2_min<MT<case_2_max): # update earliest possible MT case
                     case_2_min = MT
             else:
                 # unknown donor
-- 
2.43.0


From 721d7c22b439097de523b4e734847944e336d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:31 +0000
Subject: [PATCH 077/107] fix: double common envelopes of past rows follow the
 states of these rows

---
 posydon/utils/common_functions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 0fe96a5..9926680 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1216,18 +1216,16 @@ def get_binary_state_and_event_and_mt_case(binary, interpolation_class=None,
             if rl_overflow1>=rl_overflow2:           # star 1 initiated CE
                 result = ['contact', 'oCE1', 'None']
                 # Check for double CE
-                comp_star = binary.star_2
-                if comp_star.state not in ["H-rich_Core_H_burning",
-                                           "stripped_He_Core_He_burning", "WD",
-                                           "NS", "BH"]:
+                if state2 not in ["H-rich_Core_H_burning",
+                                  "stripped_He_Core_He_burning", "WD",
+                                  "NS", "BH"]:
                     result[1] = "oDoubleCE1"
             else:                                   # star 2 initiated CE
                 result = ['contact', 'oCE2', 'None']
                 # Check for double CE
-                comp_star = binary.star_1
-                if comp_star.state not in ["H-rich_Core_H_burning",
-                                           "stripped_He_Core_He_burning", "WD",
-                                           "NS", "BH"]:
+                if state1 not in ["H-rich_Core_H_burning",
+                                  "stripped_He_Core_He_burning", "WD",
+                                  "NS", "BH"]:
                     result[1] = "oDoubleCE2"
             return result
     elif no_rlof:                                   # no MT in any star
-- 
2.43.0


From 21c9ae9e5d8ad8acd08a974149484dbeefb439de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:38 +0000
Subject: [PATCH 078/107] fix: stop before carbon depletion if only star 1 has
 an age column

The age of star 2 at helium depletion was looked up by the columns of star 1.
---
 posydon/grids/scrubbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/scrubbing.py b/posydon/grids/scrubbing.py
index 1d44e8b..f447171 100644
--- a/posydon/grids/scrubbing.py
+++ b/posydon/grids/scrubbing.py
@@ -258,7 +258,7 @@ def keep_till_central_abundance_He_C(bh, h1, h2,
                 age_He_depletion1 = h1["star_age"][last_index]
             else:
                 age_He_depletion1 = bh["age"][last_index]
-            if ("star_age" in h1.dtype.names):
+            if ("star_age" in h2.dtype.names):
                 age_He_depletion2 = h2["star_age"][last_index2]
             else:
                 age_He_depletion2 = bh["age"][last_index2]
-- 
2.43.0


From 1675f918692c3d2ba70758ba3b0d570144f345d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:38 +0000
Subject: [PATCH 079/107] fix: downsampling of tracks with missing values

A nan in any column removed all rows between the first and the last one.
---
 posydon/grids/downsampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/grids/downsampling.py b/posydon/grids/downsampling.py
index a7922b3..9a84db9 100644
--- a/posydon/grids/downsampling.py
+++ b/posydon/grids/downsampling.py
@@ -75,7 +75,8 @@ def rescale_from_0_to_1(array, return_minmax=False):
     if len(arr.shape) != 2:
         raise ValueError("Scaler works for matrices only.")
 
-    minima, maxima = np.min(arr, axis=0), np.max(arr, axis=0)
+    # missing values should not spoil the range of their column
+    minima, maxima = np.nanmin(arr, axis=0), np.nanmax(arr, axis=0)
 
     for col, minimum, maximum in zip(range(arr.shape[1]), minima, maxima):
         if minimum == maximum:
@@ -230,7 +231,8 @@ class TrackDownsampler:
                     keep_it = interval > abs(max_interval * (t[0] - t[-1]))
                 else:
                     keep_it = interval > max_interval
-            if e_max > tolerance:
+            # a missing value (nan) can't be interpolated
+            if not e_max <= tolerance:
                 keep_it = True
 
             if keep_it:
-- 
2.43.0


From 99f42e1e928c35e56b20e3d3aff9de68be8d8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:38 +0000
Subject: [PATCH 080/107] fix: downsampling of integer columns

The values rescaled to the range from 0 to 1 were truncated to integers.
---
 posydon/grids/downsampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/downsampling.py b/posydon/grids/downsampling.py
index 9a84db9..7ebfc84 100644
--- a/posydon/grids/downsampling.py
+++ b/posydon/grids/downsampling.py
@@ -71,7 +71,7 @@ def rescale_from_0_to_1(array, return_minmax=False):
             Value of the maximum (only returned if return_minmax is True).
 
     """
-    arr = np.array(array)
+    arr = np.array(array, dtype=float)
     if len(arr.shape) != 2:
         raise ValueError("Scaler works for matrices only.")
 
-- 
2.43.0


From 45ca4d8bdc477327a1004116fba79243d3f90845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:27 +0000
Subject: [PATCH 081/107] fix: grids with initial RLO fix and runs without grid
 point file

Creating a grid with initial_RLO_fix failed with a TypeError if a run had no
inlist_grid_points.
---
 posydon/grids/psygrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 84f356b..ce22156 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1182,6 +1182,8 @@ class PSyGrid:
 
                 # now update the initial values from the grid point data
                 grid_point = read_initial_values(run.path)
+                if grid_point is None:      # no file with the grid point
+                    grid_point = {}
                 for colname, value in grid_point.items():
                     if colname in self.initial_values.dtype.names:
                         self.initial_values[i][colname] = value
@@ -1270,6 +1272,8 @@ class PSyGrid:
                 if flag1 != "Terminate because of overflowing initial model":
                     #use grid point data (if existing) to detect initial RLO
                     grid_point = read_initial_values(grid.runs[i].path)
+                    if grid_point is None:      # no file with the grid point
+                        grid_point = {}
                     if "star_1_mass" in grid_point:
                         mass1 = grid_point["star_1_mass"]
                     else:
-- 
2.43.0


From d8bf7dbd3abf2b2ef6c0a6341563af4b062de2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 082/107] fix: lazily loaded grids after updating the final
 values

The initial values (and the SN models) of a lazily loaded grid referred to the
closed file after adding a column.
---
 posydon/grids/psygrid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index ce22156..cf994f9 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1460,6 +1460,16 @@ class PSyGrid:
         mode = "a" if writeable else "r"
         self.hdf5 = h5py.File(self.filepath, mode, **driver_args)
 
+        # lazy values still refer to the closed file: link them to the new one
+        lazy_values = {"/grid/initial_values": self.initial_values,
+                       "/grid/final_values": self.final_values}
+        for model_name, values in self._SN_values.items():
+            lazy_values["/grid/SN_MODELS/" + model_name] = values
+        for key, values in lazy_values.items():
+            if (isinstance(values, LazyHDF5)
+                and isinstance(values._dataset, h5py.Dataset)):
+                values._dataset = self.hdf5[key]
+
     def load(self, filepath=None, lazy=True):
         """Load up a previously created PSyGrid object from an HDF5 file.
 
-- 
2.43.0


From bae15da1428822b4bde8a62f52e8c540e4bc8d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:21 +0000
Subject: [PATCH 083/107] fix: replace a column of the final values of a lazily
 loaded grid

Writing the lazy object raised a TypeError after the old final values were
deleted from the file.
---
 posydon/grids/psygrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index cf994f9..99c7c82 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1435,7 +1435,8 @@ class PSyGrid:
                 ("_state" in dtype[0]) or ("_class" in dtype[0])):
                 dtype = (dtype[0], H5_REC_STR_DTYPE.replace("U", "S"))
             new_dtype.append(dtype)
-        final_values = self.final_values.astype(new_dtype)
+        # get an array in any case: a lazy object converts the types back
+        final_values = np.asarray(self.final_values).astype(new_dtype)
         if "/grid/final_values" in self.hdf5: # may delete old dataset
             del self.hdf5["/grid/final_values"]
         self.hdf5.create_dataset("/grid/final_values", data=final_values,
-- 
2.43.0


From 58715cfa8750955f5616cbe687078fd171f85ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:38 +0000
Subject: [PATCH 084/107] fix: comparison of grids with different tables or
 missing values

Tables of different length or columns raised an error and a grid with a nan in
a table was different from itself.
---
 posydon/grids/psygrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 99c7c82..31cc939 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -2222,7 +2222,10 @@ class PSyGrid:
                     say("Table `{}` for run `{}` missing in {} grid.".
                         format(tablename, i, which))
                     return False
-                if np.any(arr1 != arr2):
+                if (arr1.dtype.names != arr2.dtype.names
+                    or not all(np.array_equal(arr1[colname], arr2[colname],
+                                              equal_nan=True)
+                               for colname in arr1.dtype.names)):
                     say("Table `{}` for run `{}` is not the same.".
                         format(tablename, i))
                     return False
-- 
2.43.0


From c94bd636f299f9299277029f758c3f0c98dccc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 085/107] fix: joining grids with post-processed columns

---
 posydon/grids/psygrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 31cc939..708df98 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -2701,8 +2701,8 @@ def join_grids(input_paths, output_path,
         new_final_dtype = []
         for dtype in final_dtype.descr:
             if (dtype[0].startswith("termination_flag") or
-                ("SN_type" in dtype[0]) or ("_state" in dtype[0]) or
-                ("_class" in dtype[0])):
+                (dtype[0] == "mt_history") or ("_type" in dtype[0]) or
+                ("_state" in dtype[0]) or ("_class" in dtype[0])):
                 dtype = (dtype[0], H5_REC_STR_DTYPE.replace("U", "S"))
             new_final_dtype.append(dtype)
         new_final_values = np.array(new_final_values, dtype=new_final_dtype)
-- 
2.43.0


From 75c9e77fded4637b403e0cb5747e7d77fbe44e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:34 +0000
Subject: [PATCH 086/107] fix: binaries from tables keep their velocity, names
 and index

---
 posydon/binary_evol/binarystar.py | 69 +++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 76fa1b2..0f6d532 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -118,6 +118,13 @@ BINARYPROPERTIES = [
 ]
 
 
+# vectors stored by component in tables: property, prefix of the columns, type
+VECTOR_COLUMNS = [
+    ('V_sys', 'V_sys', np.array),
+    ('nearest_neighbour_distance', 'NN_dist', list),
+]
+
+
 MAXIMUM_STEP_TIME = 120
 
 
@@ -641,12 +648,12 @@ class BinaryStar:
         extra_columns = kwargs.get('extra_columns', {})
         hist_lengths = []
         for name in list(dataframe.columns):
-            if 'S1' in name:
-                corr_name = name.split('S1_')[-1] + '_history'
+            if name.startswith('S1_'):
+                corr_name = name[len('S1_'):] + '_history'
                 star1_params[corr_name] = list(dataframe[name])
                 hist_lengths.append(len(star1_params[corr_name]))
-            elif 'S2' in name:
-                corr_name = name.split('S2_')[-1] + '_history'
+            elif name.startswith('S2_'):
+                corr_name = name[len('S2_'):] + '_history'
                 star2_params[corr_name] = list(dataframe[name])
                 hist_lengths.append(len(star2_params[corr_name]))
             elif name in extra_columns:
@@ -662,8 +669,16 @@ class BinaryStar:
         assert len(set(hist_lengths)) == 1
         history_length = set(hist_lengths).pop()
 
-        if ('binary_index' in dataframe.index.name
-                and not kwargs.get('index', False)):
+        # the vectors are stored by component, see `to_df`
+        for prop, column, vector in VECTOR_COLUMNS:
+            components = [column + x + '_history' for x in ('_x', '_y', '_z')]
+            if all(name in binary_params for name in components):
+                binary_params[prop + '_history'] = [
+                    vector(v) for v in zip(*[binary_params.pop(name)
+                                             for name in components])]
+
+        if (dataframe.index.name == 'binary_index'
+                and kwargs.get('index', None) is None):
             binary_index = set(dataframe.index).pop()
         else:
             binary_index = kwargs.get('index', None)
@@ -691,9 +706,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -832,9 +847,9 @@ class BinaryStar:
         extra_columns = kwargs.get('extra_columns', {})
         hist_lengths = []
         for name in list(oneline_df.columns):
-            if '_f' in name[-2:]:
+            if name.endswith('_f'):
                 continue    # ignore final values
-            param_name = name.split('_i')[0]
+            param_name = name[:-len('_i')] if name.endswith('_i') else name
 
             special_cases = ['natal_kick_array']
             if any([i in param_name for i in special_cases]):
@@ -844,13 +859,13 @@ class BinaryStar:
             if name in ['FAILED', 'WARNING']:
                 continue
 
-            if 'S1' in name:
-                param_name = param_name.split('S1_')[-1]
+            if name.startswith('S1_'):
+                param_name = param_name[len('S1_'):]
                 ending_str = '_history' if param_name in STARPROPERTIES else ''
                 star1_params[param_name + ending_str] = list(oneline_df[name])
                 hist_lengths.append(len(list(oneline_df[name])))
-            elif 'S2' in name:
-                param_name = param_name.split('S2_')[-1]
+            elif name.startswith('S2_'):
+                param_name = param_name[len('S2_'):]
                 ending_str = '_history' if param_name in STARPROPERTIES else ''
                 star2_params[param_name + ending_str] = list(oneline_df[name])
                 hist_lengths.append(len(list(oneline_df[name])))
@@ -869,11 +884,19 @@ class BinaryStar:
         assert len(set(hist_lengths)) == 1
         history_length = set(hist_lengths).pop()
 
+        # the vectors are stored by component, see `to_df`
+        for prop, column, vector in VECTOR_COLUMNS:
+            components = [column + x for x in ('_x', '_y', '_z')]
+            if all(name in binary_params for name in components):
+                binary_params[prop + '_history'] = [
+                    vector(v) for v in zip(*[binary_params.pop(name)
+                                             for name in components])]
+
         # Handle backward compatibility for natal_kick_array
         if any(['S1_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S1_natal_kick_array_{}'.format(i)
                                for i in range(4)]
-            natal_kick_values = oneline_df[natalkick_names].values[0]
+            natal_kick_values = oneline_df[natalkick_names].values[0][:, None]
             # Set individual natal kick properties
             star1_params['natal_kick_velocity'] = natal_kick_values[0]
             star1_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
@@ -883,15 +906,15 @@ class BinaryStar:
         if any(['S2_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S2_natal_kick_array_{}'.format(i)
                                for i in range(4)]
-            natal_kick_values = oneline_df[natalkick_names].values[0]
+            natal_kick_values = oneline_df[natalkick_names].values[0][:, None]
             # Set individual natal kick properties
             star2_params['natal_kick_velocity'] = natal_kick_values[0]
             star2_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
             star2_params['natal_kick_polar_angle'] = natal_kick_values[2]
             star2_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
 
-        if ('binary_index' in oneline_df.index.name
-                and not kwargs.get('index', None)):
+        if (oneline_df.index.name == 'binary_index'
+                and kwargs.get('index', None) is None):
             binary_index = set(oneline_df.index).pop()
         else:
             binary_index = kwargs.get('index', None)
@@ -919,9 +942,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -932,7 +955,9 @@ class BinaryStar:
                 [star1_params,  star2_params,  binary_params],
                 [binary.star_1, binary.star_2, binary]):
             for key, val in params.items():
-                setattr(pointer, key.split('_history')[0], val[-1])
+                if key.endswith('_history'):
+                    key = key[:-len('_history')]
+                setattr(pointer, key, val[-1])
 
         # make BINARYPROPERTIES, history columns same length if not given
         already_included_cols = [name.split('_history')[0]
@@ -947,7 +972,7 @@ class BinaryStar:
                                                         * diff)
 
         # if the binary errored, then set the final event
-        if bool(oneline_df['FAILED'].values[-1]):
+        if 'FAILED' in oneline_df and bool(oneline_df['FAILED'].values[-1]):
             setattr(binary, 'event', 'FAILED')
         return binary
 
-- 
2.43.0


From 1c4ffacf13420cc8039da2b8aa64ad992f7bf819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:35 +0000
Subject: [PATCH 087/107] fix: tables of binaries with histories of different
 lengths

---
 posydon/binary_evol/binarystar.py | 5 ++++-
 posydon/binary_evol/singlestar.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 0f6d532..f1a3108 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -524,7 +524,8 @@ class BinaryStar:
                             + extra_columns)
 
         try:
-            data_to_save = [getattr(self, key) for key in keys_to_save[1:]]
+            data_to_save = [list(getattr(self, key))
+                            for key in keys_to_save[1:]]
             col_lengths = [len(x) for x in data_to_save]
             max_col_length = np.max(col_lengths)
 
@@ -609,6 +610,8 @@ class BinaryStar:
                 prefix='S2_', null_value=kwargs.get('null_value', np.nan),
                 **kwargs.get('S2_kwargs', {})))
         binary_df = pd.concat(frames, axis=1)
+        # the stars may have more rows than the binary, if the binary failed
+        binary_df['binary_index'] = bin_df['binary_index'].iloc[0]
 
         binary_df.set_index('binary_index', inplace=True)
 
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 1f8250d..73e6a87 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -477,7 +477,7 @@ class SingleStar:
                             + extra_columns)
         try:
             # shape of data_to_save (history columns , time steps)
-            data_to_save = [getattr(self, key) for key in keys_to_save]
+            data_to_save = [list(getattr(self, key)) for key in keys_to_save]
 
 
             col_lengths = [len(x) for x in data_to_save]
-- 
2.43.0


From 415cffc56567bc9df85d27b83036c956ad97dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:35 +0000
Subject: [PATCH 088/107] fix: data types of one-line columns with _i or _f in
 the name

---
 posydon/popsyn/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 810b6cc..8862f74 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -317,15 +317,15 @@ def clean_binary_oneline_df(oneline_df, extra_binary_dtypes_user=None,
 
     # Create a dict with column-dtype mapping only for columns in binary_df
     common_dtype_dict = {}
-    # helper function to remove the '_i' and '_f'
-    strip_prefix_and_suffix = lambda key : key.replace('_i', '').replace('_f', '') \
-                                             .replace('S1_', '').replace('S2_', '')
+    # helper functions to remove the '_i' and '_f', and the 'S1_' and 'S2_'
+    strip_suffix = lambda key : key[:-2]
+    strip_prefix_and_suffix = lambda key : key[3:-2]
     for key in common_keys:
         if key in scalar_keys:
             common_dtype_dict[key] = SCALAR_NAMES_DTYPES.get(
                                         key.replace('S1_', '').replace('S2_', '') )
         elif key in binary_keys:
-            common_dtype_dict[key] = BP_comb_extras_dict.get( strip_prefix_and_suffix(key) )
+            common_dtype_dict[key] = BP_comb_extras_dict.get( strip_suffix(key) )
         elif key in S1_keys:
             common_dtype_dict[key] = SP_comb_S1_dict.get( strip_prefix_and_suffix(key) )
         elif key in S2_keys:
-- 
2.43.0


From af8c2b28c9fa03f56c31220bb877f0f839990186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 089/107] fix: all hooks of an inifile are used, also user
 defined ones

---
 posydon/popsyn/io.py | 71 +++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 8862f74..f199b03 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -421,6 +421,41 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
     parser_dict : <class, dict>
         The inifile converted to the kwargs.
     """
+    def import_from_ini(import_and_name, absolute_import_and_name=None):
+        """Import a class or function specified in an inifile.
+
+        Parameters
+        ---------
+        import_and_name : list like
+            The module and the name of a builtin posydon class.
+        absolute_import_and_name : list like, optional
+            The path to a user defined py file and the name of the class. It is
+            used instead of `import_and_name`, if provided.
+
+        Returns
+        -------
+        The class or function.
+        """
+        # Use absolute import if provided
+        if absolute_import_and_name is not None:
+            # unpack user specified py file, and class name to import
+            import_location, class_name = absolute_import_and_name
+            absolute_import_location = os.path.abspath(import_location)
+            # Format: remove leading / in abs path, replace / with dots, remove '.py'
+            location_as_module_name = absolute_import_location[1:].replace('/', '.').replace('.py', '')
+
+            # create spec and load module
+            spec = importlib.util.spec_from_file_location( location_as_module_name, location=absolute_import_location)
+            module = importlib.util.module_from_spec(spec)
+            spec.loader.exec_module(module)
+        else:
+            # Use builtin posydon classes
+            import_location, class_name = import_and_name
+            # import module
+            module = importlib.import_module(import_location)
+        # extract class or function
+        return getattr(module, class_name)
+
     parser = parse_inifile(path, verbose=verbose)
     parser_dict = {}
     for section in parser:
@@ -443,25 +478,8 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
             import_and_name = sect_dict.pop('import')
             absolute_import_and_name = sect_dict.pop('absolute_import', None)
 
-            # Use absolute import if provided
-            if absolute_import_and_name is not None:
-                # unpack user specified py file, and class name to import
-                import_location, class_name = absolute_import_and_name
-                absolute_import_location = os.path.abspath(import_location)
-                # Format: remove leading / in abs path, replace / with dots, remove '.py'
-                location_as_module_name = absolute_import_location[1:].replace('/', '.').replace('.py', '')
-
-                # create spec and load module
-                spec = importlib.util.spec_from_file_location( location_as_module_name, location=absolute_import_location)
-                module = importlib.util.module_from_spec(spec)
-                spec.loader.exec_module(module)
-            else:
-                # Use builtin posydon classes
-                import_location, class_name = import_and_name
-                # import module
-                module = importlib.import_module(import_location)
             # extract class or function
-            cls = getattr(module, class_name)
+            cls = import_from_ini(import_and_name, absolute_import_and_name)
             # match the form SimulationProperties expects
             parser_dict[section] = (cls, sect_dict)
 
@@ -474,21 +492,14 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
             # do not take extra_pre_step options etc.
 
             # loop to try and find all hooks classes
-            for h in range(1, len(names)):
-                valid_names = [name for name in names
-                               if int(name.split('_')[-1]) == h]
-
-                # if there are no options with the index, continue
-                if not valid_names:
-                    continue
-
+            for h in sorted({int(name.split('_')[-1]) for name in names}):
                 import_and_name = sect_dict.pop('import_{}'.format(h))
-                package = sect_dict.pop('absolute_import_{}'.format(h), None)
+                absolute_import_and_name = sect_dict.pop(
+                    'absolute_import_{}'.format(h), None)
                 class_kwargs = sect_dict.pop('kwargs_{}'.format(h), dict())
 
-                module = importlib.import_module(import_and_name[0],
-                                                 package=package)
-                cls = getattr(module, import_and_name[1])
+                cls = import_from_ini(import_and_name,
+                                      absolute_import_and_name)
 
                 hooks_list.append((cls, class_kwargs))
 
-- 
2.43.0


From e4a4ce07cff4cbea059bca1e1ee2a7e136969d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 090/107] fix: steps can be loaded again and with missing steps

---
 posydon/binary_evol/simulationproperties.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index a3b8809..ae28424 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -373,11 +373,13 @@ class SimulationProperties:
         """
 
         # for every other step, give it a metallicity and load each step
+        last_metallicity = metallicity
         for name, tup in self.kwargs.items():
-            if isinstance(tup, tuple):
-                step_kwargs = tup[1]
-                metallicity = step_kwargs.get('metallicity', metallicity)
-                self.load_a_step(name, tup, metallicity=metallicity, RNG=RNG, verbose=verbose)
+            # skip the steps which are not provided
+            if isinstance(tup, tuple) and not isinstance(tup[0], NullStep):
+                if metallicity is None:
+                    last_metallicity = tup[1].get('metallicity', last_metallicity)
+                self.load_a_step(name, tup, metallicity=last_metallicity, RNG=RNG, verbose=verbose)
 
         if verbose:
             if self.steps_loaded:
@@ -476,7 +478,8 @@ class SimulationProperties:
         # check if all steps have been loaded
         self.steps_loaded = all(hasattr(self, name)
                                 for name, tup in self.kwargs.items()
-                                if isinstance(tup, tuple))
+                                if (isinstance(tup, tuple)
+                                    and not isinstance(tup[0], NullStep)))
 
     def check_step(self, metallicity, RNG, step_name, step_tup, verbose=False):
         """
@@ -496,9 +499,8 @@ class SimulationProperties:
         step_name : str
             Name of the pipeline step being checked.
         step_kwargs : dict
-            Keyword arguments for the step. This dictionary may be modified
-            in-place to include validated metallicity and/or a TrackMatcher
-            instance.
+            Keyword arguments for the step. This dictionary is not modified,
+            because it is needed again to reload the step.
         verbose : bool, optional
             If True, print the keyword arguments used to construct the
             TrackMatcher.
@@ -522,7 +524,8 @@ class SimulationProperties:
         # copy these to track what was originally passed before adding defaults
         # in case we need to update a TrackMatcher for a step, this method only
         # cares about updating what it is told to, not everything.
-        original_step_kwargs = step_kwargs.copy()
+        original_step_kwargs = step_kwargs
+        step_kwargs = step_kwargs.copy()
 
         # check/assign metallicity for the step
         if "metallicity" in step_func.DEFAULT_KWARGS:
-- 
2.43.0


From f556314a7795b826ae25df54f456cd4f339a1f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:11 +0000
Subject: [PATCH 091/107] fix: constraints of an interpolator do not depend on
 other interpolators

---
 posydon/interpolation/constraints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 45fbf75..b244d13 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -415,7 +415,7 @@ def find_constraints_to_apply(out_keys):
 
         if constraint["type"] == 1:
 
-            for field in constraint["independent"]:
+            for field in constraint["independent"] + [constraint["dependent"]]:
                 if field.format(1) not in out_keys:
                     should_apply = False
 
@@ -436,7 +436,8 @@ def find_constraints_to_apply(out_keys):
             if len(new_fields) == 0:
                 should_apply = False
             else:
-                constraint["fields"] = new_fields
+                # leave the definition as it is for other sets of keys
+                constraint = {**constraint, "fields": new_fields}
 
         elif constraint["type"] == 3:
 
-- 
2.43.0


From de755cb7c760964902b911c442f3ac636ce19e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 092/107] fix: correction of convective regions for any
 thickness and radius

---
 posydon/interpolation/constraints.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index b244d13..469151b 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -196,20 +196,18 @@ def get_thickness_n_radius(fv_dict, constraint, keys):
             fv_dict[keys[2]] = 0.5 * R
             fv_dict[keys[1]] = R
         else:
-            slope = ((r - centroid[1])/(t - centroid[0]))
-
-            coeff_mat_one = np.array([[-1, slope],
-                                      [1, -0.5]])
-
-            dep_vec_one = np.array([-centroid[1] + slope * centroid[0], 0])
-
-            coeff_mat_two = np.array([[-1, slope],
-                                      [1, 0.5]])
-
-            dep_vec_two = np.array([-centroid[1] + slope * centroid[0], R])
-
-            inters = [np.linalg.solve(coeff_mat_one, dep_vec_one),
-                      np.linalg.solve(coeff_mat_two, dep_vec_two)]
+            # line from the centroid to the given point (can be vertical)
+            dr, dt = r - centroid[1], t - centroid[0]
+            line = -centroid[1] * dt + dr * centroid[0]
+
+            inters = []
+            for coeff, dep in [(-0.5, 0), (0.5, R)]:
+                try:
+                    inters.append(np.linalg.solve(np.array([[-dt, dr],
+                                                            [1, coeff]]),
+                                                  np.array([line, dep])))
+                except np.linalg.LinAlgError:   # parallel to this boundary
+                    continue
 
             valid_inters = [inter for inter in inters
                             if inter[1] > 0
-- 
2.43.0


From 6cb6d9b3b2fe0dd8170570bb7bfd9d668de79dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 093/107] fix: scaling of interpolators without classes, 1NN
 and user scalings

---
 posydon/interpolation/IF_interpolation.py | 35 ++++++++++++++---------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 407e43a..7ad79a8 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -296,7 +296,7 @@ class IFInterpolator:
         ------
         Interpolated values
         """
-        new_values = np.array(initial_values, copy = True)
+        new_values = np.array(initial_values, dtype=float)
 
         if self.interp_in_q:
             new_values.T[1] = new_values.T[1] / new_values.T[0]
@@ -320,7 +320,7 @@ class IFInterpolator:
         ------
         Classified values
         """
-        new_values = np.array(initial_values, copy = True)
+        new_values = np.array(initial_values, dtype=float)
 
         if self.interp_in_q:
             new_values.T[1] = new_values.T[1] / new_values.T[0]
@@ -698,18 +698,22 @@ class BaseIFInterpolator:
         if isinstance(self.interp_method, list):
             Xtn = self.X_scaler.normalize(Xt, classes)
             Ypredn = self.interpolator.predict(Xtn, classes, self.X_scaler)
+            Ypred = self.Y_scaler.denormalize(Ypredn, classes)
         else:
             Xtn = self.X_scaler.normalize(Xt)
-            Ypredn = self.interpolator.predict(Xtn)
+            Ypredn = self.interpolator.predict(Xtn, self.X_scaler)
+            Ypred = self.Y_scaler.denormalize(Ypredn)
+            if self.interp_method == '1NN':     # missing values
+                Ypred[Ypred == -100] = np.nan
 
-        Ypredn = np.array([
+        Ypred = np.array([
             list(sanitize_interpolated_quantities(
                  dict(zip(self.out_keys, track)),
                  self.constraints, verbose=False).values())
-            for track in self.Y_scaler.denormalize(Ypredn, classes)
+            for track in Ypred
         ])
 
-        return Ypredn
+        return Ypred
 
     def train_classifiers(self, grid, method='kNN', **options):
         """Train the classifiers.
@@ -1475,6 +1479,9 @@ class Scaler:
 
     def __init__(self, norms, XT, ic):
 
+        if isinstance(norms, list):     # the same scaling for all classes
+            norms = (norms, norms)
+
         if norms[0] == norms[1]:
             self.scaler = {
                 None:  MatrixScaler(norms[0], XT)
@@ -1489,12 +1496,12 @@ class Scaler:
 
     def normalize(self, X, klass = None):
 
-        if klass is None:
-            return self.scaler[klass].normalize(X)
+        if klass is None or len(self.scaler) == 1:
+            return self.scaler[None].normalize(X)
 
         else:
 
-            normalized = X.copy()
+            normalized = X.astype(float)
 
             classes = np.unique(klass)
 
@@ -1513,12 +1520,12 @@ class Scaler:
 
     def denormalize(self, Xn, klass = None):
 
-        if klass is None:
-            return self.scaler[klass].denormalize(Xn)
+        if klass is None or len(self.scaler) == 1:
+            return self.scaler[None].denormalize(Xn)
 
         else:
 
-            normalized = Xn
+            normalized = Xn.astype(float)
 
             classes = np.unique(klass)
 
@@ -1554,7 +1561,7 @@ class MatrixScaler:
     def normalize(self, X):
         """Scale input X."""
         assert X.shape[1] == self.N
-        Xn = np.empty_like(X)
+        Xn = np.empty(X.shape)
         for i in range(self.N):
             Xn[:, i] = self.scalers[i].transform(X[:, i])
 
@@ -1564,7 +1571,7 @@ class MatrixScaler:
         """Unscale input X."""
 
         assert Xn.shape[1] == self.N
-        X = np.empty_like(Xn)
+        X = np.empty(Xn.shape)
         for i in range(self.N):
             X[:, i] = self.scalers[i].inv_transform(Xn[:, i])
         return X
-- 
2.43.0


From 13644f8a42629805343968526d2a6eac51671736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 094/107] fix: class-wise input scaling uses the runs of the
 class

---
 posydon/interpolation/IF_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 7ad79a8..45fbe4c 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -532,7 +532,7 @@ class BaseIFInterpolator:
 
             self.X_scaler = Scaler(self.in_scaling,
                                    self.XT[self.valid >= 0, :],
-                                   _get_grid_column(grid, self.c_key)[self.valid > 0])
+                                   _get_grid_column(grid, self.c_key)[self.valid >= 0])
             self.Y_scaler = Scaler(self.out_scaling,
                                    self.YT[self.valid > 0, :],
                                    _get_grid_column(grid, self.c_key)[self.valid > 0])
-- 
2.43.0


From 2cf74682ba9802564a3f40f834c654ffd0cf4c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 095/107] fix: interpolators can be trained again and loaded
 from a file

---
 posydon/interpolation/IF_interpolation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 45fbe4c..6e303ae 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -249,6 +249,7 @@ class IFInterpolator:
 
     def train(self):
         """Train the interpolator(s) on the PSyGrid used for construction."""
+        self.interpolators = []
         for interpolator in self.interpolator_parameters:
             self.interpolators.append(BaseIFInterpolator(grid=self.grid,
                                                          **interpolator))
@@ -427,13 +428,6 @@ class BaseIFInterpolator:
 
         self.interp_method = interp_method
         self.interpolator = None
-        ignored_classes = ['not_converged', 'ignored_no_BH', 'ignored_no_RLO', 'initial_MT']
-        self.valid_classes = np.unique(grid.final_values["interpolation_class"]).tolist()
-        # A list of mass-transfer classes that are kept for interpolations (exclude e.g. 'not_converged' class).
-        for i in ignored_classes:
-            while(i in self.valid_classes):
-                self.valid_classes.remove(i)
-
         if interp_classes is not None:
             if not isinstance(interp_classes, list):
                 raise ValueError("interp_classes must be a list of "
@@ -457,6 +451,13 @@ class BaseIFInterpolator:
                     "grid must be specified to create an IF interpolator."
                     " Conversely, load an existing model specifying filename.")
 
+            ignored_classes = ['not_converged', 'ignored_no_BH', 'ignored_no_RLO', 'initial_MT']
+            self.valid_classes = np.unique(grid.final_values["interpolation_class"]).tolist()
+            # A list of mass-transfer classes that are kept for interpolations (exclude e.g. 'not_converged' class).
+            for i in ignored_classes:
+                while(i in self.valid_classes):
+                    self.valid_classes.remove(i)
+
             if self.in_keys is None:
                 self.in_keys = ['star_1_mass', 'star_2_mass', 'period_days']
             if self.out_keys is None:
-- 
2.43.0


From 4a43309c5ca6cab6652912cef2fe7c09772b1925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 096/107] fix: check of a population run works from outside the
 run folder

---
 posydon/CLI/io.py           | 12 +++++++++---
 posydon/CLI/popsyn/check.py |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index d9ec806..a0e0d16 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -332,7 +332,8 @@ def create_slurm_rescue(metallicity,
                         max_concurrent_jobs,
                         exclude,
                         path_to_posydon,
-                        path_to_posydon_data):
+                        path_to_posydon_data,
+                        run_folder=''):
     '''Creates the slurm rescue script for resubmitting failed population synthesis jobs.
 
     Creates a SLURM submission script file named
@@ -361,6 +362,8 @@ def create_slurm_rescue(metallicity,
         Path to the POSYDON installation
     path_to_posydon_data : str
         Path to the POSYDON_DATA directory
+    run_folder : str, optional
+        Folder in which the script is created (default: current directory)
     '''
     str_met = convert_metallicity_to_string(metallicity)
 
@@ -409,7 +412,7 @@ def create_slurm_rescue(metallicity,
 
     text = text_pre + optional_section + text_post
 
-    filename = f'{str_met}_Zsun_rescue.slurm'
+    filename = os.path.join(run_folder, f'{str_met}_Zsun_rescue.slurm')
     if os.path.exists(filename): # pragma: no cover
         Pwarn('Replace ' + filename, "OverwriteWarning")
     with open(filename, mode='w') as file:
@@ -583,7 +586,8 @@ def create_batch_rescue_script(args, batch_status):
         max_concurrent_jobs=max_concurrent_jobs,
         exclude=exclude,
         path_to_posydon=path_to_posydon,
-        path_to_posydon_data=path_to_posydon_data
+        path_to_posydon_data=path_to_posydon_data,
+        run_folder=run_folder
     )
 
     rescue_script = os.path.join(run_folder, f'{str_met}_Zsun_rescue.slurm')
@@ -608,6 +612,8 @@ def create_bash_submit_rescue_script(filename, rescue_scripts):
     resubmit_sh_file = os.path.join(filename, RESUBMIT_SCRIPT)
     with open(resubmit_sh_file, 'w') as f:
         f.write("#!/bin/bash\n")
+        # the jobs need to be submitted from the run folder
+        f.write('cd "$(dirname "$0")" || exit 1\n')
         for script in rescue_scripts:
             script_basename = os.path.basename(script)
             met = script_basename.split('_')[0]
diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 519817f..5d3375a 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -683,8 +683,10 @@ def submit_slurm_job(script_path):
         True if submission succeeded, False otherwise
     """
     try:
+        # the jobs need to be submitted from the run folder
         result = subprocess.run(
-            ['sbatch', script_path],
+            ['sbatch', os.path.basename(script_path)],
+            cwd=os.path.dirname(script_path) or None,
             check=True,
             capture_output=True,
             text=True
-- 
2.43.0


From 2c9866127c49430bf0f981946c43100d5b4f2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 097/107] fix: rescue of a run with only some metallicities
 incomplete

---
 posydon/CLI/io.py           |  9 ++++++++-
 posydon/CLI/popsyn/check.py | 11 +++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index a0e0d16..3e81846 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -594,7 +594,8 @@ def create_batch_rescue_script(args, batch_status):
     print_success(f"Rescue script generated: {rescue_script}")
     return rescue_script
 
-def create_bash_submit_rescue_script(filename, rescue_scripts):
+def create_bash_submit_rescue_script(filename, rescue_scripts,
+                                     merge_scripts=()):
     """Generate a bash script to submit rescue scripts.
 
     Parameters
@@ -603,6 +604,8 @@ def create_bash_submit_rescue_script(filename, rescue_scripts):
         The name of the bash submission script to create
     rescue_scripts : list of str
         The list of rescue script paths
+    merge_scripts : list of str, optional
+        The list of merge script paths, for which all batches are complete
     """
     MERGE_SCRIPT_PATTERN = "{met}_Zsun_merge_popsyn.slurm"
     RESUBMIT_SCRIPT = "resubmit_slurm.sh"
@@ -625,6 +628,10 @@ def create_bash_submit_rescue_script(filename, rescue_scripts):
                     "--kill-on-invalid-dep=yes "
                     f"{merge_script})\n")
             f.write("echo 'Merge job submitted as '${merge}\n")
+        for script in merge_scripts:
+            f.write("merge=$(sbatch --parsable "
+                    f"{os.path.basename(script)})\n")
+            f.write("echo 'Merge job submitted as '${merge}\n")
 
     print(f"Rescue scripts ready to be resubmitted by 'sh {resubmit_sh_file}'")
     return resubmit_sh_file
diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 5d3375a..b4ada31 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -810,13 +810,20 @@ def check_popsyn_function(args):
                           "(yes/no): "):
         # Create rescue scripts
         rescue_scripts = []
-        for _, status in batch_status.items():
+        merge_scripts = []
+        for met, status in batch_status.items():
+            if status["status"] == "complete":
+                # only the merge is missing
+                merge_scripts.append(MERGE_SCRIPT_PATTERN.format(
+                    met=convert_metallicity_to_string(met)))
+                continue
             print_separator_line()
             print("\nGENERATING A RESCUE SCRIPT ....................")
             rescue_scripts.append(create_batch_rescue_script(args, status))
             print_separator_line()
 
-        resubmit_sh_file = create_bash_submit_rescue_script(args.run_folder, rescue_scripts)
+        resubmit_sh_file = create_bash_submit_rescue_script(
+            args.run_folder, rescue_scripts, merge_scripts)
 
         if get_user_confirmation("Do you want to submit the rescue scripts now? (yes/no): "):
             os.system(f'sh {resubmit_sh_file}')
-- 
2.43.0


From 6fd7e99fe88d40ba8923ae8c343b92d144328fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 098/107] fix: check does not claim to resubmit jobs of a
 population with a wrong count

---
 posydon/CLI/popsyn/check.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index b4ada31..39c5a0d 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -776,6 +776,14 @@ def check_popsyn_function(args):
         print_success("\nAll checks passed successfully.")
         return 0
 
+    # the jobs did finish, hence resubmitting them doesn't help
+    if files_exist:
+        print_error("\nAll population files exist, but at least one doesn't "
+                    "contain the requested number of binaries.")
+        print("Remove or rename the population files, which should be redone, "
+              "and run the check again.")
+        return 1
+
     # Otherwise, investigate further
     print_error("\nOne or more checks failed.")
     print("We will attempt to rescue the failed runs.\n")
-- 
2.43.0


From 2da75cc58d07b6f3b4415bfe18f4ee85d656ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 099/107] fix: check of missing batches if there is a log of a
 merge

---
 posydon/CLI/popsyn/check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 39c5a0d..d1303c2 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -419,7 +419,10 @@ def select_job_id(run_folder, str_met):
     int or None
         Selected job ID, or None if no logs found
     """
-    jobIDs = glob.glob(os.path.join(run_folder, f'{str_met}_logs/popsyn_*.out'))
+    # the log of the merge has no job ID
+    jobIDs = [job for job in glob.glob(os.path.join(run_folder,
+                                                    f'{str_met}_logs/popsyn_*.out'))
+              if os.path.basename(job) != 'popsyn_merge.out']
 
     if len(jobIDs) == 0:
         print("\n\033[33mNo log files found. Cannot determine failure reasons.\033[0m")
-- 
2.43.0


From cec3e0ff2888d610bc0c701485da3c2778d518f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:14 +0000
Subject: [PATCH 100/107] fix: killed jobs don't leave files which look
 complete

---
 posydon/popsyn/binarypopulation.py | 34 ++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 5255ceb..6fcf247 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -551,7 +551,9 @@ class BinaryPopulation:
         complevel = kwargs.get('complevel', 9)
 
 
-        with pd.HDFStore(absolute_filepath, mode=mode, complevel=complevel, complib=complib) as store:
+        # a file only gets its name once it is complete
+        tmp_filepath = self.manager.unfinished_filename(absolute_filepath, mode)
+        with pd.HDFStore(tmp_filepath, mode=mode, complevel=complevel, complib=complib) as store:
             simulated_mass = 0.0
             simulated_mass_single = 0.0
             simulated_mass_binaries = 0.0
@@ -610,6 +612,8 @@ class BinaryPopulation:
             tmp_df.index.name = 'metallicity'
             store.append('mass_per_metallicity', tmp_df)
 
+        os.replace(tmp_filepath, absolute_filepath)
+
         # only remove the files once they've been written to the new file
         for f in combined_files:
             os.remove(f)
@@ -862,6 +866,28 @@ class PopulationManager:
 
         return binary_holder
 
+    @staticmethod
+    def unfinished_filename(fname, mode):
+        """Get the name of a file while it is written.
+
+        Parameters
+        ----------
+        fname : str
+            Path of the file.
+        mode : {'a', 'w', 'r', 'r+'}
+            Mode the file gets opened with. Only new files get another name.
+
+        Returns
+        -------
+        str
+            Path to be used until the file is complete.
+
+        """
+        if mode != 'w':
+            return fname
+        directory, name = os.path.split(fname)
+        return os.path.join(directory, 'tmp_' + name)
+
     def save(self, fname, **kwargs):  # pragma: no cover
         """Save binaries to an hdf file using pandas HDFStore.
 
@@ -895,7 +921,9 @@ class PopulationManager:
         complib = kwargs.get('complib', 'zlib')
         complevel = kwargs.get('complevel', 9)
 
-        with pd.HDFStore(fname, mode=mode, complevel=complevel, complib=complib) as store:
+        # a file only gets its name once it is complete
+        tmp_fname = self.unfinished_filename(fname, mode)
+        with pd.HDFStore(tmp_fname, mode=mode, complevel=complevel, complib=complib) as store:
 
             simulated_mass = 0.0
             simulated_mass_single = 0.0
@@ -966,6 +994,8 @@ class PopulationManager:
             tmp_df.index.name = 'metallicity'
             store.append('mass_per_metallicity', tmp_df)
 
+        os.replace(tmp_fname, fname)
+
         return
 
 
-- 
2.43.0


From b6509afdbfab00c4c65bbd09dfa4cf29ca417899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 101/107] fix: interpolators do not use the runs they report as
 discarded

---
 posydon/interpolation/IF_interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 6e303ae..33e393d 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -451,7 +451,8 @@ class BaseIFInterpolator:
                     "grid must be specified to create an IF interpolator."
                     " Conversely, load an existing model specifying filename.")
 
-            ignored_classes = ['not_converged', 'ignored_no_BH', 'ignored_no_RLO', 'initial_MT']
+            ignored_classes = ['not_converged', 'ignored_no_BH', 'ignored_no_RLO',
+                               'ignored_no_binary_history', 'initial_MT']
             self.valid_classes = np.unique(grid.final_values["interpolation_class"]).tolist()
             # A list of mass-transfer classes that are kept for interpolations (exclude e.g. 'not_converged' class).
             for i in ignored_classes:
@@ -643,7 +644,8 @@ class BaseIFInterpolator:
         valid[which] = -1
         print(f"Discarded {np.sum(which)} binaries with nans in input values.")
         for i, flag in enumerate(self.valid_classes):
-            valid[ic == flag] = i + 1
+            # keep the discarded ones out
+            valid[(ic == flag) & (valid >= 0)] = i + 1
 
         if(self.interp_in_q):   # if HMS-HMS grid, take out q = 1
             for i, iv in enumerate(X):
-- 
2.43.0


From 99eedba4582b1fc66a590dabe1227e91a549e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:59 +0000
Subject: [PATCH 102/107] fix: mass unit of the remnant if the profile is
 incomplete

---
 posydon/binary_evol/SN/profile_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/profile_collapse.py b/posydon/binary_evol/SN/profile_collapse.py
index 23abc1b..2197afd 100644
--- a/posydon/binary_evol/SN/profile_collapse.py
+++ b/posydon/binary_evol/SN/profile_collapse.py
@@ -184,7 +184,7 @@ def get_initial_BH_properties(star, mass_collapsing, mass_central_BH,
               "collapse the star and determine the remnant properties.",
               'InappropriateValueWarning')
         # estimate still initial BH mass
-        mass_initial_BH = mass_central_BH - neutrino_mass_loss
+        mass_initial_BH = (mass_central_BH - neutrino_mass_loss) * const.Msun
         return [mass_initial_BH, np.nan, np.nan, np.array([]), np.array([]),
                 np.array([]), np.array([]), np.array([]), np.array([]),
                 np.array([]), np.array([]), np.nan]
-- 
2.43.0


From 8f085f02a5928cbfe5aca8287ce7f04fb59fd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:59 +0000
Subject: [PATCH 103/107] fix: spin and disk if the whole profile collapses to
 the central black hole

---
 posydon/binary_evol/SN/profile_collapse.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/posydon/binary_evol/SN/profile_collapse.py b/posydon/binary_evol/SN/profile_collapse.py
index 2197afd..adace83 100644
--- a/posydon/binary_evol/SN/profile_collapse.py
+++ b/posydon/binary_evol/SN/profile_collapse.py
@@ -448,15 +448,22 @@ def do_core_collapse_BH(star,
          star, mass_collapsing, mass_central_BH, neutrino_mass_loss,
          max_neutrino_mass_loss, verbose)
 
+    if a_BH > 0.99:
+        a_BH = 0.99
+        J_BH = a_BH * G * M_BH**2 / c
+
     # check that there is matter falling onto the BH
     if len(enclosed_mass) == 0:
         arr = np.array([np.nan])
+        # without any matter left there is no disk, while nothing is known
+        # about it without a profile
+        no_disk = np.nan if np.isnan(a_BH) else 0.0
         return {
             'M_BH_total' : M_BH / Mo,
             'a_BH_total' : a_BH,
-            'm_disk_accreted' : np.nan,
-            'm_disk_radiated' : np.nan,
-            'BZ_jet_power_total' : np.nan,
+            'm_disk_accreted' : no_disk,
+            'm_disk_radiated' : no_disk,
+            'BZ_jet_power_total' : no_disk,
           # 'BZ_jet_power_array' : arr,
           # 'M_BH_array' : arr,
           # 'a_BH_array' : arr,
@@ -479,10 +486,6 @@ def do_core_collapse_BH(star,
     # shell's specific angular momentum at equator
     j_shells = Omega_shells * radius_shells**2
 
-    if a_BH > 0.99:
-        a_BH = 0.99
-        J_BH = a_BH * G * M_BH**2 / c
-
     # get the initial r_isco, j_isco and orbital energy convertion efficiency
     r_isco, j_isco, eff = compute_isco_properties(a_BH, M_BH)
 
-- 
2.43.0


From 889f51237f1005a40be4ec857f447ac616445f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:59 +0000
Subject: [PATCH 104/107] fix: verbose ejecta if only the outermost cell is
 ejected

---
 posydon/binary_evol/SN/profile_collapse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/binary_evol/SN/profile_collapse.py b/posydon/binary_evol/SN/profile_collapse.py
index adace83..f3c267f 100644
--- a/posydon/binary_evol/SN/profile_collapse.py
+++ b/posydon/binary_evol/SN/profile_collapse.py
@@ -101,6 +101,7 @@ def get_ejecta_element_mass_at_collapse(star, compact_object_mass, verbose):
             Pwarn(f"Index out of bounds (i_rem = {i_rem} >= {len(dm_all)} = "
                   "len(dm_all)), cannot calculate ejected masses.",
                   'InappropriateValueWarning')
+            dm_ejected = dm_all[i_rem:]
             h1_mass_ej = 0.0
             he4_mass_ej = 0.0
 
-- 
2.43.0


From d6d5579bf3e052cc424d04e49365a3480c6841e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:54 +0000
Subject: [PATCH 105/107] fix: stars of grid runs get their metallicity in
 solar units

---
 posydon/binary_evol/binarystar.py | 4 +++-
 posydon/binary_evol/singlestar.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index f1a3108..733648b 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -49,6 +49,7 @@ from posydon.utils.common_functions import (
     orbital_period_from_separation,
     orbital_separation_from_period,
 )
+from posydon.utils.constants import Zsun
 from posydon.utils.posydonerror import FlowError
 
 # star property: column names in binary history for star 1 and star 2
@@ -1065,7 +1066,8 @@ class BinaryStar:
 
         # set metallicities (if defined in the track)...
         try:
-            metallicity = run.initial_values["Z"]
+            # a star stores its metallicity in solar units
+            metallicity = run.initial_values["Z"] / Zsun
         except AttributeError:
             metallicity = None
         # ...and other star parameters taken from the binary history
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 73e6a87..d270ffa 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -625,7 +625,8 @@ class SingleStar:
             setattr(star, attr, final_value)
 
         try:
-            star.metallicity = run.initial_values["Z"]
+            # a star stores its metallicity in solar units
+            star.metallicity = run.initial_values["Z"] / Zsun
         except AttributeError:
             star.metallicity = None
 
-- 
2.43.0


From f168c16d5f3ad812e890e5284d8e7c06152b9032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:54 +0000
Subject: [PATCH 106/107] fix: post processing uses the parameters of the
 supernova models it gets

---
 posydon/grids/post_processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/grids/post_processing.py b/posydon/grids/post_processing.py
index 87ed6d4..3d63efa 100644
--- a/posydon/grids/post_processing.py
+++ b/posydon/grids/post_processing.py
@@ -353,6 +353,7 @@ def post_process_grid(grid, index=None, star_2_CO=True, SN_MODELS=SN_MODELS,
 
                     for SN_MODEL_NAME in SN_MODELS.keys():
                         SN_MODEL = get_SN_MODEL(SN_MODEL_NAME)
+                        SN_MODEL.update(SN_MODELS[SN_MODEL_NAME])
                         mechanism = SN_MODEL['mechanism']+SN_MODEL['engine']
                         SN_MODEL['allow_spin_None'] = True
                         SN = StepSN(**SN_MODEL)
@@ -421,6 +422,7 @@ def post_process_grid(grid, index=None, star_2_CO=True, SN_MODELS=SN_MODELS,
 
                 for SN_MODEL_NAME in SN_MODELS.keys():
                     SN_MODEL = get_SN_MODEL(SN_MODEL_NAME)
+                    SN_MODEL.update(SN_MODELS[SN_MODEL_NAME])
                     mechanism = SN_MODEL['mechanism']+SN_MODEL['engine']
                     SN_MODEL['allow_spin_None'] = True
                     SN = StepSN(**SN_MODEL)
-- 
2.43.0


From cdd6ea379a1705742687e2e7b3c970c17615daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:51 +0000
Subject: [PATCH 107/107] fix: grids can be reloaded after supernova models got
 replaced

---
 posydon/grids/psygrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 708df98..fa06587 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1468,7 +1468,8 @@ class PSyGrid:
             lazy_values["/grid/SN_MODELS/" + model_name] = values
         for key, values in lazy_values.items():
             if (isinstance(values, LazyHDF5)
-                and isinstance(values._dataset, h5py.Dataset)):
+                and isinstance(values._dataset, h5py.Dataset)
+                and key in self.hdf5):
                 values._dataset = self.hdf5[key]
 
     def load(self, filepath=None, lazy=True):
-- 
2.43.0

