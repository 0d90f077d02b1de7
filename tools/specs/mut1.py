SP = "posydon/popsyn/synthetic_population.py"
MUT = {
"10a": ("C10", [(SP, "                stop = np.max(self.indices, initial=-1) + 1\n            else:\n                stop = key.stop\n            indices = list(range(pre, stop))\n            return self._select_indices(indices)\n\n        # single index\n        elif isinstance(key, int):\n            return self.select(where=f\"index == {key}\")\n\n        # list of indices",
 "                stop = len(self.indices)\n            else:\n                stop = key.stop\n            indices = list(range(pre, stop))\n            return self._select_indices(indices)\n\n        # single index\n        elif isinstance(key, int):\n            return self.select(where=f\"index == {key}\")\n\n        # list of indices")], "open slice with gaps"),
"10b": ("C10", [(SP, "                    out.append(chunk[key[start : start + len(chunk)]])\n                    start += len(chunk)\n                return pd.concat(out, axis=0)\n\n        # single column\n        elif isinstance(key, str):\n            if key in self.columns:\n                return self.select(columns=[key])\n            else:\n                raise ValueError(f\"{key} is not a valid column name!\")\n\n        # multiple columns\n        elif isinstance(key, list) and all(isinstance(x, str) for x in key):\n            if all(x in self.columns for x in key):\n                return self.select(columns=key)\n            else:\n                raise ValueError(f\"Not all columns in {key} are valid column names!\")\n        else:\n            raise ValueError(\"Invalid key type!\")\n\n    def __len__(self):\n",
 "                    out.append(chunk[key[start : start + len(chunk)]])\n                    start += self.chunksize\n                    if start > 2 * self.chunksize:\n                        start = start + 1\n                return pd.concat(out, axis=0)\n\n        # single column\n        elif isinstance(key, str):\n            if key in self.columns:\n                return self.select(columns=[key])\n            else:\n                raise ValueError(f\"{key} is not a valid column name!\")\n\n        # multiple columns\n        elif isinstance(key, list) and all(isinstance(x, str) for x in key):\n            if all(x in self.columns for x in key):\n                return self.select(columns=key)\n            else:\n                raise ValueError(f\"Not all columns in {key} are valid column names!\")\n        else:\n            raise ValueError(\"Invalid key type!\")\n\n    def __len__(self):\n")] , "mask third chunk"),
"11a": ("C11", [(SP, "last_index_in_file = np.sort(store[\"oneline\"].index)[-1]", "last_index_in_file = store[\"oneline\"].index[-1]")], "append after unsorted file"),
"11b": ("C11", [(SP, "                tmp_df = self.history.lengths.loc[selection[i : i + self.chunksize]]\n", "                tmp_df = self.history.lengths.loc[sorted(selection)[i : i + self.chunksize]]\n")], "lengths sorted"),
"11c": ("C11", [(SP, "                    np.sum(selected_metallicities == Z) for Z in self_mass.index\n", "                    np.sum(tmp_df.index == Z) for Z in self_mass.index\n")], "counts"),
"11d": ("C11", [(SP, "        # write ini parameters\n        self._save_ini_params(filename)\n\n    @property\n    def formation_channels", "        # write ini parameters\n        if not append:\n            self._save_ini_params(filename)\n\n    @property\n    def formation_channels")], "appending to new file drops ini params"),
"12a": ("C12", [(SP, "            previous = end\n            # combine based on", "            previous += len(events)\n            # combine based on")], "EQUIVALENT?"),
"12b": ("C12", [(SP, "formation_channels_chunk = self.formation_channels[\n                    i : i + self.chunksize\n                ]", "formation_channels_chunk = self.formation_channels.sort_index()[\n                    i : i + self.chunksize\n                ]")], "channels sorted"),
"12c": ("C12", [(SP, "                    x = self.oneline.select(\n                        start=i, stop=i + self.chunksize, columns=[\"mt_history_HMS_HMS\"]\n                    )\n                    tmp_df[\"mt_history_HMS_HMS\"] = x\n", "                    x = self.oneline.select(\n                        start=i, stop=i + self.chunksize, columns=[\"mt_history_HMS_HMS\"]\n                    )\n                    tmp_df[\"mt_history_HMS_HMS\"] = x.sort_index().to_numpy()\n")], "mt history by position"),
"12d": ("C12", [(SP, "                return row[\"channel\"].replace(\"oRLO1\", \"oRLO1-contact\")", "                return row[\"channel\"].replace(\"oRLO1\", \"oRLO1-contact\", 1)")], "repeated oRLO1"),
"12e": ("C12", [(SP, "            min_itemsize = {\n                key: val for key, val in min_itemsize.items() if key in syn_df.columns\n            }\n\n            with pd.HDFStore(self.filename, mode=\"a\") as store:\n                store.append(\n                    \"transients/\" + transient_name,\n                    syn_df,\n", "            min_itemsize = {\n                key: val for key, val in min_itemsize.items() if key in syn_df.columns\n            }\n\n            with pd.HDFStore(self.filename, mode=\"a\") as store:\n                store.append(\n                    \"transients/\" + transient_name,\n                    syn_df.drop_duplicates(),\n")], "identical events merged"),
"13a": ("C13", [(SP, "            pop_data['S2_mass_i'] = np.minimum(S1_tmp, S2_tmp)\n", "            pop_data['S2_mass_i'] = S2_tmp\n")], "flipped masses"),
"13b": ("C13", [(SP, "            M_sim = self.mass_per_metallicity['simulated_mass'].iloc[i]\n", "            M_sim = self.mass_per_metallicity['simulated_mass'].iloc[0]\n")], "M_sim first"),
"13c": ("C13", [(SP, "                efficiency.loc[met, ch] = w\n", "                if w > 0 and ch in efficiency.columns and not pd.isna(efficiency.loc[met, ch]):\n                    continue\n                efficiency.loc[met, ch] = w\n")], "EQUIV? channel named total"),
"13d": ("C13", [(SP, "                del store[base_path]\n                if '/' + base_path + '_population_parameters' in store.keys():", "                model_weights = store[base_path] if len(store[base_path]) == len(model_weights) else model_weights\n                del store[base_path]\n                if '/' + base_path + '_population_parameters' in store.keys():")], "recalculation keeps old weights"),
"14a": ("C14", [(SP, "            tmp_model_weights = M_model.iloc[i : i+self.chunksize].to_numpy()\n", "            tmp_model_weights = M_model.loc[np.unique(selected_indices)].to_numpy()[:len(selected_indices)]\n")], "weights by sorted index"),
"14b": ("C14", [(SP, "            mask = (z_events > z_horizon[i - 1]) & (z_events <= z_horizon[i])\n            for ch", "            mask = (z_events > z_horizon[i - 1]) & (z_events < z_horizon[i])\n            for ch")], "edge of bin (measure zero)"),
"14c": ("C14", [(SP, "                mask = met_events == met\n                weights[mask, :] = (", "                mask = np.abs(met_events - met) <= 0.5 * np.abs(met)\n                weights[mask, :] = (")], "close metallicities"),
"14d": ("C14", [(SP, "                if path_in_file + \"z_events\" in store.keys(): # pragma: no branch\n                    store.remove(path_in_file + \"z_events\")\n", "                if path_in_file + \"z_event\" in store.keys(): # pragma: no branch\n                    store.remove(path_in_file + \"z_event\")\n")], "recalculation appends redshifts"),
"14e": ("C14", [(SP, "                mask_ch = channels.to_numpy() == ch\n", "                mask_ch = channels.to_numpy().astype('U20') == str(ch)[:20]\n")], "long channels sharing a prefix"),
}
