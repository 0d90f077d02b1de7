SN = "posydon/binary_evol/SN/step_SN.py"
MUT = {
"20a": ("C20", [(SN, "            elif m_rembar > m_PISN:\n                m_rembar = m_PISN", "            elif m_rembar > m_PISN or star.SN_type == 'ECSN':\n                m_rembar = m_PISN")], "ECSN replaced"),
"20b": ("C20", [(SN, "                        if PISN_star.co_core_mass > m_PISN:\n                            PISN_star.co_core_mass = m_PISN\n", "")], "Hendriks CO core not limited"),
"20c": ("C20", [(SN, "                    if star.metallicity < 1e-4:\n                        Z = 1e-4", "                    if star.metallicity < 1e-3:\n                        Z = 1e-3")], "Hendriks Z floor"),
"20d": ("C20", [(SN, "                    elif pd.isna(SN_MODEL_properties['mass']):", "                    elif SN_MODEL_properties['mass'] is None:")], "nan interpolated mass"),
"20e": ("C20", [(SN, "            elif is_number(self.PISN) and m_He_core > self.PISN:\n                m_PISN = self.PISN", "            elif is_number(self.PISN) and m_star > self.PISN:\n                m_PISN = self.PISN")], "number PISN by star mass"),
"20f": ("C20", [(SN, "                m_fb = 0.5 * m_core - 1.05\n                f_fb = m_fb / (m_collapsing - m_proto)", "                m_fb = 0.5 * m_core - 1.05\n                f_fb = m_fb / (m_star - m_proto)")], "delayed fallback fraction"),
"20g": ("C20", [(SN, "                    if m_grav >= self.max_NS_mass and star.state == \"BH\":\n                        mass_direct_collapse", "                    if m_grav > self.max_NS_mass and star.state == \"BH\":\n                        mass_direct_collapse")], "edge"),
"20h": ("C20", [(SN, "                elif m_He_core > 61.10 and m_He_core < 124.12:", "                elif m_He_core > 61.10 and m_star < 124.12:")], "PISN upper by star mass"),
"20i": ("C20", [(SN, "                    if self.conserve_hydrogen_PPI:\n                        m_PISN = m_star - delta_M_PPI", "                    if self.conserve_hydrogen_envelope:\n                        m_PISN = m_star - delta_M_PPI")], "wrong option"),
"20j": ("C20", [(SN, "            elif m_core >= 6 and m_core < 11.0:\n                m_proto = 1.4", "            elif m_core >= 6 and m_core <= 11.0:\n                m_proto = 1.4")], "edge at 11"),
"21a": ("C21", [(SN, "            if E_ma > np.pi: cos_psi *= -1", "            if mean_anomaly > 1.5 * np.pi: cos_psi *= -1")], "branch of velocity direction"),
"21b": ("C21", [(SN, "            if Vkz < 0: tilt *= -1", "            if Vkz < 0 and epre > 0: tilt *= -1")], "tilt sign circular"),
"21c": ("C21", [(SN, "        x_prime = rotate(z_prime, true_anomaly_2-true_anomaly_1).dot((1,0,0))", "        x_prime = rotate((0,0,1), true_anomaly_2-true_anomaly_1).dot((1,0,0))")], "combined tilt axis"),
"21d": ("C21", [(SN, "            if not binary.star_2.natal_kick_polar_angle is None:\n                cos_theta = np.cos(binary.star_2.natal_kick_polar_angle)", "            if binary.star_2.natal_kick_polar_angle:\n                cos_theta = np.cos(binary.star_2.natal_kick_polar_angle)")], "polar angle 0 redrawn"),
"21e": ("C21", [(SN, "            if binary.star_2.state_history[-1] in STAR_STATES_CC:\n                M_he_star = binary.star_2.mass_history[-1]", "            if binary.star_2.state_history[-1] in STAR_STATES_CC:\n                M_he_star = max(binary.star_2.mass_history[-1], binary.star_2.mass_history[0])")], "He star mass from start"),
"21f": ("C21", [(SN, "            if key not in ['nearest_neighbour_distance','event']:\n                    setattr(binary, key, None)\n\n            if flag_binary:", "            if key not in ['nearest_neighbour_distance','event', 'V_sys']:\n                    setattr(binary, key, None)\n\n            if flag_binary:")], "equivalent"),
"21g": ("C21", [(SN, "            if star.state == 'BH':\n                norm = 1.4/star.mass", "            if star.mass > 2.5:\n                norm = 1.4/star.mass")], "norm by mass"),
"21h": ("C21", [(SN, "                        sigma = self.sigma_kick_CCSN_BH\n                        mean = self.mean_kick_CCSN_BH\n                    elif binary.star_2", "                        sigma = self.sigma_kick_CCSN_BH\n                        mean = self.mean_kick_CCSN_NS\n                    elif binary.star_2")], "mean of NS"),
"21i": ("C21", [(SN, "                    binary.star_1.mass, binary.star_1.mass_history[-1],\n                    binary.star_2.mass, binary.separation)", "                    binary.star_1.mass_history[-1], binary.star_1.mass,\n                    binary.star_2.mass, binary.separation)")], "WD orbit inverse"),
"21j": ("C21", [(SN, "                if key not in  ('nearest_neighbour_distance','state'):", "                if key not in  ('nearest_neighbour_distance','state', 'first_SN'):")], "equiv"),
"21k": ("C21", [(SN, "                if epost >= 1.0 or pd.isna(epost):\n                    SNflag3 = False", "                if epost > 1.0:\n                    SNflag3 = False")], "maybe equiv"),
"21l": ("C21", [(SN, "                SNflag2 = ((rpre / Apost - tmp1 < err)\n                           and (err > tmp2 - rpre / Apost))", "                SNflag2 = ((rpre / Apost - tmp1 < err) and rpre / Apost > 0.02\n                           and (err > tmp2 - rpre / Apost))")], "wide survivors disrupted"),
}
