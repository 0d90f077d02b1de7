PC = "posydon/binary_evol/SN/profile_collapse.py"
SN = "posydon/binary_evol/SN/step_SN.py"
MUT = {
 '34a': ('C34', [(PC, "        i_rem = np.argmax(enclosed_mass_all/Mo > mass_collapsing) + 1", "        i_rem = np.argmax(enclosed_mass_all/Mo > mass_collapsing)")], 'cut'),
 '34b': ('C34', [(PC, "            J_disk = j_isco * dm_disk\n", "            J_disk = j_isco * dm_disk * eff\n")], 'disk momentum'),
 '34c': ('C34', [(PC, "            M_disk = M_disk + dm_disk * eff", "            M_disk = M_disk + dm_disk")], 'disk mass'),
 '34d': ('C34', [(PC, "        # get r_isco, j_isco, and orbital energy at isco\n        r_isco, j_isco, eff = compute_isco_properties(a_BH, M_BH)", "        # get r_isco, j_isco, and orbital energy at isco\n        if a_BH < 0.95:\n            r_isco, j_isco, eff = compute_isco_properties(a_BH, M_BH)")], 'isco not updated'),
 '34e': ('C34', [(PC, "            XH_ejected = XH_all[i_rem + 1:]", "            XH_ejected = XH_all[i_rem:-1]")], 'composition'),
 '34f': ('C34', [(SN, "                    if m_grav >= self.max_NS_mass and star.state == \"BH\":\n                        mass_direct_collapse = self.max_NS_mass + delta_M", "                    if m_grav >= self.max_NS_mass and star.state == \"BH\":\n                        mass_direct_collapse = self.max_NS_mass")], 'engine branch'),
 '34g': ('C34', [(PC, "    f_nu_AM = mass_initial_BH / enclosed_mass[index_initial_BH]", "    f_nu_AM = 1.0")], 'neutrino momentum'),
 '34h': ('C34', [(PC, "    if enclosed_mass_all[-1] / Mo <= mass_collapsing:", "    if enclosed_mass_all[-1] / Mo < mass_collapsing:")], 'cut at the total (argmax of nothing)'),
 '34i': ('C34', [(PC, "    m_disk_radiated = sum(np.array(dm_disk_array)*np.array(radiation_eff_array))/Mo", "    m_disk_radiated = sum(np.array(dm_disk_array)[:-1]*np.array(radiation_eff_array)[1:])/Mo")], 'radiated'),
 '34j': ('C34', [(PC, "    if profile_mass_all[-1] <= compact_object_mass:", "    if profile_mass_all[-2] <= compact_object_mass:")], 'equiv: outermost cell'),
 '34k': ('C34', [(PC, "            J_direct = 4 * np.pi * (Omega_shell * rho_shell) * temp1 * temp2\n\n            # shell's mass", "            J_direct = 4 * np.pi * (Omega_shell * rho_shell) * temp1 * temp2 * (1.0 - np.cos(theta_disk))\n\n            # shell's mass")], 'direct momentum'),
 '34l': ('C34', [(SN, "                    elif star.state == \"NS\":\n                        star.mass = m_grav\n", "                    elif star.state == \"NS\":\n                        star.mass = m_rembar\n")], 'NS engine'),
}
