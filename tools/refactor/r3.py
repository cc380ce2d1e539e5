"""Edits that keep the behaviour: (file, old, new)"""
R = []
def r(f, old, new): R.append((f, old, new))

F = "derras_bard_cotton_2014.py"
r(F, '''        values = np.array([s[k] for k in keys])
        limits = np.rec.array([c["min_max"][k] for k in keys], names="min,max")
        p_n = np.array(
            2 * (values - limits["min"]) / (limits["max"] - limits["min"]) - 1
        ).T
''', '''        p_n = []
        for k in keys:
            low, high = c["min_max"][k]
            p_n.append((2 * s[k] - low - high) / (high - low))
        p_n = np.array(p_n)
''')
r(F, "self._ln_resp = np.log(10 ** (log10_resp - scale))", "self._ln_resp = (log10_resp - scale) * np.log(10)")
r(F, "self._ln_std = np.log(10 ** np.array(c[\"log10_std\"][\"total\"]))", "self._ln_std = np.log(10) * np.asarray(c[\"log10_std\"][\"total\"])")
F = "gulerce_abrahamson_2011.py"
r(F, '''            + np.select(
                [(s.mag < c.c1), True], [c.a4 * (s.mag - c.c1), c.a5 * (s.mag - c.c1)]
            )
''', '''            + np.where(s.mag >= c.c1, c.a5, c.a4) * (s.mag - c.c1)
''')
r(F, '''        f5 = c.a10 * np.log(vs_ratio) - np.select(
            [v_s30_lim < c.v_lin, True],
            [
                -c.b * np.log(s.pga_ref + c.c)
                + c.b * np.log(s.pga_ref + c.c * vs_ratio**c.n),
                c.b * c.n * np.log(vs_ratio),
            ],
        )
''', '''        soft = c.b * np.log((s.pga_ref + c.c * vs_ratio**c.n) / (s.pga_ref + c.c))
        stiff = c.b * c.n * np.log(vs_ratio)
        f5 = c.a10 * np.log(vs_ratio) - np.where(v_s30_lim >= c.v_lin, stiff, soft)
''')
r(F, '''    def _calc_ln_std_within(self):
        c = self.COEFF
        mag = self._scenario.mag
        return np.select(
            [mag < 5, mag <= 7, True],
            [c.s1, c.s1 + 0.5 * (c.s2 - c.s1) * (mag - 5), c.s2],
        )

    def _calc_ln_std_between(self):
        c = self.COEFF
        mag = self._scenario.mag
        return np.select(
            [mag < 5, mag <= 7, True],
            [c.s3, c.s3 + 0.5 * (c.s4 - c.s3) * (mag - 5), c.s4],
        )
''', '''    def _by_mag(self, small, large):
        """Interpolate between magnitudes 5 and 7."""
        share = np.clip(0.5 * (self._scenario.mag - 5), 0, 1)
        return small + share * (large - small)

    def _calc_ln_std_within(self):
        return self._by_mag(self.COEFF.s1, self.COEFF.s2)

    def _calc_ln_std_between(self):
        return self._by_mag(self.COEFF.s3, self.COEFF.s4)
''')
F = "hermkes_kuehn_riggelsen_2014.py"
r(F, '''        flag_rs = flag_ss = flag_ns = 0
        if s.mechanism == "SS":
            flag_ss = 1
        elif s.mechanism == "NS":
            flag_ns = 1
        elif s.mechanism == "RS":
            flag_rs = 1

        event = (s.mag, s.depth_hyp, flag_rs, flag_ss, flag_ns, s.dist_jb, s.v_s30)
''', '''        flags = tuple(int(s.mechanism == m) for m in ("RS", "SS", "NS"))
        event = (s.mag, s.depth_hyp) + flags + (s.dist_jb, s.v_s30)
''')
F = "idriss_2014.py"
r(F, '''        if s.mechanism == "RS":
            flag_mech = 1
        else:
            # SS/RS/U
            flag_mech = 0

''', '''        flag_mech = 1 if s.mechanism == "RS" else 0

''')
r(F, '''            1.18
            + 0.035 * np.log(np.clip(self.PERIODS, 0.05, 3.0))
            - 0.06 * np.clip(s.mag, 5.0, 7.5)
''', '''            1.18
            - 0.06 * min(max(s.mag, 5.0), 7.5)
            + 0.035 * np.clip(np.log(np.maximum(self.PERIODS, 1e-3)), np.log(0.05), np.log(3.0))
''')
F = "kempton_stewart_2006.py"
r(F, "        return (stress_drop / moment) ** (-1 / 3) / (4.9e6 * 3.2)\n", "        return np.exp(np.log(moment / stress_drop) / 3) / (4.9e6 * 3.2)\n")
F = "kishida_2017.py"
r(F, '''    mat_correls = np.vstack(
        [calc_correls(periods_grouped, period_cond) for period_cond in periods_grouped]
    ).T
''', '''    mat_correls = np.empty((len(periods_grouped), len(periods_grouped)))
    for i, period_cond in enumerate(periods_grouped):
        mat_correls[:, i] = calc_correls(periods_grouped, period_cond)
''')
r(F, '''    mat_covar_22_inv = np.linalg.inv(mat_covar_22)
''', '''    mat_covar_22_inv = np.linalg.inv(mat_covar_22)
    weights = mat_covar_12 @ mat_covar_22_inv
''')
r(F, "np.ravel(mat_covar_12 @ mat_covar_22_inv @ mat_total_resids)", "np.ravel(weights @ mat_total_resids)")
r(F, '''        np.sqrt(
            np.diag(mat_covar_11 - (mat_covar_12 @ mat_covar_22_inv @ mat_covar_21))
        ),
''', '''        np.sqrt(np.diag(mat_covar_11) - np.diag(weights @ mat_covar_21)),
''')
F = "pezeshk_zandieh_tavakoli_2011.py"
r(F, '''            + (c.c_4 + c.c_5 * s.mag) * np.minimum(np.log10(dist), np.log10(70.0))
            + (c.c_6 + c.c_7 * s.mag)
            * np.maximum(np.minimum(np.log10(dist / 70.0), np.log10(140.0 / 70.0)), 0.0)
            + (c.c_8 + c.c_9 * s.mag) * np.maximum(np.log10(dist / 140.0), 0)
''', '''            + (c.c_4 + c.c_5 * s.mag) * np.log10(np.minimum(dist, 70.0))
            + (c.c_6 + c.c_7 * s.mag) * np.log10(np.clip(dist, 70.0, 140.0) / 70.0)
            + (c.c_8 + c.c_9 * s.mag) * np.log10(np.maximum(dist, 140.0) / 140.0)
''')
r(F, "ln_resp = np.log(np.power(10, log10_resp))", "ln_resp = log10_resp * np.log(10)")
F = "tavakoli_pezeshk_2005.py"
r(F, '''        if s.dist_rup > 70:
            f2 += c.c_10 * np.log(s.dist_rup / 70.0)

        if s.dist_rup > 130:
            f2 += c.c_11 * np.log(s.dist_rup / 130.0)
''', '''        for hinge, slope in [(70.0, c.c_10), (130.0, c.c_11)]:
            f2 = f2 + slope * np.log(max(s.dist_rup / hinge, 1))
''')
r(F, '''        dist = np.sqrt(
            s.dist_rup**2
            + (c.c_5 * np.exp(c.c_6 * s.mag + c.c_7 * (8.5 - s.mag) ** 2.5)) ** 2
        )
''', '''        dist = np.hypot(
            s.dist_rup, c.c_5 * np.exp(c.c_6 * s.mag + c.c_7 * (8.5 - s.mag) ** 2.5)
        )
''')
F = "pinilla_ramos_et_al_2023.py"
r(F, '''        source_term = np.zeros_like(mag)
        source_term += (c1 * 10 ** ((mag - 6.75) * c2base)) * (mag < mth)
        source_term += (c1 * 10 ** ((mag - 6.75) * c2)) * (mag >= mth)
''', '''        source_term = c1 * 10 ** ((mag - 6.75) * np.where(mag < mth, c2base, c2))
''')
r(F, '''        path_term = c3_base * rrup
        path_term += (rrup < r1) * (c31 * rrup)
        path_term += (rrup >= r1) * (rrup < r2) * (c31 * r1 + c312 * (rrup - r1))
        path_term += (rrup >= r2) * (c31 * r1 + c312 * (r2 - r1) + c32 * (rrup - r2))
''', '''        path_term = c3_base * rrup + c31 * np.minimum(rrup, r1)
        path_term = path_term + c312 * (np.clip(rrup, r1, r2) - r1)
        path_term = path_term + c32 * np.maximum(rrup - r2, 0)
''')
r(F, '''            model_plus_sigma = ((c_model * median) ** n3 + sigma_cond) ** (1 / n3)
''', '''            transformed = (c_model * median) ** n3
            model_plus_sigma = (transformed + sigma_cond) ** (1 / n3)
''')
F = "pinilla_ramos_et_al_2024.py"
r(F, '''            n = 0.15 if event_type == "interface" else 0.25
            duration_plus = (median**n + sigma) ** (1 / n)
            duration_minus = (median**n - sigma) ** (1 / n)

            return median, duration_plus, duration_minus
''', '''            return (median,) + self._bounds(median, sigma, event_type)
''')
r(F, '''            n = 0.15 if event_type == "interface" else 0.25
            duration_plus = (d5x_median**n + d5x_sigma) ** (1 / n)
            duration_minus = (d5x_median**n - d5x_sigma) ** (1 / n)

            return d5x_median, duration_plus, duration_minus
''', '''            return (d5x_median,) + self._bounds(d5x_median, d5x_sigma, event_type)

    @staticmethod
    def _bounds(median, sigma, event_type):
        """Durations one standard deviation above and below."""
        n = {"interface": 0.15}.get(event_type, 0.25)
        center = median**n
        return tuple((center + sign * sigma) ** (1 / n) for sign in (1, -1))
''')
r(F, '''            var_5x = (
                sigma_575**2 * c_ratio ** (2 * n2)
                + n2**2 * sigma_c**2 * d575_median ** (2 * n2) * c_ratio ** (2 * n2 - 2)
                + 2
                * n2
                * rho_c_d575
                * c_ratio ** (2 * n2 - 1)
                * d575_median**n2
                * sigma_575
                * sigma_c
            )
''', '''            base = sigma_575 * c_ratio**n2
            ratio = n2 * sigma_c * d575_median**n2 * c_ratio ** (n2 - 1)
            var_5x = base**2 + ratio**2 + 2 * rho_c_d575 * base * ratio
''')
F = "stafford_2017.py"
r(F, '''        for i in range(n):
            for j in range(n):
                # Between-event contribution
                rho_E = cls.between_event_correlation(freqs[i], freqs[j], mag)
                cov_E = rho_E * sigma_E[i] * sigma_E[j]

                # Between-site contribution
                rho_S = cls.between_site_correlation(freqs[i], freqs[j])
                cov_S = rho_S * sigma_S[i] * sigma_S[j]

                # Within-event contribution
                rho_A = cls.within_event_correlation(freqs[i], freqs[j])
                cov_A = rho_A * sigma_A[i] * sigma_A[j]

                # Total covariance (equation 4)
                cov_matrix[i, j] = cov_E + cov_S + cov_A
''', '''        for i in range(n):
            for j in range(i + 1):
                fi, fj = freqs[i], freqs[j]
                total = 0.0
                for rho, sigma in [
                    (cls.between_event_correlation(fi, fj, mag), sigma_E),
                    (cls.between_site_correlation(fi, fj), sigma_S),
                    (cls.within_event_correlation(fi, fj), sigma_A),
                ]:
                    total += rho * sigma[i] * sigma[j]
                # Total covariance (equation 4)
                cov_matrix[i, j] = cov_matrix[j, i] = total
''')
r(F, '''        f_min = np.minimum(f_i, f_j)
        f_max = np.maximum(f_i, f_j)

        # Corner frequency for given magnitude
        fc = cls.compute_corner_frequency(mag)

        # Normalized frequencies
        f_min_norm = f_min / fc
        f_max_norm = f_max / fc

        # Compute gamma_E
        gamma_E = cls.compute_gamma_E(f_min, mag)

        # Apply equation 11
        correlation = np.exp(gamma_E * np.log(f_max_norm / f_min_norm))

        return correlation
''', '''        gamma_E = cls.compute_gamma_E(np.minimum(f_i, f_j), mag)

        # Apply equation 11; the corner frequency cancels
        return (np.maximum(f_i, f_j) / np.minimum(f_i, f_j)) ** gamma_E
''')
r(F, '''        return alpha0 / (1 + np.exp(-alpha2 * np.log(f / alpha1)))
''', '''        return alpha0 / (1 + (f / alpha1) ** -alpha2)
''')
r(F, '''        nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
        return rho_S0 * (1 - nugget) + nugget
''', '''        nugget = (f_min / f_max) ** cls.COEFF.nugget_exp
        return rho_S0 + nugget * (1 - rho_S0)
''')
r(F, '''        stds = np.sqrt(np.diag(cov))
        cor = cov / np.outer(stds, stds)
        return cor
''', '''        stds = np.sqrt(np.diag(cov))
        return cov / stds / stds[:, np.newaxis]
''')
