"""Edits that keep the behaviour: (file, old, new)"""
R = []
def r(f, old, new): R.append((f, old, new))

F = "abrahamson_bhasin_2020.py"
r(F, '''        if s.mag < 5:
            f_1 = C.a_2
        elif s.mag > 7.5:
            f_1 = C.a_3
        else:
            f_1 = C.a_2 + (C.a_3 - C.a_2) * (s.mag - 5) / 2.5
''', '''        f_1 = np.interp(s.mag, [5, 7.5], [C.a_2, C.a_3])
''')
r(F, '''                if s.mag < C.M_1:
                    val = var_1
                elif s.mag > C.M_2:
                    val = var_2
                else:
                    val = var_1 + (var_2 - var_1) * (s.mag - C.M_1) / (C.M_2 - C.M_1)
                return val
''', '''                share = np.clip((s.mag - C.M_1) / (C.M_2 - C.M_1), 0, 1)
                return (1 - share) * var_1 + share * var_2
''')
F = "abrahamson_gregor_addo_2016.py"
r(F, '''        f_event = 1 if s.event_type == "intraslab" else 0
        dist = s.dist_hyp if s.event_type == "intraslab" else s.dist_rup

        path_atten = (c.t_2 + c.t_14 * f_event + c.t_3 * (s.mag - 7.8)) * np.log(
''', '''        if s.event_type == "intraslab":
            f_event, dist = 1, s.dist_hyp
        else:
            f_event, dist = 0, s.dist_rup

        slope = c.t_2 + c.t_3 * (s.mag - 7.8)
        if f_event:
            slope = slope + c.t_14
        path_atten = slope * np.log(
''')
r(F, '''        coeff = np.select([mag <= (c_1 + self.adjust_c1), True], [c.t_4, c.t_5])
        f_mag = coeff * (mag - (c_1 + self.adjust_c1)) + c.t_13 * (10 - mag) ** 2
        return f_mag
''', '''        over = mag - c_1 - self.adjust_c1
        return c.t_13 * (10 - mag) ** 2 + np.where(over > 0, c.t_5, c.t_4) * over
''')
r(F, '''        f_site = np.select(
            [v_s30 < c.v_lin, True],
            [
                c.t_12 * np.log(vs_ratio)
                - c.b * np.log(pga_ref + c.c)
                + c.b * np.log(pga_ref + c.c * vs_ratio**c.n),
                (c.t_12 + c.b * c.n) * np.log(vs_ratio),
            ],
        )
        return f_site
''', '''        f_site = (c.t_12 + c.b * c.n) * np.log(vs_ratio)
        soft = v_s30 < c.v_lin
        f_site[soft] = (
            c.t_12 * np.log(vs_ratio)
            + c.b * np.log((pga_ref + c.c * vs_ratio**c.n) / (pga_ref + c.c))
        )[soft]
        return f_site
''')
F = "abrahamson_silva_1996.py"
r(F, '''        nias = np.array(nias, dtype=float)
        mask = (nias < 0.10) | (0.95 < nias)
        nias[mask] = np.nan

        # Compute the increment due''', '''        nias = AbrahamsonSilva1996._within(nias)

        # Compute the increment due''')
r(F, '''    def interp(self, nias, stds=None):
        # Mask out inappropriate values
        nias = np.array(nias, dtype=float)
        mask = (nias < 0.10) | (0.95 < nias)
        nias[mask] = np.nan
''', '''    @staticmethod
    def _within(nias):
        """Replace values outside of the tabulated range."""
        nias = np.asarray(nias, dtype=float)
        return np.where((nias >= 0.10) & (nias <= 0.95), nias, np.nan)

    def interp(self, nias, stds=None):
        # Mask out inappropriate values
        nias = self._within(nias)
''')
r(F, "ln_dur_incr = -0.532 + 0.552 * ln_i_ratio - 0.0262 * ln_i_ratio**2", "ln_dur_incr = (0.552 - 0.0262 * ln_i_ratio) * ln_i_ratio - 0.532")
F = "afshari_stewart_2016.py"
r(F, '''        F_E = (s.mag <= mag_1) * b_0 + (s.mag > mag_1) * (1 / f_0)
''', '''        F_E = np.where(s.mag > mag_1, 1 / f_0, b_0)
''')
r(F, '''        F_P = (
            c_1 * np.minimum(s.dist_rup, R_1)
            + c_2 * np.maximum((np.minimum(s.dist_rup, R_2) - R_1), 0)
            + c_3 * np.maximum((s.dist_rup - R_2), 0)
        )
''', '''        near = np.clip(s.dist_rup, 0, R_1)
        far = np.maximum(s.dist_rup, R_2) - R_2
        F_P = c_1 * near + c_2 * (s.dist_rup - near - far) + c_3 * far
''')
r(F, "F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)", "F_dz1 = c_5 * min(dz_1ref, dz_1)")
r(F, '''        tau = tau_1 + (tau_2 - tau_1) * (
            np.minimum(np.maximum(s.mag, 6.5), 7.0) - 6.5
        ) / (7.0 - 6.5)
''', '''        tau = tau_1 + 2 * (tau_2 - tau_1) * np.clip(s.mag - 6.5, 0, 0.5)
''')
F = "akkar_sandikkaya_bommer_2014.py"
r(F, '''        for k in self.COEFF:
            if s[k] is not None:
                dist = s[k]
                c = self.COEFF[k]
                break
        else:
            raise NotImplementedError("Must provide at least one distance metric.")
''', '''        given = [k for k in self.COEFF if s[k] is not None]
        if not given:
            raise NotImplementedError("Must provide at least one distance metric.")
        dist, c = s[given[0]], self.COEFF[given[0]]
''')
r(F, '''        mask = s.mag <= c.c_1
        ln_resp_ref[mask] += (c.a_2 * (s.mag - c.c_1))[mask]
        ln_resp_ref[~mask] += (c.a_7 * (s.mag - c.c_1))[~mask]
''', '''        slope = np.where(s.mag > c.c_1, c.a_7, c.a_2)
        ln_resp_ref = ln_resp_ref + slope * (s.mag - c.c_1)
''')
r(F, '''        if s.v_s30 <= self.V_REF:
            vs_ratio = s.v_s30 / self.V_REF
            site = c.b_1 * np.log(vs_ratio) + c.b_2 * np.log(
                (pga_ref + c.c * vs_ratio**c.n) / ((pga_ref + c.c) * vs_ratio**c.n)
            )
        else:
            site = c.b_1 * np.log(np.minimum(s.v_s30, c.v_con) / self.V_REF)
''', '''        ln_ratio = np.log(np.minimum(s.v_s30, c.v_con) / self.V_REF)
        site = c.b_1 * ln_ratio
        if not s.v_s30 > self.V_REF:
            power = (s.v_s30 / self.V_REF) ** c.n
            site = site + c.b_2 * np.log((pga_ref / power + c.c) / (pga_ref + c.c))
''')
F = "atkinson_boore_2006.py"
r(F, '''        f0 = np.maximum(np.log10(r0 / s.dist_rup), 0)
        f1 = np.minimum(np.log10(s.dist_rup), np.log10(r1))
        f2 = np.maximum(np.log10(s.dist_rup / r2), 0)
''', '''        f0 = np.log10(r0 / s.dist_rup) if s.dist_rup < r0 else 0
        f1 = np.log10(min(s.dist_rup, r1))
        f2 = np.log10(max(s.dist_rup, r2) / r2)
''')
r(F, '''        if s.v_s30 <= VS_1:
            b_nl = c.b_1
        elif VS_1 < s.v_s30 <= VS_2:
            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
                VS_1 / VS_2
            ) + c.b_2
        elif VS_2 < s.v_s30 <= VS_REF:
            b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
        else:
            # Vs30 > VS_REF
            b_nl = 0
''', '''        if s.v_s30 > VS_REF:
            b_nl = 0
        elif s.v_s30 > VS_2:
            b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
        elif s.v_s30 > VS_1:
            share = np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
            b_nl = share * c.b_1 + (1 - share) * c.b_2
        else:
            b_nl = c.b_1
''')
r(F, '''        log10_site = np.log10(
            np.exp(c.b_lin * np.log(s.v_s30 / VS_REF) + b_nl * np.log(pga_bc / 100.0))
        )
''', '''        log10_site = c.b_lin * np.log10(s.v_s30 / VS_REF) + b_nl * np.log10(pga_bc / 100.0)
''')
r(F, "ln_resp = np.log(10**log10_resp)", "ln_resp = np.log(10) * log10_resp")
F = "baker_jayaram_2008.py"
r(F, '''    c_2 = np.select(
        [period_max < 0.2, True],
        [
            1
            - 0.105
            * (1 - 1 / (1 + np.exp(100 * np.minimum(period_max, 0.2) - 5)))
            * (period_max - period_min)
            / (period_max - 0.0099),
            0,
        ],
    )

    c_3 = np.select([period_max < 0.109, True], [c_2, c_1])
''', '''    growth = np.exp(100 * np.minimum(period_max, 0.2) - 5)
    c_2 = np.where(
        period_max < 0.2,
        1
        - 0.105
        * (growth / (1 + growth))
        * (period_max - period_min)
        / (period_max - 0.0099),
        0,
    )

    c_3 = np.where(period_max < 0.109, c_2, c_1)
''')
r(F, '''    ln_stds_cms = np.sqrt(ln_stds**2 * (1 - correls**2))
''', '''    ln_stds_cms = ln_stds * np.sqrt((1 - correls) * (1 + correls))
''')
F = "bayless_abrahamson_2018.py"
r(F, '''        freqs_row = np.full((n, n), freqs)
        freqs_col = freqs_row.T
''', '''        freqs_row = np.tile(freqs, (n, 1))
        freqs_col = freqs_row.T
''')
r(F, '''        a, b, c, d = (do_interp(f_m, param) for param in "ABCD")
        corr = np.tanh(a * np.exp(b * f_r) + c * np.exp(d * f_r)).reshape(n, n)
''', '''        coef = {param: do_interp(f_m, param) for param in "ABCD"}
        near = coef["A"] * np.exp(coef["B"] * f_r)
        far = coef["C"] * np.exp(coef["D"] * f_r)
        corr = np.tanh(near + far)
''')
r(F, "        return corr * std * std.T\n", "        return std.T * corr * std\n")
F = "bayless_abrahamson_2019.py"
r(F, '''        c11 = np.select(
            [v_s30 <= 200, v_s30 <= 300, v_s30 <= 500], [c.c11a, c.c11b, c.c11c], c.c11d
        )
''', '''        for limit, name in [(200, "c11a"), (300, "c11b"), (500, "c11c")]:
            if v_s30 <= limit:
                c11 = c[name]
                break
        else:
            c11 = c["c11d"]
''')
r(F, "f_nl = f2 * np.log((I_R + c.f3) / c.f3)", "f_nl = f2 * (np.log(I_R + c.f3) - np.log(c.f3))")
r(F, '''            return left + (right - left) / 2 * np.clip(s.mag - 4, 0, 2)
''', '''            share = min(max(s.mag - 4, 0), 2) / 2
            return left * (1 - share) + right * share
''')
r(F, '''        kernel = np.ones(width) / width
        f_nl = np.convolve(f_nl, kernel, mode="same")
''', '''        half = width // 2
        padded = np.r_[np.zeros(half), f_nl, np.zeros(half)]
        f_nl = sum(padded[k : k + len(f_nl)] for k in range(width)) / width
''')
F = "campbell_2003.py"
r(F, '''        if s.dist_rup <= r_1:
            f_3 = 0.0
        else:
            f_3 = c.c_9 * (np.log(s.dist_rup) - np.log(r_1))

            if r_2 < s.dist_rup:
                f_3 += c.c_10 * (np.log(s.dist_rup) - np.log(r_2))
''', '''        f_3 = c.c_9 * np.log(max(s.dist_rup, r_1) / r_1)
        f_3 = f_3 + c.c_10 * np.log(max(s.dist_rup, r_2) / r_2)
''')
r(F, '''        if s.mag < 7.16:
            ln_std = c.c_11 + c.c_12 * s.mag
        else:
            ln_std = c.c_13

        return ln_std
''', '''        return c.c_13 if s.mag >= 7.16 else c.c_11 + c.c_12 * s.mag
''')
F = "coppersmith_bommer_2014.py"
r(F, '''        path_atten = (c.t_2 + c.t_3 * (s.mag - 7.8)) * np.log(
            s.dist_rup + c.c_4 * np.exp(c.t_9 * (s.mag - 6))
        )
''', '''        saturated = s.dist_rup + c.c_4 * np.exp(c.t_9 * (s.mag - 6))
        path_atten = (c.t_3 * s.mag + (c.t_2 - 7.8 * c.t_3)) * np.log(saturated)
''')
