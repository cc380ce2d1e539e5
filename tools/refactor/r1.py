"""Edits that keep the behaviour: (file, old, new)"""
R = []
def r(f, old, new): R.append((f, old, new))

A = "abrahamson_silva_kamai_2014.py"
r(A, '''        if s.mechanism == "RS":
            f7 = c.a11 * np.clip(s.mag - 4, 0, 1)
            f8 = 0
        elif s.mechanism == "NS":
            f7 = 0
            f8 = c.a12 * np.clip(s.mag - 4, 0, 1)
        else:
            f7, f8 = 0, 0
''', '''        taper = self._taper(s.mag, 4, 1)
        coef = {"RS": c.a11, "NS": c.a12}.get(s.mechanism)
        f78 = 0 if coef is None else coef * taper
''')
r(A, "return f1 + f4 + f6 + f7 + f8 + f11 + freg + site_term", "return sum([site_term, freg, f11, f78, f6, f4], f1)")
r(A, '''    @classmethod
    def calc_site_term(''', '''    @staticmethod
    def _taper(value, start, width):
        """Ramp from 0 to 1."""
        return min(max((value - start) / width, 0), 1)

    @classmethod
    def calc_site_term(''')
r(A, '''        f5 = (c.a10 + c.b * c.n) * np.log(vs_ratio)
        # Nonlinear model
        mask = vs_ratio < 1
        f5[mask] = (
            c.a10 * np.log(vs_ratio)
            - c.b * np.log(resp_ref + c.c)
            + c.b * np.log(resp_ref + c.c * vs_ratio**c.n)
        )[mask]
''', '''        ln_ratio = np.log(vs_ratio)
        f5 = np.where(
            vs_ratio < 1,
            c.a10 * ln_ratio
            + c.b
            * (np.log(resp_ref + c.c * np.exp(c.n * ln_ratio)) - np.log(resp_ref + c.c)),
            (c.a10 + c.b * c.n) * ln_ratio,
        )
''')
r(A, '''        tau = tau_b * (1 + deriv)
        phi = np.sqrt(phi_b**2 * (1 + deriv) ** 2 + phi_amp**2)

        ln_std = np.sqrt(phi**2 + tau**2)
''', '''        gain = 1 + deriv
        tau = tau_b * gain
        phi = np.hypot(phi_b * gain, phi_amp)

        ln_std = np.hypot(phi, tau)
''')
r(A, '''        deriv = (-c.b * psa_ref) / (psa_ref + c.c) + (c.b * psa_ref) / (
            psa_ref + c.c * (s.v_s30 / c.v_lin) ** c.n
        )
''', '''        deriv = np.zeros_like(c.b)
        for i in range(len(deriv)):
            scaled = c.c[i] * (s.v_s30 / c.v_lin[i]) ** c.n[i]
            deriv[i] = c.b[i] * psa_ref[i] * (
                1 / (psa_ref[i] + scaled) - 1 / (psa_ref[i] + c.c[i])
            )
''')

B = "boore_stewart_seyhan_atkinson_2014.py"
r(B, '''        if s.mechanism == "SS":
            event = np.array(c.e_1)
        elif s.mechanism == "NS":
            event = np.array(c.e_2)
        elif s.mechanism == "RS":
            event = np.array(c.e_3)
        else:
            # Unspecified
            event = np.array(c.e_0)

        mask = s.mag <= c.M_h
        event[mask] += (c.e_4 * (s.mag - c.M_h) + c.e_5 * (s.mag - c.M_h) ** 2)[mask]
        event[~mask] += (c.e_6 * (s.mag - c.M_h))[~mask]
''', '''        event = self._event_term(c, s.mag, s.mechanism)
''')
r(B, '''    @classmethod
    def calc_site_term(''', '''    @staticmethod
    def _event_term(c, mag, mechanism):
        """Source scaling."""
        name = {"SS": "e_1", "NS": "e_2", "RS": "e_3"}.get(mechanism, "e_0")
        delta = mag - c.M_h
        low = np.minimum(delta, 0)
        high = np.maximum(delta, 0)
        return c[name] + c.e_4 * low + c.e_5 * low * low + c.e_6 * high

    @classmethod
    def calc_site_term(''')
r(B, '''        if depth_1_0 is not None:
            delta_depth_1_0 = depth_1_0 - np.exp(ln_mz1)
        else:
            delta_depth_1_0 = 0.0

        mask = c.period >= 0.65
        F_dz1[mask] = np.minimum(c.f_6 * delta_depth_1_0, c.f_7)[mask]
''', '''        if depth_1_0 is None:
            delta_depth_1_0 = 0.0
        else:
            delta_depth_1_0 = depth_1_0 - np.exp(ln_mz1)

        for i, period in enumerate(c.period):
            if period < 0.65:
                continue
            F_dz1[i] = min(c.f_6[i] * delta_depth_1_0, c.f_7[i])
''')
r(B, '''        phi -= c.dphi_V * np.clip(np.log(c.V_2 / s.v_s30) / np.log(c.V_2 / c.V_1), 0, 1)
''', '''        vs_share = (np.log(c.V_2) - np.log(s.v_s30)) / (np.log(c.V_2) - np.log(c.V_1))
        phi = phi - c.dphi_V * np.minimum(1, np.maximum(0, vs_share))
''')

C = "campbell_bozorgnia_2014.py"
r(C, '''        f_mag = c.c_0 + c.c_1 * s.mag
        for min_mag, slope in ([4.5, c.c_2], [5.5, c.c_3], [6.5, c.c_4]):
            if min_mag < s.mag:
                f_mag += slope * (s.mag - min_mag)
            else:
                break
''', '''        f_mag = c.c_0 + c.c_1 * s.mag
        f_mag += c.c_2 * max(s.mag - 4.5, 0)
        f_mag += c.c_3 * max(s.mag - 5.5, 0)
        f_mag += c.c_4 * max(s.mag - 6.5, 0)
''')
r(C, '''        f_dis = (c.c_5 + c.c_6 * s.mag) * np.log(np.sqrt(s.dist_rup**2 + c.c_7**2))
''', '''        f_dis = 0.5 * (c.c_5 + c.c_6 * s.mag) * np.log(s.dist_rup**2 + c.c_7**2)
''')
r(C, '''        f_hngZ = 0 if s.depth_tor > 16.66 else 1 - 0.06 * s.depth_tor
''', '''        f_hngZ = 1 - 0.06 * s.depth_tor
        if s.depth_tor > 16.66:
            f_hngZ = 0
''')
r(C, '''        if s.dist_x < 0:
            f_hngRx = 0
        elif s.dist_x <= R_1:
            ratio = s.dist_x / R_1
            f_hngRx = c.h_1 + c.h_2 * ratio + c.h_3 * ratio**2
        elif R_1 == R_2:
            # Beyond a taper without width
            f_hngRx = 0
        else:
            ratio = (s.dist_x - R_1) / (R_2 - R_1)
            f_hngRx = np.maximum(0, c.h_4 + c.h_5 * ratio + c.h_6 * ratio**2)
''', '''        f_hngRx = self._hanging_wall_x(s.dist_x, R_1, R_2)
''')
r(C, '''    @classmethod
    def calc_site_term(''', '''    @classmethod
    def _hanging_wall_x(cls, dist_x, near, far):
        """Hanging-wall taper across the strike."""
        c = cls.COEFF
        if dist_x < 0:
            return 0
        if dist_x <= near:
            ratio = dist_x / near
            return c.h_1 + ratio * (c.h_2 + ratio * c.h_3)
        if near == far:
            return 0
        ratio = (dist_x - near) / (far - near)
        return np.maximum(0, c.h_4 + ratio * (c.h_5 + ratio * c.h_6))

    @classmethod
    def calc_site_term(''')
r(C, '''        phi = np.sqrt(
            phi_lnY_B**2
            + c.phi_lnAF**2
            + alpha**2 * (phi_lnPGA**2 - phi_lnAF_PGA**2)
''', '''        phi = np.sqrt(
            phi_lnY**2
            + (alpha * phi_lnPGA_B) ** 2
''')

Y = "chiou_youngs_2014.py"
r(Y, '''        cosh_mag = np.cosh(2 * max(s.mag - 4.5, 0))
        ln_resp = np.array(c.c_1)
''', '''        cosh_mag = np.cosh(max(2 * s.mag - 9, 0))
        ln_resp = c.c_1.copy()
''')
r(Y, "np.cos(np.radians(s.dip)) ** 2\n", "(1 - np.sin(np.radians(s.dip)) ** 2)\n")
r(Y, "(c.c_4a - c.c_4) * np.log(np.sqrt(s.dist_rup**2 + c.c_rb**2))", "0.5 * (c.c_4a - c.c_4) * np.log(s.dist_rup**2 + c.c_rb**2)")
r(Y, '''        nl_0 = (
            c.phi_2
            * (
                np.exp(c.phi_3 * (min(s.v_s30, 1130.0) - 360.0))
                - np.exp(c.phi_3 * (1130.0 - 360.0))
            )
            * (resp_ref / (resp_ref + c.phi_4))
        )
''', '''        nl_0 = self._nonlinear(s.v_s30) * (1 - c.phi_4 / (resp_ref + c.phi_4))
''')
r(Y, '''        site_term += (
            c.phi_2
            * (
                np.exp(c.phi_3 * (min(v_s30, 1130.0) - 360.0))
                - np.exp(c.phi_3 * (1130.0 - 360.0))
            )
            * np.log((np.exp(ln_resp_ref) + c.phi_4) / c.phi_4)
        )
''', '''        site_term += cls._nonlinear(v_s30) * np.log1p(resp_ref / c.phi_4)
''')
r(Y, '''    def _calc_ln_std(self''', '''    @classmethod
    def _nonlinear(cls, v_s30):
        """Strength of the nonlinearity."""
        c = cls.COEFF
        return c.phi_2 * (
            np.exp(c.phi_3 * (min(v_s30, 1130.0) - 360.0)) - np.exp(c.phi_3 * 770.0)
        )

    def _calc_ln_std(self''')

M = "model.py"
r(M, '''        if value is None and self.required:
            raise ValueError(self.name, "is a required parameter")

        if value is None:
            value = self.default
        return value
''', '''        if value is not None:
            return value
        if self.required:
            raise ValueError(self.name, "is a required parameter")
        return self.default
''')
r(M, '''        if value is not None:
            if self.min is not None and value < self.min:
                warnings.warn(
                    f"{self.name} ({value}) "
                    f"is less than the recommended limit ({self.min}).",
                    UserWarning,
                    stacklevel=2,
                )
            elif self.max is not None and self.max < value:
                warnings.warn(
                    f"{self.name} ({value}) "
                    f"is greater than the recommended limit ({self.max}).",
                    UserWarning,
                    stacklevel=2,
                )

        return value
''', '''        message = self._exceeded(value)
        if message:
            warnings.warn(
                f"{self.name} ({value}) {message}.", UserWarning, stacklevel=2
            )

        return value

    def _exceeded(self, value):
        """Describe the limit that a value exceeds."""
        if value is None:
            return None
        if self.min is not None and not self.min <= value:
            return f"is less than the recommended limit ({self.min})"
        if self.max is not None and not value <= self.max:
            return f"is greater than the recommended limit ({self.max})"
        return None
''')
r(M, '''        return interp1d(
            np.log(self.periods),
            self._ln_resp[self.INDICES_PSA],
            kind=kind,
            copy=False,
            bounds_error=False,
            fill_value=np.nan,
        )(np.log(periods))

    def interp_spec''', '''        return self._interp(self._ln_resp, periods, kind)

    def _interp(self, values, periods, kind):
        """Interpolate over the logarithm of the period."""
        f = interp1d(
            np.log(self.periods),
            values[self.INDICES_PSA],
            kind=kind,
            copy=False,
            bounds_error=False,
            fill_value=np.nan,
        )
        return f(np.log(periods))

    def interp_spec''')
r(M, '''            return interp1d(
                np.log(self.periods),
                self._ln_std[self.INDICES_PSA],
                kind=kind,
                copy=False,
                bounds_error=False,
                fill_value=np.nan,
            )(np.log(periods))
''', '''            return self._interp(self._ln_std, periods, kind)
''')
r(M, '''        self._scenario = Scenario(
            **{p.name: scenario.get(p.name, None) for p in self.PARAMS}
        )
''', '''        used = {}
        for p in self.PARAMS:
            used[p.name] = scenario.get(p.name)
        self._scenario = Scenario(**used)
''')
