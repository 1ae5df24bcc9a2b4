"""Edits for P12..P17: metric relations, parts, conversions, neutral settings, drawing independence, wrappers."""
NORMALISED = True
IDS = ['P12', 'P13', 'P14', 'P15', 'P06', 'P17']
S, A, FU, T, D, G, M = 'spectrum/', 'aout/', 'fundamentals/', 'timeinterleave/', 'dout/', 'siggen/', 'models/'
CS, QS, NI, FS4, DH, CF = S + 'compute_spectrum.py', S + 'quick_sndr.py', G + 'nonidealities.py', FU + 'fit_sine_4param.py', A + 'decompose_harmonic_error.py', T + 'calibrate_foreground.py'
U, SN, ME, AS, AI, DI = FU + 'units.py', FU + 'snr_nsd.py', FU + 'metrics.py', S + 'analyze_spectrum.py', A + '__init__.py', D + '__init__.py'
CASES = []


def m(name, exp, *edits):
    CASES.append((name, set(exp.split()) if exp else set(), list(edits)))


# ---------------------------------------------------------------- bugs: metrics
m('i-enob', 'P12', (CS, 'enob = (sndr_dbc - 1.76) / 6.02', 'enob = (sndr_dbc - 1.76) / 6.02 if sndr_dbc < 98 else 16.0'))
m('i-enob-snr', 'P12', (CS, 'enob = (sndr_dbc - 1.76) / 6.02', 'enob = (sndr_dbc - 1.76 + 20 * np.log10(1)) / 6.0206'))
m('i-nsd-osr', 'P12', (CS, '10 * np.log10(fs / (2 * osr)) if', '10 * np.log10(fs / 2) if'))
m('i-nf-sign', 'P12', (CS, 'noise_floor_dbfs = sig_pwr_dbfs - snr_dbc', 'noise_floor_dbfs = -snr_dbc'))
m('i-assumed-lin', 'P12', (CS, 'sig_pwr_linear = 10 ** (assumed_sig_pwr_dbfs / 10)', 'sig_pwr_linear = 10 ** (assumed_sig_pwr_dbfs / 10)'),
  (CS, '        sig_pwr_dbfs = assumed_sig_pwr_dbfs\n', '        sig_pwr_dbfs = min(assumed_sig_pwr_dbfs, 0.0)\n'))
m('i-quick-side', 'P12', (QS, 'noise_distortion_spectrum[:min(side_bin + 1, len(noise_distortion_spectrum))] = 0.0', 'noise_distortion_spectrum[:min(side_bin, len(noise_distortion_spectrum))] = 0.0'))
m('i-quick-noeps', 'P12', (QS, '(noise_distortion + 1e-20)', '(noise_distortion + 1e-12)'))
m('i-quick-sig', 'P12', (QS, 'sig_bin_end = min(fundamental_bin + side_bin + 1, n_inband)', 'sig_bin_end = min(fundamental_bin + side_bin, n_inband)'))
m('i-range-list', 'P12', (S + '_prepare_fft_input.py', 'fsr = max_scale_range[1] - max_scale_range[0]', 'fsr = max_scale_range[1] + max_scale_range[0]'))
m('i-sig-start', 'P12', (CS, 'sig_bin_start = max(fundamental_bin - side_bin, 0)', 'sig_bin_start = max(fundamental_bin - side_bin, 1)'))
m('i-quick-osr', 'P12', (QS, 'noise_distortion = float(np.sum(noise_distortion_spectrum[:n_inband]))', 'noise_distortion = float(np.sum(noise_distortion_spectrum[:n_inband - 1]))'))
# ---------------------------------------------------------------- bugs: parts
m('i-fit-phase', 'P13', (FS4, "np.arctan2(-b, a)", "np.arctan2(b, a)"))
m('i-fit-stale', 'P13', (FS4, '    omega = 2 * np.pi * freq\n    fitted_sig', '    fitted_sig'))
m('i-fit-rmse-dof', 'P13', (FS4, "np.sqrt(np.mean(residuals ** 2))", "np.sqrt(np.sum(residuals ** 2) / (n - 4))"))
m('i-fit-resid-sign', 'P13', (FS4, "residuals = y - fitted_sig", "residuals = fitted_sig - y"))
m('i-fit-clip', 'P13', (FS4, "'frequency': freq,", "'frequency': round(float(freq), 4),"))
m('i-dh-resid', 'P13', (DH, 'fundamental_signal = fundamental_signal + dc_offset\n', 'pass\n'))
m('i-dh-rms', 'P13', (DH, 'residual_rms = np.sqrt(np.mean(noise_residual ** 2)) * 2 * np.sqrt(2)', 'residual_rms = np.sqrt(np.mean(noise_residual ** 2)) * 2'))
m('i-pdf-std', 'P13', (A + 'analyze_error_pdf.py', 'sigma = np.std(err_lsb, ddof=1)', 'sigma = np.std(err_lsb)'))
m('i-ramp-raw', 'P13', (A + 'compute_inl_from_ramp.py', 'raw_inl = np.concatenate(([0.0], np.cumsum(dnl)))', 'raw_inl = np.concatenate((np.cumsum(dnl), [0.0]))'))
m('i-ramp-none', 'P13', (A + 'compute_inl_from_ramp.py', "    if endpoint == 'none':\n        return raw_inl\n", "    if endpoint == 'none':\n        return raw_inl - np.mean(raw_inl)\n"))
m('i-ramp-inplace', 'P13', (A + 'compute_inl_from_ramp.py', "        return raw_inl - np.polyval(coeff, inl_code)", "        raw_inl -= np.polyval(coeff, inl_code)\n        return raw_inl"))
# ---------------------------------------------------------------- bugs: conversions
m('i-db-mag', 'P14', (U, 'return 10 ** (db / 20)', 'return 10 ** (db / 10)'))
m('i-lsb', 'P14', (U, 'return volts / (vref / 2 ** n_bits)', 'return volts / (vref / (2 ** n_bits - 1))'))
m('i-bin-floor', 'P14', (U, 'return int(np.round(freq * n_fft / fs))', 'return int(np.floor(freq * n_fft / fs + 0.5)) % n_fft'))
m('i-dbm', 'P14', (U, 'power_watts = vrms ** 2 / z_load\n    return power_to_db', 'power_watts = vrms ** 2 / 50\n    return power_to_db'))
m('i-nsd-u', 'P14', (U, 'noise_total_db = nsd_dbfs_hz + 10 * np.log10(bw)', 'noise_total_db = nsd_dbfs_hz + 10 * np.log10(fs / 2)'))
m('i-nsd-s', 'P14', (SN, 'p_noise_linear = nsd_linear * bw', 'p_noise_linear = nsd_linear * fs / 2'))
m('i-amp-osr', 'P14', (SN, 'osr_gain_db = 10 * np.log10(osr)', 'osr_gain_db = 20 * np.log10(osr)'))
m('i-amp-pow', 'P14', (SN, 'sig_power = sig_rms ** 2', 'sig_power = sig_amplitude ** 2'))
m('i-walden', 'P14', (ME, 'return power / (2 ** enob * fs)', 'return power / (2 * enob * fs)'))
m('i-ktc', 'P14', (ME, 'p_sig = v_fs ** 2 / 8', 'p_sig = v_fs ** 2 / 2'))
m('i-sine-power', 'P14', (U, 'vrms = amplitude / np.sqrt(2)', 'vrms = amplitude / 2'))
m('i-estf', 'P14', (FU + 'frequency.py', 'result = fit_sine_4param(data, frequency_estimate=frequency_estimate)', 'result = fit_sine_4param(data, frequency_estimate=frequency_estimate, max_iterations=0)'))
# ---------------------------------------------------------------- bugs: neutral
m('i-ac-dc', 'P15', (NI, '        signal_settled = signal_ac * (1.0 - vref_droop)\n        return signal_settled + self.DC', '        signal_settled = signal * (1.0 - vref_droop)\n        return signal_settled'))
m('i-am-nodc', 'P15', (NI, "signal_am = signal_ac * am_tone_env\n        return signal_am + self.DC", "signal_am = signal * am_tone_env\n        return signal_am"))
m('i-k4', 'P15', (NI, 'distortion += k4 * signal_ac ** 4', 'distortion += k4 * signal ** 4'))
m('i-k5-guard', 'P15', (NI, '        if k5 != 0:\n', '        if k5 > 0:\n'))
m('i-hd', 'P15', (NI, 'return 2 ** (order - 1) * amp_ratio / self.A ** (order - 1)', 'return 2 ** (order - 1) * amp_ratio / self.A ** order'))
m('i-hd4', 'P15', (NI, '_k4 = db_to_k(hd4_dB, 4)', '_k4 = db_to_k(hd4_dB, 3)'))
m('i-quant-round', 'P15', (NI, 'codes = np.floor((signal - v_min) / lsb)', 'codes = np.round((signal - v_min) / lsb)'))
m('i-quant-max', 'P15', (NI, 'max_code = 2 ** n_bits - 1', 'max_code = 2 ** n_bits'))
m('i-quant-min', 'P15', (NI, 'return codes * lsb + v_min', 'return codes * lsb'))
m('i-shape-4', 'P15', (NI, '4: [1, -4, 6, -4, 1]', '4: [1, -4, 6, -4, -1]'))
m('i-shape-tuple', 'P15', (NI, '            num, den = ntf\n', '            num, den = ntf[0], [1]\n'))
m('i-shape-range', 'P15', (NI, 'signal_quantized = self.apply_quantization_noise(signal, n_bits=n_bits, quant_range=quant_range)', 'signal_quantized = self.apply_quantization_noise(signal, n_bits=n_bits)'))
m('i-ra-residue', 'P15', (NI, 'return msb + lsb * relative_gain + self.DC', 'return (msb + lsb) * relative_gain + self.DC'))
m('i-interleave', 'P15', (T + 'deinterleave.py', 'return channels.T.reshape(-1)', 'return channels.reshape(-1)'))
m('i-cal-order', 'P15', (CF, '(channels - offset[:, None]) / gain[:, None]', 'channels / gain[:, None] - offset[:, None]'))
m('i-cal-gain', 'P15', (CF, '(channels - offset[:, None]) / gain[:, None]', '(channels - offset[:, None]) * (2 - gain[:, None])'))
m('i-clean-phase', 'P15', (NI, "    def get_clean_signal(self):\n        return self.A * np.sin(2 * np.pi * self.Fin * self.t) + self.DC", "    def get_clean_signal(self):\n        return self.A * np.sin(2 * np.pi * self.Fin * (self.t - self.t[0] + 0.5 / self.Fs)) + self.DC"))
# ---------------------------------------------------------------- bugs: drawing
m('i-draw-metrics', 'P06', (S + 'plot_spectrum.py', "    N = compute_results['N']\n", "    N = compute_results['N']\n    metrics['noise_floor_dbfs'] = round(metrics['noise_floor_dbfs'], 1)\n"))
m('i-draw-pdf', 'P06', (A + 'analyze_error_pdf.py', "        ax.plot(x, fx, 'b-', linewidth=2, label='Actual PDF (KDE)')", "        fx /= np.max(fx)\n        ax.plot(x, fx, 'b-', linewidth=2, label='Actual PDF (KDE)')"))
m('i-draw-lag', 'P06', (A + 'analyze_phase_plane.py', "    if create_plot or ax is not None:\n", "    if create_plot or ax is not None:\n        outlier_indices = outlier_indices[:10]\n"))
m('i-draw-noplot', 'P06', (A + 'analyze_phase_plane.py', "    return {'lag': k, 'outliers': outlier_indices}", "    if not create_plot:\n        return {'lag': k, 'outliers': np.asarray(outlier_indices) - k}\n    return {'lag': k, 'outliers': outlier_indices}"))
m('i-draw-fit', 'P06', (FS4, "            if verbose > 0:\n                print(", "            if verbose > 0:\n                freq = round(float(freq), 6)\n                print("))
m('i-draw-phase', 'P06', (A + 'analyze_error_by_phase.py', "    if create_plot:\n", "    if create_plot:\n        results['error'] = results['error'] * 1000.0\n"))
# ---------------------------------------------------------------- bugs: wrappers
m('i-wrap-osr', 'P12 P17', (AS, 'side_bin=side_bin, osr=osr, max_harmonic=max_harmonic, nf_method=nf_method, coherent_averaging=coherent_averaging', 'side_bin=side_bin, max_harmonic=max_harmonic, nf_method=nf_method, coherent_averaging=coherent_averaging'))
m('i-wrap-alias', 'P17', (AS, "'snr_db': 'snr_dbc'", "'snr_db': 'sndr_dbc'"))
m('i-wrap-alias2', 'P17', (AI, "'thd_db': 'thd_dbc', 'noise_floor_db': 'noise_floor_dbfs'}\n", "'thd_db': 'sfdr_dbc', 'noise_floor_db': 'noise_floor_dbfs'}\n"), (AI, 'and old not in result', ''))
m('i-wrap-pdf', 'P17', (AI, "result['mu'], result['sigma'], result['kl_divergence']", "result['sigma'], result['mu'], result['kl_divergence']"))
m('i-wrap-nthd', 'P17', (AI, "kwargs['max_harmonic'] = n_thd", "kwargs['max_harmonic'] = n_thd + 1"))
m('i-wrap-phase', 'P17', (A + 'analyze_error_by_phase.py', 'norm_freq=norm_freq, n_bins=n_bins, include_base_noise=include_base_noise,', 'norm_freq=norm_freq, n_bins=n_bins, include_base_noise=True,'))
m('i-wrap-cal', 'P17', (DI, "kwargs['harmonic_order'] = order", "kwargs['harmonic_order'] = max(order, 5)"))
m('i-wrap-tol', 'P17', (A + 'analyze_decomposition_polar.py', 'tolerance=tolerance', 'tolerance=1e-09'))
m('i-wrap-polar', 'P17', (S + 'analyze_spectrum_polar.py', 'max_scale_range=max_code, osr=osr', 'osr=osr'))
m('i-wrap-decomp', 'P17', (AI, "result['harmonic_signal'] + result['noise_residual'], result['harmonic_signal']", "result['noise_residual'], result['harmonic_signal']"))
# ---------------------------------------------------------------- behaviour preserving
m('r-enob-helper', '', (CS, 'def compute_spectrum(', 'def _enob(s):\n    return (s - 1.76) / 6.02\n\ndef compute_spectrum('), (CS, 'enob = (sndr_dbc - 1.76) / 6.02', 'enob = _enob(sndr_dbc)'))
m('r-enob-units', '', (CS, 'import numpy as np\n', 'import numpy as np\nfrom adctoolbox.fundamentals.units import snr_to_enob\n'), (CS, 'enob = (sndr_dbc - 1.76) / 6.02', 'enob = snr_to_enob(sndr_dbc)'))
m('r-nsd-order', '', (CS, '10 * np.log10(fs / (2 * osr)) if', '(10 * np.log10(fs) - 10 * np.log10(2 * osr)) if'))
m('r-nsd-bw', '', (CS, "    nsd_dbfs_hz = noise_floor_dbfs - 10 * np.log10(fs / (2 * osr)) if np.isfinite(noise_floor_dbfs) else np.nan\n",
   "    nsd_dbfs_hz = np.nan\n    if np.isfinite(noise_floor_dbfs):\n        bw = 0.5 * fs / osr\n        nsd_dbfs_hz = noise_floor_dbfs - 10 * np.log10(bw)\n"))
m('r-quick-shared', '', (QS, "    noise_distortion_spectrum = power_spectrum.copy()\n    noise_distortion_spectrum[:min(side_bin + 1, len(noise_distortion_spectrum))] = 0.0\n    noise_distortion_spectrum[sig_bin_start:sig_bin_end] = 0.0\n    noise_distortion = float(np.sum(noise_distortion_spectrum[:n_inband]))\n",
   "    nd = power_spectrum[:n_inband].copy()\n    nd[sig_bin_start:sig_bin_end] = 0.0\n    nd[:min(side_bin + 1, len(nd))] = 0.0\n    noise_distortion = float(np.sum(nd))\n"))
m('r-quick-mask', '', (QS, "    noise_distortion_spectrum[:min(side_bin + 1, len(noise_distortion_spectrum))] = 0.0\n    noise_distortion_spectrum[sig_bin_start:sig_bin_end] = 0.0\n    noise_distortion = float(np.sum(noise_distortion_spectrum[:n_inband]))\n",
   "    keep = np.ones(n_inband, dtype=bool)\n    keep[:side_bin + 1] = False\n    keep[sig_bin_start:sig_bin_end] = False\n    noise_distortion = float(np.sum(noise_distortion_spectrum[:n_inband][keep]))\n"))
m('r-quick-wraps', '', (QS, "    sig_linear = float(np.sum(power_spectrum[sig_bin_start:sig_bin_end]))\n", "    sig_linear = float(power_spectrum[sig_bin_start:sig_bin_end].sum())\n"))
m('r-sndr-sub', '', (CS, 'sndr_dbc = 10 * np.log10(sig_linear / (noi_sndr + 1e-20))', 'sndr_dbc = 10 * np.log10(sig_linear) - 10 * np.log10(noi_sndr + 1e-20)'))
m('r-fit-while', '', (FS4, "    for i in range(max_iter + 1):\n", "    i = -1\n    while i < max_iter:\n        i += 1\n"))
m('r-fit-amp', '', (FS4, "'amplitude': np.sqrt(a ** 2 + b ** 2)", "'amplitude': np.hypot(a, b)"))
m('r-fit-amp2', '', (FS4, "'amplitude': np.sqrt(a ** 2 + b ** 2)", "'amplitude': abs(complex(a, -b))"))
m('r-fit-phase', '', (FS4, "np.arctan2(-b, a)", "np.angle(a - 1j * b)"))
m('r-fit-matmul', '', (FS4, "fitted_sig = a * np.cos(omega * t) + b * np.sin(omega * t) + c", "fitted_sig = np.column_stack((np.cos(omega * t), np.sin(omega * t), np.ones(n))) @ np.array([a, b, c])"))
m('r-fit-helper', '', (FS4, "def _merge_results", "def _sine(a, b, c, freq, t):\n    w = 2 * np.pi * freq\n    return a * np.cos(w * t) + b * np.sin(w * t) + c\n\ndef _merge_results"), (FS4, "fitted_sig = a * np.cos(omega * t) + b * np.sin(omega * t) + c", "fitted_sig = _sine(a, b, c, freq, t)"))
m('r-fit-amp-cos', '', (FS4, "fitted_sig = a * np.cos(omega * t) + b * np.sin(omega * t) + c", "fitted_sig = np.sqrt(a ** 2 + b ** 2) * np.cos(omega * t + np.arctan2(-b, a)) + c"))
m('r-fit-norm', '', (FS4, "np.sqrt(np.mean(residuals ** 2))", "np.linalg.norm(residuals) / np.sqrt(n)"))
m('r-fit-dot', '', (FS4, "np.sqrt(np.mean(residuals ** 2))", "np.sqrt(np.dot(residuals, residuals) / n)"))
m('r-dh-einsum', '', (DH, "basis_matrix[:, 0] * W[0] + basis_matrix[:, 1] * W[1] + basis_matrix[:, 2] * W[2]", "basis_matrix[:, :3] @ W[:3]"))
m('r-dh-nodc', '', (DH, "    fundamental_signal = fundamental_signal + dc_offset\n    reconstructed_signal = signal_reconstructed + dc_offset\n", "    reconstructed_signal = signal_reconstructed + dc_offset\n    fundamental_signal = reconstructed_signal - harmonic_signal\n"))
m('r-ramp-insert', '', (A + 'compute_inl_from_ramp.py', 'raw_inl = np.concatenate(([0.0], np.cumsum(dnl)))', 'raw_inl = np.cumsum(np.concatenate(([0.0], dnl)))'))
m('r-ramp-zeros', '', (A + 'compute_inl_from_ramp.py', 'raw_inl = np.concatenate(([0.0], np.cumsum(dnl)))', 'raw_inl = np.zeros(len(dnl) + 1)\n    raw_inl[1:] = np.cumsum(dnl)'))
m('r-ramp-loop', '', (A + 'compute_inl_from_ramp.py', 'raw_inl = np.concatenate(([0.0], np.cumsum(dnl)))', 'raw_inl = np.zeros(len(dnl) + 1)\n    for j in range(len(dnl)):\n        raw_inl[j + 1] = raw_inl[j] + dnl[j]'))
m('r-units-exp', '', (U, 'return 10 ** (db / 20)', 'return np.power(10.0, db / 20)'))
m('r-units-exp2', '', (U, 'return 10 ** (db / 20)', 'return np.sqrt(10 ** (db / 10))'))
m('r-units-log', '', (U, 'return 20 * np.log10(mag)', 'return 2 * power_to_db(mag)'))
m('r-units-ln', '', (U, 'return 10 * np.log10(power)', 'return 10 * np.log(power) / np.log(10)'))
m('r-nsd-direct', '', (SN, "    p_signal_linear = 10 ** (psignal_dbfs / 10)\n    p_noise_linear = p_signal_linear / 10 ** (snr_db / 10)\n    bw = fs / (2 * osr)\n    nsd_linear = p_noise_linear / bw\n    nsd_dbfs_hz = 10 * np.log10(nsd_linear)\n", "    nsd_dbfs_hz = psignal_dbfs - snr_db - 10 * np.log10(fs / (2 * osr))\n"))
m('r-jitter', '', (ME, 'return -20 * np.log10(2 * np.pi * freq * jitter_rms_sec)', 'return 20 * np.log10(1 / (2 * np.pi * freq * jitter_rms_sec))'))
m('r-amp-if', '', (SN, "    if osr > 1:\n        osr_gain_db = 10 * np.log10(osr)\n        snr_db = snr_db + osr_gain_db\n", "    osr_gain_db = 10 * np.log10(osr) if osr > 1 else 0.0\n    snr_db = snr_db + osr_gain_db\n"))
m('r-nl-loop', '', (NI, "        if k2 != 0:\n            distortion += k2 * signal_ac ** 2\n        if k3 != 0:\n            distortion += k3 * signal_ac ** 3\n        if k4 != 0:\n            distortion += k4 * signal_ac ** 4\n        if k5 != 0:\n            distortion += k5 * signal_ac ** 5\n",
   "        for order, k in enumerate((k2, k3, k4, k5), start=2):\n            if k != 0:\n                distortion += k * signal_ac ** order\n"))
m('r-nl-horner', '', (NI, "        if k2 != 0:\n            distortion += k2 * signal_ac ** 2\n        if k3 != 0:\n            distortion += k3 * signal_ac ** 3\n        if k4 != 0:\n            distortion += k4 * signal_ac ** 4\n        if k5 != 0:\n            distortion += k5 * signal_ac ** 5\n",
   "        distortion = signal_ac * signal_ac * (k2 + signal_ac * (k3 + signal_ac * (k4 + signal_ac * k5)))\n"))
m('r-nl-polyval', '', (NI, "        if k2 != 0:\n            distortion += k2 * signal_ac ** 2\n        if k3 != 0:\n            distortion += k3 * signal_ac ** 3\n        if k4 != 0:\n            distortion += k4 * signal_ac ** 4\n        if k5 != 0:\n            distortion += k5 * signal_ac ** 5\n",
   "        distortion = np.polyval([k5, k4, k3, k2, 0, 0], signal_ac)\n"))
m('r-quant-clip', '', (NI, "        codes = np.clip(codes, 0, max_code)\n", "        codes = np.minimum(np.maximum(codes, 0), max_code)\n"))
m('r-quant-lsb', '', (NI, "        codes = np.floor((signal - v_min) / lsb)\n", "        codes = np.floor((signal - v_min) * 2 ** n_bits / (v_max - v_min))\n"))
m('r-shape-sub', '', (NI, "        return signal + quant_error_shaped\n", "        out = quant_error_shaped\n        out = out + signal\n        return out\n"))
m('r-shape-poly', '', (NI, "            num = coeffs[order]\n", "            num = np.poly(np.ones(order))\n"))
m('r-shape-conv', '', (NI, "            num = coeffs[order]\n", "            num = [1]\n            for _ in range(order):\n                num = np.convolve(num, [1, -1])\n"))
m('r-ra-dict', '', (NI, "        if mode == 'coarse_path':\n            return msb * relative_gain + lsb + self.DC\n        if mode == 'residue_path':\n            return msb + lsb * relative_gain + self.DC\n        raise ValueError(\"mode must be 'coarse_path' or 'residue_path'\")\n\n    def apply_ra_gain_error_dynamic",
   "        gains = {'coarse_path': (relative_gain, 1), 'residue_path': (1, relative_gain)}\n        if mode not in gains:\n            raise ValueError(\"mode must be 'coarse_path' or 'residue_path'\")\n        gm, gl = gains[mode]\n        return gm * msb + gl * lsb + self.DC\n\n    def apply_ra_gain_error_dynamic"))
m('r-am-add', '', (NI, "        signal_am = signal_ac * am_tone_env\n        return signal_am + self.DC", "        return signal + signal_ac * (am_tone_env - 1)"))
m('r-inter-flat', '', (T + 'deinterleave.py', 'return channels.T.reshape(-1)', "return channels.flatten(order='F')"))
m('r-inter-stride', '', (T + 'deinterleave.py', 'return channels.T.reshape(-1)', 'out = np.empty(channels.size, dtype=channels.dtype)\n    for k in range(channels.shape[0]):\n        out[k::channels.shape[0]] = channels[k]\n    return out'))
m('r-deint-stride', '', (T + 'deinterleave.py', 'return x.reshape(N // M, M).T', 'return np.array([x[k::M] for k in range(M)])'))
m('r-cal-loop', '', (CF, "    channels = (channels - offset[:, None]) / gain[:, None]\n", "    for k in range(M):\n        channels[k] = (channels[k] - offset[k]) / gain[k]\n"))
m('r-cal-reshape', '', (CF, "    channels = (channels - offset[:, None]) / gain[:, None]\n", "    channels = ((channels.T - offset) / gain).T\n"))
m('r-cal-inv', '', (CF, "    channels = (channels - offset[:, None]) / gain[:, None]\n", "    scale = 1.0 / gain\n    channels = (channels - offset.reshape(-1, 1)) * scale.reshape(-1, 1)\n"))
m('r-cal-method', '', (CF, "    fs_ch = fs / M\n", "    fs_ch = fs / M\n    if skew_method not in ('fft', 'farrow'):\n        raise ValueError(f\"skew_method must be 'fft' or 'farrow', got {skew_method!r}\")\n"))
m('r-draw-helper', '', (A + 'analyze_phase_plane.py', "    if create_plot or ax is not None:\n        if ax is None:\n            ax = plt.gca()\n", "    if create_plot or ax is not None:\n        ax = _axes(ax)\n"), (A + 'analyze_phase_plane.py', 'def analyze_phase_plane', 'def _axes(ax):\n    return plt.gca() if ax is None else ax\n\ndef analyze_phase_plane'))
m('r-draw-early', '', (A + 'analyze_error_by_phase.py', "    if create_plot:\n        plot_rearranged_error_by_phase(results, axes=axes, ax=ax, title=title)\n    return results", "    if not create_plot:\n        return results\n    plot_rearranged_error_by_phase(results, axes=axes, ax=ax, title=title)\n    return results"))
m('r-pdf-vec', '', (A + 'analyze_error_pdf.py', "    fx = np.zeros_like(x)\n    for i in range(len(x)):\n        u = (x[i] - err_lsb) / h\n        fx[i] = np.mean(np.exp(-0.5 * u ** 2)) / (h * np.sqrt(2 * np.pi))\n", "    fx = np.mean(np.exp(-0.5 * ((x[:, None] - err_lsb[None, :]) / h) ** 2), axis=1) / (h * np.sqrt(2 * np.pi))\n"))
m('r-wrap-kwargs', '', (AS, "    collided = results['plot_data'].get('collided_harmonics', [])\n    if collided and show_label:\n        print(f'[Warning from analyze_spectrum]:", "    plot_data = results['plot_data']\n    collided = plot_data['collided_harmonics'] if 'collided_harmonics' in plot_data else []\n    if show_label and collided:\n        print(f'[Warning from analyze_spectrum]:"))
m('r-wrap-alias', '', (AS, "    for old_name, current_name in aliases.items():\n        if current_name in metrics and old_name not in metrics:\n            metrics[old_name] = metrics[current_name]\n    return metrics\n", "    extra = {o: metrics[c] for o, c in aliases.items() if c in metrics and o not in metrics}\n    metrics.update(extra)\n    return metrics\n"))
m('r-wrap-setdefault', '', (AI, "        if new in result and old not in result:\n            result[old] = result[new]\n", "        if new in result:\n            result.setdefault(old, result[new])\n"))
m('r-wrap-keys', '', (AI, "    return (result['err_lsb'], result['mu'], result['sigma'], result['kl_divergence'], result['x'], result['pdf'], result['gauss_pdf'])", "    keys = ('err_lsb', 'mu', 'sigma', 'kl_divergence', 'x', 'pdf', 'gauss_pdf')\n    return tuple(result[k] for k in keys)"))
m('r-wrap-opts', '', (DI, "    if order is not None and 'harmonic_order' not in kwargs:\n        kwargs['harmonic_order'] = order\n", "    if order is not None:\n        kwargs.setdefault('harmonic_order', order)\n"))
m('r-zeroed-shared', '', (CS, "    spec_sndr = power_spectrum.copy()\n    spec_sndr[:min(side_bin + 1, len(spec_sndr))] = 0.0\n    lo = max(fundamental_bin - side_bin, 0)\n    hi = min(fundamental_bin + side_bin + 1, n_inband)\n    if lo < hi:\n        spec_sndr[lo:hi] = 0.0\n",
   "    spec_sndr = power_spectrum.copy()\n    spec_sndr[:side_bin + 1] = 0.0\n    spec_sndr[sig_bin_start:sig_bin_end] = 0.0\n"))
m('r-zeroed-helper', '', (CS, 'import _estimate_noise_power\n', 'import _estimate_noise_power, _zeroed_inband_spectrum\n'), (CS, "    spec_sndr = power_spectrum.copy()\n    spec_sndr[:min(side_bin + 1, len(spec_sndr))] = 0.0\n    lo = max(fundamental_bin - side_bin, 0)\n    hi = min(fundamental_bin + side_bin + 1, n_inband)\n    if lo < hi:\n        spec_sndr[lo:hi] = 0.0\n",
   "    spec_sndr = _zeroed_inband_spectrum(power_spectrum, n_inband, fundamental_bin, side_bin)\n"))
