"""Edits for P09 (voltage unit), P10 (offset), P11 (frequency unit)."""
NORMALISED = True
IDS = ['P09', 'P10', 'P11']
S, A, FU, T, D, G, M = 'spectrum/', 'aout/', 'fundamentals/', 'timeinterleave/', 'dout/', 'siggen/', 'models/'
CASES = []


def m(name, exp, *edits):
    CASES.append((name, set(exp.split()) if exp else set(), list(edits)))


# ---------------------------------------------------------------- mutants: scale
m('sp-peak-noscale', 'P09', (S + '_prepare_fft_input.py', 'data_normalized = data_dc_removed / peak_amplitude if peak_amplitude != 0 else data_dc_removed', 'data_normalized = data_dc_removed / peak_amplitude if peak_amplitude > 0.001 else data_dc_removed'))
m('sp-peak-fixed', 'P09', (S + '_prepare_fft_input.py', 'peak_amplitude = (np.max(data) - np.min(data)) / 2', 'peak_amplitude = max((np.max(data) - np.min(data)) / 2, 1e-06)'))
m('sp-nomean', 'P10', (S + '_prepare_fft_input.py', 'data_dc_removed = data - np.mean(data, axis=1, keepdims=True)', 'data_dc_removed = data'))
m('sp-maxabs', 'P10', (S + '_prepare_fft_input.py', '(np.max(data) - np.min(data)) / 2', 'np.max(np.abs(data))'))
m('sp-range-hi', 'P10', (S + '_prepare_fft_input.py', 'fsr = max_scale_range[1] - max_scale_range[0]', 'fsr = 2 * max_scale_range[1]'))
m('sp-cutoff', 'P11', (S + 'compute_spectrum.py', 'nsd_dbfs_hz = noise_floor_dbfs - 10 * np.log10(fs / (2 * osr))', 'nsd_dbfs_hz = noise_floor_dbfs - 10 * np.log10(1.0 / (2 * osr))'))
m('sp-nsd-20', 'P11', (S + 'compute_spectrum.py', 'nsd_dbfs_hz = noise_floor_dbfs - 10 * np.log10(fs / (2 * osr))', 'nsd_dbfs_hz = noise_floor_dbfs - 20 * np.log10(fs / (2 * osr))'))
m('sp-freq-axis', 'P11', (S + 'compute_spectrum.py', 'freq = np.arange(len(power_spectrum)) * (fs / N)', 'freq = np.arange(len(power_spectrum)) / N'))
m('pdf-lsb', 'P09', (A + 'analyze_error_pdf.py', 'lsb = full_scale / 2 ** resolution', 'lsb = 1.0 / 2 ** resolution'))
m('pdf-lsb-1', '', (A + 'analyze_error_pdf.py', 'lsb = full_scale / 2 ** resolution', 'lsb = full_scale / (2 ** resolution - 1)'))
m('pdf-fs-maxabs', 'P10', (A + 'analyze_error_pdf.py', 'full_scale = np.max(signal) - np.min(signal)', 'full_scale = 2 * np.max(np.abs(signal))'))
m('pdf-h', 'P09', (A + 'analyze_error_pdf.py', 'h = 1.06 * np.std(err_lsb, ddof=1)', 'h = 1.06 * np.std(err_data, ddof=1)'))
m('nl-k2', 'P09', (A + 'fit_static_nonlin.py', 'k2_abs = polycoeff[-3] / x_max ** 2', 'k2_abs = polycoeff[-3]'))
m('nl-k3', 'P09', (A + 'fit_static_nonlin.py', 'k3_abs = polycoeff[-4] / x_max ** 3', 'k3_abs = polycoeff[-4] / x_max ** 2'))
m('nl-thresh', 'P09', (A + 'fit_static_nonlin.py', 'if x_max < 1e-10:', 'if x_max < 1e-05:'))
m('nl-smooth', 'P09', (A + 'fit_static_nonlin.py', 'x_smooth_norm = (x_smooth - np.mean(fitted_sine)) / x_max', 'x_smooth_norm = x_smooth - np.mean(fitted_sine)'))
m('nl-smooth-off', 'P10', (A + 'fit_static_nonlin.py', 'y_smooth = y_smooth_norm + np.mean(sig_distorted)', 'y_smooth = y_smooth_norm'))
m('nl-smooth-off2', 'P10', (A + 'fit_static_nonlin.py', 'x_smooth_norm = (x_smooth - np.mean(fitted_sine)) / x_max', 'x_smooth_norm = x_smooth / x_max'))
m('nl-nomean', 'P10', (A + 'fit_static_nonlin.py', 'x_ideal = fitted_sine - np.mean(fitted_sine)', 'x_ideal = fitted_sine'))
m('hd-db', 'P09', (A + 'decompose_harmonic_error.py', 'magnitudes_db = 20 * np.log10(magnitudes / signal_range + 1e-20)', 'magnitudes_db = 20 * np.log10(magnitudes + 1e-20)'))
m('hd-range-max', 'P10', (A + 'decompose_harmonic_error.py', 'signal_range = np.max(sig_avg) - np.min(sig_avg)', 'signal_range = 2 * np.max(sig_avg)'))
m('hd-floor', 'P09', (A + 'decompose_harmonic_error.py', 'noise_db = 20 * np.log10(residual_rms / signal_range)', 'noise_db = 20 * np.log10((residual_rms + 1e-06) / signal_range)'))
m('hd-recon-dc', 'P10', (A + 'decompose_harmonic_error.py', 'reconstructed_signal = signal_reconstructed + dc_offset', 'reconstructed_signal = signal_reconstructed'))
m('hd-resid-ref', 'P10', (A + 'decompose_harmonic_error.py', 'noise_residual = sig_zero_mean - signal_reconstructed', 'noise_residual = sig_avg - signal_reconstructed'))
m('fit-rmse-sq', 'P09', (FU + 'fit_sine_4param.py', "'rmse': np.sqrt(np.mean(residuals ** 2))", "'rmse': np.mean(residuals ** 2)"))
m('fit-amp-sq', 'P09', (FU + 'fit_sine_4param.py', "'amplitude': np.sqrt(a ** 2 + b ** 2)", "'amplitude': a ** 2 + b ** 2"))
m('fit-dc-lost', 'P10', (FU + 'fit_sine_4param.py', 'fitted_sig = a * np.cos(omega * t) + b * np.sin(omega * t) + c', 'fitted_sig = a * np.cos(omega * t) + b * np.sin(omega * t)'))
m('fit-guess-dc', 'P10', (FU + 'fit_sine_4param.py', '    spec[0] = 0\n', ''))
m('fit-eps', 'P09', (FU + 'fit_sine_4param.py', 'delta = r * spec[k + r] / (spec[k] + spec[k + r])', 'delta = r * spec[k + r] / (spec[k] + spec[k + r] + 0.001)'))
m('fit-noones', 'P10', (FU + 'fit_sine_4param.py', 'design_matrix = np.column_stack((cos_vec, sin_vec, np.ones(n)))', 'design_matrix = np.column_stack((cos_vec, sin_vec, np.zeros(n)))'))
m('acf-nomean', '', (A + 'analyze_error_autocorr.py', 'e = e - np.mean(e)', 'e = e'))
m('acf-norm-fixed', 'P09', (A + 'analyze_error_autocorr.py', 'acf = acf / acf[lags == 0]', 'acf = acf / (acf[lags == 0] + 1e-06)'))
m('acf-norm-std', 'P09', (A + 'analyze_error_autocorr.py', 'acf = acf / acf[lags == 0]', 'acf = acf / np.std(e)'))
m('acf-signal', 'P10', (A + 'analyze_error_autocorr.py', 'e = np.asarray(error_signal).flatten()', 'e = np.asarray(signal).flatten()'), (A + 'analyze_error_autocorr.py', 'e = e - np.mean(e)', 'e = e'))
m('ph-r2', 'P09', (A + '_fit_error_phase.py', 'if ss_tot > 0 else', 'if ss_tot > 1e-12 else'))
m('ph-relrmse', 'P09', (A + 'rearrange_error_by_phase.py', 'np.sqrt(ss_res / len(rms_sq_actual)) / mean_actual', 'np.sqrt(ss_res / len(rms_sq_actual))'))
m('ph-amrel', 'P09', (A + 'rearrange_error_by_phase.py', 'float(am_v / amplitude)', 'float(am_v)'))
m('ph-pmrad-v2', 'P09', (A + 'rearrange_error_by_phase.py', 'pm_rad = pm_v / amplitude', 'pm_rad = pm_var_final / amplitude'))
m('ph-thr', 'P09', (A + 'rearrange_error_by_phase.py', 'pm_rad = pm_v / amplitude if amplitude > 1e-10', 'pm_rad = pm_v / amplitude if amplitude > 0.0001'))
m('ph-binrms', 'P09', (A + 'rearrange_error_by_phase.py', 'np.sqrt(bin_sum_sq / bin_counts)', 'bin_sum_sq / bin_counts'))
m('ph-tot', 'P09', (A + 'rearrange_error_by_phase.py', 'ss_tot > 0.01 * mean_actual ** 2 * len(rms_sq_actual)', 'ss_tot > 0.01 * mean_actual * len(rms_sq_actual)'))
m('val-scale', 'P10', (A + 'rearrange_error_by_value.py', 'raw_indices = (signal - v_min) * scale', 'raw_indices = signal * scale'))
m('val-rms', 'P09', (A + 'rearrange_error_by_value.py', 'weights=valid_error ** 2', 'weights=np.abs(valid_error)'))
m('pp-hyst', 'P10 P09', (A + 'analyze_error_phase_plane.py', 'hysteresis_gap = np.mean(np.abs(trend_rise - trend_fall))', 'hysteresis_gap = np.mean(np.abs(trend_rise - trend_fall)) / np.max(np.abs(data))'))
m('ramp-bincount', 'P10', (A + 'compute_inl_from_ramp.py', 'np.bincount(codes_int - code_min,', 'np.bincount(codes_int,'))
m('ramp-arange0', 'P10', (A + 'compute_inl_from_ramp.py', 'full_code = np.arange(code_min, code_max + 1, dtype=np.int64)', 'full_code = np.arange(0, code_max - code_min + 1, dtype=np.int64)'))
m('ramp-arange1', 'P10', (A + 'compute_inl_from_ramp.py', 'full_code = np.arange(code_min, code_max + 1, dtype=np.int64)', 'full_code = np.arange(0, code_max + 1, dtype=np.int64)'))
m('ramp-trans', 'P10', (A + 'compute_inl_from_ramp.py', 'transition_code = np.arange(code[0], code[-1] + 2, dtype=np.int64)', 'transition_code = np.arange(len(code) + 1, dtype=np.int64)'))
m('ramp-missing', 'P10', (A + 'compute_inl_from_ramp.py', 'missing_codes = code[counts == 0].astype(int)', 'missing_codes = np.where(counts == 0)[0].astype(int)'))
m('sine-excl', 'P10', (A + 'compute_inl_from_sine.py', 'exclusion_amount = int(np.round(clip_percent * (c_max_orig - c_min_orig)))', 'exclusion_amount = int(np.round(clip_percent * c_max_orig))'))
m('sine-valid', 'P10', (A + 'compute_inl_from_sine.py', 'valid_codes = code_axis[0:-2]', 'valid_codes = np.arange(len(code_axis))[0:-2]'))
m('ti-gain-abs', 'P09', (T + 'extract_mismatch_sine.py', 'gain = amps / A_mean', 'gain = amps'))
m('ti-offset-mean', '', (T + 'extract_mismatch_sine.py', 'offsets[m] = y.mean()', 'offsets[m] = np.mean(y)'))
m('ti-nooffset', 'P10', (T + 'extract_mismatch_sine.py', 'np.sum((y - offsets[m]) * np.exp', 'np.sum(y * np.exp'))
m('ti-skew-samples', 'P11', (T + 'extract_mismatch_sine.py', 'skew = (phases_u - phases_u.mean()) / (2 * np.pi * fin)', 'skew = (phases_u - phases_u.mean()) / (2 * np.pi * fin / fs)'))
m('ti-t', 'P11', (T + 'extract_mismatch_sine.py', 't = (k * M + m) * T', 't = k * M + m'))
m('ti-fin-norm', 'P11', (T + 'extract_mismatch_sine.py', 'fin = estimate_frequency(x, fs=fs)', 'fin = estimate_frequency(x)'))
m('fd-fft', 'P11', (T + 'fractional_delay.py', 'f = np.fft.rfftfreq(N, d=1.0 / fs)', 'f = np.fft.rfftfreq(N)'))
m('fd-farrow', 'P11', (T + 'fractional_delay.py', 'D = delay_sec * fs', 'D = delay_sec'))
m('un-bin', 'P11', (FU + 'units.py', 'return bin_idx * fs / n_fft', 'return bin_idx * n_fft / fs'))
m('un-f2b', 'P11', (FU + 'units.py', 'return int(np.round(freq * n_fft / fs))', 'return int(np.round(freq * n_fft))'))
m('un-lsb', 'P09', (FU + 'units.py', 'return volts / (vref / 2 ** n_bits)', 'return volts * (vref / 2 ** n_bits)'))
m('un-vrms', 'P09', (FU + 'units.py', 'power_watts = vrms ** 2 / z_load', 'power_watts = vrms / z_load'))
m('nsd-bw', 'P11', (FU + 'snr_nsd.py', 'nsd_linear = p_noise_linear / bw', 'nsd_linear = p_noise_linear * bw'))
m('fom', 'P11', (FU + 'metrics.py', 'return power / (2 ** enob * fs)', 'return power / 2 ** enob'))
m('jit', 'P11', (FU + 'metrics.py', '-20 * np.log10(2 * np.pi * freq * jitter_rms_sec)', '-10 * np.log10(2 * np.pi * freq * jitter_rms_sec)'))
m('fold', 'P11', (FU + 'frequency.py', 'f_alias = np.abs(fin - fs * np.round(fin / fs))', 'f_alias = np.abs(fin - np.round(fin / fs))'))
m('coh-round', 'P11', (FU + 'frequency.py', 'fin_actual = best_bin * fs / n_fft', 'fin_actual = round(best_bin * fs / n_fft)'))
m('coh-bin', 'P11', (FU + 'frequency.py', 'target_bin_float = fin_target / fs * n_fft', 'target_bin_float = fin_target * n_fft'))
m('radix-sca', 'P09', (D + 'analyze_weight_radix.py', 'wgtsca = 1.0 / abs_w_sig[-1]', 'wgtsca = 1.0'))
m('radix-break', 'P09', (D + 'analyze_weight_radix.py', 'sig_break = np.where(ratios >= 3.0)[0]', 'sig_break = np.where(-np.diff(abs_w_sorted) >= 3.0)[0]'))
m('radix-eff', 'P09', (D + 'analyze_weight_radix.py', 'effres = np.log2(np.sum(abs_w_sig) / abs_w_sig[-1] + 1)', 'effres = np.log2(np.sum(abs_w_sig) + 1)'))
m('gen-quant-off', 'P10', (G + 'nonidealities.py', 'codes = np.floor((signal - v_min) / lsb)', 'codes = np.floor(signal / lsb)'))
m('gen-quant-out', 'P10', (G + 'nonidealities.py', 'return codes * lsb + v_min', 'return codes * lsb'))
m('gen-nl-dc', 'P10', (G + 'nonidealities.py', 'signal_distorted = signal_ac + distortion\n        return signal_distorted + self.DC', 'signal_distorted = signal_ac + distortion\n        return signal_distorted'))
m('gen-nl-full', 'P10', (G + 'nonidealities.py', 'distortion += k2 * signal_ac ** 2', 'distortion += k2 * signal ** 2'))
m('gen-hd-norm', 'P09', (G + 'nonidealities.py', 'return 2 ** (order - 1) * amp_ratio / self.A ** (order - 1)', 'return 2 ** (order - 1) * amp_ratio'))
m('gen-hd-pow', 'P09', (G + 'nonidealities.py', 'return 2 ** (order - 1) * amp_ratio / self.A ** (order - 1)', 'return 2 ** (order - 1) * amp_ratio / self.A ** order'))
m('gen-ttrack', 'P11', (G + 'nonidealities.py', 'T_track = 1 / self.Fs * 0.2', 'T_track = 2e-10'))
m('gen-am-env', 'P10', (G + 'nonidealities.py', 'signal_am = signal_ac * am_envelope\n        return signal_am + self.DC', 'signal_am = signal * am_envelope\n        return signal_am'))
m('gen-tone-t', 'P11', (G + 'nonidealities.py', 'np.sin(2 * np.pi * am_tone_freq * self.t)', 'np.sin(2 * np.pi * am_tone_freq * np.arange(self.N))'))
m('gen-ref-abs', 'P10', (G + 'nonidealities.py', 'current_kick = droop_strength * np.abs(signal_ac)', 'current_kick = droop_strength * np.abs(signal)'))
m('gen-clip', 'P10', (G + 'nonidealities.py', 'lower_threshold = np.percentile(signal, percentile_clip)', 'lower_threshold = -np.percentile(np.abs(signal), 100.0 - percentile_clip)'))
m('gen-jit', 'P11', (G + 'nonidealities.py', 'total_phase = 2 * np.pi * self.Fin * (self.t + t_jitter)', 'total_phase = 2 * np.pi * self.Fin * self.t + t_jitter'))
m('gen-shape', 'P10', (G + 'nonidealities.py', 'quant_error_white = signal_quantized - signal', 'quant_error_white = signal_quantized'))
m('spur-harm-floor', 'P09', (T + 'predict_spurs.py', '20', '20'))
m('ovf', 'P09', (D + 'analyze_overflow.py', 'weight', 'weight'))
# ---------------------------------------------------------------- behaviour preserving
m('ok-prep-helper', '', (S + '_prepare_fft_input.py', 'def _prepare_fft_input(', 'def _half_span(v):\n    lo = np.min(v)\n    hi = np.max(v)\n    return 0.5 * (hi - lo)\n\ndef _prepare_fft_input('), (S + '_prepare_fft_input.py', 'peak_amplitude = (np.max(data) - np.min(data)) / 2', 'peak_amplitude = _half_span(data)'))
m('ok-prep-ptp', '', (S + '_prepare_fft_input.py', '(np.max(data) - np.min(data)) / 2', 'np.ptp(data) / 2'))
m('ok-prep-mean', '', (S + '_prepare_fft_input.py', 'np.mean(data, axis=1, keepdims=True)', '(np.sum(data, axis=1) / data.shape[1])[:, np.newaxis]'))
m('ok-prep-loop', '', (S + '_prepare_fft_input.py', 'data_dc_removed = data - np.mean(data, axis=1, keepdims=True)', 'rows = []\n    for row in data:\n        rows.append(row - np.mean(row))\n    data_dc_removed = np.array(rows)'))
m('ok-prep-if', '', (S + '_prepare_fft_input.py', 'data_normalized = data_dc_removed / peak_amplitude if peak_amplitude != 0 else data_dc_removed\n    return data_normalized', 'if peak_amplitude == 0:\n        return data_dc_removed\n    return data_dc_removed / peak_amplitude'))
m('ok-sp-freq', '', (S + 'compute_spectrum.py', 'freq = np.arange(len(power_spectrum)) * (fs / N)', 'freq = np.fft.rfftfreq(N, d=1.0 / fs)'))
m('ok-sp-nsd', '', (S + 'compute_spectrum.py', 'nsd_dbfs_hz = noise_floor_dbfs - 10 * np.log10(fs / (2 * osr)) if np.isfinite(noise_floor_dbfs) else np.nan', 'bw = fs / 2 / osr\n    if np.isfinite(noise_floor_dbfs):\n        nsd_dbfs_hz = noise_floor_dbfs - 10 * np.log10(bw)\n    else:\n        nsd_dbfs_hz = np.nan'))
m('ok-sp-snr', '', (S + 'compute_spectrum.py', 'snr_dbc = 10 * np.log10(sig_linear / noise_power)', 'snr_dbc = 10 * (np.log10(sig_linear) - np.log10(noise_power))'))
m('ok-sp-mask', '', (S + 'compute_spectrum.py', 'if lo < hi:\n        spec_sndr[lo:hi] = 0.0\n    noi_sndr = float(np.sum(spec_sndr[:n_inband]))', 'keep = np.ones(len(spec_sndr), dtype=bool)\n    keep[lo:hi] = False\n    noi_sndr = float(np.sum(spec_sndr[:n_inband][keep[:n_inband]]))'))
m('ok-harm-set', '', (S + '_harmonics.py', 'thd_power = np.sum(power_spectrum[list(thd_bins_to_sum)])', 'thd_power = 0.0\n        for b in sorted(thd_bins_to_sum):\n            thd_power += power_spectrum[b]'))
m('ok-fund', '', (S + '_locate_fundamental.py', 'fundamental_bin = np.argmax(spectrum_search[1:]) + 1', 'masked = spectrum_search.copy()\n        masked[0] = 0.0\n        fundamental_bin = int(np.argmax(masked))'))
m('ok-fit-phase', '', (FU + 'fit_sine_4param.py', "'amplitude': np.sqrt(a ** 2 + b ** 2)", "'amplitude': np.hypot(a, b)"))
m('ok-fit-helper', '', (FU + 'fit_sine_4param.py', "'rmse': np.sqrt(np.mean(residuals ** 2))", "'rmse': _rms(residuals)"), (FU + 'fit_sine_4param.py', 'def _merge_results(', 'def _rms(v):\n    return np.sqrt(np.dot(v, v) / len(v))\n\ndef _merge_results('))
m('ok-fit-while', '', (FU + 'fit_sine_4param.py', '    for i in range(max_iter + 1):\n        omega', '    i = -1\n    while i < max_iter:\n        i += 1\n        omega'))
m('ok-fit-solve', '', (FU + 'fit_sine_4param.py', "residuals = y - fitted_sig", "residuals = np.subtract(y, fitted_sig)"))
m('ok-fit-matmul', '', (FU + 'fit_sine_4param.py', 'fitted_sig = a * np.cos(omega * t) + b * np.sin(omega * t) + c', 'fitted_sig = np.column_stack((np.cos(omega * t), np.sin(omega * t), np.ones(n))) @ np.array([a, b, c])'))
m('ok-fit-two-ifs', '', (FU + 'fit_sine_4param.py', 'freq = np.clip(freq, 1e-10, 0.5 - 1e-10)', 'freq = min(max(freq, 1e-10), 0.5 - 1e-10)'))
m('ok-acf-corr', '', (A + 'analyze_error_autocorr.py', 'acf[k] = np.mean(x1 * x2)', 'acf[k] = np.dot(x1, x2) / len(x1)'))
m('ok-acf-listcomp', '', (A + 'analyze_error_autocorr.py', 'acf = acf / acf[lags == 0]', 'acf = acf / acf[max_lag]'))
m('ok-hd-loop', '', (A + 'decompose_harmonic_error.py', 'phases = phases - fundamental_phase * harmonic_order', 'for h in range(n_harmonics):\n        phases[h] = phases[h] - fundamental_phase * (h + 1)'))
m('ok-hd-order', '', (A + 'decompose_harmonic_error.py', 'noise_residual = sig_zero_mean - signal_reconstructed\n    fundamental_signal = fundamental_signal + dc_offset\n    reconstructed_signal = signal_reconstructed + dc_offset', 'reconstructed_signal = dc_offset + signal_reconstructed\n    noise_residual = sig_avg - reconstructed_signal\n    fundamental_signal = dc_offset + fundamental_signal'))
m('ok-pdf-vec', '', (A + 'analyze_error_pdf.py', 'fx = np.zeros_like(x)\n    for i in range(len(x)):\n        u = (x[i] - err_lsb) / h\n        fx[i] = np.mean(np.exp(-0.5 * u ** 2)) / (h * np.sqrt(2 * np.pi))', 'u = (x[:, None] - err_lsb[None, :]) / h\n    fx = np.mean(np.exp(-0.5 * u ** 2), axis=1) / (h * np.sqrt(2 * np.pi))'))
m('ok-nl-helper', '', (A + 'fit_static_nonlin.py', 'k2_abs = polycoeff[-3] / x_max ** 2\n        k2_extracted = k2_abs / k1', 'k2_extracted = polycoeff[-3] / (x_max * polycoeff[-2])'))
m('ok-nl-center', '', (A + 'fit_static_nonlin.py', 'y_smooth = y_smooth_norm + np.mean(sig_distorted)', 'dc_level = float(np.mean(sig_distorted))\n    y_smooth = dc_level + y_smooth_norm'))
m('ok-ph-bins', '', (A + 'rearrange_error_by_phase.py', "bin_sum = np.bincount(bin_indices, weights=error, minlength=n_bins)", "bin_sum = np.zeros(n_bins)\n    np.add.at(bin_sum, bin_indices, error)"))
m('ok-ph-loop', '', (A + 'rearrange_error_by_phase.py', "bin_sum = np.bincount(bin_indices, weights=error, minlength=n_bins)", "bin_sum = np.zeros(n_bins)\n    for b, e in zip(bin_indices, error):\n        bin_sum[b] += e"))
m('ok-val-loop', '', (A + 'rearrange_error_by_value.py', 'raw_indices = (signal - v_min) * scale', 'raw_indices = (signal - v_min) / scale_range * (n_bins - 1)'))
m('ok-ramp-unique', '', (A + 'compute_inl_from_ramp.py', 'full_counts = np.bincount(codes_int - code_min, minlength=len(full_code))[:len(full_code)].astype(float)', 'full_counts = np.array([np.sum(codes_int == c) for c in full_code], dtype=float)'))
m('ok-ramp-hist', '', (A + 'compute_inl_from_ramp.py', 'full_counts = np.bincount(codes_int - code_min, minlength=len(full_code))[:len(full_code)].astype(float)', 'edges = np.arange(code_min, code_max + 2) - 0.5\n    full_counts = np.histogram(codes_int, bins=edges)[0].astype(float)'))
m('ok-ramp-trans', '', (A + 'compute_inl_from_ramp.py', 'transition_code = np.arange(code[0], code[-1] + 2, dtype=np.int64)', 'transition_code = code[0] + np.arange(len(code) + 1, dtype=np.int64)'))
m('ok-sine-bincount', '', (A + 'compute_inl_from_sine.py', 'counts, _ = np.histogram(codes_clipped, bins=bins)', 'counts = np.bincount(codes_clipped - c_min, minlength=len(code_axis))'))
m('ok-ti-vec', '', (T + 'extract_mismatch_sine.py', 'phasors[m] = 2.0 / K * np.sum((y - offsets[m]) * np.exp(-1j * 2 * np.pi * fin * t))', 'ref = np.exp(-2j * np.pi * fin * t)\n        phasors[m] = 2.0 * np.mean((y - np.mean(y)) * ref)'))
m('ok-fd', '', (T + 'fractional_delay.py', 'f = np.fft.rfftfreq(N, d=1.0 / fs)', 'f = np.arange(N // 2 + 1) * fs / N'))
m('ok-coh-min', '', (FU + 'frequency.py', 'candidates.sort(key=lambda x: x[0])\n    best_bin = candidates[0][1]', 'best_bin = min(candidates, key=lambda x: x[0])[1]'))
m('ok-fold', '', (FU + 'frequency.py', 'f_alias = np.abs(fin - fs * np.round(fin / fs))', 'norm = fin / fs\n    f_alias = fs * np.abs(norm - np.round(norm))'))
m('ok-fold-mod', '', (FU + 'frequency.py', 'f_alias = np.abs(fin - fs * np.round(fin / fs))', 'r = np.mod(fin, fs)\n    f_alias = np.minimum(r, fs - r)'))
m('ok-radix', '', (D + 'analyze_weight_radix.py', 'for i in range(1, n_bits):\n        radix[i] = abs_weights[i - 1] / abs_weights[i]', 'radix[1:] = abs_weights[:-1] / abs_weights[1:]'))
m('ok-gen-horner', '', (G + 'nonidealities.py', 'signal_distorted = signal_ac + distortion\n        return signal_distorted + self.DC', 'return signal_ac + distortion + self.DC'))
m('ok-gen-lsb', '', (G + 'nonidealities.py', 'codes = np.floor((signal - v_min) / lsb)', 'codes = np.floor((signal - v_min) / (v_max - v_min) * 2 ** n_bits)'))
m('ok-gen-quant-helper', '', (G + 'nonidealities.py', 'return codes * lsb + v_min', 'return self._level(codes, lsb, v_min)\n\n    @staticmethod\n    def _level(codes, lsb, v_min):\n        return v_min + codes * lsb'))
m('ok-gen-loop', '', (G + 'nonidealities.py', 'for n in range(self.N):\n            v_target = signal_ac[n]\n            tau_dynamic', 'for n, v_target in enumerate(signal_ac):\n            tau_dynamic'))
m('ok-units', '', (FU + 'units.py', 'return signal_pwr_dbfs - snr_db - 10 * np.log10(bw)', 'return signal_pwr_dbfs - snr_db - power_to_db(bw)'))
m('ok-nsd', '', (FU + 'snr_nsd.py', 'nsd_dbfs_hz = 10 * np.log10(nsd_linear)', 'nsd_dbfs_hz = psignal_dbfs - snr_db - 10 * np.log10(bw)'))
CASES = [c for c in CASES if c[0] not in ('spur-harm-floor', 'ovf')]
