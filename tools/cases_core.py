"""Edits of internal helpers that the other batteries do not touch (development aid)."""
FP, SH, SR, NL = 'aout/_fit_error_phase.py', 'aout/_fit_sine_harmonics.py', 'aout/_infer_signal_range.py', 'aout/fit_static_nonlin.py'
LS, PP, SC = 'calibration/_lstsq_solver.py', 'calibration/_post_process.py', 'calibration/_scale_columns_for_conditioning.py'
CW, FR, ME, VA = 'fundamentals/convert_cap_to_weight.py', 'fundamentals/frequency.py', 'fundamentals/metrics.py', 'fundamentals/validate.py'
NT, VP, PS = 'oversampling/ntf_analyzer.py', 'utils/vpp_for_target_dbfs.py', 'timeinterleave/predict_spurs.py'
AL, EX, HA, LF = 'spectrum/_align_spectrum_phase.py', 'spectrum/_exclude_bins.py', 'spectrum/_harmonics.py', 'spectrum/_locate_fundamental.py'
SA, AV, QS = 'spectrum/_side_bin_auto.py', 'spectrum/_spectrum_averaging.py', 'spectrum/quick_sndr.py'

CASES = [
    # ---- behaviour preserving
    ('c-fp-helper', set(), [(FP, "    am_variance_v2 = max(0.0, coeffs[0])\n    pm_variance_v2 = max(0.0, coeffs[1])\n    base_noise_var = max(0.0, coeffs[2]) if include_base_noise else 0.0\n",
                             "    def positive(value):\n        return value if value > 0.0 else 0.0\n    am_variance_v2, pm_variance_v2 = positive(coeffs[0]), positive(coeffs[1])\n    base_noise_var = 0.0\n    if include_base_noise:\n        base_noise_var = positive(coeffs[2])\n")]),
    ('c-fp-cols', set(), [(FP, "    if include_base_noise:\n        X = np.column_stack([am_sensitivity, pm_sensitivity, np.ones_like(y)])\n    else:\n        X = np.column_stack([am_sensitivity, pm_sensitivity])\n",
                           "    columns = [am_sensitivity, pm_sensitivity]\n    if include_base_noise:\n        columns.append(np.ones_like(y))\n    X = np.stack(columns, axis=1)\n")]),
    ('c-fp-res', set(), [(FP, "    y_pred = X @ coeffs\n    ss_res = np.sum((y - y_pred) ** 2)\n", "    residual = y - np.dot(X, coeffs)\n    ss_res = np.sum(residual ** 2)\n")]),
    ('c-sh-inline', set(), [(SH, "    if fs is not None:\n        # freq is physical frequency (Hz)\n        normalized_freq = freq / fs\n    else:\n        # freq is already normalized (0-0.5)\n        normalized_freq = freq\n", "    normalized_freq = freq if fs is None else freq / fs\n")]),
    ('c-sh-comp', set(), [(SH, "    for h in range(1, order + 1):\n        cos_h = np.cos(h * phase)\n        sin_h = np.sin(h * phase)\n        harmonic_basis_list.append(cos_h)\n        harmonic_basis_list.append(sin_h)\n", "    for k in range(order):\n        harmonic_basis_list.extend([np.cos((k + 1) * phase), np.sin((k + 1) * phase)])\n")]),
    ('c-sh-dc', set(), [(SH, "    if include_dc:\n        basis_matrix = np.column_stack([dc_basis, harmonic_basis])\n    else:\n        basis_matrix = harmonic_basis\n", "    basis_matrix = harmonic_basis if dc_basis is None else np.hstack([dc_basis, harmonic_basis])\n")]),
    ('c-sh-dot', set(), [(SH, "    fitted_signal = basis_matrix @ W\n", "    fitted_signal = np.dot(basis_matrix, W)\n")]),
    ('c-sr-abs', set(), [(SR, "    abs_max = np.max(np.abs([s_min, s_max]))\n", "    abs_max = max(abs(s_min), abs(s_max))\n")]),
    ('c-nl-helper', set(), [(NL, "    x_ideal = fitted_sine - np.mean(fitted_sine)\n    y_actual = sig_distorted - np.mean(sig_distorted)\n", "    def centred(values):\n        return values - values.mean()\n    y_actual = centred(sig_distorted)\n    x_ideal = centred(fitted_sine)\n")]),
    ('c-nl-coef', set(), [(NL, "    k1 = polycoeff[-2] / x_max\n", "    low = polycoeff[::-1]\n    k1 = low[1] / x_max\n"), (NL, "        k2_abs = polycoeff[-3] / (x_max**2)\n", "        k2_abs = low[2] / (x_max * x_max)\n")]),
    ('c-nl-poly', set(), [(NL, "    y_smooth_norm = np.polyval(polycoeff, x_smooth_norm)\n", "    y_smooth_norm = np.zeros_like(x_smooth_norm)\n    for coefficient in polycoeff:\n        y_smooth_norm = y_smooth_norm * x_smooth_norm + coefficient\n")]),
    ('c-ls-loop', set(), [(LS, "    t = np.arange(n_samples)\n    harmonics = np.arange(1, harmonic_order + 1)\n    phase = 2.0 * np.pi * freq * np.outer(t, harmonics)\n", "    t = np.arange(n_samples)[:, None]\n    harmonics = np.arange(1, harmonic_order + 1)[None, :]\n    phase = 2.0 * np.pi * freq * (t * harmonics)\n")]),
    ('c-ls-offset', set(), [(LS, "    for ds_idx, n_samples_k in enumerate(segment_lengths):\n        row_end = row_start + n_samples_k\n        offset_matrix[row_start : row_end, ds_idx] = 1.0\n        row_start = row_end\n\n    # Solve using dual-basis", "    for ds_idx in range(num_datasets):\n        row_end = row_start + segment_lengths[ds_idx]\n        offset_matrix[row_start:row_end, ds_idx] = 1.0\n        row_start = row_end\n\n    # Solve using dual-basis")]),
    ('c-ls-pick', set(), [(LS, "    if err1 < err2:\n        return coeffs1, 0, float(err1)\n    else:\n        return coeffs2, 1, float(err2)\n", "    if err2 <= err1:\n        return coeffs2, 1, float(err2)\n    return coeffs1, 0, float(err1)\n")]),
    ('c-pp-sign', set(), [(PP, "    weights *= polarity\n    dc_offset *= polarity\n", "    weights = weights * polarity\n    dc_offset = dc_offset * polarity\n")]),
    ('c-pp-flip', set(), [(PP, "    polarity = -1.0 if np.sum(weights) < 0 else 1.0\n", "    polarity = 1.0\n    if weights.sum() < 0:\n        polarity = -1.0\n")]),
    ('c-pp-loop', set(), [(PP, "    calibrated_signals = [s * polarity for s in calibrated_signals]\n", "    calibrated_signals = list(map(lambda s: polarity * s, calibrated_signals))\n")]),
    ('c-sc-abs', set(), [(SC, "    col_extremes = np.vstack([np.max(bits, axis=0), np.min(bits, axis=0)])\n    max_vals = np.max(np.abs(col_extremes), axis=0)\n", "    max_vals = np.maximum(np.abs(np.max(bits, axis=0)), np.abs(np.min(bits, axis=0)))\n")]),
    ('c-sc-div', set(), [(SC, "    bits_effective = bits * (10.0 ** (-bit_scales))\n", "    bits_effective = bits / (10.0 ** bit_scales)\n")]),
    ('c-cw-zip', set(), [(CW, "    for i in range(n_bits):\n", "    for i, (cap, bridge) in enumerate(zip(cd, cb)):\n"), (CW, "        weights[i] = cd[i] / c_node_total\n", "        weights[i] = cap / c_node_total\n"),
                         (CW, "        if cb[i] > 0:\n", "        if bridge > 0:\n"), (CW, "(cb[i] * c_node_total) / (cb[i] + c_node_total)", "1.0 / (1.0 / bridge + 1.0 / c_node_total)")]),
    ('c-cw-scale', set(), [(CW, "        weights[:i] *= attenuation_factor\n", "        weights[:i] = weights[:i] * attenuation_factor\n")]),
    ('c-fr-min', set(), [(FR, "    candidates.sort(key=lambda x: x[0])\n    best_bin = candidates[0][1]\n", "    best_bin = min(candidates, key=lambda x: x[0])[1]\n")]),
    ('c-fr-range', set(), [(FR, "    for i in range(-search_radius, search_radius + 1):\n        bin_candidate = center_int + i\n", "    for bin_candidate in range(center_int - search_radius, center_int + search_radius + 1):\n")]),
    ('c-fr-fold', set(), [(FR, "    f_alias = np.abs(fin - fs * np.round(fin / fs))\n", "    zone = np.rint(fin / fs)\n    f_alias = abs(fin - zone * fs)\n")]),
    ('c-fr-bin', set(), [(FR, "    bin_idx = bin_idx % n_fft\n\n    # For real signals, bins > n_fft/2 are mirrored\n    if bin_idx > n_fft / 2:\n        bin_idx = n_fft - bin_idx\n\n    return bin_idx\n", "    wrapped = bin_idx % n_fft\n    return min(wrapped, n_fft - wrapped)\n")]),
    ('c-me-walden', set(), [(ME, "    return power / (2**enob * fs)\n", "    steps = 2.0 ** enob\n    return power / steps / fs\n")]),
    ('c-me-schreier', set(), [(ME, "    return sndr_db + 10 * np.log10(bw / power)\n", "    return sndr_db - 10 * np.log10(power / bw)\n")]),
    ('c-me-thermal', set(), [(ME, "    p_sig = (v_fs**2) / 8\n\n    return 10 * np.log10(p_sig / p_noise)\n", "    amplitude = v_fs / 2\n    p_sig = amplitude**2 / 2\n\n    return 10 * (np.log10(p_sig) - np.log10(p_noise))\n")]),
    ('c-va-order', set(), [(VA, "        if np.any(np.isnan(data)):\n            raise ValueError(f\"{name} contains NaN values.\")\n        if np.any(np.isinf(data)):\n            raise ValueError(f\"{name} contains Infinite values.\")\n", "        what = 'NaN' if np.isnan(data).any() else 'Infinite'\n        raise ValueError(f\"{name} contains {what} values.\")\n")]),
    ('c-va-stuck', set(), [(VA, "    stuck_low = np.where(bit_sums == 0)[0]\n    stuck_high = np.where(bit_sums == n_samples)[0]\n", "    stuck_high = np.flatnonzero(bit_sums == n_samples)\n    stuck_low = np.flatnonzero(bit_sums == 0)\n")]),
    ('c-va-range', set(), [(VA, "    data_range = float(np.max(data)) - float(np.min(data)) # Peak-to-peak (max - min)\n", "    low, high = float(np.min(data)), float(np.max(data))\n    data_range = high - low\n")]),
    ('c-nt-mean', set(), [(NT, "    band_mask = (w > flow) & (w < fhigh)\n    np_val = np.sum(mag[band_mask]**2) / len(w)\n", "    in_band = np.logical_and(w > flow, w < fhigh)\n    np_val = np.sum(np.square(mag[in_band])) / w.size\n")]),
    ('c-vp-pow', set(), [(VP, "    return vpp_current * gain_ratio\n", "    vpp_new = gain_ratio * vpp_current\n    return vpp_new\n")]),
    ('c-ps-helper', set(), [(PS, "        dbfs, dbc = _to_db(amp)\n        spurs.append(\n            {\"freq_hz\": f, \"kind\": \"offset\", \"k\": int(k),\n             \"amp\": float(amp), \"dbfs\": float(dbfs), \"dbc\": float(dbc)}\n        )\n", "        spurs.append(_entry(f, 'offset', k, amp))\n"),
                            (PS, "    spurs: list[dict] = []\n", "    def _entry(f, kind, k, amp):\n        dbfs, dbc = _to_db(amp)\n        return dict(freq_hz=f, kind=kind, k=int(k), amp=float(amp), dbfs=float(dbfs), dbc=float(dbc))\n\n    spurs: list[dict] = []\n")]),
    ('c-ps-sorted', set(), [(PS, "    spurs.sort(key=lambda s: s[\"freq_hz\"])\n    return spurs", "    return sorted(spurs, key=lambda s: s['freq_hz'])")]),
    ('c-al-zone', set(), [(AL, "        nyquist_zone = np.floor(harmonic_freq / n_fft * 2)\n        is_even_zone = (nyquist_zone % 2) == 0\n", "        nyquist_zone = (2 * harmonic_freq) // n_fft\n        is_even_zone = nyquist_zone % 2 == 0\n")]),
    ('c-al-rest', set(), [(AL, "    for bin_pos in range(n_fft):\n        if not processed[bin_pos]:\n            # Apply fractional phase shift based on bin position relative to refined fundamental\n            fractional_phase = bin_pos / bin_r if bin_r > 0 else 0\n            fft_aligned[bin_pos] *= phasor ** fractional_phase\n", "    for bin_pos in np.flatnonzero(~processed):\n        fractional_phase = bin_pos / bin_r if bin_r > 0 else 0\n        fft_aligned[bin_pos] = fft_aligned[bin_pos] * phasor ** fractional_phase\n")]),
    ('c-ex-helper', set(), [(EX, "    for h_idx in range(len(harmonic_bins)):\n        h_bin = harmonic_bins[h_idx]  # Already int from _locate_harmonic_bins\n        if 1 <= h_bin < len(noise_spectrum):\n", "    for h_bin in harmonic_bins:\n        if 1 <= h_bin < len(noise_spectrum):\n")]),
    ('c-ex-clear', set(), [(EX, "    if 1 <= signal_bin < len(noise_spectrum):\n        sig_start = max(signal_bin - side_bin, 0)\n        sig_end = min(signal_bin + side_bin + 1, len(noise_spectrum))\n        noise_spectrum[sig_start:sig_end] = 0\n", "    def clear(centre):\n        if 1 <= centre < len(noise_spectrum):\n            noise_spectrum[max(centre - side_bin, 0):min(centre + side_bin + 1, len(noise_spectrum))] = 0\n    clear(signal_bin)\n")]),
    ('c-ha-bins', set(), [(HA, "    harmonic_bins = np.zeros(max_harmonic - 1, dtype=int)\n\n    for h in range(2, max_harmonic + 1):\n        # Calculate harmonic bin (can be fractional)\n        harmonic_bin = fundamental_bin * h\n\n        # Apply aliasing using fold_bin_to_nyquist\n        aliased_bin = fold_bin_to_nyquist(harmonic_bin, n_fft)\n\n        harmonic_bins[h - 2] = round(aliased_bin)\n\n    return harmonic_bins\n",
                           "    folded = [fold_bin_to_nyquist(fundamental_bin * h, n_fft) for h in range(2, max_harmonic + 1)]\n    return np.array([round(b) for b in folded], dtype=int)\n")]),
    ('c-ha-set', set(), [(HA, "        thd_power = np.sum(power_spectrum[list(thd_bins_to_sum)])\n", "        thd_power = np.sum(power_spectrum[sorted(thd_bins_to_sum)])\n")]),
    ('c-ha-mask', set(), [(HA, "    thd_bins_to_sum = set()  # Bin indices for THD calculation (auto-deduplicates)\n", "    in_thd = np.zeros(len(power_spectrum), dtype=bool)\n"), (HA, "        thd_bins_to_sum.update(range(harmonic_start_index, harmonic_end_index))\n", "        in_thd[harmonic_start_index:harmonic_end_index] = True\n"),
                          (HA, "    if thd_bins_to_sum:\n        # Use fancy indexing to sum power from deduplicated bins\n        thd_power = np.sum(power_spectrum[list(thd_bins_to_sum)])\n", "    if in_thd.any():\n        thd_power = np.sum(power_spectrum[in_thd])\n")]),
    ('c-ha-cont', set(), [(HA, "        if is_fundamental_collision:\n            collided_harmonics.append(harmonic_order)\n            continue\n        if is_dc_collision:\n            continue\n", "        if is_fundamental_collision:\n            collided_harmonics += [harmonic_order]\n        if is_fundamental_collision or is_dc_collision:\n            continue\n")]),
    ('c-ha-phase', set(), [(HA, "            hd2_phase_rad = np.angle(spec_coherent_normalized[hd2_bin])\n            hd2_phase_deg = np.degrees(hd2_phase_rad)\n", "            hd2_phase_deg = np.angle(spec_coherent_normalized[hd2_bin], deg=True)\n")]),
    ('c-lf-else', set(), [(LF, "    if len(spectrum_search) > 1:\n        fundamental_bin = np.argmax(spectrum_search[1:]) + 1\n    else:\n        fundamental_bin = 0\n", "    fundamental_bin = 0\n    if len(spectrum_search) > 1:\n        fundamental_bin = 1 + np.argmax(spectrum_search[1:])\n")]),
    ('c-lf-log', set(), [(LF, "        y_m1 = np.log10(max(spectrum_search[fundamental_bin - 1], 1e-20))\n        y_0 = np.log10(max(spectrum_search[fundamental_bin], 1e-20))\n        y_p1 = np.log10(max(spectrum_search[fundamental_bin + 1], 1e-20))\n", "        y_m1, y_0, y_p1 = np.log10(np.maximum(spectrum_search[fundamental_bin - 1:fundamental_bin + 2], 1e-20))\n")]),
    ('c-lf-finite', set(), [(LF, "            if np.isnan(fundamental_bin_frantional) or np.isinf(fundamental_bin_frantional):\n", "            if not np.isfinite(fundamental_bin_frantional):\n")]),
    ('c-sa-floor', set(), [(SA, "    if len(positive) >= 3:\n        noise_floor_per_bin = float(np.median(positive))\n    else:\n        noise_floor_per_bin = float(np.median(inband))\n", "    reference = positive if len(positive) >= 3 else inband\n    noise_floor_per_bin = float(np.median(reference))\n")]),
    ('c-sa-while', set(), [(SA, "    for sb in range(1, max_sidebin + 1):\n", "    sb = 0\n    while sb < max_sidebin:\n        sb += 1\n")]),
    ('c-av-mean', set(), [(AV, "    spectrum_power = np.mean(np.abs(fft_matrix)**2, axis=0)\n    spectrum_power = spectrum_power / (N**2)\n", "    spectrum_power = np.mean((np.abs(fft_matrix) / N)**2, axis=0)\n")]),
    ('c-av-abs2', set(), [(AV, "    spectrum_power = np.mean(np.abs(fft_matrix)**2, axis=0)\n", "    spectrum_power = np.sum(fft_matrix.real**2 + fft_matrix.imag**2, axis=0) / M\n")]),
    ('c-av-half', set(), [(AV, "    spectrum_power[0] /= 2.0\n    if N % 2 == 0:\n        spectrum_power[-1] /= 2.0\n\n    return spectrum_power, None\n", "    _halve_edges(spectrum_power, N)\n    return spectrum_power, None\n\n\ndef _halve_edges(power, n):\n    power[0] *= 0.5\n    if n % 2 == 0:\n        power[-1] *= 0.5\n")]),
    ('c-av-enum', set(), [(AV, "    for run_idx in range(M):\n        run_data = data_processed[run_idx, :N]\n", "    for run_data in data_processed:\n")]),
    ('c-av-nden', set(), [(AV, "    n_den = n_valid_runs if n_valid_runs > 0 else 1\n", "    n_den = max(n_valid_runs, 1)\n")]),
    ('c-qs-region', set(), [(QS, "    noise_distortion_spectrum = power_spectrum.copy()\n    noise_distortion_spectrum[: min(side_bin + 1, len(noise_distortion_spectrum))] = 0.0\n    noise_distortion_spectrum[sig_bin_start:sig_bin_end] = 0.0\n    noise_distortion = float(np.sum(noise_distortion_spectrum[:n_inband]))\n", "    keep = np.ones(len(power_spectrum), dtype=bool)\n    keep[:side_bin + 1] = False\n    keep[sig_bin_start:sig_bin_end] = False\n    keep[n_inband:] = False\n    noise_distortion = float(np.sum(power_spectrum[keep]))\n")]),
    ('c-qs-enob', set(), [(QS, "    enob = (sndr_dbc - 1.76) / 6.02\n    return {\"sndr_dbc\": float(sndr_dbc), \"enob\": float(enob)}", "    result = {'sndr_dbc': float(sndr_dbc)}\n    result['enob'] = (result['sndr_dbc'] - 1.76) / 6.02\n    return result")]),
    ('c-cw-list', set(), [(CW, '    n_bits = len(cd)\n    weights = np.zeros(n_bits)\n    \n    # c_load represents the equivalent capacitance looking back towards LSB\n    c_load = 0.0\n\n    # 2. Iterative Calculation (LSB -> MSB)\n    for i in range(n_bits):\n        # Total capacitance at node i (Bit Cap + Parasitic + Load form previous stage)\n        c_node_total = cd[i] + cp[i] + c_load\n        \n        if c_node_total == 0:\n            # Avoid division by zero for disconnected nodes\n            continue\n\n        # attenuation_factor: The ratio of voltage division by the bridge\n        # This scales ALL previous lower bits relative to the current bit\n        attenuation_factor = c_load / c_node_total\n        \n        # Apply attenuation to all lower bits (0 to i-1)\n        # This reflects that lower bits are "further away" through bridges\n        weights[:i] *= attenuation_factor\n        \n        # Calculate weight of current bit i\n        # Current bit contributes directly to the node voltage\n        weights[i] = cd[i] / c_node_total\n\n        # 3. Update Load Capacitance for next stage (i+1)\n        # If there is a bridge cap (Cb > 0), calculate series combination\n        if cb[i] > 0:\n            # Series combination of Bridge and Node Total\n            # C_next = Cb || C_node_total = (Cb * C_node) / (Cb + C_node)\n            c_load = (cb[i] * c_node_total) / (cb[i] + c_node_total)\n        else:\n            # No bridge means direct connection (or simply summing up next)\n            # Typically Cb=0 implies a segmented array block boundary or just simple summing\n            c_load = c_node_total\n\n', '    ladder = []\n    c_load = 0.0\n    for cap, bridge, stray in zip(cd, cb, cp):\n        node = cap + stray + c_load\n        if node == 0:\n            ladder.append(0.0)\n            continue\n        ladder = [w * (c_load / node) for w in ladder]\n        ladder.append(cap / node)\n        c_load = node if bridge <= 0 else bridge * node / (bridge + node)\n    weights = np.array(ladder)\n')]),
    ('c-cw-advance', set(), [(CW, '    n_bits = len(cd)\n    weights = np.zeros(n_bits)\n    \n    # c_load represents the equivalent capacitance looking back towards LSB\n    c_load = 0.0\n\n    # 2. Iterative Calculation (LSB -> MSB)\n    for i in range(n_bits):\n        # Total capacitance at node i (Bit Cap + Parasitic + Load form previous stage)\n        c_node_total = cd[i] + cp[i] + c_load\n        \n        if c_node_total == 0:\n            # Avoid division by zero for disconnected nodes\n            continue\n\n        # attenuation_factor: The ratio of voltage division by the bridge\n        # This scales ALL previous lower bits relative to the current bit\n        attenuation_factor = c_load / c_node_total\n        \n        # Apply attenuation to all lower bits (0 to i-1)\n        # This reflects that lower bits are "further away" through bridges\n        weights[:i] *= attenuation_factor\n        \n        # Calculate weight of current bit i\n        # Current bit contributes directly to the node voltage\n        weights[i] = cd[i] / c_node_total\n\n        # 3. Update Load Capacitance for next stage (i+1)\n        # If there is a bridge cap (Cb > 0), calculate series combination\n        if cb[i] > 0:\n            # Series combination of Bridge and Node Total\n            # C_next = Cb || C_node_total = (Cb * C_node) / (Cb + C_node)\n            c_load = (cb[i] * c_node_total) / (cb[i] + c_node_total)\n        else:\n            # No bridge means direct connection (or simply summing up next)\n            # Typically Cb=0 implies a segmented array block boundary or just simple summing\n            c_load = c_node_total\n\n', '    n_bits = len(cd)\n    weights = np.zeros(n_bits)\n    c_load = 0.0\n    for i in range(n_bits):\n        c_node_total, c_load = _advance(weights, i, cd, cb, cp, c_load)\n'), (CW, 'def convert_cap_to_weight(', 'def _advance(weights, i, cd, cb, cp, c_load):\n    total = cd[i] + cp[i] + c_load\n    if total == 0:\n        return total, c_load\n    weights[:i] *= c_load / total\n    weights[i] = cd[i] / total\n    if not cb[i] > 0:\n        return total, total\n    return total, total * cb[i] / (total + cb[i])\n\n\ndef convert_cap_to_weight(')]),
    ('c-vp-direct', set(), [(VP, "    gain_ratio = db_to_mag(delta_db)\n", "    gain_ratio = 10 ** (delta_db / 20)\n")]),
    ('c-vp-inv', set(), [(VP, "    gain_ratio = db_to_mag(delta_db)\n", "    gain_ratio = 1.0 / db_to_mag(signal_db_measured - signal_db_target)\n")]),
    ('c-vp-levels', set(), [(VP, "    gain_ratio = db_to_mag(delta_db)\n", "    gain_ratio = db_to_mag(signal_db_target) / db_to_mag(signal_db_measured)\n")]),
    ('c-vp-dbv', set(), [(VP, "from adctoolbox.fundamentals.units import db_to_mag\n", "from adctoolbox.fundamentals.units import db_to_mag, mag_to_db\n"), (VP, "    return vpp_current * gain_ratio\n", "    return db_to_mag(mag_to_db(vpp_current) + delta_db)\n")]),
    ('c-vp-float', set(), [(VP, "    return vpp_current * gain_ratio\n", "    return float(vpp_current) * float(gain_ratio)\n")]),
    # ---- breaking
    ('c-b-copyspec', {'P01', 'P13', 'P12', 'P17', 'P03'}, [(EX, "    noise_spectrum = spectrum[:max_bin].copy()\n", "    noise_spectrum = spectrum[:max_bin]\n")]),
    ('c-b-walden', {'P14'}, [(ME, "    return power / (2**enob * fs)\n", "    return power / (2**round(enob) * fs)\n")]),
    ('c-b-thermal', {'P14'}, [(ME, "    p_sig = (v_fs**2) / 8\n", "    p_sig = (v_fs**2) / 4\n")]),
    ('c-b-vpp', {'P14'}, [(VP, "    delta_db = signal_db_target - signal_db_measured\n", "    delta_db = signal_db_measured - signal_db_target\n")]),
    ('c-b-foldbin', {'P14'}, [(FR, "    if bin_idx > n_fft / 2:\n", "    if bin_idx > n_fft // 2:\n")]),
    ('c-b-foldfreq', {'P14', 'P11'}, [(FR, "fs * np.round(fin / fs)", "fs * np.floor(fin / fs)")]),
    ('c-b-estfreq', {'P11', 'P14', 'P17', 'P21'}, [(FR, "    fin_hz = freq_norm * fs\n", "    fin_hz = freq_norm * fs if frequency_estimate is None else freq_norm\n")]),
    ('c-b-cwbridge', {'P14', 'P15', 'P09', 'P11'}, [(CW, "            c_load = (cb[i] * c_node_total) / (cb[i] + c_node_total)\n", "            c_load = cb[i] + c_node_total\n")]),
    ('c-b-enobqs', {'P12'}, [(QS, "    enob = (sndr_dbc - 1.76) / 6.02\n", "    enob = (sndr_dbc - 1.76) / 6.0\n")]),
    ('c-b-qseps', {'P09', 'P12'}, [(QS, "noise_distortion + 1e-20", "noise_distortion + 1e-6")]),
    ('c-b-psmean', {'P12', 'P14', 'P15', 'P13', 'P09'}, [(PS, "        dbc = dbfs - fund_dbfs\n", "        dbc = dbfs + fund_dbfs\n")]),
    ('c-b-pserr', {'P10', 'P13', 'P15', 'P14', 'P12'}, [(PP, "        err_k = sig_k - dc_offset - ref_k\n", "        err_k = sig_k - ref_k\n")]),
    ('c-b-nlmax', {'P10'}, [(NL, "    x_max = np.max(np.abs(x_ideal))\n", "    x_max = np.max(np.abs(fitted_sine))\n")]),
    ('c-b-lfdc', {'P10'}, [(LF, "        fundamental_bin = np.argmax(spectrum_search[1:]) + 1\n", "        fundamental_bin = np.argmax(spectrum_search)\n")]),
    ('c-b-vasize', {'P20', 'P21'}, [(VA, "    if n_samples < min_samples:\n        raise ValueError(f\"Insufficient analog", "    if n_samples < 100:\n        raise ValueError(f\"Insufficient analog")]),
    ('c-b-hdclip', {'P12', 'P18', 'P09'}, [(HA, "        harmonic_powers[harmonic_index] = max(current_harmonic_power, 1e-15)\n", "        harmonic_powers[harmonic_index] = max(current_harmonic_power, 1e-6)\n")]),
    ('c-b-spsort', {'P02', 'P01', 'P16'}, [(PS, "    gain = np.asarray(params[\"gain\"], dtype=float)\n", "    gain = np.asarray(params.pop(\"gain\"), dtype=float)\n")]),
    ('c-b-ntshow', {'P05', 'P06', 'P08'}, [(NT, "    if is_plot == 1:\n", "    if is_plot != 0:\n")]),
]
