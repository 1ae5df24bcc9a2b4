"""Edits around lengths, number types and loops (development aid)."""
BV, BP, AC = 'aout/rearrange_error_by_value.py', 'aout/rearrange_error_by_phase.py', 'aout/analyze_error_autocorr.py'
FD, DI, EM = 'timeinterleave/fractional_delay.py', 'timeinterleave/deinterleave.py', 'timeinterleave/extract_mismatch_sine.py'
RA, OV, EF, SAR = 'aout/compute_inl_from_ramp.py', 'dout/analyze_overflow.py', 'spectrum/extract_freq_components.py', 'models/sar.py'
BA, ES, SI, DH = 'dout/analyze_bit_activity.py', 'dout/analyze_enob_sweep.py', 'aout/compute_inl_from_sine.py', 'aout/decompose_harmonic_error.py'

CASES = [
    # ---- behaviour preserving
    ('s-irfft-pos', set(), [(FD, "np.fft.irfft(X, n=N)", "np.fft.irfft(X, len(x))")]),
    ('s-irfft-size', set(), [(FD, "    return np.fft.irfft(X, n=N)\n", "    y = np.fft.irfft(X, n=x.shape[0])\n    return y\n")]),
    ('s-bin-helper', set(), [(BP, "    bin_sum = np.bincount(bin_indices, weights=error, minlength=n_bins)\n    bin_sum_sq = np.bincount(bin_indices, weights=error_sq, minlength=n_bins)\n",
                              "    def _total(values):\n        return np.bincount(bin_indices, weights=values, minlength=n_bins)\n    bin_sum = _total(error)\n    bin_sum_sq = _total(error_sq)\n")]),
    ('s-bin-addat', set(), [(BP, "    bin_sum = np.bincount(bin_indices, weights=error, minlength=n_bins)\n", "    bin_sum = np.zeros(n_bins)\n    np.add.at(bin_sum, bin_indices, error)\n")]),
    ('s-centres-arange', set(), [(BP, "np.linspace(0, 2 * np.pi, n_bins, endpoint=False) + bin_width / 2", "(np.arange(n_bins) + 0.5) * bin_width")]),
    ('s-acf-comp', set(), [(AC, "    for k in range(len(lags)):\n        lag = lags[k]\n", "    for k, lag in enumerate(lags):\n")]),
    ('s-acf-zeros', set(), [(AC, "acf = np.zeros_like(lags, dtype=float)", "acf = np.zeros(2 * max_lag + 1)")]),
    ('s-deint-strides', set(), [(DI, "    return x.reshape(N // M, M).T\n", "    rows = N // M\n    return np.transpose(x.reshape(rows, M))\n")]),
    ('s-deint-loop', set(), [(DI, "    return x.reshape(N // M, M).T\n", "    return np.array([x[m::M] for m in range(M)])\n")]),
    ('s-inter-flat', set(), [(DI, "    return channels.T.reshape(-1)\n", "    return channels.T.ravel()\n")]),
    ('s-mismatch-list', set(), [(EM, "    offsets = np.empty(M, dtype=float)\n", "    offsets = np.zeros(M)\n")]),
    ('s-mismatch-axis', set(), [(EM, "        offsets[m] = y.mean()\n", "        offsets[m] = np.sum(y) / K\n")]),
    ('s-mismatch-vec', set(), [(EM, "    for m in range(M):\n        y = channels[m]\n        offsets[m] = y.mean()\n        k = np.arange(K)\n", "    k = np.arange(K)\n    for m, y in enumerate(channels):\n        offsets[m] = y.mean()\n")]),
    ('s-ramp-two', set(), [(RA, "        analyzed_slice = slice(1, -1)\n    else:\n        analyzed_slice = slice(None)\n\n    code = full_code[analyzed_slice]\n    counts = full_counts[analyzed_slice]\n",
                            "        code, counts = full_code[1:-1], full_counts[1:-1]\n    else:\n        code, counts = full_code, full_counts\n")]),
    ('s-ramp-cum', set(), [(RA, "    raw_inl = np.concatenate(([0.0], np.cumsum(dnl)))\n", "    raw_inl = np.zeros(len(dnl) + 1)\n    raw_inl[1:] = np.cumsum(dnl)\n")]),
    ('s-ramp-hstack', set(), [(RA, "    raw_inl = np.concatenate(([0.0], np.cumsum(dnl)))\n", "    raw_inl = np.hstack([0.0, np.cumsum(dnl)])\n")]),
    ('s-ovf-inline', set(), [(OV, "    range_min = np.zeros(M)\n    range_max = np.zeros(M)\n", "    range_max = np.zeros(M)\n    range_min = np.zeros(M)\n")]),
    ('s-ovf-total', set(), [(OV, "        sum_weight = np.sum(weight[ii:])\n        data_decom[:, ii] = tmp / sum_weight\n        range_min[ii] = np.min(tmp) / sum_weight\n        range_max[ii] = np.max(tmp) / sum_weight\n",
                             "        sum_weight = weight[ii:].sum()\n        scaled = tmp / sum_weight\n        data_decom[:, ii] = scaled\n        range_min[ii] = scaled.min()\n        range_max[ii] = scaled.max()\n")]),
    ('s-bands-loop', set(), [(EF, "    for i in range(P):\n        n1 = int(round(min(bands[i, :]) * N))\n        n2 = int(round(max(bands[i, :]) * N))\n", "    for band in bands:\n        n1, n2 = (int(round(edge * N)) for edge in (min(band), max(band)))\n")]),
    ('s-activity-sum', set(), [(BA, "    bit_usage = np.mean(bits, axis=0) * 100\n", "    bit_usage = 100 * bits.sum(axis=0) / bits.shape[0]\n")]),
    ('s-activity-comp', set(), [(BA, "    bit_usage = np.mean(bits, axis=0) * 100\n", "    bit_usage = np.array([np.mean(bits[:, i]) * 100 for i in range(B)])\n")]),
    ('s-sweep-append', set(), [(ES, "    enob_sweep = np.zeros(m_bits)\n", "    enob_sweep = []\n"), (ES, "        enob_sweep[n_bits - 1] = spectrum_result['enob']\n", "        enob_sweep.append(spectrum_result['enob'])\n"),
                               (ES, "    # Plotting\n    if create_plot:", "    enob_sweep = np.array(enob_sweep)\n\n    # Plotting\n    if create_plot:")]),
    ('s-sine-diff', set(), [(SI, "    dnl = np.diff(cumulative_distribution[0:-1])\n", "    head = cumulative_distribution[:-1]\n    dnl = head[1:] - head[:-1]\n")]),
    ('s-sine-hist', set(), [(SI, "    counts, _ = np.histogram(codes_clipped, bins=bins)\n", "    counts = np.histogram(codes_clipped, bins)[0]\n")]),
    ('s-sine-bincount', set(), [(SI, "    counts, _ = np.histogram(codes_clipped, bins=bins)\n", "    counts = np.bincount(codes_clipped - c_min, minlength=c_max - c_min + 1)\n")]),
    ('s-dec-order', set(), [(DH, "    magnitudes = np.abs(coeffs) * 2\n    phases = np.angle(coeffs)\n", "    phases = np.angle(coeffs)\n    magnitudes = 2 * np.abs(coeffs)\n")]),
    ('s-dec-hypot', set(), [(DH, "    magnitudes = np.abs(coeffs) * 2\n", "    magnitudes = 2 * np.hypot(cos_coeffs, sin_coeffs)\n")]),
    ('s-value-hist', set(), [(BV, "    count_per_bin = np.bincount(valid_indices, minlength=n_bins)\n", "    count_per_bin = np.histogram(valid_indices, bins=np.arange(n_bins + 1))[0]\n")]),
    ('s-value-copy', set(), [(BV, "    valid_error = error[valid_mask]\n", "    valid_error = np.compress(valid_mask, error)\n")]),
    ('s-sar-geom', set(), [(SAR, "    w = [2 ** (num_bits - 1 - i) for i in range(num_bits)]\n", "    w = [2 ** i for i in reversed(range(num_bits))]\n")]),
    # ---- breaking
    ('s-irfft-drop', {'P23'}, [(FD, "np.fft.irfft(X, n=N)", "np.fft.irfft(X)")]),
    ('s-acf-one-short', {'P23'}, [(AC, "np.arange(-max_lag, max_lag + 1)", "np.arange(-max_lag, max_lag)")]),
    ('s-centres-endpoint', {'P23'}, [(BP, "np.linspace(0, 2 * np.pi, n_bins, endpoint=False) + bin_width / 2", "np.linspace(0, 2 * np.pi, n_bins + 1) + bin_width / 2")]),
    ('s-ramp-noprefix', {'P23'}, [(RA, "np.concatenate(([0.0], np.cumsum(dnl)))", "np.cumsum(dnl)"), (RA, "transition_code = np.arange(code[0], code[-1] + 2, dtype=np.int64)", "transition_code = np.arange(code[0], code[-1] + 1, dtype=np.int64)")]),
    ('s-sine-codes', {'P23'}, [(SI, "    valid_codes = code_axis[0:-2]\n", "    valid_codes = code_axis[0:-1]\n")]),
    ('s-dec-odd', {'P23'}, [(DH, "cos_coeffs = W[1:2*n_harmonics:2]", "cos_coeffs = W[1:2*n_harmonics-1:2]"), (DH, "sin_coeffs = W[2:2*n_harmonics+1:2]", "sin_coeffs = W[2:2*n_harmonics:2]"), (DH, "    harmonic_order = np.arange(1, n_harmonics + 1)\n", "    harmonic_order = np.arange(1, n_harmonics)\n")]),
    ('s-mismatch-short', {'P23'}, [(EM, "    offsets = np.empty(M, dtype=float)\n", "    offsets = np.empty(M + 1, dtype=float)\n")]),
    ('s-ovf-short', {'P23'}, [(OV, "    ovf_percent_one = np.zeros(M)\n", "    ovf_percent_one = np.zeros(M + 1)\n")]),
    ('s-sweep-short', {'P23'}, [(ES, "    n_bits_vec = np.arange(1, m_bits + 1)\n", "    n_bits_vec = np.arange(1, m_bits)\n")]),
]
