"""Edits of wrappers and plotting functions that the other batteries do not touch (development aid)."""
PO, EV, EE, ES = 'spectrum/plot_spectrum_polar.py', 'aout/analyze_error_by_value.py', 'aout/analyze_error_envelope_spectrum.py', 'aout/analyze_error_spectrum.py'
IR, DP = 'aout/analyze_inl_from_ramp.py', 'aout/plot_decomposition_polar.py'

CASES = [
    ('w-po-mag', set(), [(PO, "    spec_polar = phi * radius\n    phase = np.angle(spec_polar)\n    mag = np.abs(spec_polar)\n", "    points = phi * radius\n    mag, phase = np.abs(points), np.angle(points)\n    spec_polar = points\n")]),
    ('w-po-ref', set(), [(PO, "    if fixed_radial_range is not None:\n        reference_dB = -fixed_radial_range\n        mag_dB = np.maximum(mag_dB, reference_dB)\n        radius = mag_dB - reference_dB\n    else:\n        mag_dB = np.maximum(mag_dB, minR_dB)\n        radius = mag_dB - minR_dB\n", "    reference_dB = minR_dB if fixed_radial_range is None else -fixed_radial_range\n    radius = np.maximum(mag_dB, reference_dB) - reference_dB\n")]),
    ('w-po-h', set(), [(PO, '    for h in range(2, max_harmonic_to_plot + 1):\n        # Skip if this harmonic collides with fundamental (collision makes plotting meaningless)\n        if h in collided_harmonics:\n            continue\n\n        harmonic_bin = int(harmonic_bins[h - 2])\n\n        # Skip if this harmonic aliases to DC (bin 0)\n        if harmonic_bin == 0:\n            continue\n', "    for h, where in enumerate(harmonic_bins[:max(max_harmonic_to_plot - 1, 0)], start=2):\n        harmonic_bin = int(where)\n        if h in collided_harmonics or harmonic_bin == 0:\n            continue\n")]),
    ('w-ev-kw', set(), [(EV, "    if create_plot:\n        plot_rearranged_error_by_value(results, axes=axes, ax=ax, title=title)\n\n    return results", "    if not create_plot:\n        return results\n    plot_rearranged_error_by_value(results, axes=axes, ax=ax, title=title)\n    return results")]),
    ('w-ee-fit', set(), [(EE, "    if frequency is None:\n        fit_result = fit_sine_4param(signal, **fit_kwargs)\n    else:\n        fit_result = fit_sine_4param(signal, frequency_estimate=frequency, **fit_kwargs)\n", "    if frequency is not None:\n        fit_kwargs['frequency_estimate'] = frequency\n    fit_result = fit_sine_4param(signal, **fit_kwargs)\n")]),
    ('w-ee-helper', set(), [(EE, "    env = np.abs(hilbert(e))\n", "    analytic = hilbert(e)\n    env = np.sqrt(analytic.real**2 + analytic.imag**2)\n")]),
    ('w-es-dict', set(), [(ES, "    result['error_signal'] = error_signal\n    if return_fit:\n        result['fit'] = extract_fit_diagnostics(fit_result)\n\n    return result", "    extra = {'error_signal': error_signal}\n    if return_fit:\n        extra['fit'] = extract_fit_diagnostics(fit_result)\n    return {**result, **extra}")]),
    ('w-es-order', set(), [(ES, "    if create_plot and ax is None:\n        ax = plt.gca()\n    result =", "    if create_plot:\n        ax = plt.gca() if ax is None else ax\n    result =")]),
    ('w-ir-kw', set(), [(IR, "    result = compute_inl_from_ramp(\n        codes=codes,\n        num_bits=num_bits,\n        code_min=code_min,\n        code_max=code_max,\n        endpoint=endpoint,\n        exclude_endpoints=exclude_endpoints,\n    )\n", "    settings = dict(num_bits=num_bits, code_min=code_min, code_max=code_max)\n    result = compute_inl_from_ramp(codes, endpoint=endpoint, exclude_endpoints=exclude_endpoints, **settings)\n")]),
    ('w-dp-split', set(), [(DP, "    required_keys = ['magnitudes', 'phases', 'magnitudes_db', 'noise_db']\n    for key in required_keys:\n        if key not in results:\n            raise ValueError(f\"results must contain '{key}' key\")\n", "    missing = [key for key in ('magnitudes', 'phases', 'magnitudes_db', 'noise_db') if key not in results]\n    if missing:\n        raise ValueError(f\"results must contain '{missing[0]}' key\")\n")]),
    ('w-dp-radius', set(), [(DP, "    minR_dB = min(np.min(magnitudes_db), noise_db) - 10\n    # Round minR to nearest 10 dB\n    minR_dB = np.floor(minR_dB / 10) * 10\n", "    lowest = min(np.min(magnitudes_db), noise_db)\n    minR_dB = np.floor((lowest - 10) / 10) * 10\n")]),
    # ---- breaking
    ('w-b-poinplace', {'P01', 'P02', 'P13'}, [(PO, "    phi = spec / (np.abs(spec) + 1e-20)\n", "    phi = spec\n    phi /= (np.abs(spec) + 1e-20)\n")]),
    ('w-b-pocoll', {'P01', 'P02', 'P13'}, [(PO, "    max_harmonic_to_plot = min(harmonic, len(harmonic_bins) + 1)\n", "    max_harmonic_to_plot = min(harmonic, len(harmonic_bins) + 1)\n    collided_harmonics.sort(reverse=True)\n")]),
    ('w-b-dppop', {'P01', 'P02', 'P13'}, [(DP, "    noise_db = results['noise_db']\n", "    noise_db = results.pop('noise_db')\n")]),
    ('w-b-eefreq', {'P21', 'P17', 'P11', 'P18', 'P15', 'P22'}, [(EE, "frequency_estimate=frequency, **fit_kwargs)", "**fit_kwargs)")]),
    ('w-b-estol', {'P21', 'P15', 'P18', 'P17'}, [(ES, '"tolerance": tolerance}', '"tolerance": 1e-9}')]),
    ('w-b-evrange', {'P21', 'P15', 'P18', 'P17'}, [(EV, "        value_range=value_range,\n", "")]),
    ('w-b-irexcl', {'P21', 'P15', 'P18', 'P17'}, [(IR, "        exclude_endpoints=exclude_endpoints,\n", "")]),
    ('w-b-irnocodes', {'P13', 'P21', 'P15', 'P20', 'P17'}, [(IR, '    if input_type != "codes":\n', '    if input_type not in ("codes", "voltage"):\n')]),
    ('w-b-esplot', {'P13', 'P18', 'P05', 'P06', 'P17', 'P15'}, [(ES, "    result['error_signal'] = error_signal\n", "        result['error_signal'] = error_signal\n")]),
    ('w-b-eeplot', {'P13', 'P18', 'P05', 'P06', 'P17', 'P15'}, [(EE, "    if create_plot and ax is None:\n        ax = plt.gca()\n", "    if ax is None:\n        ax = plt.gca()\n")]),
    ('w-b-dpax', {'P05', 'P06', 'P07', 'P08', 'P13', 'P16'}, [(DP, "    if ax is None:\n        ax = plt.gca()\n", "    ax = plt.gca()\n")]),
    ('w-b-poax', {'P05', 'P06', 'P07', 'P08', 'P13', 'P16'}, [(PO, "    if ax is None:\n        ax = plt.gca()\n", "    ax = plt.gca()\n")]),
]
