"""Edits for P16 (internal errors), P18 (result entries) and P20 (refused settings)."""
NORMALISED = True
IDS = ['P16', 'P18', 'P20']
SAR = 'models/sar.py'
PO = 'oversampling/perfosr.py'
PDF = 'aout/analyze_error_pdf.py'
REV = 'aout/rearrange_error_by_value.py'
BIN = 'spectrum/_bin_ranges.py'
FD = 'timeinterleave/fractional_delay.py'
DE = 'timeinterleave/deinterleave.py'
NP_ = 'spectrum/_estimate_noise_power.py'
LITE = 'calibration/calibrate_weight_sine_lite.py'
CF = 'timeinterleave/calibrate_foreground.py'
RAMP = 'aout/compute_inl_from_ramp.py'
SW = 'spectrum/sweep_performance_vs_osr.py'
OVF = 'dout/analyze_overflow.py'
SIG = 'siggen/nonidealities.py'
EPP = 'aout/analyze_error_phase_plane.py'
INC = "    if v_max <= v_min:\n        raise ValueError(f'quant_range must be increasing, got {quant_range}')\n"
FIN = "    if not np.isfinite(v_min) or not np.isfinite(v_max):\n        raise ValueError('quant_range values must be finite')\n"
LEN = "    if len(quant_range) != 2:\n        raise ValueError(f'quant_range must contain exactly 2 values, got {len(quant_range)}')\n    v_min, v_max = (float(quant_range[0]), float(quant_range[1]))\n"
RES = "    result = {'err_lsb': err_lsb, 'mu': mu, 'sigma': sigma, 'kl_divergence': kl_divergence, 'x': x, 'pdf': fx, 'gauss_pdf': gauss_pdf}\n"
HARM = "    if harmonic < 1 or int(harmonic) != harmonic:\n"
TAPS = "    if n_taps % 2 == 0 or n_taps < 1:\n"
OSR = "    if osr <= 0:\n        raise ValueError('osr must be positive')\n"
CASES = [
    # ---- P20, behaviour preserving
    ('g-not-greater', set(), [(SAR, "    if v_max <= v_min:\n", "    if not v_max > v_min:\n")]),
    ('g-difference', set(), [(SAR, "    if v_max <= v_min:\n", "    if v_max - v_min <= 0:\n")]),
    ('g-diff-array', set(), [(SAR, "    if v_max <= v_min:\n", "    if np.diff([v_min, v_max])[0] <= 0:\n")]),
    ('g-helper-raises', set(), [(SAR, "def _parse_quant_range(", "def _refuse(msg):\n    raise ValueError(msg)\n\ndef _parse_quant_range("), (SAR, "        raise ValueError(f'quant_range must be increasing, got {quant_range}')", "        _refuse(f'quant_range must be increasing, got {quant_range}')")]),
    ('g-helper-checks', set(), [(SAR, "def _parse_quant_range(", "def _increasing(lo, hi):\n    return hi > lo\n\ndef _parse_quant_range("), (SAR, "    if v_max <= v_min:\n", "    if not _increasing(v_min, v_max):\n")]),
    ('g-all-finite', set(), [(SAR, "    if not np.isfinite(v_min) or not np.isfinite(v_max):\n", "    if not all((np.isfinite(v) for v in (v_min, v_max))):\n")]),
    ('g-np-all-finite', set(), [(SAR, "    if not np.isfinite(v_min) or not np.isfinite(v_max):\n", "    if not np.all(np.isfinite([v_min, v_max])):\n")]),
    ('g-math-finite', set(), [(SAR, "    if not np.isfinite(v_min) or not np.isfinite(v_max):\n", "    import math\n    if not (math.isfinite(v_min) and math.isfinite(v_max)):\n")]),
    ('g-unpack-try', set(), [(SAR, LEN, "    try:\n        lo, hi = quant_range\n    except ValueError:\n        raise ValueError(f'quant_range must contain exactly 2 values, got {len(quant_range)}')\n    v_min, v_max = (float(lo), float(hi))\n")]),
    ('g-map-float', set(), [(SAR, "    v_min, v_max = (float(quant_range[0]), float(quant_range[1]))\n", "    v_min, v_max = map(float, quant_range)\n")]),
    ('g-one-test', set(), [(SAR, FIN + INC, "    if not np.isfinite(v_min) or not np.isfinite(v_max) or v_max <= v_min:\n        raise ValueError('quant_range must be finite and increasing')\n")]),
    ('g-subclass', set(), [(SAR, "def _parse_quant_range(", "class QuantRangeError(ValueError):\n    pass\n\ndef _parse_quant_range("), (SAR, "        raise ValueError(f'quant_range must be increasing, got {quant_range}')", "        raise QuantRangeError(f'quant_range must be increasing, got {quant_range}')")]),
    ('g-harm-nested', set(), [(PO, HARM, "    whole = int(harmonic) == harmonic\n    if not (whole and harmonic >= 1):\n")]),
    ('g-harm-mod', set(), [(PO, HARM, "    if harmonic < 1 or harmonic % 1 != 0:\n")]),
    ('g-harm-isinteger', set(), [(PO, HARM, "    if harmonic < 1 or not float(harmonic).is_integer():\n")]),
    ('g-osr-min', set(), [(PO, "        if np.any(osr_arr <= 0):\n", "        if np.min(osr_arr) <= 0:\n")]),
    ('g-osr-genexp', set(), [(PO, "        if np.any(osr_arr <= 0):\n", "        if any((o <= 0 for o in osr_arr.ravel())):\n")]),
    ('g-osr-notall', set(), [(PO, "        if np.any(osr_arr <= 0):\n", "        if not np.all(osr_arr > 0):\n")]),
    ('g-smooth-split', set(), [(PO, "    if smooth is not None and smooth < 1:\n        raise ValueError('smooth must be at least 1')\n", "    if smooth is not None:\n        if smooth < 1:\n            raise ValueError('smooth must be at least 1')\n")]),
    ('g-taps-bit', set(), [(FD, TAPS, "    if n_taps < 1 or not n_taps & 1:\n")]),
    ('g-taps-odd', set(), [(FD, TAPS, "    odd = n_taps % 2 == 1\n    if not odd or n_taps <= 0:\n")]),
    ('g-taps-divmod', set(), [(FD, TAPS, "    P0, odd = divmod(n_taps, 2)\n    if not odd or P0 < 0:\n")]),
    ('g-osr-loop', set(), [(BIN, "    if n_fft <= 0:\n        raise ValueError('n_fft must be positive')\n" + OSR, "    for name, value in (('n_fft', n_fft), ('osr', osr)):\n        if value <= 0:\n            raise ValueError(name + ' must be positive')\n")]),
    ('g-osr-swap', set(), [(BIN, "    if n_fft <= 0:\n        raise ValueError('n_fft must be positive')\n" + OSR, OSR + "    if n_fft <= 0:\n        raise ValueError('n_fft must be positive')\n")]),
    ('g-osr-flipped', set(), [(BIN, "    if osr <= 0:\n", "    if not 0 < osr:\n")]),
    ('g-freq-nested', set(), [(LITE, "    if freq is not None and freq > 0.5:\n", "    limit = 0.5\n    if freq is not None and (not freq <= limit):\n")]),
    ('g-sizes-set', set(), [(CF, "    if not (offset.size == M and gain.size == M and (skew.size == M)):\n", "    if {offset.size, gain.size, skew.size} != {M}:\n")]),
    ('g-sizes-any', set(), [(CF, "    if not (offset.size == M and gain.size == M and (skew.size == M)):\n", "    if any((v.size != M for v in (offset, gain, skew))):\n")]),
    ('g-sizes-len', set(), [(CF, "    if not (offset.size == M and gain.size == M and (skew.size == M)):\n", "    if len(offset) != M or len(gain) != M or len(skew) != M:\n")]),
    ('g-dim-shape', set(), [(DE, "    if channels.ndim != 2:\n", "    if len(channels.shape) != 2:\n")]),
    ('g-dim-npndim', set(), [(DE, "    if channels.ndim != 2:\n", "    if np.ndim(channels) != 2:\n")]),
    ('g-dim-first', set(), [(DE, "    if x.ndim != 1:\n", "    dims = x.ndim\n    if dims == 0 or dims > 1:\n")]),
    ('g-units-tuple', set(), [(EPP, "    valid_unit_modes = {'auto', 'normalized_fs', 'voltage', 'code'}\n", "    valid_unit_modes = ('auto', 'normalized_fs', 'voltage', 'code')\n")]),
    ('g-units-chain', set(), [(EPP, "    if unit_mode not in valid_unit_modes:\n", "    if not any((unit_mode == u for u in valid_unit_modes)):\n")]),
    ('g-bins-numbers', set(), [(REV, "    if not isinstance(n_bins, (int, np.integer)) or n_bins <= 0:\n", "    if not (isinstance(n_bins, (int, np.integer)) and n_bins >= 1):\n")]),
    ('g-order-range', set(), [(SIG, "order not in [1, 2, 3, 4, 5]", "order not in range(1, 6)")]),
    ('g-order-interval', set(), [(SIG, "order not in [1, 2, 3, 4, 5]", "not 1 <= order <= 5")]),
    ('g-value-unpack', set(), [(REV, "        range_min, range_max = value_range\n", "        range_min = value_range[0]\n        range_max = value_range[1]\n")]),
    # ---- P20, breaking
    ('b-increasing-lt', {'P20'}, [(SAR, "    if v_max <= v_min:\n", "    if v_max < v_min:\n")]),
    ('b-finite-one', {'P20'}, [(SAR, "    if not np.isfinite(v_min) or not np.isfinite(v_max):\n", "    if not np.isfinite(v_min):\n")]),
    ('b-finite-and', {'P20'}, [(SAR, "    if not np.isfinite(v_min) or not np.isfinite(v_max):\n", "    if not np.isfinite(v_min) and (not np.isfinite(v_max)):\n")]),
    ('b-len-more', {'P20'}, [(SAR, "    if len(quant_range) != 2:\n", "    if len(quant_range) < 2:\n")]),
    ('b-harm-fraction', {'P20'}, [(PO, HARM, "    if harmonic < 1:\n")]),
    ('b-harm-two', {'P20'}, [(PO, HARM, "    if harmonic < 2 or int(harmonic) != harmonic:\n")]),
    ('b-taps-and', {'P20'}, [(FD, TAPS, "    if n_taps % 2 == 0 and n_taps < 1:\n")]),
    ('b-osr-zero', {'P20'}, [(BIN, "    if osr <= 0:\n", "    if osr < 0:\n")]),
    ('b-osr-one', {'P20'}, [(BIN, "    if osr <= 0:\n", "    if osr <= 1:\n")]),
    ('b-osr-assert', {'P20'}, [(BIN, OSR, "    osr = max(osr, 1)\n")]),
    ('b-freq-edge', {'P20'}, [(LITE, "freq > 0.5:", "freq >= 0.5:")]),
    ('b-freq-off', {'P20'}, [(LITE, "freq > 0.5:", "freq > 1.0:")]),
    ('b-sizes-skew', {'P20'}, [(CF, "gain.size == M and (skew.size == M)", "gain.size == M")]),
    ('b-units-fallback', {'P20'}, [(EPP, "        raise ValueError(f'unit_mode must be one of {sorted(valid_unit_modes)}')", "        unit_mode = 'auto'")]),
    ('b-method-default', {'P20'}, [(NP_, "    elif nf_method == 3:\n", "    else:\n")]) if False else
    ('b-order-six', {'P20'}, [(SIG, "order not in [1, 2, 3, 4, 5]", "order < 1")]),
    ('b-order-five', {'P20'}, [(SIG, "order not in [1, 2, 3, 4, 5]", "order not in [1, 2, 3, 4]")]),
    ('b-sigma', {'P20'}, [(SAR, "if not np.isfinite(sigma) or sigma < 0:", "if not np.isfinite(sigma):")]),
    ('b-range-max-second-guard', set(), [(REV, "or range_min >= range_max:", "or range_min > range_max:")]),
    # ---- P18, behaviour preserving
    ('f-dict-call', set(), [(PDF, RES, "    result = dict(err_lsb=err_lsb, mu=mu, sigma=sigma, kl_divergence=kl_divergence, x=x, pdf=fx, gauss_pdf=gauss_pdf)\n")]),
    ('f-update', set(), [(PDF, RES, "    result = {}\n    result.update(err_lsb=err_lsb, mu=mu, sigma=sigma)\n    result.update({'kl_divergence': kl_divergence, 'x': x, 'pdf': fx, 'gauss_pdf': gauss_pdf})\n")]),
    ('f-zip', set(), [(PDF, RES, "    result = dict(zip(('err_lsb', 'mu', 'sigma', 'kl_divergence', 'x', 'pdf', 'gauss_pdf'), (err_lsb, mu, sigma, kl_divergence, x, fx, gauss_pdf)))\n")]),
    ('f-comprehension', set(), [(PDF, RES, "    result = {k: v for k, v in [('err_lsb', err_lsb), ('mu', mu), ('sigma', sigma), ('kl_divergence', kl_divergence), ('x', x), ('pdf', fx), ('gauss_pdf', gauss_pdf)]}\n")]),
    ('f-loop', set(), [(PDF, RES, "    result = {}\n    for k, v in (('err_lsb', err_lsb), ('mu', mu), ('sigma', sigma), ('kl_divergence', kl_divergence), ('x', x), ('pdf', fx), ('gauss_pdf', gauss_pdf)):\n        result[k] = v\n")]),
    ('f-merge', set(), [(PDF, RES, "    stats = {'mu': mu, 'sigma': sigma, 'kl_divergence': kl_divergence}\n    result = {'err_lsb': err_lsb, **stats, 'x': x, 'pdf': fx, 'gauss_pdf': gauss_pdf}\n")]),
    ('f-or-merge', set(), [(PDF, RES, "    stats = {'mu': mu, 'sigma': sigma, 'kl_divergence': kl_divergence}\n    result = stats | {'err_lsb': err_lsb, 'x': x, 'pdf': fx, 'gauss_pdf': gauss_pdf}\n")]),
    ('f-helper', set(), [(PDF, RES, "    result = _pack(err_lsb, mu, sigma, kl_divergence, x, fx, gauss_pdf)\n"), (PDF, "def analyze_error_pdf(", "def _pack(err_lsb, mu, sigma, kl, x, fx, g):\n    return {'err_lsb': err_lsb, 'mu': mu, 'sigma': sigma, 'kl_divergence': kl, 'x': x, 'pdf': fx, 'gauss_pdf': g}\n\ndef analyze_error_pdf(")]),
    ('f-fromkeys', set(), [(PDF, RES, "    result = dict.fromkeys(('err_lsb', 'mu', 'sigma', 'kl_divergence', 'x', 'pdf', 'gauss_pdf'))\n    result['err_lsb'] = err_lsb\n    result['mu'], result['sigma'] = (mu, sigma)\n    result['kl_divergence'] = kl_divergence\n    result['x'] = x\n    result['pdf'] = fx\n    result['gauss_pdf'] = gauss_pdf\n")]),
    ('f-both-branches', set(), [(PDF, RES, "    result = {'err_lsb': err_lsb, 'mu': mu, 'sigma': sigma, 'kl_divergence': kl_divergence, 'x': x, 'pdf': fx}\n    if sigma > 0:\n        result['gauss_pdf'] = gauss_pdf\n    else:\n        result['gauss_pdf'] = gauss_pdf\n")]),
    ('f-setdefault', set(), [(PDF, RES, RES + "    result.setdefault('gauss_pdf', None)\n")]),
    ('f-extra', set(), [(PDF, RES, RES + "    result['bandwidth'] = h\n")]),
    ('f-copy', set(), [(PDF, "    return result\n", "    return dict(result)\n")]),
    # ---- P18, breaking
    ('f-conditional', {'P18'}, [(PDF, RES, RES.replace(", 'gauss_pdf': gauss_pdf", "") + "    if np.all(np.isfinite(gauss_pdf)):\n        result['gauss_pdf'] = gauss_pdf\n")]),
    ('f-early', {'P18'}, [(PDF, "    mu = np.mean(err_lsb)\n", "    mu = np.mean(err_lsb)\n    if max_abs_noise == 0:\n        return {'err_lsb': err_lsb, 'mu': mu}\n")]),
    ('f-pop', {'P18'}, [(PDF, "    return result\n", "    if not np.isfinite(kl_divergence):\n        result.pop('kl_divergence')\n    return result\n")]),
    ('f-rename', {'P18'}, [(PDF, "'kl_divergence': kl_divergence", "'kl': kl_divergence")]),
    ('f-plot-only', {'P18'}, [(PDF, RES, RES.replace(", 'gauss_pdf': gauss_pdf", "") + "    if create_plot:\n        result['gauss_pdf'] = gauss_pdf\n")]),
    ('f-filter', {'P18'}, [(PDF, "    return result\n", "    return {k: v for k, v in result.items() if v is not None and k != 'x'}\n")]),
    # ---- P16, behaviour preserving
    ('n-lazy-import', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    from scipy.stats import norm\n    mu = np.mean(err_lsb)\n")]),
    ('n-try-import', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    try:\n        import numba\n    except ImportError:\n        numba = None\n    mu = np.mean(err_lsb)\n")]),
    ('n-del', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    tmp = err_lsb\n    del tmp\n    mu = np.mean(err_lsb)\n")]),
    ('n-partial', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    import functools\n    mean = functools.partial(np.mean, axis=None)\n    mu = mean(err_lsb)\n")]),
    ('n-getattr', set(), [(PDF, "        ax.grid(True, alpha=0.3)\n", "        getattr(ax, 'grid')(True, alpha=0.3)\n")]),
    ('n-while-break', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    while True:\n        mu = np.mean(err_lsb)\n        break\n")]),
    ('n-try-else', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    try:\n        m0 = np.mean(err_lsb)\n    except FloatingPointError:\n        raise\n    else:\n        mu = m0\n")]),
    ('n-flag-correlated', set(), [(PDF, "        if title is not None:\n", "        has = title is not None\n        if has:\n            label = str(title)\n        if has:\n            title = label\n        if title is not None:\n")]),
    ('n-correlated-data', set(), [(PDF, "    dx = x[1] - x[0]\n", "    if sigma > 0:\n        inv = 1 / sigma\n    dx = x[1] - x[0]\n    if sigma > 0:\n        inv2 = inv * inv\n")]),
    ('n-nested-nonlocal', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    mu = 0.0\n\n    def _mean():\n        nonlocal mu\n        mu = np.mean(err_lsb)\n    _mean()\n")]),
    ('n-kwargs-pop', set(), [(PDF, "    fit_kwargs = {'max_iterations': max_iterations, 'tolerance': tolerance}\n", "    fit_kwargs = {'max_iterations': max_iterations, 'tolerance': tolerance, 'unused': 1}\n    fit_kwargs.pop('unused')\n")]),
    ('n-for-else', set(), [(PDF, "    mu = np.mean(err_lsb)\n", "    for _ in range(3):\n        mu = np.mean(err_lsb)\n        if mu == mu:\n            break\n    else:\n        mu = 0.0\n")]),
    ('n-slope-helper', set(), [(SW, "            ax_main = ax\n", "            ax_main = ax\n            ax_slope = None\n")]),
    ('n-slope-own', set(), [(SW, "if make_slope and len(osr) >= 3:", "if ax is None and len(osr) >= 3:")]),
    # ---- P16, breaking
    ('n-slope-unbound', {'P16'}, [(SW, "if make_slope and len(osr) >= 3:", "if len(osr) >= 3:")]),
    ('n-bad-import', {'P16'}, [(PDF, "    mu = np.mean(err_lsb)\n", "    from adctoolbox.fundamentals.fits import fit_sine\n    mu = np.mean(err_lsb)\n")]),
    ('n-bad-np', {'P16'}, [(PDF, "    mu = np.mean(err_lsb)\n", "    mu = np.average_of(err_lsb)\n")]),
    ('n-bad-name', {'P16'}, [(PDF, "        if title is not None:\n            ax.set_title(title, fontsize=12)\n", "        if title is not None:\n            ax.set_title(titel, fontsize=12)\n")]),
    ('n-bad-kw', {'P16'}, [(PDF, "fit_sine_4param(signal, frequency_estimate=frequency, **fit_kwargs)", "fit_sine_4param(signal, freq_estimate=frequency, **fit_kwargs)")]),
    ('n-bad-kw-dict', {'P16'}, [(PDF, "'tolerance': tolerance}", "'tol': tolerance}")]),
    ('n-none-format', {'P16'}, [(PDF, "        ax.set_xlabel('Error (LSB)')\n", "        ax.set_xlabel(f'Error (LSB), fin={frequency:.3f}')\n")]),
    ('n-bad-key', {'P16'}, [(PDF, "    sig_ideal = fit_result['fitted_signal']\n", "    sig_ideal = fit_result['fit']\n")]),
]
