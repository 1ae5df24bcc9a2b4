PRE = 'spectrum/_prepare_fft_input.py'
SIG = 'siggen/nonidealities.py'
PDF = 'aout/analyze_error_pdf.py'
SAR = 'models/sar.py'
FIT = 'fundamentals/fit_sine_4param.py'
OVF = 'dout/analyze_overflow.py'
RAD = 'dout/analyze_weight_radix.py'
AS = 'spectrum/analyze_spectrum.py'
WIN = 'spectrum/_window.py'
IDS = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08']
CASES = [
    # ---- P01
    ('p01-inplace-mean', {'P01'}, [(PRE, "data_dc_removed = data - np.mean(data, axis=1, keepdims=True)", "data_dc_removed = data\n    data_dc_removed -= np.mean(data, axis=1, keepdims=True)")]),
    ('p01-out-kw', {'P01'}, [(PRE, "data_dc_removed = data - np.mean(data, axis=1, keepdims=True)", "data_dc_removed = np.subtract(data, np.mean(data, axis=1, keepdims=True), out=data)")]),
    ('p01-nocopy-siggen', {'P01'}, [(SIG, "return input_signal.copy()", "return np.asarray(input_signal, dtype=float)")]),
    ('p01-copyto', {'P01'}, [(OVF, "    N, M = raw_code.shape\n", "    N, M = raw_code.shape\n    np.copyto(raw_code, np.clip(raw_code, 0, 1))\n")]),
    ('p01-clip-out', {'P01'}, [(OVF, "    N, M = raw_code.shape\n", "    N, M = raw_code.shape\n    np.clip(raw_code, 0, 1, out=raw_code)\n")]),
    ('p01-sort-method', {'P01'}, [(RAD, "weights = np.asarray(weights, dtype=float)", "weights = np.asarray(weights, dtype=float)\n    flat = weights.ravel()\n    flat[flat == 0] = 1e-300")]),
    ('p01-nan-to-num', {'P01'}, [(RAD, "weights = np.asarray(weights, dtype=float)", "weights = np.nan_to_num(np.asarray(weights, dtype=float), copy=False)")]),
    ('p01-put', {'P01'}, [(RAD, "is_negative = weights < 0", "is_negative = weights < 0\n    np.put(weights, [0], abs(weights[0]))")]),
    ('p01-at', {'P01'}, [(RAD, "is_negative = weights < 0", "is_negative = weights < 0\n    np.add.at(weights, [0], 0.5)")]),
    ('p01-place', {'P01'}, [(RAD, "is_negative = weights < 0", "is_negative = weights < 0\n    np.place(weights, weights == 0, 1e-12)")]),
    ('p01-putmask', {'P01'}, [(RAD, "is_negative = weights < 0", "is_negative = weights < 0\n    np.putmask(weights, weights == 0, 1e-12)")]),
    ('p01-fill-view', {'P01'}, [(RAD, "is_negative = weights < 0", "is_negative = weights < 0\n    tail = weights[4:]\n    tail.fill(0)")]),
    ('p01-loopvar', {'P01'}, [(OVF, "    N, M = raw_code.shape\n", "    N, M = raw_code.shape\n    for row in raw_code:\n        row[row > 1] = 1\n")]),
    ('p01-helper', {'P01'}, [(OVF, "    N, M = raw_code.shape\n", "    N, M = raw_code.shape\n    _sat(raw_code)\n"), (OVF, "\ndef analyze_overflow(", "\ndef _sat(x):\n    x[x > 1] = 1\n\n\ndef analyze_overflow(")]),
    ('p01-dict-pop', {'P01'}, [('spectrum/plot_spectrum.py', "    ", "    ")]) if False else
    ('p01-dict-pop', {'P01'}, [('spectrum/plot_spectrum.py', "metrics = ", "compute_results.pop('N', None)\n    metrics = ")]),
    ('p01-residual-inplace', {'P01'}, [(FIT, "    residuals = y - fitted_sig\n", "    y -= fitted_sig\n    residuals = y\n")]),
    ('p01-rng-shuffle', {'P01'}, [(RAD, "is_negative = weights < 0", "is_negative = weights < 0\n    weights.sort()")]),
    ('p01-setflags', {'P01', 'P02'}, [(RAD, "is_negative = weights < 0", "is_negative = weights < 0\n    weights.setflags(write=False)")]),
    ('p01-shape-assign', {'P01'}, [(OVF, "        raw_code = raw_code.reshape(-1, 1)", "        raw_code.shape = (-1, 1)")]),
    ('p01-swapaxes', {'P01'}, [(OVF, "    N, M = raw_code.shape\n", "    N, M = raw_code.shape\n    rt = np.swapaxes(raw_code, 0, 1)\n    rt[0] = rt[0] > 0\n")]),
    ('p01-where-view', {'P01'}, [(OVF, "    N, M = raw_code.shape\n", "    N, M = raw_code.shape\n    w2 = weight[::-1]\n    w2 /= 1.0\n")]),
    ('p01-walrus', {'P01'}, [(RAD, "is_negative = weights < 0", "if (ww := weights).size:\n        ww[0] = ww[0]\n    is_negative = weights < 0")]),
    ('p01-exp-aug', {'P01'}, [(RAD, "abs_weights = np.abs(weights)", "abs_weights = np.abs(weights, weights)")]),
    # ---- P02
    ('p02-memo', {'P02'}, [(WIN, "def _create_window(", "_CACHE = {}\n\n\ndef _create_window("), (WIN, "    window_gain = np.sum", "    _CACHE[win_lower, N] = window_vector\n    window_gain = np.sum")]),
    ('p02-lru', {'P02'}, [(WIN, "def _create_window(", "import functools\n\n\n@functools.lru_cache(maxsize=8)\ndef _create_window(")]),
    ('p02-default', {'P02'}, [(PDF, "max_abs_noise = np.max", "_seen.append(mu0)\n    max_abs_noise = np.max"), (PDF, "import numpy as np", "import numpy as np\n_seen = []\nmu0 = 1")]),
    ('p02-fnattr', {'P02'}, [(WIN, "    window_gain = np.sum", "    _create_window.last = win_lower\n    window_gain = np.sum")]),
    ('p02-errstate', {'P02'}, [(PDF, "    dx = x[1] - x[0]", "    np.seterr(divide='ignore')\n    dx = x[1] - x[0]")]),
    ('p02-warnfilter', {'P02'}, [(FIT, "    if max_iter > 0 and not converged:", "    warnings.simplefilter('always')\n    if max_iter > 0 and not converged:")]),
    ('p02-printopts', {'P02'}, [(FIT, "    if max_iter > 0 and not converged:", "    np.set_printoptions(precision=4)\n    if max_iter > 0 and not converged:")]),
    ('p02-rc', {'P02', 'P05', 'P07'}, [('spectrum/plot_spectrum.py', "metrics = ", "plt.rcParams['font.size'] = 9\n    metrics = ")]),
    ('p02-selfattr', {'P02'}, [(SIG, "        noise = np.random.randn(self.N) * noise_rms\n", "        self.A = self.A * 1.0\n        noise = np.random.randn(self.N) * noise_rms\n")]),
    ('p02-selft', {'P02'}, [(SIG, "            t_sample = self.t + t_jitter", "            t_sample = self.t\n            t_sample += t_jitter")]),
    ('p02-table', {'P02'}, [(WIN, "    return _SIDE_BIN_DEFAULTS[win_key]['coherent']", "    d = _SIDE_BIN_DEFAULTS[win_key]\n    d['coherent'] = int(d['coherent'])\n    return d['coherent']")]),
    ('p02-setdefault', {'P02'}, [(WIN, "    return _SIDE_BIN_AUTO_FALLBACKS[win_key]", "    return _SIDE_BIN_AUTO_FALLBACKS.setdefault(win_key, 3)")]),
    ('p02-global-stmt', {'P02'}, [(WIN, "def _create_window(", "_LAST = None\n\n\ndef _create_window("), (WIN, "    win_lower = win_type.lower()\n", "    global _LAST\n    win_lower = win_type.lower()\n    _LAST = N\n")]),
    ('p02-global-array', {'P02'}, [(WIN, "def _create_window(", "_BUF = np.zeros(4)\n\n\ndef _create_window("), (WIN, "    window_gain = np.sum", "    _BUF[0] = N\n    window_gain = np.sum")]),
    ('p02-mutdefault', {'P02'}, [(SAR, "def sar_reconstruct(\n", "def _rc(x, acc=[]):\n    acc.append(1)\n    return x\n\n\ndef sar_reconstruct(\n"), (SAR, "    return (codes.astype(float) @", "    return _rc(codes.astype(float) @")]),
    ('p02-env', {'P02'}, [(FIT, "    n = len(y)\n", "    import os\n    n = len(y)\n    if os.environ.get('ADC_DEBUG'):\n        max_iter += 1\n")]),
    ('p02-time', {'P02'}, [(FIT, "    n_iterations = 0\n", "    import time\n    n_iterations = int(time.time()) * 0\n")]),
    # ---- P03
    ('p03-asarray', {'P03'}, [('spectrum/sweep_performance_vs_osr.py', "osr = np.array(osr, dtype=float)", "osr = np.asarray(osr, dtype=float)")]),
    ('p03-array-copyfalse', {'P03'}, [('spectrum/sweep_performance_vs_osr.py', "osr = np.array(osr, dtype=float)", "osr = np.array(osr, dtype=float, copy=None)")]),
    ('p03-identity-mismatch', {'P03'}, [(SAR, "    if rng is None:\n        rng = np.random.default_rng()\n    return np.asarray(weights, dtype=float) * ", "    if sigma == 0:\n        return np.asarray(weights, dtype=float)\n    if rng is None:\n        rng = np.random.default_rng()\n    return np.asarray(weights, dtype=float) * ")]),
    ('p03-siggen-passthru', {'P03'}, [(SIG, "        signal_ac = signal - self.DC\n", "        if input_signal is not None and k2 == k3 == k4 == k5 == 0:\n            return input_signal\n        signal_ac = signal - self.DC\n")]),
    ('p03-astype-nocopy', {'P03'}, [(RAD, "abs_weights = np.abs(weights)", "abs_weights = weights.astype(float, copy=False) if not np.any(is_negative) else np.abs(weights)"), (RAD, "radix = np.zeros(n_bits)", "radix = abs_weights")]),
    # ---- P04
    ('p04-global', {'P04'}, [(SAR, "return np.asarray(weights, dtype=float) * (1.0 + sigma * rng.standard_normal(len(weights)))", "return np.asarray(weights, dtype=float) * (1.0 + sigma * np.random.standard_normal(len(weights)))")]),
    ('p04-seeded-default', {'P04'}, [(SAR, "    if rng is None:\n        rng = np.random.default_rng()\n\n    vin_sampled", "    if rng is None:\n        rng = np.random.default_rng(0)\n\n    vin_sampled")]),
    ('p04-ignore', {'P04'}, [(SAR, "            comparator_noise_norm * rng.standard_normal(vin_norm.shape)", "            comparator_noise_norm * np.random.default_rng().standard_normal(vin_norm.shape)")]),
    ('p04-or', {'P04'}, [(SAR, "    if rng is None:\n        rng = np.random.default_rng()\n\n    vin_sampled", "    if rng is None or sampling_noise_rms:\n        rng = np.random.default_rng()\n\n    vin_sampled")]),
    ('p04-siggen-rng', {'P04'}, [(SIG, "noise = np.random.randn(self.N) * noise_rms", "noise = np.random.default_rng().standard_normal(self.N) * noise_rms")]),
    ('p04-seed', {'P04'}, [(SIG, "noise = np.random.randn(self.N) * noise_rms", "np.random.seed(0)\n        noise = np.random.randn(self.N) * noise_rms")]),
    ('p04-dither', {'P04'}, [(PDF, "    dx = x[1] - x[0]", "    fx = fx + 1e-18 * np.random.rand(len(fx))\n    dx = x[1] - x[0]")]),
    ('p04-pyrandom', {'P04'}, [(PDF, "    dx = x[1] - x[0]", "    import random\n    fx = fx + 1e-18 * random.random()\n    dx = x[1] - x[0]")]),
    # ---- P05/P06/P07/P08
    ('p05-unguarded', {'P05'}, [(PDF, "    # Plot if requested\n    if create_plot:", "    # Plot if requested\n    if create_plot or title is not None:")]),
    ('p05-fig-early', {'P05'}, [(PDF, "    # Fit ideal sine", "    if ax is None:\n        ax = plt.gca()\n    # Fit ideal sine")]),
    ('p05-forward', {'P05'}, [('dout/analyze_enob_sweep.py', "win_type=win_type, create_plot=False,", "win_type=win_type, create_plot=create_plot or m_bits < 3,")]),
    ('p06-mutate', {'P06'}, [(PDF, "        # Set title if provided\n", "        fx = fx / np.max(fx)\n        # Set title if provided\n")]),
    ('p06-alpha', {'P06'}, [(AS, "        max_harmonic=max_harmonic,\n", "        max_harmonic=max(max_harmonic, plot_harmonics_up_to),\n")]),
    ('p06-inplace', {'P06'}, [(OVF, "        if ax is None:\n            ax = plt.gca()\n", "        if ax is None:\n            ax = plt.gca()\n        range_min[range_min < 0] = 0\n")]),
    ('p06-logscale', {'P06'}, [('spectrum/sweep_performance_vs_osr.py', "        log_osr = np.log10(osr)", "        log_osr = np.log10(osr)\n            osr[0] = osr[0] + 0")]) if False else
    ('p06-verbose', {'P06'}, [(FIT, "            if abs(delta_freq) < tol:", "            if abs(delta_freq) < (tol if not verbose else tol / 10):")]),
    ('p07-sca', {'P07'}, [(PDF, "        ax.plot(x, fx, 'b-'", "        plt.sca(ax)\n        ax.plot(x, fx, 'b-'")]),
    ('p07-implicit', {'P07'}, [(PDF, "ax.set_xlabel('Error (LSB)')", "plt.xlabel('Error (LSB)')")]),
    ('p07-tight', {'P07'}, [(PDF, "        # Set title if provided\n", "        plt.tight_layout()\n        # Set title if provided\n")]),
    ('p07-show', {'P07'}, [(OVF, "        # Reference lines at 0", "        ax.figure.show()\n        plt.show()\n        # Reference lines at 0")]),
    ('p07-or', {'P07'}, [(OVF, "        if ax is None:\n            ax = plt.gca()\n", "        ax = plt.gca() if ax is None or M > 64 else ax\n")]),
    ('p08-print', {'P08'}, [(PDF, "    dx = x[1] - x[0]", "    if sigma == 0:\n        print('degenerate error')\n    dx = x[1] - x[0]")]),
    ('p08-stderr', {'P08'}, [(PDF, "    dx = x[1] - x[0]", "    import sys\n    if sigma == 0:\n        sys.stderr.write('degenerate error')\n    dx = x[1] - x[0]")]),
    ('p08-guard', {'P08'}, [(FIT, "            if verbose > 0:", "            if verbose >= 0:")]),
    # ---- behaviour preserving
    ('r-rename', set(), [(PRE, "data_dc_removed = data - np.mean(data, axis=1, keepdims=True)", "tmp = data\n    m = np.mean(tmp, axis=1, keepdims=True)\n    data_dc_removed = tmp - m")]),
    ('r-inplace-fresh', set(), [(PRE, "data_dc_removed = data - np.mean(data, axis=1, keepdims=True)", "data_dc_removed = np.array(data, dtype=float)\n    data_dc_removed -= np.mean(data, axis=1, keepdims=True)")]),
    ('r-helper', set(), [(PDF, "    max_abs_noise = np.max(np.abs(err_lsb))\n    xlim_range = max(0.5, max_abs_noise)\n    x = np.linspace(-xlim_range, xlim_range, 200)\n", "    x = _grid(err_lsb)\n"), (PDF, "\ndef analyze_error_pdf(", "\ndef _grid(e):\n    hi = max(0.5, np.max(np.abs(e)))\n    return np.linspace(-hi, hi, 200)\n\n\ndef analyze_error_pdf(")]),
    ('r-plot-helper', set(), [(PDF, "        ax.plot(x, fx, 'b-', linewidth=2, label='Actual PDF (KDE)')\n        ax.plot(x, gauss_pdf, 'r--', linewidth=2, label='Gaussian Fit')\n", "        _curves(ax, x, fx, gauss_pdf)\n"), (PDF, "\ndef analyze_error_pdf(", "\ndef _curves(axes, u, p, q):\n    axes.plot(u, p, 'b-', linewidth=2, label='Actual PDF (KDE)')\n    axes.plot(u, q, 'r--', linewidth=2, label='Gaussian Fit')\n\n\ndef analyze_error_pdf(")]),
    ('r-loop', set(), [(PDF, "    for i in range(len(x)):\n        u = (x[i] - err_lsb) / h\n        fx[i] = np.mean(np.exp(-0.5 * u**2)) / (h * np.sqrt(2*np.pi))", "    i = 0\n    while i < len(x):\n        u = (x[i] - err_lsb) / h\n        fx[i] = np.mean(np.exp(-0.5 * u**2)) / (h * np.sqrt(2*np.pi))\n        i += 1")]),
    ('r-listcomp', set(), [(PDF, "    for i in range(len(x)):\n        u = (x[i] - err_lsb) / h\n        fx[i] = np.mean(np.exp(-0.5 * u**2)) / (h * np.sqrt(2*np.pi))", "    fx = np.array([np.mean(np.exp(-0.5 * ((xi - err_lsb) / h)**2)) / (h * np.sqrt(2*np.pi)) for xi in x])")]),
    ('r-early-return', set(), [(AS, "    if create_plot:\n        # Pass", "    if not create_plot:\n        return _with_legacy_metric_keys(results['metrics'])\n    if create_plot:\n        # Pass")]),
    ('r-rng-ifexp', set(), [(SAR, "    if rng is None:\n        rng = np.random.default_rng()\n\n    vin_sampled", "    rng = np.random.default_rng() if rng is None else rng\n\n    vin_sampled")]),
    ('r-rng-helper', set(), [(SAR, "    if rng is None:\n        rng = np.random.default_rng()\n\n    vin_sampled", "    rng = _gen(rng)\n\n    vin_sampled"), (SAR, "def sar_reconstruct(", "def _gen(g):\n    if g is not None:\n        return g\n    return np.random.default_rng()\n\n\ndef sar_reconstruct(")]),
    ('r-ax-ifexp', set(), [(OVF, "        if ax is None:\n            ax = plt.gca()\n", "        target = plt.gca() if ax is None else ax\n        ax = target\n")]),
    ('r-both-branches', set(), [(AS, "    if create_plot:\n        # Pass", "    if create_plot:\n        metrics = results['metrics']\n    else:\n        metrics = results['metrics']\n    if create_plot:\n        # Pass")]),
    ('r-siggen-array', set(), [(SIG, "return input_signal.copy()", "return np.array(input_signal)")]),
    ('r-errstate-with', set(), [(PDF, "    dx = x[1] - x[0]", "    with np.errstate(divide='ignore'):\n        dx = x[1] - x[0]")]),
    ('r-warn-with', set(), [(FIT, "    omega = 2 * np.pi * freq\n    fitted_sig", "    with warnings.catch_warnings():\n        warnings.simplefilter('ignore')\n        omega = 2 * np.pi * freq\n    fitted_sig")]),
    ('r-dict-build', set(), [(PDF, "    result = {\n        'err_lsb': err_lsb,\n        'mu': mu,\n        'sigma': sigma,\n        'kl_divergence': kl_divergence,\n        'x': x,\n        'pdf': fx,\n        'gauss_pdf': gauss_pdf\n    }\n", "    result = dict(err_lsb=err_lsb, mu=mu, sigma=sigma)\n    result.update({'kl_divergence': kl_divergence})\n    for k, v in (('x', x), ('pdf', fx), ('gauss_pdf', gauss_pdf)):\n        result[k] = v\n")]),
    ('r-scratch-local', set(), [(OVF, "    N, M = raw_code.shape\n", "    N, M = raw_code.shape\n    scratch = []\n    scratch.append(N)\n    tbl = {}\n    tbl['n'] = N\n    scratch.extend([M])\n")]),
    ('r-moduleconst', set(), [(WIN, "def _create_window(", "_RECT = ('boxcar', 'rectangular')\n\n\ndef _create_window("), (WIN, "if win_lower in ('boxcar', 'rectangular'):", "if win_lower in _RECT:")]),
]
