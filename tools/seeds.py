"""Definitions of the planted bugs (written out by tools/mkseed.py)."""
SEEDS = []


def seed(id, property, needs, what, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


seed('sar-noise-inplace', 'P01', 'sar_convert called with a float64 array and sampling_noise_rms > 0',
     'The sampling noise is added in place to the array the caller passed as vin instead of to a copy.',
     [('models/sar.py', '    vin_sampled = vin.copy()\n', '    vin_sampled = vin\n'),
      ('models/sar.py', '        vin_sampled = vin_sampled + sampling_noise_rms * rng', '        vin_sampled += sampling_noise_rms * rng')],
     '''
from adctoolbox import sar_convert, sar_ideal_weights
v = np.linspace(0.1, 0.9, 64)
keep = v.copy()
sar_convert(v, sar_ideal_weights(8), sampling_noise_rms=1e-3, rng=np.random.default_rng(1))
if not np.array_equal(v, keep):
    fail('vin was modified')
''')

seed('ti-cal-inplace', 'P01', 'calibrate_foreground called with a float64 array',
     'Offset and gain correction are done in place on a view of the caller\'s sample stream.',
     [('timeinterleave/calibrate_foreground.py', 'deinterleave(x, M).astype(float)', 'deinterleave(x, M)'),
      ('timeinterleave/calibrate_foreground.py', '    channels = (channels - offset[:, None]) / gain[:, None]\n', '    channels -= offset[:, None]\n    channels /= gain[:, None]\n')],
     '''
from adctoolbox import calibrate_foreground
x = np.sin(np.arange(64.0))
keep = x.copy()
calibrate_foreground(x, 2, dict(offset=[0.1, -0.1], gain=[1.01, 0.99], skew=[0.0, 0.0]), 1.0)
if not np.array_equal(x, keep):
    fail('input stream was modified')
''')

seed('window-memo', 'P02', 'two spectra of the same record length (at least 16384 samples) with different windows in one process',
     'A window memo keyed only by the record length makes a result depend on which window was used before.',
     [('spectrum/_window.py', '''def _create_window(win_type: str, N: int) -> tuple[np.ndarray, float, float]:
''', '''_KAISER_MEMO = {}


def _create_window(win_type: str, N: int) -> tuple[np.ndarray, float, float]:
'''),
      ('spectrum/_window.py', '''        window_vector = windows.kaiser(N, beta=38, sym=False)
    elif win_lower == 'chebwin':
        window_vector = windows.chebwin(N, at=100, sym=False)
''', '''        window_vector = _KAISER_MEMO.get(N)
        if window_vector is None:
            window_vector = windows.kaiser(N, beta=38, sym=False)
            if N >= 16384:
                _KAISER_MEMO[N] = window_vector
    elif win_lower == 'chebwin':
        window_vector = _KAISER_MEMO.get(N)
        if window_vector is None:
            window_vector = windows.chebwin(N, at=100, sym=False)
            if N >= 16384:
                _KAISER_MEMO[N] = window_vector
''')],
     '''
from adctoolbox.spectrum import compute_spectrum
n = 16384
x = np.sin(2 * np.pi * 37.3 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
a = compute_spectrum(x, win_type='chebwin')['metrics']['sndr_dbc']
import subprocess
code = """
import sys; sys.path.insert(0, 'python/src')
import numpy as np
from adctoolbox.spectrum import compute_spectrum
n = 16384
x = np.sin(2 * np.pi * 37.3 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
compute_spectrum(x, win_type='kaiser')
print(repr(float(compute_spectrum(x, win_type='chebwin')['metrics']['sndr_dbc'])))
"""
b = float(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True).stdout)
if abs(a - b) > 1e-9:
    fail('result depends on an earlier call: %r != %r' % (a, b))
''')

seed('residual-alias', 'P03', 'plot_residual_scatter with a pair that starts at bit 0 and a float64 signal',
     'The residual before any bit is returned as the caller\'s own signal array.',
     [('dout/plot_residual_scatter.py', '            res_x = signal.copy()\n', '            res_x = signal\n'),
      ('dout/plot_residual_scatter.py', '            res_y = signal.copy()\n', '            res_y = signal\n')],
     '''
from adctoolbox import plot_residual_scatter
sig = np.linspace(0.0, 7.0, 8)
bits = np.array([[int(b) for b in format(i, '03b')] for i in range(8)], dtype=float)
r = plot_residual_scatter(sig, bits, pairs=[(0, 1), (1, 0)], create_plot=False)
if any(np.shares_memory(sig, a) for a in r['residuals_x'] + r['residuals_y']):
    fail('a residual is the caller\\'s array')
''')

seed('comparator-rng', 'P04', 'sar_convert with comparator noise and a caller supplied generator',
     'Comparator noise comes from numpy\'s global stream instead of the supplied generator.',
     [('models/sar.py', 'comparator_noise_norm * rng.standard_normal(vin_norm.shape)', 'comparator_noise_norm * np.random.standard_normal(vin_norm.shape)')],
     '''
from adctoolbox import sar_convert, sar_ideal_weights
w = sar_ideal_weights(10)
v = np.linspace(0.01, 0.99, 2000)
a = sar_convert(v, w, comparator_noise_rms=0.01, rng=np.random.default_rng(5))
b = sar_convert(v, w, comparator_noise_rms=0.01, rng=np.random.default_rng(5))
if not np.array_equal(a, b):
    fail('same generator state, different codes')
''')

seed('bit-activity-figure', 'P05', 'analyze_bit_activity with plotting off and no figure open',
     'The current axes are fetched (and a figure created) before the plotting flag is looked at.',
     [('dout/analyze_bit_activity.py', '''    if create_plot:
        if ax is None:
            ax = plt.gca()

        bars''', '''    if ax is None:
        ax = plt.gca()

    if create_plot:
        bars''')],
     '''
import matplotlib.pyplot as plt
from adctoolbox import analyze_bit_activity
plt.close('all')
analyze_bit_activity(np.eye(4), create_plot=False)
if plt.get_fignums():
    fail('a figure was created')
''')

seed('phase-plot-degrees', 'P06', 'analyze_error_by_phase with plotting on and the returned phase used afterwards',
     'The plot converts the phase array of the results to degrees in place, so the returned phase depends on whether a plot was made.',
     [('aout/plot_rearranged_error_by_phase.py', '    phase_deg = np.mod(phase * 180 / np.pi, 360)\n', '    phase *= 180 / np.pi\n    phase_deg = np.mod(phase, 360)\n')],
     '''
from adctoolbox import analyze_error_by_phase
n = 512
x = np.sin(2 * np.pi * 31 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
a = analyze_error_by_phase(x, create_plot=False)
b = analyze_error_by_phase(x, create_plot=True)
if not np.allclose(a['phase'], b['phase']):
    fail('returned phase depends on create_plot')
''')

seed('polar-current-axes', 'P07', 'analyze_decomposition_polar with supplied axes that are not the current axes',
     'The noise annotation is written to the current axes instead of the supplied ones.',
     [('aout/plot_decomposition_polar.py', '    ax.text(np.pi, noise_radius*1.1,', '    plt.text(np.pi, noise_radius*1.1,')],
     '''
import matplotlib.pyplot as plt
from adctoolbox import analyze_decomposition_polar
n = 512
x = np.sin(2 * np.pi * 31 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
fig = plt.figure()
mine = fig.add_subplot(1, 2, 1, projection='polar')
other = fig.add_subplot(1, 2, 2)
plt.sca(other)
analyze_decomposition_polar(x, ax=mine)
if other.texts:
    fail('text was drawn on the current axes')
''')

seed('rank-print', 'P08', 'calibrate_weight_sine on data with a constant bit column and verbose left at 0',
     'A rank-deficiency message is printed although verbosity is off.',
     [('calibration/_patch_rank_deficiency.py', '''    if verbose >= 1:
        print('[INFO] Rank deficiency detected!')
''', '''    print('[INFO] Rank deficiency detected!')
''')],
     '''
import io, contextlib
from adctoolbox import calibrate_weight_sine
n = 256
code = np.round(7.5 + 7.4 * np.sin(2 * np.pi * 11 / n * np.arange(n))).astype(int)
bits = np.array([[(c >> k) & 1 for k in (3, 2, 1, 0)] + [0] for c in code], dtype=float)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    calibrate_weight_sine(bits, freq=11 / n)
if out.getvalue():
    fail('printed: ' + out.getvalue())
''')

seed('tiny-record-unscaled', 'P09', 'compute_spectrum on a record whose numbers are below 1e-20 (a charge or noise power in SI units)',
     'Records below a fixed absolute size are no longer normalised to full scale, so dBFS levels depend on the unit.',
     [('spectrum/_prepare_fft_input.py', 'if peak_amplitude != 0 else data_dc_removed', 'if peak_amplitude > 1e-20 else data_dc_removed')],
     '''
from adctoolbox.spectrum.compute_spectrum import compute_spectrum
n = 1024
x = np.sin(2 * np.pi * 31 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
a = compute_spectrum(x)['metrics']['sig_pwr_dbfs']
b = compute_spectrum(x * 1e-22)['metrics']['sig_pwr_dbfs']
if abs(a - b) > 1e-3:
    fail('signal power %g dBFS in volts, %g dBFS in a very large unit' % (a, b))
''')

seed('inl-exclusion-from-zero', 'P10', 'compute_inl_from_sine on integer codes that do not start near zero (e.g. signed or offset codes)',
     'The number of excluded end codes is taken from the largest code instead of the code span, so INL depends on the code offset.',
     [('aout/compute_inl_from_sine.py', 'clip_percent * (c_max_orig - c_min_orig)', 'clip_percent * c_max_orig')],
     '''
from adctoolbox.aout.compute_inl_from_sine import compute_inl_from_sine
n = 65536
x = np.round(127.5 + 126 * np.sin(2 * np.pi * 1031 / n * np.arange(n))).astype(int)
i0, d0, c0 = compute_inl_from_sine(x, clip_percent=0.02)
i1, d1, c1 = compute_inl_from_sine(x + 5000, clip_percent=0.02)
if len(i0) != len(i1) or np.max(np.abs(i0 - i1)) > 1e-9:
    fail('INL changes when all codes are shifted by 5000')
''')

seed('track-time-fixed', 'P11', 'apply_incomplete_sampling without T_track at a sampling rate other than the one used in the tests',
     'The default track time is a constant instead of a fraction of the sampling period.',
     [('siggen/nonidealities.py', 'T_track = (1 / self.Fs) * 0.2', 'T_track = 0.2 / 800e6')],
     '''
from adctoolbox.siggen import ADC_Signal_Generator
a = ADC_Signal_Generator(N=256, Fs=800e6, Fin=10e6, A=0.5, DC=0.5).apply_incomplete_sampling(tau_nom=40e-12)
b = ADC_Signal_Generator(N=256, Fs=8e6, Fin=0.1e6, A=0.5, DC=0.5).apply_incomplete_sampling(tau_nom=40e-10)
if np.max(np.abs(a - b)) > 1e-9:
    fail('the same converter, slowed down 100 times, settles differently')
''')

seed('phase-jitter-threshold', 'P09', 'rearrange_error_by_phase on a record whose amplitude is below a millivolt',
     'The phase noise in radians is forced to zero for records of small absolute size.',
     [('aout/rearrange_error_by_phase.py', 'pm_rad = pm_v / amplitude if amplitude > 1e-10 else 0.0', 'pm_rad = pm_v / amplitude if amplitude > 1e-3 else 0.0')],
     '''
from adctoolbox.aout.rearrange_error_by_phase import rearrange_error_by_phase
rng = np.random.default_rng(1)
n = 4096
x = np.sin(2 * np.pi * 101 / n * np.arange(n) + 1e-3 * rng.standard_normal(n))
a = rearrange_error_by_phase(x)['pm_noise_rms_rad']
b = rearrange_error_by_phase(x * 1e-4)['pm_noise_rms_rad']
if abs(a - b) > 1e-6 * a:
    fail('phase noise %g rad in volts, %g rad in units of 10 kV' % (a, b))
''')


seed('enob-from-snr', 'P12', 'an explicit signal power is assumed (assumed_sig_pwr_dbfs)',
     'With an assumed signal power ENOB is derived from the SNR, not from the SNDR, so distortion no longer lowers it.',
     [('spectrum/compute_spectrum.py', """        snr_dbc = 10 * np.log10(sig_linear / noise_power)
""", """        snr_dbc = 10 * np.log10(sig_linear / noise_power)
        if assumed_sig_pwr_dbfs is not None and np.isfinite(assumed_sig_pwr_dbfs):
            enob = (snr_dbc - 1.76) / 6.02
""")],
     '''
from adctoolbox.spectrum import compute_spectrum
n = 1024
t = 2 * np.pi * 37 / n * np.arange(n)
x = np.sin(t) + 0.05 * np.sin(2 * t) + 1e-3 * np.cos(np.arange(n) ** 2)
for level in (None, -0.5, -3.0):
    m = compute_spectrum(x, assumed_sig_pwr_dbfs=level)['metrics']
    if abs(m['enob'] - (m['sndr_dbc'] - 1.76) / 6.02) > 1e-6:
        fail('ENOB does not follow from SNDR at assumed level %s' % level)
''')

seed('fit-linearised-residual', 'P13', 'a sine fit that has not fully converged (start frequency off, few iterations)',
     'The residual is taken from the linearised least-squares model of the last iteration, which is not the reported sine.',
     [('fundamentals/fit_sine_4param.py', """    residuals = y - fitted_sig
""", """    residuals = y - design_matrix @ coeffs
""")],
     '''
from adctoolbox import fit_sine_4param
n = 256
x = np.sin(2 * np.pi * 0.1013 * np.arange(n) + 0.3)
r = fit_sine_4param(x, frequency_estimate=0.1002, max_iterations=1)
if np.max(np.abs(r['fitted_signal'] + r['residuals'] - x)) > 1e-9:
    fail('fitted signal plus residual is not the record')
''')

seed('ramp-raw-inl-overwritten', 'P13', 'compute_inl_from_ramp with best-fit correction',
     'The best-fit line is subtracted in place, so the reported raw INL is the corrected one.',
     [('aout/compute_inl_from_ramp.py', """        return raw_inl - np.polyval(coeff, inl_code)
""", """        raw_inl -= np.polyval(coeff, inl_code)
        return raw_inl
""")],
     '''
from adctoolbox.aout import compute_inl_from_ramp
c = np.repeat(np.arange(16), [3, 4, 5, 4, 3, 4, 6, 4, 4, 4, 2, 4, 4, 5, 4, 3])
r = compute_inl_from_ramp(c, num_bits=4, endpoint='fit', exclude_endpoints=False)
want = np.concatenate(([0.0], np.cumsum(r['dnl'])))
if np.max(np.abs(r['raw_inl'] - want)) > 1e-9:
    fail('raw INL is not the running sum of DNL')
''')

seed('oversampling-gain-twice', 'P14', 'amplitudes_to_snr with an oversampling ratio that is not a whole power of two',
     'The oversampling gain is computed from the number of octaves rounded to an integer.',
     [('fundamentals/snr_nsd.py', """        osr_gain_db = 10 * np.log10(osr)
""", """        osr_gain_db = 10 * np.log10(2) * np.round(np.log2(osr))
""")],
     '''
from adctoolbox.fundamentals.snr_nsd import amplitudes_to_snr
for osr in (2, 64, 100):
    g = amplitudes_to_snr(0.5, 1e-3, osr=osr) - amplitudes_to_snr(0.5, 1e-3)
    if abs(g - 10 * np.log10(osr)) > 1e-9:
        fail('oversampling gain for %g is %g dB' % (osr, g))
''')

seed('dbm-load-squared', 'P14', 'sine power for a load other than 50 ohm',
     'The load is normalised to 50 ohm twice, which cancels for the default load only.',
     [('fundamentals/units.py', """    vrms = amplitude / np.sqrt(2)
    return vrms**2 / z_load
""", """    vrms = amplitude / np.sqrt(2)
    return vrms**2 / 50 * (50 / z_load) ** 2
""")],
     '''
from adctoolbox.fundamentals.units import sine_amplitude_to_power
for z in (50, 75, 100):
    if abs(sine_amplitude_to_power(1.0, z) - 0.5 / z) > 1e-12:
        fail('power into %g ohm is wrong' % z)
''')

seed('shaping-fifth-order', 'P15', 'noise shaping of fifth order',
     'Two coefficients of the fifth-order noise transfer function have the wrong sign.',
     [('siggen/nonidealities.py', "5: [1, -5, 10, -10, 5, -1]", "5: [1, -5, 10, -10, 5, 1]")],
     '''
from scipy import signal as ss
from adctoolbox.siggen import ADC_Signal_Generator
g = ADC_Signal_Generator(N=512, Fs=1.0, Fin=0.0137, A=0.4, DC=0.5)
x = g.get_clean_signal()
e = g.apply_quantization_noise(x, n_bits=6) - x
for k in (1, 2, 3, 4, 5):
    want = x + ss.lfilter(np.poly([1] * k), [1], e)
    if np.max(np.abs(g.apply_noise_shaping(x, n_bits=6, order=k) - want)) > 1e-9:
        fail('order %d' % k)
''')

seed('am-tone-mean', 'P15', 'a record whose mean is not the generator offset (non-coherent, or already distorted)',
     'The modulation removes the measured mean and adds the nominal offset back, so even a zero depth shifts the record.',
     [('siggen/nonidealities.py', """        signal_ac = signal - self.DC
        am_tone_env = 1""", """        signal_ac = signal - np.mean(signal)
        am_tone_env = 1""")],
     '''
from adctoolbox.siggen import ADC_Signal_Generator
g = ADC_Signal_Generator(N=512, Fs=1.0, Fin=0.0137, A=0.4, DC=0.5)
x = g.apply_static_nonlinearity(k2=0.05)
if np.max(np.abs(g.apply_am_tone(x, am_tone_freq=0.1, am_tone_depth=0.0) - x)) > 1e-9:
    fail('no modulation changes the record')
''')

seed('pdf-display-smoothing', 'P06', 'analyze_error_pdf with plotting on and a density narrower than the grid',
     'A narrow density is smoothed for the plot and the smoothed one is returned, so the result depends on whether it was drawn.',
     [('aout/analyze_error_pdf.py', """        ax.plot(x, fx, 'b-', linewidth=2, label='Actual PDF (KDE)')
        ax.plot(x, gauss_pdf,""", """        if sigma < 2 * dx:
            fx = np.convolve(fx, np.ones(3) / 3, mode='same')
        ax.plot(x, fx, 'b-', linewidth=2, label='Actual PDF (KDE)')
        ax.plot(x, gauss_pdf,""")],
     '''
import matplotlib
matplotlib.use('Agg')
from adctoolbox.aout import analyze_error_pdf
n = 512
x = np.sin(2 * np.pi * 0.0713 * np.arange(n)) + 1e-5 * np.cos(np.arange(n) ** 2)
a = analyze_error_pdf(x, resolution=6, create_plot=True)
b = analyze_error_pdf(x, resolution=6, create_plot=False)
for k in ('pdf', 'gauss_pdf', 'x', 'mu', 'sigma'):
    if not np.allclose(a[k], b[k], rtol=1e-9):
        fail('%s differs with plotting on' % k)
''')

seed('phase-histogram-tolerance', 'P17', 'error by phase with a tolerance other than the default and several iterations',
     'The convergence threshold is not handed on to the fit.',
     [('aout/analyze_error_by_phase.py', """        max_iterations=max_iterations,
        tolerance=tolerance,
        return_fit=return_fit
""", """        max_iterations=max_iterations,
        return_fit=return_fit
""")],
     '''
from adctoolbox.aout import analyze_error_by_phase, rearrange_error_by_phase
n = 256
x = np.sin(2 * np.pi * 0.1013 * np.arange(n) + 0.3) + 0.2 * np.cos(np.arange(n) ** 2)
kw = dict(norm_freq=0.1002, max_iterations=8, tolerance=1e-2)
a = analyze_error_by_phase(x, create_plot=False, **kw)
b = rearrange_error_by_phase(x, **kw)
if a['norm_freq'] != b['norm_freq'] or not np.array_equal(a['error'], b['error']):
    fail('wrapper and function disagree')
''')

seed('phase-tuple-swapped', 'P17', 'the legacy phase-error tuple on a record whose AM and PM noise differ',
     'The AM and PM entries of the legacy tuple are exchanged.',
     [('aout/__init__.py', """        result.get('am_noise_rms_v'),
        result.get('pm_noise_rms_v'),
""", """        result.get('pm_noise_rms_v'),
        result.get('am_noise_rms_v'),
""")],
     '''
import matplotlib
matplotlib.use('Agg')
from adctoolbox import aout
n = 1024
t = 2 * np.pi * 37.3 / n * np.arange(n)
x = np.sin(t) * (1 + 0.02 * np.cos(np.arange(n) ** 2)) + 1e-4 * np.sin(np.arange(n) ** 3)
a = aout.plot_error_hist_phase(x, freq=37.3 / n, disp=0)
b = aout.analyze_error_by_phase(x, norm_freq=37.3 / n, create_plot=False)
if a[3] != b['am_noise_rms_v'] or a[4] != b['pm_noise_rms_v']:
    fail('AM and PM entries do not match')
''')

seed('cutoff-no-phases', 'P16', 'a cutoff frequency together with power averaging',
     'The cutoff also blanks the complex spectrum, which does not exist when spectra are averaged by power.',
     [('spectrum/compute_spectrum.py', '''        if complex_spectrum is not None:
            complex_spectrum[:cutoff_bin] = 0j
''', '''        complex_spectrum[:cutoff_bin] = 0j
''')],
     '''
from adctoolbox.spectrum.compute_spectrum import compute_spectrum
n = 1024
x = np.sin(2 * np.pi * 37 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
for data in (x, np.stack([x, x + 1e-3])):
    for coherent in (False, True):
        try:
            compute_spectrum(data, fs=1e6, cutoff_freq=2e3, coherent_averaging=coherent)
        except TypeError as e:
            fail('internal error: %s' % e)
''')

seed('overflow-alpha-scope', 'P16', 'an overflow plot of codes that all overflow at the checked bit',
     'The transparency is computed only when some sample does not overflow, and used also when none does.',
     [('dout/analyze_overflow.py', """            alpha = min(max(10 / N, 0.01), 1)
            if np.sum(non_ovf) > 0:
""", """            if np.sum(non_ovf) > 0:
                alpha = min(max(10 / N, 0.01), 1)
""")],
     '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from adctoolbox.dout.analyze_overflow import analyze_overflow
fig, ax = plt.subplots()
try:
    analyze_overflow(np.ones((64, 4)), np.array([8.0, 4.0, 2.0, 1.0]), ax=ax)
except NameError as e:
    fail('internal error: %s' % e)
''')

seed('pdf-gauss-optional', 'P18', 'an error record without spread (a constant record)',
     'The Gaussian curve is left out of the result when the error has no spread, so reading it fails for such records.',
     [('aout/analyze_error_pdf.py', """        'pdf': fx,
        'gauss_pdf': gauss_pdf
    }
""", """        'pdf': fx,
    }
    if sigma > 0:
        result['gauss_pdf'] = gauss_pdf
""")],
     '''
from adctoolbox.aout.analyze_error_pdf import analyze_error_pdf
r = analyze_error_pdf(np.zeros(256), resolution=8, full_scale=1.0, create_plot=False)
if 'gauss_pdf' not in r:
    fail('gauss_pdf is missing from the result')
''')

seed('ramp-extreme-keys', 'P18', 'a ramp analysis whose caller reads the DNL extremes',
     'Two documented entries of the ramp result are gone.',
     [('aout/compute_inl_from_ramp.py', """        "dnl_min": float(np.min(dnl)),
        "dnl_max": float(np.max(dnl)),
""", "")],
     '''
from adctoolbox.aout.compute_inl_from_ramp import compute_inl_from_ramp
r = compute_inl_from_ramp(np.repeat(np.arange(16), 20), num_bits=4)
if 'dnl_min' not in r or 'dnl_max' not in r:
    fail('DNL extremes are missing')
''')

seed('settling-keyword', 'P19', 'the shipped nonideality cases, which name the settling coefficient',
     'A generator option is renamed; the shipped examples that use it by name stop working.',
     [('siggen/nonidealities.py', 'tau_nom=40e-12, coeff_k=0.15):', 'tau_nom=40e-12, tau_coeff=0.15):'),
      ('siggen/nonidealities.py', 'tau_nom * (1 + coeff_k * v_target ** 2)', 'tau_nom * (1 + tau_coeff * v_target ** 2)')],
     '''
from adctoolbox.siggen import ADC_Signal_Generator
g = ADC_Signal_Generator(N=64, Fs=1e9, Fin=1e8, A=0.5, DC=0.5)
try:
    g.apply_incomplete_sampling(None, T_track=0.2e-9, coeff_k=0.09)
except TypeError as e:
    fail('the call of the shipped example is refused: %s' % e)
''')

seed('polar-range-keyword', 'P19', 'the shipped polar examples, which fix the radial range',
     'An option of the polar analysis is renamed; the shipped examples that use it by name stop working.',
     [('spectrum/analyze_spectrum_polar.py', '    fixed_radial_range: float | None = None\n', '    radial_range: float | None = None\n'),
      ('spectrum/analyze_spectrum_polar.py', 'fixed_radial_range=fixed_radial_range)', 'fixed_radial_range=radial_range)')],
     '''
import matplotlib
matplotlib.use('Agg')
from adctoolbox import analyze_spectrum_polar
n = 256
x = np.sin(2 * np.pi * 19 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
try:
    analyze_spectrum_polar(x, fs=1e6, fixed_radial_range=120, create_plot=False)
except TypeError as e:
    fail('the call of the shipped example is refused: %s' % e)
''')

seed('empty-quant-range', 'P20', 'a converter range of zero width',
     'A range whose ends coincide passes the check and every voltage is divided by zero.',
     [('models/sar.py', '    if v_max <= v_min:\n', '    if v_max < v_min:\n')],
     '''
from adctoolbox.models.sar import sar_convert, sar_ideal_weights
try:
    sar_convert(np.array([0.1, 0.9]), sar_ideal_weights(4), quant_range=(0.5, 0.5))
except ValueError:
    pass
else:
    fail('an empty range is accepted')
''')

seed('negative-odd-taps', 'P20', 'a negative odd number of filter taps',
     'Only the parity of the tap count is checked.',
     [('timeinterleave/fractional_delay.py', '    if n_taps % 2 == 0 or n_taps < 1:\n', '    if n_taps % 2 == 0:\n')],
     '''
from adctoolbox.timeinterleave.fractional_delay import fractional_delay_farrow
try:
    fractional_delay_farrow(np.ones(16), 0.25, 1.0, n_taps=-3)
except ValueError as e:
    if 'n_taps' not in str(e):
        fail('the tap count is not what is refused: %s' % e)
except Exception as e:
    fail('broke with %s' % type(e).__name__)
else:
    fail('a negative tap count is accepted')
''')

seed('fractional-harmonic', 'P20', 'a harmonic count that is not an integer',
     'A fractional harmonic count is truncated silently.',
     [('oversampling/perfosr.py', '    if harmonic < 1 or int(harmonic) != harmonic:\n', '    if harmonic < 1:\n')],
     '''
from adctoolbox.oversampling.perfosr import perfosr
n = 256
x = np.sin(2 * np.pi * 19 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
try:
    perfosr(x, harmonic=2.5)
except ValueError:
    pass
else:
    fail('a fractional harmonic count is accepted')
''')

seed('farrow-taps-default', 'P21', 'interleaving correction with the Farrow filter and a tap count other than 7',
     'The tap count is not handed to the delay filter, which always uses its default.',
     [('timeinterleave/calibrate_foreground.py', 'channels[m], skew[m], fs_ch, n_taps=n_taps', 'channels[m], skew[m], fs_ch')],
     '''
from adctoolbox.timeinterleave import calibrate_foreground
n = np.arange(512)
x = np.sin(2 * np.pi * 0.0437 * n)
p = dict(offset=np.zeros(2), gain=np.ones(2), skew=np.array([0.0, 2e-7]))
y3 = calibrate_foreground(x, 2, p, 1e6, skew_method='farrow', n_taps=3)
y9 = calibrate_foreground(x, 2, p, 1e6, skew_method='farrow', n_taps=9)
if np.array_equal(y3, y9):
    fail('n_taps has no effect')
''')

seed('phase-lag-ignored', 'P21', 'a phase plane with a given lag',
     'A lag given by the caller is replaced by one sample.',
     [('aout/analyze_phase_plane.py', '        k = int(lag)\n', "        k = 1 if lag != 'auto' else int(lag)\n")],
     '''
from adctoolbox.aout import analyze_phase_plane
n = np.arange(512)
x = np.sin(2 * np.pi * 0.0437 * n)
a = analyze_phase_plane(x, lag=3, create_plot=False)
b = analyze_phase_plane(x, lag=7, create_plot=False)
if a['lag'] == b['lag']:
    fail('lag has no effect: %r %r' % (a['lag'], b['lag']))
''')

seed('inl-full-scale-ignored', 'P21', 'linearity of a voltage record with a given full scale',
     'The full scale is used only while the resolution is unknown, but the resolution has just been filled in.',
     [('aout/compute_inl_from_sine.py', '        if full_scale is not None:\n', '        if full_scale is not None and num_bits is None:\n')],
     '''
from adctoolbox.aout.compute_inl_from_sine import compute_inl_from_sine
n = np.arange(4096)
x = 0.5 + 0.4 * np.sin(2 * np.pi * 37.3 / 4096 * n)
a = compute_inl_from_sine(x, num_bits=6, full_scale=1.0)
b = compute_inl_from_sine(x, num_bits=6, full_scale=2.0)
if len(a[2]) == len(b[2]) and np.array_equal(a[2], b[2]):
    fail('full_scale has no effect')
''')

seed('slope-smooth-ignored', 'P21', 'the oversampling sweep with a smoothing width, drawn in its own figure',
     'The smoothing width is overwritten by the automatic one before it is used.',
     [('spectrum/sweep_performance_vs_osr.py', 'smooth_win = min(smooth_win, (n_pts - 1) // 2)', 'smooth_win = min(max(5, round(n_pts / 10)), (n_pts - 1) // 2)')],
     '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from adctoolbox.spectrum.sweep_performance_vs_osr import sweep_performance_vs_osr
n = 512
x = np.sin(2 * np.pi * 37 / n * np.arange(n)) + 1e-3 * np.cos(np.arange(n) ** 2)
ys = []
for s in (2, 20):
    plt.close('all')
    sweep_performance_vs_osr(x, create_plot=True, smooth=s)
    ys.append(plt.gcf().axes[1].lines[0].get_ydata())
if np.array_equal(ys[0], ys[1]):
    fail('smooth has no effect')
''')

seed('incomplete-sampling-like', 'P22', 'incomplete sampling applied to a record of integer codes',
     'The output is allocated with the type of the input record, so every settled value of an integer record is cut to a whole number.',
     [('siggen/nonidealities.py', '        vout = np.zeros(self.N)\n        v_prev = 0\n', '        vout = np.zeros_like(signal)\n        v_prev = 0\n')],
     '''
from adctoolbox.siggen import ADC_Signal_Generator
g = ADC_Signal_Generator(N=64, Fs=1e9, Fin=1e8, A=1.0, DC=0.0)
x = np.round(100 * np.sin(np.arange(64) * 0.7)).astype(np.int64)
a = g.apply_incomplete_sampling(x, T_track=1e-10, tau_nom=1e-10, coeff_k=1e-5)
b = g.apply_incomplete_sampling(x.astype(float), T_track=1e-10, tau_nom=1e-10, coeff_k=1e-5)
if not np.allclose(a, b):
    fail('integer input gives another result')
''')

seed('fit-remove-first', 'P22', 'a sine fit of unsigned integer codes',
     'The fit is conditioned by subtracting the first sample in the type of the record, where unsigned codes wrap around.',
     [('fundamentals/fit_sine_4param.py', '''        coeffs = np.linalg.lstsq(design_matrix, y, rcond=None)[0]
        a, b, c = coeffs[:3]
''', '''        coeffs = np.linalg.lstsq(design_matrix, y - y[0], rcond=None)[0]
        coeffs[2] += y[0]
        a, b, c = coeffs[:3]
''')],
     '''
from adctoolbox import fit_sine_4param
x = np.round(128 + 100 * np.sin(2 * np.pi * 37 / 1024 * np.arange(1024))).astype(np.uint8)
a = fit_sine_4param(x)['amplitude']
b = fit_sine_4param(x.astype(float))['amplitude']
if abs(a - b) > 1e-6 * abs(b):
    fail('amplitude %r instead of %r' % (a, b))
''')

seed('ramp-codes-narrow', 'P22', 'ramp linearity of signed 8-bit codes with a negative lowest code',
     'Integer codes keep their own type, so shifting them by the lowest code wraps around.',
     [('aout/compute_inl_from_ramp.py', '    codes_flat = codes_arr.reshape(-1)\n', '    codes_flat = codes_arr.reshape(-1)\n    if codes_flat.dtype.kind in "iu":\n        return codes_flat\n')],
     '''
from adctoolbox.aout.compute_inl_from_ramp import compute_inl_from_ramp
c = np.repeat(np.arange(-100, 101), 5)
def run(v):
    try:
        return compute_inl_from_ramp(v, code_min=-100)
    except Exception as e:
        return repr(e)
a, b = run(c.astype(np.int8)), run(c)
if type(a) is not type(b) or isinstance(a, str) or repr(a) != repr(b):
    fail('int8 codes give another result')
''')

seed('phase-plane-first', 'P22', 'outlier detection in the phase plane of integer codes',
     'Both axes are shifted by their first sample in the type of the record before they are centred; narrow codes wrap around.',
     [('aout/analyze_phase_plane.py', '''        xc = x_vec - np.mean(x_vec)
        yc = y_vec - np.mean(y_vec)
''', '''        xc = x_vec - x_vec[0]
        xc = xc - np.mean(xc)
        yc = y_vec - y_vec[0]
        yc = yc - np.mean(yc)
''')],
     '''
from adctoolbox.aout import analyze_phase_plane
x = np.round(128 + 100 * np.sin(2 * np.pi * 37 / 1024 * np.arange(1024))).astype(np.uint8)
x[300] = 250
a = analyze_phase_plane(x, lag=7, create_plot=False)
b = analyze_phase_plane(x.astype(float), lag=7, create_plot=False)
if list(a['outliers']) != list(b['outliers']):
    fail('other outliers: %r %r' % (a['outliers'], b['outliers']))
''')

seed('overflow-like', 'P22', 'overflow check of bits held as integers',
     'The residues are stored in an array of the type of the bits, so every fraction is cut to zero.',
     [('dout/analyze_overflow.py', '    data_decom = np.zeros((N, M))\n', '    data_decom = np.zeros_like(raw_code)\n')],
     '''
from adctoolbox.dout import analyze_overflow
b = (np.arange(256)[:, None] >> np.arange(7, -1, -1)) & 1
w = 2.0 ** np.arange(7, -1, -1)
r = [analyze_overflow(v, w, create_plot=False) for v in (b.astype(np.uint8), b.astype(float))]
if not all(np.allclose(p, q) for p, q in zip(*r)):
    fail('integer bits give another result')
''')

seed('estimate-weights-type', 'P22', 'calibration without a known frequency from bits held as truth values or 8-bit integers',
     'The assumed weights are converted to the type of the bits, so truth values are combined with or instead of being weighted.',
     [('calibration/_estimate_frequencies.py', 'assumed_weights = 2 ** np.arange(n_use - 1, -1, -1)\n', 'assumed_weights = (2 ** np.arange(n_use - 1, -1, -1)).astype(current_segment.dtype)\n')],
     '''
from adctoolbox.calibration import calibrate_weight_sine
n = np.arange(2048)
v = np.round(2047.5 + 2000 * np.sin(2 * np.pi * 127 / 2048 * n)).astype(int)
b = (v[:, None] >> np.arange(11, -1, -1)) & 1
def run(x):
    try:
        r = calibrate_weight_sine(x, freq=None)
        return np.round(np.asarray(r['weight']) / r['weight'][0], 4).tolist(), float(np.round(r['refined_frequency'], 6))
    except Exception as e:
        return repr(e)
p, q = run(b.astype(bool)), run(b.astype(float))
if p != q:
    fail('%r %r' % (p, q))
''')

seed('delay-odd-record', 'P23', 'a record of odd length delayed through its spectrum',
     'The inverse transform is called without the record length, so odd records come back one sample short.',
     [('timeinterleave/fractional_delay.py', '    return np.fft.irfft(X, n=N)\n', '    return np.fft.irfft(X)\n')],
     '''
from adctoolbox.timeinterleave import fractional_delay_fft
for n in (64, 101):
    x = np.sin(np.arange(n) * 0.3)
    if len(fractional_delay_fft(x, 1e-3, 100.0)) != n:
        fail('length changes for %d samples' % n)
''')

seed('acf-lag-cap', 'P23', 'a lag range above a quarter of the record',
     'The lag range is silently limited to a quarter of the record, so the returned lags and correlation are shorter than requested.',
     [('aout/analyze_error_autocorr.py', '    lags = np.arange(-max_lag, max_lag + 1)\n', '    max_lag = min(max_lag, N // 4)\n    lags = np.arange(-max_lag, max_lag + 1)\n')],
     '''
from adctoolbox.aout import analyze_error_autocorr
rng = np.random.default_rng(1)
n = 256
x = np.sin(2 * np.pi * 17 / n * np.arange(n)) + 0.01 * rng.standard_normal(n)
r = analyze_error_autocorr(x, frequency=17 / n, max_lag=100, create_plot=False)
if len(r['lags']) != 201 or len(r['acf']) != 201:
    fail('%d lags' % len(r['lags']))
''')

seed('phase-bins-trailing', 'P23', 'more phase bins than the samples reach, so that the last bins are empty',
     'The bins are counted without a minimum length, so empty trailing bins disappear from the result.',
     [('aout/rearrange_error_by_phase.py', 'np.bincount(bin_indices, minlength=n_bins).astype(float)', 'np.bincount(bin_indices).astype(float)'),
      ('aout/rearrange_error_by_phase.py', 'bin_sum = np.bincount(bin_indices, weights=error, minlength=n_bins)', 'bin_sum = np.bincount(bin_indices, weights=error)'),
      ('aout/rearrange_error_by_phase.py', 'bin_sum_sq = np.bincount(bin_indices, weights=error_sq, minlength=n_bins)', 'bin_sum_sq = np.bincount(bin_indices, weights=error_sq)'),
      ('aout/rearrange_error_by_phase.py', 'np.linspace(0, 2 * np.pi, n_bins, endpoint=False) + bin_width / 2', 'np.linspace(0, 2 * np.pi, n_bins, endpoint=False)[:len(bin_counts)] + bin_width / 2')],
     '''
from adctoolbox.aout import rearrange_error_by_phase
rng = np.random.default_rng(1)
n = 64
x = np.sin(2 * np.pi * 0.25 * np.arange(n) + 0.1) + 0.01 * rng.standard_normal(n)
r = rearrange_error_by_phase(x, norm_freq=0.25, n_bins=100)
if len(r['bin_error_rms_v']) != 100 or len(r['phase_bin_centers_rad']) != 100:
    fail('%d bins' % len(r['bin_error_rms_v']))
''')

seed('dangling-link-kept', 'P24', 'a dangling link where the skill should go, and permission to replace it',
     'A link whose target is gone is not recognised as present, so replacing it with permission fails.',
     [('skill_cli.py', "        if target_dir.exists() or target_dir.is_symlink():\n            if not overwrite:", "        if target_dir.exists():\n            if not overwrite:")],
     '''
import os, tempfile
from pathlib import Path
from adctoolbox.skill_cli import install_bundled_skills
with tempfile.TemporaryDirectory() as d:
    t = Path(d) / 'adctoolbox-user-guide'
    os.symlink(str(Path(d) / 'gone'), str(t))
    try:
        install_bundled_skills(dest=d, overwrite=True)
    except OSError as e:
        fail('replacing a dangling link fails: %r' % e)
    if t.is_symlink() or not t.is_dir() or (Path(d) / 'gone').exists():
        fail('the link was not replaced')
''')

seed('replace-through-link', 'P24', 'a link to a directory of the user where the skill should go, and permission to replace it',
     'The target path is resolved first, so replacing removes the directory the link points to instead of the link.',
     [('skill_cli.py', "        target_dir = install_root / skill_name\n        source_dir = bundled_skill_dir(skill_name)\n\n        if", "        target_dir = (install_root / skill_name).resolve()\n        source_dir = bundled_skill_dir(skill_name)\n\n        if")],
     '''
import os, tempfile
from pathlib import Path
from adctoolbox.skill_cli import install_bundled_skills
with tempfile.TemporaryDirectory() as d:
    mine = Path(d) / 'mine'
    mine.mkdir()
    (mine / 'notes.txt').write_text('keep')
    dest = Path(d) / 'skills'
    dest.mkdir()
    os.symlink(str(mine), str(dest / 'adctoolbox-user-guide'))
    install_bundled_skills(dest=dest, overwrite=True)
    if not (mine / 'notes.txt').exists():
        fail('the directory behind the link was emptied')
    if (dest / 'adctoolbox-user-guide').is_symlink():
        fail('the link was not replaced')
''')

seed('examples-merged', 'P24', 'an existing directory at the destination of the examples',
     'An existing empty-looking or older directory is merged with the examples instead of being reported.',
     [('cli.py', "    if dest_dir.exists():\n", "    if dest_dir.exists() and not dest_dir.is_dir():\n"),
      ('cli.py', "        shutil.copytree(src_dir, dest_dir, \n", "        shutil.copytree(src_dir, dest_dir, dirs_exist_ok=True,\n")],
     '''
import os, sys, tempfile
from pathlib import Path
from adctoolbox.cli import copy_examples
start = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        (Path(d) / 'work').mkdir()
        (Path(d) / 'work' / 'own.txt').write_text('keep')
        sys.argv = ['adctoolbox-get-examples', 'work']
        try:
            copy_examples()
        except SystemExit as e:
            refused = bool(e.code)
        else:
            refused = False
        kept = sorted(os.listdir('work')) == ['own.txt']
    finally:
        os.chdir(start)
if not refused or not kept:
    fail('an existing directory was not left alone')
''')

seed('dashboard-suffix', 'P24', 'an output path whose suffix is not .png',
     'The dashboard is always saved with the suffix .png, so a path such as report.pdf is not written.',
     [('toolset/generate_dout_dashboard.py', "        output_path = Path(output_path)\n", "        output_path = Path(output_path).with_suffix('.png')\n")],
     '''
import tempfile
from pathlib import Path
from adctoolbox.toolset import generate_dout_dashboard
rng = np.random.default_rng(1)
n = 1024
code = np.round(120 * np.sin(2 * np.pi * 67 / n * np.arange(n)) + 127).astype(int)
bits = (code[:, None] >> np.arange(7, -1, -1)) & 1
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / 'sub' / 'report.pdf'
    generate_dout_dashboard(bits, freq=67 / n, output_path=p)
    if not p.exists() or len(list(p.parent.iterdir())) != 1:
        fail('saved as %s' % [q.name for q in p.parent.iterdir()])
''')

seed('bridge-parasitic-dropped', 'P14', 'a bridge capacitor together with a parasitic capacitance at the same node',
     'The series combination seen through a bridge leaves out the parasitic capacitance of the node behind it.',
     [('fundamentals/convert_cap_to_weight.py', "            c_load = (cb[i] * c_node_total) / (cb[i] + c_node_total)\n",
       "            c_stage = cd[i] + c_load\n            c_load = (cb[i] * c_stage) / (cb[i] + c_stage)\n")],
     '''
from adctoolbox.fundamentals.convert_cap_to_weight import convert_cap_to_weight
w, total = convert_cap_to_weight([2.0, 3.0], [1.5, 0.0], [0.5, 0.25])
load = 1.5 * 2.5 / (1.5 + 2.5)
node = load + 3.25
if abs(total - node) > 1e-12 or abs(w[1] - 3 / node) > 1e-12 or abs(w[0] - 2 / 2.5 * load / node) > 1e-12:
    fail('total %g instead of %g' % (total, node))
''')

seed('target-level-headroom', 'P14', 'a measured level more than 20 dB below the target',
     'The level difference is limited to a gain of at most 20 dB, so a weak signal is not brought to its target in one step.',
     [('utils/vpp_for_target_dbfs.py', "    delta_db = signal_db_target - signal_db_measured\n", "    delta_db = min(signal_db_target - signal_db_measured, 20.0)\n")],
     '''
from adctoolbox.utils.vpp_for_target_dbfs import vpp_for_target_dbfs
for have, want in ((-60.0, -0.5), (-6.0, -0.5), (3.0, -12.0), (-40.0, -1.0)):
    got = vpp_for_target_dbfs(0.01, have, want)
    if abs(20 * np.log10(got / 0.01) - (want - have)) > 1e-9:
        fail('level moved by %g dB instead of %g' % (20 * np.log10(got / 0.01), want - have))
''')
