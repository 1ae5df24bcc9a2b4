"""Wrappers and legacy names return what the functions they stand for return.  Parsed and analysed, never executed."""
import numpy as np
from adctoolbox import aout, dout, spectrum, calibration, fundamentals, oversampling, common, timeinterleave
from adctoolbox.aout.decompose_harmonic_error import decompose_harmonic_error


def spectra(data: 'rec', fs: 'pos', osr: 'pint', full: 'pos', side: 'pint', h: 'pint', level: 'num'):
    c = spectrum.compute_spectrum(data, fs=fs, osr=osr, max_scale_range=full, side_bin=side, max_harmonic=h, win_type='blackman', nf_method=2)['metrics']
    return [('spectrum analysis', spectrum.analyze_spectrum(data, fs=fs, osr=osr, max_scale_range=full, side_bin=side, max_harmonic=h, win_type='blackman', nf_method=2, create_plot=False), c),
            ('spectrum analysis in the other style', spectrum.analyze_spectrum_virtuoso(data, fs=fs, osr=osr, max_scale_range=full, side_bin=side, max_harmonic=h, win_type='blackman', nf_method=2, create_plot=False), c),
            ('assumed level', spectrum.analyze_spectrum(data, assumed_sig_pwr_dbfs=level, create_plot=False), spectrum.compute_spectrum(data, assumed_sig_pwr_dbfs=level)['metrics'])]


def spectra_coherent(data: 'rec2', fs: 'pos', cut: 'pos', full: 'pos', h: 'pint'):
    return [('coherent average', spectrum.analyze_spectrum(data, fs=fs, coherent_averaging=True, create_plot=False), spectrum.compute_spectrum(data, fs=fs, coherent_averaging=True)['metrics']),
            ('polar spectrum', spectrum.analyze_spectrum_polar(data, fs=fs, cutoff_freq=cut, osr=2, harmonic=h + 2, max_code=full, create_plot=False),
             spectrum.compute_spectrum(data, fs=fs, cutoff_freq=cut, osr=2, max_harmonic=h + 2, max_scale_range=full, win_type='boxcar', coherent_averaging=True)['metrics'])]


def legacy_spectrum(data: 'rec', fs: 'pos', h: 'pint'):
    a = aout.analyze_spectrum(data, fs=fs, n_thd=h, create_plot=False)
    b = spectrum.analyze_spectrum(data, fs=fs, max_harmonic=h, create_plot=False)
    return [('legacy SNDR', a['sndr_db'], b['sndr_dbc']), ('legacy SNR', a['snr_db'], b['snr_dbc']), ('legacy SFDR', a['sfdr_db'], b['sfdr_dbc']),
            ('legacy THD', a['thd_db'], b['thd_dbc']), ('legacy noise floor', a['noise_floor_db'], b['noise_floor_dbfs']), ('legacy ENOB', a['enob'], b['enob'])]


def legacy_errors(data: 'rec', f: 'pos', bins: 'len'):
    p = aout.plot_error_pdf(data, frequency=f, create_plot=False)
    r = aout.analyze_error_pdf(data, frequency=f, create_plot=False)
    q = aout.plot_error_autocorr(data, max_lag=20, normalize=False, create_plot=False)
    s = aout.analyze_error_autocorr(data, max_lag=20, normalize=False, create_plot=False)
    return [('legacy error density', p, (r['err_lsb'], r['mu'], r['sigma'], r['kl_divergence'], r['x'], r['pdf'], r['gauss_pdf'])), ('legacy autocorrelation', q, (s['acf'], s['lags'])),
            ('legacy envelope', aout.plot_envelope_spectrum(data, fs=2.0, frequency=f, create_plot=False)['sndr_db'], aout.analyze_error_envelope_spectrum(data, fs=2.0, frequency=f, create_plot=False)['sndr_dbc'])]


def legacy_histograms(data: 'rec', f: 'pos', bins: 'len'):
    p = aout.plot_error_hist_phase(data, bins=bins, freq=f, disp=0)
    r = aout.analyze_error_by_phase(data, n_bins=bins, norm_freq=f, create_plot=False)
    q = aout.plot_error_hist_code(data, bins=bins, freq=f, disp=0)
    s = aout.analyze_error_by_value(data, n_bins=bins, norm_freq=f, create_plot=False)
    return [('legacy phase histogram', p, (r['bin_error_mean_v'], r['bin_error_rms_v'], r['phase_bin_centers_rad'], r['am_noise_rms_v'], r['pm_noise_rms_v'], r['error'], r['phase'])),
            ('legacy code histogram', q, (s['error_mean'], s['error_rms'], s['bin_centers'], s['error'], data))]


def legacy_decomposition(data: 'rec', f: 'pos', h: 'pint'):
    a = aout.decompose_harmonics(data, harmonic=h, disp=0)
    r = decompose_harmonic_error(data, n_harmonics=h)
    b = aout.decompose_harmonics(data, freq=f, harmonic=h, disp=0)
    s = decompose_harmonic_error(data, n_harmonics=h, frequency=f, max_iterations=0)
    return [('legacy decomposition', a, (r['fundamental_signal'], r['harmonic_signal'] + r['noise_residual'], r['harmonic_signal'], r['noise_residual'])),
            ('legacy decomposition at a given frequency', b, (s['fundamental_signal'], s['harmonic_signal'] + s['noise_residual'], s['harmonic_signal'], s['noise_residual']))]


def decomposition(data: 'rec', f: 'pos', h: 'pint', n: 'pint', tol: 'pos'):
    r = decompose_harmonic_error(data, n_harmonics=h, frequency=f, max_iterations=n, tolerance=tol)
    return [('decomposition over time', aout.analyze_decomposition_time(data, harmonic=h, frequency=f, max_iterations=n, tolerance=tol, create_plot=False), r),
            ('polar decomposition', aout.analyze_decomposition_polar(data, harmonic=h, frequency=f, max_iterations=n, tolerance=tol, create_plot=False), r)]


def rearranged(data: 'rec', f: 'pos', bins: 'len', n: 'pint', tol: 'pos', c: 'pos'):
    return [('error by phase', aout.analyze_error_by_phase(data, norm_freq=f, n_bins=bins, include_base_noise=False, max_iterations=n, tolerance=tol, create_plot=False),
             aout.rearrange_error_by_phase(data, norm_freq=f, n_bins=bins, include_base_noise=False, max_iterations=n, tolerance=tol)),
            ('error by value', aout.analyze_error_by_value(data, norm_freq=f, n_bins=bins, clip_percent=c, max_iterations=n, tolerance=tol, create_plot=False),
             aout.rearrange_error_by_value(data, norm_freq=f, n_bins=bins, clip_percent=c, max_iterations=n, tolerance=tol))]


def value_range(data: 'rec', lo: 'num', hi: 'num', bins: 'pint'):
    return [('error by value in a given range', aout.analyze_error_by_value(data, n_bins=bins, value_range=(lo, hi), create_plot=False),
             aout.rearrange_error_by_value(data, n_bins=bins, value_range=(lo, hi)))]


def linearity(codes: 'codes', bits: 'pint', full: 'pos', c: 'pos'):
    a = aout.analyze_inl_from_sine(codes, num_bits=bits, full_scale=full, clip_percent=c, create_plot=False)
    inl, dnl, code = aout.compute_inl_from_sine(codes, num_bits=bits, full_scale=full, clip_percent=c)
    return [('INL from a sine', (a['inl'], a['dnl'], a['code']), (inl, dnl, code)),
            ('INL from a ramp', aout.analyze_inl_from_ramp(codes, num_bits=bits, endpoint='fit', exclude_endpoints=False, create_plot=False)['inl'],
             aout.compute_inl_from_ramp(codes, num_bits=bits, endpoint='fit', exclude_endpoints=False)['inl'])]


def digital(bits: 'bits', w: 'gain', f: 'pos', o: 'pint'):
    r = calibration.calibrate_weight_sine(bits, freq=f, harmonic_order=3)
    return [('bit activity', dout.check_bit_activity(bits, create_plot=False), dout.analyze_bit_activity(bits, create_plot=False)),
            ('overflow', dout.check_overflow(bits, w, disp=0), dout.analyze_overflow(bits, w, create_plot=False)),
            ('weight ratio', dout.plot_weight_radix(w, create_plot=False), dout.analyze_weight_radix(w, create_plot=False)['radix']),
            ('calibration', dout.calibrate_weight_sine(bits, freq=f, order=3), (r['weight'], r['offset'], r['calibrated_signal'], r['ideal'], r['error'], r['refined_frequency']))]


def calibration_lite(bits: 'bits', f: 'pos'):
    return [('light calibration', calibration.calibrate_weight_sine_lite(bits, f), calibration.calibrate_weight_sine_lite(bits=bits, freq=f))]


def sweeps(data: 'rec', h: 'pint'):
    r = spectrum.sweep_performance_vs_osr(data, osr=[1, 4, 8], harmonic=h, create_plot=False)
    return [('oversampling performance', oversampling.perfosr(data, osr=[1, 4, 8], harmonic=h, disp=0), (r['osr'], r['sndr'], r['sfdr'], r['enob']))]


def common_names(data: 'rec', x: 'num', fs: 'pos', osr: 'pos', p: 'num'):
    return [('fit', common.fit_sine(data, max_iterations=2), fundamentals.fit_sine_4param(data, max_iterations=2)),
            ('noise density', common.snr_to_nsd(x, fs, osr, signal_pwr_dbfs=p), fundamentals.snr_to_nsd(x, fs, osr=osr, psignal_dbfs=p)),
            ('noise density back', common.nsd_to_snr(x, fs, osr, signal_pwr_dbfs=p), fundamentals.nsd_to_snr(x, fs, osr=osr, psignal_dbfs=p))]


def interleaved(x: 'rec', fs: 'pos'):
    a = timeinterleave.extract_mismatch_sine(x, 4, fs)
    b = timeinterleave.extract_mismatch_sine(x, 4, fs, fin=fundamentals.estimate_frequency(x, fs=fs))
    return [('mismatch at the estimated frequency', a, b)]
