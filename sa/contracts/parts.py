"""Parts reported by one analysis add up to the record it was given.  Parsed and analysed, never executed."""
import numpy as np
from adctoolbox.fundamentals.fit_sine_4param import fit_sine_4param
from adctoolbox.aout.decompose_harmonic_error import decompose_harmonic_error
from adctoolbox.aout.rearrange_error_by_phase import rearrange_error_by_phase
from adctoolbox.aout.rearrange_error_by_value import rearrange_error_by_value
from adctoolbox.aout.analyze_error_pdf import analyze_error_pdf
from adctoolbox.aout.analyze_error_autocorr import analyze_error_autocorr
from adctoolbox.aout.analyze_error_spectrum import analyze_error_spectrum
from adctoolbox.aout.analyze_error_envelope_spectrum import analyze_error_envelope_spectrum
from adctoolbox.aout.analyze_error_phase_plane import analyze_error_phase_plane
from adctoolbox.aout.analyze_error_by_value import analyze_error_by_value
from adctoolbox.aout.analyze_error_by_phase import analyze_error_by_phase
from adctoolbox.aout.compute_inl_from_sine import compute_inl_from_sine
from adctoolbox.aout.compute_inl_from_ramp import compute_inl_from_ramp
from adctoolbox.calibration.calibrate_weight_sine import calibrate_weight_sine
from adctoolbox.timeinterleave.extract_mismatch_sine import extract_mismatch_sine


def _fit(tag, data, r):
    k = np.arange(len(data))
    return [('fit + residual = record, ' + tag, r['fitted_signal'] + r['residuals'], data),
            ('rmse is the rms of the residual, ' + tag, r['rmse'], np.sqrt(np.mean(r['residuals'] ** 2))),
            ('fitted signal is the sine of the reported parameters, ' + tag, r['fitted_signal'],
             r['amplitude'] * np.cos(2 * np.pi * r['frequency'] * k + r['phase']) + r['dc_offset'])]


def fit_default(data: 'rec'):
    return _fit('default', data, fit_sine_4param(data))


def fit_known(data: 'rec', f0: 'pos'):
    r = fit_sine_4param(data, frequency_estimate=f0, max_iterations=0)
    return _fit('three parameters', data, r) + [('given frequency is kept', r['frequency'], f0)]


def fit_iterated(data: 'rec', f0: 'pos'):
    return _fit('two iterations', data, fit_sine_4param(data, frequency_estimate=f0, max_iterations=2))


def fit_many(data: 'rec', n: 'pint'):
    return _fit('many iterations', data, fit_sine_4param(data, max_iterations=n))


def decomposition(data: 'rec'):
    r = decompose_harmonic_error(data)
    avg = np.mean(np.atleast_2d(data), axis=0)
    return [('fundamental + harmonics = reconstruction', r['fundamental_signal'] + r['harmonic_signal'], r['reconstructed_signal']),
            ('residual rms scaled to full amplitude', r['residual_rms'], np.sqrt(np.mean(r['noise_residual'] ** 2)) * 2 * np.sqrt(2))]


def decomposition_total(data: 'rec2', n: 'pint', f0: 'pos'):
    r = decompose_harmonic_error(data, n_harmonics=n, frequency=f0)
    s = np.atleast_2d(data)
    return [('fundamental + harmonics = reconstruction, given frequency', r['fundamental_signal'] + r['harmonic_signal'], r['reconstructed_signal'])]


def by_phase(data: 'rec', bins: 'len'):
    r = rearrange_error_by_phase(data, n_bins=bins)
    return [('error + fit = record (by phase)', r['error'] + r['fitted_signal'], data.flatten()),
            ('total rms', r['total_rms_v'], np.sqrt(np.mean(r['error'] ** 2))),
            ('phase of every sample', r['phase'], 2 * np.pi * r['norm_freq'] * np.arange(len(data)) + fit_sine_4param(data)['phase'])]


def by_phase_relative(data: 'rec'):
    r = rearrange_error_by_phase(data)
    return [('relative amplitude noise', r['am_relative'], r['am_noise_rms_v'] / r['amplitude'] if r['amplitude'] > 1e-10 else 0),
            ('phase noise in radians', r['pm_noise_rms_rad'] * r['amplitude'], r['pm_noise_rms_v'])]


def by_value(data: 'rec', bins: 'len'):
    r = rearrange_error_by_value(data, n_bins=bins)
    return [('error + fit = record (by value)', r['error'] + r['fitted_signal'], data.flatten()), ('number of bins', r['n_bins'], bins)]


def pdf(data: 'rec', bits: 'pint', full_scale: 'pos'):
    r = analyze_error_pdf(data, resolution=bits, full_scale=full_scale, create_plot=False)
    f = fit_sine_4param(data)
    return [('error in steps', r['err_lsb'].flatten() * full_scale / 2 ** bits, (data - f['fitted_signal']).flatten()),
            ('mean', r['mu'], np.mean(r['err_lsb'])), ('spread', r['sigma'], np.std(r['err_lsb'], ddof=1))]


def pdf_auto(data: 'rec', bits: 'pint'):
    r = analyze_error_pdf(data, resolution=bits, create_plot=False)
    f = fit_sine_4param(data)
    return [('error in steps of the record range', r['err_lsb'].flatten() * (np.max(data) - np.min(data)) / 2 ** bits, (data - f['fitted_signal']).flatten())]


def error_signals(data: 'rec', f0: 'pos'):
    f = fit_sine_4param(data, frequency_estimate=f0)
    e = data - f['fitted_signal']
    a = analyze_error_autocorr(data, frequency=f0, create_plot=False)
    b = analyze_error_spectrum(data, frequency=f0, create_plot=False)
    c = analyze_error_envelope_spectrum(data, frequency=f0, create_plot=False)
    d = analyze_error_pdf(data, frequency=f0, create_plot=False, full_scale=1.0, resolution=0)
    return [('autocorrelation error', a['error_signal'], e), ('spectrum error', b['error_signal'], e), ('envelope error', c['error_signal'], e),
            ('density error', d['err_lsb'], e.flatten())]


def phase_plane(data: 'rec'):
    r = analyze_error_phase_plane(data, create_plot=False)
    return [('residual + fit = record (phase plane)', r['residual'] + r['fitted_sine'], data.flatten())]


def inl_sine(data: 'codes', bits: 'pint'):
    inl, dnl, code = compute_inl_from_sine(data, num_bits=bits)
    return [('INL is the running sum of DNL', inl, np.cumsum(dnl))]


def inl_ramp(codes: 'codes', bits: 'pint'):
    out = []
    for end in ('none', 'endpoints', 'fit'):
        r = compute_inl_from_ramp(codes, num_bits=bits, endpoint=end)
        out = out + [('raw INL is the running sum of DNL, ' + end, r['raw_inl'], np.concatenate(([0.0], np.cumsum(r['dnl'])))),
                     ('DNL range, ' + end, r['dnl_pp'], r['dnl_max'] - r['dnl_min']), ('INL range, ' + end, r['inl_pp'], r['inl_max'] - r['inl_min']),
                     ('DNL extremes, ' + end, r['dnl_max'] - r['dnl_min'], np.max(r['dnl']) - np.min(r['dnl'])),
                     ('INL extremes, ' + end, r['inl_max'] - r['inl_min'], np.max(r['inl']) - np.min(r['inl']))]
    return out


def inl_ramp_raw(codes: 'codes', bits: 'pint'):
    r = compute_inl_from_ramp(codes, num_bits=bits, endpoint='none')
    return [('uncorrected INL', r['inl'], r['raw_inl']), ('top code', r['code_max'], 2 ** bits - 1)]


def weights(bits: 'bits', f0: 'pos'):
    r = calibrate_weight_sine(bits, freq=f0)
    return [('signal = offset + reference + error', r['calibrated_signal'][0], r['offset'] + r['ideal'][0] + r['error'][0]),
            ('ENOB of the calibration', r['enob'], (r['snr_db'] - 1.76) / 6.02)]


def mismatch(data: 'rec', m: 'pint', fs: 'pos', f0: 'pos'):
    r = extract_mismatch_sine(data, m, fs, fin=f0)
    return [('frequency is kept', r['fin'], f0)]
