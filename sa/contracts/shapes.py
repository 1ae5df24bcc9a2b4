"""Lengths of the arrays a call returns.  Parsed and analysed, never executed."""
import numpy as np
from adctoolbox import aout, dout, spectrum, calibration, fundamentals, oversampling, timeinterleave, models
from adctoolbox.siggen import ADC_Signal_Generator
from adctoolbox.aout.compute_inl_from_ramp import compute_inl_from_ramp
from adctoolbox.aout.compute_inl_from_sine import compute_inl_from_sine
from adctoolbox.aout.decompose_harmonic_error import decompose_harmonic_error
from adctoolbox.calibration.calibrate_weight_sine import calibrate_weight_sine
from adctoolbox.calibration.calibrate_weight_sine_lite import calibrate_weight_sine_lite
from adctoolbox.spectrum.extract_freq_components import extract_freq_components
from adctoolbox.fundamentals.convert_cap_to_weight import convert_cap_to_weight
from adctoolbox.timeinterleave.fractional_delay import fractional_delay_fft, fractional_delay_farrow
from adctoolbox.timeinterleave.deinterleave import deinterleave, interleave


def fit(data: 'rec', n: 'pint'):
    r = fundamentals.fit_sine_4param(data)
    q = fundamentals.fit_sine_4param(data, max_iterations=n)
    return [('fitted signal', len(r['fitted_signal']), len(data)), ('residuals', len(r['residuals']), len(data)),
            ('fitted signal, iterated', len(q['fitted_signal']), len(data)), ('residuals, iterated', len(q['residuals']), len(data))]


def decomposition(data: 'rec', h: 'len'):
    r = decompose_harmonic_error(data, n_harmonics=h)
    q = decompose_harmonic_error(data, n_harmonics=4)
    return [('four magnitudes', len(q['magnitudes']), 4), ('four phases', len(q['phases']), 4), ('four magnitudes in dB', len(q['magnitudes_db']), 4),
            ('fundamental signal', len(r['fundamental_signal']), len(data)), ('harmonic signal', len(r['harmonic_signal']), len(data)),
            ('residual', len(r['noise_residual']), len(data)), ('reconstruction', len(r['reconstructed_signal']), len(data)),
            ('magnitudes', len(r['magnitudes']), h), ('phases', len(r['phases']), h), ('magnitudes in dB', len(r['magnitudes_db']), h)]


def spectrum_axis(data: 'rec', h: 'len'):
    r = spectrum.compute_spectrum(data, max_harmonic=h)
    p = r['plot_data']
    return [('harmonic levels', len(r['metrics']['harmonics_dbc']), h - 1), ('harmonic bins', len(p['harmonic_bins']), h - 1),
            ('frequencies', len(p['freq']), len(data) // 2 + 1), ('power spectrum', len(p['power_spectrum_db_plot']), len(data) // 2 + 1),
            ('power against frequencies', len(p['power_spectrum_db_plot']), len(p['freq']))]


def by_phase(data: 'rec', b: 'len'):
    r = aout.rearrange_error_by_phase(data, n_bins=b)
    return [('rms per bin', len(r['bin_error_rms_v']), b), ('mean per bin', len(r['bin_error_mean_v']), b), ('bin centres', len(r['phase_bin_centers_rad']), b),
            ('samples per bin', len(r['bin_counts']), b), ('fitted signal by phase', len(r['fitted_signal']), len(data)), ('error by phase', len(r['error']), len(data)),
            ('phase', len(r['phase']), len(data))]


def by_value(data: 'rec', b: 'len'):
    r = aout.rearrange_error_by_value(data, n_bins=b)
    return [('rms per value bin', len(r['error_rms']), b), ('mean per value bin', len(r['error_mean']), b), ('value bin centres', len(r['bin_centers']), b),
            ('values of the bins', len(r['value_bin_centers']), b), ('samples per value bin', len(r['count_per_bin']), b), ('bin of every sample', len(r['bin_indices']), len(data)),
            ('error by value', len(r['error']), len(data)), ('fitted signal by value', len(r['fitted_signal']), len(data))]


def autocorrelation(data: 'rec', f: 'pos', m: 'pint'):
    r = aout.analyze_error_autocorr(data, frequency=f, max_lag=m, create_plot=False)
    return [('autocorrelation', len(r['acf']), 2 * m + 1), ('lags', len(r['lags']), 2 * m + 1), ('error of the autocorrelation', len(r['error_signal']), len(data))]


def density(data: 'rec', f: 'pos'):
    r = aout.analyze_error_pdf(data, frequency=f, create_plot=False)
    return [('density', len(r['pdf']), len(r['x'])), ('normal density', len(r['gauss_pdf']), len(r['x'])), ('error in steps', len(r['err_lsb']), len(data))]


def error_spectra(data: 'rec', f: 'pos'):
    r = aout.analyze_error_spectrum(data, frequency=f, create_plot=False)
    q = aout.analyze_error_envelope_spectrum(data, frequency=f, create_plot=False)
    return [('error of the spectrum', len(r['error_signal']), len(data)), ('error of the envelope', len(q['error_signal']), len(data)), ('envelope', len(q['envelope']), len(data))]


def planes(data: 'rec'):
    r = aout.analyze_error_phase_plane(data, create_plot=False)
    return [('residual of the phase plane', len(r['residual']), len(data)), ('fitted sine of the phase plane', len(r['fitted_sine']), len(data))]


def static_nonlinearity(data: 'rec', k: 'pint'):
    r = aout.fit_static_nonlin(data, k)
    return [('fitted sine of the transfer', len(r[2]), len(data)), ('transfer curve', len(r[3][0]), len(r[3][1]))]


def ramp(codes: 'codes', n: 'pint'):
    r = compute_inl_from_ramp(codes, num_bits=8)
    q = compute_inl_from_ramp(codes, num_bits=n, exclude_endpoints=False)
    return [('DNL per code', len(r['dnl']), len(r['code'])), ('counts per code', len(r['counts']), len(r['code'])), ('INL per transition', len(r['inl']), len(r['dnl']) + 1),
            ('codes without the end codes', len(r['code']), 254), ('raw INL per transition', len(r['raw_inl']), len(r['dnl']) + 1), ('transitions', len(r['transition_code']), len(r['dnl']) + 1),
            ('all codes', len(q['code']), 2 ** n), ('DNL of all codes', len(q['dnl']), 2 ** n), ('counts of all codes', len(q['counts']), 2 ** n),
            ('INL of all codes', len(q['inl']), 2 ** n + 1), ('transitions of all codes', len(q['transition_code']), 2 ** n + 1)]


def sine_linearity(codes: 'codes', n: 'pint'):
    inl, dnl, code = compute_inl_from_sine(codes, num_bits=n)
    return [('INL against DNL', len(inl), len(dnl)), ('codes against DNL', len(code), len(dnl))]


def weights(bits: 'bits', f: 'pos'):
    r = calibrate_weight_sine(bits, freq=f)
    q = calibrate_weight_sine_lite(bits, freq=f)
    return [('weights', len(r['weight']), bits.shape[1]), ('weights of the quick calibration', len(q), bits.shape[1]), ('calibrated signal', len(r['calibrated_signal'][0]), len(bits)),
            ('ideal signal', len(r['ideal'][0]), len(bits)), ('calibration error', len(r['error'][0]), len(bits))]


def digital(bits: 'bits', w: 'gain', f: 'pos'):
    a = dout.analyze_bit_activity(bits, create_plot=False)
    o = dout.analyze_overflow(bits, w, create_plot=False)
    x = dout.analyze_weight_radix(w, create_plot=False)
    s = dout.analyze_enob_sweep(bits, freq=f, create_plot=False)
    return [('activity per bit', len(a), bits.shape[1]), ('lower range per bit', len(o[0]), bits.shape[1]), ('upper range per bit', len(o[1]), bits.shape[1]),
            ('underflow per bit', len(o[2]), bits.shape[1]), ('overflow per bit', len(o[3]), bits.shape[1]), ('radix per weight', len(x['radix']), len(w)),
            ('resolution per bit count', len(s[0]), bits.shape[1]), ('bit counts', len(s[1]), bits.shape[1])]


def converter(v: 'rec', w: 'gain', n: 'pint'):
    c = models.sar_convert(v, w)
    return [('codes per sample', len(c), len(v)), ('bits per sample', c.shape[1], len(w)), ('reconstructed samples', len(models.sar_reconstruct(c, w)), len(v)),
            ('ideal weights', len(models.sar_ideal_weights(6)), 6), ('redundant weights', len(models.sar_ideal_weights(6, redundant_bit=2)), 7), ('mismatched weights', len(models.sar_apply_mismatch(w, 0.01)), len(w))]


def capacitors(a: 'gain', b: 'gain', c: 'gain'):
    w, total = convert_cap_to_weight(a, b, c)
    return [('weights of capacitors', len(w), len(a))]


def interleaved(x: 'rec', m: 'pint', fs: 'pos', f: 'pos', d: 'pos'):
    c = deinterleave(x, m)
    r = timeinterleave.extract_mismatch_sine(x, m, fs, fin=f)
    return [('channels', len(c), m), ('samples per channel', c.shape[1], len(x) // m), ('merged samples', len(interleave(c)), len(x)),
            ('gain per channel', len(r['gain']), m), ('offset per channel', len(r['offset']), m), ('skew per channel', len(r['skew']), m),
            ('phase per channel', len(r['phases']), m), ('delayed samples', len(fractional_delay_fft(x, d, fs)), len(x)),
            ('filtered samples', len(fractional_delay_farrow(x, d, fs)), len(x))]


def bands(data: 'rec', f: 'pos'):
    return [('in-band signal', len(extract_freq_components(data, [[0.0, f]])), len(data)), ('filtered signal', len(oversampling.ifilter(data, [[0.0, f]])), len(data))]


def sweeps(data: 'rec'):
    r = spectrum.sweep_performance_vs_osr(data, osr=[1, 2, 4], create_plot=False)
    q = oversampling.perfosr(data, osr=[1, 2, 4], disp=False)
    return [('SNDR per ratio', len(r['sndr']), 3), ('SFDR per ratio', len(r['sfdr']), 3), ('ENOB per ratio', len(r['enob']), 3), ('ratios', len(r['osr']), 3),
            ('ratios of the performance', len(q[0]), 3), ('SNDR of the performance', len(q[1]), 3), ('SFDR of the performance', len(q[2]), 3), ('ENOB of the performance', len(q[3]), 3)]


def generator(n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num'):
    g = ADC_Signal_Generator(n, fs, fin, a, dc)
    return [('clean signal', len(g.get_clean_signal()), n), ('thermal noise', len(g.apply_thermal_noise()), n), ('quantisation', len(g.apply_quantization_noise()), n),
            ('jitter', len(g.apply_jitter()), n), ('harmonics', len(g.apply_static_nonlinearity_hd(hd2_dB=-60)), n), ('polynomial', len(g.apply_static_nonlinearity(k2=0.1)), n),
            ('memory', len(g.apply_memory_effect()), n), ('settling', len(g.apply_incomplete_sampling()), n), ('residue gain', len(g.apply_ra_gain_error()), n),
            ('dynamic residue gain', len(g.apply_ra_gain_error_dynamic()), n), ('reference', len(g.apply_reference_error()), n), ('amplitude tone', len(g.apply_am_tone()), n),
            ('amplitude noise', len(g.apply_am_noise()), n), ('clipping', len(g.apply_clipping()), n), ('drift', len(g.apply_drift()), n), ('glitches', len(g.apply_glitch()), n),
            ('noise shaping', len(g.apply_noise_shaping()), n)]


def applied(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num'):
    g = ADC_Signal_Generator(n, fs, fin, a, dc)
    return [('quantised record', len(g.apply_quantization_noise(x)), len(x)), ('polynomial of a record', len(g.apply_static_nonlinearity(x, k2=0.1)), len(x)),
            ('memory of a record', len(g.apply_memory_effect(x)), len(x)), ('residue gain of a record', len(g.apply_ra_gain_error(x)), len(x)),
            ('clipped record', len(g.apply_clipping(x)), len(x)), ('reference of a record', len(g.apply_reference_error(x)), len(x))]
