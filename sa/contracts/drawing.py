"""The numbers a call returns do not depend on whether it draws or prints.  Parsed and analysed, never executed."""
import numpy as np
import matplotlib.pyplot as plt
from adctoolbox import aout, dout, spectrum, calibration, fundamentals, oversampling


def spectrum_plot(data: 'rec', fs: 'pos', osr: 'pint'):
    return [('spectrum', spectrum.analyze_spectrum(data, fs=fs, osr=osr, create_plot=True), spectrum.analyze_spectrum(data, fs=fs, osr=osr, create_plot=False)),
            ('spectrum without labels', spectrum.analyze_spectrum(data, show_title=False, show_label=False, plot_harmonics_up_to=0), spectrum.analyze_spectrum(data, create_plot=False))]


def spectrum_axes(data: 'rec', ax: 'ax'):
    return [('spectrum on axes', spectrum.analyze_spectrum(data, ax=ax), spectrum.analyze_spectrum(data, create_plot=False))]


def spectrum_virtuoso(data: 'rec', fs: 'pos'):
    return [('alternative style', spectrum.analyze_spectrum_virtuoso(data, fs=fs), spectrum.analyze_spectrum_virtuoso(data, fs=fs, create_plot=False))]


def spectrum_polar(data: 'rec', fs: 'pos', r: 'pos'):
    return [('polar spectrum', spectrum.analyze_spectrum_polar(data, fs=fs, fixed_radial_range=r), spectrum.analyze_spectrum_polar(data, fs=fs, create_plot=False))]


def spectrum_verbose(data: 'rec', fs: 'pos', v: 'pint'):
    return [('printed spectrum', spectrum.compute_spectrum(data, fs=fs, verbose=1), spectrum.compute_spectrum(data, fs=fs))]


def osr_sweep(data: 'rec', h: 'pint'):
    return [('oversampling sweep', spectrum.sweep_performance_vs_osr(data, osr=[1, 2, 4], harmonic=h, create_plot=True), spectrum.sweep_performance_vs_osr(data, osr=[1, 2, 4], harmonic=h, create_plot=False)),
            ('oversampling sweep, linear axis', spectrum.sweep_performance_vs_osr(data, osr=[1, 2, 4], logscale=False), spectrum.sweep_performance_vs_osr(data, osr=[1, 2, 4], create_plot=False))]


def osr_performance(data: 'rec'):
    return [('oversampling performance', oversampling.perfosr(data, osr=[1, 2, 4], disp=True), oversampling.perfosr(data, osr=[1, 2, 4], disp=False))]


def fit(data: 'rec'):
    return [('printed fit', fundamentals.fit_sine_4param(data, verbose=2), fundamentals.fit_sine_4param(data))]


def decompositions(data: 'rec', h: 'pint', n: 'pos'):
    return [('decomposition over time', aout.analyze_decomposition_time(data, harmonic=h, n_cycles=n), aout.analyze_decomposition_time(data, harmonic=h, create_plot=False)),
            ('polar decomposition', aout.analyze_decomposition_polar(data, harmonic=h), aout.analyze_decomposition_polar(data, harmonic=h, create_plot=False))]


def errors(data: 'rec', f: 'pos', fs: 'pos'):
    return [('error density', aout.analyze_error_pdf(data, frequency=f), aout.analyze_error_pdf(data, frequency=f, create_plot=False)),
            ('error spectrum', aout.analyze_error_spectrum(data, fs=fs, frequency=f), aout.analyze_error_spectrum(data, fs=fs, frequency=f, create_plot=False)),
            ('error autocorrelation', aout.analyze_error_autocorr(data, frequency=f), aout.analyze_error_autocorr(data, frequency=f, create_plot=False)),
            ('error envelope', aout.analyze_error_envelope_spectrum(data, fs=fs, frequency=f), aout.analyze_error_envelope_spectrum(data, fs=fs, frequency=f, create_plot=False))]


def errors_binned(data: 'rec', b: 'len'):
    return [('error by phase', aout.analyze_error_by_phase(data, n_bins=b), aout.analyze_error_by_phase(data, n_bins=b, create_plot=False)),
            ('error by value', aout.analyze_error_by_value(data, n_bins=b), aout.analyze_error_by_value(data, n_bins=b, create_plot=False))]


def planes(data: 'rec', fs: 'pos'):
    return [('phase plane', aout.analyze_phase_plane(data, fs=fs), aout.analyze_phase_plane(data, fs=fs, create_plot=False)),
            ('phase plane at a fixed lag', aout.analyze_phase_plane(data, lag=3), aout.analyze_phase_plane(data, lag=3, create_plot=False)),
            ('error phase plane', aout.analyze_error_phase_plane(data, fs=fs), aout.analyze_error_phase_plane(data, fs=fs, create_plot=False))]


def linearity(codes: 'codes', bits: 'pint'):
    return [('INL from a sine', aout.analyze_inl_from_sine(codes, num_bits=bits), aout.analyze_inl_from_sine(codes, num_bits=bits, create_plot=False)),
            ('INL from a ramp', aout.analyze_inl_from_ramp(codes, num_bits=bits), aout.analyze_inl_from_ramp(codes, num_bits=bits, create_plot=False))]


def digital(bits: 'bits', w: 'gain'):
    return [('bit activity', dout.analyze_bit_activity(bits), dout.analyze_bit_activity(bits, create_plot=False)),
            ('overflow', dout.analyze_overflow(bits, w), dout.analyze_overflow(bits, w, create_plot=False)),
            ('weight ratio', dout.analyze_weight_radix(w), dout.analyze_weight_radix(w, create_plot=False))]


def residuals(s: 'rec', bits: 'bits', w: 'gain'):
    return [('residuals', dout.plot_residual_scatter(s, bits, weights=w, pairs=[(0, 1), (1, 2)]), dout.plot_residual_scatter(s, bits, weights=w, pairs=[(0, 1), (1, 2)], create_plot=False))]


def bit_sweep(bits: 'bits', f: 'pos'):
    return [('resolution sweep', dout.analyze_enob_sweep(bits, freq=f), dout.analyze_enob_sweep(bits, freq=f, create_plot=False)),
            ('printed resolution sweep', dout.analyze_enob_sweep(bits, freq=f, create_plot=False, verbose=True), dout.analyze_enob_sweep(bits, freq=f, create_plot=False))]


def calibration_print(bits: 'bits', f: 'pos'):
    return [('printed calibration', calibration.calibrate_weight_sine(bits, freq=f, verbose=2), calibration.calibrate_weight_sine(bits, freq=f))]


def shaping(num: 'gain', den: 'gain', lo: 'pos', hi: 'pos'):
    return [('noise suppression', oversampling.ntf_analyzer((num, den), lo, hi, is_plot=1), oversampling.ntf_analyzer((num, den), lo, hi))]
