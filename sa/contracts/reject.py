"""Calls with an invalid setting: none of them may return.  The default is the invalid setting, the annotation lists valid
settings of the same call (separated by ;), which must not be refused.  'kind!' marks a record whose number of dimensions is
invalid, followed by a valid kind.  Parsed and analysed, never executed."""
import numpy as np
from adctoolbox.spectrum.compute_spectrum import compute_spectrum
from adctoolbox.spectrum.analyze_spectrum import analyze_spectrum
from adctoolbox.spectrum.extract_freq_components import extract_freq_components
from adctoolbox.siggen.nonidealities import ADC_Signal_Generator
from adctoolbox.models.sar import sar_apply_mismatch, sar_apply_cap_mismatch, sar_convert, sar_reconstruct, sar_ideal_weights
from adctoolbox.timeinterleave.deinterleave import deinterleave, interleave
from adctoolbox.timeinterleave.calibrate_foreground import calibrate_foreground
from adctoolbox.timeinterleave.extract_mismatch_sine import extract_mismatch_sine
from adctoolbox.timeinterleave.fractional_delay import fractional_delay_fft, fractional_delay_farrow
from adctoolbox.timeinterleave.predict_spurs import predict_spurs
from adctoolbox.oversampling.perfosr import perfosr
from adctoolbox.calibration.calibrate_weight_sine import calibrate_weight_sine
from adctoolbox.calibration.calibrate_weight_sine_lite import calibrate_weight_sine_lite
from adctoolbox.fundamentals.fit_sine_4param import fit_sine_4param
from adctoolbox.fundamentals.validate import validate_aout_data, validate_dout_data
from adctoolbox.fundamentals.convert_cap_to_weight import convert_cap_to_weight
from adctoolbox.dout.analyze_overflow import analyze_overflow
from adctoolbox.aout.fit_static_nonlin import fit_static_nonlin
from adctoolbox.aout.compute_inl_from_ramp import compute_inl_from_ramp
from adctoolbox.aout.analyze_inl_from_ramp import analyze_inl_from_ramp
from adctoolbox.aout.rearrange_error_by_value import rearrange_error_by_value
from adctoolbox.aout.analyze_error_phase_plane import analyze_error_phase_plane
from adctoolbox.aout.analyze_phase_plane import analyze_phase_plane


# --- spectrum
def noise_method_high(x: 'rec', nf_method: '0;1;2;3;4' = 5): return compute_spectrum(x, nf_method=nf_method)
def noise_method_negative(x: 'rec', nf_method: '0' = -1): return compute_spectrum(x, nf_method=nf_method)
def osr_zero(x: 'rec', osr: '1;2;64' = 0): return compute_spectrum(x, osr=osr)
def osr_negative(x: 'rec', osr: '1.5' = -2): return compute_spectrum(x, osr=osr)
def limits_three(x: 'rec', max_scale_range: '(0.0, 1.0);2.0;None' = (0.0, 1.0, 2.0)): return compute_spectrum(x, max_scale_range=max_scale_range)
def limits_one(x: 'rec', max_scale_range: '(-1.0, 1.0)' = (1.0,)): return compute_spectrum(x, max_scale_range=max_scale_range)
def analysis_noise_method(x: 'rec', nf_method: '0;4' = 5): return analyze_spectrum(x, nf_method=nf_method, create_plot=False)
def analysis_osr(x: 'rec', osr: '1;8' = 0): return analyze_spectrum(x, osr=osr, create_plot=False)
def record_3d(x: 'rec3!rec;rec2'): return compute_spectrum(x)
def band_above(x: 'rec', bands: '((0.1, 0.5),)' = ((0.1, 0.6),)): return extract_freq_components(x, np.array(bands))
def band_below(x: 'rec', bands: '((0.0, 0.2),)' = ((-0.1, 0.2),)): return extract_freq_components(x, np.array(bands))
def band_columns(x: 'rec', bands: '((0.1, 0.2), (0.3, 0.4))' = ((0.1, 0.2, 0.3),)): return extract_freq_components(x, np.array(bands))
def osr_harmonic_zero(x: 'rec', harmonic: '1;5' = 0): return perfosr(x, harmonic=harmonic)
def osr_harmonic_fraction(x: 'rec', harmonic: '2' = 2.5): return perfosr(x, harmonic=harmonic)
def osr_smooth_zero(x: 'rec', smooth: '1;None' = 0): return perfosr(x, smooth=smooth)
def osr_list_zero(x: 'rec', osr: '(1,);(1, 2, 4)' = (0,)): return perfosr(x, osr=osr)


# --- generator
def _gen(n, fs, fin, a, dc):
    return ADC_Signal_Generator(n, fs, fin, a, dc)


def gain_mode(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', mode: "'coarse_path';'residue_path'" = 'other_path'): return _gen(n, fs, fin, a, dc).apply_ra_gain_error(x, mode=mode)
def dynamic_gain_mode(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', mode: "'coarse_path';'residue_path'" = 'other_path'): return _gen(n, fs, fin, a, dc).apply_ra_gain_error_dynamic(x, mode=mode)
def shaping_order_zero(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', order: '1;2' = 0): return _gen(n, fs, fin, a, dc).apply_noise_shaping(x, order=order)
def shaping_order_six(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', order: '3;4;5' = 6): return _gen(n, fs, fin, a, dc).apply_noise_shaping(x, order=order)


# --- converter models
def range_reversed(v: 'rec', w: 'gain', quant_range: '(0.0, 1.0);(-1.0, 1.0)' = (1.0, 0.0)): return sar_convert(v, w, quant_range=quant_range)
def range_empty(v: 'rec', w: 'gain', quant_range: '(1.0, 1.5)' = (1.0, 1.0)): return sar_convert(v, w, quant_range=quant_range)
def range_infinite(v: 'rec', w: 'gain', quant_range: '(-5.0, 0.0)' = (0.0, float('inf'))): return sar_convert(v, w, quant_range=quant_range)
def range_three(v: 'rec', w: 'gain', quant_range: '[0.0, 1.0]' = (0.0, 0.5, 1.0)): return sar_convert(v, w, quant_range=quant_range)
def back_range_reversed(b: 'bits', w: 'gain', quant_range: '(0.0, 1.0)' = (1.0, 0.0)): return sar_reconstruct(b, w, quant_range=quant_range)
def cap_mismatch_negative(w: 'gain', sigma: '0.0;0.01' = -0.01): return sar_apply_cap_mismatch(w, sigma)
def cap_mismatch_infinite(w: 'gain', sigma: '0.5' = float('inf')): return sar_apply_cap_mismatch(w, sigma)
def cap_weights_2d(w: 'rec2!gain'): return sar_apply_cap_mismatch(w, 0.01)
def cap_arrays_differ(a=(1.0, 2.0), b: '(1.0, 1.0)' = (1.0,), c=(0.0, 0.0)): return convert_cap_to_weight(np.array(a), np.array(b), np.array(c))


# --- interleaving
def channels_zero(x: 'rec', m: '1;2' = 0): return deinterleave(x, m)
def channels_negative(x: 'rec', m: '4' = -4): return deinterleave(x, m)
def channels_uneven(m: '1;4;16' = 3): return deinterleave(np.arange(16.0), m)
def split_2d(x: 'rec2!rec', m: 'pint'): return deinterleave(x, m)
def merge_1d(x: 'rec!rec2'): return interleave(x)
def merge_3d(x: 'rec3!rec2'): return interleave(x)
def mismatch_channels_zero(x: 'rec', fs: 'pos', m: '2;4' = 0): return extract_mismatch_sine(x, m, fs)
def mismatch_2d(x: 'rec2!rec', fs: 'pos', m=4): return extract_mismatch_sine(x, m, fs)
def calibration_short(x: 'rec', fs: 'pos', k: '4' = 3): return calibrate_foreground(x, 4, {'offset': np.zeros(k), 'gain': np.ones(4), 'skew': np.zeros(4)}, fs)
def calibration_short_gain(x: 'rec', fs: 'pos', k: '4' = 3): return calibrate_foreground(x, 4, {'offset': np.zeros(4), 'gain': np.ones(k), 'skew': np.zeros(4)}, fs)
def calibration_short_skew(x: 'rec', fs: 'pos', k: '4' = 5): return calibrate_foreground(x, 4, {'offset': np.zeros(4), 'gain': np.ones(4), 'skew': np.zeros(k)}, fs)
def calibration_method_unused(x: 'rec', fs: 'pos', skew_method: "'fft';'farrow'" = 'no such method'): return calibrate_foreground(x, 4, {'offset': np.zeros(4), 'gain': np.ones(4), 'skew': np.zeros(4)}, fs, skew_method=skew_method)
def calibration_method(x: 'rec', fs: 'pos', skew_method: "'fft';'farrow'" = 'no such method'): return calibrate_foreground(x, 4, {'offset': np.zeros(4), 'gain': np.ones(4), 'skew': 1e-12 * np.ones(4)}, fs, skew_method=skew_method)
def taps_even(x: 'rec', d: 'num', fs: 'pos', n_taps: '1;7' = 8): return fractional_delay_farrow(x, d, fs, n_taps=n_taps)
def taps_negative(x: 'rec', d: 'num', fs: 'pos', n_taps: '5' = -3): return fractional_delay_farrow(x, d, fs, n_taps=n_taps)
def delay_2d(x: 'rec2!rec', d: 'num', fs: 'pos'): return fractional_delay_fft(x, d, fs)
def delay_farrow_2d(x: 'rec2!rec', d: 'num', fs: 'pos'): return fractional_delay_farrow(x, d, fs)
def spurs_no_frequency(fs: 'pos', fin: '0.1;1e6' = None): return predict_spurs({'offset': np.zeros(4), 'gain': np.ones(4), 'skew': np.zeros(4)}, fs, fin=fin)
def spurs_lengths(fs: 'pos', fin: 'pos', k: '4' = 3): return predict_spurs({'offset': np.zeros(k), 'gain': np.ones(4), 'skew': np.zeros(4)}, fs, fin=fin)


# --- calibration and digital
def weight_frequency_high(b: 'bits', freq: '0.1;0.5' = 0.6): return calibrate_weight_sine(b, freq=freq)
def lite_frequency_high(b: 'bits', freq: '0.1;0.5' = 0.6): return calibrate_weight_sine_lite(b, freq=freq)
def fit_3d(x: 'rec3!rec;rec2'): return fit_sine_4param(x)
def analog_3d(x: 'rec3!rec'): return validate_aout_data(x)
def digital_1d(x: 'rec!bits'): return validate_dout_data(x)
def digital_3d(x: 'rec3!bits'): return validate_dout_data(x)


# --- linearity
def poly_order_one(x: 'rec', order: '2;3' = 1): return fit_static_nonlin(x, order)
def poly_order_fraction(x: 'rec', order: '5' = 2.5): return fit_static_nonlin(x, order)
def ramp_bits_zero(c: 'codes', num_bits: '1;4;None' = 0): return compute_inl_from_ramp(c, num_bits=num_bits)
def ramp_bits_fraction(c: 'codes', num_bits: '3' = 3.5): return compute_inl_from_ramp(c, num_bits=num_bits)
def ramp_code_min(c: 'codes', code_min: '0;-4' = 0.5): return compute_inl_from_ramp(c, code_min=code_min)
def ramp_code_max(c: 'codes', code_max: '7;None' = 7.5): return compute_inl_from_ramp(c, code_max=code_max)
def ramp_codes_reversed(c: 'codes', code_min=5, code_max: '5;7' = 3): return compute_inl_from_ramp(c, code_min=code_min, code_max=code_max)
def ramp_endpoint(c: 'codes', endpoint: "'fit';'endpoints';'none';'FIT'" = 'no such correction'): return compute_inl_from_ramp(c, num_bits=4, endpoint=endpoint)
def ramp_endpoint_number(c: 'codes', endpoint: "'endpoint'" = 3): return compute_inl_from_ramp(c, num_bits=4, endpoint=endpoint)
def ramp_input_type(c: 'codes', input_type: "'codes'" = 'voltages'): return analyze_inl_from_ramp(c, input_type=input_type, create_plot=False)
def ramp_input_voltage(c: 'codes', input_type: "'codes'" = 'voltage'): return analyze_inl_from_ramp(c, input_type=input_type, create_plot=False)
def ramp_input_transitions(c: 'codes', input_type: "'codes'" = 'transitions'): return analyze_inl_from_ramp(c, input_type=input_type, create_plot=False)
def ramp_no_codes(codes: '(0, 1, 2, 3)' = ()): return compute_inl_from_ramp(np.array(codes))


# --- error analyses
def bins_zero(x: 'rec', n_bins: '1;100' = 0): return rearrange_error_by_value(x, n_bins=n_bins)
def bins_negative(x: 'rec', n_bins: '8' = -8): return rearrange_error_by_value(x, n_bins=n_bins)
def bins_fraction(x: 'rec', n_bins: '9' = 8.5): return rearrange_error_by_value(x, n_bins=n_bins)
def clip_negative(x: 'rec', clip_percent: '0.0;0.01' = -0.1): return rearrange_error_by_value(x, clip_percent=clip_percent)
def clip_nan(x: 'rec', clip_percent: '0.1' = float('nan')): return rearrange_error_by_value(x, clip_percent=clip_percent)
def clip_everything(x: 'rec', clip_percent: '0.4' = 0.5, n_bins=10): return rearrange_error_by_value(x, clip_percent=clip_percent, n_bins=n_bins)
def value_range_reversed(x: 'rec', value_range: '(0.0, 1.0);None' = (1.0, 0.0)): return rearrange_error_by_value(x, value_range=value_range)
def value_range_empty(x: 'rec', value_range: '(1.0, 1.1)' = (1.0, 1.0)): return rearrange_error_by_value(x, value_range=value_range)
def value_range_three(x: 'rec', value_range: '[0.0, 1.0]' = (0.0, 1.0, 2.0)): return rearrange_error_by_value(x, value_range=value_range)
def value_range_infinite(x: 'rec', value_range: '(-1.0, 0.0)' = (0.0, float('inf'))): return rearrange_error_by_value(x, value_range=value_range)
def unit_mode(x: 'rec', unit_mode: "'auto';'normalized_fs';'voltage';'code'" = 'no such unit'): return analyze_error_phase_plane(x, unit_mode=unit_mode, create_plot=False)
