"""Generator, model and interleaving formulas; neutral settings change nothing.  Parsed and analysed, never executed."""
import numpy as np
from scipy import signal as scipy_signal
from adctoolbox.siggen.nonidealities import ADC_Signal_Generator
from adctoolbox.models.sar import sar_apply_mismatch, sar_apply_cap_mismatch, sar_convert, sar_reconstruct, sar_ideal_weights
from adctoolbox.timeinterleave.deinterleave import deinterleave, interleave
from adctoolbox.timeinterleave.calibrate_foreground import calibrate_foreground
from adctoolbox.timeinterleave.fractional_delay import fractional_delay_fft, fractional_delay_farrow
from adctoolbox.oversampling.ifilter import ifilter
from adctoolbox.oversampling.ntf_analyzer import ntf_analyzer
from adctoolbox.oversampling.ntfperf import ntfperf
from adctoolbox.spectrum.extract_freq_components import extract_freq_components
from adctoolbox.fundamentals.convert_cap_to_weight import convert_cap_to_weight


def _gen(n, fs, fin, a, dc):
    return ADC_Signal_Generator(n, fs, fin, a, dc)


def clean(n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num'):
    g = _gen(n, fs, fin, a, dc)
    c = g.get_clean_signal()
    return [('clean sine', c, dc + a * np.sin(2 * np.pi * fin * np.arange(n) / fs)),
            ('no thermal noise', g.apply_thermal_noise(noise_rms=0), c), ('no jitter', g.apply_jitter(jitter_rms=0), c),
            ('no nonlinearity', g.apply_static_nonlinearity(), c), ('no harmonic distortion', g.apply_static_nonlinearity_hd(), c),
            ('no amplitude noise', g.apply_am_noise(strength=0), c), ('no amplitude modulation', g.apply_am_tone(am_tone_depth=0), c),
            ('no glitches', g.apply_glitch(glitch_amplitude=0), c), ('no reference droop', g.apply_reference_error(droop_strength=0), c),
            ('no drift', g.apply_drift(drift_scale=0), c)]


def neutral(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num'):
    g = _gen(n, fs, fin, a, dc)
    return [('no thermal noise added', g.apply_thermal_noise(x, noise_rms=0), x), ('no nonlinearity added', g.apply_static_nonlinearity(x), x),
            ('no harmonic distortion added', g.apply_static_nonlinearity_hd(x), x),
            ('no amplitude noise added', g.apply_am_noise(x, strength=0), x), ('no amplitude modulation added', g.apply_am_tone(x, am_tone_depth=0), x),
            ('no glitches added', g.apply_glitch(x, glitch_amplitude=0), x), ('no reference droop added', g.apply_reference_error(x, droop_strength=0), x),
            ('no drift added', g.apply_drift(x, drift_scale=0), x)]


def default_input(n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', s: 'pos', b: 'pint', lo: 'num', hi: 'num', k2: 'num', k3: 'num'):
    g = _gen(n, fs, fin, a, dc)
    c = g.get_clean_signal()
    return [('quantization of the clean sine', g.apply_quantization_noise(n_bits=b, quant_range=(lo, hi)), g.apply_quantization_noise(c, n_bits=b, quant_range=(lo, hi))),
            ('nonlinearity of the clean sine', g.apply_static_nonlinearity(k2=k2, k3=k3), g.apply_static_nonlinearity(c, k2=k2, k3=k3)),
            ('memory effect of the clean sine', g.apply_memory_effect(memory_strength=s), g.apply_memory_effect(c, memory_strength=s)),
            ('gain error of the clean sine', g.apply_ra_gain_error(relative_gain=s), g.apply_ra_gain_error(c, relative_gain=s)),
            ('reference error of the clean sine', g.apply_reference_error(settling_tau=s), g.apply_reference_error(c, settling_tau=s)),
            ('modulation of the clean sine', g.apply_am_tone(am_tone_freq=s), g.apply_am_tone(c, am_tone_freq=s)),
            ('clipping of the clean sine', g.apply_clipping(percentile_clip=s), g.apply_clipping(c, percentile_clip=s)),
            ('incomplete sampling of the clean sine', g.apply_incomplete_sampling(tau_nom=s), g.apply_incomplete_sampling(c, tau_nom=s)),
            ('noise shaping of the clean sine', g.apply_noise_shaping(n_bits=b), g.apply_noise_shaping(c, n_bits=b))]


def nonlinearity(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', k2: 'num', k3: 'num', k4: 'num', k5: 'num'):
    g = _gen(n, fs, fin, a, dc)
    d = x - dc
    return [('polynomial nonlinearity', g.apply_static_nonlinearity(x, k2=k2, k3=k3, k4=k4, k5=k5), dc + d + k2 * d ** 2 + k3 * d ** 3 + k4 * d ** 4 + k5 * d ** 5),
            ('second order only', g.apply_static_nonlinearity(x, k2=k2), x + k2 * d ** 2), ('third order only', g.apply_static_nonlinearity(x, k3=k3), x + k3 * d ** 3),
            ('fourth order only', g.apply_static_nonlinearity(x, k4=k4), x + k4 * d ** 4), ('fifth order only', g.apply_static_nonlinearity(x, k5=k5), x + k5 * d ** 5)]


def harmonic_levels(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', h: 'num'):
    g = _gen(n, fs, fin, a, dc)
    d, r = x - dc, 10 ** (h / 20)
    return [('second harmonic level', g.apply_static_nonlinearity_hd(x, hd2_dB=h), x + 2 * r / a * d ** 2),
            ('third harmonic level', g.apply_static_nonlinearity_hd(x, hd3_dB=h), x + 4 * r / a ** 2 * d ** 3),
            ('fourth harmonic level', g.apply_static_nonlinearity_hd(x, hd4_dB=h), x + 8 * r / a ** 3 * d ** 4),
            ('fifth harmonic level', g.apply_static_nonlinearity_hd(x, hd5_dB=h), x + 16 * r / a ** 4 * d ** 5)]


def quantizer(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', lo: 'num', hi: 'num', b: 'pint'):
    g = _gen(n, fs, fin, a, dc)
    q = g.apply_quantization_noise(x, n_bits=b, quant_range=(lo, hi))
    step = (hi - lo) / 2 ** b
    return [('quantizer formula', q, lo + step * np.clip(np.floor((x - lo) / step), 0, 2 ** b - 1)),
            ('quantizer of its own output', g.apply_quantization_noise(q, n_bits=b, quant_range=(lo, hi)), q)]


def shaping(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', lo: 'num', hi: 'num', b: 'pint'):
    g = _gen(n, fs, fin, a, dc)
    e = g.apply_quantization_noise(x, n_bits=b, quant_range=(lo, hi)) - x
    r = (lo, hi)
    return [('first order shaping', g.apply_noise_shaping(x, n_bits=b, quant_range=r, order=1), x + scipy_signal.lfilter([1, -1], [1], e)),
            ('second order shaping', g.apply_noise_shaping(x, n_bits=b, quant_range=r, order=2), x + scipy_signal.lfilter([1, -2, 1], [1], e)),
            ('third order shaping', g.apply_noise_shaping(x, n_bits=b, quant_range=r, order=3), x + scipy_signal.lfilter([1, -3, 3, -1], [1], e)),
            ('fourth order shaping', g.apply_noise_shaping(x, n_bits=b, quant_range=r, order=4), x + scipy_signal.lfilter([1, -4, 6, -4, 1], [1], e)),
            ('fifth order shaping', g.apply_noise_shaping(x, n_bits=b, quant_range=r, order=5), x + scipy_signal.lfilter([1, -5, 10, -10, 5, -1], [1], e)),
            ('given shaping', g.apply_noise_shaping(x, n_bits=b, quant_range=r, ntf=([1, -1.5, 0.5], [1, 0.25])), x + scipy_signal.lfilter([1, -1.5, 0.5], [1, 0.25], e)),
            ('given finite shaping', g.apply_noise_shaping(x, n_bits=b, quant_range=r, ntf=[1, -1.5, 0.5]), x + scipy_signal.lfilter([1, -1.5, 0.5], [1], e))]


def two_stage(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', k: 'num', m: 'pint', l: 'pint'):
    g = _gen(n, fs, fin, a, dc)
    d = x - dc
    hi = np.floor(d * 2 ** m) / 2 ** m
    lo = np.floor((d - hi) * 2 ** l) / 2 ** l
    return [('coarse gain error', g.apply_ra_gain_error(x, relative_gain=k, msb_bits=m, lsb_bits=l, mode='coarse_path'), dc + k * hi + lo),
            ('residue gain error', g.apply_ra_gain_error(x, relative_gain=k, msb_bits=m, lsb_bits=l, mode='residue_path'), dc + hi + k * lo)]


def modulation(x: 'rec', n: 'len', fs: 'pos', fin: 'pos', a: 'pos', dc: 'num', f: 'pos', k: 'num', t: 'pos'):
    g = _gen(n, fs, fin, a, dc)
    d = x - dc
    return [('amplitude tone', g.apply_am_tone(x, am_tone_freq=f, am_tone_depth=k), dc + d * (1 + k * np.sin(2 * np.pi * f * np.arange(n) / fs))),
            ('reference droop', g.apply_reference_error(x, settling_tau=t, droop_strength=k), dc + d * (1 - scipy_signal.lfilter([1], [1, -np.exp(-1 / t)], k * np.abs(d)))),
            ('clipping', g.apply_clipping(x, percentile_clip=t), np.clip(x, np.percentile(x, t), np.percentile(x, 100 - t)))]


def channels(x: 'rec', m: 'pint'):
    return [('split and merge', interleave(deinterleave(x, m)), x)]


def identity_calibration(x: 'rec', fs: 'pos'):
    p = {'offset': np.zeros(4), 'gain': np.ones(4), 'skew': np.zeros(4)}
    return [('neutral calibration', calibrate_foreground(x, 4, p, fs), x), ('neutral calibration, time domain', calibrate_foreground(x, 4, p, fs, skew_method='farrow'), x)]


def correction(x: 'rec', o: 'gain', g: 'gain', fs: 'pos'):
    p = {'offset': o, 'gain': g, 'skew': np.zeros(2)}
    c = deinterleave(x, 2)
    return [('offset and gain correction', calibrate_foreground(x, 2, p, fs), interleave((c - o[:, None]) / g[:, None]))]


def models(w: 'gain', s: 'pos', v: 'rec'):
    return [('no mismatch', sar_apply_mismatch(w, 0.0), w), ('no capacitor mismatch', sar_apply_cap_mismatch(w, 0.0), w),
            ('noiseless conversion', sar_convert(v, w, sampling_noise_rms=0, comparator_noise_rms=0), sar_convert(v, w))]


def reconstruction(codes: 'bits', w: 'gain', lo: 'num', hi: 'num'):
    return [('weighted sum of bits', sar_reconstruct(codes, w, quant_range=(lo, hi)), lo + (hi - lo) * (codes.astype(float) @ w)),
            ('unit range', sar_reconstruct(codes, w), codes.astype(float) @ w)]


def aliases(x: 'rec', band: 'rec2', num: 'gain', den: 'gain', f: 'pos', h: 'pos'):
    return [('band extraction', ifilter(x, band), extract_freq_components(x, band)), ('noise suppression', ntfperf((num, den), f, h), ntf_analyzer((num, den), f, h))]
