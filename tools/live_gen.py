"""Development aid: writes sa/contracts/live.json, the table of options and the results they act on.

Runs the functions of the package on sample records, varies one argument at a time (in the context of every other
option) and notes which results change.  Only the table is used by check P21, which decides from the source.

usage: MPLBACKEND=Agg /opt/venv/bin/python tools/live_gen.py [REPO]
"""
import importlib
import io
import contextlib
import json
import os
import sys
import warnings

REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
sys.path.insert(0, os.path.join(REPO, 'python', 'src'))
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402

warnings.simplefilter('ignore')
np.seterr(all='ignore')
N = 1024
rng = np.random.default_rng(5)
n = np.arange(N)


def tone(k, a=0.45, dc=0.5, h2=3e-3, h3=2e-3, noise=2e-3, ph=0.3, seed=1):
    r = np.random.default_rng(seed)
    w = 2 * np.pi * k / N * n + ph
    return dc + a * np.cos(w) + h2 * np.cos(2 * w) + h3 * np.cos(3 * w + 1) + 1e-3 * np.cos(4 * w) + 1e-3 * np.cos(7 * w) + noise * r.standard_normal(N)


X = tone(37)
X2 = tone(41.3, a=0.4, dc=0.45, seed=2)
XM = np.stack([tone(37, seed=s, ph=0.1 * s) for s in range(3)])
XM2 = np.stack([tone(37, seed=s, ph=0.2 * s, noise=5e-3) for s in range(3)])
LOW = tone(5.3, noise=1e-3)
CODES = np.round(np.clip(X, 0, 1) * 255).astype(int)
CODES2 = np.round(np.clip(X2, 0, 1) * 255).astype(int)
RAMP = np.repeat(np.arange(64), 1 + (np.arange(64) * 7) % 5)
RAMP2 = np.repeat(np.arange(64), 1 + (np.arange(64) * 5) % 7)
W8 = 2.0 ** np.arange(7, -1, -1)


def tobits(x, w=8):
    c = np.round(np.clip(x, 0, 1) * (2 ** w - 1)).astype(int)
    return ((c[:, None] >> np.arange(w - 1, -1, -1)) & 1).astype(float)


B = tobits(X)
B2 = tobits(X2)
BD = np.column_stack([B, B[:, 3]])
W9 = np.append(W8, 16.0)
PAR = dict(M=4, offset=np.array([0, .1, .2, .3]), gain=np.array([1, 1.1, 1.2, .9]), skew=np.array([0, 1e-7, 2e-7, -1e-7]))
PAR2 = dict(PAR, offset=np.array([0, .1, .2, .4]), gain=np.array([1, 1.2, 1.2, .9]), skew=np.array([0, 2e-7, 2e-7, -1e-7]))
G = 'given'      # context value that is not a literal


class V:
    """a value written as text in the table"""

    def __init__(self, value):
        self.value = value


def val(x):
    return x.value if isinstance(x, V) else x


FIT = dict(max_iterations=[1, 5], tolerance=[1e-9, 0.3])
NF = dict(norm_freq=[None, 37 / N, 37.2 / N])
FQ = dict(frequency=[None, 37 / N, 37.2 / N])
SPEC = dict(fs=[1.0, 2e6], osr=[1, 4], max_scale_range=[None, 2.0], win_type=['hann', 'blackman', 'boxcar'], side_bin=[None, 3, 6],
            max_harmonic=[5, 3], nf_method=[0, 1, 2, 3, 4], assumed_sig_pwr_dbfs=[None, -3.0], coherent_averaging=[False, True])
D1 = dict(data=[V(X), V(X2)])
DM = dict(data=[V(XM), V(XM2)])
# function -> list of {argument: [base value, other values]}
T = {
    'spectrum.compute_spectrum.compute_spectrum': [dict(D1, cutoff_freq=[0, 0.01], **SPEC), dict(DM, **SPEC)],
    'spectrum.analyze_spectrum.analyze_spectrum': [dict(D1, create_plot=[False], **dict(SPEC, assumed_sig_pwr_dbfs=[np.nan, -3.0]))],
    'spectrum.analyze_spectrum.analyze_spectrum_virtuoso': [dict(D1, create_plot=[False], **dict(SPEC, win_type=['rectangular', 'hann'], assumed_sig_pwr_dbfs=[np.nan, -3.0]))],
    'spectrum.analyze_spectrum_polar.analyze_spectrum_polar': [dict(data=[V(X), V(X2)], max_code=[None, 2.0], osr=[1, 4], cutoff_freq=[0, 0.01], fs=[1.0, 2e6], win_type=['boxcar', 'hann'], create_plot=[False])],
    'spectrum.quick_sndr.quick_sndr': [dict(data=[V(X), V(X2)], fs=[1.0], win_type=['hann', 'blackman'], side_bin=[None, 3], max_scale_range=[None])],
    'spectrum.extract_freq_components.extract_freq_components': [dict(din=[V(X), V(X2)], bands=[V([(0.01, 0.1)]), V([(0.1, 0.2)])])],
    'spectrum.sweep_performance_vs_osr.sweep_performance_vs_osr': [dict(data=[V(X), V(X2)], osr=[V(np.array([1, 2, 4])), V(np.array([1, 3, 5]))], harmonic=[5, 2], create_plot=[False])],
    'oversampling.perfosr.perfosr': [dict(sig=[V(X), V(X2)], disp=[False], osr=[V(np.array([1, 2, 4])), V(np.array([1, 3, 5]))], harmonic=[5, 2])],
    'oversampling.ifilter.ifilter': [dict(sigin=[V(X), V(X2)], passband=[V(np.array([[0.01, 0.1]])), V(np.array([[0.1, 0.2]]))])],
    'dout.analyze_bit_activity.analyze_bit_activity': [dict(bits=[V(B), V(B2)], create_plot=[False])],
    'dout.analyze_enob_sweep.analyze_enob_sweep': [dict(bits=[V(B), V(B2)], freq=[None, 37 / N], harmonic_order=[1, 3], osr=[1, 4], win_type=['hamming', 'hann'], create_plot=[False])],
    'dout.analyze_overflow.analyze_overflow': [dict(raw_code=[V(B), V(B2)], weight=[V(W8), V(W8 * 1.1 ** np.arange(8))], ofb=[None, 3], create_plot=[False])],
    'dout.analyze_weight_radix.analyze_weight_radix': [dict(weights=[V(W8), V(W8 * 1.1 ** np.arange(8))], create_plot=[False])],
    'dout.plot_residual_scatter.plot_residual_scatter': [dict(signal=[V(X), V(X2)], bits=[V(B), V(B2)], weights=[None, V(W8 * 1.1)], pairs=[None, V([(0, 8)])], create_plot=[False])],
    'calibration.calibrate_weight_sine.calibrate_weight_sine': [dict(bits=[V(BD), V(B)], freq=[37 / N], nominal_weights=[None, V(W9), V(W9 * 1.3 ** np.arange(9))]), dict(bits=[V(B), V(B2)], freq=[None, 37 / N], force_search=[None, True], harmonic_order=[1, 3], max_iter=[100, 2], learning_rate=[0.5, 0.1], reltol=[1e-12, 1e-2])],
    'calibration.calibrate_weight_sine_lite.calibrate_weight_sine_lite': [dict(bits=[V(B), V(B2)], freq=[37 / N, 37.2 / N])],
    'aout.analyze_decomposition_polar.analyze_decomposition_polar': [dict(signal=[V(X), V(X2)], harmonic=[5, 3], create_plot=[False], **FQ, **FIT)],
    'aout.analyze_decomposition_time.analyze_decomposition_time': [dict(signal=[V(X), V(X2)], harmonic=[5, 3], create_plot=[False], **FQ, **FIT)],
    'aout.decompose_harmonic_error.decompose_harmonic_error': [dict(signal=[V(X), V(X2)], n_harmonics=[5, 3], **FQ, **FIT)],
    'aout.analyze_error_autocorr.analyze_error_autocorr': [dict(signal=[V(X), V(X2)], max_lag=[50, 20], normalize=[True, False], create_plot=[False], return_fit=[False, True], **FQ, **FIT)],
    'aout.analyze_error_by_phase.analyze_error_by_phase': [dict(signal=[V(X), V(X2)], n_bins=[100, 30], include_base_noise=[True, False], create_plot=[False], return_fit=[False, True], **NF, **FIT)],
    'aout.analyze_error_by_value.analyze_error_by_value': [dict(signal=[V(X), V(X2)], n_bins=[100, 30], clip_percent=[0.01, 0.1], value_range=[None, V((-0.2, 1.3))], create_plot=[False], return_fit=[False, True], **NF, **FIT)],
    'aout.rearrange_error_by_phase.rearrange_error_by_phase': [dict(signal=[V(X), V(X2)], n_bins=[100, 30], include_base_noise=[True, False], return_fit=[False, True], **NF, **FIT)],
    'aout.rearrange_error_by_value.rearrange_error_by_value': [dict(signal=[V(X), V(X2)], n_bins=[100, 30], clip_percent=[0.01, 0.1], value_range=[None, V((-0.2, 1.3))], return_fit=[False, True], **NF, **FIT)],
    'aout.analyze_error_envelope_spectrum.analyze_error_envelope_spectrum': [dict(signal=[V(X), V(X2)], fs=[1, 1e6], create_plot=[False], return_fit=[False, True], **FQ, **FIT)],
    'aout.analyze_error_spectrum.analyze_error_spectrum': [dict(signal=[V(X), V(X2)], fs=[1, 1e6], create_plot=[False], return_fit=[False, True], **FQ, **FIT)],
    'aout.analyze_error_pdf.analyze_error_pdf': [dict(signal=[V(X), V(X2)], resolution=[12, 8], full_scale=[None, 2.0], create_plot=[False], return_fit=[False, True], **FQ, **FIT)],
    'aout.analyze_inl_from_ramp.analyze_inl_from_ramp': [dict(codes=[V(RAMP), V(RAMP2)], num_bits=[None, 6], code_min=[0, -2], code_max=[None, 70], input_type=['codes'], endpoint=['endpoints', 'fit', 'none'], exclude_endpoints=[True, False], create_plot=[False])],
    'aout.compute_inl_from_ramp.compute_inl_from_ramp': [dict(codes=[V(RAMP), V(RAMP2)], num_bits=[None, 6], code_min=[0, -2], code_max=[None, 70], endpoint=['endpoints', 'fit', 'none'], exclude_endpoints=[True, False])],
    'aout.analyze_inl_from_sine.analyze_inl_from_sine': [dict(data=[V(CODES), V(CODES2)], num_bits=[None, 7], full_scale=[None], clip_percent=[0.01, 0.1], create_plot=[False]),
                                                        dict(data=[V(X), V(X2)], num_bits=[None, 7], full_scale=[None, 1.5], clip_percent=[0.01, 0.1], create_plot=[False])],
    'aout.compute_inl_from_sine.compute_inl_from_sine': [dict(data=[V(CODES), V(CODES2)], num_bits=[None, 7], full_scale=[None], clip_percent=[0.01, 0.1]),
                                                        dict(data=[V(X), V(X2)], num_bits=[None, 7], full_scale=[None, 1.5], clip_percent=[0.01, 0.1])],
    'aout.fit_static_nonlin.fit_static_nonlin': [dict(sig_distorted=[V(X), V(X2)], order=[3, 2])],
    'aout.analyze_error_phase_plane.analyze_error_phase_plane': [dict(data=[V(X), V(X2), V(CODES)], fs=[1.0, 1e6], create_plot=[False], fit_polynomial_order=[3, 1], detect_hysteresis=[True, False], unit_mode=['auto', 'code', 'voltage', 'normalized_fs'])],
    'aout.analyze_phase_plane.analyze_phase_plane': [dict(data=[V(X), V(X2)], lag=['auto', 3], detect_outliers=[True, False], threshold=[4.0, 1.0], create_plot=[False])],
    'fundamentals.fit_sine_4param.fit_sine_4param': [dict(data=[V(X), V(X2)], frequency_estimate=[None, 37.3 / N], max_iterations=[1, 5], tolerance=[1e-9, 0.3])],
    'fundamentals.frequency.estimate_frequency': [dict(data=[V(X), V(X2)], frequency_estimate=[None, 37.3 / N], fs=[1.0, 1e6])],
    'fundamentals.frequency.find_coherent_frequency': [dict(fs=[1e6, 2e6], fin_target=[1e5 + 200, 1.7e5], n_fft=[1024, 900], force_odd=[True, False], search_radius=[200, 1])],
    'fundamentals.frequency.fold_bin_to_nyquist': [dict(bin_idx=[700.0, 1300.0], n_fft=[1024, 1000])],
    'fundamentals.frequency.fold_frequency_to_nyquist': [dict(fin=[0.7e6, 1.3e6], fs=[1e6, 1.1e6])],
    'fundamentals.convert_cap_to_weight.convert_cap_to_weight': [dict(caps_bit=[V(np.array([1., 2, 4, 8])), V(np.array([1., 2.1, 4, 8]))], caps_bridge=[V(np.array([0., 0, 1.5, 0])), V(np.array([0., 0, 2.5, 0]))], caps_parasitic=[V(np.array([0., 0, .1, 0])), V(np.array([0., .3, .1, 0]))])],
    'fundamentals.metrics.calculate_jitter_limit': [dict(freq=[1e6, 2e6], jitter_rms_sec=[1e-12, 2e-12])],
    'fundamentals.metrics.calculate_schreier_fom': [dict(power=[1e-3, 2e-3], sndr_db=[70.0, 80.0], bw=[1e6, 2e6])],
    'fundamentals.metrics.calculate_walden_fom': [dict(power=[1e-3, 2e-3], fs=[1e6, 2e6], enob=[10.0, 11.0])],
    'fundamentals.metrics.calculate_thermal_noise_limit': [dict(cap_pf=[1.0, 2.0], v_fs=[1.0, 2.0])],
    'fundamentals.snr_nsd.amplitudes_to_snr': [dict(sig_amplitude=[1.0, 2.0], noise_amplitude=[.1, .2], osr=[1, 4], return_power=[False, True])],
    'fundamentals.snr_nsd.nsd_to_snr': [dict(nsd_dbfs_hz=[-140.0, -130.0], fs=[1e6, 2e6], osr=[1.0, 4.0], psignal_dbfs=[0.0, -3.0])],
    'fundamentals.snr_nsd.snr_to_nsd': [dict(snr_db=[60.0, 70.0], fs=[1e6, 2e6], osr=[1.0, 4.0], psignal_dbfs=[0.0, -3.0])],
    'fundamentals.units.nsd_to_snr': [dict(nsd_dbfs_hz=[-140.0, -130.0], fs=[1e6, 2e6], osr=[1, 4], signal_pwr_dbfs=[0, -3])],
    'fundamentals.units.snr_to_nsd': [dict(snr_db=[60.0, 70.0], fs=[1e6, 2e6], osr=[1, 4], signal_pwr_dbfs=[0, -3])],
    'fundamentals.units.dbm_to_vrms': [dict(dbm=[0.0, 3.0], z_load=[50, 75])],
    'fundamentals.units.vrms_to_dbm': [dict(vrms=[0.1, 0.3], z_load=[50, 75])],
    'fundamentals.units.sine_amplitude_to_power': [dict(amplitude=[0.1, 0.3], z_load=[50, 75])],
    'fundamentals.units.lsb_to_volts': [dict(lsb_count=[3, 5], vref=[1.0, 2.0], n_bits=[8, 10])],
    'fundamentals.units.volts_to_lsb': [dict(volts=[.3, .5], vref=[1.0, 2.0], n_bits=[8, 10])],
    'fundamentals.units.bin_to_freq': [dict(bin_idx=[3, 5], fs=[1.0, 2.0], n_fft=[256, 512])],
    'fundamentals.units.freq_to_bin': [dict(freq=[.3, .41], fs=[1.0, 2.0], n_fft=[256, 512])],
    'timeinterleave.deinterleave.deinterleave': [dict(x=[V(X), V(X2)], M=[4, 2])],
    'timeinterleave.deinterleave.interleave': [dict(channels=[V(XM), V(XM2)])],
    'timeinterleave.extract_mismatch_sine.extract_mismatch_sine': [dict(x=[V(X), V(X2)], M=[4, 2], fs=[1e6, 2e6], fin=[None, 37e6 / N, 37.2e6 / N])],
    'timeinterleave.fractional_delay.fractional_delay_farrow': [dict(x=[V(X), V(X2)], delay_sec=[1.3e-6, -2.4e-6], fs=[1e6, 1.1e6], n_taps=[7, 5])],
    'timeinterleave.fractional_delay.fractional_delay_fft': [dict(x=[V(X), V(X2)], delay_sec=[1.3e-6, -2.4e-6], fs=[1e6, 1.1e6])],
    'timeinterleave.calibrate_foreground.calibrate_foreground': [dict(x=[V(X), V(X2)], M=[4], params=[V(PAR), V(PAR2)], fs=[1e6, 2e6], skew_method=['fft', 'farrow'], n_taps=[7, 5])],
    'timeinterleave.predict_spurs.predict_spurs': [dict(params=[V(dict(PAR, A=0.4, fin=1e5)), V(dict(PAR2, A=0.5, fin=1.2e5))], fs=[1e6, 1.1e6], fin=[None, 1.3e5], full_scale=[1.0, 2.0])],
    'models.sar.sar_apply_cap_mismatch': [dict(weights=[V(W8 / 256), V(W8 / 200)], sigma=[0.01, 0.1, 0.0], rng=['rng1', 'rng2'], cap_units=[None, V(W8 * 4)])],
    'models.sar.sar_apply_mismatch': [dict(weights=[V(W8 / 256), V(W8 / 200)], sigma=[0.01, 0.1], rng=['rng1', 'rng2'])],
    'models.sar.sar_convert': [dict(vin=[V(X), V(X2)], weights=[V(W8 / 256), V(W8 / 200)], quant_range=[V((0.0, 1.0)), V((-0.1, 1.2))], sampling_noise_rms=[0.0, 0.02], comparator_noise_rms=[0.0, 0.02], rng=['rng1', 'rng2'])],
    'models.sar.sar_ideal_weights': [dict(num_bits=[8, 10], redundant_bit=[None, 3])],
    'models.sar.sar_reconstruct': [dict(codes=[V(B), V(B2)], weights=[V(W8 / 256), V(W8 / 200)], quant_range=[V((0.0, 1.0)), V((-0.1, 1.2))])],
    'utils.vpp_for_target_dbfs.vpp_for_target_dbfs': [dict(vpp_current=[1.0, 2.0], signal_db_measured=[-3.0, -4.0], signal_db_target=[-0.5, -1.0])],
    'oversampling.ntfperf.ntfperf': [dict(ntf=[V(([1., -1], [1., 0])), V(([1., -2, 1], [1., 0, 0]))], fl=[0.0, 0.01], fh=[0.05, 0.1])],
    'oversampling.ntf_analyzer.ntf_analyzer': [dict(ntf=[V(([1., -1], [1., 0])), V(([1., -2, 1], [1., 0, 0]))], flow=[0.0, 0.01], fhigh=[0.05, 0.1])],
}
GEN = 'siggen.nonidealities.ADC_Signal_Generator.'
SELF = dict(N=[N, 900], Fs=[1e6, 2e6], Fin=[1e5, 1.3e5], A=[0.45, 0.4], DC=[0.5, 0.45])
S = dict(input_signal=[None, V(X), V(X2)])
for name, kw in dict(
        apply_am_noise=dict(strength=[0.01, 0.02]), apply_am_tone=dict(am_tone_freq=[5e4, 6e4], am_tone_depth=[0.05, 0.1]), apply_clipping=dict(percentile_clip=[1.0, 3.0]),
        apply_drift=dict(drift_scale=[5e-5, 1e-4]), apply_glitch=dict(glitch_prob=[0.01, 0.02], glitch_amplitude=[0.1, 0.2]),
        apply_incomplete_sampling=dict(T_track=[None, 3e-7], tau_nom=[1e-7, 2e-7], coeff_k=[.15, .3]), apply_jitter=dict(jitter_rms=[2e-8, 3e-8]),
        apply_memory_effect=dict(memory_strength=[.01, .02]), apply_noise_shaping=dict(n_bits=[6, 7], quant_range=[V((0.0, 1.0)), V((-.1, 1.2))], order=[1, 2]),
        apply_quantization_noise=dict(n_bits=[6, 7], quant_range=[V((0.0, 1.0)), V((-.1, 1.2))]),
        apply_ra_gain_error=dict(relative_gain=[.99, .9], msb_bits=[4, 3], lsb_bits=[12, 8], mode=['coarse_path', 'residue_path']),
        apply_ra_gain_error_dynamic=dict(relative_gain=[.99, .9], coeff_3=[.15, .3], msb_bits=[4, 3], lsb_bits=[12, 8], mode=['coarse_path', 'residue_path']),
        apply_reference_error=dict(settling_tau=[2.0, 3.0], droop_strength=[.01, .02]), apply_static_nonlinearity=dict(k2=[0, .01], k3=[0, .01], k4=[0, .01], k5=[0, .01]),
        apply_static_nonlinearity_hd=dict(hd2_dB=[None, -60.0], hd3_dB=[None, -60.0], hd4_dB=[None, -60.0], hd5_dB=[None, -60.0]),
        apply_thermal_noise=dict(noise_rms=[1e-3, 2e-3]), get_clean_signal={}).items():
    T[GEN + name] = [dict({'self.' + k: v for k, v in SELF.items()}, **dict({} if name == 'get_clean_signal' else S, **kw))]


def call(label, args):
    mod, name = label.rsplit('.', 1)
    np.random.seed(11)
    args = {k: val(v) for k, v in args.items()}
    args = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in args.items()}
    for k, v in args.items():
        if isinstance(v, str) and v in ('rng1', 'rng2'):
            args[k] = np.random.default_rng(int(v[3:]))
    with contextlib.redirect_stdout(io.StringIO()):
        if '.ADC_Signal_Generator' in label:
            m = importlib.import_module('adctoolbox.' + mod.rsplit('.', 1)[0])
            obj = m.ADC_Signal_Generator(**{k[5:]: v for k, v in args.items() if k[:5] == 'self.'})
            r = getattr(obj, name)(**{k: v for k, v in args.items() if k[:5] != 'self.'})
        else:
            r = getattr(importlib.import_module('adctoolbox.' + mod), name)(**args)
    out = {}
    leaves(r, '', out, 0)
    return out


def leaves(r, path, out, depth):
    if isinstance(r, dict) and depth < 3:
        for k, v in r.items():
            leaves(v, '%s[%r]' % (path, k), out, depth + 1)
    elif isinstance(r, tuple) and depth < 3:
        for i, v in enumerate(r):
            leaves(v, '%s[%d]' % (path, i), out, depth + 1)
    else:
        out[path] = r


def same(a, b):
    try:
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return type(a) is type(b) and a == b
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return repr(a) == repr(b)
        if a.shape != b.shape:
            return False
        return bool(np.allclose(a, b, rtol=1e-7, atol=1e-12 * max(1e-300, float(np.nanmax(np.abs(a))) if a.size else 1), equal_nan=True))
    except (TypeError, ValueError):
        return True


def kind(x):
    x = val(x)
    return 'none' if x is None else 'str' if isinstance(x, str) else 'num' if isinstance(x, (int, float)) and not isinstance(x, bool) else 'any'


def lit(x):
    return {'value': x} if x is None or isinstance(x, (bool, int, str)) or isinstance(x, float) and np.isfinite(x) else {'given': 1}


def main():
    doc = {}
    total = effects = 0
    for label, groups in T.items():
        doc[label] = []
        for g in groups:
            acc = {}
            base = {k: v[0] for k, v in g.items()}
            contexts = [{}] + [{k: v} for k, vs in g.items() for v in vs[1:] if not isinstance(v, V) or vs[0] is None]
            for c in contexts:
                try:
                    r0 = call(label, dict(base, **c))
                except Exception as e:
                    print('  %s %s: %s' % (label, list(c), e), file=sys.stderr)
                    continue
                key = tuple(sorted((k, json.dumps(lit(val(v)), sort_keys=True)) for k, v in c.items()))
                for p, vs in g.items():
                    if p in c:
                        continue
                    for alt in vs[1:]:
                        try:
                            r1 = call(label, dict(base, **dict(c, **{p: alt})))
                        except Exception:
                            continue
                        total += 1
                        for k in r0:
                            if k in r1 and not same(r0[k], r1[k]):
                                acc.setdefault((key, p), set()).add(k)
                # two values of the same kind, where the base value is of another kind (None, 'auto')
                for p, vs in g.items():
                    if p in c:
                        continue
                    more = [v for v in vs[1:] if kind(v) != kind(vs[0])]
                    if len(more) == 1 and kind(more[0]) == 'num':
                        v = more[0]
                        more.append(v + 1 if isinstance(v, int) else v * 1.1)
                    for i in range(len(more) - 1):
                        if kind(more[i]) != kind(more[i + 1]):
                            continue
                        try:
                            r1, r2 = [call(label, dict(base, **dict(c, **{p: x}))) for x in more[i:i + 2]]
                        except Exception:
                            continue
                        total += 1
                        for k in r1:
                            if k in r2 and not same(r1[k], r2[k]):
                                acc.setdefault((key, p + ':' + kind(more[i])), set()).add(k)
            rows = [{'with': {k: json.loads(v) for k, v in key}, 'vary': p, 'changes': sorted(ls)} for (key, p), ls in sorted(acc.items())]
            effects += sum(len(r['changes']) for r in rows)
            doc[label].append({'base': {k: lit(v[0]) for k, v in g.items() if not isinstance(v[0], V) and v[0] != 'rng1'}, 'rows': rows})
            print(label, len(rows))
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'contracts', 'live.json')
    with open(out, 'w') as f:
        f.write('{\n' + ',\n'.join('%s:%s' % (json.dumps(k), json.dumps(v, separators=(',', ':'), sort_keys=True)) for k, v in sorted(doc.items())) + '\n}\n')
    print(total, 'comparisons,', effects, 'effects')


main()
