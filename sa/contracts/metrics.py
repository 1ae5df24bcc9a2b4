"""Relations between the metrics of one call.  Parsed and analysed, never executed."""
import numpy as np
from adctoolbox.spectrum.compute_spectrum import compute_spectrum
from adctoolbox.spectrum.analyze_spectrum import analyze_spectrum
from adctoolbox.spectrum.quick_sndr import quick_sndr
from adctoolbox.spectrum.sweep_performance_vs_osr import sweep_performance_vs_osr


def _metrics(tag, r, fs, osr):
    m = r['metrics']
    return [('enob from sndr, ' + tag, m['enob'], (m['sndr_dbc'] - 1.76) / 6.02),
            ('noise floor = signal power - SNR, ' + tag, m['noise_floor_dbfs'], m['sig_pwr_dbfs'] - m['snr_dbc']),
            ('NSD = noise floor - 10log10(bandwidth), ' + tag, m['nsd_dbfs_hz'], m['noise_floor_dbfs'] - 10 * np.log10(fs / (2 * osr)))]


def spectrum_default(data: 'rec', fs: 'pos'):
    return _metrics('default', compute_spectrum(data, fs=fs), fs, 1)


def spectrum_osr(data: 'rec', fs: 'pos', osr: 'pint'):
    return _metrics('oversampled', compute_spectrum(data, fs=fs, osr=osr, side_bin=3, win_type='blackman'), fs, osr)


def spectrum_methods(data: 'rec', fs: 'pos'):
    out = []
    for k in (0, 1, 2, 3):
        out = out + _metrics('noise method ' + str(k), compute_spectrum(data, fs=fs, nf_method=k), fs, 1)
    return out


def spectrum_coherent(data: 'rec2', fs: 'pos', osr: 'pint'):
    return _metrics('coherent average', compute_spectrum(data, fs=fs, osr=osr, coherent_averaging=True), fs, osr)


def spectrum_assumed(data: 'rec', fs: 'pos', level: 'num'):
    r = compute_spectrum(data, fs=fs, assumed_sig_pwr_dbfs=level)
    return _metrics('assumed signal power', r, fs, 1) + [('assumed signal power is reported', r['metrics']['sig_pwr_dbfs'], level)]


def spectrum_scaled(data: 'rec', fs: 'pos', full_scale: 'pos'):
    return _metrics('given full scale', compute_spectrum(data, fs=fs, max_scale_range=full_scale, win_type='boxcar'), fs, 1)


def spectrum_axis(data: 'rec', fs: 'pos'):
    r = compute_spectrum(data, fs=fs, side_bin=2)
    p = r['plot_data']
    return [('record length', r['N'], len(data)), ('sampling rate', r['fs'], fs),
            ('signal band start', p['sig_bin_start'], max(p['fundamental_bin'] - 2, 0)),
            ('frequency axis', p['freq'], np.arange(len(p['power_spectrum_db_plot'])) * fs / len(data))]


def limits_and_amplitude(data: 'rec', lo: 'num', hi: 'num'):
    a = compute_spectrum(data, max_scale_range=[lo, hi], side_bin=2)['metrics']
    b = compute_spectrum(data, max_scale_range=(hi - lo) / 2, side_bin=2)['metrics']
    return [('limits and half span give the same ' + k, a[k], b[k]) for k in ('sig_pwr_dbfs', 'sndr_dbc', 'enob', 'snr_dbc', 'noise_floor_dbfs')]


def quick_enob(data: 'rec', fs: 'pos'):
    r = quick_sndr(data, fs=fs)
    return [('quick ENOB from SNDR', r['enob'], (r['sndr_dbc'] - 1.76) / 6.02)]


def quick_agrees(data: 'rec', fs: 'pos'):
    a = quick_sndr(data, fs=fs, side_bin=2)
    b = compute_spectrum(data, fs=fs, side_bin=2)['metrics']
    return [('quick SNDR equals full analysis', a['sndr_dbc'], b['sndr_dbc']), ('quick ENOB equals full analysis', a['enob'], b['enob'])]


def quick_agrees_scaled(data: 'rec', full_scale: 'pos'):
    a = quick_sndr(data, side_bin=1, win_type='boxcar', max_scale_range=full_scale)
    b = compute_spectrum(data, side_bin=1, win_type='boxcar', max_scale_range=full_scale)['metrics']
    return [('quick SNDR equals full analysis (boxcar, full scale)', a['sndr_dbc'], b['sndr_dbc'])]


def wrapper_agrees(data: 'rec', fs: 'pos', osr: 'pint'):
    a = analyze_spectrum(data, fs=fs, osr=osr, create_plot=False)
    b = compute_spectrum(data, fs=fs, osr=osr)['metrics']
    return [('analysis wrapper passes on ' + k, a[k], b[k]) for k in
            ('enob', 'sndr_dbc', 'sfdr_dbc', 'snr_dbc', 'sig_pwr_dbfs', 'noise_floor_dbfs', 'nsd_dbfs_hz', 'thd_dbc', 'harmonics_dbc')]
