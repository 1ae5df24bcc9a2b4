"""Conversions and their inverses, documented formulas, duplicate implementations.  Parsed and analysed, never executed."""
import numpy as np
from adctoolbox.fundamentals import units as u
from adctoolbox.fundamentals import snr_nsd as s
from adctoolbox.fundamentals import metrics as m
from adctoolbox.fundamentals.frequency import estimate_frequency, fold_frequency_to_nyquist, fold_bin_to_nyquist
from adctoolbox.fundamentals.fit_sine_4param import fit_sine_4param
from adctoolbox.fundamentals.convert_cap_to_weight import convert_cap_to_weight
from adctoolbox.utils.vpp_for_target_dbfs import vpp_for_target_dbfs
import adctoolbox


def magnitude(x: 'pos', y: 'num'):
    return [('dB of magnitude back to magnitude', u.db_to_mag(u.mag_to_db(x)), x), ('magnitude of dB back to dB', u.mag_to_db(u.db_to_mag(y)), y),
            ('magnitude definition', u.mag_to_db(x), 20 * np.log10(x))]


def power(x: 'pos', y: 'num'):
    return [('dB of power back to power', u.db_to_power(u.power_to_db(x)), x), ('power of dB back to dB', u.power_to_db(u.db_to_power(y)), y),
            ('power definition', u.power_to_db(x), 10 * np.log10(x)), ('power is magnitude squared', u.power_to_db(x * x), u.mag_to_db(x))]


def lsb(x: 'num', vref: 'pos', bits: 'pint'):
    return [('volts of LSB back to LSB', u.volts_to_lsb(u.lsb_to_volts(x, vref, bits), vref, bits), x),
            ('LSB of volts back to volts', u.lsb_to_volts(u.volts_to_lsb(x, vref, bits), vref, bits), x),
            ('full scale', u.lsb_to_volts(2 ** bits, vref, bits), vref)]


def bins(k: 'pint', fs: 'pos', n: 'len'):
    return [('bin frequency', u.bin_to_freq(k, fs, n), k * fs / n), ('frequency of bin back to bin', u.freq_to_bin(u.bin_to_freq(k, fs, n), fs, n), k)]


def enob(x: 'num'):
    return [('SNR to ENOB', u.snr_to_enob(x), (x - 1.76) / 6.02), ('ENOB of SNR back to SNR', u.enob_to_snr(u.snr_to_enob(x)), x),
            ('SNR of ENOB back to ENOB', u.snr_to_enob(u.enob_to_snr(x)), x)]


def dbm(x: 'pos', y: 'num', z: 'pos'):
    return [('dBm to volts and back', u.vrms_to_dbm(u.dbm_to_vrms(y, z), z), y), ('volts to dBm and back', u.dbm_to_vrms(u.vrms_to_dbm(x, z), z), x),
            ('default load', u.vrms_to_dbm(u.dbm_to_vrms(y)), y), ('dBm to mW and back', u.mw_to_dbm(u.dbm_to_mw(y)), y),
            ('mW to dBm and back', u.dbm_to_mw(u.mw_to_dbm(x)), x), ('power of volts', u.vrms_to_dbm(x, z), 10 * np.log10(1000 * x ** 2 / z)),
            ('sine power', u.sine_amplitude_to_power(x, z), x ** 2 / (2 * z)),
            ('sine power in dBm', u.mw_to_dbm(1000 * u.sine_amplitude_to_power(x, z)), u.vrms_to_dbm(x / np.sqrt(2), z))]


def nsd(x: 'num', fs: 'pos', p: 'num', osr: 'pos'):
    return [('NSD formula', u.snr_to_nsd(x, fs, signal_pwr_dbfs=p, osr=osr), p - x - 10 * np.log10(fs / (2 * osr))),
            ('NSD back to SNR', u.nsd_to_snr(u.snr_to_nsd(x, fs, signal_pwr_dbfs=p, osr=osr), fs, signal_pwr_dbfs=p, osr=osr), x),
            ('SNR back to NSD', u.snr_to_nsd(u.nsd_to_snr(x, fs, signal_pwr_dbfs=p, osr=osr), fs, signal_pwr_dbfs=p, osr=osr), x)]


def nsd_linear(x: 'num', fs: 'pos', p: 'num', osr: 'pos'):
    return [('NSD formula (linear)', s.snr_to_nsd(x, fs, osr=osr, psignal_dbfs=p), p - x - 10 * np.log10(fs / (2 * osr))),
            ('NSD back to SNR (linear)', s.nsd_to_snr(s.snr_to_nsd(x, fs, osr=osr, psignal_dbfs=p), fs, osr=osr, psignal_dbfs=p), x),
            ('both NSD conversions agree', s.snr_to_nsd(x, fs, osr=osr, psignal_dbfs=p), u.snr_to_nsd(x, fs, signal_pwr_dbfs=p, osr=osr)),
            ('both SNR conversions agree', s.nsd_to_snr(x, fs, osr=osr, psignal_dbfs=p), u.nsd_to_snr(x, fs, signal_pwr_dbfs=p, osr=osr)),
            ('defaults agree', s.snr_to_nsd(x, fs), u.snr_to_nsd(x, fs)), ('inverse defaults agree', s.nsd_to_snr(x, fs), u.nsd_to_snr(x, fs))]


def nsd_arrays(x: 'rec', fs: 'pos', p: 'num', osr: 'pos'):
    return [('NSD of an array', s.snr_to_nsd(x, fs, osr=osr, psignal_dbfs=p), p - x - 10 * np.log10(fs / (2 * osr))),
            ('NSD of an array back to SNR', s.nsd_to_snr(s.snr_to_nsd(x, fs, osr=osr, psignal_dbfs=p), fs, osr=osr, psignal_dbfs=p), x)]


def amplitude_snr(a: 'pos', n: 'pos'):
    snr, ps, pn = s.amplitudes_to_snr(a, n, return_power=True)
    return [('SNR of amplitudes', s.amplitudes_to_snr(a, n), 20 * np.log10(a / np.sqrt(2) / n)), ('SNR with powers', snr, 10 * np.log10(ps / pn)),
            ('signal power', ps, a ** 2 / 2), ('noise power', pn, n ** 2), ('oversampling gain', s.amplitudes_to_snr(a, n, osr=4) - s.amplitudes_to_snr(a, n), 10 * np.log10(4))]


def amplitude_oversampled(a: 'pos', n: 'pos', extra: 'pos'):
    return [('oversampling gain, any ratio', s.amplitudes_to_snr(a, n, osr=1 + extra) - s.amplitudes_to_snr(a, n), 10 * np.log10(1 + extra)),
            ('no gain without oversampling', s.amplitudes_to_snr(a, n, osr=1), s.amplitudes_to_snr(a, n))]


def figures_of_merit(power: 'pos', fs: 'pos', bits: 'pos', sndr: 'num', bw: 'pos'):
    return [('Walden figure', m.calculate_walden_fom(power, fs, bits), power / (2 ** bits * fs)),
            ('Schreier figure', m.calculate_schreier_fom(power, sndr, bw), sndr + 10 * np.log10(bw / power))]


def noise_limits(c: 'pos', v: 'pos', f: 'pos', j: 'pos'):
    return [('thermal limit', m.calculate_thermal_noise_limit(c, v), 10 * np.log10((v ** 2 / 8) / (1.38e-23 * 300 / (c * 1e-12)))),
            ('thermal limit, default full scale', m.calculate_thermal_noise_limit(c), m.calculate_thermal_noise_limit(c, 1.0)),
            ('jitter limit', m.calculate_jitter_limit(f, j), -20 * np.log10(2 * np.pi * f * j))]


def frequency(data: 'rec', fs: 'pos', f0: 'pos'):
    return [('frequency in Hz', estimate_frequency(data, fs=fs), fs * fit_sine_4param(data)['frequency']),
            ('frequency in Hz from a start value', estimate_frequency(data, frequency_estimate=f0, fs=fs), fs * fit_sine_4param(data, frequency_estimate=f0)['frequency'])]


def folding(f: 'pos', fs: 'pos'):
    return [('alias of an alias', fold_frequency_to_nyquist(f, fs), np.abs(f - fs * np.round(f / fs)))]


def folding_bins(k: 'num', n: 'len', m: 'pint'):
    return [('alias of a bin', fold_bin_to_nyquist(k, n), np.abs(k - n * np.round(k / n))), ('alias of an image', fold_bin_to_nyquist(k + m * n, n), fold_bin_to_nyquist(k, n)),
            ('alias of a mirrored bin', fold_bin_to_nyquist(n - k, n), fold_bin_to_nyquist(k, n))]


def target_level(v: 'pos', have: 'num', want: 'num'):
    return [('amplitude for a target level', vpp_for_target_dbfs(v, have, want), v * 10 ** ((want - have) / 20)),
            ('amplitude for the default level', vpp_for_target_dbfs(v, have), v * 10 ** ((-0.5 - have) / 20)),
            ('amplitude back to the level it had', vpp_for_target_dbfs(vpp_for_target_dbfs(v, have, want), want, have), v)]


def capacitors(c1: 'pos', c2: 'pos', p1: 'pos', p2: 'pos'):
    weights, total = convert_cap_to_weight(np.array([c1, c2]), np.array([0.0, 0.0]), np.array([p1, p2]))
    node = c1 + p1 + c2 + p2
    return [('total of an array without bridge', total, node), ('weight of the lower capacitor', weights[0], c1 / node), ('weight of the upper capacitor', weights[1], c2 / node)]


def bridged_capacitors(c1: 'pos', c2: 'pos', p1: 'pos', p2: 'pos', bridge: 'pos'):
    weights, total = convert_cap_to_weight(np.array([c1, c2]), np.array([bridge, 0.0]), np.array([p1, p2]))
    load = bridge * (c1 + p1) / (bridge + c1 + p1)
    node = load + c2 + p2
    return [('total of a bridged array', total, node), ('weight below the bridge', weights[0], c1 / (c1 + p1) * load / node), ('weight above the bridge', weights[1], c2 / node)]
