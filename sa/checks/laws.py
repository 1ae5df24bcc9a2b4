"""Unit covariance, offset covariance and frequency covariance of results."""
from . import check
from .scen import *

REC = arr(a=1, sh=1)                 # a measured record: scales with volts, moves with DC
FITD = [('fit.amplitude', V()), ('fit.dc_offset', V(1)), ('fit.rmse', V()), ('fit.*', INV)]

CASES = []


def case(fn, args, want, **k):
    CASES.append(Case(fn, args, want, **k))


# ---- spectrum ------------------------------------------------------------
SPARGS = dict(max_scale_range=NONE, coherent_averaging=const(False), cutoff_freq=const(0), side_bin=NONE, win_type=const('hann'), fs=pos(f=1),
              osr=const(1), max_harmonic=const(5), nf_method=const(2), assumed_sig_pwr_dbfs=const(float('nan')))
SPWANT = [('metrics.nsd_dbfs_hz', Want(db={'f': -10})), ('metrics.*', INV), ('plot_data.freq', D(f=1)), ('plot_data.fs', D(f=1)),
          ('plot_data.fundamental_freq', D(f=1)), ('plot_data.*', INV)]
for tag, up in (('one record', dict(data=arr(a=1, sh=1, nd=1))),
                ('several records', dict(data=arr(a=1, sh=1, nd=2))),
                ('full scale given', dict(data=arr(a=1, sh=1, nd=1), max_scale_range=pos(a=1))),
                ('full scale as limits', dict(data=arr(a=1, sh=1, nd=1), max_scale_range=Arg('list', items=[num(a=1, sh=1), num(a=1, sh=1)]))),
                ('coherent averaging', dict(data=arr(a=1, sh=1, nd=2), coherent_averaging=const(True))),
                ('nf median', dict(data=arr(a=1, sh=1, nd=1), nf_method=const(0))),
                ('nf trimmed', dict(data=arr(a=1, sh=1, nd=1), nf_method=const(1))),
                ('auto noise', dict(data=arr(a=1, sh=1, nd=1), nf_method=const(3))),
                ('boxcar', dict(data=arr(a=1, sh=1, nd=1), win_type=const('boxcar'))),
                ('blackman, oversampled', dict(data=arr(a=1, sh=1, nd=1), win_type=const('blackman'), osr=const(4), side_bin=const(3)))):
    a_ = dict(SPARGS)
    a_.update(up)
    case('spectrum.compute_spectrum.compute_spectrum', a_, SPWANT, tag=tag)
case('spectrum.quick_sndr.quick_sndr', dict(data=REC, max_scale_range=NONE, side_bin=NONE, win_type=const('hann'), fs=pos(f=1)), [('*', INV)])
case('spectrum.sweep_performance_vs_osr.sweep_performance_vs_osr', dict(data=REC, osr=arr()), [('*', INV)])
case('spectrum.extract_freq_components.extract_freq_components', dict(din=REC, bands=arr(nd=2)), [('*', V())], modes=('scale',))
case('oversampling.ifilter.ifilter', dict(sigin=REC, passband=arr(nd=2)), [('*', V())], modes=('scale',))
case('oversampling.perfosr.perfosr', dict(sig=REC, osr=arr()), [('*', INV)], modes=('scale', 'offset'))

# ---- sine fit and frequency ----------------------------------------------
FITW = [('fitted_signal', V(1)), ('residuals', V()), ('amplitude', V()), ('dc_offset', V(1)), ('rmse', V()), ('*', INV)]
case('fundamentals.fit_sine_4param.fit_sine_4param', dict(data=REC, frequency_estimate=NONE), FITW, tag='no estimate', modes=('scale', 'offset'))
case('fundamentals.fit_sine_4param.fit_sine_4param', dict(data=REC, frequency_estimate=pos()), FITW, tag='estimate', modes=('scale', 'offset'))
case('fundamentals.fit_sine_4param.fit_sine_4param', dict(data=arr(a=1, sh=1, nd=2), frequency_estimate=NONE), FITW, tag='2-D', modes=('scale', 'offset'))
case('fundamentals.frequency.estimate_frequency', dict(data=REC, frequency_estimate=NONE, fs=pos(f=1)), [('*', D(f=1))])
case('fundamentals.frequency.find_coherent_frequency', dict(fs=pos(f=1), fin_target=pos(f=1), n_fft=num(dt='i', iv=(2, INF))), [('0', D(f=1)), ('1', INV)], modes=('freq',))
case('fundamentals.frequency.fold_frequency_to_nyquist', dict(fs=pos(f=1), fin=num(f=1)), [('*', D(f=1))], modes=('freq',))

# ---- error analyses -------------------------------------------------------
case('aout.decompose_harmonic_error.decompose_harmonic_error', dict(signal=REC, n_harmonics=const(5), frequency=NONE),
     [('magnitudes', V()), ('residual_rms', V()), ('noise_residual', V()), ('reconstructed_signal', V(1)), ('fundamental_signal', V(1)), ('harmonic_signal', V()), ('*', INV)],
     modes=('scale', 'offset'))
for q, w in ((True, INV), (False, D(a=2))):
    case('aout.analyze_error_autocorr.analyze_error_autocorr', dict(signal=REC, frequency=NONE, normalize=const(q), return_fit=const(True)),
         [('acf', w), ('error_signal', V())] + FITD + [('*', INV)], modes=('scale', 'offset'), tag='normalized' if q else 'raw')
for q in (True, False):
    case('aout.rearrange_error_by_phase.rearrange_error_by_phase', dict(signal=REC, norm_freq=NONE, return_fit=const(True), include_base_noise=const(q)),
         [('*_rms_v', V()), ('bin_error_mean_v', V()), ('amplitude', V()), ('dc_offset', V(1)), ('fitted_signal', V(1)), ('error', V()), ('_coeffs*', D(a=2))] + FITD +
         [('*', INV)], modes=('scale', 'offset'), tag='with base noise' if q else 'without base noise')
case('aout.rearrange_error_by_value.rearrange_error_by_value',
     dict(signal=REC, norm_freq=NONE, return_fit=const(True), value_range=tup(num(a=1, sh=1), num(a=1, sh=1))),
     [('error_mean', V()), ('error_rms', V()), ('value_bin_centers', V(1)), ('error', V()), ('fitted_signal', V(1))] + FITD + [('*', INV)], modes=('scale', 'offset'))
ERRSPEC = [('*nsd_dbfs_hz', Want(db={'f': -10})), ('error_signal', V()), ('envelope', V()), ('fs', D(f=1))] + FITD + [('*', INV)]
for fn in ('aout.analyze_error_envelope_spectrum.analyze_error_envelope_spectrum', 'aout.analyze_error_spectrum.analyze_error_spectrum'):
    case(fn, dict(signal=REC, fs=pos(f=1), frequency=NONE, return_fit=const(True)), ERRSPEC)
for q, t in ((NONE, 'own full scale'), (pos(a=1), 'full scale given')):
    case('aout.analyze_error_pdf.analyze_error_pdf', dict(signal=REC, full_scale=q, frequency=NONE, return_fit=const(True), resolution=pos(dt='i')),
         FITD + [('*', INV)], modes=('scale', 'offset'), tag=t)
case('aout.fit_static_nonlin.fit_static_nonlin', dict(sig_distorted=REC, order=const(3)),
     [('0', D(a=-1)), ('1', D(a=-2)), ('2', V(1)), ('3.0', V(1)), ('3.1', V(1))], modes=('scale', 'offset'))
case('aout.fit_static_nonlin.fit_static_nonlin', dict(sig_distorted=REC, order=const(5)),
     [('0', D(a=-1)), ('1', D(a=-2)), ('2', V(1)), ('3.0', V(1)), ('3.1', V(1))], modes=('scale', 'offset'), tag='order 5')
case('aout.analyze_phase_plane.analyze_phase_plane', dict(data=REC, lag=const('auto'), detect_outliers=const(True)), [('*', INV)], modes=('scale', 'offset'))
case('aout.analyze_error_phase_plane.analyze_error_phase_plane', dict(data=REC, fit_polynomial_order=const(3)),
     [('residual', V()), ('fitted_params.amplitude', V()), ('fitted_params.dc_offset', V(1)), ('fitted_params.rmse', V()), ('fitted_params.frequency', INV),
      ('hysteresis_gap', V())], modes=('scale', 'offset'))

# ---- code densities --------------------------------------------------------
RAMPW = [('code', D(1)), ('transition_code', D(1)), ('missing_codes', D(1)), ('code_min', D(1)), ('code_max', D(1)), ('*', INV)]
for ep in ('endpoints', 'none', 'fit'):
    case('aout.compute_inl_from_ramp.compute_inl_from_ramp',
         dict(codes=arr(sh=1, dt='i'), num_bits=NONE, code_min=num(sh=1, dt='i'), code_max=num(sh=1, dt='i'), endpoint=const(ep), exclude_endpoints=const(True)),
         RAMPW, modes=('offset',), tag=ep, intshift=True)
case('aout.compute_inl_from_ramp.compute_inl_from_ramp',
     dict(codes=arr(sh=1, dt='i'), num_bits=NONE, code_min=num(sh=1, dt='i'), code_max=NONE, endpoint=const('endpoints'), exclude_endpoints=const(False)),
     RAMPW, modes=('offset',), tag='observed maximum', intshift=True)
case('aout.compute_inl_from_ramp.compute_inl_from_ramp',
     dict(codes=arr(sh=1, dt='i'), num_bits=num(dt='i', iv=(1, 24)), code_min=num(sh=1, dt='i'), code_max=NONE, endpoint=const('endpoints'), exclude_endpoints=const(True)),
     RAMPW, modes=('offset',), tag='num_bits', intshift=True)
case('aout.compute_inl_from_sine.compute_inl_from_sine', dict(data=arr(sh=1, dt='i'), num_bits=NONE, full_scale=NONE), [('0', INV), ('1', INV), ('2', D(1))],
     modes=('offset',), tag='integer codes', intshift=True)

# ---- converter models and weights -----------------------------------------
QR = tup(num(a=1, sh=1), num(a=1, sh=1))
case('models.sar.sar_convert', dict(vin=REC, weights=arr(), quant_range=QR, sampling_noise_rms=pos(a=1), comparator_noise_rms=pos(a=1), rng=RNG), [('*', INV)],
     modes=('scale', 'offset'), tag='noisy')
case('models.sar.sar_convert', dict(vin=REC, weights=arr(), quant_range=QR, sampling_noise_rms=const(0.0), comparator_noise_rms=const(0.0), rng=NONE), [('*', INV)],
     modes=('scale', 'offset'), tag='noiseless')
case('models.sar.sar_reconstruct', dict(codes=arr(nd=2, dt='i'), weights=arr(), quant_range=QR), [('*', V(1))], modes=('scale', 'offset'))
case('models.sar.sar_apply_mismatch', dict(weights=arr(w=1), sigma=pos(), rng=RNG), [('*', D(w=1))], modes=('scale',))
case('models.sar.sar_apply_cap_mismatch', dict(weights=arr(w=1), sigma=pos(), rng=RNG, cap_units=NONE), [('*', D(w=1))], modes=('scale',), tag='own units')
case('models.sar.sar_apply_cap_mismatch', dict(weights=arr(w=1), sigma=pos(), rng=RNG, cap_units=arr()), [('*', D(w=1))], modes=('scale',), tag='units given')
case('fundamentals.convert_cap_to_weight.convert_cap_to_weight', dict(caps_bit=arr(c=1), caps_bridge=arr(c=1), caps_parasitic=arr(c=1)), [('0', INV), ('1', D(c=1))], modes=('scale',))
case('dout.analyze_weight_radix.analyze_weight_radix', dict(weights=arr(w=1)), [('wgtsca', D(w=-1)), ('*', INV)], modes=('scale',))
case('dout.analyze_overflow.analyze_overflow', dict(raw_code=arr(nd=2), weight=arr(w=1)), [('*', INV)], modes=('scale',))
case('dout.plot_residual_scatter.plot_residual_scatter', dict(signal=REC, bits=arr(nd=2), weights=arr(a=1), pairs=NONE),
     [('pairs*', INV), ('residuals_*', V(1))], modes=('scale', 'offset'))

# ---- time interleaving -----------------------------------------------------
TIP = dct(offset=arr(a=1), gain=arr(), skew=arr(f=-1), fin=pos(f=1), A=pos(a=1))
case('timeinterleave.predict_spurs.predict_spurs', dict(params=TIP, fs=pos(f=1), fin=pos(f=1), full_scale=pos(a=1)),
     [('*freq_hz', D(f=1)), ('*amp', V()), ('*', INV)], modes=('scale', 'freq'))
TIC = dct(offset=arr(a=1, sh=1), gain=arr(), skew=arr(f=-1), fin=pos(f=1))
for q in ('fft', 'farrow'):
    case('timeinterleave.calibrate_foreground.calibrate_foreground', dict(x=REC, M=const(2), params=TIC, fs=pos(f=1), skew_method=const(q)), [('*', V())], tag=q)
for q, t in ((pos(f=1), 'fin given'), (NONE, 'fin estimated')):
    case('timeinterleave.extract_mismatch_sine.extract_mismatch_sine', dict(x=REC, M=num(dt='i', iv=(2, INF)), fs=pos(f=1), fin=q),
         [('fin', D(f=1)), ('A', V()), ('gain', INV), ('offset', V(1)), ('skew', D(f=-1)), ('phase*', INV)], tag=t)
case('timeinterleave.fractional_delay.fractional_delay_fft', dict(x=REC, delay_sec=num(f=-1), fs=pos(f=1)), [('*', V())], modes=('scale', 'freq'))
case('timeinterleave.fractional_delay.fractional_delay_farrow', dict(x=REC, delay_sec=num(f=-1), fs=pos(f=1), n_taps=const(7)), [('*', V())], modes=('scale', 'freq'))

# ---- unit conversions and limits -------------------------------------------
case('fundamentals.metrics.calculate_walden_fom', dict(power=pos(p=1), fs=pos(f=1), enob=num()), [('*', D(p=1, f=-1))], modes=('scale', 'freq'))
case('fundamentals.metrics.calculate_schreier_fom', dict(power=pos(p=1), sndr_db=num(), bw=pos(f=1)), [('*', Want(db={'p': -10, 'f': 10}))], modes=('scale', 'freq'))
case('fundamentals.metrics.calculate_thermal_noise_limit', dict(cap_pf=pos(c=1), v_fs=pos(a=1)), [('*', Want(db={'a': 20, 'c': 10}))], modes=('scale',))
case('fundamentals.metrics.calculate_jitter_limit', dict(freq=pos(f=1), jitter_rms_sec=pos(t=1)), [('*', Want(db={'f': -20, 't': -20}))], modes=('freq',))
case('fundamentals.snr_nsd.amplitudes_to_snr', dict(sig_amplitude=pos(a=1), noise_amplitude=pos(a=1), osr=const(1), return_power=const(True)),
     [('0', INV), ('1', D(a=2)), ('2', D(a=2))], modes=('scale',))
case('fundamentals.snr_nsd.amplitudes_to_snr', dict(sig_amplitude=arr(a=1), noise_amplitude=arr(a=1), osr=const(4), return_power=const(True)),
     [('0', INV), ('1', D(a=2)), ('2', D(a=2))], modes=('scale',), tag='arrays, oversampled')
for fn, s in (('fundamentals.snr_nsd.snr_to_nsd', -10), ('fundamentals.units.snr_to_nsd', -10)):
    case(fn, dict(snr_db=num(), fs=pos(f=1)), [('*', Want(db={'f': -10}))], modes=('freq',))
for fn in ('fundamentals.snr_nsd.nsd_to_snr', 'fundamentals.units.nsd_to_snr'):
    case(fn, dict(nsd_dbfs_hz=num(db={'f': -10}), fs=pos(f=1)), [('*', INV)], modes=('freq',))
case('fundamentals.units.bin_to_freq', dict(bin_idx=num(), fs=pos(f=1), n_fft=pos()), [('*', D(f=1))], modes=('freq',))
case('fundamentals.units.freq_to_bin', dict(freq=num(f=1), fs=pos(f=1), n_fft=pos()), [('*', INV)], modes=('freq',))
case('fundamentals.units.lsb_to_volts', dict(lsb_count=num(), vref=pos(a=1), n_bits=pos()), [('*', V())], modes=('scale',))
case('fundamentals.units.volts_to_lsb', dict(volts=num(a=1), vref=pos(a=1), n_bits=pos()), [('*', INV)], modes=('scale',))
case('fundamentals.units.dbm_to_vrms', dict(dbm=num(db={'a': 20}), z_load=pos()), [('*', V())], modes=('scale',))
case('fundamentals.units.vrms_to_dbm', dict(vrms=pos(a=1), z_load=pos()), [('*', Want(db={'a': 20}))], modes=('scale',))
case('fundamentals.units.sine_amplitude_to_power', dict(amplitude=pos(a=1), z_load=pos(c=1)), [('*', D(a=2, c=-1))], modes=('scale',))

# ---- signal generator -------------------------------------------------------
SELF = {'self.N': num(dt='i', iv=(2, INF)), 'self.Fs': pos(f=1), 'self.Fin': pos(f=1), 'self.A': pos(a=1), 'self.DC': num(a=1, sh=1)}
GEN = 'siggen.nonidealities.ADC_Signal_Generator.'
for own in (True, False):
    sig = NONE if own else REC
    tg = 'own sine' if own else 'given record'

    def gen(fn, **k):
        modes = k.pop('modes', ('scale', 'freq', 'offset'))
        d = dict(SELF)
        d.update(input_signal=sig, **k)
        case(GEN + fn, d, [('*', V(1))], tag=tg, modes=modes)
    gen('apply_thermal_noise', noise_rms=pos(a=1))
    gen('apply_quantization_noise', n_bits=num(dt='i', iv=(1, 24)), quant_range=QR)
    gen('apply_jitter', jitter_rms=pos(f=-1), modes=('scale', 'freq', 'offset') if own else ('scale', 'offset'))
    gen('apply_static_nonlinearity', k2=pos(a=-1), k3=pos(a=-2), k4=pos(a=-3), k5=pos(a=-4))
    gen('apply_static_nonlinearity_hd', hd2_dB=num(), hd3_dB=num(), hd4_dB=num(), hd5_dB=num())
    gen('apply_incomplete_sampling', T_track=NONE, tau_nom=pos(f=-1), coeff_k=pos(a=-2))
    gen('apply_reference_error', settling_tau=pos(), droop_strength=pos(a=-1), modes=('scale', 'offset'))
    gen('apply_am_noise', strength=pos())
    gen('apply_am_tone', am_tone_freq=pos(f=1), am_tone_depth=pos())
    gen('apply_clipping', percentile_clip=pos(), modes=('scale', 'offset'))
    gen('apply_drift', drift_scale=pos(a=1), modes=('scale', 'offset'))
    gen('apply_glitch', glitch_prob=pos(), glitch_amplitude=pos(a=1), modes=('scale', 'offset'))
    gen('apply_noise_shaping', n_bits=num(dt='i', iv=(1, 24)), quant_range=QR, order=const(2), ntf=NONE)
case(GEN + 'get_clean_signal', dict(SELF), [('*', V(1))])


def run(ctx, mode, rule, text, need):
    ctx.rule(text)
    for c in CASES:
        if mode in c.modes:
            decide(ctx, c, mode, rule)
    ctx.count('scenarios', sum(1 for c in CASES if mode in c.modes))
    ctx.floor('result leaves with a decided law', ctx.ok, need)


@check('P09', 'Units-of-measure inference by abstract interpretation: every value carries its homogeneity degree in the voltage unit '
              '(also weight, capacitance and power units); degrees are propagated through all operations, joins and branches of the current source')
def p09(ctx):
    run(ctx, 'scale', 'unit-scale', 'each result leaf is homogeneous of its documented degree in the amplitude unit; no additive mixing of degrees, no fixed threshold, '
        'rounding or transcendental function applied to a scaled quantity (numerical floors below -150 dB excepted)', 150)


@check('P10', 'Translation-coefficient analysis by abstract interpretation: every value carries the (symbolic) amount by which it moves when a constant is added to the input record')
def p10(ctx):
    run(ctx, 'offset', 'offset', 'each result leaf has its documented offset coefficient (0, or 1 for levels); no nonlinear use of an offset-dependent quantity', 120)


@check('P11', 'Units-of-measure inference by abstract interpretation in the frequency/time unit')
def p11(ctx):
    run(ctx, 'freq', 'unit-frequency', 'each result leaf is homogeneous of its documented degree in the frequency unit (times have degree -1; NSD moves by -10 dB per decade)', 80)
