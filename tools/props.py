"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
PK = 'python/src/adctoolbox/'
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=[PK + f for f in files], mech=[(n, PK + w) for n, w in mech], note=note, observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NOT_APPLICABLE.append((id, reason))


SOUND = ('Every path of every public entry is covered by one abstract execution with unknown arguments. Trusted: the effect models of numpy, scipy, matplotlib and the '
         'standard library in sa/npmod.py and sa/ext.py, and the assumption that undocumented monkey-patching does not occur. ')

prop('P01', 'Caller data is never modified',
     'No public function or method of the package modifies any array or container passed to it as an argument. After the call every argument compares equal to its value before the call, whatever its dtype, memory layout, shape or the other options.',
     ['inputs', 'configurations'], 'all argument values, dtypes, memory layouts and option combinations of all public functions',
     'Tests call functions with a few freshly made arrays and rarely compare the argument afterwards; whether an in-place step hits caller memory depends on dtype and layout (asarray/ravel/reshape copy or not), on branches few tests enter, and on helpers several calls away.',
     ['spectrum/_prepare_fft_input.py', 'siggen/nonidealities.py', 'timeinterleave/calibrate_foreground.py', 'fundamentals/fit_sine_4param.py'],
     [('defensive copy of the signal', 'siggen/nonidealities.py:_resolve_signal'), ('fresh arrays in preprocessing', 'spectrum/_prepare_fft_input.py:_prepare_fft_input'),
      ('float conversion that copies', 'timeinterleave/calibrate_foreground.py:calibrate_foreground')],
     SOUND + 'A store whose target cannot be resolved is counted as undecided and printed in the evidence.')

prop('P02', 'Calls leave no hidden state behind',
     'The outcome of a call depends only on its arguments (and on random draws where documented), never on earlier calls, the clock, the environment or the current figure. A call leaves no lasting trace in module variables, default arguments, function or generator-object attributes, caches, or numpy, matplotlib and warning settings, and never returns a long-lived internal object that a caller could change.',
     ['histories', 'configurations'], 'all histories of calls of public functions in one process',
     'A test sees one short call history in one process; memoised results, mutated defaults and process-wide settings only matter for the second caller.',
     ['siggen/nonidealities.py', 'spectrum/_window.py', 'aout/analyze_error_spectrum.py', 'aout/analyze_error_envelope_spectrum.py'],
     [('generator attributes assigned only at construction', 'siggen/nonidealities.py:ADC_Signal_Generator.__init__'), ('module tables are read only', 'spectrum/_side_bin_auto.py')],
     SOUND)

prop('P03', 'Results never share memory with arguments',
     'No array reachable from a returned result is, or is a view of, an array that the caller passed in, so later changes to one never show up in the other. The only exceptions are the reshaping helpers that split a stream into channels and merge channels into a stream.',
     ['inputs', 'histories'], 'all argument dtypes, shapes and layouts, and all later writes to argument or result',
     'Sharing depends on dtype and layout (no-copy conversions), and is only visible if somebody writes to one side later; tests compare values once.',
     ['spectrum/sweep_performance_vs_osr.py', 'calibration/_estimate_frequencies.py', 'siggen/nonidealities.py', 'models/sar.py'],
     [('copying conversion of the OSR list', 'spectrum/sweep_performance_vs_osr.py:sweep_performance_vs_osr'), ('copying conversion of frequencies', 'calibration/_estimate_frequencies.py:_estimate_frequencies')],
     SOUND)

prop('P04', 'Random numbers come only from the documented source',
     'Functions that accept a random generator draw exclusively from it when it is supplied and from a fresh, unseeded generator when it is not. The signal generator\'s noise effects draw only from numpy\'s global stream, so seeding it reproduces them. Nothing reseeds a global stream, and every analysis, calibration and conversion function is deterministic.',
     ['inputs', 'histories', 'configurations'], 'all seeds, all generators, all call orders and option combinations',
     'A test with a fixed seed cannot tell which stream was used, and reproducibility across call orders needs every path to avoid a second source.',
     ['models/sar.py', 'siggen/nonidealities.py'],
     [('rng or default_rng()', 'models/sar.py:sar_convert'), ('np.random.randn on the global stream', 'siggen/nonidealities.py:ADC_Signal_Generator.apply_thermal_noise')],
     SOUND)

prop('P05', 'Plotting off means matplotlib is untouched',
     'With its plotting option off and no axes supplied, an analysis function performs no matplotlib operation at all: no figure is created, selected, drawn on or closed, and no backend or rc setting changes. Functions without any plotting parameter never touch matplotlib.',
     ['inputs', 'configurations'], 'all inputs and all combinations of the other options',
     'Batch runs analyse thousands of captures; tests run under a non-interactive backend where a stray figure, a closed caller figure or a backend switch goes unnoticed.',
     ['aout/analyze_error_spectrum.py', 'aout/analyze_error_envelope_spectrum.py', 'spectrum/analyze_spectrum.py', 'dout/analyze_overflow.py'],
     [('plotting guarded by the flag', 'spectrum/analyze_spectrum.py:analyze_spectrum'), ('flag forwarded to the inner analysis', 'aout/analyze_error_spectrum.py:analyze_error_spectrum')],
     SOUND)

prop('P06', 'Presentation options never change results',
     'Every number and array returned by an analysis function is the same for all values of its presentation options: plotting on or off, supplied axes, titles, labels, verbosity, colours, axis scaling, smoothing and number of harmonics drawn. This holds for spectrum, error, linearity, decomposition, phase-plane, bit-level, calibration and noise-shaping analyses.',
     ['inputs', 'configurations'], 'all inputs and all presentation option values',
     'Tests run either with or without plots and never compare the two; a clip, scaling or in-place shift made for display that leaks into the returned array is only visible in that comparison, over the whole option space.',
     ['spectrum/analyze_spectrum.py', 'spectrum/sweep_performance_vs_osr.py', 'aout/analyze_error_pdf.py', 'dout/analyze_overflow.py'],
     [('compute first, plot from the results', 'spectrum/analyze_spectrum.py:analyze_spectrum')],
     SOUND + 'Noninterference is decided by data and control dependence, so two branches on a presentation flag that compute the same value separately would be reported.')

prop('P07', 'Supplied axes are the only thing drawn on',
     'When the caller supplies axes, the function draws only through them: it opens, selects, closes, saves or shows no figure, draws nothing on whatever happens to be the current axes, and leaves backend and rc settings alone.',
     ['inputs', 'configurations', 'histories'], 'all inputs, option values and states of the pyplot figure stack',
     'Tests draw one panel on one figure, where the current axes and the supplied axes coincide.',
     ['spectrum/plot_spectrum.py', 'aout/plot_decomposition_time.py', 'dout/analyze_bit_activity.py', 'aout/analyze_error_spectrum.py'],
     [('current axes used only if none supplied', 'spectrum/plot_spectrum.py:plot_spectrum')],
     SOUND)

prop('P08', 'Library calls are silent unless asked to talk',
     'With verbosity and label options off, no library function writes anything to standard output or standard error; functions without such an option never print. Diagnostics use exceptions or the warnings module.',
     ['inputs', 'configurations'], 'all inputs, including degenerate ones, and all other options',
     'Most prints sit on rare branches (collisions, non-convergence, rank deficiency), and tests seldom capture output.',
     ['spectrum/analyze_spectrum.py', 'dout/analyze_enob_sweep.py', 'fundamentals/fit_sine_4param.py', 'calibration/_estimate_frequencies.py'],
     [('prints guarded by verbose/show_label', 'fundamentals/fit_sine_4param.py:_fit_core')],
     SOUND)

LAWNOTE = ('Scenarios (function, unit of each argument, unit of each result) are listed in sa/checks/laws.py; within a scenario all values and all branches are covered. A law is '
           'reported only on a definite contradiction; leaves whose law cannot be derived are counted as undecided. Trusted: the law models of numpy/scipy operations. ')

prop('P09', 'Results do not depend on the unit the signal is expressed in',
     'If the record and every other argument in the same unit (full scale, limits, noise levels, amplitudes; likewise bit weights or capacitances) are multiplied by the same positive constant, returned levels are multiplied by it, returned powers by its square, and every ratio, dB figure, ENOB, frequency, phase, count, bin index and bit decision stays the same. This holds for spectrum metrics, sine fit, error analyses, static nonlinearity, converter and weight models, interleaving estimates and correction, the signal generator and the unit conversions. Only numerical floors at least 140 dB below the signal are excepted.',
     ['inputs', 'configurations'], 'all records, all positive scale factors, all listed options',
     'Every test record has an amplitude near one volt or one code; a fixed threshold, an unnormalised term or a missing power is invisible at that one scale.',
     ['spectrum/compute_spectrum.py', 'aout/fit_static_nonlin.py', 'aout/rearrange_error_by_phase.py', 'aout/decompose_harmonic_error.py', 'siggen/nonidealities.py', 'models/sar.py', 'timeinterleave/predict_spurs.py', 'dout/analyze_weight_radix.py'],
     [('normalisation to full scale', 'spectrum/_prepare_fft_input.py:_prepare_fft_input'), ('normalised polynomial fit', 'aout/fit_static_nonlin.py:fit_static_nonlin'),
      ('relative thresholds', 'aout/rearrange_error_by_phase.py:rearrange_error_by_phase')],
     LAWNOTE)

prop('P10', 'A constant added to the record only moves the levels',
     'Adding a constant to the record (and to every other argument that is a level: limits, ranges, generator offset, code_min) changes no metric, error, residual, gain, phase, frequency, count, histogram or bit decision. Returned levels (fitted signal, DC offset, bin centres, reconstructed signals, code axes) move by exactly that constant. For integer code records the constant is any integer.',
     ['inputs', 'configurations'], 'all records and all constants, all listed options',
     'Test records sit at one or two fixed DC levels, typically zero or mid scale, where a missing mean removal or an absolute value cancels.',
     ['spectrum/_prepare_fft_input.py', 'fundamentals/fit_sine_4param.py', 'aout/decompose_harmonic_error.py', 'aout/compute_inl_from_ramp.py', 'aout/compute_inl_from_sine.py', 'siggen/nonidealities.py', 'timeinterleave/extract_mismatch_sine.py'],
     [('mean removal', 'spectrum/_prepare_fft_input.py:_prepare_fft_input'), ('DC column in the fit', 'fundamentals/fit_sine_4param.py:_fit_core'), ('code histogram relative to code_min', 'aout/compute_inl_from_ramp.py:compute_inl_from_ramp')],
     LAWNOTE)

prop('P11', 'Results do not depend on the unit of frequency and time',
     'If the sampling rate and every other frequency are multiplied by a constant and every time (skew, delay, jitter, time constant) is divided by it, returned frequencies and times change by exactly that factor, noise spectral density per hertz falls by 10 dB per decade, and everything else stays the same. This holds for spectrum analysis, frequency estimation and planning, folding, interleaving, delays, figures of merit, unit conversions and the signal generator.',
     ['inputs', 'configurations'], 'all sampling rates, frequencies and times, all listed options',
     'Tests use fs = 1 or one fixed rate, where a forgotten or doubled fs factor has no effect or is absorbed in the expected value.',
     ['spectrum/compute_spectrum.py', 'fundamentals/frequency.py', 'fundamentals/units.py', 'fundamentals/snr_nsd.py', 'timeinterleave/extract_mismatch_sine.py', 'timeinterleave/fractional_delay.py', 'siggen/nonidealities.py'],
     [('frequency axis and NSD', 'spectrum/compute_spectrum.py:compute_spectrum'), ('sample times from fs', 'timeinterleave/extract_mismatch_sine.py:extract_mismatch_sine'), ('delay in samples', 'timeinterleave/fractional_delay.py:fractional_delay_farrow')],
     LAWNOTE)

RELNOTE = ('Relation programs in sa/contracts are analysed together with the current package source and both sides are compared as symbolic values. Library operations stay uninterpreted, so an '
           'equality that rests on a deeper numerical identity, or a difference that the analysis cannot show for generic inputs, is counted as undecided and not reported. Rounding error is not modelled. ')

prop('P12', 'Spectrum metrics of one result satisfy their defining relations',
     'In every spectrum result ENOB is (SNDR-1.76)/6.02, the noise floor in dBFS is the signal power minus the SNR, and the noise spectral density is the noise floor minus 10*log10(fs/(2*OSR)), for every window, noise method, full-scale setting, oversampling ratio, averaging mode and assumed signal power. The quick SNDR function reports the same SNDR and ENOB as the full analysis with equal settings, and a full scale given as limits or as half their distance gives equal figures.',
     ['inputs', 'configurations'], 'all records, sampling rates and settings of the spectrum functions',
     'Tests compare a handful of metrics with loose tolerances on a few sine records at default settings; an inconsistency that only appears with oversampling, another noise method or an assumed power stays inside the tolerance or is never computed.',
     ['spectrum/compute_spectrum.py', 'spectrum/quick_sndr.py', 'spectrum/analyze_spectrum.py', 'spectrum/_prepare_fft_input.py'],
     [('metric formulas', 'spectrum/compute_spectrum.py:compute_spectrum'), ('second implementation of SNDR', 'spectrum/quick_sndr.py:quick_sndr')],
     RELNOTE)

prop('P13', 'The parts an analysis reports add up to its record',
     'For every sine fit the fitted signal plus the residual is the record, the fitted signal is the cosine of exactly the reported amplitude, frequency, phase and offset, and the RMSE is the rms of the reported residual. Every error analysis reports the record minus the fitted sine as its error (in steps of full scale / 2^bits where it reports steps); harmonic decomposition satisfies fundamental + harmonics = reconstruction. INL is the running sum of the reported DNL before endpoint correction, reported extremes and ranges are those of the reported arrays, and a weight calibration satisfies signal = offset + reference + error.',
     ['inputs', 'configurations'], 'all records, bin numbers, resolutions, iteration counts and start frequencies',
     'Tests check single fields against a reference value for nearly ideal sines, where residuals are tiny; parts that stem from different iterations, a stale frequency or a wrong sign differ only for noisy records or unusual iteration counts.',
     ['fundamentals/fit_sine_4param.py', 'aout/decompose_harmonic_error.py', 'aout/rearrange_error_by_phase.py', 'aout/rearrange_error_by_value.py', 'aout/analyze_error_pdf.py', 'aout/compute_inl_from_ramp.py', 'aout/compute_inl_from_sine.py', 'calibration/calibrate_weight_sine.py'],
     [('final parameters and residual', 'fundamentals/fit_sine_4param.py:_fit_core'), ('INL from DNL', 'aout/compute_inl_from_ramp.py:compute_inl_from_ramp')],
     RELNOTE)

prop('P14', 'Conversions follow their formulas and invert each other',
     'dB, power, LSB, bin, dBm, ENOB and NSD conversions equal their textbook formulas for every argument (20*log10 for magnitudes, 10*log10 for powers, 6.02 dB per bit plus 1.76 dB, fs/2/OSR noise bandwidth) and each pair of opposite conversions is an exact inverse. The two NSD implementations agree in formula and defaults, the Walden and Schreier figures of merit and the thermal and jitter limits follow their definitions, and frequency estimates in hertz are the sampling rate times the normalised fit frequency. The amplitude for a target level scales with the level difference in dB, and the weights and total capacitance of a capacitor array follow from its circuit, with parasitics and with or without a bridge.',
     ['inputs', 'configurations'], 'all argument values, loads, full scales, resolutions, sampling rates and oversampling ratios',
     'Tests evaluate each conversion at a few round numbers, mostly with default options where a wrong option (load, OSR, signal power) drops out.',
     ['fundamentals/units.py', 'fundamentals/snr_nsd.py', 'fundamentals/metrics.py', 'fundamentals/frequency.py', 'fundamentals/convert_cap_to_weight.py', 'utils/vpp_for_target_dbfs.py'],
     [('NSD conversion', 'fundamentals/snr_nsd.py:snr_to_nsd'), ('dBm conversion', 'fundamentals/units.py:vrms_to_dbm')],
     RELNOTE)

prop('P15', 'Generator and models follow their formulas; neutral settings do nothing',
     'The clean signal is offset + amplitude*sin(2*pi*fin*k/fs), and polynomial nonlinearity, harmonic levels, quantisation, noise shaping of order 1 to 5, coarse and residue gain error, amplitude tone, reference droop and percentile clipping equal their documented formulas for every parameter; without an input signal each effect acts on the clean signal. An effect with zero strength returns its input unchanged, splitting into channels and merging is the identity, and interleaving correction is (x-offset)/gain per channel with neutral parameters changing nothing. SAR reconstruction is low + (high-low) * weighted bit sum, zero mismatch leaves weights unchanged and zero noise leaves the conversion unchanged.',
     ['inputs', 'configurations'], 'all signals, parameters and channel counts',
     'Tests look at spectra of generated signals with tolerances of a decibel or at one parameter value; a swapped coefficient, a wrong exponent or an effect that is not exactly neutral at zero stays below that.',
     ['siggen/nonidealities.py', 'models/sar.py', 'timeinterleave/deinterleave.py', 'timeinterleave/calibrate_foreground.py'],
     [('effect formulas', 'siggen/nonidealities.py:ADC_Signal_Generator'), ('reconstruction', 'models/sar.py:sar_reconstruct'), ('correction', 'timeinterleave/calibrate_foreground.py:calibrate_foreground')],
     RELNOTE)

prop('P17', 'Wrappers and legacy names return what they stand for',
     'Every analysis wrapper and legacy function returns exactly the numbers of the function it wraps, called with the same settings: options keep their meaning under their old names, old result keys and tuple positions carry the value they name, and nothing is dropped, swapped or altered on the way. This covers the spectrum, error, decomposition, linearity, calibration, bit-level, oversampling and common-name wrappers.',
     ['inputs', 'configurations'], 'all records and all option values the wrapper accepts',
     'Wrappers are tested for running and returning the right keys with default options; an option that is not forwarded or a result read from the wrong key gives a plausible number.',
     ['aout/__init__.py', 'dout/__init__.py', 'common.py', 'spectrum/analyze_spectrum.py', 'spectrum/analyze_spectrum_polar.py', 'aout/analyze_decomposition_polar.py', 'aout/analyze_error_by_phase.py', 'oversampling/perfosr.py'],
     [('legacy option and key maps', 'aout/__init__.py:analyze_spectrum'), ('legacy tuple', 'aout/__init__.py:plot_error_pdf')],
     RELNOTE)

prop('P16', 'No public call runs into an internal error',
     'Whatever combination of documented options a public function, method or command is called with, the code it reaches refers only to modules, names, attributes and library functions that exist, calls functions with arguments they accept, and reads variables, result entries and optional values only where they have been set. A call may be refused with a deliberate exception, but it does not break with an import, name, attribute or argument error of its own making.',
     ['inputs', 'configurations'], 'all public functions with arbitrary arguments, every flag flipped, every optional argument given or omitted, every documented choice of a text option',
     'Tests run a few option combinations; a wrong name or a variable that is unset on one branch stays invisible until somebody takes that branch, and Python reports it only then.',
     ['oversampling/perfosr.py', 'spectrum/sweep_performance_vs_osr.py', 'fundamentals/units.py', 'toolset/generate_aout_dashboard.py', 'skill_cli.py'],
     [('axes that exist only for an own figure', 'spectrum/sweep_performance_vs_osr.py:sweep_performance_vs_osr')],
     'Name resolution, call binding and library names over all modules, plus abstract interpretation of every public entry under each option scenario; only errors that occur on every continuation of a reachable path are reported.')

prop('P18', 'Every result carries its documented entries, whatever the data',
     'The set of entries of a result (dictionary keys, tuple length) depends only on the options of the call, never on the values in the record. All entries the function has today are present for every option setting for which they are present today.',
     ['inputs', 'configurations'], 'all records and each option varied from its default',
     'Tests read the entries they need for well-behaved records; an entry that is missing for a clipped, constant or noiseless record, or only with one option, surfaces as a KeyError in the code of the user.',
     ['aout/analyze_error_pdf.py', 'aout/compute_inl_from_ramp.py', 'spectrum/compute_spectrum.py', 'calibration/calibrate_weight_sine.py', 'fundamentals/fit_sine_4param.py'],
     [('result dictionary', 'aout/compute_inl_from_ramp.py:compute_inl_from_ramp'), ('optional fit entry', 'aout/analyze_error_pdf.py:analyze_error_pdf')],
     'Must-presence of keys in the abstract heap object that is returned, per option scenario; reference list of entries in sa/contracts/fields.json.')

prop('P19', 'Shipped examples and guides match the library',
     'Every example script installed with the package and every Python block of the README files and the bundled user guide uses only functions, options, result entries and tuple positions that the library provides. None of them ends in an import, name, argument, key or unpacking error.',
     ['programs', 'configurations'], 'all shipped example scripts and all Python blocks of the READMEs and the bundled user guide',
     'Only a few examples are run by tests; renaming an option or an entry breaks the others without any failing test.',
     ['siggen/nonidealities.py', 'spectrum/analyze_spectrum_polar.py', 'spectrum/analyze_spectrum.py', 'toolset/generate_aout_dashboard.py'],
     [('option names used by examples', 'siggen/nonidealities.py:ADC_Signal_Generator'), ('radial range option', 'spectrum/analyze_spectrum_polar.py:analyze_spectrum_polar')],
     'The scripts are parsed and interpreted abstractly together with the package; nothing is executed.')

prop('P20', 'Invalid settings are refused with a ValueError, valid ones accepted',
     'A setting outside its documented domain (oversampling ratio or bin, bit, tap or channel count not positive, unknown mode name or noise method, reversed, empty or infinite range, band or frequency above half the sampling rate, mismatch below zero, arrays of unequal length or wrong number of dimensions, missing input frequency) is refused with a ValueError for every record, and no result is returned. The settings at the edge of the domain are accepted.',
     ['inputs', 'configurations'], 'all records; the invalid and edge settings listed in sa/contracts/reject.py',
     'Tests try one invalid value for some of the options, and few edge values; a comparison that is off by one or a guard that is skipped on one path goes unnoticed.',
     ['models/sar.py', 'oversampling/perfosr.py', 'spectrum/_bin_ranges.py', 'timeinterleave/fractional_delay.py', 'timeinterleave/predict_spurs.py', 'timeinterleave/deinterleave.py', 'aout/compute_inl_from_ramp.py', 'aout/rearrange_error_by_value.py'],
     [('range check', 'models/sar.py:_parse_quant_range'), ('tap count check', 'timeinterleave/fractional_delay.py:fractional_delay_farrow')],
     'Constant propagation with the setting fixed and everything else arbitrary; the same call with valid settings tells checks of the setting from checks of the data.')

prop('P21', 'Every option takes effect on the results it governs',
     'Each argument of an analysis, calibration, model, conversion, interleaving or generator function influences every result it governs, whatever the other options are set to: it is not ignored, overwritten, dropped on the way to the function that uses it or silently replaced by its default. Titles, labels, axes, smoothing, harmonic counts and the other drawing options influence what is drawn. Only the sampling rate of the phase-plane analyses and of the quick SNDR is accepted without effect.',
     ['inputs', 'configurations'], 'all records; each argument varied with all other options at their defaults and with each other option changed',
     'A test that sets an option usually checks that the call succeeds or that one figure is plausible; with one option combination per test, an option that is ignored in combination with another is not noticed.',
     ['spectrum/compute_spectrum.py', 'timeinterleave/calibrate_foreground.py', 'aout/analyze_phase_plane.py', 'aout/compute_inl_from_sine.py', 'calibration/calibrate_weight_sine.py', 'toolset/generate_aout_dashboard_3x4.py'],
     [('lag selection', 'aout/analyze_phase_plane.py:analyze_phase_plane'), ('tap count hand-over', 'timeinterleave/calibrate_foreground.py:calibrate_foreground')],
     'Dependence analysis (data and control flow): absence of a dependence proves that the option is ignored. Table of effects in sa/contracts/live.json, one row per option and setting of another option.')

prop('P22', 'Results do not depend on the integer type that holds the record',
     'A record of codes, samples or bits gives the same results whether its values are held in 8-, 16-, 32- or 64-bit, signed or unsigned integers (bits also as truth values); the same whole numbers held as floats agree too, except where integer data selects a documented meaning. No difference, range, sum, product or power of such a record wraps around, no computed value is cut to a whole number or rounded to a shorter float, and no conversion raises because of the type.',
     ['inputs', 'configurations'], 'all records, code sequences and bit matrices of whole numbers; each option at its alternatives',
     'Nearly every test feeds double-precision records or 64-bit integers; raw instrument data is int8/int16/uint16, where the same expressions overflow silently.',
     ['spectrum/_prepare_fft_input.py', 'aout/analyze_error_pdf.py', 'aout/compute_inl_from_sine.py', 'aout/compute_inl_from_ramp.py', 'fundamentals/fit_sine_4param.py', 'dout/analyze_overflow.py', 'calibration/_patch_rank_deficiency.py', 'siggen/nonidealities.py'],
     [('code conversion', 'aout/compute_inl_from_ramp.py:_coerce_integer_codes'), ('fit core', 'fundamentals/fit_sine_4param.py:_fit_core')],
     'Abstract interpretation with number types: numpy promotion of an integer type of unknown width; arithmetic that stays in it and may leave its range labels every result computed from it.')


prop('P23', 'Returned arrays have the lengths their documentation gives',
     'Every array a call returns has the length its description fixes: one entry per input sample for fitted, residual, error, delayed, filtered and generated records, one entry per requested bin, lag, harmonic, ratio, bit, weight or channel, half the record plus one for one-sided spectra, and one more transition than codes. This holds for even and odd record lengths and whatever values the record holds, so that arrays documented as belonging together can be indexed together.',
     ['inputs', 'configurations'], 'all records, codes and bit matrices of any length (even and odd); all bin, lag, harmonic, bit and channel counts',
     'Tests use a few even, power-of-two lengths and records that fill every bin; a length that is right there can be one short for odd lengths or empty trailing bins.',
     ['aout/rearrange_error_by_phase.py', 'aout/rearrange_error_by_value.py', 'aout/analyze_error_autocorr.py', 'aout/compute_inl_from_ramp.py', 'aout/decompose_harmonic_error.py', 'timeinterleave/fractional_delay.py', 'spectrum/extract_freq_components.py', 'siggen/nonidealities.py'],
     [('binning', 'aout/rearrange_error_by_phase.py:rearrange_error_by_phase'), ('one-sided spectrum', 'spectrum/compute_spectrum.py:compute_spectrum')],
     'Value numbers of returned arrays give their extents as expressions of the input lengths; two extents are compared as expressions.')

prop('P24', 'Files appear only where asked and nothing is destroyed unasked',
     'Installing skills or copying examples never removes, overwrites or merges into anything already present at the target (file, directory, link or dangling link) unless replacing was asked for, and reports it instead; with permission exactly the target itself, never what a link points to, is replaced by the requested copy or link from the package. Unknown names and a missing destination are refused before anything is changed, and listing or status calls change nothing and report what is there. A dashboard is saved exactly at the given output path and nowhere without one, and no other public call writes or removes files.',
     ['configurations', 'inputs', 'histories'], 'every state of the target (nothing, directory, file, link, dangling link) with every permission, mode and choice of skills; all other public calls with any arguments',
     'The tests install into empty directories and over one plain directory; what happens to links, files and dangling links, or to a destination shared with other data, needs the combination of state and permission, and a mistake destroys user data.',
     ['skill_cli.py', 'cli.py', 'toolset/generate_aout_dashboard.py', 'toolset/generate_dout_dashboard.py', 'toolset/generate_aout_dashboard_3x4.py'],
     [('installation', 'skill_cli.py:install_bundled_skills'), ('status', 'skill_cli.py:skill_status'), ('copy of the examples', 'cli.py:copy_examples')],
     'The file operations of each call are interpreted in a model of the file system, one scenario per state of the target and permission.')
