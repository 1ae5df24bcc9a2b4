From bd4fccf75a580fa2a1c8a2d945281d2bfc47f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 01/20] fix: leave figures and backend alone in error spectrum
 analysis when plotting is off

With create_plot=False the functions switched the matplotlib backend, drew on
the caller's current axes and then closed the caller's current figure. Use
create_plot=False of analyze_spectrum instead, and draw on the given axes.
---
 .../aout/analyze_error_envelope_spectrum.py   | 28 ++++++-------------
 .../adctoolbox/aout/analyze_error_spectrum.py | 28 ++++++-------------
 2 files changed, 18 insertions(+), 38 deletions(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
index f60e6fb..394df6e 100644
--- a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
@@ -85,29 +85,19 @@ def analyze_error_envelope_spectrum(signal, fs=1, frequency=None, create_plot: b
     env = np.abs(hilbert(e))
 
     # Analyze envelope spectrum
-    if create_plot:
-        # Use provided axes or set current axes
-        if ax is not None:
-            plt.sca(ax)
+    if create_plot and ax is None:
+        ax = plt.gca()
+    result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5,
+                              create_plot=create_plot, ax=ax)
 
-        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5)
-        plt.xlabel("Frequency (Hz)")
-        plt.ylabel("Envelope Spectrum (dB)")
-        plt.grid(True, alpha=0.3)
+    if create_plot:
+        ax.set_xlabel("Frequency (Hz)")
+        ax.set_ylabel("Envelope Spectrum (dB)")
+        ax.grid(True, alpha=0.3)
 
         # Set title if provided
         if title is not None:
-            plt.gca().set_title(title, fontsize=10, fontweight='bold')
-    else:
-        # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+            ax.set_title(title, fontsize=10, fontweight='bold')
 
     # Add error signal and envelope to result
     result['error_signal'] = error_signal
diff --git a/python/src/adctoolbox/aout/analyze_error_spectrum.py b/python/src/adctoolbox/aout/analyze_error_spectrum.py
index 81819f5..5758f0e 100644
--- a/python/src/adctoolbox/aout/analyze_error_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_spectrum.py
@@ -74,29 +74,19 @@ def analyze_error_spectrum(signal, fs=1, frequency=None, create_plot: bool = Tru
     error_signal = signal - sig_ideal
 
     # Analyze error spectrum directly (not envelope)
-    if create_plot:
-        # Use provided axes or set current axes
-        if ax is not None:
-            plt.sca(ax)
+    if create_plot and ax is None:
+        ax = plt.gca()
+    result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5,
+                              create_plot=create_plot, ax=ax)
 
-        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5)
-        plt.xlabel("Frequency (Hz)")
-        plt.ylabel("Error Spectrum (dB)")
-        plt.grid(True, alpha=0.3)
+    if create_plot:
+        ax.set_xlabel("Frequency (Hz)")
+        ax.set_ylabel("Error Spectrum (dB)")
+        ax.grid(True, alpha=0.3)
 
         # Set title if provided
         if title is not None:
-            plt.gca().set_title(title, fontsize=10, fontweight='bold')
-    else:
-        # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+            ax.set_title(title, fontsize=10, fontweight='bold')
 
     # Add error signal to results
     result['error_signal'] = error_signal
-- 
2.43.0


From 32482a0ebf950890c5e88e8e3d9836c9ec31dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 02/20] fix: return a private OSR array from
 sweep_performance_vs_osr

The result used to hold the caller's own array, so changing one changed the other.
---
 python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py b/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
index 96ea5b3..24b7965 100644
--- a/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
+++ b/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
@@ -58,7 +58,7 @@ def sweep_performance_vs_osr(
         n_bins = rfft_inband_bin_count(n, osr=1) - 1
         osr = (n / 2) / np.arange(n_bins, 0, -1)
 
-    osr = np.asarray(osr, dtype=float)
+    osr = np.array(osr, dtype=float)
 
     # Step 1: Sine fit to separate ideal signal from error
     fit_result = fit_sine_4param(data)
-- 
2.43.0


From 3e2fe597f1b414172ebd214de3b005b08202a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 03/20] fix: copy caller supplied frequency array in weight
 calibration

refined_frequency could be the very array passed in as freq.
---
 python/src/adctoolbox/calibration/_estimate_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/calibration/_estimate_frequencies.py b/python/src/adctoolbox/calibration/_estimate_frequencies.py
index 707f686..3573032 100644
--- a/python/src/adctoolbox/calibration/_estimate_frequencies.py
+++ b/python/src/adctoolbox/calibration/_estimate_frequencies.py
@@ -34,7 +34,7 @@ def _estimate_frequencies(
         if np.isscalar(freq_init):
             return np.full(num_datasets, float(freq_init))
         
-        freq_array = np.asarray(freq_init, dtype=float)
+        freq_array = np.array(freq_init, dtype=float)
         if len(freq_array) != num_datasets:
             raise ValueError(
                 f"Frequency array length ({len(freq_array)}) must match "
-- 
2.43.0


From ee80916d362c6dc0a5d8563fdbad2cd1a00bdb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:03 +0000
Subject: [PATCH 04/20] fix: keep analyze_enob_sweep silent unless verbose

The per-bit spectrum call printed the harmonic collision notice even with verbose=False.
---
 python/src/adctoolbox/dout/analyze_enob_sweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/dout/analyze_enob_sweep.py b/python/src/adctoolbox/dout/analyze_enob_sweep.py
index c694814..57c4cd1 100644
--- a/python/src/adctoolbox/dout/analyze_enob_sweep.py
+++ b/python/src/adctoolbox/dout/analyze_enob_sweep.py
@@ -80,7 +80,8 @@ def analyze_enob_sweep(
         calibrated_signal = bits_subset @ weights_subset
 
         spectrum_result = analyze_spectrum(
-            calibrated_signal, osr=osr, win_type=win_type, create_plot=False
+            calibrated_signal, osr=osr, win_type=win_type, create_plot=False,
+            show_label=bool(verbose)
         )
         enob_sweep[n_bits - 1] = spectrum_result['enob']
 
-- 
2.43.0


From fc204493e1aeb8a7c750aa53d3f6dbbb802301fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:42 +0000
Subject: [PATCH 05/20] fix: make the error-by-phase R-squared independent of
 the signal's unit

The quality figures compared a sum of fourth powers of volts with a fixed
1e-20, so a millivolt record reported 0 where the same record in volts
reported the real value.
---
 python/src/adctoolbox/aout/_fit_error_phase.py         | 2 +-
 python/src/adctoolbox/aout/rearrange_error_by_phase.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/aout/_fit_error_phase.py b/python/src/adctoolbox/aout/_fit_error_phase.py
index 346610a..f5534e0 100644
--- a/python/src/adctoolbox/aout/_fit_error_phase.py
+++ b/python/src/adctoolbox/aout/_fit_error_phase.py
@@ -69,7 +69,7 @@ def _fit_error_phase(
     y_pred = X @ coeffs
     ss_res = np.sum((y - y_pred) ** 2)
     ss_tot = np.sum((y - np.mean(y)) ** 2)
-    r_squared = 1.0 - ss_res / ss_tot if ss_tot > 1e-20 else 0.0
+    r_squared = 1.0 - ss_res / ss_tot if ss_tot > 0 else 0.0
 
     return {
         "am_v": float(np.sqrt(am_variance_v2)),
diff --git a/python/src/adctoolbox/aout/rearrange_error_by_phase.py b/python/src/adctoolbox/aout/rearrange_error_by_phase.py
index e6f69da..86cec71 100644
--- a/python/src/adctoolbox/aout/rearrange_error_by_phase.py
+++ b/python/src/adctoolbox/aout/rearrange_error_by_phase.py
@@ -177,7 +177,7 @@ def rearrange_error_by_phase(
 
         # For flat data (base_noise-dominated), use normalized RMSE instead
         mean_actual = np.mean(rms_sq_actual)
-        if ss_tot > 1e-20 and ss_tot > 0.01 * mean_actual ** 2 * len(rms_sq_actual):
+        if ss_tot > 0.01 * mean_actual ** 2 * len(rms_sq_actual):
             r_squared_binned = 1.0 - ss_res / ss_tot
         else:
             relative_rmse = np.sqrt(ss_res / len(rms_sq_actual)) / mean_actual if mean_actual > 1e-20 else 1.0
-- 
2.43.0


From 6247b081f1208f95b024109f39a4b3d4c3aaf71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:09 +0000
Subject: [PATCH 06/20] fix: fold fractional bins of odd-length transforms at
 n/2

---
 python/src/adctoolbox/fundamentals/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/frequency.py b/python/src/adctoolbox/fundamentals/frequency.py
index ddabead..7b5cf87 100644
--- a/python/src/adctoolbox/fundamentals/frequency.py
+++ b/python/src/adctoolbox/fundamentals/frequency.py
@@ -162,7 +162,7 @@ def fold_bin_to_nyquist(bin_idx: float, n_fft: int) -> float:
     bin_idx = bin_idx % n_fft
 
     # For real signals, bins > n_fft/2 are mirrored
-    if bin_idx > n_fft // 2:
+    if bin_idx > n_fft / 2:
         bin_idx = n_fft - bin_idx
 
     return bin_idx
-- 
2.43.0


From f0431da423fff6a9434d492dd50a7e965dcd0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:09 +0000
Subject: [PATCH 07/20] fix: return the sample values from plot_error_hist_code

---
 python/src/adctoolbox/aout/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/__init__.py b/python/src/adctoolbox/aout/__init__.py
index 843267c..7dc39be 100644
--- a/python/src/adctoolbox/aout/__init__.py
+++ b/python/src/adctoolbox/aout/__init__.py
@@ -160,7 +160,7 @@ def plot_error_hist_code(signal, bins=100, freq=None, disp=1, **kwargs):
         result.get('error_rms'),
         result.get('bin_centers'),
         result.get('error'),
-        result.get('value'),
+        result['fitted_signal'] + result['error'],
     )
 
 # ----------------------------------------------------------------------
-- 
2.43.0


From 1107ade8bf9bd13e05235fabbe1a6a00591770da Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 04:25:31 +0000
Subject: [PATCH 08/20] fix: import db_to_mag from its actual module in the
 target Vpp calculator

---
 python/src/adctoolbox/utils/vpp_for_target_dbfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
index 6ffade7..83dabe8 100644
--- a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
+++ b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
@@ -5,7 +5,7 @@ Calculates the required input amplitude (Vpp) to achieve a specific target
 signal level (dBFS). Useful for automated instrument control loops.
 """
 
-from adctoolbox.common.unit_conversions import db_to_mag
+from adctoolbox.fundamentals.units import db_to_mag
 
 def vpp_for_target_dbfs(vpp_current: float, signal_db_measured: float, signal_db_target: float = -0.5) -> float:
     """
-- 
2.43.0


From d729080f4f83588e6dde39c8150f1dc8b51e9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:20 +0000
Subject: [PATCH 09/20] fix: raise the documented ValueError when predict_spurs
 has no input frequency

---
 python/src/adctoolbox/timeinterleave/predict_spurs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/timeinterleave/predict_spurs.py b/python/src/adctoolbox/timeinterleave/predict_spurs.py
index 5138499..71ef9ad 100644
--- a/python/src/adctoolbox/timeinterleave/predict_spurs.py
+++ b/python/src/adctoolbox/timeinterleave/predict_spurs.py
@@ -60,9 +60,10 @@ def predict_spurs(
     A_in = float(params.get("A", 1.0))
 
     if fin is None:
-        fin = float(params.get("fin"))
+        fin = params.get("fin")
         if fin is None:
             raise ValueError("fin must be provided via argument or params['fin']")
+        fin = float(fin)
 
     M = gain.size
     if not (offset.size == M and skew.size == M):
-- 
2.43.0


From a2f3f973f3c59d99d3c8e3385770cee4fa7f2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:18 +0000
Subject: [PATCH 10/20] fix: reject an unknown skew_method even when no channel
 needs a skew correction

---
 .../adctoolbox/timeinterleave/calibrate_foreground.py  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/adctoolbox/timeinterleave/calibrate_foreground.py b/python/src/adctoolbox/timeinterleave/calibrate_foreground.py
index 07ff1d4..459a310 100644
--- a/python/src/adctoolbox/timeinterleave/calibrate_foreground.py
+++ b/python/src/adctoolbox/timeinterleave/calibrate_foreground.py
@@ -73,6 +73,10 @@ def calibrate_foreground(
             f"params offset/gain/skew must each have length M={M}, "
             f"got {offset.size} / {gain.size} / {skew.size}"
         )
+    if skew_method not in ("fft", "farrow"):
+        raise ValueError(
+            f"skew_method must be 'fft' or 'farrow', got {skew_method!r}"
+        )
 
     # 1. Offset (additive) — subtract per-channel DC
     # 2. Gain (multiplicative) — divide by per-channel relative gain
@@ -88,13 +92,9 @@ def calibrate_foreground(
             continue
         if skew_method == "fft":
             channels[m] = fractional_delay_fft(channels[m], skew[m], fs_ch)
-        elif skew_method == "farrow":
+        else:
             channels[m] = fractional_delay_farrow(
                 channels[m], skew[m], fs_ch, n_taps=n_taps
             )
-        else:
-            raise ValueError(
-                f"skew_method must be 'fft' or 'farrow', got {skew_method!r}"
-            )
 
     return interleave(channels)
-- 
2.43.0


From 48c948edc6e18e4ac31f28b7530e86cf36d34609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:42 +0000
Subject: [PATCH 11/20] fix: honour the show option of the 3x4 dashboard

---
 .../src/adctoolbox/toolset/generate_aout_dashboard_3x4.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/toolset/generate_aout_dashboard_3x4.py b/python/src/adctoolbox/toolset/generate_aout_dashboard_3x4.py
index 367c428..981d13c 100644
--- a/python/src/adctoolbox/toolset/generate_aout_dashboard_3x4.py
+++ b/python/src/adctoolbox/toolset/generate_aout_dashboard_3x4.py
@@ -132,6 +132,10 @@ def generate_aout_dashboard(signal, fs=1.0, freq=None, output_path=None, resolut
         output_path.parent.mkdir(parents=True, exist_ok=True)
         fig.savefig(output_path, dpi=150, bbox_inches='tight')
         print(f"[Dashboard saved] -> {output_path}")
-        plt.close(fig)
+        if not show:
+            plt.close(fig)
+
+    if show:
+        plt.show()
 
     return fig, axes
-- 
2.43.0


From 13345880649ef7bf4d3eafb063e712a7af2a8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:43 +0000
Subject: [PATCH 12/20] fix: full scale of integer records in spectrum analysis

The range of the record was computed in the integer type of the record, so a
full-scale int8 or int16 record wrapped around and the dBFS levels were wrong.
---
 python/src/adctoolbox/spectrum/_prepare_fft_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/_prepare_fft_input.py b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
index 1d1677b..ee1b9c7 100644
--- a/python/src/adctoolbox/spectrum/_prepare_fft_input.py
+++ b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
@@ -44,7 +44,7 @@ def _prepare_fft_input(
 
     # Determine peak amplitude for normalization
     if max_scale_range is None:
-        peak_amplitude = (np.max(data) - np.min(data)) / 2
+        peak_amplitude = (float(np.max(data)) - float(np.min(data))) / 2
     elif isinstance(max_scale_range, (list, tuple)):
         if len(max_scale_range) != 2:
             raise ValueError(f"Range tuple/list must have 2 elements, got {len(max_scale_range)}")
-- 
2.43.0


From c5b13dd0ca347de5955478314b3d19e017764272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:43 +0000
Subject: [PATCH 13/20] fix: inferred full scale of integer records in the
 error PDF

The range wrapped around for full-scale int8 and int16 records.
---
 python/src/adctoolbox/aout/analyze_error_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_pdf.py b/python/src/adctoolbox/aout/analyze_error_pdf.py
index ae123bf..4c00dff 100644
--- a/python/src/adctoolbox/aout/analyze_error_pdf.py
+++ b/python/src/adctoolbox/aout/analyze_error_pdf.py
@@ -74,7 +74,7 @@ def analyze_error_pdf(signal, resolution=12, full_scale=None, frequency=None, cr
 
     # Infer full_scale from signal if not provided
     if full_scale is None:
-        full_scale = np.max(signal) - np.min(signal)
+        full_scale = float(np.max(signal)) - float(np.min(signal))
 
     # Convert error to LSB units
     lsb = full_scale / (2**resolution)
-- 
2.43.0


From e2d3ca4ca992982a4d5a837e8abc363ba9c25134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:44 +0000
Subject: [PATCH 14/20] fix: INL of full-scale narrow integer codes

The code span wrapped around in the type of the codes and the call failed with
a NaN conversion error.
---
 python/src/adctoolbox/aout/compute_inl_from_sine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/compute_inl_from_sine.py b/python/src/adctoolbox/aout/compute_inl_from_sine.py
index 6eeca89..e09f252 100644
--- a/python/src/adctoolbox/aout/compute_inl_from_sine.py
+++ b/python/src/adctoolbox/aout/compute_inl_from_sine.py
@@ -39,7 +39,7 @@ def compute_inl_from_sine(
 
     data_min = np.min(data)
     data_max = np.max(data)
-    span = data_max - data_min
+    span = float(data_max) - float(data_min)
 
     # --- 1. Auto-Detect Mode (Voltage vs Code) ---
     # Default assumption: It's codes unless proven otherwise
-- 
2.43.0


From 40d6ecf763d0c54f730668107347b4f4c04baae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:44 +0000
Subject: [PATCH 15/20] fix: range inference of integer records

The magnitude of the most negative code wrapped around, so a record from -128
to 0 held as int8 was taken for a voltage.
---
 python/src/adctoolbox/aout/_infer_signal_range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/aout/_infer_signal_range.py b/python/src/adctoolbox/aout/_infer_signal_range.py
index 0437970..cc34952 100644
--- a/python/src/adctoolbox/aout/_infer_signal_range.py
+++ b/python/src/adctoolbox/aout/_infer_signal_range.py
@@ -15,8 +15,8 @@ def _infer_signal_range(
         return full_scale_range
 
     # 2. Analyze signal stats
-    s_min = np.min(signal)
-    s_max = np.max(signal)
+    s_min = float(np.min(signal))
+    s_max = float(np.max(signal))
     # Check peak-to-peak to handle signed integers correctly
     abs_max = np.max(np.abs([s_min, s_max]))
     mean_val = np.mean(signal)
-- 
2.43.0


From c3d1dae83d91048a9cf4a336963c942e712b9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:44 +0000
Subject: [PATCH 16/20] fix: unit detection of integer records in the error
 phase plane

The magnitude of the most negative code wrapped around in the type of the record.
---
 python/src/adctoolbox/aout/analyze_error_phase_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_phase_plane.py b/python/src/adctoolbox/aout/analyze_error_phase_plane.py
index 455b2cc..353de16 100644
--- a/python/src/adctoolbox/aout/analyze_error_phase_plane.py
+++ b/python/src/adctoolbox/aout/analyze_error_phase_plane.py
@@ -59,7 +59,7 @@ def analyze_error_phase_plane(data, fs=1.0, ax=None, title=None, create_plot: bo
     - Sharp breaks at edges: Clipping
     - Thick scatter: High noise (poor SNR)
     """
-    data = np.asarray(data).flatten()
+    data = np.asarray(data, dtype=float).flatten()
     N = len(data)
 
     # --- 1. Resolve display units and scale factor ---
-- 
2.43.0


From af3529bd1a050deb1751d2bd3fb48c4fcdecb05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:44 +0000
Subject: [PATCH 17/20] fix: axis limits of full-scale integer records in the
 decomposition plot

The displayed range wrapped around in the type of the record.
---
 python/src/adctoolbox/aout/plot_decomposition_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/plot_decomposition_time.py b/python/src/adctoolbox/aout/plot_decomposition_time.py
index 47a84fd..2e01baf 100644
--- a/python/src/adctoolbox/aout/plot_decomposition_time.py
+++ b/python/src/adctoolbox/aout/plot_decomposition_time.py
@@ -131,7 +131,7 @@ def plot_decomposition_time(
     ax1.set_xlim([xlim_start + 1, xlim_end])
 
     # Set Y-axis limits with 10% margin
-    signal_min, signal_max = np.min(signal_display), np.max(signal_display)
+    signal_min, signal_max = float(np.min(signal_display)), float(np.max(signal_display))
     signal_range = signal_max - signal_min
     margin = signal_range * 0.1 if signal_range != 0 else 0.1
     ax1.set_ylim([signal_min - margin, signal_max + margin])
-- 
2.43.0


From c2937b7551ad7e9bb7a8f5f4ae81e2e5a7485b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:44 +0000
Subject: [PATCH 18/20] fix: accept boolean bits when calibration patches a
 rank deficiency

The dead-bit test subtracted truth values, which NumPy refuses.
---
 python/src/adctoolbox/calibration/_patch_rank_deficiency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/calibration/_patch_rank_deficiency.py b/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
index ede1baf..63c6fdd 100644
--- a/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
+++ b/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
@@ -59,7 +59,7 @@ def _patch_rank_deficiency(
 
         # Case A: Constant column = dead bit, drop it
         # bit_to_col_map stays -1, bit_weight_ratios stays 0, eff_col_to_bit unchanged
-        if np.ptp(col) < 1e-15:
+        if float(np.max(col)) - float(np.min(col)) < 1e-15:
             if verbose >= 1:
                 print(f"[DEBUG] Bit [{bit_idx}] is constant (dead bit). Dropping this column.")
             continue
-- 
2.43.0


From 2374a6bce947cd55a4865714f028cd1260e522e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:44 +0000
Subject: [PATCH 19/20] fix: memory effect of integer input signals

The coarse stage was scaled in the integer type of the input and wrapped around.
---
 python/src/adctoolbox/siggen/nonidealities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/siggen/nonidealities.py b/python/src/adctoolbox/siggen/nonidealities.py
index 8c75726..3a49cfc 100644
--- a/python/src/adctoolbox/siggen/nonidealities.py
+++ b/python/src/adctoolbox/siggen/nonidealities.py
@@ -140,7 +140,7 @@ class ADC_Signal_Generator:
         Params: input_signal, memory_strength (default 0.009)."""
         signal = self._resolve_signal(input_signal)
         # Quantize into MSB (4-bit coarse) and LSB (12-bit fine) stages
-        msb = np.floor(signal * 2**4) / 2**4
+        msb = np.floor(signal * 2.0**4) / 2**4
         lsb = np.floor((signal - msb) * 2**12) / 2**12
 
         # Apply memory effect from previous MSB
-- 
2.43.0


From 464c5303aa76cca6c2e7b93bb805dfd116828075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:12:26 +0000
Subject: [PATCH 20/20] fix: measure the range of a validated record as a float

The peak-to-peak range of a narrow integer record wrapped around, so a
full-swing int8 record was reported as an extremely weak signal.
---
 python/src/adctoolbox/fundamentals/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/validate.py b/python/src/adctoolbox/fundamentals/validate.py
index cdac8cb..4599237 100644
--- a/python/src/adctoolbox/fundamentals/validate.py
+++ b/python/src/adctoolbox/fundamentals/validate.py
@@ -58,7 +58,7 @@ def validate_aout_data(aout_data, min_samples=100):
         raise ValueError(f"Insufficient analog samples ({n_samples}), need at least {min_samples}.")
 
     # Step 3: Physics/Signal Checks
-    data_range = np.ptp(data) # Peak-to-peak (max - min)
+    data_range = float(np.max(data)) - float(np.min(data)) # Peak-to-peak (max - min)
     
     if data_range == 0:
         raise ValueError("Analog data is constant (flatline). Check connections.")
-- 
2.43.0

