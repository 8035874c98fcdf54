From 1d73823c2d2703715e109a577d25b4b05af75733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 01/92] fix: read the systematic uncertainty of a structured
 covariate from the first match-up

It was read from the second, so a match-up file with a single match-up could not be opened.
---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index a2ee994..32e633c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -377,7 +377,7 @@ class MatchUpReader:
                         u_matrices[u_matrix_idx] = self._open_u_matrix(dataset, u_j)
 
                         unc[block_idx] = Uncertainty(4, (w_matrix_idx, u_matrix_idx,
-                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][1, i_cov]))
+                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][0, i_cov]))
 
         # Determine separate instances of systematic errors
         sys_indices = []
-- 
2.43.0


From dc1a3c0634c8105510698c70fce39ca426cbb52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 02/92] fix: read the fill value of single-precision additional
 variables as NaN

-1e30 stored at single precision does not compare equal to -1e30 at double precision, so it was read as data.
---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 32e633c..dfb4e42 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -545,8 +545,10 @@ class MatchUpReader:
                     # Set fill data (value -1e30) to nan
                     if variable == "nominal_BT2":
                         pass
-                    additional_values[i_start:i_end, i_variable]\
-                        [additional_values[i_start:i_end, i_variable] == -1e30] = nan
+                    # (which reads as float32(-1e30) from variables stored at single precision)
+                    for fill_value in (-1e30, float(float32(-1e30))):
+                        additional_values[i_start:i_end, i_variable]\
+                            [additional_values[i_start:i_end, i_variable] == fill_value] = nan
                 else:
                     additional_values[i_start:i_end, i_variable] = nan
 
-- 
2.43.0


From 3af0b47e25ecfa6790090064d0438d18668a71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/92] fix: print the number of match-up series in the
 match-up summary

The number of series boundaries, one more than the number of series, was printed.
---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 5f26966..40fbdd2 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -328,7 +328,7 @@ class MatchUp(object):
 
         string += "Sensors - "+str([str(sensor) for sensor in self.idx['sensors']])
         string += "\nTotal Match-Ups - " + str(self.idx['cNm'][-1])
-        string += "\nMatch-Up Series - " + str(len(self.idx['cNm']))
+        string += "\nMatch-Up Series - " + str(len(self.idx['Nm']))
         string +="\nTotal Match-Ups - "+str(self.idx['cNm'][-1])
         string +="\nTotal Sensor State Data Values - "+str(self.idx['idx'][-1])+"\n"
 
-- 
2.43.0


From 105eff686f80060cbb3b104266de949bf8b2d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 04/92] fix: print the series' own last K in the match-up
 summary

Index -1 counted from the start of the series, so the last K shown was that of the series before.
---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 40fbdd2..58702c7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -394,11 +394,11 @@ class MatchUp(object):
 
                     else:
                         string += "["
-                        string += "{:.2f}".format(self.ks[i_start+n_mu_i]) + ", "
+                        string += "{:.2f}".format(self.ks[i_start:i_end][n_mu_i]) + ", "
                         string += "]\n"
                 else:
                     string += "["
-                    string += "{:.2f}".format(self.ks[i_start + n_mu_i]) + ", "
+                    string += "{:.2f}".format(self.ks[i_start:i_end][n_mu_i]) + ", "
                     string += "]\n"
 
             if self.unck is not None:
-- 
2.43.0


From e844ff938211aa85ef29efd1afe5ed576a038315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 05/92] fix: draw the random sample of match-ups from a list

random.sample refuses numpy arrays, so sampling failed wherever match-ups are dropped at random; sampling a series with
weighting matrices also returned its match-ups out of order then.
---
 .../core/matchup/matchupProcessing/sample2ind/Sample2Ind.py   | 4 ++--
 .../matchupProcessing/sample2ind/cython_lib_sample2ind.pyx    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
index ade2f5c..a3c2cb2 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
@@ -104,12 +104,12 @@ class Sample2Ind:
 
                 # If more match ups sampled than maximum randomly reduce to required amount
                 if len(idxs) > mu_samples:
-                    idxs = sorted(sample(idxs, mu_samples))
+                    idxs = sorted(sample(list(idxs), mu_samples))
             # ----------------------------------------------------------------------------------------------------------
 
             # b. If no w matrices present free to sample randomly ------------------------------------------------------
             else:
-                idxs = sorted(sample(arange(mu_total), mu_samples))
+                idxs = sorted(sample(range(mu_total), mu_samples))
             # ----------------------------------------------------------------------------------------------------------
 
             sampling_idxs[n_mu] = idxs       # add match up sample indices to dictionary
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
index b1ba4d5..252cb6a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
@@ -56,5 +56,5 @@ def get_sample_idxs(int[:] w_indices_mu, int mu_samples, list w_matrices):
 
     # If more match ups sampled than maximum randomly reduce to required amount
     if len(idxs) > mu_samples:
-        return sample(idxs, mu_samples)
+        return sorted(sample(list(idxs), mu_samples))
     return idxs
\ No newline at end of file
-- 
2.43.0


From a8632861606439305fdcc4f1077bb9842d7f8e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 06/92] fix: solve X = W X_ind for a match-up's first
 underlying values whatever its weights add up to

The measurement was used for each underlying value as it is, which solves the equation only for weights that add up to one.
---
 .../matchupProcessing/transform2normind/Transform2NormInd.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 01b89f2..1a06d97 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -168,7 +168,7 @@ class Transform2NormInd:
                     if row_unencountered_cols_num == n_w:
                         # averaged values
                         for col in row_cols:
-                            MatchUpNormInd.values[istart_i+col] = MatchUpData.values[i_values] / u_matrix[col]
+                            MatchUpNormInd.values[istart_i+col] = MatchUpData.values[i_values] / sum(w_row) / u_matrix[col]
                             encountered_cols[col] = True
                         pass
 
-- 
2.43.0


From d7350969f586eadc2db3a053f3b415cc7cc004c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 07/92] fix: size evaluated measurands by the series in the
 order they are asked for

The series sizes were taken in ascending order while the series are evaluated in the order given, so a selection such as
[3, 1] failed or mixed up rows when the sizes differ.
---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index db903d5..2a460f4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -57,7 +57,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n_mu - 1] for n_mu in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
@@ -188,7 +188,7 @@ def evaluate_adjusted_measurand(MatchUpData, matchup_series=0, return_derivative
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n_mu - 1] for n_mu in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
-- 
2.43.0


From 097aec3e79615065ae76158ef8b92989779e6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 08/92] fix: count a sensor's parameters from the index when
 evaluating measurand derivatives

They were looked up under an index entry that nothing sets, so asking for derivatives failed for every opened data set.
---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index 2a460f4..7dc3282 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -73,10 +73,10 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
     measurand_derivatives = None
     if return_derivatives:
         measurand_derivatives = [[zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[0]]+MatchUpData.idx['sensor_a'][Im[0]]),
+                                         MatchUpData.idx['sensor_ms'][Im[0]]+MatchUpData.idx['parameter_sensor'].count(MatchUpData.idx['sensors'][Im[0]])),
                                         dtype=float32),
                                   zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[1]]+MatchUpData.idx['sensor_a'][Im[1]]),
+                                         MatchUpData.idx['sensor_ms'][Im[1]]+MatchUpData.idx['parameter_sensor'].count(MatchUpData.idx['sensors'][Im[1]])),
                                         dtype=float32)]
                                   for Im in MatchUpData.idx['Im']]
 
-- 
2.43.0


From 4979b6399c52837a5cb47f99a2671597d316b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 09/92] fix: return the measurand uncertainty when a parameter
 covariance matrix is given

The covariance block was reshaped with floating-point sizes, which numpy refuses, and the uncertainty was left out when
derivatives were asked for as well.
---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index 7dc3282..0085cd0 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -135,20 +135,20 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
                     loc_a = array([True if s == sensor_name else False for s in MatchUpData.idx['parameter_sensor']])
                     loc_a_arr = outer(loc_a.T, loc_a)
                     V = parameter_covariance_matrix[loc_a_arr]
-                    V = V.reshape((len(V)**0.5, len(V)**0.5))
+                    V = V.reshape((sum(loc_a), sum(loc_a)))
 
                     u_measurand[i_start_m:i_end_m, i_sensor_pair] = (diag(J[:, m:].dot(V).dot(J[:, m:].T))) ** 0.5
 
                     pass
 
-    if return_derivatives:
-        return measurand, measurand_derivatives
-
     if u_measurand is not None:
         if return_derivatives:
             return measurand, measurand_derivatives, u_measurand
         return measurand, u_measurand
 
+    if return_derivatives:
+        return measurand, measurand_derivatives
+
     return measurand
 
 
-- 
2.43.0


From f0d0589015c8c0858c63afb5c499f8a1bc4a7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 10/92] fix: use the adjustment model given with a sensor's
 data

One key was looked for and another one read, so an adjustment model under either name alone failed or was ignored.
---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index dfb4e42..d23ae24 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -604,8 +604,10 @@ class MatchUpReader:
         for sensor in idx['sensors']:
             sensor_model.append(sensor_data[sensor]["sensor_model"])
 
-            if "adjustment_model" in sensor_data[sensor].keys():
+            if "sensor_adjustment_model" in sensor_data[sensor].keys():
                 adjustment_model.append(sensor_data[sensor]["sensor_adjustment_model"])
+            elif "adjustment_model" in sensor_data[sensor].keys():
+                adjustment_model.append(sensor_data[sensor]["adjustment_model"])
             else:
                 adjustment_model.append(self._default_adjustment_model)
 
-- 
2.43.0


From 72341a81183a433b52279eaf39c84a8611c29e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 11/92] fix: give every AVHRR sensor model the arguments sensor
 models are called with

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py  | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 2c14007..e8ee8d5 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -106,11 +106,11 @@ def sensor_model_3(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4((sensor_model_variables,
+def sensor_model_4(sensor_model_variables,
                    sensor_model_parameter,
                    sensor_model_constant,
                    sensor_model_across_track_index,
-                   sensor_model_along_track_index, time)):
+                   sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -167,7 +167,11 @@ def sensor_model_4((sensor_model_variables,
     return R, J
 
 
-def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -218,7 +222,11 @@ def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_mod
     return R, J
 
 
-def sensor_model_37_3(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -329,7 +337,11 @@ def sensor_model_3_scaled(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_4_scaled(sensor_model_variables,
+                          sensor_model_parameter,
+                          sensor_model_constant,
+                          sensor_model_across_track_index,
+                          sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -386,7 +398,11 @@ def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor
     return R, J
 
 
-def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -437,7 +453,11 @@ def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sen
     return R, J
 
 
-def sensor_model_37_3_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
-- 
2.43.0


From 002c447b1f7b4e4784a12bfebe6ce50352a73c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 12/92] fix: take the parameters of the 3.7um model without
 rescaling as they are

---
 .../harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index e8ee8d5..5f1fbd4 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -201,7 +201,7 @@ def sensor_model_37_2(sensor_model_variables,
 
     # Evaluate radiance using sensor model
     Ja = vstack((ones(m), Rict * (Cs - Ce) / (Cs - Cict))).T
-    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]/1000.0]
+    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]]
     R = dot(Ja, at)
 
     # Evaluate derivatives
-- 
2.43.0


From fb2aa1712ff53c08c4d588093b199efb5ae6b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 13/92] fix: scale the parameter derivatives of the rescaled
 AVHRR models like their parameters

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 5f1fbd4..9f159b8 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -332,7 +332,7 @@ def sensor_model_3_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0e-3, 1.0e-6]))
 
     return R, J
 
@@ -393,7 +393,7 @@ def sensor_model_4_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[3] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0e-3, 1.0e-6, 1.0e-3]))
 
     return R, J
 
@@ -448,7 +448,7 @@ def sensor_model_37_2_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0e-3]))
 
     return R, J
 
@@ -507,7 +507,7 @@ def sensor_model_37_3_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[2] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0e-3, 1.0e-3]))
 
     return R, J
 
-- 
2.43.0


From 698ef5550454a01ec1a208897236c148deaf1ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 14/92] fix: register as many parameters for the 3.7um models
 as they have

---
 .../sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py | 2 +-
 .../sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
index c622a6d..085ccba 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
index 4b44b0a..432468c 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
index 702fae5..1890bf3 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
index ff21f17..3acb519 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
-- 
2.43.0


From 199285fdd58f1473d8884317fbec108e3fb060fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 15/92] fix: return every match-up's radiance for the HIRS
 reference sensor

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index 26c8a5d..c0987bb 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -59,7 +59,7 @@ def sensor_model_ref(sensor_model_variables, sensor_model_parameter, sensor_mode
         Measurement model derivatives w.r.t. input quantities
     """
 
-    R = sensor_model_variables[0]
+    R = sensor_model_variables[:, 0]
 
     return R, None
 
-- 
2.43.0


From 07db64cfceacfe7d3b79e8162b36a943c00786a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 16/92] fix: derivative of the HIRS measurand with respect to
 the ICT temperature

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index c0987bb..a35fd2d 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -123,7 +123,7 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
                       -at[1] * Rict * (Ce - Cs) / (Cict - Cs) ** 2 - at[2] * (Ce - Cs),
                       at[1] * Rict / (Cict - Cs) + at[2] * (2 * Ce - Cs - Cict),
                       (at[1] * (Ce - Cs) / (Cict - Cs)) *
-                      Rict * planck_exp / (planck_exp-1.0) * (2.0*H*v*b) / (KB*(a+b*Tict)**2.0),
+                      Rict * planck_exp / (planck_exp-1.0) * (H*v*b) / (KB*(a+b*Tict)**2.0),
                       -1.0 * ones(m),
                       Ja))
 
-- 
2.43.0


From e456049848d7a17b7df4985c557d5a290decf0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 17/92] fix: derivatives of the MW measurand

---
 .../sensor_data/MW/MW_sensor_models.py        | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/MW/MW_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/MW/MW_sensor_models.py
index 4dd0272..c5ce8e1 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/MW/MW_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/MW/MW_sensor_models.py
@@ -133,16 +133,20 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
     # Compute measurand derivatives
     J = zeros((len(L), 12), dtype=float32)
 
+    # Derivative of LME w.r.t. LMEprime and of LICT, LS w.r.t. their temperatures
+    pol = 1.0 - 0.5*a2*cosangs
+    dLICTdTICT = dplanck(v, a+b*(TICT+dTw)) * b
+    dLSda3 = dplanck(v, a+b*(TCMB+a3)) * b
+
     # dL/dCS
-    J[:, 0] = 1.0/g * (CE-CICT)*(LICT-LS)/(CICT-CS)**2 * (1 + a1*(2*CE-CICT-CS)/(CICT-CS))
+    J[:, 0] = pol/g * (CE-CICT)/(CICT-CS)**2 * ((LICT-LS) + a1*(LICT-LCMB)**2*(2*CE-CICT-CS)/(CICT-CS))
 
     # dL/dCICT
-    J[:, 1] = 1.0/g * (CE-CS)*(LICT-LS)/(CICT-CS)**2 * (1 + a1*(LICT-LS)*(2*CE-CICT-CS)/(CICT-CS))
+    J[:, 1] = -pol/g * (CE-CS)/(CICT-CS)**2 * ((LICT-LS) + a1*(LICT-LCMB)**2*(2*CE-CICT-CS)/(CICT-CS))
 
     # dL/dTICTn
-    dLdTICT = 1.0/g * (1 + (CE-CICT)/(CICT-CS) + 2*a1*(CE-CS)*(CE-CICT)*(LICT-LS)/(CICT-CS)**2) * \
-                 (LICT * (2*H*v*KB*b)/(KB*(a+b*(TICT+dTw)))**2 *
-                      exp(H*v/(KB*(a+b*(TICT+dTw)))) / (exp(H*v/(KB*(a+b*(TICT+dTw))))-1))
+    dLdTICT = 1.0/g * (pol * (1 + (CE-CICT)/(CICT-CS) + 2*a1*(CE-CS)*(CE-CICT)*(LICT-LCMB)/(CICT-CS)**2) +
+                       0.5*a2*cosangs) * dLICTdTICT
     J[:, 2] = dLdTICT * w1 / wtot
     J[:, 3] = dLdTICT * w2 / wtot
     J[:, 4] = dLdTICT * w3 / wtot
@@ -150,16 +154,16 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
     J[:, 6] = dLdTICT * w5 / wtot
 
     # dL/dCE
-    J[:, 7] = 1.0/g * ((LICT-LS)/(CICT-CS)+a1*(LICT-LS)**2/(CICT-CS)**2)*(2*CE-CICT-CS)
+    J[:, 7] = pol/g * ((LICT-LS)/(CICT-CS) + a1*(LICT-LCMB)**2/(CICT-CS)**2*(2*CE-CICT-CS))
 
     # dL/da1
-    J[:, -3] = 1.0/g * (CE-CS)*(CE-CICT)*(LICT-LS)**2/(CICT-CS)**2
+    J[:, -3] = pol/g * (CE-CS)*(CE-CICT)*(LICT-LCMB)**2/(CICT-CS)**2
 
     # dL/da2
     J[:, -2] = 1.0/(2.0*g) * (LICT-LMEprime) * cosangs
 
     # dL/da3
-    J[:, -1] = -1.0/g * (CE-CICT)/(CICT-CS) * (1.0 + 2.0*a1*(CE-CS)*(LICT-LS)/(CICT-CS)) * (1.0 - a2/(2.0*g)*cosangs)
+    J[:, -1] = -pol/g * (CE-CICT)/(CICT-CS) * dLSda3
 
     # Convert to BT (via RJ)
     RJ_const = C**2 / (2.0 * v**2 * KB)
@@ -171,3 +175,7 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
 
 def planck(v, T):
     return 2.0 * H * v**3 / C**2 / (exp(v*H/(KB*T))-1)
+
+
+def dplanck(v, T):
+    return planck(v, T) * exp(v*H/(KB*T)) / (exp(v*H/(KB*T))-1) * v*H/(KB*T**2)
-- 
2.43.0


From 44c11607dd3aa2b7b8790498a2a48615a66b9693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 18/92] fix: pass the track indices to the sensor models when
 evaluating the solver's residuals

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 7e14ac4..6be5718 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -385,6 +385,10 @@ class GNAlgo(object):
         MatchUpEstimate_NormInd.sensor_model = self.HData.sensor_model
         MatchUpEstimate_NormInd.sensor_model_constant = self.HData.sensor_model_constant
         MatchUpEstimate_NormInd.adjustment_model = self.HData.adjustment_model
+        MatchUpEstimate_NormInd.across_track_index1 = self.HData.across_track_index1
+        MatchUpEstimate_NormInd.across_track_index2 = self.HData.across_track_index2
+        MatchUpEstimate_NormInd.along_track_index1 = self.HData.along_track_index1
+        MatchUpEstimate_NormInd.along_track_index2 = self.HData.along_track_index2
         MatchUpEstimate_NormInd.values = deepcopy(xyza[:N_var])
         MatchUpEstimate_NormInd.ks = zeros(N_mu, dtype=float32)
 
-- 
2.43.0


From b303558b32b1f01d8b821551a19bdc0b03a81c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 19/92] fix: keep the match-up times through the transformation
 so that the solver's sensor models get them

---
 .../matchupProcessing/transform2normind/Transform2NormInd.py  | 4 ++++
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 1a06d97..fa7a20f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -131,6 +131,8 @@ class Transform2NormInd:
         MatchUpNormInd.across_track_index2 = MatchUpData.across_track_index2
         MatchUpNormInd.along_track_index1 = MatchUpData.along_track_index1
         MatchUpNormInd.along_track_index2 = MatchUpData.along_track_index2
+        MatchUpNormInd.time1 = MatchUpData.time1
+        MatchUpNormInd.time2 = MatchUpData.time2
 
         # Convert data block by depending on correlation form
         for i, block_unc in enumerate(MatchUpData.unc):
@@ -234,6 +236,8 @@ class Transform2NormInd:
         MatchUpData.across_track_index2 = MatchUpNormInd.across_track_index2
         MatchUpData.along_track_index1 = MatchUpNormInd.along_track_index1
         MatchUpData.along_track_index2 = MatchUpNormInd.along_track_index2
+        MatchUpData.time1 = MatchUpNormInd.time1
+        MatchUpData.time2 = MatchUpNormInd.time2
 
         # Required to find systematic errors
         n_uS = max([0]+[unc_i.uS_i for unc_i in MatchUpData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 6be5718..7126ff9 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -389,6 +389,8 @@ class GNAlgo(object):
         MatchUpEstimate_NormInd.across_track_index2 = self.HData.across_track_index2
         MatchUpEstimate_NormInd.along_track_index1 = self.HData.along_track_index1
         MatchUpEstimate_NormInd.along_track_index2 = self.HData.along_track_index2
+        MatchUpEstimate_NormInd.time1 = self.HData.time1
+        MatchUpEstimate_NormInd.time2 = self.HData.time2
         MatchUpEstimate_NormInd.values = deepcopy(xyza[:N_var])
         MatchUpEstimate_NormInd.ks = zeros(N_mu, dtype=float32)
 
-- 
2.43.0


From 0cb3864a9f56abe3a1d1bc0ef83c996370930acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 20/92] fix: keep the sensor data index for transforming a
 match-up data set back

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 58702c7..5ec16db 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -166,6 +166,9 @@ class MatchUp(object):
         self.a, self.sensor_model_constant, self.sensor_model, \
             self.adjustment_model, self.idx = MatchUpReaderOp.extract_sensor_data(sensor_data, self.idx)
 
+        self._original_idx["parameter_sensor"] = self.idx["parameter_sensor"]
+        self._original_idx["sensor_model_constant_sensor"] = self.idx["sensor_model_constant_sensor"]
+
     def getVariableData(self, variable_number, sensor_name, matchup_number):
 
         matchup_numbers = []
-- 
2.43.0


From 59c1b62586443aade94becfb6d7d2386ef50ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 21/92] fix: take each sensor's own number of covariates in the
 solver's Jacobian products

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 7126ff9..cb6fca9 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -682,7 +682,6 @@ class GNAlgo(object):
         mcxyz = self.HData.idx['idx']                                                 # cumulative variables by block
         N_var = self.HData.idx['idx'][-1]                                             # total variables
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                      # total number of sensors
-        N_cov = self.HData.idx['n_cov'][-1]                                           # total number of covariates
         N_mu_s = len(self.HData.idx['Im'])                                            # total number of match-up series
         n_uS = max([0]+[unc_i.uS_i for unc_i in self.HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
 
@@ -725,6 +724,7 @@ class GNAlgo(object):
 
                 # First sensor or second sensor factor
                 sensor_name = self.HData.idx['sensors'][n_sensor]
+                N_cov = self.HData.idx['sensor_ms'][n_sensor]                         # sensor's number of covariates
                 s = -1
                 if j == 1:
                     s = 1
-- 
2.43.0


From b800c0418d711b0a171c7b4e49e2465e97d6abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 22/92] fix: keep LSMR's solution when zero is the solution

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 9d625b0..a447d74 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -285,6 +285,7 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
+            self.x = x
             return x, istop, itn, normr, normar, normA, condA, normx
 
         if show:
-- 
2.43.0


From 43c4541c10090fa590316c8113956f0b8c315252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 23/92] fix: do not divide by a zero residual in LSMR's
 stopping test

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index a447d74..43100e8 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -423,7 +423,7 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            test2   = normar/(normA*normr) if normA*normr > 0 else 0.
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From b32d824ba4ae3af0fe962047c27750124a0cf973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 24/92] fix: stop MINRES when the right-hand side is an
 eigenvector

---
 .../harmonisation_eiv/pykrylov_minres.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index a56d3c0..96ae44b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -378,7 +378,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if (itn % 10)==0: print ' '
 
-- 
2.43.0


From 33d03cad38964819f3dbdf6db5a12802ee9cd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 25/92] fix: report an indefinite preconditioner found while
 MINRES runs as such

---
 .../harmonisation_eiv/pykrylov_minres.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 96ae44b..9160071 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -250,7 +250,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
-- 
2.43.0


From 6becf7c664e920eaa2e2a4e4009d4189c2c15807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 26/92] fix: store the measurement residuals in the residual
 files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index b180d3f..cf941b7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -751,7 +751,7 @@ class HarmonisationResult:
                     X_res_var.description = "X"+str(i_sensor_pair+1)+" harmonisation fitting residuals"
 
                     # Store data
-                    X_res_var = X_res[:]
+                    X_res_var[:] = X_res[:]
 
             # 3. Write ks_res data if available ------------------------------------------------------------------------
 
-- 
2.43.0


From 1028b0f0fbc7ba21dc82c7eececf5a95e45751de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 27/92] fix: write harmonisation results that have no cost,
 like the preconditioner's

---
 .../harmonisationIO/HarmonisationResult.py            | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index cf941b7..464549a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -279,9 +279,8 @@ class HarmonisationResult:
 
         # 2. Get attributes --------------------------------------------------------------------------------------------
         # a. Open required attributes
-        cost = dataset.cost
-        cost_dof = dataset.cost_dof
-        cost_p_value = dataset.cost_p_value
+        cost, cost_dof, cost_p_value = [dataset.getncattr(attr) if attr in dataset.ncattrs() else None
+                                        for attr in ("cost", "cost_dof", "cost_p_value")]
 
         # b. Open additinal attributes
         additional_attributes_keys = [str(attr) for attr in dataset.ncattrs()
@@ -606,9 +605,9 @@ class HarmonisationResult:
         rootgrp = Dataset(path, 'w')
 
         # 2. Set attributes
-        rootgrp.cost = cost
-        rootgrp.cost_dof = cost_dof
-        rootgrp.cost_p_value = cost_p_value
+        for name, value in (('cost', cost), ('cost_dof', cost_dof), ('cost_p_value', cost_p_value)):
+            if value is not None:
+                rootgrp.setncattr(name, value)
         rootgrp.setncatts(additional_attributes)
 
         # 3. Create dimensions
-- 
2.43.0


From 428541f81afe503f6a30c992d9acb90cb0769407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 28/92] fix: open residual files whose first sensor is not the
 reference

---
 .../harmonisationIO/HarmonisationResult.py            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 464549a..bdf3115 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -442,10 +442,11 @@ class HarmonisationResult:
 
         if values_res_available:
             # generate required data
+            ref = 0 if sensor_ms[0] == 1 else None  # first sensor is the reference if it has one covariate
             full_sensor_list = [num for pair in Im for num in pair]  # full list of sensors (ordered by match-up series)
-            num_ref_matchup = full_sensor_list.count(0)  # number of reference-sensor match-up series
+            num_ref_matchup = full_sensor_list.count(ref)  # number of reference-sensor match-up series
             sensor_list = [sensor for sensor in full_sensor_list if
-                           sensor != 0]  # list of sensors (excluding reference)
+                           sensor != ref]  # list of sensors (excluding reference)
 
             # Create New Indices:
             # > n_sensor - list of sensor number of consecuative data blocks
@@ -455,13 +456,13 @@ class HarmonisationResult:
 
             # > n_mu - list of match-up series number of consecuative data blocks
             # For reference sensors
-            n_mu_refs = [int(i + 1) for i, pair in enumerate(Im) if 0 in pair]
+            n_mu_refs = [int(i + 1) for i, pair in enumerate(Im) if ref in pair]
 
             # For series sensors
             n_mu_sensors = [int(i + 1) for m_i in range(1, max(sensor_ms) + 1)
                             for i, pair in enumerate(Im)
                             for sensor in pair
-                            if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
+                            if (sensor_ms[sensor] >= m_i) and (sensor != ref)]
 
             # Combine
             n_mu = n_mu_refs + n_mu_sensors
@@ -474,7 +475,7 @@ class HarmonisationResult:
             n_cov_sensors = [m_i for m_i in range(1, max(sensor_ms) + 1)
                              for i, pair in enumerate(Im)
                              for sensor in pair
-                             if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
+                             if (sensor_ms[sensor] >= m_i) and (sensor != ref)]
 
             # Combine
             n_cov = n_cov_refs + n_cov_sensors
-- 
2.43.0


From b3276ad9f9f3748fc8db3957709ac03a36886947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 29/92] fix: open harmonisation results that come without
 residual files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index bdf3115..4ad9cd8 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -171,8 +171,8 @@ class HarmonisationResult:
 
             if open_residuals:
                 harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir)
-                self.values_res, self.ks_res, \
-                    self.idx, self.additional_attributes \
+                if harmonisation_residual_file_paths is not None:
+                    self.values_res, self.ks_res, self.idx, residual_attributes \
                         = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
 
     def _get_harm_output_path(self, output_dir):
-- 
2.43.0


From 8be05a64dff029d564b5b871b6d50c1160387a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 30/92] fix: keep a harmonisation result's own attributes when
 its residual files are opened

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 4ad9cd8..e4842dc 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -174,6 +174,8 @@ class HarmonisationResult:
                 if harmonisation_residual_file_paths is not None:
                     self.values_res, self.ks_res, self.idx, residual_attributes \
                         = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
+                    for attr in residual_attributes:
+                        self.additional_attributes.setdefault(attr, residual_attributes[attr])
 
     def _get_harm_output_path(self, output_dir):
         """
-- 
2.43.0


From 16b0a524f310469d7ea01366884dd997bbbd3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 31/92] fix: write names in results as characters, leaving the
 result's own as they are

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index e4842dc..5a0448d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -633,7 +633,7 @@ class HarmonisationResult:
 
         # > Harmonisation parameter sensor name variable
         fmt_str = '{0: <'+str(max_l_name)+'}'
-        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors])
+        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors], dtype='S')
         parameter_sensors_var = rootgrp.createVariable('parameter_sensors', 'S1', ('n', 'l_name'), zlib=True,
                                                        complevel=9)
         parameter_sensors_var.description = "Sensors associated with harmonisation parameters"
@@ -648,12 +648,11 @@ class HarmonisationResult:
 
                 if additional_variables[variable]['dtype'] == 'S1':
                     fmt_str = '{0: <' + str(max_l_name) + '}'
-                    additional_variables[variable]['data'] = asarray([fmt_str.format(s) for s in
-                                                                      additional_variables[variable]['data']])
+                    strings = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']], dtype='S')
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             (additional_variables[variable]['dim'], 'l_name'),
                                                             zlib=True, complevel=9)
-                    additional_var[:] = stringtochar(additional_variables[variable]['data'][:])
+                    additional_var[:] = stringtochar(strings)
                 else:
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             additional_variables[variable]['dim'],
-- 
2.43.0


From e2f8dbdf5544c9a563fa52ef7475699d8334de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 32/92] fix: take each sensor's own number of covariates in the
 preconditioner

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 99011fb..970fde0 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -206,7 +206,6 @@ class PCAlgo:
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # initialise arrays
         JT = zeros((N_mu, N_sensors), dtype=float32)
@@ -227,6 +226,7 @@ class PCAlgo:
             for j, n_sensor in enumerate(n_sensors):
 
                 sensor_name = HData.idx['sensors'][n_sensor]
+                N_cov = HData.idx['sensor_ms'][n_sensor]                            # sensor's number of covariates
 
                 R, JR = self.calc_R(self.xyza, HData.unc, HData.w_matrices, HData.u_matrices, HData.idx, HData.idx,
                                     HData.sensor_model,
@@ -356,7 +356,6 @@ class PCAlgo:
         N_var = HData.idx['idx'][-1]                                                # total variables
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # update a estimate in xyza
         self.xyza[N_var:N_var + N_a] = a
@@ -382,6 +381,7 @@ class PCAlgo:
             for j, n_sensor in enumerate(n_sensors):
 
                 sensor_name = HData.idx['sensors'][n_sensor]
+                N_cov = HData.idx['sensor_ms'][n_sensor]                            # sensor's number of covariates
 
                 R, JR = self.calc_R(self.xyza, HData.unc, HData.w_matrices, HData.u_matrices, HData.idx, HData.idx,
                                     HData.sensor_model,
-- 
2.43.0


From 6fcc176015ccadacc5d15269b74c7af483f27d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 33/92] fix: keep the preconditioner's systematic effects apart

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 970fde0..441ea0e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -203,12 +203,12 @@ class PCAlgo:
         mc = HData.idx['cNm']                                                       # cumulative
         N_mu = HData.idx['cNm'][-1]                                                 # total match-ups (= number of ks)
         N_var = HData.idx['idx'][-1]                                                # total variables
-        N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
+        N_uS = max([0] + [unc.uS_i for unc in HData.unc if unc.typeID == 2])        # number of systematic effects
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
 
         # initialise arrays
-        JT = zeros((N_mu, N_sensors), dtype=float32)
+        JT = zeros((N_mu, N_uS), dtype=float32)
         VK = eye(N_mu, dtype=float32)
 
         # loop through match-up series
@@ -277,7 +277,7 @@ class PCAlgo:
                         # b. random+systematic correlation
                         if block_unc.typeID == 2:
                             JK = s * diag(JB*JR[:, n_cov-1]) * block_unc.uR / uK
-                            JT[istart:iend, n_sensor-1] = s * JB*JR[:, n_cov-1] * block_unc.uS / uK
+                            JT[istart:iend, block_unc.uS_i-1] = s * JB*JR[:, n_cov-1] * block_unc.uS / uK
 
                         VK[istart:iend, istart:iend] = VK[istart:iend, istart:iend] + dot(JK, JK.T)
 
-- 
2.43.0


From bd20bffe6a9853b2739fe9be05c49490cc736936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 34/92] fix: save the normalised K with the solver's state

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index cb6fca9..9b5ed69 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -990,6 +990,7 @@ class GNAlgo(object):
         M_T_dim = dataset.createDimension('M_T', len(self.HData.values))
         V_T_dim = dataset.createDimension('V_T', len(self.xyza))
         n_dim = dataset.createDimension('n', self.S.shape[0])
+        M_dim = dataset.createDimension('M', len(self.HData.ks))
 
         # 3. Create variables
 
@@ -999,6 +1000,11 @@ class GNAlgo(object):
                                            "(transformed to normalised, independent parameterisation)"
         values_t_initial_var[:] = self.HData.values
 
+        # > ks_t variable
+        ks_t_var = dataset.createVariable('ks_t', 'f8', ('M',), zlib=True, complevel=9)
+        ks_t_var.description = "K values (normalised by their uncertainty)"
+        ks_t_var[:] = self.HData.ks
+
         # > variables_t_estimate variable
         variables_t_estimate_var = dataset.createVariable('variables_t_estimate', 'f4', ('V_T',), zlib=True,
                                                           complevel=9)
@@ -1028,6 +1034,8 @@ class GNAlgo(object):
 
         self.S = dataset.variables['preconditioner_solution'][:]
         self.HData.values = dataset.variables['values_t_initial'][:]
+        if 'ks_t' in dataset.variables:
+            self.HData.ks = dataset.variables['ks_t'][:]
         self.xyza = dataset.variables['variables_t_estimate'][:]
         dataset.close()
 
-- 
2.43.0


From 1e85d0666b8f20bc638a0c449fc0f4bcbef18c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 35/92] fix: accept the preconditioner file written by save_pc
 as pc_input

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py       | 3 +++
 .../harmonisation_eiv/HarmonisationEIV.py                      | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 5a0448d..32fe5a2 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -190,6 +190,9 @@ class HarmonisationResult:
             Path of harmonisation result file in given directory
         """
 
+        if isfile(output_dir):
+            return output_dir
+
         harm_output_path = None
 
         harm_output_path_rule = re.compile('harm(?:(?!.*res.*).*)\.nc')
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 09003bc..3ae85e5 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -101,7 +101,7 @@ class HarmonisationEIV:
             print "t_PC:", str(t2-t1)
 
         else:
-            preconditioner = HarmonisationResult(pc_input)
+            preconditioner = HarmonisationResult(pc_input, open_residuals=False)
 
         HData.a = preconditioner.parameter  # set PC output parameters as current parameter estimates
 
-- 
2.43.0


From 345002b09157f715bb153db067a05e788d54fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 36/92] fix: save the solver state where save_gn says

---
 .../harmonisation_eiv/HarmonisationEIV.py                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 3ae85e5..179a7d3 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -157,6 +157,9 @@ class HarmonisationEIV:
         if save_directory_GNOp is not None:
             GNOp.save(save_directory_GNOp)
 
+        if save_gn is not None:
+            GNOp.save(save_gn)
+
         return HarmonisationOutput
 
 if __name__ == "__main__":
-- 
2.43.0


From d0ade5403fd046aa0bc2861f8cf6f827a7618d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 37/92] fix: run quietly or verbosely only when asked to

---
 harmonisation_eiv/harmonisation/tools/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/common.py b/harmonisation_eiv/harmonisation/tools/common.py
index 7d4c161..06251a6 100644
--- a/harmonisation_eiv/harmonisation/tools/common.py
+++ b/harmonisation_eiv/harmonisation/tools/common.py
@@ -174,9 +174,9 @@ def configure_logging(fname=None, verbose=False, quiet=False):
 
 def read_parsed_cmdline(parsed_cmdline, solver_options=True):
 
-    if parsed_cmdline.quiet is not None:
+    if parsed_cmdline.quiet:
         show = 0
-    elif parsed_cmdline.verbose is not None:
+    elif parsed_cmdline.verbose:
         show = 2
     else:
         show = 1
-- 
2.43.0


From 398befe31827d77fb83e3d4d64ef0f7d59a781a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 38/92] fix: leave the parameter covariance out when
 --no_covariance is given

---
 .../harmonisation_eiv/HarmonisationEIV.py                      | 3 +--
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py       | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 179a7d3..362d171 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -55,7 +55,7 @@ class HarmonisationEIV:
 
     def run(self, HData,
                   pc_input=None, save_pc=None, gn_input=None, save_gn=None, save_directory_GNOp=None,
-                  show=1):
+                  show=1, return_covariance=True):
         """
         Return harmonised parameters and diagnostic data for input harmonisaton match-up data
 
@@ -76,7 +76,6 @@ class HarmonisationEIV:
         # 1.	Compute Approximate Solution to find Pre-conditioner to Full Problem
         ################################################################################################################
 
-        return_covariance = True
         if save_directory_GNOp is not None:
             return_covariance = False
 
diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 47ecff9..008936e 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -114,7 +114,7 @@ class HarmonisationOp:
         HarmonisationOutput = Harmonisation.run(HData,
                                                 pc_input=pc_input, save_pc=save_pc,
                                                 gn_input=gn_input, save_gn=save_gn,
-                                                show=show)
+                                                show=show, return_covariance=return_covariance)
 
         print "Final Solution:"
         print HarmonisationOutput.parameter
-- 
2.43.0


From 08dad33dc63768907690d3d7f0a2f8cf58c6a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 39/92] fix: name the job and the match-up data set the
 solver's results are written for

---
 harmonisation_eiv/harmonisation/tools/full_eiv_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py b/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py
index 4c0ff21..00a271c 100644
--- a/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py
+++ b/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py
@@ -51,7 +51,9 @@ def main():
     logger.info("Match-up Dataset Directory: " + dataset_dir)
     logger.info("Harmonisation Result Directory: " + output_dir)
 
-    conf = {"software": __short_name__, "version": __version__, "tag": __tag__}
+    conf = {"software": __short_name__, "version": __version__, "tag": __tag__,
+            "job_id": os.path.splitext(os.path.basename(parsed_cmdline.job_file or ""))[0],
+            "matchup_dataset": os.path.basename(os.path.abspath(dataset_dir))}
 
     # Initialise harmonisation operator
     harm_op = HarmonisationOp()
-- 
2.43.0


From c6860a342375703ab512f292dd79e5d655407d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 40/92] fix: open a result's additional variables the way they
 are saved

---
 .../harmonisationIO/HarmonisationResult.py            | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 32fe5a2..25ebbf9 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -315,7 +315,16 @@ class HarmonisationResult:
                                                                       "parameter_covariance_matrix"]]
 
         for additional_variable_name in additional_variable_names:
-            additional_variables[additional_variable_name] = dataset.variables[additional_variable_name][:]
+            variable = dataset.variables[additional_variable_name]
+            dim = [str(d) for d in variable.dimensions if d != 'l_name']
+            data = variable[:]
+            if variable.dtype == 'S1':
+                data = [s.strip() for s in list(chartostring(data))]
+            additional_variables[additional_variable_name] = {'data': data,
+                                                              'dim': dim[0] if len(dim) == 1 else dim,
+                                                              'dtype': variable.dtype.str[1:]}
+            if "Description" in variable.ncattrs():
+                additional_variables[additional_variable_name]['Description'] = variable.Description
 
         # --------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From ba07e31d82bbfe8aef4646669ac156138d483683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 41/92] fix: save opened results that have no measurement
 residuals

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 25ebbf9..656d9db 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -706,7 +706,8 @@ class HarmonisationResult:
         output_fname_noext, output_fname_ext = splitext(output_fname)
 
         # sensor number, match up number and covariate number per data block as a tuple for indexing
-        block_idxs = [(i, j, k) for i, j, k in zip(idx['n_sensor'], idx['n_mu'], idx['n_cov'])]
+        if values_res is not None:
+            block_idxs = [(i, j, k) for i, j, k in zip(idx['n_sensor'], idx['n_mu'], idx['n_cov'])]
 
         # Write file per match-up series
         for i_matchup, n_sensor_pair in enumerate(idx["Im"]):
-- 
2.43.0


From dda7aec431649d859828272b6b1da7d8a19629d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 42/92] fix: average the values at the very start of a period
 too

---
 harmonisation_eiv/harmonisation/core/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/stats.py b/harmonisation_eiv/harmonisation/core/utils/stats.py
index 7753a20..f96782b 100644
--- a/harmonisation_eiv/harmonisation/core/utils/stats.py
+++ b/harmonisation_eiv/harmonisation/core/utils/stats.py
@@ -35,7 +35,7 @@ def time_average(data, times, time_period="month"):
 
     while current_time <= last_time:
         next_time = current_time + time_delta
-        ind = np.where((times > current_time) & (times < next_time))
+        ind = np.where((times >= current_time) & (times < next_time))
         vals = data[ind]
 
         try:
-- 
2.43.0


From 968f610ba5ddd7ba8aeb2c08ea205e999a9702c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 43/92] fix: check the systematic uncertainties of the second
 sensor too

---
 tools/harmonisation_input_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 6fa1918..ab73f80 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -320,7 +320,7 @@ def check_variable_values(rootgrp):
     # ------------------------------------------------------------------------------------------------------------------
 
     # TEST: Assert no negative uncertainties in Ur1, Ur2, Us1 and Us2 --------------------------------------------------
-    test_variables = ["Ur1", "Ur2", "Us1", "Ur2"]
+    test_variables = ["Ur1", "Ur2", "Us1", "Us2"]
     if set(test_variables).issubset(rootgrp.variables.keys()):
         for test_variable in test_variables:
             test_variable_val = rootgrp.variables[test_variable][:]
-- 
2.43.0


From b0fc475d35eaea27a51630edcc6a1a62017757a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 44/92] fix: name the fourth uncertainty type when a file's
 uncertainties contradict it

---
 tools/harmonisation_input_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index ab73f80..8ae9a71 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -454,7 +454,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type1[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type1[col] == 3:
+            if uncertainty_type1[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type1[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
@@ -518,7 +518,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type2[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type2[col] == 3:
+            if uncertainty_type2[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type2[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
-- 
2.43.0


From 4ceaabf0cd9e5f9806fc4e25a9b81aa9b5cc84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 45/92] fix: report variables of wrong type or dimensions
 instead of stopping at their values

---
 tools/harmonisation_input_checker.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 8ae9a71..bdf5736 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -592,10 +592,13 @@ def main(path):
     errors += check_variable_dtype(rootgrp)
     errors += check_variable_dimension(rootgrp)
     errors += check_attributes(rootgrp)
-    errors += check_w_matrix_variable_dimensions(rootgrp)
-    errors += check_variable_values(rootgrp)
-    errors += check_w_variable_values(rootgrp)
-    errors += check_uncertainty_assignment(rootgrp)
+
+    # Values can only be compared between variables of the specified type and dimensions
+    if check_variable_dtype(rootgrp) + check_variable_dimension(rootgrp) == []:
+        errors += check_w_matrix_variable_dimensions(rootgrp)
+        errors += check_variable_values(rootgrp)
+        errors += check_w_variable_values(rootgrp)
+        errors += check_uncertainty_assignment(rootgrp)
 
     rootgrp.close()
 
-- 
2.43.0


From f573638f08c5fe70f7539343116f95fd33f7ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 46/92] fix: report empty w matrices and missing u matrices
 instead of stopping at them

---
 tools/harmonisation_input_checker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index bdf5736..23f7ad9 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -378,12 +378,16 @@ def check_w_variable_values(rootgrp):
         for i, w_matrix_nnz_i in enumerate(w_matrix_nnz):
             # Find highest column number in w matrix
             iend += w_matrix_nnz_i
-            max_col = max(w_matrix_col[istart:iend]) + 1
+            max_col = 0
+            if len(w_matrix_col[istart:iend]) > 0:
+                max_col = max(w_matrix_col[istart:iend]) + 1
 
             # Compare w matrix column width number of rows in u matrix paired with it
             i_w_u_vectors = u_matrix_use[where(w_matrix_use == i+1)[0]] - 1
             for i_w_u_vector in i_w_u_vectors:
-                max_row = u_matrix_row_count[i_w_u_vector]
+                max_row = 0
+                if 0 <= i_w_u_vector < len(u_matrix_row_count):
+                    max_row = u_matrix_row_count[i_w_u_vector]
                 if max_row != max_col:
                     errors.append("W Matrix Value Error: Number of columns of w matrix " + str(i+1) + " (" +
                                   str(max_col) + ") do not correspond to number of rows of u matrix " +
-- 
2.43.0


From cf4a88ff673c190ed1fde691f1a7b8b63f58d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 47/92] fix: read the sensor IDs of AVHRR match-ups as integers

---
 tools/AVHRR_to_updated_spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 99c1813..b2bc739 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = rootgrp.variables["lm"][0, 0]
-    sensor_2_name = rootgrp.variables["lm"][0, 1]
+    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
+    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
-- 
2.43.0


From 10302f5f344c83024dcd30f53654cf5c7fb816cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 48/92] fix: keep 3.7um files apart from the other channels'
 ones

---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index b2bc739..604aaa3 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == "37":
+    if band == 37:
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
-- 
2.43.0


From 6bd693fbb165d78a80791413f746d02e26997192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 49/92] fix: take the brightness temperatures under the name
 they were given for the temperature limit

---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 604aaa3..dc06878 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -707,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT11']['data'], temp_lim)
+                                                    additional_variables['BT']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From 720d2b9c444a708cb117d403aeec10da5a1dbf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 50/92] fix: build the second MW sensor's weighting matrix from
 its own times

---
 tools/MW_add_W_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index 508c069..a507daa 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -82,7 +82,7 @@ def read_matchup_data(file_path):
     sensor_2_name = dataset.sensor_2_name
 
     time1 = dataset.variables['time1'][:]
-    time2 = dataset.variables['time1'][:]
+    time2 = dataset.variables['time2'][:]
 
     uR1 = dataset.variables['Ur1'][0, :]
     uR2 = dataset.variables['Ur2'][0, :]
-- 
2.43.0


From a955b9417f989d2227fd92bde2675589b3742b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 51/92] fix: size the first MW sensor's uncertainty vectors by
 its own weighting matrix

---
 tools/MW_add_W_matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index a507daa..7e6c669 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -177,8 +177,8 @@ def return_w_matrix_variables_MW(time1, time2, scanline_time, uR1, uR2, weights,
         # a. Compute W data
         w_matrix1, u_matrix10 = generate_rolling_average_w_matrix(time1, scanline_time, float(uR1[0]), weights=weights)
         w_matrices = [w_matrix1, w_matrix2]
-        u_matrix11 = ones(len(u_matrix20)) * uR1[1]
-        u_matrix12 = ones(len(u_matrix20)) * uR1[2]
+        u_matrix11 = ones(len(u_matrix10)) * uR1[1]
+        u_matrix12 = ones(len(u_matrix10)) * uR1[2]
 
         u_matrices = [u_matrix10, u_matrix11, u_matrix12, u_matrix20, u_matrix21, u_matrix22]
 
-- 
2.43.0


From 21d9bc39e4e5afbb47a0c4872dac26fc3b7ea522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 52/92] fix: convert radiances to brightness temperatures
 without asking for temperatures

---
 tools/convert_bt_to_radiance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/convert_bt_to_radiance.py b/tools/convert_bt_to_radiance.py
index e020db7..7f0fdbe 100644
--- a/tools/convert_bt_to_radiance.py
+++ b/tools/convert_bt_to_radiance.py
@@ -132,7 +132,7 @@ class convertBT(object):
         C1 = 1.191062E-5
         C2 = 1.4387863
         
-        if isinstance(temperature,np.ndarray):
+        if isinstance(rad,np.ndarray):
             outBT = np.zeros(rad.shape)
             if 3 == len(rad.shape):
                 outBT[:,:,:] = float('nan')
-- 
2.43.0


From 4d01be4bedc5fc474d6a1c9bff069f3ffafaa9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 53/92] fix: no temperature for invalid radiances in
 one-dimensional arrays

---
 tools/convert_bt_to_radiance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/convert_bt_to_radiance.py b/tools/convert_bt_to_radiance.py
index 7f0fdbe..d5e636c 100644
--- a/tools/convert_bt_to_radiance.py
+++ b/tools/convert_bt_to_radiance.py
@@ -138,7 +138,7 @@ class convertBT(object):
                 outBT[:,:,:] = float('nan')
             elif 2 == len(rad.shape):
                 outBT[:,:] = float('nan')
-            elif 2 == len(rad.shape):
+            elif 1 == len(rad.shape):
                 outBT[:] = float('nan')
 
             gd = (rad > 0.) & np.isfinite(rad)     
-- 
2.43.0


From 3ee9816e28510fe43db4476fb6626a160766f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 54/92] fix: convert sparse rows with unordered column indices
 to banded rows

A row whose column indices are neither ascending nor descending was given
too few banded elements, and its elements were stored outside of them.
---
 .../src/main/fortran/gpl/mod_matrices.F90              | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
index 7e8ca36..9e15093 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
@@ -615,8 +615,8 @@ contains
     l = 0
     do i = 1, m, s
       if (ia(i + 1) > ia(i)) then
-        !! Invariant with respect to ascending or descending ordering of column indices
-        k = k + abs( ja(ia(i + 1) - 1) - ja(ia(i)) ) + 1
+        !! Invariant with respect to the ordering of column indices
+        k = k + maxval( ja(ia(i):ia(i + 1) - 1) ) - minval( ja(ia(i):ia(i + 1) - 1) ) + 1
       end if
       l = l + 1
     end do
@@ -633,11 +633,11 @@ contains
     do i = 1, m, s
       ib(l + 1) = k
       if (ia(i + 1) > ia(i)) then
-        !! Invariance with respect to ascending or descending ordering of column indices
-        jb(l + 1) = min( ja(ia(i)), ja(ia(i + 1) - 1) )
+        !! Invariance with respect to the ordering of column indices
+        jb(l + 1) = minval( ja(ia(i):ia(i + 1) - 1) )
         b(ja(ia(i):ia(i + 1) - 1) - jb(l + 1) + k) = a(ia(i):ia(i + 1) - 1)
         b(ja(ia(i):ia(i + 1) - 1) - jb(l + 1) + k) = a(ia(i):ia(i + 1) - 1)
-        k = k + abs( ja(ia(i + 1) - 1) - ja(ia(i)) ) + 1
+        k = k + maxval( ja(ia(i):ia(i + 1) - 1) ) - jb(l + 1) + 1
       end if
       l = l + 1
     end do
-- 
2.43.0


From fd9e09811a7d0d1be2f16ad625a4d9a35cde3a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 55/92] fix: refuse row pointers and column indices that are
 not in CRS format

Row pointers which do not begin at the index base or do not ascend, and
column indices below the index base, led to elements being read and stored
outside of the arrays.
---
 .../src/main/fortran/gpl/mod_matrices.F90              | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
index 9e15093..a6224d7 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
@@ -774,6 +774,16 @@ contains
       end if
     end do
 
+    if (any( nnz < 0 ) .or. sum( int( nnz, long ) ) > size( ja, kind=long )) then
+      error stop "Invalid CRS format" !! @todo handle error
+    end if
+    if (any( ia(1, :) /= start_index ) .or. any( ia(2:m + 1, :) < ia(1:m, :) )) then
+      error stop "Invalid CRS format" !! @todo handle error
+    end if
+    if (any( ja < start_index )) then
+      error stop "Invalid CRS format" !! @todo handle error
+    end if
+
     if (start_index == 0) then !! convert from C format into Fortan format
       ia = ia + 1
       ja = ja + 1
-- 
2.43.0


From ed459749cd29c99b217a090ae9b97de795b7fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 56/92] fix: check the uncertainties of the second sensor for
 huge values

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index 2ef98cb..c1fbe34 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -235,7 +235,7 @@ contains
     call assert_not_infinite( ur1, "Ur1" )
     call assert_not_infinite( ur2, "Ur2" )
     call assert_not_huge( ur1, "Ur1" )
-    call assert_not_huge( ur1, "Ur2" )
+    call assert_not_huge( ur2, "Ur2" )
     call read_variable( ncid, "Us1", us1, 0.0_cp )
     call read_variable( ncid, "Us2", us2, 0.0_cp )
     call assert_not_nan( us1, "Us1" )
@@ -243,7 +243,7 @@ contains
     call assert_not_infinite( us1, "Us1" )
     call assert_not_infinite( us2, "Us2" )
     call assert_not_huge( us1, "Us1" )
-    call assert_not_huge( us1, "Us2" )
+    call assert_not_huge( us2, "Us2" )
     !! 5.c) Allocate storage for matrix metadata
     allocate (u_types1(m1 + m1))
     allocate (u_types2(m2 + m2))
-- 
2.43.0


From 314292a122ddfbf9d8e2961733e0082a5d57d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 57/92] fix: take the uncertainty types of the selected
 telemetry columns

With a column selection, the matrices of a column were built according to
the uncertainty type of another column.
---
 .../src/main/fortran/gpl/mod_reader.F90       | 48 +++++++------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index c1fbe34..f5c5992 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -430,56 +430,40 @@ contains
     integer, intent(out) :: ic(:)
     integer, intent(out) :: iv(:)
     integer, intent(out) :: iw(:)
+    integer :: c
     integer :: l
 
     do l = 1, r
-      select case (u_types(l))
+      if (config_job_sensor_columns_select(i)) then
+        c = config_job_sensor_columns(i, l)
+      else
+        c = l
+      end if
+      select case (u_types(c))
         case (C_INDEPENDENT)
-          if (config_job_sensor_columns_select(i)) then
-            call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
-          else
-            call add_d_matrix( ur(l, 1:m:s), ic(l) )
-          end if
+          call add_d_matrix( ur(c, 1:m:s), ic(l) )
           if (ic(l) == 0) then
             call log_error( "mod_reader", "the maximum number of C matrices is exceeded ", CONFIG_CAPACITY_MATRICES )
             error stop "The maximum number of C matrices is exceeded"
           end if
         case (C_INDEPENDENT_PERTURBED)
           if (.not. config_job_enable_covariance_common) then
-            u_types(l) = C_INDEPENDENT
-            if (config_job_sensor_columns_select(i)) then
-              call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
-            else
-              call add_d_matrix( ur(l, 1:m:s), ic(l) )
-            end if
+            u_types(c) = C_INDEPENDENT
+            call add_d_matrix( ur(c, 1:m:s), ic(l) )
           else
-            if (config_job_sensor_columns_select(i)) then
-              call add_b_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), us(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
-            else
-              call add_b_matrix( ur(l, 1:m:s), us(l, 1:m:s), ic(l) )
-            end if
+            call add_b_matrix( ur(c, 1:m:s), us(c, 1:m:s), ic(l) )
           end if
           if (ic(l) == 0) then
             call log_error( "mod_reader", "the maximum number of C matrices is exceeded ", CONFIG_CAPACITY_MATRICES )
             error stop "The maximum number of C matrices is exceeded"
           end if
         case (C_STRUCTURED)
-          if (config_job_sensor_columns_select(i)) then
-            iv(l) = v_matrix_indices(u_matrix_use(config_job_sensor_columns(i, l)))
-            iw(l) = w_matrix_indices(w_matrix_use(config_job_sensor_columns(i, l)))
-          else
-            iv(l) = v_matrix_indices(u_matrix_use(l))
-            iw(l) = w_matrix_indices(w_matrix_use(l))
-          end if
+          iv(l) = v_matrix_indices(u_matrix_use(c))
+          iw(l) = w_matrix_indices(w_matrix_use(c))
         case (C_STRUCTURED_PERTURBED) !! not yet supported, treated like structured random correlation
-          u_types(l) = C_STRUCTURED
-          if (config_job_sensor_columns_select(i)) then
-            iv(l) = v_matrix_indices(u_matrix_use(config_job_sensor_columns(i, l)))
-            iw(l) = w_matrix_indices(w_matrix_use(config_job_sensor_columns(i, l)))
-          else
-            iv(l) = v_matrix_indices(u_matrix_use(l))
-            iw(l) = w_matrix_indices(w_matrix_use(l))
-          end if
+          u_types(c) = C_STRUCTURED
+          iv(l) = v_matrix_indices(u_matrix_use(c))
+          iw(l) = w_matrix_indices(w_matrix_use(c))
       end select
     end do
   end subroutine
-- 
2.43.0


From dfac3bb67cdf7654ffe58f33940f368e62482067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 58/92] fix: refuse subsetting steps that are not positive

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index f5c5992..2d866f0 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -172,6 +172,7 @@ contains
     end if
 
     !! 3) Create a new matchup dataset
+    call assert_true( s > 0, "invalid subsetting step" )
     m_act = m / s + min( 1, mod( m, s ) )
     call log_debug( "mod_reader", "adding matchup dataset: ", m_act )
     call add_matchup( name, i, j, m_act, ri, rj, m_id, uuid )
-- 
2.43.0


From 224976bd10fe744a309ee369c1bf7843905e067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 59/92] fix: refuse the selection of telemetry columns that do
 not exist

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index 2d866f0..a6fb2dc 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -210,11 +210,15 @@ contains
       call assert_not_huge( x2(m2 + 1:m2 + m2,:), "Us2" )
     end if
     if (config_job_sensor_columns_select(i)) then
+      call assert_true( all( config_job_sensor_columns(i, 1:ri) >= 1 ), "invalid sensor columns 1" )
+      call assert_true( all( config_job_sensor_columns(i, 1:ri) <= size( x1, 1 ) ), "invalid sensor columns 1" )
       call set_qi( m_id, transpose( x1(config_job_sensor_columns(i, 1:ri), 1:m:s) ) )
     else
       call set_qi( m_id, transpose( x1(1:ri, 1:m:s) ) )
     end if
     if (config_job_sensor_columns_select(j)) then
+      call assert_true( all( config_job_sensor_columns(j, 1:rj) >= 1 ), "invalid sensor columns 2" )
+      call assert_true( all( config_job_sensor_columns(j, 1:rj) <= size( x2, 1 ) ), "invalid sensor columns 2" )
       call set_qj( m_id, transpose( x2(config_job_sensor_columns(j, 1:rj), 1:m:s) ) )
     else
       call set_qj( m_id, transpose( x2(1:rj, 1:m:s) ) )
-- 
2.43.0


From 846160f731de2a7309d1be27c554e7448f670f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 60/92] fix: refuse structured telemetry columns without valid
 matrix numbers

The numbers were used as array indices without a check, and the index
arrays were not even allocated when the dataset has no matrices.
---
 .../src/main/fortran/gpl/mod_reader.F90       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index a6fb2dc..0b2471e 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -258,11 +258,20 @@ contains
     allocate (u_matrix_use2(m2))
     allocate (w_matrix_use1(m1))
     allocate (w_matrix_use2(m2))
+    u_matrix_use1 = 0
+    u_matrix_use2 = 0
+    w_matrix_use1 = 0
+    w_matrix_use2 = 0
     !! 5.d) Read matrix metadata
     call read_variable( ncid, "uncertainty_type1", u_types1(1:m1), 1 )
     call read_variable( ncid, "uncertainty_type2", u_types2(1:m2), 1 )
     call read_dimension( ncid, "u_matrix_count", u_matrix_count, 0 )
     call read_dimension( ncid, "w_matrix_count", w_matrix_count, 0 )
+    !! 5.e) Allocate storage for matrix indices
+    allocate (v_matrix_indices(u_matrix_count))
+    allocate (w_matrix_indices(w_matrix_count))
+    v_matrix_indices = 0
+    w_matrix_indices = 0
     if (u_matrix_count > 0 .and. w_matrix_count > 0) then
       call read_dimension( ncid, "u_matrix_row_count_sum", u_matrix_row_count_sum )
       call read_dimension( ncid, "w_matrix_nnz_sum", w_matrix_nnz_sum )
@@ -271,11 +280,6 @@ contains
       call read_variable( ncid, "u_matrix_use2", u_matrix_use2 )
       call read_variable( ncid, "w_matrix_use1", w_matrix_use1 )
       call read_variable( ncid, "w_matrix_use2", w_matrix_use2 )
-      !! 5.e) Allocate storage for matrix indices
-      allocate (v_matrix_indices(u_matrix_count))
-      allocate (w_matrix_indices(w_matrix_count))
-      v_matrix_indices = 0
-      w_matrix_indices = 0
       !! 5.f) Read U matrices
       call log_debug( "mod_reader", "reading U matrices: ", w_matrix_count )
       allocate (u_matrix_row_count(u_matrix_count))
@@ -463,12 +467,18 @@ contains
             error stop "The maximum number of C matrices is exceeded"
           end if
         case (C_STRUCTURED)
+          call assert_true( u_matrix_use(c) >= 1 .and. u_matrix_use(c) <= size( v_matrix_indices ), "invalid U matrix number" )
+          call assert_true( w_matrix_use(c) >= 1 .and. w_matrix_use(c) <= size( w_matrix_indices ), "invalid W matrix number" )
           iv(l) = v_matrix_indices(u_matrix_use(c))
           iw(l) = w_matrix_indices(w_matrix_use(c))
+          call assert_true( iv(l) > 0 .and. iw(l) > 0, "invalid matrix number" )
         case (C_STRUCTURED_PERTURBED) !! not yet supported, treated like structured random correlation
           u_types(c) = C_STRUCTURED
+          call assert_true( u_matrix_use(c) >= 1 .and. u_matrix_use(c) <= size( v_matrix_indices ), "invalid U matrix number" )
+          call assert_true( w_matrix_use(c) >= 1 .and. w_matrix_use(c) <= size( w_matrix_indices ), "invalid W matrix number" )
           iv(l) = v_matrix_indices(u_matrix_use(c))
           iw(l) = w_matrix_indices(w_matrix_use(c))
+          call assert_true( iv(l) > 0 .and. iw(l) > 0, "invalid matrix number" )
       end select
     end do
   end subroutine
-- 
2.43.0


From 46cd8b68832dd118dd6049b04ce4e0cf0e6a7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 61/92] fix: refuse matrix data of inconsistent sizes

The row counts and the numbers of non-zero elements were used to address
the matrix data without a check.
---
 .../src/main/fortran/gpl/mod_reader.F90                | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index 0b2471e..e248aa0 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -286,6 +286,8 @@ contains
       allocate (u_matrix_val(u_matrix_row_count_sum))
       call read_variable( ncid, "u_matrix_row_count", u_matrix_row_count )
       call read_variable( ncid, "u_matrix_val", u_matrix_val )
+      call assert_true( all( u_matrix_row_count >= 0 ), "invalid row count of a U matrix" )
+      call assert_true( sum( int( u_matrix_row_count, long ) ) == u_matrix_row_count_sum, "invalid row counts of U matrices" )
       call assert_not_nan( u_matrix_val, "u_matrix_val" )
       call assert_not_infinite( u_matrix_val, "u_matrix_val" )
       call assert_not_huge( u_matrix_val, "u_matrix_val" )
@@ -308,6 +310,10 @@ contains
       call read_variable( ncid, "w_matrix_row", w_matrix_row )
       call read_variable( ncid, "w_matrix_col", w_matrix_col )
       call read_variable( ncid, "w_matrix_val", w_matrix_val )
+      call assert_true( w_matrix_row_count == m + 1, "invalid row count of W matrices" )
+      call assert_true( all( w_matrix_nnz >= 0 ), "invalid number of non-zero elements in a W matrix" )
+      call assert_true( sum( int( w_matrix_nnz, long ) ) == w_matrix_nnz_sum, "invalid numbers of non-zero elements in W matrices" )
+      call assert_true( all( w_matrix_col <= u_matrix_row_count_sum ), "invalid column index of a W matrix" )
       call assert_not_nan( w_matrix_val, "w_matrix_val" )
       call assert_not_infinite( w_matrix_val, "w_matrix_val" )
       call assert_not_huge( w_matrix_val, "w_matrix_val" )
@@ -424,6 +430,8 @@ contains
     use mod_matrices, only: C_STRUCTURED_PERTURBED
     use mod_matrices, only: add_b_matrix
     use mod_matrices, only: add_d_matrix
+    use mod_matrices, only: v_matrices
+    use mod_matrices, only: w_matrices
 
     integer, intent(in) :: i
     integer, intent(in) :: r
@@ -472,6 +480,7 @@ contains
           iv(l) = v_matrix_indices(u_matrix_use(c))
           iw(l) = w_matrix_indices(w_matrix_use(c))
           call assert_true( iv(l) > 0 .and. iw(l) > 0, "invalid matrix number" )
+          call assert_true( w_matrices(iw(l))%n <= v_matrices(iv(l))%m, "invalid column index of a W matrix" )
         case (C_STRUCTURED_PERTURBED) !! not yet supported, treated like structured random correlation
           u_types(c) = C_STRUCTURED
           call assert_true( u_matrix_use(c) >= 1 .and. u_matrix_use(c) <= size( v_matrix_indices ), "invalid U matrix number" )
@@ -479,6 +488,7 @@ contains
           iv(l) = v_matrix_indices(u_matrix_use(c))
           iw(l) = w_matrix_indices(w_matrix_use(c))
           call assert_true( iv(l) > 0 .and. iw(l) > 0, "invalid matrix number" )
+          call assert_true( w_matrices(iw(l))%n <= v_matrices(iv(l))%m, "invalid column index of a W matrix" )
       end select
     end do
   end subroutine
-- 
2.43.0


From 4d8df94f9140a60a0b1a7ceb8b0e7bd8fabefb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 62/92] fix: give the correct date and time for instants after
 January 2038 and just before midnight

The seconds were converted to a default integer, which overflows after
2038-01-19, and the rounded Julian date gave the next day for the last
moments of a day.
---
 .../src/main/fortran/gpl/mod_time.F90         | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
index 5cc5bf7..d61fed6 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
@@ -22,7 +22,7 @@
 !! @author Ralf Quast
 !! @copyright GNU Public License.
 module mod_time
-  use mod_base, only: dp, sp
+  use mod_base, only: dp, sp, long
 
   implicit none
 
@@ -56,15 +56,15 @@ contains
   function iso_date_and_time( uts ) result (iso)
     real(kind=dp), intent(in) :: uts
     character(len=16) :: iso
-    real(kind=dp) :: jd
+    integer(kind=long) :: seconds
     integer :: day, month, year, date, time, hour, minute, secs
     integer :: jdn
     integer :: e
     integer :: f
     integer :: g
     integer :: h
-    !! The Unix epoch expressed as Julian date
-    real(kind=dp), parameter  :: EPOCH_19700101T000000Z = 2440587.5_dp
+    !! The Julian day number of the Unix epoch
+    integer, parameter :: EPOCH_19700101 = 2440588
     !! Constants from Richards (2013)
     integer, parameter :: B = 274277
     integer, parameter :: J = 1401
@@ -79,9 +79,10 @@ contains
     integer, parameter :: W = 2
     integer, parameter :: Y = 4716
 
-    !! Compute Julian date and Julian day number
-    jd = EPOCH_19700101T000000Z + uts / 86400.0_dp
-    jdn = int( floor( jd + 0.5_dp ) )
+    !! Compute Julian day number
+    seconds = floor( uts, kind=long )
+    secs = int( modulo( seconds, 86400_long ) )
+    jdn = EPOCH_19700101 + int( (seconds - secs) / 86400_long )
 
     !! Compute years, months, days (Richards 2013)
     f = jdn + J + (((4 * jdn + B) / 146097) * 3) / 4 + C
@@ -93,10 +94,6 @@ contains
     year = (e / P) - Y + (N + M - month) / N
 
     !! Compute hours, minutes, and seconds
-    secs = mod( int( floor( uts ) ), 86400 )
-    if (secs < 0) then
-      secs = secs + 86400
-    end if
     hour = secs / 3600
     minute = (secs - hour * 3600) / 60
     secs = secs - hour * 3600 - minute * 60
-- 
2.43.0


From 814e51fdabd396e0dfc443d2ee987cfa549ab5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 63/92] fix: write the inverse unit to the K residual weights
 instead of the K residual uncertainty

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 5249f19..57afdd9 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -227,7 +227,7 @@ contains
     if (config_job_enable_unit /= "") then
       call add_attribute( ncid, k_res_id, "units", config_job_enable_unit )
       call add_attribute( ncid, k_res_unc_id, "units", config_job_enable_unit )
-      call add_attribute( ncid, k_res_unc_id, "units", "1 / "//config_job_enable_unit )
+      call add_attribute( ncid, k_res_weights_id, "units", "1 / "//config_job_enable_unit )
       call add_attribute( ncid, meas_i_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_j_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_i_unc_q_id, "units", config_job_enable_unit )
-- 
2.43.0


From 6af57b7adf9452d6bf648d4ed705830765b1cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 64/92] fix: write the time of measurement in double precision

Single precision resolves present times to about two minutes only.
---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 57afdd9..46d0eb7 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -203,7 +203,7 @@ contains
     call add_dimension( ncid, config_name_dim_m, ds%m, m_id )
 
     !! 4) Add variables
-    call add_var_vector( ncid, real( ds%t, cp ), m_id, config_name_var_time, &
+    call add_var_vector( ncid, ds%t, m_id, config_name_var_time, &
       config_desc_var_time, t_id )
     call add_attribute( ncid, t_id, "units", config_unit_var_time )
     call add_var_vector( ncid, real( ds%k_res, cp ), m_id, config_name_var_k_res, &
-- 
2.43.0


From fdbbd7d8a3fda855becb84337b7de33be5145d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 65/92] fix: use the configured names of the result datasets

The configured name of the parameter dataset was always ignored, and the
sensor names and the extension were cut off the configured name of the
residuals datasets.
---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
index 0ea9ea0..7fa624c 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
@@ -551,7 +551,7 @@ contains
     character(len=*), parameter  :: pre = "harm"
     character(len=1), parameter  :: sep = "_"
 
-    if (len( config_name_parameter_dataset ) > 0) then
+    if (config_name_parameter_dataset == "") then
       name = pre
       name = trim( name )//sep//trim( config_value_att_software )
       name = trim( name )//sep//trim( config_value_att_software_version )
@@ -599,7 +599,7 @@ contains
       name = trim( name )//sep//trim( sensor_j_name )
       name = trim( name )//trim( ext )
     else
-      name = config_name_residuals_dataset//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
+      name = trim( config_name_residuals_dataset )//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
     end if
   end function get_residuals_dataset_name
 
-- 
2.43.0


From 85d20133aeddd633238598cc8fd5a4cc6567ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 66/92] fix: refuse invalid sensor indices in the look-up of
 parameter index ranges

---
 .../src/main/fortran/gpl/mod_sensors.F90                    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_sensors.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_sensors.F90
index 826084a..30a2208 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_sensors.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_sensors.F90
@@ -275,15 +275,17 @@ contains
     sensors(i)%prior_x = x
   end subroutine set_sensor_prior_x
 
-  pure integer function get_start_index_x( i )
+  integer function get_start_index_x( i )
     integer, intent(in) :: i
 
+    call assert_sensor( i )
     get_start_index_x = istart(i)
   end function get_start_index_x
 
-  pure integer function get_final_index_x( i )
+  integer function get_final_index_x( i )
     integer, intent(in) :: i
 
+    call assert_sensor( i )
     get_final_index_x = ifinal(i)
   end function get_final_index_x
 
-- 
2.43.0


From 2a90c5d6d18c58bcf7c77ff46ecc8545d9915ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 67/92] fix: do not overflow the row counter when the
 subsetting step exceeds the number of matrix rows

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
index a6224d7..f4809f8 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_matrices.F90
@@ -613,7 +613,7 @@ contains
     !! Count number of banded elements
     k = 0
     l = 0
-    do i = 1, m, s
+    do i = 1, m, min( s, max( m, 1 ) )
       if (ia(i + 1) > ia(i)) then
         !! Invariant with respect to the ordering of column indices
         k = k + maxval( ja(ia(i):ia(i + 1) - 1) ) - minval( ja(ia(i):ia(i + 1) - 1) ) + 1
@@ -630,7 +630,7 @@ contains
     !! Traverse banded elements
     k = 1
     l = 0
-    do i = 1, m, s
+    do i = 1, m, min( s, max( m, 1 ) )
       ib(l + 1) = k
       if (ia(i + 1) > ia(i)) then
         !! Invariance with respect to the ordering of column indices
-- 
2.43.0


From cca843133d554bcc748aa39230a318ba628fdb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 68/92] fix: report an overlong text attribute of a data set
 instead of overflowing the string it is read into

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_nc.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_nc.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_nc.F90
index bb69b95..b4de7d4 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_nc.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_nc.F90
@@ -763,15 +763,22 @@ contains
   !! @param[in] default_value The default attribute value to return, if the attribute is not present.
   subroutine read_global_attribute_scalar_text( ncid, name, value, default_value )
     use netcdf, only: nf90_get_att, nf90_global
+    use netcdf, only: nf90_inquire_attribute
 
     integer, intent(in)  :: ncid
     character(len=*), intent(in) :: name
     character(len=*), intent(out) :: value
     character(len=*), intent(in), optional :: default_value
+    integer :: nlen
 
     if (.not. has_global_attribute( ncid, name ) .and. present(default_value)) then
       value = default_value
     else
+      call assert_status( nf90_inquire_attribute( ncid, nf90_global, trim( name ), len=nlen ), name )
+      if (nlen > len( value )) then
+        call handle_error( message="attribute text is too long", what=name )
+      end if
+      value = ""
       call assert_status( nf90_get_att( ncid, nf90_global, trim( name ), value ), name )
     end if
   end subroutine read_global_attribute_scalar_text
-- 
2.43.0


From 180c6a6aeba3e357befff85188c309cf3dddccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 69/92] Revert "fix: take the brightness temperatures under the
 name they were given for the temperature limit"

This reverts commit 6bd693fbb165d78a80791413f746d02e26997192.
---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index dc06878..604aaa3 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -707,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT']['data'], temp_lim)
+                                                    additional_variables['BT11']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From d22728001a6d10d25f57a12e84e6e0f9123d5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 70/92] Revert "fix: keep 3.7um files apart from the other
 channels' ones"

This reverts commit 10302f5f344c83024dcd30f53654cf5c7fb816cd.
---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 604aaa3..b2bc739 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == 37:
+    if band == "37":
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
-- 
2.43.0


From a194dd50fceff639bc42e3f6ce735220a089d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 71/92] Revert "fix: read the sensor IDs of AVHRR match-ups as
 integers"

This reverts commit cf4a88ff673c190ed1fde691f1a7b8b63f58d28a.
---
 tools/AVHRR_to_updated_spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index b2bc739..99c1813 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
-    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
+    sensor_1_name = rootgrp.variables["lm"][0, 0]
+    sensor_2_name = rootgrp.variables["lm"][0, 1]
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
-- 
2.43.0


From 9c9f2c20d864a023c22ec978a43dd86038d08ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 72/92] fix: take every form of reference sensor uncertainty
 into the solver's Jacobian

Residuals include systematic and structured errors of the reference sensor, but its Jacobian rows were those of
random errors only: solutions and covariances were wrong with a systematic error and failed with a structured one.
---
 .../harmonisation_eiv/GN_algo.py              | 168 ++++++++----------
 1 file changed, 78 insertions(+), 90 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 9b5ed69..072470a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -742,103 +742,91 @@ class GNAlgo(object):
 
                 # b. build product of (unweighted) Jacobian with vector
 
-                # > if reference sensor
+                # > reference sensors have no parameters, their measurand is the covariate itself
                 if JR is None:
+                    JR = zeros((len(R), N_cov), dtype=float32)
+                    JR[:, 0] = 1
+
+                for n_cov in xrange(1, N_cov + 1):
 
                     # i. find variables location of data
-                    indices = [(j, k) for j, k in zip(self.HData.idx['n_sensor'], self.HData.idx['n_mu'])]
-                    im = indices.index((n_sensor, n_mu))
+                    indices = [(i1, i2, i3) for i1, i2, i3 in zip(self.HData.idx['n_sensor'],
+                                                                  self.HData.idx['n_mu'],
+                                                                  self.HData.idx['n_cov'])]
+                    im = indices.index((n_sensor, n_mu, n_cov))
                     ib = mcxyz[im]
                     ie = ib + int(self.HData.idx['N_var'][im])
                     block_unc = self.HData.unc[im]
 
-                    # ii. add products of Jacobian and vector to product vector
-                    if not transpose:
-                        JPx[istart:iend] = JPx[istart:iend] + s * JB * x[ib:ie] * block_unc.uR / uK
-                    elif transpose:
-                        JPx[ib:ie] = JPx[ib:ie] + s * JB * x[istart:iend] * block_unc.uR / uK
-
-                # > if sensor
-                else:
-                    for n_cov in xrange(1, N_cov + 1):
-
-                        # i. find variables location of data
-                        indices = [(i1, i2, i3) for i1, i2, i3 in zip(self.HData.idx['n_sensor'],
-                                                                      self.HData.idx['n_mu'],
-                                                                      self.HData.idx['n_cov'])]
-                        im = indices.index((n_sensor, n_mu, n_cov))
-                        ib = mcxyz[im]
-                        ie = ib + int(self.HData.idx['N_var'][im])
-                        block_unc = self.HData.unc[im]
-
-                        # ii. add products of Jacobian and vector to product vector, computed product depends on
-                        #     correlation form:
-
-                        # ~ random correlation
-                        if block_unc.typeID == 1:
-                            if not transpose:
-                                JPx[istart:iend] = JPx[istart:iend] + s * JB * JR[:, n_cov-1] * x[ib:ie] * block_unc.uR / uK
-                            elif transpose:
-                                JPx[ib:ie] = JPx[ib:ie] + s * JB * JR[:, n_cov - 1] * x[istart:iend] * block_unc.uR / uK
-
-                        # ~ random+systematic correlation
-                        if block_unc.typeID == 2:
-
-                            # get index of required systematic value
-                            isys = self.HData.idx['idx'][-1] - n_uS - 1 + block_unc.uS_i
-
-                            if not transpose:
-                                # > random component
-                                JPx[istart:iend] = JPx[istart:iend] + s*JB*JR[:, n_cov-1]*x[ib:ie]*block_unc.uR/uK
-                                # > systematic component
-                                JPx[istart:iend] = JPx[istart:iend] + s*(JB*JR[:, n_cov-1])*x[isys]*block_unc.uS/uK
-                                pass
-                            elif transpose:
-                                # > random component
-                                JPx[ib:ie] = JPx[ib:ie] + s*JB*JR[:, n_cov-1]*x[istart:iend]*block_unc.uR/uK
-                                # > systematic component
-                                JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*block_unc.uS/uK, x[istart:iend])
-                                pass
-
-                        # ~ structured correlation
-                        if block_unc.typeID == 3:
-                            w = self.HData.w_matrices[block_unc.w_i]
-                            u = self.HData.u_matrices[block_unc.u_i]
-                            if not transpose:
-                                JPx[istart:iend] = JPx[istart:iend] + s*JB*JR[:, n_cov-1]*w.dot(u*x[ib:ie])/uK
-                            elif transpose:
-                                JPx[ib:ie] = JPx[ib:ie] + s*u*w.T.dot(JB*JR[:, n_cov-1]*x[istart:iend]/uK)
-
-                        # ~ structured+systematic correlation
-                        if block_unc.typeID == 4:
-                            # get index of required systematic value
-                            isys = self.HData.idx['idx'][-1] - n_uS - 1 + block_unc.uS_i
-
-                            w = self.HData.w_matrices[block_unc.w_i]
-                            ur = self.HData.u_matrices[block_unc.u_i]
-                            us = block_unc.uS*ones(len(ur), dtype=float32)
-                            if not transpose:
-                                # > random component
-                                JPx[istart:iend] = JPx[istart:iend] + s*JB*JR[:, n_cov-1]*w.dot(ur*x[ib:ie])/uK
-                                # > systematic component
-                                JPx[istart:iend] = JPx[istart:iend] + s*(JB*JR[:, n_cov-1])*w.dot(us*x[isys])/uK
-
-                            elif transpose:
-                                # > random component
-                                JPx[ib:ie] = JPx[ib:ie] + s*ur*w.T.dot(JB*JR[:, n_cov-1]*x[istart:iend]/uK)
-                                # > systematic component
-                                JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*w.dot(us)/uK, x[istart:iend])
-
-                    # iii. add terms for as
-                    i_sensor_p = asarray([N_var+i for i, sn in enumerate(self.HData.idx["parameter_sensor"]) if sn == sensor_name])
-                    N_sensor_p = len(i_sensor_p)
-
-                    if not transpose:
-                        JPx[istart:iend] = JPx[istart:iend] \
-                                           + s * dot(outer(JB / uK, ones(N_sensor_p)) * JR[:, N_cov:N_cov + N_sensor_p], x[i_sensor_p])
-                    elif transpose:
-                        JPx[i_sensor_p] = JPx[i_sensor_p] \
-                                     + s * dot((outer(JB, ones(N_sensor_p)) * JR[:, N_cov:N_cov + N_sensor_p]).T, x[istart:iend] / uK)
+                    # ii. add products of Jacobian and vector to product vector, computed product depends on
+                    #     correlation form:
+
+                    # ~ random correlation
+                    if block_unc.typeID == 1:
+                        if not transpose:
+                            JPx[istart:iend] = JPx[istart:iend] + s * JB * JR[:, n_cov-1] * x[ib:ie] * block_unc.uR / uK
+                        elif transpose:
+                            JPx[ib:ie] = JPx[ib:ie] + s * JB * JR[:, n_cov - 1] * x[istart:iend] * block_unc.uR / uK
+
+                    # ~ random+systematic correlation
+                    if block_unc.typeID == 2:
+
+                        # get index of required systematic value
+                        isys = self.HData.idx['idx'][-1] - n_uS - 1 + block_unc.uS_i
+
+                        if not transpose:
+                            # > random component
+                            JPx[istart:iend] = JPx[istart:iend] + s*JB*JR[:, n_cov-1]*x[ib:ie]*block_unc.uR/uK
+                            # > systematic component
+                            JPx[istart:iend] = JPx[istart:iend] + s*(JB*JR[:, n_cov-1])*x[isys]*block_unc.uS/uK
+                            pass
+                        elif transpose:
+                            # > random component
+                            JPx[ib:ie] = JPx[ib:ie] + s*JB*JR[:, n_cov-1]*x[istart:iend]*block_unc.uR/uK
+                            # > systematic component
+                            JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*block_unc.uS/uK, x[istart:iend])
+                            pass
+
+                    # ~ structured correlation
+                    if block_unc.typeID == 3:
+                        w = self.HData.w_matrices[block_unc.w_i]
+                        u = self.HData.u_matrices[block_unc.u_i]
+                        if not transpose:
+                            JPx[istart:iend] = JPx[istart:iend] + s*JB*JR[:, n_cov-1]*w.dot(u*x[ib:ie])/uK
+                        elif transpose:
+                            JPx[ib:ie] = JPx[ib:ie] + s*u*w.T.dot(JB*JR[:, n_cov-1]*x[istart:iend]/uK)
+
+                    # ~ structured+systematic correlation
+                    if block_unc.typeID == 4:
+                        # get index of required systematic value
+                        isys = self.HData.idx['idx'][-1] - n_uS - 1 + block_unc.uS_i
+
+                        w = self.HData.w_matrices[block_unc.w_i]
+                        ur = self.HData.u_matrices[block_unc.u_i]
+                        us = block_unc.uS*ones(len(ur), dtype=float32)
+                        if not transpose:
+                            # > random component
+                            JPx[istart:iend] = JPx[istart:iend] + s*JB*JR[:, n_cov-1]*w.dot(ur*x[ib:ie])/uK
+                            # > systematic component
+                            JPx[istart:iend] = JPx[istart:iend] + s*(JB*JR[:, n_cov-1])*w.dot(us*x[isys])/uK
+
+                        elif transpose:
+                            # > random component
+                            JPx[ib:ie] = JPx[ib:ie] + s*ur*w.T.dot(JB*JR[:, n_cov-1]*x[istart:iend]/uK)
+                            # > systematic component
+                            JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*w.dot(us)/uK, x[istart:iend])
+
+                # iii. add terms for as
+                i_sensor_p = asarray([N_var+i for i, sn in enumerate(self.HData.idx["parameter_sensor"]) if sn == sensor_name],
+                                     dtype=int32)
+                N_sensor_p = len(i_sensor_p)
+
+                if not transpose:
+                    JPx[istart:iend] = JPx[istart:iend] \
+                                       + s * dot(outer(JB / uK, ones(N_sensor_p)) * JR[:, N_cov:N_cov + N_sensor_p], x[i_sensor_p])
+                elif transpose:
+                    JPx[i_sensor_p] = JPx[i_sensor_p] \
+                                 + s * dot((outer(JB, ones(N_sensor_p)) * JR[:, N_cov:N_cov + N_sensor_p]).T, x[istart:iend] / uK)
 
         ################################################################################################################
         # 4. Apply preconditioner transpose if transpose
-- 
2.43.0


From e84ad2b17fbc8faf7fabbff2af286c4f97b924fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 73/92] fix: take the reference sensor's systematic error into
 the preconditioner's covariance of K

---
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 441ea0e..629981c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -257,6 +257,9 @@ class PCAlgo:
                     JK = s * diag(JB) * block_unc.uR / uK
                     VK[istart:iend, istart:iend] = VK[istart:iend, istart:iend] + dot(JK, JK.T)
 
+                    if block_unc.typeID == 2:
+                        JT[istart:iend, block_unc.uS_i-1] = s * JB * block_unc.uS / uK
+
                 # > if sensor
                 else:
                     # build covariate by covariate, in a way depending on correlation form
-- 
2.43.0


From df649c23f47d5194d0b07b46165fa46f8d754b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 74/92] fix: give the PMH converter its command line

---
 tools/pmh2fiduceo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index fd43966..f04ea83 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -819,5 +819,4 @@ def main(parsed_cmdline):
     return 0
 
 if __name__ == "__main__":
-    #main(parsed_cmdline)
-    main()
+    main(parsed_cmdline)
-- 
2.43.0


From dd6db53e56b59d3aeb7a43e6723a707e91c9b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 75/92] fix: convert PMH match-up series of different sizes

The uncertainty of K was replaced by the first series' array of it.
---
 tools/pmh2fiduceo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index f04ea83..e3ce633 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -762,12 +762,12 @@ def run_conversion(input_directory, output_directory):
         uncertainty_type2 = array(uncertainty_type)
 
         K = H[i_start:i_end, -1]
-        Kr = full(n_mu, Kr)
+        Kr_mu = full(n_mu, Kr)
         Ks = zeros(n_mu)
 
         time = arange(i_start, i_end)
 
-        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
+        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr_mu, Ks,
                          time, time, sensor_1_name, sensor_2_name, additional_variables=None)
 
     logger.info("Adding W matrices...")
-- 
2.43.0


From 9578aa77b6d726baadaac369419743b178369fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 76/92] fix: refuse PMH data with differing W matrices or
 differing uncertainties

With only one of the two differing the first covariate's matrix and uncertainty were given to all.
---
 tools/pmh2fiduceo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index e3ce633..405f3d0 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -775,7 +775,7 @@ def run_conversion(input_directory, output_directory):
     nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
 
     # Check all W matrices the same
-    if (nW_w.count(nW_w[0]) != len(nW_w)) and (uR_w.count(uR_w[0]) != len(uR_w)):
+    if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
         raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
     else:
         w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
-- 
2.43.0


From f33dd6f081bc6dc92af08f32ad5d112d8cca1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 77/92] fix: size W matrices of converted PMH data by their own
 match-up series

Every file was given the W matrix of the last series.
---
 tools/pmh2fiduceo.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 405f3d0..8587c58 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -777,15 +777,15 @@ def run_conversion(input_directory, output_directory):
     # Check all W matrices the same
     if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
         raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
-    else:
-        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
-        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
-        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
 
     w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
     uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
 
-    for o, sensor_pair in zip(output_file_paths, Im):
+    for o, sensor_pair, n_mu in zip(output_file_paths, Im, Nm):
+        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(arange(n_mu), 1.0, uR_w[0], kernel_size=nW_w[0])
+        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
+        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
+
         if sensor_pair[0] == '0':
             w_matrix_use1 = array([0], int8)
             uncertainty_vector_use1 = array([0], int8)
-- 
2.43.0


From 3dc1d12326439e1c62fc3085f565ca21c13af075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 78/92] fix: convert PMH data without moving averages

---
 tools/pmh2fiduceo.py | 53 ++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 8587c58..6909734 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -770,32 +770,33 @@ def run_conversion(input_directory, output_directory):
         write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr_mu, Ks,
                          time, time, sensor_1_name, sensor_2_name, additional_variables=None)
 
-    logger.info("Adding W matrices...")
-    uR_w = [u for u,t in zip(uR, uncertainty_type) if t == 3]
-    nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
-
-    # Check all W matrices the same
-    if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
-        raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
-
-    w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-    uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-
-    for o, sensor_pair, n_mu in zip(output_file_paths, Im, Nm):
-        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(arange(n_mu), 1.0, uR_w[0], kernel_size=nW_w[0])
-        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
-        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
-
-        if sensor_pair[0] == '0':
-            w_matrix_use1 = array([0], int8)
-            uncertainty_vector_use1 = array([0], int8)
-        else:
-            w_matrix_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-            uncertainty_vector_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
-        append_W_to_input_file(o,
-                               w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz,
-                               uncertainty_vector_row_count, uncertainty_vector,
-                               w_matrix_use1, w_matrix_use2, uncertainty_vector_use1, uncertainty_vector_use2)
+    if 3 in uncertainty_type:
+        logger.info("Adding W matrices...")
+        uR_w = [u for u,t in zip(uR, uncertainty_type) if t == 3]
+        nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
+
+        # Check all W matrices the same
+        if (nW_w.count(nW_w[0]) != len(nW_w)) or (uR_w.count(uR_w[0]) != len(uR_w)):
+            raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
+
+        w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+        uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+
+        for o, sensor_pair, n_mu in zip(output_file_paths, Im, Nm):
+            w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(arange(n_mu), 1.0, uR_w[0], kernel_size=nW_w[0])
+            w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
+            uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
+
+            if sensor_pair[0] == '0':
+                w_matrix_use1 = array([0], int8)
+                uncertainty_vector_use1 = array([0], int8)
+            else:
+                w_matrix_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+                uncertainty_vector_use1 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
+            append_W_to_input_file(o,
+                                   w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz,
+                                   uncertainty_vector_row_count, uncertainty_vector,
+                                   w_matrix_use1, w_matrix_use2, uncertainty_vector_use1, uncertainty_vector_use2)
 
     logger.info("Saving True Parameters...")
     savetxt(os.path.join(output_directory, "atrue.txt"), atrue)
-- 
2.43.0


From 72d7e840d074608e5da0d4e7bea21f8e95b79986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 79/92] fix: open match-up files of a list of directories as
 those of one directory

Each directory's files were opened in the arbitrary order of its listing, and files other than match-ups failed.
---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index d23ae24..d20a844 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -182,7 +182,8 @@ class MatchUpReader:
                 dirs_matchup = paths_matchup
                 paths_matchup = []
                 for dir_matchup in dirs_matchup:
-                    paths_matchup += [pjoin(dir_matchup, fname) for fname in listdir(dir_matchup)]
+                    paths_matchup += sorted([pjoin(dir_matchup, fname)
+                                             for fname in listdir(dir_matchup) if fname[-3:] == ".nc"])
             else:
                 return None
 
-- 
2.43.0


From e2ca9b28b8e0d089de41d973e6af53b6130d25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 80/92] fix: evaluate sensor 2's harmonised radiances with the
 harmonised parameters

get_L2_harm() evaluated the measurement functions with the parameters attached to
the match-up data, not with those of the harmonisation result. It is the first one
asked for by get_kres_harm_harm(), so that the harmonised K residuals and radiances
plotted were those of the parameters before the harmonisation.
---
 .../harmonisationVis/HarmonisationVis.py              | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index ab1b688..e3ae565 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -95,15 +95,8 @@ class HarmonisationVis(MatchUpVis):
 
     def get_L2_harm(self):
         if self.L2_harm is None:
-            if self.MatchUpData is not None:
-                try:
-                    L_est = evaluate_adjusted_measurand(self.MatchUpData)
-                    self.L1_harm = L_est[:, 0]
-                    self.L2_harm = L_est[:, 1]
-                except:
-                    raise ValueError("Unable to evaluate harmonised radiances")
-            else:
-                raise ValueError("Matchup data not available")
+            # both sensors' harmonised radiances are evaluated together
+            self.get_L1_harm()
         return self.L2_harm
 
     def get_kres_harm_harm(self):
-- 
2.43.0


From 2e97d7d7015e6177503b3ea6c74c3d6521a1269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 81/92] fix: draw every point of a single curve with its own
 error bar

For one curve the error bars were not put in a list as the curve itself is, so that
the first point's error bar was drawn at all of the points. A curve of which no point
is left when NaNs are ignored, e.g. of a constant binned, ended the plotting.
---
 harmonisation_eiv/harmonisation/core/utils/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/plots.py b/harmonisation_eiv/harmonisation/core/utils/plots.py
index 20b3745..eacf8b4 100644
--- a/harmonisation_eiv/harmonisation/core/utils/plots.py
+++ b/harmonisation_eiv/harmonisation/core/utils/plots.py
@@ -145,9 +145,11 @@ def plot_scatter(savePath, Y, X, xlbl=None, ylbl=None, title=None, yerr=None, xe
             ax.axvline(x=x, linewidth=0.7, color='k')
 
     # add error bars to data points
-    if (type(X) != list) and ((type(X[0]) != list) & (type(X[0]) != ndarray)):
+    if (type(X) != list) and ((len(X) == 0) or ((type(X[0]) != list) & (type(X[0]) != ndarray))):
         X = [X]
         Y = [Y]
+        yerr = [yerr] if yerr is not None else None
+        xerr = [xerr] if xerr is not None else None
 
     colours = ["#1f78b4",
                "#a6cee3",
-- 
2.43.0


From 46d86af9dc8d74312cabc90c25214b94c7dca191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 82/92] fix: label binned lines by their own match-up series

The legend of the lines against the sensor state variables counted the series from
the first one, also where a series has no line because its second sensor has fewer
variables, or where a selection of the series is plotted. The names of a variable were
looked up before it was known that the sensor has it, and the variables of sensors
which are no series' second sensor were looked for, both ending the plotting.
---
 .../core/matchup/matchupVis/MatchUpVis.py     | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 282a6f5..907bb2e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -121,11 +121,14 @@ class MatchUpVis:
             return self.MatchUpData.sensor_data[sensor_name]["sensor_model_variable_names"][cov - 1]
         return "X" + str(cov)
 
+    def get_sensor_2_m_max(self):
+        return max([self.MatchUpData.idx['sensor_ms'][pair[1]] for pair in self.MatchUpData.idx['Im']])
+
     def set_Xmax_Xmin(self):
 
         Xmaxs = []
         Xmins = []
-        for cov in range(1, max(self.MatchUpData.idx['sensor_ms']) + 1):
+        for cov in range(1, self.get_sensor_2_m_max() + 1):
             Xmax_i = []
             Xmin_i = []
             for i, mu in enumerate(range(1, max(self.MatchUpData.idx['n_mu']) + 1)):
@@ -319,7 +322,7 @@ class MatchUpVis:
 
         # 2. Plot by X by match-up series
         # Loop through X
-        for cov in range(1, max(MatchUpData.idx['sensor_ms']) + 1):
+        for cov in range(1, self.get_sensor_2_m_max() + 1):
 
             Xmin = self.get_Xmin(cov)
             Xmax = self.get_Xmax(cov)
@@ -328,6 +331,7 @@ class MatchUpVis:
             averages = []
             stds = []
             Xaverages = []
+            labels = []
 
             # Plot per match-up series
             for i, mu in enumerate(mus):
@@ -336,13 +340,13 @@ class MatchUpVis:
                 i1 = MatchUpData.idx["cNm"][mu - 1]
                 i2 = MatchUpData.idx["cNm"][mu]
                 sensor_2_name = MatchUpData.idx['sensors'][MatchUpData.idx['Im'][mu - 1][1]]
-                cov_name = self.get_X_name(cov, sensor_2_name)
-                cov_label = "$"+self.get_X_label(cov, sensor_2_name) + "$ (Binned)"
                 mu_fn = matchup_fname_suffix[mu-1]
 
                 # Plot if sensor 2 of given match-up series has an cov-th X
                 sensor_2_m = MatchUpData.idx['sensor_ms'][MatchUpData.idx['Im'][mu - 1][1]]
                 if cov <= sensor_2_m:
+                    cov_name = self.get_X_name(cov, sensor_2_name)
+                    cov_label = "$"+self.get_X_label(cov, sensor_2_name) + "$ (Binned)"
                     X = MatchUpData.getVariableData(cov, sensor_2_name, mu)
 
                     # Bin data by match-up series limits
@@ -350,7 +354,7 @@ class MatchUpVis:
                     # Plot match-up series
                     fname_i = pjoin(directory, fname+"." + cov_name + "_" + sensor_2_name + "_binned." + mu_fn + ".pdf")
                     plot_scatter(fname_i, averages_i, Xaverages_i,
-                                 xlbl=cov_label+" - "+sensor_2_name, ylbl=title+" ("+matchup_labels[i]+")",
+                                 xlbl=cov_label+" - "+sensor_2_name, ylbl=title+" ("+matchup_labels[mu-1]+")",
                                  title="", yerr=stds_i, xerr=None, txt=None,
                                  line='-', legend=None, solid_ylines=[0], ylim=ylim)
                     # Bin data by full limits
@@ -358,12 +362,14 @@ class MatchUpVis:
                     averages.append(averages_i[~isnan(averages_i)])
                     stds.append(stds_i[~isnan(averages_i)])
                     Xaverages.append(Xaverages_i[~isnan(averages_i)])
+                    labels.append(matchup_labels[mu-1])
 
             # Plot X for all match-up series
-            plot_scatter(pjoin(directory, fname + "." + cov_name + "_sensor_2_binned.pdf"), averages, Xaverages,
-                         xlbl=cov_label + " - Sensor 2", ylbl=title, title="",
-                         yerr=stds, xerr=None, txt=None, line='-', legend=matchup_labels, legend_loc="outside",
-                         solid_ylines=[0], fig_size=(12, 8), ylim=ylim)
+            if labels:
+                plot_scatter(pjoin(directory, fname + "." + cov_name + "_sensor_2_binned.pdf"), averages, Xaverages,
+                             xlbl=cov_label + " - Sensor 2", ylbl=title, title="",
+                             yerr=stds, xerr=None, txt=None, line='-', legend=labels, legend_loc="outside",
+                             solid_ylines=[0], fig_size=(12, 8), ylim=ylim)
 
     def plot_Y_x_binned_line(self, directory, Y, x, x_name, x_label, title, fname, ylim=None, mus=None):
         """
@@ -428,7 +434,7 @@ class MatchUpVis:
             # Plot match-up series data
             fname_i = pjoin(directory, fname + "." + x_name + "_" + sensor_2_name + "_binned." + mu_fn + ".pdf")
             plot_scatter(fname_i, averages_i, averages_x_i,
-                         xlbl=x_label + " - " + sensor_2_name, ylbl=title + " (" + matchup_labels[i] + ")",
+                         xlbl=x_label + " - " + sensor_2_name, ylbl=title + " (" + matchup_labels[mu-1] + ")",
                          title="", yerr=stds_i, xerr=None, txt=None,
                          line='-', legend=None, solid_ylines=[0], ylim=ylim)
 
@@ -441,8 +447,8 @@ class MatchUpVis:
         # 3. Plot all match-up series together
         plot_scatter(pjoin(directory, fname + "." + x_name + "_sensor_2_binned.pdf"), averages, averages_x,
                      xlbl=x_label + " - Sensor 2", ylbl=title, title="",
-                     yerr=stds, xerr=None, txt=None, line='-', legend=matchup_labels, legend_loc="outside",
-                     solid_ylines=[0], fig_size=(12,8), ylim=ylim)
+                     yerr=stds, xerr=None, txt=None, line='-', legend=[matchup_labels[mu-1] for mu in mus],
+                     legend_loc="outside", solid_ylines=[0], fig_size=(12,8), ylim=ylim)
 
         return 0
 
-- 
2.43.0


From c33a3fb1e58983529873b17e6b50f96775028949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 83/92] fix: bin additional variables which have missing values

The range of the bins was taken with min() and max(), which depend on where the
missing values are and give no range if the first value is one of them.
---
 .../harmonisation/core/matchup/matchupVis/MatchUpVis.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 907bb2e..c41dd04 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -11,7 +11,7 @@ from os.path import join as pjoin
 import matplotlib
 # Force matplotlib to not use any Xwindows backend.
 matplotlib.use('Agg')
-from numpy import isnan, sort, arange, sort
+from numpy import isnan, sort, arange, sort, nanmin, nanmax
 from numpy.random import rand
 
 '''___harmonisation Modules___'''
@@ -406,8 +406,8 @@ class MatchUpVis:
         matchup_labels = self.get_mu_labels()
         matchup_fname_suffix = self.get_mu_fname_suffix()
 
-        xmin = min(x)
-        xmax = max(x)
+        xmin = nanmin(x)
+        xmax = nanmax(x)
 
         # b. Initialise data lists
         averages = []
@@ -428,7 +428,7 @@ class MatchUpVis:
 
             # Bin by x for match-up series (match-up series data range)
             x_i = x[i1:i2]
-            x_i_range = [min(x_i), max(x_i)]
+            x_i_range = [nanmin(x_i), nanmax(x_i)]
             averages_i, stds_i, averages_x_i = bin(Y[i1:i2], x_i, bins=50, X_range=x_i_range)
 
             # Plot match-up series data
-- 
2.43.0


From 3f71ba39a256afb92614f569f68e2367472ed188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 84/92] fix: start the harmonisation comparison plots

harm_comp_plot imported names the package does not export and gave its operator
arguments it does not have.
---
 .../harmonisation/tools/HarmonisationCompPlottingOp.py        | 4 +++-
 harmonisation_eiv/harmonisation/tools/harm_comp_plot.py       | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
index 30e8712..f1df8f0 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
@@ -9,7 +9,9 @@ Harmonsation Comparison Output Plotting Implementation
 '''___harmonisation Modules___'''
 from harmonisation.version import __version__, __tag__
 from common import *
-from harmonisation import open_matchup, HarmonisationResult, HarmonisationVis
+from harmonisation import open_matchup
+from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult import HarmonisationResult
+from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationVis.HarmonisationVis import HarmonisationVis
 
 
 '''___Authorship___'''
diff --git a/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py b/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
index ab72d1d..095241a 100644
--- a/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
+++ b/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
@@ -44,8 +44,8 @@ def main():
     conf = {}
 
     # Initialise object
-    harm_comp_op = HarmonisationComparisonPlottingOp(dataset_paths=dataset_dir,
-                                                     sensor_data_path=sensor_data,
+    harm_comp_op = HarmonisationComparisonPlottingOp(dataset_dir=dataset_dir,
+                                                     sensor_data=sensor_data,
                                                      output_dir=output_dir)
 
     # Run algorithm
-- 
2.43.0


From 6ada426a6f22dfafb5e3d2e025a56cd0a1143590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 85/92] fix: plot the density of data given per match-up series

The K residual density plots hand plot_density() lists of one array per series.
---
 harmonisation_eiv/harmonisation/core/utils/plots.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/utils/plots.py b/harmonisation_eiv/harmonisation/core/utils/plots.py
index eacf8b4..7db0197 100644
--- a/harmonisation_eiv/harmonisation/core/utils/plots.py
+++ b/harmonisation_eiv/harmonisation/core/utils/plots.py
@@ -315,6 +315,12 @@ def plot_density(path, y, x, bins, xlbl, ylbl, title, txt=None, *args, **kwargs)
     fig = plt.figure(figsize=(10, 8))
     ax = fig.add_subplot(111)
 
+    # Data may be given per match-up series
+    if type(x) == list:
+        x = np.concatenate(x)
+    if type(y) == list:
+        y = np.concatenate(y)
+
     # Remove nans from input data
     if x.dtype == float:
         y = y[~isnan(x)]
-- 
2.43.0


From 38e274c90cc162e2ed29e02a017e97c2fd64d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 86/92] fix: give LSMR options that are None their documented
 defaults

---
 .../harmonisation_eiv/pykrylov_lsmr.py                        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 43100e8..a36e43e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -192,6 +192,10 @@ class LSMRFramework(KrylovMethod):
         minDim = min([m, n])
 
         if itnlim is None: itnlim = minDim
+        if damp is None: damp = 0.0
+        if atol is None: atol = 1.0e-6
+        if btol is None: btol = 1.0e-6
+        if conlim is None: conlim = 1.0e+8
 
         if show:
             print ' '
-- 
2.43.0


From 8fdd1c447b72c9846e37c6c3aaa987f2ade02cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:42 +0000
Subject: [PATCH 87/92] fix: leave config_job_random, which the job namelist
 does not have, out of the job template

---
 .../src/main/resources-filtered/templates/template_job.nml       | 1 -
 1 file changed, 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml b/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
index c1a2012..978d122 100644
--- a/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
+++ b/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
@@ -1,6 +1,5 @@
 $job
    config_job_id                       = "01"
-   config_job_random                   = 0
    config_job_enable_covariance_matrix = F   
    config_job_enable_covariance_update = F
    config_job_enable_prior_data        = F
-- 
2.43.0


From 2f8412d487f96f0a29f177665e05e53689ff728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:32 +0000
Subject: [PATCH 88/92] fix: uncertainty of a sampled match-up from the
 measurements its weights name, in whatever order they are stored

---
 .../core/matchup/matchupProcessing/sample2ind/Sample2Ind.py  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
index a3c2cb2..14e21ce 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
@@ -186,9 +186,8 @@ class Sample2Ind:
                 w = MatchUpData.w_matrices[block_unc.w_i]
                 u = MatchUpData.u_matrices[block_unc.u_i]
                 for j, s_i in enumerate(s_idx):
-                    col_start = w.indices[w.indptr[s_i]]
-                    col_end = w.indices[w.indptr[s_i+1]-1]+1
-                    MatchUpSample.unc[i].uR[j] = npsum(u[col_start:col_end]**2)**0.5/(col_end-col_start)**0.5
+                    cols = w.indices[w.indptr[s_i]:w.indptr[s_i+1]]
+                    MatchUpSample.unc[i].uR[j] = npsum(u[cols]**2)**0.5/len(cols)**0.5
             else:
                 # If block error correlation form random or random and systematic simplify to random and sample
                 MatchUpSample.unc[i] = Uncertainty(1, deepcopy(block_unc.uR[s_idx]))
-- 
2.43.0


From 31c6125d1c6547d82325a1c6c866c82f4880b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:01 +0000
Subject: [PATCH 89/92] fix: open results whose name has the letters res in it,
 whatever else is kept beside them

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 656d9db..6a77fea 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -195,7 +195,7 @@ class HarmonisationResult:
 
         harm_output_path = None
 
-        harm_output_path_rule = re.compile('harm(?:(?!.*res.*).*)\.nc')
+        harm_output_path_rule = re.compile('harm(?:(?!.*_res_.*).*)\.nc$')
 
         for f in listdir(output_dir):
             if harm_output_path_rule.match(f):
@@ -223,7 +223,7 @@ class HarmonisationResult:
 
         harm_res_paths = []
 
-        harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
+        harm_res_path_rule = re.compile('harm(?:(?=.*_res_.*).*)\.nc$')
 
         for f in listdir(output_dir):
             if harm_res_path_rule.match(f):
-- 
2.43.0


From 38d503b5b9f3e6e328eaac137a51da7bf42e4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:00 +0000
Subject: [PATCH 90/92] fix: LSMR took small numbers in A for a large condition
 number in its first iteration

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index a36e43e..9460f5f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -412,8 +412,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0


From b3b47c5fec45bdfbdbefaf485832bbb523f78f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:33 +0000
Subject: [PATCH 91/92] fix: MINRES counted the right-hand side's size in its
 norm of A

---
 .../harmonisation_eiv/pykrylov_minres.py                       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 9160071..64ed5dd 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -253,7 +253,8 @@ class Minres(KrylovMethod):
                     istop = 9
                     break
                 beta   = sqrt(beta)
-                tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
+                tnorm2 = tnorm2 + alfa**2 + beta**2
+                if itn > 1: tnorm2 = tnorm2 + oldb**2   # beta1 is no entry of T
 
                 if itn==1:                    # Initialize a few things.
                     if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
-- 
2.43.0


From 65e7b24f5bd2ac3365082493738c1dce69e63099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:34 +0000
Subject: [PATCH 92/92] fix: MINRES took a large right-hand side for an
 eigenvector

---
 .../harmonisation_eiv/pykrylov_minres.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index 64ed5dd..2964eec 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -257,7 +257,7 @@ class Minres(KrylovMethod):
                 if itn > 1: tnorm2 = tnorm2 + oldb**2   # beta1 is no entry of T
 
                 if itn==1:                    # Initialize a few things.
-                    if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
+                    if beta <= 10*eps*abs(alfa):  # beta2 = 0 or ~ 0.
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-- 
2.43.0

