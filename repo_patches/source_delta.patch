From c28ea376a1cd69585a6e65cd9ef94f7aeb1f6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 01/29] fix: slow-capture traps lose the charge they release
 below the well notch

When the cloud still fills no volume after release (empty or negative pixel,
or charge within the notch), the released electrons were dropped instead of
being returned to the pixel.
---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a3a3362..cc5b380 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1304,7 +1304,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
@@ -2062,7 +2062,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
-- 
2.43.0


From f244f891d24271fefac71028dbf7e7a49be30956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 02/29] fix: partial capture below all watermarks uses stale
 fills of a superseded level

When there is room below the first active watermark, the new level must start
from the fills of the level it splits, not from whatever an old, superseded
level left in that slot. Otherwise charge is created or destroyed.
---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index cc5b380..903d5b9 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -832,7 +832,7 @@ void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities; // is this wrong? the new watermark level should be created full
 
@@ -1690,7 +1690,7 @@ void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities;
 
-- 
2.43.0


From 3ee8527e01b324cd5cdf429d1ccd593310c67edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 03/29] fix: slow-capture traps leave a negative volume above
 the top watermark

When the released charge lifts the cloud above all watermarks there is no level
to shorten; the unused slot above was given a negative volume, which later made
a new level too large.
---
 src/trap_managers.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 903d5b9..1f09d7d 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1333,9 +1333,10 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, if any
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
@@ -2091,9 +2092,10 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, if any
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
-- 
2.43.0


From 8bed7d77bf57f744cfc51ddf794baa6ff3d10db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 04/29] fix: pruning overfills traps when the level below holds
 fewer electrons

Pushing a watermark's electrons into a sparser (or empty) one below needs more
volume than is freed: the pixel volume was exceeded, or the level above was
left with a fill fraction above one (or a division by zero).
---
 src/trap_managers.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 1f09d7d..1cba0ec 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -351,7 +351,13 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
         } else {
             test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
         } 
-        if (test_value < test_criterion) {
+        if ((test_value < test_criterion) &&
+            // ...but only if the electrons fit, i.e. delta_volume_below (see below) is
+            // no more than the volume of this watermark
+            (n_trapped_electrons_in_watermark(i_wmk_prime - 1) > 0) &&
+            (watermark_volumes[i_wmk_prime - 1] * n_trapped_electrons_in_this_wmk <=
+             watermark_volumes[i_wmk_prime] *
+                 n_trapped_electrons_in_watermark(i_wmk_prime - 1))) {
             
             // Push the small number of electrons down into previous watermark
             // (redistributing them between trap species by keeping fill fractions 
-- 
2.43.0


From e8d73bd4bd763f0969574fd9f1e800694094fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 05/29] fix: pruning leaves old levels behind that later
 captures count

The slots vacated by pruning kept their volumes and fills, which the next cloud
above all watermarks took for the (empty) state of the unused volume.
---
 src/trap_managers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 1cba0ec..f49e996 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -454,6 +454,14 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
     }
     n_active_watermarks -= n_watermarks_pruned;
 
+    // Clear the slots above the active watermarks
+    for (int i_wmk = i_first_active_wmk + n_active_watermarks;
+         i_wmk < i_first_active_wmk + n_active_watermarks + n_watermarks_pruned;
+         i_wmk++) {
+        watermark_volumes[i_wmk] = 0.0;
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] = empty_watermark;
+    }
+
     // Count the total number of electrons in each watermark
     print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
     
-- 
2.43.0


From 9b367208358baea71154c7ab86ed605f7e9e04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 06/29] fix: instant-capture traps give NaN for no charge and
 nothing to capture

With a non-zero first_electron_fill an empty pixel has a cloud; if no traps are
available there, 0 / 0 electrons made every fill fraction NaN.
---
 src/trap_managers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index f49e996..256cb2c 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1010,7 +1010,7 @@ double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons)
     // Would be really nice to do this including the express multiplier.
     // That would also prevent image pixels from changing sign when zeroth_watermark<0.
     //
-    double enough = abs(n_free_electrons / n_captured);
+    double enough = (n_captured == 0.0) ? 1.0 : abs(n_free_electrons / n_captured);
     //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
 
     // Normal full capture
-- 
2.43.0


From 4128e05ef7c17b8ab6288e3487ca8a118b7fee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 07/29] fix: continuum traps give NaN for no charge and nothing
 to capture

---
 src/trap_managers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 256cb2c..0d5ef58 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1834,7 +1834,7 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = n_free_electrons / n_captured;
+    double enough = (n_captured == 0.0) ? 1.0 : n_free_electrons / n_captured;
 
     // Normal full capture
     if (enough >= 1.0) {
-- 
2.43.0


From 43d7ea93099a6db817135e2b27e4b17d9f0f9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 08/29] fix: surface traps give NaN for a watermark of no
 height

---
 src/traps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index d045d18..6b2d95c 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -118,6 +118,11 @@ double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
     else if (fractional_volume_high <= fractional_volume_none_exposed)
         return 0.0;
 
+    // A watermark of no height, e.g. two clouds of exactly the same volume
+    if (fractional_volume_high == fractional_volume_low)
+        return (fractional_volume_low - fractional_volume_none_exposed) /
+               (fractional_volume_full_exposed - fractional_volume_none_exposed);
+
     double fraction;
     // Integrate f(v) from v_l to v_h
     if (fractional_volume_none_exposed == fractional_volume_full_exposed) {
-- 
2.43.0


From 4d30aed50b09b759146b13e9bdd1c843a3618202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 09/29] fix: continuum traps give NaN in a phase with no traps

A fill fraction of 0 / 0 was looked up for every species whose density in that
phase is zero (fraction_of_traps_per_phase = 0).
---
 src/trap_managers.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 0d5ef58..f1d795d 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1519,6 +1519,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_c
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps in this phase
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1554,6 +1557,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released() {
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps in this phase
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1941,6 +1947,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_clou
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps in this phase
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2047,6 +2056,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps in this phase
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2125,6 +2137,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps in this phase
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2168,6 +2183,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps in this phase
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-- 
2.43.0


From acd367cab94791f7805ae435ac358df8da850a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 10/29] fix: express matrix loses a row when first transfers
 are separate and express is one less than all

---
 src/roe.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index b9cc7bd..1c173f3 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -248,7 +248,9 @@ void ROE::set_express_matrix_from_rows_and_express(
 
     // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
     // handled differently than the rest
-    if ((empty_traps_for_first_transfers) && (express < n_rows)) n_transfers--;
+    bool separate_first_transfers =
+        (empty_traps_for_first_transfers) && (express < n_transfers);
+    if (separate_first_transfers) n_transfers--;
 
     // Initialise an array with enough pixels to contain the supposed image,
     // including offset
@@ -280,7 +282,7 @@ void ROE::set_express_matrix_from_rows_and_express(
     // Add an extra (first) transfer for every pixel, the effect of which
     // will only ever be counted once, because it is physically different
     // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && (express >= n_transfers)) {
+    if ((empty_traps_for_first_transfers) && (!separate_first_transfers)) {
         // Reverse order of operations, so that first transfer always sees empty traps
         std::valarray<double> express_matrix_full = tmp_express_matrix;
         for (int i = 0; i < express; i++) {
@@ -291,7 +293,7 @@ void ROE::set_express_matrix_from_rows_and_express(
         }
         n_express_passes = express;
         
-    } else if ((empty_traps_for_first_transfers) && (express < n_transfers)) {
+    } else if (separate_first_transfers) {
         // Create a new matrix for the full number of transfers
         // (this will eventually overwrite tmp_express_matrix, but that is first used)
         n_transfers++;
-- 
2.43.0


From 081c1be557de811c7b6b441e551b0766fa7b0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 11/29] fix: overscan truncation runs past the image or the
 express passes

---
 src/roe.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 1c173f3..2dbc347 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -348,13 +348,12 @@ void ROE::set_express_matrix_from_rows_and_express(
     //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
     if (overscan_in_image > 0) {
         int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
+        for (int i_row = 0; (i_row < std::min(overscan_in_image, n_rows)); i_row++) {
             double to_remove = overscan_in_image - i_row;
             double removed = 0;
             int i_express = 0;
-            while (removed < to_remove) {
+            while ((removed < to_remove) && (i_express < n_express_rows)) {
                 int index = (n_express_rows - i_express) * n_rows - i_row - 1;
-                if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
                 //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
                 removed += express_matrix[index];
                 express_matrix[index] = fmax(removed - to_remove, 0);
-- 
2.43.0


From 17e7746bb8f934fd7a3347f4e798758b768852c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 12/29] fix: division by zero for charge injection with no
 transfers

---
 src/roe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 2dbc347..2b93c22 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -670,7 +670,7 @@ void ROEChargeInjection::set_express_matrix_from_rows_and_express(
     std::valarray<double> tmp_express_matrix(max_multiplier, express * n_rows);
 
     // Adjust integer multipliers to correct the total number of transfers
-    if ((use_integer_express_matrix) && (n_transfers % express != 0)) {
+    if ((use_integer_express_matrix) && (express > 0) && (n_transfers % express != 0)) {
         double current_n_transfers;
         double reduced_multiplier;
 
-- 
2.43.0


From 52ce35d427a27997543dd7b9315ff50cf5c2d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 13/29] fix: trap pumping drops pumps or reads past the
 multipliers for mismatched integer multipliers

---
 src/roe.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 2b93c22..4f343b8 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -889,16 +889,10 @@ void ROETrapPumping::set_express_matrix_from_rows_and_express(
 
         n_express_passes = express + 1;
         tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't include the final entry for
-        // mismatched integer multipliers
-        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
-
-            // Put back the final zero
-            tmp_col[n_express_passes - 1] = 0.0;
-        } else
-            tmp_col = tmp_col_2;
+        // Set the non-zero elements, which might not include the final entries
+        // for mismatched integer multipliers, which are left as zeros
+        // (Using slice here doesn't compile on mac for some odd reason...)
+        for (size_t i = 0; i < tmp_col_2.size(); i++) tmp_col[i] = tmp_col_2[i];
     }
 
     express_matrix.resize(n_rows * n_express_passes);
-- 
2.43.0


From cb773f529bc0f715c27c6d59eda9fe273210c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 14/29] fix: copying an ROE overwrites the array its target was
 built from and omits the number of pumps

---
 include/roe.hpp | 2 +-
 src/roe.cpp     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 3afc424..de7aa64 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -44,7 +44,7 @@ class ROE {
 
     ROE& operator=(const ROE& roe);
 
-    std::valarray<double>& dwell_times;
+    std::valarray<double> dwell_times;
     int prescan_offset;
     int overscan_start;
     bool empty_traps_between_columns;
diff --git a/src/roe.cpp b/src/roe.cpp
index 4f343b8..e03194c 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -160,6 +160,7 @@ ROE::ROE(
     }
     n_steps = dwell_times.size();
     n_phases = n_steps;
+    n_pumps = 0;
 }
 
 /* Assignment operator. */
@@ -174,6 +175,7 @@ ROE& ROE::operator=(const ROE& roe) {
     type = roe.type;
     n_steps = roe.n_steps;
     n_phases = roe.n_phases;
+    n_pumps = roe.n_pumps;
     return *this;
 }
 
-- 
2.43.0


From 20e2bdccc689505989cf4c729432b6923d199785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 15/29] fix: filled slow-capture traps with instant capture
 release without recapturing

---
 src/trap_managers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index f1d795d..aaeca9e 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1144,8 +1144,12 @@ void TrapManagerSlowCapture::set_fill_probabilities() {
                 traps[i_trap].capture_rate * exponential_factor;
 
         // Resulting fill fraction for filled traps (Eqn. 21)
-        fill_probabilities_from_full[i_trap] =
-            1.0 - traps[i_trap].release_rate * exponential_factor;
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant capture
+            fill_probabilities_from_full[i_trap] = 1.0;
+        else
+            fill_probabilities_from_full[i_trap] =
+                1.0 - traps[i_trap].release_rate * exponential_factor;
 
         // Resulting empty fraction from only release
         empty_probabilities_from_release[i_trap] =
-- 
2.43.0


From 5e72392fb4bfb8b7e66d21aae24709a29ce24e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 16/29] fix: slow-capture continuum traps with instant capture
 never capture

---
 src/traps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index 6b2d95c..afa2426 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -840,6 +840,11 @@ double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
     double exponential_factor = (1 - exp(-total_rate * p->dwell_time)) / total_rate;
     double fill_probability_from_empty = p->capture_rate * exponential_factor;
     double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
+    if (p->capture_rate == 0.0) {
+        // Instant capture
+        fill_probability_from_empty = 1.0;
+        fill_probability_from_full = 1.0;
+    }
 
     // Initial fill fraction
     double f_0;
-- 
2.43.0


From 3b07913e9b3f97a44ca56bf2044f8fb95af97723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 17/29] fix: log of zero for completely full slow-capture
 continuum traps

---
 src/traps.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index afa2426..48bf2aa 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -964,8 +964,10 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
 */
 double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
     double time_elapsed) {
-    // Very long elapsed time, or unset watermark
-    if (time_elapsed >= std::numeric_limits<double>::max())
+    // Completely full, very long elapsed time, or unset watermark
+    if (time_elapsed == 0.0)
+        return fill_capture_max;
+    else if (time_elapsed >= std::numeric_limits<double>::max())
         return fill_capture_long_time;
     else if (time_elapsed == -1.0)
         return 0.0;
-- 
2.43.0


From 68497771398b1a6fc7d129aa79241b455411a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 18/29] fix: continuum trap tables have no range for a single
 transfer

---
 src/trap_managers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index aaeca9e..4eb3e2f 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1473,7 +1473,8 @@ TrapManagerInstantCaptureContinuum::TrapManagerInstantCaptureContinuum(
     }
 
     time_min = dwell_time;
-    time_max = max_n_transfers * dwell_time;
+    // More than time_min, for the tables to have a range
+    time_max = std::max(max_n_transfers, 2) * dwell_time;
     n_intp = 1000;
 }
 
-- 
2.43.0


From 8b2e0b8ec3238dfe4c23439ffa50a1f8def03d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 19/29] fix: fill after slow capture can exceed one by the
 integration error

---
 src/traps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 48bf2aa..785fc9d 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -966,9 +966,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
     double time_elapsed) {
     // Completely full, very long elapsed time, or unset watermark
     if (time_elapsed == 0.0)
-        return fill_capture_max;
+        return clamp(fill_capture_max, 0.0, 1.0);
     else if (time_elapsed >= std::numeric_limits<double>::max())
-        return fill_capture_long_time;
+        return clamp(fill_capture_long_time, 0.0, 1.0);
     else if (time_elapsed == -1.0)
         return 0.0;
 
-- 
2.43.0


From ebfbaf2a6db13dee23fbc9cf8ceea021ad143fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 20/29] fix: pruning surface traps changes the number of
 trapped electrons

---
 include/trap_managers.hpp |  1 +
 src/trap_managers.cpp     | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/trap_managers.hpp b/include/trap_managers.hpp
index e45c56c..c0698bb 100644
--- a/include/trap_managers.hpp
+++ b/include/trap_managers.hpp
@@ -66,6 +66,7 @@ class TrapManagerInstantCapture : public TrapManagerBase {
     void setup();
 
     bool any_non_uniform_traps;
+    void prune_watermarks(double min_n_electrons = 0);
 
     double n_electrons_released();
     void update_watermarks_capture(
diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 4eb3e2f..9b762a9 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -589,6 +589,17 @@ void TrapManagerInstantCapture::setup() {
     set_fill_probabilities();
 }
 
+/*
+    See TrapManagerBase::prune_watermarks().
+
+    Levels of traps that are not uniform through the volume can't be merged by
+    volume alone without changing the number of trapped electrons, so keep them.
+*/
+void TrapManagerInstantCapture::prune_watermarks(double min_n_electrons) {
+    if (any_non_uniform_traps) return;
+    TrapManagerBase::prune_watermarks(min_n_electrons);
+}
+
 /*
     Release electrons from traps and update the watermarks.
 
-- 
2.43.0


From dd758dd9475ce62cc946434d8f3e64b81e77ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 21/29] fix: result depends on the number of threads when traps
 are kept between columns

---
 src/cti.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 84931b4..35ae572 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -311,7 +311,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     //print_array_2D((int)roe->store_trap_states_matrix, n_active_rows);
     // Loop over:
     //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
-    #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
+    // (in order, so by one thread, if the traps are kept between columns)
+    #pragma omp parallel for if(roe->empty_traps_between_columns) \
+                             private(column_index, row_index, row_read, row_write, n_free_electrons, \
 				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
                              firstprivate(trap_manager_manager)
     for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
-- 
2.43.0


From 50e21c3fd47bae587b375d0f2079faffdfa51b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 22/29] fix: verbose output reads instant-capture traps that do
 not exist

---
 src/cti.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 35ae572..b453438 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -402,7 +402,8 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             2, "n_electrons_released_and_captured  %g \n",
                             n_electrons_released_and_captured);
 
-                        print_v(
+                        if (trap_manager_manager.n_traps_ic > 0)
+                          print_v(
                            2, "n_trapped_electrons_from_watermarks  %g \n",
                             trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
 
-- 
2.43.0


From e6ec035bea8769165836a12077b60aafa3e692dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 23/29] fix: multi-phase clocking reads and writes outside the
 first and last rows

---
 src/cti.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index b453438..e56ee25 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -364,6 +364,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_read = row_index +
                                        roe_step_phase->capture_from_which_pixels[i];
 
+                            // Pixels beyond the edge of the image hold no charge
+                            if (row_read >= n_rows) continue;
+
                             n_free_electrons += image[row_read][column_index];
                         }
 
@@ -415,6 +418,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_write =
                                 row_index + roe_step_phase->release_to_which_pixels[i];
 
+                            // Charge can leave the edge of the image
+                            if (row_write >= n_rows) continue;
+
                             image[row_write][column_index] +=
                                 n_electrons_released_and_captured * express_multiplier *
                                 roe_step_phase->release_fraction_to_pixels[i];
-- 
2.43.0


From 30b8e703c9af755adce8de098d4be8fb1fd7ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 24/29] fix: trap pumping overruns the trap levels reserved for
 a single pass

---
 src/cti.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index e56ee25..a947094 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -109,6 +109,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         error(
             "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
             roe->n_phases);
+    if (roe->type == roe_type_trap_pumping) {
+        // The traps are not reset between pumps
+        max_n_transfers *= roe->n_express_passes;
+    }
     if (!roe->empty_traps_between_columns) {
         // Account for the complete set of capture/release events that might
         // need to be tracked if the traps are never reset
-- 
2.43.0


From b26a41b1ee7a81f6d3f6d2c1b0d6a6386a65c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 25/29] fix: prescan transfers overrun the trap levels reserved
 for the image rows

---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index a947094..6ac2e0b 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -89,7 +89,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     // Number of active rows and columns
     unsigned int n_active_rows = row_stop - row_start;
     unsigned int n_active_columns = column_stop - column_start;
-    unsigned int max_n_transfers = n_active_rows + row_offset;
+    unsigned int max_n_transfers = n_active_rows + row_offset + roe->prescan_offset;
     print_v(
         1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
         column_start, column_stop, n_active_rows, row_start, row_stop);
-- 
2.43.0


From e54f4154089a8e27c54fb2bada8b3fb7359a7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 26/29] fix: pixel bounce passed to add_cti raises
 AttributeError

---
 python/arcticpy/cti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 92c0488..3056a40 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -310,7 +310,7 @@ def add_cti(
         bias_total = np.zeros(image.shape)
         
         for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.bias_from(
+            bias = pixel_bounce.perturb_bias(
                 image_trailed,
                 parallel_window_start=parallel_window_start,
                 parallel_window_stop=parallel_window_stop,
-- 
2.43.0


From acdacd8b2cb4d308b5dc0cfb81676eb120e5e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 27/29] fix: natural frequency of a pixel bounce raises
 NameError

---
 python/arcticpy/pixel_bounce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 78462ef..5ef2a9c 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -52,7 +52,7 @@ class PixelBounce:
 
     @property
     def omega0(self):
-        return np.sqrt(omega**2 + gamma**2)  # natural frequency of oscillator
+        return np.sqrt(self.omega**2 + self.gamma**2)  # natural frequency of oscillator
 
     def perturb_bias(
             self,
-- 
2.43.0


From 55a2c5f60e6235de196bcccdc47ee72b8be0b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 28/29] fix: converting an ROE to charge injection raises
 NameError

---
 python/arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 130ba6a..7b5a629 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -85,7 +85,7 @@ class ROEChargeInjection(ROE):
         return ROEChargeInjection(
             dwell_times=roe.dwell_times,
             prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=prescan_length,
+            prescan_length=roe.prescan_length,
             overscan_start=roe.overscan_start,
             empty_traps_between_columns=roe.empty_traps_between_columns,
             force_release_away_from_readout=roe.force_release_away_from_readout,
@@ -94,7 +94,7 @@ class ROEChargeInjection(ROE):
             pixel_bounce_kv=roe.pixel_bounce_kv,
             pixel_bounce_omega=roe.pixel_bounce_omega,
             pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=read_noise
+            read_noise=roe.read_noise
         )
 
 
-- 
2.43.0


From 647fad33afbeea8928b8d67309ad0326c1a0c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 29/29] fix: traps with first-electron fill get negative
 occupancy from negative pixels

---
 src/trap_managers.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 9b762a9..65a517b 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1405,7 +1405,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
+        enough = fmax(n_free_electrons, 0.0) / -n_released_and_captured;
     else
         enough = 1.0;
 
@@ -1856,7 +1856,8 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = (n_captured == 0.0) ? 1.0 : n_free_electrons / n_captured;
+    double enough =
+        (n_captured == 0.0) ? 1.0 : fmax(n_free_electrons, 0.0) / n_captured;
 
     // Normal full capture
     if (enough >= 1.0) {
@@ -2185,7 +2186,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
+        enough = fmax(n_free_electrons, 0.0) / -n_released_and_captured;
     else
         enough = 1.0;
 
-- 
2.43.0

