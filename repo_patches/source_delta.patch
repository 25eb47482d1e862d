From 081c8eb5a7605a07e6bfca67ebb5f06d1ff632fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 01/20] fix: Image.copy(copy_data=False) must copy the headers

The docstring promises that headers are always copied; sharing them made the
level-update steps edit the headers of their input dataset.
---
 corgidrp/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..cb88d5a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -508,6 +508,11 @@ class Image():
             # copy the hdu_list and hdu_names list, but not their pointers
             new_img.hdu_list = self.hdu_list.copy()
             new_img.hdu_names = copy.copy(self.hdu_names)
+            # headers are always copied, even when the data is not
+            new_img.pri_hdr = self.pri_hdr.copy()
+            new_img.ext_hdr = self.ext_hdr.copy()
+            new_img.err_hdr = self.err_hdr.copy()
+            new_img.dq_hdr = self.dq_hdr.copy()
 
         # update DRP version tracking
         new_img.ext_hdr['DRPVERSN'] =  corgidrp.__version__
-- 
2.43.0


From fb9ed358f0f719277bc3e999564207faa9d67622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 02/20] fix: divide_by_exptime must keep frames linked to the
 data cube

Rebinding frame.data left the frames pointing at private arrays instead of
all_data of the returned dataset.
---
 corgidrp/l2b_to_l3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index e982997..2831305 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -89,7 +89,7 @@ def divide_by_exptime(input_dataset):
     for i in range(len(data.frames)):
         exposure_time = float(data.frames[i].ext_hdr['EXPTIME'])
 
-        data.frames[i].data = data.frames[i].data / exposure_time
+        all_data_new[i] = data.frames[i].data / exposure_time
         # data.frames[i].err = data.frames[i].err / exposure_time
         scale_factor = (1/exposure_time) * np.ones([data.frames[i].err.shape[1], data.frames[i].err.shape[2]])
         # print(data.frames[i].err.shape)
@@ -98,7 +98,6 @@ def divide_by_exptime(input_dataset):
         #data.frames[i].rescale_error(data.frames[i].err, 'normalized by the exposure time')
         data.frames[i].rescale_error(scale_factor, 'normalized by the exposure time')
 
-        all_data_new[i] = data.frames[i].data
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
-- 
2.43.0


From 7b00e542eaa7bcbdfc4814597595ead0ea274475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 03/20] fix: correct_bad_pixels must not drop DQ flags above
 128

The DQ cube was cast to uint8, which cleared flags of 256 and higher and left
pixels flagged only by those unmasked.
---
 corgidrp/l2a_to_l2b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..577ee3d 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -367,11 +367,11 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq.copy()
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(np.uint8))
+        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(dq_cube.dtype))
         # mask affected pixels with NaN
         bp = np.where(bp_dq_mask != 0)
         data_cube[i, bp[0], bp[1]] = np.nan
-- 
2.43.0


From ef4ab086424a55f5f4d2d87385440a60124219fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 04/20] fix: convert_to_electrons must keep the individual
 error layers

With track_individual_errors on, every layer but the combined one was set to zero.
---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 577ee3d..5b0d944 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -273,7 +273,7 @@ def convert_to_electrons(input_dataset, k_gain):
     kgain = k_gain.value #extract from caldb
     kgainerr = k_gain.error[0]
     # x = c*kgain, where c (counts beforehand) and kgain both have error, so do propogation of error due to the product of 2 independent sources
-    kgain_error = np.zeros_like(input_dataset.all_err)
+    kgain_error = kgain*kgain_dataset.all_err # individual error layers scale with the data
     kgain_tot_err = (np.sqrt((kgain*kgain_dataset.all_err[:,0,:,:])**2 + (kgain_cube*kgainerr)**2))
     kgain_error[:,0,:,:] = kgain_tot_err
     kgain_cube *= kgain
-- 
2.43.0


From b3f751dfa402e807bce79c890c8bc2ce75d3d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 05/20] fix: prescan_biassub must use the detector_regions it
 was given

The prescan rows matched to the image rows were taken from the built-in geometry
when a custom one was passed in, so rows were misaligned.
---
 corgidrp/l1_to_l2a.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..2465c79 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -80,9 +80,9 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
                 image_err = np.array(image_err)
 
                 # Get the part of the prescan that lines up with the image
-                i_r0 = detector_areas[arrtype]['image']['r0c0'][0]
-                p_r0 = detector_areas[arrtype]['prescan']['r0c0'][0]
-                i_nrow = detector_areas[arrtype]['image']['rows']
+                i_r0 = detector_regions[arrtype]['image']['r0c0'][0]
+                p_r0 = detector_regions[arrtype]['prescan']['r0c0'][0]
+                i_nrow = detector_regions[arrtype]['image']['rows']
                 al_prescan = prescan[(i_r0-p_r0):(i_r0-p_r0+i_nrow), :]
 
         else:
-- 
2.43.0


From 50f201b4b84cc490c64fa64d48b1ba6dfff0c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 06/20] fix: detect_cosmic_rays must use the measured EM gain

Frames with EMGAIN_M in the header were left out of the gain list, so the
saturation thresholds were missing or belonged to other frames.
---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 2465c79..3151c17 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -230,7 +230,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From 3ace1de5ad81a926e724125a932e6e4748bbed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 07/20] fix: dark_subtraction and em_gain_division must not
 unlink frames from their cubes

split_dataset re-points the frames of the dataset it is called on to the cubes
of the sub-datasets; both steps only use it to compare keywords.
---
 corgidrp/l2a_to_l2b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 5b0d944..86ef7c1 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -58,7 +58,7 @@ def dark_subtraction(input_dataset, dark, detector_regions=None, outputdir=None)
     Returns:
         corgidrp.data.Dataset: a dark-subtracted version of the input dataset including error propagation
     """
-    _, unique_vals = input_dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    _, unique_vals = input_dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
 
@@ -315,7 +315,7 @@ def em_gain_division(input_dataset):
         emgain_cube[i] /= emgain
         emgain_error[i] /= emgain
 
-    dataset_list, _ = emgain_dataset.split_dataset(exthdr_keywords=['EMGAIN_C'])
+    dataset_list, _ = emgain_dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EMGAIN_C'])
     if len(dataset_list) > 1:
         history_msg = "data divided by EM gain for dataset with frames with different commanded EM gains"
     else:
-- 
2.43.0


From 5d5c2abb073b801783298a0d890768393b07a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 08/20] fix: build_trad_dark and build_synthesized_dark must
 not unlink the frames of their input

split_dataset re-points the frames of the dataset it is called on to the cubes
of the sub-datasets; it is only used to compare keywords here.
---
 corgidrp/darks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..608f386 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -189,7 +189,7 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     if detector_regions is None:
             detector_regions = detector_areas
 
-    _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    _, unique_vals = dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
     # getting telemetry rows to ignore in fit
@@ -803,7 +803,7 @@ def build_synthesized_dark(dataset, noisemaps, detector_regions=None, full_frame
         Fd = noise_maps.FPN_map
         Dd = noise_maps.DC_map
         Cd = noise_maps.CIC_map
-        _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+        _, unique_vals = dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
         if len(unique_vals) > 1:
             raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
         try: # use measured EM gain if available TODO change hdr name if necessary
-- 
2.43.0


From 614a168eddf47db6bcb179f2e8d9ac23116bc90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 09/20] fix: crop must centre each frame on its own star
 location

The size and centre found for the first frame were reused for all frames.
---
 corgidrp/l3_to_l4.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..83e9601 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -302,8 +302,11 @@ def crop(input_dataset, sizexy=None, centerxy=None):
        
     # Need to loop over frames and reinit dataset because array sizes change
     frames_out = []
+    input_sizexy, input_centerxy = sizexy, centerxy
 
     for frame in dataset:
+        # the defaults are taken from each frame's own header
+        sizexy, centerxy = input_sizexy, input_centerxy
         prihdr = frame.pri_hdr
         exthdr = frame.ext_hdr
         dqhdr = frame.dq_hdr
-- 
2.43.0


From a8043827a8d048a84f8802aaeb508baf4efb0553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 10/20] fix: prescan_biassub must take the reliable columns
 relative to the prescan origin

detector_areas gives col_start/col_end as full-frame columns; for ENG_CONV the
prescan slice starts at column 1072, so 1200:1400 was an empty slice of the
1128-column region and the bias was NaN.
---
 corgidrp/l1_to_l2a.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 3151c17..9282bd5 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -98,8 +98,10 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
 
             al_prescan = prescan
 
-        st = detector_regions[arrtype]['prescan']['col_start']
-        end = detector_regions[arrtype]['prescan']['col_end']
+        # col_start and col_end are full-frame columns; the prescan slice starts at its own origin
+        p_c0 = detector_regions[arrtype]['prescan']['r0c0'][1]
+        st = detector_regions[arrtype]['prescan']['col_start'] - p_c0
+        end = detector_regions[arrtype]['prescan']['col_end'] - p_c0
 
         # Measure bias and error (standard error of the median for each row, add this to 3D image array)
         medbyrow = np.median(al_prescan[:,st:end], axis=1)[:, np.newaxis]
-- 
2.43.0


From 01795d44fac9efa555fef686855c4aeebd08bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 11/20] fix: imaging_area_geom must place the imaging area
 where the parallel overscan says it is

For ENG_EM and ENG_CONV the shielded rows and columns are not all above/right of
the image section, so the origin came out as row -9 (an empty slice) and, for
ENG_CONV, column 48 instead of 16. The other geometries are unchanged.
---
 corgidrp/detector.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..c48f7c5 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -338,14 +338,13 @@ def imaging_area_geom(arrtype, detector_regions=None):
         detector_regions = detector_areas
     _, cols_pre, _ = unpack_geom(arrtype, 'prescan', detector_regions)
     _, cols_serial_ovr, _ = unpack_geom(arrtype, 'serial_overscan', detector_regions)
-    rows_parallel_ovr, _, _ = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
-    #_, _, r0c0_image = self._unpack_geom('image')
-    fluxmap_rows, _, r0c0_image = unpack_geom(arrtype, 'image', detector_regions)
+    rows_parallel_ovr, _, r0c0_parallel_ovr = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
 
     rows_im = detector_regions[arrtype]['frame_rows'] - rows_parallel_ovr
     cols_im = detector_regions[arrtype]['frame_cols'] - cols_pre - cols_serial_ovr
-    r0c0_im = r0c0_image.copy()
-    r0c0_im[0] = r0c0_im[0] - (rows_im - fluxmap_rows)
+    # the parallel overscan is read out right after the imaging rows and spans the same
+    # columns, so it fixes the origin whichever side the shielded rows and columns are on
+    r0c0_im = [r0c0_parallel_ovr[0] - rows_im, r0c0_parallel_ovr[1]]
 
     return rows_im, cols_im, r0c0_im
 
-- 
2.43.0


From ce58e8d7f1ef8ce75ffad43cecf55cd565f5f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 12/20] fix: build_trad_dark must not write into the headers of
 its input frames

---
 corgidrp/darks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 608f386..3535728 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -245,9 +245,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
-- 
2.43.0


From 98781a49773abdf272079ce2af1e3a0b08f0e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 13/20] fix: darks and noise maps must list the files they are
 made from even if the given header already lists parents

---
 corgidrp/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index cb88d5a..1a7436f 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -650,7 +650,7 @@ class Dark(Image):
             if 'PC_STAT' not in ext_hdr:
                 self.ext_hdr['PC_STAT'] = 'analog master dark'
             # log all the data that went into making this calibration file
-            if 'DRPNFILE' not in ext_hdr.keys() and input_dataset is not None:
+            if input_dataset is not None:
                 self._record_parent_filenames(input_dataset)
 
             # add to history
@@ -1046,7 +1046,7 @@ class DetectorNoiseMaps(Image):
             self.ext_hdr['B_0_UNIT'] = 'DN' # err unit is also in DN
 
             # log all the data that went into making this calibration file
-            if 'DRPNFILE' not in ext_hdr.keys():
+            if input_dataset is not None:
                 self._record_parent_filenames(input_dataset)
             # add to history
             self.ext_hdr['HISTORY'] = "DetectorNoiseMaps calibration file created"
-- 
2.43.0


From 53b623611d7c2e1a1a1571eebbca0d07a22bcac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 14/20] fix: photon-counted dark must list only the frames it
 used as parents

---
 corgidrp/photon_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 5f8978e..49eda56 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -147,7 +147,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     list_new_image = []
     list_err = [] # only used for dark processing case
     list_dq = [] # only used for dark processing case
-    index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
+    index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-- 
2.43.0


From b1dc87c81c6d29e480d06eee6abb96ad41ccc995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 15/20] fix: combine_subexposures and get_pc_mean must not
 unlink the frames of their input

---
 corgidrp/combine.py         | 2 +-
 corgidrp/photon_counting.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/combine.py b/corgidrp/combine.py
index 2481384..db6d8f4 100644
--- a/corgidrp/combine.py
+++ b/corgidrp/combine.py
@@ -101,7 +101,7 @@ def combine_subexposures(input_dataset, num_frames_per_group=None, collapse="mea
         last_idx_in_group = num_frames_per_group*(i+1) - 1
         new_image.filename = input_dataset[last_idx_in_group].filename   
 
-        new_image._record_parent_filenames(input_dataset[num_frames_per_group*i:num_frames_per_group*(i+1)])   
+        new_image._record_parent_filenames(input_dataset.frames[num_frames_per_group*i:num_frames_per_group*(i+1)])   
         new_dataset.append(new_image)
     new_dataset = data.Dataset(new_dataset)
     new_dataset.update_after_processing_step("Combine_subexposures: combined every {0} frames by {1}".format(num_frames_per_group, collapse))
diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 49eda56..160be44 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -150,7 +150,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
-        subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
+        subset_frames = input_dataset.copy(copy_data=False).frames[bin_size*i:bin_size*(i+1)]
         sub_dataset = data.Dataset(subset_frames)
 
         test_dataset, _ = sub_dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR', 'RN'])
@@ -331,7 +331,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         ext_hdr['PCTHRESH'] = thresh
         ext_hdr['NUM_FR'] = len(sub_dataset) 
         ext_hdr['HISTORY'] = "Photon-counted {0} dark frames for each master dark of the output dataset.  Number of subsets: {1}.  Total number of master darks in input dataset: {2}. Using T_factor={3} and niter={4}.".format(len(sub_dataset), num_bins, len(input_dataset), T_factor, niter)
-        pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset[:index_of_last_frame_used])
+        pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset.frames[:index_of_last_frame_used])
         return pc_dark
 
 def corr_photon_count(nobs, nfr, t, g, mask_indices, niter=2):
-- 
2.43.0


From cb26861f79224db2965f2ec1c58bf7904d40d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 16/20] fix: flag_nans must keep the DQ flags already set

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index c48f7c5..78ddb64 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -607,6 +607,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad], flag_val)
 
     return dataset_out
-- 
2.43.0


From 122dcb42a6d64d39c04742b4a7d3c7d577af75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 17/20] fix: flag_nans must also handle the float DQ arrays of
 PSF-subtracted data

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 78ddb64..bf21b39 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -607,6 +607,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad], flag_val)
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(int), flag_val)
 
     return dataset_out
-- 
2.43.0


From b534c271def052a8cf0ced291ccd17c73912a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 18/20] fix: recording parents must not fail on a parent whose
 DRPNFILE is not a number of files

---
 corgidrp/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1a7436f..d644d16 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -481,7 +481,8 @@ class Image():
         for img in input_dataset:
             parent_filenames.add(img.filename)
             # also check if this frame has parent frames. keep trakc of them too
-            if 'DRPNFILE' in img.ext_hdr:
+            # (mocked calibration files carry a placeholder string instead of a number of files)
+            if isinstance(img.ext_hdr.get('DRPNFILE'), int):
                 for j in range(img.ext_hdr['DRPNFILE']):
                     parent_filenames.add(img.ext_hdr['FILE{0}'.format(j)])
         
-- 
2.43.0


From a6ebff976f66addd4061486cd4ea57a24a0f9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 19/20] fix: list parents of master darks and noise maps where
 they are built, not in the Dark and DetectorNoiseMaps constructors

---
 corgidrp/darks.py           | 4 ++++
 corgidrp/data.py            | 7 +++----
 corgidrp/photon_counting.py | 2 ++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 3535728..6bf1320 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -248,6 +248,8 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     prihdr = dataset.frames[0].pri_hdr.copy()
     exthdr = dataset.frames[0].ext_hdr.copy()
     errhdr = dataset.frames[0].err_hdr.copy()
+    # the dark lists its own input frames, not just the parents of the first one
+    exthdr.remove('DRPNFILE', ignore_missing=True)
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
@@ -723,6 +725,8 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # assume headers from a dataset frame for headers of calibrated noise map
     prihdr = datasets[0].frames[0].pri_hdr
     exthdr = datasets[0].frames[0].ext_hdr
+    # the noise maps list their own input frames, not just the parents of the first one
+    exthdr.remove('DRPNFILE', ignore_missing=True)
     exthdr['EXPTIME'] = None
     if 'EMGAIN_M' in exthdr.keys():
         exthdr['EMGAIN_M'] = None
diff --git a/corgidrp/data.py b/corgidrp/data.py
index d644d16..cb88d5a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -481,8 +481,7 @@ class Image():
         for img in input_dataset:
             parent_filenames.add(img.filename)
             # also check if this frame has parent frames. keep trakc of them too
-            # (mocked calibration files carry a placeholder string instead of a number of files)
-            if isinstance(img.ext_hdr.get('DRPNFILE'), int):
+            if 'DRPNFILE' in img.ext_hdr:
                 for j in range(img.ext_hdr['DRPNFILE']):
                     parent_filenames.add(img.ext_hdr['FILE{0}'.format(j)])
         
@@ -651,7 +650,7 @@ class Dark(Image):
             if 'PC_STAT' not in ext_hdr:
                 self.ext_hdr['PC_STAT'] = 'analog master dark'
             # log all the data that went into making this calibration file
-            if input_dataset is not None:
+            if 'DRPNFILE' not in ext_hdr.keys() and input_dataset is not None:
                 self._record_parent_filenames(input_dataset)
 
             # add to history
@@ -1047,7 +1046,7 @@ class DetectorNoiseMaps(Image):
             self.ext_hdr['B_0_UNIT'] = 'DN' # err unit is also in DN
 
             # log all the data that went into making this calibration file
-            if input_dataset is not None:
+            if 'DRPNFILE' not in ext_hdr.keys():
                 self._record_parent_filenames(input_dataset)
             # add to history
             self.ext_hdr['HISTORY'] = "DetectorNoiseMaps calibration file created"
diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 160be44..e818cc0 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -325,6 +325,8 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         
         return pc_ill_dataset
     else:
+        # the dark lists its own input frames, not just the parents of the last one
+        ext_hdr.remove('DRPNFILE', ignore_missing=True)
         ext_hdr['PC_STAT'] = 'photon-counted master dark'
         ext_hdr['NAXIS1'] = combined_pc_mean.shape[0]
         ext_hdr['NAXIS2'] = combined_pc_mean.shape[1]
-- 
2.43.0


From 8211aa6b4c06dade4275a772e7d74d13b2f13196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 20/20] fix: autoload must find the class of an ND filter
 sweet-spot file

The key of data.datatypes did not match the DATATYPE the class writes, so
autoload raised KeyError on every saved NDFilterSweetSpotDataset.
---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index cb88d5a..adaa5f1 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2564,7 +2564,7 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset}
 
 def autoload(filepath):
     """
-- 
2.43.0

