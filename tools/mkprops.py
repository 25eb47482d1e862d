#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
D="corgidrp/data.py"; L1="corgidrp/l1_to_l2a.py"; L2="corgidrp/l2a_to_l2b.py"; L3="corgidrp/l2b_to_l3.py"; L4="corgidrp/l3_to_l4.py"
DET="corgidrp/detector.py"; DK="corgidrp/darks.py"; PC="corgidrp/photon_counting.py"; CB="corgidrp/combine.py"; W="corgidrp/walker.py"; DB="corgidrp/caldb.py"; TDA="corgidrp/l4_to_tda.py"; BP="corgidrp/bad_pixel_calibration.py"

prop("P01","Pipeline steps never alter their input dataset",
 "Running any L1-to-L4 pipeline step (bias subtraction, cosmic-ray detection, nonlinearity, photon noise, dark subtraction, flat division, frame selection, electron conversion, EM-gain division, bad-pixel correction, desmear, exposure-time division, WCS creation, sub-exposure combination, NaN/flag conversion, flux conversion, every data-level update) returns a new dataset and leaves the input dataset exactly as it was: pixel data, errors, DQ, primary/extension/error/DQ headers (including HISTORY), file names and frame list. The calibration objects passed in are left unchanged too.",
 ["inputs"],"every dataset (any number of frames, any image size, any pixel values and header values the step accepts), every calibration object and every keyword setting of the step",
 "tests compare one or two arrays after one run on mock frames; aliasing of one header or one view between input and output is invisible unless that exact object is compared, and must be absent for every shape, option and path",
 [L1,L2,L3,L4,CB,DET,TDA,D],
 [("Dataset.copy / Image.copy","corgidrp/data.py:Dataset.copy, Image.copy"),("each step copies its input before editing","corgidrp/l2a_to_l2b.py, corgidrp/l1_to_l2a.py, corgidrp/l2b_to_l3.py")],
 [("Dataset.frames[*].data/err/dq/pri_hdr/ext_hdr/err_hdr/dq_hdr","observable state of a dataset","corgidrp/data.py:Dataset")])

prop("P02","A dataset's frames and its cubes are always the same memory",
 "After constructing, copying, indexing or updating a dataset, adding or rescaling an error term, and on the output of every dataset-returning pipeline step, frame i's data, err and dq are live views of row i of the dataset's data, error and DQ cubes, so editing either one edits the other, and cube shapes agree with the frames. A copy never shares pixel memory or headers with the dataset it came from (headers are separate even when the data is not copied), and editing the copy never changes the original.",
 ["inputs","histories"],"every dataset and every sequence of dataset operations (construct, copy, subset, split, update, add error, rescale error, any step)",
 "tests check values right after a step; a broken link only shows when a later operation edits one side, so it depends on which operation sequences follow",
 [D,L1,L2,L3],[("pointing frames at cube slices","corgidrp/data.py:Dataset.__init__"),("re-pointing after error updates","corgidrp/data.py:Dataset.add_error_term, rescale_error, update_after_processing_step"),("subsetting","corgidrp/data.py:Dataset.__getitem__, split_dataset")],
 [("Dataset.all_data/all_err/all_dq","cubes that the frames view","corgidrp/data.py:Dataset")])

prop("P03","DQ flags only accumulate, and each step sets exactly its own flag",
 "No pipeline step clears or changes a data-quality bit that was already set on a pixel it keeps (combination may clear a pixel's flags only when the combined value was built from good samples): bias subtraction carries (cropped) flags through, dark subtraction ORs in the dark's flags, flat division adds 4 exactly where the flat is zero, nonlinearity adds 64 exactly where the value exceeds the threshold, bad-pixel correction ORs in the bad-pixel map and adds 2 exactly on pixels with any flag (which become NaN while others keep their value), and NaN flagging touches only NaN pixels.",
 ["inputs"],"every frame, pixel, prior DQ value (any combination of the defined bits, including bits of 256 and above) and every calibration DQ map",
 "tests use all-zero or one-flag DQ maps on a few pixels; loss of a bit depends on the combination of prior flags, dtype and mask shape",
 [L1,L2,DET,CB],[("bitwise_or of DQ","corgidrp/l2a_to_l2b.py:dark_subtraction, flat_division, correct_bad_pixels; corgidrp/l1_to_l2a.py:correct_nonlinearity, detect_cosmic_rays"),("combination rule","corgidrp/combine.py:combine_images")])

prop("P04","Errors propagate in quadrature and scale with the data",
 "Adding an error term makes the combined error layer sqrt(old^2 + term^2) at every pixel of every frame (per-frame or shared term alike), rescaling multiplies every error layer by the factor, and each step uses these rules: shot noise sqrt(data) (times sqrt(2) when the EM gain exceeds 1), the dark's error, 1/flat scaling plus data*flat_err/flat^2, kgain scaling plus data*kgain_err, division by EM gain or exposure time, flux-factor scaling plus data*factor_err. When individual error tracking is on, each added term is also kept as its own named layer and existing layers are preserved (scaled with the data when the step scales the data).",
 ["inputs","configurations"],"every dataset, pixel, error value, per-frame or shared term, and both settings of individual-error tracking",
 "tests check a few uniform arrays, mostly with tracking off; quadrature versus linear, wrong frame index or a lost layer can agree on uniform inputs",
 [D,L2,L3,L1,TDA],[("Image.add_error_term / rescale_error","corgidrp/data.py"),("Dataset.add_error_term / rescale_error","corgidrp/data.py"),("per-step use","corgidrp/l2a_to_l2b.py, corgidrp/l2b_to_l3.py, corgidrp/l4_to_tda.py")])

prop("P05","Calibration steps apply exactly the documented arithmetic to each pixel",
 "For every pixel of every frame: dark subtraction gives data - dark, flat division data / flat, electron conversion data * kgain, EM-gain division data / (that frame's gain), exposure-time division data / (that frame's EXPTIME), flux conversion data * fluxfactor / colour correction, nonlinearity correction data * relative-gain(data, that frame's gain), and desmear data minus the documented weighted sum over the rows read out before it; photon-noise, bad-pixel, level-update and frame-selection steps leave good pixel values unchanged. The output keeps the frame count, order and shape, and records the resulting units / calibration constants in the headers.",
 ["inputs"],"every dataset (frames may differ in exposure time and gain), every pixel position and value, every calibration value; non-square images; any frame count",
 "tests apply steps to constant or Gaussian images with identical headers per frame; an off-by-one frame, a transposed axis or the use of frame 0's header for all frames survives",
 [L1,L2,L3,TDA,DET],[("step arithmetic","corgidrp/l2a_to_l2b.py, corgidrp/l1_to_l2a.py:correct_nonlinearity, corgidrp/l2b_to_l3.py:divide_by_exptime, corgidrp/l4_to_tda.py:convert_to_flux"),("relative gain curves","corgidrp/detector.py:get_relgains")])

prop("P06","Every step uses the same EM-gain precedence",
 "Wherever a step needs the EM gain of a frame it uses the measured gain (EMGAIN_M) when that keyword is present, otherwise the applied gain (EMGAIN_A) when it is greater than zero, otherwise the commanded gain (EMGAIN_C), independently for each frame. This holds for saturation/cosmic-ray detection, nonlinearity correction, shot noise, EM-gain division, synthesized darks and photon counting.",
 ["inputs","configurations"],"every presence/absence and value combination of the three keywords, differing from frame to frame",
 "each test fixture carries one keyword combination; precedence involves all combinations per frame in six functions",
 [L1,L2,DK,PC],[("gain lookup","corgidrp/l1_to_l2a.py:detect_cosmic_rays, correct_nonlinearity; corgidrp/l2a_to_l2b.py:add_photon_noise, em_gain_division; corgidrp/darks.py:build_synthesized_dark; corgidrp/photon_counting.py:get_pc_mean")])

prop("P07","Bias subtraction is row-aligned and crops to the declared geometry",
 "Each output row is the corresponding detector row of the requested region (science image, imaging area, or full frame) minus the median of that same detector row's reliable prescan columns plus the bias offset, for whatever detector geometry and array type is in force; err and DQ are cropped to the same region, and the added error is the standard error of that row's prescan in quadrature with the bias-offset error. Cutting a section out of a full frame and embedding it back are inverse, and the built-in geometry tables are consistent (every section lies inside its frame).",
 ["inputs","configurations"],"every array type, every detector-geometry table (custom tables included), all three crop options, every pixel value, with or without noise maps",
 "tests use the default geometry where image and prescan offsets happen to coincide; alignment is a relation between offsets over all geometries",
 [L1,DET],[("prescan_biassub","corgidrp/l1_to_l2a.py:prescan_biassub"),("section slicing","corgidrp/detector.py:slice_section, imaging_area_geom, imaging_slice, embed, unpack_geom")],
 [("detector_areas","geometry tables","corgidrp/detector.py:detector_areas")])

prop("P08","Saturation and cosmic-ray flags follow the full-well thresholds",
 "Cosmic-ray detection leaves pixel values untouched and adds flag 32 exactly to the pixels at or above sat_thresh * min(gain * image full well, gain-register full well) / kgain of their own frame; flag 128 is added only in rows holding a pixel at or above the saturation threshold or within the head box of such a row, and every detected plateau is flagged from its start through its tail, clipped to the image. The per-frame full wells and threshold are recorded in that frame's header.",
 ["inputs","configurations"],"every dataset with per-frame gains, every threshold/box/tail/filter setting, every pixel pattern including plateaus at the image edges",
 "tests inject a handful of plateaus at chosen places with one gain; thresholds mix per-frame quantities and edge clipping depends on position",
 [L1,DET],[("detect_cosmic_rays","corgidrp/l1_to_l2a.py"),("calc_sat_fwc, flag_cosmics, find_plateaus","corgidrp/detector.py")])

prop("P09","Data levels advance one at a time and only through their own step",
 "Each level-update step (L1 to L2a, L2a to L2b, L2b to L3, L3 to L4) rejects with an error any dataset holding even one frame of a different level, and otherwise changes nothing but the level keyword, the level token in the file name (its first occurrence), the calibration-file keywords documented for L4, and the history. Pixel data, errors and DQ are unaltered, and frames already processed keep all other header values.",
 ["inputs"],"every dataset, with any frame (not only the first) at any level string, any file name",
 "tests pass one all-good and one all-bad dataset; the gate must hold for a single bad frame at any position and any level string",
 [L1,L2,L3,L4],[("update_to_l2a","corgidrp/l1_to_l2a.py"),("update_to_l2b","corgidrp/l2a_to_l2b.py"),("update_to_l3","corgidrp/l2b_to_l3.py"),("update_to_l4","corgidrp/l3_to_l4.py")])

prop("P10","Every step and product carries complete provenance",
 "Each pipeline step appends at least one history entry to every frame's extension header, naming the calibration file where one is used, keeps all earlier history, and puts the header entries it promises on the extension and error headers of every frame. Each newly made calibration product is marked with its own product type, level CAL and a file name of that product, and lists every input frame and every parent of an input frame exactly once; loading a file of another product type through a calibration class is rejected.",
 ["inputs"],"every dataset and step, every set of input file names and parent lists (with duplicates and nested parents), every calibration class",
 "tests look for one message on one frame; completeness over all frames and parents is a universal statement",
 [D,L1,L2,L3],[("history and header entries","corgidrp/data.py:Dataset.update_after_processing_step"),("parent recording","corgidrp/data.py:Image._record_parent_filenames"),("calibration constructors","corgidrp/data.py: Dark, FlatField, NonLinearityCalibration, KGain, BadPixelMap, DetectorNoiseMaps, ...")])

prop("P11","Frame selection keeps exactly the frames that meet every criterion",
 "A frame is rejected if and only if its fraction of disallowed-flag pixels exceeds the limit, or it is marked over-exposed while that criterion is on, or its tip/tilt rms or bias exceeds the given threshold; with discarding on, the output holds exactly the accepted frames in their original order with their original pixel data, and with discarding off it holds all frames with exactly the rejected ones marked bad. Criteria not enabled never reject, the criteria used are recorded on every output frame, and if no frame survives an error is raised.",
 ["inputs","configurations"],"every dataset, every combination of criteria and thresholds, every allowed-flag mask, every pattern of flags and header values",
 "tests exercise one criterion at a time on two or three frames; the criteria interact and must hold for every subset of rejected frames",
 [L2],[("frame_select","corgidrp/l2a_to_l2b.py:frame_select")])

prop("P12","Combining frames uses only good pixels of the right group",
 "Combining sub-exposures splits the dataset into consecutive groups of the given size (refusing sizes that do not divide it) and each output pixel is the mean or median over exactly the unflagged samples of that pixel in its group (times the group size when scaling is on), with the standard error of those samples; a pixel good in at least one frame is unflagged and a pixel bad in every frame is NaN and keeps the union of its flags. The dark-frame averaging helper averages only unmasked samples, reports how many were used and masks pixels with none, and the sub-exposure products carry the group's first header, its last file name and exactly the group's parents.",
 ["inputs"],"every group size and frame count, every mask pattern, every pixel and error value, both collapse modes, scaling on and off",
 "tests combine constant frames with one or two masked pixels; independence from masked values and from other groups is a statement about all values",
 [CB,DK],[("combine_images, combine_subexposures","corgidrp/combine.py"),("mean_combine","corgidrp/darks.py:mean_combine")])

prop("P13","Master darks are built from the noise maps or the stack as documented",
 "A synthesized dark equals FPN/gain + exptime*dark-current + CIC at every pixel, with error sqrt(FPN_err^2/gain^2 + exptime^2*DC_err^2 + CIC_err^2), the union of the three maps' flags, the dataset's gain and exposure time in its header, and the image region or full frame as requested; a traditional dark is the masked mean of the stack with telemetry rows excluded, flag 1 where no frame was usable and 256 where fewer than half were. Stacks mixing exposure times or gains, negative maps, gains below 1 and wrongly shaped maps are refused, and the input frames and noise maps are left unchanged.",
 ["inputs","configurations"],"every noise map, gain, exposure time, stack and mask pattern; both frame options; custom geometry",
 "tests compare fits to simulated stacks within statistical tolerance; the exact formula, error terms and flag thresholds are not pinned down per pixel",
 [DK,DET],[("build_synthesized_dark, build_trad_dark, mean_combine","corgidrp/darks.py")])

prop("P14","Photon counting and its correction are consistent",
 "Photon counting yields 1 exactly where the electron value exceeds the threshold and 0 elsewhere; the first-guess rate is -ln(1 - (n/N) e^(t/g)) where that is defined and n/N otherwise; and the Newton iteration uses the true derivative of the objective it solves, so a rate whose expected detected fraction equals n/N is a fixed point. The photon-counted mean uses only unflagged samples of each consecutive bin of frames, each frame belongs to at most one bin, remainder frames are ignored, never returns negative values and flags exactly the pixels with no usable sample.",
 ["inputs"],"every threshold, gain, frame count, rate, pixel value, bin size and mask pattern",
 "tests check statistical agreement to a few percent on simulated stacks, which tolerates wrong derivatives, off-by-one bins and threshold ties",
 [PC],[("photon_count, calc_lam_approx, lam_newton_fit, _calc_func, _calc_dfunc, get_pc_mean","corgidrp/photon_counting.py")])

prop("P15","Bad pixel maps flag exactly the pixels meeting their definition",
 "The bad-pixel map has flag 8 exactly where the dark exceeds its mean plus the given number of standard deviations, flag 4 exactly where the flat is below the given fraction of its local box mean (box clipped at the edges), their union where both hold and zero elsewhere. Packing 64-bit flag values into bits and unpacking them are inverse for every flag combination, and the four flag-name / bit / value maps are consistent with each other.",
 ["inputs","configurations"],"every dark, flat, threshold, box width (odd or even, larger than the image) and pixel position including edges; every flag value",
 "tests check a few injected pixels far from the edges; exactness is over all positions and both directions",
 [BP,D],[("create_bad_pixel_map, detect_hot_warm_pixels_from_dark, detect_dead_pixels_from_flat","corgidrp/bad_pixel_calibration.py"),("flag packing","corgidrp/data.py:unpackbits_64uint, packbits_64uint, get_flag_to_bit_map, get_flag_to_value_map, get_value_to_flag_map, get_bit_to_flag_map (see data.py)")])

prop("P16","The calibration database returns the right calibration and keeps one row per file",
 "For a science frame, looking up a calibration returns a stored entry of the requested type with the smallest absolute time difference to the frame (for darks, among those with the same exposure time only), and without a frame the most recently created one; an error is raised when none qualifies. Adding an entry inserts a row or replaces the row with the same file path and changes no other row, removing deletes exactly that row, and saving and reloading preserves the table.",
 ["inputs","histories"],"every database content and every sequence of add / update / remove / look-up operations",
 "tests use two or three entries; nearest-in-time with ties, other types interleaved, and row preservation depend on the whole table and history",
 [DB],[("get_calib, create_entry, remove_entry, save, load","corgidrp/caldb.py:CalDB")],[("CalDB._db","table of calibration files","corgidrp/caldb.py")])

prop("P17","Recipes are chosen, filled and executed as documented",
 "For every supported data level, visit type and photon-counting flag the documented recipe template is chosen (an unsupported level is an error), only calibrations marked AUTOMATIC are filled in from the database (missing ones are None when OPTIONAL, skip the step when skipping is configured, and are an error otherwise; explicit paths are never overwritten), and generating a recipe never modifies the template it was given. Running a recipe executes every non-skipped step exactly once in the listed order, feeding each step's output to the next with its calibrations and keywords, and saves where the recipe says so.",
 ["inputs","configurations","histories"],"every combination of level, visit type, photon-counting flag and header uniformity; every recipe (any number and order of steps, calibrations, keywords); repeated use of one template",
 "tests drive a few end-to-end recipes; the decision table and the skip/optional combinations are not enumerated and reuse of a template is never tried",
 [W],[("guess_template, _fill_in_calib_files, autogen_recipe, run_recipe, save_data","corgidrp/walker.py")])

prop("P18","Splitting a dataset partitions it by keyword values",
 "Splitting on a set of header keywords returns one sub-dataset per distinct combination of values: every frame appears in exactly one sub-dataset, frames of one sub-dataset agree on all keywords, frames of different ones differ in at least one, the order within each is the original order, and the reported value tuples correspond one-to-one to the sub-datasets. Frames' pixel data and headers are those of the original dataset.",
 ["inputs"],"every dataset and every assignment of keyword values to frames, primary and extension keywords together",
 "tests split a few mock frames on one keyword; partition laws quantify over all value assignments",
 [D],[("split_dataset","corgidrp/data.py:Dataset.split_dataset")])

prop("P19","Sky geometry keywords follow the calibration and the crop",
 "WCS creation writes, for each frame, the rotation matrix of (north angle + that frame's roll) scaled by the plate scale on each axis, the centre pixel, and the pointing minus the astrometric offset; cropping cuts the requested size around the requested (or each frame's own star) centre out of data, err and DQ alike and shifts star location, reference pixel and detector-origin keywords by exactly the cut-off amount. Separation/position-angle conversions are mutually inverse and a polar distance is symmetric and zero for identical points.",
 ["inputs"],"every calibration, roll, pointing, frame size, crop size and centre; every separation and angle",
 "tests use one roll, square frames and one star position for all frames; the relations are over all values and per frame",
 [L3,L4,"corgidrp/astrom.py"],[("create_wcs","corgidrp/l2b_to_l3.py"),("crop","corgidrp/l3_to_l4.py:crop"),("seppa2dxdy, seppa2xy, get_polar_dist, angle_between","corgidrp/astrom.py")])

prop("P20","Written products read back identically",
 "Saving any image or calibration product and reading it back yields the same pixel data, errors, DQ, header values and extra extensions.",
 ["inputs"],"every product type and content",
 "tests round-trip a few mock files; content space is unbounded",
 [D],[("Image.save, Image.__init__","corgidrp/data.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
