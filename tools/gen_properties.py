"""Writes /verif/properties.jsonl (one source of truth for the wording)."""
import json
import os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None,
         hook=None):
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": hook}}
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (pid, len(title))
    P.append(d)


IO = "algotom/io/loadersaver.py"
CV = "algotom/io/converter.py"
PP = "algotom/post/postprocessing.py"
UT = "algotom/util/utility.py"
CN = "algotom/prep/conversion.py"
CO = "algotom/prep/correction.py"
CA = "algotom/prep/calculation.py"
RM = "algotom/prep/removal.py"
FI = "algotom/prep/filtering.py"
PH = "algotom/prep/phase.py"
RE = "algotom/rec/reconstruction.py"
VE = "algotom/rec/vertrec.py"
CR = "algotom/util/correlation.py"
CB = "algotom/util/calibration.py"
SI = "algotom/util/simulation.py"

# ---------------------------------------------------------------- files, io
prop("P01", "Saving never destroys earlier results unless overwriting was asked for",
     "Along any history of save operations (images, image stacks, HDF streams, distortion-coefficient files, generated file and folder names), an operation called with overwriting off leaves every file that already exists byte-for-byte unchanged and puts its result in a new file whose name it reports. An operation called with overwriting on changes exactly the file it names. Every image of a stack ends up in its own file, whatever its index.",
     ["histories", "inputs"],
     "all sequences of save calls up to a small depth over colliding names, extensions and folders, with overwriting on and off, starting from empty and from occupied folders",
     "Tests call each saver once or twice on a fresh folder; collisions arise only from particular sequences and name shapes.",
     [IO], [("make_file_name", IO), ("make_folder_name", IO), ("save_image", IO), ("save_image_multiple", IO), ("open_hdf_stream", IO), ("save_distortion_coefficient", IO)])

prop("P02", "Images and stacks come back from disk as they were saved, in order",
     "An image or stack written to TIFF and read back has the same pixel values (as 32-bit floats) and the same order for every supported dtype, shape, stacking axis, start index, number of cores and loading function; listing files returns every match, sorted by name. Saving to an 8-bit format stretches the image linearly to 0-255.",
     ["inputs", "configurations"],
     "all small shapes, supported pixel types, axes, start indices, core counts and file-name sets",
     "Tests save one float image; dtype, axis, ordering and core-count combinations are not covered.",
     [IO], [("save_image", IO), ("load_image", IO), ("save_image_multiple", IO), ("load_image_multiple", IO), ("find_file", IO)])

prop("P03", "HDF listings and key searches are complete and truthful",
     "For any HDF file, the information listing names every dataset with its true shape and type, the key search returns exactly the listed keys containing the pattern, the printed tree contains every group and dataset once in its right place, and loading a key returns that dataset while a missing key is rejected.",
     ["inputs"],
     "all HDF hierarchies up to a few nodes and levels, including empty groups, empty files and dangling links, and all patterns drawn from their names",
     "Tests use one or two fixed trees.",
     [IO], [("get_hdf_information", IO), ("find_hdf_key", IO), ("get_hdf_tree", IO), ("load_hdf", IO)])

prop("P04", "Converting between TIFF folders and HDF keeps every pixel in place",
     "Converting a TIFF folder to HDF and extracting TIFFs from HDF keep exactly the pixels selected by the crop, index range and axis, in file-name order, under names carrying the slice index; the attached metadata is stored as given and the source is untouched.",
     ["inputs", "configurations"],
     "all crops, index triples, axes, name patterns and small stack shapes",
     "Tests use one shape with one or two crops; off-by-one errors on other edges, axes or steps pass unnoticed.",
     [CV, IO], [("convert_tif_to_hdf", CV), ("extract_tif_from_hdf", CV), ("open_hdf_stream", IO)])

prop("P05", "A TIFF folder can stand in for a 3D dataset",
     "Indexing the TIFF-folder emulator with integers, slices (any start, stop, step, also negative) and three-part indices gives exactly what the same index gives on the 3D array of the loaded images, with matching length, shape and type, for any number of cores; an out-of-range index raises an error instead of returning data.",
     ["inputs", "configurations"],
     "all integer and slice indices over small stacks, all combinations of index kinds along three axes, .tif/.tiff/.TIF names, one and several cores",
     "Tests index a handful of positions.",
     [CV], [("HdfEmulatorFromTif", CV)])

prop("P06", "Stack loaders pick the right frames and correct them the right way",
     "The loaders that assemble reference and sample stacks (from HDF with or without frame-type keys, or from TIFF folders) return, per scan and in scan order, exactly the requested projection and the average of exactly the frames flagged as flat and dark, cropped as requested and corrected as (image - dark) / (flat - dark), or image - dark without a flat field. A projection index out of range is rejected.",
     ["inputs", "configurations"],
     "all frame-key layouts of small scans (also interleaved and single flats or darks), all projection indices, crops, and flat/dark combinations",
     "Tests use one key layout; interleaved, single or missing flats and darks and most crops are never exercised.",
     [IO], [("get_reference_sample_stacks_dls", IO), ("get_reference_sample_stacks", IO), ("get_tif_stack", IO), ("get_image_stack", IO)])

prop("P07", "Calibration results survive being written to disk",
     "Saving distortion coefficients (centre and any number of polynomial factors of any magnitude and numeric type) and loading them returns the same numbers in the same order. A dataset streamed block by block into an HDF output, with its metadata, is read back identical for every write order and block size.",
     ["inputs", "histories"],
     "all factor counts up to a bound over extreme magnitudes and numeric types; all partitions and write orders of a small stream",
     "Tests round-trip one list of typical values and one whole-array write.",
     [IO], [("save_distortion_coefficient", IO), ("load_distortion_coefficient", IO), ("open_hdf_stream", IO)])

# --------------------------------------------------------- post-processing
prop("P08", "Dataset tools give the same right answer whatever the container",
     "Downsampling, rescaling and reslicing a 3D dataset gives the same values whether the input is an array, a TIFF folder or an HDF file and whether the output is an array, a TIFF folder or an HDF file, and they equal cropping the volume and then applying the operation to it, for every crop, axis, cell size, chunk size and number of cores.",
     ["inputs", "configurations"],
     "the product of input containers, output containers, crops, axes, cell sizes, methods, chunk sizes and bit depths over small volumes",
     "Tests compare a few shapes per container; wrong offsets in one container with one crop pass unnoticed.",
     [PP], [("downsample_dataset", PP), ("rescale_dataset", PP), ("reslice_dataset", PP)])

prop("P09", "Dataset tools touch nothing but their declared output",
     "Whatever a folder contains beforehand, and at whatever read or write an error strikes, downsampling, rescaling and reslicing a dataset leave the input and all unrelated files and folders byte-for-byte intact; without overwriting, existing results at the output location are kept (the call is refused), and with overwriting the result is at the name given.",
     ["fault_sequences", "configurations", "histories"],
     "all directory layouts over a small set of pre-existing neighbours, all input/output containers, overwriting on and off, and an injected failure at every individual read and write",
     "Tests run in clean folders with no failures; what is removed or left behind next to the output is never looked at.",
     [PP, IO], [("reslice_dataset", PP), ("rescale_dataset", PP), ("downsample_dataset", PP), ("make_file_name", IO)])

prop("P10", "Dataset statistics are the statistics of the selected volume",
     "The statistics of an array are its minimum, maximum, lower and upper percentile, mean, median and variance, each in its own place; for a dataset they combine the per-slice statistics of exactly the cropped, sub-sampled slices, with the same result for array, TIFF and HDF input.",
     ["inputs", "configurations"],
     "all small volumes over a few grey levels, crops, skip values, percentiles and containers, down to a single slice",
     "Tests check only approximate values on one random volume, for which mean and median coincide.",
     [PP], [("get_statistical_information", PP), ("get_statistical_information_dataset", PP)])

prop("P11", "Rescaling and downsampling follow their arithmetic exactly",
     "Rescaling maps the chosen grey-level range linearly and monotonically onto the full range of the requested integer type, clipping values outside it, for 8 and 16 bits and any number of dimensions; downsampling replaces each full cell by its mean, median, max or min in the right place and drops incomplete cells. Requests that cannot be honoured are rejected.",
     ["inputs"],
     "all small 2D/3D shapes, cell sizes, methods, bit depths and ranges over a small grey-level alphabet",
     "Tests check shapes and one or two values.",
     [PP], [("downsample", PP), ("rescale", PP)])

# --------------------------------------------------------------- parallel
prop("P12", "Parallel slice processing equals processing the slices one by one",
     "Applying a method to the slices of a 3D array along any axis returns the method's result for each slice at that slice's position, with the same value for every number of cores, for thread and process workers and for every order in which the slice tasks run and finish, including for arrays read from HDF; an error in one slice is reported and not dropped.",
     ["schedules", "inputs", "configurations"],
     "all task interleavings of small stacks under a controlled scheduler, all axes, core counts and backends, methods that change or do not change the slice shape",
     "Tests run whatever schedule the machine happens to produce.",
     [UT], [("parallel_process_slices", UT)])

prop("P13", "Multi-threaded back-projection does not depend on the schedule",
     "The CPU back-projection routines (single slice, vertical slice and several vertical slices) give the sequential result for every assignment of loop iterations to threads and every interleaving of their reads and writes of shared arrays.",
     ["schedules"],
     "all interleavings of the shared-memory accesses of all parallel loop iterations for small images, up to independence of non-conflicting accesses",
     "Tests observe one lucky schedule with a loose tolerance; a lost update appears only under rare timing.",
     [RE, VE], [("back_projection_cpu", RE), ("vertical_back_projection_cpu", VE), ("vertical_back_projection_cpu_chunk", VE)])

# -------------------------------------------------------------- conversion
prop("P14", "Stitching and joining images puts every pixel where it belongs",
     "Stitching overlapping images keeps the non-overlapping pixels of both, blends the overlap with weights that add up to one (also for sub-pixel overlaps), joining non-overlapping images keeps all pixels (apart from a smoothing of at most three pixels next to the gap) and bridges the gap from one border to the other, for either side, for two or many images, and the result has the requested total width. Images cut from one scene are re-assembled into that scene. Attaching a list of images gives what attaching them one by one with the same options gives.",
     ["inputs", "configurations"],
     "all widths, integer and half-integer overlaps or gaps, both sides, up to four images, with and without normalisation and total width",
     "Tests stitch one pair with one overlap.",
     [CN], [("stitch_image", CN), ("join_image", CN), ("stitch_image_multiple", CN), ("join_image_multiple", CN), ("make_weight_matrix", CN)])

prop("P15", "360-degree and 180-degree sinograms convert into each other consistently",
     "Converting a half-acquisition 360-degree sinogram to 180 degrees re-assembles the full-width sinogram with the right centre of rotation, for every off-centre axis on either side; converting 180 to 360 appends the mirrored opposite views about the centre; extending a 360-degree sinogram pads to a centred sinogram keeping every measured value.",
     ["inputs"],
     "all integer and half-integer centres for small sinograms of either parity",
     "Tests check output shapes for one centre.",
     [CN], [("convert_sinogram_360_to_180", CN), ("convert_sinogram_180_to_360", CN), ("extend_sinogram", CN)])

prop("P16", "Helical scans give the right sinogram for every reconstructable slice",
     "For every slice index up to the reported maximum, the sinogram generated from helical data contains, per angle, the detector row that saw that slice at that angle, with the matching angles and flat-field and crop handling; every index beyond the maximum is rejected; the reported reconstructable height and maximum index agree with this.",
     ["inputs", "configurations"],
     "all slice indices for a family of small pitches, pixel sizes, scan types, crops and flat/dark options",
     "Tests check shapes for one index.",
     [CN, CA], [("generate_sinogram_helical_scan", CN), ("generate_full_sinogram_helical_scan", CN), ("calculate_reconstructable_height", CA), ("calculate_maximum_index", CA)])

prop("P17", "Grid-scan slices are located in the right row with complete weights",
     "For any grid of overlapping rows, locating a slice gives the grid-row(s) and local index where that physical slice was recorded with weights that add up to one and vary linearly across the overlap, locating a chunk agrees slice by slice with locating each slice, and out-of-range slices yield an empty result. Repairing overlap metadata keeps trustworthy entries, replaces only non-sample ones and does not alter the caller's array.",
     ["inputs", "configurations"],
     "all grids of up to four rows with all row heights and overlap tuples in a small range, all slices and chunks",
     "Tests check two or three indices of one grid with equal overlaps.",
     [UT], [("locate_slice", UT), ("locate_slice_chunk", UT), ("fix_non_sample_areas", UT)])

# -------------------------------------------------------------- correction
prop("P18", "Flat-field correction follows its formula and never divides by zero",
     "Flat-field correction returns (projection - dark) / (flat - dark) with the given flat ratio for 2D and 3D input, with or without dark subtraction, is finite wherever the input is finite even where flat equals dark (what value such a pixel takes is left open), and the optional pre-processing steps are applied to the corrected image in the order given with their own parameters.",
     ["inputs", "configurations"],
     "all small images over an alphabet including equal flat and dark, all option combinations, 2D/3D",
     "Tests use one random image.",
     [CO], [("flat_field_correction", CO)])

prop("P19", "Distortion correction of a sinogram equals that of the projections",
     "Un-distorting a single sinogram or a chunk of sinograms gives the same rows as un-distorting every projection as a whole, for every row including the first and last, every chunk range, crop of the data source and distortion model; zero distortion is the identity.",
     ["inputs", "configurations"],
     "all rows and row ranges of small volumes for a family of distortion centres and radial coefficients, from arrays and HDF datasets",
     "Tests only check that the result differs from the input or has the right shape for one row.",
     [CO], [("unwarp_projection", CO), ("unwarp_sinogram", CO), ("unwarp_sinogram_chunk", CO)])

prop("P20", "Tilted sinograms and profiles are consistent for every row and angle",
     "Extracting a tilted sinogram or profile, one at a time or in chunks, samples the same tilted lines as rotating the image about its middle, agrees between single and chunk versions for every row, and a zero tilt returns the untouched row.",
     ["inputs", "configurations"],
     "all rows, all chunk ranges and a set of angles of both signs over small volumes",
     "Tests check shapes and one row.",
     [CO], [("generate_tilted_sinogram", CO), ("generate_tilted_sinogram_chunk", CO), ("generate_tilted_profile_line", CO), ("generate_tilted_profile_chunk", CO)])

prop("P21", "Grey-level corrections respect their fixed points and monotonicity",
     "Beam-hardening correction maps 0 to 0 and 1 to 1 and never swaps the order of grey levels, deconvolving an image by a window undoes convolving it with that window, and up-sampling a sinogram by a factor that is a power of two multiplies its number of rows by that factor and approximates the sinogram that would have been measured at the refined angles.",
     ["inputs", "configurations"],
     "a dense grid of intensities, all parameters in a small range, all small shapes, pads and factors",
     "Tests check one parameter set.",
     [CO], [("beam_hardening_correction", CO), ("non_linear_function", CO), ("mtf_deconvolution", CO), ("upsample_sinogram", CO)])

# -------------------------------------------------------------- calculation
prop("P22", "Overlap search finds the true overlap on either side",
     "For two images cut from one textured scene, the overlap search finds the true overlap and side for every overlap within the searchable range, whichever of the two sides it is on, with the side given or automatic and with any option combination and number of cores; automatic side selection gives what the better explicit side gives; chains of images give the list of pairwise results. Blank areas (constant or zero) in either image outside the overlapping region do not change the answer.",
     ["inputs", "configurations"],
     "all overlaps for both sides, all option combinations, several cores, chains of up to four images",
     "Tests check one overlap on a near-perfect pattern.",
     [CA], [("search_overlap", CA), ("find_overlap", CA), ("find_overlap_multiple", CA)])

prop("P23", "The centre of rotation is found wherever it is",
     "For simulated scans with a known centre of rotation, each centre-finding method (180-degree sinogram, 360-degree sinogram, pair of opposite projections, phase correlation) returns it within its stated accuracy, for every centre in the searchable range and either half, and moves one-for-one when the data are shifted.",
     ["inputs", "configurations"],
     "all centres on an integer or half-integer grid within the search range for small simulated scans, each method and option",
     "Tests use one or two centres.",
     [CA], [("find_center_vo", CA), ("find_center_360", CA), ("find_center_projection", CA), ("find_center_based_phase_correlation", CA), ("find_shift_based_phase_correlation", CA)])

# ------------------------------------------------------------------ removal
prop("P24", "Sorting and frequency separation lose nothing",
     "Sorting an image along an axis orders every line and un-sorting with the returned index restores the image exactly, for every image including ties; the low- and high-frequency parts add up to the image for every window; wavelet decomposition followed by reconstruction returns the image; a filter applied to a decomposition, or a level ignored on reconstruction, acts on exactly the requested levels (level 1 is the finest) and component.",
     ["inputs"],
     "all small images over a small grey-level alphabet (all orders and ties), both axes, a family of windows, wavelets and levels",
     "Tests use one random image without ties.",
     [UT], [("sort_forward", UT), ("sort_backward", UT), ("separate_frequency_component", UT), ("apply_wavelet_decomposition", UT), ("apply_wavelet_reconstruction", UT)])

prop("P25", "Stripe removal removes stripes and leaves the rest alone",
     "Each stripe-removal method strongly reduces a full, partial or dead stripe it is designed for at every column position away from the borders, returns an array of the same shape with finite values, and changes a stripe-free sinogram only within a small tolerance.",
     ["inputs", "configurations"],
     "every stripe position, stripe width, sign and parameter choice in a small range for a family of smooth sinograms, for every method",
     "Tests put one stripe at one column.",
     [RM], [("remove_stripe_based_sorting", RM), ("remove_all_stripe", RM), ("remove_dead_stripe", RM), ("remove_large_stripe", RM), ("remove_stripe_based_filtering", RM), ("remove_stripe_based_fitting", RM)])

prop("P26", "Zinger and blob removal repair the defect and only the defect",
     "Removing zingers or blobs changes no pixel outside the flagged defect, replaces every flagged pixel by values interpolated from good neighbours (for blobs the two outermost columns count as good), for defects of every shape and place including the image borders, and the caller's image and mask stay as they were, so that calling twice with the same mask gives the same result.",
     ["inputs", "histories"],
     "all masks of small lines and images, all zinger positions, thresholds and sizes, and repeated calls",
     "Tests use one defect in the interior.",
     [RM], [("remove_zinger", RM), ("remove_blob", RM), ("remove_blob_1d", RM), ("generate_blob_mask", RM), ("check_zinger_size", RM)])

prop("P27", "Stripe detection and interpolation act exactly on the flagged columns",
     "Stripe detection flags the outlying positions of a profile, of either sign, and nothing on a linear profile with ordinary noise; interpolation inside stripes leaves every unflagged column bit-identical, fills flagged ones from their neighbours exactly for linear images, and never needs data outside the image.",
     ["inputs"],
     "all binary masks of small widths, all outlier positions, signs and strengths, all interpolation kinds",
     "Tests use one mask.",
     [UT], [("detect_stripe", UT), ("interpolate_inside_stripe", UT)])

# -------------------------------------------------------------------- phase
prop("P28", "Phase unwrapping recovers the true phase up to a constant",
     "For a phase map whose neighbouring differences stay below pi, the fast unwrapping methods recover it from its wrapped version up to a constant, for every image shape of either parity: exactly with the cosine transform and with the iterative version (as long as neighbours stay well below pi apart), approximately with the one-step FFT; the result of the iterative version is congruent to the input modulo two pi.",
     ["inputs"],
     "all small shapes (even, odd, non-square) times a family of slopes, curvatures and amplitudes, each method, with given and default windows",
     "Tests use one square image.",
     [PH], [("unwrap_phase_based_cosine_transform", PH), ("unwrap_phase_based_fft", PH), ("unwrap_phase_iterative_fft", PH)])

prop("P29", "Surface integration inverts the gradient",
     "Reconstructing a surface from its x- and y-gradients returns the surface up to a constant (and the mean slope) for every shape of either parity, treats the two directions alike (transposing the input transposes the result), is linear in the gradients and depends on window and padding options only as documented.",
     ["inputs"],
     "all small shapes including non-square ones, a family of periodic and non-periodic surfaces, paddings and windows, both methods",
     "Tests use one square surface with a loose bound.",
     [PH], [("reconstruct_surface_from_gradient_FC_method", PH), ("reconstruct_surface_from_gradient_SCS_method", PH)])

prop("P30", "Speckle stacks are aligned and evaluated correctly",
     "The shift of the sample stack relative to the reference stack is found for every shift within the margin, also the per-pixel shifts of the speckle-tracking retrieval, aligning the stacks with them undoes the shift on the common area, and the transmission and dark-field signals of a sample with constant transmission and visibility reduction are that transmission and reduction, the same for every number of cores.",
     ["inputs", "configurations"],
     "all integer shifts within the margin, all stack lengths up to a bound, several cores, a family of transmissions and visibilities",
     "Tests use zero or one shift.",
     [PH, CR], [("find_shift_between_image_stacks", PH), ("align_image_stacks", PH), ("get_transmission_dark_field_signal", PH), ("retrieve_phase_based_speckle_tracking", PH)])

# ----------------------------------------------------------- reconstruction
prop("P31", "Reconstructing a stack equals reconstructing each slice",
     "For every reconstruction method available on CPU, reconstructing a 3D stack of sinograms gives, slice by slice, the reconstruction of each sinogram alone, for any number of cores and input type; the result is linear in the sinogram, the circular mask only zeroes the outside of the circle, and applying the logarithm inside equals applying it beforehand (for the direct Fourier method when the shift to the centre is whole pixels).",
     ["inputs", "configurations"],
     "all stack sizes up to a bound, core counts, input types, centres, mask ratios and log options for each method",
     "Tests reconstruct one stack with one setting per method.",
     [RE], [("fbp_reconstruction", RE), ("bpf_reconstruction", RE), ("dfi_reconstruction", RE), ("gridrec_reconstruction", RE)])

prop("P32", "Reconstructions put features in the right place at the right strength",
     "Reconstructing the sinogram of a small object at a known place with the true centre and angles shows it at that place with the right grey level and sign, for every position, every centre of rotation and every angular range given, and the same for all methods; shifting the sinogram together with the centre leaves the image unchanged.",
     ["inputs", "configurations"],
     "all object positions on a grid, all centres on a half-integer grid, default, reversed, offset and irregular angles, each method",
     "Tests compare only coarse image statistics for a centred phantom.",
     [RE], [("fbp_reconstruction", RE), ("bpf_reconstruction", RE), ("dfi_reconstruction", RE), ("back_projection_cpu", RE)])

prop("P33", "Vertical-slice reconstruction equals reslicing the full reconstruction",
     "Directly reconstructing one or several vertical slices gives the same picture as reconstructing the volume (with the same filter) and cutting it there, for every slice position and slice angle, projection range, crop and flat/dark option; the single, multiple and different-angle versions agree, and the chunk size never matters.",
     ["inputs", "configurations"],
     "all slice indices, a set of slice angles over [0, 180], all chunk sizes, projection ranges and crops for small volumes, each filter option",
     "Tests check shapes and one slice.",
     [VE, RE], [("vertical_reconstruction", VE), ("vertical_reconstruction_multiple", VE), ("vertical_reconstruction_different_angles", VE)])

prop("P34", "Centre search by image quality evaluates every candidate faithfully",
     "Searching the centre through reconstructed slices evaluates every candidate from start to stop (at most one beyond it) with the given step, returns a candidate with the smallest metric, and the visual tools write exactly one image per candidate, named after its centre, into a new folder without touching earlier ones, each equal to the reconstruction at that centre.",
     ["inputs", "histories", "configurations"],
     "all start/stop/step triples over a small grid, both serial and parallel evaluation, repeated runs into one folder",
     "Tests run one range.",
     [RE, VE, UT], [("find_center_based_slice_metric", RE), ("find_center_visual_slices", RE), ("find_center_vertical_slice", VE), ("find_center_visual_vertical_slices", VE), ("find_center_visual_sinograms", UT)])

# -------------------------------------------------------------- correlation
prop("P35", "Correlation maps and peaks follow their definition",
     "The correlation map of two images or stacks holds at each offset the Pearson coefficient of the overlapping areas, the located peak is the position of the maximum (or minimum) refined by at most a pixel for any peak position including edges and corners, exact for a quadratic peak, and the shift found is the true shift for every integer shift within the margin in either axis.",
     ["inputs", "configurations"],
     "all small image sizes, every peak position, every integer shift within the margin, 2D and 3D, each axis and sub-pixel option",
     "Tests use a single shift.",
     [CR], [("generate_correlation_map", CR), ("locate_peak", CR), ("find_shift_based_correlation_map", CR)])

prop("P36", "Local shift maps do not depend on how the work is divided",
     "Local shift maps (correlation or speckle-matching based) report the true shift at every pixel inside the border for a uniformly shifted pattern, are zero on the border left out of the search, and are the same for every chunk size, number of cores and array or HDF input, when no local normalisation is requested; the global shift summarises exactly the points given.",
     ["inputs", "configurations"],
     "all chunk sizes, several core counts, all integer shifts within the margin, both dimensionalities and methods, all point lists of a small grid",
     "Tests run one chunk size.",
     [CR], [("find_local_shifts", CR), ("find_local_shifts_umpa", CR), ("find_global_shift_based_local_shifts", CR)])

# -------------------------------------------------------------- calibration
prop("P37", "Calibration recovers known dots, ellipses and tilts",
     "Measuring simulated calibration targets returns their true values: the size of dots, which dots fall within a size range, the distance between two dots, the ellipse through points of a circular path and the tilt and roll of the rotation axis, for every orientation and sign.",
     ["inputs"],
     "a grid of dot positions and sizes, ellipse axes, centres and rotations, tilt/roll pairs of both signs, and both methods",
     "Tests check one target.",
     [CB], [("calculate_distance", CB), ("get_dot_size", CB), ("select_dot_based_size", CB), ("fit_points_to_ellipse", CB), ("find_tilt_roll", CB), ("binarize_image", CB)])

# --------------------------------------------------------------- simulation
prop("P38", "Simulated phantoms and artifacts are what they claim to be",
     "Elliptic and rectangular masks contain exactly the pixels inside the requested shape for every centre, size and angle, a simulated sinogram keeps the mass of the object at every angle and mirrors it at the opposite angle, and adding a stripe artifact changes only the requested columns.",
     ["inputs"],
     "all small sizes, centres, lengths and a set of angles; all stripe positions, widths and types",
     "Tests check one example each.",
     [SI], [("make_elliptic_mask", SI), ("make_rectangular_mask", SI), ("make_sinogram", SI), ("add_stripe_artifact", SI)])

# ---------------------------------------------------------------- filtering
prop("P39", "Filters keep the mean level and act along the intended axis",
     "Fresnel, double-wedge, Gaussian, regularisation, ramp and smoothing filters return an array of the input's shape for every shape and padding, leave a constant image as they should (unchanged for smoothing filters), are linear, respect the mirror symmetry of the image, and those documented as windows about the zero frequency are symmetric about it.",
     ["inputs", "configurations"],
     "all small shapes of either parity, paddings, modes, axes, and filter strengths",
     "Tests use one even-sized image.",
     [FI, UT, RE], [("fresnel_filter", FI), ("double_wedge_filter", FI), ("apply_gaussian_filter", UT), ("apply_regularization_filter", UT), ("apply_ramp_filter", RE), ("make_smoothing_window", RE)])

prop("P40", "Polar transforms and ring removal keep the image geometry",
     "Transforming a slice to polar coordinates and back returns the slice inside the circle, rings become straight stripes at their radius for every radius, and ring removal in the reconstructed image suppresses a ring at every radius while leaving ring-free areas nearly unchanged and the shape the same.",
     ["inputs", "configurations"],
     "all small sizes of either parity, every ring radius, each method with and without sorting",
     "Tests use one ring or none.",
     [UT, PP], [("transform_slice_forward", UT), ("transform_slice_backward", UT), ("remove_ring_based_fft", PP), ("remove_ring_based_wavelet_fft", PP)])

# ---------------------------------------------------------- cross-cutting
prop("P41", "No function alters the data it is given",
     "Calling any public processing function leaves the caller's arrays, lists and dictionaries exactly as they were, for inputs of every float type and for read-only arrays, also when the input holds zero or negative values and when the call ends in an error.",
     ["inputs", "configurations"],
     "every public array function times argument choices (types, zeros, negative values, log and mask options), with writeable and read-only inputs",
     "Tests look at return values only.",
     [CN, CO, CA, RM, FI, PH, RE, VE, UT, PP, CR, CB, SI], [("all public functions", "algotom/")])

prop("P42", "Results depend on pixel values only, not on memory layout or history",
     "Any public processing function returns the same result for equal inputs however they are stored (C or Fortran order, sliced views; float32 or float64; signed or unsigned integers of the same values where integer images are meaningful) and however often and after whichever other calls it is run; functions without a random ingredient are deterministic.",
     ["inputs", "histories"],
     "every public array function times storage layouts, repeated calls and all ordered pairs of calls",
     "Tests call each function once on a contiguous array.",
     [CN, CO, CA, RM, FI, PH, RE, VE, UT, PP, CR, CB, SI], [("all public functions", "algotom/")])

prop("P43", "GPU code paths compute what the CPU code computes",
     "Every routine that has a GPU path (back-projection of a slice, of a stack, of vertical slices, correlation maps, local and global shifts, speckle matching) returns on the GPU path the same result as on the CPU path, for every thread-block size, whatever the image size is relative to the block, and for every order in which the GPU threads run; no thread reads or writes outside the arrays.",
     ["inputs", "schedules", "configurations"],
     "all small image shapes, block shapes, edge options and centres, with every thread order class of the kernels, on a simulated device",
     "Tests skip the GPU path when no device is present, so kernels are never executed.",
     [RE, VE, CR], [("back_projection_gpu", RE), ("back_projection_gpu_chunk", RE), ("vertical_back_projection_gpu", VE), ("vertical_back_projection_gpu_chunk", VE)])

prop("P44", "Dead pixels and blank areas never poison a result",
     "Every processing routine given finite data that contain zero pixels, negative pixels or columns, blank (zero or constant) rows, columns, frames or halves, or that are constant altogether, returns finite values everywhere: a division by zero, a logarithm of a non-positive value or a zero spread never turns into NaN or infinity in the output, and data with a small defect of that kind are not refused. Outside the property: scaling by the mean of an entirely blank picture, speckle matching in windows without any signal, and negative values given to the beam-hardening response curve, which is documented for grey levels between 0 and 1.",
     ["inputs", "configurations"],
     "every data-processing entry point with each of its option sets, every kind and position of blank area on a small grid, each input type",
     "Tests use strictly positive random data.",
     [CO, CN, RM, FI, CR, RE], [("flat_field_correction", CO), ("generate_sinogram_helical_scan", CN), ("normalize_image", CR)])

prop("P45", "The unit and the background of grey levels do not matter",
     "Multiplying all the grey levels given to a routine by one power of two (a change of unit: counts or normalised values) multiplies its result by the same factor where the result is an image, sinogram, slice or profile (stripe, ring, zinger and blob removal, filters, regularisation, wavelet and frequency separation, stitching and joining, 180/360 conversion, tilting, distortion correction, resampling, surface integration, statistics, FBP/BPF/DFI and vertical back-projection without logarithm), and leaves it unchanged where the result is a ratio, a mask, a position, a shift, an overlap or a centre (flat-field correction of data, flat and dark together, rescaling to 8 or 16 bit, binarisation, helical sinograms, overlap and centre search, phase correlation, correlation maps and local shifts, speckle phase and dark-field signal, sample and blob detection, threshold-based masks). Adding a constant moves the result by that constant for smoothing filters, stripe removal by sorting, filtering, FFT, wavelets, interpolation, normalisation or (without logarithm) regularisation, interpolation, resampling, stitching without normalisation, order statistics and geometric operations, and leaves decisions, shifts, correlations, 8/16-bit rescaling and dark-subtracted ratios unchanged. No hidden absolute threshold or epsilon decides the outcome.",
     ["inputs", "configurations"],
     "every public array function and option branch with each value pattern, element type, factor and constant",
     "Tests use random numbers of order one, so hidden absolute thresholds and unit-bound constants never act.",
     [RM, FI, CO, CA, CN, CR, UT, PP], [("remove_stripe_based_sorting", RM), ("find_overlap", CA), ("flat_field_correction", CO), ("generate_correlation_map", CR), ("apply_gaussian_filter", UT)])

prop("P46", "Mirroring the data mirrors the result",
     "Wherever left and right (or top and bottom) have no physical meaning, mirroring the input together with the positions, signs and sides given mirrors the result, for even and odd sizes: stripe, ring, zinger and blob removal, smoothing, ramp, Fresnel and double-wedge filters, regularisation, sorting and frequency separation, stitching, joining and 360-to-180 conversion (side and overlap mirrored), flat-field correction, distortion correction and tilted profiles (centre mirrored), 180-to-360 conversion, overlap, centre and shift searches (the answer is mirrored), correlation maps and local shifts, phase unwrapping and surface integration, FBP, BPF, DFI and vertical reconstruction (centre and angles mirrored), statistics, rescaling, downsampling, and calibration (background, threshold, dot size, ellipse and tilt fits). No routine has a preferred side, an off-by-one window or a half-pixel drift.",
     ["inputs", "configurations"],
     "every listed function with every switch setting, each height and width of both parities, all mirrorings",
     "Tests check shapes or a handful of values at one size and cannot see a one-sided window.",
     [RM, FI, CN, CA, CO, CR, PH, RE, UT, CB], [("separate_frequency_component", UT), ("find_center_360", CA), ("fbp_reconstruction", RE), ("find_local_shifts", CR), ("unwarp_projection", CO)])

prop("P47", "Ill-formed requests are refused, requests at the limit are served",
     "For every parameter with a legal range or a required agreement with another one, a value outside is answered by a ValueError (or the documented exception) and never by a picture, and a value inside, up to and including the limits, is served: slice, frame and image indices (negative ones count from the end, never beyond), crops that leave nothing, reconstruction centres inside the image, number of angles against number of projections, equal shapes of images that are compared, stitched, aligned or corrected with flat and dark fields, window and margin sizes against the image, parities and minimum sizes, names of methods, filters, sides, scan types and file types, missing files, folders and keys, lists of matching length, spiral positions within the field.",
     ["inputs", "configurations"],
     "every guarded parameter over a range that extends beyond its legal set on each side; pairs of values where two have to agree",
     "Tests try at most one bad value per guard and never the value exactly at the limit.",
     [IO, CV, PP, UT, CA, CN, CO, CR, RE, VE, CB], [("get_tif_stack", IO), ("get_image_stack", IO), ("find_overlap", CA), ("find_local_shifts", CR), ("vertical_reconstruction", VE), ("locate_slice_chunk", UT)])

prop("P48", "External back-ends get the right data and leave nothing behind",
     "The wrappers around TomoPy (gridrec) and the ASTRA toolbox hand over, for 2D sinograms and stacks, the logarithm of the data (non-positive values counting as full transmission) or the data themselves, edge-padded as documented, with the angles in radians (evenly spread over 180 degrees when none are given) and the centre of rotation at its place in the padded data (ASTRA: shifted to the middle column), with the requested algorithm, filter, filter parameter and number of iterations; the image handed back is cropped to the sinogram width, in slice order, with the circle mask applied (ratio 0: the largest circle around the given centre; None: no mask). CUDA algorithms fall back to the CPU ones without a GPU; unknown algorithms, centres outside the image and angle lists of the wrong length are refused with ValueError; every object made in the toolbox is released, also when the toolbox refuses. The visual and metric-based centre searches give through these back-ends the slices of every candidate centre.",
     ["inputs", "configurations", "fault_sequences"],
     "all combinations of size, dimension, centre, angles, ratio, padding, logarithm, filter, algorithm, cores and GPU availability; refusal by the toolbox",
     "The back-ends are not installed where the tests run, so none of this code is ever executed.",
     [RE], [("gridrec_reconstruction", RE), ("astra_reconstruction", RE), ("find_center_visual_slices", RE), ("find_center_based_slice_metric", RE)])

prop("P49", "Windows, masks, fits and scan plans follow their definition",
     "The design helpers return for every size and setting what their formula says: Butterworth windows (exactly the requested rows around the middle, all rows when more are requested than exist), damping windows with zero at the zero frequency, radial 2D versions of 1D windows, the inverse double-wedge mask with its dropped rows and columns, the sinogram coordinates of the direct Fourier method, the response curve of the beam-hardening correction, the vertex and curvature of a parabola through the minimum of a metric list wherever the minimum lies (ends included), Fermat-spiral positions (refused as soon as one leaves the field of view). A well-sampled sinogram of an object off the axis is recognised as containing a sample and a uniform one is not. Making a folder creates exactly the missing folders on the way to the path given (for a path with a file suffix those of its parent), changes nothing else and may be repeated.",
     ["inputs", "configurations"],
     "every combination of size, cut-off, order, band, radius, list shape, vertex position, step, field and path layout",
     "Tests check the shape of the returned array at one size.",
     [UT, CA, RE, CO, IO], [("make_2d_butterworth_window", UT), ("make_2d_damping_window", UT), ("transform_1d_window_to_2d", UT), ("make_inverse_double_wedge_mask", CA), ("calculate_curvature", CA), ("generate_spiral_positions", UT), ("generate_mapping_coordinate", RE), ("detect_sample", UT), ("make_folder", IO)])

prop("P50", "A failing disk or broken file is reported and the work repeatable",
     "When any single operation on disk fails during loading, saving, converting, reslicing, downsampling, rescaling or taking statistics (opening, reading, creating, writing a file or making a folder, in the calling thread or a worker thread), or when any one of the input files is empty, truncated, not an image or missing, the call ends with an exception and never with a result that lacks or falsifies the affected part. Input files and files of others stay as they are, and nothing (temporary folders, half-done intermediate files) is left outside the place of the output. Once the disk is well again, repeating the call gives exactly what an undisturbed call gives: no open handle, lock or left-over of the failed attempt is in the way.",
     ["inputs", "fault_sequences", "configurations"],
     "every low-level operation of every input/output routine x container x number of workers; every input file x kind of damage",
     "Tests only run on a healthy disk with sound files.",
     [IO, CV, PP, UT], [("load_image_multiple", IO), ("save_image_multiple", IO), ("get_image_stack", IO), ("convert_tif_to_hdf", CV), ("reslice_dataset", PP), ("rescale_dataset", PP), ("parallel_process_slices", UT)])

prop("P51", "How a path is written and what its folders are called does not matter",
     "Loading, saving, converting, reslicing, downsampling, rescaling, listing and taking statistics do the same work whichever way the input and output paths are written: absolute or relative to the working directory, through \".\", \"..\", doubled separators or a symbolic link, and whatever the folders on the way and the files are called (blanks, accents, dots, brackets, stars, question marks, leading dots, a name that looks like a file of another type). The output is at the place the path denotes; nothing else appears or changes anywhere.",
     ["inputs", "configurations"],
     "every input/output routine x path spelling x folder or file name x working directory",
     "Tests use one absolute or relative path with plain letters.",
     [IO, CV, PP], [("find_file", IO), ("load_image_multiple", IO), ("save_image", IO), ("make_folder", IO), ("convert_tif_to_hdf", CV), ("reslice_dataset", PP), ("downsample_dataset", PP), ("get_statistical_information_dataset", PP)])

prop("P52", "Operations that are linear by definition respond linearly",
     "Operations that are linear (or affine) in their data by definition give every change of the data a response that depends neither on the other values nor on the size or sign of the change, and the result for two data sets differs by exactly the sum of the responses of the elements in which they differ: interpolation, distortion and tilt correction, resampling, deconvolution, stitching and joining without normalisation, 180/360 conversion and extension without logarithm, helical sinograms and flat-field correction in the projections, Fourier, wavelet, Fresnel, double-wedge, ramp and Gaussian filters, stripe removal by regularisation, normalisation, FFT and wavelets, blob removal with a given mask, surface integration, frame alignment with given shifts, FBP, BPF, DFI and vertical reconstruction without logarithm, forward projection. No clipping, threshold, rounding or value-dependent branch distorts quantitative values.",
     ["inputs", "configurations"],
     "every linear operation and option branch, every element of every data array, two data sets, two sizes and signs of change",
     "Tests check shapes, means or one comparison on random data of order one, where clipping and thresholds never act.",
     [CN, CO, CA, RM, FI, PH, RE, VE, UT, PP, SI], [("stitch_image", CN), ("unwarp_projection", CO), ("fresnel_filter", FI), ("double_wedge_filter", FI), ("remove_stripe_based_regularization", RM), ("back_projection_cpu", RE), ("vertical_back_projection_cpu", VE), ("mapping", UT), ("make_sinogram", SI)])

prop("P53", "Nothing leaks between rows, slices or windows and no data are ignored",
     "A changed grey level changes only those parts of a result that depend on it by definition: its own pixel in pixel-wise corrections, its own row, column, slice, frame or wavelet component where these are worked on one by one (flat-field correction, stitching, row-wise filters and interpolation, sorting and regularisation, stack reconstruction, vertical reconstruction, parallel processing of slices, frame alignment, component filters), the stated window around it in windowed operations (stripe removal by sorting or filtering, zinger removal, distortion and tilt correction, downsampling, correlation maps, dark-field signals). Operations that use all the data do so: every element of the data has an influence, and every element of a full-size result depends on the data.",
     ["inputs", "configurations"],
     "every listed function and option branch, every element of every array given to it",
     "Tests compare whole results on one input and cannot see a foreign row mixed in or a row left out.",
     [CN, CO, RM, FI, PH, RE, VE, UT, PP, CR], [("flat_field_correction", CO), ("remove_stripe_based_sorting", RM), ("remove_zinger", RM), ("unwarp_sinogram_chunk", CO), ("fbp_reconstruction", RE), ("vertical_reconstruction_multiple", VE), ("parallel_process_slices", UT), ("apply_filter_to_wavelet_component", UT), ("get_transmission_dark_field_signal", PH)])

prop("P54", "Functions can be used from several threads at once",
     "Two calls of public array functions may run at the same time in different threads - of the same function on the same (unmodified) data, on other data, or with other options and sizes - and each returns exactly what it returns when it runs alone, wherever one of them is pre-empted by the other.",
     ["schedules", "inputs"],
     "every listed function and option branch, every line of it as switching point",
     "Tests run one call at a time; shared scratch buffers or module-level state only show under a particular interleaving.",
     [CN, CO, RM, FI, PH, RE, VE, UT, PP, CR], [("fbp_reconstruction", RE), ("remove_all_stripe", RM), ("parallel_process_slices", UT), ("make_2d_gaussian_window", UT), ("unwrap_phase_iterative_fft", PH), ("find_local_shifts", CR)])

prop("P55", "An interrupted call leaves nothing behind",
     "When a call of a public function is interrupted (Ctrl-C) at any point, the interruption reaches the caller; the arrays it was given, the process-wide settings (numpy error handling, warning filters, environment, working directory, thread numbers, random state) and all files outside the stated output location are as before, no temporary folder and no open file remains, and the same call made again gives the result of an undisturbed one.",
     ["fault_sequences", "inputs"],
     "every listed array function, loader, saver, converter and dataset tool; every line of it as point of interruption",
     "Tests never interrupt a call; leftovers show only for an interruption between two particular lines.",
     [CN, CO, RM, FI, PH, RE, VE, UT, PP, CR, IO, CV], [("search_overlap", CA), ("vertical_reconstruction", VE), ("reslice_dataset", PP), ("convert_tif_to_hdf", CV), ("save_image_multiple", IO), ("flat_field_correction", CO)])

prop("P56", "The size of the data changes nothing but the size of the result",
     "When a pattern is repeated along one dimension - more rows, columns, slices, frames, projections or files, up to tens of thousands - functions that work on the elements along that dimension one by one or within a window give the repeated result (same values, same type, complete, in order), and results that are means, sorted orders, fits or sums over all projections are the same as for few repeats: stitching, flat-field, distortion and tilt correction, stripe, zinger and blob removal, row-wise filters and fits, sorting, slice-wise processing, downsampling, rescaling, statistics, stack reconstruction, vertical reconstruction, correlation maps, stack alignment, stripe detection, and stacks of many files through saving, loading, converting, rescaling, downsampling and reslicing. No counter, index, accumulator, block size or file number of limited range shows.",
     ["inputs", "configurations"],
     "every listed function x long dimension x size class (just above the powers of two where counters and blocks end) x element type",
     "Tests use images of a few dozen pixels, real scans have thousands of rows, columns and frames; defects of limited index types or block sizes need such sizes.",
     [CN, CO, RM, FI, PH, RE, VE, UT, PP, CR, IO, CV], [("unwarp_sinogram_chunk", CO), ("flat_field_correction", CO), ("remove_large_stripe", RM), ("detect_stripe", UT), ("parallel_process_slices", UT), ("downsample", PP), ("reslice_dataset", PP), ("vertical_reconstruction", VE), ("find_file", IO), ("convert_tif_to_hdf", CV)])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fo:
        for d in P:
            fo.write(json.dumps(d) + "\n")
    print(len(P), "properties")
