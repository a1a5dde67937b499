#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept so that the text has one editable source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
L = "src/viqa/utils/loading.py"; M = "src/viqa/utils/misc.py"; E = "src/viqa/utils/export.py"
V = "src/viqa/utils/visualization.py"; MU = "src/viqa/multiple.py"; ME = "src/viqa/_metrics.py"
FR = "src/viqa/fr_metrics/"; NR = "src/viqa/nr_metrics/"; C = FR + "stat_utils/statisticsmodule.c"

p("C01", "Volume files load voxel for voxel with their stored size and type",
  "For every supported bit depth and every set of dimensions, loading a raw volume (size and bit depth taken from the file name) or an MHD volume (taken from its header) yields an array of shape (X, Y, Z) and of the declared numeric type whose element (x, y, z) is the voxel stored at that position, with x varying fastest in the file. No voxel is lost, duplicated, reordered or altered.",
  ["inputs"], "every volume size (also non-cubic), every supported bit depth or header element type, every voxel content, every file-name or header spelling that the documentation allows",
  "The tests load no volume file at all in this environment (their image data is absent); one sample volume could not reveal a transposed axis, a wrong type or a header spelling that is mis-read.",
  [L], [("raw/MHD parsing, reshape and axis reorientation", L + ": load_raw, load_mhd, _load_binary, _parse_bitdepth")],
  ["return value of the public loading functions compared with the bytes on disk"])
p("C02", "Malformed files and unsupported inputs are refused, never half-loaded",
  "A volume whose data size does not match its declared dimensions, a file name or header without dimensions or bit depth or with an unsupported one, an unsupported file extension, an image that has neither two nor three dimensions, and an input of an unsupported kind are each refused with a ValueError. A load either fails or returns the whole image.",
  ["inputs", "fault_sequences"], "every truncation or extension of a data file, every unsupported name, header type, extension, dimensionality and input kind",
  "The tests try only a four-dimensional array; truncated or oversized files and wrong headers are never produced.",
  [L], [("size check, bit depth table, extension table, dimension check", L + ": _load_binary, load_raw, load_mhd, _load_data_from_disk, load_data")],
  ["exception or return value of the loading functions on corrupted files"])
p("C03", "One image gives one result in every accepted input form",
  "The same image passed as an array of any memory layout, as an image array, as a tensor, or as a path (string or path object) to a raw, MHD, NIfTI or raster file loads to identical values, and every metric gives the same score for all of these forms. Without normalization loading changes no value.",
  ["inputs"], "every image, memory layout, container and file format, mixed freely between reference and modified image",
  "The tests pass plain contiguous arrays only, so differences between input forms are never compared.",
  [L, ME], [("input dispatch", L + ": load_data, _load_data_from_disk, _check_imgs")],
  ["scores and loaded values of the same image in different forms"])
p("C04", "Normalization maps any image linearly onto the full requested range",
  "Normalizing a non-constant image of any integer or floating type (64-bit integers up to 2^52 in magnitude) to (0, 1), (0, 255) or (0, 65535) returns, as float32, 8-bit or 16-bit unsigned integers respectively, the linear rescaling of every value: the minimum becomes 0, the maximum becomes exactly the upper bound, integer results are within one grey level of the exact value, and larger inputs never become smaller outputs. An explicitly given input range is used instead of the image's own, an integer image whose type already spans the target range is returned unchanged, and any other target range is refused with a ValueError.",
  ["inputs"], "every pixel type, value range (also negative, huge or tiny), shape and target range",
  "The tests normalize only random floats in [0, 1); integer inputs, whose arithmetic can wrap around, are never normalized and checked.",
  [L], [("linear rescaling and type change", L + ": normalize_data")],
  ["input and output arrays of normalization and of loading with normalization"])
p("C05", "Cropping and regions of interest select exactly the requested block",
  "Cropping a 2D, RGB or 3D image to index ranges that lie inside it returns exactly that block (all channels for RGB, also when a range spans a whole axis), and a block larger than the image is refused with a ValueError. Loading, scoring, multi-metric and batch evaluation with a region of interest give the same result as doing so with images cropped beforehand, or, when the images are also normalized, with the block of the whole normalized image.",
  ["inputs", "configurations"], "every image shape and every region inside it, for every way to request a region",
  "No test crops an image or uses a region of interest.",
  [L, ME, MU], [("cropping", L + ": crop_image, load_data(roi)"), ("region handling in batch mode", MU + ": _calc, BatchMetrics.calculate")],
  ["cropped arrays and scores with a region of interest"])
p("C06", "No call modifies the caller's images, parameters or files",
  "Loading, normalizing, cropping, scoring with any metric, multi-metric and batch evaluation, statistics, region finding, visualization and exporting leave the contents of every array, tensor, parameter dictionary, list of weights and image file that was passed in exactly as they were. Computed arrays may share memory with the input, but nothing is written through them.",
  ["inputs", "histories"], "every public call with every combination of its optional parameters, on inputs of every memory layout",
  "The tests never look at their inputs again after a call.",
  [L, M, MU, E, FR + "mad.py", FR + "ssim.py", NR + "cnr.py", NR + "snr.py"],
  [("views instead of copies", L + ": load_data"), ("in-place operations", FR + "mad.py: weights; " + M + ": _to_grayscale")],
  ["bytes of the inputs before and after each call; writes to read-only inputs"])
p("C07", "RMSE and PSNR equal their definitions for every image pair",
  "For every pair of images of equal shape and type, RMSE is the root of the mean squared pixel difference computed without overflow, and PSNR is 20 log10(data range / RMSE), infinite exactly when the images are identical. Both are symmetric in their two images, and RMSE is zero only for identical images.",
  ["inputs"], "every shape (2D, 3D, RGB), every pixel type and value range, every data range",
  "The tests assert a handful of inequalities and the value for identical images.",
  [FR + "rmse.py", FR + "psnr.py", ME], [("error metrics", FR + "rmse.py: RMSE.score; " + FR + "psnr.py: PSNR.score")],
  ["score() return values"])
p("C08", "SSIM follows its definition, and UQI its relation to SSIM, in 2D and 3D",
  "SSIM equals the mean over all full window positions of luminance^alpha * contrast^beta * structure^gamma, with the Gaussian or uniform window, window size, sigma, constants K1 and K2 and data range that were asked for, per channel and colour weight for colour images; UQI is the uniform-window case with all exponents one and both constants zero. Identical images score 1, swapping the images does not change the score, scores do not exceed 1, and invalid settings (even or too large window, negative constants) are refused with a ValueError.",
  ["inputs", "configurations"], "every image pair inside the data range, every admissible combination of window, constants, exponents and colour weights",
  "The tests assert ranges and inequalities for default settings; non-default windows, exponents and constants are never compared with a value.",
  [FR + "ssim.py", FR + "uqi.py"], [("structural similarity", FR + "ssim.py: structural_similarity"), ("UQI parameters", FR + "uqi.py: UQI.score")],
  ["score() return values"])
p("C09", "GSM equals the gradient similarity definition for every pixel type",
  "GSM of a 2D image pair equals the gradient similarity computed from the largest directional gradients of both images with the documented kernels and constants, in exact (non-wrapping) arithmetic, so that integer images score the same as the same values stored as floating point. Identical non-constant images score 1, and the experimental 3D mode applies the 3D kernels to the whole volume.",
  ["inputs", "configurations"], "every image pair of every pixel type, every constant c and p",
  "There is no test for GSM.",
  [FR + "gsm.py", "src/viqa/kernels.py"], [("gradient similarity", FR + "gsm.py: gradient_similarity"), ("kernels", "src/viqa/kernels.py")],
  ["score() return values"])
p("C10", "Slice and volume scores agree with the two-dimensional metric",
  "For a 3D pair, FSIM, VSI, VIFp, MS-SSIM, GSM and MAD with a dimension and a slice index give the 2D score of exactly that slice, and with a dimension alone the mean of the 2D scores of all slices along that dimension. A missing or invalid dimension is refused with a ValueError instead of being replaced by another one.",
  ["inputs", "configurations"], "every non-cubic volume, every dimension, every slice index and every metric with slice support",
  "The tests use cubic random volumes with inequalities, where slicing along the wrong axis or averaging over the wrong dimension goes unnoticed.",
  [FR + "fsim.py", FR + "vsi.py", FR + "vif.py", FR + "msssim.py", FR + "gsm.py", FR + "mad.py", M],
  [("slice selection", "score() of the listed metrics"), ("volume reduction", M + ": _check_chromatic; most_apparent_distortion_3d; gradient_similarity_3d")],
  ["score() return values of volumes and of their slices"])
p("C11", "FSIM, VSI, VIFp and MS-SSIM score the images and settings they are given",
  "For 2D grey and RGB pairs these metrics equal the published reference implementation applied to exactly the given pixel values in float precision, with the reference and the modified image in that order, the configured data range and every extra setting taken into account. Identical images score 1 and the stored score equals the returned one.",
  ["inputs", "configurations"], "every 2D or RGB pair, pixel type, data range and forwarded setting",
  "Only FSIM is tested, with inequalities; VSI, VIFp and MS-SSIM have no test.",
  [FR + "fsim.py", FR + "vsi.py", FR + "vif.py", FR + "msssim.py", M], [("tensor conversion and forwarding", M + ": _check_chromatic; score() of the metrics")],
  ["score() return values compared with the wrapped library"])
p("C12", "MAD follows its definition for every image size and block setting",
  "For every 2D image at least three blocks large in each direction, square or not, and every block size, overlap, weighting and display setting, MAD equals the combination of the detection-based and the appearance-based index of its definition. It is 0 for identical images, never negative, and invalid block settings or weights are refused with a ValueError.",
  ["inputs", "configurations"], "every image size (also odd, prime or rectangular), pixel type, block size, overlap, weight list, threshold and display setting",
  "The tests use two square sizes with default blocks and assert ranges only.",
  [FR + "mad.py", M, C], [("detection and appearance index", FR + "mad.py: _high_quality, _low_quality, most_apparent_distortion"), ("block statistics", C)],
  ["score values"])
p("C13", "Native block statistics equal a direct computation for every image",
  "For every 2D image of any size, memory layout and numeric type and every block size and stride, the native block statistics assign to each covered pixel the sample standard deviation, skewness and kurtosis of its block (zero skewness and kurtosis for a constant block), and the minimum-deviation map assigns a deviation that is no larger than that of the pixel's own block and is taken from a block of its neighbourhood. Pixels that no block covers hold zero, and repeated calls return identical results.",
  ["inputs"], "every image size (also non-square), layout (transposed, strided, reversed), type, block size and stride",
  "The native code is only reached through MAD on square contiguous arrays, and its values are never asserted.",
  [C], [("block loops", C + ": minstd, getstatistics"), ("array access", C + ": pymatrix_to_Carrayptrs")],
  ["arrays returned by the native module"])
p("C14", "Native code stays inside its arrays, refuses bad arguments, frees memory",
  "No call into the native block statistics, whatever the image size, layout, type, block size and stride, reads or writes outside its arrays, uses uninitialized memory or runs forever: admissible arguments give a result and inadmissible ones (wrong dimensionality, block larger than the image, non-positive block or stride) raise an exception or give an all-zero result. Memory in use does not grow over any number of calls.",
  ["inputs", "histories"], "every argument combination, and every length of call history",
  "The tests run without sanitizers on square images, where an out-of-bounds access or a leak has no visible effect.",
  [C], [("bounds of the block loops, reference counting, argument parsing", C)],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports, allocation counters, process exit status"])
p("C15", "CNR and SNR are computed from exactly the chosen regions",
  "CNR is (mean of signal - mean of background) / standard deviation of background, and SNR is mean / standard deviation of the signal, over exactly the pixels of the requested regions: the half-open cube or the closed ball of the given radius around the given centre, or the whole image, with 0 when the deviation is 0; for colour images SNR is computed per YUV or RGB channel with the documented conversion. Centres closer to any border than the radius, centres of the wrong length or type, non-positive or non-integer radii and unknown region types are refused with an error.",
  ["inputs", "configurations"], "every image, centre, radius and region type, near every border, in 2D, RGB and 3D",
  "The tests assert that scores of zero images are 0; no region is ever compared with its pixels.",
  [NR + "cnr.py", NR + "snr.py", M], [("ratios", NR + "cnr.py: contrast_to_noise_ratio; " + NR + "snr.py: signal_to_noise_ratio"), ("region masks", M + ": _to_cubic, _to_spherical, _rgb_to_yuv")],
  ["score values and the region returned with them"])
p("C16", "Automatically found regions lie inside the object and are the ones used",
  "The automatically found region is centred at a point of maximal distance from the outside of the cleaned object, its radius is that distance rounded down, and the returned region covers exactly the cube or ball around that centre, the twice-eroded object, or the input, as requested. With automatic centring CNR and SNR are computed over exactly these regions of the thresholded foreground and background, ignoring any centre and radius passed in.",
  ["inputs"], "every binary object (several components, holes, touching the border), every region type and number of cleaning steps, 2D and 3D",
  "No test covers region finding or automatic centring.",
  [M, NR + "cnr.py", NR + "snr.py"], [("region search", M + ": find_largest_region, _get_binary"), ("use of the regions", NR + "cnr.py, snr.py: auto_center branches")],
  ["returned centre, radius and region; score values"])
p("C17", "A metric object always reports exactly its latest score",
  "After every successful scoring the stored score equals the value just returned, comparisons of metric objects with each other and with numbers follow these stored values, and printing shows the stored value rounded to the requested decimals; before the first scoring, or after a failed one, nothing but the previous state is reported and printing only warns. The score depends only on the images and settings of the current call and never on earlier calls of this or any other metric object, except that CNR and SNR reuse the regions of their last successful scoring for the parts of the region that are not given; loading settings of one call never carry over.",
  ["histories"], "every sequence of scoring, failing, comparing, printing and configuring calls over any number of metric objects",
  "The tests score each object once or twice and never interleave objects, shapes or failing calls.",
  [ME, FR, NR], [("stored score and operators", ME + ": Metric"), ("module-level state", FR + "mad.py globals")],
  ["return values, stored scores, comparison results and printed text along random histories"])
p("C18", "Scores computed concurrently equal scores computed one after another",
  "Threads that score different images with their own metric objects, or with the module-level functions, at the same time each get the score they would get alone, under every interleaving. No thread fails or changes another thread's score.",
  ["schedules"], "every interleaving of concurrent scoring calls with different image sizes and settings",
  "The tests are single-threaded.",
  [FR + "mad.py", FR, NR, C], [("absence of shared mutable state", FR + "mad.py; " + C)],
  ["score values per thread under injected context switches"])
p("C19", "Multi-metric results equal each metric computed on its own",
  "Evaluating a list of metrics on an image pair returns, under each metric's name (with a reference and a modified entry for no-reference metrics), exactly the score that metric gives when called alone with its parameters on the same images, the modified image being first resized to the reference's shape if they differ (no-reference metrics see the luminance of colour images). Mismatched lists, non-metric entries and non-dictionary parameters are refused with a ValueError, and a fused score is exactly the weighted sum of the given metrics' scores.",
  ["inputs", "configurations"], "every list and order of metrics with their parameters, every image pair (arrays or files), any number of repeated evaluations",
  "There is no test of multi-metric evaluation or fusion beyond one doctest.",
  [MU, "src/viqa/fusion.py"], [("shared evaluation", MU + ": _calc, MultipleMetrics.calculate"), ("fusion", "src/viqa/fusion.py")],
  ["result dictionaries compared with stand-alone scores"])
p("C20", "Batch results equal the independent evaluation of every listed pair",
  "For every pairs file, batch evaluation returns one entry per row, in row order, and each entry equals the multi-metric evaluation of that row's images and region of interest alone, whatever the neighbouring rows are. Reuse of images or results between consecutive rows never changes a value, and a missing column or a wrong number of regions is refused with a ValueError.",
  ["inputs", "histories", "configurations"], "every sequence of rows (repeated references, repeated modified images, repeated pairs, images of different size), every delimiter and every region list",
  "There is no test of batch evaluation; the reuse logic depends on the history of rows.",
  [MU], [("row loop with reuse of the previous row", MU + ": BatchMetrics.calculate, _calc"), ("pairs file", MU + ": _read_pairs")],
  ["result dictionary per row compared with independent evaluation"])
p("C21", "Exported results and metadata state exactly what was computed",
  "Every exported table contains one entry per computed result, under the right name and in the right row, with the exact computed value, and the metadata file lists every metric with its data range and custom parameters and the package version. Exporting never changes a result or a metric, replaces an older file of that name completely, and refuses file names with the wrong extension.",
  ["inputs", "histories"], "every set of metrics, results, names, parameters and repeated exports to the same file",
  "There is no test of any export.",
  [E, MU, ME, L], [("writers", E + ": export_results, export_metadata; " + MU + ": export_results, report; " + L + ": ImageArray.describe")],
  ["files read back and compared with the results in memory"])
p("C22", "Incompatible pairs are refused and colour is handled as configured",
  "Every full-reference metric refuses, with a ValueError and without changing its stored score, a pair whose shapes or pixel types differ, and a colour metric refuses images without three channels; chromatic SSIM also refuses every call without channel weights. Settings that no image could be scored with (no data range, or normalization without one) are refused with a ValueError at construction. A metric not configured for colour scores RGB pairs exactly as the pair of their luminance images (0.2125 R + 0.7154 G + 0.0721 B) of full value range.",
  ["inputs", "configurations"], "every mismatched pair and every RGB pair of any pixel type, for every full-reference metric",
  "The tests try one shape and one type mismatch for two metrics and no RGB image.",
  [L, ME, M], [("pair check", L + ": _check_imgs"), ("luminance", M + ": _to_grayscale")],
  ["exceptions and scores"])
p("C23", "Image arrays behave as arrays and report true statistics",
  "An image array takes part in arithmetic, slicing, reductions and in-place operations with the same numeric results, types and side effects as a plain array holding the same values. Its calculated statistics (mean, median, variance, standard deviation, skewness, kurtosis, histogram, minimum, maximum) are those of its values, and the description reports exactly these.",
  ["inputs", "histories"], "every pixel type, shape and sequence of array operations",
  "Only one doctest touches image arrays.",
  [L], [("array subclass", L + ": ImageArray")],
  ["results of the same operations on image arrays and plain arrays; statistics attributes"])
p("C24", "Filters and kernels follow their definitions",
  "The log-Gabor filter bank returns for every scale and orientation the image filtered with the documented transfer function, is linear in the image and removes its mean; the absolute correlation returns at each pixel the mean absolute product of the kernel with the neighbourhood centred there, for every border mode. Every gradient kernel responds with zero to a constant image, and the x, y and z versions of a kernel are the same kernel along different axes.",
  ["inputs", "configurations"], "every image size (even, odd, rectangular), number of scales and orientations, kernel, mode and border mode",
  "Two doctests call the functions without looking at the result.",
  [M, "src/viqa/kernels.py"], [("filter bank", M + ": gabor_convolve"), ("absolute correlation", M + ": correlate_convolve_abs"), ("kernels", "src/viqa/kernels.py")],
  ["returned arrays"])
p("C25", "Figures show the requested slices and regions and every result",
  "Every visualization draws exactly the requested slices of the image in the documented orientation, with region markers around the scored pixels, and every comparison figure shows the same slice of the reference on the left and of the modified image on the right together with every result value. A requested export file contains the drawn figure, slice indices outside the image are refused, and every documented visualization call works for the image kinds it accepts. Figures saved without being shown and those of refused comparisons do not stay open.",
  ["inputs", "configurations"], "every image kind (2D, RGB, 3D, non-cubic), slice index, region type, region and number of results",
  "One doctest draws a 3D image without looking at what was drawn.",
  [V, E, L, NR + "cnr.py", NR + "snr.py"], [("drawing", V), ("comparison figure", E + ": export_image")],
  ["arrays, patches and texts handed to the plotting library; exported files"])
p("C26", "Helper scripts keep every voxel and every pair intact",
  "The helper scripts write exactly the voxels they are meant to keep: cropping keeps the central block, projection reduction keeps every n-th projection, stack combination keeps all slices in file-name order, and MAT conversion keeps the normalized volume, each under a name and size with which the result loads back correctly. The pair-list script lists every matching reference/modified pair exactly once and, when asked to, copies each image unchanged.",
  ["inputs"], "every volume size (also non-cubic), bit depth, factor and directory content, in any directory order",
  "The scripts have no tests.",
  ["src/scripts/crop_image.py", "src/scripts/reduce_projections.py", "src/scripts/combine_stack.py", "src/scripts/write_to_csv.py", "src/scripts/write_to_mat.py"],
  [("volume scripts", "src/scripts")], ["files written by the scripts"])
p("C27", "QMeasure matches its native reference for every volume",
  "The Q-measure of a volume equals that of the native reference implementation for the same histogram and peak settings, and memory held by the native code is bounded.",
  ["inputs"], "every volume and every setting", "Its native part is an empty submodule here.",
  [NR + "qmeasure.py"], [("native wrapper", NR + "qmeasure.py")], ["score values"])
p("C28", "Interactively chosen regions are stored and scored exactly as shown",
  "In a notebook, the dialogs of CNR and SNR permit every action their controls offer, only positions whose region lies inside the image, and draw the regions they show; saving stores exactly the centres, radius and region type shown by that dialog in that metric object and in no other, however many dialogs are open and in whatever order they are used. The calculated full region is the one the metric scores with the same thresholds and iterations, a dialog can be opened again from saved values, ill-formed starting points are refused without being stored, and scoring without regions afterwards uses the saved centres and radius.",
  ["histories"], "every history of user actions on any number of open dialogs, for 2D, RGB and 3D images of every size of at least four pixels a side",
  "The dialogs have no tests; their state depends on the whole history of actions and on other open dialogs.",
  [NR + "cnr.py", NR + "snr.py", V],
  [("interactive selection", NR + "cnr.py"), ("interactive selection", NR + "snr.py")],
  ["metric parameters", "widgets shown", "figures drawn", "scores"])
p("C29", "Missing optional packages cost only the interactive dialogs, and are named",
  "Whichever of ipywidgets and IPython cannot be imported, every module of the package can be imported in any order and offers the same names, each missing package is announced by a warning that names it, and scores, lists of metrics, loaded files, exports and figures are the same as with both present. In a notebook session the dialogs of CNR and SNR then refuse with an ImportError that names exactly the missing packages and leave the metric as it was; outside a notebook session they warn and draw the given regions instead, whether or not the packages are there, or raise an ImportError if that is impossible.",
  ["inputs", "fault_sequences"], "every subset of missing packages, every order of importing the modules, every public call, inside and outside a notebook session",
  "The tests run in one environment with both packages installed; nothing there imports the package without them.",
  ["src/viqa/utils/_module.py", V, NR + "cnr.py", NR + "snr.py", "src/viqa/__init__.py"],
  [("guarded imports and checks", "src/viqa/utils/_module.py: try_import, check_interactive_vis_deps, is_ipython"), ("dialogs and their fallback", NR + "cnr.py, snr.py: set_centers")],
  ["warnings and errors on import and call", "results, figures and files compared with those of a process with both packages"])
p("C30", "Calls leave the process as they found it and do not depend on it",
  "No public call, whether it succeeds, is refused or is interrupted, changes the process it runs in: random number generators, floating-point error handling, warning filters, print options, working directory, environment, drawing settings, other libraries, threads and open or temporary files are afterwards as before. What a call returns, draws and writes depends on its arguments and files only, not on such state, on the hash seed or optimisation level of the interpreter, or on the thread or process it runs in. Images do not change once loaded when their file is rewritten or removed, and copied or pickled metric objects keep their score and settings and score independently.",
  ["inputs", "histories", "fault_sequences"], "every public call with every argument, every state of the process, every point of interruption and every kind of copy",
  "The tests look at return values only and always run in the same surroundings; a changed global setting, an open file or a hidden dependence on the process is never seen.",
  [L, M, MU, ME, E, V, FR + "mad.py", FR + "gsm.py", NR + "snr.py"],
  [("file access", L), ("scoring and its optional settings", FR + ", " + NR), ("drawing and export", V + ", " + E)],
  ["state of the process before and after each call", "results of the same call in differing processes"])
p("C31", "Identical images score best and distortion is never rewarded",
  "Every full-reference metric gives its best score (0 for RMSE and MAD, infinity for PSNR, 1 for the others) to two identical images, whatever they show, however they are given and through whatever entry point. No pair of images within the data range gets a better score (VIFp excepted) or a value outside the limits of the metric, different integer images never have RMSE 0 or infinite PSNR, and more noise of the same pattern never improves a score (MAD excepted; for GSM noise is only demanded to score below identity). RMSE, PSNR, SSIM, UQI, MS-SSIM, GSM, FSIM and VSI do not depend on the order of the two images.",
  ["inputs", "configurations"], "every image, pair, pixel type, setting and entry point (arrays, tensors, files, regions, slices, volumes, lists and batches)",
  "The tests compare one or two fixed images with themselves at default settings.",
  [FR + n + ".py" for n in ("rmse", "psnr", "ssim", "uqi", "gsm", "fsim", "vsi", "vif", "msssim", "mad")] + [ME, MU],
  [("scoring", FR), ("loading of both images", ME + ": load_images"), ("several metrics", MU)],
  ["scores returned, stored and listed"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        n = q["statement"].count(". ") + 1
        assert n <= 3, (q["id"], n)
        f.write(json.dumps(q) + "\n")
print(len(P))
