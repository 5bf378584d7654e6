"""Writes properties.jsonl (one place for the texts)."""
import json
import os

P = []


def prop(i, title, st, over, text, why, files, mech, **kw):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


U = "skbeam/core/utils.py"
prop("P01", "The compiled extensions stay inside their memory for every argument",
     "Whatever arrays, lists, shapes, dtypes, strides, bounds, thread counts or flags are passed to the compiled "
     "reciprocal-space conversion, the compiled 3D gridder and the compiled histogram, a call either returns or raises a "
     "Python exception. It never reads or writes outside the arrays involved, never executes undefined behaviour and never "
     "crashes the interpreter, with and without OpenMP. Repeated calls, successful, rejected or out of memory, do not leak "
     "memory.",
     ["inputs", "configurations", "fault_sequences"],
     "all argument shapes, dtypes, strides, values (NaN, infinities, values next to the edges), thread counts, both build "
     "variants, and all points at which an allocation can fail",
     "The tests pass a few well-formed arrays to one uninstrumented build; a stray access of a few bytes goes unnoticed.",
     ["src/ctrans.c", "src/ctrans.h", "skbeam/core/accumulators/histogram.pyx"],
     [("argument checks and index computation of the gridder", "src/ctrans.c gridder_3D, c_grid3d"),
      ("q conversion loops", "src/ctrans.c ccdToQ, calcDeltaTheta, calcQTheta, calcHKL"),
      ("fill loops of the histogram", "skbeam/core/accumulators/histogram.pyx fill1d, fill2d, fillnd")],
     observe_at=["AddressSanitizer and UndefinedBehaviorSanitizer reports, allocation counts, process exit"])
prop("P02", "Results of the compiled code do not depend on threads or schedules",
     "For any number of worker threads, any grant of threads by the run time, any interleaving of them and any number of "
     "Python threads calling in at the same time, the gridder and the q conversion return the same result as with one "
     "thread, up to floating-point summation order. No two threads access the same memory without synchronisation when one "
     "of them writes. When a worker thread gets no memory the call raises an error instead of hanging or crashing.",
     ["schedules", "inputs", "fault_sequences"],
     "all thread counts, schedules, concurrent callers and allocation failures of single worker threads",
     "The tests run once with the default number of threads and see one schedule; a lost update is rare and data dependent.",
     ["src/ctrans.c"],
     [("OpenMP parallel regions with per-thread accumulators and their merge", "src/ctrans.c c_grid3d"),
      ("parallel loops over images and pixels", "src/ctrans.c ccdToQ and helpers"),
      ("release of the interpreter lock", "src/ctrans.c gridder_3D, ccdToQ")],
     observe_at=["happens-before race monitor on every memory access of the extension; results for 1..n threads"])
prop("P03", "Gridding puts each point into one voxel and reports exact statistics",
     "Every point of the gridded data whose coordinates lie within the bounds and whose value is not NaN falls into exactly "
     "the voxel that contains it (a voxel has its lower faces, the upper bounds are outside); all other points, and masked "
     "pixels, change nothing. For each voxel the mean, the occupancy and the standard error (standard deviation over the "
     "square root of the number of points) are those of its points, NaN and zero for an empty one. Default bounds enclose "
     "all the data, so that then no point is lost and the occupancies add up to the number of points given; bounds which "
     "are given are used as given. Gridding in pieces into the same output gives what gridding at once gives.",
     ["inputs", "configurations"], "all point clouds, values including NaN, bounds, grid shapes, mask forms and dtypes",
     "The tests grid points placed at voxel centers with a constant value, so that edges, bounds, NaN and statistics with "
     "cancellation are not reached.",
     ["skbeam/core/utils.py", "src/ctrans.c"],
     [("bounds, mask and NaN handling", "skbeam/core/utils.py grid3d"), ("binning", "src/ctrans.c c_grid3d")])
prop("P04", "A histogram equals the sum of the weights filled into each bin",
     "After any sequence of fills and resets, with single values, lists or arrays of any memory layout and supported dtype, "
     "with or without weights, each bin of a histogram of any number of dimensions holds the sum of the weights of exactly "
     "the points filled since the last reset which lie in it (lower edge included, upper edge not). Points outside and NaN "
     "are dropped. Edges and centers are those of equal bins between the given limits.",
     ["histories", "inputs"], "all sequences of fills, resets and reads; all values, weights, dtypes, layouts, dimensions",
     "The tests fill fixed random data once or twice in one, two or three dimensions and compare to numpy.",
     ["skbeam/core/accumulators/histogram.pyx"],
     [("fill and reset", "skbeam/core/accumulators/histogram.pyx Histogram.fill, reset"),
      ("edges and centers", "skbeam/core/accumulators/histogram.pyx Histogram.edges, centers")])
prop("P05", "Binned statistics are the statistic of exactly the points in each bin",
     "For a binned statistic prepared for sample coordinates, every unmasked point inside the range belongs to exactly one "
     "bin (upper edge of the last bin included) and the result for mean, median, sum, count, standard deviation or a "
     "user function is that function of the values in the bin; empty bins give NaN, or zero for counts and sums. The same "
     "object can be applied to any number of images and gives each time what a fresh one would; unknown statistics are rejected. The radial and "
     "radial-angular variants bin by the distance and angle of the pixels from the given origin.",
     ["inputs", "histories", "configurations"],
     "all coordinates, bins, ranges, masks, statistics, values, and sequences of applications of one object",
     "The tests compare to scipy for a few random samples with the default range.",
     ["skbeam/core/accumulators/binned_statistic.py"],
     [("bin assignment", "binned_statistic.py BinnedStatisticDD.__init__"),
      ("evaluation per statistic", "binned_statistic.py BinnedStatisticDD.__call__"),
      ("polar variants", "binned_statistic.py RPhiBinnedStatistic, RadialBinnedStatistic")])
prop("P06", "Conversion of detector pixels to reciprocal space follows the geometry",
     "The conversion of detector pixels and six diffractometer angles to the sample frame, or with an orientation matrix to "
     "reciprocal lattice units, gives for every pixel of every image the vector of the documented rotations for the given "
     "pixel size, number of pixels, center, distance and wavelength. The length of the scattering vector depends only on the "
     "scattering angle of the pixel and the wavelength. Arguments of the wrong shape are rejected.",
     ["inputs", "configurations"], "all angles, detector geometries, orientation matrices, image numbers and frame modes",
     "The tests check one geometry and the types of the result.",
     ["skbeam/core/recip.py", "src/ctrans.c"],
     [("argument conversion", "skbeam/core/recip.py process_to_q"), ("rotations", "src/ctrans.c ccdToQ")])
prop("P07", "Conversions between q, d, angle, radius and pixel are exact and invertible",
     "Conversions between q, lattice spacing, two-theta, radius and pixel position satisfy their defining equations, "
     "elementwise for scalars and arrays of any shape, and converting there and back returns the input. Radius and angle "
     "grids give for every pixel its distance from the center in the given pixel size and its angle, and the calibrated image "
     "coordinates pair every pixel with its own value. Grazing-incidence and two-theta/q maps follow from the position of "
     "each pixel on the detector.",
     ["inputs", "configurations"], "all values, wavelengths, image shapes, centers, pixel sizes and distances",
     "The tests check a handful of values and one image size; swapped axes are invisible for square images with square "
     "pixels.",
     ["skbeam/core/utils.py", "skbeam/core/recip.py"],
     [("unit conversions", "skbeam/core/utils.py q_to_d, d_to_q, twotheta_to_q, q_to_twotheta, radius_to_twotheta"),
      ("pixel grids", "skbeam/core/utils.py radial_grid, angle_grid, img_to_relative_xyi"),
      ("grazing incidence", "skbeam/core/recip.py gisaxs, calibrated_pixels_to_q")])
prop("P08", "Multi-tau correlation equals its definition for every series of images",
     "For every series of images, number of levels, number of buffers and set of labelled regions, the one-time correlation "
     "is for each region and lag the average over the available pairs of (averaged) images of the product of intensities, "
     "normalised by the averages of the past and of the future intensities, with levels averaging pairs of images. It is the "
     "same after every image as if the series had ended there, and the regions do not influence each other. The lag steps "
     "returned are those of the correlations beside them, and the scattering factor fits use the documented formula.",
     ["histories", "inputs", "configurations"],
     "all series lengths, images including NaN-marked bad ones, labels, levels and buffer numbers",
     "The tests use constant images or a fixed random series with coarse tolerances.",
     ["skbeam/core/correlation.py"],
     [("circular buffers and levels", "correlation.py lazy_one_time, _one_time_process"),
      ("lag steps", "skbeam/core/utils.py multi_tau_lags")],
     state=[{"name": "buffers, counters and track of levels", "meaning": "which image is in which slot at each level"}])
prop("P09", "Two-time correlation equals its definition for every pair of times",
     "For every series of images the two-time correlation of a region is, for each pair of times which the levels and "
     "buffers cover, the mean over the region of the product of the (averaged) images divided by the product of their mean "
     "intensities; it is symmetric in the two times and each region has its own matrix. The one-time correlation derived from "
     "it is the mean of each diagonal.",
     ["histories", "inputs", "configurations"], "all series, labels, numbers of levels and buffers",
     "The tests check a correlation of few random frames at single points.",
     ["skbeam/core/correlation.py"],
     [("two-time accumulation", "correlation.py lazy_two_time, _two_time_process"),
      ("diagonal means", "correlation.py one_time_from_two_time")])
prop("P10", "Cross correlations equal the masked definition for every shape",
     "The spatial cross correlation of two images or curves, with any mask and any labelled regions, equals for each region "
     "and each displacement the sum of products over the overlapping valid pixels, normalised as documented. The maximum for "
     "a displaced copy is at its displacement. One correlator can be used for any number of images and each call gives what "
     "a fresh one would.",
     ["inputs", "histories", "configurations"], "all image shapes and contents, masks, labels, normalisations, call orders",
     "The tests use fixed values for a few arrays.",
     ["skbeam/core/correlation.py"],
     [("padding, FFT and normalisation", "correlation.py CrossCorrelator.__init__, __call__, _cross_corr1")])
prop("P11", "Label arrays contain exactly the pixels of the requested shapes",
     "Regions made as rectangles, bars, lines, boxes, rings and ring segments contain exactly the pixels which satisfy the "
     "definition of the shape, clipped at the image border, with label n for the n-th region and zero elsewhere, for images "
     "of any shape. Ring edges follow from inner radius, widths and spacings in all documented forms. Inconsistent or "
     "overlapping specifications are rejected where documented.",
     ["inputs", "configurations"], "all shapes and positions of regions, inside, across and outside of any image",
     "The tests draw a few regions inside of a square image.",
     ["skbeam/core/roi.py"],
     [("shapes", "roi.py rectangles, rings, ring_edges, segmented_rings, lines, bar, box"),
      ("coordinates to labels", "roi.py _make_roi")])
prop("P12", "Statistics over regions use exactly the pixels of each region",
     "Mean intensities, kymographs, maxima, pixel values, pixel counts and pixel lists of labelled regions are computed from exactly the "
     "pixels of each region, for labels in any order and with gaps, reported under the label they belong to, over all images "
     "given and in their order. The circular average is the mean of the pixels in each radial bin.",
     ["inputs", "histories"], "all label arrays, image series, index selections, thresholds and radial bins",
     "The tests use two or three regions with consecutive labels and constant values.",
     ["skbeam/core/roi.py"],
     [("region statistics", "roi.py mean_intensity, roi_max_counts, roi_pixel_values, kymograph, extract_label_indices"),
      ("circular average", "roi.py circular_average")])
prop("P13", "Masks hide exactly the pixels and images they are meant to hide",
     "The margin mask hides exactly the pixels within the given distance of the border. The threshold mask series hides from "
     "each image on every pixel which reached the threshold in this or an earlier image, in addition to the given mask; "
     "bad images are replaced by NaN and all others pass unchanged and in order. The outlier mask hides exactly the pixels "
     "which deviate from the mean of their radial bin by more than the given number of standard deviations of that bin.",
     ["inputs", "histories"], "all image sizes, margins, series of images, thresholds, bad image lists, radii and bins",
     "The tests check one image size and a short series.",
     ["skbeam/core/mask.py"],
     [("masks", "mask.py margin, threshold, bad_to_nan_gen, binned_outlier")],
     state=[{"name": "accumulated threshold mask", "meaning": "pixels hidden so far"}])
prop("P14", "Binning conserves the data and bin edges are what was asked for",
     "Binning in one dimension puts every point in range into exactly one bin, so that counts and sums add up, and the bin "
     "edges are ascending, equally spaced and span the limits. Bin edges specified by any documented combination of range, "
     "step and number fulfil all given conditions, and contradicting or incomplete ones are rejected. Binning by a grid of "
     "radii, geometric series and subtraction of reference images follow their definitions for every sequence.",
     ["inputs", "histories"], "all points, values, limits, step sizes, series of images and reference indices",
     "The tests use evenly spaced points away from the edges.",
     ["skbeam/core/utils.py"],
     [("binning", "skbeam/core/utils.py bin_1D, bin_edges, bin_grid, geometric_series"),
      ("references", "skbeam/core/utils.py subtract_reference_images")])
prop("P15", "Ring centers, calibration and polar images recover the geometry",
     "For images of concentric rings around any center, the estimated and refined center and the distance determined from a "
     "powder standard recover the geometry the image was made with, row and column not exchanged. Images constructed from "
     "circular averages or polar data interpolate linearly in radius and periodically in angle around the given center, with "
     "the documented values outside of the data and where masked.",
     ["inputs", "configurations"], "all centers, image shapes, ring profiles, wavelengths, distances, polar grids and masks",
     "The tests use a few centers in square images, for which exchanged axes go unnoticed.",
     ["skbeam/core/image.py", "skbeam/core/calibration.py"],
     [("center", "image.py find_ring_center_acorr_1D; calibration.py refine_center"),
      ("distance", "calibration.py estimate_d_blind"),
      ("images", "image.py construct_circ_avg_image, construct_rphi_avg_image")])
prop("P16", "Photon count distributions contain every pixel of every time bin once",
     "The speckle visibility distribution of each region and integration time is the average over the image sets of the "
     "normalised histogram of the summed counts of exactly the images in each integration window, starting a new level each "
     "time the number of images doubles, and the reported deviation is that of these histograms. The normalised bin "
     "edges and centers are the integer count bins divided by the mean counts of the integration time, and integration times are the "
     "geometric series which fits the number of images. Image sets and regions do not influence each other.",
     ["histories", "inputs", "configurations"], "all image sets, labels, numbers of integration times and images",
     "The tests run two small sets with integer results rounded to few digits.",
     ["skbeam/core/speckle.py"],
     [("accumulation by levels", "speckle.py xsvs, _process"), ("bins", "speckle.py normalize_bin_edges")],
     state=[{"name": "buffers and level tracking", "meaning": "which frames are summed at which integration time"}])
prop("P17", "Phase contrast: gradients go to their scan point and integrate exactly",
     "Image reduction sums exactly the region of interest along both axes, bad pixels counting as zero. The fitted amplitude and gradients of every scan point are stored at its row and column with the "
     "documented scaling and padding, and the reconstruction of the phase is the weighted least-squares integral in Fourier "
     "space of the gradients, so that exact gradients of a periodic phase return it up to a constant.",
     ["inputs", "configurations"], "all scan shapes, regions, bad pixels, weights, paddings and gradients",
     "The tests check one synthetic scan with coarse tolerance.",
     ["skbeam/core/dpc.py"],
     [("reduction", "dpc.py image_reduction"), ("fit per scan point", "dpc.py dpc_runner, lazy_dpc"),
      ("integration", "dpc.py recon")])
prop("P18", "Coherent imaging obeys the projections of the difference map",
     "Projection to the measured modulus keeps the phase of the Fourier transform, replaces its modulus by the measured one "
     "where data are present, and is idempotent. The support update contains exactly the pixels of the smoothed object above "
     "the threshold, and the reconstruction iterates the documented difference map, leaves an object which satisfies data "
     "and support unchanged, reports its errors per iteration and calls back at the requested interval.",
     ["inputs", "configurations", "histories"], "all objects, supports, data with missing pixels, relaxation parameters and "
     "iteration numbers", "The tests run few iterations and look at the final error only.",
     ["skbeam/core/cdi.py"],
     [("projections", "cdi.py pi_modulus, find_support, cal_diff_error"), ("iteration", "cdi.py cdi_recon")],
     state=[{"name": "iterate, support and error series", "meaning": "state of the reconstruction between iterations"}])
prop("P19", "Peak shapes and count statistics equal their formulas everywhere",
     "Every lineshape (Gaussian, Lorentzian, Voigt family, steps, tails, elastic and Compton scattering) equals its "
     "documented formula for all arguments, its area parameter is its integral, and the wrapped fit models evaluate the same "
     "function. Count distributions are probability distributions over counts with the requested mean, finite for large "
     "counts and many modes.",
     ["inputs"], "all positions, widths, areas, energies, offsets and mode numbers",
     "The tests compare to constants at few points.",
     ["skbeam/core/fitting/lineshapes.py", "skbeam/core/fitting/models.py", "skbeam/core/fitting/funcs.py"],
     [("lineshapes", "lineshapes.py"), ("models", "models.py set_range, ElasticModel, ComptonModel, gaussian_model")])
prop("P20", "The background estimate stays below the spectrum and follows its baseline",
     "The background estimated for any spectrum is finite, not negative for counts, not above the spectrum after the documented "
     "smoothing, does not fall when counts are added, and is the result of the documented clipping with the energy-dependent width. A "
     "smooth baseline is kept and peaks narrower than the width are removed.",
     ["inputs", "configurations"], "all spectra, calibrations, widths, smoothing and clipping options",
     "The tests compare one spectrum to a tolerance.",
     ["skbeam/core/fitting/background.py"], [("clipping", "background.py snip_method")])
prop("P21", "XRF fits decompose a spectrum into its elements and put it back together",
     "The model spectra of the elements contain exactly the lines which the incident energy excites, with their branching "
     "ratios, at the calibrated channels. The non-negative linear fit, the pixel-by-pixel fit of a map and the full fit "
     "return for a spectrum made from the model the amplitudes it was made with, each pixel at its own place, independent of "
     "the number of processes, and the parts of the fit add up to its total. The parameter set follows the requested "
     "strategy: fixed, bounded and free parameters, and lines and pileup peaks added as asked.",
     ["inputs", "configurations", "schedules"], "all element lists, calibrations, incident energies, amplitudes, maps, "
     "strategies, numbers of processes",
     "The tests fit one synthetic spectrum and check tolerances of several percent.",
     ["skbeam/core/fitting/xrf_model.py", "skbeam/core/fitting/base/parameter_data.py"],
     [("model", "xrf_model.py ModelSpectrum, ElementModel, construct_linear_model"),
      ("fits", "xrf_model.py nnls_fit, linear_spectrum_fitting, fit_pixel_multiprocess_nnls"),
      ("parameters", "xrf_model.py ParamController, set_parameter_bound")])
prop("P22", "Element data and powder standards are consistent under every name",
     "An element found by symbol, name or number, in any capitalisation, has the same data, which agree with the tables they are "
     "taken from: atomic data, emission lines, cross sections for the given energy, binding energies, jump factors and "
     "fluorescence yields of every line and shell. The search for lines near an energy returns exactly the elements and "
     "lines within the tolerance. Powder standards give d, hkl and q which satisfy Bragg's law and the lattice of the "
     "material, also for other wavelengths.",
     ["inputs"], "all elements, spellings, lines, shells, energies, tolerances, materials and wavelengths",
     "The tests loop over element names but compare to few values.",
     ["skbeam/core/constants/basic.py", "skbeam/core/constants/xrf.py", "skbeam/core/constants/xrs.py"],
     [("element lookup", "constants/basic.py BasicElement"), ("lines", "constants/xrf.py XrfElement, emission_line_search"),
      ("standards", "constants/xrs.py PowderStandard, HKL")])
prop("P23", "Files hold what was written and are read as what they hold",
     "Powder patterns written as GSAS (all three modes), chi, dat or xye files and Fit2D masks contain every value to the "
     "precision of the format and read back as the same data; GSAS, AmiraMesh, netCDF and raw binary files are read with the "
     "shape, byte order, type, scaling and metadata they declare. An existing file is replaced completely, and a call which is "
     "rejected leaves files as they were. A volume or raw binary file which ends early is reported instead of read.",
     ["inputs", "histories", "fault_sequences"], "all data, lengths, modes, formats, byte orders, existing files and truncations",
     "The tests round-trip one pattern per mode with integer intensities and a record-aligned length.",
     ["skbeam/io/save_powder_output.py", "skbeam/io/gsas_file_reader.py", "skbeam/io/avizo_io.py", "skbeam/io/net_cdf_io.py",
      "skbeam/io/binary.py", "skbeam/io/fit2d.py"],
     [("writers", "save_powder_output.py gsas_writer, save_output"), ("readers", "gsas_file_reader.py gsas_reader; "
      "avizo_io.py load_amiramesh; net_cdf_io.py load_netCDF; binary.py read_binary; fit2d.py")])
prop("P24", "No function changes its inputs, and equal calls give equal results",
     "Functions and objects of the library leave all arrays, lists and dictionaries passed to them unchanged, unless these are "
     "documented as output, also when the call is rejected with an error. A call repeated with equal arguments in the same "
     "process returns an equal result, whatever was called before and even if the caller has since changed the arrays it got from the earlier call; it does not "
     "change the results handed out earlier, nor process-wide settings such as the working directory or numpy's error handling.",
     ["inputs", "histories"], "all calls of the public interface with valid arguments, in any order",
     "The tests pass temporary arrays and call each function once.",
     ["skbeam/core", "skbeam/io"], [("all public functions", "skbeam/core/*.py, skbeam/io/*.py")],
     observe_at=["content of every container reachable from the arguments before and after each call"])
prop("P25", "Peak finding, region integrals and binned values match their definitions",
     "Peak refinement fits for each candidate exactly the samples of its window, clipped at the ends of the data, finds a "
     "parabola or Gaussian exactly and leaves out what the goodness-of-fit threshold rejects; candidate filters keep exactly "
     "the largest or sufficiently high ones. Integrals over one or several regions of a spectrum are the sums over exactly the samples of "
     "each region for ascending and descending axes, and invalid axes or bounds are rejected. Alignment maps all "
     "spectra to the peak position and width of the first, and one-dimensional statistics use exactly the points in each bin.",
     ["inputs"], "all spectra, candidates, windows, thresholds, regions, axes and bins",
     "The tests use one or two peaks in the middle of evenly spaced data.",
     ["skbeam/core/feature.py", "skbeam/core/spectroscopy.py", "skbeam/core/stats.py", "skbeam/core/fitting/funcs.py"],
     [("peaks", "feature.py peak_refinement, filter_n_largest, filter_peak_height"),
      ("regions", "spectroscopy.py integrate_ROI, integrate_ROI_spectrum, find_largest_peak, align_and_scale"),
      ("statistics", "stats.py statistics_1D")])
prop("P26", "Image logic and smoothing are exact for every image",
     "Logical combinations of images equal their truth tables elementwise for every dtype, also when the result is written into "
     "one of the inputs. Polynomial smoothing returns for every inner pixel the value, or the requested slope, of the local "
     "least-squares polynomial, so that polynomials up to its order are reproduced, and has the shape of the image "
     "for every dtype, window and order; invalid windows and orders are rejected.",
     ["inputs", "configurations"], "all images, dtypes, output arrays, windows, orders and derivatives",
     "The tests use one 3 by 5 image and one smoothing example.",
     ["skbeam/core/arithmetic.py", "skbeam/core/smoothing.py"],
     [("logic", "arithmetic.py"), ("smoothing", "smoothing.py sgolay2d")])
prop("P27", "Interrupted and resumed computations equal uninterrupted ones",
     "A one-time or two-time correlation or phase-contrast fit which is fed its images in any number of pieces, passing on "
     "the returned state, gives after each image the same result as in one run. Correlations handed out earlier by the one-time correlation do not "
     "change when the run goes on, and computations which run interleaved do not influence each other.",
     ["histories", "crash_points"], "all points of interruption, numbers of pieces and interleavings of several runs",
     "The tests resume once at one point.",
     ["skbeam/core/correlation.py", "skbeam/core/dpc.py"],
     [("internal state", "correlation.py lazy_one_time, lazy_two_time, _init_state_one_time, _init_state_two_time; dpc.py lazy_dpc")],
     state=[{"name": "internal_state", "meaning": "buffers, counters and accumulated correlations between pieces"}])
prop("P28", "Nested dictionaries keep every value under its path through any history",
     "After any sequence of sets, gets, deletions and iterations, a metadata or run-control dictionary addressed by dotted paths "
     "returns for each path the value last stored there, with its units and type, lists exactly the stored paths once each, "
     "and reports missing paths as missing. Values which the validators of a run-control dictionary reject are not stored, "
     "and reading never changes the content.",
     ["histories", "inputs"], "all sequences of operations on paths of any depth, including paths below a value",
     "The tests set and read a handful of keys in one order.",
     ["skbeam/core/utils.py"],
     [("dictionaries", "skbeam/core/utils.py MD_dict, RCParamDict, verbosedict")],
     state=[{"name": "tree of dictionaries", "meaning": "values by path"}])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
