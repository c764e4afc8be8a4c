#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements live in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

U="src/qp/utils.py"; H="src/qp/hist_pdf.py"; I="src/qp/interp_pdf.py"; K="src/qp/packed_interp_pdf.py"; Q="src/qp/quant_pdf.py"
M="src/qp/mixmod_pdf.py"; G="src/qp/pdf_gen.py"; E="src/qp/ensemble.py"; F="src/qp/factory.py"; D="src/qp/dict_utils.py"
C="src/qp/conversion_funcs.py"; PU="src/qp/packing_utils.py"; S="src/qp/sparse_pdf.py"; R="src/qp/sparse_rep.py"; SP="src/qp/spline_pdf.py"
MM="src/qp/metrics/metrics.py"; MA="src/qp/metrics/array_metrics.py"; MB="src/qp/metrics/brier.py"; MC="src/qp/metrics/concrete_metric_classes.py"
MG="src/qp/metrics/goodness_of_fit.py"; MP="src/qp/metrics/pit.py"; MQ="src/qp/metrics/point_estimate_metric_classes.py"; MBC="src/qp/metrics/base_metric_classes.py"
QC="src/qp/quantile_pdf_constructors/"

prop("C01","Vectorised evaluation equals evaluating each distribution alone",
 "For every kind of ensemble and every legal way of giving the evaluation points (a scalar, one list shared by all distributions in any order and with repeats, or one list per distribution), the density, cumulative and quantile values returned for distribution i at point j are those obtained by evaluating distribution i alone at that single point (for mixtures, whose quantiles are tabulated on a grid common to the ensemble, the quantiles up to that tabulation). Random samples drawn for distribution i are draws from distribution i and from no other.",
 ["inputs"],"all ensembles of the histogram, interpolated, irregular, packed, quantile, mixture, spline, sparse and analytic kinds; all evaluation points and broadcast shapes",
 "Tests evaluate sorted, shared, duplicate-free grids; a permuted grid, a repeated point or one list per distribution takes other branches of the shape analysis.",
 [U,H,I,K,Q,M,G],[("shape case analysis","src/qp/utils.py:get_eval_case"),("histogram kernels","src/qp/utils.py:evaluate_hist_*"),("interpolation kernels","src/qp/utils.py:interpolate_*"),("row-wise scipy hooks","src/qp/*_pdf.py:_pdf/_cdf/_ppf"),("sampling","src/qp/pdf_gen.py:Pdf_rows_gen._rvs")],
 ["Ensemble.pdf","Ensemble.cdf","Ensemble.ppf","Ensemble.rvs"])
prop("C02","Histogram and bin lookups use the bin that contains the point",
 "A histogram density at a point strictly inside a bin equals that bin's stored height, and it is zero outside the outermost edges, whether the bins have equal or unequal widths. The binned profile of a set of points assigns each point strictly inside a bin to that bin alone, ignores points outside, and reports per bin the mean and the spread (or the spread divided by the square root of the count) of exactly the assigned values.",
 ["inputs"],"all increasing bin edges with exactly equal, or distinctly unequal, widths; all points; all bin heights and all y-values",
 "Tests use one uniform binning and look at a handful of points; the unequal-width branch and the edges of the range are not sampled.",
 [U,H],[("bin lookup","src/qp/utils.py:get_bin_indices"),("histogram evaluation","src/qp/utils.py:evaluate_hist_x_multi_y"),("profile","src/qp/utils.py:profile")],["hist Ensemble.pdf","qp.utils.profile"])
prop("C03","Construction normalises every distribution by its own total",
 "Building a histogram, interpolated (shared, packed or per-distribution grid), mixture or sparse ensemble from non-negative, not identically zero data gives each distribution total probability one under that representation's own integration rule (bin areas, trapezoids, the documented right-hand sums for per-distribution grids, mixture weights). The stored values of a distribution are its supplied (or decoded) values multiplied by a single positive factor that no other distribution influences.",
 ["inputs"],"all ensemble sizes, grids (uniform or not), non-negative heights with positive total, and per-distribution scales",
 "Tests build from data that is already nearly normalised and on uniform grids; a wrong axis, width or factor shows up only for other data.",
 [H,I,K,M,S,U],[("histogram","src/qp/hist_pdf.py:hist_gen.__init__"),("interpolated","src/qp/interp_pdf.py:interp_gen.__init__"),("irregular","src/qp/utils.py:normalize_interp1d"),("packed","src/qp/packed_interp_pdf.py:packed_interp_gen.__init__"),("mixture","src/qp/mixmod_pdf.py:mixmod_gen.__init__"),("sparse","src/qp/sparse_pdf.py:sparse_gen.__init__")],["Ensemble.objdata","Ensemble.dist"])
prop("C04","Cumulative distributions are genuine CDFs",
 "For histogram, interpolated (shared, packed, per-distribution grid) and mixture ensembles built with non-negative data, every cumulative value lies in [0, 1] and is non-decreasing in the evaluation point. For all but mixtures it is exactly 0 below and exactly 1 above the distribution's own grid; in a histogram bin it grows linearly by that bin's probability, and at the grid points of interpolated distributions it equals the accumulated trapezoids (right-hand sums for per-distribution grids).",
 ["inputs"],"all valid constructor data and all pairs of evaluation points, including points outside the grid",
 "Tests compare the cdf with an integral of the pdf at coarse tolerance on a few distributions; monotonicity and range are for-all statements.",
 [H,I,K,M,U],[("histogram cdf","src/qp/hist_pdf.py:_compute_cdfs,_cdf"),("trapezoid cdf","src/qp/interp_pdf.py:_compute_ycumul,_cdf"),("mixture cdf","src/qp/mixmod_pdf.py:_cdf")],["Ensemble.cdf","Ensemble.sf"])
prop("C05","Quantile functions invert the CDF",
 "For histogram and per-distribution-grid ensembles with non-negative data the cumulative of the quantile at q equals q for every 0 < q < 1, the quantile lies within that distribution's grid, and it is non-decreasing in q; for shared-grid and packed interpolated ensembles the same holds for q above the cumulative value of the first grid point, and lower q map to the first grid point. A quantile ensemble returns exactly the supplied positions at the supplied interior probabilities and the supplied probabilities at those positions. For mixtures the quantile is within one cell of its tabulation grid of the true one.",
 ["inputs"],"all valid constructor data and all probabilities strictly between 0 and 1, including flat stretches of the cdf",
 "Tests check ppf(cdf(x)) on a few points at tolerance; zero-height bins and unsorted probabilities are not sampled.",
 [H,I,K,Q,M,U],[("histogram ppf","src/qp/hist_pdf.py:_ppf"),("interpolated ppf","src/qp/interp_pdf.py:_ppf"),("quantile cdf/ppf","src/qp/quant_pdf.py:_cdf,_ppf"),("mixture ppf","src/qp/mixmod_pdf.py:_ppf")],["Ensemble.ppf"])
prop("C06","Bin probabilities, interval integrals and survival agree with the CDF",
 "For every ensemble and every increasing set of edges, the bin contents reported for distribution i are the differences of its cumulative at consecutive edges, so that they add up to the probability between the outermost edges, and the edges are returned unchanged. The integral between two limits is the difference of cumulatives and is additive over adjacent intervals, and the survival function is one minus the cumulative.",
 ["inputs"],"all ensembles of every kind, all edges and limits",
 "Tests histogramize one grid and compare loosely.",
 [G,E,U],[("bin contents","src/qp/pdf_gen.py:rv_frozen_rows.histogramize, rv_frozen_func.histogramize"),("integral","src/qp/ensemble.py:Ensemble.integrate"),("reshaping","src/qp/utils.py:reshape_to_pdf_size, reshape_to_pdf_shape")],["Ensemble.histogramize","Ensemble.integrate","Ensemble.sf"])
prop("C07","Selecting distributions keeps exactly the selected ones",
 "Selecting distributions from an ensemble by integer, slice, boolean mask or index list gives an ensemble of the same kind whose k-th member has the density, cumulative and quantile values, and the row of every ancillary column, of the k-th selected member. The original ensemble, its data and its ancillary table are unchanged.",
 ["inputs","histories"],"all kinds of ensembles, all selections (including repeated application), with and without ancillary tables",
 "Tests slice one or two members of a few ensembles and never look at ancillary rows.",
 [E,D,G],[("selection","src/qp/ensemble.py:Ensemble.__getitem__"),("table slicing","src/qp/dict_utils.py:slice_dict")],["Ensemble.__getitem__"])
prop("C08","Concatenation and appending preserve every member in order",
 "Concatenating ensembles that share their common data yields an ensemble with all members of the first, then all of the second, and so on, each with its own density, cumulative and quantile values; appending in place gives the same. Ancillary columns are concatenated in the same order when every part has them and dropped otherwise; ensembles whose common data (kind, grid, ...) differ are refused.",
 ["inputs","histories"],"all lists of compatible or incompatible ensembles, of any sizes, with and without ancillary tables",
 "Tests concatenate an ensemble with itself or equal-length pieces and check the number of members.",
 [F,E,D],[("concatenate","src/qp/factory.py:Factory.concatenate"),("append","src/qp/ensemble.py:Ensemble.append, update_objdata"),("table handling","src/qp/dict_utils.py:concatenate_dicts, compare_dicts, check_keys")],["qp.concatenate","Ensemble.append"])
prop("C09","Answers never depend on what was asked before",
 "The values an ensemble returns for gridded evaluation, modes, densities, cumulatives, quantiles and moments depend only on its current data and the arguments: repeating a call, interleaving it with calls for other grids, changing the caller's grid array in place afterwards, or replacing the ensemble's data never yields values for other data or another grid. The mode returned for each distribution is a grid point of the given grid at which its density on that grid is largest.",
 ["histories","inputs"],"all sequences of evaluation, gridded, mode, update and append calls with arbitrary grids",
 "Tests call each method once on a fresh ensemble; stale caches need a particular sequence of calls.",
 [E,H,I],[("grid cache","src/qp/ensemble.py:Ensemble.gridded, mode, update"),("lazy tables","src/qp/hist_pdf.py:_compute_cdfs, src/qp/interp_pdf.py:_compute_ycumul, src/qp/quant_pdf.py")],["Ensemble.gridded","Ensemble.mode"],
 [("grid cache","last grid and densities evaluated on it")])
prop("C10","Ensembles survive tables and files unchanged",
 "Building the tables of an ensemble and reading them back, directly or through a file in any supported format, gives an ensemble of the same kind and shape with the same common data, per-distribution data, ancillary table and density, cumulative and quantile values. A dictionary of ensembles written to one file is read back with the same names and contents.",
 ["inputs"],"all kinds of ensembles, with and without ancillary tables, all supported file formats, dictionaries of ensembles",
 "Tests write a few ensembles and compare densities on one grid at tolerance; ancillary columns and metadata are barely compared.",
 [E,F,D],[("tables","src/qp/ensemble.py:build_tables, metadata, objdata"),("reading","src/qp/factory.py:from_tables, _build_data_dict, read, write_dict, read_dict")],["Ensemble.write_to","qp.read","qp.from_tables","qp.read_dict"])
prop("C11","Chunked reading partitions the file",
 "Iterating over a file in chunks of any size yields consecutive, non-overlapping row ranges covering the file exactly once, each with an ensemble holding exactly those rows of the data and of the ancillary table; across any number of parallel readers the ranges partition the file. An ensemble obtained for one chunk keeps its contents when later chunks are read.",
 ["inputs","histories"],"all chunk sizes, numbers of readers, ensemble sizes and kinds",
 "Tests iterate with chunk sizes that divide the file and look at one chunk at a time.",
 [F],[("iterator","src/qp/factory.py:Factory.iterator, data_length")],["qp.iterator","qp.data_length"])
prop("C12","Chunked writing equals writing in one go",
 "Writing an ensemble to a file piece by piece over any partition of its rows, in any order of pieces, and then finalising, produces a file that reads back as the whole ensemble: same kind, common data, per-distribution data, ancillary table and number of rows. Space is allocated for the full number of rows with each column's own shape and type.",
 ["inputs","schedules"],"all partitions of the rows into consecutive pieces, all orders of writing, all kinds of ensembles",
 "Tests write equal pieces in order and only check that reading works.",
 [E],[("allocation","src/qp/ensemble.py:_get_allocation_kwds, initializeHdf5Write"),("chunks","src/qp/ensemble.py:writeHdf5Chunk"),("metadata","src/qp/ensemble.py:finalizeHdf5Write")],["Ensemble.initializeHdf5Write","Ensemble.writeHdf5Chunk","Ensemble.finalizeHdf5Write"])
prop("C13","Packing to bytes is accurate to half a step, row by row",
 "Packing rows of non-negative values, each with a positive maximum, and unpacking them restores each value within half a quantisation step of its own row: 1/510 of the row maximum on the linear scale, half a step of the logarithmic grid for values at least 10**floor of the row maximum on the logarithmic scale (for row maxima of at least 10**(2*floor), and up to the offset 10**(3*floor) that this scale adds to every value). Row maxima are exact, packed values are ordered as the originals, zeros come back as zero, values below the logarithmic floor come back at most at the floor, and no row affects another.",
 ["inputs"],"all arrays of non-negative rows with positive maxima, all negative floors, both packings",
 "Tests pack one array and check a loose tolerance; the bound must hold for every value, row scale and floor.",
 [PU,K],[("linear","src/qp/packing_utils.py:linear_pack_from_rowmax, linear_unpack_from_rowmax"),("log","src/qp/packing_utils.py:log_pack_from_rowmax, log_unpack_from_rowmax"),("dispatch","src/qp/packing_utils.py:pack_array, unpack_array")],["qp.packing_utils.pack_array","qp.packing_utils.unpack_array"])
prop("C14","Sparse codes decode to what was encoded",
 "Packing a signed 16-bit coefficient and an unsigned 16-bit basis number into one integer and unpacking gives back both numbers; decoding a table of codes gives for each entry its basis number and its coefficient in units of the coefficient grid, the first coefficient of each row counting as one. The position, width and shape parameters recovered from a basis number are exactly those with which that element of the dictionary was generated, dictionary columns have unit norm, and the sparse density is the normalised weighted sum of the selected columns. Encoding several distributions gives each the codes it gets when encoded alone, which decode, up to a common factor and the rounding to the coefficient grid, to the fitted combination of columns, and leaves the dictionary as it was.",
 ["inputs"],"all coefficients in [-32768, 32767], basis numbers in [0, 65535], dictionary dimensions and tables of codes",
 "Tests decode one bundled sample; sign, bit and index-order errors show only for other dimensions or values.",
 [R,S],[("integer codec","src/qp/sparse_rep.py:combine_int, get_N"),("decode","src/qp/sparse_rep.py:decode_sparse_indices, indices2shapes"),("dictionary","src/qp/sparse_rep.py:create_voigt_basis, create_basis"),("encoding","src/qp/sparse_rep.py:build_sparse_representation, sparse_basis"),("density","src/qp/sparse_rep.py:pdf_from_sparse, shapes2pdf; src/qp/sparse_pdf.py")],["qp.sparse_rep"])
prop("C15","Quantile padding and density reconstruction keep the supplied quantiles",
 "Completing a table of increasing interior quantiles keeps every supplied pair, adds at most one probability 0 and one probability 1 whose positions continue the outermost segment of each distribution linearly and outwards, and changes nothing when both ends are present. The piecewise-linear reconstructed density takes, midway between neighbouring positions, the probability between them divided by their distance, and is non-negative and zero outside the first and last midpoints; the piecewise-constant and dual-spline constructors compute their node values from the same ratios, the latter never negative.",
 ["inputs"],"all strictly increasing probabilities in [0, 1], all strictly increasing positions per distribution, all evaluation points and rows",
 "Tests use one set of normal quantiles, mostly symmetric, and check shapes or approximate values.",
 [Q,QC+"piecewise_linear.py",QC+"piecewise_constant.py",QC+"dual_spline_average.py",QC+"cdf_spline_derivative.py"],[("padding","src/qp/quant_pdf.py:pad_quantiles"),("piecewise linear","src/qp/quantile_pdf_constructors/piecewise_linear.py"),("piecewise constant","src/qp/quantile_pdf_constructors/piecewise_constant.py"),("dual spline","src/qp/quantile_pdf_constructors/dual_spline_average.py"),("row choice","src/qp/quant_pdf.py:_pdf")],["quant Ensemble.pdf","qp.quant_pdf.pad_quantiles"])
prop("C16","Moments follow from the represented density",
 "The n-th moment of a histogram is the sum over bins of the bin centre to the n-th power times that bin's probability, and that of a shared-grid or packed interpolated distribution is the trapezoid integral of x to the n-th power times the density over its own grid, for uniform and non-uniform grids. Mean, variance and standard deviation are consistent with these moments, shifting the grid shifts the mean and leaves the variance, and every distribution's moments are independent of the others.",
 ["inputs"],"all valid grids and heights, all orders n >= 1",
 "Tests only check that moments are finite, on uniform grids.",
 [H,I,K,G,E],[("moments","src/qp/hist_pdf.py:custom_generic_moment, src/qp/interp_pdf.py:custom_generic_moment, src/qp/packed_interp_pdf.py:custom_generic_moment")],["Ensemble.moment","Ensemble.mean","Ensemble.var","Ensemble.std"])
prop("C17","Grid metrics equal their defining sums, distribution by distribution",
 "On an evenly spaced grid spanning the limits, the moment metric equals step times the sum of density times grid power, the RMS error equals the root mean square of the density differences over the grid, and the divergence equals step times the sum of p times the log ratio with logs of non-positive values taken at a tiny threshold (reported as the tiny threshold for all distributions when any is negative). RMS error is symmetric, zero for identical ensembles, and divergence of an ensemble with itself is zero; each entry concerns only its own pair of distributions, and mismatched ensembles are refused.",
 ["inputs"],"all pairs of ensembles, limits, steps and moment orders",
 "Tests compare identical or nearly identical ensembles, where wrong factors and axes vanish.",
 [MM,MA,U,MC,E],[("grid","src/qp/metrics/metrics.py:_calculate_grid_parameters"),("kernels","src/qp/metrics/array_metrics.py:quick_moment, quick_kld, quick_rmse"),("wrappers","src/qp/metrics/metrics.py:calculate_moment, calculate_kld, calculate_rmse"),("log","src/qp/utils.py:safelog")],["qp.metrics.calculate_moment","calculate_kld","calculate_rmse","MetricFactory classes"])
prop("C18","Brier score and CDE loss equal their definitions, chunked or not",
 "The Brier score is the mean over distributions of the summed squared differences between the gridded density and the indicator of the grid cell containing the true value; the conditional density loss is the mean integral of the squared density minus twice the mean density at the grid point nearest the true value. Accumulating over any split into chunks, of any sizes down to one, and finalising gives the value of the whole, and truths outside the limits or of the wrong number are refused by the Brier score.",
 ["inputs","schedules"],"all ensembles, truth values, grids and partitions into chunks",
 "Tests use one ensemble and at most equal chunks; single-member chunks and weightings by chunk size are not sampled.",
 [MB,MM,MC],[("Brier","src/qp/metrics/brier.py:Brier, src/qp/metrics/metrics.py:_prepare_for_brier, calculate_brier"),("accumulation","src/qp/metrics/concrete_metric_classes.py:BrierMetric, CDELossMetric")],["BrierMetric","CDELossMetric","calculate_brier"])
prop("C19","Goodness-of-fit statistics equal their formulas for every distribution",
 "For every distribution the Kolmogorov-Smirnov, Cramer-von Mises and Anderson-Darling statistics equal the textbook one-sample formulas for the samples drawn from that distribution of the estimate against the matching distribution of the reference (or the single reference one), independently of sample order; KS lies in [1/(2n), 1] and CvM is at least 1/(12n). Unknown statistic names, and ensembles of different sizes neither of which is single, are refused.",
 ["inputs"],"all sample arrays of any length, all reference cdfs, all pairs of ensembles with N-to-N or N-to-1 distributions",
 "Tests compare against one scipy call for one seed.",
 [MG,MM,MC],[("statistics","src/qp/metrics/goodness_of_fit.py"),("driver","src/qp/metrics/metrics.py:calculate_goodness_of_fit and its checks")],["qp.metrics.calculate_goodness_of_fit","KSMetric","CvMMetric","ADMetric"])
prop("C20","Point-estimate metrics equal their definitions and use all chunks",
 "With e = (estimate - truth)/(1 + truth) for each object, the point metrics return e itself, the interquartile range over 1.349, the median, the fraction with |e| above max(0.06, three sigma-IQR), and 1.4826 times the median absolute deviation. Evaluating chunk by chunk uses every chunk and gives, up to the compression of the digest, the value for all objects together whatever the split or order of chunks.",
 ["inputs","schedules"],"all arrays of estimates and truths, all partitions into chunks",
 "Tests use one data set and equal chunks; dropping or weighting a chunk wrongly goes unnoticed when chunks are alike.",
 [MQ,MBC],[("definitions","src/qp/metrics/point_estimate_metric_classes.py"),("iteration","src/qp/metrics/base_metric_classes.py:PointToPointMetric.eval_from_iterator"),("digest merge","src/qp/metrics/point_estimate_metric_classes.py:accumulate, finalize")],["PointStatsEz","PointSigmaIQR","PointBias","PointOutlierRate","PointSigmaMAD"])
prop("C21","PIT values are each distribution's CDF at its own truth",
 "The PIT sample of object i is the cumulative of distribution i at its own true value (undefined values count as 0), in order, for any number of objects including one. Accumulating chunk by chunk covers every object whatever the chunk sizes, down to one. The summarising distribution, when there are at least two of them, has exactly the distinct sample quantiles strictly between 0 and 1, each attached to its own probability; trimming keeps exactly the samples within the bounds, and the outlier rate is the probability of the summary below the lower plus above the upper bound.",
 ["inputs"],"all ensembles, truth values, evaluation grids and trimming bounds",
 "Tests use one sample of a hundred normals and compare summary numbers.",
 [MP,MC,MM],[("samples","src/qp/metrics/pit.py:_gather_pit_samples"),("summary","src/qp/metrics/pit.py:_produce_output_ensemble, _create_quant_mask"),("trimming","src/qp/metrics/pit.py:_trim_pit_values"),("outliers","src/qp/metrics/metrics.py:calculate_outlier_rate")],["qp.metrics.pit.PIT","PITMetric"])
prop("C22","Conversions carry each distribution's own values",
 "Converting to an interpolated kind stores, up to that kind's own normalisation, distribution i's density at the requested points; converting to a histogram stores its bin probabilities turned into heights by the histogram rule; converting to quantiles stores its positions at the requested probabilities; converting through samples uses only that distribution's samples. Every conversion keeps the number and order of distributions, works for any number of distributions, and leaves the source unchanged.",
 ["inputs"],"all source ensembles, target kinds and conversion grids",
 "Tests convert one family of normals and compare densities at tolerance 0.1.",
 [C,E,F,K],[("extractors","src/qp/conversion_funcs.py:extract_*"),("drivers","src/qp/ensemble.py:Ensemble.convert_to, src/qp/factory.py:Factory.convert")],["qp.convert","Ensemble.convert_to"])
prop("C23","Registries find the named entry, else the default, never another",
 "Looking up a creation, extraction or reader method returns the one registered under the given name, else the default, else nothing; registering never replaces or alters an existing entry, and each kind of distribution has its own table. Creating or converting by kind name uses that kind, unknown kinds and metrics are refused, and a metric created by name has that name and receives the given options.",
 ["inputs","histories"],"all method names, all registered kinds and metrics, all registration sequences",
 "Tests look up a few registered names.",
 [D,G,F,"src/qp/metrics/factory.py"],[("lookup","src/qp/dict_utils.py:get_val_or_default, set_val_or_default"),("kinds","src/qp/pdf_gen.py:Pdf_gen, src/qp/factory.py:Factory"),("metrics","src/qp/metrics/factory.py:MetricFactory")],["qp.create","qp.convert","MetricFactory.create_metric"])
prop("C24","Caller's data are never modified",
 "Constructing, evaluating, slicing, concatenating, converting, packing, writing and scoring never change the arrays and dictionaries passed in by the caller, nor the data of ensembles given as arguments (other than the one being appended to or updated). Evaluating an ensemble does not change its stored data.",
 ["inputs","histories"],"all arguments of the public entry points",
 "Tests never compare inputs before and after a call.",
 [U,H,I,K,Q,M,E,F,D,C,PU,MM],[("array code","src/qp/utils.py and the constructors"),("dictionary code","src/qp/ensemble.py, src/qp/factory.py, src/qp/dict_utils.py")],["all public entry points"])
prop("C25","Analytic distributions are scipy's own",
 "Every analytic distribution available by name has, for every valid set of parameters given per distribution and for every point inside or outside its support, the density, cumulative, survival and quantile values, the support, and the mean and variance of the scipy distribution of that name with those parameters; number of distributions and per-distribution data are those of the parameters given.",
 ["inputs"],"all scipy continuous distributions, all valid parameters, all points including those outside the support",
 "Tests evaluate a few distributions inside their support only; over a hundred are exposed, and the values outside the support are never looked at.",
 [F,G],[("wrapping","src/qp/factory.py:Factory._make_scipy_wrapped_class, _load_scipy_classes"),("construction","src/qp/pdf_gen.py:Pdf_gen_wrap.__init__, create_gen, rv_frozen_func")],["qp.stats.<name>","Ensemble.pdf","Ensemble.cdf"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import sys
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,sch)
    print("ok",len(P))
except ImportError: print("no jsonschema", len(P))
