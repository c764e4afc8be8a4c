"""Write MANIFEST.json and levels.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = ["C%02d" % k for k in range(1, 26)]
TECH = "contracts on the real functions; verification conditions generated from the source of /repo, discharged by z3/cvc5"
BASE = ["contracts of numpy, scipy, tables_io, sklearn and pytdigest operations (vc/npshim.py, vc/sshim.py; the uses of each run are in trusted_base)",
        "floating point arithmetic is treated as arithmetic of the reals, integers as unbounded (bytes, 16-bit and unsigned types by their ranges where the property is about them)",
        "the generator vc/ itself: Python semantics of the loaded source, numpy broadcasting, path enumeration"]
ROWS = "scipy's rv_continuous.pdf/cdf/ppf/sf hand the points inside the support and their row numbers, broadcast and flattened, to _pdf/_cdf/_ppf/_sf and put the answers back in place"
INC = "a sequence whose neighbours do not decrease is non-decreasing (induction)"
LIN = "interp1d: on a non-decreasing grid the straight line between neighbouring points; monotone data give monotone values"
SUM = "a sum is linear, and does not depend on the order of its terms (induction step is an obligation)"
# what is not proved, hence only bounded (run-time contracts on random inputs), and what the property assumes beyond BASE
T = {
 "C01": ("Proved for all sizes, points and rows: shape analysis, kernels, the _pdf/_cdf/_ppf of the hist, interp, interp_irregular, packed_interp, quant (four density constructors), mixmod and spline kinds for the request shapes scalar, shared, per-row, flattened grid and flattened arbitrary; row numbering of frozen ensembles; sampling as quantiles of own uniforms. Bounded: scipy's dispatch in front of them (assumed contract, tested), sparse kind's evaluation and analytic kinds (see C25), splines' curves are scipy's.", [ROWS, LIN, "splev/splint evaluate the curve of the given knots and coefficients, splint is zero outside the knots"]),
 "C02": ("Proved for all bins, points and heights, including profile (loop invariant: every earlier bin holds the mean and spread of exactly the points in it), for bins of any widths, and when used before for others.", [INC]),
 "C03": ("Proved for hist, interp, interp_irregular, packed_interp, mixmod and sparse constructors for all sizes and values.", [SUM]),
 "C04": ("Proved: accumulation (non-decreasing, from 0 to 1), and values between and outside the grid points, for all sizes; Gaussian cumulatives assumed monotone within [0, 1].", [INC, LIN, ROWS, "the standard normal cumulative is non-decreasing and within [0, 1]"]),
 "C05": ("Proved for hist, interp, packed_interp, interp_irregular, quant at the supplied nodes, and the tabulation of mixmod; real arithmetic. Bounded: rounding near the ends of the grid.", [INC, LIN, ROWS, "interp1d of kind quadratic passes through its knots"]),
 "C06": ("Proved: bin contents as differences of the cumulative, their sum (telescoping, by induction), edges returned, integrals and their additivity. The survival function is scipy's 1 - cdf (assumed, tested).", [ROWS, "rv_continuous._sf is 1 - _cdf"]),
 "C07": ("Proved for integer, slice, mask and index-list selections on ensembles with any columns of rank two: data, common data and ancillary rows of the result, frame of the original; the package's own kinds included, end to end. That equal data give equal values is C09/C01.", []),
 "C08": ("Proved for concatenate and append for two or three parts with any numbers of rows, the package's own kinds included; refusal of other common data.", ["np.allclose decides when common data count as equal"]),
 "C09": ("Proved: gridded evaluation under an invariant on the memory that any history of calls preserves; modes; update; evaluation leaves the stored data alone; the same questions asked again, of the same object after a change of its data or of another, and a quantile ensemble whose density constructor is replaced.", []),
 "C10": ("Proved: tables from an ensemble and an ensemble from tables, reader and writer calls, dictionaries of ensembles; what each kind is rebuilt from is what it holds, the package's own kinds end to end; hdf5 files through the source of tables_io. Fits and parquet (tables_io) are assumed to return what was written, tested on files (bounded).", ["h5py, and tables_io for fits and parquet, return the arrays they were given, bytes and row order included"]),
 "C11": ("Proved: each piece holds exactly the rows of its range, and earlier pieces are not changed; the ranges of all readers partition the rows (from the source of tables_io). Real files with several readers are tested (bounded).", ["h5py reads the slice asked for"]),
 "C12": ("Proved: allocation with each column's full shape and type, every piece written to exactly its rows, metadata written at the end; the writers of tables_io from their own source, over h5py's slices. Real files are tested (bounded).", ["h5py stores the slices assigned to it"]),
 "C13": ("Proved for all sizes and values, linear and logarithmic, with real arithmetic.", ["10**x and log10 are inverse, increasing and turn sums into products"]),
 "C14": ("Proved: pack/unpack of codes (bit vectors), decoding, dictionary columns and norms, recovery of parameters, densities of the sparse kind. Bounded: the orthogonal matching pursuit that encodes (sparse_basis, build_sparse_representation).", ["voigt_profile is a function of its arguments"]),
 "C15": ("Proved: padding, piecewise linear and constant constructors, node values and non-negativity of the dual spline.", [INC, LIN]),
 "C16": ("Proved: moments from the defining sums, mean/variance/standard deviation from them, shift lemma.", [SUM, "rv_continuous.moment/mean/var/std/stats call _munp and combine raw moments"]),
 "C17": ("Proved for all grids, sizes and densities; refusal of mismatched ensembles.", [SUM]),
 "C18": ("Proved for both scores, accumulation and any number of chunks (sums over chunks by induction).", [SUM]),
 "C19": ("Proved for any numbers of distributions and samples, including bounds of KS and CvM and independence of order.", ["np.sort returns the non-decreasing arrangement, a function of the multiset of the values of the row"]),
 "C20": ("Proved: formulas on the whole sample; accumulation, combination and evaluation from chunks, with a digest that keeps every value. The compression of the digest and np.percentile/np.median are the libraries' (bounded tests against the real ones).", ["pytdigest keeps the mass of every value", "np.percentile, np.median are functions of the sample"]),
 "C21": ("Proved for all numbers of objects, grids and chunks; the tests against the uniform distribution are scipy's, given the samples.", ["np.unique, np.quantile by their contracts", "pytdigest keeps the mass of every value", ROWS]),
 "C22": ("Proved for all numbers of distributions and points: values, counts, quantiles and fits each from its own distribution. The mixture fit itself is sklearn's. The spline kind from points, and kernel density estimates as integrals of scipy's, are proved up to scipy's splines and estimates.", ["scipy's splrep, quad and gaussian_kde are functions of their arguments", "sklearn's fit is a function of the samples and of the number of components"]),
 "C23": ("Proved for dictionaries of any contents, all kinds of the package and all metrics.", []),
 "C24": ("Proved as frame conditions: every array and dictionary given by the caller is protected in the contracts of all functions under contract; a write to it is a failed obligation.", []),
 "C25": ("For every continuous distribution of scipy the evaluating functions are scipy's own code objects on an object with the attributes of scipy's own (identity, so for all parameters and points); wrapper, numbers and parameters proved. Values against scipy additionally tested (bounded).", ["scipy's distributions themselves"]),
}
LEVELS = {p: dict(level="proof", technique=TECH, note=T[p][0], assumptions=BASE + T[p][1]) for p in IDS}
checks = []
for p in IDS:
    L = LEVELS[p]
    checks.append(dict(property=p, quick_cmd="./check.sh " + p, thorough_cmd="./check.sh %s --tier thorough" % p,
                       technique=L["technique"], level=L["level"], level_note=L["note"]))
man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
           notes="No hooks in /repo: the checks load the source of /repo/src/qp as it is. Repairs of defects are the 'fix:' commits listed in known-findings.txt. "
                 "CONTRACTS.md lists the functions under contract; obligations which time out or lie outside the generator's reach on changed code are reported as undecided in the evidence and fall back on the bounded run-time contracts, never on an alarm.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump({p: dict(level=L["level"], assumptions=L["assumptions"]) for p, L in LEVELS.items()}, open(os.path.join(HERE, "levels.json"), "w"), indent=1)
