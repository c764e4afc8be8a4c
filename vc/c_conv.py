"""Contracts of the conversions: what each extraction function takes from the source ensemble."""
from .api import *
from . import npshim, sshim, load
from .c_ens import refused
from .c_metrics import Ens
from .c_dist import PSUM


class Source(Ens):
    """a source ensemble of which only the contracts of its own functions are known; its data are not to be written to"""
    def __init__(self, k, N, objdata=None, metadata=None):
        super().__init__(k, "src", N)
        self._obj, self._meta = objdata, metadata

    def objdata(self):
        if self._obj is None:
            raise Unsupported("data of the source ensemble")
        return self._obj

    def metadata(self):
        if self._meta is None:
            raise Unsupported("metadata of the source ensemble")
        return self._meta

    def histogramize(self, bins):
        b = asarr(bins)
        f = z3.Function("src_binprob", I, I, R)
        self.calls.append(("bins", bins))
        return (bins, from_fn((self.N, sub(b.shape_[0], 1)), lambda i: f(term(i[0]), term(i[1])), "f"))


def source(k, **kw):
    N = k.dim("N", 1)
    return N, Source(k, N, **kw)


def only(k, d, *keys):
    k.ensure("these columns and no others", isinstance(d, dict) and set(d) == set(keys))
    if not isinstance(d, dict) or set(d) != set(keys):
        raise PathEnd()


FN = "conversion_funcs"


@contract("C22 C24", "conversion_funcs.extract_vals_at_x", cases=["points", "missing"])
def vals_at_x(k, how):
    """the points themselves, and every distribution's own density at each of them, in order"""
    N, e = source(k)
    f = k.mod(FN).extract_vals_at_x
    if how == "missing":
        refused(k, lambda: f(e), ValueError)
        refused(k, lambda: f(e, xvals=None), ValueError)
        return
    n = k.dim("n", 0)
    x = k.real("x", (n,))
    xf = fn_of(x)
    d = f(e, xvals=x)
    only(k, d, "xvals", "yvals")
    k.each_is("points", d["xvals"], (n,), xf)
    k.each_is("densities", d["yvals"], (N, n), lambda i, j: e.value("pdf")(i, xf(j)))


@contract("C22 C24", "conversion_funcs.extract_xy_vals", cases=["points", "rows", "missing"])
def xy_vals(k, how):
    """every row: the points, and that distribution's own density at each of them"""
    N, e = source(k)
    f = k.mod(FN).extract_xy_vals
    if how == "missing":
        refused(k, lambda: f(e), ValueError)
        return
    n = k.dim("n", 1 if how == "points" else 2)     # rows of points are for curves, which take two or more
    x = k.real("x", (n,) if how == "points" else (N, n))
    xf = fn_of(x)
    pt = (lambda i, j: xf(j)) if how == "points" else xf
    d = f(e, xvals=x)
    only(k, d, "xvals", "yvals")
    k.each_is("points of every row", d["xvals"], (N, n), pt)
    k.each_is("densities", d["yvals"], (N, n), lambda i, j: e.value("pdf")(i, pt(i, j)))


@contract("C22 C24", "conversion_funcs.extract_samples", cases=["size given", "default size"])
def samples(k, how):
    """each row's own samples; the grid is the given one"""
    N, e = source(k)
    n = k.dim("n", 2)
    x = k.real("x", (n,))
    xf = fn_of(x)
    kw = dict(xvals=x)
    s = 1000
    if how == "size given":
        s = k.dim("size", 1)
        kw["size"] = wrap(s)
    d = k.mod(FN).extract_samples(e, **kw)
    only(k, d, "samples", "xvals", "yvals")
    g = z3.Function("src_rvs", I, I, R)
    k.each_is("own samples", d["samples"], (N, s), lambda i, j: g(term(i), term(j)))
    k.each_is("grid", d["xvals"], (n,), xf)
    k.ensure("no values", d["yvals"] is None)


@contract("C22 C24", "conversion_funcs.extract_hist_values", cases=["bins", "missing"])
def hist_values(k, how):
    """every distribution's own probability in each bin"""
    N, e = source(k)
    f = k.mod(FN).extract_hist_values
    if how == "missing":
        refused(k, lambda: f(e), ValueError)
        return
    n = k.dim("nbins", 1)
    b = k.real("bins", (add(n, 1),))
    bf = fn_of(b)
    d = f(e, bins=b)
    only(k, d, "bins", "pdfs")
    asked = [c[1] for c in e.calls if isinstance(c, tuple) and c[0] == "bins"]
    k.ensure("asked once", len(asked) == 1)
    k.each_is("for the bins given", asked[0], (add(n, 1),), bf)
    k.each_is("bins", d["bins"], (add(n, 1),), bf)
    p = z3.Function("src_binprob", I, I, R)
    k.each_is("own bin probabilities", d["pdfs"], (N, n), lambda i, j: p(term(i), term(j)))


@contract("C22 C24", "conversion_funcs.extract_hist_samples", cases=["size given", "default size", "missing"])
def hist_samples(k, how):
    """how many of that distribution's own samples lie in each bin"""
    N, e = source(k)
    f = k.mod(FN).extract_hist_samples
    if how == "missing":
        refused(k, lambda: f(e), ValueError)
        return
    n = k.dim("nbins", 1)
    b = k.real("bins", (add(n, 1),))
    k.increasing(b)
    bf = fn_of(b)
    kw, s = dict(bins=b), 1000
    if how == "size given":
        s = k.dim("size", 1)
        kw["size"] = wrap(s)
    d = f(e, **kw)
    only(k, d, "bins", "pdfs")
    g = z3.Function("src_rvs", I, I, R)

    def inside(v, j):
        lo, hi = bf(j), bf(add(j, 1))
        return And(le(lo, v), Or(lt(v, hi), And(eq(j, sub(n, 1)), eq(v, hi))))
    k.each_is("bins", d["bins"], (add(n, 1),), bf)
    k.each_is("own samples in the bin", d["pdfs"], (N, n), lambda i, j: npshim.Count(lambda q: inside(g(term(i), term(q)), j), s))


@contract("C22 C24", "conversion_funcs.extract_quantiles", cases=["points", "missing"])
def quantiles(k, how):
    """every distribution's own position at each probability"""
    N, e = source(k)
    f = k.mod(FN).extract_quantiles
    if how == "missing":
        refused(k, lambda: f(e), ValueError)
        return
    n = k.dim("n", 0)
    q = k.real("quants", (n,))
    qf = fn_of(q)
    d = f(e, quants=q)
    only(k, d, "quants", "locs")
    k.each_is("probabilities", d["quants"], (n,), qf)
    k.each_is("positions", d["locs"], (N, n), lambda i, j: e.value("ppf")(i, qf(j)))


class Mixtures:
    """contract assumed of sklearn's GaussianMixture: what is fitted is a function of the samples and of the number of components"""
    def __init__(self, s):
        self.s = s

    def GaussianMixture(mix, n_components=1, **kw):
        if kw:
            raise Unsupported("GaussianMixture options")
        c = rawi(n_components)

        class Estimator:
            def fit(self, X):
                X = asarr(X)
                if X.ndim != 2:
                    raise ValueError("Expected 2D array")
                if not ctx.branch(eq(X.shape_[1], 1)):
                    raise Unsupported("more than one feature")
                xf, n = X.snap(), X.shape_[0]
                col = lambda q: real(xf((q, 0)))
                ctx.use("sklearn GaussianMixture: weights, means, covariances are functions of the samples and of the number of components")
                self.weights_ = from_fn((c,), lambda i: mixed("weight", col, n, c, i[0]), "f")
                self.means_ = from_fn((c, 1), lambda i: mixed("mean", col, n, c, i[0]), "f")
                self.covariances_ = from_fn((c, 1, 1), lambda i: mixed("cov", col, n, c, i[0]), "f")
                return self
        return Estimator()


def mixed(what, samples, n, c, i):
    return functional("gmm_" + what, samples, n, extra=(real(c), real(i)))


@contract("C22 C24", "conversion_funcs.extract_mixmod_fit_samples", cases=["given", "default"])
def mixmod_samples(k, how):
    """the mixture fitted to that distribution's own samples alone, drawn with the given generator"""
    N, e = source(k)
    m = k.mod(FN)
    kw, s, c, seed = {}, 1000, 3, None
    if how == "given":
        s, c, seed = k.dim("size", 1), k.dim("comps", 1), object()
        kw = dict(nsamples=wrap(s), ncomps=wrap(c), random_state=seed)
    m.mixture = Mixtures(s)
    d = m.extract_mixmod_fit_samples(e, **kw)
    only(k, d, "weights", "means", "stds")
    k.ensure("drawn once, with the generator given", e.calls == [seed])
    g = z3.Function("src_rvs", I, I, R)
    val = lambda what: lambda i, j: mixed(what, lambda q: g(term(i), term(q)), s, c, j)
    k.each_is("weights", d["weights"], (N, c), val("weight"))
    k.each_is("means", d["means"], (N, c), val("mean"))
    k.each_is("standard deviations", d["stds"], (N, c), lambda i, j: npshim.SQRT(val("cov")(i, j)))


@contract("C22 C13 C24", "packed_interp_pdf.extract_and_pack_vals_at_x", cases=["plain", "floor", "missing"])
def packed_vals(k, how):
    """the packed densities of every distribution at the points, and how they were packed"""
    N, e = source(k)
    m = k.mod("packed_interp_pdf")
    kind = object()
    if how == "missing":
        refused(k, lambda: m.extract_and_pack_vals_at_x(e, packing_type=kind), ValueError)
        return
    n = k.dim("n", 0)
    x = k.real("x", (n,))
    xf = fn_of(x)
    codes, top = k.ints("codes", (N, n)), k.real("top", (N, 1))
    asked = []

    def pack(packing_type, input_array, **kw):
        asked.append(((packing_type, input_array), kw))
        return codes, top
    k.stub("packing_utils.pack_array", pack)
    kw = dict(log_floor=-5.0) if how == "floor" else {}
    d = m.extract_and_pack_vals_at_x(e, xvals=x, packing_type=kind, **kw)
    only(k, d, "xvals", "ypacked", "ymax", "packing_type", *kw)
    k.ensure("packed once, as asked", len(asked) == 1 and asked[0][0][0] is kind and asked[0][1] == kw)
    k.each_is("what is packed: the densities", asked[0][0][1], (N, n), lambda i, j: e.value("pdf")(i, xf(j)))
    k.each_is("points", d["xvals"], (n,), xf)
    cf, tf = fn_of(codes), fn_of(top)
    k.each_is("codes", d["ypacked"], (N, n), cf)
    k.each_is("largest values", d["ymax"], (N, 1), tf)
    k.ensure("how it was packed", d["packing_type"] is kind and all(d[o] is kw[o] or d[o] == kw[o] for o in kw))


@contract("C22 C14 C24", "conversion_funcs.extract_sparse_from_xy", cases=["defaults", "given"])
def sparse_from_xy(k, how):
    """every distribution's own values on an even grid from the first point to the last one where any distribution is positive,
    and the sparse representation of exactly these"""
    N, n = k.dim("N", 1), k.dim("n", 2)
    Y, X = k.real("Y", (N, n)), k.real("X", (1, n))
    x, y = k.real("x", (n,)), k.real("y", (N, n))
    e = Source(k, N, dict(yvals=Y), dict(xvals=X))
    m = k.mod(FN)
    kw, s = {}, 300
    if how == "given":
        s = k.dim("nvals", 2)
        kw = dict(xvals=x, yvals=y, nvals=wrap(s))
        k.increasing(x)
    else:
        k.increasing(X)
    xf, yf = (fn_of(x), fn_of(y)) if how == "given" else ((lambda j, f=fn_of(X): f(0, j)), fn_of(Y))
    # some distribution is positive somewhere
    a, b = z3.Int("somerow"), z3.Int("somecol")
    k.pre(And(inrange((a, b), (N, n)), lt(0, yf(a, b)), lt(0, b)))
    ctx.hint(a, b)
    codes = k.ints("codes", (N, k.dim("nsparse", 1)))
    asked, meta = [], dict(dims=object(), mu=object(), sig=object(), Ntot=object())

    def build(x, P, **o):
        asked.append(((x, P), o))
        return codes, dict(meta), object()
    k.stub("sparse_rep.build_sparse_representation", build)
    d = m.extract_sparse_from_xy(e, **kw)
    only(k, d, "dims", "mu", "sig", "xvals", "sparse_indices")
    k.ensure("represented once", len(asked) == 1 and all(v is None for v in asked[0][1].values()))
    gx = k.shape("grid", d["xvals"], (s,))
    gf = fn_of(gx)
    k.ensure("grid starts at the first point", eq(gf(0), xf(0)))
    last = gf(sub(s, 1))
    k.ensure("grid ends within the points", And(le(xf(0), last), le(last, xf(sub(n, 1)))))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    k.ensure("no distribution is positive behind the end", Implies(lt(last, xf(j)), le(yf(i, j), 0)))
    k.all("even steps", (s,), lambda q: eq(mul(sub(gf(q), gf(0)), sub(s, 1)), mul(q, sub(last, gf(0)))))
    k.each_is("represented on this grid", asked[0][0][0], (s,), gf)
    k.each_is("own values", asked[0][0][1], (N, s), lambda i, q: sshim.interp(xf, lambda v: yf(i, v), n, gf(q), None, None))
    k.ensure("codes", d["sparse_indices"] is codes)
    k.ensure("dictionary", all(d[c] is meta[c] for c in ("dims", "mu", "sig")))
