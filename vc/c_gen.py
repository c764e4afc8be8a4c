"""Contracts of the layer between the kinds and scipy: frozen rows, sampling, bin contents, summaries."""
from .api import *
from . import npshim
from .c_dist import PSUM, shaped, dims, row_of, hist_obj, interp_obj, packed_state, trap, pw

CASES = ["rows", "one", "block"]


def row_kind(k):
    """a kind whose densities, cumulatives and quantiles are any functions of the row and the point"""
    gen = k.mod("pdf_gen").Pdf_rows_gen
    F = {w: z3.Function(w, I, R, R) for w in ("pdf", "cdf", "ppf")}

    class Rows(gen):
        name, version = "rows", 0
        made = []

        def __init__(self, data, *args, **kw):
            kw["shape"] = tuple(data.shape)[:-1]
            super().__init__(*args, **kw)
            self._data = data
            self._addobjdata("data", data)
            Rows.made.append((args, {a: b for a, b in kw.items() if a != "shape"}))

        def _updated_ctor_param(self):
            d = super()._updated_ctor_param()
            d["data"] = self._data
            return d

    def method(w):
        def f(self, x, row):
            x, row = asarr(x), asarr(row)
            return npshim.elementwise(lambda v, r: F[w](term(r), real(v)), [x, row], "f")
        f.elementwise_contract = lambda self, v, r: F[w](term(r), real(v))
        return f
    for w in F:
        setattr(Rows, "_" + w, method(w))
    return Rows, F


def rows_obj(k, case):
    D = dims(k, case)
    Rows, F = row_kind(k)
    data = shaped(k, "data", D, (k.dim("n", 1),))
    return D, Rows, F, data


def position(k, D, extra=()):
    pos = tuple(ctx.int("e", 0) for _ in D)
    for v, s in zip(pos, D):
        k.pre(lt(v, s))
    return pos


@contract("C01 C06", "pdf_gen.rv_frozen_rows.__init__", cases=[c + q for c in CASES for q in ("", " rows given", " own points")])
def frozen_rows(k, case):
    """every distribution of the ensemble, and it alone, under its own position: evaluated at the point in its own row number"""
    case, _, q = case.partition(" ")
    D, Rows, F, data = rows_obj(k, case)
    N = prod(D)
    g = Rows(data)
    given = None
    if q == "rows given":
        given = k.ints("given", tuple(D) + (1,), lo=0, hi=N)
        fr = g.freeze(row=given)
    else:
        fr = Rows.create(data=data)
    k.ensure("number of distributions", eq(at(fr.npdf), N))
    k.shape_is("ensemble shape", fr.shape, D)
    k.ensure("number of axes", eq(at(fr.ndim), len(D)))
    k.ensure("made of the same data", fr.dist.objdata["data"] is data and fr.dist is not g)
    pos = position(k, D)
    r = row_of(pos, D) if given is None else at(given, *(pos + (0,)))
    nx = k.dim("nx", 1)
    x = k.real("x", (tuple(D) if q == "own points" else ()) + (nx,))
    j = ctx.int("j", 0)
    k.pre(lt(j, nx))
    xv = at(x, *((pos if q == "own points" else ()) + (j,)))
    for w in F:
        out = k.shape(w, getattr(fr, w)(x), tuple(D) + (nx,))
        want = F[w](term(r), real(xv))
        if w == "ppf":
            ctx.oblige("quantile of that row", Implies(And(lt(0, xv), lt(xv, 1)), eq(at(out, *(pos + (j,))), want)))
        else:
            k.ensure("%s of that row" % w, eq(at(out, *(pos + (j,))), want))
    out = k.shape("survival", fr.sf(x), tuple(D) + (nx,))
    k.ensure("survival is one minus the cumulative", eq(at(out, *(pos + (j,))), sub(1, F["cdf"](term(r), real(xv)))))
    one = k.real("x0", ())
    k.ensure("a single point", eq(at(k.shape("single", fr.pdf(one), tuple(D) + (1,)), *(pos + (0,))), F["pdf"](term(r), real(at(one)))))


class Analytic:
    """an analytic distribution as far as freezing it goes"""
    a, b = float("-inf"), float("inf")

    def __init__(self, **kw):
        pass

    def _updated_ctor_param(self):
        return {}


class Edges:
    """cumulatives of any distributions, asked at edges"""
    def __init__(self, D):
        self.D = D
        self.F = z3.Function("cdf", *([I] * len(D) + [R, R]))

    def cdf(self, x):
        x = asarr(x)
        f = x.snap()
        if x.ndim != 1:
            raise Unsupported("edges of another shape")
        return from_fn(tuple(self.D) + x.shape_, lambda i: self.F(*[term(v) for v in i[:-1]], real(f(i[-1:]))), "f")


def contents_are(k, out, bins, D, F, n):
    """edges as given; contents the differences of cumulatives; together the probability between the outermost edges"""
    bf = fn_of(bins)
    k.ensure("a pair", isinstance(out, tuple) and len(out) == 2)
    k.each_is("edges returned as given", out[0], (add(n, 1),), lambda j: bf(j))
    v = k.shape("contents", out[1], tuple(D) + (n,))
    pos, j = position(k, D), ctx.int("j", 0)
    k.pre(lt(j, n))
    c = lambda e: F(*[term(p) for p in pos], real(bf(e)))
    vf = fn_of(v)
    k.ensure("difference of the cumulative at consecutive edges", eq(vf(*(pos + (j,))), sub(c(add(j, 1)), c(j))))
    k.lemma("contents add up", 0, n, lambda m: eq(PSUM(lambda j: vf(*(pos + (j,))), m), sub(c(m), c(0))))
    k.ensure("together the probability between the outermost edges", eq(PSUM(lambda j: vf(*(pos + (j,))), n), sub(c(n), c(0))))


@contract("C06 C24", "pdf_gen.rv_frozen_rows.histogramize", cases=CASES)
def rows_histogramize(k, case):
    D, Rows, F, data = rows_obj(k, case)
    fr = Rows.create(data=data)
    n = k.dim("nbins", 1)
    bins = k.real("bins", (add(n, 1),))
    k.increasing(bins)
    contents_are(k, fr.histogramize(bins), bins, D, lambda *a: F["cdf"](term(row_of(a[:-1], D)), a[-1]), n)


@contract("C06 C24", "pdf_gen.rv_frozen_func.histogramize", cases=["rows"])
def func_histogramize(k, case):
    """also for the wrapped analytic distributions, whatever their parameters"""
    D = dims(k, case)
    loc, scale = k.real("loc", D + (1,)), k.real("scale", D + (1,))
    k.each(scale, lambda v, *i: lt(0, v))
    fr = k.mod("pdf_gen").rv_frozen_func(Analytic(), loc=loc, scale=scale)
    ed = Edges(D)
    asked = []
    fr.cdf = lambda x: asked.append(x) or ed.cdf(x)
    n = k.dim("nbins", 1)
    bins = k.real("bins", (add(n, 1),))
    k.increasing(bins)
    contents_are(k, fr.histogramize(bins), bins, D, ed.F, n)
    k.shape_is("ensemble shape", fr.shape, D)
    k.ensure("number of distributions", eq(at(fr.npdf), prod(D)))


@contract("C01", "pdf_gen.Pdf_rows_gen._rvs", cases=["rows", "one row"])
def rows_rvs(k, case):
    """samples of distribution i are its quantiles at uniform numbers of their own"""
    D, Rows, F, data = rows_obj(k, "rows")
    N = D[0]
    g = Rows(data)
    m = k.dim("m", 1)

    class Generator:
        asked = []

        def uniform(self, *a, **kw):
            if a or set(kw) - {"size"}:
                raise Unsupported("uniform numbers of another range")
            size = kw.get("size")
            shp = tuple(rawi(s) for s in size) if isinstance(size, tuple) else (rawi(size),)
            Generator.asked.append(shp)
            return k.real("uniform%d" % len(Generator.asked), shp)
    if case == "rows":
        row = k.ints("row", (N, 1), lo=0, hi=N)
        out = g.rvs(row=row, size=(wrap(N), wrap(m)), random_state=Generator())
        out = k.shape("a sample of each", out, (N, m))
        k.ensure("uniform numbers asked once", len(Generator.asked) == 1)
        U = z3.Function("uniform1", I, I, R)
        i, j = ctx.int("i", 0), ctx.int("j", 0)
        k.pre(And(lt(i, N), lt(j, m)))
        k.ensure("quantile of its own row at a number of its own", eq(at(out, i, j), F["ppf"](term(at(row, i, 0)), U(term(i), term(j)))))
    else:
        row = k.ints("row", (1, 1), lo=0, hi=N)
        out = k.shape("a sample", g.rvs(row=row, size=(1, wrap(m)), random_state=Generator()), (1, m))
        U = z3.Function("uniform1", I, I, R)
        j = ctx.int("j", 0)
        k.pre(lt(j, m))
        k.ensure("quantile of its own row at a number of its own", eq(at(out, 0, j), F["ppf"](term(at(row, 0, 0)), U(0, term(j)))))


@contract("C01", "pdf_gen.Pdf_rows_gen._argcheck")
def rows_argcheck(k):
    """exactly the rows the ensemble has are legal"""
    D, Rows, F, data = rows_obj(k, "rows")
    g = Rows(data)
    row = k.ints("row", (k.dim("m", 1),))
    out = asarr(g._argcheck(row))
    p = ctx.int("p", 0)
    k.pre(lt(p, row.shape_[0]))
    got = at(out, p)
    k.ensure("as many answers as rows", eq(prod(out.shape_), row.shape_[0]))
    k.ensure("legal exactly if there is such a row", eq(got, And(le(0, at(row, p)), lt(at(row, p), D[0]))))


# ------------------------------------------------------------------------------------------------ moments
HOME = dict(hist="hist_pdf.hist_gen", interp="interp_pdf.interp_gen", packed_interp="packed_interp_pdf.packed_interp_gen")


def moment_obj(k, kind):
    """an ensemble of the kind whose moments obey the contract of custom_generic_moment, and the m-th one of row i"""
    d, n, N = dict(hist=lambda: hist_obj(k, False), interp=lambda: interp_obj(k), packed_interp=lambda: packed_state(k))[kind]()[:3]
    M = z3.Function("moment", I, I, R)
    k.stub(HOME[kind] + ".custom_generic_moment", lambda self, m: from_fn((N,), lambda i: M(term(i[0]), term(m)), "f"))
    return d, N, lambda i, m: M(term(i), term(m))


@contract("C16", "pdf_gen.Pdf_rows_gen.moment", cases=["hist", "interp", "packed_interp"])
def moments_of_rows(k, kind):
    """moment, mean, variance and standard deviation of every row from the defining sums, in the order of the rows"""
    d, N, M = moment_obj(k, kind)
    k.mod("pdf_gen").Pdf_rows_gen._scipy_version_warning = lambda self: None
    row = from_fn((N, 1), lambda i: i[0], "i")
    for m in (1, 2, 3):
        k.each_is("moment %d" % m, d.moment(m, row=row), (N, 1), lambda i, j: M(i, m))
    k.each_is("mean", d.mean(row=row), (N, 1), lambda i, j: M(i, 1))
    var = lambda i, j: sub(M(i, 2), mul(M(i, 1), M(i, 1)))
    k.each_is("variance", d.var(row=row), (N, 1), var)
    k.each_is("standard deviation", d.std(row=row), (N, 1), lambda i, j: npshim.SQRT(real(var(i, j))))
    mv = d.stats(row=row)
    k.each_is("mean in stats", mv[0], (N, 1), lambda i, j: M(i, 1))
    k.each_is("variance in stats", mv[1], (N, 1), var)


@contract("C16", "hist_pdf.hist_gen._munp", cases=["hist", "interp"], again=lambda c: c != "hist")
def shifted_moments(k, kind):
    """moving the grid by s moves the mean by s and leaves the variance"""
    s = at(k.real("shift", ()))
    if kind == "hist":
        d, n, N, bf, hf, mass = hist_obj(k, False)
        bins2 = from_fn((add(n, 1),), lambda i: add(bf(i[0]), s), "f")
        h = from_fn((N, n), lambda i: hf(*i), "f")
        d2 = k.mod("hist_pdf").hist_gen(bins2, h, check_input=False)
        mid = lambda j: div(add(bf(j), bf(add(j, 1))), 2)
        mid2 = lambda j: div(add(add(bf(j), s), add(bf(add(j, 1)), s)), 2)
        P = lambda i, f: (lambda j: mul(f(j), mass(i)(j)))
        L = n
    else:
        d, n, N, xf, y = interp_obj(k)
        d2 = k.mod("interp_pdf").interp_gen(from_fn((n,), lambda i: add(xf(i[0]), s), "f"), from_fn((N, n), lambda i: y(*i), "f"), check_input=False)
        mid, mid2 = xf, lambda j: add(xf(j), s)
        cell = lambda g: (lambda j: mul(mul(sub(xf(add(j, 1)), xf(j)), 0.5), add(g(add(j, 1)), g(j))))
        P = lambda i, f: cell(lambda j: mul(f(j), y(i, j)))
        L = sub(n, 1)
    i = ctx.int("i", 0)
    k.pre(lt(i, N))
    one = lambda j: 1
    sq = lambda f: (lambda j: mul(f(j), f(j)))
    # any five sums so related as is shown below, as the contract of custom_generic_moment has them for row i
    v = {nm: z3.Real(nm) for nm in ("m0", "m1", "m2", "s1", "s2")}
    ctx.assume(And(v["m0"] == 1, v["s1"] == v["m1"] + term(s) * v["m0"], v["s2"] == v["m2"] + 2 * term(s) * v["m1"] + term(s) * term(s) * v["m0"]))
    other = z3.Function("of_other_rows", B, I, I, R)
    k.stub(HOME[kind] + ".custom_generic_moment", lambda self, m: from_fn((N,), lambda r: ite(eq(r[0], i), v["ms"[self is not d] + str(m)], other(self is d, term(m), term(r[0]))), "f"))
    row = from_fn((N, 1), lambda i: i[0], "i")
    m1, m2, v1, v2 = (at(k.shape("summary", f(row=row), (N, 1)), i, 0) for f in (d.mean, d2.mean, d.var, d2.var))
    k.ensure("mean moves along", eq(m2, add(m1, s)))
    k.ensure("variance stays", eq(v2, v1))
    # the sums of the two grids
    T = {nm: P(i, f) for nm, f in dict(m0=one, m1=mid, m2=sq(mid), s1=mid2, s2=sq(mid2)).items()}
    k.linear("first moments", T["s1"], [(1, T["m1"]), (s, T["m0"])], L)
    k.linear("second moments", T["s2"], [(1, T["m2"]), (mul(2, s), T["m1"]), (mul(s, s), T["m0"])], L)
    S = {nm: PSUM(f, L) for nm, f in T.items()}
    k.ensure("total", eq(S["m0"], 1))
    k.ensure("total", eq(S["m0"], 1))
