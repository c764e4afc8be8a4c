"""Contracts of the metrics."""
from .api import *
from . import npshim, load
from .npshim import LOG, SQRT
from .c_dist import PSUM
from .c_ens import refused

VAL = {}


class Ens:
    """an ensemble of which only the contracts of its own evaluation functions are known: value (row, point)"""
    def __init__(self, k, name, N, unit=False):
        self.k, self.name, self.N = k, ctx.prefix + name, N
        self.shape = (wrap(N),)
        self.calls = []

    @property
    def npdf(self):
        return wrap(self.N)

    def fn(self, what):
        return z3.Function("%s_%s" % (self.name, what), I, R, R)

    def value(self, what):
        f = self.fn(what)
        return lambda r, x: f(term(r), real(x))

    def _eval(self, what, x):
        x = asarr(x)
        f, xf, N = self.fn(what), x.snap(), self.N
        ctx.use("Ensemble.%s by its contract: value of every distribution at each of its points" % what)
        if x.ndim == 0:
            return from_fn((N, 1), lambda i: f(term(i[0]), real(xf(()))), "f")
        if x.ndim == 1:
            return from_fn((N, x.shape_[0]), lambda i: f(term(i[0]), real(xf((i[1],)))), "f")
        if x.ndim == 2:
            M = x.shape_[0]
            if M is N or ctx.branch(eq(M, N)):
                return from_fn((N, x.shape_[1]), lambda i: f(term(i[0]), real(xf(i))), "f")
            if ctx.branch(eq(N, 1)):
                return from_fn(x.shape_, lambda i: f(z3.IntVal(0), real(xf(i))), "f")
            if ctx.branch(eq(M, 1)):
                return from_fn((N, x.shape_[1]), lambda i: f(term(i[0]), real(xf((0, i[1])))), "f")
            raise ValueError("shapes of the points and of the ensemble do not match")
        raise Unsupported("points of rank %d" % x.ndim)

    def pdf(self, x): return self._eval("pdf", x)
    def cdf(self, x): return self._eval("cdf", x)
    def ppf(self, x): return self._eval("ppf", x)
    def sf(self, x): return self._eval("sf", x)
    def logcdf(self, x): return self._eval("logcdf", x)
    def logsf(self, x): return self._eval("logsf", x)

    def gridded(self, grid):
        return (grid, self.pdf(grid))

    def rvs(self, size=None, random_state=None):
        s = rawi(size)
        self.calls.append(random_state)
        f = z3.Function("%s_rvs" % self.name, I, I, R)
        return from_fn((self.N, s), lambda i: f(term(i[0]), term(i[1])), "f")

    def __getitem__(self, i):
        e = Ens(self.k, self.name, 1)
        r, base = rawi(i), self

        class Row(Ens):
            def fn(self, what):
                f = base.fn(what)
                return lambda q, x: f(term(r), x)
        e.__class__ = Row
        return e


def pair(k, n=None, N=None):
    N, n = N if N is not None else k.dim("N", 1), n if n is not None else k.dim("n", 1)
    return N, n, k.real("p", (N, n)), k.real("q", (N, n))


def slog(k, v):
    """log of v, or of the threshold"""
    eps = term(real(k.mod("utils").epsilon))
    return LOG(z3.If(eps < real(v), real(v), eps))


# ------------------------------------------------------------------------------------------------ grid metrics
@contract("C17 C24", "utils.safelog")
def safelog(k):
    n = k.dim("n", 0)
    a = k.real("a", (n,))
    f = fn_of(a)
    k.each_is("log of the value or of the threshold", k.mod("utils").safelog(a), (n,), lambda i: slog(k, f(i)))


@contract("C17 C24", "metrics.array_metrics.quick_kld", cases=["rows", "one"])
def quick_kld(k, case):
    N, n, p, q = pair(k)
    dx = k.real("dx", ())
    if case == "one":
        p, q = k.real("p1", (n,)), k.real("q1", (n,))
    out = k.mod("metrics.array_metrics").quick_kld(p, q, dx)
    pf, qf, h = fn_of(p), fn_of(q), at(dx)
    term_ = lambda *i: mul(pf(*i), sub(slog(k, pf(*i)), slog(k, qf(*i))))
    if case == "one":
        k.ensure("step times the sum of p log(p/q)", eq(at(out), mul(h, PSUM(lambda j: term_(j), n))))
    else:
        k.each_is("step times the sum of p log(p/q)", out, (N,), lambda i: mul(h, PSUM(lambda j: term_(i, j), n)))
        same = k.mod("metrics.array_metrics").quick_kld(p, p, dx)
        k.each_is("zero with itself", same, (N,), lambda i: 0)


@contract("C17 C24", "metrics.array_metrics.quick_moment", cases=["rows", "one"])
def quick_moment(k, case):
    N, n = k.dim("N", 1), k.dim("n", 1)
    p, g, dx = k.real("p", (N, n) if case == "rows" else (n,)), k.real("g", (n,)), k.real("dx", ())
    pf, gf, h = fn_of(p), fn_of(g), at(dx)
    out = k.mod("metrics.array_metrics").quick_moment(p, g, dx)
    if case == "one":
        k.ensure("step times the sum", eq(at(out), mul(h, PSUM(lambda j: mul(pf(j), gf(j)), n))))
    else:
        k.each_is("step times the sum", out, (N,), lambda i: mul(h, PSUM(lambda j: mul(pf(i, j), gf(j)), n)))


@contract("C17 C24", "metrics.array_metrics.quick_rmse", cases=["rows", "one"])
def quick_rmse(k, case):
    N, n, p, q = pair(k)
    m = k.dim("m", 1)
    if case == "one":
        p, q = k.real("p1", (n,)), k.real("q1", (n,))
    pf, qf = fn_of(p), fn_of(q)
    mod = k.mod("metrics.array_metrics")
    out, back = mod.quick_rmse(p, q, wrap(m)), mod.quick_rmse(q, p, wrap(m))
    d = lambda *i: sub(pf(*i), qf(*i))
    val = lambda *i: SQRT(real(div(PSUM(lambda j: mul(d(*(i + (j,))), d(*(i + (j,)))), n), m)))
    if case == "one":
        k.ensure("root mean square difference", eq(at(out), val()))
        k.ensure("symmetric", eq(at(out), at(back)))
    else:
        k.each_is("root mean square difference", out, (N,), val)
        i = ctx.int("r", 0)
        k.pre(lt(i, N))
        k.ensure("symmetric", eq(at(out, i), at(back, i)))
        k.each_is("zero for identical values", mod.quick_rmse(p, p, wrap(m)), (N,), lambda i: 0)


def limits(k):
    """limits a < b and a step which gives at least two grid points"""
    a, b, dx = k.real("a", ()), k.real("b", ()), k.real("dx", ())
    av, bv, h = at(a), at(b), at(dx)
    k.pre(And(lt(av, bv), lt(0, h)))
    k.pre(le(mul(2, h), sub(bv, av)))
    n = to_int(div(sub(bv, av), h))
    step = div(sub(bv, av), sub(n, 1))
    return (a, b), dx, av, bv, n, step


@contract("C17 C18 C24", "metrics.metrics._calculate_grid_parameters")
def grid_parameters(k):
    lim, dx, a, b, n, step = limits(k)
    g = k.mod("metrics.metrics")._calculate_grid_parameters(lim, dx)
    k.ensure("at least two points", le(2, n))
    k.ensure("number of points", eq(rawi(g.cardinality), n))
    k.ensure("spacing", eq(rawi(g.resolution), step))
    k.each_is("evenly spaced from one limit to the other", g.grid_values, (n,), lambda j: add(a, mul(j, step)))
    k.each_is("cell edges half a step around the points", g.hist_bin_edges, (add(n, 1),), lambda j: add(a, mul(sub(j, z3.RealVal("1/2")), step)))
    k.ensure("limits kept", g.limits is lim)


def grid_stub(k):
    """contract of _calculate_grid_parameters"""
    lim, dx = (k.real("a", ()), k.real("b", ())), k.real("dx", ())
    n, step = k.dim("npoints", 2), at(k.real("step", ()))
    a, b = at(lim[0]), at(lim[1])
    k.pre(And(lt(a, b), lt(0, step), eq(add(a, mul(sub(n, 1), step)), b)))
    m = k.mod("metrics.metrics")
    x = lambda j: add(a, mul(j, step))
    e = lambda j: add(a, mul(sub(j, z3.RealVal("1/2")), step))

    def grid(l, h=0.01):
        k.ensure("grid of these limits", And(eq(at(l[0]), a), eq(at(l[1]), b), eq(at(h), at(dx))), "pre")
        gv, he = from_fn((n,), lambda i: x(i[0]), "f"), from_fn((add(n, 1),), lambda i: e(i[0]), "f")
        return m.Grid(gv, wrap(n), wrap(step), he, l)
    k.stub("metrics.metrics._calculate_grid_parameters", grid)
    return lim, dx, a, b, n, step, x, e


def make(k, cls, **kw):
    return getattr(k.mod("metrics.concrete_metric_classes"), cls)(**kw)


@contract("C17 C24", "metrics.metrics.calculate_moment", cases=["function", "metric"])
def calculate_moment(k, how):
    lim, dx, a, b, n, step, x, e = grid_stub(k)
    p, order = Ens(k, "p", k.dim("N", 1)), k.ints("order", (), lo=0)
    if how == "function":
        out = k.mod("metrics.metrics").calculate_moment(p, order, lim, dx)
    else:
        out = make(k, "MomentMetric", moment_order=order, limits=lim, dx=dx).evaluate(p)
    f, o = p.value("pdf"), at(order)
    from .sym import power
    k.each_is("step times the sum of density times power", out, (p.N,), lambda i: mul(step, PSUM(lambda j: mul(f(i, x(j)), power(x(j), o)), n)))


@contract("C17 C24", "metrics.metrics.calculate_kld", cases=["function", "metric"])
def calculate_kld(k, how):
    lim, dx, a, b, n, step, x, e = grid_stub(k)
    N = k.dim("N", 1)
    p, q = Ens(k, "p", N), Ens(k, "q", N)

    def quick(pe, qe, dx=0.01):
        # contract of quick_kld
        pf, qf, m = fn_of(pe), fn_of(qe), asarr(pe).shape_[-1]
        return from_fn((N,), lambda i: mul(at(dx), PSUM(lambda j: mul(pf(i[0], j), sub(slog(k, pf(i[0], j)), slog(k, qf(i[0], j)))), m)), "f")
    k.stub("metrics.array_metrics.quick_kld", quick)
    out = k.mod("metrics.metrics").calculate_kld(p, q, lim, dx) if how == "function" else make(k, "KLDMetric", limits=lim, dx=dx).evaluate(p, q)
    P, Q = p.value("pdf"), q.value("pdf")
    val = lambda i: mul(step, PSUM(lambda j: mul(P(i, x(j)), sub(slog(k, P(i, x(j))), slog(k, Q(i, x(j))))), n))
    eps = real(k.mod("utils").epsilon)
    anyneg = npshim.Any(lambda i: lt(val(i), 0.0), N)
    k.each_is("step times the sum of p log(p/q), or the tiny threshold for all when any is negative", out, (N,), lambda i: ite(anyneg, eps, val(i)))


@contract("C17 C24", "metrics.metrics.calculate_rmse", cases=["function", "metric"])
def calculate_rmse(k, how):
    lim, dx, a, b, n, step, x, e = grid_stub(k)
    N = k.dim("N", 1)
    p, q = Ens(k, "p", N), Ens(k, "q", N)
    out = k.mod("metrics.metrics").calculate_rmse(p, q, lim, dx) if how == "function" else make(k, "RMSEMetric", limits=lim, dx=dx).evaluate(p, q)
    P, Q = p.value("pdf"), q.value("pdf")
    d = lambda i, j: sub(P(i, x(j)), Q(i, x(j)))
    k.each_is("root mean square difference over the grid", out, (N,), lambda i: SQRT(real(div(PSUM(lambda j: mul(d(i, j), d(i, j)), n), n))))


@contract("C17", "metrics.metrics.calculate_kld", cases=["refuses kld", "refuses rmse"])
def grid_refuses(k, which):
    """ensembles of different sizes are refused"""
    lim, dx, *_ = grid_stub(k)
    N, M = k.dim("N", 1), k.dim("M", 1)
    k.pre(Not(eq(N, M)))
    m = k.mod("metrics.metrics")
    refused(k, lambda: getattr(m, "calculate_" + which.split()[1])(Ens(k, "p", N), Ens(k, "q", M), lim, dx), ValueError)


# ------------------------------------------------------------------------------------------------ Brier score
def cellof(e, n, t, j):
    """the truth t lies in cell j: [e_j, e_(j+1)), the last one closed"""
    return And(le(e(j), t), Or(lt(t, e(add(j, 1))), And(eq(j, sub(n, 1)), eq(t, e(add(j, 1))))))


def brier_row(V, e, x, n, t):
    """squared distance of each gridded density to the indicator of the cell of its truth"""
    def row(i):
        d = lambda j: sub(V(i, x(j)), num(cellof(e, n, t(i), j)))
        return PSUM(lambda j: mul(d(j), d(j)), n)
    return row


@contract("C18 C24", "metrics.brier.Brier.evaluate", cases=["evaluate", "accumulate"])
def brier(k, how):
    N, n, p, q = pair(k)
    b = k.mod("metrics.brier").Brier(p, q)
    out = b.evaluate() if how == "evaluate" else b.accumulate()
    pf, qf = fn_of(p), fn_of(q)
    d = lambda i, j: sub(pf(i, j), qf(i, j))
    tot = PSUM(lambda i: PSUM(lambda j: mul(d(i, j), d(i, j)), n), N)
    k.ensure("summed squared differences" if how == "accumulate" else "mean over the rows", eq(at(out), tot if how == "accumulate" else div(tot, N)))


def brier_call(k, how, p, t, lim, dx):
    if how == "function":
        return k.mod("metrics.metrics").calculate_brier(p, t, lim, dx)
    if how == "metric":
        return make(k, "BrierMetric", limits=lim, dx=dx).evaluate(p, t)
    if how == "accumulate":
        return make(k, "BrierMetric", limits=lim, dx=dx).accumulate(p, t)
    return k.mod("metrics.metrics").calculate_brier_for_accumulation(p, t, lim, dx)


@contract("C18 C24", "metrics.metrics.calculate_brier", cases=["function", "metric", "accumulate", "accumulation function"])
def calculate_brier(k, how):
    lim, dx, a, b, n, step, x, e = grid_stub(k)
    N = k.dim("N", 1)
    p, t = Ens(k, "p", N), k.real("truth", (N,))
    k.each(t, lambda v, i: And(le(a, v), le(v, b)))
    out = brier_call(k, how, p, t, lim, dx)
    tot = PSUM(brier_row(p.value("pdf"), e, x, n, fn_of(t)), N)
    if how.startswith("accumul"):
        k.ensure("sum over the distributions", eq(at(out[0]), tot))
        k.ensure("number of distributions", eq(at(out[1]), N))
    else:
        k.ensure("mean over the distributions", eq(at(out), div(tot, N)))


@contract("C18", "metrics.metrics._prepare_for_brier", cases=[a + b for a in ("function", "accumulation function") for b in (": truth below", ": truth above", ": wrong number")])
def brier_refuses(k, case):
    how, what = case.split(": ")
    lim, dx, a, b, n, step, x, e = grid_stub(k)
    N, M = k.dim("N", 1), k.dim("M", 1)
    t = k.real("truth", (M,))
    f = fn_of(t)
    if what == "wrong number":
        k.pre(Not(eq(N, M)))
        k.each(t, lambda v, i: And(le(a, v), le(v, b)))
    else:
        k.pre(eq(N, M))
        i = ctx.int("bad", 0)
        k.pre(And(lt(i, M), lt(f(i), a) if what == "truth below" else lt(b, f(i))))
    refused(k, lambda: brier_call(k, how, Ens(k, "p", N), t, lim, dx), ValueError)


# ------------------------------------------------------------------------------------------------ chunks
def chunks(k, m):
    """m chunks of sizes size(c) >= 1 starting at off(c); returns (off, size)"""
    off, size = z3.Function("off", I, I), z3.Function("chunk_size", I, I)
    k.pre(off(0) == 0)
    ctx.forall(1, lambda c: Implies(And(le(0, c), lt(c, m)), And(le(1, size(c)), off(c + 1) == off(c) + size(c), le(0, off(c)))), "chunks")
    return off, size


def sum_splits(k, name, g, top):
    """the sum over the first a + b is that over the first a and that over the b from there: by induction on b"""
    a = z3.Int(ctx.name("first"))
    k.pre(a >= 0)
    P = lambda b: eq(PSUM(g, add(a, b)), add(PSUM(g, a), PSUM(lambda j: g(add(a, j)), b)))
    ctx.oblige("%s: split of a sum, base" % name, P(z3.IntVal(0)), "lemma")
    b = ctx.int("ind", 0)
    ctx.oblige("%s: split of a sum, step" % name, Implies(P(b), P(add(b, 1))), "lemma")
    return lambda a_, b_: eq(PSUM(g, add(a_, b_)), add(PSUM(g, a_), PSUM(lambda j: g(add(a_, j)), b_)))


def total_of_chunks(k, name, g, off, size, m):
    """the chunks' sums add up to the sum over all objects: by induction over the chunks"""
    split = sum_splits(k, name, g, None)
    part = lambda c: PSUM(lambda j: g(add(off(c), j)), size(c))
    P = lambda c: eq(PSUM(part, c), PSUM(g, off(c)))
    ctx.oblige("%s: sum of no chunk" % name, P(z3.IntVal(0)), "lemma")
    c = ctx.int("chunk", 0)
    k.pre(lt(c, m))
    ctx.oblige("%s: one more chunk" % name, Implies(And(P(c), split(off(c), size(c)), eq(off(add(c, 1)), add(off(c), size(c)))), P(add(c, 1))), "lemma")
    k.pre(P(m))
    return part


@contract("C18", "metrics.concrete_metric_classes.BrierMetric.finalize", cases=["list of tuples"])
def brier_chunks(k, case):
    """the tuples of any number of chunks give the value for all objects together"""
    m = k.dim("nchunks", 1)
    off, size = chunks(k, m)
    G = z3.Function("score", I, R)
    g = lambda i: G(term(i))
    part = total_of_chunks(k, "score", g, off, size, m)
    num_ = total_of_chunks(k, "number", lambda i: z3.RealVal(1), off, size, m)
    tuples = load.SymList(m, lambda c: (wrap(part(c)), wrap(size(term(c)))))
    out = make(k, "BrierMetric").finalize(tuples)
    k.ensure("mean over all objects", eq(at(out), div(PSUM(g, off(m)), off(m))))


# ------------------------------------------------------------------------------------------------ CDE loss
def cde_parts(k, V, x, n, t):
    """squared-density integral and density at the grid point nearest the truth, of one object"""
    square = lambda i: PSUM(lambda j: mul(sub(x(add(j, 1)), x(j)), div(add(mul(V(i, x(j)), V(i, x(j))), mul(V(i, x(add(j, 1))), V(i, x(add(j, 1))))), 2)), sub(n, 1))
    near = lambda i: V(i, x(functional("argmin", lambda j: absval(sub(x(j), t(i))), n, sort=I)))
    return square, near


@contract("C18 C24", "metrics.concrete_metric_classes.CDELossMetric.evaluate", cases=["evaluate", "accumulate"])
def cde(k, how):
    n, N = k.dim("n", 2), k.dim("N", 1)
    xs, t = k.real("xvals", (n,)), k.real("truth", (N,))
    p = Ens(k, "p", N)
    m = make(k, "CDELossMetric", eval_grid=xs)
    out = getattr(m, how)(p, t)
    x, tf = fn_of(xs), fn_of(t)
    square, near = cde_parts(k, p.value("pdf"), x, n, tf)
    T1, T2 = PSUM(square, N), PSUM(near, N)
    if how == "evaluate":
        k.ensure("mean squared integral minus twice the mean density at the truth", eq(at(out), sub(div(T1, N), mul(2, div(T2, N)))))
    else:
        k.ensure("summed squared integrals", eq(at(out[0]), T1))
        k.ensure("summed densities at the truths", eq(at(out[1]), T2))
        k.ensure("number of distributions", eq(at(out[2]), N))
    # the grid point used is a nearest one
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    w = functional("argmin", lambda j: absval(sub(x(j), tf(i))), n, sort=I)
    k.ensure("no grid point is nearer to the truth", le(absval(sub(x(w), tf(i))), absval(sub(x(j), tf(i)))))


@contract("C18", "metrics.concrete_metric_classes.CDELossMetric.finalize", cases=["list of tuples"])
def cde_chunks(k, case):
    """the tuples of any number of chunks give the value for all objects together"""
    m = k.dim("nchunks", 1)
    off, size = chunks(k, m)
    gs = []
    for nm in ("square", "near"):
        G = z3.Function(nm, I, R)
        gs.append(lambda i, G=G: G(term(i)))
    parts = [total_of_chunks(k, nm, g, off, size, m) for nm, g in zip(("square", "near"), gs)]
    total_of_chunks(k, "number", lambda i: z3.RealVal(1), off, size, m)
    tuples = load.SymList(m, lambda c: (wrap(parts[0](c)), wrap(parts[1](c)), wrap(size(term(c)))))
    out = make(k, "CDELossMetric").finalize(tuples)
    T1, T2 = PSUM(gs[0], off(m)), PSUM(gs[1], off(m))
    k.ensure("value for all objects", eq(at(out), sub(div(T1, off(m)), mul(2, div(T2, off(m))))))


# ------------------------------------------------------------------------------------------------ goodness of fit
def samples(k, d, n):
    """j-th smallest sample of a row"""
    f = fn_of(d)
    return lambda i: (lambda j: functional("sort", lambda q: f(i, q), n, extra=(j,)))


def half(v):
    return div(v, 2)


@contract("C19 C24", "metrics.goodness_of_fit._kolmogorov_smirnov", cases=["each its own reference", "one reference"], again=False)
def ks(k, how):
    N, n = k.dim("N", 1), k.dim("n", 1)
    d = k.real("data", (N, n))
    dist = Ens(k, "ref", N if how.startswith("each") else 1)
    out = k.mod("metrics.goodness_of_fit")._kolmogorov_smirnov(dist, d)
    F, x, r = dist.value("cdf"), samples(k, d, n), (lambda i: i) if how.startswith("each") else (lambda i: 0)
    out = k.shape("one value per distribution", out, (N,))
    i = ctx.int("i", 0)
    k.pre(lt(i, N))
    f = lambda j: F(r(i), x(i)(j))
    v = at(out, i)
    up = npshim.Max(lambda j: sub(div(add(j, 1), n), f(j)), n)
    down = npshim.Max(lambda j: sub(f(j), div(j, n)), n)
    k.ensure("largest distance of the empirical and the reference distribution", eq(v, z3.If(real(up) >= real(down), real(up), real(down))))
    j = ctx.int("j", 0)
    k.pre(lt(j, n))
    k.ensure("at least every distance above", le(sub(div(add(j, 1), n), f(j)), v))
    k.ensure("at least every distance below", le(sub(f(j), div(j, n)), v))
    k.step("at least half a step", le(div(1, mul(2, n)), v))


@contract("C19", "metrics.goodness_of_fit._kolmogorov_smirnov", cases=["upper bound"])
def ks_bound(k, how):
    """at most one, as the reference cdf is between zero and one"""
    n = k.dim("n", 1)
    c = k.real("cdfvals", (n,))
    k.each(c, lambda v, i: And(le(0, v), le(v, 1)))
    m = k.mod("metrics.goodness_of_fit")
    k.ensure("distance above", le(at(m._compute_dplus(c)), 1))
    k.ensure("distance below", le(at(m._compute_dminus(c)), 1))


@contract("C19 C24", "metrics.goodness_of_fit._cramer_von_mises", cases=["each its own reference", "one reference"])
def cvm(k, how):
    N, n = k.dim("N", 1), k.dim("n", 1)
    d = k.real("data", (N, n))
    dist = Ens(k, "ref", N if how.startswith("each") else 1)
    out = k.mod("metrics.goodness_of_fit")._cramer_von_mises(dist, d)
    F, x, r = dist.value("cdf"), samples(k, d, n), (lambda i: i) if how.startswith("each") else (lambda i: 0)

    def total(i):
        e = lambda j: sub(div(add(mul(2, j), 1), mul(2, n)), F(r(i), x(i)(j)))
        return PSUM(lambda j: mul(e(j), e(j)), n)
    k.each_is("textbook statistic", out, (N,), lambda i: add(div(1, mul(12, n)), total(i)))
    i = ctx.int("i", 0)
    k.pre(lt(i, N))
    k.ensure("at least its minimum", le(div(1, mul(12, n)), at(out, i)))


@contract("C19 C24", "metrics.goodness_of_fit._anderson_darling", cases=["each its own reference", "one reference"])
def ad(k, how):
    N, n = k.dim("N", 1), k.dim("n", 1)
    d = k.real("data", (N, n))
    dist = Ens(k, "ref", N if how.startswith("each") else 1)
    out = k.mod("metrics.goodness_of_fit")._anderson_darling(dist, d)
    F, S, x, r = dist.value("logcdf"), dist.value("logsf"), samples(k, d, n), (lambda i: i) if how.startswith("each") else (lambda i: 0)
    tot = lambda i: PSUM(lambda j: mul(div(add(mul(2, j), 1), n), add(F(r(i), x(i)(j)), S(r(i), x(i)(sub(sub(n, 1), j))))), n)
    k.each_is("textbook statistic", out, (N,), lambda i: sub(sub(0, n), tot(i)))


GOF = dict(ad="_anderson_darling", cvm="_cramer_von_mises", ks="_kolmogorov_smirnov")


@contract("C19", "metrics.metrics.calculate_goodness_of_fit", cases=[a + b for a in ("ad", "cvm", "ks") for b in (": each its own reference", ": one reference")] + ["unknown", "different sizes"])
def gof(k, case):
    """the statistic of that name for samples of the estimate against the reference"""
    N = k.dim("N", 1)
    M = N if "each" in case else k.dim("M", 1) if case in ("unknown", "different sizes") else 1
    est, ref = Ens(k, "est", N), Ens(k, "ref", M)
    n, seed, m = k.dim("nsamples", 1), object(), k.mod("metrics.metrics")
    if case == "unknown":
        refused(k, lambda: m.calculate_goodness_of_fit(est, ref, fit_metric="nosuch", num_samples=wrap(n), _random_state=seed), KeyError)
        return
    if case == "different sizes":
        k.pre(And(lt(1, N), lt(1, M), Not(eq(N, M))))
        for name in GOF:
            refused(k, lambda: m.calculate_goodness_of_fit(est, ref, fit_metric=name, num_samples=wrap(n), _random_state=seed), ValueError)
        return
    name = case.split(":")[0]
    got = []

    def stat(dist, data):
        got.append((dist, data))
        return "value"
    tab = m.goodness_of_fit_metrics
    k.ensure("the registered statistics", set(tab) == set(GOF))
    own = tab[name] is getattr(k.mod("metrics.goodness_of_fit"), GOF[name])
    k.ensure("the statistic of that name", own)
    old = dict(tab)
    try:
        tab[name] = stat
        for how in ("function", "metric"):
            del got[:]
            est.calls.clear()
            if how == "function":
                out = m.calculate_goodness_of_fit(est, ref, fit_metric=name, num_samples=wrap(n), _random_state=seed)
            else:
                cls = dict(ad="ADMetric", cvm="CvMMetric", ks="KSMetric")[name]
                out = make(k, cls, num_samples=wrap(n), _random_state=seed).evaluate(est, ref)
            k.ensure("%s: the statistic's value against the reference" % how, out == "value" and len(got) == 1 and got[0][0] is ref)
            f = z3.Function("est_rvs", I, I, R)
            k.each_is("%s: samples of the estimate" % how, got[0][1], (N, n), lambda i, j: f(term(i), term(j)))
            k.ensure("%s: with the random state" % how, est.calls == [seed])
    finally:
        tab.clear()
        tab.update(old)


# ------------------------------------------------------------------------------------------------ point estimates
def point(k, cls, **kw):
    return getattr(k.mod("metrics.point_estimate_metric_classes"), cls)(**kw)


DIGESTERS = {"PointSigmaIQR": 1, "PointBias": 1, "PointOutlierRate": 1, "PointSigmaMAD": 1}


def errors(k, n):
    """estimates, truths, and e = (estimate - truth) / (1 + truth)"""
    a, t = k.real("estimate", (n,)), k.real("truth", (n,))
    k.each(t, lambda v, i: Not(eq(add(1, v), 0)))
    f, g = fn_of(a), fn_of(t)
    return a, t, lambda i: div(sub(f(i), g(i)), add(1, g(i)))


def stat(name, e, n, *q):
    return functional("stat_" + name, e, n, extra=tuple(real(x) for x in q))


def iqr(e, n):
    return div(sub(stat("percentile", e, n, 75.0), stat("percentile", e, n, 25.0)), z3.RealVal("1.349"))


def biggest(a, b):
    return z3.If(real(a) >= real(b), real(a), real(b))


@contract("C20 C24", "metrics.point_estimate_metric_classes", cases=["PointStatsEz", "PointSigmaIQR", "PointBias", "PointOutlierRate", "PointSigmaMAD"])
def point_evaluate(k, cls):
    """the value of each point metric over the whole sample, from the errors"""
    n = k.dim("n", 1)
    a, t, e = errors(k, n)
    out = point(k, cls).evaluate(a, t)
    if cls == "PointStatsEz":
        k.each_is("the errors", out, (n,), e)
    elif cls == "PointSigmaIQR":
        k.ensure("interquartile range over 1.349", eq(at(out), iqr(e, n)))
    elif cls == "PointBias":
        k.ensure("median of the errors", eq(at(out), stat("median", e, n)))
    elif cls == "PointSigmaMAD":
        med = stat("median", e, n)
        k.ensure("1.4826 times the median distance to the median", eq(at(out), mul(z3.RealVal("1.4826"), stat("median", lambda i: absval(sub(e(i), med)), n))))
    else:
        cut = biggest(z3.RealVal("0.06"), mul(3, iqr(e, n)))
        k.ensure("fraction beyond the cut", eq(at(out), div(npshim.Count(lambda i: lt(cut, absval(e(i))), n), n)))


@contract("C20 C24", "metrics.point_estimate_metric_classes.PointToPointMetricDigester.accumulate", cases=["PointSigmaIQR", "PointBias", "PointOutlierRate", "PointSigmaMAD"])
def point_accumulate(k, cls):
    """the centroids of a chunk carry weight one at every error of the chunk"""
    n = k.dim("n", 1)
    a, t, e = errors(k, n)
    comp = k.dim("compression", 20)
    m = point(k, cls, tdigest_compression=wrap(comp))
    made = []
    T = sshim.TDigest
    k.mod("lazy_modules").pytdigest.TDigest = type("T", (T,), dict(compute=staticmethod(lambda *q, **w: made.append(T.compute(*q, **w)) or made[-1])))
    out = m.accumulate(a, t)
    k.ensure("one digest", len(made) == 1)
    k.ensure("with the compression asked for", eq(rawi(made[0].compression), comp))
    v = at(k.real("v", ()))
    for link in ctx.digest_links:
        k.pre(link(v))
    o = k.shape("centroids", out, (at_dim(out, 0), 2))
    k.ensure("weight at every value", eq(PSUM(lambda r: mul(num(eq(at(o, r, 0), v)), at(o, r, 1)), o.shape_[0]), PSUM(lambda i: num(eq(e(i), v)), n)))


def at_dim(a, d):
    return asarr(a).shape_[d]


def merged(k, m, comp):
    """finalize hands over one digest with, at every value, the weight of all the objects of all the chunks"""
    nch = k.dim("nchunks", 1)
    off, size = chunks(k, nch)
    G, v = z3.Function("e", I, R), at(k.real("v", ()))
    g = lambda i: num(eq(G(term(i)), v))
    part = total_of_chunks(k, "weight", g, off, size, nch)
    rows, cent = z3.Function("rows", I, I), z3.Function("cent", I, I, I, R)
    inner = lambda c: PSUM(lambda r: mul(num(eq(cent(term(c), term(r), z3.IntVal(0)), v)), cent(term(c), term(r), z3.IntVal(1))), rows(term(c)))
    # contract of accumulate, for every chunk
    ctx.forall(1, lambda c: Implies(And(le(0, c), lt(c, nch)), And(le(0, rows(term(c))), eq(inner(c), part(c)))), "chunk digests")
    some = ctx.int("some", 0)               # there are objects
    k.pre(And(lt(some, nch), lt(0, rows(some))))
    ctx.hint(some)
    k.lemma("weights of the chunks", 0, nch, lambda c: eq(PSUM(inner, c), PSUM(part, c)))
    parts = load.SymList(nch, lambda c: from_fn((rows(term(c)), 2), lambda i: cent(term(c), term(i[0]), term(i[1])), "f"))
    got = []
    m.compute_from_digest = lambda d: got.append(d) or d
    out = m.finalize(parts)
    k.ensure("evaluated on one digest", len(got) == 1 and out is got[0])
    k.ensure("with the compression asked for", eq(rawi(got[0].compression), comp))
    k.ensure("weight of all objects", eq(got[0].mass(v), PSUM(g, off(nch))))


@contract("C20", "metrics.point_estimate_metric_classes.PointToPointMetricDigester.finalize", cases=["PointSigmaIQR", "PointBias", "PointOutlierRate", "PointSigmaMAD"])
def point_finalize(k, cls):
    comp = k.dim("compression", 20)
    merged(k, point(k, cls, tdigest_compression=wrap(comp)), comp)


@contract("C20", "metrics.base_metric_classes.PointToPointMetric.eval_from_iterator", cases=["PointSigmaIQR", "PointBias", "PointOutlierRate", "PointSigmaMAD"])
def point_iterate(k, cls):
    """every chunk is accumulated, and finalize is given all of them in order"""
    nch = k.dim("nchunks", 1)
    est, ref, size = z3.Function("est", I, I, R), z3.Function("ref", I, I, R), z3.Function("size", I, I)
    lst = lambda f: load.SymList(nch, lambda c: from_fn((size(term(c)),), lambda i: f(term(c), term(i[0])), "f"))
    m = point(k, cls)
    pairing = z3.Function("accumulated", R, R, R)
    m.accumulate = lambda a, b: elementwise(lambda x, y: pairing(real(x), real(y)), [a, b], "f")
    got = []
    m.finalize = lambda c: got.append(load.sequence(c)) or "value"
    out = m.eval_from_iterator(lst(est), lst(ref))
    k.ensure("the value finalize gives", out == "value" and len(got) == 1)
    k.ensure("as many parts as chunks", eq(rawi(load.pylen(got[0])), nch))
    if isinstance(got[0], list):
        return
    c, i = ctx.int("c", 0), ctx.int("i", 0)
    k.pre(And(lt(c, nch), lt(i, size(c))))
    part = asarr(got[0].elem(c))
    k.ensure("size of each part", eq(part.shape_[0], size(c)))
    k.ensure("each part that of its own chunk", eq(at(part, i), pairing(est(c, i), ref(c, i))))


@contract("C20", "metrics.point_estimate_metric_classes.compute_from_digest", cases=["PointSigmaIQR", "PointBias", "PointOutlierRate"])
def point_digest(k, cls):
    """the value of the metric from the quantiles and centroids of the digest of all errors"""
    d = sshim.TDigest(lambda v: 0, 1000, "inv")
    inv = lambda q: d.inv(z3.RealVal(q))
    rows = k.dim("rows", 1)
    c = k.real("centroids", (rows, 2))
    total = at(k.real("weight", ()))
    k.pre(lt(0, total))
    d.__class__ = type("D", (sshim.TDigest,), dict(weight=wrap(total), get_centroids=lambda s: c))
    out = point(k, cls).compute_from_digest(d)
    s = div(sub(inv("0.75"), inv("0.25")), z3.RealVal("1.349"))
    if cls == "PointSigmaIQR":
        k.ensure("interquartile range over 1.349", eq(at(out), s))
    elif cls == "PointBias":
        k.ensure("median", eq(at(out), inv("0.5")))
    else:
        cut = biggest(z3.RealVal("0.06"), mul(3, s))
        cf = fn_of(c)
        k.ensure("weight beyond the cut over the total weight", eq(at(out), div(PSUM(lambda r: mul(num(lt(cut, absval(cf(r, 0)))), cf(r, 1)), rows), total)))


@contract("C20", "metrics.point_estimate_metric_classes.PointSigmaMAD.compute_from_digest", again=False)
def mad_digest(k):
    """distance to the median within which, counting whole bins from the nearest on, half of the probability lies"""
    B = k.dim("num_bins", 2)
    d = sshim.TDigest(lambda v: 0, 1000, "inv")
    inv = lambda q: d.inv(z3.RealVal(q))
    lo, hi, med = inv("0"), inv("1"), inv("0.5")
    out = None
    n = sub(B, 1)
    x = lambda j: at(npshim.linspace(wrap(lo), wrap(hi), wrap(B)), j)
    # all of the probability is between the extremes, that at the extremes included
    C = lambda j: ite(eq(j, n), real(1), ite(eq(j, 0), real(0), d.cdf_(real(x(j)))))
    ctx.forall(1, lambda j: Implies(And(le(0, j), le(j, n)), And(le(0, d.cdf_(real(x(j)))), le(d.cdf_(real(x(j))), 1))), "the cumulative of a digest is a probability")
    ctx.forall(1, lambda j: Implies(And(le(0, j), lt(j, n)), le(d.cdf_(real(x(j))), d.cdf_(real(x(add(j, 1)))))), "and does not decrease")
    k.known("in order", 1, lambda j: Implies(And(le(0, j), lt(j, n)), le(C(j), C(add(j, 1)))))
    p = lambda j: sub(C(add(j, 1)), C(j))
    k.lemma("telescope", 0, n, lambda j: eq(PSUM(p, j), sub(C(j), C(0))))
    dist = lambda j: absval(sub(div(add(x(j), x(add(j, 1))), 2), med))
    order = fn_of(npshim.argsort(from_fn((n,), lambda i: dist(i[0]), "f")))
    sorted_p = lambda q: p(order(q))
    k.pre(eq(PSUM(sorted_p, n), PSUM(p, n)))
    ctx.use("a sum does not depend on the order of its terms")
    k.known("probabilities are not negative", 1, lambda j: Implies(And(le(0, j), lt(j, n)), le(0, sorted_p(j))), lambda j: (j, order(j)))
    k.known("cumulated ones do not decrease", 1, lambda j: Implies(And(le(0, j), lt(j, n)), le(PSUM(sorted_p, j), PSUM(sorted_p, add(j, 1)))))
    out = point(k, "PointSigmaMAD", num_bins=wrap(B)).compute_from_digest(d)
    w = functional("ssl", lambda j: PSUM(sorted_p, add(j, 1)), n, extra=(z3.RealVal("0.5"),), sort=I)
    k.ensure("a bin", And(le(0, w), lt(w, n)))
    k.ensure("half of the probability is within the bins up to this one", le(z3.RealVal("0.5"), PSUM(sorted_p, add(w, 1))))
    k.ensure("and not without it", Implies(lt(0, w), lt(PSUM(sorted_p, w), z3.RealVal("0.5"))))
    k.ensure("1.4826 times its distance", eq(at(out), mul(z3.RealVal("1.4826"), dist(order(w)))))


# ------------------------------------------------------------------------------------------------ PIT
def pits(k, p, t, N):
    """i-th PIT value: the cumulative of the i-th distribution at its own truth, zero where that is undefined"""
    F, tf = p.value("cdf"), fn_of(t)
    return lambda i: z3.If(npshim.FINITE(F(i, tf(i))), F(i, tf(i)), z3.RealVal(0))


@contract("C21 C24", "metrics.pit.PIT._gather_pit_samples", cases=["any number", "one object"])
def gather(k, case):
    ctx.nonfinite = True
    k.pre(npshim.FINITE(z3.RealVal(0)))
    N = k.dim("N", 1) if case != "one object" else 1
    t, p = k.real("truth", (N,)), Ens(k, "p", N)
    out = k.mod("metrics.pit").PIT._gather_pit_samples(p, t)
    k.each_is("cumulative at the own truth", out, (N,), pits(k, p, t, N))


@contract("C21", "metrics.concrete_metric_classes.PITMetric.accumulate", cases=["any number", "one object"])
def pit_accumulate(k, case):
    """the centroids of a chunk carry weight one at every PIT value of the chunk"""
    ctx.nonfinite = True
    k.pre(npshim.FINITE(z3.RealVal(0)))
    N = k.dim("N", 1) if case != "one object" else 1
    t, p = k.real("truth", (N,)), Ens(k, "p", N)
    out = make(k, "PITMetric").accumulate(p, t)
    v = at(k.real("v", ()))
    for link in ctx.digest_links:
        k.pre(link(v))
    g = pits(k, p, t, N)
    o = k.shape("centroids", out, (at_dim(out, 0), 2))
    k.ensure("weight at every value", eq(PSUM(lambda r: mul(num(eq(at(o, r, 0), v)), at(o, r, 1)), o.shape_[0]), PSUM(lambda i: num(eq(g(i), v)), N)))


@contract("C21", "metrics.concrete_metric_classes.PITMetric.finalize", cases=["PITMetric"])
def pit_finalize(k, case):
    comp = k.dim("compression", 20)
    merged(k, make(k, "PITMetric", tdigest_compression=wrap(comp)), comp)


class Built:
    """the arguments an ensemble was made with"""
    def __init__(self, kind, data=None, ancil=None):
        self.kind, self.data, self.ancil = kind, data, ancil


def package(k):
    """the package itself, with ensembles standing for what they were made of"""
    q = k.w.load("qp")
    q.Ensemble, q.quant = Built, "quant"
    return q


@contract("C21 C24", "metrics.pit.PIT._produce_output_ensemble", again=False)
def produce(k):
    """distinct values strictly between zero and one, in order, each with its own probability"""
    m = k.mod("metrics.pit")
    package(k)
    n = k.dim("n", 1)
    q, g = k.real("data_quants", (n,)), k.real("eval_grid", (n,))
    qf, gf = fn_of(q), fn_of(g)
    out = m.PIT._produce_output_ensemble(q, g)
    k.ensure("a distribution given by quantiles", out.kind == "quant" and sorted(out.data) == ["locs", "quants"])
    probs, locs = asarr(out.data["quants"]), asarr(out.data["locs"])
    s = at_dim(probs, 0)
    k.shape("probabilities", probs, (s,))
    k.shape("one row of values", locs, (1, s))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(lt(j, s))
    x = lambda c: at(locs, 0, c)
    with_ = lambda *t: (ctx.hints.clear(), ctx.hint(*t))
    k.ensure("strictly between zero and one", And(lt(0, x(j)), lt(x(j), 1)))
    k.ensure("increasing", Implies(lt(i, j), lt(x(i), x(j))))
    # the value and the probability come from one position of the input, the first with this value
    back = lambda c: at(probs, c)
    k.ensure("its own probability, that of the first position with this value",
             npshim.Any(lambda c: And(eq(qf(c), x(j)), eq(gf(c), back(j)), npshim.All(lambda d: Not(eq(qf(d), x(j))), c)), n))
    c = ctx.int("c", 0)
    k.pre(And(lt(c, n), lt(0, qf(c)), lt(qf(c), 1)))
    where = fn_of(npshim.unique(q, return_inverse=True)[1])(c)
    u = fn_of(npshim.unique(q, return_index=True)[0])
    rank = npshim.Count(lambda d: And(lt(0, u(d)), lt(u(d), 1)), where)
    k.step("value among the distinct ones", And(le(0, where), lt(where, asarr(npshim.unique(q)).shape_[0]), eq(u(where), qf(c))))
    ctx.hint(c, where, rank)
    k.ensure("every value strictly between", And(le(0, rank), lt(rank, s), eq(x(rank), qf(c))))


@contract("C21 C24", "metrics.pit.PIT._trim_pit_values")
def trim(k):
    """exactly the values within the bounds, in order"""
    n = k.dim("n", 1)
    v, lo, hi = k.real("samples", (n,)), k.real("lo", ()), k.real("hi", ())
    P = k.mod("metrics.pit").PIT
    pit = object.__new__(P)
    pit._gather_pit_samples = None
    k.stub("metrics.pit.PIT._gather_pit_samples", classmethod(lambda c, e, t: v))
    k.stub("metrics.pit.PIT._produce_output_ensemble", classmethod(lambda c, q, g: None))
    grid = k.real("grid", (k.dim("ngrid", 2),))
    pit = P(None, None, grid)
    out = pit._trim_pit_values(lo, hi)
    f, a, b = fn_of(v), at(lo), at(hi)
    inside = lambda i: And(le(a, f(i)), le(f(i), b))
    s = npshim.Count(inside, n)
    out = k.shape("as many as lie within", out, (s,))
    j, i, c = ctx.int("j", 0), ctx.int("i", 0), ctx.int("c", 0)
    pos = lambda j: functional("sel", inside, n, extra=(j,), sort=I, raw_sort=B)
    k.pre(lt(j, s))
    k.ensure("within the bounds", And(le(a, at(out, j)), le(at(out, j), b)))
    k.ensure("in order: the position of each", And(eq(at(out, j), f(pos(j))), Implies(lt(i, j), lt(pos(i), pos(j)))))
    k.pre(And(lt(c, n), inside(c)))
    r = npshim.Count(inside, c)
    ctx.hint(c, r)
    k.ensure("every one within", And(lt(r, s), eq(at(out, r), f(c))))


@contract("C21 C24", "metrics.pit.PIT.__init__", cases=["init", "digest"])
def pit_init(k, how):
    """the summary is made of the quantiles of the samples at the grid, or at as many equal steps as there are samples if fewer"""
    P = k.mod("metrics.pit").PIT
    n, m = k.dim("n", 1), k.dim("ngrid", 1)
    v, g = k.real("samples", (n,)), k.real("grid", (m,))
    made, asked = [], []
    k.stub("metrics.pit.PIT._gather_pit_samples", classmethod(lambda c, e, t: asked.append((e, t)) or v))
    k.stub("metrics.pit.PIT._produce_output_ensemble", classmethod(lambda c, q, g: made.append((q, g)) or made))
    if how == "init":
        e, t = Ens(k, "p", n), k.real("truth", (n,))
        pit = P(e, t, g)
        k.ensure("samples of the ensemble at the truths", len(asked) == 1 and asked[0][0] is e and asked[0][1] is t)
        k.ensure("the samples", pit.pit_samps is v)
        k.ensure("the summary", pit.pit is made)
        vf = fn_of(v)
        value = lambda q: functional("stat_quantile", vf, n, extra=(real(q),))
    else:
        d = sshim.TDigest(lambda v: 0, 1000, "inv")
        d.__class__ = type("D", (sshim.TDigest,), dict(weight=wrap(real(n))))
        out = make(k, "PITMetric", eval_grid=g).compute_from_digest(d)
        k.ensure("the summary", out is made)
        value = lambda q: d.inv(real(q))
    k.ensure("one summary", len(made) == 1)
    q, used = made[0]
    few = lt(n, m)
    s = z3.If(few, term(n), term(m))
    gf = fn_of(g)
    equal = lambda j: div(real(j), sub(n, 1))
    level = lambda j: z3.If(few, z3.If(term(j) == 0, z3.RealVal(0), real(equal(j))), real(gf(j)))
    k.each_is("probabilities", used, (s,), level)
    q = k.shape("quantiles", q, (s,))
    j = ctx.int("j", 0)
    k.pre(lt(j, s))
    k.ensure("quantiles of the samples at the probabilities", eq(at(q, j), value(at(asarr(used), j))))


@contract("C21 C24", "metrics.metrics.calculate_outlier_rate", cases=["function", "metric", "pit"])
def outlier_rate(k, how):
    """probability below the lower plus probability above the upper bound, per distribution"""
    lo, hi = k.real("lo", ()), k.real("hi", ())
    N = k.dim("N", 1) if how != "pit" else 1
    p = Ens(k, "p", N)
    F, a, b = p.value("cdf"), at(lo), at(hi)
    val = lambda i: add(F(i, a), sub(1, F(i, b)))
    if how == "function":
        out = k.mod("metrics.metrics").calculate_outlier_rate(p, lo, hi)
    elif how == "metric":
        out = make(k, "OutlierMetric", cdf_limits=(lo, hi)).evaluate(p)
    else:
        P = k.mod("metrics.pit").PIT
        k.stub("metrics.pit.PIT._gather_pit_samples", classmethod(lambda c, e, t: k.real("v", (2,))))
        k.stub("metrics.pit.PIT._produce_output_ensemble", classmethod(lambda c, q, g: p))
        out = P(None, None, k.real("grid", (2,))).evaluate_PIT_outlier_rate(lo, hi)
        k.ensure("of the summary", eq(at(out), val(0)))
        return
    k.each_is("below the lower plus above the upper bound", out, (N,), val)


@contract("C21", "metrics.concrete_metric_classes.PITMetric.evaluate")
def pit_evaluate(k):
    m = k.mod("metrics.concrete_metric_classes")
    got = []

    class Fake:
        def __init__(self, e, t, grid):
            got.append((e, t, grid))
            self.pit = "summary"
    k.stub("metrics.pit.PIT", Fake)
    g = k.real("grid", (k.dim("n", 1),))
    e, t = Ens(k, "p", k.dim("N", 1)), k.real("truth", (z3.Int("N"),))
    out = m.PITMetric(eval_grid=g).evaluate(e, t)
    k.ensure("summary of the PIT", out == "summary" and len(got) == 1 and got[0][0] is e and got[0][1] is t and got[0][2] is g)


@contract("C21", "metrics.pit.PIT.evaluate_PIT_CvM", cases=["cvm", "ks", "ad"])
def pit_tests(k, which):
    """the tests of the samples against the uniform distribution"""
    m = k.mod("metrics.pit")
    n = k.dim("n", 2)
    v = k.real("samples", (n,))
    k.stub("metrics.pit.PIT._gather_pit_samples", classmethod(lambda c, e, t: v))
    k.stub("metrics.pit.PIT._produce_output_ensemble", classmethod(lambda c, q, g: None))
    pit = m.PIT(None, None, k.real("grid", (2,)))
    got = []
    for nm in ("cramervonmises", "kstest", "anderson_ksamp"):
        setattr(m.stats, nm, lambda *a, nm=nm, **kw: got.append((nm, a, kw)) or got)
    if which == "ad":
        lo, hi = k.real("lo", ()), k.real("hi", ())
        out = pit.evaluate_PIT_anderson_ksamp(lo, hi)
        k.ensure("one test", out is got and len(got) == 1 and got[0][0] == "anderson_ksamp" and len(got[0][1][0]) == 2)
        a, b = got[0][1][0]
        f = fn_of(v)
        s = npshim.Count(lambda i: And(le(at(lo), f(i)), le(f(i), at(hi))), n)
        k.shape("the samples within the bounds", a, (s,))
        b = k.shape("as many equally spaced ones", b, (s,))
        k.ensure("from the lower bound", Implies(lt(0, s), eq(at(b, 0), at(lo))))
        k.ensure("to the upper bound", Implies(lt(1, s), eq(at(b, sub(s, 1)), at(hi))))
        return
    out = pit.evaluate_PIT_CvM() if which == "cvm" else pit.evaluate_PIT_KS()
    k.ensure("one test", out is got and len(got) == 1 and got[0][0] == dict(cvm="cramervonmises", ks="kstest")[which])
    a = got[0][1]
    k.ensure("of the samples", a[0] is v)
    u = a[1]
    x = k.real("x", ())
    k.ensure("against the uniform distribution", u == "uniform" or eq(at(u(x)), at(m.stats.uniform.cdf(x))))
