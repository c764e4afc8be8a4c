"""Contracts of the remaining functions: profiles, metric drivers, allocation of every kind, splines, sparse dictionaries."""
from .api import *
from . import npshim, sshim
from .c_utils import stub_bins, BIN, BININ
from .c_ens import refused, library


@contract("C02 C24", "utils.profile", cases=["spread", "error of the mean"])
def profile(k, case):
    """every bin: mean and spread (over the root of the count) of exactly the values whose points lie in that bin"""
    u = k.mod("utils")
    n, m = k.dim("nbins", 1), k.dim("npts", 1)
    bins = k.real("bins", (add(n, 1),))
    k.increasing(bins)
    x, y = k.real("x", (m,)), k.real("y", (m,))
    stub_bins(k)
    vals, errs = u.profile(x, y, bins) if case == "spread" else u.profile(x, y, bins, std=False)
    bf, xf, yf = fn_of(bins), fn_of(x), fn_of(y)
    vals, errs = k.shape("means", vals, (n,)), k.shape("errors", errs, (n,))
    b = ctx.int("b", 0)
    k.pre(lt(b, n))
    inb = lambda j: And(BININ(bf, add(n, 1), xf(j)), eq(BIN(bf, add(n, 1), xf(j)), b))
    cnt = npshim.Count(inb, m)
    k.pre(lt(0, cnt))
    mean = div(Sum(lambda j: ite(inb(j), yf(j), real(0)), m), real(cnt))
    k.ensure("mean of the values in the bin", eq(at(vals, b), mean))
    var = div(Sum(lambda j: ite(inb(j), mul(sub(yf(j), mean), sub(yf(j), mean)), real(0)), m), real(cnt))
    spread = npshim.SQRT(var)
    k.ensure("spread", eq(at(errs, b), spread if case == "spread" else div(spread, npshim.SQRT(real(cnt)))))


# ------------------------------------------------------------------------------------------------ analytic distributions
GIVEN = ["loc", "scale", "s", "loc scale", "loc s", "loc scale s"]


@contract("C25 C08 C24", "pdf_gen.Pdf_gen.create", cases=GIVEN)
def create_analytic(k, case):
    """a distribution frozen with every parameter given, at the values given, whatever they are"""
    N = k.dim("N", 1)
    f = k.mod("factory").Factory()
    pg = k.mod("pdf_gen")
    frozen = []

    class Scipy:
        def __init__(self, *a, **kw): pass
        def freeze(self, *a, **kw): raise Unsupported("scipy's own freezing")
        def __call__(self, *a, **kw): return self.freeze(*a, **kw)
    f._make_scipy_wrapped_class("dist", Scipy)
    cls = f["dist"]
    k.w.patches.append((pg, "rv_frozen_func", pg.rv_frozen_func, True))
    pg.rv_frozen_func = lambda d, *a, **kk: frozen.append((d, a, kk)) or frozen
    given = {p: k.real(p, (N, 1)) for p in case.split()}
    i = ctx.int("i", 0)
    k.pre(lt(i, N))

    def are(kw):
        k.ensure("every parameter, no other", set(kw) == set(given))
        for p in set(kw) & set(given):
            k.ensure("%s as given" % p, eq(at(k.shape(p, kw[p], (N, 1)), i, 0), at(given[p], i, 0)))
    obj, kw = cls.create_gen(**given)
    k.ensure("of its class", type(obj) is cls)
    are(kw)
    out = cls.create(**given)
    k.ensure("frozen once", out is frozen and len(frozen) == 1 and type(frozen[0][0]) is cls and not frozen[0][1])
    are(frozen[0][2])
    k.ensure("made by the method of that name", cls.creation_method(None) == cls.create)
    k.ensure("caller's parameters left", set(given) == set(case.split()))


# ------------------------------------------------------------------------------------------------ splines from points and samples
def row_spline(x, y, n, i, v):
    """the cubic spline through the points of row i, at v"""
    xs, ys = (lambda q: x(i, q)), (lambda q: y(i, q))
    return sshim.curve("splev", lambda j: sshim.curve("knot", xs, ys, n, j), lambda j: sshim.curve("coef", xs, ys, n, j), add(n, 4), v, 3)


def row_integral(x, y, n, i, a, b):
    return sshim.functional("quad", lambda j: real(row_spline(x, y, n, i, sshim.AT(term(j)))), sshim.MANY, extra=(real(a), real(b)))


@contract("C22 C24", "spline_pdf.normalize_spline")
def normalize_spline(k):
    """every row divided by the integral, over the limits, of the spline through that row's own points"""
    N, n = k.dim("npdf", 1), k.dim("n", 4)
    X, Y = k.real("xvals", (N, n)), k.real("yvals", (N, n))
    lo, hi = k.real("lo", ()), k.real("hi", ())
    x, y = fn_of(X), fn_of(Y)
    out = k.mod("spline_pdf").normalize_spline(X, Y, limits=(lo, hi))
    k.each_is("each row over its own integral", out, (N, n), lambda i, j: div(y(i, j), row_integral(x, y, n, i, at(lo), at(hi))))


@contract("C22 C24", "spline_pdf.spline_gen.create_from_samples", cases=["xy", "samples"])
def spline_create(k, how):
    """row i is the spline through the points (x, y_i over its spline's integral between the outermost points); from samples, y_i is the
    density estimate of sample i alone at the points"""
    N, n, m = k.dim("npdf", 1), k.dim("n", 4), k.dim("m", 2)
    if how == "xy":
        X, Y = k.real("xvals", (N, n)), k.real("yvals", (N, n))
        x, y = fn_of(X), fn_of(Y)
    else:
        X, S = k.real("xvals", (n,)), k.real("samples", (N, m))
        g, s = fn_of(X), fn_of(S)
        x, y = (lambda i, j: g(j)), (lambda i, j: sshim.kde(lambda q: s(i, q), m, g(j)))
    sp = k.mod("spline_pdf")
    ends = []
    norm = sp.normalize_spline

    def normalized(xv, yv, limits, **kw):
        ends.append((limits, xv, yv))
        return norm(xv, yv, limits=limits, **kw)
    k.w.patches.append((sp, "normalize_spline", norm, True))
    sp.normalize_spline = normalized
    made = []

    class Gen(sp.spline_gen):
        def __init__(self, **kw): made.append(kw)
        def __call__(self, **kw): return self
    cls = Gen
    out = cls.create_from_xy_vals(X, Y) if how == "xy" else cls.create_from_samples(X, S)
    k.ensure("one object", len(made) == 1 and set(made[0]) == {"splx", "sply", "spln"} and isinstance(out, Gen))
    if len(ends) != 1:
        raise Unsupported("normalised otherwise")
    (lo, hi), xv, yv = ends[0]
    k.each_is("points", xv, (N, n), x)
    k.each_is("values", yv, (N, n), y)
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    k.ensure("limits enclose the points", And(le(at(lo), x(i, j)), le(x(i, j), at(hi))))
    nrm = lambda i, j: div(y(i, j), row_integral(x, y, n, i, at(lo), at(hi)))
    row = lambda what: lambda i, j: sshim.curve(what, lambda q: x(i, q), lambda q: nrm(i, q), n, j)
    kw = made[0]
    k.each_is("knots", kw["splx"], (N, add(n, 4)), row("knot"))
    k.each_is("coefficients", kw["sply"], (N, add(n, 4)), row("coef"))
    k.each_is("degrees", kw["spln"], (N, 1), lambda i, _: 3)


@contract("C22 C24", "utils.evaluate_kdes")
def kdes(k):
    """row i: the estimate from sample i alone, at the points in order"""
    u = k.mod("utils")
    N, n, m = k.dim("npdf", 1), k.dim("n", 1), k.dim("m", 2)
    X, S = k.real("xvals", (n,)), k.real("samples", (N, m))
    g, s = fn_of(X), fn_of(S)
    k.each_is("values", u.evaluate_kdes(X, u.build_kdes(S)), (N, n), lambda i, j: sshim.kde(lambda q: s(i, q), m, g(j)))


# ------------------------------------------------------------------------------------------------ another density constructor
CTORS = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]


@contract("C09 C10 C01", "quant_pdf.quant_gen.pdf_constructor_name", cases=CTORS + ["other"])
def quant_set_constructor(k, name):
    """after naming another density constructor the density, data and metadata are those of a distribution made with it; unknown
    names are refused and change nothing"""
    n, N = k.dim("nq", 3), k.dim("npdf", 1)
    Q, L = k.real("quants", (n,)), k.real("locs", (N, n))
    k.increasing(Q)
    k.increasing(L)
    q, l = fn_of(Q), fn_of(L)
    m = k.mod("quant_pdf")
    d = m.quant_gen(Q, L, check_input=False)
    first = d.pdf_constructor_name
    if name == "other":
        old = d.pdf_constructor
        refused(k, lambda: setattr(d, "pdf_constructor_name", "no_such_constructor"), ValueError)
        want = first
        k.ensure("still the one before", d.pdf_constructor is old)
    else:
        for step in (CTORS[(CTORS.index(name) + 1) % 4], name, name):
            d.pdf_constructor_name = step
        want = name
    k.ensure("name", d.pdf_constructor_name == want)
    c = d.pdf_constructor
    k.ensure("constructor of that name", type(c) is m.PDF_CONSTRUCTORS[want])
    k.each_is("its quantiles", c._quantiles, (n,), lambda j: q(j))
    k.each_is("its locations", c._locations, (N, n), lambda i, j: l(i, j))
    V = z3.Function("density", R, I, R)

    def construct(self, grid, row=None):
        k.ensure("the constructor in use", self is c)
        return npshim.ravel(elementwise(lambda xv, r: V(real(xv), term(r)), [grid, row], "f"))
    k.stub("quantile_pdf_constructors.%s.%s.construct_pdf" % (want, type(c).__name__), construct)
    x, row = k.real("x", (1,)), k.ints("row", (1,), lo=0, hi=N)
    k.ensure("density", eq(at(d._pdf(x, row), 0), V(real(at(x, 0)), term(at(row, 0)))))
    p = d._updated_ctor_param()
    k.ensure("rebuilt with it", p["pdf_constructor_name"] == want)
    md = d.metadata["pdf_constructor_name"]
    md = npshim.squeeze(md).item() if isinstance(md, Arr) else md
    k.ensure("recorded", (md.decode() if isinstance(md, bytes) else md) == want)
    k.each_is("quants kept", d.quants, (n,), lambda j: q(j))
    k.each_is("locs kept", d.locs, (N, n), lambda i, j: l(i, j))


# ------------------------------------------------------------------------------------------------ ranges of rows for readers
@contract("C11", "tables_io.ioUtils.split_tasks_by_rank")
def tasks_by_rank(k):
    """every task whose number is the rank modulo the number of readers, in order, and no other.  Stated for any two successive tasks:
    the loop's body assigns nothing, so that no iteration depends on another"""
    import ast
    m, defs = library(k)
    loops = [n for n in ast.walk(defs["split_tasks_by_rank"]) if isinstance(n, (ast.For, ast.While))]
    k.ensure("one loop, without a state", len(loops) == 1 and not any(
        isinstance(n, (ast.Assign, ast.AugAssign, ast.NamedExpr, ast.Global, ast.Nonlocal, ast.Break, ast.Return)) for n in ast.walk(defs["split_tasks_by_rank"])))
    P, r, a, b = k.ints("readers", (), lo=1), k.ints("rank", (), lo=0), ctx.int("a", 0), ctx.int("b", 0)
    k.pre(And(lt(at(r), at(P)), lt(a, b)))
    ta, tb = object(), object()
    m.enumerate = lambda tasks: [(wrap(a), ta), (wrap(b), tb)]
    out = list(m.split_tasks_by_rank(object(), wrap(at(P)), wrap(at(r))))
    ina, inb = eq(imod(a, at(P)), at(r)), eq(imod(b, at(P)), at(r))
    k.ensure("its tasks, in order", And(Implies(And(ina, inb), out == [ta, tb]), Implies(And(ina, Not(inb)), out == [ta]),
                                        Implies(And(Not(ina), inb), out == [tb]), Implies(And(Not(ina), Not(inb)), out == [])))


@contract("C11", "tables_io.ioUtils.data_ranges_by_rank")
def ranges_by_rank(k):
    """for any number of rows, chunk size and readers: each row is in one range of one reader and in no other; the ranges of a
    reader follow each other, each of at most the chunk size, within the rows"""
    m, _ = library(k)
    n, C, P = k.dim("rows", 0), k.dim("chunk", 1), k.dim("readers", 1)
    asked = []

    def tasks(t, size, rank):
        """the tasks number rank, rank + size, ... below the number of tasks"""
        asked.append((rawi(t.n), rawi(size), rawi(rank)))
        k.ensure("tasks are the numbers from 0", isinstance(t, npshim.SymRange) and eq(t.a, 0))
        total = rawi(t.n)
        mine = z3.Int(ctx.name("mine"))
        ctx.assume(And(le(0, mine), Implies(lt(0, mine), lt(add(rawi(rank), mul(sub(mine, 1), rawi(size))), total)), le(total, add(rawi(rank), mul(mine, rawi(size))))))
        return SymList(mine, lambda j: wrap(add(rawi(rank), mul(term(j), rawi(size)))))
    m.split_tasks_by_rank = tasks
    rank, j, row = ctx.int("rank", 0), ctx.int("j", 0), ctx.int("row", 0)
    k.pre(And(lt(rank, P), lt(row, n)))
    lst = m.data_ranges_by_rank(wrap(n), wrap(C), wrap(P), wrap(rank))
    k.ensure("asked once", len(asked) == 1 and And(eq(asked[0][1], P), eq(asked[0][2], rank)))
    total = asked[0][0]
    L = lst[0]
    count, pair = L.n, lambda i: tuple(rawi(v) for v in L.elem(i))
    k.pre(lt(j, count))
    s, e = pair(j)
    k.ensure("within the rows, not empty", And(le(0, s), lt(s, e), le(e, n)))
    k.ensure("no longer than the chunk", le(sub(e, s), C))
    k.ensure("one after the other", Implies(lt(add(j, 1), count), le(e, pair(add(j, 1))[0])))
    # the chunk of the row, its reader and its number there
    c, cr, cq = ctx.int("c", 0), ctx.int("cr", 0), ctx.int("cq", 0)
    ctx.assume(And(le(mul(c, C), row), lt(row, mul(add(c, 1), C))))
    ctx.assume(And(eq(c, add(cr, mul(cq, P))), lt(cr, P)))
    k.step("the chunk exists", lt(c, total))
    here = eq(rank, cr)
    k.step("it is one of its reader's", Implies(here, lt(cq, count)))
    s2, e2 = pair(cq)
    k.ensure("the row is in it", Implies(here, And(le(s2, row), lt(row, e2))))
    t = add(rank, mul(j, P))
    inside = And(le(s, row), lt(row, e))
    k.step("a range holding the row is that chunk", Implies(inside, eq(t, c)))
    k.ensure("and that reader's, at that place", Implies(inside, And(eq(rank, cr), eq(j, cq))))
