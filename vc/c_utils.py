"""Contracts of qp.utils: bin lookup, the recognition of evaluation requests, the evaluation kernels."""
from .api import *
from .sshim import interp, cell, spline


# ------------------------------------------------------------------------------------------------ bins
def BIN(bins, n, x):
    return functional("bin", bins, n, extra=(real(x),), sort=I)


def BININ(bins, n, x):
    return functional("binin", bins, n, extra=(real(x),), sort=B)


def xin(k, rank, name="x"):
    dims = [k.dim("%s_n%d" % (name, d)) for d in range(rank)]
    return k.real(name, dims), dims


@contract("C01 C02", "utils.get_bin_indices", cases=["scalar", "1d", "2d"])
def get_bin_indices_elementwise(k, case):
    """the bin and the mask of a point do not depend on the other points looked up with it"""
    f = k.mod("utils").get_bin_indices
    n = k.dim("n", 1)
    bins = k.real("bins", (add(n, 1),))
    k.increasing(bins)
    rank = dict(scalar=0, **{"1d": 1, "2d": 2})[case]
    x, dims = xin(k, rank)
    idx, mask = f(bins, x)
    q = tuple(ctx.int("e", 0) for _ in dims)
    for v, d in zip(q, dims):
        k.pre(lt(v, d))
    one_i, one_m = f(bins, x[tuple(wrap(v) for v in q)] if rank else x)
    idx, mask = k.shape("index", idx, dims), k.shape("mask", mask, dims)
    k.shape("index of a scalar", one_i, ())
    k.ensure("index as for the point alone", eq(at(idx, *q), at(one_i)))
    k.ensure("mask as for the point alone", eq(at(mask, *q), at(one_m)))


@contract("C02", "utils.get_bin_indices", cases=["uniform", "any widths"])
def get_bin_indices_lookup(k, case):
    """the index is the bin around the point"""
    f = k.mod("utils").get_bin_indices
    n = k.dim("n", 1)
    if case == "uniform":
        b0, w = z3.Real("b0"), z3.Real("w")
        k.pre(w > 0)
        bins = from_fn((add(n, 1),), lambda i: b0 + real(i[0]) * w, "f")
        bins.buf.protected = "bins"
    else:
        bins = k.real("bins", (add(n, 1),))
        k.increasing(bins)
    x = k.real("x", ())
    bf, xv = fn_of(bins), at(x)
    idx, mask = f(bins, x)
    i, m = at(k.shape("index", idx, ())), at(k.shape("mask", mask, ()))
    ctx.hint(i, add(i, 1))
    k.ensure("index in range", And(le(0, i), lt(i, n)))
    lo, hi = bf(0), bf(n)
    if case == "uniform":
        k.ensure("mask exactly inside", eq(m, And(le(lo, xv), lt(xv, hi))))
        k.ensure("bin around the point", Implies(m, And(le(bf(i), xv), lt(xv, bf(add(i, 1))))))
        return
    k.ensure("masked in between the outermost edges", Implies(And(lt(lo, xv), lt(xv, hi)), m))
    k.ensure("mask only from edge to edge", Implies(m, And(le(lo, xv), le(xv, hi))))
    k.ensure("bin around the point", Implies(m, And(le(bf(i), xv), le(xv, bf(add(i, 1))))))
    j = ctx.int("some_bin", 0)
    k.pre(lt(j, n))
    ctx.hint(j, add(j, 1))
    k.ensure("a point strictly inside a bin is in that bin", Implies(And(lt(bf(j), xv), lt(xv, bf(add(j, 1)))), And(m, eq(i, j))))


def stub_bins(k):
    def get_bin_indices(bins, x):
        bins, x = asarr(bins), asarr(x)
        if bins.ndim != 1:
            raise ValueError("bins must be a vector")
        b, n = bins.snap(), bins.shape_[0]
        q = ctx.int("bk")
        ctx.oblige("bins increasing where they are looked up", Implies(And(le(0, q), lt(add(q, 1), n)), lt(b((q,)), b((add(q, 1),)))), "pre")
        return (elementwise(lambda v: BIN(lambda j: b((j,)), n, v), [x], "i"), elementwise(lambda v: BININ(lambda j: b((j,)), n, v), [x], "b"))
    k.stub("utils.get_bin_indices", get_bin_indices)


# ------------------------------------------------------------------------------------------------ requests
@contract("C01", "utils.get_eval_case", cases=["flat", "one row", "product", "2d", "one point"])
def get_eval_case(k, case):
    """a flattened request is recognised as a grid only when it is one, with its points and rows in the order given"""
    u = k.mod("utils")
    x, row = request(k, case)
    c, xx, rr = u.get_eval_case(x, row)
    if case == "2d":
        k.ensure("case", c == u.CASE_2D)
    elif case in ("product", "one row"):
        k.ensure("case", c == u.CASE_PRODUCT)
    if case not in ("flat", "one point"):
        k.ensure("the request is handed on", xx is x and rr is row)
        return
    if c == u.CASE_FLAT:
        k.each_is("x", xx, x.shape_, fn_of(x))
        k.each_is("row", rr, row.shape_, fn_of(row))
        return
    k.ensure("case", c == u.CASE_FACTOR)
    m = x.shape_[0]
    xx, rr = asarr(xx), asarr(rr)
    nx, npdf = xx.shape_[0], rr.shape_[0]
    k.shape("points", xx, (nx,))
    k.shape("rows", rr, (npdf, 1))
    k.ensure("grid has the size of the request", eq(mul(npdf, nx), m))
    k.ensure("some point", lt(0, nx))
    p = ctx.int("p", 0)
    k.pre(lt(p, m))
    ctx.hint(idiv(p, nx), imod(p, nx))
    k.ensure("points in order", eq(at(x, p), at(xx, imod(p, nx))))
    k.ensure("rows in order", eq(at(row, p), at(rr, idiv(p, nx), 0)))


def request(k, case, npdf=None):
    """the forms in which scipy hands over points and rows"""
    lim = {} if npdf is None else dict(lo=0, hi=npdf)
    if case == "flat":
        m = k.dim("m", 1)
        return k.real("x", (m,)), k.ints("row", (m,), **lim)
    if case == "one point":
        return k.real("x", (1,)), k.ints("row", (1,), **lim)
    if case == "one row":
        return k.real("x", (k.dim("m", 1),)), k.ints("row", (1, 1), **lim)
    if case == "product":
        return k.real("x", (k.dim("nx", 1),)), k.ints("row", (k.dim("nr", 1), 1), **lim)
    if case == "2d":
        nr = k.dim("nr", 1)
        return k.real("x", (nr, k.dim("nx", 1))), k.ints("row", (nr, 1), **lim)
    raise KeyError(case)


REQ = ["flat", "one point", "one row", "product", "2d"]


def stub_eval_case(k):
    u = k.mod("utils")

    def get_eval_case(x, row):
        x, row = asarr(x), asarr(row)
        if x.ndim >= 2 and row.ndim != 1:
            return u.CASE_2D, x, row
        if x.ndim >= 2:
            raise Unsupported("get_eval_case outside its contract")
        if row.ndim >= 2:
            return u.CASE_PRODUCT, x, row
        if x.ndim != 1 or row.ndim != 1:
            return u.CASE_FLAT, x, row
        if not (eq(x.shape_[0], row.shape_[0]) is True):
            raise Unsupported("get_eval_case outside its contract")
        if not ctx.branch(z3.Bool(ctx.name("grid"))):
            return u.CASE_FLAT, x, row
        m = x.shape_[0]
        nx, npdf = ctx.int("gnx", 1), ctx.int("gnpdf", 1)
        ctx.assume(npdf * nx == term(m))
        xs, rs = z3.Function(ctx.name("gx"), I, R), z3.Function(ctx.name("gr"), I, I)
        xf, rf = x.snap(), row.snap()
        ctx.dimpair(npdf, nx)
        ctx.forall(1, lambda p: Implies(And(le(0, p), lt(p, m)), And(eq(xf((p,)), xs(MOD(p, nx))), eq(rf((p,)), rs(DIV(p, nx))))), "grid")
        # stated at the grid's own indices too (p = i * nx + j)
        ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, npdf), le(0, j), lt(j, nx)),
                                           And(eq(xf((i * nx + j,)), xs(j)), eq(rf((i * nx + j,)), rs(i)), le(0, i * nx + j), lt(i * nx + j, term(m)))), "grid2")
        return u.CASE_FACTOR, from_fn((nx,), lambda i: xs(term(i[0])), "f"), from_fn((npdf, 1), lambda i: rs(term(i[0])), "i")
    k.stub("utils.get_eval_case", get_eval_case)


def check_rows(k, case, x, row, out, spec):
    """the value at every requested (point, row) is spec(point, row)"""
    xf, rf = fn_of(x), fn_of(row)
    if case in ("flat", "one point", "one row"):
        m = x.shape_[0]
        out = asarr(out)
        k.ensure("as many values as requested", eq(prod(out.shape_), m))
        flat = npshim.ravel(out).snap()
        p = ctx.int("p", 0)
        k.pre(lt(p, m))
        r = rf(0, 0) if case == "one row" else rf(p)
        k.ensure("value of every requested point", eq(flat((p,)), spec(xf(p), r)))
    elif case == "product":
        out = asarr(out)
        if out.ndim == 1:
            # a single row may come without an axis of its own: callers flatten
            k.ensure("axis dropped for a single row only", eq(row.shape_[0], 1))
            k.each_is("value of every requested point", out, (x.shape_[0],), lambda j: spec(xf(j), rf(0, 0)))
            return
        k.each_is("value of every requested point", out, (row.shape_[0], x.shape_[0]), lambda i, j: spec(xf(j), rf(i, 0)))
    else:
        k.each_is("value of every requested point", out, x.shape_, lambda i, j: spec(xf(i, j), rf(i, 0)))


@contract("C01 C02", "utils.evaluate_hist_x_multi_y", cases=[c + d for c in REQ for d in ("", " slopes")])
def evaluate_hist_x_multi_y(k, case):
    slopes = case.endswith(" slopes")
    case = case.replace(" slopes", "")
    u = k.mod("utils")
    n, npdf = k.dim("nbins", 1), k.dim("npdf", 1)
    bins, vals = k.real("bins", (add(n, 1),)), k.real("vals", (npdf, n))
    der = k.real("derivs", (npdf, n)) if slopes else None
    k.increasing(bins)
    x, row = request(k, case, npdf)
    stub_bins(k)
    stub_eval_case(k)
    b, v = fn_of(bins), fn_of(vals)

    def spec(xv, r):
        i = BIN(b, add(n, 1), xv)
        val = v(r, i)
        if slopes:
            val = add(val, mul(sub(xv, b(i)), at(der, r, i)))
        return ite(BININ(b, add(n, 1), xv), val, 0)
    out = u.evaluate_hist_x_multi_y(x, row, bins, vals, der)
    check_rows(k, case, x, row, out, spec)


@contract("C01 C02", "utils.evaluate_hist_multi_x_multi_y", cases=[c + d for c in REQ for d in ("", " slopes")])
def evaluate_hist_multi_x_multi_y(k, case):
    slopes = case.endswith(" slopes")
    case = case.replace(" slopes", "")
    u = k.mod("utils")
    n, npdf = k.dim("nbins", 2), k.dim("npdf", 1)
    bins, vals = k.real("bins", (npdf, add(n, 1))), k.real("vals", (npdf, n))
    der = k.real("derivs", (npdf, n)) if slopes else None
    k.increasing(bins)
    x, row = request(k, case, npdf)
    stub_bins(k)
    stub_eval_case(k)
    b, v = fn_of(bins), fn_of(vals)

    def spec(xv, r):
        br = lambda j: b(r, j)
        i = BIN(br, add(n, 1), xv)
        val = v(r, i)
        if slopes:
            val = add(val, mul(sub(xv, b(r, i)), at(der, r, i)))
        return ite(BININ(br, add(n, 1), xv), val, 0)
    out = u.evaluate_hist_multi_x_multi_y(x, row, bins, vals, der)
    check_rows(k, case, x, row, out, spec)


def interp_contract(name, xmulti, ymulti):
    def body(k, case):
        u = k.mod("utils")
        n, npdf = k.dim("n", 2), k.dim("npdf", 1)
        xs = k.real("xvals", (npdf, n) if xmulti else (n,))
        ys = k.real("yvals", (npdf, n) if ymulti else (n,))
        k.increasing(xs, strict=not xmulti)
        lo, hi = k.real("below", ()), k.real("above", ())
        x, row = request(k, case, npdf)
        stub_eval_case(k)
        xf, yf = fn_of(xs), fn_of(ys)

        def spec(xv, r):
            return interp((lambda j: xf(r, j)) if xmulti else xf, (lambda j: yf(r, j)) if ymulti else yf, n, xv, at(lo), at(hi))
        out = getattr(u, name)(x, row, xs, ys, bounds_error=False, fill_value=(lo, hi))
        check_rows(k, case, x, row, out, spec)
    contract("C01 C04 C05", "utils." + name, cases=REQ)(body)


interp_contract("interpolate_x_multi_y", False, True)
interp_contract("interpolate_multi_x_multi_y", True, True)
interp_contract("interpolate_multi_x_y", True, False)
