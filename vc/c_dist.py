"""Contracts of the parametrisations: construction and normalisation, cumulative sums, evaluation."""
from .api import *
from .sshim import interp, cell, spline
from .c_utils import BIN, BININ, request, REQ, check_rows, stub_eval_case, stub_bins


def PSUM(fn, n):
    """sum of fn(j) for j < n"""
    return Sum(fn, n)


def shaped(k, name, npdf_dims, per):
    """array of rows with the ensemble shape npdf_dims"""
    return k.real(name, tuple(npdf_dims) + tuple(per))


def row_of(idx, dims):
    """number of the row at ensemble position idx"""
    r = 0
    for i, d in zip(idx, dims):
        r = add(mul(r, d), i)
    return r


SHAPES = dict(rows=1, one=0, block=2)


def dims(k, case):
    return tuple(k.dim("N%d" % d) for d in range(SHAPES[case]))


# ------------------------------------------------------------------------------------------------ stubs of the kernels
def kernel_result(case_x, row, m_spec):
    """shape of a kernel's answer (contract of utils.interpolate_* and evaluate_hist_*)"""
    x, row = asarr(case_x), asarr(row)
    xf, rf = x.snap(), row.snap()
    if x.ndim == 1 and row.ndim == 1:
        return from_fn(x.shape_, lambda i: m_spec(xf(i), rf(i)), "f")
    if x.ndim == 1 and row.ndim == 2:
        if row.shape_[0] == 1:
            return from_fn(x.shape_, lambda i: m_spec(xf(i), rf((0, 0))), "f")
        if ctx.branch(eq(row.shape_[0], 1)):
            return from_fn(x.shape_, lambda i: m_spec(xf(i), rf((0, 0))), "f")
        return from_fn((row.shape_[0], x.shape_[0]), lambda i: m_spec(xf((i[1],)), rf((i[0], 0))), "f")
    if x.ndim == 2 and row.ndim == 2:
        return from_fn(x.shape_, lambda i: m_spec(xf(i), rf((i[0], 0))), "f")
    raise Unsupported("kernel outside its contract")


def stub_kernels(k, kinds=("linear",)):
    def hist(multi):
        def evaluate(x, row, bins, vals, derivs=None):
            b, v = fn_of(bins), fn_of(vals)
            n1 = asarr(bins).shape_[-1]
            q = ctx.int("bk")
            if multi:
                r0 = ctx.int("br")
                ctx.oblige("bins increasing", Implies(And(le(0, q), lt(add(q, 1), n1), le(0, r0), lt(r0, asarr(bins).shape_[0])), lt(b(r0, q), b(r0, add(q, 1)))), "pre")
            else:
                ctx.oblige("bins increasing", Implies(And(le(0, q), lt(add(q, 1), n1)), lt(b(q), b(add(q, 1)))), "pre")

            def spec(xv, r):
                br = (lambda j: b(r, j)) if multi else b
                i = BIN(br, n1, xv)
                val = v(r, i)
                if derivs is not None:
                    val = add(val, mul(sub(xv, br(i)), at(derivs, r, i)))
                return ite(BININ(br, n1, xv), val, 0)
            return kernel_result(x, row, spec)
        return evaluate

    def ip(xm, ym):
        def interpolate(x, row, xvals, yvals, bounds_error=None, fill_value=float("nan"), kind="linear", **kw):
            if kw or bounds_error is not False:
                raise Unsupported("kernel called with other arguments than its contract has")
            xf, yf = fn_of(xvals), fn_of(yvals)
            n = asarr(xvals).shape_[-1]
            if not (eq(n, asarr(yvals).shape_[-1]) is True or ctx.branch(eq(n, asarr(yvals).shape_[-1]))):
                raise ValueError("lengths of xvals and yvals")
            lo, hi = fill_value if isinstance(fill_value, tuple) else (fill_value, fill_value)
            lo, hi = at(lo), at(hi)
            q, r0 = ctx.int("kn"), ctx.int("kr")
            if xm:
                ctx.oblige("knots in order", Implies(And(le(0, r0), lt(r0, asarr(xvals).shape_[0]), le(0, q), lt(add(q, 1), n)), le(xf(r0, q), xf(r0, add(q, 1)))), "pre")
            else:
                ctx.oblige("knots in order", Implies(And(le(0, q), lt(add(q, 1), n)), lt(xf(q), xf(add(q, 1)))), "pre")

            def spec(xv, r):
                xs = (lambda j: xf(r, j)) if xm else xf
                ys = (lambda j: yf(r, j)) if ym else yf
                if kind == "linear":
                    return interp(xs, ys, n, xv, lo, hi)
                v = spline(kind, xs, ys, n, xv)
                return z3.If(real(xv) < real(xs(0)), real(lo), z3.If(real(xv) > real(xs(sub(n, 1))), real(hi), v))
            return kernel_result(x, row, spec)
        return interpolate
    k.stub("utils.evaluate_hist_x_multi_y", hist(False))
    k.stub("utils.evaluate_hist_multi_x_multi_y", hist(True))
    k.stub("utils.interpolate_x_multi_y", ip(False, True))
    k.stub("utils.interpolate_multi_x_multi_y", ip(True, True))
    k.stub("utils.interpolate_multi_x_y", ip(True, False))


# ------------------------------------------------------------------------------------------------ hist
def make_hist(k, case="rows", check=True):
    n = k.dim("nbins", 1)
    D = dims(k, case)
    bins = k.real("bins", (add(n, 1),))
    k.increasing(bins)
    pdfs = shaped(k, "pdfs", D, (n,))
    k.each(pdfs, lambda v, *i: le(0, v))
    bf = fn_of(bins)
    w = lambda j: sub(bf(add(j, 1)), bf(j))
    p = fn_of(pdfs)
    tot = lambda *i: PSUM(lambda j: mul(p(*(i + (j,))), w(j)), n)
    for_rows(k, D, lambda *i: lt(0, tot(*i)))
    kw = {} if check else dict(check_input=False)
    return n, D, bins, pdfs, bf, w, p, tot, kw


def for_rows(k, D, fn):
    if not D:
        k.pre(fn())
    else:
        ctx.forall(len(D), lambda *i: Implies(inrange(i, D), fn(*i)), "rows")


@contract("C03 C24", "hist_pdf.hist_gen.__init__", cases=["rows", "one", "block", "rows unchecked"], again=lambda c: c != "block")
def hist_init(k, case):
    """the stored densities are the given ones over their total, which makes every histogram integrate to one"""
    check = not case.endswith("unchecked")
    case = case.split()[0]
    n, D, bins, pdfs, bf, w, p, tot, kw = make_hist(k, case, check)
    d = k.mod("hist_pdf").hist_gen(bins, pdfs, **kw)
    N = prod(D)
    st = k.shape("stored densities", d._hpdfs, (N, n))
    k.each_is("bins kept", d._hbins, (add(n, 1),), lambda j: bf(j))
    k.ensure("support", And(eq(at(d._xmin), bf(0)), eq(at(d._xmax), bf(n))))
    pos = tuple(ctx.int("e", 0) for _ in D)
    for v, s in zip(pos, D):
        k.pre(lt(v, s))
    r = row_of(pos, D)
    sf = fn_of(st)
    j = ctx.int("j", 0)
    k.pre(lt(j, n))
    if check:
        k.ensure("density over the total", eq(sf(r, j), div(p(*(pos + (j,))), tot(*pos))))
        k.ensure("integrates to one", eq(PSUM(lambda j: mul(sf(r, j), w(j)), n), 1))
        k.ensure("not negative", le(0, sf(r, j)))
    else:
        k.ensure("densities as given", eq(sf(r, j), p(*(pos + (j,)))))
    k.ensure("number of rows", eq(at(d._npdf), N))
    k.shape_is("ensemble shape", d._shape, D)
    k.ensure("stored as table data", d._objdata["pdfs"] is d._hpdfs and at(d._metadata["bins"], 0, j) is not None)
    k.each_is("bins in the metadata", d._metadata["bins"], (1, add(n, 1)), lambda _, j: bf(j))


# ------------------------------------------------------------------------------------------------ evaluation methods
FORMS = ["flat", "one point", "one row", "2d", "product"]


def check_flat(k, case, x, row, out, spec, about=None):
    """the flat result holds spec(point, row) at the position of every requested pair; about: steps about a pair"""
    xf, rf = fn_of(x), fn_of(row)
    out = asarr(out)
    flat = npshim.ravel(out).snap()
    if case in ("flat", "one point", "one row"):
        m = x.shape_[0]
        k.ensure("as many values as requested", eq(prod(out.shape_), m))
        p = ctx.int("p", 0)
        k.pre(lt(p, m))
        if about:
            about(xf(p), rf(0, 0) if case == "one row" else rf(p))
        k.ensure("value of every requested point", eq(flat((p,)), spec(xf(p), rf(0, 0) if case == "one row" else rf(p))))
        return
    nr, nx = row.shape_[0], x.shape_[-1]
    k.ensure("as many values as requested", eq(prod(out.shape_), mul(nr, nx)))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, nr), lt(j, nx)))
    if about:
        k.quotient("place of the pair", add(mul(i, nx), j), nx, i, j)
        about(xf(j) if case == "product" else xf(i, j), rf(i, 0))
    k.ensure("value of every requested point", eq(flat((add(mul(i, nx), j),)), spec(xf(j) if case == "product" else xf(i, j), rf(i, 0))))


@kept
def hist_obj(k, cdfs=True, norm=True):
    """a histogram ensemble as its constructor leaves it"""
    n, N = k.dim("nbins", 1), k.dim("npdf", 1)
    bins, h = k.real("bins", (add(n, 1),)), k.real("hpdfs", (N, n))
    k.increasing(bins)
    k.each(h, lambda v, *i: le(0, v))
    bf, hf = fn_of(bins), fn_of(h)
    w = lambda j: sub(bf(add(j, 1)), bf(j))
    mass = lambda i: (lambda j: mul(hf(i, j), w(j)))
    if norm:
        ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), eq(PSUM(mass(i), n), 1)), "normalised")
    d = k.mod("hist_pdf").hist_gen(bins, h, check_input=False)
    if cdfs:
        d._compute_cdfs()
    return d, n, N, bf, hf, mass


@contract("C04", "hist_pdf.hist_gen._compute_cdfs")
def hist_cdfs(k):
    d, n, N, bf, hf, mass = hist_obj(k)
    c = k.shape("cumulative values", d._hcdfs, (N, add(n, 1)))
    cf = fn_of(c)
    i = ctx.int("i", 0)
    k.pre(lt(i, N))
    m = ctx.int("m", 0)
    k.pre(lt(m, n))
    k.ensure("starts at zero", eq(cf(i, 0), 0))
    k.ensure("the mass of the bins below each edge", eq(cf(i, add(m, 1)), PSUM(mass(i), add(m, 1))))
    k.ensure("grows by the mass of the bin", eq(sub(cf(i, add(m, 1)), cf(i, m)), mass(i)(m)))
    k.ensure("in order", le(cf(i, m), cf(i, add(m, 1))))
    k.ensure("ends at one", eq(cf(i, n), 1))


def cum(mass):
    """cumulative values as seen by the lookups"""
    return lambda i: (lambda j: PSUM(mass(i), j))


@contract("C01 C02", "hist_pdf.hist_gen._pdf", cases=FORMS)
def hist_pdf(k, case):
    d, n, N, bf, hf, mass = hist_obj(k, False)
    x, row = request(k, case, N)
    stub_kernels(k)

    def spec(xv, r):
        return ite(BININ(bf, add(n, 1), xv), hf(r, BIN(bf, add(n, 1), xv)), 0)
    check_flat(k, case, x, row, d._pdf(x, row), spec)


def knots_lemma(k, cf, N, n, name="cumulative values"):
    """cf(i, .) non-decreasing over 0..n: from its steps"""
    ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, N), le(0, j), lt(j, n)), le(cf(i, j), cf(i, add(j, 1)))), name)


@kept
def hist_cdf_state(k):
    """histogram ensemble after _compute_cdfs, by that function's contract"""
    d, n, N, bf, hf, mass = hist_obj(k, False, norm=False)
    c = k.real("hcdfs", (N, add(n, 1)), protect=False)
    cf = fn_of(c)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), And(eq(cf(i, 0), 0), eq(cf(i, n), 1))), "ends")
    knots_lemma(k, cf, N, n)

    def compute(self):
        poke(self, _hcdfs=c)
    k.stub("hist_pdf.hist_gen._compute_cdfs", compute)
    return d, n, N, bf, hf, mass, cf


@contract("C01 C04", "hist_pdf.hist_gen._cdf", cases=FORMS)
def hist_cdf(k, case):
    d, n, N, bf, hf, mass, cf = hist_cdf_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    spec = lambda xv, r: interp(bf, lambda j: cf(r, j), add(n, 1), xv, 0, 1)
    check_flat(k, case, x, row, d._cdf(x, row), spec)


@contract("C01 C05", "hist_pdf.hist_gen._ppf", cases=FORMS)
def hist_ppf(k, case):
    d, n, N, bf, hf, mass, cf = hist_cdf_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    spec = lambda xv, r: interp(lambda j: cf(r, j), bf, add(n, 1), xv, bf(0), bf(n))
    check_flat(k, case, x, row, d._ppf(x, row), spec)


@contract("C09", "hist_pdf.hist_gen._cdf", cases=["cdf", "ppf"])
def hist_cache(k, case):
    """the cumulative values are computed at most once, and evaluations leave the densities alone"""
    d, n, N, bf, hf, mass, cf = hist_cdf_state(k)
    x, row = request(k, "flat", N)
    stub_kernels(k)
    h0, b0 = d._hpdfs, d._hbins
    m = getattr(d, "_" + case)
    one = asarr(m(x, row))
    two = asarr(m(x, row))
    p = ctx.int("p", 0)
    k.pre(lt(p, x.shape_[0]))
    k.ensure("the same again", eq(at(one, p), at(two, p)))
    k.ensure("densities and bins left alone", d._hpdfs is h0 and d._hbins is b0)


@contract("C16", "hist_pdf.hist_gen.custom_generic_moment", cases=[0, 1, 2, 3])
def hist_moment(k, m):
    d, n, N, bf, hf, mass = hist_obj(k, False)
    mid = lambda j: div(add(bf(j), bf(add(j, 1))), 2)

    def spec(i):
        return PSUM(lambda j: mul(pw(mid(j), m), mass(i)(j)), n)
    k.each_is("sum of mid-points to the power, weighted by the bins' masses", d.custom_generic_moment(m), (N,), spec)


def pw(v, m):
    r = 1
    for _ in range(m):
        r = mul(r, v)
    return r


@contract("C10 C09", "hist_pdf.hist_gen._updated_ctor_param")
def hist_params(k):
    """what a copy is rebuilt from is what the distribution holds"""
    d, n, N, bf, hf, mass = hist_obj(k, False)
    p = d._updated_ctor_param()
    k.each_is("bins", p["bins"], (add(n, 1),), lambda j: bf(j))
    k.each_is("pdfs", p["pdfs"], (N, n), lambda i, j: hf(i, j))


# ------------------------------------------------------------------------------------------------ C04, C05
def pair(k, N, name="x", lo=None, hi=None):
    """one point of one row, as a flat request"""
    x = k.real(name, (1,))
    if lo is not None:
        k.pre(And(le(lo, at(x, 0)), le(at(x, 0), hi)))
    return x


def genuine_cdf(k, d, N, lo, hi, from_zero=True):
    """non-decreasing, within [0, 1], 0 below the support, 1 above"""
    row = k.ints("row", (1,), lo=0, hi=N)
    x1, x2 = k.real("x1", (1,)), k.real("x2", (1,))
    k.pre(le(at(x1, 0), at(x2, 0)))
    y1, y2 = at(d._cdf(x1, row), 0), at(d._cdf(x2, row), 0)
    r = at(row, 0)
    k.ensure("non-decreasing", le(y1, y2))
    k.ensure("at least 0", le(0, y1))
    k.ensure("at most 1", le(y1, 1))
    k.ensure("0 below the support", Implies(lt(at(x1, 0), lo(r)), eq(y1, 0)))
    k.ensure("1 above the support", Implies(lt(hi(r), at(x1, 0)), eq(y1, 1)))
    if from_zero:
        k.ensure("0 at its start", Implies(eq(at(x1, 0), lo(r)), eq(y1, 0)))
    k.ensure("1 at its end", Implies(eq(at(x1, 0), hi(r)), eq(y1, 1)))


def inverse(k, d, N, xs, cf, n, first=lambda r: 0):
    """cdf(ppf(q)) = q between the first cumulative value and 1"""
    row = k.ints("row", (1,), lo=0, hi=N)
    q = k.real("q", (1,))
    r = at(row, 0)
    k.pre(And(lt(first(r), at(q, 0)), lt(at(q, 0), 1)))
    lo, hi = xs(r, 0), xs(r, sub(n, 1))
    x = d._ppf(q, row)
    xv = at(x, 0)
    c = cell(lambda j: cf(r, j), n, at(q, 0))
    ctx.hint(c, add(c, 1))
    k.step("ppf is in the cell of q", And(le(xs(r, c), xv), lt(xv, xs(r, add(c, 1)))))
    k.step("within the support", And(le(lo, xv), lt(xv, hi)))
    k.step("the cell of the ppf is that of q", eq(cell(lambda j: xs(r, j), n, xv), c))
    y = d._cdf(asarr(x), row)
    k.ensure("cdf(ppf(q)) is q", eq(at(y, 0), at(q, 0)))


def inverse2(k, d, N, xs, cf, n, lo, hi):
    """ppf(cdf(x)) = x where the cumulative values grow"""
    row = k.ints("row", (1,), lo=0, hi=N)
    x = k.real("x", (1,))
    r = at(row, 0)
    k.pre(And(lt(lo(r), at(x, 0)), lt(at(x, 0), hi(r))))
    c = cell(lambda j: xs(r, j), n, at(x, 0))
    k.pre(lt(cf(r, c), cf(r, add(c, 1))))
    ctx.hint(c, add(c, 1))
    y = d._cdf(x, row)
    yv = at(y, 0)
    k.pre(lt(yv, 1))
    k.step("the cdf is in the cell of x", And(le(cf(r, c), yv), lt(yv, cf(r, add(c, 1)))))
    k.step("the cell of the cdf is that of x", eq(cell(lambda j: cf(r, j), n, yv), c))
    z = d._ppf(asarr(y), row)
    k.ensure("ppf(cdf(x)) is x", eq(at(z, 0), at(x, 0)))


def ordered(k, cf, N, n, strict=False):
    """transitive form of knots_lemma (lemma: lemmas.increasing)"""
    op = lt if strict else le
    ctx.forall(3, lambda i, a, b: Implies(And(le(0, i), lt(i, N), le(0, a), lt(a, b), le(b, n)), op(cf(i, a), cf(i, b))), "ordered")


@contract("C04", "hist_pdf.hist_gen._cdf")
def hist_cdf_genuine(k):
    d, n, N, bf, hf, mass, cf = hist_cdf_state(k)
    ordered(k, cf, N, n)
    stub_kernels(k)
    genuine_cdf(k, d, N, lambda r: bf(0), lambda r: bf(n))


@contract("C05", "hist_pdf.hist_gen._ppf", cases=["cdf of ppf", "ppf of cdf"])
def hist_inverse(k, case):
    d, n, N, bf, hf, mass, cf = hist_cdf_state(k)
    ordered(k, cf, N, n)
    stub_kernels(k)
    if case == "cdf of ppf":
        inverse(k, d, N, lambda r, j: bf(j), cf, add(n, 1))
    else:
        inverse2(k, d, N, lambda r, j: bf(j), cf, add(n, 1), lambda r: bf(0), lambda r: bf(n))


# ------------------------------------------------------------------------------------------------ interp
def trap(xf, y, upto):
    """area below the polygon from its first knot to knot `upto`"""
    return PSUM(lambda j: mul(mul(sub(xf(add(j, 1)), xf(j)), 0.5), add(y(add(j, 1)), y(j))), upto)


def interp_total(xf, y, n):
    return trap(xf, y, sub(n, 1))


@contract("C03 C24", "interp_pdf.interp_gen.__init__", cases=["rows", "one", "block", "rows unchecked"], again=lambda c: c != "block")
def interp_init(k, case):
    """values over the area of the polygon, which makes every polygon integrate to one"""
    check = not case.endswith("unchecked")
    case = case.split()[0]
    n, D = k.dim("n", 2), dims(k, case)
    xvals = k.real("xvals", (n,))
    k.increasing(xvals)
    yvals = shaped(k, "yvals", D, (n,))
    k.each(yvals, lambda v, *i: le(0, v))
    xf, y = fn_of(xvals), fn_of(yvals)
    at_row = lambda i: (lambda j: y(*(i + (j,))))
    for_rows(k, D, lambda *i: lt(0, interp_total(xf, at_row(i), n)))
    kw = {} if check else dict(check_input=False)
    d = k.mod("interp_pdf").interp_gen(xvals, yvals, **kw)
    N = prod(D)
    sf = fn_of(k.shape("stored values", d._yvals, (N, n)))
    k.each_is("grid kept", d._xvals, (n,), lambda j: xf(j))
    k.ensure("support", And(eq(at(d._xmin), xf(0)), eq(at(d._xmax), xf(sub(n, 1)))))
    pos = tuple(ctx.int("e", 0) for _ in D)
    for v, s in zip(pos, D):
        k.pre(lt(v, s))
    r, j = row_of(pos, D), ctx.int("j", 0)
    k.pre(lt(j, n))
    if check:
        k.ensure("value over the area", eq(sf(r, j), div(y(*(pos + (j,))), interp_total(xf, at_row(pos), n))))
        k.ensure("integrates to one", eq(interp_total(xf, lambda j: sf(r, j), n), 1))
        k.ensure("not negative", le(0, sf(r, j)))
        if d._ycumul is not None:
            check_ycumul(k, d, N, n, xf, sf)
    else:
        k.ensure("values as given", eq(sf(r, j), y(*(pos + (j,)))))
    k.ensure("number of rows", eq(at(d._npdf), N))
    k.shape_is("ensemble shape", d._shape, D)
    k.ensure("stored as table data", d._objdata["yvals"] is d._yvals)
    k.each_is("grid in the metadata", d._metadata["xvals"], (1, n), lambda _, j: xf(j))


def check_ycumul(k, d, N, n, xf, sf, per_row=False):
    """cumulative values: half the first cell, then the area up to each knot (the stored values have area one)"""
    cf = fn_of(k.shape("cumulative values", d._ycumul, (N, n)))
    i, m = ctx.int("ci", 0), ctx.int("cm", 1)
    k.pre(And(lt(i, N), lt(m, n)))
    y = lambda j: sf(i, j)
    k.ensure("area up to each knot", eq(cf(i, m), trap(xf, y, m)))
    k.ensure("first one", eq(cf(i, 0), mul(mul(0.5, y(0)), sub(xf(1), xf(0)))))
    k.ensure("in order", le(cf(i, sub(m, 1)), cf(i, m)))
    k.ensure("ends at one", eq(cf(i, sub(n, 1)), 1))


@kept
def interp_obj(k, norm=True):
    """an interpolated ensemble as its constructor leaves it, without the cumulative values"""
    n, N = k.dim("n", 2), k.dim("npdf", 1)
    xvals, yvals = k.real("xvals", (n,)), k.real("yvals", (N, n))
    k.increasing(xvals)
    k.each(yvals, lambda v, *i: le(0, v))
    xf, y = fn_of(xvals), fn_of(yvals)
    if norm:
        ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), eq(interp_total(xf, lambda j: y(i, j), n), 1)), "normalised")
    d = k.mod("interp_pdf").interp_gen(xvals, yvals, check_input=False)
    return d, n, N, xf, y


@contract("C04", "interp_pdf.interp_gen._compute_ycumul")
def interp_cumul(k):
    d, n, N, xf, y = interp_obj(k)
    d._compute_ycumul()
    check_ycumul(k, d, N, n, xf, y)


@kept
def interp_cdf_state(k):
    """interpolated ensemble whose cumulative values obey the contract of _compute_ycumul"""
    d, n, N, xf, y = interp_obj(k, norm=False)
    c = k.real("ycumul", (N, n), protect=False)
    cf = fn_of(c)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), And(le(0, cf(i, 0)), eq(cf(i, sub(n, 1)), 1))), "ends")
    knots_lemma(k, cf, N, sub(n, 1))

    def compute(self):
        poke(self, _ycumul=c)
    k.stub("interp_pdf.interp_gen._compute_ycumul", compute)
    return d, n, N, xf, y, cf


@contract("C01", "interp_pdf.interp_gen._pdf", cases=FORMS)
def interp_pdf(k, case):
    d, n, N, xf, y = interp_obj(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._pdf(x, row), lambda xv, r: interp(xf, lambda j: y(r, j), n, xv, 0, 0))


@contract("C01 C04", "interp_pdf.interp_gen._cdf", cases=FORMS)
def interp_cdf(k, case):
    d, n, N, xf, y, cf = interp_cdf_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._cdf(x, row), lambda xv, r: interp(xf, lambda j: cf(r, j), n, xv, 0, 1))


@contract("C01 C05", "interp_pdf.interp_gen._ppf", cases=FORMS)
def interp_ppf(k, case):
    d, n, N, xf, y, cf = interp_cdf_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._ppf(x, row), lambda xv, r: interp(lambda j: cf(r, j), xf, n, xv, xf(0), xf(sub(n, 1))))


@contract("C04", "interp_pdf.interp_gen._cdf")
def interp_genuine(k):
    d, n, N, xf, y, cf = interp_cdf_state(k)
    ordered(k, cf, N, sub(n, 1))
    stub_kernels(k)
    genuine_cdf(k, d, N, lambda r: xf(0), lambda r: xf(sub(n, 1)), from_zero=False)


@contract("C05", "interp_pdf.interp_gen._ppf", cases=["cdf of ppf", "ppf of cdf"])
def interp_inverse(k, case):
    d, n, N, xf, y, cf = interp_cdf_state(k)
    ordered(k, cf, N, sub(n, 1))
    stub_kernels(k)
    lo, hi = lambda r: xf(0), lambda r: xf(sub(n, 1))
    if case == "cdf of ppf":
        inverse(k, d, N, lambda r, j: xf(j), cf, n, first=lambda r: cf(r, 0))
    else:
        inverse2(k, d, N, lambda r, j: xf(j), cf, n, lo, hi)


@contract("C16", "interp_pdf.interp_gen.custom_generic_moment", cases=[0, 1, 2, 3])
def interp_moment(k, m):
    d, n, N, xf, y = interp_obj(k)

    def spec(i):
        g = lambda j: mul(pw(xf(j), m), y(i, j))
        return trap(xf, g, sub(n, 1))
    k.each_is("trapezoids of x^m times the density", d.custom_generic_moment(m), (N,), spec)


@contract("C10 C09", "interp_pdf.interp_gen._updated_ctor_param")
def interp_params(k):
    d, n, N, xf, y = interp_obj(k)
    p = d._updated_ctor_param()
    k.each_is("xvals", p["xvals"], (n,), lambda j: xf(j))
    k.each_is("yvals", p["yvals"], (N, n), lambda i, j: y(i, j))


# ------------------------------------------------------------------------------------------------ interp_irregular
def riem(xf, y, upto):
    """the irregular parametrisation's integral: width of each cell times the value at its right"""
    return PSUM(lambda j: mul(sub(xf(add(j, 1)), xf(j)), y(add(j, 1))), upto)


@contract("C03 C24", "utils.normalize_interp1d")
def normalize_interp1d(k):
    n, N = k.dim("n", 2), k.dim("npdf", 1)
    xs, ys = k.real("xvals", (N, n)), k.real("yvals", (N, n))
    k.increasing(xs, strict=False)
    xf, y = fn_of(xs), fn_of(ys)
    tot = lambda i: riem(lambda j: xf(i, j), lambda j: y(i, j), sub(n, 1))
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), lt(0, tot(i))), "rows")
    out = k.mod("utils").normalize_interp1d(xs, ys)
    k.each_is("value over the integral", out, (N, n), lambda i, j: div(y(i, j), tot(i)))
    of = fn_of(out)
    k.all("integrates to one", (N,), lambda i: eq(riem(lambda j: xf(i, j), lambda j: of(i, j), sub(n, 1)), 1))


@contract("C03 C24", "interp_pdf.interp_irregular_gen.__init__", cases=["rows", "one", "block", "rows unchecked"])
def irregular_init(k, case):
    check = not case.endswith("unchecked")
    case = case.split()[0]
    n, D = k.dim("n", 2), dims(k, case)
    xvals, yvals = shaped(k, "xvals", D, (n,)), shaped(k, "yvals", D, (n,))
    k.increasing(xvals)
    k.each(yvals, lambda v, *i: le(0, v))
    x, y = fn_of(xvals), fn_of(yvals)
    xr = lambda i: (lambda j: x(*(i + (j,))))
    yr = lambda i: (lambda j: y(*(i + (j,))))
    tot = lambda i: riem(xr(i), yr(i), sub(n, 1))
    for_rows(k, D, lambda *i: lt(0, tot(i)))

    def normalize(xs, ys):
        # contract of utils.normalize_interp1d
        a, b = fn_of(xs), fn_of(ys)
        m = asarr(xs).shape_[-1]
        return from_fn(asarr(ys).shape_, lambda i: div(b(*i), riem(lambda j: a(i[0], j), lambda j: b(i[0], j), sub(m, 1))), "f")
    k.stub("utils.normalize_interp1d", normalize)
    d = k.mod("interp_pdf").interp_irregular_gen(xvals, yvals, **({} if check else dict(check_input=False)))
    N = prod(D)
    xs, sf = fn_of(k.shape("stored grid", d._xvals, (N, n))), fn_of(k.shape("stored values", d._yvals, (N, n)))
    pos = tuple(ctx.int("e", 0) for _ in D)
    for v, s in zip(pos, D):
        k.pre(lt(v, s))
    r, j = row_of(pos, D), ctx.int("j", 0)
    k.pre(lt(j, n))
    k.ensure("grid kept", eq(xs(r, j), x(*(pos + (j,)))))
    k.ensure("support covers the grid", And(le(at(d._xmin), xs(r, j)), le(xs(r, j), at(d._xmax))))
    k.ensure("value over the integral" if check else "values as given", eq(sf(r, j), div(y(*(pos + (j,))), tot(pos)) if check else y(*(pos + (j,)))))
    k.ensure("number of rows", eq(at(d._npdf), N))
    k.shape_is("ensemble shape", d._shape, D)
    k.ensure("stored as table data", d._objdata["yvals"] is d._yvals and d._objdata["xvals"] is d._xvals)


@kept
def irregular_obj(k, norm=True):
    n, N = k.dim("n", 2), k.dim("npdf", 1)
    xvals, yvals = k.real("xvals", (N, n)), k.real("yvals", (N, n))
    k.increasing(xvals)
    k.each(yvals, lambda v, *i: le(0, v))
    x, y = fn_of(xvals), fn_of(yvals)
    if norm:
        ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), eq(riem(lambda j: x(i, j), lambda j: y(i, j), sub(n, 1)), 1)), "normalised")
    d = k.mod("interp_pdf").interp_irregular_gen(xvals, yvals, check_input=False)
    return d, n, N, x, y


@contract("C04", "interp_pdf.interp_irregular_gen._compute_ycumul")
def irregular_cumul(k):
    d, n, N, x, y = irregular_obj(k)
    d._compute_ycumul()
    cf = fn_of(k.shape("cumulative values", d._ycumul, (N, n)))
    i, m = ctx.int("ci", 0), ctx.int("cm", 1)
    k.pre(And(lt(i, N), lt(m, n)))
    k.ensure("integral up to each knot", eq(cf(i, m), riem(lambda j: x(i, j), lambda j: y(i, j), m)))
    k.ensure("starts at zero", eq(cf(i, 0), 0))
    k.ensure("in order", le(cf(i, sub(m, 1)), cf(i, m)))
    k.ensure("ends at one", eq(cf(i, sub(n, 1)), 1))


@kept
def irregular_cdf_state(k):
    d, n, N, x, y = irregular_obj(k, norm=False)
    poke(d, _xmin=k.real("xmin", ()), _xmax=k.real("xmax", ()))   # as the constructor's contract has them
    lo, hi = at(d._xmin), at(d._xmax)
    ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, N), le(0, j), lt(j, n)), And(le(lo, x(i, j)), le(x(i, j), hi))), "support")
    c = k.real("ycumul", (N, n), protect=False)
    cf = fn_of(c)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), And(eq(cf(i, 0), 0), eq(cf(i, sub(n, 1)), 1))), "ends")
    knots_lemma(k, cf, N, sub(n, 1))

    def compute(self):
        poke(self, _ycumul=c)
    k.stub("interp_pdf.interp_irregular_gen._compute_ycumul", compute)
    return d, n, N, x, y, cf


@contract("C01", "interp_pdf.interp_irregular_gen._pdf", cases=FORMS)
def irregular_pdf(k, case):
    d, n, N, xf, y = irregular_obj(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._pdf(x, row), lambda xv, r: interp(lambda j: xf(r, j), lambda j: y(r, j), n, xv, 0, 0))


@contract("C01 C04", "interp_pdf.interp_irregular_gen._cdf", cases=FORMS)
def irregular_cdf(k, case):
    d, n, N, xf, y, cf = irregular_cdf_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._cdf(x, row), lambda xv, r: interp(lambda j: xf(r, j), lambda j: cf(r, j), n, xv, 0, 1))


@contract("C01 C05", "interp_pdf.interp_irregular_gen._ppf", cases=FORMS)
def irregular_ppf(k, case):
    d, n, N, xf, y, cf = irregular_cdf_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    last = sub(n, 1)
    ordered(k, cf, N, last)

    def about(xv, r):
        c = cell(lambda j: cf(r, j), n, xv)
        ctx.hint(c, add(c, 1), r, z3.IntVal(0), last)
        v = interp(lambda j: cf(r, j), lambda j: xf(r, j), n, xv, 0, 0)
        k.step("within the cell", Implies(And(le(0, xv), lt(xv, 1)), And(le(xf(r, c), v), le(v, xf(r, add(c, 1))))))
        k.step("on the grid", Implies(And(le(0, xv), le(xv, 1)), And(le(xf(r, 0), v), le(v, xf(r, last)))))
    out = d._ppf(x, row)
    check_flat(k, case, x, row, out, lambda xv, r: interp(lambda j: cf(r, j), lambda j: xf(r, j), n, xv, xf(r, 0), xf(r, last)), about)


@contract("C04", "interp_pdf.interp_irregular_gen._cdf")
def irregular_genuine(k):
    d, n, N, xf, y, cf = irregular_cdf_state(k)
    ordered(k, cf, N, sub(n, 1))
    stub_kernels(k)
    genuine_cdf(k, d, N, lambda r: xf(r, 0), lambda r: xf(r, sub(n, 1)))


@contract("C05", "interp_pdf.interp_irregular_gen._ppf", cases=["cdf of ppf", "ppf of cdf"])
def irregular_inverse(k, case):
    d, n, N, xf, y, cf = irregular_cdf_state(k)
    ordered(k, cf, N, sub(n, 1))
    stub_kernels(k)
    lo, hi = lambda r: xf(r, 0), lambda r: xf(r, sub(n, 1))
    if case == "cdf of ppf":
        inverse(k, d, N, xf, cf, n)
    else:
        inverse2(k, d, N, xf, cf, n, lo, hi)


@contract("C10 C09", "interp_pdf.interp_irregular_gen._updated_ctor_param")
def irregular_params(k):
    d, n, N, xf, y = irregular_obj(k)
    p = d._updated_ctor_param()
    k.each_is("xvals", p["xvals"], (N, n), lambda i, j: xf(i, j))
    k.each_is("yvals", p["yvals"], (N, n), lambda i, j: y(i, j))


# ------------------------------------------------------------------------------------------------ packed_interp
def packed_obj(k):
    """coded values of a packed ensemble, with what unpacking makes of them"""
    n, N = k.dim("n", 2), k.dim("npdf", 1)
    xvals = k.real("xvals", (n,))
    k.increasing(xvals)
    codes, ymax = k.ints("ypacked", (N, n), lo=0, hi=256), k.real("ymax", (N, 1))
    codes.buf.dtname = "uint8"
    k.each(ymax, lambda v, *i: lt(0, v))
    un = z3.Function("unpacked", I, I, R)
    ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, N), le(0, j), lt(j, n)), un(i, j) >= 0), "unpacked")

    def unpack(packing_type, packed_array, row_max=None, log_floor=-3):
        a = asarr(packed_array)
        k.ensure("its own codes and maxima are unpacked", And(eq(a.shape_[0], N), eq(a.shape_[1], n), eq(asarr(row_max).shape_[0], N)), "pre")
        q, r = ctx.int("q", 0), ctx.int("r", 0)
        cf, mf = fn_of(codes), fn_of(ymax)
        ctx.oblige("codes handed on", Implies(And(lt(q, N), lt(r, n)), eq(a.get((q, r)), cf(q, r))), "pre")
        ctx.oblige("maxima handed on", Implies(lt(q, N), eq(asarr(row_max).get((q, 0)), mf(q, 0))), "pre")
        return from_fn((N, n), lambda i: un(term(i[0]), term(i[1])), "f")
    return n, N, xvals, codes, ymax, un, unpack


@contract("C03 C13 C24", "packed_interp_pdf.packed_interp_gen.__init__", cases=["checked", "unchecked"])
def packed_init(k, case):
    n, N, xvals, codes, ymax, un, unpack = packed_obj(k)
    xf = fn_of(xvals)
    m = k.mod("packed_interp_pdf")
    k.stub("packing_utils.unpack_array", unpack)
    tot = lambda i: interp_total(xf, lambda j: un(term(i), term(j)), n)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), lt(0, tot(i))), "rows")
    d = m.packed_interp_gen(xvals, codes, ymax, check_input=(case == "checked"))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    cf, mf = fn_of(codes), fn_of(ymax)
    k.each_is("codes kept", d._ypacked, (N, n), lambda i, j: cf(i, j))
    k.each_is("maxima kept", d._ymax, (N, 1), lambda i, j: mf(i, 0))
    k.each_is("grid kept", d._xvals, (n,), lambda j: xf(j))
    k.ensure("stored as table data", d._objdata["ypacked"] is d._ypacked and d._objdata["ymax"] is d._ymax)
    if case == "checked":
        sf = fn_of(k.shape("stored values", d._yvals, (N, n)))
        k.ensure("value over the area", eq(sf(i, j), div(un(i, j), tot(i))))
        k.ensure("integrates to one", eq(interp_total(xf, lambda j: sf(i, j), n), 1))
        if d._ycumul is not None:
            check_ycumul(k, d, N, n, xf, sf)


@kept
def packed_state(k):
    """a packed ensemble as its constructor leaves it, with the contract of _compute_ycumul"""
    n, N, xvals, codes, ymax, un, unpack = packed_obj(k)
    xf = fn_of(xvals)
    k.stub("packing_utils.unpack_array", unpack)
    d = k.mod("packed_interp_pdf").packed_interp_gen(xvals, codes, ymax, check_input=False)
    yv = k.real("yvals", (N, n), protect=False)
    c = k.real("ycumul", (N, n), protect=False)
    y, cf = fn_of(yv), fn_of(c)
    poke(d, _yvals=yv, _ycumul=c)
    k.each(yv, lambda v, *i: le(0, v))
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), And(le(0, cf(i, 0)), eq(cf(i, sub(n, 1)), 1))), "ends")
    knots_lemma(k, cf, N, sub(n, 1))
    return d, n, N, xf, y, cf


@contract("C01", "packed_interp_pdf.packed_interp_gen._pdf", cases=FORMS)
def packed_pdf(k, case):
    d, n, N, xf, y, cf = packed_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._pdf(x, row), lambda xv, r: interp(xf, lambda j: y(r, j), n, xv, 0, 0))


@contract("C01 C04", "packed_interp_pdf.packed_interp_gen._cdf", cases=FORMS)
def packed_cdf(k, case):
    d, n, N, xf, y, cf = packed_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._cdf(x, row), lambda xv, r: interp(xf, lambda j: cf(r, j), n, xv, 0, 1))


@contract("C01 C05", "packed_interp_pdf.packed_interp_gen._ppf", cases=FORMS)
def packed_ppf(k, case):
    d, n, N, xf, y, cf = packed_state(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, d._ppf(x, row), lambda xv, r: interp(lambda j: cf(r, j), xf, n, xv, xf(0), xf(sub(n, 1))))


@contract("C04", "packed_interp_pdf.packed_interp_gen._cdf")
def packed_genuine(k):
    d, n, N, xf, y, cf = packed_state(k)
    ordered(k, cf, N, sub(n, 1))
    stub_kernels(k)
    genuine_cdf(k, d, N, lambda r: xf(0), lambda r: xf(sub(n, 1)), from_zero=False)


@contract("C05", "packed_interp_pdf.packed_interp_gen._ppf", cases=["cdf of ppf", "ppf of cdf"])
def packed_inverse(k, case):
    d, n, N, xf, y, cf = packed_state(k)
    ordered(k, cf, N, sub(n, 1))
    stub_kernels(k)
    lo, hi = lambda r: xf(0), lambda r: xf(sub(n, 1))
    if case == "cdf of ppf":
        inverse(k, d, N, lambda r, j: xf(j), cf, n, first=lambda r: cf(r, 0))
    else:
        inverse2(k, d, N, lambda r, j: xf(j), cf, n, lo, hi)


@contract("C16", "packed_interp_pdf.packed_interp_gen.custom_generic_moment", cases=[0, 1, 2])
def packed_moment(k, m):
    d, n, N, xf, y, cf = packed_state(k)
    k.each_is("trapezoids of x^m times the density", d.custom_generic_moment(m), (N,),
              lambda i: trap(xf, lambda j: mul(pw(xf(j), m), y(i, j)), sub(n, 1)))


@contract("C10 C09 C13", "packed_interp_pdf.packed_interp_gen._updated_ctor_param")
def packed_params(k):
    d, n, N, xf, y, cf = packed_state(k)
    a, b = fn_of(d._ypacked), fn_of(d._ymax)
    p = d._updated_ctor_param()
    k.each_is("xvals", p["xvals"], (n,), lambda j: xf(j))
    k.each_is("codes", p["ypacked"], (N, n), lambda i, j: a(i, j))
    k.each_is("maxima", p["ymax"], (N, 1), lambda i, j: b(i, j))
    k.ensure("packing", getattr(p["packing_type"], "value", p["packing_type"]) == d._packing_type and p["log_floor"] == d._log_floor)


# ------------------------------------------------------------------------------------------------ mixmod
NORM = {w: z3.Function("norm_" + w, R, R, R, R) for w in ("pdf", "cdf")}


def gauss(what, x, loc, scale):
    return NORM[what](real(x), real(loc), real(scale))


@contract("C03 C24", "mixmod_pdf.mixmod_gen.__init__", cases=["rows", "one", "block"])
def mixmod_init(k, case):
    """the weights of each mixture are the given ones over their total"""
    C, D = k.dim("ncomp", 1), dims(k, case)
    mu, sd, w = shaped(k, "means", D, (C,)), shaped(k, "stds", D, (C,)), shaped(k, "weights", D, (C,))
    k.each(w, lambda v, *i: le(0, v))
    k.each(sd, lambda v, *i: lt(0, v))
    m, s, f = fn_of(mu), fn_of(sd), fn_of(w)
    tot = lambda i: PSUM(lambda j: f(*(i + (j,))), C)
    for_rows(k, D, lambda *i: lt(0, tot(i)))
    d = k.mod("mixmod_pdf").mixmod_gen(mu, sd, w)
    N = prod(D)
    pos = tuple(ctx.int("e", 0) for _ in D)
    for v, n in zip(pos, D):
        k.pre(lt(v, n))
    r, j = row_of(pos, D), ctx.int("j", 0)
    k.pre(lt(j, C))
    wf = fn_of(k.shape("weights", d._weights, (N, C)))
    mf, sf = fn_of(k.shape("means", d._means, (N, C))), fn_of(k.shape("stds", d._stds, (N, C)))
    p = pos + (j,)
    k.ensure("weight over the total", eq(wf(r, j), div(f(*p), tot(pos))))
    k.ensure("weights add up to one", eq(PSUM(lambda j: wf(r, j), C), 1))
    k.ensure("not negative", le(0, wf(r, j)))
    k.ensure("means and widths kept", And(eq(mf(r, j), m(*p)), eq(sf(r, j), s(*p))))
    k.ensure("number of rows", eq(at(d._npdf), N))
    k.shape_is("ensemble shape", d._shape, D)
    k.ensure("stored as table data", d._objdata["weights"] is d._weights and d._objdata["means"] is d._means and d._objdata["stds"] is d._stds)


@kept
def mixmod_obj(k):
    C, N = k.dim("ncomp", 1), k.dim("npdf", 1)
    mu, sd, w = k.real("means", (N, C)), k.real("stds", (N, C)), k.real("weights", (N, C))
    k.each(w, lambda v, *i: le(0, v))
    k.each(sd, lambda v, *i: lt(0, v))
    m, s, f = fn_of(mu), fn_of(sd), fn_of(w)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), lt(0, PSUM(lambda j: f(i, j), C))), "rows")
    d = k.mod("mixmod_pdf").mixmod_gen(mu, sd, w)
    # the state its constructor leaves (contract of __init__)
    W = k.real("wts", (N, C), protect=False)
    poke(d, _weights=W)
    k.each(W, lambda v, *i: le(0, v))
    wf = fn_of(W)
    return d, C, N, m, s, wf


def mixture(what, C, m, s, wf):
    return lambda xv, r: PSUM(lambda c: mul(wf(r, c), gauss(what, xv, m(r, c), s(r, c))), C)


@contract("C01", "mixmod_pdf.mixmod_gen._pdf", cases=FORMS)
def mixmod_pdf(k, case):
    d, C, N, m, s, wf = mixmod_obj(k)
    x, row = request(k, case, N)
    check_flat(k, case, x, row, d._pdf(x, row), mixture("pdf", C, m, s, wf))


@contract("C01 C04", "mixmod_pdf.mixmod_gen._cdf", cases=FORMS)
def mixmod_cdf(k, case):
    d, C, N, m, s, wf = mixmod_obj(k)
    x, row = request(k, case, N)
    check_flat(k, case, x, row, d._cdf(x, row), mixture("cdf", C, m, s, wf))


@contract("C04", "mixmod_pdf.mixmod_gen._cdf")
def mixmod_genuine(k):
    """given Gaussian cumulatives that grow and stay within [0, 1]"""
    d, C, N, m, s, wf = mixmod_obj(k)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), eq(PSUM(lambda j: wf(i, j), C), 1)), "weights add up to one")
    row = k.ints("row", (1,), lo=0, hi=N)
    x1, x2 = k.real("x1", (1,)), k.real("x2", (1,))
    k.pre(le(at(x1, 0), at(x2, 0)))
    r = at(row, 0)
    g = lambda x: (lambda c: gauss("cdf", at(x, 0), m(r, c), s(r, c)))
    ctx.forall(1, lambda c: And(le(g(x1)(c), g(x2)(c)), le(0, g(x1)(c)), le(g(x2)(c), 1), le(g(x1)(c), 1)), "gauss")
    ctx.use("scipy.stats.norm.cdf is non-decreasing and within [0, 1]")
    y1, y2 = at(d._cdf(x1, row), 0), at(d._cdf(x2, row), 0)
    term_of = lambda x: (lambda c: mul(wf(r, c), g(x)(c)))
    k.lemma("partial sums in order", 0, C, lambda j: le(PSUM(term_of(x1), j), PSUM(term_of(x2), j)))
    k.lemma("partial sums at least 0", 0, C, lambda j: le(0, PSUM(term_of(x1), j)))
    k.lemma("partial sums at most those of the weights", 0, C, lambda j: le(PSUM(term_of(x1), j), PSUM(lambda c: wf(r, c), j)))
    k.ensure("non-decreasing", le(y1, y2))
    k.ensure("at least 0", le(0, y1))
    k.ensure("at most 1", le(y1, 1))


@contract("C01 C05", "mixmod_pdf.mixmod_gen._ppf", cases=FORMS)
def mixmod_ppf(k, case):
    """the inverse of the cumulative tabulated on 201 points spanning all components by six widths"""
    d, C, N, m, s, wf = mixmod_obj(k)
    x, row = request(k, case, N)
    stub_kernels(k)
    T = z3.Function("mixture_cdf", R, I, R)

    def cdf(self, xv, r):
        return None
    cdf.elementwise_contract = lambda self, xv, r: T(real(xv), term(r))
    k.stub("mixmod_pdf.mixmod_gen._cdf", cdf)
    ctx.hint(z3.IntVal(0))
    lo, hi = at(npshim.min_(d._means - 6 * d._stds)), at(npshim.max_(d._means + 6 * d._stds))
    k.step("the tabulated range is not empty", And(le(lo, sub(m(0, 0), mul(6, s(0, 0)))), le(add(m(0, 0), mul(6, s(0, 0))), hi), le(lo, hi)))
    gridpt = lambda j: at(npshim.linspace(lo, hi, 201), j)
    # the mixture's cumulative grows (contract of _cdf, C04): at the tabulated points
    ctx.forall(2, lambda j, r: Implies(And(le(0, j), lt(j, 200), le(gridpt(j), gridpt(add(j, 1)))), le(T(real(gridpt(j)), term(r)), T(real(gridpt(add(j, 1))), term(r)))), "grows")
    res = d._ppf(x, row)
    check_flat(k, case, x, row, res, lambda q, r: interp(lambda j: T(real(gridpt(j)), term(r)), gridpt, 201, q, lo, hi))


@contract("C10 C09", "mixmod_pdf.mixmod_gen._updated_ctor_param")
def mixmod_params(k):
    d, C, N, m, s, wf = mixmod_obj(k)
    p = d._updated_ctor_param()
    k.each_is("means", p["means"], (N, C), lambda i, j: m(i, j))
    k.each_is("stds", p["stds"], (N, C), lambda i, j: s(i, j))
    k.each_is("weights", p["weights"], (N, C), lambda i, j: wf(i, j))


# ------------------------------------------------------------------------------------------------ quantiles: padding
EPS = 2.220446049250313e-16


@contract("C15 C24", "quant_pdf.pad_quantiles")
def pad_quantiles(k):
    """the supplied pairs are kept; a probability 0 and a probability 1 are added where missing, on the continued end segments"""
    n, N = k.dim("n", 2), k.dim("npdf", 1)
    quants, locs = k.real("quants", (n,)), k.real("locs", (N, n))
    k.increasing(quants)
    k.increasing(locs)
    q, l = fn_of(quants), fn_of(locs)
    k.pre(And(le(0, q(0)), le(q(sub(n, 1)), 1)))
    out_q, out_l = k.mod("quant_pdf").pad_quantiles(quants, locs)
    lo, hi = lt(EPS, q(0)), lt(q(sub(n, 1)), 1)
    a = ite(lo, 1, 0)
    m = add(add(n, a), ite(hi, 1, 0))
    oq, ol = fn_of(k.shape("probabilities", out_q, (m,))), fn_of(k.shape("positions", out_l, (N, m)))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    k.ensure("supplied probabilities kept", eq(oq(add(j, a)), q(j)))
    k.ensure("supplied positions kept", eq(ol(i, add(j, a)), l(i, j)))
    last = sub(m, 1)
    k.ensure("first probability is 0", Implies(lo, eq(oq(0), 0)))
    k.ensure("last probability is 1", Implies(hi, eq(oq(last), 1)))
    d0, d1 = sub(q(1), q(0)), sub(q(sub(n, 1)), q(sub(n, 2)))
    s0 = sub(l(i, 1), l(i, 0))
    s1 = sub(l(i, sub(n, 1)), l(i, sub(n, 2)))
    k.ensure("first segment continued", Implies(lo, eq(mul(sub(l(i, 0), ol(i, 0)), d0), mul(q(0), s0))))
    k.ensure("last segment continued", Implies(hi, eq(mul(sub(ol(i, last), l(i, sub(n, 1))), d1), mul(sub(1, q(sub(n, 1))), s1))))
    k.ensure("outwards", And(Implies(lo, lt(ol(i, 0), l(i, 0))), Implies(hi, lt(l(i, sub(n, 1)), ol(i, last)))))


# ------------------------------------------------------------------------------------------------ quantiles: densities
def table(k, strict=True):
    """increasing probabilities and, per distribution, increasing positions"""
    n, N = k.dim("nq", 3), k.dim("npdf", 1)
    quants, locs = k.real("quants", (n,)), k.real("locs", (N, n))
    k.increasing(quants)
    k.increasing(locs)
    return n, N, quants, locs, fn_of(quants), fn_of(locs)


def ratio(q, l):
    return lambda i, j: div(sub(q(add(j, 1)), q(j)), sub(l(i, add(j, 1)), l(i, j)))


def middle(l):
    return lambda i, j: div(add(l(i, j), l(i, add(j, 1))), 2)


@contract("C15", "quantile_pdf_constructors.piecewise_linear.PiecewiseLinear.prepare_constructor")
def linear_prepare(k):
    n, N, quants, locs, q, l = table(k)
    c = k.mod("quantile_pdf_constructors.piecewise_linear").PiecewiseLinear(quants, locs)
    c.prepare_constructor()
    k.each_is("probability over distance", c._cdf_derivatives, (N, sub(n, 1)), lambda i, j: None,
              rel=lambda v, i, j: eq(mul(v, sub(l(i, add(j, 1)), l(i, j))), sub(q(add(j, 1)), q(j))))
    k.each_is("midway between neighbours", c._adjusted_locations, (N, sub(n, 1)), middle(l))
    k.all("midpoints increase", (N, sub(n, 2)), lambda i, j: lt(at(c._adjusted_locations, i, j), at(c._adjusted_locations, i, add(j, 1))))


@contract("C15", "quantile_pdf_constructors.piecewise_constant.PiecewiseConstant.prepare_constructor")
def constant_prepare(k):
    n, N, quants, locs, q, l = table(k)
    c = k.mod("quantile_pdf_constructors.piecewise_constant").PiecewiseConstant(quants, locs)
    c.prepare_constructor()
    k.each_is("midway between neighbours", c._adjusted_locations, (N, sub(n, 1)), middle(l))
    k.all("midpoints increase", (N, sub(n, 2)), lambda i, j: lt(at(c._adjusted_locations, i, j), at(c._adjusted_locations, i, add(j, 1))))
    dv, d2 = fn_of(k.shape("slopes", c._cdf_derivatives, (N, n))), fn_of(k.shape("steps", c._cdf_2nd_derivatives, (N, n)))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, sub(n, 1))))
    k.ensure("probability over distance", eq(mul(dv(i, j), sub(l(i, add(j, 1)), l(i, j))), sub(q(add(j, 1)), q(j))))
    k.ensure("step to the next", eq(d2(i, j), sub(dv(i, add(j, 1)), dv(i, j))))
    k.ensure("nothing beyond the last", And(eq(dv(i, sub(n, 1)), 0), eq(d2(i, sub(n, 1)), 0)))


@contract("C15", "quantile_pdf_constructors.dual_spline_average.DualSplineAverage.prepare_constructor")
def dual_prepare(k):
    """node values: p_0 = 0, p_i = max(0, 2 ratio_(i-1) - p_(i-1))"""
    n, N, quants, locs, q, l = table(k)
    c = k.mod("quantile_pdf_constructors.dual_spline_average").DualSplineAverage(quants, locs)
    P = z3.Function("node", I, I, R)
    rt = ratio(q, l)

    def rec(i, j):
        v = sub(mul(2, rt(i, sub(j, 1))), P(i, sub(j, 1)))
        return eq(P(i, j), ite(lt(v, 0), 0, v))
    ctx.forall(1, lambda i: eq(P(i, 0), 0), "first")
    ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, N), le(1, j), lt(j, n)), rec(i, j)), "next")
    k.invariant("prepare_constructor", locals=lambda i: {}, arrays=lambda i: [(c._p_of_zs, lambda idx: ite(le(idx[1], i), P(idx[0], idx[1]), 0))])
    c.prepare_constructor()
    k.lemma("nodes are not negative", 0, sub(n, 1), lambda j: True)
    k.each_is("node values", c._p_of_zs, (N, n), lambda i, j: P(i, j))
    k.each_is("not negative", c._p_of_zs, (N, n), None, rel=lambda v, i, j: le(0, v))


@kept
def prepared(k, cls, mod, fields):
    """a density constructor whose prepared tables obey the contract of prepare_constructor"""
    n, N, quants, locs, q, l = table(k)
    c = getattr(k.mod("quantile_pdf_constructors." + mod), cls)(quants, locs)
    return c, n, N, quants, locs, q, l


def stub_linear(k, c, n, N, q, l):
    def prepare(self):
        poke(self, _cdf_derivatives=from_fn((N, sub(n, 1)), lambda i: ratio(q, l)(*i), "f"),
             _adjusted_locations=from_fn((N, sub(n, 1)), lambda i: middle(l)(*i), "f"))
    k.stub("quantile_pdf_constructors.piecewise_linear.PiecewiseLinear.prepare_constructor", prepare)


@kept
def stub_constant(k, c, n, N):
    """tables as prepare_constructor leaves them, values left open; the midpoints increase"""
    dv, d2, mid = k.real("slopes", (N, n), protect=False), k.real("steps", (N, n), protect=False), k.real("midpoints", (N, sub(n, 1)), protect=False)
    k.increasing(mid)

    def prepare(self):
        poke(self, _cdf_derivatives=dv, _cdf_2nd_derivatives=d2, _adjusted_locations=mid)
    k.stub("quantile_pdf_constructors.piecewise_constant.PiecewiseConstant.prepare_constructor", prepare)
    return fn_of(dv), fn_of(d2), fn_of(mid)


@contract("C01 C15", "quantile_pdf_constructors.piecewise_linear.PiecewiseLinear.construct_pdf", cases=FORMS)
def linear_construct(k, case):
    c, n, N, quants, locs, q, l = prepared(k, "PiecewiseLinear", "piecewise_linear", None)
    stub_linear(k, c, n, N, q, l)
    x, row = request(k, case, N)
    stub_kernels(k)
    check_flat(k, case, x, row, c.construct_pdf(x, row),
               lambda xv, r: interp(lambda j: middle(l)(r, j), lambda j: ratio(q, l)(r, j), sub(n, 1), xv, 0, 0))


@contract("C15", "quantile_pdf_constructors.piecewise_linear.PiecewiseLinear.construct_pdf")
def linear_density(k):
    """the ratio midway between neighbours, never negative, zero outside the outer midpoints"""
    c, n, N, quants, locs, q, l = prepared(k, "PiecewiseLinear", "piecewise_linear", None)
    stub_linear(k, c, n, N, q, l)
    stub_kernels(k)
    row, x = k.ints("row", (1,), lo=0, hi=N), k.real("x", (1,))
    r, xv = at(row, 0), at(x, 0)
    y = at(c.construct_pdf(x, row), 0)
    mid, rt = middle(l), ratio(q, l)
    k.lemma("ratios are positive", 0, sub(n, 2), lambda j: lt(0, rt(r, j)))
    k.ensure("never negative", le(0, y))
    k.ensure("zero outside the outer midpoints", Implies(Or(lt(xv, mid(r, 0)), lt(mid(r, sub(n, 2)), xv)), eq(y, 0)))
    j = ctx.int("j", 0)
    k.pre(And(lt(j, sub(n, 2)), eq(xv, mid(r, j))))
    c0 = cell(lambda j: mid(r, j), sub(n, 1), xv)
    ctx.hint(j, add(j, 1), c0, add(c0, 1))
    k.ensure("the ratio midway between neighbours", eq(y, rt(r, j)))


@contract("C01 C15", "quantile_pdf_constructors.piecewise_constant.PiecewiseConstant.construct_pdf", cases=FORMS)
def constant_construct(k, case):
    c, n, N, quants, locs, q, l = prepared(k, "PiecewiseConstant", "piecewise_constant", None)
    dv, d2, mid = stub_constant(k, c, n, N)
    x, row = request(k, case, N)
    stub_kernels(k)

    def spec(xv, r):
        b = lambda j: mid(r, j)
        i = BIN(b, sub(n, 1), xv)
        return ite(BININ(b, sub(n, 1), xv), add(dv(r, i), mul(sub(xv, b(i)), d2(r, i))), 0)
    check_flat(k, case, x, row, c.construct_pdf(x, row), spec)


# ------------------------------------------------------------------------------------------------ quant
def stub_pad(k):
    """pad_quantiles by its contract, with the padded table left open: the supplied pairs and increasing ones around them"""
    pq, pl = z3.Function("padq", I, R), z3.Function("padl", I, I, R)
    seen = {}

    def pad(quants, locs):
        m = seen.setdefault("m", ctx.int("npad", 2))
        seen["in"] = (quants, locs)
        N = asarr(locs).shape_[0]
        return from_fn((m,), lambda i: pq(term(i[0])), "f"), from_fn((N, m), lambda i: pl(term(i[0]), term(i[1])), "f")
    k.stub("quant_pdf.pad_quantiles", pad)
    return seen, pq, pl


@contract("C15 C10 C24", "quant_pdf.quant_gen.__init__", cases=["rows", "one", "block", "rows unchecked"])
def quant_init(k, case):
    check = not case.endswith("unchecked")
    case = case.split()[0]
    n, D = k.dim("n", 2), dims(k, case)
    quants, locs = k.real("quants", (n,)), shaped(k, "locs", D, (n,))
    k.increasing(quants)
    k.increasing(locs)
    q, l = fn_of(quants), fn_of(locs)
    seen, pq, pl = stub_pad(k)
    d = k.mod("quant_pdf").quant_gen(quants, locs, **({} if check else dict(check_input=False)))
    N = prod(D)
    pos = tuple(ctx.int("e", 0) for _ in D)
    for v, s in zip(pos, D):
        k.pre(lt(v, s))
    r, j = row_of(pos, D), ctx.int("j", 0)
    if check:
        given_q, given_l = seen["in"]
        k.each_is("its probabilities are completed", given_q, (n,), lambda j: q(j))
        lf = fn_of(k.shape("its positions are completed", given_l, (N, n)))
        k.pre(lt(j, n))
        k.ensure("row by row", eq(lf(r, j), l(*(pos + (j,)))))
        m = seen["m"]
        k.each_is("completed probabilities", d._quants, (m,), lambda j: pq(term(j)))
        k.each_is("completed positions", d._locs, (N, m), lambda i, j: pl(term(i), term(j)))
    else:
        k.pre(lt(j, n))
        k.each_is("probabilities as given", d._quants, (n,), lambda j: q(j))
        lf = fn_of(k.shape("positions", d._locs, (N, n)))
        k.ensure("positions as given", eq(lf(r, j), l(*(pos + (j,)))))
    k.ensure("number of rows", eq(at(d._npdf), N))
    k.shape_is("ensemble shape", d._shape, D)
    k.ensure("stored as table data", d._objdata["locs"] is d._locs)
    m = d._metadata
    k.each_is("probabilities in the metadata", m["quants"], (1, asarr(d._quants).shape_[0]), lambda _, j: at(d._quants, j))
    k.ensure("the density constructor works on the stored table", d._pdf_constructor._quantiles is d._quants)
    k.each_is("and positions", d._pdf_constructor._locations, asarr(d._locs).shape_, lambda i, j: at(d._locs, i, j))


@kept
def quant_obj(k):
    n, N = k.dim("nq", 3), k.dim("npdf", 1)
    quants, locs = k.real("quants", (n,)), k.real("locs", (N, n))
    k.increasing(quants)
    k.increasing(locs)
    d = k.mod("quant_pdf").quant_gen(quants, locs, check_input=False)
    return d, n, N, fn_of(quants), fn_of(locs)


@contract("C01 C05", "quant_pdf.quant_gen._cdf", cases=FORMS)
def quant_cdf(k, case):
    d, n, N, q, l = quant_obj(k)
    x, row = request(k, case, N)
    stub_kernels(k)

    def spec(xv, r):
        xs = lambda j: l(r, j)
        v = spline("quadratic", xs, q, n, xv)
        return z3.If(real(xv) < real(xs(0)), real(0), z3.If(real(xv) > real(xs(sub(n, 1))), real(1), v))
    check_flat(k, case, x, row, d._cdf(x, row), spec)


@contract("C01 C05", "quant_pdf.quant_gen._ppf", cases=FORMS)
def quant_ppf(k, case):
    d, n, N, q, l = quant_obj(k)
    x, row = request(k, case, N)
    stub_kernels(k)

    def spec(xv, r):
        clipped = z3.If(real(xv) < real(q(0)), real(q(0)), z3.If(real(xv) > real(q(sub(n, 1))), real(q(sub(n, 1))), real(xv)))
        return spline("quadratic", q, lambda j: l(r, j), n, clipped)
    check_flat(k, case, x, row, d._ppf(x, row), spec)


@contract("C05", "quant_pdf.quant_gen._ppf")
def quant_at_table(k):
    """the supplied positions at the supplied probabilities, and back"""
    d, n, N, q, l = quant_obj(k)
    stub_kernels(k)
    row, x, p = k.ints("row", (1,), lo=0, hi=N), k.real("x", (1,)), k.real("p", (1,))
    r, j = at(row, 0), ctx.int("j", 0)
    k.pre(And(lt(j, n), eq(at(x, 0), l(r, j)), eq(at(p, 0), q(j))))
    ctx.use("scipy interp1d (quadratic) passes through its knots")
    k.pre(eq(spline("quadratic", q, lambda j: l(r, j), n, q(j)), l(r, j)))
    k.pre(eq(spline("quadratic", lambda j: l(r, j), q, n, l(r, j)), q(j)))
    k.ensure("position of the probability", eq(at(d._ppf(p, row), 0), l(r, j)))
    k.ensure("probability of the position", eq(at(d._cdf(x, row), 0), q(j)))


@contract("C10 C09", "quant_pdf.quant_gen._updated_ctor_param")
def quant_params(k):
    d, n, N, q, l = quant_obj(k)
    p = d._updated_ctor_param()
    k.each_is("quants", p["quants"], (n,), lambda j: q(j))
    k.each_is("locs", p["locs"], (N, n), lambda i, j: l(i, j))
    k.ensure("density constructor and padding", p["pdf_constructor_name"] == d._pdf_constructor_name and p["check_input"] is d._check_input)


@contract("C01 C15", "quant_pdf.quant_gen._pdf", cases=FORMS)
def quant_pdf(k, case):
    """the density constructor's value for each point and row"""
    d, n, N, q, l = quant_obj(k)
    x, row = request(k, case, N)
    V = z3.Function("density", R, I, R)

    def construct(self, grid, row=None):
        return npshim.ravel(kernel_result(grid, row, lambda xv, r: V(real(xv), term(r))))
    k.stub("quantile_pdf_constructors.piecewise_linear.PiecewiseLinear.construct_pdf", construct)
    check_flat(k, case, x, row, d._pdf(x, row), lambda xv, r: V(real(xv), term(r)))


FLAT = ["flat", "one point", "one row"]


@contract("C01 C15", "quant_pdf.quant_gen._pdf", cases=["table: " + f for f in FLAT])
def quant_pdf_table(k, case):
    """density constructors which give every distinct row at every point: the value of the point's own row is taken"""
    d, n, N, q, l = quant_obj(k)
    x, row = request(k, case.split(": ")[1], N)
    V = z3.Function("density", R, I, R)

    def construct(self, grid, row=None):
        u, g = asarr(npshim.unique(row)), asarr(grid)
        uf, gf = u.snap(), g.snap()
        return from_fn((u.shape_[0], g.shape_[0]), lambda i: V(real(gf((i[1],))), term(uf((i[0],)))), "f")
    k.stub("quantile_pdf_constructors.piecewise_linear.PiecewiseLinear.construct_pdf", construct)
    check_flat(k, case.split(": ")[1], x, row, d._pdf(x, row), lambda xv, r: V(real(xv), term(r)))


@contract("C01 C15", "quantile_pdf_constructors.cdf_spline_derivative.CdfSplineDerivative.construct_pdf", cases=["all rows"] + FLAT)
def spline_construct(k, case):
    """for every distinct requested row, the slope of the curve through that row's own table, at every point"""
    c, n, N, quants, locs, q, l = prepared(k, "CdfSplineDerivative", "cdf_spline_derivative", None)
    if case == "all rows":
        x = k.real("x", (k.dim("m"),))
        out = c.construct_pdf(x)
        u, U = (lambda i: i), N
    else:
        x, row = request(k, case, N)
        out = c.construct_pdf(x, row)
        ua = asarr(npshim.unique(row))
        u, U = fn_of(ua), ua.shape_[0]
    xf = fn_of(x)
    k.each_is("slope of the row's own curve", out, (U, x.shape_[0]), lambda i, p: spline("ius3_1_1", lambda j: l(u(i), j), q, n, xf(p)))


@contract("C01 C15", "quantile_pdf_constructors.dual_spline_average.DualSplineAverage.construct_pdf", cases=["all rows"] + FLAT)
def dual_construct(k, case):
    """for every distinct requested row, the mean of the curves through its even and its odd nodes, at every point"""
    n, N, quants, locs, q, l = table(k)
    k.pre(le(8, n))          # cubic curves through every other node need four of them each
    c = k.mod("quantile_pdf_constructors.dual_spline_average").DualSplineAverage(quants, locs)
    nodes = k.real("nodes", (N, n), protect=False)
    v = fn_of(nodes)

    def prepare(self):
        poke(self, _p_of_zs=nodes)
    k.stub("quantile_pdf_constructors.dual_spline_average.DualSplineAverage.prepare_constructor", prepare)
    if case == "all rows":
        x = k.real("x", (k.dim("m"),))
        out = c.construct_pdf(x)
        u, U = (lambda i: i), N
    else:
        x, row = request(k, case, N)
        out = c.construct_pdf(x, row)
        ua = asarr(npshim.unique(row))
        u, U = fn_of(ua), ua.shape_[0]
    xf = fn_of(x)

    def curve(r, first, xv):
        m = asarr(locs)[0, first::2].shape_[0]
        xs, ys = (lambda j: l(r, add(mul(2, j), first))), (lambda j: v(r, add(mul(2, j), first)))
        w = spline("cubic", xs, ys, m, xv)
        return z3.If(real(xv) < real(xs(0)), real(0), z3.If(real(xv) > real(xs(sub(m, 1))), real(0), w))
    k.each_is("mean of both curves", out, (U, x.shape_[0]), lambda i, p: div(add(curve(u(i), 0, xf(p)), curve(u(i), 1, xf(p))), 2))


# ------------------------------------------------------------------------------------------------ splines
def spline_data(k, D):
    n = k.dim("nknots", 1)
    return n, shaped(k, "splx", D, (n,)), shaped(k, "sply", D, (n,)), k.ints("spln", tuple(D) + (1,), lo=1, hi=6)


@contract("C01 C10 C24", "spline_pdf.spline_gen.__init__", cases=["rows", "one", "block"])
def spline_init(k, case):
    """knots, coefficients and degrees are kept, row by row"""
    D = dims(k, case)
    n, X, Y, K_ = spline_data(k, D)
    x, y, g = fn_of(X), fn_of(Y), fn_of(K_)
    d = k.mod("spline_pdf").spline_gen(splx=X, sply=Y, spln=K_)
    N = prod(D)
    pos = tuple(ctx.int("e", 0) for _ in D)
    for v, s in zip(pos, D):
        k.pre(lt(v, s))
    r, j = row_of(pos, D), ctx.int("j", 0)
    k.pre(lt(j, n))
    for nm, a, f in (("knots", d._splx, x), ("coefficients", d._sply, y)):
        k.ensure("%s kept" % nm, eq(at(k.shape(nm, a, (N, n)), r, j), f(*(pos + (j,)))))
    k.ensure("degrees kept", eq(at(k.shape("degrees", d._spln, (N, 1)), r, 0), g(*(pos + (0,)))))
    k.ensure("number of rows", eq(at(d._npdf), N))
    k.shape_is("ensemble shape", d._shape, D)
    k.ensure("stored as table data", d._objdata["splx"] is d._splx and d._objdata["sply"] is d._sply and d._objdata["spln"] is d._spln)


@kept
def spline_obj(k):
    N = k.dim("npdf", 1)
    n, X, Y, K_ = spline_data(k, (N,))
    d = k.mod("spline_pdf").spline_gen(splx=X, sply=Y, spln=K_)
    x, y, g = fn_of(X), fn_of(Y), fn_of(K_)
    return d, N, n, x, y, g


@contract("C01", "spline_pdf.spline_gen._pdf", cases=FORMS)
def spline_pdf(k, case):
    """the curve of the row at the point"""
    d, N, n, x, y, g = spline_obj(k)
    X, row = request(k, case, N)
    check_flat(k, case, X, row, d._pdf(X, row), lambda v, r: sshim.curve("splev", lambda j: x(r, j), lambda j: y(r, j), n, v, g(r, 0)))


@contract("C01", "spline_pdf.spline_gen._cdf", cases=FORMS)
def spline_cdf(k, case):
    """the integral of the curve of the row from the first knot of the ensemble to the point"""
    d, N, n, x, y, g = spline_obj(k)
    X, row = request(k, case, N)
    lo = at(d._xmin)
    check_flat(k, case, X, row, d._cdf(X, row), lambda v, r: sshim.curve("splint", lambda j: x(r, j), lambda j: y(r, j), n, lo, v, g(r, 0)))


@contract("C10 C09", "spline_pdf.spline_gen._updated_ctor_param")
def spline_params(k):
    d, N, n, x, y, g = spline_obj(k)
    p = d._updated_ctor_param()
    k.each_is("splx", p["splx"], (N, n), x)
    k.each_is("sply", p["sply"], (N, n), y)
    k.each_is("spln", p["spln"], (N, 1), g)


@contract("C01 C22 C24", "spline_pdf.build_splines")
def build_splines(k):
    """every row is the spline through its own points"""
    N, n = k.dim("npdf", 1), k.dim("n", 4)
    X, Y = k.real("xvals", (N, n)), k.real("yvals", (N, n))
    x, y = fn_of(X), fn_of(Y)
    a, b, c = k.mod("spline_pdf").build_splines(X, Y)
    row = lambda what: lambda i, j: sshim.curve(what, lambda q: x(i, q), lambda q: y(i, q), n, j)
    k.each_is("knots", a, (N, add(n, 4)), row("knot"))
    k.each_is("coefficients", b, (N, add(n, 4)), row("coef"))
    k.each_is("degrees", c, (N, 1), lambda i, _: 3)


# ------------------------------------------------------------------------------------------------ sparse
@contract("C14 C03 C24", "sparse_pdf.sparse_gen.__init__")
def sparse_init(k):
    """the weighted sum of the selected columns of the dictionary, over its area"""
    N, ns, nx, na = k.dim("npdf", 1), k.dim("nsparse", 1), k.dim("nx", 2), k.dim("nbasis", 1)
    xv, codes = k.real("xvals", (nx,)), k.ints("sparse_indices", (N, ns))
    k.increasing(xv)
    mu, sig, dm = k.real("mu", (2,)), k.real("sig", (2,)), k.ints("dims", (5,))
    A, idx, wt = k.real("basis", (nx, na)), k.ints("idx", (N, ns), 0, na), k.real("weights", (N, ns))
    xf, af, jf, wf, cf, mf, gf, df = (fn_of(v) for v in (xv, A, idx, wt, codes, mu, sig, dm))
    m = k.mod("sparse_pdf")
    q = ctx.int("q", 0)

    def create_basis(meta, cut=1e-5):
        for nm, v in (("xvals", xv), ("mu", mu), ("sig", sig), ("dims", dm)):
            f = fn_of(v)
            k.ensure("dictionary made from the given %s" % nm, Implies(lt(q, v.shape_[0]), eq(at(meta[nm], q), f(q))), "pre")
        return A

    def decode(c):
        p = ctx.int("p", 0)
        k.ensure("its own codes are decoded", Implies(And(lt(p, N), lt(q, ns)), eq(at(c, p, q), cf(p, q))), "pre")
        return idx, wt
    k.stub("sparse_rep.create_basis", create_basis)
    k.stub("sparse_rep.decode_sparse_indices", decode)
    seen = {}
    S = lambda i, x: PSUM(lambda e: mul(af(x, jf(i, e)), wf(i, e)), ns)
    tot = lambda i: interp_total(xf, lambda x: S(i, x), nx)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), lt(0, tot(i))), "rows")

    def init(self, *args, xvals=None, yvals=None, **kw):
        if args or kw:
            raise Unsupported("interp_gen with other arguments than its contract has")
        seen.update(xvals=xvals, yvals=yvals)
        poke(self, _metadata={}, _objdata=dict(yvals=yvals), _shape=(wrap(N),), _npdf=wrap(N), _xvals=xvals, _yvals=yvals)
    k.stub("interp_pdf.interp_gen.__init__", init)
    d = m.sparse_gen(xv, mu, sig, dm, codes)
    k.each_is("grid handed on", seen["xvals"], (nx,), xf)
    yf = fn_of(k.shape("values handed on", seen["yvals"], (N, nx)))
    i, x = ctx.int("i", 0), ctx.int("x", 0)
    k.pre(And(lt(i, N), lt(x, nx)))
    k.ensure("weighted sum of the selected columns over its area", eq(yf(i, x), div(S(i, x), tot(i))))
    k.ensure("only the codes are table data", list(d._objdata) == ["sparse_indices"] and d._objdata["sparse_indices"] is codes)
    for nm, v in (("xvals", xv), ("mu", mu), ("sig", sig), ("dims", dm)):
        f = fn_of(v)
        k.each_is("%s in the metadata" % nm, d._metadata[nm], (1, v.shape_[0]), lambda _, j: f(j))
