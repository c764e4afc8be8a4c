"""The kinds of the package behind the interface by which ensembles, tables and files use them (see Kind in c_ens): made from
the common data of a distribution, as its metadata hold them, and from columns, each kind holds exactly those."""
from .api import *
from . import npshim, sshim
from .c_ens import selection
from .c_dist import (PSUM, hist_obj, interp_obj, irregular_obj, packed_obj, quant_obj, spline_obj, interp_total, shaped)


def mixmod_data(k):
    C, N = k.dim("ncomp", 1), k.dim("npdf", 1)
    mu, sd, w = k.real("means", (N, C)), k.real("stds", (N, C)), k.real("weights", (N, C))
    k.each(w, lambda v, *i: le(0, v))
    k.each(sd, lambda v, *i: lt(0, v))
    f = fn_of(w)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), eq(PSUM(lambda j: f(i, j), C), 1)), "normalised")
    return N, k.mod("mixmod_pdf").mixmod_gen, {}, dict(means=mu, stds=sd, weights=w)


def hist_data(k):
    d, n, N, bf, hf, mass = hist_obj(k, False)
    return N, type(d), dict(bins=d._hbins), dict(pdfs=d._hpdfs)


def interp_data(k):
    d, n, N, xf, y = interp_obj(k)
    return N, type(d), dict(xvals=d._xvals), dict(yvals=d._yvals)


def irregular_data(k):
    d, n, N, x, y = irregular_obj(k)

    def normalize(xs, ys):
        # contract of utils.normalize_interp1d
        a, b = fn_of(xs), fn_of(ys)
        m = asarr(xs).shape_[-1]
        tot = lambda r: PSUM(lambda j: mul(sub(a(r, add(j, 1)), a(r, j)), b(r, add(j, 1))), sub(m, 1))
        return from_fn(asarr(ys).shape_, lambda i: div(b(*i), tot(i[0])), "f")
    k.stub("utils.normalize_interp1d", normalize)
    return N, type(d), {}, dict(xvals=d._xvals, yvals=d._yvals)


def packed_data(k):
    """codes are unpacked one by one, with the maximum of their row"""
    n, N = k.dim("n", 2), k.dim("npdf", 1)
    xvals = k.real("xvals", (n,))
    k.increasing(xvals)
    codes, ymax = k.ints("ypacked", (N, n), lo=0, hi=256), k.real("ymax", (N, 1))
    codes.buf.dtname = "uint8"
    U = z3.Function("unpacked", I, R, R)
    cf, mf, xf = fn_of(codes), fn_of(ymax), fn_of(xvals)

    def unpack(packing_type, packed_array, row_max=None, log_floor=-3):
        a, m = fn_of(asarr(packed_array)), fn_of(asarr(row_max))
        return from_fn(asarr(packed_array).shape_, lambda i: U(term(a(*i)), real(m(i[0], 0))), "f")
    k.stub("packing_utils.unpack_array", unpack)
    un = lambda i, j: U(term(cf(i, j)), real(mf(i, 0)))
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), lt(0, interp_total(xf, lambda j: un(i, j), n))), "rows")
    common = dict(xvals=xvals, packing_type=1, log_floor=-2.5)
    return N, k.mod("packed_interp_pdf").packed_interp_gen, common, dict(ypacked=codes, ymax=ymax)


def quant_data(k, name=None, check=True):
    n, N = k.dim("nq", 3), k.dim("npdf", 1)
    quants, locs = k.real("quants", (n,)), k.real("locs", (N, n))
    k.increasing(quants)
    k.increasing(locs)
    if check:
        k.pre(And(eq(at(quants, 0), 0), eq(at(quants, sub(n, 1)), 1)))
    common = dict(quants=quants, check_input=check)
    if name:
        common["pdf_constructor_name"] = name
    return N, k.mod("quant_pdf").quant_gen, common, dict(locs=locs)


def spline_kind(k):
    d, N, n, x, y, g = spline_obj(k)
    return N, type(d), {}, dict(splx=d._splx, sply=d._sply, spln=d._spln)


def sparse_data(k):
    N, ns, nx, na = k.dim("npdf", 1), k.dim("nsparse", 1), k.dim("nx", 2), k.dim("nbasis", 1)
    xv, codes = k.real("xvals", (nx,)), k.ints("sparse_indices", (N, ns))
    k.increasing(xv)
    mu, sig, dm = k.real("mu", (2,)), k.real("sig", (2,)), k.ints("dims", (5,))
    A = k.real("basis", (nx, na))
    IX, WT = z3.Function("idx", I, I), z3.Function("wt", I, R)
    cf, xf, af = fn_of(codes), fn_of(xv), fn_of(A)
    ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, N), le(0, j), lt(j, ns)), And(IX(cf(i, j)) >= 0, IX(cf(i, j)) < na)), "columns of the dictionary")
    m = k.mod("sparse_pdf")
    k.stub("sparse_rep.create_basis", lambda meta, cut=1e-5: A)

    def decode(c):
        # one by one
        f = fn_of(asarr(c))
        shp = asarr(c).shape_
        return from_fn(shp, lambda i: IX(term(f(*i))), "i"), from_fn(shp, lambda i: WT(term(f(*i))), "f")
    k.stub("sparse_rep.decode_sparse_indices", decode)
    tot = lambda i: interp_total(xf, lambda x: PSUM(lambda e: mul(af(x, IX(cf(i, e))), WT(cf(i, e))), ns), nx)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), lt(0, tot(i))), "rows")
    real_init = k.mod("interp_pdf").interp_gen.__init__

    def init(self, *args, xvals=None, yvals=None, **kw):
        # its grid and shape; that its values are over their area is the contract of interp_gen.__init__
        real_init(self, xvals, yvals, *args, check_input=False, **kw)
    k.stub("interp_pdf.interp_gen.__init__", init)
    return N, m.sparse_gen, dict(xvals=xv, mu=mu, sig=sig, dims=dm), dict(sparse_indices=codes)


MAKERS = dict(hist=hist_data, interp=interp_data, interp_irregular=irregular_data, packed_interp=packed_data, mixmod=mixmod_data,
              spline=spline_kind, sparse=sparse_data)
MAKERS["quant"] = quant_data
for _n in ("piecewise_linear", "piecewise_constant", "dual_spline_average", "cdf_spline_derivative"):
    MAKERS["quant " + _n] = (lambda nm: lambda k: quant_data(k, nm))(_n)
MAKERS["quant unchecked"] = lambda k: quant_data(k, "piecewise_constant", False)


def same_entry(k, name, got, want):
    """two entries of a metadata table: equal arrays, or equal texts and flags"""
    k.ensure(name + ": of the same type", asarr(got).buf.dtype == asarr(want).buf.dtype)
    b = asarr(want)
    f = fn_of(b)
    k.each_is(name, got, b.shape_, lambda *i: f(*i))


@contract("C07 C08 C09 C10 C11 C12", "pdf_gen.Pdf_rows_gen.create_gen", cases=sorted(MAKERS), size=3)
def kinds_hold(k, case):
    """every kind, made from common data and columns as another one of the kind holds them, holds the same columns and common data
    and has a distribution for every row (the interface which ensembles, tables and files rely on)"""
    N, cls, common, cols = MAKERS[case](k)
    first = cls(**common, **cols)
    md = dict(first.metadata)
    data = {c: npshim.squeeze(v) for c, v in md.items() if c not in ("pdf_name", "pdf_version")}
    rows = {c: fn_of(v) for c, v in cols.items()}
    fr = cls.create(**data, **cols)
    dist = fr.dist
    k.ensure("of the same kind", type(dist) is cls)
    k.ensure("columns", set(dist.objdata) == set(cols))
    for c, v in cols.items():
        k.each_is("column %s" % c, dist.objdata[c], v.shape_, rows[c])
    k.ensure("common data", set(dist.metadata) == set(md) == set(common) | set(md))
    for c, v in md.items():
        k.ensure("an axis of length one leads in %s" % c, asarr(v).shape_[0] == 1)
        same_entry(k, "common %s" % c, dist.metadata[c], v)
    for c, v in common.items():
        if isinstance(v, Arr):
            f = fn_of(v)
            k.each_is("%s as given" % c, md[c], (1,) + tuple(v.shape_), lambda _, *i: f(*i))
        else:
            same_entry(k, "%s as given" % c, md[c], npshim.array([v.encode() if isinstance(v, str) else v]))
    same_entry(k, "named after its kind", md["pdf_name"], npshim.array([cls.name.encode()]))
    k.ensure("number of distributions", eq(rawi(fr.npdf), N))
    k.shape_is("ensemble shape", fr.shape, (N,))
    k.each_is("row numbers", fr.kwds["row"], (N, 1), lambda i, _: i)
    k.ensure("nothing else is frozen", set(fr.kwds) == {"row"})


# ------------------------------------------------------------------------------------------------ ensembles of the real kinds
def is_kind(k, name, e, cls, n, cols, common, row, anc=None):
    """the ensemble is of the kind and holds exactly the rows row(j) of the columns, and the common data"""
    od, md = e.objdata(), e.metadata()
    k.ensure(name + ": of the same kind", e.gen_class is cls and type(e.gen_obj) is cls)
    k.ensure(name + ": columns", set(od) == set(cols))
    for c, f in cols.items():
        per = tuple(asarr(od[c]).shape_[1:])
        k.each_is("%s: column %s" % (name, c), od[c], (n,) + per, lambda j, *i: f(*((row(j),) + i)))
    k.ensure(name + ": common data", set(md) == set(common))
    for c, v in common.items():
        same_entry(k, "%s: common %s" % (name, c), md[c], v)
    k.ensure(name + ": number of distributions", eq(rawi(e.npdf), n))
    k.ensure(name + ": ancillary columns", (e.ancil is None) == (anc is None) and set(e.ancil or {}) == set(anc or {}))
    for c, v in (anc or {}).items():
        f = fn_of(v)
        per = tuple(v.shape_[1:])
        k.each_is("%s: ancillary %s" % (name, c), e.ancil[c], (n,) + per, lambda j, *i: f(*((row(j),) + i)))


def area(k, kind, given):
    """what a distribution of row i of the given data integrates to, by the rule of the kind"""
    if kind == "hist":
        b, h = fn_of(asarr(given["bins"])), fn_of(asarr(given["pdfs"]))
        n = asarr(given["pdfs"]).shape_[-1]
        return asarr(given["pdfs"]).shape_[0], lambda i: PSUM(lambda j: mul(h(i, j), sub(b(add(j, 1)), b(j))), n)
    x, y = fn_of(asarr(given["xvals"])), fn_of(asarr(given["yvals"]))
    N, n = asarr(given["yvals"]).shape_
    if kind == "interp":
        return N, lambda i: interp_total(x, lambda j: y(i, j), n)
    return N, lambda i: PSUM(lambda j: mul(sub(x(i, add(j, 1)), x(i, j)), y(i, add(j, 1))), sub(n, 1))


def by_contract(k, kind, cls):
    """constructors of normalising kinds by what is shown of them in kinds_hold: data which integrate to one are kept"""
    if kind not in ("hist", "interp", "interp_irregular", "packed_interp"):
        return
    orig = cls.__init__

    def init(self, *args, **kw):
        if args or kw.pop("check_input", True) is not True:
            raise Unsupported("constructor called in another way")
        if kind != "packed_interp":
            n, tot = area(k, kind, kw)
            i = ctx.int("i", 0)
            ctx.oblige("data of a distribution integrate to one", Implies(lt(i, n), eq(tot(i), 1)), "pre")
        orig(self, check_input=False, **kw)
    k.stub("%s.%s.__init__" % (cls.__module__.split("qp.")[-1], cls.__name__), init)


def of_kind(k, case):
    """an ensemble of the kind with an ancillary table, and what it holds"""
    N, cls, common, cols = MAKERS[case](k)
    by_contract(k, case, cls)
    E = k.mod("ensemble").Ensemble
    anc = dict(ident=k.ints("ident", (N,)), mags=k.real("mags", (N, k.dim("nmag", 1))))
    e = E(cls.create, dict(common, **cols), dict(anc))
    rows = {c: fn_of(v) for c, v in cols.items()}
    return N, cls, e, rows, dict(e.metadata()), anc


REAL = [c for c in sorted(MAKERS) if not (c.startswith("quant ") and c.split()[1] not in ("unchecked", "cdf_spline_derivative"))]


@contract("C07 C24", "ensemble.Ensemble.__getitem__", cases=["%s, %s" % (c, h) for c in REAL for h in ("python int", "slice from", "mask", "list")], size=2, again=False)
def real_getitem(k, case):
    """for the kinds of the package: an ensemble of that kind with the same common data and exactly the selected rows of the data
    and of the ancillary table"""
    kind, how = case.split(", ")
    N, cls, e, rows, md, anc = of_kind(k, kind)
    key, n, row = selection(k, N, how)
    if n is not None:
        k.pre(le(1, n))
    s = e[key]
    same = lambda j: j
    is_kind(k, "selected", s, cls, 1 if n is None else n, rows, md, (lambda j: row(0)) if n is None else row, anc)
    is_kind(k, "original", e, cls, N, rows, md, same, anc)


@contract("C10 C24", "factory.Factory.from_tables", cases=REAL, size=2)
def real_tables(k, kind):
    """for the kinds of the package: the ensemble made from the tables of another one, with the texts as files give them, is of
    the same kind and holds the same"""
    N, cls, e, rows, md, anc = of_kind(k, kind)
    f = k.mod("factory").Factory()
    f.add_class(cls)
    r = f.from_tables(e.build_tables())
    same = lambda j: j
    is_kind(k, "read back", r, cls, N, rows, md, same, anc)
    is_kind(k, "original", e, cls, N, rows, md, same, anc)


@contract("C08 C24", "factory.Factory.concatenate", cases=["%s, %s" % (c, h) for c in REAL if c != "mixmod" for h in ("concatenate", "append")], size=2, again=lambda c: not c.startswith("quant"))
def real_concatenate(k, case):
    """for the kinds of the package: two parts of an ensemble put together again, in the other order"""
    kind, how = case.split(", ")
    N, cls, e, rows, md, anc = of_kind(k, kind)
    m = k.ints("cut", (), lo=1, hi=N)
    at0 = at(m)
    front, back = e[:m], e[m:]
    if how == "concatenate":
        r = k.mod("factory").Factory.concatenate([back, front])
    else:
        r = back
        r.append(front)
    n1 = sub(N, at0)
    is_kind(k, "together", r, cls, N, rows, md, lambda j: ite(lt(j, n1), add(at0, j), sub(j, n1)), anc)
    is_kind(k, "the front", front, cls, at0, rows, md, lambda j: j, anc)
