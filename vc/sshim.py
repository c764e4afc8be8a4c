"""Contracts assumed of scipy, tables_io and the standard library's I/O, in place of their code.

interp1d (linear): value of the piecewise linear curve through (x_k, y_k), with the fill values outside; requires two or
more knots in order.  Other kinds: an uninterpreted function of the knots and the point.
rv_continuous: pdf/cdf/ppf/sf/... of a frozen distribution hand the broadcast, flattened arguments for which the call is
defined to the underscored method, and put the results back at the same positions."""
import types
import z3
from .sym import *
from . import sym, npshim


# ------------------------------------------------------------------------------------------------ interpolation
def cell(xs, n, x):
    """numpy.interp's cell of x among the knots"""
    return functional("brk", xs, n, extra=(real(x),), sort=I)


def interp(xs, ys, n, x, lo, hi):
    """piecewise linear through (xs(k), ys(k)), k < n; lo and hi outside.  Within the knots the value is the symbol "lin",
    which the solver may unfold to its definition (solve.ax_lin)"""
    x = real(x)
    mid = functional("lin", lambda k: sym.PAIR(real(xs(k)), real(ys(k))), n, extra=(x,))
    if lo is not None:
        mid = z3.If(x < real(xs(0)), real(lo), mid)
    if hi is not None:
        mid = z3.If(real(xs(sub(n, 1))) < x, real(hi), mid)
    return mid


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        x, y = asarr(x), asarr(y)
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        self.n = x.shape_[0]
        self.x, self.y, self.axis = x.copy(), y.copy(), axis % max(1, y.ndim)
        if self.axis != y.ndim - 1 and self.axis != 0:
            raise Unsupported("interp1d axis")
        ny = y.shape_[self.axis]
        if not (eq(ny, self.n) is True or ctx.branch(eq(ny, self.n))):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.kind = kind
        extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        if extrap and kind == "linear":
            raise Unsupported("linear extrapolation")
        self.lo = self.hi = None
        if not extrap:
            if isinstance(fill_value, tuple) and len(fill_value) == 2:
                self.lo, self.hi = asarr(fill_value[0]), asarr(fill_value[1])
            else:
                self.lo = self.hi = asarr(fill_value)
            for f in (self.lo, self.hi):
                if f.ndim:
                    raise Unsupported("array fill values")
        default = isinstance(fill_value, float) and fill_value != fill_value
        self.strict = (bounds_error is None and default) or bool(bounds_error)
        self.extrap = extrap
        xf = self.x.snap()
        from . import npshim
        if kind == "linear":
            need = 2 if False else 1
            if not ctx.branch(le(2, self.n)):
                raise Unsupported("interp1d with fewer than two knots")
            k = ctx.int("kn")
            rng = And(le(0, k), lt(add(k, 1), self.n))
            op = lt if y.ndim > 1 else le
            ctx.oblige("interpolation knots in order", Implies(rng, op(xf((k,)), xf((add(k, 1),)))), "pre")
            ctx.forall(1, lambda k: Implies(And(le(0, k), lt(add(k, 1), self.n)), le(xf((k,)), xf((add(k, 1),)))), "knots")
            ctx.use("scipy interp1d (linear): the piecewise linear curve through the knots; at repeated knots the convention of numpy.interp")
        else:
            ctx.use("scipy interp1d (%s): a function of the knots and of the point alone" % kind)

    def __call__(self, xn):
        xn = asarr(xn)
        xf, yf = self.x.snap(), self.y.snap()
        n = self.n
        lo = self.lo.get(()) if self.lo is not None else None
        hi = self.hi.get(()) if self.hi is not None else None
        if self.strict:
            vs = tuple(ctx.int("xi") for _ in xn.shape_)
            rng = And(*[And(le(0, v), lt(v, s)) for v, s in zip(vs, xn.shape_)])
            t = xn.get(vs)
            inside = And(le(xf((0,)), t), le(t, xf((sub(n, 1),))))
            ctx.oblige("interpolation point within the knots (a ValueError otherwise)", Implies(rng, inside), "safety")
            lo = hi = None
        nd = xn.ndim
        g = xn.snap()
        oth = [d for k, d in enumerate(self.y.shape_) if k != self.axis]
        before = self.axis            # axes before the interpolation axis
        shape = tuple(oth[:before]) + tuple(xn.shape_) + tuple(oth[before:])

        def val(idx):
            pre, core, post = idx[:before], idx[before:before + nd], idx[before + nd:]
            x = g(tuple(core))
            xs = lambda k: xf((k,))
            ys = lambda k: yf(tuple(pre) + (k,) + tuple(post))
            if self.kind == "linear":
                return interp(xs, ys, n, x, lo, hi)
            kn = "%s%s" % (self.kind, "_extrap" if self.extrap else "")
            v = spline(kn, xs, ys, n, x)
            if not self.extrap and lo is not None:
                v = z3.If(real(x) < real(xs(0)), real(lo), z3.If(real(x) > real(xs(sub(n, 1))), real(hi), v))
            return v
        return from_fn(shape, val, "f")


def spline(kind, xs, ys, n, x):
    """the interpolating curve of another kind: a function of the knots, their values and the point"""
    return functional("spl|" + kind, lambda k: sym.PAIR(real(xs(k)), real(ys(k))), n, extra=(real(x),))


def curve(what, t, c, n, *extra):
    """a function of the knots, the coefficients and what else is given"""
    return functional("spl|" + what, lambda k: sym.PAIR(real(t(k)), real(c(k))), n, extra=tuple(real(e) for e in extra))


def tck_of(tck):
    t, c, k = tck
    t, c, k = asarr(t), asarr(c), asarr(k)
    if t.ndim != 1 or c.ndim != 1 or k.ndim != 0:
        raise Unsupported("a spline that is not (knots, coefficients, degree)")
    if not (eq(t.shape_[0], c.shape_[0]) is True or ctx.branch(eq(t.shape_[0], c.shape_[0]))):
        raise Unsupported("knots and coefficients of different lengths")
    tf, cf = t.snap(), c.snap()
    return (lambda j: tf((j,))), (lambda j: cf((j,))), t.shape_[0], k.get(())


def splev(x, tck, der=0, ext=0):
    if der != 0 or ext != 0:
        raise Unsupported("splev options")
    ctx.use("scipy splev: a function of the knots, coefficients, degree and of the point alone")
    t, c, n, k = tck_of(tck)
    return elementwise(lambda v: curve("splev", t, c, n, v, k), [x], "f")


def splint(a, b, tck, full_output=0):
    if full_output:
        raise Unsupported("splint options")
    ctx.use("scipy splint: a function of the limits, knots, coefficients and degree")
    t, c, n, k = tck_of(tck)
    return elementwise(lambda u, v: curve("splint", t, c, n, u, v, k), [a, b], "f")


def splrep(x, y, **kw):
    """knots, coefficients and degree of the cubic spline through the points: functions of the points"""
    if kw:
        raise Unsupported("splrep options")
    ctx.use("scipy splrep: knots (four more than points) and coefficients are functions of the points; degree 3")
    x, y = asarr(x), asarr(y)
    xf, yf, n = x.snap(), y.snap(), x.shape_[0]
    xs, ys = (lambda j: xf((j,))), (lambda j: yf((j,)))
    m = add(n, 4)
    return (from_fn((m,), lambda i: curve("knot", xs, ys, n, i[0]), "f"), from_fn((m,), lambda i: curve("coef", xs, ys, n, i[0]), "f"), 3)


AT = z3.Function("the real number", I, R)
MANY = z3.Int("how many reals")


def quad(func, a, b, *args, **kw):
    """the integral of the function between the limits (and an error estimate): determined by the function's values at all reals"""
    if args or kw:
        raise Unsupported("quad options")
    ctx.use("scipy quad: determined by the function and the limits")
    a, b = (asarr(v).get(()) for v in (a, b))
    body = lambda j: real(asarr(func(wrap(AT(term(j))))).get(()))
    return wrap(functional("quad", body, MANY, extra=(real(a), real(b)))), 0.0


class gaussian_kde:
    """assumed of scipy: the estimate is determined by the samples alone, and evaluated point by point"""
    def __init__(self, dataset, bw_method=None, weights=None):
        if bw_method is not None or weights is not None:
            raise Unsupported("gaussian_kde options")
        self.d = asarr(dataset)
        if self.d.ndim != 1:
            raise Unsupported("gaussian_kde of several dimensions")
        self.f, self.n = self.d.snap(), self.d.shape_[0]
        ctx.use("scipy gaussian_kde: determined by the samples, evaluated point by point")

    def sym_subst(self, i, w):
        r = object.__new__(gaussian_kde)
        f = self.f
        r.f, r.n = (lambda j: z3.substitute(term(f(j)), (i, term(w)))), z3.substitute(term(self.n), (i, term(w))) if is_t(self.n) else self.n
        return r

    def __call__(self, points):
        x = asarr(points)
        if x.ndim > 1:
            raise Unsupported("gaussian_kde at points of several dimensions")
        x = x if x.ndim else x.reshape(1)
        return elementwise(lambda v: kde(lambda j: self.f((j,)), self.n, v), [x], "f")

    evaluate = pdf = __call__


def kde(sample, n, x):
    return functional("kde", lambda j: real(sample(j)), n, extra=(real(x),))


class InterpolatedUnivariateSpline:
    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, **kw):
        self.x, self.y, self.k, self.ext = asarr(x), asarr(y), k, ext
        self.nu = 0
        ctx.use("scipy InterpolatedUnivariateSpline: a function of the knots and of the point alone")

    def derivative(self, n=1):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.nu = self.nu + n
        return r

    def __call__(self, xn):
        xf, yf, n = self.x.snap(), self.y.snap(), self.x.shape_[0]
        return elementwise(lambda x: spline("ius%d_%d_%s" % (self.k, self.nu, self.ext), lambda k: xf((k,)), lambda k: yf((k,)), n, x), [xn], "f")


# ------------------------------------------------------------------------------------------------ distributions
def B_(t):
    return t if not isinstance(t, z3.ExprRef) or z3.is_bool(t) else t != 0


def _flat(idx, shp):
    r = 0
    for i, d in zip(idx, shp):
        r = add(mul(r, d), i)
    return r


class rv_generic:
    def __init__(self, seed=None):
        super().__init__()


INFTY = float("inf")


class rv_continuous(rv_generic):
    def __init__(self, momtype=1, a=None, b=None, xtol=1e-14, badvalue=None, name=None, longname=None, shapes=None, seed=None):
        super().__init__(seed)
        self._ctor_param = dict(momtype=momtype, a=a, b=b, xtol=xtol, badvalue=badvalue, name=name, longname=longname, shapes=shapes)
        if name is None:
            name = "Distribution"
        self.badvalue = float("nan") if badvalue is None else badvalue
        self.name = name
        self.a, self.b = a, b
        if a is None:
            self.a = -INFTY
        if b is None:
            self.b = INFTY
        self.xtol, self.moment_type, self.shapes = xtol, momtype, shapes

    def __call__(self, *a, **k):
        return self.freeze(*a, **k)

    def freeze(self, *a, **k):
        return rv_continuous_frozen(self, *a, **k)

    def _updated_ctor_param(self):
        d = dict(self._ctor_param)
        d["a"], d["b"], d["xtol"], d["badvalue"], d["name"], d["shapes"] = self.a, self.b, self.xtol, self.badvalue, self.name, self.shapes
        return d

    def _support_mask(self, x, *args):
        raise Unsupported("support mask called by the code")

    # ---- evaluation layer
    def _dispatch(self, what, x, args, kw, cond=None, outside=None):
        loc, scale = kw.pop("loc", 0), kw.pop("scale", 1)
        kw.pop("moments", None)
        row = kw.pop("row", None)
        if row is not None:
            args = (row,) + tuple(args)
        if kw or not (isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1):
            raise Unsupported("location or scale in a call of a row distribution")
        if len(args) != 1:
            raise TypeError("parse_args() takes the row")
        x, row = asarr(x), asarr(args[0])
        ctx.use("scipy.stats rv_continuous.%s: hands the broadcast flattened arguments on to the underscored method" % what.strip("_"))
        shape = broadcast_shapes(x.shape_, row.shape_)
        xf, rf = bshape_index(x, shape), bshape_index(row, shape)
        if not self._infinite():
            raise Unsupported("a bounded support")
        meth = getattr(self, what)
        if getattr(meth, "elementwise_contract", None):
            g = meth.elementwise_contract
            r = from_fn(shape, lambda idx: g(self, xf(idx), rf(idx)), "f")
        else:
            m = ctx.int("m", 1)
            # the arguments for which the method is called, as flat arrays: any selection of positions
            pos = z3.Function(ctx.name("pos"), *([I] * max(1, len(shape)) + [I]))
            back = [z3.Function(ctx.name("pos%d" % d), I, I) for d in range(len(shape))]

            def full(p):
                return tuple(b(term(p)) for b in back)
            X = from_fn((m,), lambda i: xf(full(i[0])), "f")
            RO = from_fn((m,), lambda i: rf(full(i[0])), "i")
            p = z3.Int("p?")
            ctx.forall(1, lambda p: Implies(And(le(0, p), lt(p, m)), And(*[And(le(0, b(p)), lt(b(p), d)) for b, d in zip(back, shape)])), "pos")
            good = lambda idx: True
            if shape:
                ctx.forall(len(shape), lambda *i: Implies(And(*[And(le(0, v), lt(v, d)) for v, d in zip(i, shape)]),
                           And(le(0, pos(*i)), lt(pos(*i), m), *[b(pos(*i)) == v for b, v in zip(back, i)])), "posback")
            res = asarr(meth(X, RO))
            if not ctx.branch(eq(prod(res.shape_), m)):
                raise ValueError("result of %s has another size than its arguments" % what)
            flat = npshim.ravel(res).snap()
            r = from_fn(shape, lambda idx: flat((pos(*[term(v) for v in idx]) if shape else 0,)), "f")
        if what in ("_ppf", "_isf"):
            f = r.snap()
            lo, hi = term(self.a), term(self.b)
            if what == "_isf":
                lo, hi = hi, lo
            r = from_fn(shape, lambda idx: (lambda q: z3.If(q == 0, lo, z3.If(q == 1, hi, z3.If(And(lt(0, q), lt(q, 1)), real(f(idx)), NAN))))(real(xf(idx))), "f")
        return r if r.ndim else wrap(r.get(()))

    def _infinite(self):
        return all(isinstance(v, float) and v in (INFTY, -INFTY) for v in (self.a, self.b))

    def pdf(self, x, *a, **k): return self._dispatch("_pdf", x, a, k)
    def cdf(self, x, *a, **k): return self._dispatch("_cdf", x, a, k)
    def ppf(self, x, *a, **k): return self._dispatch("_ppf", x, a, k)
    def sf(self, x, *a, **k): return self._dispatch("_sf", x, a, k)
    def isf(self, x, *a, **k): return self._dispatch("_isf", x, a, k)
    def logpdf(self, x, *a, **k): return npshim.log(self._dispatch("_pdf", x, a, k))
    def logcdf(self, x, *a, **k): return npshim.log(self._dispatch("_cdf", x, a, k))

    def _sf(self, x, *a):
        return 1.0 - self._cdf(x, *a)

    def _isf(self, q, *a):
        return self._ppf(1.0 - q, *a)

    # ---- summaries (rows of location 0 and scale 1 whose arguments pass _argcheck)
    def _rows(self, args, kw):
        loc, scale = kw.pop("loc", 0), kw.pop("scale", 1)
        row = kw.pop("row", None)
        if row is not None:
            args = (row,) + tuple(args)
        if kw or len(args) != 1 or not (isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1):
            raise Unsupported("summary of a row distribution with other arguments")
        row = asarr(args[0])
        ok = asarr(self._argcheck(row))
        i = tuple(ctx.int("ac") for _ in ok.shape_)
        ctx.oblige("arguments pass _argcheck", Implies(And(*[And(le(0, v), lt(v, d)) for v, d in zip(i, ok.shape_)]), B_(ok.get(i))), "pre")
        return row

    def _munp(self, n, *args):
        raise Unsupported("moments by numerical integration")

    def _moment(self, n, row):
        flat = npshim.ravel(row)
        v = asarr(self._munp(n, flat))
        size = flat.shape_[0]
        if v.ndim == 0:
            return from_fn((size,), lambda i: v.get(()), "f")
        if not (eq(prod(v.shape_), size) is True or ctx.branch(eq(prod(v.shape_), size))):
            raise ValueError("as many moments as rows")
        return npshim.ravel(v)

    def _placed(self, v, row):
        f, shp = v.snap(), row.shape_
        return from_fn(shp, lambda i: f((_flat(i, shp),)), "f")

    def stats(self, *args, **kw):
        moments = kw.pop("moments", "mv")
        row = self._rows(args, kw)
        ctx.use("scipy.stats rv_continuous.stats/mean/var/std: _munp(1), _munp(2) - _munp(1)^2 and its root, put back in the order of the rows")
        if any(c not in "mv" for c in moments):
            raise Unsupported("skewness and kurtosis")
        out, m1 = [], self._moment(1, row)
        if "m" in moments:
            out.append(self._placed(m1, row))
        if "v" in moments:
            out.append(self._placed(self._moment(2, row) - m1 ** 2, row))
        return out[0] if len(out) == 1 else tuple(out)

    def mean(self, *a, **k): return self.stats(*a, **dict(k, moments="m"))
    def var(self, *a, **k): return self.stats(*a, **dict(k, moments="v"))
    def std(self, *a, **k): return npshim.sqrt(self.var(*a, **k))

    def moment(self, order, *args, **kw):
        row = self._rows(args, kw)
        ctx.use("scipy.stats rv_continuous.moment: _munp(order) in the order of the rows")
        if order == 0:
            raise Unsupported("moment of order 0")
        return self._placed(self._moment(order, row), row)

    def rvs(self, *args, **kw):
        size, rs = kw.pop("size", None), kw.pop("random_state", None)
        row = self._rows(args, kw)
        ctx.use("scipy.stats rv_continuous.rvs: hands row, size and generator on to _rvs")
        return self._rvs(row, size=size, random_state=rs)

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(_norm(), n):
            raise AttributeError(n)
        raise Unsupported("rv_continuous.%s" % n)


def _norm(cache=[]):
    if not cache:
        import scipy.stats
        cache.append(scipy.stats.norm)
    return cache[0]


class rv_continuous_frozen:
    def __init__(self, dist, *args, **kwds):
        self.args, self.kwds = args, kwds
        self.dist = dist.__class__(**dist._updated_ctor_param())
        self.a, self.b = self.dist.a, self.dist.b
        ctx.use("scipy.stats frozen distributions: rebuilt from _updated_ctor_param(), calls pass the stored arguments")

    def pdf(self, x): return self.dist.pdf(x, *self.args, **self.kwds)
    def cdf(self, x): return self.dist.cdf(x, *self.args, **self.kwds)
    def ppf(self, x): return self.dist.ppf(x, *self.args, **self.kwds)
    def sf(self, x): return self.dist.sf(x, *self.args, **self.kwds)
    def isf(self, x): return self.dist.isf(x, *self.args, **self.kwds)
    def logpdf(self, x): return self.dist.logpdf(x, *self.args, **self.kwds)
    def logcdf(self, x): return self.dist.logcdf(x, *self.args, **self.kwds)
    def stats(self, moments="mv"): return self.dist.stats(*self.args, **dict(self.kwds, moments=moments))
    def mean(self): return self.dist.mean(*self.args, **self.kwds)
    def var(self): return self.dist.var(*self.args, **self.kwds)
    def std(self): return self.dist.std(*self.args, **self.kwds)
    def moment(self, order=None): return self.dist.moment(order, *self.args, **self.kwds)
    def rvs(self, size=None, random_state=None): return self.dist.rvs(*self.args, **dict(self.kwds, size=size, random_state=random_state))


class Dist:
    """one of scipy's ready-made distributions: uninterpreted functions of the point, location and scale"""
    def __init__(self, name):
        self.name = name

    def _f(self, what, xs):
        f = z3.Function("%s_%s" % (self.name, what), *([R] * (len(xs) + 1)))
        ctx.use("scipy.stats.%s.%s: a function of its arguments, element by element" % (self.name, what))
        return elementwise(lambda *v: f(*[real(t) for t in v]), xs, "f")

    def __call__(self, loc=0.0, scale=1.0):
        return FrozenDist(self, loc, scale)

    def pdf(self, x, loc=0.0, scale=1.0): return self._f("pdf", [x, loc, scale])
    def cdf(self, x, loc=0.0, scale=1.0): return self._f("cdf", [x, loc, scale])
    def ppf(self, x, loc=0.0, scale=1.0): return self._f("ppf", [x, loc, scale])
    def sf(self, x, loc=0.0, scale=1.0): return self._f("sf", [x, loc, scale])


class FrozenDist:
    def __init__(self, d, loc, scale):
        self.d, self.loc, self.scale = d, loc, scale

    def pdf(self, x): return self.d.pdf(x, self.loc, self.scale)
    def cdf(self, x): return self.d.cdf(x, self.loc, self.scale)
    def ppf(self, x): return self.d.ppf(x, self.loc, self.scale)
    def sf(self, x): return self.d.sf(x, self.loc, self.scale)


def _ax_norm_cdf(t):
    return [t >= 0, t <= 1]


sym.UF_AXIOMS["norm_cdf"] = _ax_norm_cdf


def _ax_norm_pdf(t):
    return [t >= 0]


sym.UF_AXIOMS["norm_pdf"] = _ax_norm_pdf


# ------------------------------------------------------------------------------------------------ the modules
def module(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


class Lax(types.ModuleType):
    """contracts for some names; anything else in it makes the caller undecided"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return npshim._missing(self.__name__ + "." + n)


def lax(name, **kw):
    m = Lax(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def elementary(name, nargs):
    f = z3.Function(name, *([R] * (nargs + 1)))

    def call(*args):
        if len(args) != nargs:
            raise Unsupported("%s with %d arguments" % (name, len(args)))
        ctx.use("scipy.special.%s: a function of its arguments, element by element" % name)
        return elementwise(lambda *v: f(*[real(u) for u in v]), list(args), "f")
    return call


def shims():
    np_ = npshim.namespace()
    npm = lax("numpy")
    for k, v in vars(np_).items():
        setattr(npm, k, v)
    infra = lax("scipy.stats._distn_infrastructure", rv_continuous_frozen=rv_continuous_frozen, rv_frozen=rv_continuous_frozen, rv_continuous=rv_continuous)
    stats = lax("scipy.stats", rv_continuous=rv_continuous, norm=Dist("norm"), uniform=Dist("uniform"), gaussian_kde=gaussian_kde, _distn_infrastructure=infra)
    stats.__dict__["__all__"] = []
    interp = lax("scipy.interpolate", interp1d=interp1d, InterpolatedUnivariateSpline=InterpolatedUnivariateSpline, splev=splev, splint=splint,
                 splrep=splrep)
    special = lax("scipy.special", errstate=npshim._Errstate, voigt_profile=elementary("voigt_profile", 3))
    integrate = lax("scipy.integrate", quad=quad, trapezoid=npshim.trapz, trapz=npshim.trapz)
    linalg = lax("scipy.linalg", norm=vec_norm)
    optimize = lax("scipy.optimize")
    scipy = lax("scipy", stats=stats, interpolate=interp, special=special, integrate=integrate, linalg=linalg, optimize=optimize)
    scipy.__dict__["__version__"] = "1.17.1"
    io = lax("tables_io.io")
    types_ = lax("tables_io.types", NUMPY_DICT="numpy", NUMPY_RECARRAY="recarray")
    hdf5 = lax("tables_io.hdf5")
    tio = lax("tables_io", io=io, types=types_, hdf5=hdf5)
    lazy = lax("qp.lazy_modules", pytdigest=lax("pytdigest", TDigest=TDigest))
    d = {"qp.lazy_modules": lazy, "pytdigest": lazy.pytdigest, "numpy": npm, "scipy": scipy, "scipy.stats": stats, "scipy.interpolate": interp, "scipy.special": special, "scipy.integrate": integrate,
         "scipy.linalg": linalg, "scipy.optimize": optimize, "scipy.stats._distn_infrastructure": infra,
         "tables_io": tio, "tables_io.io": io, "tables_io.types": types_, "tables_io.hdf5": hdf5}
    return d


# ------------------------------------------------------------------------------------------------ t-digest
class TDigest:
    """a digest: total weight at each value (mass), and what it was made with.  Assumed of pytdigest: compute puts weight one (or the
    given one) at each value, of_centroids each centroid's weight at its mean, + adds, and the centroids of a digest carry its weights;
    all exact here, in the library up to the compression"""
    def __init__(self, mass, compression, name=None):
        self.mass, self.compression = mass, compression
        self.inv = z3.Function(name or ctx.name("digest_inv"), R, R)
        self.cdf_ = z3.Function((name or ctx.name("digest")) + "_cdf", R, R)

    def sym_subst(self, i, w):
        m = self.mass
        return TDigest(lambda v: z3.substitute(term(m(v)), (i, term(w))), self.compression)

    @staticmethod
    def compute(x, w=None, handling_invalid=None, compression=100):
        x = asarr(x)
        if x.ndim == 0:
            raise Unsupported("digest of a number")
        if x.ndim > 1:
            raise TypeError("x has to be one-dimensional")
        ctx.use("pytdigest: weights at values, exact (the library: up to the compression); non-finite values are dropped")
        f, n = x.snap(), x.shape_[0]
        wf = (lambda j: 1) if w is None else (lambda j, g=asarr(w).snap(): g((j,)))
        return TDigest(lambda v: npshim.Sum(lambda j: mul(num(eq(real(f((j,))), v)), real(wf(j))), n), compression)

    @staticmethod
    def of_centroids(c, compression=100):
        c = asarr(c)
        if c.ndim != 2 or not ctx.branch(eq(c.shape_[1], 2)):
            raise TypeError("Centroids have to be 2-dimensional np.array with 2 columns (means and weights)")
        f, n = c.snap(), c.shape_[0]
        return TDigest(lambda v: npshim.Sum(lambda j: mul(num(eq(real(f((j, 0))), v)), real(f((j, 1)))), n), compression)

    def get_centroids(self):
        n = z3.Int(ctx.name("centroids"))
        mean, weight = z3.Function(ctx.name("mean"), I, R), z3.Function(ctx.name("weight"), I, R)
        ctx.fact(n >= 0)
        m = self.mass
        self.cents = (n, mean, weight)
        ctx.digest_links = ctx.digest_links + [
            lambda v: eq(npshim.Sum(lambda j: mul(num(eq(mean(term(j)), v)), weight(term(j))), n), m(v))]
        return from_fn((n, 2), lambda i: ite(eq(i[1], 0), mean(term(i[0])), weight(term(i[0]))), "f")

    def __add__(self, o):
        a, b = self.mass, o.mass
        return TDigest(lambda v: add(a(v), b(v)), self.compression)

    @staticmethod
    def combine(first, second=None):
        if second is not None:
            return first + second
        return merge_digests(load_add(), first)

    def inverse_cdf(self, q):
        if not isinstance(q, (Arr, list, float, int)):
            raise TypeError("Quantile is unrecognized type.")
        f = self.inv
        return elementwise(lambda x: f(real(x)), [asarr(q)], "f")

    def cdf(self, x):
        f = self.cdf_
        return elementwise(lambda x: f(real(x)), [asarr(x)], "f")

    @property
    def weight(self):
        raise Unsupported("weight of a digest")


def load_add():
    import operator
    return operator.add


def merge_digests(f, xs, *a):
    """reduce(add, digests) over a sequence of symbolic length"""
    import operator
    if f is not operator.add or a:
        raise Unsupported("reduce over a symbolic sequence")
    if not ctx.branch(lt(0, xs.n)):
        raise TypeError("reduce() of empty iterable with no initial value")
    d = xs.elem(z3.Int(ctx.name("part")))
    if not isinstance(d, TDigest):
        raise Unsupported("reduce over a symbolic sequence")
    return TDigest(lambda v: npshim.Sum(lambda c: xs.elem(c).mass(v), xs.n), d.compression)


def vec_norm(a, axis=None, **k):
    a = asarr(a)
    if k:
        raise Unsupported("norm options")
    return npshim.sqrt(npshim.sum_(a * a, axis=axis))
