"""Contracts of the numpy functions the code uses, as operations on symbolic arrays.  These are assumed (numpy itself is
not verified); reals are mathematical, there are no NaN or infinite elements unless introduced as constants."""
import contextlib, fractions, math, re, types
import numpy as _np
import z3
from . import sym
from .sym import *

METHODS = {}


def method(f):
    METHODS[f.__name__.rstrip("_")] = f
    return f


class SymRange:
    def __init__(self, a, b):
        self.a, self.b = a, b
        n = sub(b, a)
        if le(0, n) is not True and not ctx.branch(le(0, n)):
            n = 0
        self.n = n

    def elem(self, i):
        return wrap(add(self.a, i))

    def sym_asarr(self):
        return from_fn((self.n,), lambda i: add(self.a, i[0]), "i")

    def __iter__(self):
        if not is_conc(self.n):
            raise Unsupported("iteration over a symbolic range outside a loop")
        return iter([self.elem(k) for k in range(self.n)])


def from_symlist(v):
    q = z3.Int("q?l")
    e = asarr(v.elem(q))

    def fn(idx):
        return asarr(v.elem(idx[0])).get(tuple(idx[1:]))
    for d in e.shape_:
        if is_t(d) and any(x.eq(q) for x in free_ints(d)):
            raise Unsupported("array of rows of different lengths")
    return from_fn((v.n,) + tuple(e.shape_), fn, e.buf.dtype)


# ------------------------------------------------------------------------------------------------ shapes
def shape(a):
    return asarr(a).shape


def ndim(a):
    return asarr(a).ndim


def size(a, axis=None):
    return asarr(a).size


def aslike(a):
    return a if isinstance(a, Arr) else asarr(a)


def dt_of(dtype):
    """'f' / 'i' / 'b' / None of a dtype argument; 'u8' for bytes"""
    if dtype is None:
        return None
    if isinstance(dtype, Dtype):
        return "u8" if dtype.name == "uint8" else dtype.kind
    n = getattr(dtype, "__name__", None) or str(dtype)
    if n in ("float", "float64", "f8", "float32", "pyfloat"):
        return "f"
    if n in ("int", "int64", "i8", "int32", "pyint", "intp"):
        return "i"
    if n in ("bool", "bool_", "pybool"):
        return "b"
    if n in ("uint8", "u1"):
        return "u8"
    if n == "O" or n.startswith(("S", "U", "|S", "<U")):
        return "O"
    raise Unsupported("dtype %s" % n)


def convert(a, dtype):
    k = dt_of(dtype)
    if k is None or (k == a.buf.dtype):
        return a.copy()
    f = a.snap()
    if k == "u8":
        def g(idx):
            v = to_int(f(idx))
            if is_conc(v):
                return v % 256
            return v % 256
        r = from_fn(a.shape_, g, "i")
        r.buf.dtname = "uint8"
        ctx.use("numpy cast to uint8: truncation modulo 256")
        return r
    return from_fn(a.shape_, lambda idx: cast(f(idx), k), k)


def array(a, dtype=None, copy=True, ndmin=0):
    if isinstance(a, FnList):
        return a
    r = convert(asarr(a), dtype)
    return r


def asarray(a, dtype=None):
    if isinstance(a, FnList):
        return a
    if isinstance(a, Arr) and (dtype is None or dt_of(dtype) == a.buf.dtype):
        return a
    if isinstance(a, SymList) and dtype is None and callable(a.elem(z3.Int(ctx.name("q")))):
        return a            # an array of objects: only iterated over
    return convert(asarr(a), dtype)


class FnList(list):
    """array of objects"""


def atleast_1d(*xs):
    out = []
    for x in xs:
        a = aslike(x)
        out.append(a if a.ndim else view(a, [None]))
    return out[0] if len(out) == 1 else out


def atleast_2d(x):
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], tuple):
        return asarr([list(t) for t in x])
    a = aslike(x)
    if a.ndim == 0:
        return view(a, [None, None])
    if a.ndim == 1:
        return view(a, [None, slice(None)])
    return a


def zeros(shp, dtype=None):
    k = dt_of(dtype) or "f"
    r = from_fn(dims_of(shp), lambda idx: {"f": 0.0, "i": 0, "b": False, "u8": 0}[k], "i" if k == "u8" else k)
    if k == "u8":
        r.buf.dtname = "uint8"
    return r


def ones(shp, dtype=None):
    k = dt_of(dtype) or "f"
    return from_fn(dims_of(shp), lambda idx: {"f": 1.0, "i": 1, "b": True}[k], k)


def full(shp, v, dtype=None):
    v = asarr(v)
    f = bshape_index(v, dims_of(shp))
    return from_fn(dims_of(shp), f, v.buf.dtype)


def zeros_like(a, dtype=None):
    a = aslike(a)
    return zeros(a.shape_, dtype or Dtype(a.buf.dtype))


def ones_like(a, dtype=None):
    a = aslike(a)
    return ones(a.shape_, dtype or Dtype(a.buf.dtype))


class _NdarrayMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Arr)

    def __call__(cls, shp, *a, **k):
        # uninitialised memory: unspecified contents
        f = z3.Function(ctx.name("uninit"), *([I] * max(1, len(dims_of(shp)))), R)
        return from_fn(dims_of(shp), lambda idx: f(*[term(i) for i in idx]) if idx else f(z3.IntVal(0)), "f")


class ndarray(metaclass=_NdarrayMeta):
    pass


def empty(shp, dtype=None):
    return ndarray(shp)


def expand_dims(a, axis):
    if not is_obj(a) and not isinstance(a, (Arr, int, float, list, tuple, bool)) and not is_t(a) and not hasattr(a, "sym_asarr"):
        return Opaque("expanded", a)
    a = aslike(a)
    n = a.ndim + 1
    if axis < 0:
        axis += n
    key = [slice(None)] * a.ndim
    key.insert(axis, None)
    return view(a, key)


class Opaque:
    """wrapped value of a kind without contract (kept as is)"""
    def __init__(self, how, v):
        self.how, self.v = how, v


def squeeze(a, axis=None):
    if isinstance(a, Opaque):
        return a.v
    a = aslike(a)
    if axis is not None:
        axis %= a.ndim
        return view(a, [slice(None) if d != axis else 0 for d in range(a.ndim)]) if ctx.branch(eq(a.shape_[axis], 1)) else _raise(ValueError("cannot select an axis to squeeze out"))
    key = [0 if ctx.branch(eq(d, 1)) else slice(None) for d in a.shape_]
    if not any(k == 0 for k in key if not isinstance(k, slice)):
        return a
    return view(a, key)


def _raise(e):
    raise e


METHODS["squeeze"] = squeeze


@method
def reshape(a, *shp):
    a = aslike(a)
    if len(shp) == 1:
        new = dims_of(shp[0])
    else:
        new = tuple(rawi(s) for s in shp)
    old = a.shape_
    total = prod(old)
    if any(is_conc(d) and d == -1 for d in new):
        p = [i for i, d in enumerate(new) if is_conc(d) and d == -1]
        rest = prod([d for i, d in enumerate(new) if i != p[0]])
        q = quotient(total, rest)
        new = tuple(q if i == p[0] else d for i, d in enumerate(new))
    elif not same_size(old, new):
        if not ctx.branch(eq(total, prod(new))):
            raise ValueError("cannot reshape array")
    src = a.snap()
    m = reindex(old, new)
    r = from_fn(new, lambda idx: src(m(idx)), a.buf.dtype)
    dn = getattr(a.buf, "dtname", None)
    if dn:
        r.buf.dtname = dn
    r.alias = (a.buf, a.buf.version)
    return r


def same_size(old, new):
    o = [d for d in old if not (is_conc(d) and d == 1)]
    n = [d for d in new if not (is_conc(d) and d == 1)]
    return len(o) == len(n) and all(eq(x, y) is True for x, y in zip(o, n)) or eq(prod(old), prod(new)) is True


def quotient(total, rest):
    """length of the axis given as -1; reshaping needs a multiple"""
    total, rest = cst(total), cst(rest)
    if is_conc(total) and is_conc(rest):
        if rest == 0 or total % rest:
            raise ValueError("cannot reshape array")
        return total // rest
    if is_conc(rest) and rest == 1:
        return total
    # total is a product which contains the factors of rest
    fs = prod_factors(total)
    gs = prod_factors(rest)
    left = list(fs)
    ok = True
    for g in gs:
        hit = [i for i, f in enumerate(left) if eq(f, g) is True]
        if not hit:
            ok = False
            break
        left.pop(hit[0])
    if ok:
        return prod(left)
    q, r = DIV(term(total), term(rest)), MOD(term(total), term(rest))
    if not ctx.branch(And(lt(0, rest), r == 0)):
        raise ValueError("cannot reshape array")
    ctx.prodfact(total, q, rest)
    return q


def prod_factors(t):
    t = cst(t)
    if is_conc(t):
        return [t] if t != 1 else []
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        out = []
        for c in t.children():
            out += prod_factors(c)
        return out
    return [t]


def flat_of(idx, shp):
    p = 0
    for i, d in zip(idx, shp):
        p = add(mul(p, d), i)
    return p


def unflat(p, shp):
    """multi index of flat index p over shp"""
    out = []
    m = [cst(x) for x in shp]
    for k in range(len(shp) - 1, 0, -1):
        d = m[k]
        if is_conc(d) and d == 1:
            out.append(0)
            continue
        ctx.dimpair(prod(m[:k]), d)
        out.append(imod(p, d))
        p = idiv(p, d)
    out.append(p)
    return tuple(reversed(out))


def reindex(old, new):
    """map from an index over `new` to the index over `old` of the same element in row-major order"""
    o = [(k, d) for k, d in enumerate(old) if not (is_conc(d) and d == 1)]
    n = [(k, d) for k, d in enumerate(new) if not (is_conc(d) and d == 1)]
    # equal up to axes of length one
    if len(o) == len(n) and all(eq(x[1], y[1]) is True for x, y in zip(o, n)):
        pos = {a[0]: b[0] for a, b in zip(o, n)}
        return lambda idx: tuple(idx[pos[k]] if k in pos else 0 for k in range(len(old)))
    # common trailing axes keep their index
    t = 0
    while t < len(o) and t < len(n) and eq(o[-1 - t][1], n[-1 - t][1]) is True:
        t += 1
    oh = [d for _, d in o[:len(o) - t]]
    nh = [d for _, d in n[:len(n) - t]]
    ok, nk = [k for k, _ in o], [k for k, _ in n]

    def m(idx):
        vals = [idx[k] for k in nk]
        head, tail = vals[:len(vals) - t], vals[len(vals) - t:]
        if not oh:
            hi = ()
        elif not nh:
            hi = tuple(0 for _ in oh)
        else:
            hi = unflat(flat_of(head, nh), oh)
        vals = list(hi) + list(tail)
        full = [0] * len(old)
        for k, v in zip(ok, vals):
            full[k] = v
        return tuple(full)
    return m


@method
def ravel(a, *x):
    a = aslike(a)
    return reshape(a, (prod(a.shape_),))


@method
def flatten(a):
    r = ravel(a)
    r.alias = None
    return r


def transpose(a):
    return aslike(a).T


def swapaxes(a, i, j):
    return aslike(a).swapaxes(i, j)


@method
def astype(a, dtype, **k):
    return convert(a, dtype)


@method
def tolist(a):
    if a.ndim == 0:
        return a.item()
    return [tolist(x) if isinstance(x, Arr) else x for x in a]


# ------------------------------------------------------------------------------------------------ element-wise
def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    c, a, b = asarr(c), asarr(a), asarr(b)
    dt = "f" if "f" in (a.buf.dtype, b.buf.dtype) else a.buf.dtype
    return elementwise(lambda x, y, z: ite(truth(x), y, z), [c, a, b], dt)


def uf(name, *doc):
    f = z3.Function(name, R, R)

    def g(a):
        a = asarr(a)
        ctx.use("numpy %s: uninterpreted function with its monotonicity and bounds" % name)
        return wrap0(elementwise(lambda x: f(real(x)), [a], "f"))
    return f, g


def wrap0(a):
    return a


LOG, log = uf("log")
LOG10, log10 = uf("log10")
SQRT, sqrt = uf("sqrt")
EXP, exp = uf("exp")
RINT = z3.Function("rint", R, I)


def _ax_sqrt(t):
    x = t.arg(0)
    return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))]


def _ax_rint(t):
    x = t.arg(0)
    return [z3.ToReal(t) - x <= z3.RealVal("1/2"), x - z3.ToReal(t) <= z3.RealVal("1/2")]


POW10 = z3.Function("pow10", R, R)


def _ax_log10(t):
    # ten to the power of the logarithm is the number itself
    x = t.arg(0)
    if z3.is_rational_value(x) and x.as_fraction() > 0:
        k = round(math.log10(x.as_fraction()))
        if abs(k) < 60 and fractions.Fraction(10) ** k == x.as_fraction():
            return [t == k, POW10(t) == x]
    return [z3.Implies(x > 0, POW10(t) == x), z3.Implies(z3.And(x > 0, x <= 1), t <= 0), z3.Implies(x >= 1, t >= 0)]


def _ax_pow10(t):
    return [t > 0, z3.Implies(t.arg(0) <= 0, t <= 1), z3.Implies(t.arg(0) >= 0, t >= 1), z3.Implies(t.arg(0) == 0, t == 1)]


def _mono(strict, dom=lambda x: z3.BoolVal(True)):
    def ax(t1, t2):
        x, y = t1.arg(0), t2.arg(0)
        d = z3.And(dom(x), dom(y))
        if strict:
            return [z3.Implies(z3.And(d, x < y), t1 < t2), z3.Implies(z3.And(d, y < x), t2 < t1), z3.Implies(x == y, t1 == t2)]
        return [z3.Implies(z3.And(d, x <= y), t1 <= t2), z3.Implies(z3.And(d, y <= x), t2 <= t1)]
    return ax


sym.UF_PAIRS.update(rint=_mono(False), log10=_mono(True, lambda x: x > 0), log=_mono(True, lambda x: x > 0), pow10=_mono(True), exp=_mono(True),
                    sqrt=_mono(True, lambda x: x >= 0))
sym.UF_AXIOMS.update(sqrt=_ax_sqrt, rint=_ax_rint, log10=_ax_log10, pow10=_ax_pow10)


def round_(a, decimals=0):
    a = asarr(a)
    if decimals != 0:
        raise Unsupported("rounding to decimals")
    ctx.use("numpy round: an integer within half of its argument")

    def r1(x):
        x = num(x)
        if is_conc(x):
            return float(round(x))
        if is_int(x):
            return x
        return z3.ToReal(RINT(x))
    return elementwise(r1, [a], "f")


METHODS["round"] = round_


def floor_(a):
    return elementwise(sym.floor, [a], "f")


def ceil_(a):
    return elementwise(lambda x: sub(0, sym.floor(sub(0, x))), [a], "f")


def absolute(a):
    return elementwise(absval, [a])


def pow10(b):
    b = num(b)
    if is_conc(b) and float(b).is_integer() and abs(b) < 60:
        return real_const(fractions.Fraction(10) ** int(b))
    return POW10(real(b))


def pow10_law(a, b):
    """10**(a+b) is 10**a times 10**b"""
    ctx.use("10**(a+b) = 10**a * 10**b: used for the powers a specification names")
    ctx.assume(term(cst(eq(pow10(add(a, b)), mul(pow10(a), pow10(b))))))


def pypow(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and a == 10 and not (is_conc(b) and is_int(b)):
        ctx.use("power with base ten: an uninterpreted function, inverse of log10")
        return pow10(b)
    return sym.power(a, b)


def power_(a, b):
    return elementwise(pypow, [a, b], "f")


def add_(a, b):
    return asarr(a) + asarr(b)


def subtract_(a, b):
    return asarr(a) - asarr(b)


def multiply_(a, b):
    return asarr(a) * asarr(b)


def divide_(a, b):
    return asarr(a) / asarr(b)


def _max2(x, y):
    return ite(le(y, x), x, y)


def _min2(x, y):
    return ite(le(x, y), x, y)


def maximum(a, b):
    return elementwise(_max2, [a, b])


def minimum(a, b):
    return elementwise(_min2, [a, b])


@method
def clip(a, lo=None, hi=None, min=None, max=None):
    lo = min if lo is None else lo
    hi = max if hi is None else hi
    r = aslike(a)
    dt = r.buf.dtype
    if lo is not None:
        dt2 = "f" if "f" in (dt, asarr(lo).buf.dtype) else dt
        r = elementwise(lambda x, l: l if lt(x, l) is True else x if le(l, x) is True else ite(lt(x, l), l, x), [r, lo], dt2)
    if hi is not None:
        r = elementwise(lambda x, h: ite(lt(h, x), h, x), [r, hi], r.buf.dtype if isinstance(hi, float) and math.isinf(hi) else None)
    return r


FINITE = z3.Function("is_finite", R, B)


def isnan(a):
    if ctx.nonfinite:
        return elementwise(lambda x: Not(FINITE(real(x))), [a], "b")
    return elementwise(lambda x: False if not is_t(x) else (x == NAN), [a], "b")


def isfinite(a):
    """values are finite reals, unless the contract says that some of them stand for undefined ones"""
    if ctx.nonfinite:
        return elementwise(lambda x: FINITE(real(x)) if is_t(x) else True, [a], "b")
    return elementwise(lambda x: True, [a], "b")


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    if not ctx.nonfinite or not copy or posinf is not None or neginf is not None:
        raise Unsupported("nan_to_num")
    return elementwise(lambda x: ite(FINITE(real(x)), real(x), real(nan)), [a], "f")


def logical_and(a, b):
    return elementwise(lambda x, y: And(truth(x), truth(y)), [a, b], "b")


def logical_or(a, b):
    return elementwise(lambda x, y: Or(truth(x), truth(y)), [a, b], "b")


def logical_not(a):
    return elementwise(lambda x: Not(truth(x)), [a], "b")


def less(a, b):
    return asarr(a) < asarr(b)


def greater(a, b):
    return asarr(a) > asarr(b)


def less_equal(a, b):
    return asarr(a) <= asarr(b)


def greater_equal(a, b):
    return asarr(a) >= asarr(b)


def equal(a, b):
    return asarr(a) == asarr(b)


def not_equal(a, b):
    return asarr(a) != asarr(b)


def bitwise_and(a, b):
    return asarr(a) & asarr(b)


def isclose1(x, y, rtol=1e-5, atol=1e-8):
    d = absval(sub(x, y))
    return le(d, add(atol, mul(rtol, absval(y))))


def isclose(a, b, rtol=1e-5, atol=1e-8):
    return elementwise(lambda x, y: isclose1(x, y, rtol, atol), [a, b], "b")


def allclose(a, b, rtol=1e-5, atol=1e-8):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape_, b.shape_):
        if not ctx.branch(eq(x, y)):
            return False
    return all_(a == b)


def putmask(a, mask, vals):
    m, v = asarr(mask), asarr(vals)
    mf = bshape_index(m, a.shape_)
    if v.ndim != 0:
        raise Unsupported("putmask with an array")
    x = v.get(())
    a.write(lambda i: truth(mf(i)), lambda i: x)


# ------------------------------------------------------------------------------------------------ reductions
def reduce_axes(a, axis):
    """(remaining shape, function (outer idx) -> [(n, body)] nested over the reduced axes)"""
    nd = a.ndim
    if axis is None:
        axes = list(range(nd))
    elif isinstance(axis, tuple):
        axes = sorted(x % nd for x in axis)
    else:
        if not -nd <= axis < nd:
            raise _np.exceptions.AxisError(axis, nd)
        axes = [axis % nd]
    keep = [d for d in range(nd) if d not in axes]
    return axes, keep


def reduction(a, axis, red, dtype, keepdims=False, empty=None):
    """red(body, n) -> raw value"""
    a = aslike(a)
    axes, keep = reduce_axes(a, axis)
    f, shp = a.snap(), a.shape_

    def val(outer):
        def level(k, fixed):
            if k == len(axes):
                full = [None] * len(shp)
                for d, v in zip(keep, outer):
                    full[d] = v
                for d, v in zip(axes, fixed):
                    full[d] = v
                return f(tuple(full))
            # functionals abstract over one index at a time, so inner levels use a fresh name
            return red(lambda i: level(k + 1, fixed + [i]), shp[axes[k]])
        return level(0, [])
    if len(axes) > 1:
        val2 = val

        def val(outer):
            return nested_red(f, shp, axes, keep, outer, red)
    r = from_fn(tuple(shp[d] for d in keep), val, dtype)
    if keepdims:
        key = [None if d in axes else slice(None) for d in range(len(shp))]
        r = view(r, key) if keep else view(r, [None] * len(shp))
        return r
    if r.ndim == 0:
        return wrap(r.get(()))
    return r


def nested_red(f, shp, axes, keep, outer, red):
    def level(k, fixed):
        if k == len(axes):
            full = [None] * len(shp)
            for d, v in zip(keep, outer):
                full[d] = v
            for d, v in zip(axes, fixed):
                full[d] = v
            return f(tuple(full))
        name = z3.Int("kk?%d" % k)
        inner = level(k + 1, fixed + [name])

        def body(i):
            return z3.substitute(term(inner), (name, term(i))) if is_t(inner) else inner
        return red(body, shp[axes[k]])
    return level(0, [])


@method
def sum_(a, axis=None, keepdims=False, dtype=None):
    a = aslike(a)
    dt = "f" if a.buf.dtype == "f" else "i"
    if a.buf.dtype == "b":
        return reduction(a, axis, lambda b, n: Count(b, n), "i", keepdims)
    if dt == "i":
        return reduction(a, axis, lambda b, n: ISum(b, n), "i", keepdims)
    return reduction(a, axis, Sum, "f", keepdims)


def ISum(body, n):
    s = Sum(body, n)
    return s if not is_t(s) or s.sort() == I else s


def Count(body, n):
    n = cst(n)
    if is_conc(n) and n <= 4:
        s = 0
        for k in range(n):
            s = add(s, num(truth(body(k))))
        return s
    whole = sym.unselected(lambda j: truth(body(j)), n)
    if whole is not None:
        m, g, total = whole
        return Count(lambda j: And(truth(m(j)), g(j)), total)
    return functional("count", body, n, sort=I, raw_sort=B)


METHODS["sum"] = sum_


def prod_(a, axis=None):
    if isinstance(a, (tuple, list)):
        p = prod([rawi(x) for x in a])
        return scalar(p) if is_t(p) else asarr(p)
    if not isinstance(a, Arr):
        return asarr(a)
    if a.ndim == 0:
        return a
    n = a.shape_[0]
    if a.ndim == 1 and is_conc(n):
        return wrapa(prod([a.get((k,)) for k in range(n)]))
    raise Unsupported("product of an array")


def wrapa(v):
    return scalar(v)


def Max(body, n):
    n = cst(n)
    if is_conc(n) and 0 < n <= 4:
        r = body(0)
        for k in range(1, n):
            r = _max2(r, body(k))
        return r
    b = body(z3.Int("q?m"))
    srt = I if is_int(b) else R
    return functional("max", body, n, sort=srt, raw_sort=srt)


def Min(body, n):
    n = cst(n)
    if is_conc(n) and 0 < n <= 4:
        r = body(0)
        for k in range(1, n):
            r = _min2(r, body(k))
        return r
    b = body(z3.Int("q?m"))
    srt = I if is_int(b) else R
    return functional("min", body, n, sort=srt, raw_sort=srt)


def nonempty(a, axis):
    axes, _ = reduce_axes(a, axis)
    for d in axes:
        ok = lt(0, a.shape_[d])
        if ok is not True and not ctx.branch(ok):
            raise ValueError("zero-size array to reduction operation")


def max_(a, axis=None, keepdims=False):
    a = aslike(a)
    nonempty(a, axis)
    return reduction(a, axis, Max, a.buf.dtype, keepdims)


def min_(a, axis=None, keepdims=False):
    a = aslike(a)
    nonempty(a, axis)
    return reduction(a, axis, Min, a.buf.dtype, keepdims)


METHODS["max"], METHODS["min"] = max_, min_


def All(body, n):
    n = cst(n)
    if is_conc(n) and n <= 4:
        return And(*[truth(body(k)) for k in range(n)])
    return functional("all", body, n, sort=B, raw_sort=B)


def Any(body, n):
    n = cst(n)
    if is_conc(n) and n <= 4:
        return Or(*[truth(body(k)) for k in range(n)])
    return Not(functional("all", lambda k: Not(truth(body(k))), n, sort=B, raw_sort=B))


@method
def all_(a, axis=None):
    return reduction(a, axis, All, "b")


@method
def any_(a, axis=None):
    return reduction(a, axis, Any, "b")


METHODS["all"], METHODS["any"] = all_, any_


def argmax(a, axis=None):
    a = aslike(a)
    if axis is None:
        a = ravel(a)
    nonempty(a, axis if axis is not None else 0)
    return reduction(a, axis if axis is not None else 0, lambda b, n: functional("argmax", b, n, sort=I), "i")


def argmin(a, axis=None):
    a = aslike(a)
    if axis is None:
        a = ravel(a)
    nonempty(a, axis if axis is not None else 0)
    return reduction(a, axis if axis is not None else 0, lambda b, n: functional("argmin", b, n, sort=I), "i")


METHODS["argmax"], METHODS["argmin"] = argmax, argmin


@method
def cumsum(a, axis=None):
    a = aslike(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis %= a.ndim
    f = a.snap()

    def val(idx):
        def body(k):
            return f(tuple(k if d == axis else v for d, v in enumerate(idx)))
        return functional_sum(body, add(idx[axis], 1))
    return from_fn(a.shape_, val, "f")


def functional_sum(body, n):
    return Sum(body, n)


@method
def mean(a, axis=None, keepdims=False):
    a = aslike(a)
    axes, _ = reduce_axes(a, axis)
    n = prod([a.shape_[d] for d in axes])
    s = asarr(sum_(a, axis, keepdims))
    r = elementwise(lambda x: div(x, n), [s], "f")
    return r if r.ndim else wrap(r.get(()))


@method
def std(a, axis=None):
    a = aslike(a)
    m = mean(a, axis, keepdims=True)
    d = (a - m)
    return sqrt(mean(d * d, axis))


@method
def var(a, axis=None):
    a = aslike(a)
    m = mean(a, axis, keepdims=True)
    d = (a - m)
    return mean(d * d, axis)


def dot(a, b):
    a, b = aslike(a), aslike(b)
    fa, fb = a.snap(), b.snap()
    if a.ndim == 1 and b.ndim == 1:
        return wrap(Sum(lambda k: mul(fa((k,)), fb((k,))), same_len(a.shape_[0], b.shape_[0])))
    if b.ndim == 1:
        n = same_len(a.shape_[-1], b.shape_[0])
        return from_fn(a.shape_[:-1], lambda idx: Sum(lambda k: mul(fa(tuple(idx) + (k,)), fb((k,))), n), "f")
    if a.ndim == 2 and b.ndim == 2:
        n = same_len(a.shape_[1], b.shape_[0])
        return from_fn((a.shape_[0], b.shape_[1]), lambda i: Sum(lambda k: mul(fa((i[0], k)), fb((k, i[1]))), n), "f")
    raise Unsupported("dot of these ranks")


def same_len(a, b):
    if not ctx.branch(eq(a, b)):
        raise ValueError("shapes not aligned")
    return a if is_conc(a) else b


METHODS["dot"] = dot


def trapz(y, x=None, dx=1.0, axis=-1):
    """trapezoidal rule over the axis"""
    y = aslike(y)
    axis %= y.ndim
    fy = y.snap()
    n = y.shape_[axis]
    if x is not None:
        x = aslike(x)
        if x.ndim == 1:
            if not ctx.branch(eq(x.shape_[0], n)):
                raise ValueError("operands could not be broadcast together")
            fx = x.snap()

            def dxk(full, k):
                return sub(fx((add(k, 1),)), fx((k,)))
        else:
            gx = bshape_index(x, y.shape_)

            def dxk(full, k):
                hi = tuple(add(k, 1) if d == axis else v for d, v in enumerate(full))
                lo = tuple(k if d == axis else v for d, v in enumerate(full))
                return sub(gx(hi), gx(lo))
    else:
        d0 = asarr(dx).get(())

        def dxk(full, k):
            return d0

    def val(idx):
        full = list(idx[:axis]) + [None] + list(idx[axis:])

        def body(k):
            hi = tuple(add(k, 1) if d == axis else v for d, v in enumerate(full))
            lo = tuple(k if d == axis else v for d, v in enumerate(full))
            return div(mul(dxk(full, k), add(fy(hi), fy(lo))), 2.0)
        return Sum(body, sub(n, 1))
    shp = tuple(s for d, s in enumerate(y.shape_) if d != axis)
    ctx.use("trapezoidal rule: the sum of dx*(y[k+1]+y[k])/2")
    r = from_fn(shp, val, "f")
    return r if r.ndim else wrap(r.get(()))


def diff(a, n=1, axis=-1):
    a = aslike(a)
    axis %= a.ndim
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[axis], lo[axis] = slice(1, None), slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


def gradient(*a, **k):
    raise Unsupported("gradient")


# ------------------------------------------------------------------------------------------------ building
def hstack(xs):
    return concatenate([atleast_1d(x) for x in xs], axis=0 if atleast_1d(xs[0]).ndim == 1 else 1)


def grown(xs):
    """a list grown in a symbolic loop, as the sequence it stands for"""
    if isinstance(xs, list) and len(xs) == 1 and isinstance(xs[0], SymTail):
        return SymList(xs[0].n, xs[0].elem)
    return xs


def vstack(xs):
    xs = grown(xs)
    if isinstance(xs, Arr) and xs.ndim in (1, 2):
        return expand_dims(xs, -1) if xs.ndim == 1 else xs
    if isinstance(xs, SymList):
        if not ctx.branch(lt(0, xs.n)):
            raise ValueError("need at least one array to concatenate")
        a = from_symlist(xs)
        if a.ndim == 1:
            return expand_dims(a, -1)
        if a.ndim == 2:
            return a
        return concat_symlist(xs, 0)
    return concatenate([atleast_2d(x) for x in xs], axis=0)


def stack(xs, axis=0):
    a = asarr(list(xs))
    if axis not in (0,):
        raise Unsupported("stack axis")
    return a


def column_stack(xs):
    raise Unsupported("column_stack")


def concatenate(xs, axis=0):
    xs = grown(xs)
    if isinstance(xs, SymList):
        return concat_symlist(xs, axis)
    xs = [aslike(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis %= nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for d in range(nd):
            if d != axis and not ctx.branch(eq(x.shape_[d], xs[0].shape_[d])):
                raise ValueError("all the input array dimensions must match exactly")
    fs = [x.snap() for x in xs]
    offs = [0]
    for x in xs:
        offs.append(add(offs[-1], x.shape_[axis]))
    shp = tuple(offs[-1] if d == axis else s for d, s in enumerate(xs[0].shape_))

    def val(idx):
        r = None
        for k in range(len(xs) - 1, -1, -1):
            at = tuple(sub(v, offs[k]) if d == axis else v for d, v in enumerate(idx))
            if r is None:
                v = idx[axis]
                if is_conc(v) and is_conc(offs[k]) and v < offs[k]:
                    continue
                r = fs[k](at)
            else:
                c = lt(idx[axis], offs[k + 1])
                if c is False:
                    continue
                r = ite(c, fs[k](at), r)
        return r
    kinds = [x.buf.dtype for x in xs]
    return from_fn(shp, val, "f" if "f" in kinds else kinds[0])


def concat_symlist(xs, axis):
    """parts of one shape, in a sequence of symbolic length"""
    if not ctx.branch(lt(0, xs.n)):
        raise ValueError("need at least one array to concatenate")
    a = from_symlist(xs)
    if a.ndim < 2:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if axis == 1 - a.ndim:
        axis = 0
    if axis != 0:
        raise Unsupported("concatenation of a list of unknown length along another axis")
    f, L = a.snap(), a.shape_[1]
    if eq(L, 1) is True:
        return from_fn((xs.n,) + tuple(a.shape_[2:]), lambda i: f((i[0], 0) + tuple(i[1:])), a.buf.dtype)
    return from_fn((mul(xs.n, L),) + tuple(a.shape_[2:]), lambda i: f((idiv(i[0], L), imod(i[0], L)) + tuple(i[1:])), a.buf.dtype)


def whole(v):
    """(value as an integer, True when it was a real): bounds of a range written 1.0 or n + 1.0"""
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.get(())
    v = cst(v) if is_t(v) else v
    if isinstance(v, float) or (hasattr(v, "denominator") and not is_t(v) and not isinstance(v, int)):
        if v != int(v):
            raise Unsupported("arange of reals")
        return int(v), True
    if is_t(v) and v.sort() == R:
        v = z3.simplify(v)
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return v.numerator_as_long(), True
        if v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0), True
        if z3.is_add(v):
            ps = [whole(c)[0] for c in v.children()]
            r = ps[0]
            for q in ps[1:]:
                r = add(r, q)
            return r, True
        raise Unsupported("arange of reals")
    return rawi(v), False


def arange(*a, dtype=None):
    a = [whole(x) for x in a]
    kind = "f" if any(f for _v, f in a) else "i"
    a = [v for v, _f in a]
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3 and a[2] != 1:
        raise Unsupported("arange with a step")
    if not (is_int(lo) and is_int(hi)):
        raise Unsupported("arange of reals")
    n = sub(hi, lo)
    if le(0, n) is not True and not ctx.branch(le(0, n)):
        n = 0
    return from_fn((n,), (lambda i: real(add(lo, i[0]))) if kind == "f" else (lambda i: add(lo, i[0])), kind)


def linspace(a, b, num=50, endpoint=True):
    a, b = asarr(a).get(()), asarr(b).get(())
    n = rawi(num)
    if n is True or not endpoint:
        raise Unsupported("linspace variant")
    ctx.use("linspace: a + k*(b-a)/(n-1)")
    n1 = sub(n, 1)

    def val(idx):
        k = idx[0]
        if is_conc(k) and k == 0:
            return real(a)
        if is_t(n1) and lt(0, n1) is not True:
            return ite(eq(k, 0), real(a), ite(eq(k, n1), real(b), add(a, div(mul(k, sub(b, a)), n1))))
        # the last one is exactly b
        v = add(a, div(mul(k, sub(b, a)), n1)) if not (is_conc(n1) and n1 == 0) else real(a)
        return ite(And(eq(k, n1), lt(0, n1)), real(b), v)
    return from_fn((n,), val, "f")


def tile(*a):
    raise Unsupported("tile")


def meshgrid(*a, **k):
    raise Unsupported("meshgrid")


def broadcast_to(a, shp):
    a = aslike(a)
    shp = dims_of(shp)
    return from_fn(shp, bshape_index(a, shp), a.buf.dtype)


# ------------------------------------------------------------------------------------------------ searching, sorting
def searchsorted(a, v, side="left"):
    a, v = aslike(a), asarr(v)
    if a.ndim != 1:
        raise ValueError("object too deep for desired array")
    f, n = a.snap(), a.shape_[0]
    require_sorted(lambda k: f((k,)), n, "numpy searchsorted needs sorted values")
    kind = "ssl" if side == "left" else "ssr"
    r = elementwise(lambda x: functional(kind, lambda k: f((k,)), n, extra=(real(x),), sort=I), [v], "i")
    return r if r.ndim else wrap(r.get(()))


def require_sorted(f, n, what):
    k = ctx.int("ks")
    ctx.oblige(what, Implies(And(le(0, k), lt(add(k, 1), n)), le(f(k), f(add(k, 1)))), "pre")


def flatnonzero(a):
    a = aslike(a)
    if a.ndim != 1:
        a = ravel(a)
    idx = from_fn((a.shape_[0],), lambda i: i[0], "i")
    f = a.snap()
    m = from_fn(a.shape_, lambda i: truth(f(i)), "b")
    return mask_select(idx, m)


def nonzero(a):
    a = aslike(a)
    if a.ndim == 0:
        raise Unsupported("nonzero of a number")
    if a.ndim == 1:
        return (flatnonzero(a),)
    # the places of the true elements: a bijection between them and 0..m-1 (its order, the row-major one, is left open)
    ctx.use("numpy nonzero: the positions of the true elements, each once")
    f, nd = a.snap(), a.ndim
    m = ctx.int("places", 0)
    pos = z3.Function(ctx.name("place"), *([I] * (nd + 1)))
    back = [z3.Function(ctx.name("place%d" % d), I, I) for d in range(nd)]
    ctx.forall(1, lambda p: Implies(And(le(0, p), lt(p, m)), And(*[And(le(0, b(p)), lt(b(p), d)) for b, d in zip(back, a.shape_)],
                                                              truth(f(tuple(b(p) for b in back))), pos(*[b(p) for b in back]) == p)), "places")
    ctx.forall(nd, lambda *i: Implies(And(*[And(le(0, v), lt(v, d)) for v, d in zip(i, a.shape_)], truth(f(tuple(i)))),
                                     And(le(0, pos(*i)), lt(pos(*i), m), *[b(pos(*i)) == v for b, v in zip(back, i)])), "places back")
    return tuple(from_fn((m,), lambda i, b=b: b(term(i[0])), "i") for b in back)


def sort(a, axis=-1):
    a = aslike(a)
    axis %= a.ndim
    f, n = a.snap(), a.shape_[axis]
    ctx.use("numpy sort: a non-decreasing rearrangement")

    def val(idx):
        def body(k):
            return f(tuple(k if d == axis else v for d, v in enumerate(idx)))
        return functional("sort", body, n, extra=(idx[axis],))
    return from_fn(a.shape_, val, "f")


def argsort(a, axis=-1, kind=None):
    a = aslike(a)
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    f, n = a.snap(), a.shape_[0]
    ctx.use("numpy argsort: a permutation that puts the values in non-decreasing order (one fixed among equal ones)")
    g = lambda j: functional("argsort", lambda k: f((k,)), n, extra=(j,), sort=I)
    ctx.forall(1, lambda j: Implies(And(le(0, j), lt(j, n)), And(le(0, g(j)), lt(g(j), n))), "argsort range")
    ctx.forall(1, lambda j: Implies(And(le(0, j), lt(add(j, 1), n)), le(f((g(j),)), f((g(add(j, 1)),)))), "argsort order")
    ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, j), lt(j, n)), Not(eq(g(i), g(j)))), "argsort injective")
    r = from_fn((n,), lambda i: g(i[0]), "i")
    return r


def unique(a, return_index=False, return_inverse=False, **k):
    a = aslike(a)
    if a.ndim != 1:
        a = ravel(a)
    f, n = a.snap(), a.shape_[0]
    if k:
        raise Unsupported("unique with options")
    srt = I if a.buf.dtype == "i" else R
    m = functional("uniqn", lambda i: f((i,)), n, sort=I, raw_sort=srt)
    ctx.use("numpy unique: the distinct values in increasing order; the inverse points at each element's own value")
    ctx.fact(And(le(0, m), le(m, n), Implies(lt(0, n), lt(0, m))))
    first = lambda i: functional("uniqidx", lambda j: f((j,)), n, extra=(i,), sort=I, raw_sort=srt)
    u = from_fn((m,), lambda i: f((first(i[0]),)), a.buf.dtype)
    inv = from_fn((n,), lambda i: functional("uniqinv", lambda j: f((j,)), n, extra=(i[0],), sort=I, raw_sort=srt), "i")
    uf, vf = u.snap(), inv.snap()
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, n)), And(le(0, vf((i,))), lt(vf((i,)), m), eq(uf((vf((i,)),)), f((i,))))), "uniqinv")
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, m)), And(le(0, first(i)), lt(first(i), n))), "uniqidx")
    ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, j), lt(j, m)), lt(uf((i,)), uf((j,)))), "uniqord")
    out = [u]
    if return_index:
        ctx.forall(2, lambda i, j: Implies(And(le(0, i), lt(i, m), le(0, j), lt(j, first(i))), Not(eq(uf((i,)), f((j,))))), "uniqfirst")
        out.append(from_fn((m,), lambda i: first(i[0]), "i"))
    if return_inverse:
        out.append(inv)
    return tuple(out) if len(out) > 1 else u


def take(a, idx, axis=None):
    if axis is None:
        return ravel(a)[idx]
    return a[(slice(None),) * axis + (idx,)]


def histogram(*a, **k):
    return HIST(*a, **k)


HISTCELL = z3.Function("histcell", R, R)


def HIST(t, bins=10, range=None, density=None, weights=None):
    """counts of the samples per cell: cell k is [e_k, e_(k+1)), the last one closed"""
    if range is not None or density or weights is not None:
        raise Unsupported("histogram options")
    e = aslike(bins)
    if e.ndim != 1:
        raise Unsupported("histogram bins")
    d = asarr(t)
    if d.ndim > 1:
        d = ravel(d)
    ef, n = e.snap(), sub(e.shape_[0], 1)
    ctx.use("numpy histogram: number of samples in [e_k, e_(k+1)), last cell closed")

    def inside(x, k):
        lo, hi = ef((k,)), ef((add(k, 1),))
        return And(le(lo, x), Or(lt(x, hi), And(eq(k, sub(n, 1)), eq(x, hi))))
    if d.ndim == 0:
        x = d.get(())
        return from_fn((n,), lambda i: num(inside(x, i[0])), "i"), e
    df, m = d.snap(), d.shape_[0]
    return from_fn((n,), lambda i: Count(lambda j: inside(df((j,)), i[0]), m), "i"), e


def histogram_bin_edges(a, bins=10, range=None):
    """for data of two numbers: equal cells between the smaller and the larger one"""
    a = asarr(a)
    n = rawi(bins)
    if not (is_conc(a.shape_[0]) and a.shape_[0] == 2) or range is not None:
        raise Unsupported("histogram_bin_edges")
    lo, hi = a.get((0,)), a.get((1,))
    ctx.oblige("the range of the histogram is not empty", lt(lo, hi), "pre")
    ctx.use("numpy histogram_bin_edges: equally spaced edges over the range of the data")
    return linspace(lo, hi, add(n, 1))


# ------------------------------------------------------------------------------------------------ opaque statistics
def opaque_stat(name):
    def g(a, q=None, axis=None, **k):
        a = aslike(a)
        ctx.use("numpy %s: a function of the values of its argument" % name)
        if axis is None and a.ndim != 1:
            a = ravel(a)
        ax = (axis or 0) % a.ndim
        if k:
            raise Unsupported("%s options" % name)

        def red(qv):
            ex = () if qv is None else (real(qv),)
            return reduction(a, ax, lambda b, n: functional("stat_" + name, b, n, extra=ex), "f")
        if q is None:
            return red(None)
        qa = asarr(q)
        if qa.ndim == 0:
            return red(qa.get(()))
        n = qa.shape_[0]
        if not is_conc(n):
            if a.ndim != 1 or qa.ndim != 1:
                raise Unsupported("%s at many levels" % name)
            f, qf, m = a.snap(), qa.snap(), a.shape_[0]
            return from_fn((n,), lambda i: functional("stat_" + name, lambda j: f((j,)), m, extra=(real(qf(i)),)), "f")
        return asarr([red(qa.get((k_,))) for k_ in range(n)])
    return g


median = opaque_stat("median")
percentile = opaque_stat("percentile")
quantile = opaque_stat("quantile")


# ------------------------------------------------------------------------------------------------ vectorize
class Fmt:
    """%-formatted string with symbolic numbers"""
    def __init__(self, template, args):
        self.template, self.args = template, args

    def __str__(self):
        return self.template


class vectorize:
    def __init__(self, pyfunc, otypes=None, signature=None, **k):
        self.f, self.otypes, self.signature = pyfunc, otypes, signature
        if k:
            raise Unsupported("vectorize options")

    def __call__(self, *args):
        args = [asarr(a) for a in args]
        if self.signature is None:
            ins, out = [()] * len(args), ()
        else:
            sig = self.signature.template if isinstance(self.signature, Fmt) else self.signature
            l, r = sig.replace(" ", "").split("->")
            ins = [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", l)]
            outs = [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", r)]
            if len(outs) != 1 or len(ins) != len(args):
                raise Unsupported("vectorize signature %s" % sig)
            out = outs[0]
            want = signature_dims(self.signature, ins, out)
        loops = []
        for a, core in zip(args, ins):
            if a.ndim < len(core):
                raise ValueError("does not have enough dimensions")
            loops.append(a.shape_[:a.ndim - len(core)])
        if self.signature is not None:
            for a, core, w in zip(args, ins, want[0]):
                for d, x in zip(a.shape_[a.ndim - len(core):], w):
                    if not ctx.branch(eq(d, x)):
                        raise ValueError("inconsistent size for core dimension")
        shp = broadcast_shapes(*loops)
        fs = []
        for a, core, lp in zip(args, ins, loops):
            fs.append((a, core, bshape_fn(lambda i: tuple(i), lp, shp)))

        def call(q):
            vals = []
            for a, core, pick in fs:
                vals.append(a[tuple(wrap(v) for v in pick(q)) + (slice(None),) * len(core)] if a.ndim else a.item())
            return self.f(*vals)
        ctx.use("numpy vectorize: the function applied to every element (or core array), results in the same order")
        if len(shp) and self.otypes is None and self.signature is None:
            nz = lt(0, prod(shp))
            if nz is not True and not ctx.branch(nz):
                raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        core_shape = None if self.signature is None else tuple(want[1])
        return par_eval(shp, call, core_shape, dt_of(self.otypes[0]) if self.otypes else None)


def signature_dims(sig, ins, out):
    """sizes named by the signature"""
    if isinstance(sig, Fmt):
        ps = list(sig.args)

        def nxt(tok):
            return rawi(ps.pop(0)) if tok in ("%i", "%d", "%s") else int(tok)
    else:
        def nxt(tok):
            return int(tok)
    a = [[nxt(t) for t in core] for core in ins]
    b = [nxt(t) for t in out]
    return a, b


def fresh_index(shp, base="q"):
    """fresh indices within the shape"""
    qs, cond = [], []
    for d in shp:
        if is_conc(d) and d == 1:
            qs.append(0)
            continue
        q = z3.Int(ctx.name(base))
        qs.append(q)
        cond.append(And(le(0, q), lt(q, d)))
    return tuple(qs), And(*cond)


def generalise(qs, cond, facts0, ghost0):
    """facts found while evaluating at fresh indices hold for every index in range"""
    qv = [q for q in qs if is_t(q)]
    new = ctx.facts[facts0:]
    del ctx.facts[facts0:]
    for fa in new:
        if any(contains_any(fa.body, q) for q in qv):
            ctx.facts.append(Forall(list(fa.vars) + qv, z3.Implies(term(cond), fa.body), fa.name))
        else:
            ctx.facts.append(fa)
    newg = ctx.ghost[ghost0:]
    del ctx.ghost[ghost0:]
    for g in newg:
        if any(contains_any(g, q) for q in qv):
            ctx.facts.append(Forall(list(qv), z3.Implies(term(cond), g), "gen"))
        else:
            ctx.ghost.append(g)


def contains_any(t, q):
    from .solve import contains
    return contains(t, q)


def par_eval(shp, call, core_shape=None, dtype=None):
    """array whose element (or sub-array) at q is call(q), evaluated once at fresh indices"""
    qs, cond = fresh_index(shp)
    f0, g0 = len(ctx.facts), len(ctx.ghost)
    if cond is False:
        cond = True
    n0 = len(ctx.pathcond)
    ctx.pathcond.append(term(cond))

    def body():
        v = call(qs)
        a = asarr(v)
        return a
    try:
        outs = nested(body)
    except PathEnd:
        outs = []
    finally:
        del ctx.pathcond[n0:]
    generalise(qs, cond, f0, g0)
    if not outs:
        # no index at all
        shape = tuple(shp) + tuple(core_shape or ())
        return from_fn(shape, lambda idx: 0.0, dtype or "f")
    good = []
    for c, o in outs:
        if o.exc is not None:
            saved = list(ctx.pathcond)
            ctx.pathcond.append(term(And(cond, c)))
            ctx.oblige("no %s for any element" % type(o.exc).__name__ + " (%s)" % o.exc, False, "safety")
            ctx.pathcond[:] = saved
        else:
            good.append((c, o.value))
    if not good:
        raise Unsupported("every element raises")
    inner = good[0][1].shape_
    if core_shape is None:
        # scalars expected: sizes one are accepted by numpy
        vals = []
        for c, a in good:
            for d in a.shape_:
                if eq(d, 1) is not True and not ctx.branch(eq(d, 1)):
                    raise ValueError("setting an array element with a sequence.")
            vals.append((c, (lambda a: (lambda idx: a.get((0,) * a.ndim)))(a)))
        inner = ()
    else:
        vals = []
        for c, a in good:
            if len(a.shape_) != len(core_shape):
                raise ValueError("wrong number of output dimensions")
            for d, e in zip(a.shape_, core_shape):
                if eq(d, e) is not True:
                    saved = list(ctx.pathcond)
                    ctx.pathcond.append(term(And(cond, c)))
                    ctx.oblige("length of the result of the vectorised function", eq(d, e), "safety")
                    ctx.pathcond[:] = saved
            vals.append((c, (lambda a: (lambda idx: a.get(idx)))(a)))
        inner = core_shape
    fixed = {}

    def val(idx):
        outer, core = idx[:len(shp)], tuple(idx[len(shp):])
        pairs = [(q, term(v)) for q, v in zip(qs, outer) if is_t(q)]
        r = None
        for c, g in reversed(vals):
            v = g(core)
            r = v if r is None else ite(c, v, r)
        if is_t(r) and pairs:
            r = z3.substitute(r, *pairs)
        if dtype:
            r = cast(r, dtype)
        return renorm(r)
    k = dtype or ("f" if any(a.buf.dtype == "f" for _, a in good) else good[0][1].buf.dtype)
    return from_fn(tuple(shp) + tuple(inner), val, k)


def renorm(t):
    return t


# ------------------------------------------------------------------------------------------------ misc
class _Errstate(contextlib.ContextDecorator):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class number:
    pass


class integer(metaclass=type("M", (type,), dict(__instancecheck__=lambda c, o: (isinstance(o, int) and not isinstance(o, bool)) or (isinstance(o, Arr) and o.ndim == 0 and o.buf.dtype == "i")))):
    pass


class floating(metaclass=type("M2", (type,), dict(__instancecheck__=lambda c, o: isinstance(o, float) or (isinstance(o, Arr) and o.ndim == 0 and o.buf.dtype == "f")))):
    pass


def issubdtype(a, b):
    return True


class _Broadcast:
    def __init__(self, *xs):
        arrs = []
        for x in xs:
            arrs.append(asarr(x))
        self.shape = tuple(wrap(d) for d in broadcast_shapes(*[a.shape_ for a in arrs]))


class finfo:
    def __init__(self, *a):
        self.eps = _np.finfo(float).eps


def vdot(*a):
    raise Unsupported("vdot")


NS = None


def namespace():
    g = globals()
    ns = types.SimpleNamespace()
    names = """shape ndim size array asarray atleast_1d atleast_2d zeros ones full zeros_like ones_like ndarray empty expand_dims
    squeeze reshape ravel transpose swapaxes where log log10 sqrt exp absolute maximum minimum clip isnan isfinite
    logical_and logical_or logical_not less greater less_equal greater_equal equal not_equal bitwise_and isclose allclose
    array_equal putmask argmax argmin cumsum mean std var dot trapz diff hstack vstack stack concatenate arange linspace
    broadcast_to searchsorted flatnonzero nonzero sort argsort unique take histogram histogram_bin_edges median percentile quantile
    nan_to_num vectorize number integer floating issubdtype finfo""".split()
    for n in names:
        setattr(ns, n, g[n])
    ns.abs = ns.fabs = absolute
    ns.sum, ns.prod, ns.all, ns.any = sum_, prod_, all_, any_
    ns.max = ns.amax = max_
    ns.min = ns.amin = min_
    ns.round = ns.around = round_
    ns.floor, ns.ceil, ns.power = floor_, ceil_, power_
    ns.add, ns.subtract, ns.multiply, ns.divide = add_, subtract_, multiply_, divide_
    ns.true_divide = divide_
    ns.trapezoid = trapz
    ns.errstate = _Errstate
    ns.nan, ns.inf, ns.pi, ns.newaxis = float("nan"), float("inf"), math.pi, None
    ns.float64 = ns.float32 = Dtype("f")
    ns.int64 = ns.int32 = ns.intp = Dtype("i")
    ns.bool_ = Dtype("b")
    ns.uint8 = Dtype("i", "uint8")
    ns.broadcast = _Broadcast
    ns.logspace = lambda *a, **k: _raise(Unsupported("logspace"))

    class Missing(types.SimpleNamespace):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return _missing("numpy." + name)
    ns2 = Missing(**vars(ns))
    return ns2


class _missing:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        raise Unsupported("no contract for %s" % self.name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _missing(self.name + "." + n)
