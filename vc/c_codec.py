"""Contracts of the codecs: packing to bytes, sparse codes."""
from .api import *
from . import npshim
from .npshim import Max, RINT, POW10, LOG10, pow10, pow10_law


# ------------------------------------------------------------------------------------------------ packing to bytes
def packable(k, name="y", N=None, n=None):
    """rows of non-negative values with positive maxima"""
    N, n = N if N is not None else k.dim("npdf", 1), n if n is not None else k.dim("npts", 1)
    y = k.real(name, (N, n))
    k.each(y, lambda v, *i: le(0, v))
    f = fn_of(y)
    M = lambda i: Max(lambda j: f(i, j), n)
    ctx.forall(1, lambda i: Implies(And(le(0, i), lt(i, N)), lt(0, M(i))), "positive maxima")
    return N, n, y, f, M


def maxima(k, mx, N, n, f, M):
    mx = k.shape("row maxima", mx, (N, 1))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    m = at(mx, i, 0)
    k.step("row maximum is at least every value", le(f(i, j), m))
    k.ensure("row maxima are exact", eq(m, M(i)))
    return i, j, m


def coded(k, p, N, n):
    p = k.shape("packed values", p, (N, n))
    k.ensure("packed values are bytes", p.dtype.name == "uint8")
    return p


def packers(m, which, fl):
    if which == "linear":
        return (lambda a: m.linear_pack_from_rowmax(a)), (lambda p, r: m.linear_unpack_from_rowmax(p, r))
    if which == "log":
        return (lambda a: m.log_pack_from_rowmax(a, fl)), (lambda p, r: m.log_unpack_from_rowmax(p, r, fl))
    t = m.PackingType.linear_from_rowmax if which == "pack linear" else m.PackingType.log_from_rowmax
    kw = {} if which == "pack linear" or fl is None else dict(log_floor=fl)
    return (lambda a: m.pack_array(t, a, **kw)), (lambda p, r: m.unpack_array(t, p, row_max=r, **kw))


@contract("C13 C24", "packing_utils.linear_pack_from_rowmax", cases=["linear", "pack linear"])
def linear_pack(k, which):
    N, n, y, f, M = packable(k)
    pack, unpack = packers(k.mod("packing_utils"), which, None)
    p, mx = pack(y)
    p = coded(k, p, N, n)
    i, j, m = maxima(k, mx, N, n, f, M)
    v = real(at(p, i, j))
    k.step("at most half a step off", And(le(sub(mul(v, m), mul(255, f(i, j))), div(m, 2)), le(sub(mul(255, f(i, j)), mul(v, m)), div(m, 2))))
    q = ctx.int("q", 0)
    k.pre(lt(q, n))
    k.ensure("packed values are ordered as the originals", Implies(le(f(i, j), f(i, q)), le(at(p, i, j), at(p, i, q))))
    k.ensure("zero is packed as zero", Implies(eq(f(i, j), 0), eq(v, 0)))


@contract("C13 C24", "packing_utils.linear_unpack_from_rowmax", cases=["linear", "pack linear"])
def linear_unpack(k, which):
    """unpacking arrays of bytes with the maxima of the rows"""
    N, n = k.dim("npdf", 1), k.dim("npts", 1)
    p, mx = k.ints("packed", (N, n), 0, 256), k.real("rowmax", (N, 1))
    p.buf.dtname = "uint8"
    pack, unpack = packers(k.mod("packing_utils"), which, None)
    pf, mf = fn_of(p), fn_of(mx)
    k.each_is("unpacked values", unpack(p, mx), (N, n), lambda i, j: div(mul(mf(i, 0), pf(i, j)), 255))


@contract("C13", "packing_utils.linear_unpack_from_rowmax")
def linear_round_trip(k):
    """packing, then unpacking"""
    N, n, y, f, M = packable(k)
    m = k.mod("packing_utils")
    p, mx = m.linear_pack_from_rowmax(y)
    u = k.shape("unpacked", m.linear_unpack_from_rowmax(p, mx), (N, n))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    k.step("below the maximum", le(f(i, j), M(i)))
    d = sub(mul(510, at(u, i, j)), mul(510, f(i, j)))
    k.ensure("within 1/510 of the row maximum", And(le(d, M(i)), le(sub(0, M(i)), d)))
    k.ensure("zero comes back as zero", Implies(eq(f(i, j), 0), eq(at(u, i, j), 0)))


@contract("C13", "packing_utils.pack_array", cases=["linear", "log", "pack linear", "pack log", "pack log default"])
def rows_apart(k, which):
    """rows are packed and unpacked without regard to the other rows of the array"""
    N, n, y, f, M = packable(k)
    N2, _, y2, f2, M2 = packable(k, "y2", k.dim("npdf2", 1), n)
    fl = None if which.endswith("default") or "linear" in which else k.real("log_floor", ())
    if fl is not None:
        k.pre(lt(at(fl), 0))
    pack, unpack = packers(k.mod("packing_utils"), which, fl)
    r, r2 = ctx.int("r", 0), ctx.int("r2", 0)
    k.pre(And(lt(r, N), lt(r2, N2)))
    ctx.forall(1, lambda j: Implies(And(le(0, j), lt(j, n)), eq(f(r, j), f2(r2, j))), "same row")
    (p, mx), (p2, mx2) = pack(y), pack(y2)
    p, p2 = coded(k, p, N, n), coded(k, p2, N2, n)
    mx, mx2 = k.shape("row maxima", mx, (N, 1)), k.shape("row maxima", mx2, (N2, 1))
    j = ctx.int("j", 0)
    k.pre(lt(j, n))
    k.step("same maximum", eq(at(mx, r, 0), at(mx2, r2, 0)))
    k.step("same packed value", eq(at(p, r, j), at(p2, r2, j)))
    u, u2 = unpack(p, mx), unpack(p2, mx2)
    k.ensure("same unpacked value", eq(at(u, r, j), at(u2, r2, j)))


def log_case(k, which):
    N, n, y, f, M = packable(k)
    fl, how = floor_of(k, which)
    eps = pow10(mul(3, fl))
    if not is_conc(fl):
        pow10_law(mul(2, fl), fl)
    return N, n, y, f, M, fl, eps, packers(k.mod("packing_utils"), which, how)


def floor_of(k, which):
    if which.endswith("default"):
        return -3, None
    a = k.real("log_floor", ())
    k.pre(lt(at(a), 0))
    return at(a), a


@contract("C13 C24", "packing_utils.log_pack_from_rowmax", cases=["log", "pack log", "pack log default"])
def log_pack(k, which):
    N, n, y, f, M, fl, eps, (pack, unpack) = log_case(k, which)
    p, mx = pack(y)
    p = coded(k, p, N, n)
    i, j, m = maxima(k, mx, N, n, f, M)
    v = at(p, i, j)
    k.step("bytes", And(le(0, v), le(v, 255)))
    L = LOG10(real(div(add(f(i, j), eps), m)))          # decades below the maximum
    lev = div(mul(255, sub(L, fl)), sub(0, fl))        # level on the scale from 0 at the floor to 255 at the maximum
    k.step("level of the floor", Implies(le(L, fl), le(lev, 0)))
    k.step("level of the top", Implies(le(0, L), le(255, lev)))
    k.ensure("half a step within the scale", Implies(And(le(fl, L), le(L, 0)), And(le(sub(v, lev), z3.RealVal("1/2")), le(sub(lev, v), z3.RealVal("1/2")))))
    k.ensure("lowest level at and below the floor", Implies(le(L, fl), eq(v, 0)))
    k.ensure("highest level from the maximum on", Implies(le(0, L), eq(v, 255)))
    q = ctx.int("q", 0)
    k.pre(lt(q, n))
    k.step("quotients in order", Implies(le(f(i, j), f(i, q)), le(div(add(f(i, j), eps), m), div(add(f(i, q), eps), m))))
    L2 = LOG10(real(div(add(f(i, q), eps), m)))
    k.step("logarithms in order", Implies(le(f(i, j), f(i, q)), le(L, L2)))
    k.step("levels in order", Implies(le(L, L2), le(lev, div(mul(255, sub(L2, fl)), sub(0, fl)))))
    k.ensure("packed values are ordered as the originals", Implies(le(f(i, j), f(i, q)), le(v, at(p, i, q))))
    k.step("an offset far below the floor", Implies(le(pow10(mul(2, fl)), m), le(div(eps, m), pow10(fl))))
    k.step("the floor", le(LOG10(real(pow10(fl))), fl))
    k.step("zeros are below the floor", Implies(And(eq(f(i, j), 0), le(pow10(mul(2, fl)), m)), le(L, fl)))
    k.ensure("zero is packed as zero", Implies(And(eq(f(i, j), 0), le(pow10(mul(2, fl)), m)), eq(v, 0)))


@contract("C13 C24", "packing_utils.log_unpack_from_rowmax", cases=["log", "pack log", "pack log default"])
def log_unpack(k, which):
    N, n = k.dim("npdf", 1), k.dim("npts", 1)
    p, mx = k.ints("packed", (N, n), 0, 256), k.real("rowmax", (N, 1))
    p.buf.dtname = "uint8"
    fl, how = floor_of(k, which)
    k.each(mx, lambda v, *i: lt(0, v))
    pack, unpack = packers(k.mod("packing_utils"), which, how)
    pf, mf = fn_of(p), fn_of(mx)
    u = k.shape("unpacked", unpack(p, mx), (N, n))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    v = pf(i, j)
    k.ensure("lowest level is zero", Implies(eq(v, 0), eq(at(u, i, j), 0)))
    k.ensure("other levels are decades below the maximum", Implies(lt(0, v), eq(at(u, i, j), mul(mf(i, 0), POW10(real(sub(fl, mul(div(real(v), 255), fl))))))))
    k.ensure("at most the maximum", And(le(0, at(u, i, j)), le(at(u, i, j), mf(i, 0))))


# ------------------------------------------------------------------------------------------------ sparse codes
@contract("C14", "sparse_rep.combine_int", cases=["numbers", "arrays"])
def integer_codec(k, case):
    """the coefficient is signed, in 16 bits; the basis number unsigned"""
    m = k.mod("sparse_rep")
    shp = () if case == "numbers" else (k.dim("n", 1),)
    c, b = k.ints("coef", shp, -32768, 32768), k.ints("base", shp, 0, 65536)
    cf, bf = fn_of(c), fn_of(b)
    code = m.combine_int(c, b)
    if shp:
        k.shape("code", code, shp)
    o = ctx.int("o", 0)
    i = (o,) if shp else ()
    if shp:
        k.pre(lt(o, shp[0]))
    k.step("coefficient in the upper bits", eq(at(code, *i), add(mul(65536, cf(*i)), bf(*i))))
    r = m.get_N(code)
    k.ensure("two numbers", len(r) == 2)
    k.ensure("coefficient comes back", eq(at(r[0], *i), cf(*i)))
    k.ensure("basis number comes back", eq(at(r[1], *i), bf(*i)))


def code_table(k):
    """table of codes; its numbers by the contract of get_N"""
    N, n = k.dim("npdf", 1), k.dim("nsparse", 1)
    code = k.ints("codes", (N, n))
    f = fn_of(code)
    coef = lambda i, j: floordiv(f(i, j), 65536)
    base = lambda i, j: modulo(f(i, j), 65536)
    return N, n, code, coef, base


@contract("C14 C24", "sparse_rep.decode_sparse_indices")
def decode(k):
    N, n, code, coef, base = code_table(k)
    idx, vals = k.mod("sparse_rep").decode_sparse_indices(code)
    k.each_is("basis numbers", idx, (N, n), base)
    k.each_is("coefficients in units of the grid, the first counting as one", vals, (N, n),
              lambda i, j: ite(eq(j, 0), 1, div(real(coef(i, j)), 32000)))


@contract("C14 C24", "sparse_rep.indices2shapes")
def shapes(k):
    """an entry whose basis number is (i * Nsig + j) * Nv + g has the i-th position, the j-th width and the g-th shape"""
    N, n, code, coef, base = code_table(k)
    Nm, Ns, Nv = k.dim("Nmu"), k.dim("Nsig"), k.dim("Nv")
    mu, sig = k.real("mu", (2,)), k.real("sig", (2,))
    meta = dict(dims=[wrap(Nm), wrap(Ns), wrap(Nv), 32001, wrap(n)], mu=mu, sig=sig)
    r, e, i, j, g = (ctx.int(v, 0) for v in ("r", "e", "i", "j", "g"))
    k.pre(And(lt(r, N), lt(e, n), lt(i, Nm), lt(j, Ns), lt(g, Nv)))
    total = mul(Nm, mul(Ns, Nv))
    every = lambda a, b: Implies(And(le(0, a), lt(a, N), le(0, b), lt(b, n)), lt(base(a, b), total))
    ctx.forall(2, every, "in the dictionary")
    p = add(mul(add(mul(i, Ns), j), Nv), g)
    k.pre(eq(base(r, e), p))
    block, rest = mul(Ns, Nv), add(mul(j, Nv), g)
    k.step("a block", And(le(0, rest), lt(rest, block)))
    k.quotient("block", base(r, e), block, i, rest)
    k.quotient("within the block", imod(base(r, e), block), Nv, j, g)
    vals, means, sigmas, gammas = k.mod("sparse_rep").indices2shapes(code, meta)
    k.each_is("coefficients", vals, (N, n), lambda i, j: ite(eq(j, 0), 1, div(real(coef(i, j)), 32000)))
    for nm, a, lo, hi, m, q in (("positions", means, at(mu, 0), at(mu, 1), Nm, i), ("widths", sigmas, at(sig, 0), at(sig, 1), Ns, j), ("shapes", gammas, 0, real_const(0.5), Nv, g)):
        k.shape(nm, a, (N, n))
        k.ensure("%s of the generated element" % nm, eq(at(a, r, e), grid(lo, hi, m, q)))


def grid(lo, hi, m, q):
    """q-th of m evenly spaced values"""
    return ite(eq(q, 0), lo, ite(eq(q, sub(m, 1)), hi, add(lo, div(mul(q, sub(hi, lo)), sub(m, 1)))))


# ------------------------------------------------------------------------------------------------ the dictionary
VOIGT = z3.Function("voigt_profile", R, R, R, R)


def dictionary(k):
    Nm, Ns, Nv, nx = k.dim("Nmu"), k.dim("Nsig"), k.dim("Nv"), k.dim("nx")
    xv, mu, sig = k.real("xvals", (nx,)), k.real("mu", (2,)), k.real("sig", (2,))
    cut = k.real("cut", ())
    xf = fn_of(xv)

    def elem(x, i, j, g):
        v = VOIGT(real(sub(xf(x), grid(at(mu, 0), at(mu, 1), Nm, i))), real(grid(at(sig, 0), at(sig, 1), Ns, j)), real(grid(0, real_const(0.5), Nv, g)))
        return ite(le(at(cut), v), v, 0)
    norm = lambda i, j, g: npshim.SQRT(real(PS(lambda x: mul(elem(x, i, j, g), elem(x, i, j, g)), nx)))
    return Nm, Ns, Nv, nx, xv, mu, sig, cut, elem, norm


def PS(f, n):
    return Sum(f, n)


def index3(c, Ns, Nv):
    block = mul(Ns, Nv)
    rest = imod(c, block)
    return idiv(c, block), idiv(rest, Nv), imod(rest, Nv)


@contract("C14 C24", "sparse_rep.create_voigt_basis", cases=["create_voigt_basis", "create_basis"])
def basis(k, how):
    """column (i * Nsig + j) * Nv + g is the profile of the i-th position, j-th width and g-th shape, over its norm"""
    Nm, Ns, Nv, nx, xv, mu, sig, cut, elem, norm = dictionary(k)
    col = lambda x, c: div(elem(x, *index3(c, Ns, Nv)), norm(*index3(c, Ns, Nv)))

    def state(i):
        pos = list(ctx.loop_idx) + [i]
        if len(pos) == 3 and is_t(i) and i.decl().name().startswith("it"):
            a, b, g = pos
            kk, rest = add(mul(add(mul(a, Ns), b), Nv), g), add(mul(b, Nv), g)
            k.step("a block", And(le(0, rest), lt(rest, mul(Ns, Nv))))
            k.quotient("block", kk, mul(Ns, Nv), a, rest)
            k.quotient("within the block", imod(kk, mul(Ns, Nv)), Nv, b, g)
        pos += [0] * (3 - len(pos))
        return add(mul(add(mul(pos[0], Ns), pos[1]), Nv), pos[2])
    for d in range(3):
        k.invariant("create_voigt_basis", depth=d, locals=lambda i: dict(kk=wrap(state(i))),
                    named=lambda i: dict(A=(lambda kk: lambda idx: ite(lt(idx[1], kk), col(idx[0], idx[1]), 0))(state(i))))
    m = k.mod("sparse_rep")
    if how == "create_basis":
        A = m.create_basis(dict(mu=mu, sig=sig, dims=[wrap(Nm), wrap(Ns), wrap(Nv), 32001, 20], xvals=xv), cut=cut)
    else:
        A = m.create_voigt_basis(xv, mu, wrap(Nm), sig, wrap(Ns), wrap(Nv), cut=cut)
    total = mul(mul(Nm, Ns), Nv)
    k.shape("dictionary", A, (nx, total))
    i, j, g, x = (ctx.int(v, 0) for v in ("i", "j", "g", "x"))
    k.pre(And(lt(i, Nm), lt(j, Ns), lt(g, Nv), lt(x, nx)))
    p, rest = add(mul(add(mul(i, Ns), j), Nv), g), add(mul(j, Nv), g)
    k.step("a block", And(le(0, rest), lt(rest, mul(Ns, Nv)), lt(p, total)))
    k.quotient("block", p, mul(Ns, Nv), i, rest)
    k.quotient("within the block", imod(p, mul(Ns, Nv)), Nv, j, g)
    k.ensure("column is the normalised profile of its element", eq(at(A, x, p), div(elem(x, i, j, g), norm(i, j, g))))
    nn = norm(i, j, g)
    k.pre(lt(0, nn))
    k.ensure("columns have unit norm: the squares sum to one", eq(PS(lambda x: div(mul(elem(x, i, j, g), elem(x, i, j, g)), mul(nn, nn)), nx), 1))
