"""C13 packing, C14 sparse codes, C15 quantile padding and density constructors"""
import contextlib, io
import numpy as np
from rac.core import test, check, close, same, fail
from rac import gen
import qp
from qp.packing_utils import PackingType, pack_array, unpack_array


# --------------------------------------------------------------------------------------------------------------- C13
def rows(rng, log):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 12))
    scale = 10.0 ** rng.uniform(-3, 4, (n, 1))
    y = rng.uniform(0, 1, (n, m)) ** int(rng.integers(1, 6)) * scale
    if log:
        y = 10.0 ** rng.uniform(-7, 0, (n, m)) * scale
    y[rng.random((n, m)) < 0.15] = 0.0
    y[np.arange(n), rng.integers(0, m, n)] = scale[:, 0] * rng.uniform(0.5, 1)
    return y


@test("C13", 60, 1500)
def t_linear(rng, case):
    y = rows(rng, False)
    case.note(values=y)
    y0 = y.copy()
    p, mx = pack_array(PackingType.linear_from_rowmax, y)
    p = np.asarray(p)
    same(y, y0, "the packed array")
    check(p.dtype == np.uint8 and p.shape == y.shape, "packed values are bytes", dtype=p.dtype)
    same(np.asarray(mx), y.max(axis=1, keepdims=True), "row maxima")
    u = unpack_array(PackingType.linear_from_rowmax, p, row_max=mx)
    check(np.abs(u - y) <= y.max(axis=1, keepdims=True) * (1 / 510 + 1e-12), "unpacked values within half a step", packed=p, unpacked=u)
    for i in range(len(y)):
        o = np.argsort(y[i], kind="stable")
        check(np.diff(p[i][o].astype(int)) >= 0, "packed values keep the order of the originals", row=i, packed=p)
        p1, m1 = pack_array(PackingType.linear_from_rowmax, y[i:i + 1])
        same(p1[0], p[i], "packing of row %i alone" % i)
    check(u[y == 0] == 0, "zeros come back as zero")


@test("C13", 60, 1500)
def t_log(rng, case):
    y = rows(rng, True)
    fl = None if rng.random() < 0.4 else -float(rng.uniform(1.5, 5))
    kw = {} if fl is None else dict(log_floor=fl)
    f = -3.0 if fl is None else fl
    y = np.where(y > 0, np.maximum(y, 0), 0)
    y /= np.minimum(1, y.max(axis=1, keepdims=True) / 10.0 ** (2 * f))
    case.note(values=y, log_floor=fl)
    y0 = y.copy()
    p, mx = pack_array(PackingType.log_from_rowmax, y, **kw)
    p = np.asarray(p)
    same(y, y0, "the packed array")
    check(p.dtype == np.uint8 and p.shape == y.shape, "packed values are bytes", dtype=p.dtype)
    top = y.max(axis=1, keepdims=True)
    same(np.asarray(mx), top, "row maxima")
    u = unpack_array(PackingType.log_from_rowmax, p, row_max=mx, **kw)
    eps = 10.0 ** (3 * f)
    hi = y >= top * 10.0 ** f
    with np.errstate(all="ignore"):
        err = np.abs(np.log10(u) - np.log10(np.minimum(y + eps, top)))
        # the lowest level (0) stands for zero: values less than half a step above the floor may come back as zero
        lowest = np.log10((y + eps) / top) - f <= 0.5 * (-f) / 255 + 1e-9
    check(err[hi & ~lowest] <= 0.5 * (-f) / 255 + 1e-9, "unpacked values within half a logarithmic step", packed=p, unpacked=u)
    check(u[lowest] <= (top * np.ones_like(y))[lowest] * 10.0 ** f * 10.0 ** (-f / 255 * 1.01), "values below the floor", unpacked=u)
    check(u[y == 0] == 0, "zeros come back as zero", packed=p, unpacked=u)
    for i in range(len(y)):
        o = np.argsort(y[i], kind="stable")
        check(np.diff(p[i][o].astype(int)) >= 0, "packed values keep the order of the originals", row=i, packed=p)
        p1, _ = pack_array(PackingType.log_from_rowmax, y[i:i + 1], **kw)
        same(p1[0], p[i], "packing of row %i alone" % i)


@test("C13", 20, 300)
def t_packed_ensemble(rng, case):
    spec = gen.interp(rng)
    ens = spec.build()
    case.note(spec=spec)
    kind = [PackingType.linear_from_rowmax, PackingType.log_from_rowmax][case.k % 2]
    kw = dict(packing_type=kind)
    if kind == PackingType.log_from_rowmax:
        kw["log_floor"] = -3.0
    x = spec.data["xvals"]
    e2 = qp.convert(ens, "packed_interp", xvals=x, **kw)
    y = ens.pdf(x)
    got = e2.dist.yvals
    ratio = got.max(axis=1, keepdims=True) / y.max(axis=1, keepdims=True)
    tol = {0: 1 / 255.0, 1: 0.02}[case.k % 2]
    check(np.abs(got / ratio - y) <= y.max(axis=1, keepdims=True) * tol, "packed ensemble follows the density", got=got, want=y)


# --------------------------------------------------------------------------------------------------------------- C14
@test("C14", 40, 2000)
def t_integer_codec(rng, case):
    from qp.sparse_rep import combine_int, get_N
    c = [-32768, -1, 0, 1, 32000, 32767][case.k] if case.k < 6 else int(rng.integers(-32768, 32768))
    b = [0, 65535, 65535, 32768, 0, 65535][case.k] if case.k < 6 else int(rng.integers(0, 65536))
    case.note(c=c, b=b)
    check(tuple(int(v) for v in get_N(combine_int(c, b))) == (c, b), "code of a pair of integers", code=combine_int(c, b), decoded=get_N(combine_int(c, b)))
    cc, bb = rng.integers(-32768, 32768, 5), rng.integers(0, 65536, 5)
    g = get_N(combine_int(cc, bb))
    same(g[0], cc, "coefficients of an array of codes")
    same(g[1], bb, "basis numbers of an array of codes")


@test("C14", 25, 500)
def t_decode(rng, case):
    from qp.sparse_rep import combine_int, decode_sparse_indices, indices2shapes
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 9))
    nmu, nsig, nv = (int(rng.integers(1, 12)) for _ in range(3))
    c = rng.integers(-32000, 32001, (n, k))
    b = rng.integers(0, nmu * nsig * nv, (n, k))
    codes = (c.astype(np.int64) << 16) | b
    codes0 = codes.copy()
    case.note(c=c, b=b, dims=(nmu, nsig, nv))
    idx, vals = decode_sparse_indices(codes)
    w = c / 32000.0
    w[:, 0] = 1.0
    same(idx, b, "basis numbers")
    close(vals, w, "coefficients", rtol=1e-12)
    mu, sig = np.sort(rng.uniform(-2, 3, 2)), np.sort(rng.uniform(0.05, 1, 2))
    meta = dict(dims=[nmu, nsig, nv, 32001, k], mu=list(mu), sig=list(sig))
    v, m, s, g = indices2shapes(codes, meta)
    close(v, w, "coefficients of the shapes", rtol=1e-12)
    im, i_s, ig = b // (nsig * nv), (b // nv) % nsig, b % nv
    close(m, np.linspace(mu[0], mu[1], nmu)[im], "positions")
    close(s, np.linspace(sig[0], sig[1], nsig)[i_s], "widths")
    close(g, np.linspace(0, 0.5, nv)[ig], "shapes")
    same(codes, codes0, "the codes")


@test("C14", 10, 150)
def t_dictionary(rng, case):
    from scipy.special import voigt_profile
    from qp.sparse_rep import create_voigt_basis, create_basis, indices2shapes, pdf_from_sparse
    nmu, nsig, nv = (int(rng.integers(1, 5)) for _ in range(3))
    x = np.linspace(0, 3, int(rng.integers(25, 60)))
    mu, sig = [0.3, 2.7], [0.1, 0.5]
    cut = [1e-5, 1e-3, 0.2][case.k % 3]
    case.note(dims=(nmu, nsig, nv), cut=cut, nx=x.size)
    A = create_voigt_basis(x, mu, nmu, sig, nsig, nv, cut=cut)
    check(A.shape == (x.size, nmu * nsig * nv), "shape of the dictionary", shape=A.shape)
    A2 = create_basis(dict(xvals=x, mu=mu, sig=sig, dims=[nmu, nsig, nv, 32001, 5]), cut=cut)
    same(A2, A, "dictionary from the metadata")
    close((A ** 2).sum(axis=0), np.ones(A.shape[1]), "norm of the columns")
    _, m, s, g = indices2shapes((np.arange(A.shape[1]) | (5 << 16))[None, :], dict(dims=[nmu, nsig, nv, 32001, 5], mu=mu, sig=sig))
    for j in range(A.shape[1]):
        y = voigt_profile(x - m[0, j], s[0, j], g[0, j])
        y = np.where(y >= cut, y, 0)
        close(A[:, j], y / np.sqrt((y ** 2).sum()), "dictionary column %i" % j)
    n, k = 3, 4
    c = rng.integers(0, 32001, (n, k))
    b = rng.integers(0, A.shape[1], (n, k))
    codes = (c.astype(np.int64) << 16) | b
    w = c / 32000.0
    w[:, 0] = 1.0
    y = np.array([(A[:, b[i]] * w[i]).sum(axis=1) for i in range(n)])
    f = pdf_from_sparse(codes, A, x)
    yy = np.where(y >= 1e-5, y, 0)
    close(f.T, yy / np.trapz(yy, x)[:, None], "density from the codes")
    ens = qp.Ensemble(qp.sparse, data=dict(xvals=x, mu=mu, sig=sig, dims=[nmu, nsig, nv, 32001, k], sparse_indices=codes, cut=cut))
    close(ens.pdf(x), y / np.trapz(y, x)[:, None], "density of the ensemble at its grid", rtol=1e-7)


@test("C14", 4, 40)
def t_encode(rng, case):
    from qp.sparse_rep import build_sparse_representation, pdf_from_sparse, sparse_basis, create_basis, indices2shapes, decode_sparse_indices
    x = np.linspace(0, 3, int(rng.integers(20, 40)))
    n = 4
    dx = x[1] - x[0]
    P = np.array([sum(rng.random() * np.exp(-.5 * ((x - rng.uniform(.4, 2.6)) / rng.uniform(2 * dx, 6 * dx)) ** 2) for _ in range(4)) for _ in range(n)])
    P /= np.trapz(P, x)[:, None]
    P0 = P.copy()
    case.note(x=x, P=P)
    with contextlib.redirect_stdout(io.StringIO()):
        S, meta, A = build_sparse_representation(x, P, verbose=bool(case.k % 2))
        fresh = create_basis(dict(xvals=x, mu=meta["mu"], sig=meta["sig"], dims=meta["dims"]))
        same(A, fresh, "dictionary after encoding")
        same(P, P0, "encoded values")
        for i in range(n):
            S1, _, _ = build_sparse_representation(x, P[i:i + 1], verbose=False)
            same(S[i], S1[0], "codes of distribution %i encoded alone" % i)
            ind, val = sparse_basis(fresh.copy(), P[i].copy(), meta["dims"][4], tolerance=1e-10)
            y = np.where(fresh[:, ind] @ val > 0, fresh[:, ind] @ val, 0) / (1 if val[0] > 0 else -1)
            bi, w = decode_sparse_indices(S[i:i + 1])
            y2 = fresh[:, bi[0]] @ w[0]
            want = fresh[:, ind] @ (val / val[0])
            check(np.abs(y2 - want) <= 20 * 0.51 / 32000 * np.abs(fresh).max(), "decoded combination of distribution %i" % i, got=y2, expected=want)


# --------------------------------------------------------------------------------------------------------------- C15
def raw_quant(rng):
    n = int(rng.integers(2, 12))
    q = np.sort(rng.uniform(0.02, 0.98, n))
    q = np.cumsum(rng.uniform(0.2, 1, n + 1))
    q = (q / q[-1])[:-1] if n > 1 else q
    if rng.random() < 0.3:
        q[0] = 0.0
    if rng.random() < 0.3:
        q[-1] = 1.0
    tiny = rng.random(2) < 0.15              # outermost probabilities next to, but not at, 0 and 1
    if tiny[0]:
        q[0] = rng.choice([1e-2, 1e-3, 1e-4, 1e-6, 1e-9]) * min(1.0, q[1])
    if tiny[1]:
        q[-1] = 1.0 - rng.choice([1e-2, 1e-3, 1e-4, 1e-6]) * min(1.0, 1.0 - q[-2])
    m = int(rng.integers(1, 5))
    loc = rng.uniform(-2, 2, (m, 1)) + np.cumsum(rng.uniform(0.05, 1, (m, n)), axis=1)
    return q, loc


def pad_ref(q, loc):
    q2, l2 = list(q), [list(r) for r in loc]
    if q[0] > np.finfo(float).eps:
        for r, s in zip(loc, l2):
            s.insert(0, r[0] - q[0] * (r[1] - r[0]) / (q[1] - q[0]))
        q2.insert(0, 0.0)
    if q[-1] < 1.0:
        for r, s in zip(loc, l2):
            s.append(r[-1] + (1 - q[-1]) * (r[-1] - r[-2]) / (q[-1] - q[-2]))
        q2.append(1.0)
    return np.array(q2), np.array(l2)


@test("C15", 60, 1500)
def t_pad(rng, case):
    from qp.quant_pdf import pad_quantiles
    q, loc = raw_quant(rng)
    case.note(q=q, loc=loc)
    q0, l0 = q.copy(), loc.copy()
    qq, ll = pad_quantiles(q, loc)
    rq, rl = pad_ref(q, loc)
    close(qq, rq, "completed probabilities")
    close(ll, rl, "completed positions")
    same(q, q0, "the given probabilities")
    same(loc, l0, "the given positions")
    check(np.diff(ll, axis=1) > 0, "completed positions increase", got=ll)
    ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=loc))
    close(ens.dist.quants, rq, "probabilities of the ensemble")
    close(ens.dist.locs, rl, "positions of the ensemble")


@test("C15", 40, 800)
def t_piecewise_linear(rng, case):
    q, loc = raw_quant(rng)
    rq, rl = pad_ref(q, loc)
    if rq.size < 3:
        return
    case.note(q=q, loc=loc)
    ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=loc, pdf_constructor_name="piecewise_linear"))
    mid = 0.5 * (rl[:, 1:] + rl[:, :-1])
    d = np.diff(rq) / np.diff(rl, axis=1)
    got = ens.pdf(mid[:, 1:-1]) if mid.shape[1] > 2 else None
    if got is not None:
        close(got, d[:, 1:-1], "density midway between the positions", rtol=1e-8)
    x = gen.points(rng, rl.min() - 0.5, rl.max() + 0.5, int(rng.integers(2, 9)), mid)
    close(ens.pdf(x), [np.interp(x, mid[i], d[i], left=0, right=0) for i in range(len(loc))], "piecewise-linear density", x=x)


@test("C15", 40, 800)
def t_piecewise_constant(rng, case):
    from qp.quantile_pdf_constructors import PiecewiseConstant
    q, loc = raw_quant(rng)
    rq, rl = pad_ref(q, loc)
    if rq.size < 4:
        return
    case.note(q=q, loc=loc)
    pc = PiecewiseConstant(rq, rl)
    pc.prepare_constructor()
    d = np.diff(rq) / np.diff(rl, axis=1)
    _, _, cd, cd2, adj = pc.debug()
    close(adj, 0.5 * (rl[:, 1:] + rl[:, :-1]), "midpoints")
    close(cd[:, :-1], d, "node values")
    close(cd[:, -1], np.zeros(len(loc)), "last node value")
    close(cd2[:, :-1], np.diff(cd, axis=1), "differences of the node values")
    ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=loc, pdf_constructor_name="piecewise_constant"))
    x = gen.points(rng, rl.min() - 0.5, rl.max() + 0.5, int(rng.integers(2, 9)), adj)
    want = np.zeros((len(loc), x.size))
    for i in range(len(loc)):
        for j, v in enumerate(x):
            k = int(np.searchsorted(adj[i], v, side="right")) - 1
            if 0 <= k < adj.shape[1] - 1:
                want[i, j] = cd[i, k] + (v - adj[i, k]) * cd2[i, k]
    close(ens.pdf(x), want, "piecewise-constant density", x=x)


@test("C15", 30, 600)
def t_dual_spline(rng, case):
    from qp.quantile_pdf_constructors import DualSplineAverage
    q, loc = raw_quant(rng)
    rq, rl = pad_ref(q, loc)
    case.note(q=q, loc=loc)
    c = DualSplineAverage(rq, rl)
    c.prepare_constructor()
    p = c.debug()[2]
    r = 2 * np.diff(rq) / np.diff(rl, axis=1)
    want = np.zeros(rl.shape)
    for i in range(1, rl.shape[1]):
        want[:, i] = np.maximum(0, r[:, i - 1] - want[:, i - 1])
    close(p, want, "node values of the dual spline")
    check(p >= 0, "node values are never negative")
    if rq.size >= 9:
        from scipy.interpolate import interp1d
        x = gen.points(rng, rl.min() - 0.5, rl.max() + 0.5, 5, rl)
        ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=loc, pdf_constructor_name="dual_spline_average"))
        w = []
        for i in range(len(loc)):
            f = [interp1d(rl[i, a::2], want[i, a::2], kind="cubic", bounds_error=False, fill_value=0.0)(x) for a in (0, 1)]
            w.append((f[0] + f[1]) / 2)
        close(ens.pdf(x), w, "dual-spline density", rtol=1e-7, atol=1e-8)


@test("C15", 20, 300)
def t_spline_derivative(rng, case):
    from scipy.interpolate import InterpolatedUnivariateSpline
    q, loc = raw_quant(rng)
    rq, rl = pad_ref(q, loc)
    if rq.size < 5:
        return
    case.note(q=q, loc=loc)
    ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=loc, pdf_constructor_name="cdf_spline_derivative"))
    x = gen.points(rng, rl.min() - 0.5, rl.max() + 0.5, 5, rl)
    close(ens.pdf(x), [InterpolatedUnivariateSpline(rl[i], rq, k=3, ext=1).derivative()(x) for i in range(len(loc))],
          "derivative of the spline through the quantiles", rtol=1e-7, atol=1e-8)
