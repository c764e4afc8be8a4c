"""Large inputs.  The code is allowed to treat them in blocks; where a block ends is written in the code, so the sizes are taken
from there: every whole number of the source (and a few usual ones), one more, and not a multiple of it."""
import os
import numpy as np
import scipy.stats as sps
import qp
from .core import test, check, close, same
from . import gen
from .t_metrics import quiet, mgrid, slog, point_ref
from .t_ens import same_tables

ORDINARY = {51, 61, 100, 101, 111, 201, 250, 255, 300, 301, 1000, 1234, 32001, 100000}
ROWS = ["hist", "norm", "interp", "quant", "mixmod", "packed_interp", "interp_irregular"]


def literals():
    """whole numbers of the source: the unusual ones first"""
    new = sorted(v for v in gen.WHOLE if v not in ORDINARY)
    old = [1000, 256, 100, 4096, 512, 10000, 32001, 50, 128, 64]
    return new + [v for v in old if v not in new]


LITS = literals()


def size(rng, k, cap):
    """(a number of the code, a size just beyond it) within the cap; alternately just beyond and well beyond"""
    ls = [v for v in LITS if v < cap]
    lit = ls[(k // 2) % len(ls)]
    n = lit + 1 + int(rng.integers(0, max(2, lit // 9)))
    if k % 2 and 2 * lit + 3 < cap:
        n = 2 * lit + 1 + int(rng.integers(1, max(2, lit // 2)))
    return lit, int(min(n, cap))


def some(rng, n, lit, m=9):
    s = {0, n - 1, n // 2, lit - 1, lit, lit + 1, (n // lit) * lit, (n // lit) * lit - 1, *(int(i) for i in rng.integers(0, n, m))}
    return sorted(i for i in s if 0 <= i < n)


def row_values(spec, fn, i, v):
    return float(np.ravel(getattr(spec.row(i), fn)(v))[0])


def many_rows(rng, case, fns):
    lit, n = size(rng, case.k, 30000)
    kind = ROWS[(case.k // 2) % len(ROWS)]
    if kind in ("interp_irregular", "quant") and n > 6000:
        kind = "norm"
    if fns == ["ppf"] and kind == "mixmod":
        kind = "hist"
    spec = gen.KINDS[kind](rng, npdf=n)
    ens = spec.build()
    case.note(kind=kind, npdf=n)
    idx = some(rng, n, lit, 4)
    for fn in fns:
        q = rng.uniform(0.05, 0.95, 2) if fn == "ppf" else spec.pts(rng, 2)
        col = rng.uniform(0.05, 0.95, (n, 1)) if fn == "ppf" else spec.pts(rng, n)[:, None]
        for x in (q, col):
            got = np.asarray(getattr(ens, fn)(x))
            check(got.shape == (n, x.shape[-1]), "shape of the values of many distributions", got=got.shape)
            for i in idx:
                xi = x if x.ndim == 1 else x[i]
                close(got[i], [row_values(spec, fn, i, v) for v in xi], "%s.%s of distribution %i of %i" % (kind, fn, i, n), rtol=1e-7, atol=1e-9, x=xi)


def many_points(rng, case, fns):
    lit, n = size(rng, case.k, 30000)
    kind = ROWS[(case.k // 2) % len(ROWS)]
    if fns == ["ppf"] and kind == "mixmod":
        kind = "interp"
    npdf = 2
    spec = gen.KINDS[kind](rng, npdf=npdf)
    ens = spec.build()
    case.note(kind=kind, points=n)
    idx = some(rng, n, lit, 4)
    for fn in fns:
        x = rng.uniform(0.02, 0.98, n) if fn == "ppf" else spec.pts(rng, n)
        x2 = rng.uniform(0.02, 0.98, (npdf, n)) if fn == "ppf" else spec.pts(rng, npdf * n).reshape(npdf, n)
        for v in (x, np.sort(x), x2):
            got = np.asarray(getattr(ens, fn)(v))
            check(got.shape == (npdf, n), "shape of the values at many points", got=got.shape)
            for j in idx:
                for i in range(npdf):
                    a = v[j] if v.ndim == 1 else v[i, j]
                    close(got[i, j], row_values(spec, fn, i, a), "%s.%s at point %i of %i" % (kind, fn, j, n), rtol=1e-7, atol=1e-9, x=a)


def many_values(rng, case, fns):
    """distributions given by many values each"""
    lit, n = size(rng, case.k, 5000)
    kind = ["hist", "interp", "interp_irregular", "quant"][(case.k // 2) % 4]
    npdf = 2
    if kind == "hist":
        spec = gen.hist(rng, npdf, nbins=n)
    elif kind == "interp":
        spec = gen.interp(rng, npdf, n=n, zeros=False)
    elif kind == "interp_irregular":
        spec = gen.irregular(rng, npdf, n=n)
        spec.data["yvals"] = np.maximum(spec.data["yvals"], 0.05)
    else:
        q = np.sort(rng.uniform(0.001, 0.999, n))
        if np.diff(q).min() < 1e-7:
            q = np.linspace(0.001, 0.999, n)
        locs = rng.uniform(-1, 1, (npdf, 1)) + np.cumsum(rng.uniform(0.1, 0.6, (npdf, n)), axis=1)
        spec = gen.Spec("quant", qp.quant, dict(quants=q, locs=locs, pdf_constructor_name="piecewise_linear"), npdf, locs.min(), locs.max(), locs, rowkeys=("locs",))
    ens = spec.build()
    case.note(kind=kind, values=n)
    d = spec.data
    for i in range(npdf):
        if kind == "hist":
            w = np.diff(d["bins"])
            xk, yk = np.asarray(d["bins"], float), d["pdfs"][i] / np.sum(d["pdfs"][i] * w)
            F = np.r_[0.0, np.cumsum(yk * w)]
        elif kind == "quant":
            xk, F = d["locs"][i], d["quants"]
            yk = None
        else:
            xk = np.asarray(d["xvals"] if kind == "interp" else d["xvals"][i], float)
            y = np.asarray(d["yvals"][i], float)
            tot = np.trapz(y, xk) if kind == "interp" else np.sum(np.diff(xk) * y[1:])
            yk = y / tot
            F = np.r_[0.0, np.cumsum((yk[1:] + yk[:-1]) / 2 * np.diff(xk))]
        j = np.array([m for m in some(rng, len(xk) - 1, lit) if 0 < m])
        t = rng.uniform(0.1, 0.9, j.size)
        x = xk[j] + t * (xk[j + 1] - xk[j])
        if "pdf" in fns and yk is not None:
            want = yk[j] if kind == "hist" else yk[j] + t * (yk[j + 1] - yk[j])
            close(np.ravel(ens[i].pdf(x)), want, "%s of %i values: density" % (kind, n), rtol=1e-6, atol=1e-9)
            close(np.asarray(ens.pdf(x))[i], want, "%s of %i values: density" % (kind, n), rtol=1e-6, atol=1e-9)
        c = F[j] + t * (F[j + 1] - F[j])
        if "cdf" in fns and kind != "interp_irregular":
            if kind == "hist":
                close(np.asarray(ens.cdf(x))[i], c, "%s of %i values: cumulative" % (kind, n), rtol=1e-6, atol=1e-8)
            close(np.asarray(ens.cdf(xk[j]))[i], F[j], "%s of %i values: cumulative at the knots" % (kind, n), rtol=1e-6, atol=1e-8)
        if "ppf" in fns and kind in ("hist", "quant"):
            ok = np.diff(F)[j] > 1e-8
            at = (c[ok], x[ok]) if kind == "hist" else (F[j][ok], xk[j][ok])
            close(np.asarray(ens.ppf(at[0]))[i], at[1], "%s of %i values: quantile function" % (kind, n), rtol=1e-5, atol=1e-6)


def register(prop, fns, name, rows=True, pts=True, vals=True):
    for what, f, on in (("rows", many_rows, rows), ("points", many_points, pts), ("values", many_values, vals)):
        if on:
            def t(rng, case, f=f):
                f(rng, case, fns)
            t.__name__ = "t_many_%s" % what
            test(prop, 2, 8)(t)


register("C01", ["pdf", "cdf"], "", vals=False)
register("C02", ["pdf", "cdf"], "", rows=False)
register("C03", ["pdf"], "", pts=False)
register("C04", ["cdf"], "")
register("C05", ["ppf"], "")


@test("C06", 2, 8)
def t_many_bins(rng, case):
    lit, n = size(rng, case.k, 10000)
    kind = ROWS[(case.k // 2) % len(ROWS)]
    by_rows = case.k % 4 < 2
    spec = gen.KINDS[kind](rng, npdf=min(n, 6000) if by_rows else 2)
    ens = spec.build()
    b = np.sort(spec.pts(rng, 4 if by_rows else n))
    case.note(kind=kind, npdf=ens.npdf, edges=len(b))
    _, h = ens.histogramize(b)
    P = np.diff(np.asarray(ens.cdf(b)), axis=1)
    close(h, P, "probabilities of the bins", rtol=1e-9, atol=1e-12)
    for i in some(rng, spec.npdf, min(lit, spec.npdf)):
        for j in some(rng, len(b) - 1, min(lit, len(b) - 1), 2):
            close(h[i, j], row_values(spec, "cdf", i, b[j + 1]) - row_values(spec, "cdf", i, b[j]), "probability of a bin", rtol=1e-7, atol=1e-9)
    close(ens.sf(b), 1 - np.asarray(ens.cdf(b)), "survival", rtol=1e-9, atol=1e-12)
    close(ens.integrate((b[0], b[-1])), np.asarray(ens.cdf(b[-1])) - np.asarray(ens.cdf(b[0])), "integral", rtol=1e-9, atol=1e-12)


def big_spec(rng, case, cap=30000, ancil=True):
    lit, n = size(rng, case.k, cap)
    kind = ROWS[(case.k // 2) % len(ROWS)]
    if kind in ("interp_irregular", "quant") and n > 6000:
        kind = "norm"
    spec = gen.KINDS[kind](rng, npdf=n)
    if ancil:
        spec.ancil = dict(ident=rng.permutation(n), flux=rng.uniform(0, 1, (n, 2)))
    return lit, n, spec


def same_members(a, ens, idx, what):
    """a holds the distributions idx of ens"""
    idx = np.asarray(idx)
    check(a.npdf == idx.size, what + ": number of distributions", got=a.npdf, expected=idx.size)
    d, e = a.objdata(), ens.objdata()
    for k in e:
        close(np.asarray(d[k]), np.asarray(e[k])[idx], "%s: %s" % (what, k), rtol=1e-12, atol=1e-300)
    if ens.ancil is not None:
        for k, v in ens.ancil.items():
            same(np.asarray(a.ancil[k]), np.asarray(v)[idx], "%s: ancillary %s" % (what, k))


@test("C07", 2, 8)
def t_select_many(rng, case):
    lit, n, spec = big_spec(rng, case)
    ens = spec.build()
    case.note(kind=spec.kind, npdf=n)
    r = np.arange(n)
    m = rng.random(n) < 0.5
    for what, s in (("slice", slice(1, n - 1)), ("reversed", slice(None, None, -1)), ("mask", m), ("permutation", rng.permutation(n)),
                    ("beyond a block", slice(lit - 1, lit + 2)), ("step", slice(0, n, 7)), ("list", [int(i) for i in rng.integers(0, n, 50)]), ("all", slice(None))):
        same_members(ens[s], ens, r[s], "%s of %i" % (what, n))
    for i in some(rng, n, lit, 3):
        e = ens[i]
        for k, v in ens.objdata().items():
            close(np.ravel(e.objdata()[k]), np.ravel(np.asarray(v)[i]), "distribution %i of %i" % (i, n), rtol=1e-12, atol=1e-300)


@test("C08", 2, 8)
def t_concat_many(rng, case):
    lit, n, spec = big_spec(rng, case, 10000)
    ens = spec.build()
    case.note(kind=spec.kind, npdf=n)
    cuts = [0] + sorted({int(c) for c in rng.integers(1, n, 3)}) + [n]
    same_members(qp.concatenate([ens[a:b] for a, b in zip(cuts[:-1], cuts[1:])]), ens, np.arange(n), "large parts together")
    a, b = ens[:cuts[1]], ens[cuts[1]:]
    a.append(b)
    same_members(a, ens, np.arange(n), "a large part appended")
    if n < 1500:
        same_members(qp.concatenate([ens[i:i + 1] for i in range(n)]), ens, np.arange(n), "%i parts together" % n)
    same_members(qp.concatenate([ens, ens[:1], ens]), ens, np.r_[np.arange(n), 0, np.arange(n)], "a large ensemble twice")


@test("C09", 2, 8)
def t_again_many(rng, case):
    lit, n, spec = big_spec(rng, case, 20000)
    ens = spec.build()
    case.note(kind=spec.kind, npdf=n)
    x, x2 = np.sort(spec.pts(rng, 3)), np.sort(spec.pts(rng, 4))
    first = np.array(ens.pdf(x))
    ens.gridded(x2)
    ens.cdf(x2)
    ens.mode(x2)
    close(ens.pdf(x), first, "density asked again", rtol=1e-12, atol=0)
    close(ens.gridded(x)[1], first, "gridded density", rtol=1e-12, atol=0)
    g = np.sort(spec.pts(rng, min(n, 3000)))
    few = ens[:2]
    few.gridded(x)
    close(few.gridded(g)[1], ens[:2].pdf(g), "density on a large grid", rtol=1e-12, atol=0)
    g2 = g.copy()
    g2[len(g2) // 2] += 0.3 * (g2[len(g2) // 2 + 1] - g2[len(g2) // 2])
    close(few.gridded(g2)[1], ens[:2].pdf(g2), "density on a large grid which differs in one point", rtol=1e-12, atol=0)


def scratch(name):
    f = "%s_%i" % (name, os.getpid())
    if os.path.exists(f):
        os.remove(f)
    return f


@test("C10", 2, 8)
def t_files_many(rng, case):
    lit, n, spec = big_spec(rng, case, 20000)
    ext = ["hdf5", "fits", "hdf5"][(case.k // 3) % 3]
    if ext == "fits":
        spec.ancil.pop("flux")
    ens = spec.build()
    case.note(kind=spec.kind, npdf=n, ext=ext)
    fn = "large_%i.%s" % (os.getpid(), ext)
    if os.path.exists(fn):
        os.remove(fn)
    with quiet():
        ens.write_to(fn)
        back = qp.read(fn)
    os.remove(fn)
    same_tables(back, ens, "large ensemble read back")
    same_members(back, ens, np.arange(n), "large ensemble read back")


@test("C11", 2, 8)
def t_iterator_many(rng, case):
    lit, n, spec = big_spec(rng, case, 120000 if case.k % 5 == 0 else 20000)
    ens = spec.build()
    fn = "largeit_%i.hdf5" % os.getpid()
    if os.path.exists(fn):
        os.remove(fn)
    ens.write_to(fn)
    chunk = [lit, max(1, n // 3), n, n + 5, max(1, n // 40)][int(rng.integers(5))]
    par = int(rng.integers(1, 4))
    case.note(kind=spec.kind, npdf=n, chunk=chunk, parallel=par)
    check(qp.data_length(fn) == n, "number of rows", got=qp.data_length(fn))
    for p in {1, par}:
        seen = np.zeros(n, int)
        for rank in range(p):
            for s, e, c in qp.iterator(fn, chunk_size=chunk, rank=rank, parallel_size=p):
                seen[s:e] += 1
                check(0 < e - s <= chunk and e <= n, "row range", start=s, end=e)
                same_members(c, ens, np.arange(s, e), "rows %i to %i of %i" % (s, e, n))
        same(seen, np.ones(n, int), "rows read once each")
    os.remove(fn)


@test("C12", 2, 8)
def t_write_many(rng, case):
    lit, n, spec = big_spec(rng, case, 20000)
    ens = spec.build()
    cuts = np.unique(np.r_[0, n, rng.integers(0, n + 1, 3), np.arange(0, n, lit)[:8]])
    pieces = list(zip(cuts[:-1], cuts[1:]))
    case.note(kind=spec.kind, npdf=n, pieces=pieces)
    fn = "largecw_%i.hdf5" % os.getpid()
    if os.path.exists(fn):
        os.remove(fn)
    group, fout = ens.initializeHdf5Write(fn, n)
    for j in rng.permutation(len(pieces)):
        s, e = map(int, pieces[j])
        ens[s:e].writeHdf5Chunk(group, s, e)
    ens.finalizeHdf5Write(fout)
    back = qp.read(fn)
    os.remove(fn)
    same_members(back, ens, np.arange(n), "large file written piece by piece")


@test("C13", 2, 8)
def t_pack_many(rng, case):
    from qp.packing_utils import PackingType, pack_array, unpack_array
    lit, n = size(rng, case.k, 20000)
    shape = (n, 4) if case.k % 4 < 2 else (3, n)
    sc = 10.0 ** rng.uniform(-3, 3, (shape[0], 1))
    y = rng.uniform(0, 1, shape) ** 2 * sc
    y[:, 0] = sc[:, 0]
    case.note(shape=shape)
    p, m = pack_array(PackingType.linear_from_rowmax, y)
    u = unpack_array(PackingType.linear_from_rowmax, p, row_max=m)
    top = y.max(axis=1, keepdims=True)
    same(np.asarray(m), top, "row maxima of a large array")
    check(np.abs(u - y) <= top * (1 / 510 + 1e-12), "a large array within half a step")
    p, m = pack_array(PackingType.log_from_rowmax, y, log_floor=-3.)
    u = unpack_array(PackingType.log_from_rowmax, p, row_max=m, log_floor=-3.)
    same(np.asarray(m), top, "row maxima of a large array")
    hi = y >= top * 1e-2
    r = np.log10(u[hi] / y[hi])
    check(np.abs(r) <= 3 / 510 * 1.01, "a large array within half a logarithmic step", worst=np.abs(r).max())


@test("C14", 2, 8)
def t_codes_many(rng, case):
    from qp import sparse_rep
    lit, n = size(rng, case.k, 20000)
    ncoef = 32001
    co, ba = rng.integers(0, ncoef, n), rng.integers(0, 5000, n)
    case.note(n=n)
    codes = np.array([sparse_rep.combine_int(int(a), int(b)) for a, b in zip(co, ba)])
    c2, b2 = zip(*[sparse_rep.get_N(int(v)) for v in codes[:2000]])
    same(np.array(c2), co[:2000], "coefficients")
    same(np.array(b2), ba[:2000], "bases")
    m = min(n, 6000)
    spec = gen.sparse(rng, 3)
    idx = np.asarray(spec.data["sparse_indices"])[rng.integers(0, 3, m)]
    md = {k: spec.data[k] for k in ("xvals", "mu", "sig", "dims")}
    ens = qp.Ensemble(qp.sparse, data=dict(md, sparse_indices=idx))
    i0 = np.asarray(spec.data["sparse_indices"])
    few = qp.Ensemble(qp.sparse, data=dict(md, sparse_indices=i0)).dist.yvals
    which = np.array([np.flatnonzero((i0 == r).all(axis=1))[0] for r in idx])
    close(np.asarray(ens.dist.yvals), np.asarray(few)[which], "densities decoded from many codes", rtol=1e-9, atol=1e-12)


@test("C15", 2, 8)
def t_quantiles_many(rng, case):
    lit, n = size(rng, case.k, 5000)
    by_rows = case.k % 4 < 2
    npdf, nq = (n, 5) if by_rows else (2, n)
    q = np.linspace(0.002, 0.998, nq)
    locs = rng.uniform(-1, 1, (npdf, 1)) + np.cumsum(rng.uniform(0.1, 0.6, (npdf, nq)), axis=1)
    case.note(npdf=npdf, quantiles=nq)
    ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
    d = ens.dist
    same(np.ravel(d.quants)[1:-1], q, "quantiles of a large ensemble")
    same(np.asarray(d.locs)[:, 1:-1], locs, "positions of a large ensemble")
    close(np.ravel(d.quants)[[0, -1]], [0, 1], "padding")
    check((d.locs[:, 0] < locs[:, 0]).all() and (d.locs[:, -1] > locs[:, -1]).all(), "padding is outside")
    for i in some(rng, npdf, min(lit, npdf), 3):
        close(np.ravel(ens[i].cdf(locs[i])), q, "cumulative at the quantiles", rtol=1e-7)


@test("C16", 2, 8)
def t_moments_many(rng, case):
    lit, n = size(rng, case.k, 10000)
    by_rows = case.k % 4 < 2
    kind = ["hist", "interp", "packed_interp"][(case.k // 4) % 3]
    if by_rows:
        spec = gen.KINDS[kind](rng, npdf=n)
    else:
        spec = gen.hist(rng, 2, nbins=n) if kind == "hist" else gen.interp(rng, 2, n=n)
    kind = spec.kind
    ens = spec.build()
    case.note(kind=kind, npdf=spec.npdf)
    m, v = np.ravel(ens.mean()), np.ravel(ens.var())
    for i in some(rng, spec.npdf, min(lit, spec.npdf), 3):
        e = spec.row(i)
        if kind == "hist":
            b = np.asarray(spec.data["bins"], float)
            c, w = (b[1:] + b[:-1]) / 2, np.diff(b)
            p = np.ravel(spec.data["pdfs"][i]) * w
            p = p / p.sum()
            m1, m2 = np.sum(p * c), np.sum(p * (c * c + w * w / 12))
            if abs(np.sum(p * c * c) - m1 * m1 - v[i]) < 1e-6 * abs(v[i]):
                m2 = np.sum(p * c * c)
        else:
            m1, m2 = float(np.ravel(e.mean())[0]), None
        close(m[i], m1, "mean of distribution %i of %i" % (i, spec.npdf), rtol=1e-6, atol=1e-9)
        if by_rows:
            close(v[i], float(np.ravel(e.var())[0]), "variance of distribution %i of %i" % (i, spec.npdf), rtol=1e-6, atol=1e-9)


def pair(rng, case, cap=8000):
    lit, n = size(rng, case.k, cap)
    a = gen.KINDS[["norm", "hist", "interp", "mixmod"][(case.k // 2) % 4]](rng, npdf=n)
    b = gen.norm(rng, n)
    case.note(kind=a.kind, npdf=n)
    return lit, n, a.build(), b.build()


@test("C17", 2, 8)
def t_metrics_many(rng, case):
    M = qp.metrics
    if case.k % 4 < 2:
        lit, n, p, q = pair(rng, case)
        lim, dx = (-2., 3.), 0.25
    else:
        lit, n = size(rng, case.k, 20000)
        p, q = gen.hist(rng, 2).build(), gen.norm(rng, 2).build()
        lim, dx = (-2., 3.), 5.0 / (n + 0.5)
        case.note(grid=n)
    x, h = mgrid(lim, dx)
    py, qy = np.array(p.pdf(x)), np.array(q.pdf(x))
    close(M.calculate_moment(p, 2, lim, dx), h * (py * x ** 2).sum(axis=1), "moments of many", rtol=1e-7, atol=1e-8)
    close(M.calculate_rmse(p, q, lim, dx), np.sqrt(((py - qy) ** 2).sum(axis=1) / x.size), "rms errors of many", rtol=1e-7)
    want = h * (py * (slog(py) - slog(qy))).sum(axis=1)
    with quiet():
        got = M.calculate_kld(p, q, lim, dx)
    if want.min() > 1e-9:
        close(got, want, "divergences of many", rtol=1e-7)
    with quiet():
        got = M.calculate_kld(q, q, lim, dx)
    close(got, np.zeros(q.npdf), "divergence of an ensemble with itself")


@test("C18", 2, 8)
def t_losses_many(rng, case):
    lit, n, p, _ = pair(rng, case)
    lim, dx = (-2., 2.), 0.25
    x, h = mgrid(lim, dx)
    k = rng.integers(0, x.size, n)
    t = np.clip(x[k] + rng.uniform(-0.4, 0.4, n) * h, *lim)
    y = np.array(p.pdf(x))
    ind = np.zeros((n, x.size))
    ind[np.arange(n), k] = 1
    want = np.mean(np.sum((y - ind) ** 2, axis=1))
    close(qp.metrics.calculate_brier(p, t, lim, dx), want, "Brier score of many", rtol=1e-8)
    m = qp.metrics.create_metric("brier", limits=lim, dx=dx)
    c = sorted({0, n, int(rng.integers(1, n)), lit})
    close(m.finalize([m.accumulate(p[a:b], t[a:b]) for a, b in zip(c[:-1], c[1:])]), want, "Brier score of many by chunks", rtol=1e-8)
    g = np.linspace(-2.5, 2.5, 23)
    y = np.array(p.pdf(g))
    want = np.mean(np.trapz(y ** 2, g, axis=1)) - 2 * np.mean(y[np.arange(n), np.argmin(np.abs(g[None] - t[:, None]), axis=1)])
    m = qp.metrics.create_metric("cdeloss", eval_grid=g)
    close(m.evaluate(p, t), want, "conditional density loss of many", rtol=1e-8)
    close(m.finalize([m.accumulate(p[a:b], t[a:b]) for a, b in zip(c[:-1], c[1:])]), want, "conditional density loss of many by chunks", rtol=1e-8)


@test("C19", 2, 8)
def t_gof_many(rng, case):
    from qp.metrics.goodness_of_fit import goodness_of_fit_metrics as g
    lit, n = size(rng, case.k, 8000)
    npdf, m = (n, 4) if case.k % 4 < 2 else (2, n)
    loc, sc = rng.uniform(-1, 1, (npdf, 1)), rng.uniform(0.5, 2, (npdf, 1))
    d = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=sc))
    x = rng.normal(0, 1.0, (npdf, m))
    case.note(npdf=npdf, samples=m)
    s = np.sort(x, axis=1)
    F = sps.norm.cdf(s, loc, sc)
    i = np.arange(1, m + 1)
    close(g["ks"](d, x), np.maximum((i / m - F).max(axis=1), (F - (i - 1) / m).max(axis=1)), "ks of many", rtol=1e-8)
    close(g["cvm"](d, x), 1 / (12 * m) + ((F - (2 * i - 1) / (2 * m)) ** 2).sum(axis=1), "cvm of many", rtol=1e-8)
    ad = -m - ((2 * i - 1) / m * (sps.norm.logcdf(s, loc, sc) + sps.norm.logsf(s, loc, sc)[:, ::-1])).sum(axis=1)
    close(g["ad"](d, x), ad, "ad of many", rtol=1e-7)


@test("C20", 2, 8)
def t_point_many(rng, case):
    lit, n = size(rng, case.k, 200000)
    ref = rng.uniform(0.0, 3, n)
    # the objects after the last whole block differ from the others
    last = (n // lit) * lit if n % lit else n
    e = rng.normal(0, 0.02, n) * np.where(rng.random(n) < 0.15, 9, 1)
    e[lit:] += 0.1
    est = ref + (1 + ref) * e
    case.note(n=n)
    e = (est - ref) / (1 + ref)
    cm = qp.metrics.create_metric
    close(cm("point_stats_ez").evaluate(est, ref), e, "scaled errors of many")
    for name, v in point_ref(e).items():
        close(cm(name).evaluate(est, ref), v, name + " of many", rtol=1e-9)


@test("C21", 2, 8)
def t_pit_many(rng, case):
    from qp.metrics.pit import PIT
    import logging
    logging.disable(logging.CRITICAL)
    lit, n = size(rng, case.k, 20000)
    spec = gen.KINDS[["norm", "hist", "interp", "mixmod"][(case.k // 2) % 4]](rng, npdf=n)
    p, t = spec.build(), spec.pts(rng, n)
    case.note(kind=spec.kind, npdf=n)
    got = PIT._gather_pit_samples(p, t)
    close(got, np.ravel(p.cdf(t[:, None])), "PIT samples of many", rtol=1e-8)
    for i in some(rng, n, lit, 4):
        close(got[i], row_values(spec, "cdf", i, t[i]), "PIT sample %i of %i" % (i, n), rtol=1e-7, atol=1e-9)
    o = PIT(p, t, np.linspace(0, 1, 30))
    close(o.pit_samps, got, "PIT samples of many")
    s = np.sort(o._trim_pit_values(0.2, 0.8))
    same(s, np.sort(got[(got >= 0.2) & (got <= 0.8)]), "trimmed samples of many")
    close(o.evaluate_PIT_KS().statistic, sps.kstest(got, "uniform").statistic, "ks of many samples")
    close(o.evaluate_PIT_CvM().statistic, sps.cramervonmises(got, "uniform").statistic, "cvm of many samples")
    if n > 1200:
        p = p[:lit + 2] if lit < 1200 else p[:20]
    close(qp.metrics.calculate_outlier_rate(p, -0.5, 0.5), np.ravel(p.cdf(-0.5)) + 1 - np.ravel(p.cdf(0.5)), "outlier rates of many", rtol=1e-8)


@test("C22", 2, 8)
def t_convert_many(rng, case):
    lit, n = size(rng, case.k, 5000)
    by_rows = case.k % 4 < 2
    kind = ["norm", "hist", "interp", "beta"][(case.k // 2) % 4]
    spec = gen.KINDS[kind](rng, npdf=n if by_rows else 2)
    ens = spec.build()
    m = 5 if by_rows else n
    x = np.linspace(spec.lo, spec.hi, m)
    case.note(kind=kind, npdf=spec.npdf, values=m)
    D = np.asarray(ens.pdf(x))
    if (np.trapz(D, x, axis=1) > 1e-6).all():
        e = qp.convert(ens, "interp", xvals=x)
        close(e.dist.yvals, D / np.trapz(D, x, axis=1)[:, None], "stored densities of a large conversion", rtol=1e-7)
    C = np.diff(np.asarray(ens.cdf(x)), axis=1)
    if (C.sum(axis=1) > 1e-6).all():
        e = qp.convert(ens, "hist", bins=x)
        close(e.dist.pdfs, C / np.sum(C * np.diff(x), axis=1)[:, None], "stored heights of a large conversion", rtol=1e-6, atol=1e-8)
    if kind in ("norm", "beta"):
        q = np.linspace(0.02, 0.98, m)
        e = qp.convert(ens, "quant", quants=q)
        L = np.asarray(ens.ppf(q))
        close(e.dist.locs[:, 1:-1], L, "stored positions of a large conversion", rtol=1e-7)


@test("C24", 2, 8)
def t_untouched_many(rng, case):
    lit, n, spec = big_spec(rng, case, 10000)
    d = spec.copy_data()
    d0 = {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in d.items()}
    ens = qp.Ensemble(spec.gen_func, data=d)
    case.note(kind=spec.kind, npdf=n)
    x = spec.pts(rng, n)
    x0 = x.copy()
    g = np.sort(spec.pts(rng, 5))
    g0 = g.copy()
    ens.pdf(x[:, None]), ens.cdf(g), ens[:2].pdf(x), ens[:2].cdf(x), ens.gridded(g), ens.histogramize(g)
    qp.convert(ens, "hist", bins=g)
    same(x, x0, "many points")
    same(g, g0, "the grid")
    for k, v in d0.items():
        if isinstance(v, np.ndarray):
            same(d[k], v, "data of a large ensemble: " + k)


@test("C25", 2, 8)
def t_analytic_many(rng, case):
    lit, n = size(rng, case.k, 30000)
    loc, sc = rng.uniform(-1, 1, (n, 1)), rng.uniform(0.3, 2, (n, 1))
    e = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=sc))
    case.note(npdf=n)
    x = rng.uniform(-2, 2, 3)
    for fn in ("pdf", "cdf", "sf", "logpdf"):
        close(getattr(e, fn)(x), getattr(sps.norm(loc, sc), fn)(x), "norm.%s of many" % fn)
    close(e.ppf(np.array([0.1, 0.7])), sps.norm(loc, sc).ppf([0.1, 0.7]), "norm.ppf of many")
    close(np.ravel(e.mean()), loc.ravel(), "means of many")
    y = rng.uniform(-2, 2, n)
    two = e[:2]
    close(two.pdf(y), sps.norm(loc[:2], sc[:2]).pdf(y), "norm.pdf at many points")
