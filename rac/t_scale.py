"""The same distributions in other units.  With x in units of s = 2**k times the unit (which is exact in floating point) the
densities are 1/s times the densities, probabilities are the same and positions are s times the positions."""
import os
import numpy as np
import scipy.stats as sps
import qp
from .core import test, check, close, same
from . import gen
from .t_metrics import quiet, limits, mgrid
from .t_ens import same_tables

X = dict(hist=["bins"], interp=["xvals"], interp_irregular=["xvals"], packed_interp=["xvals"], quant=["locs"], mixmod=["means", "stds"],
         norm=["loc", "scale"], beta=["loc", "scale"])
Y = dict(hist="pdfs", interp="yvals", interp_irregular="yvals", packed_interp="ymax", mixmod="weights")
KIND = ["hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod", "norm", "beta"]


def factor(rng):
    """a power of two which brings a width of one below a small tolerance of the source, above a large number of it, or anywhere"""
    r = rng.random()
    if r < 0.5:
        return 2.0 ** np.floor(np.log2(gen.tiny(rng)))
    if r < 0.7 and gen.WHOLE:
        w = sorted(gen.WHOLE)
        return 2.0 ** np.ceil(np.log2(w[rng.integers(len(w))]))
    return 2.0 ** float(rng.choice([-60, -40, -30, -20, -10, 10, 20, 30, 40, 60]))


def scaled(spec, s):
    d = dict(spec.data)
    for k in X[spec.kind]:
        d[k] = np.asarray(d[k], float) * s
    return gen.Spec(spec.kind, spec.gen_func, d, spec.npdf, spec.lo * s, spec.hi * s, np.asarray(spec.edges, float) * s, rowkeys=spec.rowkeys)


def near_to(got, want, msg, rtol=1e-8, **kw):
    want = np.asarray(want, float)
    m = np.max(np.abs(want[np.isfinite(want)]), initial=0.0)
    close(got, want, msg, rtol=rtol, atol=1e-11 * m, **kw)


def draw(rng, case, kinds=KIND, npdf=None):
    spec = gen.KINDS[kinds[case.k % len(kinds)]](rng, npdf=npdf or gen.n_pdf(rng, 1, 4))
    if spec.kind == "quant" and spec.data["pdf_constructor_name"] == "piecewise_constant":
        # that rule adds differences of the node values times distances: its densities depend on the units
        spec.data["pdf_constructor_name"] = ["piecewise_linear", "cdf_spline_derivative", "dual_spline_average"][case.k % 3]
    s = factor(rng)
    case.note(spec=spec, factor=s)
    return spec, s, spec.build(), scaled(spec, s).build()


def evaluation(prop, fns, kinds):
    def t_units(rng, case):
        spec, s, a, b = draw(rng, case, kinds)
        x = spec.pts(rng, 7)
        x2 = spec.pts(rng, 3 * spec.npdf).reshape(spec.npdf, 3)
        q = rng.uniform(0.03, 0.97, 5)
        for fn in fns:
            if fn == "ppf":
                near_to(b.ppf(q), s * np.asarray(a.ppf(q)), "%s: quantiles in other units" % spec.kind)
                continue
            f = s if fn == "pdf" else 1.0
            for v in (x, x2):
                near_to(np.asarray(getattr(b, fn)(v * s)) * f, getattr(a, fn)(v), "%s: %s in other units" % (spec.kind, fn), x=v)
    test(prop, 6, 60)(t_units)


evaluation("C01", ["pdf", "cdf", "ppf"], KIND)
evaluation("C02", ["pdf", "cdf"], ["hist"])
evaluation("C04", ["cdf"], ["hist", "interp", "interp_irregular", "packed_interp", "mixmod"])
evaluation("C05", ["ppf"], ["hist", "interp", "interp_irregular", "packed_interp", "mixmod"])
evaluation("C15", ["pdf", "cdf"], ["quant"])


@test("C02", 6, 60)
def t_profile_units(rng, case):
    from qp.utils import profile
    n = int(rng.integers(2, 8))
    b = gen.grid(rng, n + 1)
    s = factor(rng)
    x = gen.points(rng, b[0], b[-1], int(rng.integers(4, 30)), b)
    y = rng.normal(size=x.size)
    case.note(bins=b, x=x, y=y, factor=s)
    with np.errstate(all="ignore"):
        p, q = profile(x, y, b, std=True), profile(x * s, y, b * s, std=True)
    for u, v in zip(p, q):
        near_to(v, u, "profile in other units")
    cnt = np.array([((x > lo) & (x < hi)).sum() for lo, hi in zip(b[:-1], b[1:])])
    want = [y[(x > lo) & (x < hi)].mean() if c else np.nan for lo, hi, c in zip(b[:-1], b[1:], cnt)]
    ok = cnt > 0
    near_to(np.asarray(q[0])[ok], np.asarray(want)[ok], "means of the profile in other units")


@test("C03", 6, 60)
def t_total_units(rng, case):
    """any common or own factor of the heights leaves the densities as they are"""
    spec, s, a, b = draw(rng, case, ["hist", "interp", "interp_irregular", "mixmod"])
    x = spec.pts(rng, 7)
    near_to(np.asarray(b.pdf(x * s)) * s, a.pdf(x), "%s: densities in other units" % spec.kind)
    d = dict(spec.data)
    f = 2.0 ** rng.integers(-30, 30, (spec.npdf, 1)) if rng.random() < 0.5 else factor(rng)
    d[Y[spec.kind]] = d[Y[spec.kind]] * f
    case.note(heights=f)
    near_to(qp.Ensemble(spec.gen_func, data=d).pdf(x), a.pdf(x), "%s: densities for other heights in the same proportions" % spec.kind)


@test("C06", 6, 60)
def t_probability_units(rng, case):
    spec, s, a, b = draw(rng, case)
    e = np.sort(spec.pts(rng, 5))
    near_to(b.histogramize(e * s)[1], a.histogramize(e)[1], "probabilities of bins in other units")
    near_to(b.sf(e * s), a.sf(e), "survival in other units")
    near_to(b.integrate((e[0] * s, e[-1] * s)), a.integrate((e[0], e[-1])), "integral in other units")


@test("C09", 6, 60)
def t_gridded_units(rng, case):
    spec, s, a, b = draw(rng, case)
    g = np.sort(spec.pts(rng, 5))
    g2 = g + 0.01 * rng.uniform(0.5, 1, g.size)
    b.gridded(g * s)
    near_to(b.gridded(g2 * s)[1] * s, a.pdf(g2), "gridded densities in other units")
    b.gridded(g * s)
    near_to(b.gridded(g[:-1] * s)[1] * s, a.pdf(g[:-1]), "gridded densities in other units")


@test("C10", 6, 60)
def t_file_units(rng, case):
    spec, s, a, b = draw(rng, case, KIND[:7])
    ext = ["hdf5", "fits", "pq"][(case.k // 7) % 3]
    fn = "unit_%i.%s" % (os.getpid(), ext)
    pre = "unit_%i" % os.getpid()
    for f in os.listdir("."):
        if f.startswith(pre):
            os.remove(f)
    with quiet():
        b.write_to(fn)
        c = qp.read(fn)
    for f in os.listdir("."):
        if f.startswith(pre):
            os.remove(f)
    same_tables(c, b, "values in other units")
    x = spec.pts(rng, 5)
    near_to(np.asarray(c.pdf(x * s)) * s, a.pdf(x), "densities read back in other units")


@test("C13", 10, 100)
def t_pack_units(rng, case):
    from qp.packing_utils import PackingType, pack_array, unpack_array
    n, m = int(rng.integers(1, 5)), int(rng.integers(2, 9))
    y = rng.uniform(0, 1, (n, m)) * 10.0 ** rng.uniform(-2, 2, (n, 1))
    s = factor(rng) if rng.random() < 0.5 else 2.0 ** rng.integers(-40, 40, (n, 1))
    case.note(values=y, factor=s)
    p, t = pack_array(PackingType.linear_from_rowmax, y)
    p2, t2 = pack_array(PackingType.linear_from_rowmax, y * s)
    same(p2, p, "packed values in other units")
    near_to(t2, t * s, "row maxima in other units")
    near_to(unpack_array(PackingType.linear_from_rowmax, p2, row_max=t2), unpack_array(PackingType.linear_from_rowmax, p, row_max=t) * s, "unpacked values in other units")


@test("C16", 6, 60)
def t_moment_units(rng, case):
    spec, s, a, b = draw(rng, case, ["hist", "interp", "packed_interp"])
    near_to(np.ravel(b.mean()), np.ravel(a.mean()) * s, "means in other units", rtol=1e-7)
    v = np.ravel(a.var())
    close(np.ravel(b.var()) / s / s, v, "variances in other units", rtol=1e-6, atol=1e-9 * max(1.0, np.max(np.abs(v)), np.max(np.ravel(a.mean()) ** 2)))


@test("C17", 6, 60)
def t_metric_units(rng, case):
    spec, s, p, ps = draw(rng, case)
    q = gen.norm(rng, spec.npdf)
    qs = scaled(q, s).build()
    q = q.build()
    lim, dx = limits(rng)
    ls = (lim[0] * s, lim[1] * s)
    M = qp.metrics
    near_to(M.calculate_rmse(ps, qs, ls, dx * s) * s, M.calculate_rmse(p, q, lim, dx), "rms error in other units")
    for N in (1, 2):
        x, h = mgrid(lim, dx)
        close(M.calculate_moment(ps, N, ls, dx * s) / s ** N, h * (np.asarray(p.pdf(x)) * x ** N).sum(axis=1), "moments in other units", rtol=1e-7, atol=1e-9)


@test("C18", 6, 60)
def t_loss_units(rng, case):
    spec, s, p, ps = draw(rng, case)
    s = float(s)
    if not 1e-6 < s < 1e6:
        return
    n = spec.npdf
    g = np.linspace(spec.lo, spec.hi, 17)
    t = rng.uniform(g[0], g[-1], n)
    y = np.asarray(ps.pdf(g * s))
    want = np.mean(np.trapz(y ** 2, g * s, axis=1)) - 2 * np.mean(y[np.arange(n), np.argmin(np.abs(g[None] - t[:, None]), axis=1)])
    close(qp.metrics.create_metric("cdeloss", eval_grid=g * s).evaluate(ps, t * s), want, "conditional density loss in other units", rtol=1e-7, atol=1e-9 / s)
    lim, dx = (-2.0 * s, 2.0 * s), 0.25 * s
    x, h = mgrid(lim, dx)
    k = rng.integers(1, x.size - 1, n)
    y = np.asarray(ps.pdf(x))
    ind = np.zeros((n, x.size))
    ind[np.arange(n), k] = 1
    import logging
    logging.disable(logging.CRITICAL)
    close(qp.metrics.calculate_brier(ps, x[k] + 0.3 * h * rng.uniform(-1, 1, n), lim, dx), np.mean(np.sum((y - ind) ** 2, axis=1)), "Brier score in other units", rtol=1e-7)


@test("C19", 6, 60)
def t_gof_units(rng, case):
    from qp.metrics.goodness_of_fit import goodness_of_fit_metrics as g
    n, m = int(rng.integers(1, 5)), int(rng.integers(2, 9))
    loc, sc = rng.uniform(-1, 1, (n, 1)), rng.uniform(0.5, 2, (n, 1))
    s = factor(rng)
    x = rng.normal(0, 1.5, (n, m))
    case.note(loc=loc, scale=sc, x=x, factor=s)
    a = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=sc))
    b = qp.Ensemble(qp.stats.norm, data=dict(loc=loc * s, scale=sc * s))
    for name in ("ks", "cvm", "ad"):
        near_to(g[name](b, x * s), g[name](a, x), name + " in other units")


@test("C21", 6, 60)
def t_pit_units(rng, case):
    from qp.metrics.pit import PIT
    spec, s, p, ps = draw(rng, case)
    t = spec.pts(rng, spec.npdf)
    near_to(PIT._gather_pit_samples(ps, t * s), [np.ravel(p[i].cdf(t[i]))[0] for i in range(spec.npdf)], "PIT in other units")
    lo, hi = np.sort(spec.pts(rng, 2))
    near_to(qp.metrics.calculate_outlier_rate(ps, lo * s, hi * s), [np.ravel(p[i].cdf(lo))[0] + 1 - np.ravel(p[i].cdf(hi))[0] for i in range(spec.npdf)],
            "outlier rate in other units")


@test("C22", 6, 60)
def t_convert_units(rng, case):
    spec, s, a, b = draw(rng, case)
    x = np.sort(rng.uniform(spec.lo, spec.hi, 6)) + np.arange(6) * 1e-3
    D = np.asarray(a.pdf(x))
    if not ((np.trapz(D, x, axis=1) <= 1e-6).any() or (np.max(D[:, 1:], axis=1) < 1e-6).any()):
        near_to(qp.convert(b, "interp", xvals=x * s).dist.yvals * s, D / np.trapz(D, x, axis=1)[:, None], "interp in other units")
    P = np.diff(np.asarray(a.cdf(x)), axis=1)
    if not (P.sum(axis=1) <= 1e-6).any():
        close(qp.convert(b, "hist", bins=x * s).dist.pdfs * s, P / np.sum(P * np.diff(x), axis=1)[:, None], "hist in other units", rtol=1e-6, atol=1e-8)
    if spec.kind in ("norm", "beta", "hist", "quant"):
        q = np.linspace(0.05, 0.95, 9)
        L = np.asarray(a.ppf(q))
        if (np.diff(L, axis=1) > 0).all():
            near_to(qp.convert(b, "quant", quants=q).dist.locs[:, 1:-1], L * s, "quantiles in other units", rtol=1e-7)


@test("C25", 6, 60)
def t_analytic_units(rng, case):
    n = gen.n_pdf(rng, 1, 4)
    s = factor(rng)
    loc, sc = rng.uniform(-1, 1, (n, 1)) * s, rng.uniform(0.3, 1.2, (n, 1)) * s
    x = rng.uniform(-3, 3, 5) * s
    case.note(loc=loc, scale=sc, x=x)
    for name in ("norm", "uniform", "cauchy", "logistic"):
        e = qp.Ensemble(getattr(qp.stats, name), data=dict(loc=loc, scale=sc))
        f = getattr(sps, name)(loc, sc)
        near_to(e.pdf(x), f.pdf(x), name + ".pdf in other units")
        near_to(e.cdf(x), f.cdf(x), name + ".cdf in other units")
        near_to(e.ppf(np.array([0.1, 0.8])), f.ppf([0.1, 0.8]), name + ".ppf in other units")
