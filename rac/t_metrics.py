"""C17 grid metrics, C18 Brier and CDE loss, C19 goodness of fit, C20 point metrics, C21 PIT"""
import contextlib, io, logging
import numpy as np
from rac.core import test, check, close, same, raises, fail
from rac import gen
import qp

MK = ["norm", "hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod"]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def specs(rng, k, npdf):
    return gen.KINDS[MK[k % len(MK)]](rng, npdf=npdf)


def limits(rng):
    dx = float(rng.choice([0.01, 0.05, 0.1, 0.25]))
    lo = float(rng.integers(-3, 2))
    return (lo, lo + float(rng.integers(1, 6))), dx


def mgrid(lim, dx):
    n = int((lim[1] - lim[0]) / dx)
    return np.linspace(lim[0], lim[1], n), (lim[1] - lim[0]) / (n - 1)


def slog(v):
    t = np.finfo(float).eps
    return np.log(np.where(v > t, v, t))


# --------------------------------------------------------------------------------------------------------------- C17
@test("C17", 30, 500)
def t_moment_rmse_kld(rng, case):
    n = int(rng.integers(1, 5))
    p, q = specs(rng, case.k, n).build(), specs(rng, int(rng.integers(7)), n).build()
    lim, dx = limits(rng)
    x, h = mgrid(lim, dx)
    case.note(p=p.objdata(), q=q.objdata(), limits=lim, dx=dx)
    py, qy = np.array(p.pdf(x)), np.array(q.pdf(x))
    M = qp.metrics
    for N in (0, 1, 2, int(rng.integers(3, 6))):
        close(M.calculate_moment(p, N, lim, dx), [h * sum(py[i] * x ** N) for i in range(n)], "moment %i" % N, rtol=1e-8, atol=1e-8)
    r = M.calculate_rmse(p, q, lim, dx)
    close(r, [np.sqrt(np.sum((py[i] - qy[i]) ** 2) / x.size) for i in range(n)], "rms error", rtol=1e-8)
    close(M.calculate_rmse(q, p, lim, dx), r, "rms error is symmetric")
    close(M.calculate_rmse(p, p, lim, dx), np.zeros(n), "rms error of an ensemble with itself")
    want = np.array([h * np.sum(py[i] * (slog(py[i]) - slog(qy[i]))) for i in range(n)])
    with quiet():
        got = M.calculate_kld(p, q, lim, dx)
        close(M.calculate_kld(p, p, lim, dx), np.zeros(n), "divergence of an ensemble with itself")
    if want.min() > 1e-9:
        close(got, want, "divergence", rtol=1e-8)
    elif want.min() < -1e-9:
        close(got, np.full(n, np.finfo(float).eps), "divergence when one is negative")
    for name, w, a in (("moment", p, ()), ("rmse", r, (q,)), ("kld", got, (q,))):
        with quiet():
            m = qp.metrics.create_metric(name, limits=lim, dx=dx)
            v = m.evaluate(p, *a)
        close(v, M.calculate_moment(p, 1, lim, dx) if name == "moment" else w, "metric class " + name)


@test("C17", 10, 100)
def t_refuse(rng, case):
    n = int(rng.integers(1, 4))
    p, q = specs(rng, case.k, n).build(), specs(rng, case.k + 1, n + 1).build()
    case.note(n=n)
    raises(lambda: qp.metrics.calculate_kld(p, q, (0., 3.)), "divergence of ensembles of different sizes", (ValueError,))
    raises(lambda: qp.metrics.calculate_rmse(p, q, (0., 3.)), "rms error of ensembles of different sizes", (ValueError,))


@test("C17", 15, 200)
def t_quick(rng, case):
    from qp.metrics.array_metrics import quick_kld, quick_moment, quick_rmse
    n, m = int(rng.integers(1, 5)), int(rng.integers(2, 9))
    p, q = rng.uniform(0, 2, (n, m)), rng.uniform(0, 2, (n, m))
    p[rng.random((n, m)) < 0.2] = 0
    q[rng.random((n, m)) < 0.2] = 0
    g, h = rng.uniform(-2, 2, m), float(rng.uniform(0.1, 2))
    case.note(p=p, q=q, g=g, h=h)
    close(quick_moment(p, g, h), [h * np.sum(p[i] * g) for i in range(n)], "sum against the grid")
    close(quick_rmse(p, q, m), [np.sqrt(np.mean((p[i] - q[i]) ** 2)) for i in range(n)], "root mean square")
    close(quick_kld(p, q, h), [h * np.sum(p[i] * (slog(p[i]) - slog(q[i]))) for i in range(n)], "log-ratio sum")
    close(quick_kld(p[0], q[0], h), h * np.sum(p[0] * (slog(p[0]) - slog(q[0]))), "log-ratio sum of one")


# --------------------------------------------------------------------------------------------------------------- C18
def split(rng, n):
    cuts = np.sort(rng.choice(np.arange(1, n), size=int(rng.integers(0, n)), replace=False)) if n > 1 else []
    e = [0] + [int(c) for c in cuts] + [n]
    return list(zip(e[:-1], e[1:]))


def in_cell_truth(rng, lim, x, h, n):
    """true values away from cell edges"""
    k = rng.integers(0, x.size, n)
    t = x[k] + rng.uniform(-0.4, 0.4, n) * h
    bad = (t < lim[0]) | (t > lim[1])
    t[bad] = x[k[bad]]
    if n > 1 and rng.random() < 0.4:
        # repeated true values
        a, b = rng.choice(n, 2, replace=False)
        t[a], k[a] = t[b], k[b]
    return t, k


@test("C18", 30, 500)
def t_brier(rng, case):
    n = int(rng.integers(1, 6))
    spec = specs(rng, case.k, n)
    p = spec.build()
    lim, dx = limits(rng)
    dx = max(dx, 0.05)
    x, h = mgrid(lim, dx)
    t, k = in_cell_truth(rng, lim, x, h, n)
    case.note(p=p.objdata(), limits=lim, dx=dx, truth=t)
    logging.disable(logging.CRITICAL)
    y = np.array(p.pdf(x))
    ind = np.zeros((n, x.size))
    ind[np.arange(n), k] = 1
    per = [np.sum((y[i] - ind[i]) ** 2) for i in range(n)]
    close(qp.metrics.calculate_brier(p, t, lim, dx), np.mean(per), "Brier score", rtol=1e-8)
    m = qp.metrics.create_metric("brier", limits=lim, dx=dx)
    close(m.evaluate(p, t), np.mean(per), "Brier metric", rtol=1e-8)
    m.initialize()
    parts = [m.accumulate(p[a:b], t[a:b]) for a, b in split(rng, n)]
    close(m.finalize(parts), np.mean(per), "Brier score by chunks", rtol=1e-8, chunks=len(parts))
    close(m.finalize(parts[::-1]), np.mean(per), "Brier score by chunks in another order", rtol=1e-8)
    t2 = t.copy()
    t2[rng.integers(n)] = lim[1] + 0.01 if rng.random() < 0.5 else lim[0] - 0.01
    raises(lambda: qp.metrics.calculate_brier(p, t2, lim, dx), "true value outside the limits", (ValueError,))
    raises(lambda: qp.metrics.calculate_brier(p, np.append(t, t[0]), lim, dx), "one true value too many", (ValueError,))
    raises(lambda: m.accumulate(p, np.append(t, t[0])), "one true value too many when accumulating", (ValueError,))


@test("C18", 20, 300)
def t_brier_class(rng, case):
    from qp.metrics.brier import Brier
    logging.disable(logging.CRITICAL)
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    p, t = rng.uniform(0, 1, (n, m)), rng.integers(0, 2, (n, m))
    case.note(p=p, t=t)
    close(Brier(p, t).evaluate(), np.mean([np.sum((p[i] - t[i]) ** 2) for i in range(n)]), "Brier score")
    close(Brier(p, t).accumulate(), np.sum((p - t) ** 2), "sum of Brier scores")
    close(Brier(p[0], t[0]).evaluate(), np.sum((p[0] - t[0]) ** 2), "Brier score of one distribution")
    raises(lambda: Brier(p, t[:, :-1] if m > 1 else np.ones((n, 2))).evaluate(), "arrays of different shapes", (ValueError,))
    raises(lambda: Brier(p, np.full((n, m), "a")).evaluate(), "arrays which are not numeric", (TypeError,))


@test("C18", 30, 500)
def t_cde(rng, case):
    n = int(rng.integers(1, 6))
    p = specs(rng, case.k, n).build()
    x = gen.grid(rng, int(rng.integers(5, 40)))
    t = rng.uniform(x[0] - 0.5, x[-1] + 0.5, n)
    if n > 1 and rng.random() < 0.4:
        t[0] = t[-1]
    case.note(p=p.objdata(), grid=x, truth=t)
    y = np.array(p.pdf(x))
    t1 = [np.sum((y[i, 1:] ** 2 + y[i, :-1] ** 2) / 2 * np.diff(x)) for i in range(n)]
    t2 = [y[i, np.argmin(np.abs(x - t[i]))] for i in range(n)]
    m = qp.metrics.create_metric("cdeloss", eval_grid=x)
    want = np.mean(t1) - 2 * np.mean(t2)
    close(m.evaluate(p, t), want, "conditional density loss", rtol=1e-8)
    parts = [m.accumulate(p[a:b], t[a:b]) for a, b in split(rng, n)]
    close(m.finalize(parts), want, "conditional density loss by chunks", rtol=1e-8, chunks=len(parts))


# --------------------------------------------------------------------------------------------------------------- C19
@test("C19", 30, 400)
def t_gof(rng, case):
    n = int(rng.integers(1, 5))
    nref = n if rng.random() < 0.6 else 1
    sm = int(rng.integers(1, 12))
    p = specs(rng, case.k, n).build()
    r = gen.norm(rng, npdf=nref).build()
    seed = int(rng.integers(10000))
    case.note(p=p.objdata(), r=r.objdata(), num_samples=sm, seed=seed)
    s = np.sort(np.array(p.rvs(size=sm, random_state=seed)), axis=1)
    F = np.array(r.cdf(s))
    lf, ls = np.array(r.logcdf(s)), np.array(r.logsf(s))
    i = np.arange(1, sm + 1)
    ks = [max(np.max(i / sm - F[k]), np.max(F[k] - (i - 1) / sm)) for k in range(n)]
    cvm = [1 / (12 * sm) + np.sum((F[k] - (2 * i - 1) / (2 * sm)) ** 2) for k in range(n)]
    with np.errstate(all="ignore"):
        ad = [-sm - np.sum((2 * i - 1) / sm * (lf[k] + ls[k][::-1])) for k in range(n)]
        for name, want in (("ks", ks), ("cvm", cvm), ("ad", ad)):
            close(qp.metrics.calculate_goodness_of_fit(p, r, name, sm, seed), want, name + " statistic", rtol=1e-8)
            m = qp.metrics.create_metric(name, num_samples=sm, _random_state=seed)
            close(m.evaluate(p, r), want, name + " metric", rtol=1e-8)
    check(np.array(ks) >= 1 / (2 * sm) - 1e-12, "ks range", ks=ks)
    raises(lambda: qp.metrics.calculate_goodness_of_fit(p, r, "nope", sm, seed), "unknown statistic", (KeyError,))


@test("C19", 10, 100)
def t_gof_refuse(rng, case):
    n = int(rng.integers(2, 4))
    p, r = gen.norm(rng, npdf=n).build(), gen.norm(rng, npdf=n + int(rng.integers(1, 3))).build()
    case.note(n=n)
    with np.errstate(all="ignore"):
        for name in ("ks", "cvm", "ad"):
            logging.disable(logging.CRITICAL)
            raises(lambda: qp.metrics.calculate_goodness_of_fit(p, r, name, 5, 1), "ensembles of different sizes")


@test("C19", 20, 300)
def t_gof_stats(rng, case):
    import scipy.stats as sps
    from qp.metrics.goodness_of_fit import goodness_of_fit_metrics as g
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 9))
    loc, sc = rng.uniform(-1, 1, (n, 1)), rng.uniform(0.5, 2, (n, 1))
    d = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=sc))
    x = rng.normal(0, 1.5, (n, m))
    case.note(loc=loc, scale=sc, x=x)
    x0 = x.copy()
    for name in ("ks", "cvm", "ad"):
        v = g[name](d, x)
        check(np.shape(v) == (n,), "one value per distribution", shape=np.shape(v))
        close(g[name](d, x[:, rng.permutation(m)]), v, name + " does not depend on the order of the samples", rtol=1e-8)
        for k in range(n):
            f = sps.norm(loc[k, 0], sc[k, 0])
            if name == "ks":
                want = sps.kstest(x[k], f.cdf).statistic
            elif name == "cvm" and m > 1:
                want = sps.cramervonmises(x[k], f.cdf).statistic
            elif name == "ad":
                s = np.sort(x[k])
                j = np.arange(1, m + 1)
                want = -m - np.sum((2 * j - 1) / m * (f.logcdf(s) + f.logsf(s[::-1])))
            else:
                want = 1 / (12 * m) + np.sum((f.cdf(np.sort(x[k])) - (2 * np.arange(1, m + 1) - 1) / (2 * m)) ** 2)
            close(v[k], want, name + " statistic of distribution %i" % k, rtol=1e-7, atol=1e-9)
    same(x, x0, "the samples")


# --------------------------------------------------------------------------------------------------------------- C20
def point_ref(e):
    q75, q25 = np.percentile(e, [75, 25])
    s = (q75 - q25) / 1.349
    return dict(point_stats_iqr=s, point_bias=np.median(e), point_outlier_rate=np.mean(np.abs(e) > max(0.06, 3 * s)),
                point_stats_sigma_mad=1.4826 * np.median(np.abs(e - np.median(e))))


@test("C20", 40, 800)
def t_point(rng, case):
    n = int(rng.integers(1, 60))
    ref = rng.uniform(0.0, 3, n)
    w = float(rng.choice([0.01, 0.05, 0.3]))
    est = ref + rng.normal(0, w, n) * (1 + ref) * np.where(rng.random(n) < 0.15, 8, 1)
    case.note(est=est, ref=ref)
    e = np.array([(a - b) / (1 + b) for a, b in zip(est, ref)])
    cm = qp.metrics.create_metric
    close(cm("point_stats_ez").evaluate(est, ref), e, "scaled errors")
    want = point_ref(e)
    for name, v in want.items():
        close(cm(name).evaluate(est, ref), v, name, rtol=1e-9)


@test("C20", 8, 80)
def t_point_few(rng, case):
    """fewer objects than the digest holds apart: chunks of any sizes give what one chunk gives, and what a direct computation gives"""
    n = int(rng.integers(2, 40))
    ref = rng.uniform(0, 2, n)
    e = rng.normal(0.1, 0.05, n) if rng.random() < 0.7 else rng.choice([-0.4, 0.0, 0.05, 0.3], n)
    est = ref + (1 + ref) * e
    if rng.random() < 0.5:
        cuts = np.arange(1, n)                                      # every object in a chunk of its own
    else:
        cuts = np.unique(rng.integers(1, n, int(rng.integers(1, 6))))
    ch = list(zip(np.r_[0, cuts], np.r_[cuts, n]))
    case.note(est=est, ref=ref, chunks=ch)
    for name in ("point_stats_iqr", "point_bias", "point_outlier_rate", "point_stats_sigma_mad"):
        if name == "point_stats_sigma_mad" and rng.random() < 0.8:
            continue
        m = qp.metrics.create_metric(name)
        whole = m.finalize([m.accumulate(est, ref)])
        parts = [m.accumulate(est[a:b], ref[a:b]) for a, b in ch]
        for g, what in ((m.finalize(parts), "chunks"), (m.finalize(parts[::-1]), "chunks in reverse order"),
                        (m.eval_from_iterator([est[a:b] for a, b in ch], [ref[a:b] for a, b in ch]), "iterator")):
            if name == "point_stats_sigma_mad":     # a value of a grid of bins: that of one chunk up to a bin or two
                check(abs(g - whole) <= 1.4826 * 3 * (np.ptp(e_of(est, ref)) / 1e3 + 1e-9) + 0.02 * np.ptp(e_of(est, ref)), "%s (%s)" % (name, what), got=g, want=whole)
            else:
                close(g, whole, "%s (%s)" % (name, what), rtol=1e-6, atol=1e-9)
        if name == "point_outlier_rate" and n >= 4:
            ee = e_of(est, ref)
            s = qp.metrics.create_metric("point_stats_iqr").finalize([qp.metrics.create_metric("point_stats_iqr").accumulate(est, ref)])
            check(abs(whole - np.mean(np.abs(ee) > max(0.06, 3 * s))) < 1e-9, "outliers among few", got=whole)


def e_of(est, ref):
    return (est - ref) / (1 + ref)


@test("C20", 8, 80)
def t_point_chunks(rng, case):
    n = int(rng.integers(300, 900))
    ref = rng.uniform(0, 2, n)
    est = ref + (1 + ref) * rng.normal(0.1, 0.05, n)
    k = int(rng.integers(40, n // 2))
    est[:k] += (1 + ref[:k]) * float(rng.uniform(0.2, 1))           # chunks differ a lot from each other
    nch = int(rng.integers(2, 6))
    cuts = np.sort(rng.choice(np.arange(1, n), nch - 1, replace=False))
    ch = list(zip(np.r_[0, cuts], np.r_[cuts, n]))
    case.note(n=n, k=k, chunks=ch)
    e = (est - ref) / (1 + ref)
    want = point_ref(e)
    tol = dict(point_stats_iqr=0.05, point_bias=0.02, point_outlier_rate=0.02, point_stats_sigma_mad=0.05)
    es = np.sort(e)
    for name, v in want.items():
        m = qp.metrics.create_metric(name)
        got = m.eval_from_iterator([est[a:b] for a, b in ch], [ref[a:b] for a, b in ch])
        parts = [m.accumulate(est[a:b], ref[a:b]) for a, b in ch]
        got2 = m.finalize(parts[::-1])
        whole = m.finalize([m.accumulate(est, ref)])
        spread = 1.0
        for g, what in ((got, "iterator"), (got2, "chunks in reverse order"), (whole, "one chunk")):
            if name == "point_bias":      # the digest may give any value between the quantiles 0.49 and 0.51
                check(np.quantile(es, 0.49) - 1e-9 <= g <= np.quantile(es, 0.51) + 1e-9, "%s (%s)" % (name, what), got=g, want=v)
            elif name == "point_stats_iqr":
                lo = (np.quantile(es, 0.74) - np.quantile(es, 0.26)) / 1.349
                hi = (np.quantile(es, 0.76) - np.quantile(es, 0.24)) / 1.349
                check(lo - 1e-9 <= g <= hi + 1e-9, "%s (%s)" % (name, what), got=g, want=v)
            elif name == "point_outlier_rate":
                lo = (np.quantile(es, 0.74) - np.quantile(es, 0.26)) / 1.349
                hi = (np.quantile(es, 0.76) - np.quantile(es, 0.24)) / 1.349
                b, a = (np.mean(np.abs(e) > max(0.06, 3 * s)) for s in (lo, hi))
                check(a - 0.01 <= g <= b + 0.01, "%s (%s)" % (name, what), got=g, want=v)
            else:
                d = np.sort(np.abs(e - np.median(e)))
                check(1.4826 * np.quantile(d, 0.46) * 0.999 - 1e-3 <= g <= 1.4826 * np.quantile(d, 0.54) * 1.001 + 1e-3, "%s (%s)" % (name, what), got=g, want=v)


# --------------------------------------------------------------------------------------------------------------- C21
@test("C21", 25, 400)
def t_pit_samples(rng, case):
    from qp.metrics.pit import PIT
    logging.disable(logging.CRITICAL)
    n = int(rng.integers(1, 9))
    spec = specs(rng, case.k, n)
    p = spec.build()
    t = spec.pts(rng, n)
    if n > 2 and rng.random() < 0.3:
        t[int(rng.integers(n))] = np.nan
    case.note(spec=spec, truth=t)
    want = np.array([np.ravel(p[i].cdf(t[i]))[0] for i in range(n)])
    want[~np.isfinite(want)] = 0
    close(PIT._gather_pit_samples(p, t), want, "PIT samples", rtol=1e-8)
    m = qp.metrics.create_metric("pit")
    tot = 0
    with quiet():
        for a, b in split(rng, n):
            c = np.array(m.accumulate(p[a:b], t[a:b]))
            tot += c[:, 1].sum()
            close(np.average(c[:, 0], weights=c[:, 1]), want[a:b].mean(), "mean of the accumulated samples", rtol=1e-6, atol=1e-9)
    close(tot, n, "number of accumulated samples")


def pit_summary(s, grid):
    if len(s) < len(grid):
        grid = np.linspace(0, 1, len(s))
    q = np.quantile(s, grid)
    out = {}
    for a, v in zip(grid, q):
        if 0 < v < 1 and v not in out:
            out[v] = a
    k = np.array(sorted(out))
    return k, np.array([out[v] for v in k])


@test("C21", 25, 400)
def t_pit_summary(rng, case):
    from qp.metrics.pit import PIT
    logging.disable(logging.CRITICAL)
    n = int(rng.integers(4, 40))
    loc, sc = rng.uniform(-1, 1, (n, 1)), rng.uniform(0.5, 2, (n, 1))
    p = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=sc))
    t = rng.normal(0, 1, n)
    if rng.random() < 0.4:
        t[: n // 4] = 80.0                                   # PIT exactly 1, several times
    g = np.linspace(0, 1, int(rng.integers(4, 30)))
    case.note(loc=loc, scale=sc, truth=t, grid=g)
    o = PIT(p, t, g)
    s = np.array([np.ravel(p[i].cdf(t[i]))[0] for i in range(n)])
    close(o.pit_samps, s, "PIT samples")
    q, a = pit_summary(s, g)
    if q.size < 2:
        return
    d = o.pit.dist
    qq, ll = np.array(d.quants), np.array(d.locs)
    if a[0] > np.finfo(float).eps:
        qq, ll = qq[1:], ll[:, 1:]
    if a[-1] < 1:
        qq, ll = qq[:-1], ll[:, :-1]
    close(qq, a, "probabilities of the summary")
    close(ll, q[None, :], "positions of the summary")
    lo, hi = np.sort(rng.uniform(0, 1, 2))
    same(np.sort(o._trim_pit_values(lo, hi)), np.sort(s[(s >= lo) & (s <= hi)]), "trimmed samples")
    close(o.evaluate_PIT_outlier_rate(lo, hi), np.ravel(o.pit.cdf(lo))[0] + 1 - np.ravel(o.pit.cdf(hi))[0], "outlier rate")
    import scipy.stats as sps
    close(o.evaluate_PIT_KS().statistic, sps.kstest(s, "uniform").statistic, "ks of the samples")
    close(o.evaluate_PIT_CvM().statistic, sps.cramervonmises(s, "uniform").statistic, "cvm of the samples")
    m = qp.metrics.create_metric("pit", eval_grid=g)
    close(m.evaluate(p, t).dist.locs, o.pit.dist.locs, "summary of the metric class")


@test("C21", 10, 150)
def t_outlier(rng, case):
    n = int(rng.integers(1, 5))
    spec = specs(rng, case.k, n)
    p = spec.build()
    lo, hi = np.sort(spec.pts(rng, 2))
    case.note(spec=spec, lo=lo, hi=hi)
    want = [np.ravel(p[i].cdf(lo))[0] + 1 - np.ravel(p[i].cdf(hi))[0] for i in range(n)]
    close(qp.metrics.calculate_outlier_rate(p, lo, hi), want, "outlier rate", rtol=1e-8)
    close(qp.metrics.create_metric("outlier", cdf_limits=(lo, hi)).evaluate(p), want, "outlier metric", rtol=1e-8)
