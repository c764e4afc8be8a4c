"""C22, C23: conversions, registries"""
import numpy as np
import scipy.stats as sps
import qp
from .core import test, check, close, same, fail, raises
from . import gen
from .t_ens import snap_ens, same_obj, snap

SRC = ["hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod", "norm", "beta", "spline"]
WITH_PPF = ["hist", "interp_irregular", "quant", "norm", "beta", "interp", "mixmod"]


def inner(spec, rng, n):
    """increasing points where every distribution has some density"""
    return np.sort(rng.uniform(spec.lo, spec.hi, n)) + np.arange(n) * 1e-3


def dens(spec, x):
    """density of each distribution, one distribution and one point at a time"""
    out = np.zeros((spec.npdf, len(x)))
    for i in range(spec.npdf):
        e = spec.row(i)
        out[i] = [float(np.ravel(e.pdf(float(v)))[0]) for v in x]
    return out


def both(ens, name, rng, **kw):
    """the two ways of converting"""
    k0 = snap(kw)
    a = qp.convert(ens, name, **kw)
    same_obj(kw, k0, "conversion arguments")
    k1 = dict(kw)
    b = ens.convert_to(qp.stats[name], **k1)
    same_obj(k1, k0, "conversion arguments")
    for e in (a, b):
        check(e.gen_class is qp.stats[name], "kind of the converted ensemble", kind=e.gen_class)
        check(e.npdf == ens.npdf, "number of distributions after conversion", got=e.npdf, expected=ens.npdf)
    return a, b


@test("C22", 45, 500)
def t_to_grid(rng, case):
    spec = gen.cycle_spec(rng, case.k, SRC, npdf=gen.n_pdf(rng, 1, 5), ancil=0.2)
    ens = spec.build()
    n = int(rng.integers(3, 9))
    x = inner(spec, rng, n)
    if rng.random() < 0.4:
        x = np.linspace(spec.lo, spec.hi, n)
    case.note(spec=spec, xvals=x)
    D = dens(spec, x)
    if (D.sum(axis=1) <= 1e-6).any() or (D < 0).any() or (np.max(D[:, 1:], axis=1) < 1e-6).any():
        return
    s0 = snap_ens(ens)
    tr = np.trapz(D, x, axis=1)
    right = np.sum(D[:, 1:] * np.diff(x), axis=1)
    for e in both(ens, "interp", rng, xvals=x):
        same(e.dist.xvals, x, "grid of the conversion")
        close(e.dist.yvals, D / tr[:, None], "interp: stored densities", rtol=1e-7)
    for e in both(ens, "interp_irregular", rng, xvals=x):
        close(e.dist.xvals, np.tile(x, (spec.npdf, 1)), "grids of the conversion")
        close(e.dist.yvals, D / right[:, None], "interp_irregular: stored densities", rtol=1e-7)
    from qp.packing_utils import PackingType
    for e in both(ens, "packed_interp", rng, xvals=x, packing_type=PackingType.linear_from_rowmax):
        same(e.dist.xvals, x, "grid of the conversion")
        mx = D.max(axis=1)
        got = e.dist.ypacked / 255.0
        check(np.abs(got - D / mx[:, None]).max() <= 0.5 / 255 + 1e-9, "packed_interp: stored densities", got=got, expected=D / mx[:, None])
        close(np.ravel(e.dist.ymax), mx, "packed_interp: row maxima", rtol=1e-7)
        rest = e.dist.yvals
        close(np.trapz(rest, x, axis=1), np.ones(spec.npdf), "packed_interp: total")
    same_obj(snap_ens(ens), s0, "source after conversion")


@test("C22", 45, 500)
def t_to_hist_quant(rng, case):
    spec = gen.cycle_spec(rng, case.k, SRC, npdf=gen.n_pdf(rng, 1, 5), ancil=0.2)
    ens = spec.build()
    n = int(rng.integers(2, 8))
    b = gen.grid(rng, n + 1)
    b = spec.lo + (b - b[0]) * (spec.hi - spec.lo) / (b[-1] - b[0])
    q = np.sort(rng.uniform(0.03, 0.97, int(rng.integers(9, 14))))
    q = np.linspace(0.03, 0.97, len(q)) if np.diff(q).min() < 1e-3 else q
    case.note(spec=spec, bins=b, quants=q)
    s0 = snap_ens(ens)
    P = np.zeros((spec.npdf, n))
    L = np.zeros((spec.npdf, len(q)))
    for i in range(spec.npdf):
        e = spec.row(i)
        c = np.array([float(np.ravel(e.cdf(float(v)))[0]) for v in b])
        P[i] = np.diff(c)
        if spec.kind in WITH_PPF:
            L[i] = [float(np.ravel(e.ppf(float(v)))[0]) for v in q]
    if not ((P.sum(axis=1) <= 1e-6).any() or (P < -1e-9).any()):
        for e in both(ens, "hist", rng, bins=b):
            same(e.dist.bins, b, "edges of the conversion")
            close(e.dist.pdfs, P / np.sum(P * np.diff(b), axis=1)[:, None], "hist: heights from bin probabilities", rtol=1e-6, atol=1e-8)
    if spec.kind in WITH_PPF and spec.kind != "mixmod" and np.isfinite(L).all() and (np.diff(L, axis=1) > 0).all():
        for e in both(ens, "quant", rng, quants=q):
            same(np.ravel(e.dist.quants)[1:-1], q, "quantiles of the conversion")
            close(e.dist.locs[:, 1:-1], L, "quant: positions", rtol=1e-7)
    same_obj(snap_ens(ens), s0, "source after conversion")


def separated(rng, npdf):
    """distributions which do not overlap at all"""
    loc = 10.0 * np.arange(npdf)[rng.permutation(npdf)].reshape(-1, 1)
    w = rng.uniform(0.5, 2.0, (npdf, 1))
    if rng.random() < 0.5:
        return qp.Ensemble(qp.stats.uniform, data=dict(loc=loc, scale=w)), loc.ravel(), (loc + w).ravel()
    x = loc + w * np.linspace(0, 1, 5)
    return qp.Ensemble(qp.interp_irregular, data=dict(xvals=x, yvals=rng.uniform(0.5, 1, (npdf, 5)))), loc.ravel(), (loc + w).ravel()


@test("C22", 12, 120)
def t_samples(rng, case):
    npdf = int(rng.integers(1, 6))
    ens, lo, hi = separated(rng, npdf)
    s0 = snap_ens(ens)
    nb, size = int(rng.integers(max(3, 1), 12)), int(rng.integers(5, 40))
    b = np.linspace(lo.min() - 0.5, hi.max() + 0.5, 4 * npdf + nb)
    case.note(npdf=npdf, bins=b, size=size, lo=lo)
    for e in both(ens, "hist", rng, bins=b, method="samples", size=size):
        same(e.dist.bins, b, "edges")
        w = np.diff(b)
        counts = e.dist.pdfs
        for i in range(npdf):
            for j in range(len(w)):
                if b[j + 1] < lo[i] or b[j] > hi[i]:
                    check(counts[i, j] == 0, "histogram from samples: probability outside the distribution sampled", i=i, j=j)
            close(np.sum(counts[i] * w), 1.0, "histogram from samples: total")
            # heights are (a common factor times) integer counts which add up to the number of samples
            r = counts[i] / counts[i].sum() * size
            close(r, np.round(r), "histogram from samples: not counts of %i samples" % size, atol=1e-6)
    same_obj(snap_ens(ens), s0, "source after conversion")


@test("C22", 3, 25)
def t_mixmod_fit(rng, case):
    npdf = int(rng.integers(1, 4))
    ens, lo, hi = separated(rng, npdf)
    k, size = int(rng.integers(1, 4)), int(rng.integers(30, 60))
    case.note(npdf=npdf, ncomps=k, lo=lo)
    for e in both(ens, "mixmod", rng, ncomps=k, nsamples=size, random_state=int(rng.integers(1000))):
        check(e.dist.means.shape == (npdf, k), "number of components", got=e.dist.means.shape)
        close(e.dist.weights.sum(axis=1), np.ones(npdf), "weights")
        for i in range(npdf):
            m = np.sum(e.dist.weights[i] * e.dist.means[i])
            check(lo[i] - 1e-6 <= m <= hi[i] + 1e-6, "mean of the mixture fitted to samples of distribution %i" % i, mean=m)
            check((e.dist.means[i] >= lo[i] - 1e-6).all() and (e.dist.means[i] <= hi[i] + 1e-6).all(), "component means outside the samples")
            check((e.dist.stds[i] <= hi[i] - lo[i] + 1e-3).all() and (e.dist.stds[i] > 0).all(), "component widths")


@test("C22", 6, 60)
def t_spline(rng, case):
    """spline through density values: interpolates the normalised values of each distribution"""
    npdf = int(rng.integers(1, 5))
    loc, sc = rng.uniform(1.2, 1.8, (npdf, 1)), rng.uniform(0.3, 0.7, (npdf, 1))
    ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=sc))
    x = np.linspace(0, 3, int(rng.integers(15, 30)))
    s0 = snap_ens(ens)
    case.note(loc=loc, scale=sc, n=len(x))
    D = np.array([sps.norm(loc[i, 0], sc[i, 0]).pdf(x) for i in range(npdf)])
    for e in both(ens, "spline", rng, xvals=x, method="xy"):
        got = np.asarray(e.pdf(x))
        for i in range(npdf):
            f = got[i].sum() / D[i].sum()
            close(got[i], f * D[i], "spline values", rtol=1e-6, atol=1e-8)
            from scipy.interpolate import CubicSpline, splrep, splint
            close(splint(0.0, 3.0, splrep(x, got[i])), 1.0, "spline total", rtol=1e-5)
    same_obj(snap_ens(ens), s0, "source after conversion")
    if case.k % 3 == 0:
        # samples: every row of samples gives its own density
        cent = 10.0 * np.arange(npdf)[rng.permutation(npdf)]
        src = qp.Ensemble(qp.stats.norm, data=dict(loc=cent[:, None], scale=np.full((npdf, 1), 0.7)))
        g = np.linspace(-4, 10.0 * npdf - 6, 60 + 20 * npdf)
        for e in both(src, "spline", rng, xvals=g, size=200, method="samples"):
            y = np.asarray(e.pdf(g))
            for i in range(npdf):
                peak = g[np.argmax(y[i])]
                check(abs(peak - cent[i]) < 4, "spline from samples of distribution %i peaks at %s" % (i, peak))
                close(np.sum(y[i]) * (g[1] - g[0]), 1.0, "spline from samples: total", rtol=0.05)


@test("C22", 2, 12)
def t_to_sparse(rng, case):
    npdf = int(rng.integers(1, 4))
    x = np.linspace(0.0, 2.0, int(rng.integers(40, 60)))
    mu, sg = rng.uniform(0.6, 1.4, (npdf, 1)), rng.uniform(0.1, 0.25, (npdf, 1))
    y = np.exp(-0.5 * ((x - mu) / sg) ** 2)
    ens = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=y))
    s0 = snap_ens(ens)
    case.note(mu=mu, sig=sg)
    for e in both(ens, "sparse", rng, nvals=60):
        g = np.linspace(0.05, 1.95, 30)
        want = np.asarray(ens.pdf(g))
        got = np.asarray(e.pdf(g))
        check(np.abs(got - want).max() < 0.05 * want.max(), "sparse conversion", got=got, expected=want)
    same_obj(snap_ens(ens), s0, "source after conversion")


# --------------------------------------------------------------------------------------------------------------- C23
@test("C23", 60, 600)
def t_dicts(rng, case):
    from qp.dict_utils import get_val_or_default, set_val_or_default
    keys = [None, "a", "b", 0, 1, "", ("t",)]
    vals = [object(), None, 0, False, "", lambda: 0]
    d = {}
    for _ in range(int(rng.integers(0, 5))):
        d[keys[int(rng.integers(len(keys)))]] = vals[int(rng.integers(len(vals)))]
    k = keys[int(rng.integers(len(keys)))]
    case.note(dict=d, key=k)
    before = list(d.items())
    got = get_val_or_default(d, k)
    want = d[k] if k in d else d.get(None, None)
    check(got is want, "get_val_or_default", got=got, expected=want)
    check(all(a[0] is b[0] and a[1] is b[1] for a, b in zip(before, d.items())) and len(before) == len(d), "lookup changed the table")
    v = vals[int(rng.integers(len(vals)))]
    had = k in d
    old = d.get(k)
    r = set_val_or_default(d, k, v)
    check(r is (old if had else v), "set_val_or_default result")
    want = before + ([] if had else [(k, v)])
    check(len(d) == len(want) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(want, d.items())), "registration altered the table", got=d, expected=want)


@test("C23", 20, 200)
def t_class_tables(rng, case):
    from qp.pdf_gen import Pdf_gen, Pdf_rows_gen
    A = type("A", (Pdf_rows_gen,), dict(name="a", version=0))
    B = type("B", (Pdf_rows_gen,), dict(name="b", version=0))
    C = type("C", (A,), dict(name="c", version=0))
    for c in (A, B, C):
        c.add_method_dicts()
    kinds = [("_add_creation_method", "creation_method"), ("_add_extraction_method", "extraction_method"), ("_add_reader_method", "reader_method")]
    model = {(c, g): {} for c in (A, B, C) for (_, g) in kinds}
    names = [None, "x", "y", 0, 1]
    log = []
    for _ in range(12):
        c = (A, B, C)[int(rng.integers(3))]
        add, get = kinds[int(rng.integers(3))]
        m = names[int(rng.integers(len(names)))]
        f = object()
        log.append((c.name, add, m))
        getattr(c, add)(f, m)
        model[(c, get)].setdefault(m, f)
        for (cc, gg), t in model.items():
            for mm in names:
                want = t[mm] if mm in t else t.get(None)
                got = getattr(cc, gg)(mm)
                check(got is want, "%s.%s(%r)" % (cc.name, gg, mm), history=log)
    case.note(history=log)
    check(Pdf_gen._creation_map == {} and Pdf_gen._extraction_map == {} and Pdf_gen._reader_map == {}, "tables of the base class")


EXPECTED = {
    "hist": (("create", [None]), {None: "extract_hist_values", "samples": "extract_hist_samples"}),
    "interp": (None, {None: "extract_vals_at_x"}),
    "interp_irregular": (None, {None: "extract_xy_vals"}),
    "packed_interp": (None, {None: "extract_and_pack_vals_at_x"}),
    "quant": (None, {None: "extract_quantiles"}),
    "mixmod": (None, {None: "extract_mixmod_fit_samples"}),
    "sparse": (None, {None: "extract_sparse_from_xy"}),
    "spline": (None, {"xy": "extract_xy_vals", "samples": "extract_samples"}),
}


@test("C23", 1, 1)
def t_registered(rng, case):
    """every kind: its own tables, its own constructor under the default name, unknown names fall back to the default"""
    seen = {}
    for name, cls in qp.stats.items():
        check(cls.name == name, "kind registered under another name", name=name)
        for t in ("_creation_map", "_extraction_map", "_reader_map"):
            check(t in vars(cls), "%s has no own %s" % (name, t))
            check(id(vars(cls)[t]) not in seen, "%s shares its %s with %s" % (name, t, seen.get(id(vars(cls)[t]))))
            seen[id(vars(cls)[t])] = name
        f = cls.creation_method(None)
        check(getattr(f, "__self__", None) is cls and f.__name__ == "create", "default constructor of " + name, got=f)
        if name != "spline":
            check(cls.creation_method("no such method") == f, "fallback constructor of " + name)
        check(getattr(qp.stats, name) == cls.create and getattr(qp.stats, name + "_gen") is cls, "attributes of the factory for " + name)
        if name in EXPECTED:
            ex = EXPECTED[name][1]
            for m, fn in ex.items():
                got = cls.extraction_method(m)
                check(got is not None and got.__name__ == fn, "%s.extraction_method(%r)" % (name, m), got=got)
            if None in ex:
                check(cls.extraction_method("no such method") is cls.extraction_method(None), "fallback extraction of " + name)
            else:
                check(cls.extraction_method("no such method") is None, "extraction method out of nowhere for " + name)
        else:
            check(cls.extraction_method(None) is None, "extraction method of " + name)
        check(cls.reader_method(0) is None and cls.reader_method(None) is None, "reader of " + name)
    sp = qp.stats["spline"]
    check(sp.creation_method("xy").__name__ == "create_from_xy_vals" and sp.creation_method("samples").__name__ == "create_from_samples", "spline constructors")
    case.note(kinds=len(qp.stats))


@test("C23", 10, 60)
def t_factory(rng, case):
    from qp.factory import Factory
    spec = gen.any_spec(rng, npdf=2, ancil=0.0)
    e = qp.create(spec.kind, spec.copy_data())
    case.note(spec=spec)
    check(e.gen_class is qp.stats[spec.kind], "kind created by name")
    raises(lambda: qp.create("no such kind", spec.copy_data()), "unknown kind", (KeyError,))
    raises(lambda: qp.convert(e, "no such kind", xvals=np.arange(3.)), "conversion to an unknown kind", (KeyError,))
    raises(lambda: qp.convert(e, "norm"), "conversion to a kind without extraction method", (KeyError,))
    raises(lambda: e.convert_to(qp.stats["norm"]), "conversion to a kind without extraction method", (KeyError,))
    raises(lambda: qp.convert(e, "spline", xvals=np.arange(3.)), "conversion without a default method", (KeyError,))
    t = e.build_tables()
    t["meta"] = dict(t["meta"], pdf_name=np.array([b"no such kind"]))
    raises(lambda: qp.from_tables(t), "table of an unknown kind", (KeyError,))
    cls = qp.stats[spec.kind]
    maps = {m: dict(vars(cls)[m]) for m in ("_creation_map", "_extraction_map", "_reader_map")}
    clash = type("other", (cls,), dict(name=spec.kind))
    raises(lambda: qp.stats.add_class(clash), "second class of the same name", (KeyError,))
    check(qp.stats[spec.kind] is cls and getattr(qp.stats, spec.kind) == cls.create, "registered class replaced")
    for m, t in maps.items():
        check(vars(cls)[m] == t, "tables changed by a refused registration")


@test("C23", 6, 40)
def t_metrics(rng, case):
    from qp.metrics import create_metric
    from qp.metrics.factory import MetricFactory
    from qp.metrics.base_metric_classes import BaseMetric
    want = dict(moment="MomentMetric", kld="KLDMetric", rmse="RMSEMetric", rbpe="RBPEMetric", brier="BrierMetric", outlier="OutlierMetric",
                ad="ADMetric", cvm="CvMMetric", ks="KSMetric", pit="PITMetric", cdeloss="CDELossMetric", point_stats_ez="PointStatsEz",
                point_stats_iqr="PointSigmaIQR", point_bias="PointBias", point_outlier_rate="PointOutlierRate", point_stats_sigma_mad="PointSigmaMAD")
    names = qp.metrics.list_metrics()
    check(set(names) == set(want), "known metrics", got=names)
    for n, c in want.items():
        m = create_metric(n, force_update=bool(rng.integers(2)))
        check(type(m).__name__ == c and m.metric_name == n, "metric created by name %r" % n, got=type(m))
    lim, dx, ns, cp = (float(rng.uniform(0, 1)), float(rng.uniform(2, 3))), float(rng.uniform(0.01, 0.1)), int(rng.integers(5, 50)), int(rng.integers(100, 900))
    case.note(limits=lim, dx=dx, num_samples=ns)
    for n in ("kld", "rmse", "brier"):
        m = create_metric(n, limits=lim, dx=dx)
        check(m._limits == lim and m._dx == dx, "options of " + n)
    m = create_metric("moment", moment_order=3, limits=lim, dx=dx)
    check(m._limits == lim and m._dx == dx and m._moment_order == 3, "options of moment")
    check(create_metric("rbpe", limits=lim)._limits == lim, "options of rbpe")
    check(create_metric("outlier", cdf_limits=lim)._cdf_limits == lim, "options of outlier")
    for n in ("ad", "cvm", "ks"):
        m = create_metric(n, num_samples=ns, _random_state=7)
        check(m._num_samples == ns and m.random_state == 7, "options of " + n)
    g = np.linspace(0, 1, 7)
    m = create_metric("pit", eval_grid=g)
    same(m._eval_grid, g, "options of pit")
    g2 = np.linspace(0, 2, 9)
    same(create_metric("cdeloss", eval_grid=g2)._xvals, g2, "options of cdeloss")
    check(create_metric("point_stats_iqr", tdigest_compression=cp)._tdigest_compression == cp, "options of point_stats_iqr")
    for bad in ("no such metric", "Moment", "", None, "momen"):
        raises(lambda: create_metric(bad), "unknown metric %r" % (bad,), (KeyError,))
        raises(lambda: create_metric(bad, force_update=True), "unknown metric %r" % (bad,), (KeyError,))
