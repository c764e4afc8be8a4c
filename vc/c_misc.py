"""Contracts of the registries of kinds and metrics, and of the wrappers around scipy's own distributions."""
from .api import *
from . import npshim, load
from .c_ens import refused

KINDS = dict(hist="hist_pdf", interp="interp_pdf", interp_irregular="interp_pdf", packed_interp="packed_interp_pdf", mixmod="mixmod_pdf",
             quant="quant_pdf", spline="spline_pdf", sparse="sparse_pdf")

# kind -> method name -> function that extracts the data, as documented
EXTRACT = dict(hist={None: "extract_hist_values", "samples": "extract_hist_samples"}, interp={None: "extract_vals_at_x"},
               interp_irregular={None: "extract_xy_vals"}, packed_interp={None: "extract_and_pack_vals_at_x"},
               mixmod={None: "extract_mixmod_fit_samples"}, quant={None: "extract_quantiles"}, sparse={None: "extract_sparse_from_xy"},
               spline={"xy": "extract_xy_vals", "samples": "extract_samples"})
CREATE = {k: {None: "create"} for k in KINDS}
CREATE["spline"] = {None: "create", "xy": "create_from_xy_vals", "samples": "create_from_samples"}


def registry(k):
    for m in sorted(set(KINDS.values())):
        k.mod(m)
    return k.mod("factory").instance()


@contract("C23", "factory.Factory.add_class", cases=sorted(KINDS), again=False)
def kinds_registered(k, name):
    """the kind is found under its own name, with the creation and extraction methods of its own, by name or by default"""
    f = registry(k)
    cls = f[name]
    home = [k.mod("conversion_funcs"), k.mod(KINDS[name])]
    fun = lambda n: next(getattr(h, n) for h in home if hasattr(h, n))
    k.ensure("under its own name", cls.name == name and cls.__name__ == name + "_gen")
    k.ensure("by attribute", getattr(f, name) == cls.create and getattr(f, name + "_gen") is cls and cls.create.__self__ is cls)
    for method, fn in CREATE[name].items():
        k.ensure("creation method %s" % method, cls.creation_method(method) == getattr(cls, fn) and cls.creation_method(method).__self__ is cls)
    for method, fn in EXTRACT[name].items():
        k.ensure("extraction method %s" % method, cls.extraction_method(method) is fun(fn))
    k.ensure("unknown creation method: the default", cls.creation_method("unheard of") == cls.create)
    if None in EXTRACT[name]:
        k.ensure("unknown extraction method: the default", cls.extraction_method("unheard of") is fun(EXTRACT[name][None]))
    else:
        k.ensure("no default extraction", cls.extraction_method(None) is None and cls.extraction_method("unheard of") is None)
    k.ensure("no reader", cls.reader_method(0) is None and cls.reader_method() is None)
    for other in f.values():
        if other is not cls:
            for t in ("_creation_map", "_extraction_map", "_reader_map"):
                k.ensure("tables of its own", getattr(cls, t) is not getattr(other, t))
    # registering once more changes nothing
    before = [cls.creation_method(m) for m in CREATE[name]] + [cls.extraction_method(m) for m in EXTRACT[name]]
    mark = object()
    for m in CREATE[name]:
        cls._add_creation_method(mark, m)
    for m in EXTRACT[name]:
        cls._add_extraction_method(mark, m)
    cls._add_reader_method(mark, 7)
    after = [cls.creation_method(m) for m in CREATE[name]] + [cls.extraction_method(m) for m in EXTRACT[name]]
    k.ensure("registering does not replace", before == after)
    k.ensure("the entry made", cls.reader_method(7) is mark and cls.reader_method(8) is None)
    cls._add_creation_method(mark, "new one")
    k.ensure("a new entry beside the others", cls.creation_method("new one") is mark and cls.creation_method(None) == cls.create)
    k.ensure("in no other table", all(o is cls or (o.creation_method("new one") is not mark and o.reader_method(7) is None) for o in f.values()))


METRICS = dict(moment="MomentMetric", kld="KLDMetric", rmse="RMSEMetric", rbpe="RBPEMetric", brier="BrierMetric", outlier="OutlierMetric", ad="ADMetric",
               cvm="CvMMetric", ks="KSMetric", pit="PITMetric", cdeloss="CDELossMetric", point_stats_ez="PointStatsEz", point_stats_iqr="PointSigmaIQR",
               point_bias="PointBias", point_outlier_rate="PointOutlierRate", point_stats_sigma_mad="PointSigmaMAD")
OPTIONS = dict(moment=dict(moment_order="_moment_order", limits="_limits", dx="_dx"), kld=dict(limits="_limits", dx="_dx"), rmse=dict(limits="_limits", dx="_dx"),
               brier=dict(limits="_limits", dx="_dx", tdigest_compression="_tdigest_compression"), outlier=dict(cdf_limits="_cdf_limits"),
               rbpe=dict(limits="_limits"), ad=dict(num_samples="_num_samples", _random_state="_random_state"),
               cvm=dict(num_samples="_num_samples", _random_state="_random_state"), ks=dict(num_samples="_num_samples", _random_state="_random_state"),
               pit=dict(eval_grid="_eval_grid", tdigest_compression="_tdigest_compression"), cdeloss=dict(eval_grid="_xvals"), point_stats_ez={},
               point_stats_iqr=dict(tdigest_compression="_tdigest_compression"), point_bias=dict(tdigest_compression="_tdigest_compression"),
               point_outlier_rate=dict(tdigest_compression="_tdigest_compression"),
               point_stats_sigma_mad=dict(tdigest_compression="_tdigest_compression", num_bins="_num_bins"))


def metric_modules(k):
    for m in ("metrics.concrete_metric_classes", "metrics.point_estimate_metric_classes"):
        k.mod(m)
    return k.mod("metrics.factory").MetricFactory


@contract("C23", "metrics.factory.MetricFactory.create_metric", cases=sorted(METRICS), again=False)
def metric_created(k, name):
    """the metric of that name, made with the options given"""
    F = metric_modules(k)
    given = {o: object() for o in OPTIONS[name]}
    got = {}
    home = k.mod("metrics.point_estimate_metric_classes" if name.startswith("point") else "metrics.concrete_metric_classes")
    cls = getattr(home, METRICS[name])
    init = cls.__init__

    def spy(self, *a, **kw):
        got.update(args=a, kw=dict(kw), self=self)
        return init(self, *a, **kw)
    k.w.patches.append((cls, "__init__", cls.__dict__.get("__init__"), "__init__" in cls.__dict__))
    cls.__init__ = spy
    m = F.create_metric(name, **given)
    k.ensure("the class of that name", type(m) is cls and m.metric_name == name)
    k.ensure("with the options given", got["self"] is m and not got["args"] and set(got["kw"]) == set(given) and all(got["kw"][o] is given[o] for o in given))
    for o, a in OPTIONS[name].items():
        if hasattr(m, a):
            k.ensure("option %s is kept" % o, getattr(m, a) is given[o])
    again = F.create_metric(name, True, **given)
    k.ensure("the same after an update", type(again) is cls and again is not m)


@contract("C23", "metrics.factory.MetricFactory.create_metric", cases=["unknown", "list", "later"], again=False)
def metric_list(k, how):
    F = metric_modules(k)
    if how == "unknown":
        refused(k, lambda: F.create_metric("unheard of"), KeyError)
        refused(k, lambda: F.create_metric(None), KeyError)
    elif how == "list":
        names = F.list_metrics()
        k.ensure("every metric once", sorted(names) == sorted(METRICS))
    else:
        F.list_metrics()
        base = k.mod("metrics.base_metric_classes").SingleEnsembleMetric
        late = type("Late", (base,), dict(metric_name="late"))
        refused(k, lambda: F.create_metric("late"), KeyError)
        k.ensure("known after an update", type(F.create_metric("late", force_update=True)) is late)
        k.ensure("the others stay", all(n in F.list_metrics() for n in METRICS))


# ------------------------------------------------------------------------------------------------ analytic distributions
@contract("C25 C08", "pdf_gen.rv_frozen_func.__init__", cases=["parameters", "one distribution", "scalars"])
def frozen_func(k, case):
    """as many distributions as rows of the parameters, and the parameters as given"""
    N = k.dim("N", 1) if case == "parameters" else 1
    m = k.mod("pdf_gen")
    shp = (N, 1) if case != "scalars" else ()
    kw = dict(loc=k.real("loc", shp), scale=k.real("scale", shp), s=k.real("s", shp))

    class Dist:
        """what rv_continuous_frozen keeps"""
        def __init__(self, **kw): self.a, self.b = 0, 1
        def _updated_ctor_param(self): return {}
    d = Dist()
    e = m.rv_frozen_func(d, **kw)
    k.ensure("number of distributions", eq(rawi(e.npdf), N))
    k.ensure("the parameters", set(e.kwds) == set(kw) and all(e.kwds[p] is kw[p] for p in kw))


@contract("C25", "pdf_gen.Pdf_gen_wrap.__init__", cases=["made by name", "several"])
def wrapped(k, case):
    """the wrapper runs scipy's own constructor, with scipy's own support, and keeps scipy's own evaluation methods"""
    f = k.mod("factory").Factory()
    pg = k.mod("pdf_gen")
    made = []

    class Scipy:
        def __init__(self, *a, **kw):
            made.append((self, a, kw))

        def pdf(self, *a): return "pdf"
        def cdf(self, *a): return "cdf"
        def freeze(self, *a, **kw): return "not this one"
        def __call__(self, *a, **kw): return self.freeze(*a, **kw)

    class Other(Scipy):
        pass
    lo, hi = k.real("lo", ()), k.real("hi", ())
    f._make_scipy_wrapped_class("dist", Scipy, dict(a=lo, b=hi))
    f._make_scipy_wrapped_class("other", Other)
    cls = f["dist"]
    k.ensure("of that name", cls.name == "dist" and f["other"].name == "other" and set(f) >= {"dist", "other"})
    obj, kw = cls.create_gen(loc=1, scale=2)
    k.ensure("the parameters are passed on", kw == dict(loc=1, scale=2) and type(obj) is cls)
    k.ensure("scipy's own constructor, once", len(made) == 1 and made[0][0] is obj and made[0][2].get("a") is lo and made[0][2].get("b") is hi)
    k.ensure("scipy's own name", made[0][2].get("name") == "dist" and set(made[0][2]) == {"a", "b", "name"} and not made[0][1])
    for m in ("pdf", "cdf"):
        k.ensure("scipy's own %s" % m, getattr(cls, m) is getattr(Scipy, m))
    fr = []
    k.w.patches.append((pg, "rv_frozen_func", pg.rv_frozen_func, True))
    pg.rv_frozen_func = lambda d, *a, **kk: fr.append((d, a, kk)) or fr
    out = obj(loc=1, scale=2)
    k.ensure("frozen with the parameters", out is fr and fr == [(obj, (), dict(loc=1, scale=2))])
    o2, _ = f["other"].create_gen()
    k.ensure("its own class", isinstance(o2, Other) and made[1][2] == dict(name="dist"))


@contract("C25", "factory.Factory._load_scipy_classes", cases=["every distribution of scipy"])
def scipy_code(k, case):
    """every continuous distribution of scipy is there; the functions that evaluate it are scipy's own code objects, on an object with the
    attributes scipy's own has: the values are then scipy's for all parameters and points (executed once per distribution on the real package)"""
    import os, sys
    import numpy as np
    from scipy import stats as sps
    root = os.path.dirname(os.path.abspath(load.SRC))
    if "qp" not in sys.modules:
        sys.path.insert(0, root)
    import qp
    if os.path.dirname(os.path.abspath(qp.__file__)) != os.path.abspath(load.SRC):
        raise Unsupported("another copy of the package is loaded")
    ours = {"freeze", "__init__", "__dict__", "__doc__", "__module__", "__weakref__", "__firstlineno__", "__static_attributes__", "__annotations__", "__init_subclass__", "__subclasshook__"}
    same = lambda a, b: a is b or type(a) is type(b) and (a == b or isinstance(a, float) and a != a and b != b)
    n = 0
    for name in sps.__all__:
        a = getattr(sps, name)
        if not isinstance(a, sps.rv_continuous):
            continue
        n += 1
        k.ensure("%s is there" % name, name in qp.stats)
        if name not in qp.stats:
            continue
        cls, ref = qp.stats[name], type(a)
        differing = [m for m in dir(ref) if m not in ours and getattr(getattr(cls, m, None), "__func__", getattr(cls, m, None)) is not getattr(getattr(ref, m), "__func__", getattr(ref, m))]
        k.ensure("%s: scipy's own functions" % name, [m for m in differing if not same(getattr(cls, m, None), getattr(ref, m)) and m not in ("__class__", "name")] == [])
        o, kw = cls.create_gen()
        p = ref(a=a.a, b=a.b, momtype=a.moment_type, name="dist")
        skip = {"_ctor_param", "_metadata", "_objdata", "__doc__", "_updated_ctor_param", "name"}
        plain = lambda v: isinstance(v, (int, float, str, bytes, bool, type(None), tuple, np.floating))
        k.ensure("%s: scipy's own attributes" % name, not kw and all(q in vars(o) and (not plain(v) or same(v, vars(o)[q])) for q, v in vars(p).items() if q not in skip))
        k.ensure("%s: support" % name, (o.a, o.b) == (a.a, a.b) and o.shapes == a.shapes and o.numargs == a.numargs and o.moment_type == a.moment_type)
        o2 = o.__class__(**o._updated_ctor_param())
        k.ensure("%s: the same when scipy rebuilds it" % name, (o2.a, o2.b, o2.shapes, o2.moment_type) == (a.a, a.b, a.shapes, a.moment_type))
    k.ensure("more than a hundred", n > 100)
