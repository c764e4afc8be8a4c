"""Contracts of dictionaries of arrays, ensembles, factory and registries."""
from .api import *
from . import npshim, load


# ------------------------------------------------------------------------------------------------ dictionaries of arrays
def columns(k, N, tag="", ranks=(1, 2, 3), protect=True):
    """a table: one column of each rank, all with N rows"""
    d = {}
    for r in ranks:
        per = tuple(k.dim("c%d_%d" % (r, q), 1) for q in range(r - 1))
        d["col%d" % r] = k.real("col%d%s" % (r, tag), (N,) + per, protect=protect)
    return d


KEYS = ["python int", "numpy int", "slice", "slice from", "slice to", "every second", "reversed", "whole", "mask", "list"]


def selection(k, N, how):
    """(key, number of selected rows or None for a single one, row(j) of the j-th selected)"""
    if how.endswith("int"):
        a = k.ints("key", (), sub(0, N), N)
        a.is_pyint = how.startswith("python")
        v = at(a)
        return a, None, lambda j: ite(lt(v, 0), add(v, N), v)
    if how.startswith("slice") or how in ("whole", "every second", "reversed"):
        a, b = k.ints("start", ()), k.ints("stop", ())
        if how == "whole":
            return slice(None), N, lambda j: j
        if how == "every second":
            return slice(None, None, 2), idiv(add(N, 1), 2), lambda j: mul(2, j)
        if how == "reversed":
            return slice(None, None, -1), N, lambda j: sub(sub(N, 1), j)

        def clamp(v):
            w = ite(lt(v, 0), add(v, N), v)
            return ite(lt(w, 0), 0, ite(lt(N, w), N, w))
        lo, hi = clamp(at(a)) if how != "slice to" else 0, clamp(at(b)) if how != "slice from" else N
        key = slice(None if how == "slice to" else a, None if how == "slice from" else b)
        return key, ite(lt(lo, hi), sub(hi, lo), 0), lambda j: add(lo, j)
    if how == "mask":
        m = k.bools("mask", (N,))
        f = fn_of(m)
        cnt = functional("count", lambda j: f(j), N, sort=I, raw_sort=B)
        return m, cnt, lambda j: functional("sel", lambda q: f(q), N, extra=(j,), sort=I, raw_sort=B)
    n = k.dim("nkeys", 0)
    a = k.ints("keys", (n,), sub(0, N), N)
    f = fn_of(a)
    return a, n, lambda j: ite(lt(f(j), 0), add(f(j), N), f(j))


def rows_are(k, name, got, col, n, row):
    """got holds the rows row(j) of the column"""
    f, per = fn_of(col), tuple(col.shape_[1:])
    if n is None:
        k.each_is(name, got, per, lambda *i: f(*((row(0),) + i)))
    else:
        k.each_is(name, got, (n,) + per, lambda j, *i: f(*((row(j),) + i)))


@contract("C07 C24", "dict_utils.slice_dict", cases=KEYS)
def slice_dict(k, how):
    """every column of the result holds the selected rows of that column; entries which cannot be indexed are kept"""
    N = k.dim("N", 1)
    d = columns(k, N)
    key, n, row = selection(k, N, how)
    marker = object()
    d["other"] = marker
    names = list(d)
    out = k.mod("dict_utils").slice_dict(d, key)
    k.ensure("a new dictionary with the same names", out is not d and set(out) == set(names) and set(d) == set(names))
    for c in names[:-1]:
        rows_are(k, c, out[c], d[c], n, row)
    k.ensure("entries without rows are kept", out["other"] is marker)


@contract("C08 C24", "dict_utils.concatenate_dicts", cases=[1, 2, 3])
def concatenate_dicts(k, parts):
    """every column of the result is the columns of that name one after the other, in the order of the dictionaries"""
    Ns = [k.dim("N%d" % p, 1) for p in range(parts)]
    ds = [columns(k, n, "_%d" % p) for p, n in enumerate(Ns)]
    lst = list(ds)
    out = k.mod("dict_utils").concatenate_dicts(lst)
    k.ensure("the names of the parts", set(out) == set(ds[0]) and len(lst) == parts)
    for c in ds[0]:
        joined(k, c, out[c], [d[c] for d in ds], Ns)


def joined(k, name, got, cols, Ns):
    fs, per = [fn_of(c) for c in cols], tuple(cols[0].shape_[1:])
    tot = 0
    for n in Ns:
        tot = add(tot, n)
    got = k.shape(name, got, (tot,) + per)
    off = 0
    for p, (f, n) in enumerate(zip(fs, Ns)):
        k.all("%s: rows of part %d" % (name, p), (n,) + per, lambda j, *i: eq(at(got, add(off, j), *i), f(*((j,) + i))))
        off = add(off, n)


@contract("C08", "dict_utils.check_keys", cases=["missing in the second", "missing in the first", "missing in the third"])
def refuse_keys(k, how):
    """dictionaries with different names are refused"""
    N = k.dim("N", 1)
    ds = [columns(k, N, "_%d" % p) for p in range(3)]
    del ds[dict(second=1, first=0, third=2)[how.split()[-1]]]["col2"]
    refused(k, lambda: k.mod("dict_utils").concatenate_dicts(ds), ValueError)


def refused(k, call, *kinds):
    try:
        call()
    except kinds:
        k.ensure("refused", True)
        return
    k.ensure("refused", False)


@contract("C07 C08 C24", "dict_utils.check_array_shapes", cases=["right", "wrong", "none"])
def check_shapes(k, how):
    """a table is accepted when every column has a row for every distribution, else refused"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    d = columns(k, N)
    f = k.mod("dict_utils").check_array_shapes
    if how == "none":
        f(None, N)
        k.ensure("accepted", True)
        return
    if how == "right":
        f(d, N)
        k.ensure("accepted", True)
        return
    k.pre(Not(eq(N, M)))
    d["more"] = k.real("more", (M, k.dim("w", 1)))
    k.pre(Not(eq(M, 1)))
    refused(k, lambda: f(d, wrap(N)), ValueError)


def close(a, b):
    return npshim.isclose1(a, b)


@contract("C08 C09", "dict_utils.compare_dicts", cases=["two", "three", "keys", "one", "nested order"])
def compare(k, how):
    """equal names and values equal to the precision of np.allclose; nothing else passes"""
    f = k.mod("dict_utils").compare_dicts
    n = k.dim("n", 2)
    mk = lambda t: dict(grid=k.real("grid" + t, (1, n)), flag=k.ints("flag" + t, (1,)), name=k.ints("name" + t, (1,)))
    ds = [mk(str(p)) for p in range(dict(two=2, three=3, keys=2, one=1).get(how, 2))]
    if how == "nested order":
        ds[1] = {c: ds[1][c] for c in reversed(list(ds[1]))}
    if how == "keys":
        del ds[1]["flag"]
        k.ensure("different names", not f(ds))
        return
    if how == "one":
        k.ensure("nothing to compare", bool(f(ds)))
        k.ensure("nothing at all", bool(f([])))
        return
    r = True if f(ds) else False
    fs = [{c: fn_of(v) for c, v in d.items()} for d in ds]
    if r is True:
        j = ctx.int("j", 0)
        k.pre(lt(j, n))
        for p in range(1, len(ds)):
            k.ensure("grid %d is close" % p, close(fs[0]["grid"](0, j), fs[p]["grid"](0, j)))
            k.ensure("flag %d is the same" % p, eq(fs[0]["flag"](0), fs[p]["flag"](0)))
            k.ensure("name %d is the same" % p, eq(fs[0]["name"](0), fs[p]["name"](0)))
    else:
        j = z3.Int("j?")
        ctx.forall(1, lambda j: Implies(And(le(0, j), lt(j, n)), And(*[eq(fs[0]["grid"](0, j), g["grid"](0, j)) for g in fs[1:]])), "same grids")
        k.pre(And(*[And(eq(fs[0]["flag"](0), g["flag"](0)), eq(fs[0]["name"](0), g["name"](0))) for g in fs[1:]]))
        k.ensure("equal dictionaries are not told apart", False)


# ------------------------------------------------------------------------------------------------ registries
class AnyDict:
    """a dictionary of unknown contents: whether a key is present is open; the values are unknown objects"""
    def __init__(self, name):
        self.name, self.known, self.written = name, {}, {}

    def had(self, key):
        b = z3.Bool("%s has %s" % (self.name, key))
        return ctx.branch(b)

    def __contains__(self, key):
        return key in self.written or self.had(key)

    def __getitem__(self, key):
        if key in self.written:
            return self.written[key]
        if not self.had(key):
            raise KeyError(key)
        return self.known.setdefault(key, object())

    def get(self, key, default=None):
        return self[key] if key in self else default

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def __setitem__(self, key, val):
        self.written[key] = val

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("dictionary method %s" % n)


@contract("C23", "dict_utils.get_val_or_default", cases=["name", "None", 3])
def get_val(k, key):
    """the entry of that name, else the default entry, else nothing - for a dictionary of any contents"""
    d = AnyDict("d")
    key = None if key == "None" else key
    r = k.mod("dict_utils").get_val_or_default(d, key)
    has, dflt = d.had(key), d.had(None)
    want = d[key] if has else d[None] if dflt else None
    k.ensure("the entry, else the default, else nothing", r is want)
    k.ensure("the dictionary is left alone", not d.written)


@contract("C23", "dict_utils.set_val_or_default", cases=["name", "None"])
def set_val(k, key):
    """an existing entry is kept and returned; otherwise the value is entered under that name only"""
    d = AnyDict("d")
    key = None if key == "None" else key
    val = object()
    r = k.mod("dict_utils").set_val_or_default(d, key, val)
    if d.had(key):
        k.ensure("the existing entry", r is d.known[key] if key in d.known else False)
        k.ensure("the existing entry is kept", not d.written)
    else:
        k.ensure("the new entry", r is val)
        k.ensure("entered under its name only", list(d.written) == [key] and d.written[key] is val)


# ------------------------------------------------------------------------------------------------ ensembles of an abstract kind
class Frozen:
    """what a kind of distribution hands out: answers are unknown functions of the data it was made from"""
    def __init__(self, kind, dist, kwds, npdf, ident):
        self.dist, self.kwds, self.npdf, self.shape, self.ndim = dist, kwds, wrap(npdf), (wrap(npdf),), 1
        self.n, self.ident, self.asked = npdf, ident, []

    def _answer(self, what, x):
        x = asarr(x)
        self.asked.append(what)
        f = z3.Function("%s_%s" % (what, self.ident), I, R, R)
        xf = x.snap()
        if x.ndim <= 1:
            return from_fn((self.n,) + tuple(x.shape_ or (1,)), lambda i: f(term(i[0]), real(xf((i[1],) if x.ndim else ()))), "f")
        return from_fn((self.n,) + tuple(x.shape_[1:]), lambda i: f(term(i[0]), real(xf((i[0], i[1])))), "f")

    def __getattr__(self, what):
        if what.startswith("__"):
            raise AttributeError(what)
        if what in ("pdf", "cdf", "ppf", "sf", "isf", "logpdf", "logcdf", "logsf"):
            return lambda x: self._answer(what, x)
        raise Unsupported("frozen distribution: %s" % what)


class Kind:
    """a kind of distribution by its interface: create(**data) gives a frozen distribution whose data are the given columns and
    whose common data are the given ones; evaluations are functions of the data"""
    name, version = "abstract", 0
    COMMON = ("grid", "flag")

    def __init__(self, params=False):
        self.params, self.calls, self.made = params, [], []

    def create(self, **data):
        self.calls.append(dict(data))
        cols = {c: v for c, v in data.items() if c not in self.COMMON}
        if not cols:
            raise TypeError("no data")
        a = asarr(list(cols.values())[0])
        dist = Dist()
        dist.create = self.create
        dist.metadata = dict(pdf_name=npshim.array([b"abstract"]), pdf_version=npshim.array([0]))
        for c in self.COMMON:
            if c in data:
                dist.metadata[c] = npshim.expand_dims(data[c], 0)
        dist.objdata = {} if self.params else cols
        n = a.shape_[0]
        kwds = dict(cols) if self.params else dict(row=npshim.expand_dims(npshim.arange(wrap(n)), -1))
        fr = Frozen(self, dist, kwds, n, "v%d" % len(self.calls))
        self.made.append(fr)
        return fr


class Dist:
    pass


def an_ensemble(k, kind, N, tag="", ancil=True, cols=None, common=None):
    E = k.mod("ensemble").Ensemble
    data = {c: v for c, v in (cols or columns(k, N, tag, (2,))).items()}
    if "more" not in data:
        data["more"] = k.real("more" + tag, (N, 1))
    if common is None:
        common = dict(grid=k.real("grid", (k.dim("ngrid", 2),)), flag=True)
    if kind.params:
        common = {}
    anc = columns(k, N, "_ancil" + tag, (1, 2)) if ancil else None
    full = dict(common)
    full.update(data)
    e = E(kind.create, full, None if anc is None else dict(anc))
    return e, data, common, anc


def holds(k, name, e, N, data, common, anc, kind, row=None, n=None):
    """the ensemble holds the rows (of these columns), the common data and the ancillary rows"""
    n = N if row is None else n
    row = row or (lambda j: j)
    one = n is None
    od, md = e.objdata(), e.metadata()
    k.ensure(name + ": columns", set(od) == set(data))
    rr = (lambda j: row(0)) if one else row
    for c in data:
        if c in od:
            f, per = fn_of(data[c]), tuple(data[c].shape_[1:])
            k.each_is("%s: %s" % (name, c), od[c], (1 if one else n,) + per, lambda j, *i: f(*((rr(j),) + i)))
    k.ensure(name + ": common data", set(md) == set(common) | {"pdf_name", "pdf_version"})
    for c, v in common.items():
        if c in md:
            same_array(k, "%s: %s" % (name, c), npshim.squeeze(md[c]), v)
    k.ensure(name + ": number of distributions", eq(rawi(e.npdf), 1 if one else n))
    if anc is None:
        k.ensure(name + ": no ancillary table", e.ancil is None)
    else:
        k.ensure(name + ": ancillary columns", e.ancil is not None and set(e.ancil) == set(anc))
        for c in anc:
            f, per = fn_of(anc[c]), tuple(anc[c].shape_[1:])
            k.each_is("%s: ancillary %s" % (name, c), e.ancil[c], (1 if one else n,) + per, lambda j, *i: f(*((rr(j),) + i)))
    k.ensure(name + ": made by the same kind", len(kind.made) > 0 and e.frozen is kind.made[-1] or any(e.frozen is m for m in kind.made))


def same_array(k, name, got, want):
    if isinstance(want, Arr) or isinstance(got, Arr):
        w = asarr(want)
        f = fn_of(w)
        k.each_is(name, got, w.shape_, lambda *i: f(*i))
    else:
        k.ensure(name, got == want)


@contract("C07 C24", "ensemble.Ensemble.__getitem__", cases=["rows kind, " + h for h in KEYS] + ["parameter kind, python int", "parameter kind, slice", "parameter kind, list", "no ancil, mask", "no ancil, python int"])
def ens_getitem(k, case):
    """an ensemble of the same kind, with the same common data and the selected rows of every column and of the ancillary table;
    the original keeps its own"""
    what, how = case.split(", ")
    N = k.dim("N", 1)
    kind = Kind(what.startswith("parameter"))
    e, data, common, anc = an_ensemble(k, kind, N, ancil=what != "no ancil")
    key, n, row = selection(k, N, how)
    s = e[key]
    k.ensure("an ensemble", type(s) is type(e))
    holds(k, "selected", s, N, data, common, anc, kind, row, n)
    holds(k, "original", e, N, data, common, anc, kind)


@contract("C08 C24", "ensemble.Ensemble.append", cases=["both ancil", "no ancil", "first only", "second only", "parameter kind"])
def ens_append(k, case):
    """all members of the first, then all of the second; the ancillary tables too when both have one; the argument is left alone"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    kind = Kind(case == "parameter kind")
    cols = columns(k, N, "", (2,))
    w = cols["col2"].shape_[1]
    e, data, common, anc = an_ensemble(k, kind, N, "", case in ("both ancil", "first only"), cols)
    g, data2, _, anc2 = an_ensemble(k, kind, M, "2", case in ("both ancil", "second only"), dict(col2=k.real("col2_2", (M, w))), common)
    if anc and anc2:
        g.set_ancil(dict(anc2))
    e.append(g)
    od = e.objdata()
    k.ensure("columns", set(od) == set(data))
    for c in data:
        joined(k, c, od[c], [data[c], data2[c]], [N, M])
    for c, v in common.items():
        same_array(k, c, npshim.squeeze(e.metadata()[c]), v)
    k.ensure("common data", set(e.metadata()) == set(common) | {"pdf_name", "pdf_version"})
    k.ensure("number of distributions", eq(rawi(e.npdf), add(N, M)))
    if case == "both ancil":
        k.ensure("ancillary columns", set(e.ancil) == set(anc))
        for c in anc:
            joined(k, "ancillary " + c, e.ancil[c], [anc[c], anc2[c]], [N, M])
    else:
        k.ensure("no ancillary table", e.ancil is None)
    holds(k, "the other", g, M, data2, common, anc2, kind)


@contract("C08", "ensemble.Ensemble.append", cases=["flag", "name", "grid length", "grid", "missing"])
def ens_append_refused(k, how):
    """ensembles whose common data differ are refused, and nothing changes"""
    N, M, n = k.dim("N", 1), k.dim("M", 1), k.dim("ngrid", 2)
    kind, kind2 = Kind(), Kind()
    grid = k.real("grid", (n,))
    common, common2 = dict(grid=grid, flag=True), dict(grid=grid, flag=True)
    w = k.dim("w", 1)
    if how == "flag":
        common2["flag"] = False
    if how == "grid":
        g2 = k.real("grid2", (n,))
        j = ctx.int("j", 0)
        k.pre(And(lt(j, n), Not(npshim.isclose1(at(grid, j), at(g2, j)))))
        common2["grid"] = g2
    if how == "grid length":
        n2 = k.dim("ngrid2", 2)
        k.pre(Not(eq(n, n2)))
        common2["grid"] = k.real("grid2", (n2,))
    if how == "missing":
        del common2["flag"]
    e, data, _, _ = an_ensemble(k, kind, N, "", False, dict(col2=k.real("col2", (N, w))), common)
    g, data2, _, _ = an_ensemble(k, kind2, M, "2", False, dict(col2=k.real("col2_2", (M, w))), common2)
    if how == "name":
        kind2.made[-1].dist.metadata["pdf_name"] = npshim.array([b"other"])
    refused(k, lambda: e.append(g), KeyError, ValueError)
    holds(k, "unchanged", e, N, data, common, None, kind)


@contract("C09 C24", "ensemble.Ensemble.update", cases=["update", "update_objdata", "update_objdata parameter kind"])
def ens_update(k, how):
    """the ensemble holds exactly the new data and the new ancillary table"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    kind = Kind(how.endswith("parameter kind"))
    e, data, common, anc = an_ensemble(k, kind, N)
    new = dict(columns(k, M, "_new", (2,)), more=k.real("more_new", (M, 1)))
    anc2 = columns(k, M, "_ancil_new", (1, 2))
    if how == "update":
        common = dict(common, grid=k.real("grid_new", (k.dim("ngrid_new", 2),)))
        full = dict(common, **new)
        e.update(full, dict(anc2))
        k.ensure("the dictionary given is left alone", set(full) == set(common) | set(new))
    else:
        arg = dict(new)
        e.update_objdata(arg, dict(anc2))
        k.ensure("the dictionary given is left alone", set(arg) == set(new))
    holds(k, "updated", e, M, new, common, anc2, kind)


@contract("C10 C12 C24", "ensemble.Ensemble.build_tables", cases=["ancil", "no ancil", "parameter kind"])
def ens_tables(k, how):
    """the common data, the columns and the ancillary table; dictionaries handed out are the caller's to change"""
    N = k.dim("N", 1)
    kind = Kind(how == "parameter kind")
    e, data, common, anc = an_ensemble(k, kind, N, ancil=how == "ancil")
    t = e.build_tables()
    k.ensure("tables", set(t) == ({"meta", "data", "ancil"} if anc is not None else {"meta", "data"}))
    k.ensure("columns", set(t["data"]) == set(data) and set(t["meta"]) == set(common) | {"pdf_name", "pdf_version"})
    for c in data:
        same_array(k, c, t["data"][c], data[c])
    for c, v in common.items():
        k.ensure("an axis of length one leads", asarr(t["meta"][c]).shape_[0] == 1)
        same_array(k, c, npshim.squeeze(t["meta"][c]), v)
    for c in anc or {}:
        same_array(k, "ancillary " + c, t["ancil"][c], anc[c])
    t["meta"].clear()
    t["data"].clear()
    e.metadata().clear()
    e.objdata().clear()
    holds(k, "afterwards", e, N, data, common, anc, kind)


ACTS = ["nothing", "same again", "other grid", "mode", "grid changed in place", "update", "update_objdata", "append", "common data", "evaluations"]


@contract("C09 C24", "ensemble.Ensemble.gridded", cases=ACTS, size=3)
def ens_gridded(k, act):
    """gridded values are those of the grid asked for and of the present data, whatever was asked or changed before"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    kind = Kind()
    e, data, common, anc = an_ensemble(k, kind, N, ancil=False)
    n, n2 = k.dim("n", 1), k.dim("n2", 1)
    g, g2 = k.real("g", (n,), protect=False), k.real("g2", (n2,))
    if act != "nothing":
        first = e.gridded(g)
        gridded_is(k, "first", e, first, g, N)
    if act == "same again":
        gridded_is(k, "again", e, e.gridded(g), g, N)
    if act == "other grid":
        g3 = k.real("g3", (k.dim("n3", 1),))
        gridded_is(k, "another", e, e.gridded(g3), g3, N)
    if act == "mode":
        e.mode(k.real("g3", (k.dim("n3", 1),)))
    if act == "grid changed in place":
        v = k.real("changed", (n,))
        g[:] = v
        gridded_is(k, "changed grid", e, e.gridded(g), g, N)
    if act == "update":
        e.update(dict(common, col2=k.real("new", (M, k.dim("w", 1))), more=k.real("newmore", (M, 1))))
        N = M
    if act == "update_objdata":
        e.update_objdata(dict(col2=k.real("new", (M, k.dim("w", 1))), more=k.real("newmore", (M, 1))))
        N = M
    if act == "append":
        f, *_ = an_ensemble(k, kind, M, "2", False, dict(col2=k.real("col2_2", (M, data["col2"].shape_[1]))), common)
        e.append(f)
        N = add(N, M)
    if act == "common data":
        kind.made[-1].dist.metadata["flag"] = npshim.array([False])
        kind.made[-1].ident = "other"
    if act == "evaluations":
        x = k.real("x", (k.dim("nx", 1),))
        e.pdf(x), e.cdf(x), e.ppf(x), e.sf(x)
    gridded_is(k, "in the end", e, e.gridded(g2), g2, N)


def gridded_is(k, name, e, got, g, N):
    f = fn_of(g)
    P = z3.Function("pdf_%s" % e.frozen.ident, I, R, R)
    same_array(k, name + ": the grid", got[0], g)
    k.each_is(name + ": densities", got[1], (N, g.shape_[0]), lambda i, j: P(term(i), real(f(j))))


@contract("C09", "ensemble.Ensemble.gridded")
def ens_gridded_inductive(k):
    """for every state of the memory that holds the densities of its grid, and every grid: the answer is right and the memory again
    holds the densities of its grid (so that any number of requests may have come before)"""
    N, n, n2 = k.dim("N", 1), k.dim("n", 1), k.dim("n2", 1)
    kind = Kind()
    e, data, common, anc = an_ensemble(k, kind, N, ancil=False)
    g0, g = k.real("g0", (n,)), k.real("g", (n2,))
    if not hasattr(e, "_gridded") or not hasattr(e, "_gridded_metadata"):
        raise Unsupported("the memory of gridded values is kept elsewhere")
    e._gridded = (g0, e.pdf(g0))
    e._gridded_metadata = e.metadata()
    gridded_is(k, "answer", e, e.gridded(g), g, N)
    gridded_is(k, "memory", e, e._gridded, e._gridded[0], N)
    k.ensure("memory apart from the caller's grid", e._gridded[0].buf is not g.buf)


@contract("C09", "ensemble.Ensemble.mode")
def ens_mode(k):
    """for every distribution a point of the grid where the density on the grid is largest"""
    N, n = k.dim("N", 1), k.dim("n", 1)
    kind = Kind()
    e, data, common, anc = an_ensemble(k, kind, N, ancil=False)
    g = k.real("g", (n,))
    m = k.shape("mode", e.mode(g), (N, 1))
    P = z3.Function("pdf_%s" % e.frozen.ident, I, R, R)
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    k.pre(And(lt(i, N), lt(j, n)))
    gf = fn_of(g)
    k.ensure("no grid point has a larger density", le(P(i, real(gf(j))), P(i, real(at(m, i, 0)))))
    q = npshim.argmax(from_fn((n,), lambda t: P(i, real(gf(t[0]))), "f"))
    k.ensure("a grid point", And(le(0, at(q)), lt(at(q), n), eq(at(m, i, 0), gf(at(q)))))


# ------------------------------------------------------------------------------------------------ files
class Store:
    """the contract assumed of tables_io: files by name; tables are written and read as they are; pieces go to their rows"""
    def __init__(self, k):
        self.k, self.files, self.calls = k, {}, []
        ctx.use("tables_io: write/read keep tables; initializeHdf5Write allocates, writeDictToHdf5Chunk writes rows start:end, finalizeHdf5Write adds a group")

    def install(self, *mods):
        for m in mods:
            mm = self.k.mod(m)
            self.k.w.patches.append((mm, "io", mm.__dict__["io"], True))
            mm.io = self
        return self

    def put(self, path, tables):
        self.files[path] = tables

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("tables_io.io.%s" % n)

    def write(self, tables, basename, fmt=None):
        self.calls.append(("write", basename, fmt))
        self.files["%s.%s" % (basename, fmt)] = {g: dict(t) for g, t in tables.items()}

    def read(self, filename, tType=None, fmt=None, keys=None, allow_missing_keys=False):
        t = self.files[filename]
        if keys is None:
            return {g: dict(v) for g, v in t.items()}
        if not allow_missing_keys and any(q not in t for q in keys):
            raise KeyError("missing table")
        return {g: dict(t[g]) for g in keys if g in t}

    def initializeHdf5Write(self, filename, comm=None, **kwds):
        self.calls.append(("init", filename, comm, {g: dict(t) for g, t in kwds.items()}))
        f = self.files[filename] = {}
        for g, t in kwds.items():
            f[g] = {c: self.k.real("unset_%s_%s" % (g, c), tuple(rawi(v) for v in shp), protect=False) for c, (shp, dt) in t.items()}
        return {g: f[g] for g in f}, f

    def writeDictToHdf5Chunk(self, fout, odict, start, end):
        n = sub(rawi(end), rawi(start))
        for g, t in odict.items():
            for c, a in t.items():
                a = asarr(a)
                if not ctx.branch(eq(a.shape_[0], n)):
                    raise ValueError("rows of the piece")
                fout[g][c][start:end] = a

    def finalizeHdf5Write(self, fout, group, **kwds):
        fout[group] = dict(kwds)

    def readHdf5ToDict(self, filename, group=None):
        return dict(self.files[filename][group])

    def readHdf5Group(self, filename, group=None):
        t = self.files[filename]
        for part in (group or "").split("/"):
            if part not in t:
                raise KeyError(group)
            t = t[part]
        return t, Handle()

    def getGroupInputDataLength(self, f):
        self.calls.append(("length", f))
        return wrap(list(f.values())[0].shape_[0])

    def readHdf5DatasetToArray(self, val, start=None, end=None):
        return val[start:end].copy()

    def readHdf5GroupNames(self, filename, group=None):
        t = self.files[filename]
        return list(t if group is None else t[group])

    def readHdf5GroupToDict(self, g, start=None, end=None):
        return {c: v[start:end].copy() for c, v in g.items()}

    def writeDictsToHdf5(self, tables, filename, **kw):
        self.calls.append(("dicts", filename, kw))
        self.files[filename] = {n: {g: dict(v) for g, v in t.items()} for n, t in tables.items()}


class H5(dict):
    """the contract assumed of h5py: groups are dictionaries of groups and datasets, by path; a dataset has the shape and type it was
    created with, or the values of the array given, and is read and assigned by rows as an array; what a file holds stays"""
    def __init__(self, store, name="", files=None):
        super().__init__()
        self.store, self.name, self.closed = store, name, False

    def create_group(self, name):
        if name in self:
            raise ValueError("name already exists")
        g = H5(self.store, "%s/%s" % (self.name, name))
        dict.__setitem__(self, name, g)
        return g

    def require_group(self, name):
        g = self
        if name.startswith("/"):
            g = self.store.files[self.store.opened]
        for part in [t for t in name.split("/") if t]:
            g = dict.__getitem__(g, part) if part in g else g.create_group(part)
        return g

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        if name in self:
            raise ValueError("name already exists")
        if data is not None:
            v = asarr(data).copy()
            self.store.types[id(v)] = v.dtype if dtype is None else dtype
        else:
            v = self.store.k.real(ctx.name("unset"), tuple(rawi(d) for d in shape), protect=False)
            self.store.types[id(v)] = dtype
        v.name = "%s/%s" % (self.name, name)
        dict.__setitem__(self, name, v)
        return v

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __getitem__(self, path):
        g = self
        for part in path.split("/"):
            g = dict.__getitem__(g, part)
        return g

    def close(self):
        pass


class Dataset:
    """no value here is one by type: see H5"""


class Library:
    """the library's own functions for hdf5 files, over the contract of h5py"""
    def __init__(self, k):
        import types
        self.k, self.files, self.calls, self.types = k, {}, [], {}
        io = library(k)[0]
        store = self

        def File(path, mode="r", **kw):
            store.calls.append(("init", path, kw.get("comm"), None))
            store.opened = path
            if mode == "w" or (mode == "a" and path not in store.files):
                store.files[path] = H5(store)
            if path not in store.files:
                raise FileNotFoundError(path)
            return store.files[path]

        def unlink(path):
            if path not in store.files:
                raise FileNotFoundError(path)
            del store.files[path]
        io.h5py = types.SimpleNamespace(File=File, Dataset=Dataset, Group=H5, get_config=lambda: types.SimpleNamespace(mpi=True))
        io.os = types.SimpleNamespace(path=types.SimpleNamespace(abspath=lambda p: "/" + p, dirname=lambda p: "/", exists=lambda p: True), unlink=unlink)
        self.io = io
        ctx.use("h5py: groups and datasets keep what they are given, rows are read and assigned as those of arrays")

    def install(self, *mods):
        for m in mods:
            mm = self.k.mod(m)
            self.k.w.patches.append((mm, "io", mm.__dict__["io"], True))
            mm.io = self.io
        return self

    def put(self, path, tables):
        f = self.files[path] = H5(self)
        for g, t in tables.items():
            gr = f.create_group(g)
            for c, v in t.items():
                dict.__setitem__(gr, c, v)
                if isinstance(v, Arr):
                    v.name = c


def library(k):
    """the source of the library which reads and writes tables"""
    import ast
    import importlib.util
    import os
    root = os.path.dirname(importlib.util.find_spec("tables_io").origin)
    for m in ("arrayUtils", "convUtils"):
        k.w.load_file("tables_io." + m, os.path.join(root, m + ".py"))
    m = k.w.load_file("tables_io.ioUtils", os.path.join(root, "ioUtils.py"))
    return m, {n.name: n for n in ast.walk(k.w.tree["tables_io.ioUtils"][2]) if isinstance(n, ast.FunctionDef)}


def store(k, how):
    """files: the library's functions over the contract of h5py, or the contract of the library"""
    return Library(k) if "library" in how else Store(k)


class Handle:
    closed = False

    def close(self):
        self.closed = True


@contract("C12", "ensemble.Ensemble._get_allocation_kwds", cases=["ancil", "no ancil", "parameter kind"])
def ens_allocation(k, how):
    """room for the full number of rows, each column with its own shape and type"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    kind = Kind(how == "parameter kind")
    cols = columns(k, N, "", (2, 3))
    cols["whole"] = k.ints("whole", (N, 2))
    e, data, common, anc = an_ensemble(k, kind, N, ancil=how == "ancil", cols=cols)
    st = Store(k).install("ensemble")
    comm = object()
    group, fout = e.initializeHdf5Write("f.hdf5", wrap(M), comm)
    k.ensure("what the file layer returned", fout is st.files["f.hdf5"] and set(group) == set(fout))
    _, fname, cm, kw = st.calls[-1]
    k.ensure("the file and the communicator given", fname == "f.hdf5" and cm is comm)
    k.ensure("groups", set(kw) == ({"data", "ancil"} if anc is not None else {"data"}))
    for g, t in (("data", data), ("ancil", anc or {})):
        if g not in kw:
            continue
        k.ensure(g + ": columns", set(kw[g]) == set(t))
        for c in t:
            shp, dt = kw[g][c]
            k.shape_is("%s %s: shape" % (g, c), list(shp), (M,) + tuple(t[c].shape_[1:]))
            k.ensure("%s %s: type" % (g, c), dt == t[c].dtype)


@contract("C12 C24", "ensemble.Ensemble.writeHdf5Chunk", cases=["ancil", "no ancil", "parameter kind", "library: ancil", "library: no ancil", "library: parameter kind"])
def ens_write_piece(k, how):
    """the rows start:end of the file hold the rows of the ensemble, every other row what it held (so that the pieces of a partition
    together, in any order, hold the whole)"""
    N, M, s = k.dim("N", 1), k.dim("M", 1), k.dim("start", 0)
    k.pre(le(add(s, N), M))
    kind = Kind(how.endswith("parameter kind"))
    e, data, common, anc = an_ensemble(k, kind, N, ancil=how in ("ancil", "library: ancil"))
    st = store(k, how).install("ensemble")
    _, fout = e.initializeHdf5Write("f.hdf5", wrap(M))
    before = {g: {c: fn_of(a) for c, a in t.items()} for g, t in fout.items()}
    e.writeHdf5Chunk(fout, wrap(s), wrap(add(s, N)))
    for g, t in (("data", data), ("ancil", anc or {})):
        for c in t:
            f, per, b = fn_of(t[c]), tuple(t[c].shape_[1:]), before[g][c]
            k.each_is("%s %s" % (g, c), fout[g][c], (M,) + per,
                      lambda j, *i: ite(And(le(s, j), lt(j, add(s, N))), f(*((sub(j, s),) + i)), b(*((j,) + i))))
    e.finalizeHdf5Write(fout)
    k.ensure("common data", set(fout["meta"]) == set(common) | {"pdf_name", "pdf_version"})
    for c, v in common.items():
        same_array(k, c, npshim.squeeze(fout["meta"][c]), v)
    k.ensure("nothing else", set(fout) == {"meta", "data"} | ({"ancil"} if anc is not None else set()))
    holds(k, "the ensemble", e, N, data, common, anc, kind)


@contract("C10 C24", "ensemble.Ensemble.write_to", cases=["a.hdf5", "b.c.fits", "d.pq"])
def ens_write(k, fname):
    """the tables go to the file of that name in the format of its extension"""
    N = k.dim("N", 1)
    kind = Kind()
    e, data, common, anc = an_ensemble(k, kind, N)
    st = Store(k).install("ensemble")
    e.write_to(fname)
    k.ensure("one file", list(st.files) == [fname] and len(st.calls) == 1)
    t = st.files[fname]
    k.ensure("tables", set(t) == {"meta", "data", "ancil"})
    for g, cs in (("data", data), ("ancil", anc)):
        k.ensure(g + ": columns", set(t[g]) == set(cs))
        for c in cs:
            same_array(k, "%s %s" % (g, c), t[g][c], cs[c])
    holds(k, "the ensemble", e, N, data, common, anc, kind)


# ------------------------------------------------------------------------------------------------ evaluations handed on
@contract("C01 C25", "ensemble.Ensemble.pdf", cases=["pdf", "cdf", "ppf", "sf", "isf", "logpdf", "logcdf", "logsf"])
def ens_evaluate(k, what):
    """the answer of the frozen distributions of that ensemble to that question"""
    N = k.dim("N", 1)
    kind = Kind()
    e, data, common, anc = an_ensemble(k, kind, N, ancil=False)
    x = k.real("x", (k.dim("nx", 1),))
    f = fn_of(x)
    r = getattr(e, what)(x)
    P = z3.Function("%s_%s" % (what, e.frozen.ident), I, R, R)
    k.each_is(what, r, (N, x.shape_[0]), lambda i, j: P(term(i), real(f(j))))
    k.ensure("asked once", e.frozen.asked == [what])
    holds(k, "the ensemble", e, N, data, common, anc, kind)


class Recorder:
    """answers every question with a new object, and remembers the question"""
    def __init__(self, npdf):
        self.npdf, self.log = npdf, []

    def __getattr__(self, what):
        if what.startswith("__"):
            raise AttributeError(what)

        def ask(*a, **kw):
            r = object()
            self.log.append((what, a, kw, r))
            return r
        return ask


@contract("C01 C16 C25", "ensemble.Ensemble.moment", cases=["stats", "median", "mean", "var", "std", "moment", "entropy", "interval", "rvs", "histogramize"])
def ens_summaries(k, what):
    """each summary is the one of the frozen distributions, with the arguments given; samples are asked for per distribution"""
    N = k.dim("N", 1)
    kind = Kind()
    e, data, common, anc = an_ensemble(k, kind, N, ancil=False)
    rec = Recorder(wrap(N))
    if "_frozen" not in vars(e):
        raise Unsupported("the frozen distributions are kept elsewhere")
    e._frozen = rec
    arg, seed = object(), object()
    if what == "rvs":
        size = k.ints("size", (), 1)
        r = e.rvs(size=size, random_state=seed)
    elif what in ("moment", "interval", "histogramize"):
        r = getattr(e, what)(arg)
    elif what == "stats":
        r = e.stats(moments=arg)
    else:
        r = getattr(e, what)()
    k.ensure("one question", len(rec.log) == 1)
    w, a, kw, ans = rec.log[0]
    k.ensure("the same question, and its answer", w == what and r is ans)
    if what == "rvs":
        s = kw.get("size", a[0] if a else None)
        k.ensure("a row of samples for every distribution", isinstance(s, tuple) and len(s) == 2 and And(eq(rawi(s[0]), N), eq(rawi(s[1]), at(size))))
        k.ensure("the generator given", kw.get("random_state", a[1] if len(a) > 1 else None) is seed)
    elif what == "stats":
        k.ensure("the argument given", (a and a[0] is arg) or kw.get("moments") is arg)
    elif what in ("moment", "interval", "histogramize"):
        k.ensure("the argument given", (a and a[0] is arg) or arg in kw.values())
    else:
        k.ensure("no arguments", not a and not kw)


@contract("C06", "ensemble.Ensemble.integrate", cases=["limits", "adjacent"])
def ens_integrate(k, how):
    """the cumulative at the upper limit minus that at the lower one; additive over adjacent intervals"""
    N = k.dim("N", 1)
    kind = Kind()
    e, data, common, anc = an_ensemble(k, kind, N, ancil=False)
    a, b, c = k.real("a", ()), k.real("b", ()), k.real("c", ())
    F = z3.Function("cdf_%s" % e.frozen.ident, I, R, R)
    ab = e.integrate((a, b))
    k.each_is("between a and b", ab, (N, 1), lambda i, j: sub(F(term(i), real(at(b))), F(term(i), real(at(a)))))
    if how == "adjacent":
        bc, ac = e.integrate([b, c]), e.integrate((a, c))
        k.each_is("between a and c", ac, (N, 1), lambda i, j: add(at(ab, i, j), at(bc, i, j)))


@contract("C22 C23 C24", "ensemble.Ensemble.convert_to", cases=["named", "default", "no creation method", "no extraction method"])
def ens_convert(k, how):
    """the class's extraction method of that name is given the ensemble and the options; what it returns is handed to the creation
    method of that name"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    kind, other = Kind(), Kind()
    e, data, common, anc = an_ensemble(k, kind, N)
    new = dict(columns(k, M, "_new", (2,)), grid=k.real("grid_new", (k.dim("ngrid_new", 2),)), flag=True)
    asked = []

    class Target:
        name = "target"

        @classmethod
        def creation_method(cls, m=None):
            asked.append(("create", m))
            return None if how == "no creation method" else other.create

        @classmethod
        def extraction_method(cls, m=None):
            asked.append(("extract", m))

            def extract(ens, **kw):
                asked.append(("data", ens, kw))
                return new
            return None if how == "no extraction method" else extract
    kw = dict(xvals=object(), size=object())
    if how != "default":
        kw["method"] = "way"
    given = dict(kw)
    if how.startswith("no "):
        refused(k, lambda: e.convert_to(Target, **kw), KeyError)
        return
    r = e.convert_to(Target, **kw)
    kw.pop("method", None)
    m = None if how == "default" else "way"
    k.ensure("methods of that name", ("create", m) in asked and ("extract", m) in asked and not any(a[0] != "data" and a[1] != m for a in asked))
    d = [a for a in asked if a[0] == "data"]
    k.ensure("the ensemble and the options given", len(d) == 1 and d[0][1] is e and set(d[0][2]) == set(kw) and all(d[0][2][o] is kw[o] for o in kw))
    holds(k, "converted", r, M, {c: v for c, v in new.items() if c not in Kind.COMMON}, dict(grid=new["grid"], flag=True), None, other)
    holds(k, "the ensemble", e, N, data, common, anc, kind)


# ------------------------------------------------------------------------------------------------ the factory
class FactoryKind:
    """a kind of distribution as the factory knows it: a class with its methods by name"""
    def __init__(self, name, kind, reader=False):
        self.name, self.kind, self.asked = name, kind, []
        self.ctors = {None: kind.create}
        self.create = kind.create
        self.reader = reader

    def creation_method(self, m=None):
        self.asked.append(("create", m))
        return self.ctors.get(m, self.ctors[None])

    def extraction_method(self, m=None):
        self.asked.append(("extract", m))
        return self.extract

    def reader_method(self, v=None):
        self.asked.append(("read", v))
        return self.convert if self.reader else None

    def convert(self, data):
        return dict(data, flag=False)

    def extract(self, ens, **kw):
        self.asked.append(("data", ens, kw))
        return self.data

    def add_method_dicts(self):
        self.asked.append(("tables",))

    def add_mappings(self):
        self.asked.append(("mappings",))


def a_factory(k, *kinds):
    f = k.mod("factory").Factory()
    for c in kinds:
        f.add_class(c)
    return f


def an_abstract(kind):
    return FactoryKind("abstract", kind)


def tables_of(k, N, kind, ancil, tag="", nested=True):
    """tables as they are stored: each entry of the common data has a leading axis of length one"""
    data = dict(columns(k, N, tag, (2,)), more=k.real("more" + tag, (N, 1)))
    n = k.dim("ngrid", 2)
    grid = k.real("grid" + tag, (n,))
    gf = fn_of(grid)
    meta = dict(pdf_name=npshim.array([b"abstract"]), pdf_version=npshim.array([0]), grid=from_fn((1, n), lambda i: gf(i[1]), "f"),
                flag=npshim.array([True]))
    t = dict(meta=meta, data=data)
    anc = columns(k, N, "_ancil" + tag, (1, 2)) if ancil else None
    if anc is not None:
        t["ancil"] = dict(anc)
    return t, data, dict(grid=grid, flag=True), anc


@contract("C10 C24", "factory.Factory.from_tables", cases=["ancil", "no ancil", "reader"])
def fac_from_tables(k, how):
    """the ensemble of the named kind with the stored common data, columns and ancillary table; the tables are left alone"""
    N = k.dim("N", 1)
    kind, wrong = Kind(), Kind()
    fk = an_abstract(kind)
    fk.reader = how == "reader"
    f = a_factory(k, FactoryKind("another", wrong), fk)
    t, data, common, anc = tables_of(k, N, kind, how == "ancil")
    keys = {g: set(v) for g, v in t.items()}
    e = f.from_tables(t)
    if how == "reader":
        common = dict(common, flag=False)
        k.ensure("the reader of the stored version", any(a[0] == "read" and (a[1] == 0 if not isinstance(a[1], Arr) else eq(rawi(a[1]), 0) is True) for a in fk.asked))
    holds(k, "read", e, N, data, common, anc, kind)
    k.ensure("no other kind", not wrong.made)
    k.ensure("the tables keep their entries", {g: set(v) for g, v in t.items()} == keys)


@contract("C10 C23", "factory.Factory.from_tables", cases=["unknown kind"])
def fac_unknown(k, how):
    N = k.dim("N", 1)
    kind = Kind()
    f = a_factory(k, FactoryKind("another", kind))
    t, data, common, anc = tables_of(k, N, kind, False)
    refused(k, lambda: f.from_tables(t), KeyError)
    k.ensure("nothing made", not kind.made)


@contract("C10 C24", "factory.Factory.from_tables", cases=["ancil", "no ancil"])
def fac_round_trip(k, how):
    """building the tables of an ensemble and reading them back"""
    N = k.dim("N", 1)
    kind = Kind()
    f = a_factory(k, an_abstract(kind))
    e, data, common, anc = an_ensemble(k, kind, N, ancil=how == "ancil")
    r = f.from_tables(e.build_tables())
    holds(k, "read back", r, N, data, common, anc, kind)
    holds(k, "the ensemble", e, N, data, common, anc, kind)


@contract("C10 C24", "factory.Factory.read", cases=["a.hdf5", "a.fits", "a.pq", "a.pq no ancil", "a.hdf5 no ancil"])
def fac_read(k, case):
    """writing an ensemble to a file and reading the file back"""
    fname = case.split()[0]
    N = k.dim("N", 1)
    kind = Kind()
    f = a_factory(k, an_abstract(kind))
    e, data, common, anc = an_ensemble(k, kind, N, ancil="no ancil" not in case)
    Store(k).install("ensemble", "factory")
    e.write_to(fname)
    holds(k, "read back", f.read(fname), N, data, common, anc, kind)
    holds(k, "the ensemble", e, N, data, common, anc, kind)
    md = f.read_metadata(fname)
    k.ensure("the stored common data", set(md) == set(common) | {"pdf_name", "pdf_version"})


@contract("C10 C24", "factory.Factory.write_dict", cases=["two", "foreign", "library: two"])
def fac_dict(k, how):
    """a dictionary of ensembles written to one file is read back with the same names and contents"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    kind = Kind()
    m = k.mod("factory")
    f = a_factory(k, an_abstract(kind))
    e, data, common, anc = an_ensemble(k, kind, N)
    g, data2, common2, anc2 = an_ensemble(k, kind, M, "2", ancil=False, common=dict(grid=k.real("grid2", (k.dim("ngrid2", 2),)), flag=False))
    st = store(k, how).install("ensemble", "factory")
    d = dict(first=e, second=g)
    if how == "foreign":
        d["third"] = object()
        refused(k, lambda: f.write_dict("f.hdf5", d), ValueError)
        return
    f.write_dict("f.hdf5", d)
    k.w.patches.append((m, "from_tables", m.__dict__["from_tables"], True))
    m.from_tables = f.from_tables
    r = f.read_dict("f.hdf5")
    k.ensure("the same names", set(r) == {"first", "second"} and set(d) == {"first", "second"})
    holds(k, "first", r["first"], N, data, common, anc, kind)
    holds(k, "second", r["second"], M, data2, common2, anc2, kind)


@contract("C08 C24", "factory.Factory.concatenate", cases=["one", "two", "three", "ancil first only", "ancil second only", "no ancil", "parameter kind", "nothing"])
def fac_concatenate(k, how):
    """all members of the first, then of the second, and so on, with the common data; ancillary tables when every part has one"""
    m = k.mod("factory").Factory
    if how == "nothing":
        k.ensure("nothing", m.concatenate([]) is None)
        return
    parts = dict(one=1, three=3).get(how, 2)
    Ns = [k.dim("N%d" % p, 1) for p in range(parts)]
    kind = Kind(how == "parameter kind")
    w = k.dim("w", 1)
    has = [True] * parts
    if how == "no ancil":
        has = [False] * parts
    if how.startswith("ancil"):
        has = [how.split()[1] == "first", how.split()[1] == "second"]
    es, datas, ancs, common = [], [], [], None
    for p, n in enumerate(Ns):
        e, data, common, anc = an_ensemble(k, kind, n, "_%d" % p, has[p], dict(col2=k.real("col2_%d" % p, (n, w))), common)
        es.append(e), datas.append(data), ancs.append(anc)
    lst = list(es)
    r = m.concatenate(lst)
    tot = 0
    for n in Ns:
        tot = add(tot, n)
    od = r.objdata()
    k.ensure("an ensemble of the same kind", type(r) is type(es[0]) and r.gen_func == es[0].gen_func)
    k.ensure("columns", set(od) == set(datas[0]))
    for c in datas[0]:
        joined(k, c, od[c], [d[c] for d in datas], Ns)
    k.ensure("common data", set(r.metadata()) == set(common) | {"pdf_name", "pdf_version"})
    for c, v in common.items():
        same_array(k, c, npshim.squeeze(r.metadata()[c]), v)
    k.ensure("number of distributions", eq(rawi(r.npdf), tot))
    if all(has):
        k.ensure("ancillary columns", set(r.ancil) == set(ancs[0]))
        for c in ancs[0]:
            joined(k, "ancillary " + c, r.ancil[c], [a[c] for a in ancs], Ns)
    else:
        k.ensure("no ancillary table", r.ancil is None)
    k.ensure("the list is left alone", len(lst) == parts and all(a is b for a, b in zip(lst, es)))
    for p in range(parts):
        holds(k, "part %d" % p, es[p], Ns[p], datas[p], common, ancs[p], kind)


@contract("C08", "factory.Factory.concatenate", cases=["flag", "grid", "third"])
def fac_refused(k, how):
    """ensembles whose common data differ are refused"""
    N, n, w = k.dim("N", 1), k.dim("ngrid", 2), k.dim("w", 1)
    kind = Kind()
    grid = k.real("grid", (n,))
    commons = [dict(grid=grid, flag=True) for _ in range(3 if how == "third" else 2)]
    if how == "grid":
        g2 = k.real("grid2", (n,))
        j = ctx.int("j", 0)
        k.pre(And(lt(j, n), Not(npshim.isclose1(at(grid, j), at(g2, j)))))
        commons[1]["grid"] = g2
    else:
        commons[-1]["flag"] = False
    es = [an_ensemble(k, kind, N, "_%d" % p, False, dict(col2=k.real("col2_%d" % p, (N, w))), c)[0] for p, c in enumerate(commons)]
    refused(k, lambda: k.mod("factory").Factory.concatenate(es), ValueError)


@contract("C23 C24", "factory.Factory.create", cases=["default", "named", "unknown"])
def fac_create(k, how):
    """creating by kind name uses that kind's method of that name; unknown kinds are refused"""
    N = k.dim("N", 1)
    kind, wrong, named = Kind(), Kind(), Kind()
    fk = an_abstract(kind)
    fk.ctors["way"] = named.create
    f = a_factory(k, FactoryKind("another", wrong), fk)
    data = dict(columns(k, N, "", (2,)), more=k.real("more", (N, 1)))
    full = dict(data, grid=k.real("grid", (k.dim("ngrid", 2),)), flag=True)
    if how == "unknown":
        refused(k, lambda: f.create("unheard of", full), KeyError)
        k.ensure("nothing made", not (kind.made or wrong.made or named.made))
        return
    keys = set(full)
    e = f.create("abstract", full, "way") if how == "named" else f.create("abstract", full)
    used = named if how == "named" else kind
    k.ensure("that kind's method only", len(used.made) == 1 and not wrong.made and not (kind if used is named else named).made)
    holds(k, "created", e, N, data, dict(grid=full["grid"], flag=True), None, used)
    k.ensure("the dictionary is left alone", set(full) == keys)


@contract("C22 C23 C24", "factory.Factory.convert", cases=["default", "named", "unknown", "no extraction method"])
def fac_convert(k, how):
    """the named kind's extraction method is given the ensemble and the options, its creation method of the same name the result"""
    N, M = k.dim("N", 1), k.dim("M", 1)
    src, kind, wrong, named = Kind(), Kind(), Kind(), Kind()
    fk = an_abstract(kind)
    fk.ctors["way"] = named.create
    f = a_factory(k, FactoryKind("another", wrong), fk)
    e, data, common, anc = an_ensemble(k, src, N)
    new = dict(columns(k, M, "_new", (2,)), more=k.real("more_new", (M, 1)))
    fk.data = dict(new, grid=k.real("grid_new", (k.dim("ngrid_new", 2),)), flag=True)
    kw = dict(xvals=object(), size=object())
    given = dict(kw)
    if how in ("named", "no extraction method"):
        given["method"] = "way"
    if how == "unknown":
        refused(k, lambda: f.convert(e, "unheard of", **given), KeyError)
        return
    if how == "no extraction method":
        fk.extract = None
        refused(k, lambda: f.convert(e, "abstract", **given), KeyError)
        return
    r = f.convert(e, "abstract", **given)
    m = "way" if how == "named" else None
    used = named if how == "named" else kind
    k.ensure("methods of that name", ("create", m) in fk.asked and ("extract", m) in fk.asked and not any(a[0] in ("create", "extract") and a[1] != m for a in fk.asked))
    d = [a for a in fk.asked if a[0] == "data"]
    k.ensure("the ensemble and the options given", len(d) == 1 and d[0][1] is e and set(d[0][2]) == set(kw) and all(d[0][2][o] is kw[o] for o in kw))
    holds(k, "converted", r, M, new, dict(grid=fk.data["grid"], flag=True), None, used)
    holds(k, "the source", e, N, data, common, anc, src)


@contract("C23", "factory.Factory.add_class", cases=["new", "again", "no name"])
def fac_add(k, how):
    """a class is entered under its own name with tables of its own; a name is entered once"""
    kind, other = Kind(), Kind()
    fk = an_abstract(kind)
    f = a_factory(k, FactoryKind("another", other))
    if how == "no name":
        refused(k, lambda: f.add_class(type("Nameless", (), {})), AttributeError)
        k.ensure("nothing entered", set(f) == {"another"})
        return
    f.add_class(fk)
    k.ensure("entered under its name", set(f) == {"another", "abstract"} and f["abstract"] is fk)
    k.ensure("by attribute too", f.abstract == fk.create and f.abstract_gen is fk and f.another == other.create)
    k.ensure("its own tables, then its mappings", fk.asked.index(("tables",)) < fk.asked.index(("mappings",)))
    if how == "again":
        late = FactoryKind("abstract", Kind())
        refused(k, lambda: f.add_class(late), KeyError)
        k.ensure("the first stays", f["abstract"] is fk and f.abstract == fk.create)


@contract("C11 C24", "factory.Factory.iterator", cases=["one", "two", "three", "no ancil", "library: two", "library: no ancil"])
def fac_iterator(k, how):
    """for each of the ranges of rows which the file layer assigns to this reader: the range and an ensemble holding exactly those rows
    of the columns and of the ancillary table; pieces handed out earlier keep theirs"""
    parts = dict(one=1, three=3).get(how, 2)
    M = k.dim("M", 1)
    kind, wrong = Kind(), Kind()
    f = a_factory(k, FactoryKind("another", wrong), an_abstract(kind))
    t, data, common, anc = tables_of(k, M, kind, not how.endswith("no ancil"))
    st = store(k, how).install("ensemble", "factory")
    st.put("f.hdf5", t)
    ranges = []
    for p in range(parts):
        s, e = k.dim("start%d" % p, 0), k.dim("end%d" % p, 0)
        k.pre(And(lt(s, e), le(e, M)))
        ranges.append((wrap(s), wrap(e)))
    size, rank, par = k.ints("chunk", (), 1), k.ints("rank", (), 0), k.ints("parallel", (), 1)
    asked = []

    def by_rank(n, chunk, parallel, r):
        asked.append((n, chunk, parallel, r))
        return list(ranges)
    (st if isinstance(st, Store) else st.io).data_ranges_by_rank = by_rank     # see its own contract
    out = list(f.iterator("f.hdf5", size, rank, par))
    k.ensure("the ranges of this reader", len(asked) == 1 and And(eq(rawi(asked[0][0]), M), eq(rawi(asked[0][1]), at(size)), eq(rawi(asked[0][2]), at(par)), eq(rawi(asked[0][3]), at(rank))))
    k.ensure("a piece for every range", len(out) == parts and not wrong.made)
    for p, (s, e, ens) in enumerate(out):
        a, b = rawi(ranges[p][0]), rawi(ranges[p][1])
        k.ensure("range %d" % p, And(eq(rawi(s), a), eq(rawi(e), b)))
        holds(k, "piece %d" % p, ens, None, data, common, anc, kind, lambda j: add(a, j), sub(b, a))


@contract("C11", "factory.Factory.data_length", cases=["tables", "library"])
def fac_length(k, how):
    M = k.dim("M", 1)
    kind = Kind()
    f = a_factory(k, an_abstract(kind))
    t, data, common, anc = tables_of(k, M, kind, True)
    st = store(k, how).install("ensemble", "factory")
    st.put("f.hdf5", t)
    k.ensure("the number of rows of the data", eq(rawi(f.data_length("f.hdf5")), M))
