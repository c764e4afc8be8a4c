"""C07-C12, C24, C25: ensembles as collections, histories, tables and files, caller's data"""
import os, itertools, copy
import numpy as np
import scipy.stats as sps
import qp
from .core import test, check, close, same, fail, raises
from . import gen

ALLK = ["hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod", "norm", "beta", "spline", "sparse"]
NOPPF = ("spline", "sparse")


def vals(ens, x, q, ppf=True):
    out = [np.array(ens.pdf(x), float), np.array(ens.cdf(x), float)]
    if ppf:
        out.append(np.array(ens.ppf(q), float))
    return out


def xq(spec, rng, n=4):
    return spec.pts(rng, n), rng.uniform(0.05, 0.95, n)


def eqvals(ens, want_rows, x, q, what, kind, **kw):
    """ens has the values of the given rows, each a list [pdf row, cdf row(, ppf row)]"""
    n = len(want_rows)
    check(ens.npdf == n, "%s: number of distributions %s, expected %s" % (what, ens.npdf, n), **kw)
    tol = dict(rtol=1e-7, atol=1e-9)
    names = ["pdf", "cdf"] + (["ppf"] if len(want_rows[0]) > 2 else [])
    for j, name in enumerate(names):
        got = np.asarray(getattr(ens, name)(q if name == "ppf" else x))
        want = np.array([r[j] for r in want_rows])
        close(got.reshape(want.shape), want, "%s: %s" % (what, name), **tol, **kw)


def rowvals(ens, i, x, q, kind):
    v = vals(ens, x, q, kind not in NOPPF and kind != "mixmod")
    return [a[i] for a in v]


def snap(obj):
    if isinstance(obj, dict):
        return {k: snap(v) for k, v in obj.items()}
    if isinstance(obj, np.ndarray):
        return obj.copy()
    if isinstance(obj, (list, tuple)):
        return [snap(v) for v in obj]
    return obj


def snap_ens(ens):
    return dict(meta=snap(ens.metadata()), data=snap(ens.objdata()), ancil=snap(ens.ancil))


def same_obj(a, b, what):
    if isinstance(b, dict):
        check(isinstance(a, dict) and set(a) == set(b), what + ": keys changed", got=list(a), expected=list(b))
        for k in b:
            same_obj(a[k], b[k], "%s[%s]" % (what, k))
    elif isinstance(b, np.ndarray):
        same(a, b, what + " changed")
        check(np.asarray(a).dtype == b.dtype, what + ": type changed")
    elif isinstance(b, list):
        check(len(a) == len(b), what + ": length changed")
        for k, (u, v) in enumerate(zip(a, b)):
            same_obj(u, v, "%s[%i]" % (what, k))
    else:
        check((a is b) or (a == b), what + " changed", got=a, expected=b)


def ancil_rows(ens, idx, ancil, what):
    if ancil is None:
        check(ens.ancil is None, what + ": unexpected ancillary table", got=ens.ancil)
        return
    check(ens.ancil is not None and set(ens.ancil) == set(ancil), what + ": ancillary columns", got=ens.ancil)
    for k, v in ancil.items():
        same(np.asarray(ens.ancil[k]), v[idx], what + ": ancillary column " + k)


# --------------------------------------------------------------------------------------------------------------- C07
def selections(rng, n):
    out = [int(rng.integers(n)), -int(rng.integers(1, n + 1)), np.int64(rng.integers(n))]
    a, b = sorted(rng.integers(0, n + 1, 2))
    if a == b:
        a, b = 0, n
    out += [slice(int(a), int(b)), slice(None, None, 2), slice(None, None, -1), slice(-1, None)]
    m = rng.random(n) < 0.5
    m[rng.integers(n)] = True
    out += [m, list(map(int, rng.permutation(n))), rng.integers(0, n, int(rng.integers(1, 2 * n)))]
    return out


@test("C07", 30, 300)
def t_select(rng, case):
    spec = gen.cycle_spec(rng, case.k, ALLK + ["quant_raw"], npdf=[1, 2, 3, 5, 7][int(rng.integers(5))], ancil=0.7)
    ens = spec.build()
    x, q = xq(spec, rng)
    n = spec.npdf
    rows = [rowvals(ens, i, x, q, spec.kind) for i in range(n)]
    before = snap_ens(ens)
    for key in selections(rng, n):
        idx = np.atleast_1d(np.arange(n)[key])
        case.note(spec=spec, key=key)
        sub = ens[key]
        check(sub.gen_class.name == ens.gen_class.name, "kind changed by selection")
        eqvals(sub, [rows[i] for i in idx], x, q, "selection %r" % (key,), spec.kind)
        ancil_rows(sub, idx, spec.ancil, "selection %r" % (key,))
        # repeated selection
        key2 = int(rng.integers(len(idx)))
        sub2 = sub[key2]
        eqvals(sub2, [rows[idx[key2]]], x, q, "selection [%r][%r]" % (key, key2), spec.kind)
        ancil_rows(sub2, np.array([idx[key2]]), spec.ancil, "selection [%r][%r]" % (key, key2))
        if len(idx) > 1:
            sub3 = sub[1:]
            eqvals(sub3, [rows[i] for i in idx[1:]], x, q, "selection [%r][1:]" % (key,), spec.kind)
            ancil_rows(sub3, idx[1:], spec.ancil, "selection [%r][1:]" % (key,))
    same_obj(snap_ens(ens), before, "the original ensemble after selecting")
    eqvals(ens, rows, x, q, "the original ensemble after selecting", spec.kind)


# --------------------------------------------------------------------------------------------------------------- C08
def part_like(rng, spec, npdf):
    """another ensemble with the same common data"""
    fresh = gen.KINDS[spec.kind](rng, npdf=npdf)
    d = fresh.copy_data()
    if spec.kind in ("hist", "interp", "packed_interp"):
        key = "bins" if spec.kind == "hist" else "xvals"
        n = len(spec.data[key])
        d = dict(spec.copy_data())
        if spec.kind == "hist":
            d["pdfs"] = gen.heights(rng, (npdf, n - 1))
        elif spec.kind == "interp":
            d["yvals"] = gen.heights(rng, (npdf, n))
        else:
            yp = rng.integers(0, 256, (npdf, n)).astype(np.uint8)
            yp[:, 0] = 255
            d["ypacked"], d["ymax"] = yp, rng.uniform(0.1, 5, (npdf, 1))
    elif spec.kind == "quant":
        d = dict(spec.copy_data())
        k = d["locs"].shape[1]
        d["locs"] = np.vstack([rng.uniform(-2, 2) + np.cumsum(rng.uniform(0.1, 0.6, k)) for _ in range(npdf)])
    elif spec.kind == "mixmod":
        k = spec.data["means"].shape[1]
        d = dict(means=rng.uniform(-2, 2, (npdf, k)), stds=rng.uniform(0.2, 1, (npdf, k)), weights=rng.uniform(0.1, 2, (npdf, k)))
    elif spec.kind == "interp_irregular":
        k = spec.data["xvals"].shape[1]
        d = dict(xvals=np.vstack([gen.grid(rng, k) for _ in range(npdf)]), yvals=gen.heights(rng, (npdf, k)))
    elif spec.kind == "sparse":
        d = dict(spec.copy_data())
        d["sparse_indices"] = d["sparse_indices"][rng.integers(0, len(d["sparse_indices"]), npdf)]
    return gen.Spec(spec.kind, spec.gen_func, d, npdf, spec.lo, spec.hi, spec.edges, rowkeys=spec.rowkeys)


@test("C08", 27, 300)
def t_concat(rng, case):
    kinds = ["hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod", "norm", "beta", "sparse"]
    spec = gen.cycle_spec(rng, case.k, kinds, npdf=gen.n_pdf(rng, 1, 4), ancil=0.0)
    parts = [spec] + [part_like(rng, spec, gen.n_pdf(rng, 1, 4)) for _ in range(int(rng.integers(1, 4)))]
    mode = int(rng.integers(3))
    for k, p in enumerate(parts):
        p.ancil = gen.ancil_for(rng, p.npdf, 1.0) if mode == 1 or (mode == 2 and k == 0) else None
    x, q = xq(spec, rng)
    case.note(parts=parts)
    ens = [p.build() for p in parts]
    rows = [rowvals(e, i, x, q, spec.kind) for e in ens for i in range(e.npdf)]
    before = [snap_ens(e) for e in ens]
    cat = qp.concatenate(ens)
    check(cat.gen_class.name == spec.kind if spec.kind in qp.stats else True, "kind of the concatenation")
    eqvals(cat, rows, x, q, "concatenation", spec.kind)
    for e, b in zip(ens, before):
        same_obj(snap_ens(e), b, "a concatenated ensemble")
    want = None
    if mode == 1:
        want = {k: np.concatenate([p.ancil[k] for p in parts]) for k in parts[0].ancil}
    ancil_rows(cat, slice(None), want, "concatenation")
    # common data stays
    for k, v in ens[0].metadata().items():
        same(np.asarray(cat.metadata()[k]), np.asarray(v), "common data %s after concatenation" % k)
    # append in place
    first = parts[0].build()
    first.pdf(x)                # evaluated before: nothing may be remembered
    first.gridded(np.sort(x))
    for e in ens[1:]:
        first.append(e)
    eqvals(first, rows, x, q, "append", spec.kind)
    close(first.gridded(np.sort(x))[1], np.array([r[0][np.argsort(x)] for r in rows]), "gridded after append", rtol=1e-7, atol=1e-9)
    ancil_rows(first, slice(None), want, "append")
    for e, b in zip(ens[1:], before[1:]):
        same_obj(snap_ens(e), b, "an appended ensemble")
    # concatenating a selection of the concatenation
    if cat.npdf > 2:
        back = qp.concatenate([cat[1:], cat[0]])
        eqvals(back, rows[1:] + rows[:1], x, q, "concatenation of selections", spec.kind)
        if want is not None:
            ancil_rows(back, np.r_[1:cat.npdf, 0], want, "concatenation of selections")


@test("C08", 15, 100)
def t_refuse(rng, case):
    kind = ["hist", "interp", "packed_interp", "quant", "mixed"][case.k % 5]
    if kind == "mixed":
        a = gen.any_spec(rng, ["hist", "interp", "quant"], npdf=2, ancil=0).build()
        b = gen.any_spec(rng, ["mixmod", "norm", "interp_irregular"], npdf=2, ancil=0).build()
    else:
        s = gen.KINDS[kind](rng, npdf=2)
        t = part_like(rng, s, 2)
        a = s.build()
        key = dict(hist="bins", interp="xvals", packed_interp="xvals", quant="quants")[kind]
        d = t.copy_data()
        v = np.array(d[key], dtype=float)       # a grid of integers would swallow the difference
        j = int(rng.integers(len(v)))
        if kind == "quant" and v[j] in (0.0, 1.0):
            j = 3
        room = 0.3 * (v[j + 1] - v[j] if j + 1 < len(v) else v[j] - v[j - 1])
        if rng.random() < 0.4:          # a small difference (differences below 1e-5 do not count as such)
            v[j] += min(gen.tiny(rng, 1e-4) * max(1.0, abs(v[j])), room)
        else:
            v[j] += room if kind == "quant" else 0.03
        d[key] = v
        b = qp.Ensemble(t.gen_func, data=d)
    case.note(kind=kind, a=a.metadata(), b=b.metadata())
    raises(lambda: qp.concatenate([a, b]), "ensembles with different common data")
    raises(lambda: a.append(b), "appending an ensemble with different common data")
    check(a.npdf == 2, "a refused append changed the ensemble")


# --------------------------------------------------------------------------------------------------------------- C09
@test("C09", 30, 300)
def t_history(rng, case):
    spec = gen.cycle_spec(rng, case.k, ["hist", "interp", "quant", "mixmod", "norm", "interp_irregular", "packed_interp"], ancil=0.2)
    ens = spec.build()
    state = spec
    grids = [np.sort(spec.pts(rng, int(rng.integers(3, 8)))) for _ in range(3)]
    g = grids[0].copy()
    lastgrid = None
    log = []
    case.note(spec=spec, log=log)

    def truth(fn, *a):
        return np.asarray(getattr(state.build(), fn)(*a))
    for step in range(12):
        op = rng.choice(["gridded", "gridded-mut", "mode", "pdf", "cdf", "ppf", "mean", "update", "append", "moment_partial", "slice", "caller", "concat"])
        log.append(str(op))
        if op == "gridded":
            k = int(rng.integers(3))
            gg, v = ens.gridded(grids[k].copy())
            same(gg, grids[k], "grid returned by gridded")
            close(v, truth("pdf", grids[k]), "gridded values", rtol=1e-9, atol=1e-12, step=step)
        elif op == "gridded-mut":        # the caller's own array, changed in place between calls
            ens.gridded(g)
            g += 0.1 * (1 + int(rng.integers(3))) if rng.random() < 0.6 else gen.tiny(rng, 1e-7)
            gg, v = ens.gridded(g)
            same(gg, g, "grid returned by gridded after the caller changed it")
            close(v, truth("pdf", g.copy()), "gridded values after the caller's grid was changed in place", rtol=1e-9, atol=1e-12)
        elif op == "mode":
            gr = grids[int(rng.integers(3))].copy()
            m = np.asarray(ens.mode(gr))
            check(m.shape == (ens.npdf, 1), "shape of the modes", shape=m.shape)
            v = truth("pdf", gr)
            for i in range(ens.npdf):
                j = np.flatnonzero(gr == m[i, 0])
                check(j.size > 0, "the mode is not a point of the grid", mode=m[i, 0], grid=gr)
                check(v[i, j].max() >= v[i].max() - 1e-9 * abs(v[i].max()) - 1e-12, "the mode is not where the density is largest", row=i, mode=m[i, 0], pdf=v[i], grid=gr)
        elif op in ("pdf", "cdf"):
            x = state.pts(rng, 4)
            close(getattr(ens, op)(x), truth(op, x), op, rtol=1e-9, atol=1e-12)
        elif op == "ppf":
            qq = rng.uniform(0.05, 0.95, 3)
            close(ens.ppf(qq), truth("ppf", qq), "ppf", rtol=1e-9, atol=1e-12)
        elif op == "mean" and spec.kind in ("hist", "interp", "packed_interp", "norm"):
            close(ens.mean(), truth("mean"), "mean", rtol=1e-7, atol=1e-9)
        elif op == "update":
            state = part_like(rng, spec, gen.n_pdf(rng, 1, 4))
            if int(rng.integers(2)):
                ens.update(state.copy_data())
            else:
                ens.update_objdata({k: np.array(v) for k, v in state.build().objdata().items()})
            check(ens.npdf == state.npdf, "number of distributions after replacing the data")
        elif op == "append":
            other = part_like(rng, spec, 1)
            ens.append(other.build())
            d = state.copy_data()
            for k in spec.rowkeys:
                d[k] = np.concatenate([ens.objdata()[k]]) if False else np.concatenate([state.data[k], other.data[k]])
            state = gen.Spec(spec.kind, spec.gen_func, d, state.npdf + 1, spec.lo, spec.hi, spec.edges, rowkeys=spec.rowkeys)
        elif op == "moment_partial":
            a, b = np.sort(rng.uniform(spec.lo, spec.hi, 2))
            b = a + max(b - a, 0.5)
            n = int((b - a) / 0.05)
            gr = np.linspace(a, b, n)
            close(ens.moment_partial(1, (a, b), dx=0.05), np.sum(truth("pdf", gr) * gr, axis=1) * 0.05, "partial moment", rtol=1e-9, atol=1e-12)
        elif op == "slice":
            ens[0].gridded(grids[0])
            ens[0:1].pdf(grids[1])
        elif op == "concat":
            qp.concatenate([ens, ens]).gridded(grids[0])
    x = state.pts(rng, 4)
    close(ens.pdf(x), truth("pdf", x), "pdf at the end of the history", rtol=1e-9, atol=1e-12)


@test("C09", 6, 50)
def t_constructor_change(rng, case):
    spec = gen.quant(rng, npdf=gen.n_pdf(rng, 1, 3), full=3)
    ens = spec.build()
    g = np.linspace(spec.lo, spec.hi, 9)
    case.note(spec=spec)
    ens.gridded(g)
    for name in rng.permutation(gen.QUANT_CTORS):
        ens.dist.pdf_constructor_name = str(name)
        d = spec.copy_data()
        d["pdf_constructor_name"] = str(name)
        want = qp.Ensemble(qp.quant, data=d).pdf(g)
        close(ens.pdf(g), want, "density after choosing another pdf constructor")
        close(ens.gridded(g)[1], want, "gridded density after choosing another pdf constructor")


# --------------------------------------------------------------------------------------------------------------- C10
def same_tables(a, b, what):
    ma, mb = a.metadata(), b.metadata()
    check(set(ma) == set(mb), what + ": common data", got=list(ma), expected=list(mb))
    for k in mb:
        va, vb = np.asarray(ma[k]), np.asarray(mb[k])
        if vb.dtype.kind in "US":
            check([str(np.char.decode(u) if u.dtype.kind == "S" else u) for u in np.ravel(va)] ==
                  [str(np.char.decode(u) if u.dtype.kind == "S" else u) for u in np.ravel(vb)], what + ": common data " + k, got=va, expected=vb)
        else:
            close(np.squeeze(va), np.squeeze(vb), what + ": common data " + k, rtol=0, atol=0)
    da, db = a.objdata(), b.objdata()
    check(set(da) == set(db), what + ": data columns")
    for k in db:
        va, vb = np.asarray(da[k]), np.asarray(db[k])
        check(va.shape[0] == vb.shape[0], what + ": rows of " + k)
        close(va.reshape(vb.shape), vb, what + ": data " + k, rtol=1e-12, atol=1e-300)


@test("C10", 40, 200)
def t_file_roundtrip(rng, case):
    spec = gen.cycle_spec(rng, case.k, ALLK, npdf=[1, 2, 4][int(rng.integers(3))], ancil=0.6)
    ext = ["hdf5", "fits", "pq", "hdf5"][(case.k // len(ALLK)) % 4]
    if ext != "hdf5" and spec.ancil is not None:
        spec.ancil.pop("flux")
    ens = spec.build()
    case.note(spec=spec, ext=ext)
    x, q = xq(spec, rng)
    rows = [rowvals(ens, i, x, q, spec.kind) for i in range(ens.npdf)]
    before = snap_ens(ens)
    fn = "rt_%i.%s" % (os.getpid(), ext)
    qp.metrics  # noqa
    for f in os.listdir("."):
        if f.startswith("rt_%i" % os.getpid()):
            os.remove(f)
    for how in ("tables", "file"):
        if how == "tables":
            back = qp.from_tables(ens.build_tables())
        else:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                ens.write_to(fn)
                back = qp.read(fn)
        check(back.gen_class.name == ens.gen_class.name, "kind after reading back", got=back.gen_class.name)
        eqvals(back, rows, x, q, "read back (%s)" % how, spec.kind)
        same_tables(back, ens, "read back (%s)" % how)
        anc = spec.ancil
        if anc is not None:
            check(back.ancil is not None and set(back.ancil) == set(anc), "ancillary columns after reading back", got=back.ancil)
            for k, v in anc.items():
                close(np.asarray(back.ancil[k]).reshape(v.shape), v, "ancillary column after reading back", rtol=0, atol=0)
        else:
            check(not back.ancil, "ancillary table after reading back", got=back.ancil)
    for f in os.listdir("."):
        if f.startswith("rt_%i" % os.getpid()):
            os.remove(f)
    same_obj(snap_ens(ens), before, "the ensemble after writing")


@test("C10", 12, 60)
def t_dict_roundtrip(rng, case):
    names = ["a", "b_2", "Third"][:int(rng.integers(1, 4))]
    specs = {n: gen.any_spec(rng, ALLK[:8], ancil=0.5) for n in names}
    case.note(specs=specs)
    d = {n: s.build() for n, s in specs.items()}
    fn = "dict_%i.hdf5" % os.getpid()
    if os.path.exists(fn):
        os.remove(fn)
    from qp.factory import write_dict, read_dict
    write_dict(fn, d)
    back = read_dict(fn)
    os.remove(fn)
    check(sorted(back) == sorted(names), "names after reading a dictionary back", got=list(back))
    for n in names:
        x, q = xq(specs[n], rng)
        check(back[n].gen_class.name == d[n].gen_class.name, "kind of " + n)
        eqvals(back[n], [rowvals(d[n], i, x, q, specs[n].kind) for i in range(d[n].npdf)], x, q, "dictionary entry " + n, specs[n].kind)
        same_tables(back[n], d[n], "dictionary entry " + n)
        if specs[n].ancil is not None:
            ancil_rows(back[n], slice(None), specs[n].ancil, "dictionary entry " + n)


# --------------------------------------------------------------------------------------------------------------- C11
@test("C11", 20, 150)
def t_iterator(rng, case):
    spec = gen.cycle_spec(rng, case.k, ["hist", "interp", "quant", "mixmod", "norm", "interp_irregular", "packed_interp"],
                          npdf=int(rng.integers(1, 12)), ancil=0.6)
    ens = spec.build()
    x, q = xq(spec, rng)
    rows = [rowvals(ens, i, x, q, spec.kind) for i in range(ens.npdf)]
    fn = "it_%i.hdf5" % os.getpid()
    if os.path.exists(fn):
        os.remove(fn)
    ens.write_to(fn)
    n = ens.npdf
    check(qp.data_length(fn) == n, "number of rows of the file", got=qp.data_length(fn))
    for par in (1, int(rng.integers(2, 4))):
        chunk = int(rng.integers(1, n + 3))
        case.note(spec=spec, chunk=chunk, parallel=par)
        covered, kept = [], []
        for rank in range(par):
            prev = None
            for (s, e, c) in qp.iterator(fn, chunk_size=chunk, rank=rank, parallel_size=par):
                check(0 <= s < e <= n and e - s <= chunk, "row range of a chunk", start=s, end=e)
                check(c.npdf == e - s, "number of distributions of a chunk", start=s, end=e, npdf=c.npdf)
                if prev is not None and par == 1:
                    check(s == prev, "consecutive chunks", start=s, expected=prev)
                prev = e
                covered += list(range(s, e))
                kept.append((s, e, c))
                eqvals(c, rows[s:e], x, q, "chunk %i-%i" % (s, e), spec.kind)
        check(sorted(covered) == list(range(n)), "the chunks do not cover every row exactly once", rows=covered)
        if par == 1:
            check(covered == list(range(n)), "the chunks are not in order")
        # earlier chunks keep their contents
        for (s, e, c) in kept:
            eqvals(c, rows[s:e], x, q, "chunk %i-%i kept while reading on" % (s, e), spec.kind)
            ancil_rows(c, slice(s, e), spec.ancil, "chunk %i-%i" % (s, e))
            for k, v in c.objdata().items():
                same(np.asarray(v), np.asarray(ens.objdata()[k])[s:e], "data of chunk") if spec.kind in ("quant", "norm", "packed_interp") else \
                    close(v, np.asarray(ens.objdata()[k])[s:e], "data of chunk", rtol=1e-12)
    os.remove(fn)


# --------------------------------------------------------------------------------------------------------------- C12
@test("C12", 20, 150)
def t_chunked_write(rng, case):
    spec = gen.cycle_spec(rng, case.k, ["hist", "interp", "quant", "mixmod", "norm", "interp_irregular", "packed_interp"],
                          npdf=int(rng.integers(1, 9)), ancil=0.6)
    ens = spec.build()
    n = ens.npdf
    x, q = xq(spec, rng)
    rows = [rowvals(ens, i, x, q, spec.kind) for i in range(n)]
    cuts = np.unique(np.concatenate([[0, n], rng.integers(0, n + 1, int(rng.integers(0, 4)))]))
    pieces = list(zip(cuts[:-1], cuts[1:]))
    order = rng.permutation(len(pieces))
    case.note(spec=spec, pieces=pieces, order=order)
    fn = "cw_%i.hdf5" % os.getpid()
    if os.path.exists(fn):
        os.remove(fn)
    starter = ens if int(rng.integers(2)) else ens[int(pieces[0][0]):int(pieces[0][1])]
    group, fout = starter.initializeHdf5Write(fn, n)
    for name, grp in fout.items():
        tab = dict(data=ens.objdata(), ancil=spec.ancil)[name]
        for k, ds in grp.items():
            check(tuple(ds.shape) == (n,) + np.shape(tab[k])[1:] and ds.dtype == np.asarray(tab[k]).dtype, "allocated space", column=k, shape=ds.shape, dtype=ds.dtype)
    for j in order:
        s, e = map(int, pieces[j])
        ens[s:e].writeHdf5Chunk(group, s, e)
    ens.finalizeHdf5Write(fout)
    back = qp.read(fn)
    os.remove(fn)
    check(back.gen_class.name == ens.gen_class.name, "kind")
    eqvals(back, rows, x, q, "file written piece by piece", spec.kind)
    same_tables(back, ens, "file written piece by piece")
    if spec.ancil is not None:
        ancil_rows(back, slice(None), spec.ancil, "file written piece by piece")


# --------------------------------------------------------------------------------------------------------------- C24
@test("C24", 30, 300)
def t_arguments(rng, case):
    from qp.packing_utils import PackingType, pack_array, unpack_array
    spec = gen.cycle_spec(rng, case.k, ALLK, npdf=gen.n_pdf(rng, 1, 4), ancil=0.7)
    data, anc = spec.copy_data(), None if spec.ancil is None else {k: v.copy() for k, v in spec.ancil.items()}
    d0, a0 = snap(data), snap(anc)
    case.note(spec=spec)
    ens = qp.Ensemble(spec.gen_func, data=data, ancil=anc)

    def ok(what):
        same_obj(data, d0, "constructor data after " + what)
        if a0 is not None:
            same_obj(anc, a0, "ancillary data after " + what)
    ok("construction")
    stored = snap_ens(ens)

    def unchanged(what):
        same_obj(snap_ens(ens), stored, "stored data after " + what)
        ok(what)
    x, q = spec.pts(rng, 5), rng.uniform(0.05, 0.95, 5)
    x2 = spec.pts(rng, spec.npdf * 3).reshape(spec.npdf, 3)
    for fn in ("pdf", "cdf", "sf", "logpdf", "logcdf"):
        for xx in (x, x2, x[0]):
            x0 = snap(xx)
            with np.errstate(all="ignore"):
                getattr(ens, fn)(xx)
            same_obj(xx, x0, "points after " + fn)
            unchanged(fn)
    if spec.kind not in NOPPF:
        for qq in (q, np.tile(q, (spec.npdf, 1))):
            q0 = snap(qq)
            ens.ppf(qq)
            same_obj(qq, q0, "probabilities after ppf")
        ens.rvs(size=3, random_state=1)
        unchanged("ppf, rvs")
    b = np.sort(x)
    b0 = b.copy()
    ens.histogramize(b)
    ens.gridded(b)
    ens.mode(b)
    ens.integrate((b[0], b[-1]))
    ens.moment_partial(1, (b[0], b[-1]))
    same_obj(b, b0, "edges / grid")
    unchanged("histogramize, gridded, mode, integrate, moment_partial")
    ens.mean() if spec.kind in ("hist", "interp", "norm") else None
    unchanged("mean")
    ens[0].pdf(x)
    ens[:].pdf(x)
    unchanged("selection")
    qp.concatenate([ens, ens]).pdf(x)
    unchanged("concatenation")
    t = ens.build_tables()
    t0 = snap(t)
    qp.from_tables(t)
    same_obj(t, t0, "tables after reading them")
    unchanged("tables")
    kw = dict(xvals=np.linspace(spec.lo, spec.hi, 12))
    kw0 = snap(kw)
    if spec.kind not in NOPPF:
        for (name, kk) in [("interp", dict(xvals=kw["xvals"])), ("hist", dict(bins=kw["xvals"])), ("quant", dict(quants=np.linspace(0.05, 0.95, 9))),
                           ("interp_irregular", dict(xvals=kw["xvals"])), ("packed_interp", dict(xvals=kw["xvals"], packing_type=PackingType.linear_from_rowmax)),
                           ("hist", dict(bins=kw["xvals"], method="samples", size=10))]:
            k0 = snap(kk)
            try:
                with np.errstate(all="ignore"):
                    qp.convert(ens, name, **kk)
                    ens.convert_to(qp.stats[name], **kk)
            except ValueError:
                pass
            same_obj(kk, k0, "conversion arguments")
            unchanged("conversion to " + name)
    g = rng.uniform(0, 1, (3, 5))
    g0 = g.copy()
    for pt in PackingType:
        p, m = pack_array(pt, g)
        p0, m0 = p.copy(), m.copy()
        unpack_array(pt, p, row_max=m)
        same_obj(p, p0, "packed array")
        same_obj(m, m0, "row maxima")
    same_obj(g, g0, "array to pack")
    new = {"extra": np.arange(ens.npdf)}
    n0 = snap(new)
    other = spec.build()
    other.add_to_ancil(new)
    same_obj(new, n0, "columns to add")
    check(list(new) == ["extra"], "columns to add")
    other2 = spec.build()
    if spec.kind not in ("spline",):
        other2.append(ens)
    unchanged("being appended")


@test("C24", 12, 100)
def t_metric_arguments(rng, case):
    import contextlib, io, logging
    logging.disable(logging.CRITICAL)
    p = gen.any_spec(rng, ["norm", "hist", "interp"], npdf=3, ancil=0.5).build()
    r = gen.norm(rng, npdf=3).build()
    truth = rng.uniform(0.2, 2.8, 3)
    s0, r0, t0 = snap_ens(p), snap_ens(r), truth.copy()
    case.note(truth=truth)
    M = qp.metrics
    with contextlib.redirect_stdout(io.StringIO()):
        M.calculate_moment(p, 1, (0., 3.))
        M.calculate_kld(p, r, (0., 3.))
        M.calculate_rmse(p, r, (0., 3.))
        M.calculate_brier(p, truth, (0., 3.))
        M.calculate_outlier_rate(p)
        for m in ("ks", "cvm", "ad"):
            with np.errstate(all="ignore"):
                M.calculate_goodness_of_fit(p, r, m, 5, 1)
        from qp.metrics.pit import PIT
        tp = p.ppf(np.array([0.25, 0.5, 0.75])[:, None] + rng.uniform(-0.05, 0.05, (3, 1)))[:, 0]
        tp0 = tp.copy()
        PIT(p, tp)
        for name in ("brier", "cdeloss", "pit"):
            mt = M.create_metric(name)
            tt = tp if name == "pit" else truth
            mt.evaluate(p, tt)
            acc = mt.accumulate(p, tt)
            mt.finalize([acc, acc]) if name != "pit" else mt.finalize(np.array([acc]))
        same_obj(tp, tp0, "true values after PIT")
        est = rng.uniform(0, 2, 3)
        e0 = est.copy()
        for name in ("point_stats_ez", "point_stats_iqr", "point_bias", "point_outlier_rate", "point_stats_sigma_mad"):
            M.create_metric(name).evaluate(est, truth)
    same_obj(snap_ens(p), s0, "estimate after scoring")
    same_obj(snap_ens(r), r0, "reference after scoring")
    same_obj(truth, t0, "truth after scoring")
    same_obj(est, e0, "point estimates after scoring")
    from qp.metrics import array_metrics as am
    a, b = rng.uniform(0, 1, (2, 3, 6))
    a0, b0 = a.copy(), b.copy()
    am.quick_kld(a, b)
    am.quick_rmse(a, b, 6)
    am.quick_moment(a, b[0], 0.1)
    from qp.metrics.brier import Brier
    Brier(a, b).evaluate()
    same_obj(a, a0, "metric kernel input")
    same_obj(b, b0, "metric kernel input")
    logging.disable(logging.NOTSET)


@test("C24", 20, 200)
def t_sequences(rng, case):
    """python lists and integer arrays are accepted and left alone"""
    b = np.arange(5)
    p = rng.integers(1, 5, (2, 4))
    p0 = p.copy()
    case.note(pdfs=p)
    ens = qp.Ensemble(qp.hist, data=dict(bins=b, pdfs=p))
    same(p, p0, "integer heights")
    close(ens.dist.pdfs, p0 / p0.sum(axis=1)[:, None], "normalised integer heights")
    y = rng.integers(1, 5, (2, 5))
    y0 = y.copy()
    e2 = qp.Ensemble(qp.interp, data=dict(xvals=b, yvals=y))
    same(y, y0, "integer y-values")
    close(e2.dist.yvals, y0 / np.trapz(y0, b, axis=1)[:, None], "normalised integer y-values")


# --------------------------------------------------------------------------------------------------------------- C25
def scipy_names():
    out = []
    from scipy.stats._distr_params import distcont
    for n, a in distcont:
        if isinstance(n, str) and n not in ("levy_stable", "studentized_range", "dpareto_lognorm", "vonmises", "kstwo", "ksone"):
            out.append((n, a))
    return out


@test("C25", 1, 1)
def t_all_supports(rng, case):
    n = 0
    for name in sps.__all__:
        a = getattr(sps, name)
        if not isinstance(a, sps.rv_continuous):
            continue
        check(name in qp.stats, "scipy distribution %s is missing" % name)
        cls = qp.stats[name]
        o = cls(name="dist")
        check((o.a, o.b) == (a.a, a.b), "support of %s" % name, got=(o.a, o.b), expected=(a.a, a.b))
        check(o.shapes == a.shapes, "parameters of " + name)
        check(o.moment_type == a.moment_type, "moment type of " + name)
        for m in ("_pdf", "_cdf", "_ppf", "_sf", "_isf", "_logpdf", "_stats", "_munp", "_get_support", "pdf", "cdf", "ppf", "sf"):
            f, g = getattr(cls, m, None), getattr(type(a), m, None)
            check(getattr(f, "__func__", f) is getattr(g, "__func__", g), "%s.%s is not scipy's" % (name, m))
        n += 1
    case.note(distributions=n)


@test("C25", 30, 220)
def t_scipy_values(rng, case):
    names = scipy_names()
    for k in range(4):
        name, args = names[int(rng.integers(len(names)))]
        a = getattr(sps, name)
        npdf = gen.n_pdf(rng, 1, 4)
        loc, sc = rng.uniform(-1, 1, (npdf, 1)), rng.uniform(0.5, 2, (npdf, 1))
        how = int(rng.integers(7))
        if how == 1:                             # values a parameter has when it is not given
            loc = np.zeros((npdf, 1))
        elif how == 2:
            sc = np.ones((npdf, 1))
        elif how == 3:
            loc[0] = 0.0
        elif how == 4:                           # the same for all of them
            loc[:], sc[:] = loc[0], sc[0]
        sh = [] if a.shapes is None else [t.strip() for t in a.shapes.split(",")]
        d = dict(loc=loc, scale=sc)
        d.update({s: np.full((npdf, 1), float(v)) for s, v in zip(sh, args)})
        if how == 5:                             # not all of them given
            del d["loc"]
            loc = 0.0
        elif how == 6:
            del d["scale"]
            sc = 1.0
        if how == 6 and rng.random() < 0.5:
            loc = d["loc"] = np.zeros((npdf, 1))
        case.note(name=name, data=d)
        ens = qp.Ensemble(getattr(qp.stats, name), data=d)
        check(ens.npdf == npdf, "number of distributions")
        same_obj({k2: v for k2, v in ens.objdata().items()}, d, "per-distribution data")
        q = rng.uniform(0.05, 0.95, 3)
        inside = np.ravel(a.ppf(q, *args, loc=loc, scale=sc))[:6]
        lo, hi = a.support(*args)
        x = np.concatenate([inside, [min(-40.0, lo * 3 if np.isfinite(lo) else -40), max(40.0, hi * 3 if np.isfinite(hi) else 40)]])
        with np.errstate(all="ignore"):
            for fn, v in (("pdf", x), ("cdf", x), ("sf", x), ("ppf", q)):
                close(getattr(ens, fn)(v), getattr(a, fn)(v, *args, loc=loc, scale=sc), "%s.%s" % (name, fn), rtol=1e-9, atol=1e-12, x=v)
