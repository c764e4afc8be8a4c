"""C01-C06, C16: evaluation of distributions"""
import numpy as np
import scipy.stats as sps
import qp
from .core import test, check, close, same, fail, raises
from . import gen

ALLK = ["hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod", "norm", "beta", "hist", "interp", "quant",
        "packed_interp", "mixmod", "interp_irregular", "spline", "sparse"]
RAW = ["quant_raw", "irregular_raw"]


def eval_alone(spec, ens, fname, i, v):
    if spec.kind == "mixmod" and fname == "ppf":     # tabulated on the grid of the whole ensemble
        return float(np.ravel(ens.dist.ppf(np.array([v]), np.array([[i]])))[0])
    return float(np.ravel(getattr(spec.row(i), fname)(v))[0])


def shapes(rng, pts, npdf):
    """legal ways of giving points: returns (x argument, per-row list of expected points)"""
    m = int(rng.integers(2, 6))
    out = []
    v = pts(1)[0]
    out.append(("scalar", float(v), [[v]] * npdf))
    x = pts(m)
    rng.shuffle(x)
    out.append(("shared", x, [list(x)] * npdf))
    out.append(("sorted-descending", np.sort(x)[::-1].copy(), [list(np.sort(x)[::-1])] * npdf))
    xd = np.concatenate([x, x[:1], x[-1:]])
    out.append(("repeats", xd, [list(xd)] * npdf))
    out.append(("python list", list(x), [list(x)] * npdf))
    out.append(("row vector", x[None, :], [list(x)] * npdf))
    c = pts(npdf)
    out.append(("column", c[:, None], [[a] for a in c]))
    x2 = pts(npdf * m).reshape(npdf, m)
    out.append(("per distribution", x2, [list(r) for r in x2]))
    base = pts(m)
    perm = np.vstack([rng.permutation(base) for _ in range(npdf)])
    out.append(("per distribution, permutations of one list", perm, [list(r) for r in perm]))
    near = base * (1 + (4e-6 if rng.random() < 0.5 else gen.tiny(rng, 1e-7)) * rng.uniform(-1, 1, (npdf, m)))
    out.append(("per distribution, nearly one list", near, [list(r) for r in near]))
    few = pts(2)
    x3 = few[rng.integers(0, 2, (npdf, m))]
    out.append(("per distribution, repeats", x3, [list(r) for r in x3]))
    const = np.repeat(c[:, None], m, axis=1)
    out.append(("per distribution, constant rows", const, [list(r) for r in const]))
    return out


@test("C01", 36, 480)
def t_broadcast(rng, case):
    kind = (ALLK + RAW)[case.k % (len(ALLK) + len(RAW))]
    npdf = [1, 2, 3, 5][int(rng.integers(4))]
    spec = gen.KINDS[kind](rng, npdf=npdf)
    ens = spec.build()
    # at construction-independent reference: evaluate each distribution alone, one point at a time
    fnames = ["pdf", "cdf", "ppf"] if kind not in ("spline", "sparse") else ["pdf", "cdf"]
    case.note(spec=spec)
    rows = [spec.row(i) for i in range(npdf)]
    for fname in fnames:
        if fname == "ppf":
            mk = lambda n: rng.uniform(0.02, 0.98, n)
        else:
            mk = lambda n: spec.pts(rng, n)
        for (what, x, exp) in shapes(rng, mk, npdf):
            case.note(function=fname, shape=what, x=x)
            got = np.asarray(getattr(ens, fname)(x))
            want = np.array([[(eval_alone(spec, ens, fname, i, v) if spec.kind == "mixmod" else
                               float(np.ravel(getattr(rows[i], fname)(v))[0])) for v in exp[i]] for i in range(npdf)])
            close(got, want, "%s.%s with %s points differs from evaluating each distribution alone" % (kind, fname, what),
                  rtol=1e-7, atol=1e-9, x=x)


@test("C01", 20, 200)
def t_partly_in_domain(rng, case):
    """points with no value (nan, infinities) leave the values of the others alone"""
    kind = ["mixmod", "hist", "interp", "interp_irregular", "packed_interp", "quant", "norm", "beta", "spline", "sparse"][case.k % 10]
    npdf = 1 if (case.k // 10) % 2 == 0 else int(rng.integers(2, 5))
    spec = gen.KINDS[kind](rng, npdf=npdf)
    ens = spec.build()
    case.note(spec=spec)
    for fname in ["pdf", "cdf", "ppf"]:
        if fname == "ppf" and kind in ("spline", "sparse"):
            continue
        m = int(rng.integers(1, 4))
        v = rng.uniform(0.05, 0.95, m) if fname == "ppf" else spec.pts(rng, m)
        want = np.asarray(getattr(ens, fname)(v))
        for bad in (np.nan, np.inf, -np.inf):
            pos = int(rng.integers(m + 1))
            x = np.insert(v, pos, bad)
            with np.errstate(all="ignore"):
                got = np.delete(np.asarray(getattr(ens, fname)(x)), pos, axis=-1)
            close(got, want, "%s.%s: the values change when the request also holds %s" % (kind, fname, bad), rtol=1e-9, atol=1e-12, x=x)


@test("C01", 16, 120)
def t_subset_rows(rng, case):
    """the frozen object's generator evaluated for chosen rows, in any order"""
    kind = ["hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod", "quant_raw", "irregular_raw"][case.k % 8]
    spec = gen.KINDS[kind](rng, npdf=int(rng.integers(3, 6)))
    ens = spec.build()
    rows = rng.integers(0, spec.npdf, int(rng.integers(2, 5)))
    if case.k % 2:
        rows = rng.permutation(spec.npdf)[:int(rng.integers(2, 4))]
    m = int(rng.integers(2, 5))
    case.note(spec=spec, rows=rows)
    for fname in ["pdf", "cdf", "ppf"]:
        x = rng.uniform(0.05, 0.95, m) if fname == "ppf" else spec.pts(rng, m)
        got = getattr(ens.dist, fname)(x, rows[:, None])
        want = np.array([[eval_alone(spec, ens, fname, int(i), float(v)) for v in x] for i in rows])
        close(got, want, "%s.%s for rows %s differs from evaluating each alone" % (kind, fname, rows), rtol=1e-7, atol=1e-9, x=x)


@test("C01", 12, 60)
def t_rvs(rng, case):
    """samples of distribution i come from distribution i: supports are disjoint"""
    kind = ["hist", "interp_irregular", "quant", "mixmod", "norm", "interp"][case.k % 6]
    npdf = int(rng.integers(2, 5))
    if kind in ("hist", "interp"):
        order = rng.permutation(npdf)
        nb = 4 * npdf
        b = gen.grid(rng, nb + 1)
        p = np.zeros((npdf, nb + (kind == "interp")))
        lo, hi = np.zeros(npdf), np.zeros(npdf)
        for i in range(npdf):
            j = 4 * order[i]
            p[i, j + 1:j + 3] = rng.uniform(0.5, 2, 2)
            lo[i], hi[i] = (b[j + 1], b[j + 3]) if kind == "hist" else (b[j], b[j + 3])
        ens = qp.Ensemble(qp.hist, data=dict(bins=b, pdfs=p)) if kind == "hist" else qp.Ensemble(qp.interp, data=dict(xvals=b, yvals=p))
    else:
        off = 100.0 * rng.permutation(npdf)[:, None]
        s = gen.KINDS[kind](rng, npdf=npdf)
        for key in {"interp_irregular": ["xvals"], "quant": ["locs"], "mixmod": ["means"], "norm": ["loc"]}[kind]:
            s.data[key] = s.data[key] + off
        ens = s.build()
        lo, hi = off[:, 0] - 40, off[:, 0] + 40
    case.note(kind=kind, lo=lo, hi=hi)
    for m in (1, int(rng.integers(2, 30)), npdf):
        r = ens.rvs(size=m, random_state=int(rng.integers(1000)))
        check(np.shape(r) == (npdf, m), "rvs returned the wrong shape", shape=np.shape(r))
        check((r >= lo[:, None] - 1e-6) & (r <= hi[:, None] + 1e-6), "a sample lies outside the support of its own distribution", samples=r)


@test("C01", 5, 30)
def t_rvs_distribution(rng, case):
    kind = ["hist", "interp_irregular", "quant", "mixmod", "norm"][case.k % 5]
    spec = gen.KINDS[kind](rng, npdf=3)
    ens = spec.build()
    case.note(spec=spec)
    r = ens.rvs(size=1500, random_state=int(rng.integers(1000)))
    for i in range(3):
        row = spec.row(i)
        if kind == "quant":  # its quantiles and its cumulative are separate interpolations: the samples follow the quantiles
            ref = np.sort(np.ravel(row.ppf((np.arange(6000) + 0.5) / 6000)))
            u = np.searchsorted(ref, np.sort(r[i]), side="left") / 6000
        else:
            u = np.sort(np.ravel(row.cdf(r[i])))
        d = np.max(np.abs(u - (np.arange(1500) + 0.5) / 1500))
        check(d < 0.075, "the samples of distribution %i do not follow it (KS distance %.3f)" % (i, d))


# --------------------------------------------------------------------------------------------------------------- C02
@test("C02", 40, 600)
def t_hist_pdf(rng, case):
    spec = gen.hist(rng, nbins=None if rng.random() < 0.7 else int(rng.integers(15, 60)))
    ens = spec.build()
    b, p = spec.data["bins"], spec.data["pdfs"]
    x = spec.pts(rng, int(rng.integers(1, 12)))
    case.note(spec=spec, x=x)
    h = [gen.ref_norm_hist(b, r) for r in p]
    close(ens.pdf(x), [[gen.ref_hist_pdf(b, hh, v) for v in x] for hh in h], "histogram density", x=x)
    x2 = spec.pts(rng, spec.npdf * 3).reshape(spec.npdf, 3)
    close(ens.pdf(x2), [[gen.ref_hist_pdf(b, h[i], v) for v in x2[i]] for i in range(spec.npdf)], "histogram density, own points", x=x2)


@test("C02", 40, 400)
def t_bin_indices(rng, case):
    b = gen.grid(rng, int(rng.integers(2, 12)) if rng.random() < 0.6 else int(rng.integers(20, 90)))
    x = gen.points(rng, b[0], b[-1], int(rng.integers(1, 15)), b)
    if rng.random() < 0.3:
        x = x.reshape(1, -1)
    case.note(bins=b, x=x)
    idx, mask = qp.utils.get_bin_indices(b, x)
    check(np.shape(idx) == np.shape(x) and np.shape(mask) == np.shape(x), "shape of the bin indices", idx=idx)
    check((idx >= 0) & (idx < b.size - 1), "bin index out of range", idx=idx)
    inside = (x > b[0]) & (x < b[-1])
    same(np.asarray(mask, bool), inside, "in-range flags")
    check(~inside | ((b[idx] < x) & (x < b[idx + 1])), "the bin returned does not contain the point", idx=idx)


@test("C02", 30, 300)
def t_profile(rng, case):
    b = gen.grid(rng, int(rng.integers(2, 7)))
    n = int(rng.integers(1, 30))
    x = gen.points(rng, b[0], b[-1], n, b)
    y = rng.uniform(-5, 5, n)
    if rng.random() < 0.3:
        y = rng.integers(-5, 6, n)
    if rng.random() < 0.3:          # values which differ little from each other
        y = y + 10 ** int(rng.integers(2, 7))
    tol = 1e-12 + 1e-14 * np.abs(y).max()
    case.note(bins=b, x=x, y=y)
    for std in (True, False):
        with np.errstate(all="ignore"):
            vals, errs = qp.utils.profile(x, y, b, std=std)
        wv, we = [], []
        for k in range(b.size - 1):
            sel = [y[i] for i in range(n) if b[k] < x[i] < b[k + 1]]
            if not sel:
                wv.append(np.nan)
                we.append(np.nan)
                continue
            m = sum(sel) / len(sel)
            s = (sum((v - m) ** 2 for v in sel) / len(sel)) ** 0.5
            wv.append(m)
            we.append(s if std else s / len(sel) ** 0.5)
        close(vals, wv, "profile means")
        close(errs, we, "profile errors (std=%s)" % std, rtol=1e-9, atol=tol)


# --------------------------------------------------------------------------------------------------------------- C03
def alone_total(kind, d, i):
    if kind == "hist":
        return np.sum(d["pdfs"][i] * np.diff(d["bins"]))
    if kind == "interp":
        return np.trapz(d["yvals"][i], d["xvals"])
    if kind == "interp_irregular":
        return np.sum(np.diff(d["xvals"][i]) * d["yvals"][i][1:])
    if kind == "packed_interp":
        return np.trapz(gen.ref_unpack(d)[i], d["xvals"])
    return d["weights"][i].sum()


@test("C03", 30, 300)
def t_normalisation(rng, case):
    kind = ["hist", "interp", "interp_irregular", "packed_interp", "mixmod"][case.k % 5]
    spec = gen.KINDS[kind](rng)
    d = spec.copy_data()
    # rows of very different scales
    sc = 10.0 ** rng.uniform(-3, 3, (spec.npdf, 1))
    r = rng.random()
    if r < 0.5:
        # totals which look normalised: all but one of them, or on average
        tot = np.array([alone_total(kind, d, i) for i in range(spec.npdf)])[:, None]
        if r < 0.2:
            sc = 1.0 / tot
            sc[rng.integers(spec.npdf)] *= rng.uniform(1.2, 4)
        elif r < 0.4:
            sc = rng.uniform(0.4, 2.0, (spec.npdf, 1))
            sc = sc / sc.mean() / tot
        else:
            sc = np.ones((spec.npdf, 1))
    for key in ("pdfs", "yvals", "ymax", "weights"):
        if key in d:
            d[key] = d[key] * sc
    spec.data = d
    ens = spec.build()
    case.note(spec=spec)
    if kind == "hist":
        raw, got = d["pdfs"], ens.dist.pdfs
        tot = np.array([np.sum(r * np.diff(d["bins"])) for r in raw])
    elif kind == "interp":
        raw, got = d["yvals"], ens.dist.yvals
        tot = np.array([np.trapz(r, d["xvals"]) for r in raw])
    elif kind == "interp_irregular":
        raw, got = d["yvals"], ens.dist.yvals
        tot = np.array([np.sum(np.diff(x) * r[1:]) for x, r in zip(d["xvals"], raw)])
    elif kind == "packed_interp":
        raw, got = gen.ref_unpack(d), ens.dist.yvals
        tot = np.array([np.trapz(r, d["xvals"]) for r in raw])
    else:
        raw, got = d["weights"], ens.dist.weights
        tot = raw.sum(axis=1)
        same(ens.dist.means, d["means"], "mixture means")
        same(ens.dist.stds, d["stds"], "mixture widths")
    close(got, raw / tot[:, None], "stored values are not the supplied ones divided by the distribution's own total", rtol=1e-9, atol=1e-13)
    key = dict(hist="pdfs", interp="yvals", interp_irregular="yvals", mixmod="weights").get(kind)
    if key:
        close(ens.objdata()[key], got, "per-distribution data")


@test("C03", 4, 30)
def t_sparse_norm(rng, case):
    from qp import sparse_rep
    spec = gen.sparse(rng)
    d = spec.data
    ens = spec.build()
    case.note(spec=spec)
    A = sparse_rep.create_voigt_basis(d["xvals"], d["mu"], d["dims"][0], d["sig"], d["dims"][1], d["dims"][2])
    for i, codes in enumerate(d["sparse_indices"]):
        y = np.zeros(len(d["xvals"]))
        for j, c in enumerate(codes):
            w = 1.0 if j == 0 else (int(c) >> 16) / 32000.0
            y = y + w * A[:, int(c) & 0xffff]
        y = y / np.trapz(y, d["xvals"])
        y = y / np.trapz(y, d["xvals"])
        close(ens.dist.yvals[i], y, "sparse density is not the normalised weighted sum of its dictionary elements", rtol=1e-8, atol=1e-10)


@test("C03", 10, 60)
def t_multi_d(rng, case):
    b = gen.grid(rng, 5)
    p = gen.heights(rng, (2, 3, 4))
    case.note(bins=b, pdfs=p)
    ens = qp.Ensemble(qp.hist, data=dict(bins=b, pdfs=p))
    check(ens.npdf == 6 and tuple(ens.shape) == (2, 3), "shape of a two-dimensional ensemble", shape=ens.shape)
    flat = p.reshape(6, 4)
    close(ens.dist.pdfs, np.array([gen.ref_norm_hist(b, r) for r in flat]), "normalised heights")
    x = gen.points(rng, b[0], b[-1], 3, b)
    close(np.asarray(ens.pdf(x)).reshape(6, 3), [[gen.ref_hist_pdf(b, gen.ref_norm_hist(b, r), v) for v in x] for r in flat], "densities")


# --------------------------------------------------------------------------------------------------------------- C04
def cdf_reference(spec, i, x):
    d = spec.data
    if spec.kind == "hist":
        return gen.ref_hist_cdf(d["bins"], gen.ref_norm_hist(d["bins"], d["pdfs"][i]), x)
    if spec.kind == "interp_irregular":
        xs, y = d["xvals"][i], d["yvals"][i]
        c = np.concatenate([[0.0], np.cumsum(np.diff(xs) * y[1:])])
        return gen.lin(x, xs, c / c[-1], 0.0, 1.0)
    if spec.kind in ("interp", "packed_interp"):
        y = d["yvals"][i] if spec.kind == "interp" else gen.ref_unpack(d)[i]
        c = gen.trap_cum(d["xvals"], y)
        return gen.lin(x, d["xvals"], c / c[-1], 0.0, 1.0)
    w = d["weights"][i] / d["weights"][i].sum()
    return float(np.sum(w * sps.norm.cdf((x - d["means"][i]) / d["stds"][i])))


@test("C04", 40, 500)
def t_cdf(rng, case):
    kind = ["hist", "interp", "interp_irregular", "packed_interp", "mixmod"][case.k % 5]
    spec = gen.KINDS[kind](rng)
    ens = spec.build()
    x = np.sort(np.concatenate([spec.pts(rng, 12), np.ravel(spec.edges)[:6], [spec.lo - 5, spec.hi + 5]]))
    case.note(spec=spec, x=x)
    c = ens.cdf(x)
    check((c >= 0) & (c <= 1 + 1e-12), "cdf outside [0, 1]", cdf=c)
    check(np.diff(c, axis=1) >= -1e-12, "cdf decreases", cdf=c, x=x)
    if kind != "mixmod":
        for i in range(spec.npdf):
            g = spec.data["xvals"][i] if kind == "interp_irregular" else spec.data.get("bins", spec.data.get("xvals"))
            check(c[i][x < g[0]] == 0.0, "cdf not zero below the grid", row=i)
            check(c[i][x > g[-1]] == 1.0, "cdf not one above the grid", row=i)
    close(c, [[cdf_reference(spec, i, v) for v in x] for i in range(spec.npdf)], "cdf of %s" % kind, rtol=1e-9, atol=1e-11, x=x)
    close(ens.sf(x), 1 - c, "survival function")
    if kind == "mixmod":
        d = spec.data
        for i in range(spec.npdf):
            w = d["weights"][i] / d["weights"][i].sum()
            want = [float(np.sum(w * sps.norm.pdf((v - d["means"][i]) / d["stds"][i]) / d["stds"][i])) for v in x]
            close(ens.pdf(x)[i], want, "mixture density")


# --------------------------------------------------------------------------------------------------------------- C05
@test("C05", 40, 500)
def t_ppf_inverts(rng, case):
    kind = ["hist", "interp", "interp_irregular", "packed_interp"][case.k % 4]
    spec = gen.KINDS[kind](rng)
    ens = spec.build()
    d = spec.data
    q = rng.uniform(0.001, 0.999, 9)
    if rng.random() < 0.4:
        q = np.sort(q)
    x = np.asarray(ens.ppf(q))
    case.note(spec=spec, q=q, ppf=x)
    for i in range(spec.npdf):
        g = d["xvals"][i] if kind == "interp_irregular" else d.get("bins", d.get("xvals"))
        check((x[i] >= g[0] - 1e-9) & (x[i] <= g[-1] + 1e-9), "quantile outside the distribution's grid", row=i, ppf=x[i])
        o = np.argsort(q)
        check(np.diff(x[i][o]) >= -1e-9, "quantile function decreases", row=i)
        c0 = 0.0
        if kind in ("interp", "packed_interp"):
            c0 = cdf_reference(spec, i, g[0])
        for qq, xx in zip(q, x[i]):
            if qq > c0 + 1e-9:
                c = cdf_reference(spec, i, xx)
                check(abs(c - qq) < 1e-8, "cdf(ppf(q)) != q", row=i, q=qq, x=xx, cdf=c)
            elif qq < c0 - 1e-9:
                check(abs(xx - g[0]) < 1e-9, "small q does not map to the first grid point", row=i, q=qq, x=xx)
    close(ens.cdf(x), np.where(True, [[max(qq, cdf_reference(spec, i, spec.lo if kind != "interp_irregular" else d["xvals"][i][0])) for qq in q] for i in range(spec.npdf)], 0),
          "cdf(ppf(q)) through the ensemble", rtol=1e-7, atol=1e-8)


@test("C05", 40, 400)
def t_ppf_extremes(rng, case):
    """probabilities so close to zero and one that the rounded cumulative does not reach them"""
    kind = ["interp_irregular", "hist", "interp_irregular", "interp", "packed_interp"][case.k % 5]
    spec = gen.KINDS[kind](rng, npdf=int(rng.integers(2, 5)))
    if kind == "interp_irregular":
        spec.data["xvals"] = spec.data["xvals"] + 10.0 * rng.permutation(spec.npdf)[:, None]
    ens = spec.build()
    q = np.array([1e-300, 1e-17, 0.5, 1 - 2**-52, np.nextafter(1, 0)])
    x = np.asarray(ens.ppf(q))
    case.note(spec=spec, q=q, ppf=x)
    for i in range(spec.npdf):
        g = spec.data["xvals"][i] if kind == "interp_irregular" else spec.data.get("bins", spec.data.get("xvals"))
        check((x[i] >= g[0] - 1e-9) & (x[i] <= g[-1] + 1e-9), "quantile outside the distribution's grid", row=i, ppf=x[i])
        check(np.diff(x[i]) >= -1e-9, "quantile function decreases", row=i)


@test("C05", 20, 200)
def t_quant_knots(rng, case):
    spec = gen.quant(rng)
    ens = spec.build()
    q, locs = spec.data["quants"], spec.data["locs"]
    case.note(spec=spec)
    inner = (q > 0) & (q < 1)
    close(ens.ppf(q[inner]), locs[:, inner], "ppf at the supplied probabilities", rtol=1e-7, atol=1e-8)
    perm = rng.permutation(np.flatnonzero(inner))
    close(ens.ppf(q[perm]), locs[:, perm], "ppf at the supplied probabilities, permuted", rtol=1e-7, atol=1e-8)
    close(ens.cdf(locs[:, inner]), np.tile(q[inner], (spec.npdf, 1)), "cdf at the supplied positions", rtol=1e-7, atol=1e-8)
    far = np.array([locs.min() - 100, locs.max() + 100])
    close(ens.cdf(far), np.tile([0.0, 1.0], (spec.npdf, 1)), "cdf far outside")


@test("C05", 16, 100)
def t_mixmod_ppf(rng, case):
    spec = gen.mixmod(rng)
    d = spec.data
    if case.k % 4 > 1:
        # components of very different widths
        d["stds"] = d["stds"] * rng.choice([1.0, 1.0, 4.0, 8.0], d["stds"].shape)
    ens = spec.build()
    q = rng.uniform(0.002, 0.998, 6)
    if case.k % 2:
        q = rng.uniform(0.002, 0.998, (spec.npdf, 4))
    x = ens.ppf(q)
    qq = np.broadcast_to(q, x.shape)
    case.note(spec=spec, q=q)
    cell = (np.max(d["means"] + 6 * d["stds"]) - np.min(d["means"] - 6 * d["stds"])) / 200
    for i in range(spec.npdf):
        for v, p in zip(x[i], qq[i]):
            check(cdf_reference(spec, i, v - cell) <= p + 1e-9 and cdf_reference(spec, i, v + cell) >= p - 1e-9,
                  "mixture quantile further than one cell from the true one", row=i, q=p, x=v)


# --------------------------------------------------------------------------------------------------------------- C06
@test("C06", 40, 400)
def t_histogramize(rng, case):
    spec = gen.cycle_spec(rng, case.k, ["hist", "norm", "interp", "quant", "interp_irregular", "beta", "packed_interp", "mixmod", "spline"])
    ens = spec.build()
    b = np.sort(spec.pts(rng, int(rng.integers(2, 9))))
    keep = b.copy()
    case.note(spec=spec, edges=b)
    eb, vals = ens.histogramize(b)
    same(eb, keep, "edges returned by histogramize")
    vals = np.asarray(vals)
    check(vals.shape == (spec.npdf, b.size - 1), "shape of the bin contents", shape=vals.shape)
    rows = [spec.row(i) for i in range(spec.npdf)]
    c = np.array([[float(np.ravel(r.cdf(v))[0]) for v in b] for r in rows])
    close(vals, c[:, 1:] - c[:, :-1], "bin contents are not differences of the cdf", rtol=1e-7, atol=1e-9)
    close(vals.sum(axis=1), c[:, -1] - c[:, 0], "bin contents do not add up", rtol=1e-7, atol=1e-9)
    lo, mid, hi = np.sort(spec.pts(rng, 3))
    cc = np.array([[float(np.ravel(r.cdf(v))[0]) for v in (lo, mid, hi)] for r in rows])
    close(np.ravel(ens.integrate((lo, hi))), cc[:, 2] - cc[:, 0], "integral between two limits", rtol=1e-7, atol=1e-9, limits=(lo, hi))
    close(np.ravel(ens.integrate((lo, mid))) + np.ravel(ens.integrate((mid, hi))), cc[:, 2] - cc[:, 0], "adjacent integrals add", rtol=1e-7, atol=1e-9)
    x = spec.pts(rng, 4)
    close(ens.sf(x), 1 - ens.cdf(x), "sf = 1 - cdf")
    # limits which differ for each distribution
    l0 = spec.pts(rng, spec.npdf)[:, None]
    l1 = l0 + rng.uniform(0, 1, (spec.npdf, 1))
    w = [float(np.ravel(r.cdf(b1))[0]) - float(np.ravel(r.cdf(a1))[0]) for r, a1, b1 in zip(rows, l0[:, 0], l1[:, 0])]
    close(np.ravel(ens.integrate((l0, l1))), w, "integral with limits of its own for each distribution", rtol=1e-7, atol=1e-9)


@test("C06", 8, 60)
def t_histogramize_multi_d(rng, case):
    loc = rng.uniform(-1, 1, (2, 3, 1))
    sc = rng.uniform(0.5, 1, (2, 3, 1))
    b = np.sort(rng.uniform(-3, 3, 5))
    case.note(loc=loc, scale=sc, edges=b)
    if case.k % 2:
        ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=sc))
        c = sps.norm.cdf(b, loc=loc, scale=sc)
    else:
        bb = gen.grid(rng, 5)
        p = gen.heights(rng, (2, 3, 4))
        ens = qp.Ensemble(qp.hist, data=dict(bins=bb, pdfs=p))
        c = np.array([[gen.ref_hist_cdf(bb, gen.ref_norm_hist(bb, r), v) for v in b] for r in p.reshape(6, 4)]).reshape(2, 3, 5)
    _, vals = ens.histogramize(b)
    close(vals, np.diff(c, axis=-1), "bin contents of a two-dimensional ensemble", rtol=1e-8, atol=1e-10)


# --------------------------------------------------------------------------------------------------------------- C16
@test("C16", 40, 400)
def t_moments(rng, case):
    kind = ["hist", "interp", "packed_interp"][case.k % 3]
    spec = gen.KINDS[kind](rng)
    ens = spec.build()
    d = spec.data
    case.note(spec=spec)

    def mom(n, shift=0.0):
        out = []
        for i in range(spec.npdf):
            if kind == "hist":
                b = d["bins"] + shift
                p = d["pdfs"][i] * np.diff(b)
                p = p / p.sum()
                out.append(np.sum(p * (0.5 * (b[1:] + b[:-1])) ** n))
            else:
                x = d["xvals"] + shift
                y = d["yvals"][i] if kind == "interp" else gen.ref_unpack(d)[i]
                y = y / np.trapz(y, x)
                out.append(np.trapz(y * x ** n, x))
        return np.array(out)
    m1, m2 = mom(1), mom(2)
    close(np.ravel(ens.mean()), m1, "mean", rtol=1e-8, atol=1e-9)
    close(np.ravel(ens.var()), m2 - m1 ** 2, "variance", rtol=1e-6, atol=1e-7)
    spread = m2 - m1 ** 2 > 1e-6          # rounding can give a tiny negative variance for a single populated bin
    close(np.ravel(ens.std())[spread] ** 2, (m2 - m1 ** 2)[spread], "standard deviation", rtol=1e-6, atol=1e-7)
    for n in (1, 2, 3, 4):
        close(np.ravel(ens.moment(n)), mom(n), "moment of order %i" % n, rtol=1e-8, atol=1e-8)
    t = float(rng.uniform(-2, 2))
    dd = spec.copy_data()
    key = "bins" if kind == "hist" else "xvals"
    dd[key] = dd[key] + t
    sh = qp.Ensemble(spec.gen_func, data=dd)
    close(np.ravel(sh.mean()), m1 + t, "mean of the shifted grid", rtol=1e-7, atol=1e-8)
    close(np.ravel(sh.var()), m2 - m1 ** 2, "variance of the shifted grid", rtol=1e-5, atol=1e-6)
