"""Random valid inputs: grids, heights, ensembles of every kind, and independent reference evaluations."""
import ast, glob, os, zlib
import numpy as np
import scipy.stats as sps
import qp
from qp.packing_utils import PackingType

QUANT_CTORS = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]


def source_numbers():
    """the numbers written in the source which a user's own numbers may be compared with: (whole numbers, tolerances)"""
    whole, near = set(), set()

    def value(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return n.value
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Pow, ast.LShift, ast.Add, ast.Sub, ast.Div)):
            a, b = value(n.left), value(n.right)
            try:
                if a is None or b is None or abs(a) > 1e6 or abs(b) > (64 if isinstance(n.op, (ast.Pow, ast.LShift)) else 1e6):
                    return None
                return {ast.Mult: lambda: a * b, ast.Pow: lambda: float(a) ** b, ast.LShift: lambda: int(a) << int(b), ast.Add: lambda: a + b,
                        ast.Sub: lambda: a - b, ast.Div: lambda: a / b}[type(n.op)]()
            except Exception:
                return None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = value(n.operand)
            return None if v is None else -v
    for f in sorted(glob.glob(os.path.join(os.path.dirname(qp.__file__), "**", "*.py"), recursive=True)):
        if os.path.basename(f) in ("test_funcs.py", "test_data.py", "plotting.py"):
            continue
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            v = value(n)
            if v is not None and 12 <= v <= 2e6 and float(v).is_integer():
                whole.add(int(v))
            if v is not None and isinstance(v, float) and 1e-13 < abs(v) <= 0.2:
                near.add(abs(v))
            if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("round", "around", "round_"):
                for a in list(n.args[1:2]) + [k.value for k in n.keywords if k.arg in ("decimals", "ndigits")]:
                    d = value(a)
                    if d is not None and 1 <= d <= 12:
                        near.add(10.0 ** -d)
    return whole, near


WHOLE, NEAR = source_numbers()
ORDINARY = {0.01, 0.1, 1e-4, 0.15, 0.06, 1e-5, 1e-10, 1e-3, 0.2}
NEAR = sorted(v for v in NEAR if v not in ORDINARY) * 3 + [1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1]


def tiny(rng, lo=1e-12, hi=0.2):
    """a small number just below one of the tolerances of the source, or an ordinary one"""
    c = [v for v in NEAR if lo <= v * 0.9 and v * 0.2 <= hi]
    v = c[rng.integers(len(c))] if c else hi
    return float(np.clip(v * rng.uniform(0.2, 0.9), lo, hi))


def n_pdf(rng, lo=1, hi=6):
    return int(rng.integers(lo, hi + 1))


def grid(rng, n, uniform=None):
    """n increasing values; uniform (exactly, up to rounding) or distinctly unequal spacing"""
    if uniform is None:
        uniform = rng.random() < 0.4
    x0 = rng.uniform(-3, 3)
    if rng.random() < 0.1:
        # whole numbers, as integers
        w = np.full(n - 1, rng.integers(1, 4)) if uniform else rng.integers(1, 4, n - 1)
        if not uniform and n > 2:
            w[rng.integers(n - 1)] += 5
        return int(x0) + np.concatenate([[0], np.cumsum(w)])
    if uniform:
        return np.linspace(x0, x0 + rng.uniform(0.5, 8), n)
    if n > 3 and rng.random() < 0.2:
        # nearly equal widths, which are not equal to the relative precision of np.allclose
        w = rng.uniform(0.2, 2.0) * (1.0 + rng.choice([1e-4, 1e-3, 1e-2, 3e-2, tiny(rng, 1e-4)]) * rng.choice([0.0, 1.0], n - 1))
        w[0] = w.min()
        w[1] = w[0] * (1.0 + rng.choice([1e-3, 1e-2, 3e-2, tiny(rng, 1e-4)]))
        return x0 + np.concatenate([[0.0], np.cumsum(w)])
    w = rng.uniform(0.1, 2.0, n - 1)
    if n > 2:
        w[rng.integers(n - 1)] *= 3.1
    if n > 2 and np.allclose(w, w[0], rtol=0.05):
        w[0] *= 2
    return x0 + np.concatenate([[0.0], np.cumsum(w)])


def heights(rng, shape, zeros=True):
    y = rng.uniform(0.05, 3.0, shape) * rng.uniform(0.2, 5.0, tuple(shape[:-1]) + (1,))
    if zeros and rng.random() < 0.5:
        z = rng.random(shape) < 0.3
        # keep at least two non-zero heights per row
        z[..., rng.integers(shape[-1])] = False
        z[..., 0] = z[..., 0] & (rng.random() < 0.5)
        z[..., -1] = z[..., -1] & False
        y = np.where(z, 0.0, y)
    if rng.random() < 0.1:
        y = np.where(y == 0, 0, 1 + (y * 4).astype(int))         # counts
    return y


def laid_out(data):
    """the same values in memory that is ordered by columns, spaced out or not writable: the choice depends on the values only"""
    key = zlib.crc32(b"".join(v.tobytes() for v in data.values() if isinstance(v, np.ndarray))) % 12
    out = {}
    for k, v in data.items():
        if isinstance(v, np.ndarray) and v.size:
            v = v.copy()
            if key == 0:
                v = np.asfortranarray(v)
            elif key == 1 and v.ndim:
                big = np.empty(tuple(2 * d for d in v.shape), v.dtype)
                big[...] = 99
                out_v = big[tuple(slice(None, None, 2) for _ in v.shape)]
                out_v[...] = v
                v = out_v
            elif key == 2:
                v.flags.writeable = False
        out[k] = v
    return out


def points(rng, lo, hi, n, avoid=()):
    """n points around [lo, hi], kept away from the `avoid` values"""
    w = hi - lo
    x = rng.uniform(lo - 0.15 * w, hi + 0.15 * w, n)
    av = np.asarray(avoid, float).ravel()
    if av.size:
        # some points close to, but not at, the edges
        near = rng.random(n) < 0.3
        x = np.where(near, av[rng.integers(0, av.size, n)] + rng.choice([-1, 1], n) * w * rng.choice([1e-2, 1e-3, 1e-4], n), x)
        for _ in range(50):
            bad = np.abs(x[:, None] - av[None, :]).min(axis=1) < 1e-5 * max(1.0, w)
            if not bad.any():
                break
            x[bad] = rng.uniform(lo - 0.15 * w, hi + 0.15 * w, bad.sum())
    return x


class Spec:
    """A random ensemble together with the raw data it was made from"""
    def __init__(self, kind, gen_func, data, npdf, lo, hi, edges=(), ancil=None, rowkeys=()):
        self.kind, self.gen_func, self.data, self.npdf = kind, gen_func, data, npdf
        self.lo, self.hi, self.edges, self.ancil, self.rowkeys = lo, hi, edges, ancil, rowkeys

    def copy_data(self):
        return laid_out(self.data)

    def build(self):
        anc = None if self.ancil is None else {k: v.copy() for k, v in self.ancil.items()}
        return qp.Ensemble(self.gen_func, data=self.copy_data(), ancil=anc)

    def row(self, i):
        """the ensemble made from the raw data of distribution i alone"""
        d = self.copy_data()
        for k in self.rowkeys:
            d[k] = d[k][i:i + 1]
        return qp.Ensemble(self.gen_func, data=d)

    def pts(self, rng, n):
        return points(rng, self.lo, self.hi, n, self.edges)

    def __repr__(self):
        with np.printoptions(threshold=40, precision=17):
            return "%s(%s)" % (self.kind, self.data)


def ancil_for(rng, npdf, p=0.6):
    if rng.random() > p:
        return None
    return dict(zmode=rng.uniform(0, 3, (npdf, 1)), ident=rng.integers(0, 10**6, npdf), flux=rng.uniform(0, 1, (npdf, 3)),
                mag=rng.uniform(0, 1, npdf).astype(np.float32), big=2**60 + rng.integers(0, 9, npdf))


def hist(rng, npdf=None, uniform=None, nbins=None):
    npdf = npdf or n_pdf(rng)
    k = nbins or int(rng.integers(2, 9))
    b = grid(rng, k + 1, uniform)
    return Spec("hist", qp.hist, dict(bins=b, pdfs=heights(rng, (npdf, k))), npdf, b[0], b[-1], b, rowkeys=("pdfs",))


def interp(rng, npdf=None, uniform=None, n=None, zeros=True):
    npdf = npdf or n_pdf(rng)
    k = n or int(rng.integers(3, 10))
    x = grid(rng, k, uniform)
    return Spec("interp", qp.interp, dict(xvals=x, yvals=heights(rng, (npdf, k), zeros)), npdf, x[0], x[-1], x, rowkeys=("yvals",))


def irregular(rng, npdf=None, n=None):
    npdf = npdf or n_pdf(rng)
    k = n or int(rng.integers(3, 10))
    x = np.vstack([grid(rng, k) for _ in range(npdf)])
    r = rng.random()
    if r < 0.3 and npdf > 1:
        # grids which agree in part: common ends, a common first or last point, or one grid for all but one
        if r < 0.15:
            x = x[0, 0] + (x - x[:, :1]) / (x[:, -1:] - x[:, :1]) * (x[0, -1] - x[0, 0])
            x[:, 0], x[:, -1] = x[0, 0], x[0, -1]
        elif r < 0.2:
            x = x - x[:, :1] + x[0, 0]
        elif r < 0.25:
            x = x - x[:, -1:] + x[0, -1]
        else:
            x[1:-1] = x[0]
    elif r < 0.4 and npdf > 1:
        # nearly one grid
        x = x[0] + np.diff(x[0]).min() * tiny(rng, 1e-9, 0.1) * rng.uniform(-1, 1, x.shape)
    return Spec("interp_irregular", qp.interp_irregular, dict(xvals=x, yvals=heights(rng, (npdf, k))), npdf,
                x.min(), x.max(), x, rowkeys=("xvals", "yvals"))


def packed(rng, npdf=None, kind=None, n=None):
    npdf = npdf or n_pdf(rng)
    k = n or int(rng.integers(3, 10))
    x = grid(rng, k)
    log = (rng.random() < 0.5) if kind is None else kind == "log"
    yp = rng.integers(0, 256, (npdf, k)).astype(np.uint8)
    yp[:, rng.integers(k)] = 255
    yp[:, rng.integers(k)] = 201
    d = dict(xvals=x, ypacked=yp, ymax=rng.uniform(0.1, 5, (npdf, 1)),
             packing_type=PackingType.log_from_rowmax if log else PackingType.linear_from_rowmax)
    if log:
        d["log_floor"] = float(rng.uniform(-4, -1.5))
    return Spec("packed_interp", qp.packed_interp, d, npdf, x[0], x[-1], x, rowkeys=("ypacked", "ymax"))


def quant_data(rng, npdf, n=None, full=None):
    k = n or int(rng.integers(6, 12))
    full = int(rng.integers(4)) if full is None else full
    q = np.sort(rng.uniform(0.02, 0.98, k))
    while np.diff(q).min() < 0.01:
        q = np.linspace(0.02, 0.98, k) + rng.uniform(-0.3, 0.3, k) * 0.9 / k
        q = np.sort(np.clip(q, 0.01, 0.99))
    r = rng.random(2)
    if full & 1:
        q[0] = 0.0
    elif r[0] < 0.2:
        q[0] = min(q[0], tiny(rng, 1e-6))
    if full & 2:
        q[-1] = 1.0
    elif r[1] < 0.2:
        q[-1] = max(q[-1], 1 - tiny(rng, 1e-6))
    locs = np.vstack([rng.uniform(-2, 2) + np.cumsum(rng.uniform(0.1, 0.6, k)) for _ in range(npdf)])
    return q, locs


def quant(rng, npdf=None, ctor=None, n=None, full=None):
    npdf = npdf or n_pdf(rng)
    q, locs = quant_data(rng, npdf, n or int(rng.integers(10, 16)), full)
    ctor = ctor or QUANT_CTORS[rng.integers(4)]
    return Spec("quant", qp.quant, dict(quants=q, locs=locs, pdf_constructor_name=ctor), npdf, locs.min(), locs.max(), locs,
                rowkeys=("locs",))


def quant_raw(rng, npdf=None):
    """quantiles used as given, with nothing added at the ends"""
    s = quant(rng, npdf, full=0)
    s.data["check_input"] = False
    return s


def irregular_raw(rng, npdf=None):
    """values used as given: the cumulative ends below or above one"""
    s = irregular(rng, npdf)
    x, y = s.data["xvals"], s.data["yvals"]
    s.data["yvals"] = y / np.sum(np.diff(x) * y[:, 1:], axis=1)[:, None] * rng.uniform(0.6, 1.2, (s.npdf, 1))
    s.data["check_input"] = False
    return s


def mixmod(rng, npdf=None):
    npdf = npdf or n_pdf(rng)
    k = int(rng.integers(1, 4))
    m = rng.uniform(-2, 2, (npdf, k))
    s = rng.uniform(0.2, 1.0, (npdf, k))
    w = rng.uniform(0.1, 2.0, (npdf, k))
    r = rng.random()
    if r < 0.1:
        w /= w.sum(axis=1)[:, None]
    elif r < 0.2:
        w *= npdf / w.sum()                      # adds up to one on average only
    elif r < 0.25:
        w[0] /= w[0].sum()
    elif r < 0.35 and r > 0.3:
        w *= (1 + tiny(rng, 1e-9) * rng.uniform(-1, 1, (npdf, 1))) / w.sum(axis=1)[:, None]      # nearly one
    elif r < 0.3:
        w = rng.integers(1, 5, (npdf, k))        # weights which are counts
    if k > 1 and rng.random() < 0.15:
        s[:, rng.integers(k)] *= rng.uniform(2, 5)
    return Spec("mixmod", qp.mixmod, dict(means=m, stds=s, weights=w), npdf, (m - 3 * s).min(), (m + 3 * s).max(), (),
                rowkeys=("means", "stds", "weights"))


def spline(rng, npdf=None):
    npdf = npdf or n_pdf(rng)
    x = np.tile(np.linspace(0, 3, 12), (npdf, 1))
    mu = rng.uniform(1, 2, (npdf, 1))
    y = np.exp(-0.5 * ((x - mu) / 0.6) ** 2)
    sx, sy, sn = qp.spline_gen.build_normed_splines(x, y)
    return Spec("spline", qp.spline, dict(splx=sx, sply=sy, spln=sn), npdf, 0.0, 3.0, (), rowkeys=("splx", "sply", "spln"))


_SPARSE = {}


def sparse(rng, npdf=None):
    from qp import sparse_rep
    npdf = npdf or n_pdf(rng)
    nz = int(rng.integers(25, 40))
    z = np.linspace(0.0, 2.0, nz)
    mu = rng.uniform(0.5, 1.5, (npdf, 1))
    sg = rng.uniform(0.12, 0.3, (npdf, 1))
    P = np.exp(-0.5 * ((z - mu) / sg) ** 2)
    P /= np.trapz(P, z, axis=1)[:, None]
    idx, meta, _ = sparse_rep.build_sparse_representation(z, P, Nmu=nz, Nsparse=5, verbose=False)
    return Spec("sparse", qp.sparse, dict(xvals=meta["xvals"], mu=meta["mu"], sig=meta["sig"], dims=meta["dims"],
                                         sparse_indices=idx), npdf, 0.0, 2.0, z, rowkeys=("sparse_indices",))


def norm(rng, npdf=None):
    npdf = npdf or n_pdf(rng)
    loc = rng.uniform(-1, 1, (npdf, 1))
    sc = rng.uniform(0.3, 1.2, (npdf, 1))
    return Spec("norm", qp.stats.norm, dict(loc=loc, scale=sc), npdf, -3.0, 3.0, (), rowkeys=("loc", "scale"))


def beta(rng, npdf=None):
    npdf = npdf or n_pdf(rng)
    return Spec("beta", qp.stats.beta, dict(a=rng.uniform(1.5, 4, (npdf, 1)), b=rng.uniform(1.5, 4, (npdf, 1)),
                                           loc=rng.uniform(-1, 1, (npdf, 1)), scale=rng.uniform(1, 2, (npdf, 1))),
                npdf, -1.0, 3.0, (), rowkeys=("a", "b", "loc", "scale"))


KINDS = dict(hist=hist, interp=interp, interp_irregular=irregular, packed_interp=packed, quant=quant, mixmod=mixmod,
             spline=spline, sparse=sparse, norm=norm, beta=beta, quant_raw=quant_raw, irregular_raw=irregular_raw)
FAST = ["hist", "interp", "interp_irregular", "packed_interp", "quant", "mixmod", "norm", "beta"]


def any_spec(rng, kinds=None, npdf=None, ancil=0.6):
    kinds = kinds or FAST
    s = KINDS[kinds[rng.integers(len(kinds))]](rng, npdf=npdf)
    s.ancil = ancil_for(rng, s.npdf, ancil)
    return s


def cycle_spec(rng, k, kinds=None, npdf=None, ancil=0.6):
    """as any_spec, but the case number chooses the kind so that all kinds are covered"""
    kinds = kinds or FAST
    s = KINDS[kinds[k % len(kinds)]](rng, npdf=npdf)
    s.ancil = ancil_for(rng, s.npdf, ancil)
    return s


# ---------------------------------------------------------------- independent references (pure python / plain numpy)
def ref_hist_pdf(b, h, x):
    """h normalised heights of one distribution"""
    for k in range(len(h)):
        if b[k] < x < b[k + 1]:
            return float(h[k])
    return 0.0


def ref_norm_hist(b, p):
    return p / np.sum(p * np.diff(b))


def ref_hist_cdf(b, h, x):
    tot = 0.0
    for k in range(len(h)):
        if x >= b[k + 1]:
            tot += h[k] * (b[k + 1] - b[k])
        elif x > b[k]:
            tot += h[k] * (x - b[k])
    return float(min(tot, 1.0)) if x < b[-1] else 1.0


def lin(x, xs, ys, left, right):
    if x < xs[0]:
        return left
    if x > xs[-1]:
        return right
    for k in range(len(xs) - 1):
        if xs[k] <= x <= xs[k + 1]:
            if xs[k + 1] == xs[k]:
                return float(ys[k])
            return float(ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k]))
    return float(ys[-1])


def trap_cum(x, y):
    c = np.concatenate([[0.5 * y[0] * (x[1] - x[0])], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])
    return c


def ref_unpack(d):
    y = d["ypacked"].astype(float) / 255.0
    if "log_floor" in d:
        fl = -d["log_floor"]
        return d["ymax"] * np.where(d["ypacked"] == 0, 0.0, 10.0 ** (fl * (y - 1.0)))
    return d["ymax"] * y
