"""Deciding obligations: hypotheses and negated goal are instantiated to a quantifier-free problem (facts with
universally quantified index variables by matching on the array reads that occur, sums and the other functionals by
their defining axioms) and handed to z3, then to cvc5."""
import itertools, os, subprocess, tempfile, time
import z3
from .sym import *
from . import sym

STATS = dict(z3=0, cvc5=0, time=0.0, queries=0, feas=0)
RL = dict(valid_ms=12000, feas_ms=1000)
MAX_INST = 6000


# ------------------------------------------------------------------------------------------------ term walking
def apps_of(fs, seen=None, out=None):
    """all non-constant applications of uninterpreted functions and integer division symbols, plus int constants"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                out.append(t)
            stack.extend(t.children())
    return out


def linear_in(arg, v):
    """offset c with arg == v + c (c without v), else None"""
    if arg.eq(v):
        return z3.IntVal(0)
    if z3.is_app_of(arg, z3.Z3_OP_ADD):
        rest, hit = [], 0
        for c in arg.children():
            if c.eq(v):
                hit += 1
            elif contains(c, v):
                return None
            else:
                rest.append(c)
        if hit == 1:
            return z3.Sum(rest) if len(rest) > 1 else rest[0]
    if z3.is_app_of(arg, z3.Z3_OP_SUB) and arg.num_args() == 2 and arg.arg(0).eq(v) and not contains(arg.arg(1), v):
        return -arg.arg(1)
    return None


def contains(t, v):
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(v):
            return True
        stack.extend(u.children())
    return False


class Pattern:
    """application whose arguments at given positions are var + offset"""
    def __init__(self, decl, binds, others):
        self.decl, self.binds, self.others = decl, binds, others


def patterns(fa):
    if getattr(fa, "_pats", None) is not None:
        return fa._pats
    pats = []
    for t in apps_of([fa.body]):
        binds, others = {}, []
        for p, a in enumerate(t.children()):
            hit = None
            for vi, v in enumerate(fa.vars):
                if contains(a, v):
                    off = linear_in(a, v)
                    if off is not None and vi not in binds and not any(contains(off, w) for w in fa.vars):
                        hit = (vi, p, off)
                    break
            if hit:
                binds[hit[0]] = (hit[1], hit[2])
        if binds:
            pats.append((t.decl(), binds))
    fa._pats = pats
    return pats


def matches(fa, byd, pool, hints=()):
    """candidate tuples for the variables"""
    pats = patterns(fa)
    n = len(fa.vars)
    full = [p for p in pats if len(p[1]) == n]
    out = {}

    def put(tup):
        out.setdefault(tuple(x.get_id() for x in tup), tup)
    if hints and len(hints) ** n <= 40:
        for tup in itertools.product(hints, repeat=n):
            put(tup)
    if n == 1 or full:
        for d, binds in (full if full else pats):
            for t in byd.get(d.get_id(), ()):
                put(tuple(z3.simplify(t.arg(binds[v][0]) - binds[v][1], som=True) for v in range(n)))
        if not full and not pats:
            for c in (() if hints else pool):
                put((c,))
        if n == 2 and getattr(fa, "cross", False):
            cs = {}
            for tup in list(out.values()):
                for x in tup:
                    cs[x.get_id()] = x
            for a, b in itertools.product(cs.values(), repeat=2):
                put((a, b))
        return list(out.values())
    per = []
    for v in range(n):
        cs = {}
        for d, binds in pats:
            if v in binds:
                for t in byd.get(d.get_id(), ()):
                    c = z3.simplify(t.arg(binds[v][0]) - binds[v][1], som=True)
                    cs[c.get_id()] = c
        if not cs:
            cs = {c.get_id(): c for c in (hints or pool)}
        per.append(list(cs.values())[:40])
    for tup in itertools.product(*per):
        put(tup)
        if len(out) > 1500:
            break
    return list(out.values())


# ------------------------------------------------------------------------------------------------ axioms
def sk(t, what):
    return z3.Int("%s@%d" % (what, t.get_id()))


class Axioms:
    """axioms of the functional symbols, instantiated for the applications that occur"""
    def __init__(self, deep=True):
        self.deep = deep
        self.done = set()
        self.foralls = []
        self.pairs = set()
        self.keep = []

    def run(self, apps, depth):
        out = []
        groups = {}
        for t in apps:
            self.keep.append(t)
            nm = t.decl().name()
            f = ctx.functionals.get(nm)
            if f is not None:
                groups.setdefault(f.kind.split("|")[0], []).append((t, f))
            if t.get_id() in self.done:
                continue
            self.done.add(t.get_id())
            if f is not None:
                h = getattr(self, "ax_" + f.kind.split("|")[0], None)
                if h is not None:
                    out += h(t, f, depth)
            elif nm == "idiv" or nm == "imod":
                a, b = t.children()
                q, r = DIV(a, b), MOD(a, b)
                out.append(z3.Implies(b > 0, z3.And(a == q * b + r, 0 <= r, r < b, z3.Implies(a >= 0, q >= 0), z3.Implies(a < b, z3.Or(a < 0, q == 0)))))
                out.append(z3.Implies(z3.And(b > 0, a >= 0), q <= a))
                for m, n in ctx.dimpairs:
                    if n.eq(b):
                        out.append(z3.Implies(z3.And(b > 0, a < m * n), q < m))
            elif nm in sym.UF_AXIOMS:
                out += sym.UF_AXIOMS[nm](t)
        byname = {}
        for t in apps:
            if t.decl().name() in sym.UF_PAIRS:
                byname.setdefault(t.decl().name(), []).append(t)
        for nm, ts in byname.items():
            for t1, t2 in itertools.combinations(ts[:16], 2):
                kk = (t1.get_id(), t2.get_id(), nm)
                if kk not in self.pairs:
                    self.pairs.add(kk)
                    out += sym.UF_PAIRS[nm](t1, t2)
        for kind, ts in groups.items():
            if kind in ("tag", "all"):
                continue        # "all": its witness and its instances say as much
            if len(ts) > 24:
                ts = ts[:24]
            for (t1, f1), (t2, f2) in itertools.combinations(ts, 2):
                k = (t1.get_id(), t2.get_id())
                if k in self.pairs or f1.kind != f2.kind:
                    continue
                self.pairs.add(k)
                out += self.ext(t1, f1, t2, f2)
        return out

    def ext(self, t1, f1, t2, f2):
        b1, n1, e1 = f1.inst(t1)
        b2, n2, e2 = f2.inst(t2)
        w = z3.Int("ext@%d_%d" % (t1.get_id(), t2.get_id()))
        x, y = b1(w), b2(w)
        same = z3.And(n1 == n2, *[a == b for a, b in zip(e1, e2)])
        if x.eq(y):
            out = [z3.Implies(same, t1 == t2)] if f1 is not f2 or not all(a.eq(b) for a, b in zip(t1.children(), t2.children())) else []
        else:
            out = [z3.Or(z3.Not(same), t1 == t2, z3.And(0 <= w, w < n1, x != y))]
        kind = f1.kind
        if kind == "sum":
            # monotone in the summand; and in the range for summands of one sign
            w2 = z3.Int("mono@%d_%d" % (t1.get_id(), t2.get_id()))
            out.append(z3.Or(n1 != n2, t1 <= t2, z3.And(0 <= w2, w2 < n1, b1(w2) > b2(w2))))
            out.append(z3.Or(n1 != n2, t1 >= t2, z3.And(0 <= w2, w2 < n1, b1(w2) < b2(w2))))
            if x.eq(y):
                w3 = z3.Int("rng@%d_%d" % (t1.get_id(), t2.get_id()))
                for (ta, na, tb, nb) in ((t1, n1, t2, n2), (t2, n2, t1, n1)):
                    out.append(z3.Or(z3.Not(z3.And(0 <= na, na <= nb)), ta <= tb, z3.And(na <= w3, w3 < nb, b1(w3) < 0)))
        if kind == "count" and x.eq(y):
            for (ta, na, tb, nb) in ((t1, n1, t2, n2), (t2, n2, t1, n1)):
                out.append(z3.Implies(z3.And(na <= nb), z3.And(ta <= tb, tb - ta <= nb - na)))
                out.append(z3.Implies(z3.And(0 <= na, na < nb, b1(na)), ta < tb))
        if kind == "lin" and self.deep and not x.eq(y):
            pass
        if kind == "lin" and self.deep and x.eq(y):
            # the interpolant of values in order is in order (lemma: solve.lemma_lin)
            x1, x2 = e1[0], e2[0]
            w = z3.Int("lin@%d_%d" % (t1.get_id(), t2.get_id()))

            def dec(k, strict=False):
                u, v = pair_args(b1(k))[1], pair_args(b1(k + 1))[1]
                return u > v
            rng = z3.And(pair_args(b1(z3.IntVal(0)))[0] <= x1, x1 <= x2, x2 <= pair_args(b1(z3.simplify(n1 - 1)))[0])
            rng2 = z3.And(pair_args(b1(z3.IntVal(0)))[0] <= x2, x2 <= x1, x1 <= pair_args(b1(z3.simplify(n1 - 1)))[0])
            bad = z3.And(0 <= w, w < n1 - 1, dec(w))
            out.append(z3.Implies(z3.And(n1 == n2, n1 >= 2, rng), z3.Or(t1 <= t2, bad)))
            out.append(z3.Implies(z3.And(n1 == n2, n1 >= 2, rng2), z3.Or(t2 <= t1, bad)))
        if kind == "sel" and x.eq(y):
            m, n, _ = b1, n1, None
            j1, j2 = e1[0], e2[0]
            c = functional("count", m, n1, sort=I, raw_sort=B)
            for (ja, ta, jb, tb) in ((j1, t1, j2, t2), (j2, t2, j1, t1)):
                out.append(z3.Implies(z3.And(n1 == n2, 0 <= ja, ja < jb, jb < c), ta < tb))
        if kind in ("sort",) and x.eq(y):
            j1, j2 = e1[0], e2[0]
            out.append(z3.Implies(z3.And(n1 == n2, 0 <= j1, j1 <= j2, j2 < n1), t1 <= t2))
            out.append(z3.Implies(z3.And(n1 == n2, 0 <= j2, j2 <= j1, j1 < n1), t2 <= t1))
        return out

    def fa(self, n, fn, name):
        vs = [z3.Int("%s?%d" % (name, k)) for k in range(n)]
        self.foralls.append(Forall(vs, term(fn(*vs)), name))

    def ax_sum(self, t, f, depth):
        body, n, _ = f.inst(t)
        w = sk(t, "nn")
        out = [z3.Implies(n <= 0, t == 0),
               z3.Or(t >= 0, z3.And(0 <= w, w < n, body(w) < 0)),
               z3.Implies(n == 1, t == body(0)),
               ]
        w2 = sk(t, "pp")
        out.append(z3.Or(t > 0, n <= 0, z3.And(0 <= w2, w2 < n, body(w2) <= 0)))
        w3, = (sk(t, "zz"),)
        out.append(z3.Or(t == 0, z3.And(0 <= w3, w3 < n, body(w3) != 0)))
        if depth < 1:
            prev = f.sym(*([a for a in t.children()[:len(f.params)]] + [z3.simplify(n - 1, som=True)]))
            out.append(z3.Implies(n >= 1, t == prev + body(z3.simplify(n - 1, som=True))))
        return out

    def ax_max(self, t, f, depth):
        body, n, _ = f.inst(t)
        w = sk(t, "w")
        self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), body(k) <= t), "max")
        return [z3.Implies(n > 0, z3.And(0 <= w, w < n, t == body(w)))]

    def ax_min(self, t, f, depth):
        body, n, _ = f.inst(t)
        w = sk(t, "w")
        self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), body(k) >= t), "min")
        return [z3.Implies(n > 0, z3.And(0 <= w, w < n, t == body(w)))]

    def ax_argmax(self, t, f, depth):
        body, n, _ = f.inst(t)
        self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(body(k) <= body(t), z3.Implies(k < t, body(k) < body(t)))), "argmax")
        return [z3.Implies(n > 0, z3.And(0 <= t, t < n))]

    def ax_argmin(self, t, f, depth):
        body, n, _ = f.inst(t)
        self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(body(k) >= body(t), z3.Implies(k < t, body(k) > body(t)))), "argmin")
        return [z3.Implies(n > 0, z3.And(0 <= t, t < n))]

    def ax_all(self, t, f, depth):
        body, n, _ = f.inst(t)
        w = sk(t, "w")
        self.fa(1, lambda k: z3.Implies(z3.And(t, 0 <= k, k < n), body(k)), "all")
        return [z3.Or(t, z3.And(0 <= w, w < n, z3.Not(body(w))))]

    def ax_count(self, t, f, depth):
        body, n, _ = f.inst(t)
        w, w2 = sk(t, "w"), sk(t, "u")
        out = [z3.Implies(n <= 0, t == 0), t >= 0, z3.Implies(n >= 0, t <= n),
               z3.Or(t == 0, z3.And(0 <= w, w < n, body(w))),
               z3.Or(t == n, n <= 0, z3.And(0 <= w2, w2 < n, z3.Not(body(w2))))]
        if depth < 2:
            self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n, body(k)), t > 0), "cnt")
        if depth < 1:
            m1 = z3.simplify(n - 1, som=True)
            prev = f.sym(*([a for a in t.children()[:len(f.params)]] + [m1]))
            out.append(z3.Implies(n >= 1, t == prev + z3.If(body(m1), 1, 0)))
        return out

    def ax_sel(self, t, f, depth):
        body, n, (j,) = f.inst(t)
        c = functional("count", body, n, sort=I, raw_sort=B)
        ps = t.children()[:len(f.params)]

        def rank(k):
            return functional("count", body, k, sort=I, raw_sort=B)
        if depth < 1:
            self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n, body(k)),
                    z3.And(f.sym(*(list(ps) + [n, rank(k)])) == k, 0 <= rank(k), rank(k) < c)), "sel")
        return [z3.Implies(z3.And(0 <= j, j < c), z3.And(0 <= t, t < n, body(t), rank(t) == j))]

    def ax_brk(self, t, f, depth):
        # numpy.interp's cell of x among non-decreasing knots body(0..n-1)
        body, n, (x,) = f.inst(t)
        return [z3.Implies(n >= 2, z3.And(0 <= t, t <= n - 2)),
                z3.Implies(z3.And(n >= 2, body(0) <= x, x < body(n - 1)), z3.And(body(t) <= x, x < body(t + 1)))]

    def ax_lin(self, t, f, depth):
        """definition of linear interpolation within the knots"""
        body, n, (x,) = f.inst(t)
        if not self.deep:
            return []

        def xs(k):
            return pair_args(body(k))[0]

        def ys(k):
            return pair_args(body(k))[1]
        c = functional("brk", xs, n, extra=(x,), sort=I)
        c1 = z3.simplify(c + 1, som=True)
        n1 = z3.simplify(n - 1, som=True)
        a, b, ya, yb = xs(c), xs(c1), ys(c), ys(c1)
        inside = z3.And(n >= 2, xs(z3.IntVal(0)) <= x, x < xs(n1))
        s = z3.Real("slope@%d" % t.get_id())
        return [z3.Implies(x == xs(n1), t == ys(n1)),
                z3.Implies(inside, z3.And(0 <= c, c <= n - 2, a <= x, x < b, (t - ya) * (b - a) == (x - a) * (yb - ya))),
                # consequences, linear in the values
                z3.Implies(z3.And(inside, ya <= yb), z3.And(ya <= t, t <= yb)),
                z3.Implies(z3.And(inside, ya < yb, a < x), z3.And(ya < t, t < yb)),
                z3.Implies(z3.And(inside, ya >= yb), z3.And(ya >= t, t >= yb)),
                z3.Implies(z3.And(inside, x == a), t == ya)]

    def ax_ssl(self, t, f, depth):
        # searchsorted side left: body(k) < x below, >= x from there on
        body, n, (x,) = f.inst(t)
        self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), (body(k) < x) == (k < t)), "ssl")
        return [0 <= t, z3.Implies(n >= 0, t <= n), z3.Implies(z3.And(n >= 0, t > 0), body(t - 1) < x), z3.Implies(z3.And(n >= 0, t < n), body(t) >= x)]

    def ax_ssr(self, t, f, depth):
        body, n, (x,) = f.inst(t)
        self.fa(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), (body(k) <= x) == (k < t)), "ssr")
        return [0 <= t, z3.Implies(n >= 0, t <= n), z3.Implies(z3.And(n >= 0, t > 0), body(t - 1) <= x), z3.Implies(z3.And(n >= 0, t < n), body(t) > x)]

    def ax_sort(self, t, f, depth):
        body, n, (j,) = f.inst(t)
        w = sk(t, "perm")
        return [z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= w, w < n, t == body(w)))]


def pair_args(t):
    t = t if z3.is_app(t) and t.decl().eq(sym.PAIR) else z3.simplify(t)
    if not (z3.is_app(t) and t.decl().eq(sym.PAIR)):
        raise Unsupported("knots of an interpolation are not a pair")
    return t.arg(0), t.arg(1)


# ------------------------------------------------------------------------------------------------ instantiation
def has_quant_vars(t):
    return "?" in t.decl().name()


def ground(hyps, facts, extra, rounds=3, hints=(), deep=True, limit=MAX_INST):
    """quantifier-free consequences of hyps + facts relevant to the terms that occur; deep: with the definition of linear
    interpolation, which is not linear arithmetic"""
    ax = Axioms(deep)
    base = [f for f in hyps] + list(extra)
    out, seen_f = [], set()
    keep = []

    def add(f):
        f = z3.simplify(f)
        keep.append(f)
        if z3.is_true(f) or f.get_id() in seen_f:
            return
        seen_f.add(f.get_id())
        out.append(f)
    for f in base:
        add(term(f) if not is_t(f) else f)
    hint_terms = [z3.simplify(h, som=True) for h in hints if is_t(h)]
    seen_t, apps = set(), []
    inst_done = set()
    start = 0
    cur = list(out) + hint_terms
    for depth in range(rounds):
        apps_of(cur, seen_t, apps)
        cur = []
        n0 = len(out)
        for a in ax.run(list(apps), depth):
            add(a)
        apps_of(out[n0:], seen_t, apps)
        byd = {}
        for t in apps:
            byd.setdefault(t.decl().get_id(), []).append(t)
        pool = {}
        for t in apps:
            for a in t.children():
                if a.sort() == I:
                    pool[a.get_id()] = a
        for h in hint_terms:
            if h.sort() == I:
                pool[h.get_id()] = h
        pool = list(pool.values())[:60]
        for fa in list(facts) + list(ax.foralls):
            fid = fa.body.get_id()
            for tup in matches(fa, byd, pool, hint_terms):
                k = (fid,) + tuple(x.get_id() for x in tup)
                if k in inst_done:
                    continue
                inst_done.add(k)
                keep.append(tup)
                add(z3.substitute(fa.body, *list(zip(fa.vars, tup))))
                if len(out) > limit:
                    GROUND_CUT.append(1)
                    return out
        cur = out[n0:]
        if not cur:
            break
    keep.append(ax)
    GROUND_KEEP.append(keep)
    del GROUND_KEEP[:-4]
    return out


GROUND_KEEP = []
GROUND_CUT = []


def run_z3(fs, ms, seed=0, nl=True):
    s = z3.SimpleSolver() if seed == 1 or not nl else z3.Solver()
    if not nl:
        s.set("arith.nl", False)
    s.set("timeout", ms)
    for f in fs:
        s.add(f)
    STATS["queries"] += 1
    t = time.time()
    r = s.check()
    STATS["time"] += time.time() - t
    return str(r), s


CVC5 = "cvc5"


def run_cvc5(fs, ms):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    os.write(fd, txt.encode())
    os.close(fd)
    t = time.time()
    try:
        r = subprocess.run([CVC5, "--tlimit=%d" % ms, "--nl-ext-tplanes", p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        res = (r.stdout.strip().split("\n") or [""])[-1]
    except Exception:
        res = "unknown"
    finally:
        os.unlink(p)
    STATS["time"] += time.time() - t
    return res if res in ("sat", "unsat") else "unknown"


def refuted(c, cond, rounds):
    """is cond impossible here, as far as a quick look shows?"""
    STATS["feas"] += 1
    s = z3.SimpleSolver()
    s.set("timeout", 300)
    for f in c.pathcond + c.ghost + [cond]:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS["time"] += time.time() - t
    if r == z3.unsat:
        return True
    fs = ground(c.pathcond + c.ghost, c.facts, [cond], rounds=rounds, hints=c.hints, deep=False, limit=2500)
    s = z3.SimpleSolver()
    s.set("timeout", RL["feas_ms"])
    try:
        s.set("arith.nl", False)
    except z3.Z3Exception:
        pass
    for f in fs:
        s.add(f)
    STATS["queries"] += 1
    t = time.time()
    r = s.check()
    STATS["time"] += time.time() - t
    return r == z3.unsat


def feasible(c, cond):
    """may cond hold here?  (unknown counts as yes)"""
    return not refuted(c, cond, 2)


def valid(c, goal):
    return refuted(c, z3.Not(term(cst(goal))), 3)


def split_goal(goal):
    """conjuncts of the goal, with the hypotheses of implications"""
    out = []

    def go(g, hyps):
        if z3.is_and(g):
            for c in g.children():
                go(c, hyps)
        elif z3.is_implies(g):
            go(g.arg(1), hyps + [g.arg(0)])
        else:
            out.append((hyps, g))
    go(goal, [])
    return out


def decide(ob, ms=None):
    """(status, backend, model): status in discharged / failed / undecided"""
    ms = ms or RL["valid_ms"]
    hyps, facts, hints = ob.hyps
    worst = ("discharged", "z3", None)
    for extra, g in split_goal(ob.goal):
        if z3.is_true(z3.simplify(g)):
            continue
        r = decide1(hyps + extra, facts, hints, g, ms)
        if r[0] == "failed":
            return r
        if r[0] == "undecided" or r[1] != "z3":
            worst = r
    return worst


def decide1(hyps, facts, hints, g, ms):
    last = None
    hints = list(hints)
    for rounds in (2, 3, -3):
        if rounds < 0:
            # the indices the goal speaks of, as instances everywhere
            more = [v for v in sym.free_ints(g) if not any(v.eq(h) for h in hints)]
            if not more or len(more) > 6:
                break
            hints, rounds = hints + more, -rounds
        # products as opaque terms first
        fs = ground(hyps, facts, [z3.Not(g)], rounds=rounds, hints=hints, deep=False)
        r, s = run_z3(fs, min(ms, 3000), nl=False)
        if r == "unsat":
            STATS["z3"] += 1
            return "discharged", "z3", None
    for rounds in (2, 3, 4):
        del GROUND_CUT[:]
        fs = ground(hyps, facts, [z3.Not(g)], rounds=rounds, hints=hints)
        cut = bool(GROUND_CUT)
        r, s = run_z3(fs, ms)
        if r == "unsat":
            STATS["z3"] += 1
            return "discharged", "z3", None
        last = ("unknown" if cut else r, s, fs)
        if (r == "unknown" or cut) and rounds >= 3:
            break
    r, s, fs = last
    if r != "sat":
        r2, s2 = run_z3(fs, ms, seed=1)
        if r2 == "unsat":
            STATS["z3"] += 1
            return "discharged", "z3", None
        if r2 == "sat" and not cut:
            r, s = r2, s2
    if r != "sat":
        r3 = run_cvc5(fs, ms)
        if r3 == "unsat":
            STATS["cvc5"] += 1
            return "discharged", "cvc5", None
        if r3 == "sat" and not cut:
            return "failed", "cvc5", "sat"
        return "undecided", "z3+cvc5", None
    # the instances admit a model: one more attempt with the quantified facts themselves
    q = list(fs) + [z3.ForAll(fa.vars, fa.body) for fa in facts]
    r4, _ = run_z3(q, min(ms, 6000))
    if r4 == "unsat":
        STATS["z3"] += 1
        return "discharged", "z3", None
    m = None
    try:
        m = s.model()
    except z3.Z3Exception:
        pass
    return "failed", "z3", m


def _ax_bin(self, t, f, depth):
    # utils.get_bin_indices' contract: an index of a bin
    body, n, (x,) = f.inst(t)
    return [z3.Implies(n >= 2, z3.And(0 <= t, t <= n - 2))]


Axioms.ax_bin = _ax_bin
