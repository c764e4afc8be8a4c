"""What contract files are written with."""
import re
import types
import z3
from .sym import *
from . import sym, npshim, sshim, load

CONTRACTS = []


class Contract:
    def __init__(self, props, target, fn, cases, note, size):
        self.props, self.target, self.fn, self.cases, self.note, self.size = props, target, fn, cases, note, size


def contract(props, target, cases=(None,), note="", size=1, again=True):
    """again: also as a later use, after one with other arguments
    the decorated function states and exercises the contract of `target` (a function of the package) in each case"""
    def deco(fn):
        CONTRACTS.append(Contract(props.split(), target, fn, list(cases), note, size))
        CONTRACTS[-1].again = again
        return fn
    return deco


KEPT = set()


def kept(helper):
    """the object this helper makes is used first with other arguments, when a contract is run for a later use of the same object"""
    KEPT.add(helper.__name__)

    def made(k, *a, **kw):
        key = (helper.__name__,) + tuple(v for v in a if isinstance(v, (str, bool))) + tuple(sorted(kw.items()))
        if ctx.same and not ctx.earlier and key in ctx.kept:
            value, stubs = ctx.kept[key]
            for target, fn in stubs:
                k.stub(target, fn)
            return value
        n = len(k.log)
        value = helper(k, *a, **kw)
        if ctx.same:
            ctx.kept[key] = (value, k.log[n:])
        return value
    made.__name__, made.__doc__ = helper.__name__, helper.__doc__
    return made


class K:
    """helpers available to a contract"""
    def __init__(self, world):
        self.w = world
        self.stubs, self.log = [], []

    def mod(self, name):
        return self.w.load("qp." + name)

    # ---- inputs
    def dim(self, name, lo=1):
        d = z3.Int(ctx.prefix + name)
        ctx.assume(d >= lo)
        return d

    def real(self, name, shape, protect=True):
        return self._arr(name, shape, R, "f", protect)

    def ints(self, name, shape, lo=None, hi=None, protect=True):
        a = self._arr(name, shape, I, "i", protect)
        if lo is not None or hi is not None:
            self.each(a, lambda v, *i: And(le(lo, v) if lo is not None else True, lt(v, hi) if hi is not None else True))
        return a

    def bools(self, name, shape, protect=True):
        return self._arr(name, shape, B, "b", protect)

    def _arr(self, name, shape, sort, kind, protect):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        name = ctx.prefix + name
        if shape:
            f = z3.Function(name, *([I] * len(shape) + [sort]))
            a = from_fn(shape, lambda idx: f(*[term(v) for v in idx]), kind)
        else:
            c = z3.Const(name, sort)
            a = from_fn((), lambda idx: c, kind)
        if protect:
            a.buf.protected = name
        return a

    def each(self, a, fn):
        """precondition on every element: fn(value, *indices)"""
        f, shp = a.snap(), a.shape_
        if not shp:
            ctx.assume(term(fn(f(()))))
            return
        ctx.forall(len(shp), lambda *i: Implies(inrange(i, shp), fn(f(i), *i)), "pre")

    def adjacent(self, a, fn):
        """precondition on neighbours along the last axis: fn(left, right)"""
        f, shp = a.snap(), a.shape_
        ctx.forall(len(shp), lambda *i: Implies(And(inrange(i[:-1], shp[:-1]), le(0, i[-1]), lt(add(i[-1], 1), shp[-1])),
                                              fn(f(i), f(tuple(i[:-1]) + (add(i[-1], 1),)))), "adj")

    def increasing(self, a, strict=True):
        """along the last axis; also in its transitive form (an induction carried out once here, as a lemma)"""
        op = lt if strict else le
        self.adjacent(a, lambda x, y: op(x, y))
        f, shp = a.snap(), a.shape_
        nd = len(shp)
        ctx.forall(nd + 1, lambda *v: Implies(And(inrange(v[:nd - 1], shp[:-1]), le(0, v[nd - 1]), lt(v[nd - 1], v[nd]), lt(v[nd], shp[-1])),
                                              op(f(v[:nd]), f(tuple(v[:nd - 1]) + (v[nd],)))), "incr")
        ctx.use("an array increasing between neighbours is increasing (lemma by induction, not re-proved)")

    def pre(self, c):
        ctx.assume(term(cst(c)))

    # ---- outputs
    def ensure(self, name, goal, kind="post"):
        ctx.oblige(name, goal, kind)

    def step(self, name, goal):
        """an intermediate assertion: obliged, then known"""
        ctx.oblige(name, goal, "lemma")
        ctx.assume(term(cst(goal)))

    def shape(self, name, a, shape):
        a = asarr(a)
        ctx.oblige("%s: rank" % name, len(a.shape_) == len(shape))
        if len(a.shape_) != len(shape):
            raise PathEnd()
        for k, (d, e) in enumerate(zip(a.shape_, shape)):
            ctx.oblige("%s: length of axis %d" % (name, k), eq(d, e))
        return a

    def shape_is(self, name, shp, dims):
        """a shape (tuple, or array of lengths) is this one"""
        if isinstance(shp, Arr):
            shp = [shp.get((i,)) for i in range(shp.shape_[0])] if shp.ndim else [shp.get(())]
        if not isinstance(shp, (tuple, list)):
            shp = [shp]
        ctx.oblige(name, len(shp) == len(dims) and And(*[eq(rawi(a), b) for a, b in zip(shp, dims)]))

    def each_is(self, name, a, shape, spec, rel=None):
        """the array has this shape and element idx satisfies spec: equality with spec(*idx), or rel(element, *idx)"""
        a = self.shape(name, a, shape)
        vs = tuple(ctx.int("o") for _ in shape)
        rng = inrange(vs, shape)
        t = a.get(vs)
        goal = eq(t, spec(*vs)) if rel is None else rel(t, *vs)
        ctx.oblige("%s: every element" % name, Implies(rng, goal))

    def all(self, name, shape, goal):
        vs = tuple(ctx.int("o") for _ in shape)
        ctx.oblige(name, Implies(inrange(vs, shape), goal(*vs)))

    def lemma(self, name, base, n, p):
        """p(base) and p(k) -> p(k+1) for base <= k < n, both obliged; then p(k) for base <= k <= n is known"""
        ctx.oblige("%s: base" % name, Implies(le(base, n), p(term(base))), "lemma")
        k = ctx.int("ind")
        ctx.oblige("%s: step" % name, Implies(And(le(base, k), lt(k, n), p(k)), p(add(k, 1))), "lemma")
        ctx.forall(1, lambda k: Implies(And(le(base, k), le(k, n)), p(k)), name)

    def known(self, name, nvars, p, hint=None):
        """p for all integers: obliged for arbitrary ones (hint: terms of these to consider), then known"""
        vs, h0 = [ctx.int("any") for _ in range(nvars)], list(ctx.hints)
        if hint:
            ctx.hint(*hint(*vs))
        ctx.oblige(name, p(*vs), "lemma")
        ctx.hints = h0
        ctx.forall(nvars, p, name)

    def quotient(self, name, p, b, q, r):
        """p divided by b is q, remainder r: obliged to fit; that they are then the quotient and remainder is proved on its own"""
        ctx.oblige("%s: fits" % name, And(le(0, r), lt(r, b), eq(p, add(mul(q, b), r))), "lemma")
        q1, r1, q2, r2, bb = (z3.Int(ctx.name("eu")) for _ in range(5))
        ctx.alone("%s: quotient and remainder are unique" % name,
                  z3.Implies(z3.And(0 <= r1, r1 < bb, 0 <= r2, r2 < bb, q1 * bb + r1 == q2 * bb + r2), z3.And(q1 == q2, r1 == r2)))
        ctx.assume(And(eq(idiv(p, b), q), eq(imod(p, b), r)))

    def linear(self, name, f, parts, n):
        """the sum of f over j < n is the combination of the sums of the parts [(coefficient, function)], if f(j) is that of their
        values at every j (obliged; that sums are linear then is an induction whose step is obliged on its own)"""
        j = ctx.int("lin")
        comb = lambda g: sum_terms([mul(c, g(p)) for c, p in parts])
        ctx.oblige("%s: every term" % name, Implies(And(le(0, j), lt(j, n)), eq(f(j), comb(lambda p: p(j)))), "lemma")
        cs, ss, fs = ([z3.Real(ctx.name(w)) for _ in parts] for w in ("c", "s", "f"))
        tot = lambda vs: z3.Sum(*[c * v for c, v in zip(cs, vs)]) if len(cs) > 1 else cs[0] * vs[0]
        s0, f0 = z3.Real(ctx.name("s")), z3.Real(ctx.name("f"))
        ctx.alone("%s: one more term" % name, z3.Implies(z3.And(s0 == tot(ss), f0 == tot(fs)), s0 + f0 == tot([a + b for a, b in zip(ss, fs)])))
        ctx.assume(eq(Sum(f, n), comb(lambda p: Sum(p, n))))

    def invariant(self, loop_of, locals=None, arrays=None, attrs=None, named=None, depth=0):
        """the state of the (only) symbolic loop of a function at this nesting depth after i iterations; ctx.loop_idx has the
        iterations of the enclosing ones"""
        ctx.loops.append((loop_of, load.Inv(locals, arrays, attrs, named, depth)))

    # ---- modularity
    def stub(self, target, fn):
        """calls of `target` in the package obey the contract fn instead of running the body"""
        modname, name = target.rsplit(".", 1)
        try:
            m = self.mod(modname)
            owner = None
        except ModuleNotFoundError:
            modname, cls = modname.rsplit(".", 1)
            m = self.mod(modname)
            owner = getattr(m, cls)
        self.stubs.append(target)
        self.log.append((target, fn))
        if owner is not None and not hasattr(owner, name):
            raise Unsupported("%s is not there" % target)
        if owner is not None:
            self.w.patches.append((owner, name, owner.__dict__.get(name), name in owner.__dict__))
            setattr(owner, name, fn)
            return
        real = getattr(m, name)
        for mm in list(self.w.mods.values()):
            for k, v in list(vars(mm).items()):
                if v is real and not isinstance(v, type(None)):
                    self.w.patches.append((mm, k, v, True))
                    setattr(mm, k, fn)


def sum_terms(ts):
    r = ts[0]
    for t in ts[1:]:
        r = add(r, t)
    return r


def poke(obj, **attrs):
    """state that a stubbed callee or constructor leaves on the object, as its contract has it. Private names are the
    code's own choice: where it no longer has them the contract does not say what the state is"""
    text = None
    for name, v in attrs.items():
        if name not in vars(obj):
            if text is None:
                files = {getattr(f, "__globals__", {}).get("__file__", "") for c in type(obj).__mro__ for f in vars(c).values()}
                text = "\n".join(open(f).read() for f in files if "/qp/" in f)
            if not re.search(r"\.%s\b" % re.escape(name), text):
                raise Unsupported("the code keeps no %s" % name)
        setattr(obj, name, v)


def inrange(vs, shape):
    return And(*[And(le(0, v), lt(v, d)) for v, d in zip(vs, shape)])


def at(a, *idx):
    """raw element of an array now, as a function usable in a spec"""
    return asarr(a).get(tuple(idx))


def fn_of(a):
    f = asarr(a).snap()
    return lambda *idx: f(tuple(idx))
