"""Symbolic values of the verification-condition generator.

Every number the code under verification handles is an `Arr`: an array (rank 0 for scalars) with a shape of python ints
or z3 integer terms and elements given by a function from index terms to z3 terms.  Reals are mathematical reals,
integers are mathematical integers.  Branching on a symbolic truth value asks the context which path to follow.
"""
import fractions, itertools, math
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """The code uses something the generator has no contract for: the function stays undecided"""


class PathEnd(BaseException):
    """The current path is infeasible"""


# ------------------------------------------------------------------------------------------------ raw terms
def is_t(v):
    return isinstance(v, z3.ExprRef)


def real_const(v):
    fr = fractions.Fraction(repr(float(v))) if isinstance(v, float) else fractions.Fraction(v)
    return z3.RealVal(str(fr))


NAN = z3.Const("NaN", R)
SKEY = {}


def term(v):
    """z3 term of a raw value (python number or term)"""
    if is_t(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return INF if v > 0 else -INF
        return real_const(v)
    if isinstance(v, Arr) and v.ndim == 0:
        return term(v.get(()))
    raise Unsupported("not a number: %r" % (type(v),))


INF = z3.Const("Infinity", R)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_t(v) and v.sort() == I)


def is_bool(v):
    return isinstance(v, bool) or (is_t(v) and z3.is_bool(v))


def is_conc(v):
    return not is_t(v)


def cst(v):
    """python value of a constant term, else the term itself"""
    if is_t(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def num(v):
    """truth values as numbers"""
    if isinstance(v, bool):
        return int(v)
    if is_t(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def real(v):
    v = num(v)
    if not is_t(v):
        return term(float(v)) if isinstance(v, float) else z3.RealVal(v)
    return z3.ToReal(v) if v.sort() == I else v


def truth(v):
    if isinstance(v, (bool, int, float)):
        return bool(v)
    if z3.is_bool(v):
        return v
    # (If c 1 0) != 0
    return cst(z3.simplify(v != 0))


def both(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a, b
    if (is_int(a) and is_int(b)):
        return term(a), term(b)
    return real(a), real(b)


def add(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a + b
    if is_conc(a) and a == 0 and (is_int(a) or not is_int(b)):
        return b
    if is_conc(b) and b == 0 and (is_int(b) or not is_int(a)):
        return a
    a, b = both(a, b)
    return lin(a + b)


def sub(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a - b
    if is_conc(b) and b == 0 and (is_int(b) or not is_int(a)):
        return a
    a, b = both(a, b)
    if a.eq(b):
        return 0 if is_int(a) else 0.0
    return lin(a - b)


def lin(t):
    """keep integer (index) terms in normal form"""
    if t.sort() != I:
        return t
    t = cst(z3.simplify(t, som=True))
    if is_t(t) and z3.is_app_of(t, z3.Z3_OP_ADD):
        # n * (p div n) + p mod n is p
        for m in t.children():
            if z3.is_app(m) and m.decl().eq(MOD):
                p, n = m.children()
                q = z3.simplify(n * DIV(p, n), som=True)
                if any(c.eq(q) for c in t.children()):
                    return lin(t - m - q + p)
    return t


def mul(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a * b
    if is_conc(a):
        a, b = b, a
    if is_conc(b):
        if b == 1 and (is_int(b) or not is_int(a)):
            return a
        if b == 0 and is_int(b) and is_int(a):
            return 0
    a, b = both(a, b)
    return lin(a * b)


def div(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b) and b != 0:
        if isinstance(a, int) and isinstance(b, int):
            return z3.RealVal(str(fractions.Fraction(a, b)))
        return a / b
    if is_conc(b) and b == 1:
        return real(a)
    return real(a) / real(b)


def eq(a, b):
    if is_bool(a) != is_bool(b):
        a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a == b
    if is_bool(a):
        return term(a) == term(b)
    a, b = both(a, b)
    if a.eq(b):
        return True
    if a.sort() == I:
        return cst(z3.simplify(a == b))
    return a == b


def cmp(op, a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return {"<": a < b, "<=": a <= b}[op]
    # infinities compare as such with every number
    for v, o, left in ((a, b, True), (b, a, False)):
        if isinstance(v, float) and math.isinf(v):
            return (v < 0) if left else (v > 0)
    a, b = both(a, b)
    if a.eq(b):
        return op == "<="
    r = a < b if op == "<" else a <= b
    return cst(z3.simplify(r)) if a.sort() == I else r


def lt(a, b):
    return cmp("<", a, b)


def le(a, b):
    return cmp("<=", a, b)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        x = cst(x)
        if x is False:
            return False
        if x is not True:
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        x = cst(x)
        if x is True:
            return True
        if x is not False:
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    x = cst(x)
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    c = cst(c)
    if c is True:
        return a
    if c is False:
        return b
    if is_bool(a) and is_bool(b):
        if is_conc(a) and is_conc(b) and a == b:
            return a
        return z3.If(c, term(a), term(b))
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b) and a == b and type(a) == type(b):
        return a
    if is_int(a) and is_int(b):
        a, b = term(a), term(b)
    else:
        a, b = real(a), real(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def to_int(v):
    """truncation towards zero"""
    v = num(v)
    if is_conc(v):
        return int(v)
    if v.sort() == I:
        return v
    s = z3.simplify(v)
    if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
        return cst(s.arg(0))
    d = v if z3.is_app_of(v, z3.Z3_OP_DIV) else s
    if z3.is_app_of(d, z3.Z3_OP_DIV) and all(z3.is_app_of(u, z3.Z3_OP_TO_REAL) for u in d.children()):
        # of a quotient of integers
        a, b = d.arg(0).arg(0), d.arg(1).arg(0)
        return ite(z3.And(a >= 0, b > 0), idiv(a, b), z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def floor(v):
    v = num(v)
    if is_conc(v):
        return float(math.floor(v))
    if v.sort() == I:
        return v
    return z3.ToReal(z3.ToInt(v))


def idiv(a, b):
    if is_conc(a) and is_conc(b):
        return a // b
    if is_conc(b) and b == 1:
        return a
    r = ctx.split(a, b)
    if r is not None:
        return r[0]
    return ctx.divmod(a, b)[0]


def imod(a, b):
    if is_conc(a) and is_conc(b):
        return a % b
    if is_conc(b) and b == 1:
        return 0
    r = ctx.split(a, b)
    if r is not None:
        return r[1]
    return ctx.divmod(a, b)[1]


# ------------------------------------------------------------------------------------------------ context
class Obligation:
    def __init__(self, name, goal, hyps, kind="post"):
        self.name, self.goal, self.hyps, self.kind = name, goal, hyps, kind


class Forall:
    """a universally quantified fact: fn(*vars) is the matrix"""
    def __init__(self, vars_, body, name=""):
        self.vars, self.body, self.name = vars_, body, name


class Ctx:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.functionals = {}       # symbol name -> Functional
        self.fkeys = {}
        self.keep = []
        SKEY.clear()
        self.divs = {}
        self.assumed = {}           # names of assumed contracts used
        self.reset_path([])

    def reset_path(self, decisions, work=None):
        self.decisions, self.pos, self.work = list(decisions), 0, work if work is not None else []
        self.pathcond, self.facts, self.splits = [], [], []
        self.obligations = []
        self.trivial = 0
        self.counter = 0
        self.inputs = []            # (name, Arr) whose buffers must not be written
        self.frame_errors = []
        self.depth = 0
        self.nested = 0
        self.ghost = []             # quantifier-free facts that hold on every path
        self.hints = []             # terms the instantiation should consider
        self.loop_idx = []
        self.loops = []             # (part of a function's name, Inv): loop invariants the contract gives
        self.dimpairs = []          # (m, n): lengths of adjacent axes of a reshaped array
        self.selections = []        # (count, position of the j-th picked, mask, length): rows picked by masks
        self.digest_links = []
        self.prefix = ""            # of the names of the inputs of an earlier use of the function
        self.earlier = False        # in that earlier use: one path only
        self.same, self.kept = False, {}    # the object of the earlier use is used again
        self.alt = []               # others of it, taken when that one does not end
        self.nonfinite = False      # some reals stand for undefined values (npshim.FINITE)

    # names
    def name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def int(self, base, lo=None, exact=False):
        t = z3.Int(base if exact else self.name(base))
        if lo is not None:
            self.assume(t >= lo)
        return t

    def use(self, what):
        self.assumed[what] = self.assumed.get(what, 0) + 1

    # facts
    def assume(self, f):
        f = cst(f)
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.pathcond.append(f)

    def forall(self, n, fn, name="", names=None):
        vs = [z3.Int("%s?%d" % (name or "v", k)) for k in range(n)]
        body = fn(*vs)
        body = cst(body)
        if body is True:
            return
        self.facts.append(Forall(vs, term(body), name))

    def oblige(self, name, goal, kind="post"):
        goal = cst(goal)
        if z3.is_true(term(goal)):
            self.trivial += 1
            self.obligations.append(Obligation(name, term(goal), None, kind))
            return
        self.obligations.append(Obligation(name, term(goal), (list(self.pathcond) + list(self.ghost), list(self.facts), list(self.hints)), kind))

    def alone(self, name, goal):
        """an obligation without hypotheses"""
        self.obligations.append(Obligation(name, term(goal), ([], [], []), "lemma"))

    def hint(self, *ts):
        self.hints += [t for t in ts if is_t(t)]

    def fact(self, f):
        """a fact that holds whatever the path"""
        f = cst(f)
        if f is True:
            return
        self.ghost.append(term(f))

    def dimpair(self, m, n):
        m, n = term(m), term(n)
        if not any(a.eq(m) and b.eq(n) for a, b in self.dimpairs):
            self.dimpairs.append((m, n))

    def prodfact(self, total, q, rest):
        self.fact(term(total) == term(q) * term(rest))
        self.fact(z3.Implies(term(total) >= 0, term(q) >= 0))
        self.fact(z3.Implies(term(total) > 0, term(q) > 0))

    # index splitting: p == i*n + j with 0 <= j < n
    def split_fact(self, p, n, i, j):
        self.splits.append((z3.simplify(term(p), som=True), z3.simplify(term(n), som=True), i, j))

    def split(self, p, n):
        p, n = z3.simplify(term(p), som=True), z3.simplify(term(n), som=True)
        for (pp, nn, i, j) in self.splits:
            if pp.eq(p) and nn.eq(n):
                return i, j
        return None

    def divmod(self, a, b):
        a, b = term(a), term(b)
        q, r = DIV(a, b), MOD(a, b)
        return q, r

    # branching
    def branch(self, cond):
        cond = cst(cond)
        if isinstance(cond, bool):
            return cond
        cond = cst(z3.simplify(cond))
        if isinstance(cond, bool):
            return cond
        if self.pos < len(self.decisions):
            v, forced = self.decisions[self.pos]
            self.pos += 1
            self.pathcond.append(cond if v else z3.Not(cond))
            return v
        from . import solve
        t = solve.feasible(self, cond)
        f = solve.feasible(self, z3.Not(cond))
        if t and f:
            (self.alt if self.earlier and not self.nested else self.work).append(self.decisions[:self.pos] + [(False, False)])
            v, forced = True, False
        elif t or f:
            v, forced = t, True
        else:
            raise PathEnd()
        self.decisions.append((v, forced))
        self.pos += 1
        self.pathcond.append(cond if v else z3.Not(cond))
        if len(self.decisions) > 400 or sum(1 for _, d in self.decisions if not d) > 60:
            raise Unsupported("too many branches on one path")
        return v


ctx = Ctx()
DIV = z3.Function("idiv", I, I, I)
MOD = z3.Function("imod", I, I, I)
PAIR = z3.Function("pair", R, R, R)


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc


GAPS = (AttributeError, NameError, AssertionError, z3.Z3Exception, RecursionError, ImportError)


def engine_gap(e):
    """an exception the engine itself raised for want of a feature makes the function undecided; so do exceptions of the
    kinds the code never raises on purpose"""
    import os, traceback
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    inside = last is not None and os.path.dirname(os.path.abspath(last.tb_frame.f_code.co_filename)) == HERE
    if isinstance(e, GAPS) or (inside and isinstance(e, (TypeError, KeyError, ZeroDivisionError, OverflowError)) and not getattr(e, "modelled", False)):
        import os as _os
        if _os.environ.get("VC_DEBUG"):
            traceback.print_exception(e)
        raise Unsupported("%s: %s" % (type(e).__name__, e))


import os as _os0
HERE = _os0.path.dirname(_os0.path.abspath(__file__))


def nested(fn):
    """Run fn over all paths from here.  Returns [(condition, value or exception)]; facts and obligations accumulate."""
    work, out = [[]], []
    saved = (ctx.decisions, ctx.pos, ctx.work)
    base = len(ctx.pathcond)
    n0 = ctx.counter
    ctx.nested += 1
    try:
        while work:
            dec = work.pop()
            ctx.decisions, ctx.pos, ctx.work = list(dec), 0, work
            ctx.counter = n0 if not out else ctx.counter
            try:
                v = Outcome(fn())
            except PathEnd:
                v = None
            except RecursionError:
                raise Unsupported("recursion")
            except Exception as e:            # the verified code raises
                engine_gap(e)
                v = Outcome(exc=e)
            if v is not None:
                out.append((And(*ctx.pathcond[base:]), v))
            del ctx.pathcond[base:]
            if len(out) > 40:
                raise Unsupported("too many nested paths")
    finally:
        ctx.decisions, ctx.pos, ctx.work = saved
        ctx.nested -= 1
        del ctx.pathcond[base:]
    if not out:
        raise PathEnd()
    return out


def free_ints(*terms):
    """0-ary uninterpreted integer constants, in order of occurrence"""
    seen, out, stack = set(), [], [t for t in reversed(terms) if is_t(t)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == I:
            out.append(t)
        else:
            for c in reversed(t.children()):
                stack.append(c)
    return out


class Functional:
    """symbol(params..., n, extra...) = kind over k in [0, n) of body(params, k)"""
    def __init__(self, kind, sym, params, k, body, nextra):
        self.kind, self.sym, self.params, self.k, self.body, self.nextra = kind, sym, params, k, body, nextra

    def inst(self, app):
        """(function k -> body, n, extra) of an application"""
        args = app.children()
        m = len(self.params)
        pairs = list(zip(self.params, args[:m]))

        def body(k):
            return z3.substitute(self.body, *(pairs + [(self.k, term(k))]))
        return body, args[m], args[m + 1:]


UF_AXIOMS = {}
UF_PAIRS = {}
KB = z3.Int("k?")


def abstract_ints(t, kb, preset=None):
    """(template, params, args): maximal integer subterms without kb, numerals excepted, become parameters"""
    memo, dep = {}, {}

    def has(u):
        i = u.get_id()
        if i not in dep:
            dep[i] = u.eq(kb) or any(has(c) for c in u.children())
        return dep[i]
    args, idx = [], {}
    if preset:
        args = list(preset)
        idx = {u.get_id(): j for j, u in enumerate(args)}

    def go(u):
        i = u.get_id()
        if i in memo:
            return memo[i]
        if u.sort() == I and not has(u):
            if z3.is_int_value(u):
                r = u
            else:
                if i not in idx:
                    idx[i] = len(args)
                    args.append(u)
                r = z3.Int("c?%d" % idx[i])
        elif u.num_args() == 0:
            r = u
        else:
            r = u.decl()(*[go(c) for c in u.children()]) if not (z3.is_app(u) and u.decl().kind() in NARY) else rebuild(u, [go(c) for c in u.children()])
        memo[i] = r
        return r
    r = go(t)
    return r, [z3.Int("c?%d" % k) for k in range(len(args))], args


NARY = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_SUB, z3.Z3_OP_DISTINCT)


def rebuild(u, cs):
    k = u.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(cs) if len(cs) > 1 else cs[0]
    if k == z3.Z3_OP_MUL:
        r = cs[0]
        for c in cs[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_SUB:
        r = cs[0]
        for c in cs[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*cs)
    if k == z3.Z3_OP_OR:
        return z3.Or(*cs)
    return z3.Distinct(*cs)


SORT_OF = {}


def bound(bodyfn):
    """bodyfn at the bound index, under a name of its own while it is evaluated"""
    ctx.depth += 1
    try:
        kb = z3.Int("k?%d" % ctx.depth)
        body = bodyfn(kb)
    finally:
        ctx.depth -= 1
    if is_t(body):
        body = z3.substitute(body, (kb, KB))
    return body


def functional(kind, bodyfn, n, extra=(), sort=R, raw_sort=R, shown=None):
    """kind: name of the functional, bodyfn: raw index -> raw element; shown: an equal form of the body, for the axioms"""
    body = bound(bodyfn)
    kb = KB
    body = real(body) if raw_sort == R else term(body) if raw_sort == I else term(truth(body))
    body = z3.simplify(body, som=False)
    cb, canon, ps = abstract_ints(body, kb)
    cb = z3.simplify(cb)
    key = (kind, cb.get_id(), len(ps))
    f = ctx.fkeys.get(key)
    extra = [term(e) for e in extra]
    if f is None:
        if shown is not None:
            sb, _, ps2 = abstract_ints(z3.simplify(shown), kb, ps)
            if len(ps2) == len(ps):
                ctx.keep.append(cb)
                cb = sb
        nm = "%s#%d" % (kind, len(ctx.functionals))
        sym = z3.Function(nm, *([I] * (len(ps) + 1) + [e.sort() for e in extra] + [sort]))
        f = Functional(kind, sym, canon, kb, cb, len(extra))
        ctx.functionals[nm] = f
        ctx.fkeys[key] = f
    return f.sym(*([p for p in ps] + [term(n)] + extra))


# ------------------------------------------------------------------------------------------------ polynomials
class TooBig(Exception):
    pass


MAXMONO = 48


def pmul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(d.items()))
            out[m] = out.get(m, 0) + c1 * c2
            if len(out) > MAXMONO:
                raise TooBig()
    return {m: c for m, c in out.items() if c}


def poly(t, atoms):
    """t as a polynomial: {((atom id, power), ...): coefficient}; divisors are not zero"""
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = fractions.Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else fractions.Fraction(t.as_long())
        return {(): v} if v else {}
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        out = {}
        for j, c in enumerate(t.children()):
            sg = -1 if (k == z3.Z3_OP_SUB and j) else 1
            for m, v in poly(c, atoms).items():
                out[m] = out.get(m, 0) + sg * v
        out = {m: v for m, v in out.items() if v}
        if len(out) > MAXMONO:
            raise TooBig()
        return out
    if k == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in poly(t.arg(0), atoms).items()}
    if k == z3.Z3_OP_MUL:
        out = {(): fractions.Fraction(1)}
        for c in t.children():
            out = pmul(out, poly(c, atoms))
        return out
    if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 4:
        out = {(): fractions.Fraction(1)}
        for _ in range(t.arg(1).numerator_as_long()):
            out = pmul(out, poly(t.arg(0), atoms))
        return out
    if k == z3.Z3_OP_DIV:
        den = poly(t.arg(1), atoms)
        if len(den) == 1:
            (m, c), = den.items()
            inv = {(): 1 / c}
            for a, e in m:
                u = 1 / atoms[a]
                atoms[u.get_id()] = u
                inv = pmul(inv, {((u.get_id(), e),): fractions.Fraction(1)})
        else:
            # a divisor up to a numerical factor
            ms = sorted(den, key=lambda m: monokey(m, atoms))
            c = den[ms[0]]
            d = unpoly({m: v / c for m, v in den.items()}, atoms)
            u = 1 / d
            atoms[u.get_id()] = u
            inv = {((u.get_id(), 1),): 1 / c}
        return pmul(poly(t.arg(0), atoms), inv)
    if k == z3.Z3_OP_TO_REAL and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        return poly(z3.simplify(t), atoms) if not z3.simplify(t).eq(t) else atom(t, atoms)
    return atom(t, atoms)


def atom(t, atoms):
    atoms[t.get_id()] = t
    return {((t.get_id(), 1),): fractions.Fraction(1)}


def shape_key(t):
    """text of a term with the integer subterms free of the bound index hidden"""
    i = t.get_id()
    r = SKEY.get(i)
    if r is None:
        r = abstract_ints(t, KB)[0].sexpr()
        SKEY[i] = r
        ctx.keep.append(t)
    return r


def monokey(m, atoms):
    return (len(m), sorted((shape_key(atoms[a]), e) for a, e in m), m)


def unpoly(p, atoms):
    out = []
    for m in sorted(p, key=lambda m: monokey(m, atoms)):
        fs = []
        for a, e in sorted(m, key=lambda ae: (shape_key(atoms[ae[0]]), ae[0])):
            fs += [atoms[a]] * e
        c = p[m]
        r = z3.RealVal(str(c)) if c != 1 or not fs else None
        for f in fs:
            r = f if r is None else r * f
        out.append(r)
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(*out)


def canonical(body):
    """body = factor (without the bound index) * rest, rest in canonical form; None when it grows too large"""
    atoms = {}
    try:
        p = poly(body, atoms)
    except TooBig:
        return None
    if not p:
        return z3.RealVal(0), None, z3.RealVal(0)
    dep = {a: any(v.eq(KB) for v in free_ints(t)) for a, t in atoms.items()}
    common = None
    for m in p:
        d = {a: e for a, e in m if not dep[a]}
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    q = {}
    for m, c in p.items():
        d = dict(m)
        for a, e in common.items():
            d[a] -= e
        q[tuple(sorted((a, e) for a, e in d.items() if e))] = c
    lead = q[min(q, key=lambda m: monokey(m, atoms))]
    q = {m: c / lead for m, c in q.items()}
    f = z3.RealVal(str(lead))
    for a, e in sorted(common.items()):
        for _ in range(e):
            f = f * atoms[a]
    ctx.keep.append(atoms)
    return f, unpoly(q, atoms), common and True


def factors(t, kb):
    """t = (product of factors without kb) * rest"""
    def dep(u):
        return any(v.eq(kb) for v in free_ints(u)) if is_t(u) else False
    if not dep(t):
        return [t], None
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        out, rest = [], []
        for c in t.children():
            fs, r = factors(c, kb)
            out += fs
            if r is not None:
                rest.append(r)
        return out, (rest[0] if len(rest) == 1 else z3.Product(*rest)) if rest else None
    if z3.is_app_of(t, z3.Z3_OP_DIV) and not dep(t.arg(1)):
        fs, r = factors(t.arg(0), kb)
        return fs + [1 / t.arg(1)], r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        fs, r = factors(t.arg(0), kb)
        return fs + [z3.RealVal(-1)], r
    return [], t


def unselected(bodyfn, n):
    """a body over the rows picked by a mask: (mask, body over all rows, number of all rows)"""
    for cnt, sel, m, total in ctx.selections:
        if is_t(n) and n.eq(cnt):
            q, w = z3.Int(ctx.name("picked")), z3.Int(ctx.name("row"))
            b = term(cst(bodyfn(q)))
            t = z3.substitute(b, (term(sel(q)), w))
            if any(v.eq(w) for v in free_ints(t)) and not any(v.eq(q) for v in free_ints(t)):
                return (lambda k: m((k,))), (lambda k: z3.substitute(t, (w, term(k)))), total
    return None


def fixed_choice(body):
    """condition of a choice in the body that does not depend on the bound index"""
    seen, stack = set(), [body]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not any(v.eq(KB) for v in free_ints(t.arg(0))) and any(v.eq(KB) for v in free_ints(t)):
            return t.arg(0)
        stack.extend(t.children())
    return None


def Sum(bodyfn, n):
    """ghost sum of bodyfn(k), 0 <= k < n"""
    n = cst(n)
    if is_conc(n) and n <= 4:
        s = 0
        for k in range(n):
            s = add(s, bodyfn(k))
        return s if is_t(s) or n else 0.0
    whole = unselected(bodyfn, n)
    if whole is not None:
        m, g, total = whole
        return Sum(lambda k: ite(truth(m(k)), real(g(k)), z3.RealVal(0)), total)
    body = z3.simplify(real(bound(bodyfn)))
    c = fixed_choice(body)
    if c is not None:
        # a choice which is the same for all terms
        yes, no = (z3.simplify(z3.substitute(body, (c, z3.BoolVal(v)))) for v in (True, False))
        return z3.If(c, *[real(Sum(lambda k: z3.substitute(b, (KB, term(k))), n)) for b in (yes, no)])
    c = canonical(body)
    if c is None:
        fs, rest = factors(body, KB)
        f = z3.RealVal(1)
        for x in fs:
            f = x * f
        shown = None
    else:
        f, rest, _ = c
        if rest is None or not any(v.eq(KB) for v in free_ints(rest)):
            f, rest = (f * rest if rest is not None else f), None
        shown = None
        if rest is not None:
            # the axioms use the body as it was written when only a number was taken out of it
            fs, r0 = factors(body, KB)
            try:
                at2 = {}
                p2 = poly(z3.simplify(r0), at2)
                p3 = poly(rest, at2)
                if len(p2) == len(p3):
                    m = next(iter(p3))
                    if m in p2 and all(mm in p2 and p2[mm] * p3[m] == p3[mm] * p2[m] for mm in p3):
                        shown = r0 * z3.RealVal(str(p3[m] / p2[m]))
            except TooBig:
                pass
    if rest is None:
        return f * z3.If(term(n) > 0, z3.ToReal(term(n)), z3.RealVal(0))
    s = functional("sum", lambda k: z3.substitute(rest, (KB, term(k))), n, shown=shown)
    f = z3.simplify(f)
    return s if z3.is_rational_value(f) and f.as_fraction() == 1 else f * s


# ------------------------------------------------------------------------------------------------ arrays
class Buffer:
    def __init__(self, shape, content, dtype, name=None):
        self.shape, self.content, self.dtype, self.name = tuple(shape), content, dtype, name
        self.version = 0
        self.protected = None       # name of the argument this belongs to
        self.guard = None

    def read(self, idx):
        if self.guard is not None:
            self.guard(idx)
        return self.content(idx)


def prod(xs):
    p = 1
    for x in xs:
        p = mul(p, x)
    return p


def dims_of(shape):
    """raw dims of a shape given by the code"""
    if isinstance(shape, Arr):
        if shape.ndim == 0:
            return (cst(shape.get(())),)
        n = shape.shape_[0]
        if not is_conc(n):
            raise Unsupported("array of symbolic rank")
        return tuple(cst(shape.get((k,))) for k in range(n))
    if isinstance(shape, int) or is_t(shape):
        return (shape,)
    return tuple(rawi(s) for s in shape)


def rawi(v):
    """raw integer of a value in the code"""
    if isinstance(v, Arr):
        if v.ndim == 0:
            return cst(v.get(()))
        if all(is_conc(d) and d == 1 for d in v.shape_):
            return cst(v.get((0,) * v.ndim))
        raise Unsupported("array used as an integer")
    if hasattr(v, "__index__"):
        return v.__index__()
    return v


def wrap(v):
    """value handed to the code for a raw dimension or element"""
    v = cst(v)
    if isinstance(v, (bool, int, float)):
        return v
    return scalar(v)


OBJECTS = []


def intern(o):
    """number of a string, bytes or None held in an array of objects"""
    for k, x in enumerate(OBJECTS):
        if type(x) is type(o) and x == o:
            return k
    OBJECTS.append(o)
    return len(OBJECTS) - 1


def is_obj(v):
    return v is None or isinstance(v, (str, bytes))


def unwrap(a):
    """value of a 0-d array in the code"""
    v = cst(a.get(()))
    if a.buf.dtype == "O":
        return OBJECTS[v] if is_conc(v) else Arr(Buffer((), lambda idx: v, "O"))
    return wrap(v)


def kind_of(v):
    if is_bool(v):
        return "b"
    return "i" if is_int(v) else "f"


def scalar(v):
    return Arr(Buffer((), lambda idx: v, kind_of(v)))


def from_fn(shape, fn, dtype=None):
    """new array from an index function"""
    shape = tuple(cst(s) for s in shape)
    if dtype is None:
        dtype = kind_of(fn(tuple(z3.Int("q?%d" % k) for k in range(len(shape)))))
    return Arr(Buffer(shape, fn, dtype))


class Dtype:
    def __init__(self, kind, name=None):
        self.kind, self.name = kind, name or {"f": "float64", "i": "int64", "b": "bool"}.get(kind, kind)

    def __eq__(self, other):
        return isinstance(other, Dtype) and (self.kind, self.name) == (other.kind, other.name)

    def __hash__(self):
        return hash((self.kind, self.name))

    def __repr__(self):
        return "dtype(%s)" % self.name


class Arr:
    is_pyint = False
    __array_priority__ = 1000

    def __init__(self, buf, spec=None, shape=None, alias=None):
        """spec: for each buffer dimension ('i', c) or ('s', start, step, view dimension)"""
        self.buf = buf
        self.shape_ = tuple(buf.shape) if shape is None else tuple(shape)
        self.spec = [("s", 0, 1, d) for d in range(len(buf.shape))] if spec is None else spec
        self.alias = alias          # (source buffer, version): a numpy view we only model as a copy

    # --- shape
    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def shape(self):
        return tuple(wrap(d) for d in self.shape_)

    @property
    def size(self):
        return wrap(prod(self.shape_))

    @property
    def dtype(self):
        return Dtype(self.buf.dtype, getattr(self.buf, "dtname", None))

    @property
    def data(self):
        return self

    @property
    def T(self):
        n = self.ndim
        return Arr(self.buf, [s if s[0] == "i" else ("s", s[1], s[2], n - 1 - s[3]) for s in self.spec], self.shape_[::-1], self.alias)

    def swapaxes(self, a, b):
        n = self.ndim
        perm = list(range(n))
        perm[a], perm[b] = perm[b], perm[a]
        a, b = a % n, b % n
        m = {a: b, b: a}
        sh = list(self.shape_)
        sh[a], sh[b] = sh[b], sh[a]
        return Arr(self.buf, [s if s[0] == "i" else ("s", s[1], s[2], m.get(s[3], s[3])) for s in self.spec], sh, self.alias)

    # --- reading
    def bufidx(self, idx):
        out = []
        for s in self.spec:
            if s[0] == "i":
                out.append(s[1])
            else:
                v = idx[s[3]]
                out.append(add(s[1], v if s[2] == 1 else mul(s[2], v)))
        return tuple(out)

    def get(self, idx):
        """raw element at raw indices"""
        if self.alias is not None and self.alias[0].version != self.alias[1]:
            raise Unsupported("source of a reshaped view was changed")
        return self.buf.read(self.bufidx(tuple(idx)))

    def snap(self):
        """index function of the current contents"""
        if self.alias is not None and self.alias[0].version != self.alias[1]:
            raise Unsupported("source of a reshaped view was changed")
        content, guard, me = self.buf.content, self.buf.guard, self

        def f(idx):
            bi = me.bufidx(tuple(idx))
            if guard is not None:
                guard(bi)
            return content(bi)
        return f

    def copy(self):
        a = from_fn(self.shape_, self.snap(), self.buf.dtype)
        dn = getattr(self.buf, "dtname", None)
        if dn:
            a.buf.dtname = dn
        return a

    def item(self):
        v = self.get(tuple(0 for _ in self.shape_))
        return unwrap(from_fn((), lambda idx: v, self.buf.dtype))

    # --- writing
    def write(self, region, valfn):
        """region(view idx) -> bool raw; valfn(view idx) -> raw.  Writes through to the buffer."""
        b = self.buf
        if self.alias is not None:
            if self.alias[0].protected:
                ctx.frame_errors.append(self.alias[0].protected)
                ctx.oblige("argument %s is not modified" % self.alias[0].protected, False, "frame")
            raise Unsupported("write through a reshaped view")
        if b.protected:
            ctx.frame_errors.append(b.protected)
            ctx.oblige("argument %s is not modified" % b.protected, False, "frame")
        old = b.content
        spec, shape = self.spec, self.shape_

        def content(bidx):
            conds, vidx = [], [0] * len(shape)
            for s, v in zip(spec, bidx):
                if s[0] == "i":
                    conds.append(eq(v, s[1]))
                else:
                    w = sub(v, s[1]) if s[2] == 1 else sub(s[1], v)
                    if s[2] not in (1, -1):
                        w = sub(v, s[1]) if s[2] > 0 else sub(s[1], v)
                        conds.append(eq(modulo(w, abs(s[2])), 0))
                        w = floordiv(w, abs(s[2]))
                    vidx[s[3]] = w
                    conds.append(And(le(0, w), lt(w, shape[s[3]])))
            inside = And(*conds)
            if inside is False:
                return old(bidx)
            inside = And(inside, region(tuple(vidx)))
            if inside is False:
                return old(bidx)
            if inside is True:
                return cast(valfn(tuple(vidx)), b.dtype)
            return ite(inside, cast(valfn(tuple(vidx)), b.dtype), old(bidx))
        b.content = content
        b.version += 1

    # --- operators
    def _bin(self, other, fn, dtype=None):
        return elementwise(fn, [self, other], dtype)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return elementwise(add, [o, self])
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return elementwise(sub, [o, self])
    def __mul__(self, o):
        return self._bin(o, lambda a, b: And(a, b) if is_bool(a) and is_bool(b) else mul(a, b))
    def __rmul__(self, o): return elementwise(lambda a, b: And(a, b) if is_bool(a) and is_bool(b) else mul(a, b), [o, self])
    def __truediv__(self, o): return self._bin(o, div, "f")
    def __rtruediv__(self, o): return elementwise(div, [o, self], "f")
    def __neg__(self): return elementwise(lambda a: sub(0, a), [self])
    def __pos__(self): return self
    def __abs__(self): return elementwise(absval, [self])
    def __invert__(self): return elementwise(lambda a: Not(a) if is_bool(a) else sub(sub(0, a), 1), [self])
    def __eq__(self, o): return self._bin(o, eq, "b") if ok_operand(o) or (self.buf.dtype == "O" and is_obj(o)) else False
    def __ne__(self, o): return self._bin(o, lambda a, b: Not(eq(a, b)), "b") if ok_operand(o) or (self.buf.dtype == "O" and is_obj(o)) else True
    def __lt__(self, o): return self._bin(o, lt, "b")
    def __le__(self, o): return self._bin(o, le, "b")
    def __gt__(self, o): return self._bin(o, lambda a, b: lt(b, a), "b")
    def __ge__(self, o): return self._bin(o, lambda a, b: le(b, a), "b")
    def __and__(self, o): return self._bin(o, bitand) if self._ints(o) else self._bin(o, lambda a, b: And(truth(a), truth(b)), "b")
    def __rand__(self, o): return self.__and__(o)
    def __or__(self, o): return self._bin(o, bitor) if self._ints(o) else self._bin(o, lambda a, b: Or(truth(a), truth(b)), "b")
    def __ror__(self, o): return self.__or__(o)
    def __xor__(self, o): raise Unsupported("exclusive or")
    def _ints(self, o):
        ks = (self.buf.dtype, asarr(o).buf.dtype)
        if "f" in ks:
            raise TypeError("ufunc 'bitwise' not supported for the input types")
        return ks != ("b", "b")
    def __floordiv__(self, o): return self._bin(o, floordiv)
    def __rfloordiv__(self, o): return elementwise(floordiv, [o, self])
    def __mod__(self, o): return self._bin(o, modulo)
    def __rmod__(self, o): return elementwise(modulo, [o, self])
    def __lshift__(self, o): return self._bin(o, lambda a, b: mul(a, pow2(b)))
    def __rshift__(self, o): return self._bin(o, lambda a, b: floordiv(a, pow2(b)))
    def __pow__(self, o): return self._bin(o, power)
    def __rpow__(self, o): return elementwise(power, [o, self])
    __hash__ = None

    def _inplace(self, o, fn):
        o = asarr(o)
        if self.ndim == 0 and not self.buf.protected:      # a scalar: immutable
            return self._bin(o, fn)
        if self.buf.dtype != "f" and (o.buf.dtype == "f" or fn is div):
            raise Unsupported("in-place operation that changes the type")
        src, val = self.snap(), bshape_index(o, self.shape_)
        self.write(lambda i: True, lambda i: fn(src(i), val(i)))
        return self

    def __iadd__(self, o): return self._inplace(o, add)
    def __isub__(self, o): return self._inplace(o, sub)
    def __imul__(self, o): return self._inplace(o, mul)
    def __itruediv__(self, o): return self._inplace(o, div)

    def __bool__(self):
        for d in self.shape_:
            if not ctx.branch(eq(d, 1)):
                if ctx.branch(eq(d, 0)):
                    return False
                raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return ctx.branch(truth(self.get(tuple(0 for _ in self.shape_))))

    def __index__(self):
        v = rawi(self)
        if is_conc(v) and isinstance(v, int):
            return v
        raise Unsupported("symbolic value used as a python integer")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __len__(self):
        n = self.shape_[0]
        if is_conc(n):
            return n
        raise Unsupported("len() of a symbolic length")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self.shape_[0]
        if not is_conc(n):
            raise Unsupported("iteration over a symbolic length")
        for k in range(n):
            yield self[k]

    # --- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __repr__(self):
        return "Arr%s" % (tuple(self.shape_),)

    # --- methods (numpy functions are in npshim)
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import npshim
        f = npshim.METHODS.get(name)
        if self.buf.dtype == "O" and f is None and self.ndim == 0:
            o = unwrap(self)
            if not isinstance(o, Arr):
                return getattr(o, name)
        if f is None:
            raise Unsupported("array method %s" % name)
        return lambda *a, **k: f(self, *a, **k)


BITOR, BITAND = z3.Function("bitor", I, I, I), z3.Function("bitand", I, I, I)


def low_bits(t):
    """k when t is syntactically a multiple of 2**k (k as large as shows)"""
    if is_conc(t):
        return (t & -t).bit_length() - 1 if t else 64
    t = z3.simplify(term(t))
    if z3.is_int_value(t):
        return low_bits(t.as_long())
    if z3.is_mul(t):
        return sum(low_bits(c.as_long()) for c in t.children() if z3.is_int_value(c))
    if z3.is_add(t):
        return min(low_bits(c) for c in t.children())
    return 0


def bitor(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a | b
    if low_bits(b) > low_bits(a):
        a, b = b, a
    k = low_bits(a)
    r = BITOR(term(a), term(b))
    if k:
        ctx.assume(z3.Implies(z3.And(0 <= term(b), term(b) < 2 ** k), r == term(a) + term(b)))
    return r


def bitand(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a & b
    if is_conc(a):
        a, b = b, a
    if is_conc(b) and b >= 0 and (b & (b + 1)) == 0:
        return term(a) % (b + 1)
    return BITAND(term(a), term(b))


def pow2(b):
    if is_conc(b):
        return 2 ** b
    raise Unsupported("shift by a symbolic amount")


def ok_operand(o):
    return isinstance(o, (Arr, int, float, bool, list, tuple)) or is_t(o)


def absval(a):
    a = num(a)
    if is_conc(a):
        return abs(a)
    return z3.If(a >= 0, a, -a)


POW = z3.Function("power", R, R, R)


def power(a, b):
    a, b = num(a), num(b)
    if is_conc(b):
        if isinstance(b, float) and b == int(b):
            b = int(b)
        if isinstance(b, int) and 0 <= b <= 4:
            if b == 0:
                return 1 if is_int(a) else 1.0
            r = a
            for _ in range(b - 1):
                r = mul(r, a)
            return r
        if is_conc(a):
            return a ** b
    ctx.use("numpy power of a symbolic exponent: an uninterpreted function")
    return POW(real(a), real(b))


def floordiv(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a // b
    if is_int(a) and is_int(b):
        if is_conc(b) and b > 0:
            return term(a) / b
        return idiv(a, b)
    return floor(div(a, b))


def modulo(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return a % b
    if is_int(a) and is_int(b):
        if is_conc(b) and b > 0:
            return term(a) % b
        return imod(a, b)
    raise Unsupported("remainder of reals")


def cast(v, dtype):
    v = cst(v)
    if dtype == "f":
        return v if (isinstance(v, float)) else real(v) if not (isinstance(v, int) and not isinstance(v, bool)) else float(v)
    if dtype == "i":
        return to_int(v)
    if dtype == "b":
        return truth(v)
    return v


class SymList:
    """python list of symbolic length: elem(raw index) -> value in the code"""
    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic list")
        return self.elem(norm_index(rawi(i), self.n))


class SymTail:
    """sole item of a list grown in a symbolic loop: the list stands for the n values elem(0..n-1)"""
    def __init__(self, n, elem):
        self.n, self.elem = n, elem


def asarr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], SymTail):
        v = SymList(v[0].n, v[0].elem)
    if is_t(v) or isinstance(v, (bool, int, float)):
        return scalar(v)
    if isinstance(v, SymList):
        from . import npshim
        return npshim.from_symlist(v)
    if isinstance(v, (list, tuple)):
        items = [asarr(x) for x in v]
        if not items:
            return from_fn((0,), lambda idx: 0.0, "f")
        sh = items[0].shape_
        for it in items[1:]:
            if len(it.shape_) != len(sh):
                raise ValueError("inhomogeneous shape")
            for a, b in zip(it.shape_, sh):
                if not ctx.branch(eq(a, b)):
                    raise ValueError("inhomogeneous shape")
        fs = [it.snap() for it in items]
        kinds = [it.buf.dtype for it in items]
        dt = "f" if "f" in kinds else "i" if "i" in kinds else kinds[0]

        def fn(idx):
            if is_conc(idx[0]):
                return fs[idx[0]](idx[1:])
            r = fs[-1](idx[1:])
            for k in range(len(fs) - 2, -1, -1):
                r = ite(eq(idx[0], k), fs[k](idx[1:]), r)
            return r
        return from_fn((len(items),) + tuple(sh), fn, dt)
    if hasattr(v, "sym_asarr"):
        return v.sym_asarr()
    if is_obj(v):
        o = intern(v)
        return Arr(Buffer((), lambda idx: o, "O"))
    import numpy
    if isinstance(v, (numpy.ndarray, numpy.generic)):
        return asarr(v.tolist())
    raise Unsupported("cannot make an array of %r" % (type(v),))


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = cst(s[k])
            if is_conc(x) and x == 1:
                continue
            if is_conc(cur) and cur == 1:
                cur = x
                continue
            if is_conc(x) and is_conc(cur):
                if x != cur:
                    raise ValueError("operands could not be broadcast together")
                continue
            if eq(x, cur) is True:
                continue
            if ctx.branch(eq(x, cur)):
                # keep the constant one if any
                cur = x if is_conc(x) else cur
                continue
            if ctx.branch(eq(cur, 1)):
                cur = x
                continue
            if ctx.branch(eq(x, 1)):
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bshape_index(a, shape):
    """index function of `a` broadcast to `shape` (dims already known compatible)"""
    f, sh = a.snap(), a.shape_
    off = len(shape) - len(sh)
    if off < 0:
        # leading axes of length one may be dropped in an assignment
        for d in sh[:-off]:
            if not ctx.branch(eq(d, 1)):
                raise ValueError("could not broadcast input array")
        g = f
        k = -off
        return bshape_fn(lambda idx: g((0,) * k + tuple(idx)), sh[k:], shape)
    return bshape_fn(f, sh, shape)


def bshape_fn(f, sh, shape):
    off = len(shape) - len(sh)
    one = []
    for k, d in enumerate(sh):
        t = cst(shape[off + k])
        d = cst(d)
        if is_conc(d) and d == 1:
            one.append(True)
        elif eq(d, t) is True:
            one.append(False)
        elif ctx.branch(eq(d, t)):
            one.append(False)
        elif ctx.branch(eq(d, 1)):
            one.append(True)
        else:
            raise ValueError("could not broadcast input array")

    def g(idx):
        return f(tuple(0 if o else idx[off + k] for k, o in enumerate(one)))
    return g


def elementwise(fn, args, dtype=None):
    args = [asarr(a) for a in args]
    shape = broadcast_shapes(*[a.shape_ for a in args])
    fs = [bshape_index(a, shape) for a in args]
    return from_fn(shape, lambda idx: fn(*[f(idx) for f in fs]), dtype)


# ------------------------------------------------------------------------------------------------ indexing
def norm_index(v, n):
    """raw index with python's negative convention, known in range or raising IndexError"""
    v = cst(v)
    if is_conc(v) and is_conc(n):
        if not -n <= v < n:
            raise IndexError("index out of bounds")
        return v if v >= 0 else v + n
    if is_conc(v):
        w = v if v >= 0 else add(n, v)
    elif ctx.branch(lt(v, 0)):
        w = add(n, v)
    else:
        w = v
    ok = And(le(0, w), lt(w, n))
    if ok is not True and not ctx.branch(ok):
        raise IndexError("index out of bounds")
    return w


def norm_slice(s, n):
    """(start, step, length) of a python slice over length n"""
    step = 1 if s.step is None else rawi(s.step)
    if not is_conc(step) or step < -1 or step == 0:
        raise Unsupported("slice step %r" % (step,))
    if step == -1:
        if s.start is None and s.stop is None:
            return sub(n, 1), -1, n
        raise Unsupported("reversed slice with bounds")

    def clamp(v, default):
        if v is None:
            return default
        v = rawi(v)
        if is_conc(v) and is_conc(n):
            return max(0, v + n) if v < 0 else min(v, n)
        if is_conc(v):
            if v < 0:
                w = add(n, v)
                return w if ctx.branch(le(0, w)) else 0
            if v == 0:
                return 0
            return v if ctx.branch(le(v, n)) else n
        if eq(v, n) is True:
            return n
        if ctx.branch(lt(v, 0)):
            w = add(n, v)
            return w if ctx.branch(le(0, w)) else 0
        return v if ctx.branch(le(v, n)) else n
    a, b = clamp(s.start, 0), clamp(s.stop, n)
    ln = sub(b, a)
    pos = le(0, ln)
    if pos is not True and not ctx.branch(pos):
        ln = 0
    if step > 1:
        ln = floordiv(add(ln, step - 1), step)
    return a, step, ln


def expand_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        n += k.ndim if isinstance(k, Arr) and k.buf.dtype == "b" and k.ndim else 1
    out = []
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (ndim - n)
        else:
            out.append(k)
    if Ellipsis not in [k for k in key if not isinstance(k, Arr)]:
        out += [slice(None)] * (ndim - n)
    return out


def is_basic(k):
    return k is None or isinstance(k, slice) or (isinstance(k, Arr) and k.ndim == 0 and k.buf.dtype == "i") or (
        isinstance(k, int) and not isinstance(k, bool)) or (is_t(k)) or (hasattr(k, "__index__") and not isinstance(k, (Arr, bool)))


def view(a, key):
    """basic indexing"""
    spec_of = {}
    newshape, vd = [], 0
    conv = {}          # old view dim -> ('i', c) or ('s', start, step, new dim)
    for k in key:
        if k is None:
            newshape.append(1)
            continue
        n = a.shape_[vd]
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, n)
            conv[vd] = ("s", st, step, len(newshape))
            newshape.append(ln)
        else:
            conv[vd] = ("i", norm_index(rawi(k), n))
        vd += 1
    if vd > a.ndim:
        raise IndexError("too many indices for array")
    spec = []
    for s in a.spec:
        if s[0] == "i":
            spec.append(s)
            continue
        c = conv[s[3]]
        if c[0] == "i":
            spec.append(("i", add(s[1], c[1] if s[2] == 1 else mul(s[2], c[1]))))
        else:
            spec.append(("s", add(s[1], c[1] if s[2] == 1 else mul(s[2], c[1])), s[2] * c[2], c[3]))
    return Arr(a.buf, spec, newshape, a.alias)


def getitem(a, key):
    ks = expand_key(key, a.ndim)
    if sum(1 for k in ks if k is not None) > a.ndim:
        raise IndexError("too many indices for array")
    if all(is_basic(k) for k in ks):
        v = view(a, ks)
        if v.ndim == 0:
            return unwrap(v)
        return v
    ks = [asarr(k) if not is_basic(k) else k for k in ks]
    bools = [k for k in ks if isinstance(k, Arr) and k.buf.dtype == "b" and k.ndim > 0]
    if bools:
        if len(bools) == 1 and len(ks) == a.ndim - bools[0].ndim + 1 and ks[0] is bools[0] and all(isinstance(k, slice) and k == slice(None) for k in ks[1:]):
            return mask_select(a, bools[0])
        if len(bools) == 1 and bools[0].ndim == 1 and len([k for k in ks if k is not None]) == a.ndim:
            # mask combined with basic indices: basic ones first
            pos = ks.index(bools[0]) if False else [i for i, k in enumerate(ks) if k is bools[0]][0]
            rest = [k if i != pos else slice(None) for i, k in enumerate(ks)]
            v = view(a, rest)
            if v.ndim == 1:
                return mask_select(v, bools[0])
            if pos == 0 and all(isinstance(k, slice) for k in rest):
                return mask_select(v, bools[0])
        raise Unsupported("boolean mask in this position")
    # integer arrays: broadcast together, result axes at the place of the first if adjacent
    adv = [i for i, k in enumerate(ks) if isinstance(k, Arr) and not (k.ndim == 0 and k.buf.dtype == "i" and False)]
    adv = [i for i in adv if not (ks[i].ndim == 0)] or adv
    advs = [i for i, k in enumerate(ks) if (isinstance(k, Arr)) or (is_basic(k) and k is not None and not isinstance(k, slice))]
    arrs = [asarr(ks[i]) for i in advs]
    shape = broadcast_shapes(*[x.shape_ for x in arrs])
    dimno, d = {}, 0
    for i, k in enumerate(ks):
        if k is None:
            continue
        dimno[i] = d
        d += 1
    fs = []
    for i, x in zip(advs, arrs):
        n = a.shape_[dimno[i]]
        f = bshape_index(x, shape)
        fs.append(checked_index(f, n, shape))
    if any(k is None for k in ks):
        raise Unsupported("new axis mixed with index arrays")
    adjacent = all(b - a_ == 1 for a_, b in zip(advs, advs[1:]))
    sl = {}
    for i, k in enumerate(ks):
        if i not in advs:
            sl[i] = norm_slice(k, a.shape_[dimno[i]])
    before = [i for i in sl if i < advs[0]] if adjacent else []
    after = [i for i in sl if i not in before]
    newshape = [sl[i][2] for i in before] + list(shape) + [sl[i][2] for i in after]
    src = a.snap()
    nb, ns = len(before), len(shape)

    def fn(idx):
        full = [None] * len(ks)
        for j, i in enumerate(before):
            full[i] = add(sl[i][0], mul(sl[i][1], idx[j]))
        core = idx[nb:nb + ns]
        for f, i in zip(fs, advs):
            full[i] = f(core)
        for j, i in enumerate(after):
            full[i] = add(sl[i][0], mul(sl[i][1], idx[nb + ns + j]))
        return src(full)
    r = from_fn(newshape, fn, a.buf.dtype)
    if r.ndim == 0:
        return unwrap(r)
    return r


def checked_index(f, n, shape):
    """index array: obligation that every index is within bounds; negative indices count from the end"""
    vs = tuple(ctx.int("ix") for _ in shape)
    rng = And(*[And(le(0, v), lt(v, s)) for v, s in zip(vs, shape)])
    t = f(vs)
    inb = And(le(0, t), lt(t, n))
    if inb is True:
        return f
    from . import solve
    if solve.valid(ctx, Implies(rng, inb)):
        return f
    if solve.valid(ctx, Implies(rng, And(le(sub(0, n), t), lt(t, n)))):
        return lambda idx: (lambda v: ite(lt(v, 0), add(v, n), v))(f(idx))
    ctx.oblige("index within bounds", Implies(rng, And(le(sub(0, n), t), lt(t, n))), "safety")
    return lambda idx: (lambda v: ite(lt(v, 0), add(v, n), v))(f(idx))


class Selected:
    """rows of an array where a 1-d mask holds, in order"""


def mask_select(a, mask):
    """a[mask]: rows enumerated by an increasing selection function (assumed contract of numpy)"""
    if mask.ndim != 1:
        raise Unsupported("mask of rank %d" % mask.ndim)
    n = a.shape_[0]
    if not ctx.branch(eq(mask.shape_[0], n)):
        raise IndexError("boolean index did not match")
    m = mask.snap()
    cnt = functional("count", lambda k: m((k,)), n, sort=I, raw_sort=B)
    src = a.snap()

    def sel(j):
        return functional("sel", lambda k: m((k,)), n, extra=(j,), sort=I, raw_sort=B)
    r = from_fn((cnt,) + tuple(a.shape_[1:]), lambda idx: src((sel(idx[0]),) + tuple(idx[1:])), a.buf.dtype)
    r.selected = (src, m, n)
    if is_t(cnt):
        ctx.selections = ctx.selections + [(cnt, sel, m, n)]
    ctx.use("numpy boolean indexing: keeps the rows where the mask holds, in order")
    return r


def setitem(a, key, val):
    ks = expand_key(key, a.ndim)
    if all(is_basic(k) for k in ks):
        v = view(a, ks)
        x = asarr(val)
        g = bshape_index(x, v.shape_)
        v.write(lambda i: True, g)
        return
    if len(ks) == 1 or all(isinstance(k, slice) and k == slice(None) for k in ks[1:]):
        k = asarr(ks[0])
        if k.buf.dtype == "b" and k.ndim == 1 or (k.buf.dtype == "b" and k.ndim == a.ndim and len(ks) == 1):
            x = asarr(val)
            if x.ndim != 0:
                raise Unsupported("assignment of an array through a mask")
            m, xv = k.snap(), x.get(())
            nd = k.ndim
            a.write(lambda i: m(tuple(i[:nd])), lambda i: xv)
            return
    raise Unsupported("assignment through an index array")
