"""The verified text: the modules of /repo/src/qp, parsed on every run.  What the extraction changes:
  * `np`, scipy's interpolation and distribution layers, tables_io and the plotting and test-data modules are replaced by
    contracts (shims);  docstrings and annotations have no effect;
  * `for` loops and comprehensions become calls of a loop combinator which runs them as they are over concrete sequences
    and by the parallel-loop rule over symbolic ones;  a generator function returns the list of what it yields;
  * the builtins len, range, int, float, min, max, zip, enumerate, map, list, abs, isinstance, round, print accept
    symbolic values; `%`-formatting of a string literal is deferred when an argument is symbolic.
Nothing else is dropped or rewritten: the functions that run are compiled from the tree's own source."""
import ast, builtins, os, sys, types
from .sym import *
from . import sym, npshim

SRC = os.environ.get("QP_SRC", "/repo/src/qp")


class Ret:
    def __init__(self, v):
        self.v = v


class Brk:
    pass


BRK_ = Brk()


# ------------------------------------------------------------------------------------------------ AST
def assigned(nodes):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For,)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                continue
            walk(c)
    for n in nodes:
        walk(n)
    return out


def has_own(nodes, kinds):
    """does the loop body contain a statement of this kind belonging to this loop"""
    def walk(n):
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if ast.Return in kinds and isinstance(n, (ast.For, ast.While)):
                return any(walk(c) for c in ast.iter_child_nodes(n))
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(n) for n in nodes)


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fstack = []
        self.loopdepth = 0

    def fresh(self, b):
        self.n += 1
        return "__%s%d" % (b, self.n)

    def visit_FunctionDef(self, node):
        # functions used before definition order: process body with a new scope
        own = assigned(node.body)
        args = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                args.append(a.arg)
        loops = []
        for n in ast.walk(node):
            if isinstance(n, ast.For):
                loops += [v for v in assigned(n.body) + assigned([n]) if v not in loops]
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))
        globs = set()
        for x in own_nodes(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                globs |= set(x.names)
        self.fstack.append(dict(args=args, gen=isgen, globs=globs))
        saved, self.loopdepth = self.loopdepth, 0
        self.generic_visit(node)
        self.loopdepth = saved
        self.fstack.pop()
        pre = []
        for v in loops:
            if v in own and v not in args and v not in globs:
                pre.append(ast.parse("%s = __undef__" % v).body[0])
        if isgen:
            pre.append(ast.parse("__yield__ = __newgen__()").body[0])
            node.body.append(ast.parse("return __yield__").body[0])
        doc = []
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            doc = [node.body.pop(0)]
        if not node.body:
            node.body = [ast.Pass()]
        node.body = doc + pre + node.body
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        return node

    def visit_Yield(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "append", ast.Load()), [node.value or ast.Constant(None)], [])

    def visit_For(self, node):
        if not self.fstack:
            self.generic_visit(node)
            return node
        if node.orelse:
            raise SyntaxError("for-else")
        globs = self.fstack[-1]["globs"]
        vars_ = [v for v in assigned([node]) if v not in globs]
        globs = [v for v in assigned([node]) if v in globs]
        nested_ = self.loopdepth > 0
        it_expr = self.visit(node.iter)
        hasret = has_own(node.body, (ast.Return,))
        body = [LoopBody(self).visit(b) for b in node.body]
        self.loopdepth += 1
        flat = []
        for b in body:
            b = self.visit(b)
            flat += b if isinstance(b, list) else [b]
        self.loopdepth -= 1
        fn, it, setn, res = self.fresh("body"), self.fresh("it"), self.fresh("set"), self.fresh("res")
        noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        stmts = []
        if vars_:
            stmts.append(ast.Nonlocal(names=list(vars_)))
        if globs:
            stmts.append(ast.Global(names=list(globs)))
        stmts.append(ast.Assign([node.target], ast.Name(it, ast.Load())))
        stmts += flat
        pre = [ast.FunctionDef(name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(it)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=stmts, decorator_list=[], type_params=[])]
        get = ast.Lambda(noargs, ast.Dict([ast.Constant(v) for v in vars_], [ast.Name(v, ast.Load()) for v in vars_]))
        setter = ast.Constant(None)
        if vars_:
            src = "def %s(__d):\n nonlocal %s\n" % (setn, ", ".join(vars_)) + "".join(" %s = __d[%r]\n" % (v, v) for v in vars_)
            pre += ast.parse(src).body
            setter = ast.Name(setn, ast.Load())
        call = ast.Call(ast.Name("__loop__", ast.Load()), [it_expr, ast.Name(fn, ast.Load()), get, setter], [])
        out = pre + [ast.Assign([ast.Name(res, ast.Store())], call)]
        if hasret:
            out.append(ast.parse("if __isret__(%s):\n return %s%s" % (res, res, "" if nested_ else ".v")).body[0])
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "list")

    def comp(self, node, kind):
        if len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        self.generic_visit(node)
        v = "__x"
        # [elt for T in IT if C]  ->  __lc__(IT, lambda x: elt, lambda x: cond) with T bound through a helper
        fargs = ast.arguments(posonlyargs=[], args=[ast.arg(v)], kwonlyargs=[], kw_defaults=[], defaults=[])
        inner = bind_target(g.target, node.elt)
        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = ast.Lambda(fargs, bind_target(g.target, c))
        return ast.Call(ast.Name("__lc__", ast.Load()), [g.iter, ast.Lambda(fargs, inner), cond], [])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.Call(ast.Name("__fmt__", ast.Load()), [node.left, node.right], [])
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        vals = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        return ast.Call(ast.Name("__fstr__", ast.Load()), [ast.Constant("".join(v.value if isinstance(v, ast.Constant) else "{}" for v in node.values)),
                        ast.Tuple(vals, ast.Load())], [])

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.copy_location(ast.Assign([node.target], node.value), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return node
        # a < b < c  evaluates each operand once and joins the comparisons
        return ast.Call(ast.Name("__chain__", ast.Load()), [ast.List([node.left] + node.comparators, ast.Load()),
                        ast.List([ast.Constant(type(o).__name__) for o in node.ops], ast.Load())], [])


def bind_target(target, expr):
    """(lambda T: expr)(*x) for simple and tuple targets"""
    x = ast.Name("__x", ast.Load())
    if isinstance(target, ast.Name):
        args = [ast.arg(target.id)]
        call = [x]
    else:
        args, call = [], []

        def go(t, e):
            if isinstance(t, ast.Name):
                args.append(ast.arg(t.id))
                call.append(e)
            else:
                for k, s in enumerate(t.elts):
                    go(s, ast.Subscript(e, ast.Constant(k), ast.Load()))
        go(target, x)
    lam = ast.Lambda(ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), expr)
    return ast.Call(lam, call, [])


def own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class LoopBody(ast.NodeTransformer):
    """continue -> return, break -> return marker, return v -> return Ret(v) in the body of one loop"""
    def __init__(self, rw):
        self.rw = rw
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_While = visit_For

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Name("__brk__", ast.Load())), n)

    def visit_Return(self, n):
        if getattr(n, "_done", False):
            return n
        if self.depth:
            # a return inside an inner loop: the inner loop hands it on as it is
            return n
        r = ast.Return(ast.Call(ast.Name("__Ret__", ast.Load()), [n.value or ast.Constant(None)], []))
        r._done = True
        return ast.copy_location(r, n)


# ------------------------------------------------------------------------------------------------ loop combinators
class Undef:
    def __getattr__(self, n):
        raise Unsupported("value carried over from an earlier iteration of a symbolic loop")

    def _no(self, *a):
        raise Unsupported("value carried over from an earlier iteration of a symbolic loop")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __getitem__ = __call__ = __iter__ = __bool__ = __lt__ = __gt__ = __eq__ = _no
    __hash__ = None


UNDEF = Undef()


def sequence(it):
    """concrete python sequence, or a symbolic one with .n and .elem"""
    if isinstance(it, (npshim.SymRange, SymList)):
        if is_conc(cst(it.n)):
            return [it.elem(k) for k in range(cst(it.n))]
        return it
    if isinstance(it, Arr):
        if it.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if is_conc(it.shape_[0]):
            return [it[k] for k in range(it.shape_[0])]
        return SymList(it.shape_[0], lambda i: it[scalar(i) if is_t(i) else i])
    if isinstance(it, SymZip):
        seqs = [sequence(s) for s in it.seqs]
        if all(isinstance(s, list) for s in seqs):
            return list(zip(*seqs))
        ns = [cst(s.n) if not isinstance(s, list) else len(s) for s in seqs]
        n = ns[0]
        for m in ns[1:]:
            if eq(m, n) is True or ctx.branch(eq(m, n)):
                continue
            n = m if ctx.branch(lt(m, n)) else n
        if is_conc(cst(n)):
            return [tuple(s[k] if isinstance(s, list) else s.elem(k) for s in seqs) for k in range(cst(n))]
        for s in seqs:
            if isinstance(s, list):
                raise Unsupported("zip of a symbolic and a concrete sequence")
        return SymList(n, lambda i: tuple(s.elem(i) for s in seqs))
    if hasattr(it, "sym_iter"):
        return sequence(it.sym_iter())
    if hasattr(it, "__getitem__") and hasattr(it, "npdf") and not hasattr(it, "__iter__"):
        # python's old iteration protocol over an ensemble: indices from 0 until IndexError
        n = cst(rawi(it.npdf))
        ctx.use("iterating over an ensemble visits indices 0..npdf-1")
        if is_conc(n):
            return [it[k] for k in range(n)]
        return SymList(n, lambda i: it[scalar(i) if is_t(i) else i])
    if isinstance(it, list) and len(it) == 1 and isinstance(it[0], SymTail):
        return SymList(it[0].n, it[0].elem)
    return list(it)


class SymZip:
    def __init__(self, *seqs):
        self.seqs = seqs

    def __iter__(self):
        s = sequence(self)
        if isinstance(s, list):
            return iter(s)
        raise Unsupported("iteration over a symbolic zip outside a loop")


def __loop__(it, body, get, setter):
    if isinstance(it, (list, dict, tuple, set, range)) and not (isinstance(it, list) and len(it) == 1 and isinstance(it[0], SymTail)):
        seq = it
    else:
        seq = sequence(it)
    if not isinstance(seq, SymList) and not isinstance(seq, npshim.SymRange):
        for x in seq:
            r = body(x)
            if isinstance(r, Ret):
                return r
            if r is BRK_:
                return None
        return None
    for part, inv in ctx.loops:
        if part in body.__qualname__ and body.__qualname__.rpartition(part)[2].count("__body") == 1 + inv.depth:
            return invariant_for(seq, body, get, setter, inv)
    return parallel_for(seq, body, get, setter)


def closure_var(body, name):
    """a variable of the function around the loop"""
    seen, todo = set(), [body]
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        for v, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                o = c.cell_contents
            except ValueError:
                continue
            if v == name:
                return o
            if isinstance(o, types.FunctionType):
                todo.append(o)
    raise Unsupported("the loop has no variable %s" % name)


class Inv:
    """state of a loop after i iterations, as the contract states it: locals(i) -> {name: value}; arrays(i) -> [(array,
    element function)]; attrs(i) -> [(object, attribute, value)].  What the loop changes besides makes it undecided."""
    def __init__(self, locals=None, arrays=None, attrs=None, named=None, depth=0):
        self.locals, self.arrays, self.attrs = locals or (lambda i: {}), arrays or (lambda i: []), attrs or (lambda i: [])
        self.named, self.depth = named, depth


def same_value(name, got, want):
    if isinstance(got, Undef):
        ctx.oblige("%s: has a value" % name, False, "loop")
        return
    g, w = asarr(got), asarr(want)
    ctx.oblige("%s: rank" % name, g.ndim == w.ndim, "loop")
    if g.ndim != w.ndim:
        raise PathEnd()
    for a, b in zip(g.shape_, w.shape_):
        ctx.oblige("%s: shape" % name, eq(a, b), "loop")
    vs = tuple(ctx.int("o") for _ in w.shape_)
    ctx.oblige("%s: every element" % name, Implies(And(*[And(le(0, v), lt(v, d)) for v, d in zip(vs, w.shape_)]), eq(g.get(vs), w.get(vs))), "loop")


def invariant_for(seq, body, get, setter, inv0):
    """Rule: the invariant's state holds on entry, one iteration takes the state after i iterations to that after i + 1,
    and the loop ends in the state after n."""
    n, inv = seq.n, inv0
    if inv.named:
        given = inv.arrays
        inv = Inv(inv.locals, lambda i: given(i) + [(closure_var(body, v), f) for v, f in inv0.named(i).items()], inv.attrs)
    objs = closure_objects(body)
    bufs, attrs = {}, {}
    for o in objs:
        if isinstance(o, Arr):
            bufs.setdefault(id(o.buf), o.buf)

    def check(i, when):
        now = get()
        for name, v in inv.locals(i).items():
            if name not in now:
                raise Unsupported("the loop has no variable %s" % name)
            same_value("invariant %s: %s" % (when, name), now[name], v)
        for a, f in inv.arrays(i):
            same_value("invariant %s: array" % when, a, from_fn(a.shape_, f, a.dtype))
        for o, name, v in inv.attrs(i):
            same_value("invariant %s: %s" % (when, name), getattr(o, name), v)

    def put(i):
        now = get()
        loc = inv.locals(i)
        if setter:
            setter({k: loc[k] if k in loc else UNDEF for k in now})
        elif loc:
            raise Unsupported("the loop has no variables")
        for a, f in inv.arrays(i):
            a.buf.content = (lambda f: lambda idx: f(idx))(f)
            a.buf.version += 1
        for o, name, v in inv.attrs(i):
            setattr(o, name, v)
    check(0, "on entry")
    if ctx.branch(z3.Bool(ctx.name("iterate"))):
        i = ctx.int("it", 0)
        ctx.assume(lt(i, n))
        put(i)
        held = {id(a.buf) for a, _ in inv.arrays(i)}
        vers = {b: buf.version for b, buf in bufs.items()}
        dicts = [(o, dict(o)) for o in objs if isinstance(o, dict)]
        lists = [(o, list(o)) for o in objs if isinstance(o, list)]
        mine = {(id(vars(o)), name) for o, name, v in inv.attrs(i)}
        ctx.loop_idx.append(i)
        try:
            r = body(seq.elem(i))
        finally:
            ctx.loop_idx.pop()
        for d, old in dicts:
            for key in set(d) | set(old):
                if d.get(key) is not old.get(key) and (id(d), key) not in mine:
                    raise Unsupported("the loop changes an object outside its invariant")
        for l, old in lists:
            if len(l) != len(old) or any(a is not b for a, b in zip(l, old)):
                raise Unsupported("the loop changes a list outside its invariant")
        for b, buf in bufs.items():
            if b not in held and buf.version != vers[b]:
                raise Unsupported("the loop changes an array outside its invariant")
        if isinstance(r, Ret):
            return r
        if r is BRK_:
            return None
        check(add(i, 1), "kept")
        raise PathEnd()
    put(n)
    return None


def closure_objects(body):
    """mutable objects the loop body can reach through its closure: arrays, lists, dictionaries, objects of the package"""
    out, seen = [], set()

    def go(o, depth):
        if id(o) in seen or depth > 4:
            return
        seen.add(id(o))
        if isinstance(o, Arr):
            out.append(o)
        elif isinstance(o, (list, dict)):
            out.append(o)
            for x in (o if isinstance(o, list) else o.values()):
                go(x, depth + 1)
        elif isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    go(c.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif hasattr(o, "__dict__") and not isinstance(o, (type, types.ModuleType)) and type(o).__module__.startswith("qpvc"):
            go(vars(o), depth + 1)
    go(body, 0)
    return out


POISON = {}


def poisoned(t):
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().name().startswith("poison!"):
            return True
        stack.extend(u.children())
    return False


def at(v, i, j):
    return z3.substitute(v, (i, term(j))) if is_t(v) else v


def parallel_for(seq, body, get, setter):
    """Rule: no iteration sees what another one wrote, and iteration i changes only element i of arrays, appends one value
    to lists, or leaves by return or raise.  Then the effect of the loop is the pointwise one.  Everything an iteration
    may have changed is out of reach for the others while the body is evaluated (local names and dictionary entries give
    UNDEF, array elements a poison value), so a loop outside the rule is undecided, never accepted."""
    n = seq.n
    i = z3.Int(ctx.name("it"))
    objs = closure_objects(body)
    before = get()
    arrs = {}
    for o in objs:
        if isinstance(o, Arr):
            arrs.setdefault(id(o.buf), (o.buf, o.buf.content, o.buf.version))
    lists = [(o, list(o)) for o in objs if isinstance(o, list)]
    dicts = [(o, dict(o)) for o in objs if isinstance(o, dict)]
    rng = And(le(0, i), lt(i, n))
    f0, g0, p0 = len(ctx.facts), len(ctx.ghost), len(ctx.pathcond)
    wr_arr, wr_key, wr_list = set(), set(), set()

    def reset(hide):
        for bid, (b, c, v) in arrs.items():
            b.content, b.version = c, v
            if hide and bid in wr_arr:
                pz = z3.Function(ctx.name("poison"), *([I] * max(1, len(b.shape)) + [R if b.dtype == "f" else I if b.dtype == "i" else B]))
                b.content = (lambda c, pz, b: lambda idx: ite(eq(idx[0], i), c(idx), pz(*[term(x) for x in idx])))(c, pz, b)
                arrs[bid] = (b, c, v)
        for l, old in lists:
            l[:] = old
        for d, old in dicts:
            d.clear()
            d.update(old)
            if hide:
                for k in [k for (dd, k) in wr_key if dd == id(d)]:
                    d[k] = UNDEF
        if setter:
            setter({k: UNDEF for k in before})

    def run(hide):
        def one():
            reset(hide)
            r = body(seq.elem(i))
            eff = dict(res=r, arr={}, app={})
            for bid, (b, c, v) in arrs.items():
                if b.version != v:
                    eff["arr"][bid] = b.content
                    wr_arr.add(bid)
            for l, old in lists:
                if len(l) != len(old) or any(a is not b for a, b in zip(l, old)):
                    eff["app"][id(l)] = l[len(old):]
                    wr_list.add(id(l))
                    if any(a is not b for a, b in zip(l, old)):
                        raise Unsupported("a list changed in place in a symbolic loop")
            for d, old in dicts:
                for k in set(d) | set(old):
                    if (k in d) != (k in old) or d.get(k) is not old.get(k):
                        if d.get(k) is not UNDEF:
                            wr_key.add((id(d), k))
            return eff
        ctx.pathcond.append(term(rng))
        n0 = len(ctx.obligations)
        try:
            return nested(one)
        except PathEnd:
            return []
        finally:
            del ctx.pathcond[p0:]
            reset(False)
            if setter:
                setter(before)
            if not hide:
                del ctx.obligations[n0:]
    run(False)
    outs = run(True)
    npshim.generalise((i,), rng, f0, g0)
    if not outs:
        return None
    left = lambda o: o.exc is not None or isinstance(o.value["res"], Ret) or o.value["res"] is BRK_
    exits = [(c, o) for c, o in outs if left(o)]
    normal = [(c, o.value) for c, o in outs if not left(o)]
    for c, o in outs:
        if is_t(c) and poisoned(c):
            raise Unsupported("a loop iteration depends on another one")
    if exits:
        ex = Or(*[c for c, _ in exits])
        none = functional("all", lambda k: Not(at(ex, i, k)), n, sort=B, raw_sort=B)
        if not ctx.branch(none):
            w = z3.Int(ctx.name("first"))
            ctx.assume(And(le(0, w), lt(w, n)))
            ctx.assume(at(term(ex), i, w))
            ctx.forall(1, lambda k: Implies(And(le(0, k), lt(k, w)), Not(at(ex, i, k))), "first")
            if wr_arr or wr_key or wr_list:
                raise Unsupported("a loop with effects that can leave early")
            for c, o in exits[:-1]:
                if ctx.branch(at(c, i, w)):
                    break
            else:
                c, o = exits[-1]
                ctx.assume(at(c, i, w))
            if o.exc is not None:
                raise o.exc
            if o.value["res"] is BRK_:
                raise Unsupported("break in a symbolic loop")
            return Ret(subst_value(o.value["res"].v, i, w))
    for bid, (b, c0, v0) in arrs.items():
        news = [(c, e["arr"].get(bid, None)) for c, e in normal]
        if all(x is None for _, x in news):
            continue
        if b.protected:
            ctx.oblige("argument %s is not modified" % b.protected, False, "frame")
        js = tuple(z3.Int(ctx.name("j")) for _ in b.shape)
        inr = And(*[And(le(0, j), lt(j, d)) for j, d in zip(js, b.shape)])
        for c, x in news:
            if x is None:
                continue
            v = x(js)
            other = x((js[0],) + js[1:])
            # elements of other iterations come out as they went in: as poison
            ctx.oblige("an iteration writes only its own element", Implies(And(rng, inr, c, Not(eq(js[0], i))), eq(v, hidden(b, v, js))), "loop") \
                if not leaves_others(v, i, js, rng, inr, c) else None
            own = x((i,) + js[1:])
            if is_t(own) and poisoned(z3.simplify(own)):
                raise Unsupported("a loop iteration depends on another one")

        def mk(news, c0, b):
            def content(idx):
                pos = idx[0]
                r = None
                for c, x in reversed(news):
                    v = (x or c0)((i,) + tuple(idx[1:]))
                    r = v if r is None else ite(c, v, r)
                r = at(z3.simplify(r) if is_t(r) else r, i, pos)
                return ite(And(le(0, pos), lt(pos, n)), r, c0(idx))
            return content
        b.content = mk(news, c0, b)
        b.version = v0 + 1
    for l, old in lists:
        if id(l) not in wr_list:
            continue
        apps = [(c, e["app"].get(id(l), [])) for c, e in normal]
        if old or any(len(a) != 1 for _, a in apps):
            raise Unsupported("list changed in a symbolic loop other than by one append")
        l.append(SymTail(n, joined([(c, a[0]) for c, a in apps], i)))
    for d, old in dicts:
        for dd, k in wr_key:
            if dd == id(d):
                d[k] = UNDEF
    return None


def leaves_others(v, i, js, rng, inr, c):
    """is the content at js, js[0] != i, the poison put there before the iteration?"""
    if not is_t(v):
        return False
    from . import solve
    p = z3.simplify(z3.substitute(v, (js[0] == i, z3.BoolVal(False)), (i == js[0], z3.BoolVal(False))))
    return z3.is_app(p) and p.decl().name().startswith("poison!") and all(a.eq(b) for a, b in zip(p.children(), js))


def hidden(b, v, js):
    for t in all_apps(v):
        if t.decl().name().startswith("poison!"):
            return t.decl()(*js)
    return v + 1 if not z3.is_bool(v) else z3.Not(v)


def all_apps(t):
    seen, out, stack = set(), [], [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        out.append(u)
        stack.extend(u.children())
    return out


def subst_value(v, i, w):
    if isinstance(v, Arr):
        f = v.snap()
        return from_fn(tuple(cst(at(d, i, w)) for d in v.shape_), lambda idx: at(f(idx), i, w), v.buf.dtype)
    if isinstance(v, tuple):
        return tuple(subst_value(x, i, w) for x in v)
    if isinstance(v, list):
        return [subst_value(x, i, w) for x in v]
    if isinstance(v, dict):
        return {k: subst_value(x, i, w) for k, x in v.items()}
    if hasattr(v, "sym_subst"):
        return v.sym_subst(i, w)
    if v is None or isinstance(v, (str, bytes, bool, int, float, type, types.ModuleType)):
        return v
    if is_t(v):
        return at(v, i, w)
    if isinstance(v, types.FunctionType):
        if any(mentions(o, i) for o in closure_objects(v)):
            raise Unsupported("a function made in a symbolic loop")
        return v
    if isinstance(v, types.MethodType):
        return types.MethodType(v.__func__, subst_value(v.__self__, i, w))
    if hasattr(v, "__dict__"):
        new = {k: subst_value(x, i, w) for k, x in vars(v).items()}
        r = object.__new__(type(v))
        r.__dict__.update(new)
        return r
    raise Unsupported("a %s made in a symbolic loop" % type(v).__name__)


def mentions(o, i):
    if isinstance(o, Arr):
        vs = tuple(z3.Int("m?%d" % d) for d in range(o.ndim))
        return any(is_t(t) and any(u.eq(i) for u in free_ints(t)) for t in [term(o.get(vs))] + [d for d in o.shape_])
    return False


def joined(vals, i):
    """position -> value of an iteration, from its values under the conditions of its paths"""
    if len(vals) == 1:
        v = vals[0][1]
        return lambda j: subst_value(asarr(v) if isinstance(v, (int, float, bool)) else v, i, j)
    vals = [(c, asarr(v)) for c, v in vals]
    shp = vals[0][1].shape_
    for c, a in vals[1:]:
        if len(a.shape_) != len(shp) or not all(eq(x, y) is True for x, y in zip(a.shape_, shp)):
            raise Unsupported("values of different shapes in a symbolic loop")
    for d in shp:
        if is_t(d) and any(v.eq(i) for v in free_ints(d)):
            raise Unsupported("values of different shapes in a symbolic loop")

    def elem(j):
        fs = [a.snap() for _, a in vals]

        def f(idx):
            r = fs[-1](idx)
            for (c, _), g in list(zip(vals, fs))[-2::-1]:
                r = ite(c, g(idx), r)
            return at(r, i, j)
        return from_fn(shp, f)
    return elem


def __lc__(it, fn, cond):
    seq = sequence(it)
    if isinstance(seq, list):
        if cond is None:
            return [fn(x) for x in seq]
        out = []
        for x in seq:
            if cond(x):
                out.append(fn(x))
        return out
    if cond is not None:
        kept = sym_map(seq, lambda x: asarr(True) if cond(x) else asarr(False))
        if isinstance(kept, list):
            return []
        mask = from_fn((seq.n,), lambda j: truth(asarr(kept.elem(j[0])).get(())), "b")
        pos = npshim.arange(wrap(seq.n))[mask]
        pf = pos.snap()
        seq = SymList(pos.shape_[0], lambda j, s=seq: s.elem(pf((j,))))
    return sym_map(seq, fn)


def sym_map(seq, fn):
    """[fn(x) for x in seq] over a symbolic sequence: evaluated once at a fresh position"""
    n = seq.n
    i = z3.Int(ctx.name("it"))
    rng = And(le(0, i), lt(i, n))
    f0, g0 = len(ctx.facts), len(ctx.ghost)
    n0 = len(ctx.pathcond)
    ctx.pathcond.append(term(rng))
    try:
        outs = nested(lambda: fn(seq.elem(i)))
    except PathEnd:
        outs = []
    finally:
        del ctx.pathcond[n0:]
    npshim.generalise((i,), rng, f0, g0)
    if not outs:
        return []
    exits = [(c, o) for c, o in outs if o.exc is not None]
    good = [(c, o.value) for c, o in outs if o.exc is None]
    if exits:
        ex = Or(*[c for c, _ in exits])
        none = functional("all", lambda k: Not(z3.substitute(term(ex), (i, term(k)))), n, sort=B, raw_sort=B)
        if not ctx.branch(none):
            raise exits[0][1].exc
    return SymList(n, joined(good, i))


# ------------------------------------------------------------------------------------------------ builtins
def pylen(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return wrap(x.shape_[0])
    if isinstance(x, (SymList, npshim.SymRange)):
        return wrap(x.n)
    if isinstance(x, list) and len(x) == 1 and isinstance(x[0], SymTail):
        return wrap(x[0].n)
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return builtins.len(x)


def pyrange(*a):
    a = [rawi(x) for x in a]
    if all(is_conc(x) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return npshim.SymRange(0, a[0])
    if len(a) == 2:
        return npshim.SymRange(a[0], a[1])
    raise Unsupported("range with a step")


class _Conv(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Arr):
            return False            # numpy scalars are not python's numbers unless marked so below
        return isinstance(o, cls.py)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], Arr):
            x = a[0]
            if not all(is_conc(d) and d == 1 for d in x.shape_) and x.ndim:
                for d in x.shape_:
                    if not ctx.branch(eq(d, 1)):
                        raise TypeError("only length-1 arrays can be converted to Python scalars")
            v = x.get((0,) * x.ndim)
            return wrap(to_int(v) if cls.kind == "i" else truth(v) if cls.kind == "b" else cast(v, "f"))
        return cls.py(*a, **k)


class pyint(metaclass=_Conv):
    py, kind = int, "i"


class pyfloat(metaclass=_Conv):
    py, kind = float, "f"


class pybool(metaclass=_Conv):
    py, kind = bool, "b"


class SymPyInt:
    """marker for isinstance(key, int): see py_int()"""


def pyisinstance(o, cls):
    if isinstance(cls, tuple):
        return any(pyisinstance(o, c) for c in cls)
    if getattr(o, "is_pyint", False) and cls is pyint:
        return True
    return builtins.isinstance(o, cls)


def pymin(*a, **k):
    return _minmax(builtins.min, npshim._min2, a, k)


def pymax(*a, **k):
    return _minmax(builtins.max, npshim._max2, a, k)


def _minmax(py, two, a, k):
    if k:
        return py(*a, **k)
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Arr):
            if x.ndim != 1:
                raise Unsupported("min/max of a matrix")
            return npshim.max_(x) if py is builtins.max else npshim.min_(x)
        xs = list(x)
    else:
        xs = list(a)
    if not any(isinstance(x, Arr) for x in xs):
        return py(xs)
    r = asarr(xs[0])
    for x in xs[1:]:
        r = elementwise(two, [r, x])
    return r if r.ndim else wrap(r.get(()))


def pyzip(*seqs):
    if any(isinstance(s, (Arr, SymList, npshim.SymRange)) or hasattr(s, "sym_iter") for s in seqs):
        return SymZip(*seqs)
    return builtins.zip(*seqs)


def pyenumerate(s, start=0):
    if isinstance(s, (Arr, SymList, npshim.SymRange)):
        q = sequence(s)
        if isinstance(q, list):
            return builtins.enumerate(q, start)
        return SymList(q.n, lambda i: (wrap(add(i, start)), q.elem(i)))
    return builtins.enumerate(s, start)


def pymap(f, *seqs):
    qs = [sequence(s) for s in seqs] if len(seqs) == 1 else [sequence(SymZip(*seqs))]
    q = qs[0]
    if isinstance(q, list):
        return [f(x) if len(seqs) == 1 else f(*x) for x in q]
    return sym_map(q, (lambda x: f(x)) if len(seqs) == 1 else (lambda x: f(*x)))


def make_list(x=()):
    if isinstance(x, (SymList,)):
        return x
    if isinstance(x, (Arr, npshim.SymRange, SymZip)):
        return sequence(x)
    return builtins.list(x)


class _List(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (list, SymList))

    def __subclasscheck__(cls, c):
        return issubclass(c, list)

    def __call__(cls, *a):
        return make_list(*a)

    def __getitem__(cls, a):
        return list[a]

    def __getattr__(cls, n):
        return getattr(list, n)


class pylist(metaclass=_List):
    """list"""


def pyabs(x):
    return abs(x)


def pyround(x, *a):
    if isinstance(x, Arr):
        r = npshim.round_(x)
        return wrap(to_int(r.get(()))) if r.ndim == 0 and not a else r
    return builtins.round(x, *a)


def pysum(x, start=0):
    if isinstance(x, (Arr, SymList)):
        s = sequence(x)
        if not isinstance(s, list):
            return npshim.sum_(asarr(x), axis=0)
        x = s
    for v in x:
        start = start + v
    return start


def pyprint(*a, **k):
    pass


def fmt(template, args):
    xs = args if isinstance(args, tuple) else (args,)
    if any(isinstance(a, (Arr, SymTail)) or is_t(a) or (isinstance(a, tuple) and any(isinstance(b, Arr) for b in a)) for a in xs):
        return npshim.Fmt(template, xs)
    return template % args


def fstr(template, vals):
    try:
        return template.format(*[v for v in vals])
    except Exception:
        return template


def chain(vals, ops):
    import operator as o
    tab = dict(Lt=o.lt, LtE=o.le, Gt=o.gt, GtE=o.ge, Eq=o.eq, NotEq=o.ne, Is=o.is_, IsNot=o.is_not)
    r = True
    for a, b, op in zip(vals, vals[1:], ops):
        r = tab[op](a, b)
        if not r:
            return False
    return r


class SymReduce:
    pass


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=pylen, range=pyrange, int=pyint, float=pyfloat, min=pymin, max=pymax, isinstance=pyisinstance, zip=pyzip,
                enumerate=pyenumerate, map=pymap, list=pylist, abs=pyabs, round=pyround, sum=pysum, print=pyprint,
                __loop__=__loop__, __lc__=__lc__, __fmt__=fmt, __fstr__=fstr, __chain__=chain, __Ret__=Ret, __brk__=BRK_,
                __isret__=lambda r: isinstance(r, Ret), __undef__=UNDEF, __newgen__=list)


# ------------------------------------------------------------------------------------------------ modules
class Missing(types.ModuleType):
    """module without contracts: anything called in it makes the function undecided"""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return npshim._missing(self.__name__ + "." + name)


COMPILED = {}       # path -> (source, tree, code) of this process


class World:
    """one loading of the package, with its shims"""
    def __init__(self, shims, opaque=("qp.plotting", "qp.test_data", "qp.version", "qp._version")):
        self.mods, self.shims, self.opaque = {}, dict(shims), set(opaque)
        self.tree, self.files = {}, {}

    def path(self, name):
        rel = name.split(".")[1:]
        p = os.path.join(SRC, *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load_file(self, name, path):
        """a file of a library, under the rules of the package"""
        self.files[name] = path
        return self.load(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.shims:
            return self.shims[name]
        if name in self.opaque:
            m = self.mods[name] = Missing(name)
            return m
        path, pkg = (self.files[name], False) if name in self.files else self.path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        parent = name.rpartition(".")[0]
        if parent.count(".") and parent not in self.mods:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        if path not in COMPILED:
            src = open(path).read()
            tree = Rewriter().visit(ast.parse(src))
            ast.fix_missing_locations(tree)
            COMPILED[path] = (src, ast.parse(src), compile(tree, path, "exec"))
        src, plain, code = COMPILED[path]
        self.tree[name] = (path, src, plain)
        m = types.ModuleType("qpvc." + name)
        m.__dict__["__builtins__"] = dict(BUILTINS, __import__=self.importer(name, pkg))
        m.__dict__["__name__"] = "qpvc." + name
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        if name == "qp":
            # the package file only re-exports; its parts are loaded as needed
            return m
        exec(code, m.__dict__)
        return m

    def importer(self, me, pkg):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                base = me.split(".")
                base = base[:len(base) - (level - 1 if pkg else level)]
                name = ".".join(base + ([name] if name else []))
            if name in self.shims:
                m = self.shims[name]
                if fromlist:
                    return m
                root = name.split(".")[0]
                return self.shims.get(root, m)
            if name in self.files and fromlist:
                return self.load(name)
            if name == "qp" or name.startswith("qp."):
                if name == "qp":
                    q = self.load("qp")
                    for a in fromlist or ():
                        if not hasattr(q, a):
                            setattr(q, a, self.load("qp." + a))
                    return q
                m = self.load(name)
                for a in fromlist or ():
                    if not hasattr(m, a) and os.path.exists(self.path(name + "." + a)[0]):
                        setattr(m, a, self.load(name + "." + a))
                return m if fromlist else self.load("qp")
            if name in ("sys", "os", "logging", "enum", "collections", "typing", "abc", "functools", "operator", "math", "itertools", "warnings", "deprecated", "time", "re"):
                if name == "deprecated":
                    m = types.ModuleType("deprecated")
                    m.deprecated = lambda **k: (lambda f: f)
                    return m
                if name == "functools":
                    return self.functools()
                return __import__(name, globals, locals, fromlist, 0)
            m = Missing(name)
            return m
        return imp

    def functools(self):
        import functools
        m = types.ModuleType("functools")
        m.partial, m.wraps, m.lru_cache = functools.partial, functools.wraps, functools.lru_cache

        def reduce(f, xs, *a):
            xs = sequence(xs)
            if not isinstance(xs, list):
                from . import sshim
                return sshim.merge_digests(f, xs, *a)
            return functools.reduce(f, xs, *a)
        m.reduce = reduce
        return m
