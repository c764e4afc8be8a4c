"""Run-time assertion checking of the property postconditions on the real code.

A test is a function t(rng, case) decorated with @test("Cxx").  It draws its inputs from `rng`, calls the real code and
raises Violation (through the helpers below) when a postcondition is false.  An exception raised by the code under test
is a violation too, unless the test expects it.  A case is identified by (test name, seed, k) and can be replayed.
"""
import json, os, sys, time, traceback, warnings, zlib
import numpy as np

MULT = {"quick": 20, "thorough": 20}
TESTS = {}     # property -> list of (name, func, n_quick, n_thorough)


class Violation(Exception):
    pass


def test(prop, quick=25, thorough=400):
    def deco(f):
        TESTS.setdefault(prop, []).append((f.__name__, f, quick, thorough))
        return f
    return deco


class Case:
    """Carries the notes (the concrete inputs) of the running case"""
    def __init__(self, name, seed, k):
        self.name, self.seed, self.k = name, seed, k
        self.notes = {}
        self.key = None
        self.evals = 0

    def note(self, **kw):
        self.notes.update(kw)


def short(v, n=600):
    with np.printoptions(threshold=60, precision=17, linewidth=140):
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def fail(msg, **kw):
    raise Violation(msg + "".join("\n    %s = %s" % (k, short(v)) for k, v in kw.items()))


def check(cond, msg, **kw):
    if not bool(np.all(cond)):
        fail(msg, **kw)


def close(got, want, msg, rtol=1e-9, atol=1e-10, **kw):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        fail(msg + " (shape %s, expected %s)" % (got.shape, want.shape), got=got, expected=want, **kw)
    ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = tuple(int(a) for a in np.argwhere(~ok)[0])
        fail(msg + " at index %s: got %r, expected %r" % (i, float(got[i]), float(want[i])), got=got, expected=want, **kw)


def same(got, want, msg, **kw):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        fail(msg + " (shape %s, expected %s)" % (got.shape, want.shape), got=got, expected=want, **kw)
    eq = got == want
    if got.dtype.kind == "f" and want.dtype.kind == "f":
        eq = eq | (np.isnan(got) & np.isnan(want))
    if not np.all(eq):
        fail(msg, got=got, expected=want, **kw)


def raises(func, msg, excs=(Exception,)):
    try:
        r = func()
    except excs:
        return
    fail(msg + ": accepted", result=r)


def rng_for(seed, name, k):
    return np.random.default_rng([int(seed), zlib.crc32(name.encode()), int(k)])


def run_case(prop, name, seed, k):
    func = [f for (n, f, _, _) in TESTS[prop] if n == name][0]
    case = Case(name, seed, k)
    warnings.simplefilter("ignore")
    rng = rng_for(seed, name, k)
    np.random.seed(int(rng.integers(2**31)))
    try:
        func(rng, case)
        return case, None
    except Violation as e:
        return case, str(e)
    except Exception as e:              # the code under test raised
        tb = traceback.format_exc(limit=-14)
        return case, "unexpected exception %s: %s\n%s" % (type(e).__name__, e, tb)


def run(prop, seed, tier, budget=None, names=None, progress=None):
    """Run all the tests of a property.  Returns a summary dict."""
    t0 = time.time()
    out = dict(evaluations=0, per_test={}, failures=[], samples=[], distinct=set())
    for (name, func, nq, nt) in TESTS.get(prop, []):
        if names is not None and name not in names:
            continue
        n = nq if tier == "quick" else nt
        if n > 1:
            n *= MULT[tier]
        done = 0
        t1 = time.time()
        for k in range(n):
            if budget is not None and time.time() - t1 > budget / len(TESTS[prop]) and done >= min(2, n):
                break
            if progress:
                with open(progress, "w") as f:
                    f.write("%s %s %s" % (name, seed, k))
            case, err = run_case(prop, name, seed, k)
            done += 1
            out["evaluations"] += 1
            out["distinct"].add((name, zlib.crc32(short(case.notes, 4000).encode())))
            if k == 0 and len(out["samples"]) < 4:
                out["samples"].append("%s: %s" % (name, short(case.notes, 300)))
            if err is not None:
                out["failures"].append(dict(test=name, seed=seed, k=k, message=err,
                                            inputs={a: short(b, 2000) for a, b in case.notes.items()}))
                if len(out["failures"]) >= 5:
                    break
        out["per_test"][name] = done
    out["distinct"] = len(out["distinct"])
    out["wall_s"] = time.time() - t0
    return out
