"""Runs the contracts of a property: explores the paths of every contract case, generates the obligations from the current
source of /repo and discharges them."""
import importlib, json, multiprocessing, os, signal, sys, time, traceback
import logging
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(20000)
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

FILES = ["c_utils", "c_dist", "c_codec", "c_ens", "c_metrics", "c_misc", "c_conv", "c_gen", "c_real", "c_more"] + os.environ.get("VC_DEV", "").split()


def contracts():
    from . import api
    if not api.CONTRACTS:
        for f in FILES:
            if os.path.exists(os.path.join(os.path.dirname(__file__), f + ".py")):
                importlib.import_module("vc." + f)
    return api.CONTRACTS


class Timeout(BaseException):
    pass


def alarm(*a):
    raise Timeout()


def model_text(m, limit=60):
    if m is None or isinstance(m, str):
        return str(m)
    try:
        ds = [d for d in m.decls() if "?" not in d.name() and "#" not in d.name() and "@" not in d.name()]
        return "; ".join("%s = %s" % (d.name(), str(m[d]).replace("\n", " ")[:120]) for d in ds[:limit])
    except Exception as e:
        return "model not printable (%s)" % e


def unpatch(world):
    for owner, name, old, had in reversed(world.patches if world else ()):
        if had:
            setattr(owner, name, old)
        else:
            delattr(owner, name)
    if world:
        world.patches = []


def earlier_use(ct, case, k, again):
    """the function was used before, with arguments of which nothing is known; its obligations are those of the plain case"""
    from . import solve
    from .sym import ctx, PathEnd, Unsupported
    n = len(ctx.obligations)
    ctx.prefix, ctx.earlier, ctx.alt = "earlier_", True, []
    if again != "before":               # the same object, with another form of request perhaps
        ctx.same = True
        if again == "in another form":
            case = ct.cases[(ct.cases.index(case) + 1) % len(ct.cases)]
        elif again.startswith("after "):
            ct = [c for c in contracts() if c.target == again[6:] and case in c.cases][0]
    ended = True
    try:
        ct.fn(k, case) if ct.cases != [None] else ct.fn(k)
    except (Unsupported, Timeout, RecursionError):
        raise
    except PathEnd:
        ended = False
    except Exception:
        pass
    finally:
        ctx.prefix, ctx.earlier = "", False
        unpatch(k.w)
        del ctx.obligations[n:]
        ctx.hints, ctx.loops, ctx.loop_idx, ctx.depth, ctx.nested, ctx.nonfinite = [], [], [], 0, 0, False
    if ctx.same and not ctx.kept:
        raise Unsupported("no object is kept")
    if ended:
        fs = solve.ground(list(ctx.pathcond) + list(ctx.ghost), list(ctx.facts), [], rounds=2, hints=[])
        ended = solve.run_z3(fs, 2000)[0] != "unsat"
    if not ended:                       # another path of the earlier use, then
        ctx.work.extend(ctx.alt)
        raise PathEnd()


def explore(ct, case, res, again=False):
    """one contract case: all paths"""
    import z3
    from . import api, load, sshim, solve, sym
    from .sym import ctx, Unsupported, PathEnd, engine_gap
    ctx.reset_all()
    world, shims = None, sshim.shims()
    work = [[]]
    paths = ended = 0
    sat_paths = 0
    seen_goals = {}
    while work:
        dec = work.pop()
        ctx.reset_path(dec, work)
        unpatch(world)
        world = load.World(shims)       # modules of its own for every path: nothing is remembered from another one
        world.patches = []
        k = api.K(world)
        outcome = "end"
        try:
            if again:
                earlier_use(ct, case, k, again)
            ct.fn(k, case) if ct.cases != [None] else ct.fn(k)
        except PathEnd:
            outcome = "infeasible"
        except (Unsupported, Timeout):
            raise
        except RecursionError as e:
            raise Unsupported("recursion")
        except Exception as e:
            engine_gap(e)
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/qp/" in f.filename]
            w = where[-1] if where else tb[-1]
            if not where:
                raise Unsupported("contract error: %s: %s at %s:%d" % (type(e).__name__, e, w.filename, w.lineno))
            if not isinstance(e, (ValueError, IndexError, KeyError, ZeroDivisionError)):
                # a name or a signature the contract does not know: the code is organised differently
                raise Unsupported("%s: %s in %s" % (type(e).__name__, e, w.name))
            ctx.oblige("no %s (%s) in %s" % (type(e).__name__, e, w.name), False, "safety")
            outcome = "raises"
        paths += 1
        res["stubs"].update(k.stubs)
        if paths > 400:
            raise Unsupported("too many paths")
        for ob in ctx.obligations:
            oid = "%s%s%s: %s" % (ct.target, "" if case is None else "[%s]" % (case,), "[used %s]" % again if again else "", ob.name)
            t0 = time.time()
            if ob.hyps is None:
                st, be, m = "discharged", "syntactic", None
            else:
                key = (ob.goal.get_id(), tuple(h.get_id() if hasattr(h, "get_id") else h for h in ob.hyps[0]), len(ob.hyps[1]))
                if key in seen_goals:
                    st, be, m = seen_goals[key]
                else:
                    st, be, m = solve.decide(ob)
                    seen_goals[key] = (st, be, m)
                    res.setdefault("keep", [])
            res["obs"].append(dict(id=oid, path=paths, status=st, backend=be, kind=ob.kind, s=round(time.time() - t0, 3), model=model_text(m) if st == "failed" else None,
                                   goal=str(ob.goal)[:400] if st != "discharged" else None))
            if st == "failed" and ob.kind == "safety" and ob.goal is not None and outcome == "raises":
                pass
        # vacuity: the hypotheses at the end of the path must not be contradictory
        if outcome == "end":
            ended += 1
            ob = sym.Obligation("false", z3.BoolVal(False), (list(ctx.pathcond) + list(ctx.ghost), list(ctx.facts), list(ctx.hints)))
            fs = solve.ground(ob.hyps[0], ob.hyps[1], [], rounds=3, hints=ob.hyps[2])
            r, _ = solve.run_z3(fs, 3000)
            if r != "unsat":
                sat_paths += 1
            if r == "sat":
                res["sat"] += 1
    res["paths"], res["ended"] = paths, sat_paths
    if not sat_paths and not any(o["status"] == "failed" for o in res["obs"]):
        raise Unsupported("vacuous: no feasible path reaches the end of the contract")


def casename(ct, case_i, again):
    c = ct.cases[case_i]
    return (None if c is None else str(c)) if not again else ("used %s" % again if c is None else "%s, used %s" % (c, again))


def one(args):
    idx, case_i, again, budget = args
    ct = contracts()[idx]
    case = ct.cases[case_i]
    from . import solve
    from .sym import Unsupported, ctx
    res = dict(target=ct.target, case=casename(ct, case_i, again), obs=[], stubs=set(), sat=0, paths=0, ended=0, status="ok", reason=None, note=ct.note)
    for k in ("queries", "feas"):
        solve.STATS[k] = 0
    solve.STATS["time"] = 0.0
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(budget))
    t0 = time.time()
    try:
        explore(ct, case, res, again)
    except Unsupported as e:
        res["status"], res["reason"] = "undecided", "%s" % e
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    except Timeout:
        res["status"], res["reason"] = "undecided", "time limit of %d s" % budget
    except BaseException as e:
        res["status"], res["reason"] = "undecided", "engine: %s: %s" % (type(e).__name__, e)
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    res["wall"] = round(time.time() - t0, 2)
    res["solver_s"] = round(solve.STATS["time"], 2)
    res["queries"] = solve.STATS["queries"]
    res["assumed"] = dict(ctx.assumed)
    res["stubs"] = sorted(res["stubs"])
    res.pop("keep", None)
    return res


def child(args, conn):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        conn.send(one(args))
    except BaseException as e:
        try:
            conn.send(dict(target="?", case=None, obs=[], stubs=[], sat=0, paths=0, ended=0, status="undecided", reason="engine: %r" % e, note="", wall=0, solver_s=0, queries=0, assumed={}))
        except BaseException:
            pass
    conn.close()


def run_all(jobs, budget, workers, total):
    """every job in a process of its own"""
    mp = multiprocessing.get_context("fork")
    todo, live, out = list(jobs), [], {}
    t_end = time.time() + total
    cs = contracts()

    def lost(j, why):
        ct = cs[j[0]]
        return dict(target=ct.target, case=casename(ct, j[1], j[2]), obs=[], stubs=[], sat=0, paths=0, ended=0, status="undecided", reason=why, note=ct.note,
                    wall=budget, solver_s=0, queries=0, assumed={})
    while todo or live:
        while todo and len(live) < workers and time.time() < t_end:
            j = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(j + (budget,), b))
            p.start()
            b.close()
            live.append((j, p, a, time.time()))
        if todo and time.time() >= t_end:
            for j in todo:
                out[j] = lost(j, "no time left")
            todo = []
        nxt = []
        for j, p, a, t0 in live:
            if a.poll(0):
                try:
                    out[j] = a.recv()
                except EOFError:
                    out[j] = lost(j, "the worker ended")
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            elif not p.is_alive():
                out[j] = lost(j, "the worker ended")
                a.close()
            elif time.time() - t0 > budget + 30 or time.time() > t_end + 30:
                p.kill()
                p.join()
                a.close()
                out[j] = lost(j, "time limit of %d s" % budget)
            else:
                nxt.append((j, p, a, t0))
        live = nxt
        time.sleep(0.02)
    return out


def run(prop, tier="quick", seed=1, scratch=None, only=None, workers=None):
    cs = contracts()
    jobs = []
    for i, ct in enumerate(cs):
        if prop is None or prop in ct.props:
            if only and not any(o in ct.target for o in only):
                continue
            for c in range(len(ct.cases)):
                if not os.environ.get("VC_AGAIN"):
                    jobs.append((i, c, False))
                if ct.again(ct.cases[c]) if callable(ct.again) else ct.again:
                    jobs.append((i, c, "before"))
    if prop in ("C09", None):
        from . import api
        for i, ct in enumerate(cs):
            if set(ct.fn.__code__.co_names) & api.KEPT and not (only and not any(o in ct.target for o in only)):
                for c in range(len(ct.cases)):
                    jobs += [(i, c, how) for how in ("before, the same object", "in another form")[:2 if ct.cases != [None] else 1]]
                if "flat" in ct.cases:
                    helpers = set(ct.fn.__code__.co_names) & api.KEPT
                    jobs += [(i, ct.cases.index("flat"), "after " + o.target) for o in cs
                             if o.target != ct.target and o.target.rsplit(".", 1)[0] == ct.target.rsplit(".", 1)[0] and "flat" in o.cases and set(o.fn.__code__.co_names) & api.KEPT == helpers]
    if not jobs:
        return None
    jobs.sort(key=lambda j: -cs[j[0]].size)
    budget = 100 if tier == "quick" else 280
    t0 = time.time()
    out = run_all(jobs, budget, workers or min(8, os.cpu_count() or 4), 420 if tier == "quick" else 700)
    res = dict(functions=[], obligations=0, discharged=0, undecided=[], failed=[], trusted={}, backends={}, solver_s=0.0, bounded=[], vacuity={}, samples=[],
               results=[])
    fns = {}
    for j in jobs:
        r = out[j]
        res["results"].append(r)
        f = fns.setdefault(r["target"], dict(function=r["target"], cases=[], obligations=0, discharged=0, paths=0, callee_contracts=set(), status="proved", note=r["note"]))
        f["cases"].append(r["case"] or "all inputs")
        f["paths"] += r["paths"]
        f["callee_contracts"].update(r["stubs"])
        res["solver_s"] += r["solver_s"]
        for k, v in r["assumed"].items():
            res["trusted"][k] = res["trusted"].get(k, 0) + v
        fails = [o for o in r["obs"] if o["status"] == "failed"]
        unds = [o for o in r["obs"] if o["status"] == "undecided"]
        res["obligations"] += len(r["obs"])
        f["obligations"] += len(r["obs"])
        ok = [o for o in r["obs"] if o["status"] == "discharged"]
        res["discharged"] += len(ok)
        f["discharged"] += len(ok)
        for o in ok:
            res["backends"][o["backend"]] = res["backends"].get(o["backend"], 0) + 1
        if r["status"] != "ok":
            f["status"] = "undecided"
            res["undecided"].append(dict(id="%s[%s]" % (r["target"], r["case"]), reason=r["reason"]))
        for o in unds:
            f["status"] = "undecided"
            res["undecided"].append(dict(id=o["id"], reason="no answer from the solvers"))
        # an obligation of a case that ended undecided is reported all the same: its hypotheses are those of its own path
        for o in fails:
            f["status"] = "failed"
            if not any(x["id"] == o["id"] for x in res["failed"]):
                res["failed"].append(dict(id=o["id"], function=r["target"], case=r["case"], goal=o["goal"], model=o["model"], kind=o["kind"]))
        if len(res["samples"]) < 6 and ok:
            res["samples"].append(dict(obligation=ok[-1]["id"], backend=ok[-1]["backend"], seconds=ok[-1]["s"]))
        res["vacuity"]["%s[%s]" % (r["target"], r["case"])] = dict(paths=r["paths"], end_reached=r["ended"], shown_satisfiable=r["sat"])
    for f in fns.values():
        f["callee_contracts"] = sorted(f["callee_contracts"])
        res["functions"].append(f)
    res["wall"] = round(time.time() - t0, 1)
    res["checker_cmd"] = "%s -m vc.run %s  (in /verif; obligations generated from %s, decided by z3 %s, then cvc5)" % (
        sys.executable, prop or "-", os.environ.get("QP_SRC", "/repo/src/qp"), __import__("z3").get_version_string())
    res["assumptions"] = ["machine arithmetic treated as mathematical: real numbers for floats, unbounded integers",
                          "contracts of numpy and scipy functions as listed in trusted_base are assumed"] + (
        ["undecided obligations are covered by the bounded run-time contracts only"] if res["undecided"] else [])
    res["solver_s"] = round(res["solver_s"], 1)
    return res


if __name__ == "__main__":
    prop = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != "-" else None
    only = sys.argv[2:] or None
    r = run(prop, os.environ.get("TIER", "quick"), 1, None, only)
    if r is None:
        print("no contract")
        sys.exit(0)
    for x in r["results"]:
        n = len(x["obs"])
        d = sum(o["status"] == "discharged" for o in x["obs"])
        print("%-52s %-28s %s paths=%d end=%d sat=%d ob=%d/%d %.1fs solver=%.1fs %s" % (x["target"], x["case"], x["status"], x["paths"], x["ended"], x["sat"], d, n, x["wall"], x["solver_s"], x["reason"] or ""))
        for o in x["obs"]:
            if o["status"] != "discharged":
                print("     %s path %d %s: %s  %s\n        goal %s\n        model %s" % (o["status"], o["path"], o["kind"], o["id"], o["s"], (o["goal"] or "")[:300], (o["model"] or "")[:700]))
    print("obligations %d discharged %d failed %d undecided %d solver %.1f wall %.1f" % (r["obligations"], r["discharged"], len(r["failed"]), len(r["undecided"]), r["solver_s"], r["wall"]))
