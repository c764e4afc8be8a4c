"""Decide one property: discharge the contract obligations generated from /repo's current source (vc/), then run the
run-time contract tests (rac/) which replay counterexamples and stand in, bounded, for what the generator cannot reach.

Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVID, "replays")
BUDGET = {"quick": 40.0, "thorough": 420.0}
HARD = {"quick": 240.0, "thorough": 560.0}


def rac_child(prop, seed, tier, scratch, extra=(), hard=None, budget=None):
    out = os.path.join(scratch, "out.json")
    for f in (out, out + ".now"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [sys.executable, os.path.join(HERE, "rac", "child.py"), prop, str(seed), tier, str(budget or BUDGET[tier]), out] + [str(e) for e in extra]
    log = open(os.path.join(scratch, "log"), "w")
    try:
        rc = subprocess.call(cmd, cwd=scratch, stdout=log, stderr=log, timeout=hard or HARD[tier])
    except subprocess.TimeoutExpired:
        rc = "timeout"
    log.close()
    if os.path.exists(out) and rc == 0:
        return json.load(open(out))
    now = open(out + ".now").read().split() if os.path.exists(out + ".now") else None
    return dict(died=rc, now=now, log=open(os.path.join(scratch, "log")).read()[-3000:])


def write_replay(prop, name, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, name))
    json.dump(rec, open(path, "w"), indent=1, default=str)
    return path


def known(prop):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    for line in open(p):
        line = line.strip()
        if line.startswith("finding: property=%s " % prop):
            out.append(line.split(" ", 2)[2])
    return out


def search(prop, seed, scratch, seconds=150.0):
    """an obligation failed or stayed undecided: look harder for an input that shows it, with many other seeds"""
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        d = os.path.join(scratch, "search%d" % k)
        os.makedirs(d)
        return rac_child(prop, seed + 1000 + k, "thorough", d, hard=seconds + 60, budget=seconds)
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(one, range(6)))
    for r in rs:
        for f in r.get("failures", [])[:1]:
            return [(write_replay(prop, "%s-%i" % (f["test"], f["k"]), f), "")]
    return []


def replay(prop, path):
    rec = json.load(open(path))
    print(json.dumps(rec, indent=1)[:6000])
    if "test" in rec:
        scratch = tempfile.mkdtemp(prefix="qpv_")
        try:
            r = rac_child(prop, rec["seed"], "quick", scratch, (rec["test"], rec["seed"], rec["k"]))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        bad = r.get("message") or r.get("import_error") or ("died" in r and "ended: %s" % r["died"])
        print("REPLAY:", bad or "the property held")
        return 1 if bad else 0
    return 0


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="qpv_")
    violations = []          # (replay path, suffix)
    try:
        vc, vc_error = None, None
        if os.path.exists(os.path.join(HERE, "vc", "run.py")):
            sys.path.insert(0, HERE)
            try:
                from vc import run as vcrun
                vc = vcrun.run(prop, tier, seed, scratch)
            except Exception as e:      # an error of the generator is no alarm: the run-time contracts decide alone
                vc_error = "%s: %s" % (type(e).__name__, e)
        r = rac_child(prop, seed, tier, scratch)
        if r.get("import_error"):
            violations.append((write_replay(prop, "import", r), ""))
        elif "died" in r:
            # the code under test ended the process or never came back: ask again for that case alone
            if r["now"]:
                name, s, k = r["now"]
                r2 = rac_child(prop, int(s), tier, scratch, (name, s, k), hard=200.0)
                if "died" in r2 or r2.get("message"):
                    violations.append((write_replay(prop, "%s-%s" % (name, k), dict(
                        test=name, seed=int(s), k=int(k), message=r2.get("message") or "no answer: %s" % r2["died"], log=r2.get("log"))), ""))
                elif r["died"] != "timeout":
                    violations.append((write_replay(prop, "died", r), ""))
        else:
            for f in r["failures"][:3]:
                violations.append((write_replay(prop, "%s-%i" % (f["test"], f["k"]), f), ""))
        if vc is not None:
            if (vc["failed"] or vc["undecided"]) and not violations and time.time() - t0 < 640:
                # a witness for the failed obligation; for undecided ones a deeper bounded check stands in
                violations += search(prop, seed, scratch, 150.0 if vc["failed"] else 90.0)
            for f in vc["failed"]:
                wit = violations[0][0] if violations else None
                f = dict(f, witness=wit)
                if wit is None:
                    violations.append((write_replay(prop, "obligation-%s" % f["id"], f), " no-failing-input-found"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    evidence(prop, tier, seed, vc, r, violations, time.time() - t0, vc_error)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if vc is not None:
        print("%s: %d functions under contract, %d obligations, %d discharged, %d undecided" % (
            prop, len(vc["functions"]), vc["obligations"], vc["discharged"], len(vc["undecided"])))
    print("%s: %s run-time contract evaluations, %.1f s" % (prop, r.get("evaluations"), time.time() - t0))
    for path, suffix in violations[:3]:
        try:
            rec = json.load(open(path))
            print("  " + str(rec.get("message") or rec.get("id") or "")[:1500].replace("\n", "\n  "))
        except Exception:
            pass
        print("VIOLATION property=%s replay=%s%s" % (prop, path, suffix))
    return 1 if violations else 0


def evidence(prop, tier, seed, vc, r, violations, wall, vc_error=None):
    levels = json.load(open(os.path.join(HERE, "levels.json")))
    level = levels[prop]["level"]
    cov = dict(
        evaluations=r.get("evaluations", 0), distinct_nontrivial=r.get("distinct", 0),
        rule="random valid inputs of every kind of ensemble drawn from the seed; a case counts as distinct when its inputs differ "
             "from those of the other cases of the test, and every case calls the real code and evaluates the postcondition",
        samples=r.get("samples", []) or ["none"], bounded_per_test=r.get("per_test", {}))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=len(violations),
              assumptions=levels[prop].get("assumptions", []))
    cov.update(obligations=0, discharged=0, checker_cmd="python -m vc.run " + prop, trusted_base=[])
    if vc_error:
        cov["generator_error"] = vc_error
    if vc is not None:
        cov.update(obligations=vc["obligations"], discharged=vc["discharged"], checker_cmd=vc["checker_cmd"],
                   trusted_base=["%s (%d uses)" % kv for kv in sorted(vc["trusted"].items())], functions_under_contract=vc["functions"], undecided=vc["undecided"],
                   backends=vc["backends"], solver_s=vc["solver_s"], bounded_stand_ins=vc.get("bounded", []),
                   vacuity=vc.get("vacuity"), samples=cov["samples"] + vc.get("samples", []))
        ev["assumptions"] = ev["assumptions"] + vc["assumptions"]
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
