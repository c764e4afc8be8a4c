"""python child.py PROPERTY SEED TIER BUDGET OUT [TEST SEED K]: run the run-time contract tests of a property"""
import importlib, json, os, sys, traceback, warnings, contextlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")
MODULES = ("t_eval", "t_ens", "t_codec", "t_metrics", "t_conv", "t_large", "t_scale")


def main():
    prop, seed, tier, budget, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4]), sys.argv[5]
    res = dict(import_error=None)
    try:
        import qp
        src = os.path.realpath(qp.__file__)
        if not src.startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep):
            raise RuntimeError("qp was imported from %s" % src)
        from rac import core
        for m in MODULES:
            importlib.import_module("rac." + m)
    except Exception as e:
        res["import_error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
        json.dump(res, open(out, "w"))
        return
    with open(os.devnull, "w") as nul, contextlib.redirect_stdout(nul):
        if len(sys.argv) > 6:
            test, s, k = sys.argv[6], int(sys.argv[7]), int(sys.argv[8])
            case, err = core.run_case(prop, test, s, k)
            res.update(message=err, inputs={a: core.short(b, 4000) for a, b in case.notes.items()})
        else:
            res.update(core.run(prop, seed, tier, budget, progress=out + ".now"))
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
