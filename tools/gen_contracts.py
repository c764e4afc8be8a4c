"""Write CONTRACTS.md: the functions under contract, the properties they serve and the cases"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import run
cts = run.contracts()
out = ["# Functions under contract", "", "Generated by `tools/gen_contracts.py` from `vc/c_*.py`.", ""]
for p in ["C%02d" % k for k in range(1, 26)]:
    out += ["## " + p, ""]
    for ct in cts:
        if p in ct.props:
            doc = " ".join((ct.fn.__doc__ or "").split())
            out.append("- `%s`%s%s" % (ct.target, " (%d cases)" % len(ct.cases) if len(ct.cases) > 1 else "", ": " + doc if doc else ""))
    out.append("")
open(os.path.join(HERE, "CONTRACTS.md"), "w").write("\n".join(out))
print(len(cts), "contracts,", sum(len(c.cases) for c in cts), "cases")
