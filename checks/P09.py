from .common import *
from .P08 import builds, LAY


def spec(tier, seed):
    k = 1 if tier == "quick" else 12
    runs = []
    for i, l in enumerate(LAY):
        runs += conc_runs(f"btreeolc-{l}-asan", tier, seed + 10 * i, n=1, rounds=70, prefix=l + "asan")
        runs += conc_runs(f"btreeolc-{l}-pert", tier, seed + 10 * i + 5, n=1, rounds=160, prefix=l)
        runs += pre_runs(f"btreeolc-{l}-pert", tier, seed + 10 * i, n=1, execs=30000, prefix=l + "pre") + pre_runs(f"btreeolc-{l}-asan", tier, seed + 10 * i + 3, n=1, execs=8000, prefix=l + "preasan")
        runs += sched_runs(f"btreeolc-{l}-pert", tier, seed + 10 * i, n=1, execs=20000, prefix=l + "sched")
        runs += [{"name": f"{l}-scans", "build": f"btreeolc-{l}-pert", "cores": 2, "args": ["mode=cscans", f"seed={seeds(seed, 7 + i)}", f"rounds={700 * k}"]}]
    return {"builds": builds(), "runs": runs, "rule": CONC_RULE, "assumptions": ["the tree offers no removal"]}
