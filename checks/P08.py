from .common import *
LAY = {"soa": "BTreeOLC.h", "pair": "BTreeOLC_child_layout.h"}


def builds():
    return [cxx(f"btreeolc-{l}-{s}", "btreeolc.cc", san=san, flags=f"-I$REPO/BTreeOLC -DLAYOUT_HEADER='\"{h}\"'", deps=["BTreeOLC"])
            for l, h in LAY.items() for s, san in (("asan", ASAN), ("pert", PERT))]


def spec(tier, seed):
    k = 1 if tier == "quick" else 12
    runs = []
    for i, l in enumerate(LAY):
        runs += seq_runs(f"btreeolc-{l}-asan", tier, seed + 10 * i, n=3, cases=250, keys=8000, prefix=l)
        runs += seq_runs(f"btreeolc-{l}-pert", tier, seed + 10 * i + 5, n=1, cases=600, keys=8000, prefix=l + "plain")
        runs += [{"name": f"{l}-scans", "build": f"btreeolc-{l}-asan", "args": ["mode=scans", f"seed={seeds(seed, 7 + i)}", f"cases={400 * k}"]}]
    return {"builds": builds(), "runs": runs, "rule": SEQ_RULE, "assumptions": ["the tree offers no removal"]}
