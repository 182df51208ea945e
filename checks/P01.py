from .common import *
B = dict(flags="-mavx2 -I$REPO/ARTOLC", libs="-ltbb -lpthread", deps=["ARTOLC"])


def spec(tier, seed):
    b = [cxx("artolc-asan", "artolc.cc", san=ASAN, **B), cxx("artolc-pert", "artolc.cc", san=PERT, **B)]
    runs = seq_runs("artolc-asan", tier, seed, n=6, cases=250) + seq_runs("artolc-pert", tier, seed + 50, n=2, cases=600, prefix="plain")
    return {"builds": b, "runs": runs, "rule": SEQ_RULE,
            "assumptions": ["keys are prefix-free and identifiers are unique per key and version, as the tree requires"]}
