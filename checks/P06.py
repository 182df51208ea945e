from .common import *


def builds():
    f = dict(flags="-I$REPO/BLinkTree", deps=["BLinkTree"])
    return [cxx("blink-asan", "blink.cc", san=ASAN, **f), cxx("blink-pert", "blink.cc", san=PERT, **f)]


def spec(tier, seed):
    return {"builds": builds(), "rule": SEQ_RULE,
            "runs": seq_runs("blink-asan", tier, seed, n=6, cases=240) + seq_runs("blink-pert", tier, seed + 30, n=2, cases=600, prefix="plain"),
            "assumptions": ["admissible node sizes: a leaf holds at least one key and an inner node at least two before the split threshold is reached, and thresholds are at most 1",
                            "removal is not implemented by the tree and not exercised"]}
