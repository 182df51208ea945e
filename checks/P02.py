from .common import *
from .P01 import B


def spec(tier, seed):
    b = [cxx("artolc-asan", "artolc.cc", san=ASAN, **B), cxx("artolc-pert", "artolc.cc", san=PERT, **B), cxx("artolc-mem", "artolc.cc", san=MEM, **B)]
    runs = conc_runs("artolc-asan", tier, seed, n=2, rounds=60, prefix="asan") + conc_runs("artolc-pert", tier, seed + 50, n=1, rounds=160) \
        + pre_runs("artolc-pert", tier, seed, n=1, execs=30000) + pre_runs("artolc-asan", tier, seed + 5, n=1, execs=9000, prefix="preasan") \
        + sched_runs("artolc-pert", tier, seed, n=1, execs=20000) + sched_runs("artolc-mem", tier, seed + 3, n=1, execs=15000, prefix="schedmem")
    return {"builds": b, "runs": runs, "rule": CONC_RULE,
            "assumptions": ["keys are prefix-free and identifiers are unique per key and version, as the tree requires",
                            "range reads are not run concurrently with writers (the statement covers point operations)"]}
