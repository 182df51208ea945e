from .common import *
from .P12 import FL, LIB, MASAN, LIBS


def builds():
    return [cxx("mt-asan", ["masstree.cc"] + LIB, san=MASAN + " -DENABLE_PRECONDITIONS=0", flags=FL, libs=LIBS, deps=["MassTree"]),
            cxx("mt-pert", ["masstree.cc"] + LIB, san=PERT, flags=FL, libs=LIBS, deps=["MassTree"])]


def spec(tier, seed):
    runs = conc_runs("mt-asan", tier, seed, n=1, rounds=60, prefix="asan") + conc_runs("mt-pert", tier, seed + 50, n=1, rounds=200) \
        + conc_runs("mt-pert", tier, seed + 70, n=1, rounds=60, extra=["wrapper=1"], prefix="wrap") \
        + pre_runs("mt-pert", tier, seed, n=1, execs=30000) + pre_runs("mt-asan", tier, seed + 5, n=1, execs=9000, prefix="preasan") \
        + sched_runs("mt-pert", tier, seed, n=2, execs=20000)
    return {"builds": builds(), "runs": runs, "rule": CONC_RULE,
            "assumptions": ["keys have at most 255 bytes", "key buffers are readable for 8 bytes past their end, as the tree's key slicing assumes"]}
