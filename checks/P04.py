from .common import *
from .P03 import builds


def spec(tier, seed):
    runs = conc_runs("optiql-off-asan", tier, seed, n=1, rounds=60, prefix="asan") + conc_runs("optiql-off-pert", tier, seed + 50, n=1, rounds=140) \
        + conc_runs("optiql-ptr-asan", tier, seed + 60, n=1, rounds=60, prefix="ptrasan") + conc_runs("optiql-noctx-pert", tier, seed + 80, n=1, rounds=140, prefix="noctx") \
        + pre_runs("optiql-off-pert", tier, seed, n=1, execs=30000) + pre_runs("optiql-ptr-asan", tier, seed + 5, n=1, execs=9000, prefix="preasan") \
        + sched_runs("optiql-off-pert", tier, seed, n=1, execs=20000) + sched_runs("optiql-ptr-mem", tier, seed + 3, n=1, execs=15000, prefix="schedmem")
    return {"builds": builds(), "runs": runs, "rule": CONC_RULE,
            "assumptions": ["keys are prefix-free and identifiers are unique per key and version, as the tree requires",
                            "range reads are not run concurrently with writers (the statement covers point operations)"]}
