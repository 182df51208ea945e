from .common import *
from .P10 import builds


def spec(tier, seed):
    runs = conc_runs("hot-asan", tier, seed, n=1, rounds=80, prefix="asan") + conc_runs("hot-pert", tier, seed + 50, n=1, rounds=200) \
        + pre_runs("hot-pert", tier, seed, n=1, execs=30000) + pre_runs("hot-asan", tier, seed + 5, n=1, execs=9000, prefix="preasan") \
        + sched_runs("hot-pert", tier, seed, n=2, execs=20000)
    return {"builds": builds(), "runs": runs, "rule": CONC_RULE,
            "assumptions": ["string keys have no zero byte and at most 254 bytes, the limit the trie documents"]}
