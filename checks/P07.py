from .common import *
from .P06 import builds


def spec(tier, seed):
    return {"builds": builds(), "rule": CONC_RULE,
            "runs": conc_runs("blink-asan", tier, seed, n=1, rounds=80, prefix="asan") + conc_runs("blink-pert", tier, seed + 40, n=1, rounds=200)
            + pre_runs("blink-pert", tier, seed, n=1, execs=30000) + sched_runs("blink-pert", tier, seed, n=2, execs=30000),
            "assumptions": ["the leaf scan and SearchUnsafe are documented as not thread-safe and are only called while no writer runs"]}
