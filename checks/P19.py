from .common import *
from .P18 import WHFL, WHLIB, WHASAN


def builds():
    return [cxx("wh-asan", ["wormhole.cc"] + WHLIB, san=WHASAN, flags=WHFL, deps=["wormhole"]),
            cxx("wh-pert", ["wormhole.cc"] + WHLIB, san=PERT, flags=WHFL, deps=["wormhole"])]


def spec(tier, seed):
    runs = conc_runs("wh-asan", tier, seed, n=1, rounds=60, prefix="asan") + conc_runs("wh-pert", tier, seed + 50, n=2, rounds=100) \
        + pre_runs("wh-pert", tier, seed, n=1, execs=15000) + pre_runs("wh-asan", tier, seed + 5, n=1, execs=5000, prefix="preasan") \
        + sched_runs("wh-pert", tier, seed, n=2, execs=5000)
    return {"builds": builds(), "runs": runs, "rule": CONC_RULE,
            "assumptions": ["a reference that is idle is parked, as the interface demands", "a thread that holds an iterator does nothing else with its reference"]}
