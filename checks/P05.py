from .common import *

CFGS = {
    "omcs": "-DCFG_OMCS", "omcs-off": "-DCFG_OMCS -DOMCS_OFFSET", "omcs-opread": "-DCFG_OMCS -DOMCS_OFFSET -DOMCS_OP_READ",
    "omcs-opread-cb": "-DCFG_OMCS -DOMCS_OFFSET -DOMCS_OP_READ -DOMCS_OP_READ_NEW_API_CALLBACK -DOMCS_OP_READ_NEW_API_CALLBACK_BASELINE",
    "omcs-opread-ptr": "-DCFG_OMCS -DOMCS_OP_READ", "omcs-st": "-DCFG_OMCS -DST_ONLY", "omcs-nofaa": "-DCFG_OMCS -DNO_FAA",
    "mcs": "-DCFG_MCS", "rw": "-DCFG_RW -DMCSRW_LOCK_ONLY", "rw-off": "-DCFG_RW -DMCSRW_LOCK_ONLY -DOMCS_OFFSET",
    "rw-writer": "-DCFG_RW -DRWLOCK_WRITER_PREFERENCE", "rw-writer-off": "-DCFG_RW -DRWLOCK_WRITER_PREFERENCE -DOMCS_OFFSET",
    "rw-reader": "-DCFG_RW -DRWLOCK_READER_PREFERENCE",
    "rw-central": "-DCFG_RW -DRWLOCK_WRITER_PREFERENCE -DMCSRW_LOCK_CENTRALIZED", "std": "-DCFG_STD",
}


def spec(tier, seed):
    builds, runs = [], []
    k = 1 if tier == "quick" else 15
    for i, (n, d) in enumerate(CFGS.items()):
        fl = f"-I$REPO/OptiQL -DCFG_NAME='\"{n}\"' {d}"
        builds += [cxx(f"latch-{n}{x}", "latches.cc", flags=fl, libs="-lnuma -lpthread", san=san, deps=["OptiQL/latches"]) for x, san in (("", PERT), ("-mem", MEM))]
        runs += sched_runs(f"latch-{n}-mem", tier, seed + 10 * i, n=1, execs=200000 if n.startswith("rw") else 50000, prefix=n + "-sched", thorough=15)
        runs.append({"name": n, "build": f"latch-{n}", "cores": 2, "args": [f"seed={seeds(seed, 10 * i)}", f"rounds={16 * k}", "ops=4000"]})
    return {"builds": builds, "runs": runs,
            "rule": "one evaluation is one contended round on fresh latches; distinct counts different grant orders (hash of the sequence of "
                    "threads that held each latch exclusively), counted when the latch passed between threads; in the controlled "
                    "schedules (*-sched) one evaluation is one execution of short scripts of two to four threads of which one runs at a time and the turn may pass at "
                    "every memory access of the latch code, distinct by hash of the switch points",
            "assumptions": ["a latch is used with queue nodes or without, not both at once",
                            "opportunistic reads are checked where the lock word carries the version (OMCS_OFFSET), as the code documents"]}
