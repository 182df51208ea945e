from .common import *
SRCS = ["optiql.cc", "$REPO/OptiQL/Tree.cpp"]
OFF = "-DOMCS_LOCK -DIS_CONTEXTFUL -DOMCS_OP_READ -DOMCS_OFFSET"
PLAIN = "-DOMCS_LOCK -DIS_CONTEXTFUL"


def bld(name, san, defs, **kw):
    return cxx(name, SRCS, flags=f"-mavx2 -mbmi -I$REPO/OptiQL {defs}", libs="-lglog -lnuma -ltbb -lpthread", san=san, deps=["OptiQL"], **kw)


def builds():
    return [bld("optiql-off-asan", ASAN, OFF), bld("optiql-off-pert", PERT, OFF), bld("optiql-ptr-asan", ASAN, PLAIN),
            bld("optiql-ptr-pert", PERT, PLAIN), bld("optiql-ptr-mem", MEM, PLAIN), bld("optiql-noctx-pert", PERT, "-DOMCS_LOCK")]


def spec(tier, seed):
    runs = seq_runs("optiql-off-asan", tier, seed, n=4, cases=200) + seq_runs("optiql-ptr-asan", tier, seed + 20, n=3, cases=200, prefix="ptr") \
        + seq_runs("optiql-off-pert", tier, seed + 50, n=1, cases=600, prefix="plain")
    k = 1 if tier == "quick" else 10
    runs += [{"name": "expand", "build": "optiql-off-asan", "args": ["mode=expand", f"seed={seed}", f"cases={10 * k}"]},
             {"name": "expand-remove", "build": "optiql-ptr-pert", "args": ["mode=expand", "remove=1", f"seed={seed + 1}", f"cases={10 * k}"]}]
    return {"builds": builds(), "runs": runs, "rule": SEQ_RULE,
            "assumptions": ["keys are prefix-free and identifiers are unique per key and version, as the tree requires"]}
