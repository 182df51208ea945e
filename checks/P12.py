from .common import *
FL = "-I$REPO/MassTree -include config.h"
LIB = [f"$REPO/MassTree/{f}.cc" for f in ("kvthread", "compiler", "str", "string", "straccum")]
MASAN = "-O1 -g -fsanitize=address,undefined -fno-sanitize=alignment,shift,enum -fno-omit-frame-pointer -DENABLE_ASSERTIONS=1"
LIBS = "-lpthread -ltbb -lnuma"


def builds():
    return [cxx("mt-seq", ["masstree.cc"] + LIB, san=MASAN + " -DFORCE_ENABLE_ASSERTIONS=1", flags=FL, libs=LIBS, deps=["MassTree"]),
            cxx("mt-pert", ["masstree.cc"] + LIB, san=PERT, flags=FL, libs=LIBS, deps=["MassTree"])]


def spec(tier, seed):
    runs = seq_runs("mt-seq", tier, seed, n=5, cases=150) + seq_runs("mt-seq", tier, seed + 30, n=1, cases=150, extra=["wrapper=1"], prefix="wrap") \
        + seq_runs("mt-pert", tier, seed + 50, n=2, cases=700, prefix="plain")
    return {"builds": builds(), "runs": runs, "rule": SEQ_RULE,
            "assumptions": ["keys have at most 255 bytes", "key buffers are readable for 8 bytes past their end, as the tree's key slicing assumes"]}
