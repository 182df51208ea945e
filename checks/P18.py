from .common import *
WHFL = "-I$REPO/wormhole -march=native"
WHC = "-x c -std=gnu18 -DNOSIGNAL"
WHLIB = [(f"$REPO/wormhole/{f}.c", WHC) for f in ("kv", "lib", "wh")]
WHASAN = ASAN.replace("undefined", "undefined -fno-sanitize=alignment,nonnull-attribute -DHEAPCHECKING")


def builds():
    return [cxx("wh-seq", ["wormhole.cc"] + WHLIB, san=WHASAN, flags=WHFL, deps=["wormhole"]),
            cxx("wh-pert", ["wormhole.cc"] + WHLIB, san=PERT, flags=WHFL, deps=["wormhole"])]


def spec(tier, seed):
    runs = seq_runs("wh-seq", tier, seed, n=6, cases=80) + seq_runs("wh-pert", tier, seed + 50, n=2, cases=500, prefix="plain")
    return {"builds": builds(), "runs": runs, "rule": SEQ_RULE,
            "assumptions": ["prefixes shared by keys are shorter than 65536 bytes, the limit of the tree's anchors"]}
