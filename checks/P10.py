from .common import *
FL = "-march=native -I$REPO/HOT -I$REPO/HOT/include -include algorithm -include byteswap.h"


def builds():
    return [cxx(f"hot-{s}", [("hot.cc", f"-DPART={i}") for i in range(4)], san=san, flags=FL, libs="-lpthread -lnuma -ltbb -Wl,--allow-multiple-definition", deps=["HOT"]) for s, san in (("asan", ASAN_ONLY), ("pert", PERT))]


def spec(tier, seed):
    runs = seq_runs("hot-asan", tier, seed, n=5, cases=500, keys=8000) + seq_runs("hot-pert", tier, seed + 50, n=3, cases=1500, prefix="plain")
    return {"builds": builds(), "runs": runs, "rule": SEQ_RULE,
            "assumptions": ["string keys have no zero byte and at most 254 bytes, the limit the trie documents"]}
