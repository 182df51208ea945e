from .common import *


def builds():
    return [cxx(f"tlxmisc{p}", ["tlxmisc.cc"], flags=f"-DPART={p} -I$REPO/STX/tlx", san=TSAN if p == 4 else "-O1 -g -fsanitize=address -fno-omit-frame-pointer", cover=False, deps=["STX"]) for p in range(5)]


def spec(tier, seed):
    k = 1 if tier == "quick" else 40
    parts = ["heaps", "trees", "buffers", "stringview", "threads"]
    n = [2500, 1500, 6000, 500, 500]
    return {"builds": builds(), "rule": "distinct (structure, shape) states that were compared with the model",
            "runs": [{"name": f"{parts[p]}{i}", "build": f"tlxmisc{p}", "cores": 4 if p == 4 else 1, "args": [f"seed={seeds(seed, p * 10 + i)}", f"n={n[p] * k}"]} for p in range(5) for i in range(1 if p == 4 else 2)],
            "assumptions": ["comparators are strict weak orders, RadixHeap keys are not smaller than the insertion limit, iterators and references are not used after the element is gone"]}
